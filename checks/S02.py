"""S02 — set() reports failure by returning False, never by raising."""
from sa.oblig import Check

check = Check('S02', 'Scalar set() never raises on wire or Python data')

CLASSES = [
    ('String', 'String', 'flatland.schema.scalars:String.adapt'),
    ('String-nostrip', 'String.using(strip=False)', 'flatland.schema.scalars:String.adapt'),
    ('Integer', 'Integer', 'flatland.schema.scalars:Number.adapt'),
    ('Integer-unsigned', 'Integer.using(signed=False)', 'flatland.schema.scalars:Number.adapt'),
    ('Long', 'Long', 'flatland.schema.scalars:Number.adapt'),
    ('Float', 'Float', 'flatland.schema.scalars:Number.adapt'),
    ('Float-unsigned', 'Float.using(signed=False)', 'flatland.schema.scalars:Number.adapt'),
    ('Decimal', 'Decimal', 'flatland.schema.scalars:Number.adapt'),
    ('Decimal-unsigned', 'Decimal.using(signed=False)', 'flatland.schema.scalars:Number.adapt'),
    ('Boolean', 'Boolean', 'flatland.schema.scalars:Boolean.adapt'),
    ('Date', 'Date', 'flatland.schema.scalars:Temporal.adapt'),
    ('Date-nostrip', 'Date.using(strip=False)', 'flatland.schema.scalars:Temporal.adapt'),
    ('DateTime', 'DateTime', 'flatland.schema.scalars:Temporal.adapt'),
    ('Time', 'Time', 'flatland.schema.scalars:Temporal.adapt'),
    ('Enum', 'Enum.valued(u"a", u"b")', 'flatland.schema.scalars:Constrained.adapt'),
    ('Enum-Integer', 'Enum.using(child_type=Integer).valued(1, 2)', 'flatland.schema.scalars:Constrained.adapt'),
    ('Constrained', 'Constrained.using(child_type=Integer)', 'flatland.schema.scalars:Constrained.adapt'),
]
KINDS = ['none', 'bool', 'int', 'float', 'text', 'bytes', 'list', 'tuple', 'dict', 'date', 'time', 'datetime', 'decimal', 'object']


def make(label, expr, anchor):
    @check.ob('set-' + label, [anchor, 'flatland.schema.scalars:Scalar.set'],
              'no exception escapes set(v) for any v')
    def ob(ctx):
        v = ctx.sym('v', *KINDS)
        ns = ctx.do('el = %s()' % expr)
        el = ns['el']
        r = ctx.m(el, 'set', v)
        ctx.check(ctx.kindset(r) == set(['bool']), 'set() returned %s' % ctx.show(r))
        u = ctx.attr(el, 'u')
        ctx.check(ctx.kindset(u) == set(['text']), '.u is not text: %s' % ctx.show(u))
        if not ctx.truth(r):
            ctx.check(ctx.attr(el, 'value') is None, 'set() returned False but .value is %s' % ctx.show(ctx.attr(el, 'value')))
        ctx.check(ctx.same(ctx.attr(el, 'raw'), v), '.raw is not the value that was set')


for c in CLASSES:
    make(*c)
