"""C10 — .raw remembers the last input."""
from sa.oblig import Check

check = Check('C10', 'raw holds what set() was last given, on every element type')
C = 'flatland.schema.containers:'
PRE = '''
    Child = String.named(u'x')
    class Comp(Compound):
        field_schema = (String.named(u'a'),)
        def compose(self):
            return self[u'a'].u, self[u'a'].value
        def explode(self, value):
            BOOM(value)
            self[u'a'].set(value)
    K = %s
'''
KINDS = {
    'String': 'String', 'Integer': 'Integer', 'Long': 'Long', 'Float': 'Float', 'Decimal': 'Decimal', 'Boolean': 'Boolean',
    'Date': 'Date', 'Time': 'Time', 'DateTime': 'DateTime', 'Enum': 'Enum.valued(u"a", u"b")',
    'Constrained': 'Constrained', 'List': 'List.of(Child)', 'Array': 'Array.of(Child)', 'MultiValue': 'MultiValue.of(Child)',
    'JoinedString': 'JoinedString', 'Compound': 'Comp', 'DateYYYYMMDD': 'DateYYYYMMDD',
}


def boom(ctx):
    def f(v):
        if ctx.I.decide(('refused', ctx.I.tkey(v)), 'explode() refuses'):
            ctx.do('raise ValueError(1)')
    return ctx.fn('boom', f)


def make(kind):
    anchor = [C + 'Sequence.set'] if kind in ('List', 'Array', 'MultiValue') else ['flatland.schema.base:Element.set_flat']

    @check.ob('set-' + kind, anchor, '%s: after set(v), succeeding or not, .raw is v' % kind, raises='undecided')
    def ob(ctx):
        ns = ctx.do(PRE % KINDS[kind], BOOM=boom(ctx))
        el = ctx.call(ns['K'])
        ctx.check(ctx.R(ctx.attr(el, 'raw')) is ctx.R(ctx.get('flatland.schema.base:Unset')), 'a new element has a raw value')
        v = ctx.sym('v', 'none', 'text', 'int', 'object', 'list', 'date')
        if ctx.choose(False, True):
            ctx.catch(lambda: ctx.m(el, 'set', u'earlier'))
        ctx.m(el, 'set', v)
        ctx.check(ctx.same(ctx.attr(el, 'raw'), v), 'set(v) leaves %s in .raw' % ctx.show(ctx.attr(el, 'raw')))


for k in sorted(KINDS):
    make(k)


def mapping(kind, src):
    @check.ob('set-' + kind, [C + 'Dict.set'], '%s: after set(v) .raw is v' % kind)
    def ob(ctx):
        el = ctx.do('el = %s()' % src)['el']
        n = ctx.choose(0, 1)
        v = ctx.do('v = {u"a": W}' if n else 'v = {}', W=ctx.text('w'))['v']
        if ctx.choose('dict', 'pairs') == 'pairs':
            v = ctx.do('v = list(V.items())', V=v)['v']
        ctx.m(el, 'set', v)
        ctx.check(ctx.R(ctx.attr(el, 'raw')) is ctx.R(v), 'set(v) leaves %s in .raw' % ctx.show(ctx.attr(el, 'raw')))


mapping('Dict', 'Dict.of(String.named(u"a"))')
mapping('SparseDict', 'SparseDict.of(String.named(u"a"))')


@check.ob('mapping', [C + 'Mapping.set'], 'Mapping: after set(v) .raw is v')
def mapping_(ctx):
    ns = ctx.do('''
        class K(Mapping):
            field_schema = (String.named(u"a"),)
        el = K()
        v = {u"a": W}
        el.set(v)
    ''', W=ctx.text('w'))
    ctx.check(ctx.R(ctx.attr(ns['el'], 'raw')) is ctx.R(ns['v']), 'set(v) leaves %s in .raw' % ctx.show(ctx.attr(ns['el'], 'raw')))


@check.ob('flat', ['flatland.schema.base:Element.set_flat'],
          'set_flat forgets the earlier raw value; a scalar named by a pair remembers that pair')
def flat(ctx):
    kind = ctx.choose('String', 'Integer', 'List.of(String)', 'Array.of(String)', 'Dict.of(String.named(u"a"))',
                      'SparseDict.of(String.named(u"a"))', 'JoinedString', 'DateYYYYMMDD')
    ns = ctx.do('el = (%s).named(u"k")()' % kind)
    el = ns['el']
    el2 = ctx.do('el.raw = u"stale"', el=el)
    v = ctx.text('v')
    hit = ctx.choose(True, False)
    ctx.m(el, 'set_flat', ctx.I.new_list([(u'k' if hit else u'zz', v)]))
    raw = ctx.attr(el, 'raw')
    if hit and kind in ('String', 'Integer', 'JoinedString'):
        ctx.check(ctx.same(raw, v), 'a scalar named by the pair holds raw %s' % ctx.show(raw))
    else:
        ctx.check(ctx.R(raw) is ctx.R(ctx.get('flatland.schema.base:Unset')), '%s keeps raw %s after set_flat' % (kind, ctx.show(raw)))


@check.ob('init', ['flatland.schema.base:Element.__init__'], 'a value given to the constructor is set, and remembered')
def init(ctx):
    kind = ctx.choose('String', 'Integer', 'Boolean', 'Date', 'Constrained', 'JoinedString', 'Enum', 'DateTime', 'DateYYYYMMDD', 'Float', 'Decimal')
    v = ctx.sym('v', 'none', 'text', 'int')
    el = ctx.do('el = %s(V)' % kind, V=v)['el']
    ctx.check(ctx.same(ctx.attr(el, 'raw'), v), '%s(v).raw is %s' % (kind, ctx.show(ctx.attr(el, 'raw'))))
