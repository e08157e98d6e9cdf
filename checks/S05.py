"""S05 — Boolean adaptation and serialization tables."""
from sa.oblig import Check

check = Check('S05', 'Boolean accepts exactly its synonyms and serializes to true/false')
SC = 'flatland.schema.scalars:'


def instance(ctx):
    I = ctx.I
    t, f, ts, fs = [ctx.text(n) for n in ('TRUE', 'FALSE', 'TSYN', 'FSYN')]
    for i, a in enumerate((t, ts)):
        for b in (f, fs):
            I.add_neq(a, b)
    ns = ctx.do('''
        el = Boolean.named(u'b').using(true=T, false=F, true_synonyms=(TS,), false_synonyms=(FS,))()
    ''', T=t, F=f, TS=ts, FS=fs)
    return ns['el'], t, f, ts, fs


@check.ob('table', [SC + 'Boolean.adapt', SC + 'Boolean.serialize'],
          'text: True iff it equals true or a true synonym, False iff it equals false or a false synonym, '
          'otherwise set() fails; other values: bool(value); u is the configured true/false text')
def table(ctx):
    el, t, f, ts, fs = instance(ctx)
    v = ctx.sym('v', 'text', 'bytes') if ctx.choose('string', 'other') == 'string' else ctx.sym('v', 'none', 'bool', 'int', 'float', 'list', 'tuple', 'dict', 'object')
    r = ctx.m(el, 'set', v)
    value, u = ctx.attr(el, 'value'), ctx.attr(el, 'u')
    k = ctx.kindset(v)
    if k <= {'text', 'bytes'}:
        if ctx.I.eq(v, t) or ctx.I.eq(v, ts):
            want = True
        elif ctx.I.eq(v, f) or ctx.I.eq(v, fs):
            want = False
        else:
            want = None
    elif k & {'text', 'bytes'}:
        ctx.undecided('kind')
    else:
        want = ctx.truth(v)
    ctx.check(value is want, 'value is %s for %s, expected %s' % (ctx.show(value), ctx.show(v), want))
    ctx.check(ctx.truth(r) is (want is not None), 'set() returned %s' % ctx.show(r))
    if want is not None:
        ctx.check(ctx.same(u, t if want else f), 'u is %s for %s' % (ctx.show(u), want))


@check.ob('shipped-table', [SC + 'Boolean.adapt'], 'byte strings, white space, case and text of numbers are looked up like any other text in the shipped tables')
def shipped_table(ctx):
    el = ctx.do('el = Boolean.named(u"b")()')['el']
    t, f = ('1', 'on', 'true', 'True'), ('', 'off', 'false', 'False', '0')
    w = ctx.choose(*(t + f + (' ', ' on', 'ON', 'TRUE', '00', '01', '2', 'no', 'yes', 'None')))
    ns = ctx.do('v = W.encode("ascii") if B else W\nr = el.set(v)', W=w, B=ctx.choose(True, False), el=el)
    want = True if w in t else False if w in f else None
    ctx.check(ctx.R(ctx.attr(el, 'value')) is want and ctx.R(ns['r']) is (want is not None), '%r adapts to %s' % (w, ctx.show(ctx.attr(el, 'value'))))


@check.ob('roundtrip', [SC + 'Boolean.adapt', SC + 'Boolean.serialize'],
          'the serialized form of either truth value adapts back to it (configured and shipped tables)')
def roundtrip(ctx):
    if ctx.choose('configured', 'shipped') == 'configured':
        el = instance(ctx)[0]
    else:
        el = ctx.do('el = Boolean()')['el']
    b = ctx.choose(True, False)
    ctx.m(el, 'set', b)
    ctx.check(ctx.attr(el, 'value') is b, 'set(%s) stored %s' % (b, ctx.show(ctx.attr(el, 'value'))))
    u = ctx.attr(el, 'u')
    ctx.m(el, 'set', u)
    ctx.check(ctx.attr(el, 'value') is b, 'u %s of %s adapts to %s' % (ctx.show(u), b, ctx.show(ctx.attr(el, 'value'))))


@check.rule('shipped', [SC + 'Boolean'],
            'the shipped true and false tables are disjoint, contain the serialized form, and hold only texts')
def shipped(S):
    B = S.get(SC + 'Boolean')
    I = S.I
    from sa.oblig import Ctx
    t, f = I.getattr(B, 'true'), I.getattr(B, 'false')
    ts = [I.R(x) for x in I.iterate(I.getattr(B, 'true_synonyms'))]
    fs = [I.R(x) for x in I.iterate(I.getattr(B, 'false_synonyms'))]
    S.count('synonyms', len(ts) + len(fs))
    for x in [t] + ts:
        if x in [f] + fs:
            yield 'Boolean.true_synonyms', 'flatland/schema/scalars.py', B.node.lineno, '%r means both true and false' % x
    for x in [t, f] + ts + fs:
        if not isinstance(x, str):
            yield 'Boolean', 'flatland/schema/scalars.py', B.node.lineno, '%r is not text' % (x,)
