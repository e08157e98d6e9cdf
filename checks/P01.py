"""P01 — path expressions mean the same however many were compiled before."""
from sa.oblig import Check

check = Check('P01', 'Compiled path expressions are reusable and independent of the cache')
P = 'flatland.schema.paths:'


@check.ob('cache', [P + 'pathexpr'],
          'pathexpr(text) gives an expression for that very text whatever the cache already holds, full or not; the cache '
          'never exceeds its limit')
def cache(ctx):
    ns = ctx.do('''
        from flatland.schema import paths
        root = Dict.of(Dict.named(u'a').of(String.named(u'a'), String.named(u'b'), String.named(u' a'), String.named(u'a '), String.named(u'a.'), String.named(u'/b'), String.named(u'B')), String.named(u'b'), String.named(u'c'))()
        a = root[u'a']
        means = {u'a': a[u'a'], u'b': a[u'b'], u'/c': root[u'c'], u'../a': a, u'/a': a, u'a/': a[u'a'], u'/': root, u'': a, u'.': a, u' a': a[u' a'], u'a ': a[u'a '], u'a.': a[u'a.'], u'\\/b': a[u'/b'], u'B': a[u'B'],
                 u'/b': root[u'b'], u'..': root, u'A': None, u'a//': None}
    ''')
    mod = ctx.get('flatland.schema.paths')
    limit = ctx.choose(0, 1, 2, 1024)
    ctx.put(mod, 'max_cache_size', limit)
    ctx.put(mod, 'expression_cache', ctx.I.new_dict([]))
    means = dict((ctx.R(k), ctx.R(v)) for k, v in ns['means'].p.items())
    n = ctx.choose(1, 2, 3)
    few = [u'a', u'b', u'/c', u'a ']
    seq = [ctx.choose(*(few if n == 3 else sorted(means))) for i in range(n)]
    seq += seq[:1]
    kind = ctx.choose('text', 'bytes')
    start = ctx.R(ns['a'])
    for s in seq:
        arg = s if kind == 'text' else ctx.do('r = str(s)', s=s)['r']
        st, e, x = ctx.catch(lambda: ctx.call(ctx.get(P + 'pathexpr'), arg))
        ctx.check(st == 'ok', 'pathexpr(%r) with room for %d raises %s' % (s, limit, e))
        ctx.check(ctx.R(e) is not None and ctx.same(ctx.attr(e, 'expr'), s), 'pathexpr(%r) gives the expression of another text' % s)
        r = [ctx.R(i) for i in ctx.items(ctx.call(e, start, False))]
        want = [means[s]] if means[s] is not None else []
        ctx.check(len(r) == len(want) and all(x is y for x, y in zip(r, want)), 'pathexpr(%r) after %s finds %s' % (s, seq, [ctx.show(i) for i in r]))
    ctx.check(len(ctx.attr(mod, 'expression_cache').p) <= limit, 'the cache outgrows its limit')


@check.ob('reuse', [P + 'PathExpression.__call__'], 'evaluating an expression changes neither the expression nor the tree')
def reuse(ctx):
    ns = ctx.do('''
        from flatland.schema.paths import pathexpr
        def mk():
            return Dict.of(Dict.named(u'd').of(String.named(u'x')), List.named(u'l').of(String.named(u'm')))({u'l': [u'p', u'q'], u'd': {u'x': u'r'}})
        A = mk()
        B = mk()
    ''')
    path = ctx.choose(u'd/x', u'l[:]', u'l[1:]', u'/d/../l[0]', u'zz', u'l[-1]', u'd/zz', u'.', u'../l[:]', u'/d', u'/', u'/l/0', u'', u'..', u'/l[:]')
    start = ctx.choose('', '.el(u"d")', '.el(u"l.0")')
    e = ctx.call(ctx.get(P + 'pathexpr'), path)
    strict = ctx.choose(False, True)
    res = []
    for k in 'ABAB':
        at = ctx.do('    r = x%s' % start, x=ns[k])['r']
        st, r, x = ctx.catch(lambda: ctx.call(e, at, strict))
        res.append((st, [ctx.R(i) for i in ctx.items(r)] if st == 'ok' else r))
    for i in (0, 1):
        a, b = res[i], res[i + 2]
        ctx.check(a[0] == b[0] and (a[1] == b[1] if a[0] == 'raise' else len(a[1]) == len(b[1]) and all(x is y for x, y in zip(a[1], b[1]))),
                  '%s evaluated again gives something else' % path)
    if res[0][0] == 'ok':
        ctx.check(len(res[0][1]) == len(res[1][1]) and not any(x is y for x in res[0][1] for y in res[1][1]), '%s on another tree finds elements of the first' % path)
    ctx.check(len(ctx.items(ctx.R(ns['A'].p.get(ctx.I, u'l')[1]))) == 2, 'the tree changes')
