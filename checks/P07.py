"""P07 — find(single=..., strict=...)."""
from sa.oblig import Check

check = Check('P07', 'find() returns a list, one element, None or LookupError as single and strict say')
B = 'flatland.schema.base:'
SRC = '''
    root = Dict.named(u't').of(Dict.named(u'a').of(String.named(u'x')), List.named(u'l').of(Dict.of(SparseDict.named(u's').of(String.named(u'x')), String.named(u'y'))))()
    for i in range(N):
        root[u'l'].append({})
        if i == 1:
            root[u'l'][i].set({u's': {u'x': u'v'}})
'''


@check.ob('results', [B + 'Element.find'],
          'without single a list of every match; with single the match itself (even a false one), None for no match, LookupError for several when strict, '
          'and one of the matches otherwise; a missing step is a LookupError exactly when strict')
def results(ctx):
    n = ctx.choose(0, 1, 2, 3)
    root = ctx.do(SRC, N=n)['root']
    path, missing = ctx.choose((u'a', False), (u'a/x', False), (u'l[:]', False), (u'l[:]/y', False), (u'l[:]/s', False), (u'l[:]/s/x', None), (u'zz', True), (u'l[0]', n < 1), (u'l/1/s', n < 2),
                               (u'l[5:]', False), (u'a/zz', True), (u'/', False), (u'.', False), (u'l[-1]', False), (u'l[:]/zz', n > 0))
    single = ctx.choose('no', 'pos', 'kw', 'default')
    strict = ctx.choose('no', 'kw', 'default')
    if missing is None:
        missing = not (n == 0)      # every s but one lacks x
    plain = [ctx.R(i) for i in ctx.items(ctx.m(root, 'find', path, strict=False))]
    args = [path]
    kw = {}
    if single == 'pos':
        args.append(True)
    elif single == 'kw':
        kw['single'] = True
    elif single == 'no':
        kw['single'] = False
    if strict == 'no':
        kw['strict'] = False
    elif strict == 'kw':
        kw['strict'] = True
    st, r, x = ctx.catch(lambda: ctx.m(root, 'find', *args, **kw))
    one = single in ('pos', 'kw')
    must = strict != 'no'
    if must and (missing or one and len(plain) > 1):
        ctx.check(st == 'raise' and r == 'LookupError', '%s (single=%s, strict=%s) with %d matches gives %s' % (path, single, strict, len(plain), r if st == 'raise' else ctx.show(r)))
        return
    ctx.check(st == 'ok', '%s (single=%s, strict=%s) raises %s' % (path, single, strict, r))
    r = ctx.R(r)
    if not one:
        got = [ctx.R(i) for i in ctx.items(r)]
        ctx.check(len(got) == len(plain) and all(a is b for a, b in zip(got, plain)), '%s gives other elements when strict' % path)
        ctx.check(ctx.truth(ctx.I.isinstance(r, ctx.do('r = list')['r'])), 'find() does not return a list')
    elif not plain:
        ctx.check(r is None, '%s without a match gives %s' % (path, ctx.show(r)))
    else:
        ctx.check(any(r is p for p in plain), '%s (single) gives something that does not match' % path)


@check.ob('single-any', [B + 'Element.find'], 'single and strict count by truth, whatever objects are passed')
def single_any(ctx):
    root = ctx.do(SRC, N=2)['root']
    single = ctx.sym('single', 'none', 'int', 'true', 'false', 'text')
    strict = ctx.sym('strict', 'none', 'int', 'true', 'false', 'text')
    path = ctx.choose(u'a', u'l[:]', u'zz', u'l[7:]')
    st, r, x = ctx.catch(lambda: ctx.m(root, 'find', path, single=single, strict=strict))
    a, b = ctx.truth(single), ctx.truth(strict)
    if (path == u'zz' or (a and path == u'l[:]')) and b:
        ctx.check(st == 'raise' and r == 'LookupError', '%s does not raise LookupError' % path)
    else:
        ctx.check(st == 'ok', '%s raises %s' % (path, r))
        r = ctx.R(r)
        if a and path in (u'zz', u'l[7:]'):
            ctx.check(r is None, '%s: no match gives %s' % (path, ctx.show(r)))
