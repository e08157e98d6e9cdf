"""U02 — slices of pairs."""
from sa.oblig import Check

check = Check('U02', 'Pairs are filtered and renamed by one rule')
B = 'flatland.util.base:'


def wants(pairs, include, omit, rename, keyf):
    out = []
    for k, v in pairs:
        k = keyf(k)
        if rename and k in rename:
            out.append((rename[k], v))
        elif include:
            if k in include:
                out.append((k, v))
        elif not omit or k not in omit:
            out.append((k, v))
    return out


KEYF = {None: lambda k: k, 'upper': lambda k: k.upper(), 'const': lambda k: 'a', 'next': lambda k: {'a': 'A', 'A': 'c', 'c': 'zz', 'zz': 'zz'}.get(k, 'a')}


@check.ob('keyslice', [B + 'keyslice_pairs'],
          'the pairs come out in their order, repeated keys included, as many times as they went in: renamed if the (transformed) key is to be renamed, '
          'else if included, else if not omitted; include and omit together are a TypeError', max_runs=20000, shards=4)
def keyslice(ctx):
    pairs = ctx.choose((), ('a',), ('a', 'b', 'a'), ('b', 'A', 'c', 'a'), ('c', 'c'))
    key = ctx.choose(None, 'upper', 'const', 'next')
    vals = [ctx.any('v%d' % i) for i in range(len(pairs))]
    ns = ctx.do('''
    from flatland.util import keyslice_pairs
    class Keyed(object):
        def __init__(self, d):
            self.d = d
        def keys(self):
            return [k for k, v in self.d]
        def __getitem__(self, k):
            return dict(self.d)[k]
    class NT(object):
        def __init__(self, d):
            self.d = d
        def _asdict(self):
            return dict(self.d)
    def upper(k):
        return k.upper()
    def const(k):
        return u'a'
    def following(k):
        return {'a': 'A', 'A': 'c', 'c': 'zz', 'zz': 'zz'}.get(k, 'a')
    F = {None: None, 'upper': upper, 'const': const, 'next': following}
    def gen(x):
        for y in x:
            yield y
    forms = (list, tuple, gen, dict, Keyed, NT)
''')
    f = ctx.do('r = F[k]', F=ns['F'], k=key)['r']
    forms = ctx.host(ns['forms']) if not isinstance(ns['forms'], tuple) else ns['forms']
    src = ctx.I.new_list([(k, v) for k, v in zip(pairs, vals)])
    for include in (None, (), ('a',), ('A', 'c'), ('zz',)):
        for omit in (None, (), ('a',), ('A', 'c'), ('zz',)):
            for rename in (None, (), (('a', 'x'),), (('A', 'b'), ('c', 'a')), (('b', 'b'), ('zz', 'q'))):
                for i, form in enumerate(forms):
                    kw = {}
                    lit = lambda v: ctx.I.new_list(list(v))
                    if include is not None:
                        kw['include'] = lit(include)
                    if omit is not None:
                        kw['omit'] = lit(omit)
                    if rename is not None:
                        kw['rename'] = ctx.call(form, ctx.I.new_list([(a, b) for a, b in rename])) if rename else lit(rename)
                    if key or i % 2:
                        kw['key'] = f
                    if i % 3 == 2:
                        arg = ctx.do('r = gen(x)', gen=ns['gen'], x=src)['r']
                    else:
                        arg = src
                    where = '%s key=%s include=%s omit=%s rename=%s' % (pairs, key, include, omit, rename)
                    if rename and not ctx.thorough and i not in (0, 1, 3, 4, 5):
                        continue
                    if not rename and i not in (0, 2):
                        continue
                    st, got, e = ctx.catch(lambda: [tuple(ctx.host(p)) for p in ctx.items(ctx.call(ns['keyslice_pairs'], arg, **kw))])
                    if include and omit:
                        ctx.check(st == 'raise' and got == 'TypeError', '%s: gives %s' % (where, got if st == 'raise' else 'no error'))
                        continue
                    ctx.check(st == 'ok', '%s: raises %s' % (where, got))
                    if st != 'ok':
                        continue
                    want = wants(list(zip(pairs, vals)), include, omit, dict(rename or ()), KEYF[key])
                    ctx.check(len(got) == len(want) and all(g[0] == w[0] and ctx.same(g[1], w[1]) for g, w in zip(got, want)),
                              '%s: gives the keys %s, not %s' % (where, [g[0] for g in got], [w[0] for w in want]))


@check.ob('to-pairs', [B + 'to_pairs'],
          'the pairs of a dict, of an object with keys(), of a named tuple and of a sequence of pairs are exactly its own')
def to_pairs(ctx):
    ns = ctx.do('''
    from flatland.util import to_pairs
    class Keyed(object):
        def keys(self):
            return [u'a', u'b']
        def __getitem__(self, k):
            return {u'a': v, u'b': w}[k]
    class NT(tuple):
        def _asdict(self):
            return {u'a': v, u'b': w}
    class Sub(dict):
        pass
    l = [(u'a', v), (u'b', w)]
    class Back(Keyed):
        def keys(self):
            return [u'b', u'a', u'b']
    class Point(NT):
        pass
    from collections import namedtuple
    Real = namedtuple('Real', 'a b')
    class SubReal(Real):
        pass
    r = [(u'b', w), (u'a', v), (u'b', w)]
    forms = [(f, [u'a', u'b']) for f in (l, tuple(l), iter(l), Keyed(), (list(x) for x in l))]
    anyorder = [dict(l), Sub(l), NT((1, 2)), Point((1, 2)), Real(v, w), SubReal(b=w, a=v)]
    forms += [(f, [u'b', u'a', u'b']) for f in (r, tuple(r), iter(r), Back(), (tuple(x) for x in r), [list(x) for x in r])]
    one = [u'ab']
''', v=ctx.any('v'), w=ctx.any('w'))
    v, w = [x[1] for x in (ctx.host(p) for p in ctx.items(ns['l']))]
    val = {'a': v, 'b': w}
    for form, keys in [(f, None) for f in ctx.items(ns['anyorder'])] + [ctx.host(p) for p in ctx.items(ns['forms'])]:
        got = [tuple(ctx.host(p)) for p in ctx.items(ctx.call(ns['to_pairs'], form))]
        if keys is None:
            keys = ['a', 'b']
            got.sort(key=lambda p: p[0])
        else:
            keys = [ctx.R(k) for k in ctx.items(keys)]
        ctx.check([p[0] for p in got] == keys and all(ctx.same(g[1], val[g[0]]) for g in got), 'the pairs of %s are %s' % (ctx.show(form), ctx.show(got)))
    for bad in (3, None):
        st, r, e = ctx.catch(lambda: ctx.items(ctx.call(ns['to_pairs'], bad)))
        ctx.check(st == 'raise' and r == 'TypeError', 'the pairs of %r give %s' % (bad, r if st == 'raise' else 'no error'))


@check.ob('keyslice-odd', [B + 'keyslice_pairs'],
          'keys and new names may be anything hashable, falsy ones included, and the key function may give any of them')
def keyslice_odd(ctx):
    ns = ctx.do("""
        from flatland.util import keyslice_pairs
        KEYS = ['', 0, None, (), False, 'a', (1, 2), 1.5, u'a']
        def none(k):
            return None
        def blank(k):
            return ''
        def zero(k):
            return 0
        def same(k):
            return k
        def wrap(k):
            return (k,)
        def rule(pairs, include, omit, rename, key):
            out = []
            for k, v in pairs:
                if key is not None:
                    k = key(k)
                if k in rename:
                    out.append((rename[k], v))
                elif include and k not in include:
                    pass
                elif omit and k in omit:
                    pass
                else:
                    out.append((k, v))
            return out
    """)
    key = ctx.choose('none', 'blank', 'zero', 'same', 'wrap', None)
    mode = ctx.choose('', 'include', 'omit')
    ns = ctx.do("""
        pairs = [(k, i) for i, k in enumerate(KEYS)] + [(KEYS[0], 99)]
        ok = []
        for old in KEYS:
            for new in KEYS:
                for listed in ((KEYS[0],), (old, new), [None], set([0, (1, 2)])):
                    rename = {} if KEY is not None and old == new else {old: new}
                    kw = {MODE: listed} if MODE else {}
                    got = list(keyslice_pairs(pairs, rename=rename, key=KEY, **kw))
                    want = rule(pairs, listed if MODE == 'include' else None, listed if MODE == 'omit' else None, rename, KEY)
                    if got != want or [type(k) for k, v in got] != [type(k) for k, v in want]:
                        ok.append((old, new, listed, got, want))
    """, KEY=ns[key] if key else None, MODE=ctx.do('r = %r' % mode)['r'], **dict((k, ns[k]) for k in ('KEYS', 'rule', 'keyslice_pairs')))
    bad = ctx.items(ns['ok'])
    ctx.check(not bad, 'key=%s %s: (old, new, listed, got, expected) %s' % (key, mode, ctx.show(bad[0]) if bad else ''))


@check.ob('to-pairs-bad', [B + 'to_pairs'], 'what does not consist of pairs is refused, not cut to size')
def to_pairs_bad(ctx):
    src, ok = ctx.choose(("[(1, 2, 3)]", False), ("[(1,)]", False), ("[()]", False), ("[5]", False), ("[None]", False), ("['abc']", False), ("['ab']", True), ("'abc'", False),
                         ("[[1, 2]]", True), ("[(1, 2), (3,)]", False), ("[]", True), ("{}", True), ("''", True), ("iter([(1, (2, 3))])", True))
    ns = ctx.do("""
        from flatland.util import to_pairs
        try:
            got = list(to_pairs(%s))
            ok = True
        except (TypeError, ValueError):
            ok = False
    """ % src)
    ctx.check(ctx.R(ns['ok']) is ok, 'the pairs of %s are %s' % (src, ctx.show(ns['got']) if ctx.R(ns['ok']) else 'refused'))


@check.ob('keyslice-lists', [B + 'keyslice_pairs'], 'the keys to include or omit are the members of any sequence, set or string given, compared whole')
def keyslice_lists(ctx):
    how = ctx.choose('include', 'omit')
    ns = ctx.do("""
        from flatland.util import keyslice_pairs
        def it(l):
            for x in l:
                yield x
        pairs = [('a', 1), ('ab', 2), ('b', 3), ('a', 4), ('', 5), (('a', 'b'), 6), (0, 7), (False, 8)]
        forms = []
        for listed in (['a', 'b'], ['ab'], [('a', 'b')], [''], [0], ['a', 'a', 'zz']):
            forms += [(listed, tuple(listed)), (listed, set(listed)), (listed, frozenset(listed)), (listed, dict.fromkeys(listed)), (listed, it(listed)), (listed, list(listed))]
        forms += [(['a', 'b'], 'ab'), (['a', 'b'], u'ab'), (['b'], 'b')]
        bad = []
        for listed, form in forms:
            got = list(keyslice_pairs(pairs, **{HOW: form}))
            want = [(k, v) for k, v in pairs if (k in listed) == (HOW == 'include')]
            if got != want:
                bad.append((listed, got, want))
    """, HOW=ctx.do('r = %r' % how)['r'])
    bad = ctx.items(ns['bad'])
    ctx.check(not bad, '%s: (listed, got, expected) %s' % (how, ctx.show(bad[0]) if bad else ''))
