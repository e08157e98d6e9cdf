"""C15 — flattening and setting flat are inverse."""
from sa.oblig import Check

check = Check('C15', 'What flatten() lists, set_flat() on a new element restores')
C = 'flatland.schema.containers:'
B = 'flatland.schema.base:Element.'

SNAP = '''
    def snap(e):
        if isinstance(e, Compound):
            return (e.u, e.value, e.is_empty)
        if isinstance(e, Dict):
            return dict((k, snap(e[k])) for k in e)
        if isinstance(e, JoinedString):
            return (e.u, [snap(m) for m in e])
        if isinstance(e, Sequence):
            return [snap(m) for m in e]
        return (e.u, e.value)
    from flatland.schema.containers import Sequence
    from flatland.schema.compound import Compound
    S = String.using(strip=False)
'''

# name of the tree: schema (with the unknown texts v, w and x as content), content
TREES = {
    'scalar': ("S.named(u'k')", 'v'),
    'unnamed scalar': ("S", 'v'),
    'dict': ("Dict.named(u'd').of(S.named(u'a'), S.named(u'b'), Integer.named(u'c'))", "{u'a': v, u'b': w, u'c': 5}"),
    'unnamed dict': ("Dict.of(S.named(u'a'), S.named(u'b'))", "{u'a': v, u'b': w}"),
    'alike': ("Dict.named(u'd').of(S.named(u'a'), S.named(u'aa'), S.named(u'ab'), Dict.named(u'abc').of(S.named(u'a'), S.named(u'd')))", "{u'a': v, u'aa': w, u'ab': x, u'abc': {u'a': v, u'd': w}}"),
    'as the parent': ("Dict.named(u'a').of(S.named(u'b'), Dict.named(u'a').of(S.named(u'a'), List.named(u'b').of(S.named(u'a'))))", "{u'b': v, u'a': {u'a': w, u'b': [v, x]}}"),
    'sparse': ("SparseDict.named(u'd').of(S.named(u'a'), S.named(u'b'), Dict.named(u'n').of(S.named(u'x')))", "{u'b': v, u'n': {u'x': w}}"),
    'form': ("F", "{u'a': v, u'l': [w, x], u'n': {u'a': v}}"),
    'list': ("List.named(u'l').of(S.named(u'm'))", '[v, w, x]'),
    'list, unnamed': ("List.of(S)", '[v, w, x]'),
    'list of unnamed': ("List.named(u'l').of(S)", '[v, w, x]'),
    'long list': ("List.named(u'l').of(S)", "[u'0', u'1', v, u'3', u'4', u'5', u'6', u'7', u'8', u'9', w, x]"),
    'list of dicts': ("List.named(u'l').of(Dict.of(S.named(u'a'), S.named(u'b')))", "[{u'a': v, u'b': w}, {u'a': x, u'b': v}]"),
    'list of named dicts': ("List.named(u'l').of(Dict.named(u'd').of(S.named(u'a'), List.named(u'l').of(S)))", "[{u'a': v, u'l': [w]}, {u'a': x, u'l': []}]"),
    'list of lists': ("List.named(u'l').of(List.of(S))", '[[v], [w, x]]'),
    'list of named lists': ("List.named(u'l').of(List.named(u'i').of(S.named(u's')))", '[[v, w], [x]]'),
    'list of lists of lists': ("List.of(List.of(List.of(S)))", '[[[v], [w]], [[x]]]'),
    'array': ("Array.named(u'r').of(S)", '[v, w, x]'),
    'array of named': ("Array.named(u'r').of(S.named(u'm'))", '[v, w, x]'),
    'unnamed array of named': ("Array.of(S.named(u'm'))", '[v, w, x]'),
    'multi': ("MultiValue.named(u'r').of(S)", '[v, w, x]'),
    'arrays': ("Dict.named(u'd').of(Array.named(u'r').of(S), Array.named(u'rr').of(S), MultiValue.named(u'q').of(S.named(u'r')))", "{u'r': [v, w], u'rr': [x], u'q': [w, v]}"),
    'list of arrays': ("List.named(u'l').of(Array.named(u'r').of(S))", '[[v, w], [x]]'),
    'list of unnamed arrays': ("List.named(u'l').of(Array.of(S))", '[[v, w], [x]]'),
    'list of multi': ("List.named(u'l').of(MultiValue.named(u'r').of(S.named(u'm')))", '[[v, w], [x]]'),
    'list of sparse': ("List.named(u'l').of(SparseDict.of(S.named(u'a'), S.named(u'b')))", '[{u"a": v}, {u"b": w}, {u"a": x, u"b": v}]'),
    'sparse of lists': ("SparseDict.named(u'd').of(List.named(u'l').of(S), List.named(u'll').of(S), Array.named(u'l2').of(S)).using(minimum_fields='required')", '{u"l": [v], u"ll": [w], u"l2": [x, v]}'),
    'list of forms': ("List.named(u'l').of(F.named(u'f'))", "[{u'a': v, u'l': [w, x], u'n': {u'a': v}}, {u'a': w, u'l': [], u'n': {u'a': x}}]"),
    'list of unpruned': ("List.named(u'l').of(Dict.of(S.named(u'a'), S.named(u'b'))).using(prune_empty=False)", "[{u'a': v, u'b': u''}, {u'a': u'', u'b': u''}, {u'a': u'', u'b': w}]"),
    'deep': ("Dict.named(u'a').of(Dict.named(u'b').of(List.named(u'c').of(Dict.named(u'd').of(Array.named(u'e').of(S.named(u'f'))))))", "{u'b': {u'c': [{u'e': [v, w]}, {u'e': [x]}]}}"),
    'joined': ("Dict.named(u'd').of(JoinedString.named(u'j'), S.named(u's'))", "{u'j': u'a,b,c', u's': v}"),
    'joined of integers': ("List.named(u'l').of(JoinedString.using(separator=u'; ').of(Integer))", "[u'1; 2', u'x; 3']"),
    'date': ("Dict.named(u'd').of(DateYYYYMMDD.named(u'when'), S.named(u'year'))", "{u'when': u'2001-02-03', u'year': v}"),
    'dates': ("List.named(u'l').of(DateYYYYMMDD)", "[u'2001-02-03', u'1999-12-31']"),
    'typed': ("Dict.of(Integer.named(u'i'), Boolean.named(u't'), Boolean.named(u'f'), Date.named(u'd'), Enum.named(u'e').using(valid_values=(u'p', u'q')), Float.named(u'x'), Time.named(u'm'), DateTime.named(u's'))",
              "{u'i': 7, u't': True, u'f': False, u'd': u'2001-02-03', u'e': u'q', u'm': u'01:02:03', u's': u'2001-02-03 04:05:06'}"),
    'unadaptable': ("Dict.named(u'd').of(Integer.named(u'i'), Boolean.named(u'b'), Date.named(u'd'), List.named(u'l').of(Integer))", "{u'i': u'x', u'b': u'maybe', u'd': u'2001', u'l': [1, u'q', 3]}"),
    'ref': ("Dict.named(u'd').of(S.named(u'a'), Ref.named(u'r').to(u'.a').using(writable=True))", "{u'a': v}"),
    'odd names': ("Dict.named(u'.*').of(S.named(u'\\\\d+'), List.named(u'[0]').of(S.named(u'$')), S.named(u'(?:'), S.named(u'0'), S.named(u'\\u00e9'), Array.named(u'a|b').of(S), S.named(u' '))",
                  "{u'\\\\d+': v, u'[0]': [w, x], u'(?:': v, u'0': w, u'\\u00e9': x, u'a|b': [v, w], u' ': x}"),
    'number names': ("List.named(u'1').of(Dict.named(u'2').of(S.named(u'3'), List.named(u'4').of(S.named(u'5'))))", "[{u'3': v, u'4': [w, x]}, {u'3': x, u'4': []}]"),
}


def build(ctx, name, prune=None):
    schema, content = TREES[name]
    ns = ctx.do(SNAP + '''
    class F(Form):
        a = S
        l = List.of(S)
        n = Dict.of(S.named(u'a'))
    v, w, x = V, W, X
    K = %s
    given = %s
    ''' % (schema, content), V=ctx.text('v', True), W=ctx.text('w', True), X=ctx.text('x', True))
    return ns


def rebuilt(ctx, ns, sep, how):
    return ctx.do('''
        el = K()
        el.set(given)
        pairs = el.flatten(sep=SEP)
        if HOW == 'reversed':
            keys = []
            for k, t in pairs:
                if k not in keys:
                    keys.append(k)
            pairs = [(k, t) for want in reversed(keys) for k, t in pairs if k == want]
        elif HOW == 'dict':
            pairs = dict(pairs)
        elif HOW == 'noise':
            pairs = [(u'', u'x'), (SEP, u'x')] + pairs + [(u'zz', u'x'), (SEP.join([u'zz', u'0', u'zz']), u'x')]
        elif HOW == 'tuples':
            pairs = tuple([k, t] for k, t in pairs)
        if HOW == 'from_flat':
            two = K.from_flat(pairs)
        else:
            two = K()
            if HOW == 'keyword':
                two.set_flat(pairs, sep=SEP)
            else:
                two.set_flat(pairs, SEP)
        a, b = snap(el), snap(two)
        again = sorted(el.flatten(sep=SEP)) == sorted(two.flatten(sep=SEP)) if not UNKNOWN else True
    ''', K=ns['K'], given=ns['given'], snap=ns['snap'], SEP=sep, HOW=how, UNKNOWN=True)


def same(ctx, a, b, where):
    """Structural comparison; texts are the same unknown or equal literals."""
    a, b = ctx.R(a), ctx.R(b)
    pa, pb = getattr(a, 'p', None), getattr(b, 'p', None)
    if isinstance(a, tuple) or isinstance(pa, list):
        xs, ys = (a if isinstance(a, tuple) else pa), (b if isinstance(b, tuple) else pb)
        ctx.check(isinstance(ys, type(xs)) and len(xs) == len(ys), '%s: %s becomes %s' % (where, ctx.show(a), ctx.show(b)))
        for x, y in zip(xs, ys):
            same(ctx, x, y, where)
    elif pa is not None and hasattr(pa, 'items'):
        ks, js = sorted(ctx.R(k) for k in pa.keys()), sorted(ctx.R(k) for k in pb.keys())
        ctx.check(ks == js, '%s: the keys %s become %s' % (where, ks, js))
        for k in ks:
            same(ctx, pa.get(ctx.I, k)[1], pb.get(ctx.I, k)[1], where + ' at ' + ctx.show(k))
    else:
        ctx.check(a is b or ctx.same(a, b) or type(a) is type(b) and ctx.truth(ctx.I.eq(a, b)), '%s: %s becomes %s' % (where, ctx.show(a), ctx.show(b)))


def make(name):
    @check.ob('tree ' + name, [B + 'flatten', B + 'set_flat', C + 'Mapping._set_flat', C + 'List._set_flat', C + 'Array._set_flat'],
              'an element of this shape (%s), filled with any non-blank texts, flattened and set flat on a new one, gives an element equal in every part, '
              'with any separator, in any order of distinct keys, and among foreign pairs' % name)
    def ob(ctx):
        sep = ctx.choose(u'_', u'.', u'--', u'(', u'\\d')
        how = ctx.choose('plain', 'keyword', 'reversed', 'dict', 'noise', 'tuples', 'from_flat')
        arrays = 'multi' in name or name in ('deep', 'sparse of lists') or 'array' in name or name in ('multi', 'odd names')
        if how == 'from_flat' and sep != u'_' or how == 'dict' and arrays or how == 'noise' and name in ('unnamed scalar', 'list, unnamed', 'unnamed array of named'):
            return
        ns = build(ctx, name)
        r = rebuilt(ctx, ns, sep, how)
        same(ctx, r['a'], r['b'], '%s with separator %r, pairs given %s' % (name, sep, how))


for t in TREES:
    make(t)


@check.ob('blanks', [C + 'List._set_flat', C + 'Array._set_flat', B + 'flatten'],
          'without pruning, blank members are restored like any others; with it they alone are left out and the rest keeps its order')
def blanks(ctx):
    cls = ctx.choose('List', 'Array', 'MultiValue')
    prune = ctx.choose(True, False)
    member = ctx.choose('S', "S.named(u'm')")
    vals = [ctx.choose(u'', ctx.text('v%d' % i, True)) for i in range(ctx.choose(0, 1, 2, 3, 4))]
    within = ctx.choose('root', 'dict', 'list')
    ns = ctx.do(SNAP + '''
    L = %s.named(u's').of(%s).using(prune_empty=P)
    K = {'root': L, 'dict': Dict.named(u'd').of(L, S.named(u'x')), 'list': List.named(u'o').of(L).using(prune_empty=False)}[IN]
    el = K()
    given = {'root': VALS, 'dict': {u's': VALS, u'x': u'1'}, 'list': [VALS, [u'q']]}[IN]
    el.set(given)
    two = K.from_flat(el.flatten())
    a, b = [e if IN == 'root' else e[u's'] if IN == 'dict' else e[0] if len(e) else [] for e in (el, two)]
    a, b = [[m.u for m in s] for s in (a, b)]
    n = len(two)
    ''' % (cls, member), P=prune, IN=within, VALS=ctx.I.new_list(list(vals)))
    want = [v for v in vals if not prune or not (isinstance(v, str) and v == u'')]
    got = ctx.items(ns['b'])
    ctx.check(len(got) == len(want) and all(ctx.same(x, y) for x, y in zip(got, want)), '%s, prune_empty=%s: %s becomes %s' % (cls, prune, ctx.show(ns['a']), ctx.show(ns['b'])))


@check.ob('values', [B + 'flatten'], 'flatten(value=f) calls f once with each element listed, and pairs its result, whatever it is, with the name')
def values(ctx):
    calls = []
    made = ctx.choose(None, u'', 0, ctx.text('t'), ctx.any('x'))

    def f(el):
        calls.append(ctx.R(el))
        return made
    ns = ctx.do(SNAP + '''
    el = Dict.named(u'd').of(S.named(u'a'), List.named(u'l').of(S), Array.named(u'r').of(S), JoinedString.named(u'j'), DateYYYYMMDD.named(u't'), Dict.named(u'n').of(S.named(u'a')), Ref.named(u'ref').to(u'.a'))()
    el.set({u'a': u'1', u'l': [u'2', None], u'r': [u'3', u''], u'j': u'4,5', u't': u'2000-01-02', u'n': {u'a': u'6'}})
    el = {0: el, 1: el[u'l'], 2: el[u'a'], 3: el[u'r'], 4: el[u'j'], 5: el[u't']}[AT]
    plain = el.flatten()
    got = el.flatten(value=f) if KW else el.flatten(u'_', f)
    names = [p[0] for p in plain]
    same = names == [p[0] for p in got]
    ''', f=ctx.fn('f', f), AT=ctx.choose(*range(6)), KW=ctx.choose(True, False))
    pairs = ctx.items(ns['got'])
    ctx.check(ctx.truth(ns['same']), 'the names depend on the value function')
    ctx.check(len(calls) == len(pairs) and all(all(a is not b for b in calls[:i]) for i, a in enumerate(calls)), 'the value function is called %d times for %d pairs' % (len(calls), len(pairs)))
    for i, p in enumerate(pairs):
        ctx.check(ctx.R(ctx.m(calls[i], 'flattened_name')) == ctx.R(ctx.items(p)[0]), 'pair %d is named after another element' % i)
        ctx.check(ctx.same(ctx.items(p)[1], made), 'pair %d is not what the function returned' % i)
