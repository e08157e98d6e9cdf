"""M06 — properties."""
from sa.oblig import Check

check = Check('M06', 'Properties inherit downwards, and changes and deletions stay where they are made')
P = 'flatland.schema.properties:'
SRC = '''
    from flatland import Properties
    class A(object):
        properties = Properties({u'p': 1}, q=2)
    class B(A):
        pass
    class C(B):
        pass
    class D(A):
        properties = Properties(p=10, r=3)
    class E(D):
        pass
    class M(object):
        pass
    class F(M, B):
        pass
    a, a2, b, c, d, f = A(), A(), B(), C(), D(), F()
'''
MRO = {'A': 'A', 'B': 'BA', 'C': 'CBA', 'D': 'D', 'E': 'ED', 'F': 'FBA'}
INST = {'a': 'A', 'a2': 'A', 'b': 'B', 'c': 'C', 'd': 'D', 'f': 'F'}
DEL = object()


class Ref(object):
    """The intended meaning: one layer per class and per element, deletion marks included."""

    def __init__(self):
        self.layers = dict((k, {}) for k in list(MRO) + list(INST))
        self.layers['A'] = {'p': 1, 'q': 2}
        self.layers['D'] = {'p': 10, 'r': 3}

    def chain(self, who):
        return ([who] + list(MRO[INST[who]])) if who in INST else list(MRO[who])

    def view(self, who):
        out = {}
        for l in self.chain(who)[::-1]:
            out.update(self.layers[l])
        return dict((k, v) for k, v in out.items() if v is not DEL)

    def apply(self, who, op, key, val):
        v, own = self.view(who), self.layers[who]
        if op == 'set':
            own[key] = val
        elif op in ('del', 'pop'):
            if key not in v:
                return KeyError
            own[key] = DEL
            return v[key] if op == 'pop' else None
        elif op == 'pop-default':
            if key in v:
                own[key] = DEL
                return v[key]
            return val
        elif op == 'setdefault':
            if key in v:
                return v[key]
            own[key] = val
            return val
        elif op[:6] == 'update':
            own[key] = val
            if op == 'update':
                own['z'] = 0
        elif op == 'clear':
            for k in v:
                own[k] = DEL
        return None


OPS = ('set', 'del', 'pop', 'pop-default', 'setdefault', 'update', 'clear')
SRCS = {'set': 'x[k] = v', 'del': 'del x[k]', 'pop': 'r = x.pop(k)', 'pop-default': 'r = x.pop(k, v)', 'setdefault': 'r = x.setdefault(k, v)',
        'update': "x.update({k: v}, z=0)", 'clear': 'x.clear()',
        'update-pairs': 'x.update([(k, 1), (k, v)])', 'update-kw': 'x.update(**{str(k): v})', 'update-props': 'x.update(((i, j) for i, j in [(k, v)]))'}
OPS1 = OPS + ('update-pairs', 'update-kw', 'update-props')


def norm(ctx, v):
    return dict((ctx.R(k), ctx.R(x)) for k, x in v.p.items())


def views(ctx, ns, ref, what):
    for who in list(MRO) + list(INST):
        x = ctx.attr(ns[who], 'properties')
        want = ref.view(who)
        got = norm(ctx, ctx.m(x, 'copy'))
        ctx.check(got == want, '%s: %s.properties is %s, expected %s' % (what, who, got, want))
    return


def tally(l):
    return sorted(l, key=lambda x: str([(i is None, str(i)) for i in (x if isinstance(x, tuple) else (x,))]))


def reads(ctx, ns, ref, who, what):
    want = ref.view(who)
    r = ctx.do('''
        out = []
        for k in ('p', 'q', 'r', 'z', 'nope'):
            try:
                g = x[k]
            except KeyError:
                g = 'KeyError'
            out.append((k, g, x.get(k), x.get(k, 99), k in x))
        lists = [list(i) for i in (x.keys(), x.items(), x.values(), x.iterkeys(), x.iteritems(), x.itervalues())]
        truth = bool(x)
        same = (x == W, x != W, x == {'nope': 1}, x != {'nope': 1})
    ''', x=ctx.attr(ns[who], 'properties'), W=ctx.I.new_dict(sorted(want.items())))
    for t in ctx.items(r['out']):
        k, g, g1, g2, has = [ctx.R(i) for i in ctx.items(t)]
        w = (k, want.get(k, 'KeyError'), want.get(k), want.get(k, 99), k in want)
        ctx.check((k, str(g) if isinstance(g, str) else g, g1, g2, has) == w, '%s: reading %s of %s gives %s, expected %s' % (what, k, who, (g, g1, g2, has), w[1:]))
    l = [[tuple(ctx.R(j) for j in ctx.items(i)) if hasattr(ctx.R(i), 'p') or isinstance(ctx.R(i), tuple) else ctx.R(i) for i in ctx.items(x)] for x in ctx.items(r['lists'])]
    for got, w, n in zip(l, (list(want), list(want.items()), list(want.values())) * 2, ('keys', 'items', 'values', 'iterkeys', 'iteritems', 'itervalues')):
        ctx.check(tally(got) == tally(w), '%s: %s() of %s is %s, expected %s' % (what, n, who, got, w))
    ctx.check(ctx.truth(r['truth']) is bool(want), '%s: truth of %s' % (what, who))
    ctx.check([ctx.truth(i) for i in ctx.items(r['same'])] == [True, False, False, True], '%s: comparison of %s' % (what, who))


def step(ctx, ns, ref, who, op, key, val):
    what = '%s %s on %s' % (op, key, who)
    want = ref.apply(who, op, key, val)
    st, r, x = ctx.catch(lambda: ctx.do('    r = None\n    %s' % SRCS[op], x=ctx.attr(ns[who], 'properties'), k=key, v=val))
    if want is KeyError:
        ctx.check(st == 'raise' and r == 'KeyError', '%s does not raise KeyError' % what)
        return what
    ctx.check(st == 'ok', '%s raises %s' % (what, r))
    ctx.check(ctx.R(r['r']) == want, '%s gives %s, expected %s' % (what, ctx.show(r['r']), want))
    return what


@check.ob('layers', [P + '_TypeLookup', P + '_InstanceLookup', P + 'Properties.__get__'],
          'for every one or two operations on any class or element of a hierarchy: every view of every class and element is the layered mapping, '
          'with changes and deletions visible at and below the layer they were made in and nowhere else', max_runs=60000, shards=4)
def layers(ctx):
    who = ctx.choose('A', 'B', 'C', 'D', 'E', 'F', 'a', 'b', 'c', 'd', 'f')
    op = ctx.choose(*OPS)
    key = ctx.choose('p', 'r')
    if op == 'clear' and key == 'r':
        return
    for who2 in ('A', 'B', 'C', 'D', 'F', 'a', 'b', 'c', 'd') if ctx.thorough else ('A', 'B', 'C', 'a', 'b'):
        for op2 in OPS:
            for key2 in ('p', 'r') if ctx.thorough else ('p',):
                if who[0].lower() + who2[0].lower() in ('ad', 'da', 'bd', 'db', 'cd', 'dc', 'fd', 'df', 'ea', 'eb', 'ec', 'ef') and not ctx.thorough:
                    continue
                ns = ctx.do(SRC)
                ref = Ref()
                w1 = step(ctx, ns, ref, who, op, key, 5)
                w2 = step(ctx, ns, ref, who2, op2, key2, 6)
                views(ctx, ns, ref, '%s, then %s' % (w1, w2))


@check.ob('reads', [P + 'DictLike', P + '_TypeLookup.__getitem__', P + '_InstanceLookup.__getitem__', P + '_InstanceLookup.iteritems'],
          'after any operation, indexing, get, in, keys, items, values, iterators, truth and comparison agree with that mapping', shards=4, max_runs=20000)
def reads_ob(ctx):
    who = ctx.choose('A', 'B', 'C', 'D', 'F', 'a', 'b', 'c')
    op = ctx.choose(*OPS1)
    key = ctx.choose('p', 'q', 'r')
    val = ctx.choose(5, None, 0, u'')
    ns = ctx.do(SRC)
    ref = Ref()
    w = step(ctx, ns, ref, who, op, key, val)
    for x in ('A', 'B', 'C', 'E', 'a', 'b', 'c', 'd', 'f'):
        reads(ctx, ns, ref, x, w)


@check.ob('falsy', [P + '_TypeLookup', P + '_InstanceLookup', P + 'DictLike'],
          'a property that is None, zero or blank is there all the same, for every reading and changing method; a mapping of such properties is true', max_runs=20000, shards=2)
def falsy(ctx):
    who, who2 = ctx.choose(('A', 'A'), ('A', 'B'), ('B', 'b'), ('B', 'A'), ('a', 'a'), ('b', 'b'))
    op = ctx.choose('set', 'update', 'setdefault', 'update-kw')
    val = ctx.choose(None, 0, u'')
    for op2 in OPS1:
        for key in ('p', 'r'):
            ns = ctx.do(SRC)
            ref = Ref()
            w1 = step(ctx, ns, ref, who, op, key, val)
            w2 = step(ctx, ns, ref, who2, op2, key, 6)
            views(ctx, ns, ref, '%s, then %s' % (w1, w2))
            reads(ctx, ns, ref, who2, '%s, then %s' % (w1, w2))
    ns = ctx.do('''
    from flatland import Properties
    class X(object):
        properties = Properties(k=V)
    class Y(object):
        properties = Properties()
    y = Y()
    none = bool(y.properties), bool(Y.properties)
    y.properties['k'] = V
    r = bool(X.properties), bool(X().properties), bool(y.properties)
    ''', V=val)
    ctx.check([ctx.truth(i) for i in ctx.items(ns['r'])] == [True] * 3 and [ctx.truth(i) for i in ctx.items(ns['none'])] == [False] * 2, 'properties holding only %r count as none' % (val,))


@check.ob('update-both', [P + '_TypeLookup.update', P + '_InstanceLookup.update'], 'update() takes a mapping or pairs and keywords at once, keywords and later pairs winning, like that of a dict')
def update_both(ctx):
    who = ctx.choose('A', 'B', 'a', 'b')
    src, want = ctx.choose(("x.update({'p': 5, 'n': 6}, p=7)", {'p': 7, 'n': 6}), ("x.update([('p', 5), ('p', 6), ('n', 1)], m=2)", {'p': 6, 'n': 1, 'm': 2}), ('x.update()', {}), ('x.update({})', {}),
                           ("x.update(p=None)", {'p': None}))
    ns = ctx.do(SRC)
    ref = Ref()
    ctx.do('    ' + src, x=ctx.attr(ns[who], 'properties'))
    ref.layers[who].update(want)
    views(ctx, ns, ref, '%s on %s' % (src, who))


@check.ob('assign', [P + 'Properties.__get__', P + 'Properties.__set__'],
          'assigning .properties of an element replaces the inherited ones for it alone; views taken earlier keep working; using(properties=...) starts afresh for a class')
def assign(ctx):
    ns = ctx.do(SRC + '''
    mine = {'own': 1}
    a.properties = mine
    got = a.properties
    b.properties['p'] = 7
    from flatland import String, Properties
    S = String.with_properties(p=1)
    T = S.using(properties={'t': 2})
    U = T.with_properties(u=3)
    W = S.using(properties=Properties(w=4))
    s, t, u, w = S(), T(), U(), W()
    X = String(properties={'x': 5})
    res = [dict(i.properties) if type(i.properties) is dict else i.properties.copy() for i in (S, T, U, W, s, t, u, w, X)]
    String.properties['probe'] = 1
    probe = [i.properties.get('probe') for i in (S, s, T, t, X)]
    del String.properties['probe']
    left = String.properties.copy()
''')
    ctx.check(ctx.R(ns['got']) is ctx.R(ns['mine']), 'an assigned mapping is not what is read back')
    ref = Ref()
    ref.layers['b']['p'] = 7
    for who in ('A', 'B', 'C', 'a2', 'b', 'c'):
        got = norm(ctx, ctx.m(ctx.attr(ns[who], 'properties'), 'copy'))
        ctx.check(got == ref.view(who), 'after assigning to another element %s.properties is %s' % (who, got))
    res = [norm(ctx, ctx.R(r)) for r in ctx.items(ns['res'])]
    want = [{'p': 1}, {'t': 2}, {'t': 2, 'u': 3}, {'w': 4}] * 2 + [{'x': 5}]
    ctx.check(res == want, 'derived properties are %s' % (res,))
    ctx.check([ctx.R(x) for x in ctx.items(ns['probe'])] == [1, 1, None, None, None], 'a property set on String later is seen by %s' % [ctx.R(x) for x in ctx.items(ns['probe'])])
    ctx.check(norm(ctx, ns['left']) == {}, 'String is left with properties')


@check.ob('assign-any', [P + 'Properties.__get__', P + 'Properties.__set__'],
          'whatever is assigned to .properties of an element is what is read there, empty mappings included; nothing of its class shows through')
def assign_any(ctx):
    kind = ctx.choose('{}', '{"x": 1}', 'Sub()', 'Sub(x=1)', 'None', 'a2.properties', 'b.properties', '()')
    when = ctx.choose('fresh', 'read before', 'set before')
    ns = ctx.do(SRC + '''
    class Sub(dict):
        pass
    if WHEN == 'read before':
        a.properties.copy()
    elif WHEN == 'set before':
        a.properties['p'] = 9
    new = %s
    a.properties = new
    got, again = a.properties, a.properties
    A.properties['late'] = 1
    late = a.properties
''' % kind, WHEN=when)
    for k in ('got', 'again', 'late'):
        ctx.check(ctx.R(ns[k]) is ctx.R(ns['new']) or ctx.same(ns[k], ns['new']), 'after assigning %s (%s) the element has %s' % (kind, when, ctx.show(ns[k])))
    ctx.check(norm(ctx, ctx.m(ctx.attr(ns['A'], 'properties'), 'copy')) == {'p': 1, 'q': 2, 'late': 1}, 'the class changes')


@check.ob('masked', [P + '_InstanceLookup.__delitem__', P + '_InstanceLookup.pop', P + '_TypeLookup.__delitem__'],
          'a property deleted at a layer stays deleted there, also one first set at that layer, when a layer above sets it later', max_runs=20000, shards=2)
def masked(ctx):
    low, high = ctx.choose(('a', 'A'), ('b', 'B'), ('b', 'A'), ('c', 'A'), ('B', 'A'), ('C', 'A'), ('C', 'B'))
    key = ctx.choose('n', 'p')
    first = ctx.choose('low', 'both', 'none')
    for op in ('del', 'pop', 'pop-default'):
        for op2 in ('set', 'setdefault', 'update', 'update-kw'):
            ns = ctx.do(SRC)
            ref = Ref()
            what = []
            if first != 'none':
                what.append(step(ctx, ns, ref, low, 'set', key, 3))
            if first == 'both':
                what.append(step(ctx, ns, ref, high, 'set', key, 4))
            what.append(step(ctx, ns, ref, low, op, key, 5))
            what.append(step(ctx, ns, ref, high, op2, key, 6))
            views(ctx, ns, ref, ', then '.join(what))


@check.ob('shared', [P + '_TypeLookup._frames', P + '_TypeLookup._base_frame'], 'one Properties object, or the mapping it is made from, used for several classes: what one class or element changes the others never see')
def shared(ctx):
    first = ctx.choose('none', 'read', 'set')
    what = ctx.choose("x['n'] = 1", "del x['p']", "x.clear()", "x.update(n=1)", "x.pop('p')", "x.setdefault('n', 1)")
    on = ctx.choose('X', 'X()', 'Z', 'X2')
    ns = ctx.do('''
    from flatland import Properties, String, Integer
    start = {'p': 1}
    P = Properties(start)
    X = String.using(properties=P)
    Y = Integer.using(properties=P)
    class Z(String):
        properties = P
    X2 = X.named(u'n')
    if FIRST == 'read':
        [k.properties.copy() for k in (X, Y, Z, X2)]
    elif FIRST == 'set':
        Y.properties['y'] = 1
        del Y.properties['y']
    x = %s.properties
    %s
    r = [k.properties.copy() for k in (X, Y, Z, X2)] + [start, String.properties.copy()]
''' % (on, what), FIRST=first)
    got = [norm(ctx, ctx.R(x)) for x in ctx.items(ns['r'])]
    base = {'p': 1}
    mine = {'p': 1, 'n': 1} if "'n'" in what or 'n=' in what else {}
    sees = {'X': ('X', 'X2'), 'X()': (), 'Z': ('Z',), 'X2': ('X2',)}[on]
    want = [mine if k in sees else base for k in ('X', 'Y', 'Z', 'X2')] + [base, {}]
    ctx.check(got == want, '%s on %s leaves %s, expected %s' % (what, on, got, want))


@check.ob('views', [P + 'Properties.__get__'], 'a view taken before a change, and iteration over a copy while changing, see the current properties')
def live(ctx):
    ns = ctx.do(SRC + '''
    va, vb, vB, vc = a.properties, b.properties, B.properties, c.properties
    A.properties['n'] = 1
    B.properties['m'] = 2
    b.properties['k'] = 3
    for k in B.properties.keys():
        c.properties[k] = 0
    r = [x.copy() for x in (va, vb, vB, vc)]
''')
    got = [norm(ctx, ctx.R(x)) for x in ctx.items(ns['r'])]
    want = [{'p': 1, 'q': 2, 'n': 1}, {'p': 1, 'q': 2, 'n': 1, 'm': 2, 'k': 3}, {'p': 1, 'q': 2, 'n': 1, 'm': 2}, {'p': 0, 'q': 0, 'n': 0, 'm': 0}]
    ctx.check(got == want, 'earlier views show %s' % (got,))


@check.ob('compare', [P + 'DictLike'], 'properties equal a dict, or other properties, having the same items, and nothing else; comparing never raises')
def compare(ctx):
    ns = ctx.do('''
    from flatland import Properties
    class X(object):
        properties = Properties(k=1, n=None)
    class Y(object):
        properties = Properties()
    x, y = X(), Y()
    y.properties['k'] = 1
    others = [({u'k': 1, u'n': None}, True, False), ({'k': 1}, False, True), ({}, False, False), (None, False, False), (5, False, False), (u'k', False, False), ([], False, False),
              ([('k', 1), ('n', None)], False, False), ((('k', 1),), False, False), (object(), False, False), (X.properties, True, False), (x.properties, True, False), (y.properties, False, True), (Y.properties, False, False)]
    r = []
    for o, wx, wy in others:
        r.append((X.properties == o, x.properties == o, y.properties == o, X.properties != o, x.properties != o, y.properties != o, wx, wx, wy))
    ''')
    for i, t in enumerate(ctx.items(ns['r'])):
        t = [ctx.truth(x) for x in ctx.items(t)]
        ctx.check(t[:3] == t[6:], 'comparison %d with ==: %s, expected %s' % (i, t[:3], t[6:]))
        ctx.check(t[3:6] == [not x for x in t[6:]], 'comparison %d with !=: %s' % (i, t[3:6]))
