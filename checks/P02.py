"""P02, shared tree — what a path selects."""
import itertools

from sa.oblig import Check

check = Check('P02', 'find() selects exactly the elements its steps name, in order')
P = 'flatland.schema.paths:'
SRC = '''
    root = Dict.named(u'top').of(
        Dict.named(u'a').of(String.named(u'x'), String.named(u'y')),
        List.named(u'l').of(Dict.named(u'm').of(String.named(u'x'), String.named(u'y'))),
        Array.named(u'r').of(String.named(u'v')),
        String.named(u'0'),
        SparseDict.named(u's').of(String.named(u'x'), String.named(u'y')))()
    root[u'l'].set([{u'x': u'1', u'y': u'2'}, {u'x': u'3', u'y': u'4'}])
    root[u'r'].set([u'p', u'q', u'r'])
    root[u's'].set({u'y': u'z'})
'''


class Node(object):
    def __init__(self, name, el, kind, parent=None):
        self.name, self.el, self.kind, self.parent = name, el, kind, parent
        self.kids = []
        if parent is not None:
            parent.kids.append(self)

    @property
    def root(self):
        n = self
        while n.parent is not None:
            n = n.parent
        return n

    def walk(self):
        yield self
        for k in self.kids:
            for x in k.walk():
                yield x


def tree(ctx):
    root = ctx.R(ctx.do(SRC)['root'])

    def grow(el, name, kind, parent):
        n = Node(name, el, kind, parent)
        if kind == 'dict':
            for k, v in [(ctx.R(k), ctx.R(v)) for k, v in el.p.items()]:
                grow(v, k, {u'a': 'dict', u'l': 'list', u'r': 'array', u's': 'dict'}.get(k, 'leaf'), n)
        elif kind in ('list', 'array'):
            for i, m in enumerate(ctx.items(el)):
                grow(m, u'%d' % i, 'dict' if kind == 'list' else 'leaf', n)
        return n
    return grow(root, u'top', 'dict', None)


class Missing(Exception):
    pass


def child(n, name):
    for k in n.kids:
        if k.name == name:
            return k
    if n.kind in ('list', 'array'):
        try:
            return n.kids[int(name)]
        except (ValueError, IndexError):
            pass
    raise Missing()


def ref(start, steps, strict):
    """What the steps select, read off the tree."""
    todo, out = [(start, steps)], []
    while todo:
        n, steps = todo.pop(0)
        try:
            while steps:
                s, steps = steps[0], steps[1:]
                if s == '/':
                    n = n.root
                elif s == '..':
                    n = n.parent or n
                elif s == '.':
                    pass
                elif isinstance(s, slice):
                    todo.extend((k, steps) for k in n.kids[s])
                    break
                else:
                    n = child(n, s)
            else:
                out.append(n)
        except Missing:
            if strict:
                raise
    return out


# text, steps
STEPS = [(u'a', u'a'), (u'x', u'x'), (u'l', u'l'), (u'r', u'r'), (u's', u's'), (u'0', u'0'), (u'zz', u'zz'), (u'..', '..'), (u'.', '.'), (u'1', u'1'),
         (u'[:]', slice(None)), (u'[0]', u'0'), (u'[1]', u'1'), (u'[-1]', slice(-1, None)), (u'[1:]', slice(1, None)), (u'[7]', u'7')]


def spell(steps, absolute):
    out = u''
    for i, (t, s) in enumerate(steps):
        if i and not t.startswith(u'['):
            out += u'/'
        out += t
    return (u'/' if absolute else u'') + out


def skips(steps):
    """A step followed by .. is cancelled without being looked at; only defined for names that exist."""
    st = []
    for t, s in steps:
        if s == '..' and st and st[-1] not in ('..', '/'):
            if isinstance(st[-1], slice) or st[-1] in (u'0', u'1', u'7', u'zz'):
                return None
            st.pop()
        elif s == '.':
            continue
        else:
            st.append(s)
    return st


@check.ob('steps', [P + 'PathExpression.__call__', P + 'tokenize', P + '_canonicalize'],
          'every path of up to three steps, absolute or relative, from every element: the elements found are those the steps '
          'lead to, each once per way, in document order; a missing step is skipped, or a LookupError if strict', max_runs=40000)
def steps(ctx):
    n = ctx.choose(1, 2, 3)
    first = ctx.choose(*STEPS)
    small = STEPS if n < 3 else [x for x in STEPS if x[0] not in (u's', u'r', u'7', u'[7]', u'[-1]', u'.')]
    if n == 3 and first not in small:
        return
    root = tree(ctx)
    starts = [root, child(root, u'a'), child(child(root, u'a'), u'x'), child(root, u'l'), child(root, u'r'), child(root, u's')]
    if n == 3:
        starts = starts[:4:3]
    for rest in itertools.product(small, repeat=n - 1):
        seq = [first] + list(rest)
        if skips(seq) is None:
            continue
        for start in starts:
            for absolute in (False, True):
                run(ctx, root, start, seq, absolute)


def run(ctx, root, start, seq, absolute, text=None):
    text = spell(seq, absolute) if text is None else text
    plan = (['/'] if absolute else []) + [s for t, s in seq]
    by_el = dict((id(x.el), x) for x in root.walk())
    for strict in (False, True):
        try:
            want = ref(start, plan, strict)
            # a cancelled step may be absent without harm
        except Missing:
            want = None
        cancelled = (['/'] if absolute else []) + skips(seq)
        try:
            want2 = ref(start, cancelled, strict)
        except Missing:
            want2 = None
        st, r, e = ctx.catch(lambda: ctx.call(ctx.call(ctx.get(P + 'pathexpr'), text), start.el, strict))
        if st == 'raise':
            ctx.check(r == 'LookupError', '%r from %s (strict=%s) raises %s' % (text, start.name, strict, r))
            ctx.check(want is None or want2 is None, '%r from %s (strict=%s) raises LookupError although every step exists' % (text, start.name, strict))
            continue
        ctx.check(want is not None or want2 is not None, '%r from %s: a missing step is not reported' % (text, start.name))
        got = [ctx.R(i) for i in ctx.items(r)]
        ok = [[n.el for n in w] for w in (want, want2) if w is not None]
        ctx.check(any(len(got) == len(w) and all(a is b for a, b in zip(got, w)) for w in ok),
                  '%r from %s (strict=%s) finds %s, expected %s' % (
                      text, start.name, strict, [by_el[id(g)].name if id(g) in by_el else ctx.show(g) for g in got], [n.name for n in (want2 if want2 is not None else want)]))


@check.ob('spelling', [P + 'tokenize'], 'equivalent spellings (./, trailing /, [n] for /n, x/../x) select the same elements')
def spelling(ctx):
    root = tree(ctx)
    a, b = ctx.choose((u'a/x', u'./a/x'), (u'a/x', u'a/./x'), (u'a/x', u'a/x/'), (u'a/x', u'a/x/.'), (u'l/1/x', u'l[1]/x'), (u'l[1]/x', u'./l[1]/x'),
                      (u'l[1]/x', u'l/.[1]/x'), (u'a/x', u'a/y/../x'), (u'a/x', u'l/../a/x'), (u'/a/x', u'/../a/x'), (u'/a', u'/a/x/..'), (u'.', u'a/..'),
                      (u'l[:]/x', u'l[:]/y/../x'), (u'l/0', u'l[0]'), (u'l[:]', u'l[::]'), (u'l[:]', u'l[0:]'), (u'.', u'..'), (u'/', u'/..'), (u'.', u'./.'),
                      (u'/l[-1]', u'/l[1]'), (u'r[0]', u'r/0'), (u'r[-2]', u'r/1'), (u'/a/x', u'/./a/x'), (u'/', u'/.'))
    res = []
    for t in (a, b):
        r = ctx.call(ctx.call(ctx.get(P + 'pathexpr'), t), root.el, True)
        res.append([ctx.R(i) for i in ctx.items(r)])
    ctx.check(len(res[0]) == len(res[1]) and all(x is y for x, y in zip(*res)) and res[0], '%r and %r differ: %s, %s' % (a, b, len(res[0]), len(res[1])))


@check.ob('parents', [P + 'PathExpression.__call__'], '.. climbs to the parent whatever the truth value of elements, and stops at the root')
def parents(ctx):
    ns = ctx.do('''
        class D(Dict):
            def __nonzero__(self):
                return False
        root = D.named(u't').of(D.named(u's').of(D.named(u'u').of(String.named(u'x'))), String.named(u'y'))()
        s = root[u's']
        u = s[u'u']
        x = u[u'x']
    ''')
    path, want = ctx.choose((u'..', 'u'), (u'../..', 's'), (u'../../..', 'root'), (u'../../../..', 'root'), (u'../../../../..', 'root'), (u'/', 'root'), (u'.', 'x'), (u'/..', 'root'))
    r = [ctx.R(i) for i in ctx.items(ctx.m(ns['x'], 'find', path))]
    ctx.check(len(r) == 1 and r[0] is ctx.R(ns[want]), '%s from three levels down does not reach %s' % (path, want))


@check.ob('message', [P + 'PathExpression.__call__'], 'a strict miss is a LookupError even for unnamed elements and odd names')
def message(ctx):
    cls = ctx.choose('Dict.of(String.named(u"a"))', 'Dict.named(u"n\\xe9").of(String.named(u"a"))', 'String', 'List.of(String)', 'Array.of(String)', 'Integer.named(u"i")')
    name = ctx.choose(u'zz', u'\xe9\u0416', u'9', u'-9', u'a b', u"it's", u'%s', u'', u'7/zz')
    el = ctx.do('el = (%s)()' % cls)['el']
    st, r, e = ctx.catch(lambda: ctx.m(el, 'find', name))
    if name == u'':
        ctx.check(st == 'ok', 'the empty path raises %s' % r)
        return
    ctx.check(st == 'raise' and r in ('LookupError', 'KeyError', 'IndexError'), '%r on %s gives %s' % (name, cls, r if st == 'raise' else ctx.show(r)))
    st, r, e = ctx.catch(lambda: ctx.m(el, 'find', name, strict=False))
    ctx.check(st == 'ok' and ctx.items(r) == [], 'not strict: %r on %s gives %s' % (name, cls, r if st == 'raise' else ctx.items(r)))


BOUNDS = (None, 0, 1, 2, 3, 5, -1, -2, -3, -5)
STRIDES = ('', None, 1, 2, 3, -1, -2, -3, 10, -10)


@check.ob('slices', [P + '_parse_slice', P + 'tokenize', P + 'PathExpression.__call__'],
          'every slice - start, stop and stride absent, zero, positive, negative or out of range - selects the children the same slice of a list would, and a negative index the one it counts back to',
          max_runs=20000)
def slices(ctx):
    kind = ctx.choose('List.of(String)', 'Array.of(String)', 'List.of(Dict.of(String.named(u"x")))')
    n = ctx.choose(0, 1, 2, 3, 12)
    a = ctx.choose(*BOUNDS + ((10, -11) if n == 12 else ()))
    ns = ctx.do('''
        root = Dict.of((%s).named(u'l'))()
        el = root[u'l']
        el.extend([el.member_schema() for i in range(N)])
    ''' % kind, N=n)
    kids = ctx.items(ns['el'])
    todo = [(u'[%d]' % a, slice(a, a + 1 if a + 1 else None))] if a is not None and a < 0 else []
    for b in BOUNDS:
        for s in STRIDES:
            text = u'[%s:%s%s]' % ('' if a is None else a, '' if b is None else b, '' if s == '' else ':' if s is None else ':%d' % s)
            todo.append((text, slice(a, b, s or None)))
    deep = 'Dict' in kind
    for text, sl in todo:
        for path, at in ((text, 'el'), (u'l' + text, 'root'), (u'/l' + text, 'el')):
            if path != text and sl.step not in (None, -2):
                continue
            st, r, x = ctx.catch(lambda: ctx.m(ns[at], 'find', path + (u'/x' if deep else u'')))
            ctx.check(st == 'ok', '%s of %d children raises %s' % (path, n, r))
            want = [ctx.do('r = k[u"x"]', k=k)['r'] if deep else k for k in kids[sl]]
            got = ctx.items(r)
            ctx.check(len(got) == len(want) and all(ctx.R(x) is ctx.R(y) for x, y in zip(got, want)), '%s of %d children finds %d, not the children of the slice' % (path, n, len(got)))
