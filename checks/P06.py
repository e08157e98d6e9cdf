"""P06 — traversal properties, names and flattening describe one tree."""
from sa.oblig import Check

check = Check('P06', 'Parents, children, names and flattened pairs all describe the same tree')
B = 'flatland.schema.base:'
SRC = '''
    from flatland import DateYYYYMMDD
    kind = Form if KIND == 'form' else SparseDict if KIND == 'sparse' else Dict
    fields = [
        Dict.named(u'a').of(String.named(u'x'), List.named(u'l').of(Dict.named(u'm').of(String.named(u'x'), Array.named(u'r').of(String)))),
        Array.named(u'r').of(Integer.named(u'v')),
        MultiValue.named(u'mv').of(Integer),
        JoinedString.named(u'js').of(String),
        SparseDict.named(u's').of(String.named(u'x'), String.named(u'y')),
        DateYYYYMMDD.named(u'dt'),
        List.named(u'll').of(List.of(String)),
        List.named(u'dt2').of(DateYYYYMMDD),
        Ref.named(u'ref').to(u'0'),
        String.named(u'0')]
    if BLANK:
        fields += [Dict.named(u'').of(String.named(u''), List.named(u'l').of(String.named(u'')))]
    if KIND == 'list':
        root = List.named(NAME).of(Dict.of(*fields))([{}, {}])
        base = root[1]
    elif KIND == 'unlist':
        root = List.named(NAME).of(List.of(Dict.named(u'in').of(*fields)))([[], [{}]])
        base = root[1][0]
    else:
        root = kind.of(*fields)(name=NAME)
        base = root
    base.set({u'a': {u'x': u'v1', u'l': [{u'x': u'1', u'r': [u'a']}, {u'x': u'2'}]}, u'r': [1, 2], u'mv': [3, 4], u'js': u'p,q',
              u's': {u'y': u'z'}, u'll': [[u'p', u'q'], [], [u'r']], u'dt2': [None, None], u'0': u'v0', u'dt': None})
    if BLANK:
        base.el([u'']).set({u'': u'vb', u'l': [u'p', u'q']}) if KIND != 'sparse' else base.update({u'': {u'': u'vb', u'l': [u'p', u'q']}})
'''


class Node(object):
    """The tree as the containers' own contents have it."""

    def __init__(self, ctx, el, parent, key, slot):
        self.el, self.parent, self.key, self.slot = el, parent, key, slot
        self.name = ctx.R(ctx.attr(el, 'name'))
        self.kids = []
        p = getattr(el, 'p', None)
        self.is_list = isinstance(p, list)
        if self.is_list:
            slots = [ctx.R(i) for i in p]
            S = ctx.get('flatland.schema.base:Slot')
            for i, m in enumerate(slots):
                s = None
                if ctx.truth(ctx.I.isinstance(m, S)):
                    s = m
                    m = ctx.R(ctx.attr(m, 'element'))
                self.kids.append(Node(ctx, m, self, u'%d' % i, s))
        elif hasattr(p, 'items'):
            for k, v in p.items():
                self.kids.append(Node(ctx, ctx.R(v), self, ctx.R(k), None))

    def above(self):
        """Ancestors, innermost first, slots included."""
        n = self
        while n is not None:
            if n.slot is not None:
                yield n.slot, n.key, True
            n = n.parent
            if n is not None:
                yield n.el, n.name, n

    def bfs(self):
        q = list(self.kids)
        while q:
            n = q.pop(0)
            yield n
            q.extend(n.kids)

    def keys(self):
        out = []
        n = self
        while n.parent is not None:
            out.append(n.key)
            n = n.parent
        return out[::-1]


def build(ctx, blank=False):
    kind = ctx.choose('dict', 'form', 'sparse', 'list', 'unlist')
    name = ctx.choose(u'top', None, u'') if blank else ctx.choose(u'top', None)
    ns = ctx.do(SRC, KIND=kind, NAME=name, BLANK=blank)
    root = ctx.R(ns['root'])
    t = Node(ctx, root, None, None, None)
    return t, [t] + list(t.bfs())


def same(ctx, got, want):
    got = [ctx.R(g) for g in got]
    want = list(want)
    return len(got) == len(want) and all(a is b for a, b in zip(got, want))


@check.ob('up', [B + 'Element.root', B + 'Element.parents', B + 'Element.path'],
          'every element in every tree: parent, parents, root and path are the containers that hold it, innermost first, list slots included')
def up(ctx):
    t, all_ = build(ctx)
    for n in all_:
        above = [e for e, name, x in n.above()]
        what = n.keys()
        ctx.check(ctx.attr(n.el, 'parent') is (above[0] if above else None), 'the parent of %s is not what holds it' % what)
        ctx.check(same(ctx, ctx.items(ctx.attr(n.el, 'parents')), above), 'the parents of %s are not its containers' % what)
        ctx.check(ctx.R(ctx.attr(n.el, 'root')) is t.el, 'the root of %s is not the root' % what)
        ctx.check(same(ctx, ctx.items(ctx.attr(n.el, 'path')), above[::-1] + [n.el]), 'the path of %s is not root to element' % what)
        if n.slot is not None:
            ctx.check(ctx.R(ctx.attr(n.slot, 'parent')) is n.parent.el and ctx.R(ctx.attr(n.slot, 'name')) == n.key, 'the slot of %s has the wrong parent or name' % what)


@check.ob('down', [B + 'Element.children', B + 'Element.all_children'],
          'children are the direct members in order; all_children yields every descendant exactly once, shallower ones first, and never the element itself')
def down(ctx):
    t, all_ = build(ctx)
    for n in all_:
        ctx.check(same(ctx, ctx.items(ctx.attr(n.el, 'children')), [k.el for k in n.kids]), 'children of %s' % n.keys())
        ctx.check(same(ctx, ctx.items(ctx.attr(n.el, 'all_children')), [k.el for k in n.bfs()]), 'all_children of %s' % n.keys())


@check.ob('shared', [B + 'Element.all_children'], 'an element reachable twice, or from itself, is still yielded once')
def shared(ctx):
    ns = ctx.do('''
        leaf = String.named(u'x')(u'v')
        class D(Dict):
            extra = ()
            @property
            def children(self):
                return iter(list(Dict.children.fget(self)) + list(self.extra))
        root = D.named(u't').of(D.named(u'a').of(String.named(u'x')), D.named(u'b').of(String.named(u'x')))()
        a, b = root[u'a'], root[u'b']
        ax, bx = a[u'x'], b[u'x']
        if MODE == 'cycle':
            a.extra = (root,)
            bx2 = None
        elif MODE == 'twice':
            b.extra = (ax, ax)
        elif MODE == 'self':
            a.extra = (a, b)
    ''', MODE=ctx.choose('none', 'cycle', 'twice', 'self'))
    got = [ctx.R(i) for i in ctx.items(ctx.attr(ns['root'], 'all_children'))]
    want = [ctx.R(ns[k]) for k in ('a', 'b', 'ax', 'bx')]
    ctx.check(len(got) == 4 and all(any(w is g for g in got) for w in want), 'all_children yields %d elements of 4' % len(got))


@check.ob('fq_name', [B + 'Element.fq_name', B + 'Element.el'],
          'the fully qualified name of every element, with any separator, is what el() takes to reach exactly that element from anywhere in the tree')
def fq_name(ctx):
    t, all_ = build(ctx)
    sep = ctx.choose(u'.', u'/', u'::')
    kw = {} if sep == u'.' else {'sep': sep}
    far = all_[-1].el
    for n in all_:
        fq = ctx.R(ctx.m(n.el, 'fq_name', **kw))
        want = sep + sep.join(n.keys())
        ctx.check(fq == want, 'the qualified name of %s is %r, expected %r' % (n.keys(), fq, want))
        for start in (t.el, far, n.el):
            st, r, x = ctx.catch(lambda: ctx.m(start, 'el', fq, **kw))
            ctx.check(st == 'ok' and ctx.R(r) is n.el, 'el(%r) does not find the element so named' % fq)


def flatname(n, sep):
    names = [name for e, name, x in n.above()][::-1] + [n.name]
    return sep.join(x for x in names if x is not None)


HIDES = ('JoinedString',)


@check.ob('flattened_name', [B + 'Element.flattened_name'],
          'the flattened name of every element joins the names and list positions from the root down, unnamed ones left out, with any separator')
def flattened_name(ctx):
    t, all_ = build(ctx, ctx.choose(False, True))
    sep = ctx.choose(u'_', u'.', u'')
    kw = {} if sep == u'_' else {'sep': sep}
    for n in all_:
        got = ctx.R(ctx.m(n.el, 'flattened_name', **kw))
        want = flatname(n, sep)
        ctx.check(got == want, 'flattened name of %s is %r, expected %r' % (n.keys(), got, want))


@check.ob('flatten', [B + 'Element.flatten'],
          'flatten() pairs the flattened name and the chosen value of exactly the scalar elements at or below the element, its own first, '
          'each once; what a joined string holds is covered by the joined string')
def flatten(ctx):
    t, all_ = build(ctx, ctx.choose(False, True))
    sep = ctx.choose(u'_', u'.')
    kw = {} if sep == u'_' else {'sep': sep}
    mode = ctx.choose('u', 'custom')
    if mode == 'custom':
        log = []
        kw['value'] = ctx.fn('value', lambda el: log.append(ctx.R(el)) or ctx.app('shown', el))
    E = dict((n, ctx.get('flatland:' + n)) for n in ('Scalar', 'Ref', 'MultiValue', 'JoinedString'))

    def isa(el, n):
        return ctx.truth(ctx.I.isinstance(el, E[n]))

    def emits(n):
        if isa(n.el, 'JoinedString'):
            return True
        return isa(n.el, 'Scalar') and not isa(n.el, 'Ref') and not isa(n.el, 'MultiValue')

    def below(n):
        for k in n.kids:
            yield k

    for n in all_ if mode == 'u' else all_[:12]:
        want, q = [n], [] if isa(n.el, 'JoinedString') else list(n.kids)
        while q:
            k = q.pop(0)
            want.append(k)
            if not isa(k.el, 'JoinedString'):
                q.extend(k.kids)
        want = [k for k in want if emits(k)]
        if mode == 'custom':
            del log[:]
        got = ctx.items(ctx.m(n.el, 'flatten', **kw))
        pairs = [tuple(ctx.items(p)) for p in got]
        ctx.check([ctx.R(p[0]) for p in pairs] == [flatname(k, sep) for k in want], 'flatten() of %s lists %s, expected %s' % (
            n.keys(), [ctx.R(p[0]) for p in pairs], [flatname(k, sep) for k in want]))
        for p, k in zip(pairs, want):
            v = ctx.attr(k.el, 'u') if mode == 'u' else ctx.app('shown', k.el)
            ctx.check(ctx.same(p[1], v), 'flatten() of %s pairs %s with the value of another element' % (n.keys(), ctx.R(p[0])))
        if mode == 'custom':
            ctx.check(len(log) == len(want) and all(a is k.el for a, k in zip(log, want)), 'the value callable is not called once per element')


@check.ob('all_valid', [B + 'Element.all_valid'],
          'all_valid is true exactly when the element and every descendant is; assigning it assigns all of them')
def all_valid(ctx):
    root = ctx.do('''
        root = Dict.of(Dict.named(u'a').of(String.named(u'x'), List.named(u'l').of(Array.of(String))), JoinedString.named(u'j').of(String))(
            {u'a': {u'l': [[u'p', u'q'], [u'r']]}, u'j': u'a,b'})
    ''')['root']
    t = Node(ctx, ctx.R(root), None, None, None)
    all_ = [t] + list(t.bfs())
    i = ctx.choose(*range(0, len(all_)))
    sub = ctx.choose(0, 1, 2)
    n = all_[sub]
    deep = [n] + list(n.bfs())
    for k in all_:
        ctx.put(k.el, 'valid', True)
    ctx.check(ctx.truth(ctx.attr(n.el, 'all_valid')), 'all_valid is false though everything is valid')
    bad = all_[i]
    v = ctx.sym('v', 'true', 'false')
    ctx.put(bad.el, 'valid', v)
    inside = any(k is bad for k in deep)
    ctx.check(ctx.truth(ctx.attr(n.el, 'all_valid')) == (ctx.truth(v) if inside else True), 'all_valid of %s ignores or invents a failure at %s' % (n.keys(), bad.keys()))
    if inside:
        I = ctx.I
        w = ctx.choose(True, False)
        I.setattr(n.el, 'all_valid', w)
        for k in all_:
            want = w if any(k is d for d in deep) else True
            ctx.check(ctx.R(ctx.attr(k.el, 'valid')) is want, 'assigning all_valid of %s leaves %s at %s' % (n.keys(), k.keys(), ctx.show(ctx.attr(k.el, 'valid'))))
