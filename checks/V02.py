"""V02 — the validation walk over the element tree."""
from sa.oblig import Check

check = Check('V02', 'validate() visits each element once down and once up')
B = 'flatland.schema.base:'
SRC = '''
    class Node(Element):
        validates_down = 'downs'
        validates_up = 'ups'
        downs = (DOWN,)
        ups = (UP,)
        kids = ()
        is_empty = False
        @property
        def children(self):
            return iter(self.kids)
    class OnlyDown(Node):
        validates_up = None
    class OnlyUp(Node):
        validates_down = None
    class Never(Node):
        validates_down = None
        validates_up = None
'''
TREES = {
    'one': [[]],
    'pair': [[1, 2], [], []],
    'chain': [[1], [2], []],
    'mixed': [[1, 2], [3], [], []],
    'shared': [[1, 1, 2], [3], [3], []],
    'cycle': [[1, 2], [0], [1]],
}


def nodes(ctx, shape, kinds=None, hang='free'):
    log = []
    outs = {}

    def fn(way):
        def f(el, state):
            i = ix(el)
            log.append((way, i, state))
            return outs[(way, i)]()
        return ctx.fn(way, f)

    def ix(el):
        el = ctx.R(el)
        return [k for k, n in enumerate(ns_) if n is el][0]
    ns = ctx.do(SRC, DOWN=fn('down'), UP=fn('up'))
    tree = TREES[shape]
    ns_ = [ctx.R(ctx.call(ns[(kinds or {}).get(i, 'Node')])) for i in range(len(tree))]
    for n, kids in zip(ns_, tree):
        ctx.put(n, 'kids', tuple(ns_[k] for k in kids))
    # who hangs below whom, and what the nodes are like, makes no difference
    if hang != 'free':
        for i, kids in reversed(list(enumerate(tree))):
            for k in kids:
                if k > i:
                    ctx.put(ns_[k], 'parent', ns_[i])
        for i, n in enumerate(ns_):
            ctx.put(n, 'name', u'n%d' % (i // 2))
            ctx.put(n, 'optional', bool(i % 2))
    if hang == 'below':
        ctx.put(ns_[0], 'parent', ctx.call(ns['Never']))
    return ns_, log, outs, tree


def expected(tree, down, up):
    """down/up: {i: token or None when that pass does not apply}; returns order, valid flags, result"""
    order, seen, queue, valid = [], set(), [0], {}
    ok = True
    while queue:
        i = queue.pop(0)
        if i in seen:
            continue
        seen.add(i)
        order.append(i)
        d = down(i)
        valid[i] = {'None': False, 'Skip': True, 'SkipAll': True, 'SkipAllFalse': False, None: 'Unevaluated'}.get(d, d)
        ok = ok and valid[i] is not False
        if d in ('SkipAll', 'SkipAllFalse'):
            continue
        queue.extend(tree[i])
    for i in reversed(order):
        u = up(i)
        if u is None:
            continue
        u = {'None': False, 'Skip': True, 'SkipAll': True, 'SkipAllFalse': False}.get(u, u)
        if valid[i] is not False:
            valid[i] = u
        ok = ok and u
    return order, valid, ok


def token(ctx, t):
    return ctx.get(B + t) if t in ('Skip', 'SkipAll', 'SkipAllFalse', 'Unevaluated') else None if t == 'None' else t


def judge(ctx, ns_, log, tree, chosen, kinds, r, state, start):
    order, valid, ok = expected(tree, lambda i: chosen.get(('down', i), True) if kinds.get(i, 'Node') in ('Node', 'OnlyDown') else None,
                                lambda i: chosen.get(('up', i), True) if kinds.get(i, 'Node') in ('Node', 'OnlyUp') else None)
    want = [('down', i) for i in order if kinds.get(i, 'Node') in ('Node', 'OnlyDown')]
    want += [('up', i) for i in reversed(order) if kinds.get(i, 'Node') in ('Node', 'OnlyUp')]
    ctx.check([x[:2] for x in log] == want, 'visited %s, expected %s (outcomes %s)' % ([x[:2] for x in log], want, chosen))
    for x in log:
        ctx.check(ctx.same(x[2], state), 'a validator did not receive the state')
    for i, n in enumerate(ns_):
        v = ctx.attr(n, 'valid')
        w = valid.get(i, 'Unevaluated')
        if w == 'Unevaluated':
            ctx.check(v is start if i not in valid else v is ctx.R(token(ctx, 'Unevaluated')), 'outcomes %s: element %d has valid=%s, expected it untouched' % (chosen, i, ctx.show(v)))
        else:
            ctx.check(v is w, 'outcomes %s: element %d has valid=%s, expected %s' % (chosen, i, ctx.show(v), w))
    ctx.check(ctx.R(r) is ok, 'outcomes %s: validate() returned %s' % (chosen, ctx.show(r)))


def make(shape):
    @check.ob('walk-' + shape, [B + 'Element.validate', B + 'Element._validate'],
              'breadth first down, reverse order up, each element once per pass; children of SkipAll/SkipAllFalse are '
              'left out of both; flags and result follow every outcome', max_runs=20000)
    def walk(ctx):
        ns_, log, outs, tree = nodes(ctx, shape, hang=ctx.choose('free', 'parents', 'below') if shape in ('one', 'pair', 'chain') else 'parents')
        chosen = {}
        special = ctx.choose(*range(len(tree)))
        state = ctx.any('state')
        fails = []

        def mk(way, i):
            def f():
                opts = ('True',)
                if i == special:
                    opts = ('True', 'False', 'None', 'Skip', 'SkipAll', 'SkipAllFalse')
                elif not fails:
                    opts = ('True', 'False')
                t = ctx.choose(*opts) if len(opts) > 1 else 'True'
                if i != special and t == 'False':
                    fails.append(i)
                t = {'True': True, 'False': False}.get(t, t)
                chosen[(way, i)] = t
                return token(ctx, t)
            return f
        for i in range(len(tree)):
            for w in ('down', 'up'):
                outs[(w, i)] = mk(w, i)
        start = ctx.R(ctx.attr(ns_[0], 'valid'))
        ctx.check(start is ctx.R(token(ctx, 'Unevaluated')), 'a new element is not Unevaluated')
        r = ctx.m(ns_[0], 'validate', state)
        judge(ctx, ns_, log, tree, chosen, {}, r, state, start)


for s in sorted(TREES):
    make(s)


@check.ob('passes', [B + 'Element._validate'], 'elements that validate in one direction only, or never, are handled per pass', max_runs=9000)
def passes(ctx):
    shape = ctx.choose('pair', 'chain')
    kinds = dict((i, ctx.choose('Node', 'OnlyDown', 'OnlyUp', 'Never')) for i in range(2))
    ns_, log, outs, tree = nodes(ctx, shape, kinds)
    chosen = {}

    def mk(way, i):
        def f():
            t = ctx.choose(True, False)
            chosen[(way, i)] = t
            return t
        return f
    for i in range(len(tree)):
        for w in ('down', 'up'):
            outs[(w, i)] = mk(w, i)
    start = ctx.R(ctx.attr(ns_[0], 'valid'))
    r = ctx.m(ns_[0], 'validate', None)
    judge(ctx, ns_, log, tree, chosen, kinds, r, None, start)


@check.ob('no-recurse', [B + 'Element.validate'], 'recurse=False runs both passes on this element only; either failure fails it')
def no_recurse(ctx):
    kinds = {0: ctx.choose('Node', 'OnlyDown', 'OnlyUp', 'Never')}
    ns_, log, outs, tree = nodes(ctx, 'pair', kinds)
    d, u = ctx.choose(True, False, 'None', 'Skip', 'SkipAll', 'SkipAllFalse'), ctx.choose(True, False, 'None', 'Skip')
    outs[('down', 0)] = lambda: token(ctx, d)
    outs[('up', 0)] = lambda: token(ctx, u)
    r = ctx.R(ctx.m(ns_[0], 'validate', recurse=False))
    k = kinds[0]
    bad = ((k in ('Node', 'OnlyDown') and d in (False, 'None', 'SkipAllFalse')) or (k in ('Node', 'OnlyUp') and u in (False, 'None')))
    ctx.check(all(x[1] == 0 for x in log), 'children are visited')
    ctx.check(ctx.truth(r) is (not bad), 'down %s, up %s: validate(recurse=False) gives %s' % (d, u, ctx.show(r)))
    ctx.check(ctx.truth(ctx.attr(ns_[0], 'valid')) is (not bad), 'down %s, up %s: .valid is %s' % (d, u, ctx.show(ctx.attr(ns_[0], 'valid'))))
    if k == 'Never':
        ctx.check(ctx.R(ctx.attr(ns_[0], 'valid')) is ctx.R(token(ctx, 'Unevaluated')), 'an element without validation is not Unevaluated')


@check.ob('shipped', [B + 'Element.validate', 'flatland.schema.containers:Container'],
          'containers run descent_validators going down and validators going up, scalars run validators going down; '
          'a tree of Dict, List and Array is walked in that order')
def shipped(ctx):
    log = []

    def fn(name, *out):
        def f(el, state):
            log.append(name)
            return ctx.choose(*out) if out else True
        return ctx.fn(name, f)
    ns = ctx.do('''
        K = Dict.named(u'd').of(
            String.named(u's').using(validators=(S,)),
            List.named(u'l').of(String.using(validators=(M,))).using(validators=(LU,), descent_validators=(LD,)),
            Array.named(u'r').of(String.using(validators=(R,))).using(validators=(RU,)),
        ).using(validators=(DU,), descent_validators=(DD,))
        el = K()
        el[u's'] = u'x'
        el[u'l'].append(u'y')
        el[u'r'].append(u'z')
    ''', S=fn('s'), M=fn('m', True, False), LU=fn('lu'), LD=fn('ld', True, False), R=fn('r'), RU=fn('ru', True, False),
        DU=fn('du'), DD=fn('dd', True, False))
    fails = []
    r = ctx.truth(ctx.m(ns['el'], 'validate'))
    ctx.check(log[0] == 'dd' and log[-1] == 'du', 'the root is not first going down and last going up: %s' % log)
    ctx.check(sorted(log) == ['dd', 'du', 'ld', 'lu', 'm', 'r', 'ru', 's'], 'validators run: %s' % log)
    for a, b in (('ld', 'm'), ('m', 'lu'), ('r', 'ru'), ('s', 'm'), ('s', 'lu')):
        ctx.check(log.index(a) < log.index(b), '%s runs after %s' % (a, b))
    want = True
    for name, el in (('dd', ''), ('ld', 'l'), ('m', 'l.0'), ('ru', 'r')):
        pass
    flags = [ctx.attr(ns['el'], 'valid')] + [ctx.attr(c, 'valid') for c in ctx.items(ctx.attr(ns['el'], 'all_children'))]
    ctx.check(r is all([ctx.truth(x) for x in flags]), 'validate() returned %s but the flags are %s' % (r, [ctx.show(x) for x in flags]))
    ctx.check(ctx.truth(ctx.attr(ns['el'], 'all_valid')) is r, 'all_valid disagrees with validate()')
