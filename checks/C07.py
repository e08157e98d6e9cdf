"""C07 — flat data cannot grow a List past its ceiling."""
from sa.oblig import Check

check = Check('C07', 'Flat data never grows a List beyond maximum_set_flat_members')
C = 'flatland.schema.containers:List'


def client(ctx, prune, n, limit, nested=False):
    ns = ctx.do('''
        K = List.named(u's').of(String.named(u'm').using(strip=False)).using(prune_empty=P, maximum_set_flat_members=M)
        el = K()
    ''', P=prune, M=limit)
    return ns['el']


@check.ob('symbolic', [C + '._set_flat'],
          'any keys and values, any ceiling, both pruning modes: at most the ceiling many members', max_runs=9000)
def symbolic(ctx):
    prune = ctx.choose(True, False)
    limit = ctx.choose(0, 1, 2)
    el = client(ctx, prune, 2, limit)
    pairs = [(ctx.text('key%d' % i), ctx.text('v%d' % i, True)) for i in range(ctx.choose(1, 2))]
    ctx.m(el, 'set_flat', ctx.I.new_list(pairs))
    ctx.check(len(el.p) <= limit, 'set_flat left %d members with maximum_set_flat_members=%d (prune_empty=%s)' % (len(el.p), limit, prune))


IDX = [0, 1, 2, 7, 4000000000]


@check.ob('indexes', [C + '._set_flat'],
          'prune: the lowest indexes up to the ceiling, in index order; no prune: exactly min(highest index + 1, ceiling) '
          'members, each holding the value of its index', max_runs=20000)
def indexes(ctx):
    prune = ctx.choose(True, False)
    limit = ctx.choose(0, 1, 2, 3)
    el = client(ctx, prune, 2, limit)
    idx = ctx.choose([], [0], [2], [7], [0, 1], [1, 0], [0, 2], [7, 2], [10, 2], [2, 11, 10, 1], [100, 20, 3], [2, 4000000000], [0, 4000000000], [2, 1, 0], [7, 0, 1])
    if not prune and not limit and False:
        return
    vals = dict((i, ctx.text('v%d' % i, True)) for i in idx)
    ctx.m(el, 'set_flat', ctx.I.new_list([(u's_%d_m' % i, vals[i]) for i in idx]))
    ms = ctx.items(el)
    ctx.check(len(ms) <= limit, 'set_flat left %d members with maximum_set_flat_members=%d (prune_empty=%s)' % (len(ms), limit, prune))
    if prune:
        want = sorted(idx)[:limit]
        ctx.check(len(ms) == len(want), 'pruned: %d members from indexes %s' % (len(ms), idx))
        for m, i in zip(ms, want):
            ctx.check(ctx.same(ctx.attr(m, 'value'), vals[i]), 'pruned: the members are not in index order')
    else:
        want = min(max(idx) + 1, limit) if idx else 0
        ctx.check(len(ms) == want, 'unpruned: %d members from indexes %s, expected %d' % (len(ms), idx, want))
        for i, m in enumerate(ms):
            v = ctx.attr(m, 'value')
            ctx.check(ctx.same(v, vals[i]) if i in vals else v is None, 'unpruned: member %d holds %s' % (i, ctx.show(v)))


@check.ob('nested', [C + '._set_flat'], 'lists of dicts and lists of lists obey their own ceilings')
def nested(ctx):
    prune = ctx.choose(True, False)
    limit = ctx.choose(1, 2)
    ns = ctx.do('''
        K = List.named(u's').of(List.named(u'l').of(String.named(u'm')).using(prune_empty=P, maximum_set_flat_members=M))
        K = K.using(prune_empty=P, maximum_set_flat_members=M)
        el = K()
    ''', P=prune, M=limit)
    i, j = ctx.choose(0, 1, 5), ctx.choose(0, 1, 5)
    ctx.m(ns['el'], 'set_flat', ctx.I.new_list([(u's_%d_l_%d_m' % (i, j), u'x'), (u's_%d_l_%d_m' % (i, j + 1), u'y'),
                                                (u's_%d_l_%d_m' % (i + 1, j), u'z'), (u's_%d_l_%d_m' % (i + 2, j), u'z')]))
    outer = ctx.items(ns['el'])
    ctx.check(len(outer) <= limit, 'the outer list holds %d members' % len(outer))
    for o in outer:
        ctx.check(len(o.p) <= limit, 'an inner list holds %d members' % len(o.p))


@check.ob('blank', [C + '._set_flat'], 'prune_empty: members whose every value is empty are not created')
def blank(ctx):
    el = client(ctx, True, 2, 5)
    v = ctx.text('v')
    ctx.m(el, 'set_flat', ctx.I.new_list([(u's_0_m', v), (u's_3_m', u'x')]))
    empty = not ctx.truth(v)
    ms = ctx.items(el)
    ctx.check(len(ms) == (1 if empty else 2), '%d members with %s first value' % (len(ms), 'an empty' if empty else 'a'))
    ctx.check(ctx.attr(ms[-1], 'value') == u'x', 'the later member is lost')


@check.rule('finite', [C + '.maximum_set_flat_members'], 'every shipped List type declares a finite non-negative ceiling')
def finite(S):
    from sa.engine import ClassObj
    L = S.get(C)
    for m in S.modules():
        mod = m.ns
        for k, v in list(mod.items()):
            if isinstance(v, ClassObj) and L in v.mro:
                S.count('list classes')
                x = S.I.getattr(v, 'maximum_set_flat_members')
                if not isinstance(x, int) or isinstance(x, bool) or x < 0 or x > 100000:
                    yield v.name, m.relpath, v.node.lineno if v.node is not None else 1, 'ceiling is %r' % (x,)
