"""C02 — list slots are numbered by position."""
from sa.oblig import Check
from . import seqops

check = Check('C02', 'List slots are always named by position, so flat and path names address the member')
C = 'flatland.schema.containers:List'


def invariant(ctx, ns, what):
    el = ns['el']
    slots = [ctx.R(s) for s in el.p]
    ms = ctx.items(el)
    seen = []
    for i, (s, m) in enumerate(zip(slots, ms)):
        ctx.check(all(s is not t for t in seen), '%s: the same slot is listed twice' % what)
        seen.append(s)
        name = ctx.attr(s, 'name')
        ctx.check(name == str(i) and ctx.kindset(name) == {'text'}, '%s: the slot at position %d is named %s' % (what, i, ctx.show(name)))
        ctx.check(ctx.attr(s, 'parent') is el, '%s: a slot is not parented to the list' % what)
        ctx.check(ctx.attr(s, 'element') is m and ctx.attr(m, 'parent') is s, '%s: slot and member do not refer to each other' % what)
        fn = ctx.R(ctx.m(m, 'flattened_name'))
        ctx.check(fn == u's_%d_m' % i, '%s: the member at position %d flattens as %s' % (what, i, ctx.show(fn)))
        fq = ctx.R(ctx.m(m, 'fq_name'))
        ctx.check(fq == u'.%d' % i, '%s: the member at position %d has the path %s' % (what, i, ctx.show(fq)))
        ctx.check(ctx.R(ctx.m(el, 'el', fq)) is m, '%s: el(%r) is not the member at position %d' % (what, fq, i))


def make(op):
    m = {'setitem': '__setitem__', 'setslice': '__setitem__', 'extslice': '__setitem__', 'delitem': '__delitem__', 'delextslice': '__delitem__',
         'delslice': '__delitem__', 'iadd': 'extend', 'set_flat': '_set_flat'}.get(op, op)
    anchors = [C + '.' + m] if op not in ('imul', 'set') else [C]

    @check.ob(op, anchors, 'after %s each slot is named by its index, is parented to the list and holds its member; '
              'flattened_name, fq_name and el() address the member at that index' % op)
    def ob(ctx):
        ns = seqops.build(ctx, 'List')
        if seqops.apply(ctx, ns, op):
            invariant(ctx, ns, op)


for o in seqops.OPS:
    make(o)


@check.ob('twice', [C + '._renumber'], 'numbering survives any two consecutive removals, insertions and reorderings', max_runs=20000)
def twice(ctx):
    ns = seqops.build(ctx, 'List', n=2)
    ns['plain'] = True
    ops = ['insert', 'delitem', 'pop', 'remove', 'reverse', 'append', 'setslice']
    for i in range(2):
        if not seqops.apply(ctx, ns, ctx.choose(*ops), 'x%d' % i):
            return
    invariant(ctx, ns, 'a sequence of mutations')


@check.ob('default-int', [C + '.set_default'], 'an integer default creates that many numbered default members')
def default_int(ctx):
    n = ctx.choose(0, 1, 2, 3)
    ns = ctx.do('''
        K = List.named(u's').of(String.named(u'm').using(default=u'd')).using(default=N)
        el = K.from_defaults()
    ''', N=n)
    ctx.check(len(ns['el'].p) == n, 'default=%d created %d members' % (n, len(ns['el'].p)))
    invariant(ctx, ns, 'set_default')
    for m in ctx.items(ns['el']):
        ctx.check(ctx.attr(m, 'value') == u'd', 'a default member was not defaulted')
