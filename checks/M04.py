"""M04 — compound classes are initialized once, before their first element."""
from sa.oblig import Check

check = Check('M04', 'A compound class is initialized exactly once, before its first element')
C = 'flatland.schema.compound:'
SRC = '''
    from flatland import *
    from flatland.schema.compound import Compound
    log = []
    class K(Compound):
        field_schema = [String.named(u'a')]
        extra = 1
        def __compound_init__(cls):
            log.append(cls)
            if FAIL and len(log) == 1:
                raise ValueError('first')
        def compose(self):
            return self[u'a'].u, self[u'a'].value
        def explode(self, value):
            self[u'a'].set(value)
    class Sub(K):
        pass
    class Own(K):
        def __compound_init__(cls):
            log.append(cls)
    class Cm(K):
        @classmethod
        def __compound_init__(cls):
            log.append(cls)
'''


@check.ob('once', [C + '_MetaCompound.__call__', C + '_wrap_compound_init'],
          'for every sequence of constructions of a class and its subclasses: each class is initialized once, with itself, before its first element exists; none is initialized before')
def once(ctx):
    ns = ctx.do(SRC, FAIL=False)
    log = ns['log']
    ctx.check(len(ctx.items(log)) == 0, 'declaring a compound class initializes it')
    ctx.I.run.events = []
    n = ctx.choose(1, 2, 3)
    seen = []
    for i in range(n):
        which = ctx.choose('K', 'Sub', 'Own', 'Cm', 'value', 'flat', 'defaults', 'explicit', 'named')
        cls = {'value': 'K', 'flat': 'K', 'defaults': 'K', 'explicit': 'K', 'named': 'K'}.get(which, which)
        c = ctx.R(ns[cls])
        if which == 'explicit':
            if c in seen:
                return      # running it by hand again is the caller's wish
            ctx.m(c, '__compound_init__')
        elif which == 'value':
            ctx.call(c, u'x')
        elif which == 'flat':
            ctx.m(c, 'from_flat', ctx.I.new_list([(u'a', u'v')]))
        elif which == 'defaults':
            ctx.m(c, 'from_defaults')
        elif which == 'named':
            c = ctx.R(ctx.do("N = K.named(u'n')", K=c)['N'])
            ctx.check(len(ctx.items(log)) == len(seen), 'deriving a compound class initializes it')
            ctx.call(c)
        else:
            e = ctx.R(ctx.call(c))
            ctx.check(e.cls is c, 'constructing %s gives an element of another class' % which)
        if c not in seen:
            seen.append(c)
        got = [ctx.R(x) for x in ctx.items(log)]
        ctx.check(len(got) == len(seen) and all(a is b for a, b in zip(got, seen)),
                  'after %d constructions %s were initialized, expected %s' % (i + 1, [x.name for x in got], [x.name for x in seen]))
    locks(ctx)


def locks(ctx):
    depth = {}
    for ev in ctx.events('lock'):
        depth[id(ev[2])] = depth.get(id(ev[2]), 0) + (1 if ev[1] == 'acquire' else -1)
        ctx.check(depth[id(ev[2])] >= 0, 'the lock is released without being held')
    ctx.check(not any(depth.values()), 'the class lock is left held')


@check.ob('failure', [C + '_MetaCompound.__call__'],
          'if initialization raises, the error reaches the caller, the lock is released, and the next construction initializes again')
def failure(ctx):
    ns = ctx.do(SRC, FAIL=True)
    K = ctx.R(ns['K'])
    ctx.I.run.events = []
    how = ctx.choose('plain', 'value', 'kw')
    mk = {'plain': lambda: ctx.call(K), 'value': lambda: ctx.call(K, u'x'), 'kw': lambda: ctx.do('e = K(optional=True)', K=K)}[how]
    st, r, x = ctx.catch(mk)
    ctx.check(st == 'raise' and r == 'ValueError', 'a failed initialization gives %s' % (r if st == 'raise' else 'an element'))
    locks(ctx)
    st, r, x = ctx.catch(mk)
    ctx.check(st == 'ok', 'after a failed initialization construction raises %s' % r)
    ctx.check(len(ctx.items(ns['log'])) == 2, 'initialization is not run again after it failed')
    locks(ctx)


@check.ob('overrides', [C + '_MetaCompound.__call__'],
          'keyword arguments naming class attributes make an element of a derived class, initialized for itself; the class and its elements keep theirs; '
          'unknown names are a TypeError; a value still is set')
def overrides(ctx):
    ns = ctx.do(SRC, FAIL=False)
    K = ctx.R(ns['K'])
    first = ctx.choose(True, False)
    if first:
        ctx.call(K)
    before = len(ctx.items(ns['log']))
    v = ctx.text('v', True)
    n2 = ctx.do('''
        e = K(V, extra=2, optional=True, name=u'n')
        p = K(V)
    ''', K=K, V=v)
    e, p = ctx.R(n2['e']), ctx.R(n2['p'])
    ctx.check(e.cls is not K and K in e.cls.mro, 'overridden construction does not derive a class')
    ctx.check(ctx.attr(e, 'extra') == 2 and ctx.attr(e, 'optional') is True and ctx.attr(e, 'name') == u'n', 'overrides are lost')
    ctx.check(ctx.attr(K, 'extra') == 1 and ctx.attr(K, 'optional') is not True and ctx.R(ctx.attr(K, 'name')) is None, 'overrides leak to the class')
    ctx.check(p.cls is K and ctx.attr(p, 'extra') == 1, 'overrides leak to other elements')
    log = [ctx.R(x) for x in ctx.items(ns['log'])]
    ctx.check(sum(1 for x in log if x is K) == 1, 'the class is initialized %d times' % sum(1 for x in log if x is K))
    ctx.check(sum(1 for x in log if x is e.cls) == 1, 'the derived class is initialized %d times' % sum(1 for x in log if x is e.cls))
    for x in (e, p):
        ctx.check(ctx.same(ctx.attr(x, 'raw'), v), 'the value is not set')
    st, r, x = ctx.catch(lambda: ctx.do('K(nonesuch=1)', K=K))
    ctx.check(st == 'raise' and r == 'TypeError', 'an unknown keyword gives %s' % r)
    st, r, x = ctx.catch(lambda: ctx.do('K(V, nonesuch=1, extra=3)', K=K, V=v))
    ctx.check(st == 'raise' and r == 'TypeError', 'an unknown keyword among overrides gives %s' % r)


@check.ob('parent-kw', [C + '_MetaCompound.__call__'], 'parent= is the parent of the new element, with overrides or without')
def parent_kw(ctx):
    ns = ctx.do(SRC + '''
    holder = Dict.of(String.named(u'x'))()
    if OVER:
        e = K(parent=holder, extra=2)
    else:
        e = K(parent=holder)
''', FAIL=False, OVER=ctx.choose(True, False))
    ctx.check(ctx.R(ctx.attr(ns['e'], 'parent')) is ctx.R(ns['holder']), 'parent= is lost')
    ctx.check(ctx.R(ctx.attr(ns['K'], 'parent')) is None if ctx.R(ns['K']).lookup('parent')[0] is not None else True, 'parent= reaches the class')


@check.ob('threads', [C + '_MetaCompound.__call__', C + '_wrap_compound_init'],
          'whatever another thread does while this one waits for the class lock, or while the initialization runs: every class is still '
          'initialized once, and no element exists before that is over')
def threads(ctx):
    from sa.engine import Blocked
    other = []
    inside = []
    when = ctx.choose('waiting', 'inside')
    which = ctx.choose('K', 'Sub', 'Own')

    def during(cls):
        """Another thread constructs an element while the initialization runs."""
        if when != 'inside' or inside:
            return
        inside.append(1)
        I = ctx.I
        I.run.thread = 1
        try:
            e = ctx.call(ctx.R(cls))
            other.append(e)
        except Blocked:
            pass
        finally:
            I.run.thread = 0
    ns = ctx.do(SRC.replace("log.append(cls)", "during(cls); log.append(cls)"), FAIL=False, during=ctx.fn('during', during))
    K = ctx.R(ns[which])

    def waiting(lock):
        """Another thread constructs the first element, start to end, before the lock is ours."""
        ctx.I.run.lockhook = None
        ctx.I.run.thread = 1
        try:
            other.append(ctx.call(K))
        finally:
            ctx.I.run.thread = 0
    if when == 'waiting':
        ctx.I.run.lockhook = waiting
    st, r, x = ctx.catch(lambda: ctx.call(K))
    ctx.I.run.lockhook = None
    ctx.check(st == 'ok', 'construction raises %s' % r)
    if when == 'inside':
        ctx.check(inside and not other, 'an element is created by another thread while the initialization still runs')
    n = sum(1 for c in ctx.items(ns['log']) if ctx.R(c) is K)
    ctx.check(n == 1, 'the class is initialized %d times when two threads create its first elements' % n)
    ctx.call(K)
    n = sum(1 for c in ctx.items(ns['log']) if ctx.R(c) is K)
    ctx.check(n == 1, 'the class is initialized %d times' % n)
    locks(ctx)
