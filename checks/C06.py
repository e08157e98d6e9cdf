"""C06 — container set() replaces the content and reports the conjunction."""
from sa.oblig import Check

check = Check('C06', 'Container set() replaces all members and returns whether every member adapted')
C = 'flatland.schema.containers:'

CHILD = '''
    from flatland.exc import AdaptationError
    class Child(Scalar):
        def adapt(self, value):
            LOG(value)
            if not OK(value):
                raise AdaptationError()
            return value
        def serialize(self, value):
            return SER(value)
'''


def env(ctx):
    log = []

    def ok(v):
        return ctx.I.decide(('adapts', ctx.I.tkey(v)), 'adapts')
    return log, dict(OK=ctx.fn('ok', ok), LOG=ctx.fn('log', lambda v: log.append(v)),
                     SER=ctx.fn('ser', lambda v: ctx.app('ser', v)))


def make(cls):
    @check.ob('seq-' + cls, [C + 'Sequence.set'] if cls != 'JoinedString' else ['flatland.schema.compound:JoinedString.set'],
              'old members go, each value becomes one member in order, every member is set (no short cut), result is '
              'True iff all adapted')
    def ob(ctx):
        log, e = env(ctx)
        ns = ctx.do(CHILD + '''
    K = %s.named(u's').of(Child)
    el = K()
''' % cls, **e)
        el = ns['el']
        for i in range(ctx.choose(0, 1, 2)):
            ctx.m(el, 'append', ctx.call(ns['Child']))
        n = ctx.choose(0, 1, 2, 3)
        vals = [ctx.sym('v%d' % i, 'text', 'int') for i in range(n)]
        if cls == 'JoinedString':
            for v in vals:
                ctx.I.run.truth[v] = True
        shape = ctx.choose('list', 'tuple', 'generator') if cls != 'JoinedString' else ctx.choose('list', 'tuple')
        arg = ctx.I.new_list(vals)
        if shape == 'tuple':
            arg = tuple(vals)
        elif shape == 'generator':
            arg = ctx.do('g = (x for x in L)', L=arg)['g']
        r = ctx.truth(ctx.m(el, 'set', arg))
        ms = ctx.items(el)
        ctx.check(len(ms) == n, 'set() of %d values leaves %d members' % (n, len(ms)))
        want = True
        for i, m in enumerate(ms):
            ctx.check(ctx.same(ctx.attr(m, 'raw'), vals[i]), 'member %d was not set to value %d' % (i, i))
            ok = ctx.I.decide(('adapts', ctx.I.tkey(vals[i])))
            want = want and ok
            ctx.check(ctx.same(ctx.attr(m, 'value'), vals[i] if ok else None), 'member %d holds the wrong value' % i)
        ctx.check(r is want, 'set() returned %s although %s' % (r, 'every member adapted' if want else 'a member failed to adapt'))

    @check.ob('noniter-' + cls, [C + 'Sequence.set'] if cls != 'JoinedString' else ['flatland.schema.compound:JoinedString.set'],
              'a value that cannot be iterated empties the sequence and returns False')
    def bad(ctx):
        ns = ctx.do('K = %s.named(u"s").of(String); el = K()' % cls)
        el = ns['el']
        if ctx.choose(False, True):
            ctx.m(el, 'append', u'old')
        v = ctx.sym('v', 'none', 'bool', 'int', 'float', 'decimal', 'date')
        r = ctx.m(el, 'set', v)
        ctx.check(ctx.R(r) is False, 'set() of a non-iterable returned %s' % ctx.show(r))
        ctx.check(len(el.p) == 0, 'members survive set() of a non-iterable')


for c in ('List', 'Array', 'MultiValue', 'JoinedString'):
    make(c)


def mapping(cls):
    @check.ob('map-' + cls, [C + 'Dict.set'], 'every field is set even after a failure; result is True iff all adapted; '
              'children are new')
    def ob(ctx):
        log, e = env(ctx)
        ns = ctx.do(CHILD + '''
    K = %s.named(u'd').of(Child.named(u'a'), Child.named(u'b'))
    el = K()
''' % cls, **e)
        el = ns['el']
        if ctx.choose(False, True):
            ctx.do('el[u"a"] = 1; el[u"b"] = 2', el=el)
        old = [ctx.R(x) for x in el.p.values()]
        keys = ctx.choose([u'a'], [u'b', u'a'], [u'a', u'b'], [])
        vals = dict((k, ctx.sym('v' + k, 'text', 'int')) for k in keys)
        r = ctx.truth(ctx.m(el, 'set', ctx.I.new_list([(k, vals[k]) for k in keys])))
        want = True
        for k in keys:
            m = ctx.R(el.p.get(ctx.I, k)[1])
            ctx.check(ctx.same(ctx.attr(m, 'raw'), vals[k]), 'field %s was not set' % k)
            want = want and ctx.I.decide(('adapts', ctx.I.tkey(vals[k])))
        ctx.check(r is want, 'set() returned %s although %s' % (r, 'every field adapted' if want else 'a field failed to adapt'))
        ctx.check(all(ctx.R(x) not in old for x in el.p.values()), 'a child survives set()')


mapping('Dict')
mapping('SparseDict')


@check.ob('nested', [C + 'Sequence.set', C + 'Dict.set'], 'failures deep in the tree reach the result of the outer set()')
def nested(ctx):
    log, e = env(ctx)
    ns = ctx.do(CHILD + '''
    K = Dict.named(u'd').of(List.named(u'l').of(Dict.of(Child.named(u'a'))), Array.named(u'r').of(Child))
    el = K()
''', **e)
    vs = [ctx.sym('v%d' % i, 'int') for i in range(3)]
    r = ctx.truth(ctx.do('r = el.set({u"l": [{u"a": x}, {u"a": y}], u"r": [z]})', el=ns['el'], x=vs[0], y=vs[1], z=vs[2])['r'])
    want = all([ctx.I.decide(('adapts', ctx.I.tkey(v))) for v in vs])
    ctx.check(r is want, 'the outer set() returned %s although %s' % (r, 'all adapted' if want else 'a leaf failed'))
