"""C13 — searching sequences by value."""
from sa.oblig import Check

check = Check('C13', 'Sequences are searched by value, and all searches agree')
C = 'flatland.schema.containers:Sequence.'
MEMBERS = {
    'String': ("String", ["u'a'", "u'b'", "u'a'", "u''", "None"], ["u'a'", "u' a '", "u'b'", "u'c'", "u''", "None", "1", "String(u'a')", "String(u'c')", "el[0]", "Integer(1)", "String()"]),
    'Integer': ("Integer", ["1", "0", "u'1'", "u'x'", "None"], ["1", "u'1'", "0", "u'0'", "u'x'", "None", "u'y'", "Integer(1)", "Integer(u'x')", "String(u'1')", "el[1]", "True", "7"]),
    'Dict': ("Dict.of(String.named(u'a'), Integer.named(u'b'))", ["{u'a': u'x', u'b': 1}", "{u'a': u'y', u'b': 2}", "{u'a': u'x', u'b': 1}"],
             ["{u'a': u'x', u'b': 1}", "{u'a': u'x', u'b': u'1'}", "{u'a': u'y', u'b': 2}", "{u'a': u'y', u'b': 3}", "{}", "el[1]", "M({u'a': u'y', u'b': 2})", "M()"]),
    'List': ("List.of(Integer)", ["[1, 2]", "[]", "[2, 1]", "[1, 2]"], ["[1, 2]", "(1, 2)", "[u'1', 2]", "[]", "[2, 1]", "[3]", "el[2]", "M([2, 1])", "Array.of(Integer)([1, 2])"]),
}


def make(cls):
    @check.ob('search-' + cls, [C + 'index', C + 'count', C + '__contains__', C + 'remove'],
              'in, index(), count() and remove() with a plain value look for a member equal to an element of the member schema holding it, with an element for one equal to it: '
              'they agree with comparing member by member, find the first, raise ValueError if there is none, and only remove() changes anything', max_runs=20000, shards=2)
    def ob(ctx):
        kind = ctx.choose(*([k for k in sorted(MEMBERS)] if cls in ('List', 'Array') else ['Integer', 'String']))
        schema, have, probes = MEMBERS[kind]
        n = ctx.choose(*range(len(have) + 1))
        have = have[:n]
        for p in probes:
            if 'el[' in p and int(p[3]) >= n:
                continue
            ns = ctx.do('''
    M = %s.named(u'm')
    K = %s.named(u's').of(M)
    el = K()
    for v in [%s]:
        el.append(v)
    before = [x for x in el]
    p = %s
    e = p if isinstance(p, Element) else M(p)
    same = [m == e for m in before]
    count = el.count(p)
    has = p in el
    no = p not in el
    try:
        first = el.index(p)
    except ValueError:
        first = None
    after = [x for x in el]
    up = p.parent if isinstance(p, Element) else None
    ''' % (schema, cls, ', '.join(have), p))
            what = '%s of %s [%s], looking for %s' % (cls, kind, ', '.join(have), p)
            same = [ctx.truth(x) for x in ctx.items(ns['same'])]
            if p.startswith('el['):
                same[int(p[3])] = True
            ctx.check(ctx.R(ns['count']) == sum(same), '%s: count() gives %s, %d are equal' % (what, ctx.show(ns['count']), sum(same)))
            ctx.check(ctx.truth(ns['has']) is any(same) and ctx.truth(ns['no']) is (not any(same)), '%s: in gives %s' % (what, ctx.show(ns['has'])))
            want = same.index(True) if any(same) else None
            ctx.check(ctx.R(ns['first']) == want, '%s: index() gives %s, not %s' % (what, ctx.show(ns['first']), want))
            b = [ctx.R(x) for x in ctx.items(ns['before'])]
            a = [ctx.R(x) for x in ctx.items(ns['after'])]
            ctx.check(len(a) == len(b) and all(x is y for x, y in zip(a, b)), '%s: searching changes the members' % what)
            if not p.startswith('el['):
                ctx.check(ctx.R(ns['up']) is None, '%s: searching gives the value a parent' % what)
            st, r, x = ctx.catch(lambda: ctx.do('el.remove(p)', el=ns['el'], p=ns['p']))
            ctx.check((st == 'ok') is any(same) and (st == 'ok' or r == 'ValueError'), '%s: remove() %s' % (what, 'raises ' + str(r) if st != 'ok' else 'removes something'))
            if want is not None:
                del b[want]
            a = [ctx.R(x) for x in ctx.items(ns['el'])]
            ctx.check(len(a) == len(b) and all(x is y for x, y in zip(a, b)), '%s: remove() leaves other members' % what)


for c in ('List', 'Array', 'MultiValue', 'JoinedString'):
    make(c)


def iteration(cls):
    @check.ob('read-' + cls, ['flatland.schema.containers:List.__getitem__', 'flatland.schema.containers:List.__iter__', 'flatland.schema.containers:List.__getslice__'],
              'len(), truth, iteration, items and slices of every kind give the same members in the same order, never list slots, and out of range positions raise IndexError', shards=2)
    def ob(ctx):
        n = ctx.choose(0, 1, 2, 3, 4)
        ns = ctx.do('''
    K = %s.named(u's').of(String.named(u'm'))
    el = K()
    for v in vals:
        el.append(v)
    ms = [x for x in el]
    kids = list(el.children)
    again = list(el)
    size = len(el)
    ''' % cls, vals=ctx.I.new_list([u'v%d' % i for i in range(n)]))
        ms = [ctx.R(m) for m in ctx.items(ns['ms'])]
        ctx.check([ctx.R(ctx.attr(m, 'u')) for m in ms] == [u'v%d' % i for i in range(n)], 'iteration gives other members')
        for k in ('kids', 'again'):
            x = [ctx.R(m) for m in ctx.items(ns[k])]
            ctx.check(len(x) == n and all(a is b for a, b in zip(x, ms)), '%s differ from iteration' % k)
        ctx.check(ctx.R(ns['size']) == n, 'len() is %s' % ctx.show(ns['size']))
        if cls != 'JoinedString':
            ctx.check(ctx.truth(ns['el']) is (n > 0), 'truth of %d members' % n)
        for i in range(-n - 2, n + 2):
            st, r, x = ctx.catch(lambda: ctx.do('r = el[i]', el=ns['el'], i=i)['r'])
            if -n <= i < n:
                ctx.check(st == 'ok' and ctx.R(r) is ms[i], 'item %d is %s' % (i, ctx.show(r)))
            else:
                ctx.check(st == 'raise' and r == 'IndexError', 'item %d of %d gives %s' % (i, n, r if st == 'raise' else 'a member'))
        b = [None] + list(range(-n - 1, n + 2))
        for i in b:
            for j in b:
                for s in (None, 1, 2, -1, -2):
                    src = 'r = el[i:j]' if s is None else 'r = el[i:j:s]'
                    env = dict(el=ns['el'], i=i, j=j, s=s)
                    if s is None:
                        src = 'r = el[%s:%s]' % ('' if i is None else i, '' if j is None else j)
                    r = [ctx.R(m) for m in ctx.items(ctx.do(src, **env)['r'])]
                    want = ms[i:j:s]
                    ctx.check(len(r) == len(want) and all(a is c for a, c in zip(r, want)), 'slice %s:%s:%s gives %d members, not %d' % (i, j, s, len(r), len(want)))


for c in ('List', 'Array', 'MultiValue', 'JoinedString'):
    iteration(c)
