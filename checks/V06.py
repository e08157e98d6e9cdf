"""V06 — container validators."""
from sa.oblig import Check

check = Check('V06', 'Container validators count members and spot every repetition')
S = 'flatland.validation.containers:'
TYPES = ['List', 'Array', 'MultiValue', 'JoinedString']


def seq(ctx, cls, n, prefix='m'):
    el = ctx.do('el = %s.named(u"s").using(label=u"S").of(String.named(u"c").using(strip=False, label=u"child"))()' % cls)['el']
    vals = []
    for i in range(n):
        v = ctx.text('%s%d' % (prefix, i))
        ctx.m(el, 'append', v)
        vals.append(v)
    return el, vals


def length(name, make, accepts, keys, bounds):
    @check.ob(name, [S + name.split('-')[0] + '.validate'], 'accepts iff the number of members is in bounds, on every sequence type', max_runs=9000)
    def ob(ctx):
        cls = ctx.choose(*TYPES)
        n = ctx.choose(0, 1, 2, 3)
        el, vals = seq(ctx, cls, n)
        if ctx.choose(False, True):
            for m in ctx.items(el):
                ctx.m(m, 'set', None)       # blank members count too
        b = ctx.choose(*bounds)
        msgs = dict((k, u'MSG %s' % k) for k in keys)
        val = ctx.do('from flatland.validation import *\nv = %s' % make, a=b[0], b=b[-1],
                     KW=ctx.I.new_dict(list(msgs.items())))['v']
        r = ctx.R(ctx.call(val, el, None))
        want = accepts(n, b)
        ctx.check(r is want, '%s of %d members with bounds %s gives %s' % (cls, n, b, ctx.show(r)))
        errors = [ctx.R(e) for e in ctx.items(ctx.attr(el, 'errors'))]
        key = keys[1 if len(keys) > 1 and b[0] == b[-1] else 0]
        ctx.check(errors == ([] if want else [msgs[key]]), 'errors %s' % errors)


length('HasAtLeast', 'HasAtLeast(minimum=a, **KW)', lambda n, b: n >= b[0], ['failure'], [(0,), (1,), (2,), (3,), (4,)])
length('HasAtMost', 'HasAtMost(maximum=a, **KW)', lambda n, b: n <= b[0], ['failure'], [(0,), (1,), (2,), (3,)])
length('HasBetween', 'HasBetween(minimum=a, maximum=b, **KW)', lambda n, b: b[0] <= n <= b[1], ['range', 'exact'],
       [(0, 0), (0, 1), (1, 1), (1, 2), (2, 2), (2, 3), (3, 4), (4, 4)])
length('HasAtLeast-default', 'HasAtLeast(**KW)', lambda n, b: n >= 1, ['failure'], [(0,)])
length('HasAtMost-default', 'HasAtMost(**KW)', lambda n, b: n <= 1, ['failure'], [(0,)])


@check.ob('bounds', [S + 'HasBetween.__init__'], 'nonsensical bounds are refused at construction, sensible ones accepted')
def bounds(ctx):
    lo, hi = ctx.sym('lo', 'int'), ctx.sym('hi', 'int')
    ok = ctx.truth(ctx.do('r = hi >= lo and lo >= 0', lo=lo, hi=hi)['r'])
    st, r, e = ctx.catch(lambda: ctx.do('from flatland.validation import HasBetween\nHasBetween(minimum=lo, maximum=hi)', lo=lo, hi=hi))
    ctx.check((st == 'ok') is ok, 'bounds with maximum >= minimum >= 0 %s: construction %s' % (ok, st))


@check.ob('templates', [S + 'HasAtLeast', S + 'HasAtMost', S + 'HasBetween', S + 'NotDuplicated'],
          'the shipped messages pick singular iff the bound is 1 and name both labels')
def templates(ctx):
    cls = ctx.choose('List', 'Array')
    src, n, b, want = ctx.choose(
        ('HasAtLeast(minimum=a)', 0, 1, u'S must contain at least one child'),
        ('HasAtLeast(minimum=a)', 0, 2, u'S must contain at least 2 childs'),
        ('HasAtMost(maximum=a)', 2, 1, u'S must contain at most one child'),
        ('HasAtMost(maximum=a)', 3, 2, u'S must contain at most 2 childs'),
        ('HasBetween(minimum=a, maximum=a)', 0, 1, u'S must contain exactly one child'),
        ('HasBetween(minimum=a, maximum=a)', 0, 2, u'S must contain exactly 2 childs'),
        ('HasBetween(minimum=1, maximum=a)', 0, 2, u'S must contain at least 1 and at most 2 childs'),
        ('HasBetween(minimum=0, maximum=a)', 2, 1, u'S must contain at least 0 and at most 1 child'))
    el, vals = seq(ctx, cls, n)
    val = ctx.do('from flatland.validation import *\nv = %s' % src, a=b)['v']
    ctx.call(val, el, None)
    errors = [ctx.R(e) for e in ctx.items(ctx.attr(el, 'errors'))]
    ctx.check(errors == [want], '%s with bound %d: message %s' % (src, b, errors))


@check.ob('duplicates', [S + 'NotDuplicated.validate'],
          'a member is refused iff the comparator holds for it and an earlier sibling; position counts from 1', max_runs=9000)
def duplicates(ctx):
    cls = ctx.choose('List', 'Array', 'MultiValue')
    n = ctx.choose(1, 2, 3)
    el, vals = seq(ctx, cls, n)
    members = ctx.items(el)
    custom = ctx.choose(False, True)
    calls = []
    kw = {'failure': u'%(position)s|%(container_label)s|%(label)s'}
    if custom:
        def cmp_(a, b):
            a, b = ctx.R(a), ctx.R(b)
            i, j = [[k for k, m in enumerate(members) if ctx.R(m) is x][0] for x in (a, b)]
            calls.append((i, j))
            return ctx.I.decide(('dup', i, j), 'comparator(%d, %d)' % (i, j))
        kw['comparator'] = ctx.fn('comparator', cmp_)
    val = ctx.call(ctx.get(S + 'NotDuplicated'), **kw)
    verdicts = ctx.choose('none yet', 'valid', 'invalid', 'optional')
    for i, m in enumerate(members):
        if verdicts in ('valid', 'invalid'):
            ctx.put(m, 'valid', verdicts == 'valid')
        elif verdicts == 'optional':
            ctx.put(m, 'optional', True)
    for i, m in enumerate(members):
        r = ctx.R(ctx.call(val, m, None))
        if custom:
            dup = any([ctx.I.decide(('dup', i, j)) for j in range(i)])
        else:
            dup = any([ctx.truth(ctx.do('r = a == b', a=members[i], b=members[j])['r']) for j in range(i)])
        ctx.check(r is (not dup), 'member %d of %d: %s although it %s an earlier one' % (i, n, ctx.show(r), 'repeats' if dup else 'does not repeat'))
        errors = [ctx.R(e) for e in ctx.items(ctx.attr(m, 'errors'))]
        ctx.check(errors == ([u'%d|S|child' % (i + 1)] if dup else []), 'member %d of %d records %s' % (i, n, errors))
    for i, j in calls:
        ctx.check(j < i, 'the comparator is asked about member %d and its later sibling %d' % (i, j))


@check.ob('duplicates-walk', [S + 'NotDuplicated.validate'], 'as a member validator: the whole list is valid iff no value repeats')
def duplicates_walk(ctx):
    cls = ctx.choose('List', 'Array')
    ns = ctx.do('''
        from flatland.validation import NotDuplicated
        el = %s.named(u's').of(Integer.using(validators=[NotDuplicated()])).using(validators=())()
        el.set([A, B, C])
        r = el.validate()
        distinct = not (A == B or A == C or B == C)
    ''' % cls, A=ctx.sym('a', 'int'), B=ctx.sym('b', 'int'), C=ctx.sym('c', 'int'))
    ctx.check(ctx.truth(ns['r']) is ctx.truth(ns['distinct']), 'validate() gives %s for %s values' % (ctx.truth(ns['r']), 'distinct' if ctx.truth(ns['distinct']) else 'repeated'))


@check.ob('no-parent', [S + 'NotDuplicated.validate'], 'a parentless element is a usage error')
def no_parent(ctx):
    st, r, e = ctx.catch(lambda: ctx.do('from flatland.validation import NotDuplicated\nNotDuplicated()(String(u"x"), None)'))
    ctx.check(st == 'raise' and r == 'TypeError', 'a parentless element gives %s' % (r,))


@check.ob('duplicates-table', [S + 'NotDuplicated.validate'],
          'whatever the members are, wherever their container hangs and whatever it is called: every repetition of an earlier '
          'member is refused on the member itself, at its position', max_runs=12000, shards=4)
def duplicates_table(ctx):
    cls = ctx.choose('List', 'Array', 'MultiValue')
    member, pool = ctx.choose(('String', [u'a', u'b', None, u'']), ('Integer', [0, None, u'x', 1]), ('Dict.of(Integer.named(u"i"), String.named(u"s"))', [{u'i': 1}, {}, {u'i': 1, u's': u'x'}, {u's': u''}]),
                              ('List.of(Integer)', [(), (0,), (None,), (0, 1)]), ('Boolean', [True, False, None, True]))
    if cls != 'List' and member[0] in 'DL':
        return
    name = ctx.choose(u's', None, u'')
    inside = ctx.choose('', 'dict', 'list')
    idx = ctx.choose((0, 0, 0, 0), (0, 1, 0, 1), (0, 1, 1, 2), (1, 0, 2, 3), (1, 2, 2, 1), (3, 3, 2, 2), (2, 3, 0, 2), (1, 1, 1, 2))
    data = [pool[i] for i in idx]
    py = lambda x: ctx.I.new_dict([(k, py(v)) for k, v in x.items()]) if isinstance(x, dict) else ctx.I.new_list([py(v) for v in x]) if isinstance(x, tuple) else x
    how = ctx.choose('one by one', 'tree')
    ns = ctx.do("""
        from flatland.validation import NotDuplicated
        val = NotDuplicated(failure=u'%%(position)s|%%(container_label)s')
        K = %s.using(name=NAME, label=u'S', optional=True).of(%s.using(name=u'm', optional=True%s))
        if INSIDE == 'dict':
            root = Dict.of(K.using(name=u'k'))()
            el = root[u'k']
        elif INSIDE == 'list':
            root = List.of(K)()
            root.append(None)
            el = root[0]
        else:
            el = K()
        el.set(DATA)
        members = list(el)
        eq = [[a == b for b in members] for a in members]
    """ % (cls, member, ', validators=[val]' if how == 'tree' else ''), NAME=name, INSIDE=inside, DATA=ctx.I.new_list([py(d) for d in data]))
    members = ctx.items(ns['members'])
    eq = [[ctx.truth(y) for y in ctx.items(x)] for x in ctx.items(ns['eq'])]
    if how == 'tree':
        ctx.m(ns['el'], 'validate')
    for i, m in enumerate(members):
        dup = any(eq[i][:i])
        if how != 'tree':
            r = ctx.R(ctx.call(ns['val'], m, None))
            ctx.check(r is (not dup), '%s of %s: member %d gives %s' % (cls, data, i, ctx.show(r)))
        empty = how == 'tree' and ctx.truth(ctx.attr(m, 'is_empty'))
        errors = [ctx.R(e) for e in ctx.items(ctx.attr(m, 'errors'))]
        ctx.check(errors == ([u'%d|S' % (i + 1)] if dup and not empty else []), '%s of %s: member %d records %s' % (cls, data, i, errors))
    ctx.check(not ctx.items(ctx.attr(ns['el'], 'errors')), 'the container records an error')


@check.ob('bounds-table', [S + 'HasBetween.__init__', S + 'HasBetween.validate', S + 'HasAtLeast.validate', S + 'HasAtMost.validate'],
          'bounds given by name, on a subclass, or one of each: refused if nonsensical, applied to the number of members otherwise', max_runs=12000)
def bounds_table(ctx):
    kind = ctx.choose('HasBetween', 'HasAtLeast', 'HasAtMost')
    lo = ctx.choose(0, 1, 2, -1)
    hi = ctx.choose(0, 1, 2, 3, -1)
    if kind != 'HasBetween' and lo != 0 and hi != 0 or kind == 'HasAtLeast' and hi != 0 or kind == 'HasAtMost' and lo != 0 or kind != 'HasBetween' and (lo < 0 or hi < 0):
        return
    cls = ctx.choose(*TYPES)
    n = ctx.choose(0, 1, 2, 3)
    how = ctx.choose('class', 'kw', 'mixed') if kind == 'HasBetween' else ctx.choose('class', 'kw')
    attrs = {'HasBetween': [('minimum', lo), ('maximum', hi)], 'HasAtLeast': [('minimum', lo)], 'HasAtMost': [('maximum', hi)]}[kind]
    on_class = attrs if how == 'class' else attrs[:1] if how == 'mixed' else []
    st, ns, e = ctx.catch(lambda: ctx.do("""
        from flatland.validation import *
        class K(%s):
        %s
        val = K(%s)
    """ % (kind, '\n        '.join(['    pass'] + ['    %s = %d' % a for a in on_class]), ', '.join('%s=%d' % a for a in attrs if a not in on_class))))
    ok = kind != 'HasBetween' or hi >= lo >= 0
    ctx.check((st == 'ok') is ok, '%s with bounds %s set by %s: %s' % (kind, attrs, how, st))
    if st != 'ok' or not ok:
        return
    el, vals = seq(ctx, cls, n)
    r = ctx.R(ctx.call(ns['val'], el, None))
    want = {'HasBetween': lo <= n <= hi, 'HasAtLeast': n >= lo, 'HasAtMost': n <= hi}[kind]
    ctx.check(r is want, '%s %s for %s of %d members: %s' % (kind, attrs, cls, n, ctx.show(r)))
    ctx.check(len(ctx.items(ctx.attr(el, 'errors'))) == (0 if want else 1), 'errors')
