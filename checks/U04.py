"""U04 — equality of elements."""
from sa.oblig import Check

check = Check('U04', 'Elements are equal iff their values and texts are')
E = 'flatland.schema.base:Element.'
SRC = '''
    K = {
        's': String.named(u's').using(strip=False), 's2': String.named(u'other').using(strip=False), 'i': Integer.named(u'i'), 'b': Boolean.named(u'b'),
        'l': List.named(u'l').of(String.using(strip=False)), 'a': Array.named(u'a').of(String.using(strip=False)),
        'm': MultiValue.named(u'm').of(String.using(strip=False)),
        'd': Dict.named(u'd').of(String.named(u'x').using(strip=False), Integer.named(u'y')),
        'sd': SparseDict.named(u'd').of(String.named(u'x').using(strip=False), Integer.named(u'y')),
        'j': JoinedString.named(u'j'),
    }
    def make(kind, v):
        el = K[kind]()
        if v is not None:
            el.set(v)
        return el
    def cmp(x, y):
        return x == y, y == x, x != y, y != x
'''
VALUES = {
    's': (None, 'p', 'q', ''), 's2': ('p', None), 'i': (None, 1, 2, 'zz', ' 1 '), 'b': (True, False, None),
    'l': (None, ['p'], ['p', 'q'], ['q', 'p'], []), 'a': (['p', 'q'], ['q', 'p'], []), 'm': (['p', 'q'], ['p', 'r'], None),
    'd': (None, {'x': 'p'}, {'x': 'p', 'y': 1}, {'x': 'q', 'y': 1}), 'sd': (None, {'x': 'p'}, {'x': 'p', 'y': 1}, {'y': 1}), 'j': (None, 'p,q', 'p')}


def lit(ctx, v):
    return ctx.do('r = ' + repr(v).replace("'", "u'", 0).replace("['", "[u'").replace(", '", ", u'").replace("{'", "{u'").replace(": '", ": u'") if not isinstance(v, str) else 'r = u%r' % v)['r']


@check.ob('elements', [E + '__eq__', E + '__ne__'],
          'x == y iff the values are equal and the texts are equal; it is symmetric, x != y is its opposite, and neither changes anything', max_runs=8000, shards=8)
def elements(ctx):
    ns = ctx.do(SRC)
    k1 = ctx.choose(*sorted(VALUES))
    k2 = ctx.choose(*sorted(VALUES))
    for v1 in VALUES[k1]:
        for v2 in VALUES[k2]:
            x, y = ctx.call(ns['make'], k1, lit(ctx, v1)), ctx.call(ns['make'], k2, lit(ctx, v2))
            for which, p, q in (('pair', x, y), ('self', x, x)):
                r = [ctx.R(z) for z in ctx.call(ns['cmp'], p, q)]
                val = lambda e: ctx.attr(e, 'value')
                want = ctx.truth(ctx.I.eq(val(p), val(q))) and ctx.truth(ctx.I.eq(ctx.attr(p, 'u'), ctx.attr(q, 'u')))
                where = '%s(%r) and %s(%r)' % (k1, v1, k2, v2) if which == 'pair' else '%s(%r) and itself' % (k1, v1)
                ctx.check(all(isinstance(z, bool) for z in r), '%s compare as %s' % (where, [ctx.show(z) for z in r]))
                ctx.check(r == [want, want, not want, not want], '%s compare as ==%s, ==%s, !=%s, !=%s; values and texts are %s' % ((where,) + tuple(r) + ('equal' if want else 'not equal',)))


@check.ob('any-text', [E + '__eq__'], 'two elements of one type holding any two texts are equal iff the texts are')
def any_text(ctx):
    ns = ctx.do(SRC)
    k = ctx.choose('s', 'i', 'l', 'a', 'd', 'sd')
    v, w = ctx.text('v'), ctx.text('w')
    wrap = {'s': lambda t: t, 'i': lambda t: t, 'l': lambda t: ctx.I.new_list([t]), 'a': lambda t: ctx.I.new_list([t]),
            'd': lambda t: ctx.I.new_dict([('x', t)]), 'sd': lambda t: ctx.I.new_dict([('x', t)])}[k]
    x, y = ctx.call(ns['make'], k, wrap(v)), ctx.call(ns['make'], k, wrap(w))
    r = ctx.truth(ctx.I.eq(x, y))
    eq = ctx.truth(ctx.I.eq(ctx.attr(x, 'u'), ctx.attr(y, 'u'))) and ctx.truth(ctx.I.eq(ctx.attr(x, 'value'), ctx.attr(y, 'value')))
    ctx.check(r == eq, '%s elements of %s and %s are %s' % (k, ctx.show(v), ctx.show(w), 'equal' if r else 'not equal'))


@check.ob('others', [E + '__eq__'], 'an element equals no object that lacks a value or a text; comparing never raises')
def others(ctx):
    ns = ctx.do(SRC + '''
    class V(object):
        value = u'p'
    class U(object):
        u = u'p'
    class VU(object):
        value = u'p'
        u = u'p'
    objs = [V(), U(), object(), None, u'p', 1, [u'p'], {u'x': u'p'}, ()]
    both = VU()
''')
    k = ctx.choose(*sorted(VALUES))
    for v in VALUES[k]:
        x = ctx.call(ns['make'], k, lit(ctx, v))
        for o in ctx.items(ns['objs']):
            st, r, e = ctx.catch(lambda: ctx.do('r = (x == o, x != o)', x=x, o=o)['r'])
            ctx.check(st == 'ok', 'comparing %s(%r) with %s raises %s' % (k, v, ctx.show(o), r))
            if st == 'ok':
                ctx.check(not ctx.truth(r[0]) and ctx.truth(r[1]), '%s(%r) equals %s' % (k, v, ctx.show(o)))
    if k == 's':
        x = ctx.call(ns['make'], k, 'p')
        ctx.check(not ctx.truth(ctx.do('r = x != o', x=x, o=ns['both'])['r']), 'an element is both equal and unequal to an object with its value and text')
        ctx.check(ctx.truth(ctx.do('r = x == o', x=x, o=ns['both'])['r']), 'an element does not equal an object with its value and text')


@check.ob('hash', [E + '__hash__'], 'elements, which can change, are not hashable')
def hash_(ctx):
    ns = ctx.do(SRC)
    k = ctx.choose(*sorted(VALUES))
    x = ctx.call(ns['make'], k, None)
    for src in ('r = hash(x)', 'r = {x: 1}', 'r = set([x])'):
        st, r, e = ctx.catch(lambda: ctx.do(src, x=x))
        ctx.check(st == 'raise' and r == 'TypeError', '%s on a %s element gives %s' % (src, k, r if st == 'raise' else 'no error'))
