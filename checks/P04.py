"""P04 — slices in paths are Python slices."""
from sa.oblig import Check

check = Check('P04', 'A slice in a path selects what the same Python slice selects')
P = 'flatland.schema.paths:'


def spell(seg):
    return u':'.join(u'' if s is None else u'%d' % s for s in seg)


def make(cls, src):
    @check.ob('slices-' + cls, [P + '_parse_slice', P + 'PathExpression.__call__'],
              'every combination of start, stop and stride, present or absent, negative, zero or beyond the end: the children '
              'selected, and their order, are those of list(children)[start:stop:stride]; never an error')
    def slices(ctx):
        start = ctx.choose(None, 0, 1, 2, 12, -1, -2, -12)
        n = ctx.choose(0, 1, 2, 3, 4) if cls == 'List' else 3
        el = ctx.do(src % {'n': n})['el']
        kids = [ctx.R(i) for i in ctx.items(ctx.attr(el, 'children'))]
        ctx.check(len(kids) == n, 'children has %d of %d members' % (len(kids), n))
        rng = (None, 0, 1, 2, 3, 12, -1, -2, -3, -12)
        for stop in rng:
            for segs in [(start, stop)] + [(start, stop, k) for k in (None, 1, 2, 3, -1, -2, -12, 12)]:
                want = kids[slice(*segs)]
                for text in (u'[%s]', u'/[%s]', u'./[%s]') if n == 2 else (u'[%s]',):
                    text = text % spell(segs)
                    for strict in (True, False) if n < 2 else (True,):
                        st, r, x = ctx.catch(lambda: ctx.m(el, 'find', text, strict=strict))
                        ctx.check(st == 'ok', '%s over %d children raises %s' % (text, n, r))
                        r = [ctx.R(i) for i in ctx.items(r)]
                        ctx.check(len(r) == len(want) and all(a is b for a, b in zip(r, want)),
                                  '%s over %d children selects %s' % (text, n, [kids.index(i) if i in kids else '?' for i in r]))


for c, s in (('List', "el = List.of(String)([u'a', u'b', u'c', u'd'][:%(n)d])"),
             ('Array', "el = Array.of(String)([u'a', u'b', u'c'])"),
             ('MultiValue', "el = MultiValue.of(String)([u'a', u'b', u'c'])"),
             ('Dict', "el = Dict.of(String.named(u'a'), String.named(u'b'), String.named(u'c'))()"),
             ('SparseDict', "el = SparseDict.of(String.named(u'a'), String.named(u'b'), String.named(u'c'), String.named(u'd'))({u'a': u'', u'b': u'', u'c': u''})"),
             ('DateYYYYMMDD', "from flatland import DateYYYYMMDD\nel = DateYYYYMMDD.named(u'd')()")):
    make(c, s)


@check.ob('spellings', [P + '_parse_slice', P + 'tokenize'], 'numbers in slices may have leading zeros or be minus zero: they mean what int() makes of them', max_runs=4000)
def spellings(ctx):
    n = ctx.choose(1, 3)
    el = ctx.do("el = List.of(String)([u'a', u'b', u'c'][:%d])" % n)['el']
    kids = [ctx.R(i) for i in ctx.items(ctx.attr(el, 'children'))]
    nums = (u'', u'-0', u'00', u'01', u'-01', u'002', u'-2')
    for a in nums:
        for b in nums:
            for c in (None, u'', u'01', u'-01', u'-1', u'02'):
                segs = [a, b] + ([] if c is None else [c])
                want = kids[slice(*[int(x) if x else None for x in segs])]
                text = u'[%s]' % u':'.join(segs)
                r = [ctx.R(i) for i in ctx.items(ctx.m(el, 'find', text))]
                ctx.check(len(r) == len(want) and all(x is y for x, y in zip(r, want)), '%s over %d children selects %d, expected %d' % (text, n, len(r), len(want)))


@check.ob('index', [P + '_parse_slice', P + 'tokenize'], 'a single index in brackets, negative or not, selects that one child or, if there is none, nothing')
def index(ctx):
    n = ctx.choose(0, 1, 3)
    cls = ctx.choose('List', 'Array')
    el = ctx.do("el = %s.of(String)([u'a', u'b', u'c'][:%d])" % (cls, n))['el']
    kids = [ctx.R(i) for i in ctx.items(ctx.attr(el, 'children'))]
    for i, t in [(i, u'%d' % i) for i in (0, 1, 2, 3, 10, -1, -2, -3, -4, -10)] + [(0, u'-0')]:
        r = [ctx.R(e) for e in ctx.items(ctx.m(el, 'find', u'[%s]' % t, strict=False))]
        want = kids[i:i + 1] if i >= 0 else ([kids[i]] if -i <= n else [])
        ctx.check(len(r) == len(want) and all(a is b for a, b in zip(r, want)), '[%d] of %d children selects %d' % (i, n, len(r)))
        st, r, x = ctx.catch(lambda: ctx.m(el, 'find', u'[%d]' % i))
        if want:
            ctx.check(st == 'ok' and ctx.R(ctx.items(r)[0]) is want[0], 'strict: [%d] of %d children' % (i, n))
        elif i >= 0:
            ctx.check(st == 'raise' and r == 'LookupError', 'strict: [%d] of %d children is not a LookupError' % (i, n))


@check.ob('nested', [P + 'PathExpression.__call__'], 'each further step or slice applies to every element selected so far, in order')
def nested(ctx):
    el = ctx.do('''
        el = List.of(List.of(Dict.of(Integer.named(u'x'), Integer.named(u'y'))))(
            [[{u'x': 1, u'y': 2}, {u'x': 3, u'y': 4}], [], [{u'x': 5, u'y': 6}], [{u'x': 7, u'y': 8}, {u'x': 9, u'y': 10}, {u'x': 11, u'y': 12}]])
    ''')['el']
    data = [[(1, 2), (3, 4)], [], [(5, 6)], [(7, 8), (9, 10), (11, 12)]]
    for a in (slice(None), slice(1, None), slice(None, None, -1), slice(0, 2), slice(None, 0), slice(-1, None)):
        for b in (slice(None), slice(1, None), slice(None, 1), slice(None, None, -1), slice(-2, None), slice(None, 0)):
            txt = u'[%s][%s]' % tuple(spell([s.start, s.stop] + ([s.step] if s.step else [])) for s in (a, b))
            for last, col in ((u'/x', 0), (u'/y', 1), (u'/y/../x', 0), (u'/x/', 0)):
                r = [ctx.attr(i, 'value') for i in ctx.items(ctx.m(el, 'find', txt + last))]
                want = [p[col] for row in data[a] for p in row[b]]
                ctx.check(r == want, '%s selects %s, expected %s' % (txt + last, r, want))
