"""C12 — joined strings."""
from sa.engine import BStr
from sa.oblig import Check
from . import seqops

check = Check('C12', 'A JoinedString is the joined text of its members')
J = 'flatland.schema.compound:JoinedString.'
KIND = {'String': (u'a', u'b', u'cc', u' d'), 'Integer': (u'0', u'1', u'12', u'7'), 'Boolean': (u'1', u'', u'1', u'1')}


def texts(ctx, el):
    return [ctx.R(ctx.attr(m, 'u')) for m in ctx.items(el)]


def agree(ctx, el, sep, what):
    ms = texts(ctx, el)
    for n in ('value', 'u'):
        v = ctx.R(ctx.attr(el, n))
        ctx.check(isinstance(v, str) and not isinstance(v, BStr), '%s: .%s is no text' % (what, n))
        ctx.check(v == sep.join(ms), '%s: .%s is %r for the members %s joined by %r' % (what, n, v, ms, sep))
    return ms


@check.ob('split', [J + 'set', J + 'value', J + 'u'],
          'text becomes one member per part (split by separator_regex if there is one, else by separator), in order, whatever the member type; empty parts '
          'are left out iff prune_empty; value and text are the members joined by separator', max_runs=20000)
def split(ctx):
    sep = ctx.choose(u',', u', ', u'|', u'.', u'ab')
    rx = ctx.choose(None, u'\\s*,\\s*', u'[.]', u',|;')
    prune = ctx.choose(True, False, 1, 0)
    via = ctx.choose('set', 'init', 'flat', 'using', 'instance')
    if via == 'flat' and sep == u'ab':
        return
    old = ctx.choose(False, True) if via in ('set', 'flat') else False
    ns = ctx.do('''
    import re
    opts = dict(separator=sep, prune_empty=prune)
    if rx:
        opts['separator_regex'] = re.compile(rx)
    K = JoinedString.named(u's').using(**opts)
    P = JoinedString.named(u's')
    def mk(t):
        if via == 'set':
            el = K()
            if old:
                el.append(u'old')
            return el, el.set(t)
        if via == 'init':
            el = K(t)
        elif via == 'flat':
            el = K()
            if old:
                el.append(u'old')
            el.set_flat([(u's_0', u'no'), (u's', t), (u'ss', u'no'), (u's_', u'no')])
        elif via == 'using':
            el = K.using(default=t).from_defaults()
        else:
            el = P(**opts)
            return el, el.set(t)
        return el, True
''', sep=sep, rx=rx, prune=prune, via=via, old=old)
    import re
    for t in (u'a', u'a,b', u'a, b', u'a ,, b', u',', u'', u'a|b,c', u'a.b', u'xabyab', u'a;b', u',a', u'ab', u'b,a,b', u' '):
        el, r = ctx.host(ctx.call(ns['mk'], t))
        parts = re.split(rx, t) if rx else t.split(sep)
        want = [p.strip() for p in parts if p != u'' or not prune]
        ms = agree(ctx, el, sep, '%r' % t)
        ctx.check(ms == want, '%s(%r) with separator %r, regex %r, prune_empty=%s makes the members %s, not %s' % (via, t, sep, rx, prune, ms, want))
        ctx.check(ctx.truth(r) is True, 'set(%r) of text parts gives %s' % (t, ctx.show(r)))


@check.ob('values', [J + 'set'],
          'a list, tuple, set or other iterable gives one member per value, numbers, zero, false and blank texts included, only None and empty text are left out, and only with prune_empty; '
          'the result tells whether all adapted', max_runs=20000)
def values(ctx):
    member = ctx.choose('String', 'Integer', 'Boolean', 'Enum.valued(u"0", u"1")')
    prune = ctx.choose(True, False)
    shape = ctx.choose('list', 'tuple', 'generator', 'Array', 'dict', 'iter')
    ns = ctx.do('''
    K = JoinedString.named(u's').of(%s).using(prune_empty=prune)
    M = K.member_schema
    def mk(vals):
        if shape == 'list':
            v = list(vals)
        elif shape == 'tuple':
            v = tuple(vals)
        elif shape == 'generator':
            v = (x for x in vals)
        elif shape == 'dict':
            v = dict((x, 1) for x in vals)
        elif shape == 'Array':
            v = list(vals) + [x for x in ()]
        else:
            v = iter(vals)
        el = K(u'1,0,1')
        r = el.set(v)
        return el, r
    def one(v):
        e = M()
        r = e.set(v)
        return e, r
''' % member, prune=prune, shape=shape)
    for vals in ((), (0,), (0, 1), (1, 0, 0), (None,), (None, 5), (u'',), (u'', u'x'), (u' ',), (False, True), (u'x', None, 0), (0.0,), (u"0", 0, b"")):
        if shape == 'dict' and (len(set(vals)) != len(vals) or len(vals) > 1):
            continue
        el, r = ctx.host(ctx.call(ns['mk'], ctx.I.new_list([ctx.do('r = str()')['r'] if isinstance(v, bytes) else v for v in vals])))
        want, ok = [], True
        for v in vals:
            if prune and (v is None or v in (u'', b'') and not isinstance(v, (bool, int, float))):
                continue
            e, o = ctx.host(ctx.call(ns['one'], ctx.do('r = str()')['r'] if isinstance(v, bytes) else v))
            want.append((ctx.R(ctx.attr(e, 'u')), ctx.R(ctx.attr(e, 'value'))))
            ok = ok and ctx.truth(o)
        agree(ctx, el, u',', 'set(%s)' % (vals,))
        got = [(ctx.R(ctx.attr(m, 'u')), ctx.R(ctx.attr(m, 'value'))) for m in ctx.items(el)]
        ctx.check(got == want, 'set(%s %s) of %s, prune_empty=%s makes %s, not %s' % (shape, vals, member, prune, got, want))
        ctx.check(ctx.truth(r) is ok, 'set(%s) gives %s' % (vals, ctx.show(r)))


@check.ob('mutate', [J + 'value', J + 'u'], 'value and text follow every change of the members, and cannot be assigned', max_runs=40000, shards=4)
def mutate(ctx):
    sep = u','
    ns = seqops.build(ctx, 'JoinedString', values=[u'a', u'b'][:ctx.choose(1, 2)])
    op = ctx.choose('append', 'extend', 'insert', 'setitem', 'setslice', 'pop', 'delitem', 'remove', 'reverse', 'sort', 'iadd', 'member')
    if op == 'member':
        if not len(ns['el'].p):
            return
        ctx.do('el[0].set(u"new")', el=ns['el'])
        ms = agree(ctx, ns['el'], sep, 'setting a member')
        ctx.check(ms[0] == u'new', 'setting a member is lost')
        for n in ('value', 'u'):
            st, e, x = ctx.catch(lambda: ctx.do('el.%s = u"zz"' % n, el=ns['el']))
            ctx.check(st == 'raise' and e == 'AttributeError', 'assigning .%s gives %s' % (n, e if st == 'raise' else 'no error'))
        return
    src = {'append': 'el.append(u"x")', 'extend': 'el.extend([u"x", u"y"])', 'insert': 'el.insert(0, u"x")', 'setitem': 'el[0] = u"x"', 'setslice': 'el[0:1] = [u"x", u"y"]',
           'pop': 'el.pop()', 'delitem': 'del el[0]', 'remove': 'el.remove(el[0].u)', 'reverse': 'el.reverse()', 'sort': 'el.sort(key=lambda e: e.u, reverse=True)',
           'iadd': 'el += [u"x"]'}[op]
    mine = texts(ctx, ns['el'])
    if op in ('setitem', 'pop', 'delitem', 'remove') and not mine:
        return
    ns2 = ctx.do(src, el=ns['el'])
    want = list(mine)
    if op == 'append' or op == 'iadd':
        want.append(u'x')
    elif op == 'extend':
        want += [u'x', u'y']
    elif op == 'insert':
        want.insert(0, u'x')
    elif op == 'setitem':
        want[0] = u'x'
    elif op == 'setslice':
        want[0:1] = [u'x', u'y']
    elif op == 'pop':
        want.pop()
    elif op in ('delitem', 'remove'):
        del want[0]
    elif op == 'reverse':
        want.reverse()
    elif op == 'sort':
        want.sort(reverse=True)
    ms = agree(ctx, ns2['el'], sep, op)
    ctx.check(ms == want, '%s leaves the members %s, not %s' % (op, ms, want))


@check.ob('flat', [J + '_set_flat', J + 'set_default'],
          'in flat data a joined string is one pair under its own name: keys of members reach nothing, flatten() gives the joined text, and a text without separators inside its parts comes back as the same members')
def flat(ctx):
    member = ctx.choose('String', 'Integer')
    inside = ctx.choose(False, True)
    n = ctx.choose(0, 1, 2, 3)
    vals = list(KIND[member][:n])
    if member == 'String':
        vals = [v.strip() for v in vals]
    ns = ctx.do('''
    K = JoinedString.named(u's').of(%s.named(u'm'))
    D = Dict.named(u'd').of(K, String.named(u'o'))
    el = D() if inside else K()
    j = el[u's'] if inside else el
    r = j.set(vals)
    pairs = el.flatten()
    key = u'd_s' if inside else u's'
    back = (D if inside else K).from_flat(pairs)
    b = back[u's'] if inside else back
    noise = (D if inside else K).from_flat([(key + u'_0_m', u'1'), (key + u'_m', u'2'), (key + u'_0', u'3')])
    nz = noise[u's'] if inside else noise
    ''' % member, inside=inside, vals=ctx.I.new_list(vals))
    pairs = [tuple(ctx.R(q) for q in ctx.items(p)) for p in ctx.items(ns['pairs'])]
    key = 'd_s' if inside else 's'
    mine = [p for p in pairs if p[0].startswith(key)]
    ctx.check(mine == [(key, u','.join(vals))], 'flatten() of the members %s gives %s' % (vals, mine))
    ctx.check(texts(ctx, ns['b']) == vals, 'the flat text of %s comes back as %s' % (vals, texts(ctx, ns['b'])))
    ctx.check(texts(ctx, ns['nz']) == [], 'keys of members reach a joined string: %s' % texts(ctx, ns['nz']))


@check.ob('bytes-and-sets', [J + 'set'], 'byte strings are split like text; a set or frozenset gives one member per item')
def bytes_and_sets(ctx):
    sep, prune = ctx.choose(u',', u'; '), ctx.choose(True, False)
    member = ctx.choose('String', 'Integer')
    ns = ctx.do('''
    K = JoinedString.of(%s).using(separator=sep, prune_empty=prune)
    def both(b):
        a, z = K(), K()
        ra, rz = a.set(b), z.set(unicode(b))
        return (a.value, z.value, ra, rz, len(a), len(z))
    r = [both(b) for b in ('', '1', '12', '1,2', '10; 20; 30', ',', 'a,b', '1,,2', ' 5 ')]
    s = []
    for x in (frozenset(), frozenset([7]), set([u'5']), set([None]), set([1, 2])):
        e = K()
        ok = e.set(x)
        s.append((len(e), ok, len([y for y in x if y is not None or not prune])))
    ''' % member, sep=sep, prune=prune)
    for t in ctx.items(ns['r']):
        a, z, ra, rz, la, lz = [ctx.R(x) for x in ctx.items(t)]
        ctx.check(a == z and ra == rz and la == lz, 'the byte string is read as %r (%s members), the same text as %r' % (a, la, z))
    for t in ctx.items(ns['s']):
        n, ok, want = [ctx.R(x) for x in ctx.items(t)]
        ctx.check(n == want and ok is True, 'a set of %s values makes %s members, %s' % (want, n, ok))
