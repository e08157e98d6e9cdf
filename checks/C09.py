"""C09 — unknown flat keys are inert, known ones independent of order."""
from sa.oblig import Check

check = Check('C09', 'Unrecognized flat keys are ignored and key order does not matter')
C = 'flatland.schema.containers:'
SCHEMA = '''
    def mk(cls=Dict):
        return cls.named(u'd').of(
            String.named(u'a').using(strip=False),
            List.named(u'l').of(String.named(u'm').using(strip=False)),
            Dict.named(u'n').of(String.named(u'x').using(strip=False), String.named(u'xy').using(strip=False)),
            Array.named(u'r').of(String.using(strip=False)),
            Array.named(u'c').of(String.named(u'm').using(strip=False)),
            List.named(u'u').of(Dict.of(String.named(u'a').using(strip=False))),
            List.named(u'w').of(List.of(String.using(strip=False))),
            List.named(u't').of(DateYYYYMMDD))
    K = mk(CLS)
'''
GOOD = [u'd_a', u'd_l_0_m', u'd_n_x', u'd_n_xy', u'd_r', u'd_c_m', u'd_u_0_a', u'd_w_0_0', u'd_t_0_year']
BAD = [u'', u'a', u'd', u'd_', u'da', u'd_zz', u'dx_a', u'd_ab', u'd__a', u'd_a_', u'd_a_b', u'd_l', u'd_l_', u'd_l_0', u'd_l_0x_m',
       u'd_l_x_m', u'd_l_-1_m', u'd_lx_0_m', u'd_l_0_mm', u'd_n', u'd_n_', u'd_n_z', u'd_n_xyz', u'd_nx_x', u'd_rr',
       u'd_r_z', u'x_d_a', u'D_a', u'd_l_0_m_z', u' d_a', u'a_d', u'd_l_0__m', u'd.a', u'd_a\n', u'd_l_0\n', u'd_r\n', u'd_l\n', u'd_l_0_m\n', u'd_l_0\n_m', u'\nd_a',
       u'd_c', u'd_c_x', u'd_c_mm', u'd_c_m_m', u'd_c_m\n',
       u'd_u_0', u'd_u_0_', u'd_u_0_x', u'd_u_0a', u'd_u_a', u'd_w_0', u'd_w_0_', u'd_w_0_x', u'd_w_0_0x', u'd_w', u'd_w__0', u'd_t_0', u'd_t_0_', u'd_t_0_x', u'd_t_0_yearx', u'd_t']


def flat(ctx, el):
    out = []
    for p in ctx.items(ctx.m(el, 'flatten')):
        out.append((ctx.R(p[0]), ctx.R(p[1])))
    def arr(e, path):
        pass
    r = el.p.get(ctx.I, u'r')
    if r is not None:
        out += [(u'd_r', ctx.attr(m, 'u')) for m in ctx.items(r[1])]
    r = el.p.get(ctx.I, u'c')
    if r is not None and not any(k == u'd_c_m' for k, v in out):
        out += [(u'd_c_m', ctx.attr(m, 'u')) for m in ctx.items(r[1])]
    return out


def cmp(ctx, a, b):
    return len(a) == len(b) and all(x[0] == y[0] and ctx.same(x[1], y[1]) for x, y in zip(sorted(a, key=lambda p: p[0]), sorted(b, key=lambda p: p[0])))


def make(cls):
    @check.ob('unknown-' + cls, [C + 'Mapping._set_flat', C + 'List._set_flat', C + 'Array._set_flat'],
              'adding a pair whose key addresses no field changes neither the flattened form nor the keys present')
    def unknown(ctx):
        K = ctx.do(SCHEMA, CLS=ctx.get('flatland.schema:' + cls))['K']
        bad = ctx.choose(*BAD)
        n = ctx.choose(0, 1)
        good = GOOD if n else GOOD[:1]
        pairs = [(k, ctx.text('v' + k, True) if k[-4:] != u'year' else u'2001') for k in good]
        pos = ctx.choose(0, len(pairs))
        more = list(pairs)
        more.insert(pos, (bad, ctx.text('w', True)))
        if bad in (u'd_l_0', u'd_l_0__m', u'd_l_0_mm', u'd_l_0_m_z', u'd_l_0_m\n') and u'd_l_0_m' not in good:
            return        # names the slot, whose member then stays blank
        if bad[:6] in (u'd_u_0', u'd_u_0_', u'd_w_0', u'd_w_0_', u'd_t_0', u'd_t_0_') and bad not in (u'd_u_0a', u'd_w_0a', u'd_t_0a') and n == 0:
            return        # likewise
        if cls == 'SparseDict' and bad[:3] in (u'd_u', u'd_w', u'd_t') and n == 0:
            return
        if cls == 'SparseDict' and bad in (u'd_a_', u'd_a_b', u'd_l', u'd_l_', u'd_n', u'd_n_', u'd_l_x_m', u'd_l_0x_m', u'd_l_-1_m', u'd_l_0\n', u'd_l_0\n_m', u'd_r_', u'd_r_z', u'd_n_z', u'd_n_xyz', u'd_c', u'd_c_x', u'd_c_mm', u'd_c_m_m', u'd_c_m\n'):
            if n == 0:
                return    # extends the name of a sparse field, which is then created blank
        a = ctx.m(K, 'from_flat', ctx.I.new_list(pairs))
        b = ctx.m(K, 'from_flat', ctx.I.new_list(more))
        ka, kb = sorted(ctx.R(k) for k in a.p.keys()), sorted(ctx.R(k) for k in b.p.keys())
        ctx.check(ka == kb, 'the key %r creates %s' % (bad, [k for k in kb if k not in ka]))
        ctx.check(cmp(ctx, flat(ctx, a), flat(ctx, b)), 'the key %r changes the element' % bad)


make('Dict')
make('SparseDict')


@check.ob('symbolic', [C + 'Mapping._set_flat'], 'no text key whatever raises or reaches a field other than the one it names')
def symbolic(ctx):
    ns = ctx.do('''
        K = Dict.named(u'd').of(String.named(u'a').using(strip=False), String.named(u'b').using(strip=False))
    ''')
    k, v = ctx.text('key'), ctx.text('v', True)
    el = ctx.m(ns['K'], 'from_flat', ctx.I.new_list([(k, v)]))
    for f in (u'a', u'b'):
        val = ctx.attr(ctx.R(el.p.get(ctx.I, f)[1]), 'value')
        if val is not None:
            # the key must have been recognized as d_<f> on this path
            s = ctx.I.run.bind
            facts = [ctx.R(k)]
            ctx.check(ctx.same(val, v), 'a field holds something else than the pair value')


@check.ob('order', [C + 'Mapping._set_flat', C + 'List._set_flat'], 'the order of pairs with distinct keys does not matter; a mapping may be given', shards=8)
def order(ctx):
    K = ctx.do(SCHEMA, CLS=ctx.get('flatland.schema:Dict'))['K']
    pairs = [(k, ctx.text('v' + k, True)) for k in GOOD[:-1] + [u'd_l_1_m']] + [(u'd_t_0_year', u'2001')]
    i, j = ctx.choose(*range(len(pairs))), ctx.choose(*range(len(pairs)))
    more = list(pairs)
    more[i], more[j] = more[j], more[i]
    a = ctx.m(K, 'from_flat', ctx.I.new_list(pairs))
    arg = ctx.I.new_list(more)
    if ctx.choose('pairs', 'dict') == 'dict':
        arg = ctx.I.new_dict(more)
    b = ctx.m(K, 'from_flat', arg)
    ctx.check(cmp(ctx, flat(ctx, a), flat(ctx, b)), 'the result depends on the order of the pairs')
    for k, v in pairs:
        ctx.check(any(x[0] == k and ctx.same(x[1], v) for x in flat(ctx, b)), 'the pair %r is lost' % k)


@check.ob('scalar', ['flatland.schema.scalars:Scalar._set_flat'], 'a scalar takes the pair named exactly like it and nothing else')
def scalar(ctx):
    vals = ctx.choose((u'1', u'2'), (u'', u'2'), (u'0', u''), (u'x', u'3'), (u'', u''))
    for src in ('String', 'Integer', 'Boolean', 'Date', 'JoinedString', 'Dict.of(String.named(u"k"))', 'Enum.valued(u"2")'):
        named = 'Dict' not in src
        ns = ctx.do('''
        el = %s()
        el.set_flat([(u'q', u'7'), (u'k', a), (u'k', b), (u'k', u'9')])
        want = %s()
        want.set_flat([(u'k', a)])
        ''' % ((src + '.named(u"k")' if named else src,) * 2), a=vals[0], b=vals[1])
        ctx.check(ctx.truth(ctx.do('r = el.value == want.value and el.u == want.u', **ns)['r']), '%s: of several pairs bearing its name not the first is taken (%r)' % (src, vals))
    el = ctx.do('el = String.named(u"k").using(strip=False)()')['el']
    k, v = ctx.text('key'), ctx.text('v')
    ctx.m(el, 'set_flat', ctx.I.new_list([(k, v)]))
    if ctx.I.eq(k, u'k'):
        ctx.check(ctx.same(ctx.attr(el, 'value'), v), 'the pair named like the element is ignored')
    else:
        ctx.check(ctx.attr(el, 'value') is None and ctx.attr(el, 'u') == u'', 'a foreign pair is taken')


@check.ob('array', [C + 'Array._set_flat'], 'an Array takes every pair bearing its name, in order')
def array(ctx):
    cls = ctx.choose('Array', 'MultiValue')
    ns = ctx.do('el = %s.named(u"r").of(String.using(strip=False))()' % cls)
    n = ctx.choose(0, 1, 2, 3)
    vals = [ctx.text('v%d' % i, True) for i in range(n)]
    pairs = [(u'r', v) for v in vals]
    pairs.insert(ctx.choose(0, n), (ctx.choose(u'rr', u'q', u'r_x', u''), u'other'))
    ctx.m(ns['el'], 'set_flat', ctx.I.new_list(pairs))
    ms = ctx.items(ns['el'])
    ctx.check(len(ms) == n, '%d members from %d pairs' % (len(ms), n))
    for m, v in zip(ms, vals):
        ctx.check(ctx.same(ctx.attr(m, 'value'), v), 'the members are not the values in order')


SEPS = [u'--', u'-_', u'::', u'.', u'_', u'$.', u'abc']


def seps(cls):
    @check.ob('separators-' + cls, [C + 'Mapping._set_flat', C + 'SparseDict._set_flat'] if cls == 'SparseDict' else [C + 'Mapping._set_flat', C + 'List._set_flat', C + 'Array._set_flat'],
              'with separators of any length and made of any characters, a key is recognized by the whole separator: keys joined by part of it, by another one or by none are ignored')
    def ob(ctx):
        K = ctx.do(SCHEMA, CLS=ctx.get('flatland.schema:' + cls))['K']
        sep = ctx.choose(*SEPS)
        parts = ctx.choose([u'd', u'a'], [u'd', u'l', u'0', u'm'], [u'd', u'n', u'x'], [u'd', u'c', u'm'])
        at = ctx.choose(*range(len(parts) - 1))
        other = ctx.choose(u'', sep[:1], sep[1:], sep[-1:] + sep[:1], sep.upper(), u'x' + sep, sep + u'x', u'+', u'_')
        if other == sep or sep.startswith(u'$') and other == u'$':
            return
        glue = [sep] * (len(parts) - 1)
        glue[at] = other
        key = parts[0] + u''.join(g + p for g, p in zip(glue, parts[1:]))
        good = sep.join(parts)
        if cls == 'SparseDict' and any(key == u'd' + sep + f or key.startswith(u'd' + sep + f + sep) for f in (u'a', u'l', u'n', u'r', u'c')):
            return      # it extends the name of a sparse field
        pre = ctx.choose([], [(good, ctx.text('v', True))])
        if pre and parts[1] in u'lc' and key.startswith(u'd' + sep + u'l' + sep + u'0' + sep):
            pass
        elif parts[1] == u'l' and key.startswith(u'd' + sep + u'l' + sep + u'0' + sep):
            return      # names the slot, whose member then stays blank
        a, b = ctx.call(K), ctx.call(K)
        ctx.m(a, 'set_flat', ctx.I.new_list(pre), sep=sep)
        ctx.m(b, 'set_flat', ctx.I.new_list(pre + [(key, ctx.text('w', True))]), sep=sep)
        ka, kb = sorted(ctx.R(k) for k in a.p.keys()), sorted(ctx.R(k) for k in b.p.keys())
        ctx.check(ka == kb, 'separator %r: the key %r creates %s' % (sep, key, [k for k in kb if k not in ka]))
        ctx.check(cmp(ctx, flat(ctx, a), flat(ctx, b)), 'separator %r: the key %r changes the element' % (sep, key))
        if pre:
            x = ctx.R(a)
            for p in parts[1:]:
                if p == u'm' and parts[1] == u'c':
                    p = 0
                elif p == u'm':
                    break
                x = ctx.R(ctx.m(x, '__getitem__', int(p) if p == u'0' else p))
            ctx.check(ctx.same(ctx.attr(x, 'value'), pre[0][1]), 'separator %r: the key %r does not reach its field' % (sep, good))


seps('Dict')
seps('SparseDict')


@check.ob('array-names', [C + 'Array._set_flat'], 'an Array, named or not, of named or unnamed members takes exactly the pairs whose whole key is its name, the name of the member or both')
def array_names(ctx):
    cls = ctx.choose('Array', 'MultiValue')
    name = ctx.choose(None, u'r', u'r_q', u'r.')
    member = ctx.choose(None, u'c', u'c_d')
    sep = ctx.choose(u'_', u'--')
    prune = ctx.choose(True, False)
    key = ctx.choose(u'', u'r', u'rr', u'c', u'cx', u'xc', u'r_c', u'r_cx', u'r_xc', u'r_c_d', u'c_d', u'c_', u'_c', u'r_', u'r_q', u'r_q_c', u'r_q_c_d', u'r--c', u'r-c', u'r-', u'r--', u'rx', u'C', u'R', u'r.', u'r._c', u'c\n', u'r\n')
    el = ctx.do('K = %s.using(name=N, prune_empty=P).of(String.using(strip=False, name=M))\nel = K()' % cls, N=name, M=member, P=prune)['el']
    v = ctx.choose(ctx.text('v', True), u'')
    ctx.m(el, 'set_flat', ctx.I.new_list([(key, v)]), sep=sep)
    if not member and name and key == name + sep:
        return      # a trailing separator
    full = name + (sep + member if member else u'') if name else member or u''
    ms = ctx.items(el)
    want = int(key == full and not (prune and v == u''))
    ctx.check(len(ms) == want, '%s named %r of members named %r, separator %r: the pair named %r gives %d members' % (cls, name, member, sep, key, len(ms)))
    if want == len(ms) == 1:
        ctx.check(ctx.same(ctx.attr(ms[0], 'value'), v), 'the member does not hold the value of the pair')


@check.ob('pair-holders', ['flatland.schema.base:Element.set_flat'], 'anything with items() is read as those pairs, anything else as an iterable of pairs, read once', shards=2)
def pair_holders(ctx):
    kind = ctx.choose('list', 'tuple', 'iter', 'dict', 'adict', 'items-only', 'items-iter', 'multi', 'lists', 'set', 'element')
    cls = ctx.choose('Dict', 'SparseDict', 'List', 'Array', 'String', 'MultiValue', 'DateYYYYMMDD', 'JoinedString')
    ns = ctx.do('''
        from flatland.util import adict
        K = {'Dict': Dict.of(String.named(u'a'), List.named(u'l').of(String), Array.named(u'm').of(String)),
             'SparseDict': SparseDict.of(String.named(u'a'), List.named(u'l').of(String), Array.named(u'm').of(String)),
             'List': List.of(String), 'Array': Array.of(String), 'String': String, 'MultiValue': MultiValue.of(String),
             'DateYYYYMMDD': DateYYYYMMDD, 'JoinedString': JoinedString}[cls].named(u'z')
        class Items(object):
            def __init__(self, p):
                self.p = p
            def items(self):
                return self.p
        class Gen(object):
            def __init__(self, p):
                self.p = p
            def items(self):
                for x in self.p:
                    yield x
        class Multi(dict):
            def __init__(self, p):
                dict.__init__(self, p)
                self.p = p
            def items(self):
                return list(self.p)
            def iteritems(self):
                return iter(dict.items(self))
        pairs = [(u'zz', u'0'), (u'z_a', u'1'), (u'z_l_3', u'2'), (u'z_l_1', u'3'), (u'z_m', u'4'), (u'z_0', u'5'), (u'z', u'6'), (u'z_year', u'1999'), (u'z_month', u'12'), (u'z_day', u'31')]
        rep = pairs + [(u'z_m', u'7'), (u'z', u'8')]
        more = rep if kind in ('list', 'tuple', 'iter', 'items-only', 'items-iter', 'multi', 'lists') else pairs
        want = K()
        want.set_flat(more)
        if kind == 'list':
            given = list(more)
        elif kind == 'tuple':
            given = tuple(more)
        elif kind == 'iter':
            given = (p for p in more)
        elif kind == 'dict':
            given = dict(more)
        elif kind == 'adict':
            given = adict(more)
        elif kind == 'items-only':
            given = Items(more)
        elif kind == 'items-iter':
            given = Gen(more)
        elif kind == 'multi':
            given = Multi(more)
        elif kind == 'lists':
            given = [list(p) for p in more]
        elif kind == 'set':
            given = set(more)
        else:
            given = dict((k, v) for k, v in more)
        got = K()
        got.set_flat(given)
        same = got.value == want.value and got.u == want.u and got.flatten() == want.flatten()
        fresh = want.u != K().u
    ''', kind=kind, cls=cls)
    ctx.check(ctx.truth(ns['same']), 'flat pairs given to a %s as %s are not read as the pairs they hold' % (cls, kind))
    ctx.check(ctx.truth(ns['fresh']), 'the pairs of a %s are not read at all' % cls)
