"""C05 — Dict.set honours its policy."""
from sa.oblig import Check

check = Check('C05', 'Dict.set enforces the strict, subset and duck policies')
C = 'flatland.schema.containers:'


def client(ctx, cls, policy, how):
    a, b = u'a', u'b'
    ns = ctx.do('''
        K = %s.named(u'd').of(String.named(u'a').using(strip=False), String.named(u'b').using(strip=False))
    ''' % cls)
    K = ns['K']
    kw = {}
    if how == 'class':
        K = ctx.do('K = K.using(policy=P)', K=K, P=policy)['K']
        el = ctx.call(K)
    elif how == 'instance':
        el = ctx.call(K, policy=policy)
    elif how == 'argument':
        el = ctx.call(K)
        kw = {'policy': policy}
    else:
        el = ctx.call(K)
    if ctx.choose(False, True):
        ctx.do("el['a'] = u'stale'; el['b'] = u'stale'", el=el)
    keys = []
    if ctx.choose(False, True):
        keys.append(u'a')
    if ctx.choose(False, True):
        keys.append(u'b')
    if ctx.choose(False, True):
        k = ctx.text('key')
        ctx.I.add_neq(k, u'a')
        ctx.I.add_neq(k, u'b')
        keys.insert(ctx.choose(0, len(keys)) if keys else 0, k)
    as_dict = ctx.choose(False, True)
    if not as_dict and keys and keys[0] in (u'a', u'b'):
        rep = ctx.choose(0, 1, 2)
        keys += [keys[0]] * rep
    vals = [ctx.text('v%d' % i) for i in range(len(keys))]
    pairs = list(zip(keys, vals))
    arg = ctx.I.new_dict(pairs) if as_dict else ctx.I.new_list(pairs)
    vals = [vals[len(keys) - 1 - keys[::-1].index(k)] for k in keys]    # the last of repeated pairs counts
    return el, keys, vals, arg, kw


def expect(ctx, policy, keys):
    unknown = [k for k in keys if k not in (u'a', u'b')]
    if unknown and policy != 'duck':
        return 'KeyError'
    if policy == 'strict' and not (u'a' in keys and u'b' in keys):
        return 'TypeError'
    return 'ok'


def make(cls, policy):
    @check.ob('%s-%s' % (cls, policy), [C + 'Dict.set'],
              '%s: unknown keys %s, missing keys %s; the named fields hold the given values, the others are blank' % (
                  policy, 'are ignored' if policy == 'duck' else 'raise KeyError',
                  'raise TypeError' if policy == 'strict' else 'are allowed'))
    def ob(ctx):
        how = ctx.choose('class', 'instance', 'argument') if policy != 'subset' else ctx.choose('default', 'argument')
        el, keys, vals, arg, kw = client(ctx, cls, policy, how)
        st, r, e = ctx.catch(lambda: ctx.m(el, 'set', arg, **kw))
        want = expect(ctx, policy, keys)
        got = st if st == 'ok' else r
        ctx.check(got == want, '%s policy (by %s): keys %s: %s, expected %s' % (policy, how, [ctx.show(k) for k in keys], got, want))
        if st != 'ok':
            return
        ctx.check(ctx.R(r) is True, 'set() of good values returned %s' % ctx.show(r))
        for k in (u'a', u'b'):
            present = any(ctx.R(x) == k for x in el.p.keys())
            if k in keys:
                ctx.check(present, 'the field %r is missing after set()' % k)
                ctx.check(ctx.same(ctx.attr(ctx.R(el.p.get(ctx.I, k)[1]), 'value'), vals[keys.index(k)]), 'the field %r does not hold its value' % k)
            elif present:
                ctx.check(cls == 'Dict' and ctx.attr(ctx.R(el.p.get(ctx.I, k)[1]), 'value') is None, 'the field %r kept a stale value' % k)


for c in ('Dict', 'SparseDict'):
    for p in ('strict', 'subset', 'duck'):
        make(c, p)


@check.ob('bad-policy', [C + 'Dict.set'], 'an unknown policy argument is refused')
def bad(ctx):
    st, r, e = ctx.catch(lambda: ctx.do("el = Dict.of(String.named(u'a'))(); el.set({}, policy='lenient')"))
    ctx.check(st == 'raise', 'an unknown policy is accepted')


@check.ob('mapping', [C + 'Mapping.set'], 'a plain Mapping demands exactly its keys')
def mapping(ctx):
    class_ns = ctx.do('''
        class K(Mapping):
            field_schema = (String.named(u'a').using(strip=False), String.named(u'b').using(strip=False%s))
    ''' % ctx.choose('', ', optional=True', ', default=u"d"'))
    ctx_el, keys, vals, arg, kw = None, [], [], None, {}
    el = ctx.call(class_ns['K'])
    for k in (u'a', u'b', u'zz', u'a'):
        if ctx.choose(False, True):
            keys.append(k)
            vals.append(ctx.text('v' + k))
    st, r, e = ctx.catch(lambda: ctx.m(el, 'set', ctx.I.new_list(list(zip(keys, vals)))))
    want = expect(ctx, 'strict', keys)
    ctx.check((st if st == 'ok' else r) == want, 'keys %s: %s, expected %s' % (keys, st if st == 'ok' else r, want))


@check.ob('values', [C + 'Dict.set'], 'whether a key counts as given or unknown depends on nothing but its name: not on the value, not on the field being optional or having a default', shards=8)
def values(ctx):
    cls = ctx.choose('Dict', 'SparseDict', 'SparseDict-required', 'Form')
    policy = ctx.choose('strict', 'subset', 'duck')
    opt = ctx.choose('', ', optional=True', ', default=u"d"', ', optional=True, default=u"d"')
    K = ctx.do('K = %s.named(u"d").of(String.named(u"a").using(strip=False), String.named(u"b").using(strip=False%s))' % (cls.split('-')[0], opt))['K']
    if '-' in cls:
        K = ctx.do('K = K.using(minimum_fields="required")', K=K)['K']
    keys = ctx.choose([], [u'a'], [u'b'], [u'a', u'b'], [u'a', u'zz'], [u'a', u'b', u'zz'], [u'zz', u'b', u'a'], [u'a', u'b', u''], [u'a', u'b', u'A'], [u'a', u'b', u'a '], [u'a', u'b', u'd_a'],
                      [u'a', u'b', None], [u'a', u'b', 0])
    v = ctx.choose(None, u'', u'x', 0, False, ())
    form = ctx.choose('dict', 'pairs', 'iter', 'element')
    if form == 'element':
        if policy == 'strict' and len(keys) < 1 or not all(isinstance(k, str) for k in keys) or not keys or v == ():
            return
        arg = ctx.do('''
            E = SparseDict.of(*[String.using(name=k) for k in KS])
            x = E()
            for k in KS:
                x[k] = V
        ''', KS=ctx.I.new_list(list(keys)), V=v)['x']
    else:
        arg = ctx.do('x = dict(P)' if form == 'dict' else 'x = list(P)' if form == 'pairs' else 'x = (p for p in P)', P=ctx.I.new_list([(k, v) for k in keys]))['x']
    el = ctx.call(K)
    st, r, e = ctx.catch(lambda: ctx.m(el, 'set', arg, policy=policy))
    want = expect(ctx, policy, keys)
    got = st if st == 'ok' else r
    ctx.check(got == want, '%s with %s under %s: keys %s given as %s, each %r: %s, expected %s' % (cls, opt or 'plain fields', policy, keys, form, v, got, want))
    if st == 'ok' and form != 'element':
        for k in (u'a', u'b'):
            kv = el.p.get(ctx.I, k)
            if k in keys:
                ctx.check(kv is not None and ctx.R(ctx.attr(ctx.R(kv[1]), 'raw')) == v, 'the field %r did not get %r' % (k, v))
            elif kv is not None:
                ctx.check(ctx.R(ctx.attr(ctx.R(kv[1]), 'value')) is None, 'the field %r, not given, holds something' % k)
