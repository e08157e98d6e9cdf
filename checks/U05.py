"""U05 — moving values between mappings and plain objects."""
from sa.oblig import Check

check = Check('U05', 'Object attributes and mapping fields are exchanged by one set of rules')
C = 'flatland.schema.containers:'
FIELDS = ('a', 'b', 'c')
SRC = '''
    class Obj(object):
        pass
    fields = [String.named(u'a').using(strip=False), String.named(u'b').using(strip=False), Integer.named(u'c')]
    class F(Form):
        a = String.using(strip=False)
        b = String.using(strip=False)
        c = Integer
    K = {'dict': Dict.named(u'd').of(*fields), 'sparse': SparseDict.named(u'd').of(*fields), 'form': F,
         'strict': Dict.named(u'd').of(*fields).using(policy='strict'), 'duck': Dict.named(u'd').of(*fields).using(policy='duck')}
'''
INC = (None, ('a',), ('a', 'x'), ('b', 'c', 'nope'))
OMIT = (None, (), ('a',), ('x',), ('b', 'c'), ('a', 'x', 'nope'))
REN = (None, {}, {'x': 'b'}, {'x': 'a', 'y': 'c'}, {'a': 'b'}, {'a': 'x'}, {'x': 'nope'}, {'a': 'b', 'b': 'a'}, {'a': ''})


def wants(attrs, include, omit, rename):
    """attribute -> field, as documented: renamed attributes always, others if named by include, or not by omit."""
    out = []
    for k in attrs:
        if rename and k in rename:
            out.append((k, rename[k]))
        elif include:
            if k in include:
                out.append((k, k))
        elif not omit or k not in omit:
            out.append((k, k))
    return out


def lit(ctx, v, form):
    if v is None:
        return None
    if isinstance(v, dict):
        if form % 2:
            return ctx.do('r = [%s]' % ', '.join('(u%r, u%r)' % (k, x) for k, x in v.items()))['r']
        return ctx.do('r = {%s}' % ', '.join('u%r: u%r' % (k, x) for k, x in v.items()))['r']
    src = ', '.join('u%r' % k for k in v)
    return ctx.do('r = ' + ('[%s]' % src, '(%s)' % (src + ',' if src else ''), 'iter([%s])' % src)[form % (3 if v else 2)])['r']


def show(include, omit, rename):
    return 'include=%s, omit=%s, rename=%s' % (include, omit, rename)


@check.ob('set-by-object', [C + 'Dict.set_by_object', C + 'Dict.from_object', 'flatland.util.base:keyslice_pairs'],
          'the fields get exactly the attributes the documented rules choose, renamed ones included; attributes the object lacks and names that are '
          'not fields are passed over; the rest is blank, the object unchanged', max_runs=20000, shards=8)
def set_by_object(ctx):
    kind = ctx.choose('dict', 'sparse', 'form', 'strict', 'duck')
    via = ctx.choose('method', 'from_object', 'stale')
    have = ctx.choose((), ('a',), ('a', 'b', 'c'), ('x', 'y'), ('a', 'x'), ('b', 'x', 'zz'), ('a', 'b', 'c', 'x', 'y', 'zz'))
    ns = ctx.do(SRC)
    cls = ctx.do('r = K[k]', K=ns['K'], k=kind)['r']
    vals = {k: (7 if k in 'cy' else ctx.text('v' + k)) for k in have}
    n = 0
    for include in INC:
        for omit in OMIT:
            for rename in REN:
                if include and omit and (rename or len(omit) > 1):
                    continue
                n += 1
                chosen = wants(have, include, omit, rename)
                chosen = [(k, f) for k, f in chosen if f in FIELDS and (k in FIELDS or rename and k in rename)]
                targets = [f for k, f in chosen]
                if len(set(targets)) != len(targets):
                    continue        # two attributes for one field
                obj = ctx.call(ns['Obj'])
                for k in have:
                    ctx.I.setattr(obj, k, vals[k])
                kw = {}
                for name, v in (('include', include), ('omit', omit), ('rename', rename)):
                    if v is not None or n % 2:
                        kw[name] = lit(ctx, v, n)
                where = '%s object with %s, %s' % (kind, have, show(include, omit, rename))

                def go():
                    if via == 'from_object':
                        return ctx.call(ctx.attr(cls, 'from_object'), obj, **kw)
                    el = ctx.call(cls)
                    if via == 'stale':
                        ctx.do("el.set({'a': u'1', 'b': u'2', 'c': 3})", el=el)
                    ctx.call(ctx.attr(el, 'set_by_object'), obj, **kw)
                    return el
                st, el, e = ctx.catch(go)
                if include and omit:
                    ctx.check(st == 'raise' and el == 'TypeError', '%s: gives %s' % (where, el if st == 'raise' else 'no error'))
                    continue
                if kind == 'strict' and set(targets) != set(FIELDS):
                    ctx.check(st == 'raise' and el == 'TypeError', '%s: gives %s' % (where, el if st == 'raise' else 'no error'))
                    continue
                ctx.check(st == 'ok', '%s: raises %s' % (where, el))
                if st != 'ok':
                    continue
                got = {}
                for k in ctx.items(ctx.m(el, 'keys')):
                    got[k] = ctx.R(ctx.attr(ctx.do('r = el[k]', el=el, k=k)['r'], 'value'))
                for f in FIELDS:
                    src = [k for k, t in chosen if t == f]
                    if src:
                        v = vals[src[0]]
                        if isinstance(v, int) and f != 'c':
                            v = str(v)
                        if f == 'c' and not isinstance(v, int):
                            continue        # depends on the text
                        ctx.check(f in got and ctx.same(got[f], v), '%s: field %s is %s, not attribute %s' % (where, f, ctx.show(got.get(f)), src[0]))
                    elif kind == 'sparse':
                        ctx.check(f not in got, '%s: field %s appears' % (where, f))
                    else:
                        ctx.check(f in got and got[f] is None, '%s: field %s is %s' % (where, f, ctx.show(got.get(f))))
                d = ctx.attr(obj, '__dict__')
                left = dict(ctx.host(ctx.do('r = d.items()', d=d)['r']) and [tuple(ctx.host(p)) for p in ctx.items(ctx.do('r = d.items()', d=d)['r'])])
                ctx.check(set(left) == set(have) and all(ctx.same(left[k], vals[k]) for k in have), '%s: the object becomes %s' % (where, left))


KEYS = (None, 'str', 'upper', 'prefix')


def keyed(key, k):
    return {'upper': k.upper(), 'prefix': 'x' + k}.get(key, k)


@check.ob('slice', [C + 'Dict.slice', C + 'Dict.update_object', 'flatland.util.base:keyslice_pairs'],
          'slice() holds the native values of exactly the fields the rules choose, under their new names; update_object() sets just those attributes; '
          'the element is unchanged', max_runs=20000, shards=8)
def slice_(ctx):
    kind = ctx.choose('dict', 'sparse', 'sparse-all', 'form')
    how = ctx.choose('slice', 'update')
    key = ctx.choose(*KEYS)
    ns = ctx.do(SRC + '''
    def up(k):
        return k.upper()
    def prefix(k):
        return u'x' + k
    KEYF = {'str': str, 'upper': up, 'prefix': prefix}
    def snap(el):
        return [(k, id(el[k]), el[k].value, el[k].u, el[k].raw) for k in el.keys()]
''')
    cls = ctx.do('r = K[k]', K=ns['K'], k=kind.split('-')[0])['r']
    el = ctx.call(cls)
    va, vb = ctx.text('va'), ctx.text('vb')
    vals = {'a': va, 'b': vb, 'c': 5}
    if kind == 'sparse':
        ctx.do("el.set({'a': va})", el=el, va=va)
        vals = {'a': va}
    elif kind == 'form':
        ctx.do("el.set({'b': vb, 'c': 5})", el=el, vb=vb)
        vals = {'a': None, 'b': vb, 'c': 5}
    else:
        ctx.do("el.set({'a': va, 'b': vb, 'c': 5})", el=el, va=va, vb=vb)
    names = [keyed(key, k) for k in vals]
    keyf = ctx.do('r = KEYF[k]', KEYF=ns['KEYF'], k=key)['r'] if key else None
    snap = lambda: ctx.call(ns['snap'], el)
    before = snap()
    tr = lambda v: None if v is None else {keyed(key, k): x for k, x in v.items()} if isinstance(v, dict) else tuple(keyed(key, k) for k in v)
    n = 0
    for include in INC:
        for omit in OMIT:
            for rename in REN:
                if include and omit and (rename or len(omit) > 1):
                    continue
                n += 1
                i, o, r = tr(include), tr(omit), tr(rename)
                chosen = wants(names, i, o, r)
                targets = [f for k, f in chosen]
                if len(set(targets)) != len(targets):
                    continue
                kw = {}
                for name, v in (('include', i), ('omit', o), ('rename', r)):
                    if v is not None or n % 2:
                        kw[name] = lit(ctx, v, n)
                if key:
                    kw['key'] = keyf
                where = '%s, key=%s, %s' % (kind, key, show(i, o, r))
                obj = ctx.call(ns['Obj'])
                ctx.I.setattr(obj, 'keep', 'me')
                ctx.I.setattr(obj, 'a', 'old')
                st, got, e = ctx.catch(lambda: ctx.call(ctx.attr(el, 'slice'), **kw) if how == 'slice' else ctx.call(ctx.attr(el, 'update_object'), obj, **kw))
                if include and omit:
                    ctx.check(st == 'raise' and got == 'TypeError', '%s: gives %s' % (where, got if st == 'raise' else 'no error'))
                    continue
                ctx.check(st == 'ok', '%s: raises %s' % (where, got))
                if st != 'ok':
                    continue
                if how == 'update':
                    ctx.check(ctx.is_none(got), '%s: update_object returns something' % where)
                    got = ctx.attr(obj, '__dict__')
                got = {p[0]: p[1] for p in (ctx.host(x) for x in ctx.items(ctx.do('r = d.items()', d=got)['r']))}
                back = {keyed(key, k): v for k, v in vals.items()}
                want = {f: back[k] for k, f in chosen}
                if how == 'update':
                    want.setdefault('keep', 'me')
                    want.setdefault('a', 'old')
                ctx.check(set(got) == set(want) and all(ctx.same(got[k], want[k]) for k in want),
                          '%s: %s gives %s, not %s' % (where, how, {k: ctx.show(v) for k, v in got.items()}, {k: ctx.show(v) for k, v in want.items()}))
    ctx.check(ctx.truth(ctx.I.eq(snap(), before)), '%s: %s changes the element' % (kind, how))


@check.ob('round-trip', [C + 'Dict.set_by_object', C + 'Dict.update_object'],
          'values read from one object and written to another are the same values; nested containers hand over their native values')
def round_trip(ctx):
    ns = ctx.do(SRC + '''
    class G(Form):
        a = String.using(strip=False)
        n = Integer
        l = List.of(Integer)
        d = Dict.of(String.named(u'x').using(strip=False), Boolean.named(u'y'))
    one, two = Obj(), Obj()
    one.a, one.n, one.l, one.d = v, 3, [1, 2], {'x': v, 'y': True}
    two.other = 1
''', v=ctx.text('v'))
    el = ctx.call(ctx.attr(ns['G'], 'from_object'), ns['one'])
    ctx.m(el, 'update_object', ns['two'])
    two = ctx.do('''
    r = (two.a == one.a, two.n == one.n, two.l == one.l, two.d == one.d, two.other == 1, sorted(two.__dict__) == ['a', 'd', 'l', 'n', 'other'])
''', two=ns['two'], one=ns['one'])['r']
    ctx.check(all(ctx.truth(x) for x in ctx.host(two) or two), 'the copied object differs: %s' % ctx.show(two))


@check.ob('falsy', [C + 'Dict.set_by_object', C + 'Dict.from_object', C + 'Dict.update_object', C + 'Dict.slice'],
          'an attribute the object has is transferred whatever it holds - None, blank, zero, false, empty - however the class provides it, and so is what a field holds')
def falsy(ctx):
    v = ctx.choose(None, u'', 0, False, True, u'x', 1)
    where = ctx.choose('instance', 'class', 'property', 'slots', 'getattr', 'dict')
    K = ctx.choose('Dict', 'SparseDict', 'Form')
    policy = ctx.choose('subset', 'strict', 'duck')
    rename = ctx.choose(False, True)
    ns = ctx.do('''
        at = u'x' if R else u'a'
        class P(object):
            @property
            def a(self):
                return V
            @property
            def x(self):
                return V
            b = u'b'
        class S(object):
            __slots__ = ('a', 'x', 'b')
        class G(object):
            def __getattr__(self, name):
                if name == at:
                    return V
                if name == 'b':
                    return u'b'
                raise AttributeError(name)
        class O(object):
            pass
        w = WHERE
        if w == 'property':
            o = P()
        elif w == 'getattr':
            o = G()
        else:
            o = S() if w == 'slots' else O()
            if w == 'class':
                setattr(O, at, V)
                O.b = u'b'
            else:
                setattr(o, at, V)
                o.b = u'b'
        el = %s.of(Boolean.named(u'a'), String.named(u'b')).using(policy=PO)()
        kw = {'rename': {u'x': u'a'}} if R else {}
        el.set_by_object(o, **kw)
        fresh = Boolean()
        fresh.set(V)
        r = (el[u'a'].raw, el[u'a'].value, el[u'a'].u, fresh.value, fresh.u, el[u'b'].value)
        two = O()
        el[u'a'].value = V
        two.a = u'earlier'
        el.update_object(two)
        sl = el.slice()
        s = (two.__dict__[u'a'], sl[u'a'], two.b, sl[u'b'])
    ''' % K, V=v, R=rename, WHERE=where, PO=policy)
    raw, value, u, fv, fu, b = [ctx.R(x) for x in ctx.items(ns['r'])]
    what = '%s, policy %s, attribute %r of the %s%s' % (K, policy, v, where, ', renamed' if rename else '')
    ctx.check(raw is v or raw == v and type(raw) is type(v), '%s: the field received %s' % (what, ctx.show(raw)))
    ctx.check(value is fv and u == fu and b == u'b', '%s: the field is %r %r' % (what, value, u))
    s = [ctx.R(x) for x in ctx.items(ns['s'])]
    ctx.check(all(type(x) is type(v) and x == v for x in s[:2]) and s[2:] == [u'b', u'b'], '%s: handed out as %s' % (what, s))
