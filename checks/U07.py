"""U07 — the small value types: Maybe, the validation constants, mapping views."""
from sa.oblig import Check

check = Check('U07', 'Ternary values, flags and views behave like what they stand for')
U = 'flatland.util.base:'


def kleene(op, a, b):
    if op == 'and':
        return False if False in (a, b) else None if None in (a, b) else True
    return True if True in (a, b) else None if None in (a, b) else False


@check.ob('maybe', [U + 'Maybe.__and__', U + 'Maybe.__or__', U + 'Maybe.not_', U + 'Maybe.truth'],
          'and, or and not of True, False and Maybe follow three-valued logic on either side; others are refused; Maybe is no condition')
def maybe(ctx):
    M = ctx.get(U + 'Maybe')
    dec = lambda v: None if ctx.R(v) is ctx.R(M) else ctx.R(v)
    enc = lambda v: M if v is None else v
    for a in (True, False, None):
        for b in (True, False, None):
            if None not in (a, b):
                continue
            for op, src in (('and', 'r = a & b'), ('or', 'r = a | b')):
                got = dec(ctx.do(src, a=enc(a), b=enc(b))['r'])
                ctx.check(got is kleene(op, a, b), '%s %s %s is %s' % (a, op, b, ctx.show(got)))
        got = dec(ctx.m(M, 'not_', enc(a)))
        ctx.check(got is (None if a is None else not a), 'not %s is %s' % (a, ctx.show(got)))
        got = ctx.R(ctx.m(M, 'truth', enc(a)))
        ctx.check(got is (a is not False), 'truth(%s) is %s' % (a, ctx.show(got)))
    for bad in (None, u'', u'auto', 2, 1, 0):
        for meth in ('not_', 'truth'):
            st, r, e = ctx.catch(lambda: ctx.m(M, meth, bad))
            ctx.check(st == 'raise' and r == 'TypeError', '%s(%r) gives %s' % (meth, bad, r if st == 'raise' else ctx.show(r)))
    for bad in (None, u'', u'auto', 2, 1, 0):
        for src in ('r = m & b', 'r = b & m', 'r = m | b', 'r = b | m'):
            st, r, e = ctx.catch(lambda: ctx.do(src, m=M, b=bad))
            ctx.check(st == 'raise' and r == 'TypeError', '%s with m=Maybe, b=%r gives %s' % (src, bad, r if st == 'raise' else 'no error'))
    st, r, e = ctx.catch(lambda: ctx.do('r = 1 if m else 2', m=M))
    ctx.check(st == 'raise' and r == 'NotImplementedError', 'Maybe used as a condition gives %s' % r)
    ctx.check(ctx.truth(ctx.do('r = str(m) == "Maybe" and repr(m) == "Maybe"', m=M)['r']), 'Maybe shows otherwise')


@check.ob('constants', [U + 'named_int_factory', 'flatland.schema.base:Skip'],
          'Skip, SkipAll, SkipAllFalse and Unevaluated are four objects, true but for SkipAllFalse, shown by their names, and no booleans')
def constants(ctx):
    B = 'flatland.schema.base:'
    names = ('Skip', 'SkipAll', 'SkipAllFalse', 'Unevaluated')
    objs = [ctx.get(B + n) for n in names]
    for i, (n, o) in enumerate(zip(names, objs)):
        ctx.check(ctx.truth(ctx.do('r = bool(o)', o=o)['r']) is (n != 'SkipAllFalse'), '%s has the wrong truth' % n)
        ctx.check(ctx.truth(ctx.do('r = repr(o) == n and str(o) == n', o=o, n=n)['r']), '%s is not shown by its name' % n)
        ctx.check(ctx.truth(ctx.do('r = isinstance(o, int) and o == k', o=o, k=int(n != 'SkipAllFalse'))['r']), '%s is not the number of its truth' % n)
        for other in objs[:i]:
            ctx.check(ctx.R(o) is not ctx.R(other), '%s is the same object as another constant' % n)
        for b in (True, False, None):
            ctx.check(ctx.R(o) is not b, '%s is %s' % (n, b))
    f = ctx.get(U + 'named_int_factory')
    k = ctx.choose(0, 1, -7, 1000)
    ns = ctx.do('a = f("N", k, doc="D")\nb = f("N", k)', f=f, k=k)
    for what, src in (('equal to the number', 'a == k and b == k'), ('an object of its own', 'a is not b'), ('shown by its name', 'str(a) == "N" and repr(b) == "N"'),
                      ('true iff not zero', 'bool(a) == bool(k)')):
        ctx.check(ctx.truth(ctx.do('r = ' + src, k=k, **{n: ns[n] for n in 'ab'})['r']), 'a named integer is not %s' % what)


@check.ob('adict', [U + 'adict.__getattr__'],
          'the keys of an adict are its attributes; others are AttributeErrors')
def adict(ctx):
    v = ctx.any('v')
    ns = ctx.do('''
        from flatland.util import adict
        d = adict(a=V, b=1)
        d[u'c'] = 2
        x = d.a
        y = d.c
        same = d == {'a': V, 'b': 1, 'c': 2}
        hooked = getattr(d, 'z', 'none')
    ''', V=v)
    ctx.check(ctx.R(ns['x']) is ctx.R(v) and ctx.same(ns['y'], 2) and ctx.truth(ns['same']), 'the attributes are not the keys')
    ctx.check(ctx.same(ns['hooked'], u'none') or ctx.truth(ctx.do('r = h == "none"', h=ns['hooked'])['r']), 'an unknown attribute is %s' % ctx.show(ns['hooked']))
    st, r, e = ctx.catch(lambda: ctx.attr(ns['d'], 'z'))
    ctx.check(st == 'raise' and r == 'AttributeError', 'an unknown attribute gives %s' % r)
    ns = ctx.do('del d["a"]', d=ns['d'])
    st, r, e = ctx.catch(lambda: ctx.attr(ns['d'], 'a'))
    ctx.check(st == 'raise' and r == 'AttributeError', 'a deleted key gives %s' % r)


@check.ob('as_mapping', [U + 'as_mapping.__getitem__', U + 'as_mapping.__contains__', 'flatland.validation.base:as_format_mapping.__contains__',
                         'flatland.validation.base:as_format_mapping.__getitem__'],
          'a mapping view has an object\'s attributes, properties and inherited ones too, as items; missing ones are KeyErrors')
def as_mapping(ctx):
    v = ctx.any('v')
    ns = ctx.do('''
        from flatland.util.base import as_mapping
        from flatland.validation.base import as_format_mapping
        class B(object):
            inherited = u'i'
        class K(B):
            cls = u'c'
            @property
            def prop(self):
                return self.own
        o = K()
        o.own = V
        o.none = None
        other = B()
        other.only = u'o'
        other.own = u'shadowed'
        one = as_mapping(o)
        many = as_format_mapping(o, other)
        empty = as_format_mapping()
        d = as_format_mapping({u'own': V, u'x': u'y'}, other)
        scalar = as_format_mapping(u'text', 5, None, o)
        class Dyn(object):
            def __getattr__(self, name):
                if name == 'own':
                    return V
                raise AttributeError(name)
        class Slots(object):
            __slots__ = ('own', 'unset')
        sl = Slots()
        sl.own = V
        dyn = as_mapping(Dyn())
        slots = as_mapping(sl)
        many_dyn = as_format_mapping(Dyn(), sl, other)
        many_slots = as_format_mapping(sl, Dyn(), other)
    ''', V=v)

    def look(m, k, want, what):
        st, r, e = ctx.catch(lambda: ctx.m(ns[m], '__getitem__', k))
        has = ctx.truth(ctx.m(ns[m], '__contains__', k))
        if want is KeyError:
            ctx.check(st == 'raise' and r == 'KeyError', '%s[%s] gives %s' % (what, k, r if st == 'raise' else ctx.show(r)))
            ctx.check(not has, '%s is in %s' % (k, what))
        else:
            ctx.check(st == 'ok' and (ctx.R(r) is ctx.R(want) or ctx.same(r, want)), '%s[%s] gives %s' % (what, k, r if st == 'raise' else ctx.show(r)))
            ctx.check(has, '%s is not in %s' % (k, what))
    for m in ('one', 'many', 'scalar'):
        for k, w in (('own', v), ('none', None), ('cls', u'c'), ('inherited', u'i'), ('prop', v), ('bogus', KeyError)):
            look(m, k, w, m)
    for m in ('dyn', 'slots', 'many_dyn', 'many_slots'):
        look(m, 'own', v, m)
        look(m, 'bogus', KeyError, m)
        look(m, 'unset', KeyError, m)
    look('many_dyn', 'only', u'o', 'many_dyn')
    look('many_slots', 'inherited', u'i', 'many_slots')
    look('one', 'only', KeyError, 'one')
    look('many', 'only', u'o', 'many')
    look('d', 'own', v, 'd')
    look('d', 'x', u'y', 'd')
    look('d', 'only', u'o', 'd')
    look('d', 'cls', KeyError, 'd')
    look('empty', 'own', KeyError, 'empty')
