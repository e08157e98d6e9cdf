"""S03 — values outside a declared constraint are never held."""
from sa.oblig import Check

check = Check('S03', 'Constrained, Enum and unsigned numbers never hold a rejected value')

SC = 'flatland.schema.scalars:'


def assign(ctx, K, v):
    """Every public route that stores a value in a scalar."""
    how = ctx.choose('set', 'construct', 'default', 'flat', 'element-set_default')
    if how == 'set':
        el = ctx.call(K)
        return el, ctx.m(el, 'set', v)
    if how == 'construct':
        return ctx.call(K, v), None
    if how == 'default':
        return ctx.m(ctx.m(K, 'using', default=v), 'from_defaults'), None
    if how == 'flat':
        return ctx.m(K, 'from_flat', ctx.I.new_list([(u'k', v)])), None
    el = ctx.call(ctx.m(K, 'using', default=v))
    ctx.m(el, 'set', ctx.any('w'))
    ctx.m(el, 'set_default')
    return el, None


@check.ob('constrained', [SC + 'Constrained.adapt', SC + 'Scalar.set'],
          'after set / construct / set_default / set_flat, value is None or valid_value(el, value) held for it; '
          'a value the child adapts and valid_value accepts is stored')
def constrained(ctx):
    child = ctx.choose('ok', 'fail')
    adapted = ctx.sym('adapted', 'none', 'int', 'text', 'object')

    def valid(el, value):
        return ctx.I.decide(('valid', ctx.I.tkey(ctx.R(value))))
    ns = ctx.do('''
        from flatland.exc import AdaptationError
        class Child(Scalar):
            def adapt(self, value):
                if not OK:
                    raise AdaptationError()
                return ADAPT(value)
            def serialize(self, value):
                return SER(value)
        K = Constrained.named(u'k').using(child_type=Child, valid_value=VALID)
    ''', OK=child == 'ok', VALID=ctx.fn('valid', valid),
        ADAPT=ctx.fn('adapt', lambda v: adapted),
        SER=ctx.fn('ser', lambda v: ctx.app('ser', v)))
    v = ctx.any('v')
    el, r = assign(ctx, ns['K'], v)
    value = ctx.attr(el, 'value')
    if value is None:
        if r is not None and ctx.truth(r):
            ctx.check(child == 'ok', 'set() reports success although the child type refused the value')
        if child == 'ok' and r is not None:
            if not ctx.is_none(adapted):
                ctx.check(not ctx.I.decide(('valid', ctx.norm(ctx.I.tkey(adapted)))), 'an accepted value was dropped')
        return
    if ctx.is_none(value):
        return
    ctx.check(child == 'ok', 'holds %s although the child type refused it' % ctx.show(value))
    ctx.check(ctx.same(value, adapted),
              'value is not what the child type adapted')
    ctx.check(ctx.I.decide(('valid', ctx.I.tkey(ctx.R(value)))), 'holds a value that valid_value() rejected')
    if r is not None:
        ctx.check(ctx.truth(r), 'set() reports failure for an accepted value')
    ctx.check(ctx.same(ctx.attr(el, 'u'), ctx.app('ser', value)), '.u is not the child serialization of the value')


@check.ob('enum', [SC + 'Enum.valid_value', SC + 'Enum.valued', SC + 'Constrained.adapt'],
          'an Enum holds None or a member of valid_values, whatever is assigned and however')
def enum(ctx):
    a, b = ctx.text('a'), ctx.text('b')
    ns = ctx.do('''
        K = Enum.named(u'k').using(child_type=String.using(strip=False)).valued(A, B)
    ''', A=a, B=b)
    v = ctx.any('v')
    el, r = assign(ctx, ns['K'], v)
    value = ctx.attr(el, 'value')
    member = ctx.I.eq(v, a) or ctx.I.eq(v, b)
    if ctx.is_none(value):
        ctx.check(not (member and ctx.kindset(v) == {'text'}), 'a member of valid_values was refused')
        return
    ctx.check(ctx.I.eq(value, a) or ctx.I.eq(value, b), 'holds %s, not in valid_values' % ctx.show(value))


@check.ob('enum-kw', [SC + 'Constrained.__init__', SC + 'Enum.__init__'],
          'constraints given to the constructor apply to the initial value')
def enum_kw(ctx):
    a = ctx.text('a')
    v = ctx.any('v')
    ns = ctx.do('''
        el = Enum.named(u'k').using(child_type=String.using(strip=False))(V, valid_values=(A,))
    ''', A=a, V=v)
    value = ctx.attr(ns['el'], 'value')
    if ctx.is_none(value):
        ctx.check(not (ctx.kindset(v) == {'text'} and ctx.I.eq(v, a)), 'the permitted value was refused')
    else:
        ctx.check(ctx.I.eq(value, a), 'holds %s, not in valid_values' % ctx.show(value))


def unsigned(name, kinds):
    @check.ob('unsigned-' + name, [SC + 'Number.adapt'],
              'signed=False: the value is None or not negative; a non-negative number of the native type is stored')
    def ob(ctx):
        ns = ctx.do('K = %s.named(u"k").using(signed=False)' % name)
        v = ctx.sym('v', 'none', 'bool', 'int', 'float', 'text', 'bytes', 'decimal')
        el, r = assign(ctx, ns['K'], v)
        value = ctx.attr(el, 'value')
        if ctx.is_none(value):
            if kinds & ctx.kindset(v) and ctx.kindset(v) <= kinds:
                st, neg, e = ctx.catch(lambda: ctx.do('n = V < 0', V=v)['n'])
                ctx.check(st == 'raise' or ctx.truth(neg), 'a non-negative %s was refused' % name)
            return
        st, neg, e = ctx.catch(lambda: ctx.do('n = V < 0', V=value)['n'])
        ctx.check(st == 'raise' or not ctx.truth(neg), 'an unsigned %s holds a negative value' % name)


unsigned('Integer', {'int'})
unsigned('Long', {'int'})
unsigned('Float', {'float'})
unsigned('Decimal', {'decimal'})


@check.ob('signed', [SC + 'Number.adapt'], 'signed (default): negative numbers are stored')
def signed(ctx):
    ns = ctx.do('K = Integer.named(u"k")')
    v = ctx.int('v')
    el, r = assign(ctx, ns['K'], v)
    ctx.check(ctx.I.eq(ctx.attr(el, 'value'), v), 'an int was not stored as it is')


@check.ob('child-type', [SC + 'Constrained.__init__', SC + 'Constrained.adapt'], 'the child type in effect adapts the value: that of the class, of a derived class, or given to the constructor, whatever was created before')
def child_type(ctx):
    order = ctx.choose(('base', 'derived', 'given'), ('given', 'base', 'derived'), ('derived', 'given', 'base'))
    kind = ctx.choose('Constrained', 'Enum')
    ns = ctx.do('''
    if KIND == 'Constrained':
        K = Constrained.named(u'k').using(child_type=Integer, valid_value=lambda e, v: True)
    else:
        K = Enum.named(u'k').using(child_type=Integer).valued(1, u'1', True)
    D = K.using(child_type=String)
    make = {'base': lambda: K(u'1'), 'derived': lambda: D(u'1'), 'given': lambda: K(u'1', child_type=String)}
    els = [make[o]() for o in ORDER]
    r = [(e.value, e.u, e.set(u'x')) for e in els]
    ''', KIND=kind, ORDER=ctx.I.new_list(list(order)))
    for o, t in zip(order, ctx.items(ns['r'])):
        v, u, again = [ctx.R(x) for x in ctx.items(t)]
        want = 1 if o == 'base' else u'1'
        ctx.check(type(v) is type(want) and v == want and u == u'1', '%s with the child type %s holds %s' % (kind, o, ctx.show(v)))
        ctx.check(again is (o != 'base' and kind == 'Constrained'), '%s with the child type %s: set() of a word gives %s' % (kind, o, again))


@check.ob('none', [SC + 'Enum.valid_value', SC + 'Constrained.adapt'], 'None is accepted by an Enum or Constrained exactly if it counts as valid, by every route')
def none(ctx):
    ok = ctx.choose(True, False)
    kind = ctx.choose('Enum', 'Enum-int', 'Constrained')
    ns = ctx.do('''
        def valid(e, v):
            return ok if v is None else v == u'a'
        if kind == 'Constrained':
            K = Constrained.using(valid_value=valid)
        elif kind == 'Enum':
            K = Enum.valued(u'a', None) if ok else Enum.valued(u'a')
        else:
            K = (Enum.valued(1, None) if ok else Enum.valued(1)).using(child_type=Integer)
        el = K()
        r = el.set(None)
        el2 = K(None)
        el3 = K(u'a' if kind != 'Enum-int' else 1)
        r3 = el3.set(None)
    ''', ok=ok, kind=kind)
    for n in ('r', 'r3'):
        ctx.check(ctx.R(ns[n]) is ok, '%s: set(None), which is %s, gives %s' % (kind, 'valid' if ok else 'not valid', ctx.show(ns[n])))
    for n in ('el', 'el2', 'el3'):
        ctx.check(ctx.is_none(ctx.attr(ns[n], 'value')) and ctx.R(ctx.attr(ns[n], 'u')) == u'', 'after None the value is %s' % ctx.show(ctx.attr(ns[n], 'value')))
