"""V09 — overriding attributes."""
from sa.oblig import Check

check = Check('V09', 'Overrides replace existing attributes and refuse unknown names')
B = 'flatland.schema.base:'
C = 'flatland.schema.containers:'
V = 'flatland.validation.base:'
PRE = '''
    from flatland.validation import *
    from flatland.validation.scalars import *
    from flatland.validation.network import *
    from flatland.validation.containers import *
    from flatland.validation.string import *
    from flatland.validation.number import *
    class Base(Validator):
        known = u'old'
        other = u'other'
    class Sub(Base):
        extra = None
'''


@check.ob('validator', [V + 'Validator.__init__'],
          'Validator(**kw) sets each override on the instance only; an unknown name raises TypeError')
def validator(ctx):
    ns = ctx.do(PRE)
    cls = ns[ctx.choose('Base', 'Sub')]
    v = ctx.any('v')
    name = ctx.choose('known', 'other', 'extra', 'unknown', 'knowm')
    ok = name in ('known', 'other') or (name == 'extra' and cls is ns['Sub'])
    more = ctx.choose(False, True)
    kw = {name: v}
    if more:
        kw['other'] = u'set'
    if more and name == 'other':
        return
    st, r, e = ctx.catch(lambda: ctx.call(cls, **kw))
    ctx.check((st == 'ok') is ok, '%s(%s=...) gives %s' % (cls.name, name, st if st == 'ok' else r))
    if not ok:
        ctx.check(r == 'TypeError', 'an unknown name raises %s' % r)
    else:
        ctx.check(ctx.same(ctx.attr(r, name), v), 'the override is not stored')
        if more:
            ctx.check(ctx.attr(r, 'other') == u'set', 'the second override is not stored')
    ctx.check(ctx.attr(ns['Base'], 'known') == u'old' and ctx.attr(ns['Base'], 'other') == u'other', 'the class is changed')
    fresh = ctx.call(ns['Sub'])
    ctx.check(ctx.attr(fresh, 'known') == u'old' and ctx.attr(fresh, 'other') == u'other' and ctx.attr(fresh, 'extra') is None,
              'other validators are changed')


# validators with constructors of their own must still take overrides and refuse unknown names
OWN = [('ValueIn', ''), ('ShorterThan', '5'), ('LongerThan', '5'), ('LengthBetween', '1, 5'), ('ValueLessThan', 'boundary=5'),
       ('ValueAtMost', 'maximum=5'), ('ValueGreaterThan', 'boundary=5'), ('ValueAtLeast', 'minimum=5'), ('ValueBetween', 'minimum=1, maximum=5'),
       ('ValuesEqual', 'u"a", u"b"'), ('UnisEqual', 'u"a", u"b"'), ('MapEqual', 'u"a", u"b"'), ('HasAtLeast', ''), ('HasAtMost', ''),
       ('HasBetween', 'minimum=1, maximum=2'), ('NotDuplicated', ''), ('NANPphone', ''), ('NANPnpa_nxx', 'u"a", u"b"'), ('IsEmail', ''),
       ('URLValidator', ''), ('HTTPURLValidator', ''), ('URLCanonicalizer', ''), ('Luhn10', ''), ('Present', ''), ('IsTrue', ''),
       ('IsFalse', ''), ('Converted', '')]
KEY = {'ValueIn': 'fail', 'ShorterThan': 'exceeded', 'LongerThan': 'short', 'LengthBetween': 'breached', 'ValueBetween': 'failure_inclusive',
       'ValuesEqual': 'unequal', 'UnisEqual': 'unequal', 'MapEqual': 'unequal', 'HasBetween': 'range', 'NANPphone': 'invalid',
       'NANPnpa_nxx': 'invalid', 'IsEmail': 'invalid', 'URLValidator': 'bad_format', 'HTTPURLValidator': 'bad_format',
       'URLCanonicalizer': 'bad_format', 'Luhn10': 'invalid', 'Present': 'missing', 'IsTrue': 'false', 'IsFalse': 'true', 'Converted': 'incorrect'}


@check.ob('shipped', [V + 'Validator.__init__'], 'every shipped validator takes a message override and refuses an unknown name')
def shipped(ctx):
    name, args = ctx.choose(*OWN)
    key = KEY.get(name, 'failure')
    v = ctx.text('message', True)
    ns = ctx.do(PRE + '\n    v = %s(%s)\n    w = %s(%s)' % (name, ', '.join(x for x in (args, '%s=M' % key) if x), name, args), M=v)
    ctx.check(ctx.same(ctx.attr(ns['v'], key), v), '%s ignores the %s override' % (name, key))
    ctx.check(not ctx.same(ctx.attr(ns['w'], key), v), '%s stores the override on the class' % name)
    st, r, e = ctx.catch(lambda: ctx.do(PRE + '\n    v = %s(%s)' % (name, ', '.join(x for x in (args, 'no_such_attribute=M') if x)), M=v))
    ctx.check(st == 'raise' and r == 'TypeError', '%s accepts an unknown name: %s' % (name, r))


@check.ob('init', [B + 'Element.__init__'],
          'keyword arguments of an element set existing attributes on the instance only, unknown names raise TypeError')
def init(ctx):
    cls = ctx.choose('String', 'Integer', 'List', 'Array', 'Dict', 'SparseDict', 'Enum', 'DateTime', 'MultiValue', 'JoinedString')
    ns = ctx.do('''
        S = {'Dict': Dict.of(String.named(u'a')), 'SparseDict': SparseDict.of(String.named(u'a')), 'List': List.of(String),
             'Array': Array.of(String), 'MultiValue': MultiValue.of(String), 'JoinedString': JoinedString,
             'String': String, 'Integer': Integer, 'Enum': Enum, 'DateTime': DateTime}[name]
    ''', name=cls)
    attr, v = ctx.choose(('label', ctx.text('lab')), ('optional', True), ('validators', ()), ('name', u'nm'), ('default', None),
                         ('bogus', 1), ('optionl', True))
    before = ctx.R(ctx.attr(ns['S'], attr)) if attr not in ('bogus', 'optionl', 'label') else None
    st, r, e = ctx.catch(lambda: ctx.call(ns['S'], **{attr: v}))
    if attr in ('bogus', 'optionl'):
        ctx.check(st == 'raise' and r == 'TypeError', '%s(%s=...) gives %s' % (cls, attr, r))
        return
    ctx.check(st == 'ok', '%s(%s=...) raises %s' % (cls, attr, r))
    got = ctx.attr(r, attr)
    if attr == 'validators':
        ctx.check(not ctx.items(got), 'validators not stored')
    else:
        ctx.check(ctx.same(got, v), '%s is %s' % (attr, ctx.show(got)))
    if attr != 'label':
        ctx.check(ctx.same(ctx.attr(ns['S'], attr), before) or ctx.attr(ns['S'], attr) is before, 'the class changes')
    other = ctx.call(ns['S'])
    if attr == 'label':
        ctx.check(not ctx.same(ctx.attr(other, attr), v), 'other elements change')


@check.ob('parent', [B + 'Element.__init__'], 'parent= sets the parent of the new element')
def parent(ctx):
    ns = ctx.do('''
        p = Dict.of(String.named(u'a'))()
        e = String(parent=p)
        f = String(u'x', parent=p)
        g = String()
    ''')
    ctx.check(ctx.attr(ns['e'], 'parent') is ctx.R(ns['p']) and ctx.attr(ns['f'], 'parent') is ctx.R(ns['p']), 'parent is not stored')
    ctx.check(ctx.attr(ns['g'], 'parent') is None, 'a parent out of nowhere')


@check.ob('using', [B + 'Element.using'],
          'using() gives a new class with the overrides; unknown names raise TypeError; the original never changes')
def using(ctx):
    cls = ctx.choose('String', 'Integer', 'List', 'Array', 'Dict', 'SparseDict', 'Enum', 'Compound', 'DateYYYYMMDD', 'JoinedString', 'Form', 'Date')
    S = ctx.get('flatland.schema:' + cls)
    attr, v = ctx.choose(('optional', True), ('validators', ()), ('name', u'nm'), ('default', u'dd'), ('bogus', 1), ('optionl', True), ('default_factory', 1))
    call = attr == 'default' and ctx.choose(True, False)
    if call:
        v = ctx.fn('default', lambda *a: u'x')
    before = ctx.R(ctx.attr(S, attr)) if attr in ('optional', 'validators', 'name', 'default') else None
    st, r, e = ctx.catch(lambda: ctx.I.call(ctx.I.getattr(S, 'using'), [], {attr: v}))
    if attr in ('bogus', 'optionl'):
        ctx.check(st == 'raise' and r == 'TypeError', '%s.using(%s=...) gives %s' % (cls, attr, r))
        return
    ctx.check(st == 'ok' or (r == 'TypeError' and attr == 'default_factory'), '%s.using(%s=...) raises %s' % (cls, attr, r))
    if attr == 'default_factory':
        return
    ctx.check(ctx.R(r) is not ctx.R(S), 'using() returns the same class')
    ctx.check(any(c is ctx.R(S) for c in ctx.R(r).mro), 'the new class does not derive from the original')
    got = ctx.attr(r, attr)
    if attr == 'validators':
        ctx.check(not ctx.items(got), 'validators not stored')
    else:
        ctx.check(ctx.same(got, v) or ctx.R(got) is ctx.R(v), '%s is %s' % (attr, ctx.show(got)))
    now = ctx.R(ctx.attr(S, attr))
    ctx.check(now is before or ctx.same(now, before), 'the original class changes')


@check.ob('type-as-validator', [B + 'Element.validated_by', C + 'Container.descent_validated_by'], 'validated_by() and descent_validated_by() refuse a validator class and keep what they are given otherwise')
def types(ctx):
    bad = ctx.choose(True, False)
    ns = ctx.do(PRE + '''
    a = Present()
    b = ValueIn(valid_options=(1,))
    ''')
    args = [ns['a'], ns['b']]
    if bad:
        what = ctx.choose('shipped', 'derived', 'other', 'metaclass')
        args.insert(ctx.choose(0, 1, 2), ctx.get('flatland.validation.scalars:Present') if what == 'shipped' else ctx.do('''
        from flatland.validation import Present
        class Derived(Present):
            pass
        class Other(object):
            def __call__(self, element, state):
                return True
        class Meta(type):
            pass
        Made = Meta('Made', (Present,), {})
        r = dict(derived=Derived, other=Other, metaclass=Made)[WHAT]
        ''', WHAT=ctx.do('r = %r' % what)['r'])['r'])
    cls, by, where = ctx.choose(('String', 'validated_by', 'validators'), ('List', 'validated_by', 'validators'),
                                ('List', 'descent_validated_by', 'descent_validators'), ('Dict', 'descent_validated_by', 'descent_validators'))
    st, r, e = ctx.catch(lambda: ctx.m(ctx.get('flatland.schema:' + cls), by, *args))
    ctx.check((st == 'raise') is bad, '%s with %s gives %s' % (by, 'a class' if bad else 'instances', st))
    if bad:
        ctx.check(r == 'TypeError', 'raises %s' % r)
        return
    ctx.check([ctx.R(x) for x in ctx.items(ctx.attr(r, where))] == [ctx.R(x) for x in args], 'validators are not those given')


@check.ob('including', [B + 'Element.including_validators', C + 'Container.including_descent_validators'],
          'including_validators() and including_descent_validators() put the new ones at the given position of the '
          'existing ones, in order')
def including(ctx):
    cls, by, inc, where = ctx.choose(
        ('String', 'validated_by', 'including_validators', 'validators'),
        ('Dict', 'validated_by', 'including_validators', 'validators'),
        ('List', 'descent_validated_by', 'including_descent_validators', 'descent_validators'),
        ('Dict', 'descent_validated_by', 'including_descent_validators', 'descent_validators'),
        ('Array', 'descent_validated_by', 'including_descent_validators', 'descent_validators'))
    names = [u'a', u'b', u'c', u'x', u'y']
    fs = dict((n, ctx.fn(str(n), lambda e, s: True)) for n in names)
    k = ctx.choose(0, 1, 2, 3)
    old = [fs[n] for n in names[:k]]
    new = [fs[u'x'], fs[u'y']][:ctx.choose(1, 2)]
    S = ctx.m(ctx.get('flatland.schema:' + cls), by, *old)
    pos = ctx.choose(None, -1, -2, 0, 1, 2, 5)
    kw = {} if pos is None else {'position': pos}
    r = ctx.m(S, inc, *new, **kw)
    got = [ctx.R(x) for x in ctx.items(ctx.attr(r, where))]
    p = -1 if pos is None else pos
    at = k + 1 + p if p < 0 else p
    want = list(old)
    want[at:at] = new
    ctx.check(got == want, 'position %s among %d gives %s' % (pos, k, [x.name for x in got]))
    for a in ('validators', 'descent_validators'):
        if a != where and cls != 'String':
            ctx.check(ctx.R(ctx.attr(r, a)) is ctx.R(ctx.attr(S, a)), '%s() changes %s' % (inc, a))
    ctx.check([ctx.R(x) for x in ctx.items(ctx.attr(S, where))] == old, 'the original class changes')
    st, r, e = ctx.catch(lambda: ctx.m(S, inc, *new, place=1))
    ctx.check(st == 'raise' and r == 'TypeError', 'an unknown argument is accepted')


@check.ob('conveniences', [B + 'Element.from_flat', B + 'Element.from_defaults', C + 'Dict.from_object'],
          'from_flat(), from_defaults() and from_object() give their keyword arguments to the constructor, before setting anything: they take effect, and unknown names raise TypeError')
def conveniences(ctx):
    how, cls = ctx.choose(('from_flat', 'String'), ('from_flat', 'List'), ('from_flat', 'Dict'), ('from_flat', 'Array'), ('from_defaults', 'String'), ('from_defaults', 'List'),
                          ('from_defaults', 'Dict'), ('from_defaults', 'SparseDict'), ('from_object', 'Dict'), ('from_object', 'SparseDict'), ('from_object', 'Form'))
    kw = ctx.choose('name', 'bogus', 'optional', 'validators', 'default', 'parent', 'label', 'policy', 'field_schema')
    if kw in ('policy', 'field_schema') and cls not in ('Dict', 'SparseDict', 'Form') or kw == 'field_schema' and how != 'from_object' or kw == 'policy' and how != 'from_object':
        return
    v = {'name': u'nm', 'bogus': 1, 'optional': True, 'validators': (), 'default': u'dv', 'parent': None, 'label': u'lb', 'policy': 'strict', 'field_schema': None}[kw]
    ns = ctx.do('''
        K = {'String': String.named(u'z'), 'List': List.named(u'z').of(String), 'Array': Array.named(u'z').of(String)}.get(cls) or (
            {'Dict': Dict, 'SparseDict': SparseDict, 'Form': Form}[cls].named(u'z').of(String.named(u'a'), String.named(u'b')))
        class O(object):
            a = u'A'
            c = u'C'
        if kw == 'parent':
            v = Dict.of(String.named(u'p'))()
        elif kw == 'default':
            v = {u'a': u'dv'} if cls in ('Dict', 'SparseDict', 'Form') else [u'dv'] if cls != 'String' else u'dv'
        elif kw == 'field_schema':
            v = (String.named(u'c'),)
        args = []
        if how == 'from_flat':
            args = [[(u'nm', u'1'), (u'nm_0', u'2'), (u'nm_a', u'3'), (u'z', u'4'), (u'z_0', u'5'), (u'z_a', u'6')]]
        elif how == 'from_object':
            args = [O()]
    ''', how=how, cls=cls, kw=kw, v=v)
    st, r, e = ctx.catch(lambda: ctx.m(ns['K'], how, *ctx.items(ns['args']), **{kw: ns.get('v', v)}) if kw != 'name' else ctx.do('r = getattr(K, how)(*args, name=u"nm")', K=ns['K'], how=how, args=ns['args'])['r'])
    if kw == 'bogus' or kw == 'policy':
        ctx.check(st == 'raise' and r == 'TypeError', '%s.%s(%s=...): %s' % (cls, how, kw, r if st == 'raise' else 'is accepted'))
        return
    ctx.check(st == 'ok', '%s.%s(%s=...) raises %s' % (cls, how, kw, r))
    vals = ctx.do('''
        e2 = K(**kwargs)
        if how == 'from_flat':
            e2.set_flat(*args)
        elif how == 'from_object':
            e2.set_by_object(*args)
        else:
            e2.set_default()
        same = r.value == e2.value and r.u == e2.u and r.name == e2.name and r.parent is e2.parent and r.label == e2.label and r.optional == e2.optional
        some = kw not in ('name', 'default') or how == 'from_defaults' and kw == 'name' or r.value not in (None, [], {})
    ''', K=ns['K'], r=r, how=how, args=ns['args'], kw=kw, kwargs=ctx.I.new_dict([(kw, ns.get('v', v))]))
    ctx.check(ctx.truth(vals['same']), '%s.%s(%s=...) differs from constructing with it and then setting' % (cls, how, kw))


@check.ob('bounds', ['flatland.validation.containers:HasBetween.__init__'],
          'HasBetween refuses with TypeError every pair of bounds but 0 <= minimum <= maximum, wherever they are set')
def bounds(ctx):
    lo, hi = ctx.choose(-2, -1, 0, 1, 2, 3), ctx.choose(-1, 0, 1, 2, 3)
    how = ctx.choose('HasBetween(minimum=%d, maximum=%d)' % (lo, hi), 'K()', 'L(minimum=%d)' % lo, 'H(maximum=%d)' % hi)
    st, r, e = ctx.catch(lambda: ctx.do(PRE + '''
    class K(HasBetween):
        minimum = LO
        maximum = HI
    class L(HasBetween):
        maximum = HI
    class H(HasBetween):
        minimum = LO
    v = %s
    ''' % how, LO=lo, HI=hi))
    ok = 0 <= lo <= hi
    ctx.check((st == 'ok') is ok, '%s for %d, %d: %s' % (how, lo, hi, st))
    if ok:
        ctx.check((ctx.attr(r['v'], 'minimum'), ctx.attr(r['v'], 'maximum')) == (lo, hi), 'the bounds are not those given')
    else:
        ctx.check(r == 'TypeError', 'raises %s' % r)
