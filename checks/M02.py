"""M02 — elements share no state with each other or with their class."""
from sa.oblig import Check
from . import M01

check = Check('M02', 'Working with one element never changes another element or its class')
B = 'flatland.schema.base:'
C = 'flatland.schema.containers:'
SRC = '''
    from flatland import *
    from flatland import DateYYYYMMDD, Properties
    def grumble(element, state):
        element.add_error(u'bad')
        element.add_warning(u'hm')
        return False
    S = String.named(u's').using(default=u'd', validators=[grumble])
    I = Integer.named(u'i').using(default=7)
    class P(Form):
        properties = Properties(a=1)
        s = S
        i = I
    K = {
        'String': S, 'Integer': I, 'Enum': Enum.named(u'e').valued(u'a', u'b'), 'Boolean': Boolean.named(u'b'),
        'List': List.named(u'l').of(S).using(default=2), 'Nested': List.named(u'l').of(Dict.named(u'm').of(S, List.named(u'k').of(I))).using(default=1),
        'Array': Array.named(u'l').of(S).using(default=[u'q']), 'MultiValue': MultiValue.named(u'l').of(S), 'JoinedString': JoinedString.named(u'j').of(String),
        'Dict': Dict.named(u'd').of(S, I, List.named(u'l').of(S)).validated_by(grumble), 'SparseDict': SparseDict.named(u'd').of(S, I),
        'Form': P, 'Date': DateYYYYMMDD.named(u'd'),
    }[CLS].with_properties(p=1)
    V = {
        'String': u'x', 'Integer': 3, 'Enum': u'a', 'Boolean': True, 'List': [u'x', u'y'], 'Nested': [{u's': u'x', u'k': [1, 2]}], 'Array': [u'x', u'y'],
        'MultiValue': [u'x', u'y'], 'JoinedString': u'x,y', 'Dict': {u's': u'x', u'i': 1, u'l': [u'z']}, 'SparseDict': {u's': u'x'}, 'Form': {u's': u'x', u'i': 2},
        'Date': u'2020-01-02',
    }[CLS]
    W = {
        'String': u'w', 'Integer': u'junk', 'Enum': u'b', 'Boolean': False, 'List': [u'w'], 'Nested': [{u's': u'w', u'k': []}, {}], 'Array': [], 'MultiValue': [u'w'],
        'JoinedString': u'w', 'Dict': {u's': u'w', u'i': 5, u'l': [u'y', u'y']}, 'SparseDict': {u'i': 4}, 'Form': {u's': u'w', u'i': u'junk'}, 'Date': u'junk',
    }[CLS]
    F = {
        'String': [(u's', u'f')], 'Integer': [(u'i', u'9')], 'Enum': [(u'e', u'b')], 'Boolean': [(u'b', u'1')], 'List': [(u'l_0_s', u'f')],
        'Nested': [(u'l_1_m_s', u'f'), (u'l_1_m_k_0_i', u'4')], 'Array': [(u'l_s', u'f')], 'MultiValue': [(u'l_s', u'f')], 'JoinedString': [(u'j', u'f')],
        'Dict': [(u'd_s', u'f'), (u'd_l_0_s', u'g')], 'SparseDict': [(u'd_i', u'1')], 'Form': [(u's', u'f')], 'Date': [(u'd_year', u'3')],
    }[CLS]
    def mk():
        e = K()
        e.set(V)
        return e
    if CLASSES == 'same':
        e, o = mk(), mk()
    elif CLASSES == 'sub':
        o = mk()
        K2 = K
        K = K.using(optional=True)
        e = mk()
        K = K2
    else:
        o = mk()
        e = K.from_defaults()
'''
OPS = {
    'set': 'e.set(W)', 'set-same': 'e.set(V)', 'set_flat': 'e.set_flat(F)', 'set_default': 'e.set_default()', 'validate': 'e.validate()',
    'validate-flat': 'e.validate(recurse=False)', 'errors': "e.add_error(u'x'); e.add_warning(u'y')", 'errors-list': "e.errors.append(u'x'); e.warnings.append(u'y')",
    'all_valid': 'e.all_valid = False', 'valid': 'e.valid = False', 'name': "e.name = u'zz'", 'label': "e.label = u'L'", 'optional': 'e.optional = True',
    'validators': 'e.validators = []', 'properties': "e.properties[u'p'] = 2; e.properties[u'q'] = 3", 'properties-del': "del e.properties[u'p']",
    'properties-clear': 'e.properties.clear()', 'properties-all': 'e.properties = {}', 'parent': 'e.parent = K()', 'default': 'e.default = None',
    'new': 'n = K(); n.set(W); n.validate()', 'new-kw': "n = K(name=u'zz', optional=True)", 'new-validators': 'n = K(validators=(grumble,)); n.validators.append(grumble)', 'from_flat': 'n = K.from_flat(F); n.validate()',
    'from_defaults': 'n = K.from_defaults(); n.validate()', 'flatten': 'e.flatten(); e.u; e.value', 'eq': 'e == o; e != o',
    # sequences
    'append': 'e.append(e.member_schema())', 'append-errors': "e[0].add_error(u'x')", 'pop': 'e.pop()', 'clear': 'del e[:]', 'reverse': 'e.reverse()', 'member-set': 'e[0].set(None)', 'extend': 'e.extend(list(e))',
    # mappings
    'field': "e[u'i'] = 8", 'field-error': "e[u's'].add_error(u'x'); e[u's'].valid = False", 'update': "e.update({u'i': 6})", 'field-name': "e[u's'].name = u'zz'",
}
SEQ = ('append', 'append-errors', 'pop', 'clear', 'reverse', 'member-set', 'extend')
MAP = ('field', 'field-error', 'update', 'field-name')


def snap(ctx, el, seen, root=True):
    """Every attribute and member of an element, its class apart."""
    if id(el) in seen:
        return ('seen',)
    seen.add(id(el))
    out = [('is', el)]
    for k, v in sorted(el.attrs.items()):
        v = ctx.R(v)
        if k == 'parent':
            out.append((k, v))
            continue
        if k == 'properties':
            continue
        out.append((k, value(ctx, v, seen)))
    p = getattr(el, 'p', None)
    if isinstance(p, list):
        out.append(('members', tuple(value(ctx, ctx.R(i), seen) for i in p)))
    elif hasattr(p, 'items'):
        out.append(('fields', tuple((ctx.R(k), value(ctx, ctx.R(v), seen)) for k, v in p.items())))
    if ctx.truth(ctx.I.isinstance(el, ctx.get('flatland:Element'))):
        props = ctx.m(ctx.attr(el, 'properties'), 'copy').p.items()
        out.append(('properties', tuple(sorted((ctx.R(k), repr(ctx.R(v))) for k, v in props))))
    return tuple(out)


def value(ctx, v, seen):
    v = ctx.R(v)
    E = ctx.get('flatland:Element')
    S = ctx.get(B + 'Slot')
    if hasattr(v, 'cls') and hasattr(v, 'attrs') and (ctx.truth(ctx.I.isinstance(v, E)) or ctx.truth(ctx.I.isinstance(v, S))):
        return snap(ctx, v, seen, False)
    p = getattr(v, 'p', None)
    if isinstance(p, list):
        return ('list', v, tuple(value(ctx, i, seen) for i in p))
    if hasattr(p, 'items'):
        return ('dict', v, tuple((ctx.R(k), value(ctx, x, seen)) for k, x in p.items()))
    return v


def diff(a, b, path=''):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return path or 'its contents'
        for x, y in zip(a, b):
            name = path
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                name = path + ('.' if path else '') + x[0]
            d = diff(x, y, name)
            if d:
                return d
        return None
    return None if a is b or (type(a) is type(b) and not hasattr(a, 'cls') and a == b) else (path or 'identity')


CLS = ('String', 'Integer', 'Enum', 'Boolean', 'List', 'Nested', 'Array', 'MultiValue', 'JoinedString', 'Dict', 'SparseDict', 'Form', 'Date')


def make(cls):
    @check.ob('isolated-' + cls, [B + 'Element.__init__', B + 'Element.set_flat', C + 'Mapping._reset', C + 'List._new_slot'],
              'after every operation on an element, or creating another, every attribute, member, error list and property of a second element, and the class, are as before')
    def isolated(ctx):
        ops = sorted(o for o in OPS if (o not in SEQ or cls in ('List', 'Nested', 'Array', 'MultiValue', 'JoinedString')) and (o not in MAP or cls in ('Dict', 'SparseDict', 'Form')))
        op = ctx.choose(*ops)
        ns = ctx.do(SRC, CLS=cls, CLASSES=ctx.choose('same', 'sub', 'defaults'))
        o, K = ctx.R(ns['o']), ctx.R(ns['K'])
        before, cbefore = snap(ctx, o, set()), M01.attrs(ctx, K)
        env = dict((k, ns[k]) for k in 'KVWFeo')
        env['grumble'] = ns['grumble']
        st, r, x = ctx.catch(lambda: ctx.do('''
    %s
''' % OPS[op], **env))
        ctx.check(st == 'ok' or r in ('IndexError', 'KeyError', 'TypeError'), '%s on %s raises %s' % (op, cls, r))
        after = snap(ctx, o, set())
        d = diff(before, after)
        ctx.check(d is None, '%s on one %s changes %s of another' % (op, cls, d))
        d = M01.changed(ctx, cbefore, M01.attrs(ctx, K))
        ctx.check(d is None, '%s on a %s element changes %s of its class' % (op, cls, d))


for c in CLS:
    make(c)


@check.ob('given-validators', [B + 'Element.__init__'], 'validators given to the constructor are the element\'s own: changing them touches neither the list given, nor another element given the same, nor the class')
def given(ctx):
    cls = ctx.choose('String', 'Integer', 'Enum', 'List.of(String)', 'Array.of(String)', 'Dict.of(String.named(u"s"))', 'SparseDict.of(String.named(u"s"))', 'JoinedString')
    v = ctx.choose('[]', '[f]', '(f,)', '()')
    ns = ctx.do('''
    def f(e, s):
        return True
    K = %s.validated_by(f)
    v = %s
    before = list(v)
    one, two, three = K(validators=v), K(validators=v), K()
    w = list(one.validators)
    one.validators = one.validators
    try:
        one.validators.append(f)
    except AttributeError:
        pass
    r = (list(v) == before, list(two.validators) == before, list(K.validators) == [f], list(three.validators) == [f], w == before)
    ''' % (cls, v))
    for ok, what in zip(ctx.items(ns['r']), ('the list given', 'another element given the same validators', 'the class', 'another element', 'what was given')):
        ctx.check(ctx.truth(ok), 'changing the validators of a %s given %s changes %s' % (cls, v, what))
