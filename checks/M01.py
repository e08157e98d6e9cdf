"""M01 — deriving a schema class never changes the class it derives from."""
from sa.oblig import Check

check = Check('M01', 'Configuring a schema derives a new class and never touches the original')
B = 'flatland.schema.base:'
CLS = ('String', 'Integer', 'Boolean', 'Date', 'Enum', 'Ref', 'Constrained', 'List', 'Array', 'MultiValue', 'Dict', 'SparseDict', 'Form', 'DateYYYYMMDD', 'JoinedString', 'Compound')
SRC = '''
    import flatland
    from flatland import *
    from flatland.schema.compound import Compound
    base = getattr(flatland, CLS, None) or Compound
    def v1(element, state): return True
    def v2(element, state): return True
    def v3(element, state): return True
    class K(base):
        validators = [v1]
        default = u'x'
        properties = flatland.Properties({u'p': 1})
    if issubclass(K, flatland.schema.containers.Sequence) and CLS != 'JoinedString':
        K.member_schema = String
    elif issubclass(K, flatland.schema.containers.Mapping) and CLS != 'DateYYYYMMDD':
        K.field_schema = [String.named(u'a'), Integer.named(u'b')]
    if issubclass(K, flatland.schema.containers.Container):
        K.descent_validators = [v1]
    if CLS == 'Enum':
        K.valid_values = (u'a', u'b')
'''


def attrs(ctx, cls):
    out = []
    for c in cls.mro:
        if c.builtin:
            continue
        for k, v in c.attrs.items():
            v = ctx.R(v)
            if k == '_compound_prepared':
                continue
            deep = None
            p = getattr(v, 'p', None)
            if isinstance(p, list):
                deep = [ctx.R(i) for i in p]
            elif hasattr(p, 'items'):
                deep = [(ctx.R(a), ctx.R(b)) for a, b in p.items()]
            out.append((c, k, v, deep))
    props = sorted((ctx.R(k), ctx.R(v)) for k, v in ctx.m(ctx.attr(cls, 'properties'), 'copy').p.items())
    return out, props


def changed(ctx, before, after):
    if len(before[0]) != len(after[0]):
        names = set((c, k) for c, k, v, d in after[0]) ^ set((c, k) for c, k, v, d in before[0])
        return ', '.join(sorted('%s.%s' % (c.name, k) for c, k in names)) or 'an attribute'
    for a, b in zip(before[0], after[0]):
        if a[0] is not b[0] or a[1] != b[1] or a[2] is not b[2] and not ctx.same(a[2], b[2]):
            return '%s.%s' % (a[0].name, a[1])
        if a[3] is not None and (len(a[3]) != len(b[3]) or any(x is not y and x != y for x, y in zip(a[3], b[3]))):
            return 'the contents of %s.%s' % (a[0].name, a[1])
    if before[1] != after[1]:
        return 'properties'
    return None


OPS = {
    'named': "N = K.named(u'n')", 'named-bytes': "N = K.named(str('n'))", 'unnamed': "N = K.named(None)",
    'using': "N = K.using(optional=True, default=u'y')", 'using-validators': "N = K.using(validators=L); L.append(v3)",
    'using-properties': "N = K.using(properties={u'q': 2})",
    'validated_by': "N = K.validated_by(v2, v3)", 'validated_by-none': "N = K.validated_by()",
    'including': "N = K.including_validators(v2)", 'including-first': "N = K.including_validators(v2, v3, position=0)",
    'with_properties': "N = K.with_properties(p=3, q=4)", 'with_properties-map': "N = K.with_properties({u'p': 3}, q=4)",
    'descent_validated_by': "N = K.descent_validated_by(v2)", 'including-descent': "N = K.including_descent_validators(v2, position=0)",
    'of': "N = K.of(Integer)", 'of-many': "N = K.of(Integer.named(u'i'), String.named(u's'))",
    'valued': "N = K.valued(u'z')", 'to': "N = K.to(u'a.b')", 'label': "N = K.named(u'n'); N.label = u'L'",
    'append-included': "N = K.including_validators(v2); N.validators.append(v3)", 'append-by': "N = K.validated_by(v2); N.validators.append(v3)",
    'property-set': "N = K.named(u'n'); N.properties[u'p'] = 9; N.properties[u'z'] = 1", 'property-del': "N = K.named(u'n'); N.properties.pop(u'p', None)",
    'property-clear': "N = K.named(u'n'); N.properties.clear()",
    'instance': "N = K.named(u'n'); e = N(); e.properties[u'p'] = 5; e.validators = []; e.optional = True; e.name = u'zz'",
    'subclass': "class N(K):\n        optional = True\n        default = u'z'",
}
APPLIES = {'descent_validated_by': ('List', 'Array', 'MultiValue', 'Dict', 'SparseDict', 'Form', 'DateYYYYMMDD', 'JoinedString'),
           'including-descent': ('List', 'Array', 'MultiValue', 'Dict', 'SparseDict', 'Form', 'DateYYYYMMDD', 'JoinedString'),
           'of': ('List', 'Array', 'MultiValue', 'Dict', 'SparseDict', 'Form', 'JoinedString'),
           'of-many': ('List', 'Array', 'MultiValue', 'Dict', 'SparseDict', 'Form'),
           'valued': ('Enum',), 'to': ('Ref',)}
NOT = {'instance': ('Compound', 'Ref')}


def make(cls):
    @check.ob('derive-' + cls, [B + 'Element.named', B + 'Element.using', B + 'Element.validated_by', B + 'Element.including_validators', B + 'Element.with_properties', 'flatland.util.base:class_cloner'],
              'after every way of deriving, twice in a row: no attribute of the original or its bases, no list or mapping it holds and no property changed; '
              'the result is a new direct subclass, and earlier results are not changed by later ones')
    def derive(ctx):
        ops = sorted(o for o in OPS if (o not in APPLIES or cls in APPLIES[o]) and not (cls in NOT.get(o, ())))
        op = ctx.choose(*ops)
        ns = ctx.do(SRC, CLS=cls)
        K = ctx.R(ns['K'])
        before = attrs(ctx, K)
        env = dict((k, ns[k]) for k in ('K', 'v1', 'v2', 'v3'))
        env['L'] = ctx.I.new_list([ns['v2']])
        src = '''
    import flatland
    from flatland import *
    %s
''' % OPS[op]
        N = ctx.R(ctx.do(src, **env)['N'])
        what = changed(ctx, before, attrs(ctx, K))
        ctx.check(what is None, '%s of %s changes %s of the original' % (op, cls, what))
        ctx.check(N is not K and N.bases[0] is K, '%s of %s does not give a new subclass' % (op, cls))
        if op == 'using-validators':
            ctx.check([ctx.R(i) for i in ctx.items(ctx.attr(N, 'validators'))] == [ctx.R(ns['v2'])], 'using() keeps the very list of validators it was given')
        nbefore = attrs(ctx, N)
        for op2 in ops:
            env['K'] = N
            env['L'] = ctx.I.new_list([ns['v2']])
            M = ctx.R(ctx.do('''
    import flatland
    from flatland import *
    %s
''' % OPS[op2], **env)['N'])
            ctx.check(M is not N and M.bases[0] is N, '%s after %s does not give a new subclass' % (op2, op))
            what = changed(ctx, nbefore, attrs(ctx, N))
            ctx.check(what is None, '%s after %s of %s changes %s of the first result' % (op2, op, cls, what))
        what = changed(ctx, before, attrs(ctx, K))
        ctx.check(what is None, '%s and more of %s changes %s of the original' % (op, cls, what))


for c in CLS:
    make(c)


@check.ob('instances', ['flatland.util.base:class_cloner'],
          'elements offer none of the deriving methods; an attribute of such a name can be set on and removed from the element alone')
def instances(ctx):
    cls = ctx.choose('String', 'Enum', 'List', 'Dict', 'Ref')
    ns = ctx.do('''
        import flatland
        from flatland import *
        K = getattr(flatland, CLS)
        if CLS == 'Dict':
            K = K.of(String.named(u'a'))
        elif CLS == 'List':
            K = K.of(String)
        e = K()
        o = K()
    ''', CLS=cls)
    name = ctx.choose('named', 'using', 'validated_by', 'including_validators', 'with_properties', 'of', 'valued', 'to')
    if ctx.R(ns['K']).lookup(name)[0] is None:
        return
    st, r, x = ctx.catch(lambda: ctx.attr(ns['e'], name))
    ctx.check(st == 'raise' and r == 'AttributeError', 'an element of %s has .%s' % (cls, name))
    ctx.put(ns['e'], '__dummy__', 1)
    ctx.I.setattr(ns['e'], name, 5)
    ctx.check(ctx.attr(ns['e'], name) == 5, 'assigning .%s to an element is lost' % name)
    st, r, x = ctx.catch(lambda: ctx.attr(ns['o'], name))
    ctx.check(st == 'raise' and r == 'AttributeError', 'assigning .%s to one element gives it to another' % name)
    st, r, x = ctx.catch(lambda: ctx.attr(ns['K'], name))
    ctx.check(st == 'ok', '.%s is gone from the class' % name)


EXPECT = {
    'named': {'name': "u'n'"}, 'named-bytes': {'name': "u'n'"}, 'unnamed': {'name': 'None'}, 'using': {'optional': 'True', 'default': "u'y'"}, 'using-validators': {'validators': '[v2]'},
    'using-properties': {'properties': "{u'q': 2}"}, 'validated_by': {'validators': '[v2, v3]'}, 'validated_by-none': {'validators': '[]'}, 'including': {'validators': '[v1, v2]'},
    'including-first': {'validators': '[v2, v3, v1]'}, 'with_properties': {'properties': "{u'p': 3, u'q': 4}"}, 'with_properties-map': {'properties': "{u'p': 3, u'q': 4}"},
    'descent_validated_by': {'descent_validators': '[v2]'}, 'including-descent': {'descent_validators': '[v2, v1]'}, 'valued': {'valid_values': "(u'z',)"}, 'to': {'target_path': "K.to(u'a.b').target_path"},
    'label': {'name': "u'n'", 'label': "u'L'"}, 'of': {}, 'of-many': {},
    'named-odd': {'name': "u'5'"}, 'named-zero': {'name': "u'0'"}, 'named-false': {'name': "u'False'"}, 'named-blank': {'name': "u''"}, 'named-blank-bytes': {'name': "u''"}, 'named-none-text': {'name': "u'None'"}, 'using-name': {'name': "u'q'", 'label': "u'q'"}, 'using-nothing': {}, 'using-factory': {'default_factory': 'v2'}, 'using-none': {'default': 'None'},
    'with-nothing': {}, 'including-second': {'validators': '[v1, v2]'}, 'including-nothing': {}, 'property-set': {'name': "u'n'", 'properties': "{u'p': 9, u'z': 1}"}, 'property-del': {'name': "u'n'", 'properties': '{}'},
    'property-clear': {'name': "u'n'", 'properties': '{}'},
}
MORE = {
    'named-odd': 'N = K.named(5)', 'named-zero': 'N = K.named(0)', 'named-false': 'N = K.named(False)', 'named-blank': "N = K.named(u'')", 'named-blank-bytes': "N = K.named(str(''))", 'named-none-text': "N = K.named(u'None')", 'using-name': "N = K.using(name=u'q')", 'using-nothing': 'N = K.using()', 'using-factory': 'N = K.using(default_factory=v2)',
    'using-none': 'N = K.using(default=None)', 'with-nothing': 'N = K.with_properties()', 'including-second': 'N = K.including_validators(v2, position=1)', 'including-nothing': 'N = K.including_validators()',
}
WATCH = ('name', 'label', 'optional', 'default', 'default_factory', 'validators', 'descent_validators', 'properties', 'ugettext', 'member_schema', 'field_schema', 'valid_values', 'child_type', 'target_path', 'strip',
         'signed', 'format', 'prune_empty', 'maximum_set_flat_members', 'separator', 'policy', 'minimum_fields', 'writable', 'sep', 'true', 'false', 'flattenable', 'children_flattenable', '__doc__', '__name__')


def conf(cls):
    @check.ob('configured-' + cls, [B + 'Element.named', B + 'Element.using', B + 'Element.validated_by', B + 'Element.including_validators', B + 'Element.with_properties', 'flatland.schema.containers:Sequence.of', 'flatland.schema.containers:Dict.of'],
              'the derived class, and elements of it, have what was configured, text names included, and everything else of the class it derives from, which is what the original had')
    def configured(ctx):
        ops = sorted(o for o in EXPECT if (o not in APPLIES or cls in APPLIES[o]) and not (cls in NOT.get(o, ())))
        op = ctx.choose(*ops)
        ns = ctx.do(SRC, CLS=cls)
        env = dict((k, ns[k]) for k in ('K', 'v1', 'v2', 'v3'))
        env['L'] = ctx.I.new_list([ns['v2']])
        want = ', '.join('%r: lambda: %s' % (k, v) for k, v in EXPECT[op].items())
        r = ctx.do('''
    import flatland
    from flatland import *
    K0 = K
    K = K.named(u'orig')
    %s
    want = {%s}
    def plain(a, v):
        if a == 'properties':
            return v.copy() if hasattr(v, 'copy') else v
        return v
    def look(X, a):
        if not hasattr(X, a):
            return 'missing'
        return plain(a, getattr(X, a))
    out = []
    named = 'name' in want
    for a in WATCH:
        got = look(N, a)
        if a in ('member_schema', 'field_schema') and OP[:2] == 'of':
            continue
        if a in want:
            w = want[a]()
        elif a == 'label' and named:
            w = N.name
        else:
            w = look(K, a)
        same = got is w or (type(got) is type(w) and got == w)
        out.append((a, same))
    of = None
    if OP == 'of':
        of = N.member_schema is Integer if hasattr(N, 'member_schema') else list(N.field_schema) == [Integer]
    elif OP == 'of-many':
        fs = list(N.field_schema) if not hasattr(N, 'member_schema') else list(N.member_schema.field_schema)
        of = [(f.name, issubclass(f, g)) for f, g in zip(fs, (Integer, String))] == [(u'i', True), (u's', True)] and len(fs) == 2
    kept = K.name == u'orig' and K0.name is None and issubclass(N, K) and isinstance(N, type)
''' % (dict(OPS, **MORE)[op], want), WATCH=ctx.I.new_list(list(WATCH)), OP=op, **env)
        for t in ctx.items(r['out']):
            a, same = [ctx.R(x) for x in ctx.items(t)]
            ctx.check(ctx.truth(same), '%s of %s: %s of the result is not what %s' % (op, cls, a, 'was configured' if a in EXPECT[op] else 'the original has'))
        ctx.check(ctx.R(r['of']) is not False, '%s of %s: the members of the result are not those given' % (op, cls))
        ctx.check(ctx.truth(r['kept']), '%s of %s changes the name of the original' % (op, cls))


for c in CLS:
    if c != 'Compound':
        conf(c)


@check.ob('documented', ['flatland.util.base:class_cloner.__get__'], 'a derived type keeps the name and the documentation of its original')
def documented(ctx):
    cls, how = ctx.choose('Integer', 'Dict', 'List', 'Date', 'Enum', 'JoinedString', 'Mine'), ctx.choose(*range(6))
    ns = ctx.do("""
        from flatland import *
        class Mine(String):
            'My doc.'
            name = u'n'
        K = %s
        D = (lambda: K.named(u'x'), lambda: K.using(optional=True), lambda: K.named(u'x').using(label=u'y'), lambda: K.validated_by(len), lambda: K.with_properties(a=1),
             lambda: K.including_validators(len))[HOW]()
        same = (D.__name__ == K.__name__, D.__doc__ == K.__doc__ and D().__doc__ == K.__doc__ if K is Mine else D.__doc__ == K.__doc__, bool(K.__doc__), issubclass(D, K), D is not K)
    """ % cls, HOW=how)
    ctx.check(all(ctx.truth(x) for x in ctx.items(ns['same'])), '%s, derived: name kept, doc kept, doc there, subclass, another: %s' % (cls, ctx.show(ns['same'])))
