"""M03 — declarative forms."""
import itertools

from sa.oblig import Check

check = Check('M03', 'A Form has the fields its class and bases declare, the nearest one winning')
F = 'flatland.schema.forms:'


def fields(ctx, cls):
    fs = [ctx.R(f) for f in ctx.items(ctx.attr(cls, 'field_schema'))]
    return fs, [ctx.R(ctx.attr(f, 'name')) for f in fs]


@check.ob('merge', [F + '_MetaForm.__new__', F + '_ElementCollection'],
          'for every way x, y and z can be declared as attribute, in field_schema and on none, one or two bases: one field per name, '
          'from the class attribute, else field_schema, else the first base that has it')
def merge(ctx):
    own_attr = ctx.choose((), ('x',), ('x', 'y'), ('y', 'z'))
    own_schema = ctx.choose(None, ('x',), ('y', 'x'), ('z',))
    bases = ctx.choose('form', 'one', 'two', 'chain', 'dict', 'mixin')
    lines = ['K = {}']
    kinds = iter(range(100))
    src = ['from flatland import *', 'made = {}', 'def mk(tag, name):', '    made[tag] = String.named(name)', '    return made[tag]',
           'class One(Form):', "    x = mk('One.x', u'x')", "    y = mk('One.y', u'other')",
           'class Two(Form):', "    field_schema = [mk('Two.x', u'x'), mk('Two.z', u'z')]",
           'class Three(One):', "    y = mk('Three.y', u'y')", "    z = mk('Three.z', u'zz')",
           "class Plain(Dict):", "    field_schema = [mk('Plain.x', u'x'), mk('Plain.y', u'y')]",
           "class Mixin(object):", "    def extra(self): return 1"]
    heads = {'form': 'Form', 'one': 'One', 'two': 'Two, One', 'chain': 'Three, Two', 'dict': 'Form, Plain', 'mixin': 'Mixin, One'}
    src.append('class K(%s):' % heads[bases])
    src.append('    plain = 5')
    src.append('    def method(self): return 7')
    orig = ctx.choose('named', 'unnamed', 'empty', 'bytes')
    has = dict((n, {'named': repr(n if n != 'y' else 'why'), 'unnamed': 'None', 'empty': "''", 'bytes': repr(n)}[orig]) for n in own_attr)
    if orig != 'named' and (not own_attr or own_schema == ('z',)):
        return
    for n in own_attr:
        src.append("    %s = mk('K.%s', %s%s)" % (n, n, '' if orig in ('unnamed', 'bytes') else 'u', has[n]))
    if own_schema is not None:
        src.append('    field_schema = [%s]' % ', '.join("mk('schema.%s', u'%s')" % (n, n) for n in own_schema))
    ns = ctx.do('\n'.join('    ' + l for l in src))
    have = {'One': {'x': 'One.x', 'y': 'One.y'}, 'Two': {'x': 'Two.x', 'z': 'Two.z'}, 'Three': {'x': 'One.x', 'y': 'Three.y', 'z': 'Three.z'},
            'Plain': {'x': 'Plain.x', 'y': 'Plain.y'}, 'Form': {}, 'Mixin': {}}
    want = {}
    for b in heads[bases].split(', ')[::-1]:
        want.update(have[b])
    for n in own_schema or ():
        want[n] = 'schema.' + n
    for n in own_attr:
        want[n] = 'K.' + n
    K = ctx.R(ns['K'])
    fs, names = fields(ctx, K)
    ctx.check(sorted(names) == sorted(want), 'fields %s, expected %s' % (sorted(names), sorted(want)))
    made = dict((ctx.R(k), ctx.R(v)) for k, v in ctx.R(ns['made']).p.items())
    for f, n in zip(fs, names):
        src_cls = made[want[n]]
        ctx.check(f is src_cls or src_cls in f.mro, 'field %s does not come from %s' % (n, want[n]))
        ctx.check(f is src_cls or ctx.R(ctx.attr(src_cls, 'name')) != n, 'field %s is copied though it has the right name' % n)
    for n in own_attr:
        ctx.check(n not in K.attrs, 'the declared field %s is still a class attribute' % n)
    for tag, c in made.items():
        n = ctx.R(ctx.attr(c, 'name'))
        if tag.startswith('K.'):
            ctx.check(n == eval(has[tag[2:]]), 'declaring renames the original schema %s to %r' % (tag, n))
            continue
        ctx.check(n == {'One.y': u'other', 'Three.z': u'zz'}.get(tag, tag.split('.')[1]), 'declaring renames the original schema %s' % tag)
    ctx.check(ctx.attr(K, 'plain') == 5, 'other attributes are lost')
    if want:
        e = ctx.call(K)
        ctx.check(ctx.call(ctx.attr(e, 'method')) == 7, 'methods are lost')
        ks = [ctx.R(k) for k in ctx.items(ctx.m(e, 'keys'))]
        ctx.check(sorted(ks) == sorted(want), 'an instance has the keys %s, expected %s' % (sorted(ks), sorted(want)))
        for k, v in e.p.items():
            f = fs[names.index(ctx.R(k))]
            ctx.check(ctx.R(v).cls is f, 'the child %s is not of the declared schema' % ctx.R(k))
    for b, n in (('One', ('x', 'y')), ('Two', ('x', 'z')), ('Three', ('x', 'y', 'z')), ('Plain', ('x', 'y'))):
        ctx.check(sorted(fields(ctx, ctx.R(ns[b]))[1]) == sorted(n), 'declaring a subclass changes the fields of its base %s' % b)


@check.ob('not-fields', [F + '_MetaForm.__new__'],
          'only Element classes are fields: elements, other classes and plain values stay attributes; a field may be any Element class, nested forms included')
def not_fields(ctx):
    ns = ctx.do('''
        from flatland import *
        el = String(u'x')
        class Inner(Form):
            a = String
        class Other(object):
            pass
        class Named(Inner):
            name = u'else'
        Lst = List.named(u'other').of(String.named(u's'))
        class K(Form):
            one = el
            named = Named
            lnamed = Lst
            dnamed = DateYYYYMMDD.named(u'when')
            two = Other
            three = [String]
            four = None
            inner = Inner
            lst = List.of(String.named(u's'))
            dt = DateYYYYMMDD
            def five(self):
                return 5
    ''')
    K = ctx.R(ns['K'])
    fs, names = fields(ctx, K)
    want = ['dnamed', 'dt', 'inner', 'lnamed', 'lst', 'named']
    ctx.check(sorted(names) == want, 'fields %s' % names)
    ctx.check(ctx.attr(ns['Named'], 'name') == u'else' and ctx.attr(ns['Lst'], 'name') == u'other', 'declaring renames the original')
    ctx.check(ctx.attr(K, 'one') is ctx.R(ns['el']) and ctx.attr(K, 'two') is ctx.R(ns['Other']) and ctx.R(ctx.attr(K, 'four')) is None, 'attributes are lost')
    ctx.check(all(ctx.truth(ctx.I.isinstance(n, ctx.get('flatland:Element'))) is False for n in []), '')
    e = ctx.call(K)
    ctx.check(sorted(ctx.R(k) for k in ctx.items(ctx.m(e, 'keys'))) == want, 'keys')


@check.ob('derive', [F + '_MetaForm.__new__'],
          'configuring a Form keeps its fields (all but of(), which replaces them), their classes, and the fields of the original')
def derive(ctx):
    op = ctx.choose("K.named(u'n')", 'K.using(optional=True)', 'K.validated_by()', "K.with_properties(a=1)", 'K.using(policy=None)',
                    'K.descent_validated_by()', "K.named(u'n').using(optional=True).named(u'm')", "K.of(Integer.named(u'q'))", "K.of(Integer.named(u'x')).named(u'n')",
                    'type(K)("N", (K,), {})')
    ns = ctx.do('''
        from flatland import *
        X = String.named(u'x')
        Y = Integer.named(u'y')
        class K(Form):
            x = X
            y = Y
        N = %s
    ''' % op)
    fs, names = fields(ctx, ctx.R(ns['K']))
    ctx.check(sorted(names) == ['x', 'y'] and set(fs) == set([ctx.R(ns['X']), ctx.R(ns['Y'])]), 'deriving changes the original form')
    gs, gnames = fields(ctx, ctx.R(ns['N']))
    if '.of(' in op:
        ctx.check(len(gnames) == 1 and gnames[0] in (u'q', u'x'), 'of() keeps old fields: %s' % gnames)
    else:
        ctx.check(sorted(gnames) == ['x', 'y'] and set(gs) == set(fs), 'deriving loses or replaces fields: %s' % gnames)
    e = ctx.call(ctx.R(ns['N']))
    ctx.check(sorted(ctx.R(k) for k in ctx.items(ctx.m(e, 'keys'))) == sorted(gnames), 'instances lack fields')


@check.ob('odd-names', [F + '_MetaForm.__new__', F + '_ElementCollection'],
          'private, blank and unusual names are names like any other: attributes beginning with underscores are fields, and a blank or odd name occurs once')
def odd_names(ctx):
    how = ctx.choose('private', 'blank-schema', 'blank-bases', 'blank-both', 'case', 'dict-base', 'dict-base-derived', 'dict-base-twice', 'form-derived')
    ns = ctx.do('''
        from flatland import *
        D = Dict.of(String.named(u'x'), String.named(u'y'))
        if how == 'private':
            class K(Form):
                _a = String
                __b = Integer
                a_ = String
                x = String
        elif how == 'blank-schema':
            class K(Form):
                field_schema = [String.named(u''), Integer.named(u''), String.named(u'x')]
        elif how in ('blank-bases', 'blank-both'):
            class A(Form):
                field_schema = [String.named(u''), String.named(u'x')]
            class B(Form):
                field_schema = [Integer.named(u''), Integer.named(u'x'), Integer.named(u'y')]
            if how == 'blank-bases':
                class K(A, B):
                    pass
            else:
                class K(B):
                    field_schema = [Float.named(u'')]
        elif how == 'case':
            class K(Form):
                field_schema = [String.named(u'a'), String.named(u'A'), String.named(u'a ')]
                B = String
                b = Integer
        elif how == 'dict-base':
            class K(Form, D):
                z = String
        elif how == 'dict-base-derived':
            class K(Form, D.using(optional=True).named(u'dd')):
                z = String
        elif how == 'dict-base-twice':
            class E(D.named(u'q')):
                policy = 'duck'
            class K(Form, E):
                x = Integer
        else:
            class F1(Form):
                x = String
                y = String
            class F2(F1.using(optional=True)):
                x = Integer
            class K(F2.named(u'k').using(policy='duck')):
                z = String
        fs = [(f.name, [t for t in ('String', 'Integer', 'Float') if issubclass(f, {'String': String, 'Integer': Integer, 'Float': Float}[t])][0]) for f in K.field_schema]
        keys = list(K())
    ''', how=how)
    got = sorted(tuple(ctx.R(x) for x in ctx.items(t)) for t in ctx.items(ns['fs']))
    S, I, Fl = 'String', 'Integer', 'Float'
    want = {'private': [(u'_a', S), (u'_K__b', I), (u'a_', S), (u'x', S)], 'blank-schema': [(u'', I), (u'x', S)], 'blank-bases': [(u'', S), (u'x', S), (u'y', I)], 'blank-both': [(u'', Fl), (u'x', I), (u'y', I)],
            'case': [(u'a', S), (u'A', S), (u'a ', S), (u'B', S), (u'b', I)], 'dict-base': [(u'x', S), (u'y', S), (u'z', S)], 'dict-base-derived': [(u'x', S), (u'y', S), (u'z', S)],
            'dict-base-twice': [(u'x', I), (u'y', S)], 'form-derived': [(u'x', I), (u'y', S), (u'z', S)]}[how]
    ctx.check(got == sorted(want), '%s: the fields are %s, expected %s' % (how, got, sorted(want)))
    ctx.check(sorted(ctx.R(k) for k in ctx.items(ns['keys'])) == sorted(n for n, t in want), '%s: an instance has other keys' % how)
