"""C14 — value, text, truth and emptiness of every kind of element."""
from sa.engine import BStr
from sa.oblig import Check

check = Check('C14', 'Values of containers are plain copies of what their members hold')
C = 'flatland.schema.containers:'


def native(ctx, v):
    """Host copy of a plain abstract value; fails on elements."""
    v = ctx.R(v)
    p = getattr(v, 'p', None)
    if isinstance(v, tuple):
        return tuple(native(ctx, x) for x in v)
    if isinstance(p, list):
        ctx.check(v.cls.name == 'list', 'a value contains a %s' % v.cls.name)
        return [native(ctx, x) for x in p]
    if p is not None and hasattr(p, 'items') and not isinstance(p, dict):
        ctx.check(v.cls.name == 'dict', 'a value contains a %s' % v.cls.name)
        return dict((native(ctx, k), native(ctx, x)) for k, x in p.items())
    if p is not None:
        ctx.fail('a value contains %s' % ctx.show(v))
    return v


TREES = {
    'list': ("List.of(Integer)", "[1, u'x', None, 0]", [1, None, None, 0], u"[u'1', u'x', u'', u'0']"),
    'array': ("Array.of(String)", "[u'a', None, u'b\\u00e9']", [u'a', None, u'b\xe9'], u"[u'a', u'', u'b\\xe9']"),
    'empty-list': ("List.of(Integer)", "[]", [], u'[]'),
    'empty-array': ("Array.of(Integer)", "()", [], u'[]'),
    'dict': ("Dict.of(String.named(u'a'), Integer.named(u'b'))", "{u'a': u'x', u'b': u'2'}", {u'a': u'x', u'b': 2}, None),
    'dict-one': ("Dict.of(Integer.named(u'b'))", "{u'b': u'q'}", {u'b': None}, u"{u'b': u'q'}"),
    'sparse': ("SparseDict.of(String.named(u'a'), Integer.named(u'b'))", "{u'b': 3}", {u'b': 3}, u"{u'b': u'3'}"),
    'sparse-empty': ("SparseDict.of(String.named(u'a'))", "{}", {}, u'{}'),
    'lists': ("List.of(List.of(Integer))", "[[1], [], [2, 3]]", [[1], [], [2, 3]], u"[[u'1'], [], [u'2', u'3']]"),
    'dicts': ("List.of(Dict.of(Integer.named(u'a')))", "[{u'a': 1}, {u'a': 2}]", [{u'a': 1}, {u'a': 2}], u"[{u'a': u'1'}, {u'a': u'2'}]"),
    'mixed': ("Dict.of(List.named(u'l').of(Array.of(Integer)))", "{u'l': [[1, 2], []]}", {u'l': [[1, 2], []]}, u"{u'l': [[u'1', u'2'], []]}"),
    'joined': ("Dict.of(JoinedString.named(u'j'))", "{u'j': u'a,b'}", {u'j': u'a,b'}, u"{u'j': a,b}"),
    'multi': ("Dict.of(MultiValue.named(u'm').of(Integer))", "{u'm': [5, 6]}", {u'm': 5}, u"{u'm': 5}"),
    'form': ("F", "{u'a': 1}", {u'a': 1}, u"{u'a': u'1'}"),
}


@check.ob('plain', [C + 'Sequence.value', C + 'Mapping.value', C + 'Sequence.u', C + 'Mapping.u'],
          'the value of a List or Array is a new list of the values of its members in order, of a Dict or SparseDict a new dict of the values of its fields, at any depth; '
          'changing it changes nothing; the text shows the texts of the members, quoted unless containers')
def plain(ctx):
    name = ctx.choose(*sorted(TREES))
    schema, given, want, text = TREES[name]
    how = ctx.choose('set', 'init', 'default', 'items')
    ns = ctx.do('''
    class F(Form):
        a = Integer
    K = %s
    how = HOW
    v = %s
    if how == 'set':
        el = K()
        el.set(v)
    elif how == 'init':
        el = K(v)
    elif how == 'default':
        el = K.using(default=v).from_defaults()
    elif issubclass(K, Dict):
        el = K()
        for k in v:
            el[k] = v[k]
    else:
        el = K()
        for x in v:
            el.append(x)
    one = el.value
    two = el.value
    t1 = el.u
    if isinstance(one, list):
        one.append(u'junk')
        if one and isinstance(one[0], (list,)):
            one[0].append(u'junk')
    else:
        for k in list(one):
            if isinstance(one[k], list):
                one[k].append(u'junk')
        one[u'junk'] = 1
    three = el.value
    t2 = el.u
    ''' % (schema, given), HOW=how)
    if name == 'dict' and how == 'init':
        pass
    for k in ('two', 'three'):
        v = native(ctx, ns[k])
        ctx.check(v == want and type(v) is type(want), '%s of %s has the value %s, not %s' % (schema, given, v, want))
    t = ctx.R(ns['t1'])
    ctx.check(isinstance(t, str) and not isinstance(t, BStr) and t == ctx.R(ns['t2']), 'the text of %s is %s' % (schema, ctx.show(t)))
    if text is not None:
        ctx.check(t == text, 'the text of %s is %s, not %s' % (schema, t, text))
    else:
        ctx.check(t in (u"{u'a': u'x', u'b': u'2'}", u"{u'b': u'2', u'a': u'x'}"), 'the text of %s is %s' % (schema, t))


@check.ob('multi', [C + 'MultiValue.u', C + 'MultiValue.value', C + 'MultiValue._set_u', C + 'MultiValue._set_value', C + 'MultiValue.__nonzero__'],
          'a MultiValue reads as its first member, or as empty text and None without members; assigning .u or .value assigns that of the first member, made if there is none, and no other')
def multi(ctx):
    n = ctx.choose(0, 1, 2, 3)
    what = ctx.choose('u', 'value')
    member = ctx.choose('Integer', 'String')
    given = ctx.choose(u'zz', u'', 0, None) if what == 'value' else ctx.choose(u'zz', u'')
    ns = ctx.do('''
    K = MultiValue.named(u'm').of(%s.named(u'x'))
    el = K([u'7', u'8', u'9'][:n])
    ms = [m for m in el]
    read = (el.u, el.value, bool(el), el.is_empty)
    ''' % member, n=n)
    first = ([u'7', 7 if member == 'Integer' else u'7', True, False] if n else [u'', None, False, True])
    got = [ctx.R(x) for x in ctx.items(ns['read'])]
    ctx.check(got == first and [type(x) for x in got] == [type(x) for x in first], 'a MultiValue of %d members reads %s' % (n, got))
    ns2 = ctx.do('el.%s = given\nms = [m for m in el]\nread = (el.u, el.value)\nall = [(m.u, m.value) for m in el]\nchildren = list(el.children)\nups = [m.parent for m in el]\n' % what, el=ns['el'], given=given)
    olds, ms = [ctx.R(m) for m in ctx.items(ns['ms'])], [ctx.R(m) for m in ctx.items(ns2['ms'])]
    ctx.check(len(ms) == max(n, 1) and all(a is b for a, b in zip(ms, olds)), 'assigning .%s to %d members leaves %d' % (what, n, len(ms)))
    alls = [tuple(ctx.R(x) for x in ctx.items(t)) for t in ctx.items(ns2['all'])]
    want = [(t, int(t) if member == 'Integer' else t) for t in (u'7', u'8', u'9')[:n]] or [(u'', None)]
    want[0] = (given, want[0][1]) if what == 'u' else (want[0][0], given)
    ctx.check(alls == want, 'assigning .%s = %r to %d members leaves %s, not %s' % (what, given, n, alls, want))
    ctx.check(tuple(ctx.R(x) for x in ctx.items(ns2['read'])) == want[0], 'reading back gives %s' % ctx.show(ns2['read']))
    ctx.check(all(ctx.R(p) is ctx.R(ns['el']) for p in ctx.items(ns2['ups'])), 'a member made for .%s has no parent' % what)


@check.ob('empty', ['flatland.schema.base:Element.is_empty', C + 'Container.is_empty', C + 'Mapping.is_empty', 'flatland.schema.compound:Compound.is_empty'],
          'a scalar is empty iff its value is None (a String: None or blank) and its text blank, a sequence iff it has no members, a SparseDict iff it has no keys, a Dict never, a compound iff all its parts are')
def empty(ctx):
    ns = ctx.do('''
    def sc(u, value, K=Integer):
        e = K()
        e.u, e.value = u, value
        return e
    D = DateYYYYMMDD
    def parts(**kw):
        d = D()
        for k in kw:
            d[k].set(kw[k])
        return d
    class C(Compound):
        field_schema = [Boolean.named(u'a'), String.named(u'b'), String.named(u'c').using(strip=False)]
        def compose(self):
            return u'', None
        def explode(self, value):
            pass
    def comp(**kw):
        d = C()
        for k in kw:
            d[k].set(kw[k])
        return d
    s = SparseDict.of(String.named(u'a'))
    cases = [
        (sc(u'', None), True), (sc(u'x', None), False), (sc(u'', u''), False), (sc(u'', 0), False), (sc(u' ', None), False), (sc(u'', False), False), (sc(u'x', u'x'), False),
        (Integer(), True), (Integer(u''), True), (Integer(u'q'), False), (Integer(0), False), (Boolean(False), False), (Boolean(), True), (String(u''), True), (String(None), True), (String(u'', strip=False), True), (String(u' ', strip=False), False),
        (sc(u'', u'', String), True), (sc(u'x', u'', String), False), (sc(u'x', None, String), False), (sc(u'', u'x', String), False), (sc(u'', u'', Enum), False), (sc(u'', False, Boolean), False),
        (List.of(String)(), True), (List.of(String)([None]), False), (List.of(String)([u'']), False), (Array.of(String)(), True), (Array.of(String)([None]), False),
        (MultiValue.of(String)(), True), (MultiValue.of(String)([None]), False), (JoinedString(), True), (JoinedString(u''), True), (JoinedString(u'a'), False),
        (JoinedString(u',', prune_empty=False), False),
        (Dict.of(String.named(u'a'))(), False), (s(), True), (s({u'a': u'x'}), False), (List.of(List.of(String))([[]]), False),
        (D(), True), (D(u'bogus'), True), (parts(year=u'x'), False), (parts(month=1), False), (parts(day=0), False), (parts(year=None), True), (parts(year=2000, month=1, day=1), False),
        (comp(), True), (comp(a=False), False), (comp(a=False, b=u''), False), (comp(b=None), True), (comp(b=u' '), True), (comp(c=u' '), False), (comp(b=u'x'), False), (comp(a=True), False),
        (Ref.to(u'.')(), None),
    ]
    r = [(e, want, e.is_empty) for e, want in cases if want is not None]
''')
    for i, c in enumerate(ctx.items(ns['r'])):
        e, want, got = [ctx.R(x) for x in ctx.items(c)]
        ctx.check(got is want, 'case %d: is_empty of %s is %s' % (i, ctx.show(e), ctx.show(got)))


@check.ob('scalar-text', ['flatland.schema.scalars:Scalar.__bool__', 'flatland.schema.scalars:Scalar.__unicode__', 'flatland.schema.scalars:Scalar.__str__'],
          'a scalar is true iff both its value and its text are; unicode() of it is its text, str() the UTF-8 bytes of it')
def scalar_text(ctx):
    ns = ctx.do('''
    def sc(K, u, value):
        e = K()
        e.u, e.value = u, value
        return e
    els = [sc(K, u, v) for K in (String, Integer, Boolean, Date, Enum) for u in (u'', u'x', u'\\u00e9') for v in (None, u'', 0, u'x', 5, False, True)]
    r = [(e.u, e.value, bool(e), True if e else False, unicode(e), str(e), u'%s' % e, e.u.encode('utf-8')) for e in els]
''')
    for t in ctx.items(ns['r']):
        u, v, b, b2, uni, st, fmt, enc = [ctx.R(x) for x in ctx.items(t)]
        ctx.check(b is b2 is bool(u and v), 'truth of text %r and value %r is %s' % (u, v, b))
        ctx.check(uni == u and not isinstance(uni, BStr) and fmt == u, 'unicode() of text %r is %r' % (u, uni))
        ctx.check(isinstance(st, BStr) and st == enc, 'str() of text %r is %r' % (u, st))


@check.ob('instances', [C + 'Sequence.value', C + 'Mapping.value', C + 'MultiValue.value', C + 'Mapping.u', C + 'Sequence.u'],
          'values follow the positions and keys at which members are held, whatever was done to the members themselves: renamed, emptied, made unset, assigned value and text apart, flagged optional or invalid, or of another type')
def instances(ctx):
    what = ctx.choose('none', 'name', 'noname', 'value', 'text', 'both', 'falsy', 'optional', 'valid', 'empty')
    kind = ctx.choose('List', 'Array', 'Dict', 'SparseDict', 'MultiValue', 'nested', 'other')
    ns = ctx.do('''
        what, kind = WHAT, KIND
        S, I = String.named(u'a'), Integer.named(u'b')
        if kind in ('List', 'Array', 'MultiValue'):
            el = {'List': List, 'Array': Array, 'MultiValue': MultiValue}[kind].named(u'x').of(S)([u'1', u'2', None, u''])
            m = el[0]
            keys = [0, 1, 2, 3]
        elif kind == 'other':
            el = List.of(S)([u'1', u'2'])
            el.append(Integer(7))
            el.append(List.of(String)([u'q']))
            m = el[0]
            keys = [0, 1, 2, 3]
        elif kind == 'nested':
            top = Dict.of(List.named(u'l').of(Dict.of(S, I)))({u'l': [{u'a': u'1', u'b': u'2'}]})
            el = top[u'l'][0]
            m = el[u'a']
            keys = [u'a', u'b']
        else:
            el = {'Dict': Dict, 'SparseDict': SparseDict}[kind].of(S, I)({u'a': u'1', u'b': u'2'})
            m = el[u'a']
            keys = [u'a', u'b']
        if what == 'name':
            m.name = u'zz'
        elif what == 'noname':
            m.name = None
        elif what == 'value':
            m.value = 5
        elif what == 'text':
            m.u = u'other'
        elif what == 'both':
            m.u, m.value = u'other', u'apart'
        elif what == 'falsy':
            m.u, m.value = u'', 0
        elif what == 'optional':
            m.optional = True
        elif what == 'valid':
            m.valid = False
        elif what == 'empty':
            m.set(None)
        vals = [(k, el[k].value, el[k].u) for k in keys]
        value, text = el.value, el.u
        up = top.value if kind == 'nested' else None
    ''', WHAT=what, KIND=kind)
    each = [tuple(native(ctx, x) for x in ctx.items(p)) for p in ctx.items(ns['vals'])]
    got = native(ctx, ns['value'])
    if kind == 'MultiValue':
        want = each[0][1]
    elif kind in ('List', 'Array', 'other'):
        want = [v for k, v, u in each]
    else:
        want = dict((k, v) for k, v, u in each)
    ctx.check(got == want and type(got) is type(want), '%s, member %s: the value is %s, not %s' % (kind, what, got, want))
    if kind == 'nested':
        up = native(ctx, ns['up'])
        ctx.check(up == {u'l': [want]}, 'nested, member %s: the outer value is %s' % (what, up))
    if kind in ('Dict', 'SparseDict'):
        ctx.check(all((u"%r: u%r" % ('k', u)).split(': ')[1] in ctx.R(ns['text']) for k, v, u in each), '%s, member %s: the text is %s' % (kind, what, ctx.show(ns['text'])))
    elif kind in ('List', 'Array'):
        ctx.check(ctx.R(ns['text']) == u'[%s]' % u', '.join('u%r' % u for k, v, u in each), '%s, member %s: the text is %s' % (kind, what, ctx.show(ns['text'])))
