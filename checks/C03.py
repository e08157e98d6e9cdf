"""C03 — the key set of a Dict is exactly its declared fields."""
from sa.engine import BStr
from sa.oblig import Check
from . import mapops

check = Check('C03', 'The keys of a Dict are always exactly its declared fields')
C = 'flatland.schema.containers:'
ANCH = {'setitem': '__setitem__', 'setitem-element': '__setitem__', 'update-kw': 'update', 'update-pairs': 'update',
        'del': '__delitem__', 'set': None, 'set-pairs': None, 'set_flat': '_set_flat', 'set_by_object': None}


def invariant(ctx, ns, what):
    el = ns['el']
    items = el.p.items()
    keys = sorted(ctx.show(k) for k, v in items)
    ctx.check(keys == ["'a'", "'b'"], '%s leaves the keys %s' % (what, ', '.join(keys)))
    for k, v in items:
        v = ctx.R(v)
        F = ns['A'] if ctx.R(k) == u'a' else ns['B']
        ctx.check(hasattr(v, 'cls') and F in v.cls.mro, '%s: the child under %r is not an instance of its field schema' % (what, k))
        ctx.check(ctx.attr(v, 'parent') is el, '%s: a child is not parented to the mapping' % what)
        ctx.check(ctx.attr(v, 'name') == ctx.R(k), '%s: a child is filed under another name' % what)


def make(op, cls):
    meth = ANCH.get(op, op)
    owner = 'Mapping' if meth else 'Dict'
    if meth is None:
        meth = {'set-pairs': 'set'}.get(op, op)

    @check.ob('%s-%s' % (cls, op), [C + '%s.%s' % (owner, meth)],
              'after %s with any key: keys are the declared names, each holding an instance of its schema parented to '
              'the mapping; an undeclared key raises and changes nothing' % op)
    def ob(ctx):
        ns = mapops.build(ctx, cls)
        el = ns['el']
        before = mapops.snapshot(ctx, el)
        st, r, e, key, v = mapops.apply(ctx, ns, op)
        invariant(ctx, ns, op)
        if st == 'raise':
            ctx.check(r in ('TypeError', 'KeyError'), '%s raises %s' % (op, r))
        if op in ('del', 'pop', 'popitem', 'clear', 'setdefault'):
            ctx.check(st == 'raise', '%s is accepted although the keys are immutable' % op)
        if op in ('setitem', 'update', 'setitem-element'):
            declared = ctx.I.eq(key, u'a') or ctx.I.eq(key, u'b')
            ctx.check((st == 'ok') is declared, '%s of %s key %s' % (op, 'a declared' if declared else 'an undeclared', st))
            if st == 'raise':
                after = mapops.snapshot(ctx, el)
                ctx.check([x[:2] for x in before] == [x[:2] for x in after] and all(ctx.same(x[2], y[2]) for x, y in zip(before, after)),
                          '%s of an undeclared key changed the mapping' % op)
            elif op != 'setitem-element':
                ctx.check(ctx.same(ctx.attr(ctx.R(ctx.m(el, '__getitem__', key)), 'value'), v), '%s did not store the value' % op)


for o in mapops.OPS:
    make(o, 'Dict')


@check.ob('of', [C + 'Dict.of'], 'field names must be unique and fields must be classes')
def of(ctx):
    n1, n2 = ctx.text('n1'), ctx.text('n2')
    st, r, e = ctx.catch(lambda: ctx.do('''
        K = Dict.of(String.named(N1), Integer.named(N2))
    ''', N1=n1, N2=n2)['K'])
    if ctx.I.eq(n1, n2):
        ctx.check(st == 'raise' and r == 'TypeError', 'duplicate field names are accepted')
    else:
        ctx.check(st == 'ok', 'distinct field names are refused (%s)' % r)
        el = ctx.call(r)
        ctx.check(len(el.p) == 2, 'a field is missing')
    st, r, e = ctx.catch(lambda: ctx.do('K = Dict.of(String.named(u"x")())')['K'])
    ctx.check(st == 'raise' and r == 'TypeError', 'an element instance is accepted as a field')


@check.ob('get', [C + 'Mapping.get', C + 'Mapping.may_contain'], 'get and may_contain know exactly the declared keys')
def get(ctx):
    ns = mapops.build(ctx, 'Dict')
    key = ctx.text('key')
    declared = ctx.I.eq(key, u'a') or ctx.I.eq(key, u'b')
    st, r, e = ctx.catch(lambda: ctx.m(ns['el'], 'get', key))
    if declared:
        ctx.check(st == 'ok' and ctx.attr(r, 'name') == ctx.R(key), 'get() of a declared key: %s' % (r,))
    else:
        ctx.check(st == 'raise' and r == 'KeyError', 'get() of an undeclared key does not raise KeyError')
    ctx.check(ctx.truth(ctx.m(ns['el'], 'may_contain', key)) is declared, 'may_contain() is wrong')


@check.ob('update-forms', [C + 'Mapping.__setitem__', C + 'Mapping.update'], 'update() takes a mapping, pairs, an object with keys() or keyword arguments, and several of them; undeclared keys raise and are not stored')
def update_forms(ctx):
    from .C04 import update_form
    update_form(ctx, 'Dict')


@check.ob('spellings', [C + 'Mapping.pop', C + 'Mapping.popitem', C + 'Mapping.setdefault', C + 'Mapping.get', C + 'Mapping.clear', C + 'Mapping.__delitem__'],
          'every way to spell a removal or an access to an undeclared key, with or without a default to fall back on, raises TypeError or KeyError and changes nothing')
def spellings(ctx):
    ns = mapops.build(ctx, ctx.choose('Dict', 'Form'))
    el = ns['el']
    before = mapops.snapshot(ctx, el)
    d = ctx.choose(None, u'', 0, u'x', False, True)
    key = ctx.choose(u'a', u'b', u'zz', u'', None, 0, BStr(b'zz'))
    src = ctx.choose('r = el.pop(k)', 'r = el.pop(k, d)', 'r = el.popitem()', 'r = el.clear()', 'r = el.setdefault(k)', 'r = el.setdefault(k, d)', 'r = el.setdefault(k, default=d)',
                     'r = el.get(k)', 'r = el.get(k, d)', 'r = el.get(k, default=d)', 'r = el[k]', 'del el[k]', 'el[k] = d')
    known = key in (u'a', u'b') and ('get' in src or src.endswith('el[k]') and 'del' not in src or src == 'el[k] = d')
    st, r, e = ctx.catch(lambda: ctx.do(src, el=el, k=key, d=d))
    if known:
        ctx.check(st == 'ok', '%s of a declared key raises %s' % (src, r))
        if 'r' in r:
            ctx.check(any(ctx.R(r['r']) is x[1] and ctx.R(key) == x[0] for x in before), '%s of a declared key gives %s' % (src, ctx.show(r['r'])))
    else:
        ctx.check(st == 'raise' and r in ('TypeError', 'KeyError'), '%s of the key %r, d=%r: %s, not an error' % (src, key, d, r if st == 'raise' else 'accepted'))
    invariant(ctx, ns, src)
    if src != 'el[k] = d':
        after = mapops.snapshot(ctx, el)
        ctx.check([x[:2] for x in before] == [x[:2] for x in after] and all(ctx.same(x[2], y[2]) for x, y in zip(before, after)), '%s changed the mapping' % src)


@check.ob('names', [C + 'Dict.of'], 'of() refuses any repetition of a name among any number of fields, in any position, and any instance among them')
def names(ctx):
    n = ctx.choose(2, 3, 4)
    names = [ctx.choose(u'a', u'b', u'c', None) if i < 3 else u'a' for i in range(n)]
    inst = ctx.choose(None, *range(n))
    cls = ctx.choose('Dict', 'SparseDict')
    fields = ctx.I.new_list([ctx.do('f = %s.named(N)%s' % ('String' if i % 2 else 'Integer', '()' if inst == i else ''), N=x)['f'] for i, x in enumerate(names)])
    st, r, e = ctx.catch(lambda: ctx.do('K = %s.of(*F)' % cls, F=fields))
    if inst is not None or len(set(names)) < n:
        ctx.check(st == 'raise' and r == 'TypeError', '%s.of() of fields named %s%s is %s' % (cls, names, '' if inst is None else ', one an instance,', r if st == 'raise' else 'accepted'))
    else:
        ctx.check(st == 'ok', 'fields of different names are refused (%s)' % r)
        fs = ctx.items(ctx.attr(r['K'], 'field_schema'))
        ctx.check(len(fs) == n and all(ctx.R(a) is ctx.R(b) for a, b in zip(fs, ctx.items(fields))), 'the fields are not the given ones in order')


@check.ob('field-kinds', [C + 'Mapping.get', C + 'Mapping.may_contain'], 'get(key), with a default or not, is the very field of that key, whatever kind of element it is and however empty')
def field_kinds(ctx):
    cls = ctx.choose('Dict', 'SparseDict', 'Form')
    kind = ctx.choose('String', 'List.of(String)', 'Array.of(String)', 'MultiValue.of(String)', 'JoinedString', 'Dict.of(String.named(u"q"))', 'SparseDict.of(String.named(u"q"))', 'Integer', 'Boolean')
    ns = ctx.do('''
        K = %s.of(%s.using(name=u"f", optional=True), String.named(u"o"))
        el = K()
        if sparse:
            el[u"f"] = K.field_schema[0]()
        f = el[u"f"]
        got = el.get(u"f") is f and el.get(u"f", 5) is f and el.get(u"f", None) is f
        may = el.may_contain(u"f") and u"f" in el
        kids = f in [c for c in el.children] and len([c for c in el.children if c is f]) == 1
        named = el.el(u"f") is f
        up = f.parent is el
    ''' % (cls, kind), sparse=cls == 'SparseDict')
    for n in ('got', 'may', 'kids', 'named', 'up'):
        ctx.check(ctx.truth(ns[n]), '%s with an empty field %s: %s' % (cls, kind, n))


@check.ob('instance-schema', [C + 'Mapping.__init__', C + 'Mapping._reset', C + 'Mapping.field_schema_mapping', C + 'Mapping._field_schema_for'],
          'fields declared for one element alone (field_schema= at construction) are its keys for every operation, also while it is empty; the class keeps its own')
def instance_schema(ctx):
    cls = ctx.choose('Dict', 'SparseDict')
    how = ctx.choose('set', 'set_flat', 'setitem', 'update', 'setdefault', 'obj', 'set-old', 'setitem-old', 'flat-old')
    if how == 'setdefault' and cls == 'Dict':
        return
    ns = ctx.do('''
        K = %s.of(String.named(u"a"))
        el = K(field_schema=(String.named(u"b"), Integer.named(u"c")))
        el2 = K()
    ''' % cls)
    src = {'set': 'el.set({u"b": u"x"})', 'set_flat': 'el.set_flat([(u"b", u"x")])', 'setitem': 'el[u"b"] = u"x"', 'update': 'el.update(b=u"x")',
           'setdefault': 'el.setdefault(u"b", u"x")', 'obj': '''
        class O(object):
            a = u"no"
            b = u"x"
        el.set_by_object(O())
        ''', 'set-old': 'el.set({u"a": u"x"})', 'setitem-old': 'el[u"a"] = u"x"', 'flat-old': 'el.set_flat([(u"a", u"x")])'}[how]
    st, r, e = ctx.catch(lambda: ctx.do(src, el=ns['el']))
    ctx.check((st == 'raise') is (how in ('set-old', 'setitem-old')), '%s on an element with fields of its own: %s' % (how, r if st == 'raise' else 'is accepted'))
    keys = sorted(ctx.R(k) for k in ns['el'].p.keys())
    good = how not in ('set-old', 'setitem-old', 'flat-old')
    ctx.check(keys == ([u'b', u'c'] if cls == 'Dict' else [u'b'] if good else []), '%s leaves the keys %s' % (how, keys))
    if good:
        ctx.check(ctx.R(ctx.attr(ctx.do('f = el[u"b"]', el=ns['el'])['f'], 'value')) == u'x', '%s does not reach the field' % how)
    ctx.check([ctx.R(k) for k in ns['el2'].p.keys()] == ([u'a'] if cls == 'Dict' else []), 'another element changes')
    ctx.check([ctx.R(ctx.attr(f, 'name')) for f in ctx.items(ctx.attr(ns['K'], 'field_schema'))] == [u'a'], 'the class changes')
