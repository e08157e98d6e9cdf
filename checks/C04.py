"""C04 — SparseDict stays within its schema and keeps required fields."""
from sa.oblig import Check
from . import mapops

check = Check('C04', 'A SparseDict holds only declared keys and never loses required ones')
C = 'flatland.schema.containers:SparseDict'


def invariant(ctx, ns, what, required):
    el = ns['el']
    for k, v in el.p.items():
        k, v = ctx.R(k), ctx.R(v)
        ctx.check(k in (u'a', u'b'), '%s leaves the undeclared key %s' % (what, ctx.show(k)))
        F = ns['A'] if k == u'a' else ns['B']
        ctx.check(hasattr(v, 'cls') and F in v.cls.mro, '%s: the child under %r is not an instance of its field schema' % (what, k))
        ctx.check(ctx.attr(v, 'parent') is el, '%s: a child is not parented to the mapping' % what)
        ctx.check(ctx.attr(v, 'name') == k, '%s: a child is filed under another name' % what)
    if required:
        ctx.check(any(ctx.R(k) == u'a' for k, v in el.p.items()), '%s removes a required field' % what)


def make(op, required):
    meth = {'setitem': '__setitem__', 'setitem-element': '__setitem__', 'del': '__delitem__', 'update-kw': 'update',
            'update-pairs': 'update', 'set-pairs': 'set', 'set_flat': '_set_flat'}.get(op, op)

    @check.ob('%s%s' % (op, '-required' if required else ''), [C + '.' + meth],
              'after %s with any key: keys are declared, children are instances of their schema parented to the '
              'mapping%s; undeclared keys raise' % (op, ', required fields are present' if required else ''))
    def ob(ctx):
        ns = mapops.build(ctx, 'SparseDict', 'required' if required else None)
        el = ns['el']
        before = mapops.snapshot(ctx, el)
        st, r, e, key, v = mapops.apply(ctx, ns, op)
        invariant(ctx, ns, op, required)
        if st == 'raise':
            ctx.check(r in ('TypeError', 'KeyError', 'NotImplementedError'), '%s raises %s' % (op, r))
        declared = ctx.I.eq(key, u'a') or ctx.I.eq(key, u'b')
        had = any(ctx.I.eq(k, key) for k, x, y in before)
        if op in ('setitem', 'update', 'setdefault', 'set'):
            ctx.check((st == 'ok') is declared, '%s of %s key: %s' % (op, 'a declared' if declared else 'an undeclared', st))
        if op in ('del', 'pop'):
            allowed = had and not (required and ctx.I.eq(key, u'a'))
            ctx.check((st == 'ok') is allowed, '%s: %s although the key is %s' % (op, st, 'removable' if allowed else 'not removable'))
            if st == 'ok':
                ctx.check(not any(ctx.I.eq(k, key) for k, x in el.p.items()), '%s left the key behind' % op)
        if op in ('setitem', 'update', 'set') and st == 'ok':
            ctx.check(ctx.same(ctx.attr(ctx.R(ctx.m(el, '__getitem__', key)), 'value'), v), '%s did not store the value' % op)
        if op == 'clear':
            left = sorted(ctx.R(k) for k, x in el.p.items())
            ctx.check(left == ([u'a'] if required else []), 'clear() leaves the keys %s' % left)
        if op in ('set', 'clear', 'set_default') and st == 'ok':
            old = [x for k, x, y in before]
            ctx.check(all(ctx.R(x) not in old for k, x in el.p.items()), '%s keeps a stale child' % op)


for o in mapops.OPS:
    for q in (False, True):
        make(o, q)


@check.ob('fresh', [C + '._reset'], 'a new SparseDict holds its required fields iff minimum_fields says so')
def fresh(ctx):
    req = ctx.choose(False, True)
    ns = ctx.do('''
        K = SparseDict.of(String.named(u'a'), String.named(u'b').using(optional=True))
        if REQ:
            K = K.using(minimum_fields='required')
        el = K()
    ''', REQ=req)
    keys = sorted(ctx.R(k) for k in ns['el'].p.keys())
    ctx.check(keys == ([u'a'] if req else []), 'a new SparseDict holds %s' % keys)


@check.ob('may_contain', [C + '.may_contain'], 'may_contain: exactly the declared keys, present or not')
def may(ctx):
    ns = mapops.build(ctx, 'SparseDict')
    key = ctx.text('key')
    declared = ctx.I.eq(key, u'a') or ctx.I.eq(key, u'b')
    ctx.check(ctx.truth(ctx.m(ns['el'], 'may_contain', key)) is declared, 'may_contain() is wrong')


@check.ob('setdefault-value', [C + '.setdefault'], 'setdefault() keeps a field that is not empty and returns its value, else sets the field (made if absent) to the default; other fields stay')
def setdefault_value(ctx):
    state = ctx.choose('absent', 'empty', 'zero', 'set', 'bad')
    req = ctx.choose(False, True)
    given = ctx.choose(5, u'6', 0, None, u'junk')
    ns = ctx.do('''
        K = SparseDict.of(Integer.named(u'n').using(optional=True), String.named(u'o'))
        if req:
            K = K.using(minimum_fields='required')
        el = K({u'o': u'other'})
        if state == 'empty':
            el[u'n'] = None
        elif state != 'absent':
            el[u'n'] = {'zero': 0, 'set': 3, 'bad': u'x'}[state]
        held = dict(el).get(u'n')
        r = el.setdefault(u'n', given)
        same = held is None or el[u'n'] is held
        e = Integer(given)
        now = (el[u'n'].value, el[u'n'].u, el[u'n'].parent is el, el[u'n'].name)
        want = (e.value, e.u)
        other = el[u'o'].value
        size = len(el)
    ''', state=state, req=req, given=given)
    now = [ctx.R(x) for x in ctx.items(ns['now'])]
    kept = {'zero': [0, u'0'], 'set': [3, u'3'], 'bad': [None, u'x']}.get(state)
    want = kept or [ctx.R(x) for x in ctx.items(ns['want'])]
    ctx.check(now == want + [True, u'n'], 'setdefault(%r) of a field that is %s leaves %s, not %s' % (given, state, now, want))
    ctx.check(ctx.truth(ns['same']), 'setdefault() replaces the element')
    ctx.check(ctx.R(ns['r']) == (kept[0] if kept else given), 'setdefault(%r) of a field that is %s gives %s' % (given, state, ctx.show(ns['r'])))
    ctx.check(ctx.R(ns['other']) == u'other' and ctx.R(ns['size']) == 2, 'setdefault() changes another field')


@check.ob('update-forms', [C + '.__setitem__', 'flatland.schema.containers:Mapping.update'], 'update() takes a mapping, pairs, an object with keys() or keyword arguments, and several of them; undeclared keys raise and are not stored')
def update_forms(ctx):
    req = ctx.choose(False, True)
    cls = 'SparseDict'
    update_form(ctx, cls, req)


def update_form(ctx, cls, req=False):
    form = ctx.choose('{%s}', '[%s]', 'gen([%s])', 'Keyed([%s])', '**', '{%s}**')
    keys = ctx.choose((), ('a',), ('b', 'a'), ('a', 'zz'), ('zz', 'b'), ('zz',))
    ns = ctx.do('''
        K = %s.of(String.named(u'a'), String.named(u'b').using(optional=True))
        if req:
            K = K.using(minimum_fields='required')
        class Keyed(object):
            def __init__(self, l):
                self.d = dict(l)
            def keys(self):
                return list(self.d)
            def __getitem__(self, k):
                return self.d[k]
        def gen(x):
            for y in x:
                yield y
        el = K({u'a': u'olda', u'b': u'oldb'})
    ''' % cls, req=req)
    pairs = ', '.join(('u"%s": u"new%s"' if form[0] == '{' else '(u"%s", u"new%s")') % (k, k) for k in keys)
    if form == '**':
        src = 'el.update(%s)' % ', '.join('%s=u"new%s"' % (k, k) for k in keys)
    elif form == '{%s}**':
        src = 'el.update({u"a": u"first"}, %s)' % ', '.join('%s=u"new%s"' % (k, k) for k in keys)
    else:
        src = 'el.update(%s)' % (form % pairs)
    st, r, x = ctx.catch(lambda: ctx.do(src, **ns))
    ctx.check((st == 'raise') is ('zz' in keys) and (st == 'ok' or r in ('TypeError', 'KeyError')), '%s: %s' % (src, r if st == 'raise' else 'is accepted'))
    got = dict((ctx.R(k), ctx.R(ctx.attr(v, 'value'))) for k, v in ns['el'].p.items())
    ctx.check(sorted(got) == ['a', 'b'], '%s leaves the keys %s' % (src, sorted(got)))
    if st == 'ok':
        want = dict((k, 'new' + k if k in keys else 'old' + k) for k in 'ab')
        if form == '{%s}**' and 'a' not in keys:
            want['a'] = 'first'
        ctx.check(got == want, '%s leaves %s' % (src, got))


@check.ob('element-kept', [C + '.__setitem__'], 'an element of the field class (or of one derived from it) given for a key, present or not, becomes the field itself')
def element_kept(ctx):
    req = ctx.choose(False, True)
    there = ctx.choose(False, True)
    kind = ctx.choose('own', 'derived', 'held', 'bad', 'blank', 'self')
    if kind == 'self' and not there:
        return
    ns = ctx.do('''
        A = Integer.named(u'a').using(optional=True)
        K = SparseDict.of(A, String.named(u'b'))
        if req:
            K = K.using(minimum_fields='required')
        el = K()
        if there:
            el[u'a'] = 1
        if kind == 'own':
            e = A(5)
        elif kind == 'derived':
            e = A.using(optional=False)(6)
        elif kind == 'held':
            o = K({u'a': 7})
            e = o[u'a']
        elif kind == 'bad':
            e = A(u'junk')
        elif kind == 'blank':
            e = A()
        else:
            e = el[u'a']
        was = (e.value, e.u)
        how(el, e)
        same = el[u'a'] is e and e.parent is el and (e.value, e.u) == was
        kids = len([c for c in el.children if c is e]) == 1
    ''', req=req, there=there, kind=kind, how=ctx.do('def how(el, e):\n    ' + ctx.choose('el[u"a"] = e', 'el.update({u"a": e})', 'el.update(a=e)'))['how'])
    ctx.check(ctx.truth(ns['same']) and ctx.truth(ns['kids']), 'assigning an element (%s) to a field %s does not keep it' % (kind, 'present' if there else 'absent'))
