"""U06 — computed attributes: computed until assigned, and again once deleted."""
from sa.oblig import Check

check = Check('U06', 'Computed attributes are computed until assigned, and again once deleted')
U = 'flatland.util.base:'


@check.ob('histories', [U + 'assignable_property.__get__', U + 'assignable_property.__set__', U + 'assignable_property.__delete__',
                        U + 'assignable_class_property.__get__', U + 'assignable_class_property.__set__', U + 'assignable_class_property.__delete__'],
          'after any sequence of reading, assigning and deleting, an attribute reads as last assigned, or else as computed then; '
          'other objects and the class never notice; deleting what was not assigned is an AttributeError', max_runs=20000, shards=4)
def histories(ctx):
    kind = ctx.choose('assignable_property', 'assignable_class_property')
    named = ctx.choose('function', 'name argument')
    ns = ctx.do('''
        from flatland.util import %s as P
        class Base(object):
            basis = u'class'
            def computed(self%s):
                """The doc."""
                return %s
            attr = P(computed%s)
        class Sub(Base):
            pass
        a = Sub()
        b = Sub()
    '''.replace('computed', 'attr' if named == 'function' else 'computed') % (
        kind, ', cls' if 'class' in kind else '',
        "(self is None and cls or self).basis" if 'class' in kind else 'self.basis', '' if named == 'function' else ", 'attr'"))
    state = {'a': None, 'b': None}
    basis = {'a': u'class', 'b': u'class'}
    vals = [ctx.any('v%d' % i) for i in range(3)]
    falsy = ctx.choose('any', None, u'', False)
    for i in range(3 if not ctx.thorough else 4):
        op = ctx.choose('set a', 'set b', 'del a', 'basis a', 'read', 'stop')
        if op == 'stop':
            break
        k = op[-1]
        if op.startswith('set'):
            v = vals[i % 3] if falsy == 'any' or i else falsy
            ctx.put(ns[k], 'attr', v)
            state[k] = (v,)
        elif op.startswith('del'):
            st, r, e = ctx.catch(lambda: ctx.do('del o.attr', o=ns[k]))
            if state[k] is None:
                ctx.check(st == 'raise' and r == 'AttributeError', 'deleting an unassigned attribute: %s' % r)
            else:
                ctx.check(st == 'ok', 'deleting an assigned attribute raises %s' % r)
                state[k] = None
        elif op.startswith('basis'):
            ctx.put(ns['a'], 'basis', u'own%d' % i)
            basis['a'] = u'own%d' % i
        for k in 'ab':
            got = ctx.attr(ns[k], 'attr')
            want = state[k][0] if state[k] else basis[k]
            ctx.check(ctx.R(got) is ctx.R(want) or ctx.same(got, want), 'after %s the attribute of %s reads %s, not %s' % (op, k, ctx.show(got), ctx.show(want)))
        for c in ('Base', 'Sub'):
            got = ctx.attr(ns[c], 'attr')
            want = u'class' if 'class' in kind else None
            ctx.check(ctx.same(got, want), 'after %s the class attribute reads %s' % (op, ctx.show(got)))


@check.ob('asked', [U + 'assignable_property.__get__', U + 'assignable_class_property.__get__'],
          'the computing function is asked with the object, or with None and the class for the class, once per reading, and not at all while assigned')
def asked(ctx):
    calls = []
    kind = ctx.choose('assignable_property', 'assignable_class_property')
    ns = ctx.do('''
        from flatland.util import %s as P
        class Base(object):
            attr = P(f, 'attr')
        class Sub(Base):
            pass
        a = Sub()
    ''' % kind, f=ctx.fn('f', lambda *a: (calls.append([ctx.R(x) for x in a]), ctx.any('got'))[1]))
    two = 'class' in kind
    Sub, Base, a = (ctx.R(ns[k]) for k in ('Sub', 'Base', 'a'))
    for o in ('a', 'Sub', 'Base', 'a'):
        del calls[:]
        ctx.attr(ns[o], 'attr')
        want = [[a, Sub] if two else [a]] if o == 'a' else [[None, ctx.R(ns[o])]] if two else []
        ctx.check(len(calls) == len(want) and all(len(c) == len(w) and all(x is y for x, y in zip(c, w)) for c, w in zip(calls, want)), 'reading it from %s computes with %s' % (o, ctx.show(calls)))
    ctx.put(ns['a'], 'attr', None)
    del calls[:]
    ctx.attr(ns['a'], 'attr')
    ctx.check(not calls, 'an assigned attribute is computed')


@check.ob('lazy', [U + 'lazy_property.__get__', U + 'lazy_property.__init__'],
          'a lazy property is computed at the first reading only, once per object')
def lazy(ctx):
    calls = []
    v = {'a': ctx.choose(u'va', None, False, u''), 'b': u'vb'}
    ns = ctx.do('''
        from flatland.util import lazy_property
        class K(object):
            def __init__(self, tag):
                self.tag = tag
            @lazy_property
            def attr(self):
                return compute(self.tag)
        a = K(u'a')
        b = K(u'b')
    ''', compute=ctx.fn('compute', lambda t: (calls.append(ctx.R(t)), v[ctx.R(t)])[1]))
    n = 0
    want = []
    over = {}
    for i in range(4):
        op = ctx.choose('read a', 'read b', 'set a', 'stop')
        if op == 'stop':
            break
        k = op[-1]
        if op == 'set a':
            ctx.put(ns['a'], 'attr', u'set')
            over['a'] = u'set'
            continue
        if k not in over:
            want.append(k)
            over[k] = v[k]
        got = ctx.attr(ns[k], 'attr')
        ctx.check(ctx.same(got, over[k]), '%s gives %s' % (op, ctx.show(got)))
        ctx.check(calls == want, 'computed for %s, not %s' % (calls, want))
    ctx.check(ctx.truth(ctx.I.isinstance(ctx.attr(ns['K'], 'attr'), ctx.get(U + 'lazy_property'))), 'the class attribute is not the property')


@check.ob('label', ['flatland.schema.base:Element.label'],
          'the label of a class or element is its name until one is configured or assigned; assigning to an element is seen there only')
def label(ctx):
    cls = ctx.choose('String', 'List.of(String)', 'Dict.of(String.named(u"x"))', 'Array.of(Integer)', 'DateYYYYMMDD', 'Integer')
    name = ctx.text('name')
    how = ctx.choose('plain', 'using', 'derived', 'subclass')
    lab = ctx.text('label')
    ns = ctx.do('''
        from flatland import *
        K = %s.named(NAME)
        if HOW == u'using':
            K = K.using(label=LABEL)
        elif HOW == u'derived':
            K = K.using(label=LABEL).named(OTHER)
        elif HOW == u'subclass':
            class L(K):
                label = LABEL
            K = L
        a = K()
        b = K()
    ''' % cls, NAME=name, HOW=how, LABEL=lab, OTHER=u'other')
    want = name if how == 'plain' else lab

    def reads(o, w, what):
        got = ctx.attr(ns[o], 'label')
        ctx.check(ctx.same(got, w), 'the label of %s is %s, not %s' % (what, ctx.show(got), ctx.show(w)))
    for o in ('K', 'a', 'b'):
        reads(o, want, o)
    new = ctx.choose(u'new', u'', None)
    ctx.put(ns['a'], 'label', new)
    reads('a', new, 'the element assigned to')
    reads('b', want, 'another element')
    reads('K', want, 'the class')
    ns2 = ctx.do('c = K()', K=ns['K'])
    ctx.check(ctx.same(ctx.attr(ns2['c'], 'label'), want), 'the label of a new element changes')
    ctx.do('del o.label', o=ns['a'])
    reads('a', want, 'the element after deleting its label')
    if how == 'plain':
        # the name of an element may change later
        ctx.put(ns['b'], 'name', u'renamed')
        reads('b', u'renamed', 'a renamed element')
        reads('a', want, 'its sibling')
        reads('K', want, 'the class')


@check.ob('cloners', [U + 'class_cloner.__get__', U + 'class_cloner.__set__', U + 'class_cloner.__delete__'],
          'deriving methods do not exist on elements, until assigned there; deleting them brings that back')
def cloners(ctx):
    cls, meth = ctx.choose(('String', 'using'), ('String', 'named'), ('String', 'validated_by'), ('List', 'of'), ('Dict', 'of'), ('Dict', 'using'),
                           ('String', 'with_properties'), ('String', 'including_validators'), ('List', 'descent_validated_by'), ('Enum', 'valued'))
    ns = ctx.do('from flatland import *\nK = %s\na = String() if K is String else Dict.of(String.named(u"x"))() if K is Dict else List.of(String)() if K is List else K()\nb = type(a)()' % cls)
    v = ctx.any('v')
    assigned = False
    for i in range(4):
        op = ctx.choose('set', 'del', 'read', 'stop')
        if op == 'stop':
            break
        if op == 'set':
            ctx.put(ns['a'], meth, v)
            assigned = True
        elif op == 'del':
            st, r, e = ctx.catch(lambda: ctx.do('del o.%s' % meth, o=ns['a']))
            ctx.check(st == ('ok' if assigned else 'raise') and (assigned or r == 'AttributeError'), 'deleting gives %s' % r)
            assigned = False
        st, r, e = ctx.catch(lambda: ctx.attr(ns['a'], meth))
        if assigned:
            ctx.check(st == 'ok' and ctx.R(r) is ctx.R(v), 'the assigned attribute reads %s' % (r if st == 'raise' else ctx.show(r)))
        else:
            ctx.check(st == 'raise' and r == 'AttributeError', '%s of an element gives %s' % (meth, r if st == 'raise' else ctx.show(r)))
        st, r, e = ctx.catch(lambda: ctx.attr(ns['b'], meth))
        ctx.check(st == 'raise' and r == 'AttributeError', '%s of another element gives %s' % (meth, r if st == 'raise' else ctx.show(r)))
        st, r, e = ctx.catch(lambda: ctx.attr(ns['K'], meth))
        ctx.check(st == 'ok', '%s of the class raises %s' % (meth, r))
