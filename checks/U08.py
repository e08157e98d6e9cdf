"""U08 — showing an object neither fails nor changes it."""
from sa.oblig import Check

check = Check('U08', 'Showing an element neither fails nor changes it')
B = 'flatland.schema.'
MAKE = ('String', 'Integer', 'Boolean', 'Date', 'DateTime', 'Float', 'Decimal', 'Enum.valued(u"x")', 'JoinedString.of(String)', 'DateYYYYMMDD',
        'Constrained.using(child_type=Integer, valid_value=staticmethod(lambda e, v: True))')


@check.ob('scalars', [B + 'scalars:Scalar.__repr__', B + 'scalars:Scalar.__str__', B + 'scalars:Scalar.__unicode__'],
          'repr() of a scalar is a byte string of class, name and value; str() and unicode() are its text; the element stays as it was', max_runs=4000)
def scalars(ctx):
    src = ctx.choose(*MAKE)
    name = ctx.choose(u'nm', None, u'\xe9\u0100', u'', u'%s')
    given = ctx.choose('unset', u'x', u'\xe9\u0100', u'%s %(a)s', None, u'')
    ns = ctx.do('''
        from flatland import *
        K = %s
        el = K.named(NAME)()
        if GIVEN != 'unset':
            el.set(GIVEN)
    ''' % src, NAME=name, GIVEN=given)
    el = ns['el']
    before = (ctx.attr(el, 'value'), ctx.attr(el, 'u'), ctx.attr(el, 'raw'))
    st, r, e = ctx.catch(lambda: ctx.do('r = repr(el)', el=el)['r'])
    ctx.check(st == 'ok', 'repr() of %s named %r raises %s' % (src, name, r))
    ok = ctx.do('''
        t = '<%s %r; value=%r>' % (type(el).__name__, el.name, el.value) == r
        b = isinstance(r, str)
        u = unicode(el) == el.u and isinstance(unicode(el), unicode)
        s = str(el) == el.u.encode('utf-8')
    ''', el=el, r=r)
    ctx.check(ctx.truth(ok['t']), 'repr() of %s is %s' % (src, ctx.show(r)))
    ctx.check(ctx.truth(ok['u']), 'unicode() is not the text')
    ctx.check(ctx.truth(ok['s']), 'str() is not the encoded text')
    after = (ctx.attr(el, 'value'), ctx.attr(el, 'u'), ctx.attr(el, 'raw'))
    ctx.check(all(ctx.R(a) is ctx.R(b) or ctx.same(a, b) for a, b in zip(before, after)), 'showing changes the element')


@check.ob('failing', [B + 'compound:Compound.__repr__'],
          'a compound whose value cannot be composed is shown all the same, saying why')
def failing(ctx):
    exc = ctx.choose('ValueError', 'KeyError', 'TypeError', 'NotImplementedError')
    name = ctx.choose(u'nm', None, u'\xe9')
    ns = ctx.do('''
        class K(Compound):
            field_schema = [String.named(u'x')]
            def compose(self):
                raise %s(u'no')
        K = K.named(NAME)
        el = K()
        r = repr(el)
        ok = r == '<K %%r; value raised %s>' %% (NAME,)
    ''' % (exc, exc), NAME=name)
    ctx.check(ctx.truth(ns['ok']), 'a failing compound is shown as %s' % ctx.show(ns['r']))


@check.ob('containers', [B + 'containers:List.__repr__', B + 'containers:ListSlot.__repr__'],
          'a container is shown as the plain list or dict of its members, slots hidden; paths and contexts are shown too')
def containers(ctx):
    ns = ctx.do('''
        from flatland import *
        l = List.named(u'l').of(String.named(u's'))([u'a', u'\\xe9'])
        e = List.of(Integer)()
        arr = Array.of(Integer)([1, u'x'])
        n = List.of(List.of(Integer))([[1], []])
        want_l = '[%r, %r]' % (l[0], l[1])
        want_arr = '[%r, %r]' % (arr[0], arr[1])
        want_n = '[[%r], []]' % (n[0][0],)
        got = [repr(l) == want_l, repr(e) == '[]', repr(arr) == want_arr, repr(n) == want_n]
        slot = repr(list(l._slots)[0]) == '<ListSlot[%r] for %r>' % (u'0', l[0])
        d = Dict.of(Integer.named(u'k'))()
        got.append(repr(d) == '{%r: %r}' % (u'k', d[u'k']))
    ''')
    for w, g in zip(('List', 'empty List', 'Array', 'nested List', 'Dict'), ctx.items(ns['got'])):
        ctx.check(ctx.truth(g), '%s is shown otherwise' % w)
    ctx.check(ctx.truth(ns['slot']), 'a slot is shown otherwise')


@check.ob('others', [B + 'paths:PathExpression.__repr__', B + 'properties:DictLike.__repr__', 'flatland.out.generic:Context.__repr__'],
          'path expressions show the path, properties and contexts what they hold')
def others(ctx):
    p = ctx.choose(u'a/b', u'', u'\xe9', u'../x[1]')
    ns = ctx.do('''
        from flatland import *
        from flatland.schema.paths import pathexpr
        from flatland.out.generic import Context
        from flatland.out.markup import Generator
        x = pathexpr(P)
        ok = [unicode(x) == P, repr(x) == 'pathexpr(%r)' % (P,)]
        K = String.with_properties(a=1)
        ok.append(repr(K.properties) == "{%r: 1}" % ('a',))
        el = K()
        ok.append(repr(el.properties) == "{%r: 1}" % ('a',))
        c = Context()
        r = repr(c)
        ok.append(r.startswith('Context({') and r.endswith('})'))
        r = repr(Generator())
        ok.append(r.startswith('Generator({') and r.endswith('})'))
    ''', P=p)
    for i, g in enumerate(ctx.items(ns['ok'])):
        ctx.check(ctx.truth(g), 'case %d is shown otherwise' % i)
