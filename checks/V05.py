"""V05 — the scalar validators accept exactly the documented values."""
from sa.oblig import Check

check = Check('V05', 'Scalar validators accept exactly the documented values')
S = 'flatland.validation.scalars:'
PRE = '''
    from flatland.validation import *
    from flatland.validation.scalars import *
    class Stub(Scalar):
        value = V
        u = U
    el = Stub.named(u'el')()
    el.value = V
    el.u = U
'''


def table(name, anchor, make, accepts, keys, doc):
    """make: client expression of the validator; accepts: client expression over value/text/bounds."""
    @check.ob(name, [S + anchor + '.validate'], doc)
    def ob(ctx):
        v = ctx.sym('value', 'none', 'int', 'text', 'bool') if name in ('Present', 'IsTrue', 'IsFalse', 'Converted') else (
            ctx.sym('value', 'int'))
        u = ctx.text('u')
        lo, hi = ctx.sym('lo', 'int'), ctx.sym('hi', 'int')
        state = ctx.any('state')
        msgs = dict((k, u'MSG %s' % k) for k in keys)
        if name.startswith('ValueIn'):
            # what is listed need not be of the kind of the value
            kinds = ctx.choose('numbers', 'value none', 'options hold the text', 'options hold none', 'text')
            if kinds == 'value none':
                v = None
            elif kinds == 'options hold the text':
                lo = u
            elif kinds == 'text':
                v, lo, hi = ctx.text('v'), ctx.text('lo'), ctx.choose(u'', u'x')
            elif kinds == 'options hold none':
                hi = None
                v = ctx.choose(v, None, u)
        ns = ctx.do(PRE, V=v, U=u)
        el = ns['el']
        # the state of the element does not matter
        how = ctx.choose('fresh', 'optional', 'invalid', 'required')
        if how == 'invalid':
            ctx.put(el, 'valid', False)
        elif how != 'fresh':
            ctx.put(el, 'optional', how == 'optional')
        ctx.I.run.truth.setdefault(state, False)
        val = ctx.do('val = %s' % make, lo=lo, hi=hi, KW=ctx.I.new_dict([(k, m) for k, m in msgs.items()]), **dict((k, x) for k, x in ns.items() if not k.startswith('__')))['val']
        before = list(ctx.items(ctx.attr(el, 'errors')))
        r = ctx.R(ctx.call(val, el, None))
        want = ctx.truth(ctx.do('w = %s' % accepts, value=v, u=u, lo=lo, hi=hi)['w'])
        ctx.check(r is want, '%s gives %s, documented %s' % (name, ctx.show(r), want))
        errors = [ctx.R(e) for e in ctx.items(ctx.attr(el, 'errors'))]
        if want:
            ctx.check(not errors, 'an accepted value records %s' % errors)
        else:
            key = keys[0]
            ctx.check(len(errors) == 1 and ctx.same(errors[0], msgs[key]), 'a rejected value records %s instead of the %r message' % ([ctx.show(e) for e in errors], key))
        ctx.check(not ctx.items(ctx.attr(el, 'warnings')), 'a warning is recorded')
        ctx.check(ctx.same(ctx.attr(el, 'value'), v) and ctx.same(ctx.attr(el, 'u'), u), 'the validator changes the element')


table('Present', 'Present', 'Present(**KW)', 'not (u == u"")', ['missing'], 'Present: the text is not empty')
table('IsTrue', 'IsTrue', 'IsTrue(**KW)', 'bool(value)', ['false'], 'IsTrue: the value is true')
table('IsFalse', 'IsFalse', 'IsFalse(**KW)', 'not bool(value)', ['true'], 'IsFalse: the value is false')
table('Converted', 'Converted', 'Converted(**KW)', 'value is not None', ['incorrect'], 'Converted: the value is not None')
table('ShorterThan', 'ShorterThan', 'ShorterThan(maxlength=hi, **KW)', 'not (len(u) > hi)', ['exceeded'], 'ShorterThan: at most maxlength characters')
table('ShorterThan-positional', 'ShorterThan', 'ShorterThan(hi, **KW)', 'not (len(u) > hi)', ['exceeded'], 'positional maxlength')
table('NoLongerThan', 'ShorterThan', 'NoLongerThan(hi, **KW)', 'not (len(u) > hi)', ['exceeded'], 'NoLongerThan is ShorterThan')
table('LongerThan', 'LongerThan', 'LongerThan(minlength=lo, **KW)', 'not (len(u) < lo)', ['short'], 'LongerThan: at least minlength characters')
table('LongerThan-positional', 'LongerThan', 'LongerThan(lo, **KW)', 'not (len(u) < lo)', ['short'], 'positional minlength')
table('LengthBetween', 'LengthBetween', 'LengthBetween(minlength=lo, maxlength=hi, **KW)', 'not (len(u) < lo or len(u) > hi)', ['breached'], 'LengthBetween: minlength to maxlength characters')
table('LengthBetween-positional', 'LengthBetween', 'LengthBetween(lo, hi, **KW)', 'not (len(u) < lo or len(u) > hi)', ['breached'], 'positional bounds')
table('ValueLessThan', 'ValueLessThan', 'ValueLessThan(boundary=hi, **KW)', 'value < hi', ['failure'], 'value < boundary')
table('ValueAtMost', 'ValueAtMost', 'ValueAtMost(maximum=hi, **KW)', 'value <= hi', ['failure'], 'value <= maximum')
table('ValueGreaterThan', 'ValueGreaterThan', 'ValueGreaterThan(boundary=lo, **KW)', 'value > lo', ['failure'], 'value > boundary')
table('ValueAtLeast', 'ValueAtLeast', 'ValueAtLeast(minimum=lo, **KW)', 'value >= lo', ['failure'], 'value >= minimum')
table('ValueBetween', 'ValueBetween', 'ValueBetween(minimum=lo, maximum=hi, **KW)', 'lo <= value and value <= hi', ['failure_inclusive', 'failure_exclusive'], 'inclusive range')
table('ValueBetween-inclusive', 'ValueBetween', 'ValueBetween(lo, hi, inclusive=True, **KW)', 'lo <= value and value <= hi', ['failure_inclusive', 'failure_exclusive'], 'inclusive range')
table('ValueBetween-exclusive', 'ValueBetween', 'ValueBetween(minimum=lo, maximum=hi, inclusive=False, **KW)', 'lo < value and value < hi', ['failure_exclusive', 'failure_inclusive'], 'exclusive range')
table('ValueIn', 'ValueIn', 'ValueIn(valid_options=[lo, hi], **KW)', 'value == lo or value == hi', ['fail'], 'value among valid_options')
table('ValueIn-positional', 'ValueIn', 'ValueIn([lo, hi], **KW)', 'value == lo or value == hi', ['fail'], 'positional options')
table('ValueIn-none', 'ValueIn', 'ValueIn(**KW)', 'False', ['fail'], 'no options accept nothing')


# kinds of collection of options, and what they hold
OPTIONS = [('(1, 2)', [1, 2]), ('[1, 2]', [1, 2]), ('set([1, 2])', [1, 2]), ('frozenset([1])', [1]), ('{1: 9, 2: 8}', [1, 2]), ('range(1, 3)', [1, 2]), ('(0,)', [0]),
           ('(True,)', [1]), ('(None, 1)', [None, 1]), ('[None]', [None]), ('()', []), ('Odd()', [1, 3]), ('iter([])', []), ('(u"1", u"2")', []), ('[(1, 2)]', [])]


@check.ob('ValueIn-collections', [S + 'ValueIn.validate'],
          'the value is looked up with "in", whatever kind of collection the options are and wherever they are set')
def valuein(ctx):
    expr, hold = ctx.choose(*OPTIONS)
    v = ctx.choose(0, 1, 2, 3, None)
    way = ctx.choose('ValueIn(%s)', 'ValueIn(valid_options=%s)', 'K()', 'ValueIn(valid_options=())')
    ns = ctx.do(PRE + '''
    class Odd(object):
        def __contains__(self, x):
            return x in (1, 3)
    class K(ValueIn):
        valid_options = %s
    val = %s
    r = val(el, None)
    ''' % (expr, way % expr if '%s' in way else way), V=v, U=u'1')
    want = v in hold and way[-3:] != '=()' and not way.endswith('=())')
    ctx.check(ctx.R(ns['r']) is want, '%r among %s (%s): %s' % (v, expr, way, ctx.show(ns['r'])))


@check.ob('order-none', [S + 'ValueLessThan.validate', S + 'ValueAtMost.validate', S + 'ValueGreaterThan.validate', S + 'ValueAtLeast.validate', S + 'ValueBetween.validate'],
          'an element without a value is below every number: refused by lower bounds, accepted by upper bounds')
def order_none(ctx):
    expr, want = ctx.choose(('ValueLessThan(B)', True), ('ValueAtMost(B)', True), ('ValueGreaterThan(B)', False), ('ValueAtLeast(B)', False),
                            ('ValueBetween(B, 99)', False), ('ValueBetween(B, 99, inclusive=False)', False))
    ns = ctx.do(PRE + '''
    val = %s
    r = val(el, None)
    ''' % expr, V=None, U=ctx.choose(u'', u'bad'), B=ctx.choose(-1, 0, 5))
    ctx.check(ctx.R(ns['r']) is want, '%s on an element without a value: %s' % (expr, ctx.show(ns['r'])))
    ctx.check(len(ctx.items(ctx.attr(ns['el'], 'errors'))) == (0 if want else 1), 'errors %s' % ctx.show(ctx.attr(ns['el'], 'errors')))


@check.ob('inclusive', [S + 'ValueBetween.validate'], 'inclusive may be any truth value, also on the class; either message is its own')
def inclusive(ctx):
    inc = ctx.choose(True, False, 1, 0, None, u'yes', u'')
    v = ctx.choose(0, 1, 2, 3, 4)
    how = ctx.choose('kw', 'class')
    ns = ctx.do(PRE + '''
    class K(ValueBetween):
        inclusive = INC
    M = dict(failure_inclusive=u'IN', failure_exclusive=u'EX')
    val = %s
    r = val(el, None)
    ''' % ('ValueBetween(1, 3, inclusive=INC, **M)' if how == 'kw' else 'K(1, 3, **M)'), V=v, U=u'', INC=inc)
    want = 1 <= v <= 3 if inc else 1 < v < 3
    ctx.check(ctx.R(ns['r']) is want, '%r between 1 and 3 with inclusive=%r: %s' % (v, inc, ctx.show(ns['r'])))
    errors = [ctx.R(e) for e in ctx.items(ctx.attr(ns['el'], 'errors'))]
    ctx.check(errors == ([] if want else [u'IN' if inc else u'EX']), 'inclusive=%r records %s' % (inc, errors))


@check.ob('lengths-table', [S + 'ShorterThan.validate', S + 'LongerThan.validate', S + 'LengthBetween.validate'],
          'lengths count every character of the text, bounds of zero included, set on the class, by position or by name')
def lengths(ctx):
    text = ctx.choose(u'', u'a', u' ', u'ab', u'a\n', u'\xe9\u4f8b', u'0', u'abc', u'  c ')
    lo, hi = ctx.choose((0, 0), (0, 2), (1, 1), (2, 3), (3, 2), (1, 0))
    kind, want, src = ctx.choose(('short', len(text) <= hi, 'ShorterThan(%d)' % hi), ('short-class', len(text) <= hi, 'A()'), ('long', len(text) >= lo, 'LongerThan(%d)' % lo),
                                 ('long-class', len(text) >= lo, 'B()'), ('between', lo <= len(text) <= hi, 'LengthBetween(%d, %d)' % (lo, hi)), ('between-class', lo <= len(text) <= hi, 'C()'),
                                 ('between-min', lo <= len(text) <= hi, 'C2(minlength=%d)' % lo), ('between-max', lo <= len(text) <= hi, 'C3(maxlength=%d)' % hi))
    ns = ctx.do(PRE + '''
    class A(ShorterThan):
        maxlength = HI
    class B(LongerThan):
        minlength = LO
    class C(LengthBetween):
        minlength = LO
        maxlength = HI
    class C2(LengthBetween):
        minlength = 7
        maxlength = HI
    class C3(LengthBetween):
        minlength = LO
        maxlength = 7
    val = %s
    r = val(el, None)
    ''' % src, V=ctx.choose(None, 5), U=text, LO=lo, HI=hi)
    ctx.check(ctx.R(ns['r']) is want, '%s [%d, %d] for %r: %s' % (kind, lo, hi, text, ctx.show(ns['r'])))


@check.ob('present-table', [S + 'Present.validate', S + 'Converted.validate', S + 'IsTrue.validate', S + 'IsFalse.validate'],
          'text and value are looked at separately: any text but the empty one is present, any value but None converted')
def present_table(ctx):
    text = ctx.choose(u'', u' ', u'0', u'\n', u'x')
    v = ctx.choose(None, 0, u'', False, True, u'0', 2)
    kind, want = ctx.choose(('Present()', text != u''), ('Converted()', v is not None), ('IsTrue()', bool(v)), ('IsFalse()', not v))
    ns = ctx.do(PRE + '''
    r = %s(el, None)
    ''' % kind, V=v, U=text)
    ctx.check(ctx.R(ns['r']) is want, '%s for value %r and text %r: %s' % (kind, v, text, ctx.show(ns['r'])))


@check.ob('MapEqual-table', [S + 'MapEqual.validate', S + 'ValuesEqual', S + 'UnisEqual'],
          'the fields are compared as they are, unset and blank ones included; the message lists the labels in the order of the paths', max_runs=9000, shards=8)
def map_table(ctx):
    kind = ctx.choose('ValuesEqual', 'UnisEqual')
    vals = [ctx.choose(None, 0, u'', u'x', 1) for i in range(2)] + [None]
    us = [ctx.choose(u'', u'0', u'x') for i in range(2)] + [u'']
    paths = ctx.choose((u'z', u'a'), (u'a', u'z'), (u'z', u'a', u'c'), (u'c', u'a', u'z'), (u'a', u'a', u'z'), (u'../p/z', u'a'), (u'/p/a', u'z'))
    ns = ctx.do('''
        from flatland.validation.scalars import *
        class Stub(Scalar):
            pass
        P = Dict.named(u'p').of(Stub.named(u'z').using(label=u'Z'), Stub.named(u'a').using(label=u'A'), Stub.named(u'c').using(label=LC))
        root = Dict.of(P)()
        el = root[u'p']
        for k, v, u in zip([u'z', u'a', u'c'], VALS, US):
            el[k].value = v
            el[k].u = u
        val = %s(*PATHS, **dict(unequal=u'%%(labels)s|%%(last_label)s'))
        r = val(el, None)
    ''' % kind, VALS=ctx.I.new_list(vals), US=ctx.I.new_list(us), PATHS=ctx.I.new_list(list(paths)), LC=ctx.choose(u'C', u'A'))
    r = ctx.R(ns['r'])
    src = dict(zip(u'zac', vals if kind == 'ValuesEqual' else us))
    got = [src[p[-1]] for p in paths]
    want = all(x == got[0] for x in got[1:])
    ctx.check(r is want, '%s of %s with %s: %s' % (kind, paths, got, ctx.show(r)))
    lab = {u'z': u'Z', u'a': u'A', u'c': ctx.R(ctx.attr(ctx.do('r = el[u"c"]', el=ns['el'])['r'], 'label'))}
    ls = [lab[p[-1]] for p in paths]
    errors = [ctx.R(e) for e in ctx.items(ctx.attr(ns['el'], 'errors'))]
    ctx.check(errors == ([] if want else [u', '.join(ls[:-1]) + u'|' + ls[-1]]), '%s of %s records %s' % (kind, paths, errors))


@check.ob('MapEqual', [S + 'MapEqual.validate'],
          'accepts iff the transforms of all named elements are equal to the first; the message names all labels', max_runs=9000)
def map_equal(ctx):
    kind = ctx.choose('MapEqual', 'MapEqual-default', 'ValuesEqual', 'UnisEqual')
    n = ctx.choose(2, 3)
    vals = [ctx.sym('v%d' % i, 'int') for i in range(n)]
    us = [ctx.text('u%d' % i) for i in range(n)]
    src = '''
        from flatland.validation.scalars import *
        class Stub(Scalar):
            pass
        K = Dict.of(Stub.named(u'a').using(label=u'A'), Stub.named(u'b').using(label=u'B'), Stub.named(u'c').using(label=u'C'))
        root = K()
    '''
    ns = ctx.do(src)
    names = [u'a', u'b', u'c'][:n]
    els = [ctx.R(ns['root'].p.get(ctx.I, k)[1]) for k in names]
    for e, v, u in zip(els, vals, us):
        ctx.put(e, 'value', v)
        ctx.put(e, 'u', u)
    calls = []

    def tr(e):
        calls.append(ctx.R(e))
        return ctx.attr(e, 'value')
    kw = {'unequal': u'%(labels)s|%(last_label)s'}
    cls = ctx.get(S + kind.split('-')[0])
    if kind == 'MapEqual':
        kw['transform'] = ctx.fn('transform', tr)
    val = ctx.call(cls, *names, **kw)
    r = ctx.R(ctx.call(val, ns['root'], None))
    if kind in ('MapEqual', 'ValuesEqual'):
        want = all([ctx.truth(ctx.do('r = a == b', a=v, b=vals[0])['r']) for v in vals[1:]])
    elif kind == 'UnisEqual':
        want = all([ctx.truth(ctx.do('r = a == b', a=v, b=us[0])['r']) for v in us[1:]])
    else:
        want = all([ctx.truth(ctx.do('r = a == b', a=e, b=els[0])['r']) for e in els[1:]])
    ctx.check(r is want, '%s of %d elements gives %s, expected %s' % (kind, n, ctx.show(r), want))
    errors = [ctx.R(e) for e in ctx.items(ctx.attr(ns['root'], 'errors'))]
    if want:
        ctx.check(not errors, 'equal elements record an error')
    else:
        ctx.check(errors == [u'A|B' if n == 2 else u'A, B|C'], 'the message does not list the labels: %s' % errors)


@check.ob('MapEqual-paths', [S + 'MapEqual.__init__'], 'fewer than two paths are refused; class level paths work')
def map_paths(ctx):
    st, r, e = ctx.catch(lambda: ctx.do('from flatland.validation import ValuesEqual\nv = ValuesEqual("a")'))
    ctx.check(st == 'raise', 'a single path is accepted')
    st, r, e = ctx.catch(lambda: ctx.do('from flatland.validation import ValuesEqual\nv = ValuesEqual()'))
    ctx.check(st == 'raise', 'no path at all is accepted')
    ns = ctx.do('''
        from flatland.validation import ValuesEqual
        class V(ValuesEqual):
            field_paths = (u'a', u'b')
        root = Dict.of(Integer.named(u'a'), Integer.named(u'b'))()
        root.set({u'a': X, u'b': Y})
        r = V()(root, None)
        same = X == Y
    ''', X=ctx.sym('x', 'int'), Y=ctx.sym('y', 'int'))
    ctx.check(ctx.truth(ns['r']) is ctx.truth(ns['same']), 'class level field_paths are ignored')


@check.ob('MapEqual-many', [S + 'MapEqual.validate', S + 'ValuesEqual', S + 'UnisEqual'],
          'however many fields are named, one that differs is enough, at whatever place; every label is listed', max_runs=4000)
def map_many(ctx):
    n = ctx.choose(2, 3, 4, 5, 6, 9)
    odd = ctx.choose(None, *range(n))
    kind = ctx.choose('ValuesEqual', 'UnisEqual', 'MapEqual')
    ns = ctx.do('''
        from flatland.validation.scalars import *
        names = [u'f%%d' %% i for i in range(N)]
        el = Dict.of(*[String.named(x).using(label=x.upper()) for x in names])()
        for i, x in enumerate(names):
            el[x].set(u'odd' if i == ODD else u'same')
        kw = dict(unequal=u'%%(labels)s|%%(last_label)s')
        if %r == 'MapEqual':
            kw['transform'] = lambda e: len(e.u)
        r = %s(*names, **kw)(el, None)
    ''' % (kind, kind), N=n, ODD=odd)
    ctx.check(ctx.R(ns['r']) is (odd is None), '%s of %d fields, number %s differing: %s' % (kind, n, odd, ctx.show(ns['r'])))
    labels = [u'F%d' % i for i in range(n)]
    errors = [ctx.R(e) for e in ctx.items(ctx.attr(ns['el'], 'errors'))]
    ctx.check(errors == ([] if odd is None else [u', '.join(labels[:-1]) + u'|' + labels[-1]]), 'records %s' % errors)


@check.ob('MapEqual-are-paths', [S + 'MapEqual.validate'], 'the fields named are paths: they lead where find() leads from the element, also where a field is spelled like a path')
def map_are_paths(ctx):
    a = ctx.choose(u'b', u'/b', u'./b', u'in/b', u'/in/b', u'../b', u'b/', u'\\/b', u'in/../b')
    ns = ctx.do('''
        from flatland.validation.scalars import *
        K = Dict.of(String.named(u'b'), String.named(u'/b'), String.named(u'in/b'), String.named(u'../b'), String.named(u'./b'), Dict.named(u'in').of(String.named(u'b')))
        el = K({u'b': u'1', u'/b': u'2', u'in/b': u'3', u'../b': u'4', u'./b': u'5', u'in': {u'b': u'6'}})
        seen = []
        MapEqual(A, A, transform=lambda e: seen.append(e))(el, None)
        want = el.find(A, single=True)
    ''', A=a)
    ctx.check(all(ctx.R(e) is ctx.R(ns['want']) for e in ctx.items(ns['seen'])) and len(ctx.items(ns['seen'])) == 2, 'the path %r leads elsewhere' % a)


@check.ob('falsy-arguments', ['flatland.validation.scalars:ValueIn.__init__', 'flatland.validation.scalars:ShorterThan.__init__', 'flatland.validation.scalars:LongerThan.__init__',
                              'flatland.validation.scalars:LengthBetween.__init__'],
          'an argument of the constructor, by name or position, replaces what the class sets even if it is zero, empty or None; one that is not given does not')
def falsy_arguments(ctx):
    cls, attrs, vals = ctx.choose(('ValueIn', ('valid_options',), ((), None, 0, (1,))), ('ShorterThan', ('maxlength',), (0, None, 3)), ('LongerThan', ('minlength',), (0, None, 3)),
                                  ('LengthBetween', ('minlength', 'maxlength'), (0, None, 3)))
    given = [ctx.choose('no', *vals) for a in attrs]
    how = ctx.choose('name', 'position')
    ns = ctx.do('''
    from flatland.validation.scalars import *
    class K(%s):
        pass
    for a in ATTRS:
        setattr(K, a, 7)
    ''' % cls, ATTRS=ctx.I.new_list(list(attrs)))
    kw = {}
    if how == 'name':
        kw = dict((a, g) for a, g in zip(attrs, given) if g != 'no')
        args = []
    else:
        args = given[:]
        while args and args[-1] == 'no':
            args.pop()
        if 'no' in args:
            return
    v = ctx.call(ns['K'], *args, **kw)
    for a, g in zip(attrs, given):
        got = ctx.R(ctx.attr(v, a))
        if g == 'no':
            ctx.check(got == 7, '%s not given: %s' % (a, ctx.show(got)))
        else:
            ctx.check(ctx.same(got, g) or ctx.truth(ctx.I.eq(got, g)), '%s=%r over a class with its own: %s' % (a, g, ctx.show(got)))
        ctx.check(ctx.R(ctx.attr(ns['K'], a)) == 7, 'the class changes')
