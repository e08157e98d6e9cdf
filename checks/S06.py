"""S06 — references."""
from sa.oblig import Check

check = Check('S06', 'A Ref is a window onto the element it names')
R = 'flatland.schema.scalars:'
SRC = '''
    def build(writable, shape, sep=None):
        path = {'flat': u'main', 'deep': u'd.main', 'item': u'l.1', 'up': u'main', 'dot': u'd/main', 'long': u'd::main', 'own': u'd/main'}[shape]
        ref = Ref.named(u'aux').using(sep=u'/').to(path) if shape == 'own' else Ref.named(u'aux').to(path) if sep is None else Ref.named(u'aux').to(path, sep=sep)
        if writable is not None:
            ref = ref.using(writable=writable)
        main = Integer.named(u'main')
        if shape == 'flat':
            return Dict.named(u't').of(main, ref)
        if shape in ('deep', 'dot', 'long', 'own'):
            return Dict.named(u't').of(Dict.named(u'd').of(main), ref)
        if shape == 'item':
            return Dict.named(u't').of(List.named(u'l').of(Integer.named(u'i')), ref)
        return Dict.named(u't').of(main, Dict.named(u's').of(Dict.named(u'q').of(ref)))
    def place(t, shape):
        return {'flat': lambda: (t[u'main'], t[u'aux']), 'deep': lambda: (t[u'd'][u'main'], t[u'aux']), 'dot': lambda: (t[u'd'][u'main'], t[u'aux']), 'long': lambda: (t[u'd'][u'main'], t[u'aux']), 'own': lambda: (t[u'd'][u'main'], t[u'aux']),
                'item': lambda: (t[u'l'][1], t[u'aux']), 'up': lambda: (t[u'main'], t[u's'][u'q'][u'aux'])}[shape]()
    def fill(t, shape, v):
        if shape == 'item':
            t.set({u'l': [0, v]})
        elif shape in ('deep', 'dot', 'long', 'own'):
            t.set({u'd': {u'main': v}})
        else:
            t.set({u'main': v})
    def seen(el):
        return (el.value, el.u, el.raw)
'''


def make(ctx, writable):
    shape = ctx.choose('flat', 'deep', 'item', 'up', 'dot', 'long', 'own')
    ns = ctx.do(SRC)
    cls = ctx.call(ns['build'], writable, shape, {'dot': u'/', 'long': u'::'}.get(shape))
    t = ctx.call(cls)
    ctx.call(ns['fill'], t, shape, 5)
    main, ref = ctx.host(ctx.call(ns['place'], t, shape))
    return ns, t, main, ref, shape


def agree(ctx, main, ref, when):
    ctx.check(ctx.truth(ctx.I.eq(ctx.attr(ref, 'value'), ctx.attr(main, 'value'))), '%s the reference has value %s and its target %s' % (
        when, ctx.show(ctx.attr(ref, 'value')), ctx.show(ctx.attr(main, 'value'))))
    ctx.check(ctx.truth(ctx.I.eq(ctx.attr(ref, 'u'), ctx.attr(main, 'u'))), '%s the reference has text %s and its target %s' % (
        when, ctx.show(ctx.attr(ref, 'u')), ctx.show(ctx.attr(main, 'u'))))


@check.ob('reads', [R + 'Ref.target', R + 'Ref.to'],
          'value and text of a reference are those of the element at its path, from the root of the tree, at any time, whatever was done to either')
def reads(ctx):
    ns, t, main, ref, shape = make(ctx, ctx.choose(None, True, False))
    if ctx.choose('early', 'late') == 'early':
        agree(ctx, main, ref, 'at first')
        ctx.check(ctx.R(ctx.attr(ref, 'target')) is ctx.R(main), 'the target is not the element at the path')
    how = ctx.choose('set', 'bad', 'value', 'flat', 'fill')
    if how == 'set':
        ctx.m(main, 'set', ctx.int('n'))
    elif how == 'bad':
        ctx.m(main, 'set', 'xx')
    elif how == 'value':
        ctx.I.setattr(main, 'value', 9)
    elif how == 'flat':
        key = {'flat': 't_main', 'up': 't_main', 'deep': 't_d_main', 'dot': 't_d_main', 'item': 't_l_1_i'}.get(shape, 't_d_main')
        ctx.do('t.set_flat([(k, u"12"), (u"t_l_0_i", u"3")])', t=t, k=key)
    else:
        ctx.call(ns['fill'], t, shape, 8)
    main, ref = ctx.host(ctx.call(ns['place'], t, shape))
    agree(ctx, main, ref, 'after ' + how)
    ctx.check(ctx.R(ctx.attr(ref, 'target')) is ctx.R(main), 'the target is not the element at the path')


@check.ob('replaced', [R + 'Ref.target'],
          'a reference follows when the element at its path is replaced')
def replaced(ctx):
    ns, t, main, ref, shape = make(ctx, ctx.choose(None, True))
    agree(ctx, main, ref, 'at first')
    how = ctx.choose('set', 'item', 'flat')
    if shape in ('flat', 'up'):
        ctx.do("t[u'main'].set(77)", t=t)
    elif shape == 'item' and how != 'flat':
        ctx.do("t[u'l'].insert(0, 77); t[u'l'].insert(0, 78)" if how == 'set' else "t[u'l'] = [1, 2, 3]", t=t)
    elif shape == 'item':
        ctx.do("t[u'l'].set_flat([(u'l_0_i', u'7'), (u'l_1_i', u'8')])", t=t)
    else:
        ctx.do({'set': "t[u'd'].set({u'main': 77})", 'item': "t[u'd'] = {u'main': 77}", 'flat': "t[u'd'].set_flat([(u'd_main', u'77')])"}[how], t=t)
    main, ref = ctx.host(ctx.call(ns['place'], t, shape))
    agree(ctx, main, ref, 'after the target was replaced')


@check.ob('moved', [R + 'Ref.target'],
          'a reference created before its tree is complete, or moved to another tree, resolves in the tree it is in')
def moved(ctx):
    ns = ctx.do(SRC + '''
    one = build(None, 'flat')()
    two = build(None, 'flat')()
    one.set({u'main': 1})
    two.set({u'main': 2})
    ref = one[u'aux']
    first = ref.value
    two[u'aux'] = ref
    second = two[u'aux'].value
''')
    ctx.check(ctx.R(ns['first']) == 1 and ctx.R(ns['second']) == 2, 'a moved reference reads %s and %s' % (ctx.show(ns['first']), ctx.show(ns['second'])))


@check.ob('writes', [R + 'Ref._set_value', R + 'Ref._set_u'],
          'writing a reference is ignored by default, changes value and text of the target if it is writable, and raises TypeError, changing nothing, if not')
def writes(ctx):
    w = ctx.choose('ignore', None, True, False, 1, u'yes', 0, u'')
    ns, t, main, ref, shape = make(ctx, w)
    if w in ('ignore', None):
        w = None
    else:
        w = bool(w)
    how = ctx.choose('set', 'set-text', 'bad', 'none', 'value', 'u')
    v = {'set': ctx.int('n'), 'set-text': '31', 'bad': 'xx', 'none': None, 'value': 6, 'u': 'zz'}[how]
    before = ctx.call(ns['seen'], main)
    if how in ('value', 'u'):
        st, r, e = ctx.catch(lambda: ctx.I.setattr(ref, how, v))
    else:
        st, r, e = ctx.catch(lambda: ctx.m(ref, 'set', v))
    if w is False:
        ctx.check(st == 'raise' and r == 'TypeError', 'writing (%s) to a read-only reference gives %s' % (how, r if st == 'raise' else 'no error'))
    else:
        ctx.check(st == 'ok', 'writing (%s) to a reference raises %s' % (how, r))
        if how not in ('value', 'u') and st == 'ok':
            ctx.check(ctx.truth(r) == (how != 'bad'), 'set() of a reference returns %s for %s' % (ctx.show(r), how))
    if not w:
        ctx.check(ctx.truth(ctx.I.eq(before, ctx.call(ns['seen'], main))), 'writing (%s) to a %s reference changes its target' % (how, 'read-only' if w is False else 'plain'))
    elif how in ('value', 'u'):
        ctx.check(ctx.same(ctx.attr(main, how), v), 'writing %s to a reference leaves its target at %s' % (how, ctx.show(ctx.attr(main, how))))
    else:
        twin = ctx.call(ctx.get('flatland.schema.scalars:Integer'))
        ctx.m(twin, 'set', v)
        agree(ctx, twin, main, 'compared with set() on an element, after %s' % how)
    agree(ctx, main, ref, 'after writing')
    ctx.check(ctx.R(ctx.attr(ref, 'raw')) is ctx.R(v) or how in ('value', 'u') or w is False or ctx.same(ctx.attr(ref, 'raw'), v), 'raw of the reference is %s' % ctx.show(ctx.attr(ref, 'raw')))


@check.ob('flat', [R + 'Ref'],
          'references neither appear in flattened data nor take part in it')
def flat(ctx):
    ns, t, main, ref, shape = make(ctx, ctx.choose(None, True))
    pairs = [tuple(ctx.host(p)) for p in ctx.items(ctx.m(t, 'flatten'))]
    ctx.check(not [k for k, v in pairs if 'aux' in k], 'flattening gives %s' % pairs)
    ctx.check(len(pairs) == (2 if shape == 'item' else 1) and pairs[-1][1] == '5', 'flattening gives %s' % pairs)


@check.ob('to', [R + 'Ref.to'],
          'to() derives a class that refers to the path, and leaves the original alone')
def to(ctx):
    r = ctx.do('''
    A = Ref.named(u'a')
    B = A.to(u'x.y')
    C = B.to(u'p/q.r', sep=u'/')
    r = (A.target_path is None, list(B.target_path) == [u'x', u'y'], [p for p in C.target_path] == [u'p', u'q.r'], B is not A, issubclass(B, A), B.name == u'a', Ref.target_path is None)
''')['r']
    ctx.check(all(ctx.truth(x) for x in r), 'to() gives %s' % ctx.show(r))
