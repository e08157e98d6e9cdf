"""Abstract mutation clients shared by the sequence checks."""

LEN = 4


def build(ctx, cls, n=None, member='String', values=None):
    n = ctx.choose(*range(0, LEN)) if n is None else n
    vals = values or [u'v%d' % i for i in range(n)]
    ns = ctx.do('''
        K = %s.named(u's').of(%s.named(u'm'))
        el = K()
        for v in VALS:
            el.append(v)
        olds = [x for x in el]
    ''' % (cls, member), VALS=ctx.I.new_list(vals))
    return ns


def index(ctx, n, name='i', extra=0):
    """Every index class relative to the length (and out of range)."""
    return ctx.choose(*range(-n - extra, n + extra))


def item(ctx, ns, name):
    """A plain value, a fresh element or an element parented elsewhere."""
    k = 'plain' if ns.get('plain') else ctx.choose('plain', 'element', 'foreign')
    if k == 'plain':
        return ctx.text(name)
    if k == 'element':
        return ctx.do('e = K.member_schema(V)', K=ns['K'], V=ctx.text(name))['e']
    return ctx.do('o = K(); o.append(V); e = o[0]', K=ns['K'], V=ctx.text(name))['e']


def items(ctx, ns, name, hi=2):
    n = ctx.choose(*range(0, hi + 1))
    how = 'list' if ns.get('plain') else ctx.choose('list', 'tuple', 'generator', 'same', 'Array', 'List')
    if how in ('same', 'Array', 'List'):
        # the members of another sequence, handed over as that sequence
        return ctx.do('''
            x = KK()
            for v in VALS:
                x.append(v)
        ''', KK=ns['K'] if how == 'same' else ctx.do('r = %s.named(u"o").of(M)' % how, M=ctx.attr(ns['K'], 'member_schema'))['r'],
            VALS=ctx.I.new_list([ctx.text('%s%d' % (name, i)) for i in range(n)]))['x']
    x = ctx.I.new_list([item(ctx, ns, '%s%d' % (name, i)) for i in range(n)])
    if how == 'list':
        return x
    return ctx.do('x = tuple(X)' if how == 'tuple' else 'x = (v for v in X)', X=x)['x']


def span(ctx, n):
    '''Slices by every pair of bounds, absent, negative and out of range included.'''
    if n > 2:
        return ctx.choose((0, 1), (1, 2), (-2, -1), (1, None), (None, -1), (None, None), (-5, 1), (2, 9), (2, 1))
    b = [None] + list(range(-n - 1, n + 2))
    return ctx.choose(*b), ctx.choose(*b)


OPS = ['append', 'extend', 'insert', 'setitem', 'setslice', 'iadd', 'imul', 'pop', 'delitem', 'delslice', 'remove',
       'reverse', 'sort', 'set', 'set_default', 'set_flat', 'extslice', 'delextslice']


def apply(ctx, ns, op, tag='x'):
    """One mutation; returns False when the operation legitimately failed."""
    el = ns['el']
    n = len(el.p)
    env = dict(el=el, K=ns['K'])
    if op == 'append':
        src, env['x'] = 'el.append(x)', item(ctx, ns, tag)
    elif op == 'extend':
        src, env['x'] = 'el.extend(x)', items(ctx, ns, tag)
    elif op == 'iadd':
        src, env['x'] = 'el += x', items(ctx, ns, tag)
    elif op == 'imul':
        src, env['x'] = 'el *= x', ctx.choose(0, 1, 2)
    elif op == 'insert':
        src, env['i'], env['x'] = 'el.insert(i, x)', ctx.choose(*range(-n - 1, n + 2)), item(ctx, ns, tag)
    elif op == 'setitem':
        if not n:
            return False
        src, env['i'], env['x'] = 'el[i] = x', ctx.choose(*range(-n, n)), item(ctx, ns, tag)
    elif op == 'setslice':
        if ns.get('plain') or ctx.choose('spans', 'items') == 'spans':
            i, j = span(ctx, n) if not ns.get('plain') else ctx.choose((0, 0), (0, 1), (1, 2), (-1, None), (0, n), (n, n))
            x = ctx.I.new_list([ctx.text('%s%d' % (tag, q)) for q in range(ctx.choose(0, 1, 2))])
        else:
            i, j = ctx.choose((0, 0), (0, 1), (-1, None), (None, None))
            x = items(ctx, ns, tag)
        src, env['i'], env['j'], env['x'] = 'el[i:j] = x', i, j, x
    elif op == 'extslice':
        if n < 2:
            return False
        step = ctx.choose('::-1', '::2', '1::2', '::-2')
        k = len(range(n)[slice(*[int(q) if q else None for q in step.split(':')])])
        if k > 2:
            ns = dict(ns, plain=True)
        src, env['x'] = 'el[%s] = x' % step, ctx.I.new_list([item(ctx, ns, '%s%d' % (tag, q)) for q in range(k)])
    elif op == 'delextslice':
        if n < 2:
            return False
        src = 'del el[%s]' % ctx.choose('::-1', '::2', '1::2', '::-2')
    elif op == 'pop':
        if not n:
            return False
        i = ctx.choose(None, *range(-n, n))
        src, env['i'] = 'got = el.pop(%s)' % ('' if i is None else 'i'), -1 if i is None else i
    elif op == 'delitem':
        if not n:
            return False
        src, env['i'] = 'del el[i]', ctx.choose(*range(-n, n))
    elif op == 'delslice':
        env['i'], env['j'] = span(ctx, n)
        src = 'del el[i:j]'
    elif op == 'remove':
        if not n:
            return False
        src = 'el.remove(el[%d])' % ctx.choose(*range(n))
    elif op == 'reverse':
        src = 'el.reverse()'
    elif op == 'sort':
        src = 'el.sort(%s)' % ctx.choose('key=lambda x: x.u', 'key=lambda x: x.u, reverse=True', '', 'reverse=True')
    elif op == 'set':
        src, env['x'] = 'el.set(x)', ctx.I.new_list([ctx.text(tag + str(i)) for i in range(ctx.choose(0, 1, 2))])
    elif op == 'set_default':
        src = 'el.default = x; el.set_default()'
        env['x'] = ctx.I.new_list([ctx.text(tag + str(i)) for i in range(ctx.choose(0, 1, 2))])
    elif op == 'set_flat':
        cname = el.cls.name
        keys = [u's_0_m', u's_1_m'] if ctx.do('r = issubclass(K, List)', K=ns['K'])['r'] else [u's_m', u's_m']
        if ctx.do('r = issubclass(K, JoinedString)', K=ns['K'])['r']:
            keys = [u's']
        src, env['x'] = 'el.set_flat(x)', ctx.I.new_list([(k, ctx.text(tag + str(i))) for i, k in enumerate(keys[:ctx.choose(0, 1, 2)])])
    ns2 = ctx.do(src, **env)
    ns['el'] = ns2['el']
    ns['got'] = ns2.get('got')
    ns['args'] = env
    return True
