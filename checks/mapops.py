"""Abstract mutation clients shared by the mapping checks."""

OPS = ['setitem', 'update', 'update-kw', 'del', 'pop', 'popitem', 'clear', 'setdefault', 'set', 'set_flat',
       'set_default', 'set_by_object', 'setitem-element', 'set-pairs', 'update-pairs']


def build(ctx, cls, sparse_min=None):
    ns = ctx.do('''
        A = String.named(u'a').using(strip=False)
        B = String.named(u'b').using(strip=False, optional=True)
        K = %s.named(u'd').of(A, B)
    ''' % cls)
    if sparse_min is not None:
        ns = ctx.do("K = K.using(minimum_fields='required')", K=ns['K'], A=ns['A'], B=ns['B'])
    ns['el'] = ctx.do('el = K()', K=ns['K'])['el']
    if cls == 'SparseDict':
        for k in (u'a', u'b'):
            if ctx.choose(True, False):
                ctx.do('el[k] = v', el=ns['el'], k=k, v=u'old-' + k)
    else:
        ctx.do("el['a'] = u'old-a'; el['b'] = u'old-b'", el=ns['el'])
    return ns


def snapshot(ctx, el):
    return [(ctx.R(k), ctx.R(v), ctx.attr(v, 'value')) for k, v in el.p.items()]


def apply(ctx, ns, op):
    """('ok'|'raise', result or exception name, exception)"""
    el, K = ns['el'], ns['K']
    key = ctx.text('key')
    v = ctx.text('v')
    env = dict(el=el, K=K, k=key, v=v)
    if op == 'setitem-element':
        env['HOW'] = ctx.choose('loose', 'own', 'derived', 'held', 'other')
        key = {'loose': key, 'other': u'b'}.get(env['HOW'], u'a')
    src = {
        'setitem': 'r = None; el[k] = v',
        'setitem-element': '''
            r = None
            how = HOW
            if how == 'loose':
                e = String.named(k)(v)
            elif how == 'own':
                k = u'a'
                e = K.field_schema[0](v)
            elif how == 'derived':
                k = u'a'
                e = K.field_schema[0].using(optional=True)(v)
            elif how == 'held':
                k = u'a'
                o = K()
                o[u'a'] = v
                e = o[u'a']
            else:
                k = u'b'
                e = K.field_schema[0](v)
            el[k] = e
        ''',
        'update': 'r = el.update({k: v})',
        'update-pairs': 'r = el.update([(k, v), (u"a", u"later")])',
        'update-kw': 'r = el.update(%s=v)' % ctx.choose('a', 'b', 'zz') if op == 'update-kw' else '',
        'del': 'r = None; del el[k]',
        'pop': 'r = el.pop(k)',
        'popitem': 'r = el.popitem()',
        'clear': 'r = el.clear()',
        'setdefault': 'r = el.setdefault(k, v)',
        'set': 'r = el.set({k: v})',
        'set-pairs': 'r = el.set([(k, v), (u"a", u"later")])',
        'set_flat': 'r = el.set_flat([(u"d_" + k, v)])',
        'set_default': 'r = el.set_default()',
        'set_by_object': '''
            class O(object):
                pass
            o = O()
            setattr(o, %r, v)
            r = el.set_by_object(o)
        ''' % ctx.choose('a', 'zz') if op == 'set_by_object' else '',
    }[op]
    st, r, e = ctx.catch(lambda: ctx.do(src, **env)['r'])
    return st, r, e, key, v
