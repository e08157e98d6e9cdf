"""G02 — filters."""
from sa.oblig import Check
from . import markup as M

check = Check('G02', 'Filters see every tag they are meant for, finished, in order')
G = 'flatland.out.generic:'


@check.ob('pipeline', [G + 'transform_filters', G + 'transform'],
          'with filtering on, each filter is called in order, after everything else, with the tag, its attributes, the contents its predecessor returned, the context and the element; '
          'a filter that lists tags sees only those; what the last returns are the contents, and changes to the attributes stay', max_runs=20000, shards=4)
def pipeline(ctx):
    ns = ctx.do(M.SRC)
    tag = ctx.choose('input', 'textarea', 'label', 'x')
    own = ctx.choose(None, True, False, u'auto')
    outer = ctx.choose(None, True, False)
    bname = ctx.choose('scalar', None)
    b = M.bind(ctx, ns, bname)
    on = M.trool(own)
    if on is None:
        on = bool(outer)
    tagsets = ('absent', None, (), (u'input',), (u'label', u'x'), 'frozen')
    for t1 in tagsets:
        for t2 in tagsets:
            calls = []
            fs = []
            for i, ts in enumerate((t1, t2)):
                def f(tagname, attributes, contents, context, bind_, i=i):
                    snapshot = {M.text(ctx, k): M.text(ctx, v) for k, v in ctx.host(attributes)}
                    calls.append((i, M.text(ctx, tagname), snapshot, M.text(ctx, contents), ctx.R(context), ctx.R(bind_)))
                    ctx.do('a[u"f%d"] = u"v"\na.pop(u"gone", None)' % i, a=attributes)
                    return u'c%d' % i
                o = ctx.fn('filter%d' % i, f)
                o = ctx.do('''
    class Filter(object):
        def __init__(self, f):
            self.f = f
        def __call__(self, *a):
            return self.f(*a)
    o = Filter(f)
''', f=o)['o']
                if ts != 'absent':
                    ctx.put(o, 'tags', ctx.do('r = frozenset([u"input", u"x"])')['r'] if ts == 'frozen' else None if ts is None else ctx.do('r = %r' % (ts,))['r'])
                fs.append(o)
            c = ctx.call(ns['Context'])
            ctx.m(c, '__setitem__', 'filters', ctx.do('r = (a, b)', a=fs[0], b=fs[1])['r'])
            if outer is not None:
                ctx.m(c, '__setitem__', 'auto_filter', outer)
            attrs = {'gone': u'x', 'class': u'k'}
            if own is not None:
                attrs['auto_filter'] = own
            d = ctx.I.new_dict([(k, v) for k, v in attrs.items()])
            out = ctx.call(ns['transform'], tag, d, None, c, b.el if b else None)
            got = {M.text(ctx, k): M.text(ctx, v) for k, v in ctx.host(d)}
            a, cont, _ = M.ref(tag, attrs, None, {}, b)
            if isinstance(cont, tuple):
                cont = M.esc(cont[1])
            want = []
            if on:
                for i, ts in enumerate((t1, t2)):
                    if ts == 'frozen':
                        ts = (u'input', u'x')
                    if ts == 'absent' or not ts or tag in ts:
                        want.append((i, tag, dict(a), cont, ctx.R(c), b.el if b else None))
                        a['f%d' % i] = 'v'
                        a.pop('gone', None)
                        cont = 'c%d' % i
            ctx.check([w[0] for w in calls] == [w[0] for w in want], 'tag %s, filters for %s and %s: called %s' % (tag, t1, t2, [w[0] for w in calls]))
            for g, w in zip(calls, want):
                ctx.check(g[1:4] == w[1:4], 'filter %d is called with %s, not %s' % (g[0], g[1:4], w[1:4]))
                ctx.check(g[4] is w[4] and (g[5] is ctx.R(w[5]) if w[5] is not None else g[5] is None), 'filter %d gets another context or element' % g[0])
            ctx.check(got == a, 'the attributes become %s, not %s' % (M.show(ctx, got), a))
            ctx.check(M.text(ctx, out) == cont, 'the contents become %s' % ctx.show(out))


@check.ob('returns', [G + 'transform_filters'],
          'whatever a filter returns becomes the contents, None and blank text too; a filter given several times is called as often; '
          'the kind of sequence and the names of other tags do not matter', max_runs=4000, shards=8)
def returns(ctx):
    ns = ctx.do(M.SRC)
    n = ctx.choose(1, 2, 4)
    rets = [ctx.choose('same', None, u'', u'text') for i in range(min(n, 2))]
    tags = ctx.choose((u'b',), (u'input', u'b'), None)
    seq = ctx.choose('list', 'tuple')
    kind = ctx.choose('list', 'tuple', 'set') if tags else None
    for tag in (u'b', u'button', u'sub', u'input', u'textarea', u'B'):
        for given in (None, u'', u'given'):
            calls = []

            def mk(i, r):
                def f(tagname, attributes, contents, context, bind_):
                    calls.append((i, M.text(ctx, contents)))
                    return contents if r == 'same' else r
                o = ctx.fn('filter%d' % i, f)
                o = ctx.do('def filter(tagname, attributes, contents, context, bind):\n    return f(tagname, attributes, contents, context, bind)\n', f=o)['filter']
                if tags:
                    ctx.put(o, 'tags', ctx.do('r = %s(%r)' % (kind, tags))['r'])
                return o
            fs = [mk(i, r) for i, r in enumerate(rets)]
            order = [0, 1, 0, 0][:n]
            c = ctx.call(ns['Context'])
            ctx.m(c, '__setitem__', 'filters', ctx.call(ctx.do('r = %s' % seq)['r'], ctx.I.new_list([fs[i] for i in order])))
            d = ctx.I.new_dict([('auto_filter', True)])
            out = M.text(ctx, ctx.call(ns['transform'], tag, d, given, c, None))
            want, cont = [], given
            if not tags or tag in tags:
                for i in order:
                    want.append((i, cont))
                    if rets[i] != 'same':
                        cont = rets[i]
            ctx.check(calls == want, '%s, filters for %s: calls %s, not %s' % (tag, tags, calls, want))
            ctx.check(out == cont, 'the contents become %r, not %r' % (out, cont))


@check.ob('failure', [G + 'transform_filters'],
          'an exception of a filter reaches the caller')
def failure(ctx):
    ns = ctx.do(M.SRC + '''
    def bad(tagname, attributes, contents, context, bind):
        raise KeyError(u'x')
''')
    g = ctx.call(ns['Generator'], auto_filter=True, filters=ctx.do('r = [f]', f=ns['bad'])['r'])
    st, r, x = ctx.catch(lambda: ctx.m(g, 'input', ns['scalar']))
    ctx.check(st == 'raise' and r == 'KeyError', 'a failing filter gives %s' % (r if st == 'raise' else ctx.show(r)))
