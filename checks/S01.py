"""S01 — Scalar.set: raw / value / u / return value move together."""
from sa.oblig import Check

check = Check('S01', 'Scalar.set keeps raw, value, u and the return value in step')


def mk(ctx, base='Scalar'):
    adapted = ctx.any('ADAPTED')
    ok = ctx.choose(True, False)
    ctx.log = []
    def ser(v):
        ctx.log.append(v)
        return ctx.app('ser', v)
    ns = ctx.do('''
        from flatland.exc import AdaptationError
        class K(%s):
            def adapt(self, value):
                if OK:
                    return ADAPTED
                raise AdaptationError()
            def serialize(self, value):
                return SER(value)
        class Prior(K):
            pass
        el = K.named(u'k')()
    ''' % base, OK=ok, ADAPTED=adapted, SER=ctx.fn('serialize', ser))
    return ns['el'], ok, adapted


@check.ob('generic', ['flatland.schema.scalars:Scalar.set'],
          'any value, any adapt() outcome: raw is the value; success => value is what adapt returned and u its '
          'serialization (u"" for None); failure => value None and u the text of the value')
def generic(ctx):
    el, ok, adapted = mk(ctx)
    # arbitrary prior state
    for f in ('value', 'u', 'raw'):
        ctx.put(el, f, ctx.any('prior-' + f))
    v = ctx.any('v')
    r = ctx.m(el, 'set', v)
    ctx.check(ctx.same(ctx.attr(el, 'raw'), v), '.raw is not the value that was set')
    value, u = ctx.attr(el, 'value'), ctx.attr(el, 'u')
    ctx.check(ctx.R(r) is ok, 'set() returned %s after adaptation %s' % (ctx.show(r), 'succeeded' if ok else 'failed'))
    if ok:
        ctx.check(ctx.same(value, adapted), '.value is not what adapt() returned')
        if ctx.is_none(adapted):
            ctx.check(u == u'', '.u is %s for a None value' % ctx.show(u))
        else:
            ctx.check(ctx.same(u, ctx.app('ser', adapted)),
                      '.u is %s, not the serialization of .value' % ctx.show(u))
    else:
        ctx.check(value is None, '.value is %s after a failed adaptation' % ctx.show(value))
        if ctx.is_none(v):
            ctx.check(u == u'', '.u is %s after None failed to adapt' % ctx.show(u))
        else:
            ctx.check(ctx.kindset(u) <= {'text'}, '.u is not text after a failed adaptation: %s' % ctx.show(u))
            if ctx.kindset(v) == {'text'}:
                ctx.check(ctx.same(u, v), '.u is %s, not the text that failed to adapt' % ctx.show(u))
            elif ctx.kindset(v) != {'bytes'}:
                ctx.check(ctx.truth(ctx.I.eq(u, ctx.do('t = unicode(V)', V=v)['t'])), '.u is %s, not the text of the value that failed to adapt' % ctx.show(u))


VALUES = {'None': None, 'blank': u'', 'space': u'  ', 'text': u' x1 ', 'digits': u'12', 'zero': 0, 'minus': -3, 'true': True, 'false': False, 'float': 0.0, 'half': 2.5}
SOURCE = {'bytes': "'ab'", 'blank bytes': "''", 'bad bytes': "'\\xff'", 'list': '[]', 'filled list': '[1]', 'dict': '{}', 'tuple': '()', 'date': 'datetime.date(2010, 1, 2)',
          'datetime': 'datetime.datetime(2010, 1, 2, 3, 4, 5)', 'time': 'datetime.time(1, 2, 3)', 'date text': "u'2010-01-02'", 'time text': "u'01:02:03'", 'object': 'O()'}


@check.ob('shipped', ['flatland.schema.scalars:Scalar.set', 'flatland.schema.scalars:String.adapt', 'flatland.schema.scalars:Number.adapt', 'flatland.schema.scalars:Constrained.adapt'],
          'every shipped scalar type, holding anything, set to typical and odd values: raw, value, text and result are those its own adapt() and serialize() demand', max_runs=40000, shards=4)
def shipped(ctx):
    name = ctx.choose('String', 'String.using(strip=False)', 'Integer', 'Integer.using(signed=False)', 'Long', 'Float', 'Decimal', 'Boolean', "Boolean.using(true=u'yes', false=u'no')",
                      'Date', 'DateTime', 'Time', "Enum.valued(u'x1', u'12')", 'Enum.using(child_type=Integer).valued(0, 12)', 'Constrained.using(child_type=Date, valid_value=lambda e, v: bool(v))')
    before = ctx.choose('digits', 'list')
    key = ctx.choose(*sorted(list(VALUES) + list(SOURCE)))
    ns = ctx.do('''
    import datetime
    class O(object):
        def __unicode__(self):
            return u'obj'
    pre = %s
    v = %s
    el = %s()
    el.set(pre)
    r = el.set(v)
    fresh = el.__class__()
    try:
        a, ok = fresh.adapt(v), True
    except flatland.exc.AdaptationError:
        a, ok = None, False
    s = u'' if a is None else fresh.serialize(a)
    got = (el.raw is v, el.value == a and type(el.value) is type(a), isinstance(el.u, unicode))
    ''' % (repr(VALUES[before]) if before != 'digits' and before in VALUES else SOURCE.get(before, "u'12'"), SOURCE.get(key) or 'V', name), V=VALUES.get(key), flatland=ctx.get('flatland'))
    ok = ctx.truth(ns['ok'])
    what = '%s set to %s after %s' % (name, key, before)
    raw, same, text = [ctx.truth(x) for x in ctx.items(ns['got'])]
    ctx.check(raw, what + ': raw is not the value')
    ctx.check(ctx.R(ns['r']) is ok, what + ': set() gives %s' % ctx.show(ns['r']))
    ctx.check(same, what + ': value is %s' % ctx.show(ctx.attr(ns['el'], 'value')))
    ctx.check(text, what + ': .u is not text')
    u = ctx.attr(ns['el'], 'u')
    if ok:
        ctx.check(ctx.truth(ctx.I.eq(u, ns['s'])), what + ': .u is %s' % ctx.show(u))
    elif key != 'bad bytes':
        want = ctx.do("w = u'' if v is None else unicode(v)", v=ns['v'])['w']
        ctx.check(ctx.truth(ctx.I.eq(u, want)), what + ': .u is %s, not the text of the value' % ctx.show(u))
