"""G04 — which setting decides whether a transformation applies, and what it does then (auto_name)."""
from sa.oblig import Check
from . import markup as M

check = Check('G04', 'A tag setting beats the context, the context beats the default; True forces')
G = 'flatland.out.generic:'
KEYS = ('auto_name', 'auto_value', 'auto_domid', 'auto_for', 'auto_tabindex')
TARGET = {'auto_name': 'name', 'auto_value': 'value', 'auto_domid': 'id', 'auto_for': 'for', 'auto_tabindex': 'tabindex'}


@check.ob('precedence', [G + '_pop_toggle', 'flatland.out.util:parse_trool', G + 'transform'],
          'for each transformation: the setting on the tag decides if it has an opinion, else the context, else the default; only a true setting '
          'on the tag replaces what is there and reaches other tags; every spelling of on, off and auto counts the same', max_runs=4000, shards=8)
def precedence(ctx):
    ns = ctx.do(M.SRC)
    key = ctx.choose(*KEYS)
    inner = ctx.choose(*(['absent'] + list(range(len(M.ON + M.OFF + M.NEITHER)))))
    allv = M.ON + M.OFF + M.NEITHER
    outers = [None] + ([True, False, 'MAYBE', u'on', u'off', u'auto'] if not ctx.thorough else list(allv))
    b = M.bind(ctx, ns, 'scalar')
    for outer in range(len(outers)):
        for tag in ('input', 'label', 'squiznart', 'form'):
            for existing in (False, True):
                for bound in (True, False):
                    attrs = {}
                    if existing:
                        attrs[TARGET[key]] = u'old'
                    if inner != 'absent':
                        attrs[key] = allv[inner]
                    settings = {'tabindex': 3}
                    if outer:
                        settings[key] = outers[outer]
                    M.compare(ctx, ns, tag, attrs, None, settings, b if bound else None, 'foo=b')


@check.ob('outer-spellings', [G + '_pop_toggle', 'flatland.out.util:parse_trool'],
          'a setting in the context counts the same however it is spelled')
def outer_spellings(ctx):
    ns = ctx.do(M.SRC)
    key = ctx.choose(*KEYS)
    b = M.bind(ctx, ns, 'scalar')
    for v in M.ON + M.OFF + M.NEITHER:
        for tag in ('input', 'label'):
            M.compare(ctx, ns, tag, {}, None, {'tabindex': 3, key: v}, b, 'foo=b')


@check.ob('nested', [G + '_pop_toggle', G + 'Context.push'],
          'of nested blocks only the innermost counts: without an opinion there, it is the default that decides', max_runs=4000, shards=8)
def nested(ctx):
    ns = ctx.do(M.SRC)
    key = ctx.choose(*KEYS)
    b = M.bind(ctx, ns, 'scalar')
    outer = ctx.choose(True, False, u'on', u'off', 'MAYBE')
    inner = ctx.choose('unset', u'auto', 'MAYBE', None, True, u'off')
    own = ctx.choose('absent', u'auto', 'MAYBE')
    how = ctx.choose('context', 'begin', 'begin-set')
    for tag in ('input', 'label', 'squiznart'):
        for existing in (False, True):
            attrs = {}
            if existing:
                attrs[TARGET[key]] = u'old'
            if own != 'absent':
                attrs[key] = own
            if how == 'context':
                c = ctx.call(ns['Context'])
                ctx.m(c, '__setitem__', key, M.val(ctx, ns, outer))
                ctx.m(c, 'push', tabindex=3)
                if inner != 'unset':
                    ctx.m(c, '__setitem__', key, M.val(ctx, ns, inner))
            else:
                c = ctx.call(ns['Generator'])
                ctx.m(c, 'set', **{key: M.val(ctx, ns, outer)})
                if how == 'begin':
                    kw = {} if inner == 'unset' else {key: M.val(ctx, ns, inner)}
                    ctx.m(c, 'begin', tabindex=3, **kw)
                else:
                    ctx.m(c, 'begin')
                    kw = {} if inner == 'unset' else {key: M.val(ctx, ns, inner)}
                    ctx.m(c, 'set', tabindex=3, **kw)
            d = ctx.I.new_dict([(k, M.val(ctx, ns, v)) for k, v in attrs.items()])
            ctx.call(ns['transform'], tag, d, None, c, b.el)
            got = {M.text(ctx, k): M.text(ctx, v) for k, v in ctx.host(d)}
            want, _, _ = M.ref(tag, {k: M.conv(v) for k, v in attrs.items()}, None,
                               {'tabindex': 3, key: M.conv(outer if inner == 'unset' else inner)}, b)
            ctx.check(got == want, '%s %s within %s (%s), %s: attributes become %s, not %s' % (key, inner, outer, how, tag, M.show(ctx, got), want))


@check.ob('independent', [G + 'transform'],
          'each transformation obeys its own setting only, whatever the others are set to', max_runs=4000, shards=8)
def independent(ctx):
    ns = ctx.do(M.SRC)
    tag = ctx.choose('input', 'label', 'textarea')
    b = M.bind(ctx, ns, 'scalar')
    opts = (None, True, False)
    a, c, d = ctx.choose(*opts), ctx.choose(*opts), ctx.choose(*opts)
    for e in opts:
        for f in opts:
            where = {'auto_name': a, 'auto_value': c, 'auto_domid': d, 'auto_for': e, 'auto_tabindex': f}
            s = {k: v for k, v in where.items() if v is not None}
            M.compare(ctx, ns, tag, dict(s), None, {'tabindex': 3}, b, 'foo=b')
            M.compare(ctx, ns, tag, {}, None, dict(s, tabindex=3), b, 'foo=b')


@check.ob('name', [G + 'transform_name'],
          'name is the flattened name of the element; tags without a name of their own get it, unless it is blank')
def name(ctx):
    ns = ctx.do(M.SRC)
    bname = ctx.choose(*(sorted(M.BINDS) + [None]))
    b = M.bind(ctx, ns, bname)
    for tag in M.TAGS:
        for existing in (None, u'', u'old'):
            for force in (None, True, False):
                attrs = {'auto_value': False}
                if existing is not None:
                    attrs['name'] = existing
                if force is not None:
                    attrs['auto_name'] = force
                M.compare(ctx, ns, tag, attrs, None, {}, b, bname)


@check.ob('spellings', ['flatland.out.util:parse_trool'],
          'on, 1, true, t, yes and off, 0, false, nil, no count in any mixture of case, as text or as what reads so; all else has no opinion')
def spellings(ctx):
    import itertools
    f = ctx.get('flatland.out.util:parse_trool')
    maybe = ctx.get('flatland.util.base:Maybe')
    word, want = ctx.choose(*[(w, True) for w in ('on', '1', 'true', 't', 'yes')] + [(w, False) for w in ('off', '0', 'false', 'nil', 'no')]
                            + [(w, None) for w in ('auto', '', 'y', 'n', 'o', 'f', 'maybe', ' on', 'on ', '01', '10', 'onn', 'none', 'null', 'tru', '2', '-1', 'nope')])
    for cs in itertools.product(*[sorted({c.lower(), c.upper()}) for c in word]):
        t = ''.join(cs)
        r = ctx.R(ctx.call(f, t))
        ctx.check(r is (ctx.R(maybe) if want is None else want), '%r reads as %s' % (t, ctx.show(r)))
    for v, w in ((1, True), (0, False), (True, True), (False, False), (None, None), (2, None), (-1, None), (maybe, None)):
        r = ctx.R(ctx.call(f, v))
        ctx.check(r is (ctx.R(maybe) if w is None else w), '%s reads as %s' % (ctx.show(v), ctx.show(r)))
