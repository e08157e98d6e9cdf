"""G06 — checked and selected."""
from sa.oblig import Check
from . import markup as M

check = Check('G06', 'checked and selected follow the element, replacing what the tag said')
G = 'flatland.out.generic:'


@check.ob('checkable', [G + 'transform_value', 'flatland.schema.containers:Array.__contains__'],
          'a radio or checkbox is checked iff its value is the text of the element, or the Array contains it; a stale checked is removed; the value itself stays',
          max_runs=4000, shards=4)
def checkable(ctx):
    ns = ctx.do(M.SRC)
    bname = ctx.choose(*(sorted(M.BINDS) + [None]))
    b = M.bind(ctx, ns, bname)
    for kind in (u'radio', u'checkbox'):
        for v in (u'', u'a', u'b', u'c', u'1', u'12', u'x', u'Y', u'N', u'm', u'ab', u'on', u'True', u' b', u'B', u'<x', u'[]', u'{}'):
            for stale in (None, u'checked', u''):
                for own in (None, True, False):
                    attrs = {'type': kind, 'value': v}
                    if stale is not None:
                        attrs['checked'] = stale
                    if own is not None:
                        attrs['auto_value'] = own
                    M.compare(ctx, ns, 'input', attrs, None, {}, b, bname)


@check.ob('boolean-checkbox', [G + 'transform_value'],
          'a checkbox without a value gets the true text of its Boolean and is checked iff the Boolean is true; other elements give it no value')
def boolean_checkbox(ctx):
    ns = ctx.do(M.SRC)
    bname = ctx.choose('yes', 'no', 'cyes', 'cno', 'cunset', 'scalar', 'blank', 'unset', 'number', None)
    b = M.bind(ctx, ns, bname)
    for stale in (None, u'checked'):
        for own in (None, True, False):
            for outer in (None, False, True):
                attrs = {'type': u'checkbox'}
                if stale:
                    attrs['checked'] = stale
                if own is not None:
                    attrs['auto_value'] = own
                M.compare(ctx, ns, 'input', attrs, None, {} if outer is None else {'auto_value': outer}, b, bname)


@check.ob('option', [G + 'transform_value', 'flatland.schema.containers:Array.__contains__'],
          'an option is selected iff its value, else its stripped text, is the text of the element, or the Array contains it; a stale selected is removed',
          max_runs=4000, shards=4)
def option(ctx):
    ns = ctx.do(M.SRC)
    bname = ctx.choose(*(sorted(M.BINDS) + [None]))
    b = M.bind(ctx, ns, bname)
    for v in (None, u'', u'a', u'b', u'1', u'12', u'Y', u' b'):
        for given in (None, u'', u'a', u' b\n', u'\tb\r\n', u'12', u'Y', u'B', u'[]'):
            for stale in (None, u'selected'):
                for own in (None, True, False):
                    attrs = {}
                    if v is not None:
                        attrs['value'] = v
                    if stale:
                        attrs['selected'] = stale
                    if own is not None:
                        attrs['auto_value'] = own
                    M.compare(ctx, ns, 'option', attrs, given, {}, b, bname)


@check.ob('any-text', [G + 'transform_value'],
          'the comparison is equality of texts, for any text')
def any_text(ctx):
    ns = ctx.do(M.SRC)
    t, v = ctx.text('t'), ctx.text('v')
    many = ctx.choose(False, True)
    if many:
        el = ns['nobag']
        ctx.m(el, 'set', ctx.I.new_list([t, u'other']))
    else:
        el = ns['unset']
        ctx.m(el, 'set', t)
        us = [ctx.attr(el, 'u')]
    tag, attr = ctx.choose(('input', 'checked'), ('option', 'selected'))
    attrs = {'value': v}
    if tag == 'input':
        attrs['type'] = ctx.choose(u'radio', u'checkbox')
    d = ctx.I.new_dict(list(attrs.items()))
    ctx.call(ns['transform'], tag, d, None, ctx.call(ns['Context']), el)
    got = {M.text(ctx, k): val for k, val in ctx.host(d)}
    want = False
    if many:
        want = ctx.truth(ctx.do('r = v in el', v=v, el=el)['r'])
    else:
        want = ctx.I.eq(us[0], v)
    ctx.check((attr in got) == want, '%s is %s although the value %s the text' % (attr, 'set' if attr in got else 'not set', 'is' if want else 'is not'))
    ctx.check(ctx.same(got['value'], v), 'the value of the tag changes')
