"""G08 — id and for."""
from sa.oblig import Check
from . import markup as M

check = Check('G08', 'Generated ids are the formatted flattened name, and labels point at them')
G = 'flatland.out.generic:'


@check.ob('domid', [G + 'transform_domid', G + '_generate_raw_domid', G + '_sanitize_domid_suffix'],
          'the id is the flattened name (the name attribute when unbound) in the current format, plus the clean characters of the value for radios and checkboxes; '
          'existing ids stay unless forced', max_runs=6000, shards=4)
def domid(ctx):
    ns = ctx.do(M.SRC)
    bname = ctx.choose(*(sorted(M.BINDS) + [None]))
    b = M.bind(ctx, ns, bname)
    kind = ctx.choose(None, u'text', u'radio', u'checkbox')
    for tag in M.TAGS:
        for value in (None, u'', u'v', u'a b', u'x.:-_9', u'<&>', u'\xe9'):
            for name in (None, u'nm'):
                for own, outer in ((None, True), (True, None), (False, True), (None, None)):
                    for existing in (None, u'old', u''):
                        if existing == u'' and value is not None:
                            continue
                        attrs = {'auto_name': u'auto'}
                        if kind:
                            attrs['type'] = kind
                        if value is not None:
                            attrs['value'] = value
                        if name is not None:
                            attrs['name'] = name
                        if own is not None:
                            attrs['auto_domid'] = own
                        if existing is not None:
                            attrs['id'] = existing
                        s = {} if outer is None else {'auto_domid': outer}
                        if value == u'v':
                            s['domid_format'] = u'<%s>' if name is None else u'%%%s%%'
                        if tag != 'input' and (kind or value not in (None, u'v')) and not ctx.thorough:
                            continue
                        M.compare(ctx, ns, tag, attrs, None, s, b, bname)


@check.ob('for', [G + 'transform_for', G + '_generate_raw_domid'],
          'a label bound to the element of a tag gets, as its for, the id that tag gets; existing ones stay unless forced; unbound labels get none')
def for_(ctx):
    ns = ctx.do(M.SRC)
    bname = ctx.choose(*(sorted(M.BINDS) + [None]))
    b = M.bind(ctx, ns, bname)
    for fmt in (u'f_%s', u'%s', u'-%s-', u'50%%-%s', u'%8s', u'none%%'[:4] + u'%.2s'):
        for own, outer in ((None, True), (True, None), (False, True), (None, None), (u'auto', True)):
            for existing in (None, u'old', u''):
                for tag in ('label', 'input', 'squiznart'):
                    attrs = {}
                    if own is not None:
                        attrs['auto_for'] = own
                    if existing is not None:
                        attrs['for'] = existing
                    s = {'domid_format': fmt}
                    if outer is not None:
                        s['auto_for'] = outer
                    M.compare(ctx, ns, tag, attrs, None, s, b, bname)
        for tag in ('input', 'select', 'textarea', 'button'):
            s = {'domid_format': fmt, 'auto_domid': True, 'auto_for': True}
            got, c, n = M.run(ctx, ns, tag, {}, None, s, b)
            lab, c, n = M.run(ctx, ns, 'label', {}, None, s, b)
            ctx.check(got.get('id') == lab.get('for'), 'the id of a %s is %s but its label is for %s' % (tag, got.get('id'), lab.get('for')))


@check.ob('suffix', [G + '_sanitize_domid_suffix'],
          'of the value only the characters allowed in ids enter the id')
def suffix(ctx):
    ns = ctx.do(M.SRC)
    b = M.bind(ctx, ns, 'scalar')
    kind = ctx.choose(u'radio', u'checkbox')
    for c in [chr(i) for i in range(0, 256)] + [u'\u0100', u'\u0660', u'\u212a']:
        for t in (c, u'k' + c, c + u'k'):
            got, _, _ = M.run(ctx, ns, 'input', {'type': kind, 'value': t, 'auto_domid': True}, None, {}, b)
            clean = ''.join(x for x in t if x.isascii() and (x.isalnum() or x in '_:.-'))
            want = 'f_foo' + ('_' + clean if clean else '')
            ctx.check(got.get('id') == want, 'value %r gives the id %s' % (t, got.get('id')))
