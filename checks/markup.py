"""Shared reference for the markup checks: what a tag's attributes and contents must become."""
AUTO = {
    'auto_name': ('input', 'button', 'select', 'textarea', 'form'),
    'auto_value': ('input', 'button', 'option', 'textarea'),
    'auto_domid': ('input', 'button', 'select', 'textarea'),
    'auto_for': ('label',),
    'auto_tabindex': ('input', 'button', 'select', 'textarea'),
    'auto_filter': (),
}
DEFAULTS = {'auto_name': True, 'auto_value': True, 'auto_domid': False, 'auto_for': False, 'auto_tabindex': False,
            'auto_filter': False, 'tabindex': 0, 'domid_format': 'f_%s'}
TAGS = ('input', 'button', 'select', 'textarea', 'form', 'label', 'option', 'squiznart')
ON = (True, u'on', u'1', u'true', u'True', u't', u'yes', u'YES', u'On', 1)
OFF = (False, u'off', u'0', u'false', u'False', u'nil', u'no', u'OFF', 0)
NEITHER = ('MAYBE', u'auto', u'Auto', u'', u'whatever', None, 7)


def trool(v):
    """True, False, or None for 'no opinion'."""
    if v is True or v is False:
        return v
    if v is None:
        return None
    t = str(v).lower()
    if t in ('1', 'true', 't', 'on', 'yes'):
        return True
    if t in ('0', 'false', 'nil', 'off', 'no'):
        return False
    return None


class Bind(object):
    def __init__(self, el, fname, u, members=None, true=None):
        self.el, self.fname, self.u, self.members, self.true = el, fname, u, members, true

    def has(self, v):
        if self.members is not None:
            return v is not None and v.strip() in self.members    # members read the value as they read input
        return v == self.u


def toggle(attrs, key, settings):
    own = trool(attrs.pop(key, None))
    if own is not None:
        return own, own
    ctx = trool(settings[key])
    return (DEFAULTS[key] if ctx is None else ctx), False


def raw_id(tag, attrs, b):
    basis = b.fname if b is not None else attrs.get('name')
    if not basis:
        return None
    if tag == 'input' and attrs.get('type') in ('checkbox', 'radio'):
        suffix = ''.join(c for c in attrs.get('value', '') if c.isascii() and (c.isalnum() or c in '_:.-'))
        if suffix:
            basis += '_' + suffix
    return basis


def ref(tag, attrs, contents, settings, b):
    """(attributes, contents, settings) after the transformations, from the documentation.

    contents None means "none given"; ('u', text) means the escaped text of the element.
    """
    attrs, st = dict(attrs), dict(DEFAULTS)
    st.update(settings)
    go, forced = toggle(attrs, 'auto_name', st)
    if go and b is not None and b.fname:
        if forced or (attrs.get('name') is None and tag in AUTO['auto_name']):
            attrs['name'] = b.fname
    go, forced = toggle(attrs, 'auto_value', st)
    if go and b is not None and (forced or tag in AUTO['auto_value']):
        kind = attrs.get('type', '') if tag == 'input' else None
        if kind in ('checkbox', 'radio'):
            cur = attrs.get('value')
            if kind == 'checkbox' and cur is None and b.true is not None:
                attrs['value'] = cur = b.true
            if kind == 'radio' and cur is None:
                cur = ''
            if b.has(cur):
                attrs['checked'] = 'checked'
            else:
                attrs.pop('checked', None)
        elif kind in ('password', 'file', 'image'):
            if forced:
                attrs['value'] = b.u
        elif tag == 'option':
            cur = attrs.get('value')
            if cur is None:
                cur = (contents or '').strip()
            if b.has(cur):
                attrs['selected'] = 'selected'
            else:
                attrs.pop('selected', None)
        elif tag == 'textarea':
            if contents is None or forced:
                contents = ('u', b.u)
        elif attrs.get('value') is None or forced:
            attrs['value'] = b.u
    go, forced = toggle(attrs, 'auto_domid', st)
    if go and (forced or (attrs.get('id') is None and tag in AUTO['auto_domid'])):
        i = raw_id(tag, attrs, b)
        if i:
            attrs['id'] = st['domid_format'] % i
    go, forced = toggle(attrs, 'auto_for', st)
    if go and b is not None and (forced or (attrs.get('for') is None and tag in AUTO['auto_for'])):
        i = raw_id(tag, attrs, b)
        if i:
            attrs['for'] = st['domid_format'] % i
    go, forced = toggle(attrs, 'auto_tabindex', st)
    n = st['tabindex']
    if go and n and (forced or (attrs.get('tabindex') is None and tag in AUTO['auto_tabindex'])):
        attrs['tabindex'] = str(n)
        if n > 0:
            st['tabindex'] = n + 1
    toggle(attrs, 'auto_filter', st)
    return attrs, contents, st


SRC = '''
    from flatland.out.generic import Context, transform
    from flatland.out.markup import Generator
    from flatland.util import Maybe
    scalar = String.named(u'foo')(u'b')
    blank = String.named(u'foo')(u'')
    unset = String.named(u'foo')()
    anon = String(u'b')
    number = Integer.named(u'n')(12)
    bad = Integer.named(u'n')(u'<x')
    F = Dict.named(u'top').of(String.named(u'leaf'), List.named(u'items').of(String.named(u'it')))
    top = F()
    top[u'leaf'].set(u'a')
    top[u'items'].set([u'a', u'b'])
    leaf = top[u'leaf']
    item = top[u'items'][1]
    bag = Array.named(u'bag').of(String.named(u'm'))([u'a', u'b'])
    one = Array.named(u'one').of(String.named(u'm'))([u'a'])
    blanks = Array.named(u'blanks').of(String.named(u'm'))([u'', u'b'])
    nobag = Array.named(u'bag').of(String.named(u'm'))()
    nums = Array.named(u'nums').of(Integer)([1, u'x'])
    member = bag[0]
    elist = List.named(u'el').of(String)()
    edict = SparseDict.named(u'ed').of(String.named(u'k'))()
    list = List.named(u'fl').of(String)([u'a'])
    multi = MultiValue.named(u'mv').of(String)([u'b', u'c'])
    yes = Boolean.named(u'flag')(True)
    no = Boolean.named(u'flag')(False)
    Custom = Boolean.named(u'flag').using(true=u'Y', false=u'N')
    cyes = Custom(True)
    cno = Custom(False)
    cunset = Custom()
'''
BINDS = {
    'scalar': ('foo', 'b'), 'blank': ('foo', ''), 'unset': ('foo', ''), 'anon': ('', 'b'), 'number': ('n', '12'), 'bad': ('n', '<x'),
    'leaf': ('top_leaf', 'a'), 'item': ('top_items_1_it', 'b'), 'member': ('bag_m', 'a'),
    'one': ('one', None, ['a']), 'blanks': ('blanks', None, ['', 'b']),
    'bag': ('bag', None, ['a', 'b']), 'nobag': ('bag', None, []), 'nums': ('nums', None, ['1', 'x']), 'multi': ('mv', 'b', ['b', 'c']),
    'elist': ('el', '[]'), 'edict': ('ed', '{}'), 'list': ('fl', None),
    'yes': ('flag', '1', None, '1'), 'no': ('flag', '', None, '1'),
    'cyes': ('flag', 'Y', None, 'Y'), 'cno': ('flag', 'N', None, 'Y'), 'cunset': ('flag', '', None, 'Y'),
}


def bind(ctx, ns, name):
    if name is None:
        return None
    d = BINDS[name]
    b = Bind(ns[name], *d)
    if b.u is None:
        b.u = text(ctx, ctx.attr(b.el, 'u'))
    return b


def text(ctx, v):
    """Host text of a concrete text value; anything else as is."""
    v = ctx.R(v)
    p = getattr(v, 'p', None)
    if isinstance(p, (str, int, bool)) and not isinstance(v, type):
        return p
    return v


def val(ctx, ns, v):
    if v == 'MAYBE':
        return ns['Maybe']
    return v


def conv(v):
    return None if v == 'MAYBE' else v


def run(ctx, ns, tag, attrs, contents, settings, b):
    """Run the real transformation; (attributes, contents, tabindex left in the context)."""
    c = ctx.call(ns['Context'])
    ctx.m(c, 'push')
    for k, v in settings.items():
        ctx.m(c, '__setitem__', k, val(ctx, ns, v))
    d = ctx.I.new_dict([(k, val(ctx, ns, v)) for k, v in attrs.items()])
    out = ctx.call(ns['transform'], tag, d, contents, c, b.el if b is not None else None)
    got = {text(ctx, k): text(ctx, v) for k, v in ctx.host(d)}
    return got, text(ctx, out), text(ctx, ctx.m(c, '__getitem__', 'tabindex'))


def esc(t):
    return t.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def plain(t):
    """The text a browser reads from escaped text, or None if it is not fully escaped."""
    import re
    if not isinstance(t, str):
        return None
    if re.search(r'[<>]|&(?!(?:amp|lt|gt|quot|apos|#39|#x27|#34|#x22|#38|#x26|#60|#x3c|#62|#x3e|#10|#13|#9);)', t, re.I):
        return None
    import html
    return html.unescape(t)


def compare(ctx, ns, tag, attrs, contents, settings, b, bname=''):
    want, wc, wst = ref(tag, {k: conv(v) for k, v in attrs.items()}, contents, {k: conv(v) for k, v in settings.items()}, b)
    got, gc, gt = run(ctx, ns, tag, attrs, contents, settings, b)
    where = '<%s%s>%s, bound to %s, settings %s' % (tag, ''.join(' %s=%r' % i for i in sorted(attrs.items())),
                                                      '' if contents is None else contents, bname, settings)
    ctx.check(got == want, '%s: attributes become %s, not %s' % (where, show(ctx, got), want))
    if isinstance(wc, tuple):
        ctx.check(isinstance(gc, str) and plain(gc) == wc[1], '%s: contents become %s' % (where, gc if isinstance(gc, str) else ctx.show(gc)))
    else:
        ctx.check(gc == wc, '%s: contents become %s' % (where, ctx.show(gc)))
    ctx.check(gt == wst['tabindex'], '%s: next tabindex is %s, not %s' % (where, ctx.show(gt), wst['tabindex']))


def show(ctx, d):
    return {k if isinstance(k, str) else ctx.show(k): v if isinstance(v, (str, int, bool, type(None))) else ctx.show(v) for k, v in d.items()}
