"""G01 — nothing an element or a caller holds can break out of the markup."""
from sa.oblig import Check
from . import markup as M

check = Check('G01', 'Text never breaks out of the generated markup')
G = 'flatland.out.markup:'
N = 'flatland.out.generic:'
CHARS = (u'&', u'<', u'>', u'"', u"'", u'x', u';', u'\n', u'\xe9', u' ')
HOSTILE = [u''] + list(CHARS) + [a + b for a in CHARS for b in CHARS] + [
    u'&amp;', u'&lt;b&gt;', u'&#39;', u'<script>alert("x")</script>', u'" onclick="y', u"' x='", u'&&', u'a&b<c>d"e\'f', u']]>', u'-->', u'</textarea>',
    u'&amp;amp;', u'<<>>""', u'%s', u'%', u'{0}', u'\\', u'`', u'=']


def texts(ctx):
    if not ctx.thorough:
        return HOSTILE
    return HOSTILE + [a + b + c for a in CHARS[:6] for b in CHARS[:6] for c in CHARS[:6]]


def parts(ctx, out):
    """Split '<tag a="b" c="d">rest' as a browser would; None when it is no such thing."""
    import re
    m = re.match(r'<([a-z]+)((?:\s+[^\s"\'<>/=]+="[^"]*")*)\s*(/?)>', out, re.S)
    if not m:
        return None
    attrs = re.findall(r'\s+([^\s"\'<>/=]+)="([^"]*)"', m.group(2), re.S)
    return m.group(1), attrs, m.group(3), out[m.end():]


@check.ob('element-text', [G + '_attribute_escape', G + 'Tag._open', N + '_markup_escape', N + 'transform_value'],
          'whatever text the element holds: read back, the value attribute and the contents of a textarea are that text, and nothing else is in the markup',
          max_runs=2000, shards=4)
def element_text(ctx):
    ns = ctx.do(M.SRC)
    tag, kind = ctx.choose(('input', u'text'), ('input', None), ('input', u'password'), ('button', None), ('textarea', None), ('input', u'checkbox'), ('option', None), ('squiznart', None))
    how = ctx.choose('xhtml', 'html', 'unordered')
    g = ctx.call(ns['Generator'], 'html' if how == 'html' else 'xhtml')
    if how == 'unordered':
        ctx.m(g, 'set', ordered_attributes=False)
    for t in texts(ctx):
        el = ctx.do('el = String.named(u"n").using(strip=False)(t)', t=t)['el']
        kw = {'auto_value': True}
        if kind:
            kw['type'] = kind
        if kind == u'checkbox' or tag == 'option':
            kw['value'] = t
        out = M.text(ctx, ctx.m(g, 'tag', tag, el, **kw))
        p = parts(ctx, out)
        ctx.check(p is not None, '%s for text %r is not one tag: %s' % (tag, t, out))
        if p is None:
            continue
        attrs = dict((k, M.plain(v)) for k, v in p[1])
        want = {'name': 'n'}
        if kind:
            want['type'] = kind
        if tag != 'textarea':
            want['value'] = t
        if kind == u'checkbox':
            want['checked'] = 'checked'
        if tag == 'option':
            want['selected'] = 'selected'
            want.pop('name')
        if tag == 'squiznart':
            want.pop('name')
        ctx.check(attrs == want and len(p[1]) == len(want), '%s for text %r reads as %s' % (tag, t, p[1]))
        rest = p[3]
        if rest.endswith('</%s>' % tag):
            rest = rest[:-len(tag) - 3]
        ctx.check(M.plain(rest) == (t if tag == 'textarea' else ''), '%s for text %r contains %r' % (tag, t, rest))


@check.ob('caller-text', [G + '_attribute_escape', G + 'Tag._open'],
          'text passed as an attribute of any name, names and ids made from hostile field names, are read back as given')
def caller_text(ctx):
    ns = ctx.do(M.SRC)
    tag = ctx.choose('input', 'label', 'select', 'form', 'squiznart', 'a')
    g = ctx.call(ns['Generator'], auto_domid=True, auto_for=True)
    for t in texts(ctx):
        out = M.text(ctx, ctx.m(g, 'tag', tag, None, title=t, alt_=t))
        p = parts(ctx, out)
        ctx.check(p is not None and [(k, M.plain(v)) for k, v in p[1]] == [('alt', t), ('title', t)], '%s: title=%r reads as %s' % (tag, t, out))
        el = ctx.do('el = String.named(t)()', t=t)['el']
        out = M.text(ctx, ctx.m(g, 'tag', tag, el))
        p = parts(ctx, out)
        ctx.check(p is not None, '%s for an element named %r is %s' % (tag, t, out))
        if p is None or not t:
            continue
        got = dict((k, M.plain(v)) for k, v in p[1])
        if tag in ('input', 'select', 'form'):
            ctx.check(got.get('name') == t, '%s for an element named %r is %s' % (tag, t, out))
        if tag in ('input', 'select'):
            ctx.check(got.get('id') == 'f_' + t, '%s for an element named %r is %s' % (tag, t, out))
        if tag == 'label':
            ctx.check(got.get('for') == 'f_' + t, '%s for an element named %r is %s' % (tag, t, out))


@check.ob('any-element', [G + '_attribute_escape', N + '_markup_escape'],
          'the text of every kind of element is escaped: numbers, failed input, dates, compounds, arrays')
def any_element(ctx):
    ns = ctx.do(M.SRC + '''
    from flatland import DateYYYYMMDD, JoinedString
    t = T
    els = [Integer.named(u'e')(t), Boolean.named(u'e')(t), Date.named(u'e')(t), Enum.named(u'e').valued(u'k')(t), JoinedString.named(u'e')(t),
           DateYYYYMMDD.named(u'e')(t), Array.named(u'e').of(String)([t]), MultiValue.named(u'e').of(String)([t]), List.named(u'e').of(String)([t]),
           Dict.named(u'e').of(String.named(t))(), Float.named(u'e')(t), DateTime.named(u'e')(t)]
'''.replace('T\n', 'u' + ascii(ctx.choose(u'<b>', u'"&', u'a"b\'c', u"'<", u'>&amp;')) + '\n'))
    how = ctx.choose('xhtml', 'html')
    g = ctx.call(ns['Generator'], how)
    for el in ctx.items(ns['els']):
        u = M.text(ctx, ctx.attr(el, 'u'))
        for tag in ('input', 'textarea'):
            out = M.text(ctx, ctx.m(g, tag, el))
            p = parts(ctx, out)
            ctx.check(p is not None, '%r in a %s is %s' % (u, tag, out))
            if p is None:
                continue
            got = dict((k, M.plain(v)) for k, v in p[1])
            if tag == 'input':
                ctx.check(got == {'name': 'e', 'value': u}, '%r reads as %s' % (u, out))
            else:
                ctx.check(got == {'name': 'e'} and M.plain(p[3][:-11]) == u, '%r reads as %s' % (u, out))


@check.ob('html', [G + '_attribute_escape', N + '_unpack', N + '_markup_escape', G + 'Tag._open'],
          'objects with __html__ are inserted as the markup they say they are, as attribute or as contents; plain contents are inserted as given')
def html(ctx):
    ns = ctx.do(M.SRC + '''
    from flatland.out.generic import Markup
    class H(object):
        def __init__(self, s):
            self.s = s
        def __html__(self):
            return self.s
    class Sub(unicode):
        def __html__(self):
            return u'HTML'
''')
    g = ctx.call(ns['Generator'])
    for t in texts(ctx):
        for cls in ('H', 'Markup', 'Sub'):
            o = ctx.call(ns[cls], t)
            html_ = 'HTML' if cls == 'Sub' else t
            # objects that are false as values count as empty, like empty text
            if cls != 'H' and not t:
                html_ = ''
            out = M.text(ctx, ctx.m(g, 'tag', 'p', None, title=o))
            ctx.check(out == '<p title="%s" />' % html_, '%s(%r) as an attribute gives %s' % (cls, t, out))
            out = M.text(ctx, ctx.m(g, 'tag', 'p', None, contents=o))
            ctx.check(out == ('<p>%s</p>' % html_ if html_ else '<p />'), '%s(%r) as contents gives %s' % (cls, t, out))
        out = M.text(ctx, ctx.m(g, 'tag', 'p', None, contents=t))
        ctx.check(out == ('<p>%s</p>' % t if t else '<p />'), 'contents %r give %s' % (t, out))


@check.ob('wrapper', [G + 'Tag._markup', G + 'Generator.begin', G + 'Generator.set', G + 'Generator.end'],
          'all that a generator returns is wrapped by its markup_wrapper, so template engines do not escape it again; Markup is its own __html__')
def wrapper(ctx):
    ns = ctx.do(M.SRC + '''
    class W(unicode):
        pass
    class V(unicode):
        pass
    from flatland.out.generic import Markup
    m = Markup(u'<b>')
    same = m.__html__() == u'<b>'
''')
    custom = ctx.choose(False, True)
    cls = ns['W'] if custom else ns['Markup']
    g = ctx.call(ns['Generator'], **({'markup_wrapper': ns['W']} if custom else {}))
    el = ns['scalar']
    outs = {'input': ctx.m(g, 'input', el), 'textarea': ctx.m(g, 'textarea', el), 'begin': ctx.m(g, 'begin'), 'set': ctx.m(g, 'set'), 'end': ctx.m(g, 'end'),
            'open': ctx.m(ctx.attr(g, 'form'), 'open', el), 'close': ctx.m(ctx.attr(g, 'form'), 'close'), 'tag': ctx.m(g, 'tag', 'p', None, contents=u'x'),
            'button': ctx.m(g, 'button', el), 'contents': ctx.attr(ctx.do('t = g.textarea\nt.open(el)\n', g=g, el=el)['t'], 'contents'),
            '__html__': ctx.m(ctx.attr(g, 'p' if False else 'label'), '__html__')}
    for k, v in (('begin with another wrapper', ctx.m(g, 'begin', markup_wrapper=ns['V'])), ('input in the block', ctx.m(g, 'input', el)),
                 ('set in the block', ctx.m(g, 'set', auto_name=False))):
        ctx.check(ctx.truth(ctx.I.isinstance(v, ns['V'])), '%s returns %s' % (k, ctx.show(v)))
    outs['end of the block'] = ctx.m(g, 'end')
    outs['input after the block'] = ctx.m(g, 'input', el)
    for k, v in outs.items():
        ctx.check(ctx.truth(ctx.I.isinstance(v, cls)), '%s returns %s' % (k, ctx.show(v)))
    ctx.check(ctx.truth(ns['same']), 'Markup.__html__() is not the markup')


@check.ob('wrapper-object', [G + 'Tag.__call__', G + 'Tag._open', G + 'Tag._markup', N + '_unpack'],
          'a wrapper need not be a kind of text: what it says in __html__ is the markup')
def wrapper_object(ctx):
    ns = ctx.do(M.SRC + '''
    class O(object):
        def __init__(self, s):
            self.s = s
        def __html__(self):
            return self.s
        def __len__(self):
            return len(self.s)
''')
    kind = ctx.choose('html', 'xhtml')
    g = ctx.call(ns['Generator'], kind, markup_wrapper=ns['O'])
    plain = ctx.call(ns['Generator'], kind)
    for tag in ('input', 'textarea', 'option', 'button', 'p'):
        for el in (None, ns['scalar'], ns['bad']):
            for kw in ({}, {'contents': u'<b>'}, {'contents': u''}, {'title': u'"'}):
                out = ctx.m(g, 'tag', tag, el, **kw) if el or kw else ctx.call(ctx.m(g, 'tag', tag))
                want = ctx.m(plain, 'tag', tag, el, **kw) if el or kw else ctx.call(ctx.m(plain, 'tag', tag))
                ctx.check(ctx.truth(ctx.I.isinstance(out, ns['O'])), '%s returns %s' % (tag, ctx.show(out)))
                got = M.text(ctx, ctx.m(out, '__html__'))
                ctx.check(got == M.text(ctx, want), '%s wrapped by an object is %s, not %s' % (tag, got, M.text(ctx, want)))


@check.ob('sugar', ['flatland.schema.base:Element.x', 'flatland.schema.base:Element.xa'],
          '.x and .xa are the text of the element escaped for contents and for double-quoted attributes')
def sugar(ctx):
    ns = ctx.do(M.SRC)
    kind = ctx.choose('String', 'Integer', 'Array')
    order = ctx.choose(('x', 'xa'), ('xa', 'x'))
    for t in texts(ctx):
        el = ctx.do({'String': 'el = String.using(strip=False)(t)', 'Integer': 'el = Integer(t)', 'Array': 'el = Array.of(String)([t])'}[kind], t=t)['el']
        u = M.text(ctx, ctx.attr(el, 'u'))
        got = {}
        for n in order:
            got[n] = M.text(ctx, ctx.attr(el, n))
        x, xa = got['x'], got['xa']
        ctx.check(M.plain(x) == u, '.x of %r is %s' % (u, x))
        ctx.check(M.plain(xa) == u and '"' not in xa, '.xa of %r is %s' % (u, xa))
