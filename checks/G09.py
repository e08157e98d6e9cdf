"""G09 — the shape of generated tags."""
from sa.oblig import Check
from . import markup as M

check = Check('G09', 'Tags are well formed: right shape, exactly the expected attributes, in order')
G = 'flatland.out.markup:'
PAIRED = ('form', 'textarea', 'select', 'option')
NAMES = ('form', 'input', 'textarea', 'button', 'select', 'option', 'label')


def order(attrs):
    first = ['type', 'name', 'value']
    return [k for k in first if k in attrs] + sorted(k for k in attrs if k not in first)


def render(tag, kind, attrs, contents, ordered=True):
    """The whole tag, as text."""
    head = '<' + tag + ''.join(' %s="%s"' % (k, attrs[k]) for k in order(attrs))
    if contents:
        return head + '>' + contents + '</%s>' % tag
    if tag not in PAIRED:
        if kind != 'html':
            return head + ' />'
        if tag == 'input':
            return head + '>'
    return head + '></%s>' % tag


@check.ob('shape', [G + 'Tag.__call__', G + 'Tag._open', G + 'Tag._close', G + 'Generator.tag', G + 'Generator._tag'],
          'an empty form, textarea, select or option is a pair of tags; an empty input is a single tag; others are single in xml and paired in html; '
          'tag(name) does what the method of that name does', max_runs=4000, shards=8)
def shape(ctx):
    ns = ctx.do(M.SRC)
    kind = ctx.choose('html', 'xhtml', 'xml')
    tag = ctx.choose(*(NAMES + ('p', 'a')))
    via = ctx.choose('method', 'tag', 'tag-upper', 'tag-lazy')
    if via == 'method' and tag in ('p', 'a'):
        return
    for bname in (None, 'scalar', 'blank', 'elist'):
        b = M.bind(ctx, ns, bname)
        for given in (None, u'', u'xy'):
            for extra in ({}, {'class_': u'k', 'title': u't', 'type': u'text', 'abc': u'', 'zz': None}):
                g = ctx.call(ns['Generator'], kind)
                kw = dict(extra)
                if given is not None:
                    kw['contents'] = given
                args = [] if b is None else [b.el]
                if via == 'method':
                    out = ctx.call(ctx.attr(g, tag), *args, **kw)
                elif via == 'tag-lazy':
                    out = ctx.call(ctx.m(g, 'tag', tag), *args, **kw)
                elif via == 'tag':
                    out = ctx.m(g, 'tag', tag, *args, **kw)
                    if b is None and not kw:
                        out = ctx.call(out)
                else:
                    out = ctx.m(g, 'tag', tag.upper(), *args, **kw)
                    if b is None and not kw:
                        out = ctx.call(out)
                attrs = {k.rstrip('_'): v for k, v in extra.items()}
                a, c, _ = M.ref(tag, attrs, given, {}, b)
                a = {k: M.esc(v or '') for k, v in a.items()}
                if isinstance(c, tuple):
                    c = M.esc(c[1])
                want = render(tag, kind, a, c)
                ctx.check(M.text(ctx, out) == want, '%s %s via %s with %s, contents %r bound to %s is %s, not %s' % (kind, tag, via, extra, given, bname, M.text(ctx, out), want))


CONTROLS = ('auto_name', 'auto_value', 'auto_domid', 'auto_for', 'auto_tabindex', 'auto_filter')


@check.ob('controls', [G + 'Tag._open', G + '_unicode_keyed', 'flatland.out.generic:transform'],
          'control attributes and contents never appear in the output, whatever they are set to and whether or not anything is bound', max_runs=4000, shards=8)
def controls(ctx):
    ns = ctx.do(M.SRC)
    tag = ctx.choose('input', 'textarea', 'option', 'label', 'x')
    bname = ctx.choose(None, 'scalar', 'anon', 'bag')
    b = M.bind(ctx, ns, bname)
    g = ctx.call(ns['Generator'], tabindex=1)
    vals = (True, False, u'auto', None, u'zz')
    import itertools
    for c in CONTROLS:
        for v in vals:
            for c2 in CONTROLS:
                for v2 in vals[:3]:
                    kw = {c: v}
                    kw[c2] = v2
                    out = M.text(ctx, ctx.m(g, 'tag', tag, b.el if b else None, contents=u'C', title=u'T', **kw))
                    ctx.check('auto_' not in out and 'contents' not in out and 'title="T"' in out, '%s with %s is %s' % (tag, kw, out))
    out = M.text(ctx, ctx.m(g, 'tag', tag, None, **{c: True for c in CONTROLS}))
    ctx.check('auto_' not in out and 'None' not in out, 'unbound %s with every control on is %s' % (tag, out))


@check.ob('order', [G + '_attribute_sort_key', G + 'Tag._open'],
          'attributes come as type, name, value and the rest alphabetically, each exactly once, whatever order they were given in; unordered output holds the same ones')
def order_(ctx):
    ns = ctx.do(M.SRC)
    import itertools
    names = (u'value', u'id', u'type', u'class_', u'name', u'a') if ctx.choose(True, False) else (u'_x', u'__y__', u'data_z', u'w__', u'Type', u'name_')
    k = ctx.choose(0, 1, 2, 3)
    ordered = ctx.choose(True, False)
    for combo in itertools.permutations(names, k):
        g = ctx.call(ns['Generator'], ordered_attributes=ordered)
        kw = dict((n, u'v-' + n) for n in combo)
        out = M.text(ctx, ctx.call(ctx.attr(g, 'tag'), u'x', None, **kw))
        if not combo:
            out = M.text(ctx, ctx.call(ctx.m(g, 'tag', u'x')))
        attrs = dict((n.rstrip('_'), 'v-' + n) for n in combo)
        if ordered:
            ctx.check(out == render('x', 'xml', attrs, None), 'attributes %s give %s' % (combo, out))
        else:
            import re
            got = re.findall(r' (\w+)="([^"]*)"', out)
            ctx.check(len(got) == len(combo) and dict(got) == attrs and re.match(r'<x( \w+="[^"]*")* />$', out) is not None, 'attributes %s give %s' % (combo, out))


@check.ob('open-close', [G + 'Tag.open', G + 'Tag.close', G + 'Generator._tag', G + 'Tag._open'],
          'open() plus contents plus close() is the whole pair; between them the same tag is meant by its name, afterwards not; tags of one name nest; '
          'closing too often does no harm', max_runs=20000, shards=8)
def open_close(ctx):
    ns = ctx.do(M.SRC)
    kind = ctx.choose('html', 'xhtml')
    g = ctx.call(ns['Generator'], kind)
    tag = ctx.choose('form', 'textarea', 'input')
    b = M.bind(ctx, ns, 'scalar')
    t = ctx.attr(g, tag)
    opened = []
    seen = []
    for i in range(4 if ctx.thorough else 3):
        op = ctx.choose('open', 'open-new', 'close', 'close-first', 'get', 'stop')
        if op == 'stop':
            break
        cur = ctx.R(ctx.attr(g, tag))
        if opened:
            ctx.check(cur is opened[-1], 'while a %s is open, its name means another tag' % tag)
        if op == 'open':
            out = M.text(ctx, ctx.m(cur, 'open', b.el, class_=u'k'))
            a, c, _ = M.ref(tag, {'class': u'k'}, None, {}, b)
            ctx.check(out == '<' + tag + ''.join(' %s="%s"' % (k, a[k]) for k in order(a)) + '>', 'open() gives %s' % out)
            ctx.check(M.text(ctx, ctx.attr(cur, 'contents')) == (M.esc(c[1]) if c else ''), 'contents after open() are %s' % ctx.show(ctx.attr(cur, 'contents')))
            if cur not in opened:
                opened.append(cur)
                seen.append(cur)
        elif op == 'open-new':
            T = ctx.do('from flatland.out.markup import Tag')['Tag']
            n = ctx.R(ctx.call(T, ctx.attr(cur, 'tagname'), g, False, True))
            ctx.m(n, 'open')
            opened.append(n)
            seen.append(n)
        elif op == 'close':
            out = M.text(ctx, ctx.m(cur, 'close'))
            ctx.check(out == '</%s>' % tag, 'close() gives %s' % out)
            if cur in opened:
                opened.remove(cur)
        elif op == 'close-first':
            if opened:
                out = M.text(ctx, ctx.m(opened.pop(0), 'close'))
                ctx.check(out == '</%s>' % tag, 'close() gives %s' % out)
        else:
            others = [ctx.R(ctx.attr(g, n)) for n in NAMES if n != tag]
            ctx.check(not any(o in opened for o in others), 'an open %s is what another name means' % tag)
    for i in range(5):
        cur = ctx.R(ctx.attr(g, tag))
        if opened:
            ctx.check(cur is opened[-1], 'while a %s is open, its name means another tag' % tag)
            ctx.m(cur, 'close')
            opened.pop()
        else:
            ctx.check(all(cur is not o for o in seen), 'a closed %s is what its name means' % tag)
            break


@check.ob('reuse', [G + 'Tag.__call__', G + 'Tag._open'],
          'rendering a tag again gives the same text: no state of one rendering reaches the next, nor what the caller passed in')
def reuse(ctx):
    ns = ctx.do(M.SRC)
    kind = ctx.choose('html', 'xml')
    g = ctx.call(ns['Generator'], kind)
    tag = ctx.choose('p', *NAMES)
    el = ns['scalar']
    t = ctx.attr(g, tag) if tag != 'p' else ctx.m(g, 'tag', tag)
    first = M.text(ctx, ctx.call(t, el, class_=u'k', contents=u'C'))
    bare = M.text(ctx, ctx.call(ctx.attr(ctx.call(ns['Generator'], kind), tag) if tag != 'p' else ctx.m(ctx.call(ns['Generator'], kind), 'tag', tag)))
    ctx.check(M.text(ctx, ctx.call(t)) == bare, 'the bare tag differs after a rendering')
    ctx.call(t, ns['bag'], title=u'x', auto_name=False)
    ctx.check(M.text(ctx, ctx.call(t, el, class_=u'k', contents=u'C')) == first, 'the second rendering differs')
    ctx.check(M.text(ctx, ctx.call(t)) == bare, 'the bare tag differs after other renderings')
    ctx.check(M.text(ctx, ctx.m(t, '__html__')) == bare, '__html__ is not the bare tag')
    ctx.check(M.text(ctx, ctx.attr(el, 'u')) == 'b', 'rendering changes the element')
