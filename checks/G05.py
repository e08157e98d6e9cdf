"""G05 — which value ends up where."""
from sa.oblig import Check
from . import markup as M

check = Check('G05', 'Tags are filled with the text of their element; secrets only on demand')
G = 'flatland.out.generic:'
KINDS = (None, u'', u'text', u'hidden', u'submit', u'button', u'reset', u'password', u'file', u'image', u'email', u'radio', u'checkbox')


@check.ob('value', [G + 'transform_value'],
          'inputs, buttons and forced tags without a value get the text of the element; an existing value stays unless forced; password, file '
          'and image inputs get it only when forced on the tag', max_runs=4000, shards=8)
def value(ctx):
    ns = ctx.do(M.SRC)
    bname = ctx.choose(*(sorted(M.BINDS) + [None]))
    kind = ctx.choose(*KINDS[:11])
    b = M.bind(ctx, ns, bname)
    tags = ('input', 'button', 'squiznart') if not ctx.thorough else [t for t in M.TAGS if t not in ('option', 'textarea')]
    for tag in tags:
        for existing in (None, u'', u'old'):
            for own in (None, True, False):
                for outer in (None, True, False, u'on', u'No'):
                    attrs = {}
                    if kind is not None:
                        attrs['type'] = kind
                    if existing is not None:
                        attrs['value'] = existing
                    if own is not None:
                        attrs['auto_value'] = own
                    M.compare(ctx, ns, tag, attrs, None, {} if outer is None else {'auto_value': outer}, b, bname)


@check.ob('contents', [G + 'transform_value', G + '_markup_escape'],
          'a textarea without contents, or forced, gets the escaped text of its element as contents; all other contents, of any tag, pass through',
          max_runs=4000, shards=8)
def contents(ctx):
    ns = ctx.do(M.SRC)
    bname = ctx.choose(*(sorted(M.BINDS) + [None]))
    b = M.bind(ctx, ns, bname)
    for tag in M.TAGS:
        for given in (None, u'', u'old', u' x ', u'\n', u' '):
            for own in (None, True, False):
                for outer in (None, False):
                    for value in (None, u'v'):
                        attrs = {}
                        if own is not None:
                            attrs['auto_value'] = own
                        if value is not None:
                            attrs['value'] = value
                        M.compare(ctx, ns, tag, attrs, given, {} if outer is None else {'auto_value': outer}, b, bname)


@check.ob('any-text', [G + 'transform_value'],
          'whatever text the element holds, that very text becomes the value')
def any_text(ctx):
    ns = ctx.do(M.SRC)
    t = ctx.text('t')
    el = ns['unset']
    ctx.m(el, 'set', t)
    u = ctx.attr(el, 'u')
    tag = ctx.choose('input', 'button')
    kind = ctx.choose(None, u'text', u'hidden', u'password')
    force = ctx.choose(None, True)
    ctx_ = ctx.call(ns['Context'])
    attrs = {}
    if kind:
        attrs['type'] = kind
    if force:
        attrs['auto_value'] = force
    d = ctx.I.new_dict(list(attrs.items()))
    ctx.call(ns['transform'], tag, d, None, ctx_, el)
    got = {M.text(ctx, k): v for k, v in ctx.host(d)}
    if tag == 'input' and kind == u'password' and not force:
        ctx.check('value' not in got, 'a password input is filled')
    else:
        ctx.check('value' in got and ctx.same(got['value'], u), 'the value becomes %s' % ctx.show(got.get('value')))


@check.ob('any-contents', [G + 'transform_value'],
          'whatever contents a tag has, they stay unless forced')
def any_contents(ctx):
    ns = ctx.do(M.SRC)
    t = ctx.text('contents')
    el = ns[ctx.choose('scalar', 'unset', 'bag', 'number')]
    c = ctx.call(ns['Context'])
    tag = ctx.choose('textarea', 'button', 'select', 'label', 'x', 'input')
    outer = ctx.choose(None, True, u'on', False)
    if outer is not None:
        ctx.m(c, '__setitem__', 'auto_value', outer)
    d = ctx.I.new_dict([])
    out = ctx.call(ns['transform'], tag, d, t, c, el)
    ctx.check(ctx.same(out, t), '<%s> with contents gets the contents %s' % (tag, ctx.show(out)))


@check.ob('any-value', [G + 'transform_value'],
          'whatever value a tag has, it stays unless forced')
def any_value(ctx):
    ns = ctx.do(M.SRC)
    t = ctx.text('value')
    el = ns[ctx.choose('scalar', 'unset', 'bag', 'number')]
    c = ctx.call(ns['Context'])
    tag, kind = ctx.choose(('button', None), ('input', None), ('input', u'hidden'), ('input', u'password'), ('input', u'file'), ('input', u'radio'),
                           ('input', u'checkbox'), ('option', None), ('textarea', None), ('x', None))
    outer = ctx.choose(None, True, u'on', False)
    if outer is not None:
        ctx.m(c, '__setitem__', 'auto_value', outer)
    d = ctx.I.new_dict([('value', t)] + ([('type', kind)] if kind else []))
    ctx.call(ns['transform'], tag, d, None, c, el)
    got = {M.text(ctx, k): v for k, v in ctx.host(d)}
    ctx.check('value' in got and ctx.same(got['value'], t), '<%s type=%s> with a value gets the value %s' % (tag, kind, ctx.show(got.get('value'))))


@check.ob('generator', ['flatland.out.markup:Generator.tag', 'flatland.out.markup:Tag.__call__', 'flatland.out.markup:Tag.open', 'flatland.out.markup:Tag._open'],
          'however a tag is asked for, the element given binds it, also one that is empty, blank or false', max_runs=4000, shards=4)
def generator(ctx):
    ns = ctx.do(M.SRC + '''
    class False_(String):
        def __nonzero__(self):
            return False
    false = False_.named(u'foo')(u'b')
    g = Generator('html')
''')
    bname = ctx.choose('false', *sorted(M.BINDS))
    b = M.bind(ctx, ns, bname) if bname != 'false' else M.Bind(ns['false'], 'foo', 'b')
    how = ctx.choose('method', 'tag', 'tag-lazy', 'open', 'tag-open', 'keyword')
    g = ns['g']
    for tag in ('input', 'textarea', 'select', 'button', 'option', 'form'):
        for attrs in ({}, {'name': u'zz'}, {'value': u'b'}):
            if how == 'tag':
                out = ctx.I.call(ctx.I.getattr(g, 'tag'), [tag, b.el], dict(attrs))
            elif how == 'tag-lazy':
                out = ctx.I.call(ctx.m(g, 'tag', tag), [b.el], dict(attrs))
            elif how == 'keyword':
                out = ctx.I.call(ctx.I.getattr(g, 'tag'), [tag], dict(attrs, bind=b.el))
            else:
                t = ctx.attr(g, tag) if how in ('method', 'open') else ctx.m(g, 'tag', tag)
                if how == 'method':
                    out = ctx.I.call(t, [b.el], dict(attrs))
                else:
                    out = ctx.I.call(ctx.I.getattr(t, 'open'), [b.el], dict(attrs))
                    ctx.m(t, 'close')
            out = M.text(ctx, out)
            a, c, _ = M.ref(tag, attrs, None, {}, b)
            ctx.check(isinstance(out, str), '%s by %s bound to %s gives %s' % (tag, how, bname, ctx.show(out)))
            for k in ('name', 'value', 'selected'):
                want = ' %s="%s"' % (k, M.esc(a[k]).replace('"', '&quot;')) if k in a else None
                ctx.check(want in out if want else ' %s=' % k not in out, '%s by %s bound to %s with %s: %s is not %s' % (tag, how, bname, attrs, k, a.get(k)))
            if tag == 'textarea' and 'open' not in how:
                ctx.check(out.endswith('>%s</textarea>' % M.esc(b.u)), 'a textarea by %s bound to %s is %s' % (how, bname, out))
