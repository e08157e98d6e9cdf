"""G10 — the Genshi directives."""
from sa.oblig import Check
from . import markup as M

check = Check('G10', 'Genshi templates get the same tags as the generator')
G = 'flatland.out.genshi:'
SRC = M.SRC + '''
    from flatland.out.genshi import FlatlandElements
    from genshi.driver import node, block, tree, If, For, Boom, text
    from genshi.template.base import Context as TContext, TemplateSyntaxError
    from genshi.core import QName
    F = FlatlandElements()
'''


def plain(ctx, v):
    """A host picture of a rendered tree."""
    v = ctx.R(v)
    p = getattr(v, 'p', None)
    if isinstance(p, (list, tuple)) or isinstance(v, tuple):
        return [plain(ctx, x) for x in (v if isinstance(v, tuple) else p)]
    return M.text(ctx, v)


def render(ctx, ns, stream, **data):
    return plain(ctx, ctx.call(ns['tree'], stream, ctx.call(ns['TContext'], **data)))


def pairs(ctx, d):
    return ctx.do('r = [%s]' % ', '.join('(u%r, u%r)' % (k, v) for k, v in d))['r']


def node(ctx, ns, tag, attrs=(), controls=(), foreign=(), children=()):
    return ctx.call(ns['node'], ns['F'], tag, pairs(ctx, attrs), pairs(ctx, controls), ctx.I.new_list(list(foreign)), ctx.I.new_list(list(children)))


def block(ctx, ns, name_, attrs, children=()):
    return ctx.call(ns['block'], ns['F'], name_, ctx.I.new_dict(list(attrs)), ctx.I.new_list(list(children)))


def want_attrs(given, ref):
    """Attributes the tag had keep their place, new ones follow as type, name, value, then alphabetically."""
    out = [[k, ref[k]] for k, v in given if k in ref]
    new = [k for k in ref if k not in dict(given)]
    first = ['type', 'name', 'value']
    for k in [k for k in first if k in new] + sorted(k for k in new if k not in first):
        out.append([k, ref[k]])
    return out


def expect(tag, attrs, controls, contents, settings, b):
    a = dict(attrs)
    for k, v in controls:
        a[k.replace('-', '_')] = v
    return M.ref(tag, a, contents, settings, b)


CONTROLS = ('auto-name', 'auto-value', 'auto-domid', 'auto-for', 'auto-tabindex', 'auto-filter')


@check.ob('bound', [G + '_rewrite_stream', G + 'Binding.process', G + 'ControlAttribute.process', G + 'ControlAttribute.inject'],
          'a tag with form:bind or form:auto-* attributes becomes the tag the transformations make of it, bound or not; what it had stays in place, '
          'the control attributes vanish, and contents change only where the transformation says so', max_runs=6000, shards=8)
def bound(ctx):
    ns = ctx.do(SRC)
    bname = ctx.choose(*(sorted(M.BINDS) + [None]))
    tag = ctx.choose('input', 'textarea', 'label', 'option', 'button', 'x')
    b = M.bind(ctx, ns, bname)
    for controls in [()] + [((c, v),) for c in CONTROLS for v in (('on', 'off', 'auto') if ctx.thorough else ('on', 'off'))] + [(('auto-name', 'on'), ('auto-domid', 'on'), ('auto-value', 'on'))]:
        for given in ((), (('value', 'old'), ('name', 'nm')), (('class', 'k'), ('value', 'b'), ('checked', 'checked'), ('type', 'checkbox'), ('selected', 'x')), (('type', 'password'), ('id', 'i'))):
            for contents in (None, 'b', '<i>'):
                if len(controls) == 1 and not ctx.thorough and (contents == '<i>' or contents and len(given) == 2):
                    continue
                if tag == 'option' and contents == '<i>' and bname in ('bag', 'multi', 'nums', 'nobag', 'one', 'blanks') and 'value' not in dict(given):
                    continue        # markup as the value of an option of several values means nothing
                cs = list(controls) + ([('bind', 'el')] if b else [])
                if not cs:
                    continue
                kids = []
                if contents == '<i>':
                    kids = [node(ctx, ns, 'i', (), (), (), ['b'])]
                elif contents is not None:
                    kids = [contents]
                out = render(ctx, ns, node(ctx, ns, tag, given, cs, (), kids), el=b.el if b else None)
                text = contents if contents != '<i>' else '\0'
                a, c, _ = expect(tag, given, controls, text, {}, b)
                if isinstance(c, tuple):
                    c = [['markup', c[1]]] if c[1] else []
                elif c == '\0':
                    c = [['i', [], ['b']]]
                else:
                    c = [c] if c else []
                where = '<%s %s %s>%s bound to %s' % (tag, given, controls, contents, bname)
                ctx.check(len(out) == 1 and out[0][0] == tag, '%s becomes %s' % (where, out))
                if len(out) != 1:
                    continue
                ctx.check(out[0][1] == want_attrs(given, a), '%s gets the attributes %s, not %s' % (where, out[0][1], want_attrs(given, a)))
                kids = [x for x in out[0][2] if x != '' and x != ['markup', '']]
                kids = [['markup', M.plain(x[1])] if isinstance(x, list) and x[0] == 'markup' else x for x in kids]
                ctx.check(kids == c, '%s gets the contents %s, not %s' % (where, kids, c))


@check.ob('spelled', [G + 'ControlAttribute.inject', G + 'ControlAttribute.__init__'],
          'a control attribute counts as the generator would read its text: any case, anything unknown or blank as no opinion; the text of an expression, falsy or not, is its unicode text')
def spelled(ctx):
    ns = ctx.do(SRC)
    b = M.bind(ctx, ns, ctx.choose('scalar', 'nums'))
    c = ctx.choose('auto-name', 'auto-value', 'auto-domid')
    st = ctx.choose((), (('auto-name', 'off'), ('auto-domid', 'on'), ('auto-value', 'off')))
    given = (('name', 'nm'), ('value', 'old')) if ctx.choose(True, False) else ()
    for text in ('', ' on ', 'ON', 'False', 'auto', 'Auto', 'bogus', '1', '0', 'nil', 'YES', ' '):
        out = render(ctx, ns, block(ctx, ns, 'with', st, [node(ctx, ns, 'input', given, [(c, text), ('bind', 'el')])]), el=b.el)
        a, _, _ = expect('input', given, [(c, text)], None, dict((k.replace('-', '_'), v) for k, v in st), b)
        ctx.check(out == [['input', want_attrs(given, a), []]], 'form:%s=%r in %s: the tag becomes %s, not %s' % (c, text, st, out, want_attrs(given, a)))
    for src, value, text in (('${v}', 0, '0'), ('${v}', False, 'False'), ('${v}', None, 'None'), ('${v}', True, 'True'), ('${v}', 1, '1'), ('${v}', '', ''), ('o${v}', 'n', 'on'), ('${v}0', '', '0'),
                             ('${v}${v}', 'o', 'oo'), (' ${v}', 'on', ' on'), ('${v} ', 'off', 'off ')):
        out = render(ctx, ns, block(ctx, ns, 'with', st, [node(ctx, ns, 'input', given, [(c, src), ('bind', 'el')])]), el=b.el, v=value)
        a, _, _ = expect('input', given, [(c, text)], None, dict((k.replace('-', '_'), v) for k, v in st), b)
        ctx.check(out == [['input', want_attrs(given, a), []]], 'form:%s=%r with %r in %s: the tag becomes %s, not %s' % (c, src, value, st, out, want_attrs(given, a)))


@check.ob('contents', [G + '_simplify_stream', G + '_rewrite_stream'],
          'what an expression in the contents of a bound tag gives comes out as Genshi itself would show it: numbers, lists, streams of tags and texts, nothing for None')
def contents(ctx):
    ns = ctx.do(SRC + '''
    from genshi.core import Markup as GMarkup, START, END, TEXT, StreamEventKind
    tag = node(F, u'i', [(u'class', u'k')], [], [], [u'in', u'${t}'])
    bound = node(F, u'b', [], [(u'bind', u'el'), (u'auto-domid', u'on')])
    cond = node(F, u'i', [], [], [If(u'yes')])
    words = [(TEXT, u'one ', (None, 1, 0)), (TEXT, u'two', (None, 1, 0))]
    def gen(events):
        for e in events:
            yield e
    makers = {'tag': lambda: gen(tag), 'tags': lambda: gen(words + tag + words), 'bound': lambda: gen(bound), 'cond': lambda: gen(cond), 'words': lambda: gen(words),
              'nothing': lambda: gen([]), 'zero': lambda: 0, 'false': lambda: False, 'none': lambda: None, 'blank': lambda: u'', 'number': lambda: 3.5, 'list': lambda: [u'p', 1], 'tuple': lambda: (u'p', 1), 'empty-tuple': lambda: (), 'texts': lambda: (t for t in [u'p', u'q', u'r']), 'text': lambda: (t for t in [u'p']), 'counted': lambda: iter([1, 2]),
              'pair': lambda: (e for e in ()), 'nested': lambda: gen([(TEXT, u'x', (None, 1, 0))] + words)}
''')
    I, B = ['i', [['class', 'k']], ['in', 'T']], ['b', [['id', 'f_foo']], []]
    wants = {'tag': [I], 'tags': ['one ', 'two', I, 'one ', 'two'], 'bound': [B], 'cond': [['i', [], []]], 'words': ['one two'], 'nothing': [], 'zero': ['0'], 'false': ['False'],
             'none': [], 'blank': [], 'number': ['3.5'], 'list': ['p1'], 'tuple': ['p1'], 'empty-tuple': [], 'texts': ['pqr'], 'text': ['p'], 'counted': ['12'], 'pair': [], 'nested': ['xone two']}
    what = ctx.choose(*sorted(wants))
    kind = ctx.do('r = %r' % what)['r']
    for tag in ('label', 'x'):
        for pre, post in (((), ()), (('a',), ()), ((), ('z',)), (('a',), ('z',)), (('a',), ('${t}',)), ((), (node(ctx, ns, 'u'),))):
            s = node(ctx, ns, tag, [], [('bind', 'el')], (), list(pre) + ['${v}'] + list(post))
            v = ctx.do('r = makers[k]()', makers=ns['makers'], k=kind)['r']
            st, out, e = ctx.catch(lambda: render(ctx, ns, s, el=ns['scalar'], v=v, t='T', yes=True))
            where = '%s before %s and after %s in a bound %s' % (what, list(post) and str(post)[:20], list(pre), tag)
            ctx.check(st == 'ok', '%s raises %s' % (where, out))
            if st != 'ok':
                continue
            want = list(pre) + wants[what] + [['u', [], []] if not isinstance(x, str) else x.replace('${t}', 'T') for x in post]
            squash = lambda l: [x for x in l if not isinstance(x, str)] + [''.join(x for x in l if isinstance(x, str))] + [isinstance(x, str) for i, x in enumerate(l) if x and (not i or isinstance(x, str) != isinstance(l[i - 1], str))]
            ctx.check(out[0][0] == tag and squash([x for x in out[0][2] if x != '']) == squash(want), '%s becomes %s, not %s' % (where, out[0][2], want))


@check.ob('option-value', [G + '_simplify_stream'], 'the value of an option without one is its text with all its expressions, blanks inside it included')
def option_value(ctx):
    ns = ctx.do(SRC + '''
    el = String.named(u'foo')(VALUE)
''', VALUE=ctx.choose('a b', 'ab', '0', 'None', 'x'))
    val = ctx.do('r = el.u', el=ns['el'])['r']
    for parts, v, text in ((['a ', '${v}'], 'b', 'a b'), (['${v}', ' b'], 'a', 'a b'), (['a', '${v}', 'b'], ' ', 'a b'), (['a', '${v}', 'b'], '', 'ab'), (['${v}'], 0, '0'),
                           ([' ', '${v}', ' '], 0, '0'), (['${v}'], 'ab', 'ab'), (['${v}${v}'], 'x', 'xx'), (['a', '${v}'], 'b ', 'ab'), (['${v}'], False, 'False')):
        out = render(ctx, ns, node(ctx, ns, 'option', [], [('bind', 'el')], (), parts), el=ns['el'], v=v)
        sel = ctx.R(val) == text
        ctx.check(out[0][1] == ([['selected', 'selected']] if sel else []), 'an option %s with %r bound to %s has %s' % (parts, v, ctx.show(val), out[0][1]))


@check.ob('foreign-names', [G + '_rewrite_stream'],
          'attributes of other namespaces are neither read nor changed')
def foreign_names(ctx):
    ns = ctx.do(SRC + '''
    n = node(F, u'input', [(u'urn:x}value', u'keep'), (u'class', u'k'), (u'urn:x}name', u'n')], [(u'bind', u'el'), (u'auto-domid', u'on')])
''')
    out = render(ctx, ns, ns['n'], el=ns['scalar'])
    ctx.check(out == [['input', [['{urn:x}value', 'keep'], ['class', 'k'], ['{urn:x}name', 'n'], ['name', 'foo'], ['value', 'b'], ['id', 'f_foo']], []]], 'the tag becomes %s' % out)


@check.ob('interpolation', [G + '_rewrite_stream', G + '_simplify_stream', G + 'ControlAttribute.inject'],
          'expressions in attributes, control attributes and contents are evaluated, once, before the transformation sees them; markup stays markup', max_runs=4000, shards=8)
def interpolation(ctx):
    ns = ctx.do(SRC + '''
    from genshi.core import Markup as GMarkup
    class Once(object):
        n = 0
        def __unicode__(self):
            self.n += 1
            return u'b'
    once = Once()
    m = GMarkup(u'<b>')
    gm = (lambda: (y for y in [u'q']))
''')
    el = ns['scalar']
    what = ctx.choose('attr', 'attr-mixed', 'attr-number', 'control', 'control-mixed', 'option-text', 'option-mixed', 'option-markup', 'contents-markup', 'contents-mixed', 'contents-none',
                      'attr-markup', 'textarea')
    if what.startswith('attr'):
        src, data, want = {'attr': ('${v}', 'b', 'b'), 'attr-mixed': ('a${v}c', 'b', 'abc'), 'attr-number': ('${v}', 7, '7'), 'attr-markup': ('${v}', ns['m'], '<b>')}[what]
        out = render(ctx, ns, node(ctx, ns, 'input', [('type', 'checkbox'), ('value', src), ('title', 'x${v}')], [('bind', 'el')]), el=el, v=data)
        t = {'attr': 'xb', 'attr-mixed': 'xb', 'attr-number': 'x7', 'attr-markup': 'x<b>'}[what]
        w = [['type', 'checkbox'], ['value', want], ['title', t], ['name', 'foo']] + ([['checked', 'checked']] if want == 'b' else [])
        ctx.check(out == [['input', w, []]], '%s: %s' % (what, out))
    elif what.startswith('control'):
        src, data = {'control': ('${v}', 'on'), 'control-mixed': ('o${v}', 'n')}[what]
        out = render(ctx, ns, node(ctx, ns, 'input', [], [('bind', 'el'), ('auto-domid', src)]), el=el, v=data)
        ctx.check(out == [['input', [['name', 'foo'], ['value', 'b'], ['id', 'f_foo']], []]], '%s: %s' % (what, out))
        out = render(ctx, ns, node(ctx, ns, 'input', [], [('bind', 'el'), ('auto-name', src)]), el=el, v='ff' if what == 'control-mixed' else 'off')
        ctx.check(out == [['input', [['value', 'b']], []]], '%s: %s' % (what, out))
    elif what.startswith('option'):
        src, data, sel = {'option-text': (' ${v} ', 'b', True), 'option-mixed': ('a${v}', 'b', False), 'option-markup': ('${v}', ns['m'], False)}[what]
        out = render(ctx, ns, node(ctx, ns, 'option', [], [('bind', 'el')], (), [src]), el=el, v=data)
        ctx.check(len(out) == 1 and out[0][:2] == ['option', [['selected', 'selected']] if sel else []], '%s: %s' % (what, out))
        got = ''.join(x if isinstance(x, str) else x[1] for x in out[0][2])
        ctx.check(got == {'option-text': ' b ', 'option-mixed': 'ab', 'option-markup': '<b>'}[what], '%s: %s' % (what, out))
    elif what == 'contents-markup':
        for tag in ('label', 'button', 'option', 'textarea'):
            out = render(ctx, ns, node(ctx, ns, tag, [], [('bind', 'el')], (), ['${v}']), el=el, v=ns['m'])
            ctx.check(out[0][2] == [['markup', '<b>']], 'markup in a bound %s comes out as %s' % (tag, out[0][2]))
    elif what == 'contents-mixed':
        out = render(ctx, ns, node(ctx, ns, 'label', [], [('bind', 'el')], (), ['x${v}<${w}']), el=el, v=ns['m'], w=ns['once'])
        ctx.check([x for x in out[0][2]] == ['x', ['markup', '<b>'], '<', 'b'], 'the contents come out as %s' % out[0][2])
        ctx.check(M.text(ctx, ctx.attr(ns['once'], 'n')) == 1, 'an expression is evaluated %s times' % ctx.show(ctx.attr(ns['once'], 'n')))
    elif what == 'contents-none':
        out = render(ctx, ns, node(ctx, ns, 'label', [], [('bind', 'el')], (), ['${v}', node(ctx, ns, 'i')]), el=el, v=None)
        ctx.check(out[0][2] == [['i', [], []]], 'no value in the contents comes out as %s' % out[0][2])
    else:
        out = render(ctx, ns, node(ctx, ns, 'textarea', [], [('bind', 'el')], (), ['${v}']), el=el, v='<q>')
        ctx.check(out == [['textarea', [['name', 'foo']], ['<q>']]], 'a textarea with contents becomes %s' % out)


@check.ob('select', [G + '_rewrite_stream', G + '_bind_unbound_tags', G + 'Binding.process'],
          'a bound select marks the options, at any depth, whose value is that of its element, except those with a binding of their own; options generated by '
          'other directives or carrying control attributes included; everything else in it stays', max_runs=6000, shards=8)
def select(ctx):
    ns = ctx.do(SRC)
    bname = ctx.choose('scalar', 'bag', 'blank', 'nobag', 'leaf')
    b = M.bind(ctx, ns, bname)
    other = ns['blank']

    def opt(v, controls=(), foreign=(), stale=False, text=None, kids=None):
        attrs = ([('value', v)] if v is not None else []) + ([('selected', 'selected')] if stale else [])
        return node(ctx, ns, 'option', attrs, controls, foreign, ([] if text is None else [text]) + (kids or []))

    def shown(v, sel, text=None):
        at = ([['value', v]] if v is not None else [])
        if sel:
            at.append(['selected', 'selected'])
        return ['option', at, [text] if text else []]
    has = lambda v: b.has(v)
    shape = ctx.choose('flat', 'text', 'optgroup', 'own', 'if', 'for', 'controls', 'controls-nested', 'stale', 'nested', 'deep', 'mixed')
    If, For = ns['If'], ns['For']
    if shape == 'flat':
        kids = ['\n', opt('a'), opt('b'), ' ', opt('c'), opt('')]
        want = ['\n', shown('a', has('a')), shown('b', has('b')), ' ', shown('c', has('c')), shown('', has(''))]
    elif shape == 'text':
        kids = [opt(None, text=' a '), opt(None, text='b'), opt(None), opt('c', text='a')]
        want = [shown(None, has('a'), ' a '), shown(None, has('b'), 'b'), shown(None, has('')), shown('c', has('c'), 'a')]
    elif shape == 'optgroup':
        kids = [node(ctx, ns, 'optgroup', [('label', 'g')], (), (), [opt('a'), 'x', node(ctx, ns, 'optgroup', [], (), (), [opt('b')])]), opt('b')]
        want = [['optgroup', [['label', 'g']], [shown('a', has('a')), 'x', ['optgroup', [], [shown('b', has('b'))]]]], shown('b', has('b'))]
    elif shape == 'own':
        kids = [opt('a', [('bind', 'other')]), opt('', [('bind', 'other')]), opt('a', [('bind', '')], stale=True), opt('a')]
        want = [shown('a', False), shown('', True), shown('a', True), shown('a', has('a'))]
    elif shape == 'if':
        kids = [opt('a', (), [ctx.call(If, 'yes')]), opt('a', (), [ctx.call(If, 'no')]), opt('b', [('bind', 'other')], [ctx.call(If, 'yes')])]
        want = [shown('a', has('a')), shown('b', False)]
    elif shape == 'for':
        kids = [opt('${x}', (), [ctx.call(For, 'xs')]), opt(None, (), [ctx.call(For, 'xs')], text='${x}')]
        want = [shown(v, has(v)) for v in ('a', 'b', 'c')] + [shown(None, has(v), v) for v in ('a', 'b', 'c')]
    elif shape == 'controls':
        kids = [opt('a', [('auto-value', 'on')]), opt('a', [('auto-value', 'off')]), opt('b', [('auto-domid', 'on')]), opt('b', [('auto-value', 'on')], [ctx.call(If, 'yes')])]
        w = shown('b', has('b'))
        d = ['option', [['value', 'b'], ['id', 'f_' + b.fname]] + ([['selected', 'selected']] if has('b') else []), []]
        want = [shown('a', has('a')), shown('a', False), d, w]
    elif shape == 'controls-nested':
        kids = [node(ctx, ns, 'option', [('value', 'b')], [('auto-domid', 'off')], (), ['x', opt('a'), opt('b', [('bind', 'other')])]), opt('b')]
        o = shown('b', has('b'))
        o[2] = ['x', shown('a', has('a')), shown('b', False)]
        want = [o, shown('b', has('b'))]
    elif shape == 'deep':
        kids = [node(ctx, ns, 'option', [('value', 'b')], (), (), [node(ctx, ns, 'i', (), (), (), [opt('a'), opt('b')]), 'x', opt('a')]), opt('b'), 'y', opt('a')]
        o = shown('b', has('b'))
        o[2] = [['i', [], [shown('a', has('a')), shown('b', has('b'))]], 'x', shown('a', has('a'))]
        want = [o, shown('b', has('b')), 'y', shown('a', has('a'))]
    elif shape == 'stale':
        kids = [opt('a', stale=True), opt('zz', stale=True), opt('', stale=True)]
        want = [shown('a', has('a')), shown('zz', False), shown('', has(''))]
    elif shape == 'nested':
        kids = [node(ctx, ns, 'option', [('value', 'a')], (), (), [opt('b'), opt('a', [('bind', 'other')])]), opt('a')]
        o = shown('a', has('a'))
        o[2] = [shown('b', has('b')), shown('a', False)]
        want = [o, shown('a', has('a'))]
    else:
        kids = [node(ctx, ns, 'input', [('value', 'a'), ('type', 'checkbox')]), node(ctx, ns, 'input', [], [('bind', 'other')]), '${t}', opt('a')]
        want = [['input', [['value', 'a'], ['type', 'checkbox']], []], ['input', [['name', 'foo'], ['value', '']], []], 'T', shown('a', has('a'))]
    data = dict(el=b.el, other=other, yes=True, no=False, xs=ctx.do('r = [u"a", u"b", u"c"]')['r'], t='T')
    s = node(ctx, ns, 'select', [('class', 'k')], [('bind', 'el')], (), kids)
    for again in (False, True):
        out = render(ctx, ns, s, **data)
        ctx.check(len(out) == 1 and out[0][0] == 'select' and out[0][1] == [['class', 'k'], ['name', b.fname]], 'the select becomes %s' % out)
        got = [x for x in out[0][2]]
        # options without an element of their own keep what they said
        ctx.check(got == want, '%s options bound to %s become %s, not %s' % (shape, bname, got, want))
    s = node(ctx, ns, 'select', [], [], (), [opt('a', stale=True), opt('b')])
    out = render(ctx, ns, s, **data)
    ctx.check(out == [['select', [], [shown('a', True), shown('b', False)]]], 'an unbound select becomes %s' % out)


@check.ob('blocks', [G + 'With.process', G + 'Set.process', G + 'RenderContextManipulator.__init__'],
          'form:with settings count inside it only, form:set from there to the end of the block it is in; blocks nest; a failure inside restores them; '
          'nothing remains for the next rendering', max_runs=6000, shards=8)
def blocks(ctx):
    ns = ctx.do(SRC)
    el = ns['scalar']
    probe = lambda: node(ctx, ns, 'input', [], [('bind', 'el')])

    def seen(st):
        a, c, s2 = M.ref('input', {}, None, st, M.Bind(el, 'foo', 'b'))
        st.update(s2)
        return ['input', want_attrs((), a), []]
    S = [(('auto-name', 'off'),), (('auto-domid', 'on'), ('domid-format', 'q_%s')), (('auto-tabindex', 'on'), ('tabindex', '5')), (('auto-value', 'no'), ('auto-name', 'auto'))]

    def apply(st, i):
        new = dict(st)
        for k, v in S[i]:
            new[k.replace('-', '_')] = int(v) if k == 'tabindex' else v
        return new
    i, j, k = ctx.choose(0, 1, 2, 3), ctx.choose(0, 1, 2, 3), ctx.choose(0, 1, 2, 3)
    shape = ctx.choose('with', 'nested', 'set', 'set-first', 'set-in-with', 'fail', 'generated')
    base = {}
    if shape == 'with':
        doc = [probe(), block(ctx, ns, 'with', S[i], [probe(), probe()]), probe(), block(ctx, ns, 'with', S[j], [probe()]), probe()]
        a, c = apply(base, i), apply(base, j)
        want = [seen(dict(base)), seen(a), seen(a), seen(base), seen(c), seen(base)]
    elif shape == 'nested':
        doc = [block(ctx, ns, 'with', S[i], [probe(), block(ctx, ns, 'with', S[j], [probe()]), probe(), block(ctx, ns, 'with', S[k], [probe()]), probe()]), probe()]
        a = apply(base, i)
        want = [seen(a)]
        want.append(seen(apply(a, j)))
        want.append(seen(a))
        want.append(seen(apply(a, k)))
        want.append(seen(a))
        want.append(seen(base))
    elif shape == 'set':
        doc = [probe(), block(ctx, ns, 'set', S[i]), probe(), block(ctx, ns, 'set', S[j]), probe(), probe()]
        want = [seen(base)]
        a = apply(base, i)
        want.append(seen(a))
        a = apply(a, j)
        want += [seen(a), seen(a)]
    elif shape == 'set-first':
        doc = [block(ctx, ns, 'set', S[i]), block(ctx, ns, 'set', S[j]), probe(), block(ctx, ns, 'with', S[k], [probe()])]
        a = apply(apply(base, i), j)
        want = [seen(a), seen(apply(a, k))]
    elif shape == 'set-in-with':
        doc = [block(ctx, ns, 'with', S[i], [block(ctx, ns, 'set', S[j]), probe()]), probe(), block(ctx, ns, 'set', S[k]), probe()]
        a = apply(apply(base, i), j)
        want = [seen(a), seen(base), seen(apply(base, k))]
    elif shape == 'generated':
        o = node(ctx, ns, 'p', [], (), [ctx.call(ns['For'], 'xs')], [probe()])
        doc = [block(ctx, ns, 'with', S[i], [o])]
        a = apply(base, i)
        want = [['p', [], [seen(a)]], ['p', [], [seen(a)]]]
    else:
        # settings that do not exist, after ones that do
        bad = block(ctx, ns, 'with', S[i] + S[j] + (('nonesuch', 'x'),), [probe()])
        good = ctx.do('r = a + b', a=probe(), b=block(ctx, ns, 'with', S[k], [probe()]))['r']
        tc = ctx.call(ns['TContext'], el=el)
        st, r, x = ctx.catch(lambda: ctx.call(ns['tree'], bad, tc))
        ctx.check(st == 'raise' and r == 'KeyError', 'a failing block gives %s' % r)
        out = plain(ctx, ctx.call(ns['tree'], good, tc))
        a = apply(base, k)
        want = [seen(base), seen(a)]
        ctx.check(out == want, 'after a failing block the tags become %s, not %s' % (out, want))
        return
    s = ctx.do('r = []')['r']
    for d in doc:
        ctx.do('s.extend(d)', s=s, d=d)
    for again in (False, True):
        out = render(ctx, ns, s, el=el, xs=ctx.do('r = [1, 2]')['r'])
        ctx.check(out == want, 'settings %s, %s, %s (%s): the tags become %s, not %s' % (S[i], S[j], S[k], shape, out, want))


@check.ob('numbers', [G + 'RenderContextManipulator.__init__'], 'a tabindex in form:with or form:set is a number like any given to the generator, or a ValueError')
def numbers(ctx):
    ns = ctx.do(SRC)
    how = ctx.choose('with', 'set')
    for text, n in (('5', 5), ('0', 0), ('-1', -1), (' 7 ', 7), ('+3', 3), ('007', 7), ('99', 99)):
        probes = [node(ctx, ns, 'input', [], [('bind', 'el')]) for i in range(3)]
        attrs = (('auto-tabindex', 'on'), ('tabindex', text))
        s = block(ctx, ns, 'with', attrs, probes) if how == 'with' else ctx.do('r = a + b + c + d', a=block(ctx, ns, 'set', attrs), b=probes[0], c=probes[1], d=probes[2])['r']
        out = render(ctx, ns, s, el=ns['scalar'])
        got = [dict(o[1]).get('tabindex') for o in out]
        want = [None] * 3 if not n else [str(n)] * 3 if n < 0 else [str(n + i) for i in range(3)]
        ctx.check(got == want, 'form:%s tabindex=%r: the tags get %s, not %s' % (how, text, got, want))
    for text in ('', 'x', '1.5', 'on'):
        st, r, e = ctx.catch(lambda: block(ctx, ns, how, (('tabindex', text),)))
        ctx.check(st == 'raise' and r == 'ValueError', 'form:%s tabindex=%r gives %s' % (how, text, r if st == 'raise' else 'no error'))


@check.ob('filters', [G + 'With.process', G + 'Set.process'],
          'filters named in form:with or form:set are the objects of that name')
def filters(ctx):
    ns = ctx.do(SRC + '''
    def f(tagname, attributes, contents, context, bind):
        attributes[u'class'] = u'filtered'
        return contents
    fs = [f]
''')
    how = ctx.choose('with', 'set')
    inp = node(ctx, ns, 'input', [], [('bind', 'el')])
    S = [('auto-filter', 'on'), ('filters', 'fs')]
    if how == 'with':
        s = ctx.do('r = a + b', a=block(ctx, ns, 'with', S, [inp]), b=inp)['r']
    else:
        s = ctx.do('r = b + a + b', a=block(ctx, ns, 'set', S), b=inp)['r']
    for again in (False, True):
        out = render(ctx, ns, s, el=ns['scalar'], fs=ns['fs'])
        f = ['input', [['name', 'foo'], ['value', 'b'], ['class', 'filtered']], []]
        u = ['input', [['name', 'foo'], ['value', 'b']], []]
        ctx.check(out == ([f, u] if how == 'with' else [u, f]), '%s: the tags become %s' % (how, out))


@check.ob('order', [G + 'EvaluatedLast.__call__'],
          'other directives on the same tag come first: a tag that is left out is not rendered, a repeated one is rendered once each, in order', max_runs=2000, shards=8)
def order(ctx):
    ns = ctx.do(SRC)
    el = ns['scalar']
    first = ctx.choose('before', 'after')
    kind = ctx.choose('if', 'ifnot', 'for', 'for-if')
    If, For = ns['If'], ns['For']
    foreign = {'if': [ctx.call(If, 'yes')], 'ifnot': [ctx.call(If, 'no')], 'for': [ctx.call(For, 'xs')], 'for-if': [ctx.call(For, 'xs'), ctx.call(If, 'x')]}[kind]
    s = node(ctx, ns, 'input', [('title', 't${x}')], [('bind', 'el'), ('auto-domid', 'on')], foreign)
    if first == 'after':
        # the directives of flatland may also be sorted before the others
        s = ctx.do('''
    kind, (ds, sub), pos = s[0]
    n = %d
    r = [(kind, (ds[n:] + ds[:n], sub), pos)]
''' % len(foreign), s=s)['r']
    data = dict(el=el, yes=True, no=False, xs=ctx.do('r = [0, 1, 2]')['r'], x=9)
    out = render(ctx, ns, s, **data)
    one = lambda x: ['input', [['title', 't%s' % x], ['name', 'foo'], ['value', 'b'], ['id', 'f_foo']], []]
    want = {'if': [one(9)], 'ifnot': [], 'for': [one(0), one(1), one(2)], 'for-if': [one(1), one(2)]}[kind]
    ctx.check(out == want, '%s %s: the tags become %s, not %s' % (kind, first, out, want))


@check.ob('misuse', [G + 'TagOnly.attach', G + 'AttributeOnly.attach', G + 'setup'],
          'form:with and form:set as attributes, and the others as tags, are template syntax errors')
def misuse(ctx):
    ns = ctx.do(SRC + '''
    class Template(object):
        filepath = u'f'
        def __init__(self):
            self.log = []
        def add_directives(self, ns, factory):
            self.log.append((ns, factory))
    t = Template()
    from flatland.out.genshi import setup
''')
    name = ctx.choose('with', 'set', 'bind', *CONTROLS)
    cls = ctx.m(ns['F'], 'get_directive', name)
    pos = ctx.do('r = (None, 1, 0)')['r']
    d = ctx.I.new_dict([])
    full = ctx.I.new_dict([('auto-name', 'on')])
    for value, bad in (('x', name in ('with', 'set')), ('', name in ('with', 'set')), (full, name not in ('with', 'set')), (d, name not in ('with', 'set'))):
        st, r, x = ctx.catch(lambda: ctx.m(cls, 'attach', ns['t'], ctx.I.new_list([]), value, d, pos))
        if bad:
            ctx.check(st == 'raise' and r == 'TemplateSyntaxError', 'form:%s used wrongly gives %s' % (name, r if st == 'raise' else ctx.show(r)))
        else:
            ctx.check(st == 'ok', 'form:%s raises %s' % (name, r))
    ctx.call(ns['setup'], ns['t'])
    log = ctx.items(ctx.attr(ns['t'], 'log'))
    ctx.check(len(log) == 1, 'setup() registers %d times' % len(log))
    st, r, x = ctx.catch(lambda: ctx.call(ns['setup'], 'not a template'))
    ctx.check(st == 'raise' and r == 'RuntimeError', 'setup() of something else gives %s' % r)
