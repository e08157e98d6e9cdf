"""V08 — message lookup, translation, pluralization and interpolation."""
from sa.oblig import Check

check = Check('V08', 'Messages are translated first, then filled from extras, state, validator, element')
B = 'flatland.validation.base:'
PRE = '''
    from flatland.validation.base import Validator
    class V(Validator):
        validator_attr = u'validator-attr'
        shared = u'validator-shared'
        both = u'validator-both'
        label = u'validator-label'
    class Obj(object):
        pass
    class GrandEl(Dict):
        pass
    class ParEl(Dict):
        pass
    class LeafEl(String):
        element_attr = u'element-attr'
        shared = u'element-shared'
    Leaf = LeafEl.named(u'leaf').using(label=u'L')
    Par = ParEl.named(u'par').of(Leaf)
    Grand = GrandEl.named(u'grand').of(Par)
    root = Grand()
    par = root[u'par']
    leaf = par[u'leaf']
    v = V()
'''


def tr(ctx, tag, log=None):
    def f(m):
        if log is not None:
            log.append(m)
        return ctx.do('r = u"%s<" + m + u">"' % tag, m=m)['r']
    return ctx.fn('ugettext-' + tag, f)


GETITEM = '''
    class S(object):
        def __getitem__(self, k):
            if k == K:
                return F
            raise %s(k)
    s = S()
'''
# states that are not plain mappings or objects
ODD = {'getitem': GETITEM % 'KeyError', 'getitem-none': GETITEM % 'IndexError', 'getitem-type': GETITEM % 'TypeError', 'falsy': '''
    class S(object):
        def __len__(self):
            return 0
        def __nonzero__(self):
            return False
    s = S()
''', 'class': '''
    class S(object):
        pass
    s = S
''', 'subdict': '''
    class S(dict):
        shared = u'attribute'
        state_only = u'attribute'
    s = S()
    s[u'shared'] = F
    s[u'state_only'] = F
'''}


@check.ob('lookup', [B + 'Validator.find_transformer', 'flatland.schema.util:find_i18n_function', 'flatland.schema.util:search_ancestry'],
          'the transformer is the first of: state attribute, state item, the element and its parents nearest first, '
          'their schemas, the builtins; none found gives None', max_runs=9000)
def lookup(ctx):
    ns = ctx.do(PRE)
    what = ctx.choose('ugettext', 'ungettext')
    other = {'ugettext': 'ungettext', 'ungettext': 'ugettext'}[what]
    mk = lambda tag: ctx.fn(what + '-' + tag, lambda *a: tag)
    want = None
    skind = ctx.choose('none', 'attr', 'item', 'both', 'emptydict', 'text', 'list', 'object', 'otherattr', 'getitem', 'getitem-none', 'falsy', 'class', 'tuple')
    state = None
    a, b = mk('state-attr'), mk('state-item')
    if skind in ('attr', 'object', 'otherattr'):
        state = ctx.do('s = Obj()', **pick(ns))['s']
        if skind == 'attr':
            ctx.put(state, what, a)
            want = a
        if skind == 'otherattr':
            ctx.put(state, other, a)
    elif skind == 'item':
        state = ctx.I.new_dict([(what, b), (other, a)])
        want = b
    elif skind == 'both':
        state = ctx.do('''
            class S(dict):
                pass
            s = S()
        ''', **pick(ns))['s']
        ctx.put(state, what, a)
        ctx.do('s[k] = b', s=state, k=what, b=b)
        want = a
    elif skind == 'emptydict':
        state = ctx.I.new_dict([(other, a)])
    elif skind in ODD:
        state = ctx.do(ODD[skind], F=b, K=what if skind != 'getitem-none' else u'nothing', **pick(ns))['s']
        want = b if skind != 'getitem-none' else None
        if skind in ('falsy', 'class'):
            ctx.put(state, what, b)
    elif skind == 'tuple':
        state = (1, 2)
    elif skind == 'text':
        state = u'state'
    elif skind == 'list':
        state = ctx.I.new_list([1, 2])
    if want is None:
        places = [('leaf', ns['leaf']), ('leaf-schema', ns['Leaf']), ('par', ns['par']), ('par-schema', ns['ParEl']),
                  ('root', ns['root']), ('root-schema', ns['Grand'])]
        at = ctx.choose(*[p[0] for p in places] + ['leaf+root', 'par+par-schema', 'par-schema+root', 'nowhere'])
        for name, o in places:
            if name in at.split('+'):
                f = mk(name)
                ctx.put(o, what, f)
                if want is None:
                    want = f
    start = ctx.choose('leaf', 'par') if want is None or 'leaf' not in getattr(want, 'name', '') else 'leaf'
    r = ctx.R(ctx.m(ns['v'], 'find_transformer', what, ns[start], state, u'msg'))
    ctx.check(r is want, '%s with state %s: %s, expected %s' % (what, skind, ctx.show(r), ctx.show(want)))


def pick(ns):
    return dict((k, ns[k]) for k in ('Obj', 'V', 'LeafEl', 'v', 'leaf', 'par', 'root') if k in ns)


@check.ob('values', [B + 'as_format_mapping.__getitem__', B + 'Validator.expand_message'],
          'placeholders are filled from the extra arguments, then state, validator and element, whatever the state is', max_runs=9000)
def values(ctx):
    ns = ctx.do(PRE)
    skind = ctx.choose('none', 'dict', 'object', 'text', 'list', 'int', 'element', 'emptydict', *sorted(ODD))
    sv = ctx.text('sv')
    state = {'none': None, 'text': u'state', 'int': 5}.get(skind)
    if skind == 'dict':
        state = ctx.I.new_dict([(u'shared', sv), (u'state_only', sv)])
    elif skind == 'emptydict':
        state = ctx.I.new_dict([])
    elif skind in ODD:
        state = ctx.do(ODD[skind], F=sv, K=u'state_only', **pick(ns))['s']
        if skind in ('falsy', 'class'):
            ctx.put(state, 'shared', sv)
            ctx.put(state, 'state_only', sv)
    elif skind == 'object':
        state = ctx.do('s = Obj()', **pick(ns))['s']
        ctx.put(state, 'shared', sv)
        ctx.put(state, 'state_only', sv)
    elif skind == 'list':
        state = ctx.I.new_list([1, 2])
    elif skind == 'element':
        state = ctx.do('s = Dict.of(String.named(u"other"))()')['s']
    extra = {}
    ev = ctx.text('ev')
    if ctx.choose(False, True):
        ev = ctx.choose(ev, u'', None, 0)
        extra = {'shared': ev, 'extra_only': ev}
    has_state = skind in ('dict', 'object')
    key = ctx.choose('shared', 'validator_attr', 'element_attr', 'state_only', 'extra_only', 'both')
    want = {'shared': u'validator-shared', 'validator_attr': u'validator-attr', 'element_attr': u'element-attr',
            'both': u'validator-both'}.get(key)
    if has_state and key in ('shared', 'state_only') or skind in ('falsy', 'class', 'subdict') and key in ('shared', 'state_only') or 'getitem' in skind and key == 'state_only':
        want = sv
    if key in extra:
        want = ev if ev is not None and ev is not 0 else {None: u'None', 0: u'0'}[ev]
    # (an element used as the state has the attribute, and it is None)
    if skind != 'element' and not (extra and (ev is None or ev == 0)) and ctx.choose(False, True):
        log = []
        ctx.put(ns['leaf'], 'ugettext', tr(ctx, 'u', log))
        if want is not None:
            want = ctx.do('r = u"u<" + w + u">"', w=want)['r']
            want = ctx.do('r = u"u<" + w + u">"', w=want)['r']
    thunk = lambda: ctx.m(ns['v'], 'expand_message', ns['leaf'], state, u'%%(%s)s' % key, **extra)
    st, r, e = ctx.catch(thunk)
    if want is None:
        ctx.check(st == 'raise' and r == 'KeyError', 'an unknown name gives %s' % (ctx.show(r) if st == 'ok' else r))
        return
    ctx.check(st == 'ok', 'state %s, name %s: %s escapes' % (skind, key, r))
    ctx.check(ctx.same(r, want), 'state %s, name %s: %s, expected %s' % (skind, key, ctx.show(r), ctx.show(want)))


@check.ob('translate', [B + 'Validator.expand_message'],
          'text is translated once, before interpolation; each value is translated once; without a transformer nothing is')
def translate(ctx):
    ns = ctx.do(PRE)
    log = []
    translated = ctx.choose(True, False)
    if translated:
        ctx.put(ns['leaf'], 'ugettext', ctx.fn('ugettext', lambda m: (log.append(m), {u'A %(x)s %(y)s': u'B %(y)s %(x)s', u'one': u'un', u'two': u'deux'}[m])[1]))
    msg = u'A %(x)s %(y)s'
    how = ctx.choose('text', 'callable', 'note_error', 'note_warning', 'note_key')
    calls = []
    f = ctx.fn('message', lambda e, s: (calls.append((ctx.R(e), s)), msg)[1])
    kw = dict(x=u'one', y=u'two')
    want = u'B deux un' if translated else u'A one two'
    st = None
    if how in ('text', 'callable'):
        r = ctx.R(ctx.m(ns['v'], 'expand_message', ns['leaf'], st, msg if how == 'text' else f, **kw))
    else:
        m = ctx.choose('text', 'callable')
        val = msg if m == 'text' else f
        if how == 'note_key':
            if m == 'callable':
                val = ctx.do('r = staticmethod(f)', f=f)['r']
            ctx.put(ns['V'], 'custom', val)
            r0 = ctx.R(ctx.m(ns['v'], 'note_error', ns['leaf'], st, 'custom', **kw))
        else:
            r0 = ctx.R(ctx.m(ns['v'], how, ns['leaf'], st, message=val, **kw))
        ctx.check(r0 is False, 'noting a message returns %s' % ctx.show(r0))
        which = 'warnings' if how == 'note_warning' else 'errors'
        ctx.check(not ctx.items(ctx.attr(ns['leaf'], 'errors' if which == 'warnings' else 'warnings')), 'the message lands in the wrong list')
        got = ctx.items(ctx.attr(ns['leaf'], which))
        ctx.check(len(got) == 1, '%d messages recorded' % len(got))
        r = got[0]
    ctx.check(ctx.same(r, want), 'expanded to %s, expected %s' % (ctx.show(r), want))
    if translated:
        ctx.check(sorted(log) == sorted([msg, u'one', u'two']), 'translated %s' % log)
    if how == 'callable':
        ctx.check(calls == [(ctx.R(ns['leaf']), None)], 'a callable message is not called once with element and state')


@check.ob('plural', [B + 'Validator.expand_message'],
          'a tuple picks the singular iff its count is 1 (as ungettext decides when there is one), counts looked up like '
          'placeholders', max_runs=9000)
def plural(ctx):
    ns = ctx.do(PRE)
    n = ctx.sym('n', 'int')
    src = ctx.choose('extra', 'state', 'validator', 'digits', 'text')
    extra, state, key = {}, None, u'count'
    if src == 'extra':
        extra = {'count': n}
    elif src == 'state':
        state = ctx.I.new_dict([(u'count', n)])
    elif src == 'validator':
        ctx.put(ns['v'], 'count', n)
    elif src == 'digits':
        one = ctx.choose(True, False)
        extra = {'count': u'1' if one else u'21'}
        n = 1 if one else 21
    else:
        extra = {'count': u'many'}
        n = u'many'
    mode = ctx.choose('none', 'ugettext', 'ungettext', 'both')
    log = []
    if mode in ('ugettext', 'both'):
        # values pass through the transformer too: leave non-text ones alone
        def ug(m):
            m = ctx.R(m)
            log.append(m)
            return u'T' + m if isinstance(m, str) and not m[:1].isdigit() and m != u'many' else m
        ctx.put(ns['leaf'], 'ugettext', ctx.fn('ugettext', ug))
    if mode in ('ungettext', 'both'):
        def ung(s, p, c):
            log.append((s, p, ctx.R(c)))
            return u'N %(validator_attr)s'
        ctx.put(ns['leaf'], 'ungettext', ctx.fn('ungettext', ung))
    msg = (u'single %(validator_attr)s', u'plural %(validator_attr)s', key)
    if ctx.choose(False, True):
        m0 = msg
        msg = ctx.fn('message', lambda e, s: m0)
    r = ctx.R(ctx.m(ns['v'], 'expand_message', ns['leaf'], state, msg, **extra))
    va = u'Tvalidator-attr' if mode in ('ugettext', 'both') else u'validator-attr'
    if mode in ('ungettext', 'both'):
        ctx.check(ctx.same(r, u'N ' + va), 'ungettext result not used: %s' % ctx.show(r))
        calls = [c for c in log if isinstance(c, tuple)]
        ctx.check(len(calls) == 1 and calls[0][:2] == (u'single %(validator_attr)s', u'plural %(validator_attr)s'),
                  'ungettext called with %s' % calls)
        ctx.check(ctx.same(calls[0][2], n), 'ungettext gets count %s' % ctx.show(calls[0][2]))
        return
    one = ctx.truth(ctx.do('r = n == 1', n=n)['r'])
    t = u'T' if mode == 'ugettext' else u''
    want = t + (u'single ' if one else u'plural ') + va
    ctx.check(ctx.same(r, want), 'count %s %s 1: %s, expected %s' % (src, 'is' if one else 'is not', ctx.show(r), want))


@check.ob('blank', [B + 'Validator.note_error', B + 'Validator.note_warning'],
          'a validator whose message is blanked out records nothing and still fails')
def blank(ctx):
    ns = ctx.do(PRE)
    meth = ctx.choose('note_error', 'note_warning')
    msg = ctx.choose(None, u'', ())
    if ctx.choose(True, False):
        ctx.put(ns['V'], 'custom', msg)
        r = ctx.R(ctx.m(ns['v'], meth, ns['leaf'], None, 'custom'))
    else:
        ctx.put(ns['v'], 'custom', msg)
        r = ctx.R(ctx.m(ns['v'], meth, ns['leaf'], None, key='custom', extra=1))
    ctx.check(r is False, 'returns %s' % ctx.show(r))
    ctx.check(not ctx.items(ctx.attr(ns['leaf'], 'errors')) and not ctx.items(ctx.attr(ns['leaf'], 'warnings')), 'a blank message is recorded')


@check.ob('given-message', [B + 'Validator.note_error', B + 'Validator.note_warning'],
          'a message given directly is the one recorded, whatever the key; the key is used when the message is blank')
def given_message(ctx):
    ns = ctx.do(PRE)
    meth = ctx.choose('note_error', 'note_warning')
    msg = ctx.choose(u'given', u'', None)
    keyed = ctx.choose(u'keyed', u'', None, 'no key')
    kw = {'message': msg}
    if keyed != 'no key':
        ctx.put(ns['V'], 'custom', keyed)
        kw['key'] = 'custom'
    elif not msg:
        return
    r = ctx.R(ctx.m(ns['v'], meth, ns['leaf'], None, **kw))
    ctx.check(r is False, 'returns %s' % ctx.show(r))
    want = [m for m in (msg or keyed,) if m]
    lists = [[ctx.R(x) for x in ctx.items(ctx.attr(ns['leaf'], a))] for a in ('errors', 'warnings')]
    ctx.check(lists == ([want, []] if meth == 'note_error' else [[], want]),
              'message %r with key text %r records %s, expected %s' % (msg, keyed, lists, want))
