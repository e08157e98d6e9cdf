"""V14 — messages on elements."""
from sa.oblig import Check

check = Check('V14', 'Errors and warnings are kept once each, in order, where they were added')
E = 'flatland.schema.base:Element.'


@check.ob('add', [E + 'add_error', E + 'add_warning'],
          'adding a message appends it iff an equal one is not there yet; the others keep their places; errors do not mix with warnings, nor with those of another element', max_runs=20000)
def add(ctx):
    kind = ctx.choose('String', 'List.of(String)', 'Dict.of(String.named(u"x"))', 'Array.of(Integer)')
    given = ctx.choose('none', 'constructor')
    msgs = [ctx.text('m0'), ctx.text('m1'), 'lit']
    ns = ctx.do('''
    C = %s.named(u'n')
    el = C(errors=[m], warnings=[u'w']) if given == 'constructor' else C()
    other = C()
    ''' % kind, m=msgs[0], given=given)
    el, other = ns['el'], ns['other']
    errors = [msgs[0]] if given == 'constructor' else []
    warnings = ['w'] if given == 'constructor' else []
    eq = lambda a, b: ctx.truth(ctx.I.eq(a, b))
    for i in range(4 if ctx.thorough else 3):
        op = ctx.choose('add_error', 'add_warning')
        m = msgs[ctx.choose(0, 1, 2)]
        r = ctx.m(el, op, m)
        ctx.check(ctx.is_none(r), '%s returns %s' % (op, ctx.show(r)))
        box = errors if op == 'add_error' else warnings
        if not any(eq(m, x) for x in box):
            box.append(m)
        for name, want in (('errors', errors), ('warnings', warnings)):
            got = ctx.items(ctx.attr(el, name))
            ctx.check(len(got) == len(want) and all(ctx.same(a, b) or eq(a, b) for a, b in zip(got, want)),
                      'after %s(%s) the %s are %s, not %s' % (op, ctx.show(m), name, ctx.show(got), ctx.show(want)))
            ctx.check(not ctx.items(ctx.attr(other, name)), 'another element has %s' % name)
            cls_attr = ctx.R(ctx.attr(ns['C'], name)) if ctx.truth(ctx.do('r = hasattr(C, n)', C=ns['C'], n=name)['r']) else None
            ctx.check(cls_attr is None or not ctx.items(cls_attr), 'the class has %s' % name)


@check.ob('kept', [E + 'validate'],
          'validating, setting and reading do not remove messages added before; messages of children stay with the children')
def kept(ctx):
    ns = ctx.do('''
    D = Dict.named(u'd').of(String.named(u'a'), List.named(u'l').of(String))
    el = D({u'a': u'1', u'l': [u'2', u'3']})
    parts = [el, el[u'a'], el[u'l'], el[u'l'][0], el[u'l'][1]]
''')
    parts = ctx.items(ns['parts'])
    who = ctx.choose(0, 1, 2, 3, 4)
    ctx.m(parts[who], 'add_error', 'e')
    ctx.m(parts[who], 'add_warning', 'w')
    ctx.m(parts[(who + 1) % 5], 'add_error', 'f')
    op = ctx.choose('validate', 'value', 'flatten', 'set-leaf', 'u')
    if op == 'validate':
        ctx.m(ns['el'], 'validate')
    elif op in ('value', 'u'):
        ctx.attr(ns['el'], op)
    elif op == 'flatten':
        ctx.items(ctx.m(ns['el'], 'flatten'))
    else:
        ctx.do("parts[1].set(u'z'); parts[3].set(u'z')", parts=ns['parts'])
    for i, p in enumerate(parts):
        want = ['e'] if i == who else ['f'] if i == (who + 1) % 5 else []
        ctx.check(ctx.items(ctx.attr(p, 'errors')) == want, 'after %s the errors of part %d are %s, not %s' % (op, i, ctx.show(ctx.items(ctx.attr(p, 'errors'))), want))
        want = ['w'] if i == who else []
        ctx.check(ctx.items(ctx.attr(p, 'warnings')) == want, 'after %s the warnings of part %d are %s, not %s' % (op, i, ctx.show(ctx.items(ctx.attr(p, 'warnings'))), want))


@check.ob('keys', ['flatland.validation.base:Validator.note_error', 'flatland.validation.base:Validator.note_warning'],
          'note_error() and note_warning() record the message given, else that of the key, on their own list only and give False; no message records nothing; a key naming nothing raises AttributeError', max_runs=4000)
def keys(ctx):
    op, box, other = ctx.choose(('note_error', 'errors', 'warnings'), ('note_warning', 'warnings', 'errors'))
    key = ctx.choose('msg', 'none', 'blank', 'nope', None)
    message = ctx.choose('absent', None, u'', u'given')
    how = ctx.choose('keyword', 'position')
    if key is None and message != u'given':
        return
    ns = ctx.do('''
    from flatland.validation import Validator
    class W(Validator):
        msg = u'MSG %(extra)s'
        none = None
        blank = u''
    v = W()
    el = String.named(u'n')()
    ''')
    args, kw = [ns['el'], None], {'extra': u'x'}
    if how == 'position':
        args += [key] + ([] if message == 'absent' else [message])
    else:
        kw['key'] = key
        if message != 'absent':
            kw['message'] = message
    st, r, e = ctx.catch(lambda: ctx.m(ns['v'], op, *args, **kw))
    if key == 'nope' and message != u'given':
        ctx.check(st == 'raise' and r == 'AttributeError', '%s with a key naming no attribute: %s' % (op, r if st == 'raise' else 'is accepted'))
        want = []
    else:
        ctx.check(st == 'ok' and ctx.R(r) is False, '%s gives %s' % (op, ctx.show(r)))
        want = [u'given'] if message == u'given' else [u'MSG x'] if key == 'msg' else []
    got = [ctx.R(x) for x in ctx.items(ctx.attr(ns['el'], box))]
    ctx.check(got == want, '%s of key %s and message %s records %s, expected %s' % (op, key, message, got, want))
    ctx.check(not ctx.items(ctx.attr(ns['el'], other)), '%s records %s' % (op, other))
