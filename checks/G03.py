"""G03 — settings live in nested blocks."""
from sa.oblig import Check
from . import markup as M

check = Check('G03', 'Markup settings live in nested blocks that restore what they hide')
G = 'flatland.out.markup:'
N = 'flatland.out.generic:'
KEYS = ('auto_name', 'auto_value', 'auto_domid', 'auto_for', 'auto_tabindex', 'auto_filter', 'tabindex', 'domid_format', 'filters', 'markup_wrapper')


def view(ctx, c, keys=KEYS):
    return {k: ctx.R(ctx.m(c, '__getitem__', k)) for k in keys}


def agree(ctx, c, want, what, keys=KEYS):
    got = view(ctx, c, keys)
    for k in keys:
        a, b = got[k], ctx.R(want[k])
        ctx.check(a is b or ctx.same(a, b), '%s: %s is %s, not %s' % (what, k, ctx.show(a), ctx.show(b)))
        ctx.check(ctx.truth(ctx.m(c, '__contains__', k)), '%s: %s is not in it' % (what, k))
    ctx.check(not ctx.truth(ctx.m(c, '__contains__', u'bogus')), '%s: an unknown key is in it' % what)


OPS = ['push', 'push-kw', 'push-bad', 'pop', 'item', 'item-bad', 'update-dict', 'update-pairs', 'update-kw', 'update-bad', 'update-two']


@check.ob('context', [N + 'Context.push', N + 'Context.pop', N + 'Context.update', N + 'Context.__setitem__', N + 'Context.__getitem__', N + 'Context.__contains__'],
          'after any sequence of operations the context reads as a stack of overlays would: changes count until the block they were made in ends; unknown keys are '
          'KeyErrors that open no block; the outermost block cannot be left', max_runs=60000, shards=8)
def context(ctx):
    ns = ctx.do(M.SRC)
    c = ctx.call(ns['Context'])
    other = ctx.call(ns['Context'])
    base = view(ctx, other)
    stack = [dict(base)]
    n = 3 if not ctx.thorough else 4
    for i in range(n):
        op = ctx.choose(*OPS)
        v1, v2 = u'v%d-%%s' % i, i + 10
        if op == 'push':
            ctx.m(c, 'push')
            stack.append(dict(stack[-1]))
        elif op == 'push-kw':
            ctx.m(c, 'push', domid_format=v1, tabindex=v2)
            stack.append(dict(stack[-1], domid_format=v1, tabindex=v2))
        elif op == 'push-bad':
            st, r, x = ctx.catch(lambda: ctx.m(c, 'push', bogus=1))
            ctx.check(st == 'raise' and r == 'KeyError', 'push() with an unknown key: %s' % r)
        elif op == 'pop':
            st, r, x = ctx.catch(lambda: ctx.m(c, 'pop'))
            if len(stack) == 1:
                ctx.check(st == 'raise' and r == 'RuntimeError', 'pop() of the base block: %s' % r)
            else:
                ctx.check(st == 'ok', 'pop() raises %s' % r)
                stack.pop()
        elif op == 'item':
            ctx.m(c, '__setitem__', u'auto_name', v1)
            stack[-1]['auto_name'] = v1
        elif op == 'item-bad':
            st, r, x = ctx.catch(lambda: ctx.m(c, '__setitem__', u'bogus', v1))
            ctx.check(st == 'raise' and r == 'KeyError', 'setting an unknown key: %s' % r)
            st, r, x = ctx.catch(lambda: ctx.m(c, '__getitem__', u'bogus'))
            ctx.check(st == 'raise' and r == 'KeyError', 'reading an unknown key: %s' % r)
        elif op == 'update-dict':
            ctx.m(c, 'update', ctx.I.new_dict([(u'auto_for', v1), (u'tabindex', v2)]), tabindex=7)
            stack[-1].update(auto_for=v1, tabindex=7)
        elif op == 'update-pairs':
            ctx.m(c, 'update', ctx.do('r = [(u"auto_for", a), (u"auto_for", b)]', a=v1, b=v2)['r'])
            stack[-1].update(auto_for=v2)
        elif op == 'update-kw':
            ctx.m(c, 'update', auto_for=v1)
            stack[-1].update(auto_for=v1)
        elif op == 'update-bad':
            st, r, x = ctx.catch(lambda: ctx.m(c, 'update', bogus=v1))
            ctx.check(st == 'raise' and r == 'KeyError', 'updating an unknown key: %s' % r)
        elif op == 'update-two':
            st, r, x = ctx.catch(lambda: ctx.m(c, 'update', ctx.I.new_dict([]), ctx.I.new_dict([])))
            ctx.check(st == 'raise' and r == 'TypeError', 'update() with two mappings: %s' % r)
        agree(ctx, c, stack[-1], 'after ' + op)
    while len(stack) > 1:
        ctx.m(c, 'pop')
        stack.pop()
        agree(ctx, c, stack[-1], 'after leaving the block')
    st, r, x = ctx.catch(lambda: ctx.m(c, 'pop'))
    ctx.check(st == 'raise' and r == 'RuntimeError', 'pop() of the base block: %s' % r)
    agree(ctx, c, stack[-1], 'after a refused pop()')
    agree(ctx, other, base, 'another context')
    agree(ctx, ctx.call(ns['Context']), base, 'a new context')


GOPS = ['begin', 'begin-kw', 'begin-bad', 'end', 'set', 'set-back', 'set-auto', 'set-bad', 'render']


@check.ob('generator', [G + 'Generator.__init__', G + 'Generator.begin', G + 'Generator.end', G + 'Generator.set'],
          'begin(), end() and set() change the settings of their block only; set() reads the spellings of on and off; unknown settings raise and open no block; '
          'end() without begin() raises; rendering changes no setting but tabindex; generators do not affect each other', max_runs=60000, shards=8)
def generator(ctx):
    ns = ctx.do(M.SRC)
    first = ctx.choose('plain', 'configured')
    kw = {} if first == 'plain' else {'auto_domid': True, 'domid_format': u'x%s', 'tabindex': 4}
    keys = KEYS + ('ordered_attributes',)
    g = ctx.call(ns['Generator'], 'html' if first == 'plain' else 'xml', **kw)
    other = ctx.call(ns['Generator'])
    obase = view(ctx, other, keys)
    stack = [dict(obase, **kw)]
    agree(ctx, g, stack[-1], 'a new generator', keys)
    n = 3 if not ctx.thorough else 4
    for i in range(n):
        op = ctx.choose(*GOPS)
        v1, v2 = u'v%d-%%s' % i, i + 10
        if op == 'begin':
            ctx.m(g, 'begin')
            stack.append(dict(stack[-1]))
        elif op == 'begin-kw':
            ctx.m(g, 'begin', domid_format=v1, auto_for=False)
            stack.append(dict(stack[-1], domid_format=v1, auto_for=False))
        elif op == 'begin-bad':
            st, r, x = ctx.catch(lambda: ctx.m(g, 'begin', bogus=1))
            ctx.check(st == 'raise' and r in ('KeyError', 'TypeError'), 'begin() with an unknown setting: %s' % r)
        elif op == 'end':
            st, r, x = ctx.catch(lambda: ctx.m(g, 'end'))
            if len(stack) == 1:
                ctx.check(st == 'raise' and r == 'RuntimeError', 'end() without begin(): %s' % r)
            else:
                ctx.check(st == 'ok', 'end() raises %s' % r)
                stack.pop()
        elif op == 'set':
            ctx.m(g, 'set', domid_format=v1, ordered_attributes=False, tabindex=v2)
            stack[-1].update(domid_format=v1, ordered_attributes=False, tabindex=v2)
        elif op == 'set-back':
            # to what the enclosing block, or a fresh generator, says
            back = {k: (stack[-2] if len(stack) > 1 else obase)[k] for k in ('domid_format', 'tabindex', 'auto_for', 'ordered_attributes')}
            ctx.m(g, 'set', **back)
            stack[-1].update(back)
        elif op == 'set-auto':
            ctx.m(g, 'set', auto_value=u'OFF', auto_domid=u'yes', auto_name=u'auto', auto_filter=1)
            stack[-1].update(auto_value=False, auto_domid=True, auto_name=ns['Maybe'], auto_filter=True)
        elif op == 'set-bad':
            st, r, x = ctx.catch(lambda: ctx.m(g, 'set', bogus=1))
            ctx.check(st == 'raise' and r == 'TypeError', 'set() of an unknown setting: %s' % r)
        else:
            for t in ('input', 'label', 'textarea', 'form', 'select', 'option', 'button'):
                ctx.m(g, t, ns['scalar'])
            ctx.m(g, 'tag', 'x', ns['scalar'], auto_value=True, auto_tabindex=False)
        agree(ctx, g, stack[-1], 'after ' + op, keys)
    while len(stack) > 1:
        ctx.m(g, 'end')
        stack.pop()
        agree(ctx, g, stack[-1], 'after end()', keys)
    st, r, x = ctx.catch(lambda: ctx.m(g, 'end'))
    ctx.check(st == 'raise' and r == 'RuntimeError', 'end() without begin(): %s' % r)
    agree(ctx, other, obase, 'another generator', keys)


@check.ob('construction', [G + 'Generator.__init__'],
          'a generator accepts html, xhtml and xml and every setting, and refuses other kinds of markup and unknown settings')
def construction(ctx):
    ns = ctx.do(M.SRC)
    kind = ctx.choose('html', 'xhtml', 'xml', 'HTML', '', 'sgml', None, 1)
    st, g, x = ctx.catch(lambda: ctx.call(ns['Generator'], kind))
    if kind in ('html', 'xhtml', 'xml'):
        ctx.check(st == 'ok', 'Generator(%r) raises %s' % (kind, g))
        st, g, x = ctx.catch(lambda: ctx.call(ns['Generator'], kind, bogus=1))
        ctx.check(st == 'raise' and g in ('KeyError', 'TypeError'), 'Generator(bogus=1): %s' % g)
        for k in KEYS[:8]:
            for v in (True, False, u'on', u'off', 3):
                g = ctx.call(ns['Generator'], kind, **{k: v})
                ctx.check(ctx.same(ctx.m(g, '__getitem__', k), v), 'Generator(%s=%r) does not keep it' % (k, v))
    else:
        ctx.check(st == 'raise' and g == 'TypeError', 'Generator(%r): %s' % (kind, g))
