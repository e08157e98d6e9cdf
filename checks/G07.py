"""G07 — tabindex numbering."""
from sa.oblig import Check
from . import markup as M

check = Check('G07', 'tabindex numbers the tags that use it, consecutively')
G = 'flatland.out.generic:'


@check.ob('one', [G + 'transform_tabindex'],
          'a tag that takes a tabindex gets the current number; positive numbers go up by one exactly when used, zero gives nothing, negative numbers stay',
          max_runs=4000, shards=8)
def one(ctx):
    ns = ctx.do(M.SRC)
    n = ctx.choose(-5, -1, 0, 1, 2, 10, 32767)
    bname = ctx.choose('scalar', None)
    b = M.bind(ctx, ns, bname)
    for tag in M.TAGS:
        for existing in (None, u'', u'7', u'0'):
            for own in (None, True, False, u'auto'):
                for outer in (None, True):
                    attrs = {}
                    if existing is not None:
                        attrs['tabindex'] = existing
                    if own is not None:
                        attrs['auto_tabindex'] = own
                    s = {'tabindex': n}
                    if outer:
                        s['auto_tabindex'] = outer
                    M.compare(ctx, ns, tag, attrs, None, s, b, bname)


@check.ob('symbolic', [G + 'transform_tabindex'],
          'for any positive number n the tag gets n and the next gets n + 1')
def symbolic(ctx):
    ns = ctx.do(M.SRC)
    n = ctx.int('n', -1000000, 1000000)
    c = ctx.call(ns['Context'])
    ctx.m(c, '__setitem__', 'tabindex', n)
    ctx.m(c, '__setitem__', 'auto_tabindex', True)
    d = ctx.I.new_dict([])
    ctx.call(ns['transform'], 'input', d, None, c, None)
    got = {M.text(ctx, k): v for k, v in ctx.host(d)}
    after = ctx.m(c, '__getitem__', 'tabindex')
    zero = ctx.truth(ctx.do('r = n == 0', n=n)['r'])
    pos = ctx.truth(ctx.do('r = n > 0', n=n)['r'])
    if zero:
        ctx.check('tabindex' not in got, 'a tag gets tabindex 0')
        ctx.check(ctx.truth(ctx.do('r = a == n', a=after, n=n)['r']), 'zero is counted up')
        return
    ctx.check('tabindex' in got, 'a tag gets no tabindex')
    ctx.check(ctx.same(got['tabindex'], ctx.do('r = unicode(n)', n=n)['r']), 'the tabindex is %s' % ctx.show(got['tabindex']))
    ctx.check(ctx.truth(ctx.do('r = a == n + k', a=after, n=n, k=1 if pos else 0)['r']), 'the next tabindex is %s' % ctx.show(after))


@check.ob('sequence', [G + 'transform_tabindex', 'flatland.out.markup:Generator'],
          'over any sequence of tags, blocks and settings, tags that take a number get consecutive ones; leaving a block returns to the numbers before it',
          max_runs=60000, shards=8)
def sequence(ctx):
    ns = ctx.do(M.SRC)
    g = ctx.call(ns['Generator'], tabindex=5, auto_tabindex=True)
    stack = [(5, True)]
    el = ns['scalar']
    n = 3 if not ctx.thorough else 5
    for i in range(n):
        cur, on = stack[-1]
        ops = ['input', 'label', 'own', 'forced', 'begin', 'begin9', 'off', 'set2']
        if len(stack) > 1:
            ops.append('end')
        op = ctx.choose(*ops)
        want = None
        if op == 'begin':
            ctx.m(g, 'begin')
            stack.append((cur, on))
        elif op == 'begin9':
            ctx.m(g, 'begin', tabindex=9, auto_tabindex=True)
            stack.append((9, True))
        elif op == 'off':
            ctx.m(g, 'set', auto_tabindex=False)
            stack[-1] = (cur, False)
        elif op == 'set2':
            ctx.m(g, 'set', tabindex=2)
            stack[-1] = (2, on)
        elif op == 'end':
            ctx.m(g, 'end')
            stack.pop()
        else:
            uses = {'input': on, 'label': False, 'own': False, 'forced': True}[op]
            if op == 'input':
                out = ctx.m(g, 'input', el)
            elif op == 'label':
                out = ctx.m(g, 'label', el)
            elif op == 'own':
                out = ctx.m(g, 'input', el, tabindex=u'77')
            else:
                out = ctx.m(g, 'tag', u'x', el, auto_tabindex=u'on')
            out = M.text(ctx, out)
            if uses:
                ctx.check('tabindex="%d"' % cur in out, '%s instead of tabindex %d' % (out, cur))
                stack[-1] = (cur + 1, on)
            elif op == 'own':
                ctx.check('tabindex="77"' in out, '%s instead of tabindex 77' % out)
            else:
                ctx.check('tabindex' not in out, '%s although no tabindex is due' % out)
