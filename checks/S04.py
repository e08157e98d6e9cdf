"""S04 — temporal parse, constructor and format tables agree."""
from sa.oblig import Check
from sa import rx
from sa.engine import Sym

check = Check('S04', 'Temporal elements parse what they serialize, field by field')
SC = 'flatland.schema.scalars:'

PARAMS = {'date': ['year', 'month', 'day'], 'time': ['hour', 'minute', 'second'],
          'datetime': ['year', 'month', 'day', 'hour', 'minute', 'second']}
RANGE = {'year': (1, 9999), 'month': (1, 12), 'day': (1, 31), 'hour': (0, 23), 'minute': (0, 59), 'second': (0, 59)}


def terms(v):
    return v.term if isinstance(v, Sym) else v


def layout(ctx, u):
    """[(literal) | (spec, field)] of a serialized value."""
    t = terms(u)
    parts = list(t[1:]) if isinstance(t, tuple) and t[0] == 'concat' else [t]
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(('lit', p))
        elif isinstance(p, tuple) and p[0] == 'fmt' and isinstance(p[2], tuple) and p[2][0] == 'attr':
            out.append(('field', p[1], p[2][2], p[2][1]))
        else:
            ctx.undecided('serialized form %r' % (p,))
    return out


def word(ctx, lay):
    items = []
    for p in lay:
        if p[0] == 'lit':
            items += [rx.Item([c]) for c in p[1]]
        else:
            w = rx.fmt_width(p[1])
            hi = len(str(RANGE[p[2]][1])) if p[2] in RANGE else None
            ctx.check(hi is not None, 'serializes the component %s' % p[2])
            ctx.check(w is not None and w >= hi, 'component %s is written with %s, not zero padded to %d digits' % (p[2], p[1], hi))
            items += [rx.Item(rx.DIGITS, p[2])] * w
    return items


def unstrip(t):
    while isinstance(t, tuple) and t[0] == 'strip':
        t = t[1]
    return t


def make(name, kind):
    @check.ob('native-' + name, [SC + 'Temporal.adapt', SC + 'Temporal.serialize'],
              'a native value is stored as it is and every component of the type is written once, zero padded')
    def native(ctx):
        el = ctx.do('el = %s()' % name)['el']
        v = ctx.sym('v', kind)
        r = ctx.m(el, 'set', v)
        ctx.check(ctx.R(r) is True, 'a native %s was refused' % kind)
        ctx.check(ctx.same(ctx.attr(el, 'value'), v), 'a native %s was altered' % kind)
        lay = layout(ctx, ctx.attr(el, 'u'))
        fields = [p[2] for p in lay if p[0] == 'field']
        ctx.check(sorted(fields) == sorted(PARAMS[kind]), 'serializes components %s' % fields)
        for p in lay:
            if p[0] == 'field':
                ctx.check(p[3] == ('sym', 'v'), 'component %s is not read from the value' % p[2])
        word(ctx, lay)

    @check.ob('parse-' + name, [SC + 'Temporal.adapt', SC + name],
              'set(text): the pattern matches every serialized value and hands each component to the constructor '
              'argument of that name; constructor refusals and non-matching text fail')
    def parse(ctx):
        ns = ctx.do('''
            n = %s()
            n.set(V)
            el = %s()
        ''' % (name, name), V=ctx.sym('native', kind))
        lay = layout(ctx, ctx.attr(ns['n'], 'u'))
        el = ns['el']
        t = ctx.text('t')
        r = ctx.m(el, 'set', t)
        value = ctx.attr(el, 'value')
        if not ctx.truth(r):
            ctx.check(value is None, 'refused text left a value')
            return
        ctx.check(not ctx.is_none(value), 'set(text) succeeded without a value')
        v = terms(value)
        if not (isinstance(v, tuple) and v[0] == 'new'):
            ctx.undecided('parsed value %r' % (v,))
        ctx.check(v[1] == kind, 'constructs a %s' % v[1])
        args = v[2:]
        while len(args) > len(PARAMS[kind]) and args[-1] in (0, None):
            args = args[:-1]        # defaulted microseconds / tzinfo
        ctx.check(len(args) == len(PARAMS[kind]), 'constructs %s from %d components' % (kind, len(args)))
        items = word(ctx, lay)
        for param, a in zip(PARAMS[kind], args):
            ctx.check(not isinstance(a, (int, str)) and a is not None, 'component %s is always %r' % (param, a))
            if not (isinstance(a, tuple) and a[0] == 'int' and isinstance(a[1], tuple) and a[1][0] == 'group'):
                ctx.undecided('constructor argument %r' % (a,))
            pat, gname, src = a[1][1:4]
            ctx.check(unstrip(src) == ('sym', 't'), 'component %s is read from %r' % (param, src))
            try:
                tree = rx.parse(pat)
                gid = tree.state.groupdict.get(gname, gname)
                ways = [(e, g) for e, g in rx.match_fixed(tree, items) if e == len(items)]
            except ValueError as e:
                ctx.undecided('pattern construct %s' % e)
            ctx.check(ways, 'the pattern %r does not accept the serialized form' % pat)
            for e, g in ways[:1]:
                ctx.check(gid in g, 'group %r is missing' % (gname,))
                s0, s1 = g[gid]
                tags = [i.tag for i in items[s0:s1]]
                ctx.check(tags and set(tags) == {param} and tags == [i.tag for i in items if i.tag == param],
                          'constructor argument %s receives the text of %s' % (param, '/'.join(sorted(set(str(x) for x in tags)))))

    @check.ob('other-' + name, [SC + 'Temporal.adapt'],
              'values that are neither text nor of the native type are refused; None is accepted as None')
    def other(ctx):
        el = ctx.do('el = %s()' % name)['el']
        v = ctx.sym('v', 'none', 'bool', 'int', 'float', 'list', 'dict', 'tuple', 'object', *[k for k in ('date', 'time') if k != kind and not (kind == 'date')])
        r = ctx.m(el, 'set', v)
        if ctx.is_none(v):
            ctx.check(ctx.truth(r) and ctx.attr(el, 'u') == u'', 'None was refused')
        else:
            ctx.check(not ctx.truth(r) and ctx.attr(el, 'value') is None, 'a foreign value was accepted')

    @check.ob('strip-' + name, [SC + 'Temporal.adapt'],
              'surrounding white space is removed before matching iff strip is true')
    def strip(ctx):
        on = ctx.choose(True, False)
        el = ctx.do('el = %s.using(strip=S)()' % name, S=on)['el']
        t = ctx.text('t')
        r = ctx.m(el, 'set', t)
        if not ctx.truth(r):
            return
        v = terms(ctx.attr(el, 'value'))
        if not (isinstance(v, tuple) and v[0] == 'new'):
            ctx.undecided('parsed value')
        for a in v[2:]:
            if isinstance(a, tuple) and a[0] == 'int' and a[1][0] == 'group':
                ctx.check((a[1][3] == ('sym', 't')) is (not on), 'strip=%s matches %r' % (on, a[1][3]))


@check.ob('newline', [SC + 'Temporal.adapt', SC + 'Date', SC + 'Time', SC + 'DateTime'],
          'with strip off, text that merely contains a date or time is refused')
def newline(ctx):
    name, text = ctx.choose(('Date', u'2010-01-02'), ('Time', u'10:11:12'), ('DateTime', u'2010-01-02 10:11:12'))
    pre, post = ctx.choose((u'', u''), (u'', u'\n'), (u'\n', u''), (u' ', u''), (u'', u' '), (u'x', u''), (u'', u'0'), (u'1', u''), (u'', u'\nx'))
    strip = ctx.choose(True, False)
    el = ctx.do('el = %s.using(strip=S)()' % name, S=strip)['el']
    r = ctx.truth(ctx.m(el, 'set', pre + text + post))
    want = pre + post == u'' or (strip and (pre + post).isspace() and (pre + text + post).strip() == text)
    ctx.check(r is want, '%s(strip=%s).set(%r) gives %s' % (name, strip, pre + text + post, r))


@check.ob('never', [SC + 'Temporal.adapt'], 'text that is blank, lacks a component, has one more or one of another width, or components no date or time has, is refused and leaves no value')
def never(ctx):
    name, texts = ctx.choose(
        ('Date', (u'', u' ', u'2010', u'2010-01', u'2010-1-2', u'10-01-02', u'2010-01-02-03', u'2010-13-01', u'2010-02-30', u'0000-01-01', u'-2010-01-02', u'2010/01/02', u'20100102', u'2010-01-02 00:00:00', u'x')),
        ('Time', (u'', u' ', u'10', u'10:11', u'1:02:03', u'10:11:12:13', u'24:00:00', u'10:60:00', u'10:11:60', u'101112', u'10-11-12', u'10:11:12.5', u'x')),
        ('DateTime', (u'', u' ', u'2010-01-02', u'10:11:12', u'2010-01-02T10:11:12', u'2010-01-0210:11:12', u'2010-01-02  10:11:12', u'2010-02-30 10:11:12', u'2010-01-02 24:11:12', u'2010-01-02 10:11', u'x')))
    for text in texts:
        for strip in (True, False):
            el = ctx.do('el = %s.using(strip=S)()\nel.set(N)' % name, S=strip, N=None)['el']
            r = ctx.truth(ctx.m(el, 'set', text))
            v = ctx.attr(el, 'value')
            ctx.check(r is False and v is None and ctx.attr(el, 'u') == text, '%s(strip=%s).set(%r) gives %s with value %s' % (name, strip, text, r, ctx.show(v)))


@check.ob('derived', [SC + 'Temporal.adapt'], 'an instance of a class derived from the native type is a native value')
def derived(ctx):
    name, kind, args = ctx.choose(('Date', 'date', '(2010, 1, 2)'), ('Time', 'time', '(1, 2, 3)'), ('DateTime', 'datetime', '(2010, 1, 2, 3, 4, 5)'))
    ns = ctx.do('''
    import datetime
    class D(datetime.%s):
        pass
    v = D%s
    el = %s()
    r = el.set(v)
    ''' % (kind, args, name))
    if name == 'Date':
        el = ctx.do('el = Date()')['el']
        v = ctx.sym('v', 'datetime')
        ctx.check(ctx.R(ctx.m(el, 'set', v)) is True and ctx.same(ctx.attr(el, 'value'), v), 'a datetime, which is a date, is refused or altered by Date')
    ctx.check(ctx.R(ns['r']) is True and ctx.R(ctx.attr(ns['el'], 'value')) is ctx.R(ns['v']), 'an instance of a class derived from datetime.%s is refused or altered' % kind)


for n, k in (('Date', 'date'), ('Time', 'time'), ('DateTime', 'datetime')):
    make(n, k)
