"""S07 — native conversion of strings and numbers."""
from sa.oblig import Check
from sa.engine import BStr

check = Check('S07', 'Strings and numbers are converted by the rule of their type and format')
SC = 'flatland.schema.scalars:'


def plain(ctx, v):
    v = ctx.R(v)
    return v.p if isinstance(getattr(v, 'p', None), str) else v


@check.ob('string', [SC + 'String.adapt', SC + 'String.serialize'],
          'a String holds the text of what it is set to, white space at the ends removed iff strip counts as true (on the class, on a derived class or on the element); its text is its value')
def string(ctx):
    strip = ctx.choose(True, False, 1, 0, None, u'yes')
    where = ctx.choose('class', 'instance', 'subclass', 'assigned')
    ns = ctx.do('''
    if where == 'class':
        el = String.using(strip=strip)()
    elif where == 'instance':
        el = String(strip=strip)
    elif where == 'assigned':
        el = String()
        el.strip = strip
    else:
        class K(String):
            pass
        K.strip = strip
        el = K.named(u'k')()
    class O(object):
        def __unicode__(self):
            return u' obj '
    ''', strip=strip, where=where)
    for t in (u'', u'a', u' a', u'a ', u'\t a b\n', u'\xa0x\u2003', u'\u3000', u'  ', u'\x1cq\x85', u'0', u'None', u"'q'", u'a\x00', u'\u200bz', u'\ufeffz '):
        el = ns['el']
        r = ctx.m(el, 'set', t)
        want = t.strip() if strip else t
        for n in ('value', 'u'):
            v = plain(ctx, ctx.attr(el, n))
            ctx.check(v == want and not isinstance(v, BStr), 'a String (strip=%r by %s) set to %r: .%s is %r' % (strip, where, t, n, v))
        ctx.check(ctx.truth(r) is True, 'set(%r) fails' % t)
    for src, want in (('5', u'5'), ('0', u'0'), ('True', u'True'), ('1.5', u'1.5'), ("' ab '", u' ab '), ("''", u''), ('O()', u' obj '), ('String(u"in")', u'in'),
                      ('Integer(7)', u'7'), ('-3', u'-3'), ('10 ** 20', u'100000000000000000000')):
        v = ctx.do('v = ' + src, O=ns['O'])['v']
        ctx.m(el, 'set', v)
        want = want.strip() if strip else want
        for n in ('value', 'u'):
            got = plain(ctx, ctx.attr(el, n))
            ctx.check(got == want and not isinstance(got, BStr), 'a String (strip=%r) set to %s: .%s is %r' % (strip, src, n, got))


@check.ob('number-rule', [SC + 'Number.adapt', SC + 'Number.serialize'],
          'a Number of any type_: the value is type_ of what was given (text without white space at the ends); a value exactly of that type is written with format, another as its text')
def number_rule(ctx):
    calls = []
    kind = ctx.choose('same', 'sub', 'other', 'fn')
    ns = ctx.do('''
    class T(object):
        def __init__(self, v):
            self.v = v
        def __lt__(self, other):
            return False
        def __unicode__(self):
            return u'text'
        def __str__(self):
            return 'text'
    class Sub(T):
        pass
    class Other(object):
        def __unicode__(self):
            return u'other'
        def __str__(self):
            return 'other'
    seen = []
    def conv(v):
        seen.append(v)
        return {'fn': T, 'sub': Sub}.get(kind, lambda v: Other())(v)
    if kind == 'same':
        type_ = T
    else:
        type_ = staticmethod(conv)
    class K(Number):
        format = u'<%s>'
    K.type_ = type_
    el = K(**kw)
    ''' , Number=ctx.get(SC + 'Number'), kind=kind, kw=ctx.I.new_dict([('format', u'[%s]')] if ctx.choose(False, True) else []))
    own = ctx.R(ctx.attr(ns['el'], 'format')) == u'[%s]'
    v, want = ctx.choose((u' x ', u'x'), (u'x', u'x'), (u'\t1\n', u'1'), (5, 5), (u'', u''), (2.5, 2.5), ((), ()))
    r = ctx.m(ns['el'], 'set', v)
    ctx.check(ctx.truth(r) is True, 'set(%r) of a convertible value fails' % (v,))
    got = ctx.R(ctx.attr(ns['el'], 'value'))
    given = ctx.R(ctx.attr(got, 'v')) if kind == 'same' else ctx.R(ctx.items(ns['seen'])[0])
    ctx.check(given == want, 'type_ is given %r for %r' % (given, v))
    if kind != 'same':
        ctx.check(len(ctx.items(ns['seen'])) == 1, 'type_ is called %d times' % len(ctx.items(ns['seen'])))
    u = ctx.R(ctx.attr(ns['el'], 'u'))
    text = u'text' if kind != 'other' else u'other'
    exp = (u'[%s]' if own else u'<%s>') % text if kind == 'same' else text
    ctx.check(u == exp, 'a %s value is written %r, not %r' % ({'same': 'native', 'fn': 'foreign', 'sub': 'foreign', 'other': 'foreign'}[kind], u, exp))


INTS = [('0', 0), ('-3', -3), ('True', 1), ('False', 0), ('2.9', 2), ('-2.9', -2), ("u'12'", 12), ("u' 12\\t'", 12), ("u'-0'", 0), ("u'+7'", 7), ("u'007'", 7), ("' 8 '", 8), ("u'\\u0661'", 1), ('10 ** 20', 10 ** 20),
        ("u'100000000000000000000'", 10 ** 20), ("u'\\xa05\\u2003'", 5)]
BAD = ["u''", "u' '", "u'x'", "u'1.5'", "u'1 2'", "u'0x1f'", "u'1_0'", "u'--1'", '()', '[]', 'object()', "u'12a'", "u'1e3'", "'\\xff'"]


@check.ob('integers', [SC + 'Integer', SC + 'Long', SC + 'Number.adapt'], 'Integer and Long: int() of what they are set to, written in decimal; text that is no integer, and other things, are refused')
def integers(ctx):
    cls = ctx.choose('Integer', 'Long')
    fmt = ctx.choose(None, u'%04i', u'%x')
    K = ctx.do('K = %s if not f else %s.using(format=f)' % (cls, cls), f=fmt)['K']
    el = ctx.call(K)
    for src, want in INTS:
        r = ctx.m(el, 'set', ctx.do('v = ' + src)['v'])
        got, u = ctx.R(ctx.attr(el, 'value')), ctx.R(ctx.attr(el, 'u'))
        big = want >= 2 ** 63
        ctx.check(ctx.truth(r) is True and got == want and not isinstance(got, bool) and not isinstance(got, float), '%s set to %s: %s' % (cls, src, ctx.show(got)))
        ctx.check(u == (fmt or u'%i') % want or big and u == u'%d' % want, '%s(format=%r) set to %s: text %r' % (cls, fmt, src, u))
    for src in BAD:
        r = ctx.m(el, 'set', ctx.do('v = ' + src)['v'])
        ctx.check(ctx.truth(r) is False and ctx.is_none(ctx.attr(el, 'value')), '%s accepts %s' % (cls, src))


FLOATS = [('0', 0.0), ('3', 3.0), ('True', 1.0), ('-2.5', -2.5), ("u'1.5'", 1.5), ("u' 1.5 '", 1.5), ("u'1e3'", 1000.0), ("u'.5'", .5), ("u'-3'", -3.0), ("u'5.'", 5.0), ("' 2 '", 2.0)]
FBAD = ["u''", "u' '", "u'x'", "u'1,5'", "u'1 2'", '()', 'object()', "u'1.5.5'"]


@check.ob('floats', [SC + 'Float', SC + 'Number.adapt'], 'Float: the number the text or value stands for, written with six places or as the format says; other things are refused')
def floats(ctx):
    fmt = ctx.choose(None, u'%.2f', u'%g')
    K = ctx.do('K = Float if not f else Float.using(format=f)', f=fmt)['K']
    el = ctx.call(K)
    for src, want in FLOATS:
        r = ctx.m(el, 'set', ctx.do('v = ' + src)['v'])
        got = ctx.R(ctx.attr(el, 'value'))
        ctx.check(ctx.truth(r) is True and got == want and type(got) is float, 'Float set to %s: %s' % (src, ctx.show(got)))
        u = ctx.R(ctx.attr(el, 'u'))
        ctx.check(u == (fmt or u'%f') % want, 'Float(format=%r) set to %s: text %r' % (fmt, src, u))
    for src in FBAD:
        r = ctx.m(el, 'set', ctx.do('v = ' + src)['v'])
        ctx.check(ctx.truth(r) is False and ctx.is_none(ctx.attr(el, 'value')), 'Float accepts %s' % src)


@check.ob('decimals', [SC + 'Decimal', SC + 'Decimal.adapt', SC + 'Number.adapt'], 'Decimal: the decimal.Decimal of what was given (text without white space at the ends), exactly, written by the format')
def decimals(ctx):
    fmt = ctx.choose(None, u'%.2f')
    D = ctx.get('decimal:Decimal')
    K = ctx.do('K = Decimal if not f else Decimal.using(format=f)', f=fmt, Decimal=ctx.get(SC + 'Decimal'))['K']
    el = ctx.call(K)
    v, as_ = ctx.choose((u'1.10', u'1.10'), (u' 7 ', u'7'), (u'x', u'x'), (u'1e3', u'1e3'), (5, 5), (0, 0), (u'-2', u'-2'), (10 ** 20, 10 ** 20))
    r = ctx.m(el, 'set', v)
    got = ctx.attr(el, 'value')
    if ctx.truth(r) is not True:
        ctx.check(ctx.is_none(got), 'a refused value leaves %s' % ctx.show(got))
        return
    want = ctx.call(D, as_)
    ctx.check(ctx.same(got, want), 'Decimal set to %r holds %s' % (v, ctx.show(got)))
    u = ctx.do('u = f % v', f=fmt or u'%f', v=got)['u']
    ctx.check(ctx.same(ctx.attr(el, 'u'), u), 'Decimal(format=%r) set to %r is written %s' % (fmt, v, ctx.show(ctx.attr(el, 'u'))))
