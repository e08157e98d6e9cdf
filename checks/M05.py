"""M05 — compound dates."""
from sa.oblig import Check
from sa.engine import Sym

check = Check('M05', 'A compound date and its parts always tell the same date')
C = 'flatland.schema.compound:'
PARTS = ('year', 'month', 'day')
SRC = '''
    from flatland import *
    from flatland import DateYYYYMMDD
    K = {
        'plain': lambda: DateYYYYMMDD.named(u'd'),
        'one': lambda: DateYYYYMMDD.named(u'd').using(field_schema=[Integer.named(u'yy').using(format=u'%%04i')]),
        'two': lambda: DateYYYYMMDD.named(u'd').using(field_schema=[Integer.named(u'yy').using(format=u'%%04i'), Integer.named(u'mm').using(format=u'%%02i')]),
        'three': lambda: DateYYYYMMDD.named(u'd').using(field_schema=[Integer.named(u'yy'), Integer.named(u'mm'), Integer.named(u'dd')]),
    }[KIND]()
    e = K()
'''.replace('%%', '%')
NAMES = {'plain': ('year', 'month', 'day'), 'one': ('yy', 'month', 'day'), 'two': ('yy', 'mm', 'day'), 'three': ('yy', 'mm', 'dd')}


def build(ctx):
    kind = ctx.choose('plain', 'one', 'two', 'three')
    e = ctx.R(ctx.do(SRC, KIND=kind)['e'])
    return e, [ctx.R(e.p.get(ctx.I, n)[1]) for n in NAMES[kind]], kind


@check.ob('fields', [C + 'DateYYYYMMDD.__compound_init__'],
          'the three parts are year, month, day in that order; parts declared by the user come first and are kept; generated ones are as optional as the date')
def fields(ctx):
    opt = ctx.choose(None, True, False)
    kind = ctx.choose('plain', 'one', 'two', 'three')
    ns = ctx.do(SRC + '''
    if OPT is not None:
        K = K.using(optional=OPT)
    e = K()
    e2 = K()
    fs = K.field_schema
''', KIND=kind, OPT=opt)
    names = [ctx.attr(f, 'name') for f in ctx.items(ns['fs'])]
    ctx.check(tuple(names) == NAMES[kind], 'the parts are %s' % names)
    keys = sorted(ctx.R(k) for k, v in ctx.R(ns['e']).p.items())
    ctx.check(keys == sorted(NAMES[kind]), 'the element holds %s' % keys)
    for f in ctx.items(ns['fs']):
        n = ctx.attr(f, 'name')
        if n in PARTS:
            ctx.check(ctx.truth(ctx.attr(f, 'optional')) is bool(opt), 'part %s of a date with optional=%s has %s' % (n, opt, ctx.show(ctx.attr(f, 'optional'))))


@check.ob('native', [C + 'DateYYYYMMDD.explode', C + 'Compound.set'],
          'setting any date puts each component into its part (whatever they held), as number and text; via set, value=, u= or construction')
def native(ctx):
    e, parts, kind = build(ctx)
    if ctx.choose(False, True):
        ctx.m(e, 'set', u'1999-12-31')
    v = ctx.sym('v', 'date')
    how = ctx.choose('set', 'value', 'u')
    if how == 'set':
        ctx.check(ctx.R(ctx.m(e, 'set', v)) is True, 'set() of a date does not return True')
        ctx.check(ctx.same(ctx.attr(e, 'raw'), v), 'raw')
    else:
        ctx.I.setattr(e, how, v)
    for p, n in zip(parts, PARTS):
        ctx.check(ctx.same(ctx.attr(p, 'value'), ctx.attr(v, n)), 'the part for %s does not hold the %s of the date' % (n, n))


@check.ob('compose', [C + 'DateYYYYMMDD.compose', C + 'Compound.u', C + 'Compound.value'],
          'for any three numbers, put in by any route: the text is the numbers zero padded and the value that date, or both blank if they are no date')
def compose(ctx):
    e, parts, kind = build(ctx)
    cases = [(2020, 2, 29), (1999, 12, 31), (1, 1, 1), (9999, 9, 9), (2021, 2, 29), (2020, 13, 1), (2020, 0, 1), (2020, 4, 31), (2020, 1, 32), (2020, 1, 0), (0, 1, 1),
             (12345, 1, 1), (-1, 1, 1), (2020, -1, 1), (None, 1, 1), (2020, None, 1), (2020, 1, None), (None, None, None), (u'junk', 1, 1), (2020, u'x', 1), (2020, 1, u' '),
             (u'2020', u'2', u'3'), (u' 2020 ', u'02', u'3 ')]
    ymd = ctx.choose(*cases)
    route = ctx.choose('parts', 'flat', 'item', 'update')
    pairs = list(zip(parts, ymd))
    if route == 'parts':
        for p, x in pairs:
            ctx.m(p, 'set', x)
    elif route == 'flat':
        if any(x is None for x in ymd):
            pairs = [(p, x) for p, x in pairs if x is not None]
        names = NAMES[kind]
        ctx.m(e, 'set_flat', ctx.I.new_list([(u'd_' + names[parts.index(p)], x if isinstance(x, str) else u'%d' % x) for p, x in pairs]))
    elif route == 'item':
        for n, x in zip(NAMES[kind], ymd):
            ctx.m(e, '__setitem__', n, x)
    else:
        ctx.m(e, 'update', ctx.I.new_dict([(n, x) for n, x in zip(NAMES[kind], ymd)]))
    nums = []
    for x in ymd:
        try:
            nums.append(int(x))
        except (TypeError, ValueError):
            nums.append(None)
    import datetime
    try:
        d = datetime.date(*nums)
    except (TypeError, ValueError):
        d = None
    u, v = ctx.attr(e, 'u'), ctx.attr(e, 'value')
    if d is None:
        ctx.check(v is None, '%s composes to the value %s' % (ymd, ctx.show(v)))
    else:
        ctx.check(u == u'%04d-%02d-%02d' % tuple(nums), '%s composes to the text %s' % (ymd, ctx.show(u)))
        ctx.check(v is not None, '%s composes to no value' % (ymd,))
        for n, x in zip(PARTS, nums):
            ctx.check(ctx.attr(v, n) == x, '%s composes to a date whose %s is %s' % (ymd, n, ctx.show(ctx.attr(v, n))))
    if None in nums:
        ctx.check(u == u'', '%s composes to the text %s' % (ymd, ctx.show(u)))


@check.ob('parse', [C + 'DateYYYYMMDD.explode', C + 'Compound.set'],
          'text that is a date sets the parts and returns True; None clears them and returns True; everything else clears them, returns False and never raises')
def parse(ctx):
    e, parts, kind = build(ctx)
    if ctx.choose(False, True):
        ctx.m(e, 'set', u'1999-12-31')
    v, want = ctx.choose((u'2020-02-29', (2020, 2, 29)), (u'0001-01-01', (1, 1, 1)), (u' 2020-10-11 ', (2020, 10, 11)), (u'2021-02-29', None), (u'2020-1-1', None), (u'', None), (u'junk', None),
                         (u'2020-13-01', None), (u'02020-12-01', None), (u'2020-12-01x', None), ('int', None), ('list', None), ('object', None), ('bytes', None), ('none', 'clear'), ('dict', None))
    arg = v
    if v == 'none':
        arg = None
    elif v in ('int', 'list', 'object', 'dict', 'bytes'):
        arg = ctx.sym('v', v)
    st, r, x = ctx.catch(lambda: ctx.m(e, 'set', arg))
    ctx.check(st == 'ok', 'set(%s) raises %s' % (v, r))
    if v == 'bytes' and ctx.truth(r):
        return
    ctx.check(ctx.R(r) is (want is not None), 'set(%r) returns %s' % (v, ctx.show(r)))
    ctx.check(ctx.same(ctx.attr(e, 'raw'), arg), 'set(%r) does not record raw' % v)
    for p, n, i in zip(parts, PARTS, range(3)):
        w = want[i] if isinstance(want, tuple) else None
        ctx.check(ctx.R(ctx.attr(p, 'value')) == w, 'after set(%r) the part for %s holds %s' % (v, n, ctx.show(ctx.attr(p, 'value'))))
        if w is None:
            ctx.check(ctx.attr(p, 'u') == u'', 'after set(%r) the part for %s keeps text' % (v, n))
    ctx.check((ctx.attr(e, 'value') is None) is (not isinstance(want, tuple)), 'after set(%r) the value is %s' % (v, ctx.show(ctx.attr(e, 'value'))))


@check.ob('empty', [C + 'Compound.is_empty'], 'a compound is empty iff every part is')
def empty(ctx):
    e, parts, kind = build(ctx)
    some = False
    for p in parts:
        x = ctx.choose(None, 0, 5, u'junk', u'')
        ctx.m(p, 'set', x)
        some = some or not (ctx.attr(p, 'value') is None and ctx.attr(p, 'u') == u'')
    ctx.check(ctx.truth(ctx.attr(e, 'is_empty')) is (not some), 'is_empty is wrong')


@check.ob('set-any', [C + 'Compound.set'],
          'for any explode(): None means success, any other result is returned; an exception is a False, but SystemExit, KeyboardInterrupt and NotImplementedError pass')
def set_any(ctx):
    out = ctx.choose('none', 'true', 'false', 'any', 'ValueError', 'KeyError', 'AdaptationError', 'UnicodeDecodeError', 'AssertionError', 'SystemExit', 'KeyboardInterrupt', 'NotImplementedError')
    ns = ctx.do('''
        from flatland import *
        from flatland import AdaptationError
        from flatland.schema.compound import Compound
        class K(Compound):
            field_schema = [String.named(u'a')]
            def explode(self, value):
                self[u'a'].set(value)
                if OUT == 'UnicodeDecodeError':
                    'x'.decode('utf-16-be')
                    raise ValueError()
                elif OUT == 'AdaptationError':
                    raise AdaptationError()
                elif OUT not in ('none', 'true', 'false', 'any'):
                    raise {'ValueError': ValueError, 'KeyError': KeyError, 'AssertionError': AssertionError, 'SystemExit': SystemExit,
                           'KeyboardInterrupt': KeyboardInterrupt, 'NotImplementedError': NotImplementedError}[OUT]()
                return RES
        e = K()
    ''', OUT=out, RES={'none': None, 'true': True, 'false': False}.get(out, ctx.sym('r', 'int', 'text', 'object') if out == 'any' else None))
    v = ctx.any('v')
    st, r, x = ctx.catch(lambda: ctx.m(ns['e'], 'set', v))
    if out in ('SystemExit', 'KeyboardInterrupt', 'NotImplementedError'):
        ctx.check(st == 'raise' and r == out, '%s from explode() gives %s' % (out, r))
    elif out in ('none', 'true'):
        ctx.check(st == 'ok' and ctx.R(r) is True, 'success gives %s' % (r,))
    elif out == 'any':
        ctx.check(st == 'ok' and ctx.same(r, ctx.R(r)), 'result')
    else:
        ctx.check(st == 'ok' and ctx.R(r) is False, '%s in explode() gives %s' % (out, r if st == 'raise' else ctx.show(r)))
    ctx.check(ctx.same(ctx.attr(ns['e'], 'raw'), v), 'raw is not recorded')


@check.ob('repr', [C + 'Compound.__repr__'], 'repr() of a compound whose composition fails is still text')
def repr_(ctx):
    exc = ctx.choose('ValueError', 'NotImplementedError', 'none')
    ns = ctx.do('''
        from flatland import *
        from flatland.schema.compound import Compound
        class K(Compound):
            field_schema = [String.named(u'a')]
            def compose(self):
                if EXC == 'ValueError':
                    raise ValueError()
                elif EXC == 'NotImplementedError':
                    raise NotImplementedError()
                return u'', None
        r = repr(K(name=u'n'))
    ''', EXC=exc)
    ctx.check(ns['r'] is not None, 'no repr')
