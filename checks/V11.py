"""V11 — checksums, card numbers and telephone numbers."""
from sa.oblig import Check

check = Check('V11', 'Checksum, credit card and telephone validators decide digit by digit')
CC = 'flatland.ext.creditcard:'
N = 'flatland.validation.number:'


def digits(ctx, n):
    """An integer of exactly n symbolic decimal digits, least significant first."""
    ds = [ctx.int('d%d' % i, 1 if i == n - 1 else 0, 9) for i in range(n)]
    return ds, ctx.I.mklin(dict((d, 10 ** i) for i, d in enumerate(ds)), 0)


def luhn(ctx, ds):
    total = 0
    for i, d in enumerate(ds):
        if i % 2:
            d = ctx.do('r = 2 * d if 2 * d < 10 else 2 * d - 9', d=d)['r']
        total = ctx.do('r = t + d', t=total, d=d)['r']
    return ctx.truth(ctx.do('r = t % 10 == 0', t=total)['r'])


@check.ob('luhn', ['flatland.util.base:luhn10', N + 'Luhn10.validate'],
          'a number passes iff the sum of its digits, every second one from the right doubled and its digits added, is a '
          'multiple of ten; decided for all digits at once, per number of digits', max_runs=9000)
def luhn_(ctx):
    n = ctx.choose(1, 2, 3, 4, 5, 6, 7, 8, 13, 16)
    ds, num = digits(ctx, n)
    via = ctx.choose('function', 'validator')
    if via == 'function':
        r = ctx.truth(ctx.call(ctx.get('flatland.util.base:luhn10'), num))
    else:
        ns = ctx.do('''
            from flatland.validation import Luhn10
            el = Long.named(u'n')()
            el.set(V)
            r = Luhn10(invalid=u'INVALID')(el, None)
        ''', V=num)
        r = ctx.R(ns['r'])
        errors = [ctx.R(e) for e in ctx.items(ctx.attr(ns['el'], 'errors'))]
        ctx.check(r is True or r is False, 'result %s' % ctx.show(r))
        ctx.check(errors == ([] if r else [u'INVALID']), 'verdict %s records %s' % (r, errors))
    want = luhn(ctx, ds)
    ctx.check(r is want, 'numbers of %d digits: checksum %s gives %s' % (n, 'holds' if want else 'fails', r))


@check.ob('luhn-edges', ['flatland.util.base:luhn10', N + 'Luhn10.validate'], 'no value and negative numbers are refused, zero is accepted')
def edges(ctx):
    v, good = ctx.choose((None, False), (-1, False), (-18, False), (-100, False), (0, True))
    ns = ctx.do('''
        from flatland.validation import Luhn10
        el = Long.named(u'n')()
        el.set(V)
        r = Luhn10(invalid=u'INVALID')(el, None)
    ''', V=v)
    ctx.check(ctx.R(ns['r']) is good and ctx.items(ctx.attr(ns['el'], 'errors')) == ([] if good else [u'INVALID']), '%s %s' % (v, 'is refused' if good else 'passes'))


KINDS = {'visa': u'Visa', 'mc': u'MasterCard', 'amex': u'American Express', 'disc': u'Discover'}


def card(s):
    if s[0] == '4' and len(s) in (13, 16):
        return 'visa'
    if s[0] == '5' and s[1] in '12345' and len(s) == 16:
        return 'mc'
    if s[:2] in ('34', '37') and len(s) == 15:
        return 'amex'
    if s[:4] == '6011' and len(s) == 16:
        return 'disc'


@check.ob('card-type', [CC + '_card_type', CC + 'CreditCardNumber.AcceptedType'],
          'the brand follows from prefix and length alone, and is accepted iff it is among .accepted; the message lists '
          'the accepted brands once each', max_runs=9000)
def card_type(ctx):
    prefix = ctx.choose('4', '400000000000', '4999999999999999', '5999', '35', '36', '38', '60119', '601', '6110', '3', '5', '50', '51', '52', '53', '54', '55', '56', '34', '37', '35', '33', '6011', '6012', '6010', '30', '1', '2')
    size = ctx.choose(12, 13, 14, 15, 16, 17, 18, 19, 20, 3, 26)
    if size < len(prefix) or size in (3, 26) and len(prefix) > 1:
        return
    s = prefix + '1' * (size - len(prefix))
    acc = ctx.choose(('visa', 'mc', 'amex'), ('disc',), ('visa', 'disc'), ('mc', 'amex', 'disc', 'visa'), None)
    const = {'visa': 'VISA', 'mc': 'MASTERCARD', 'amex': 'AMEX', 'disc': 'DISCOVER'}
    src = '''
        from flatland.ext.creditcard import *
        C = CreditCardNumber.named(u'cc')%s
        el = C()
        el.set(V)
        r = CreditCardNumber.AcceptedType()(el, None)
    ''' % ('' if acc is None else '.using(accepted=(%s,))' % ', '.join(const[a] for a in acc))
    ns = ctx.do(src, V=int(s))
    acc = acc or ('visa', 'mc', 'amex')
    want = card(s) in acc
    ctx.check(ctx.R(ns['r']) is want, 'card %s with %s accepted: %s' % (s, acc, ctx.show(ns['r'])))
    errors = [ctx.R(e) for e in ctx.items(ctx.attr(ns['el'], 'errors'))]
    if want:
        ctx.check(not errors, 'errors %s' % errors)
    else:
        names = [KINDS[a] for a in acc]
        text = names[0] if len(names) == 1 else u' and '.join(names) if len(names) == 2 else u', '.join(names[:-1]) + u', and ' + names[-1]
        ctx.check(errors == [u'We accept ' + text], 'the message is %s' % errors)


FILL = {'dot': u'%s.%s00000000000', 'slash': u'%s/%s00000000000', 'plus': u'+%s%s00000000000', 'under': u'%s_%s00000000000', 'comma': u'%s,%s00000000000', 'x': u'%s%s00000000000x',
        'hash': u'#%s%s00000000000', 'star': u'%s*%s00000000000'}


@check.ob('card-format', [CC + 'CreditCardNumber.adapt', CC + 'CreditCardNumber.serialize'],
          'digits with blanks and dashes are taken, anything else refused; numbers of 13, 15 and 16 digits are grouped '
          'without losing a digit, and the grouped text is taken back (15 characters or more)')
def card_format(ctx):
    n = ctx.choose(1, 4, 12, 13, 14, 15, 16, 17, 19, 20)
    num = int('12345678901234567890'[:n])
    how = ctx.choose('int', 'text', 'dashes', 'blanks', 'letters', 'short', 'object', 'empty', 'tabs', 'many', 'bytes', 'none', 'nodash', 'noblank', 'nodigit', *sorted(FILL))
    text = str(num)
    v = {'nodash': u'-' * (n + 9), 'noblank': u' ' * (n + 9), 'nodigit': u'- \n' * (n + 5), 'int': num, 'text': u'' + text, 'dashes': u'-'.join([text[:4], text[4:8], text[8:]]), 'blanks': u' '.join([text[:4], text[4:]]),
         'letters': u'x' + text, 'short': u'1234', 'object': 1.5, 'empty': u'', 'none': None,
         'tabs': u'\t'.join([text[:5], text[5:]]) + u'\n', 'many': u' - '.join(text), 'bytes': ctx.do('r = str(T)', T=u'' + text)['r']}.get(how)
    if how in FILL:
        v = FILL[how] % (text[:4], text[4:])
    ns = ctx.do('''
        from flatland.ext.creditcard import *
        el = CreditCardNumber.named(u'cc')()
        r = el.set(V)
        s = el.u
        v = el.value
    ''', V=v)
    if how == 'none':
        ctx.check(ctx.R(ns['v']) is None and ctx.R(ns['s']) == u'', 'None is serialized as %s' % ctx.show(ns['s']))
        return
    want = how == 'int' or (how in ('text', 'dashes', 'blanks', 'tabs', 'many') and len(v) >= 15) or how == 'bytes' and n >= 15
    ctx.check(ctx.R(ns['r']) is want, '%s of %d digits: set() gives %s' % (how, n, ctx.show(ns['r'])))
    if not want:
        ctx.check(ctx.R(ns['v']) is None, 'a refused number has a value')
        return
    ctx.check(ctx.R(ns['v']) == num, 'value %s' % ctx.show(ns['v']))
    s = ctx.R(ns['s'])
    groups = {16: [4, 4, 4, 4], 15: [4, 6, 5], 13: [4, 3, 3, 3]}.get(n, [n])
    ctx.check(s.replace('-', '') == text and [len(g) for g in s.split('-')] == groups, 'serialized as %s' % s)


@check.ob('card-validators', [CC + 'CreditCardNumber.__init__'],
          'a card number must be given, be a number, pass the checksum and be an accepted brand, in that order')
def card_validators(ctx):
    v, ok = ctx.choose((None, False), (u'abc', False), (4111111111111111, True), (4111111111111112, False), (6011111111111117, False),
                       (u'4111-1111-1111-1111', True), (378282246310005, True), (5555555555554444, True), (5555555555554445, False), (0, False))
    ns = ctx.do('''
        from flatland.ext.creditcard import *
        el = CreditCardNumber.named(u'cc').using(optional=False)()
        el.set(V)
        r = el.validate()
    ''', V=v)
    ctx.check(ctx.truth(ns['r']) is ok, 'card %s: validate() gives %s' % (v, ctx.truth(ns['r'])))
    n = len(ctx.items(ctx.attr(ns['el'], 'errors')))
    ctx.check(n == (0 if ok else 1), '%d errors for %s' % (n, v))


@check.ob('phone', ['flatland.validation.string:NANPphone.validate'],
          'ten digits are formatted (xxx) xxx-xxxx whatever separates them; fewer are refused; more are an extension: refused, '
          'stripped or kept as configured', max_runs=9000, shards=4)
def phone(ctx):
    n = ctx.choose(0, 1, 9, 10, 11, 13)
    full = ctx.choose(u'2125550123456', u'2125550123007', u'0120050003000', u'1212555012345')
    d = full[:n]
    script = ctx.choose('ascii', 'arabic', 'mixed')
    ext = ctx.choose(None, False, True, 'strip') if script != 'ascii' else ctx.choose(None, False, True, 'strip', 1, 0, 'keep', u'strip', u'', 'STRIP')
    how = ctx.choose('plain', 'dashes', 'paren', 'words', 'plus')
    v = d if how == 'plain' else u'-'.join([d[:3], d[3:6], d[6:10], d[10:]]) if how == 'dashes' else u'(%s) %s' % (d[:3], d[3:]) if how == 'paren' else u'call %s now' % u' '.join(d) if how == 'words' else u'+' + d + u' ext.'
    if script != 'ascii':
        v = u''.join(chr(0x660 + int(c)) if c.isdigit() and (script == 'arabic' or i % 3) else c for i, c in enumerate(v))
    kw = {'invalid': u'INVALID', 'noext': u'NOEXT'}
    if ext is not None:
        kw['extensions'] = ext
    el = ctx.do('el = String.named(u"p")()')['el']
    ctx.m(el, 'set', v)
    r = ctx.R(ctx.call(ctx.call(ctx.get('flatland.validation.string:NANPphone'), **kw), el, None))
    errors = [ctx.R(e) for e in ctx.items(ctx.attr(el, 'errors'))]
    line = u'(%s) %s-%s' % (d[:3], d[3:6], d[6:10])
    if n < 10:
        want, err = v, [u'INVALID']
    elif n == 10 or ext == 'strip':
        want, err = line, []
    elif ext:
        want, err = line + u' x' + d[10:], []
    else:
        want, err = v, [u'NOEXT']
    ctx.check(r is (not err), '%d digits (extensions=%s): %s' % (n, ext, ctx.show(r)))
    ctx.check(errors == err, '%d digits (extensions=%s): errors %s' % (n, ext, errors))
    ctx.check(ctx.attr(el, 'u') == want.strip() and ctx.attr(el, 'value') == want.strip(), '%d digits (extensions=%s): value %s' % (n, ext, ctx.show(ctx.attr(el, 'value'))))


@check.ob('phone-lengths', ['flatland.validation.string:NANPphone.validate'],
          'whatever the number of digits, and whether the element holds a value or only text')
def phone_lengths(ctx):
    n = ctx.choose(2, 3, 5, 7, 8, 10, 12, 15, 20, 30)
    d = ctx.choose(u'1', u'0', u'9', u'2') + u'12345678901234567890123456789'[:n - 1]
    ext = ctx.choose(False, True, 'strip')
    ns = ctx.do('''
        from flatland.validation.string import NANPphone
        el = String.named(u'p')()
        if HOW == 'set':
            el.set(D)
        elif HOW == 'text only':
            el.u = D
        else:
            el.u = u'212 555 0123'
            el.value = D if HOW == 'value' else u''
        r = NANPphone(extensions=EXT)(el, None)
    ''', HOW=ctx.choose('set', 'text only', 'value', 'blank value'), D=d, EXT=ext)
    how = ctx.R(ns['HOW'])
    ok = how != 'blank value' and n >= 10 and (n == 10 or bool(ext))
    want = u'(%s) %s-%s' % (d[:3], d[3:6], d[6:10]) + (u' x' + d[10:] if n > 10 and ext is True else u'')
    ctx.check(ctx.R(ns['r']) is ok, '%d digits as %s, extensions=%s: %s' % (n, how, ext, ctx.show(ns['r'])))
    if ok:
        for a in ('value', 'u'):
            ctx.check(ctx.R(ctx.attr(ns['el'], a)) == want, '%d digits as %s, extensions=%s: %s becomes %s' % (n, how, ext, a, ctx.show(ctx.attr(ns['el'], a))))


@check.ob('nxx', [N + 'NANPnxx.validate'], 'an exchange is refused iff missing, below 200 or reserved')
def nxx(ctx):
    v = ctx.sym('nxx', 'int', 'none')
    el = ctx.do('el = Integer.named(u"x")()\nel.set(V)', V=v)['el']
    r = ctx.truth(ctx.call(ctx.call(ctx.get(N + 'NANPnxx')), el, None))
    bad = ctx.truth(ctx.do('r = v is None or v < 200 or v in (311, 411, 511, 611, 711, 811, 911, 555, 990, 959, 958, 950, 700, 976)', v=v)['r'])
    ctx.check(r is (not bad), 'exchange %s: %s' % (ctx.show(v), r))


@check.ob('npa-nxx', [N + 'NANPnpa_nxx.validate'],
          'both parts are looked up in the state and refused iff the lookup says so; errors go to the named element')
def npa_nxx(ctx):
    ns = ctx.do('''
        from flatland.validation.number import NANPnpa_nxx
        class Obj(object):
            pass
        root = Dict.of(Integer.named(u'a'), Integer.named(u'b'), String.named(u'c'))()
        root[u'a'].set(A)
        root[u'b'].set(B)
        o = Obj()
        st = Obj()
    ''', A=ctx.choose(212, None), B=ctx.choose(555, None))
    calls = []
    ok = ctx.choose(True, False)
    ctx.put(ns['o'], 'valid_npanxx', ctx.fn('valid_npanxx', lambda a, b: (calls.append((ctx.R(a), ctx.R(b))), ok)[1]))
    st = ns['st']
    if ctx.choose('attr', 'item') == 'attr':
        ctx.put(st, 'aq', ns['o'])
    else:
        st = ctx.I.new_dict([('aq', ns['o'])])
    to = ctx.choose(None, u'c')
    kw = {} if to is None else {'errors_to': to}
    val = ctx.call(ctx.get(N + 'NANPnpa_nxx'), u'a', u'b', invalid=u'INVALID', incomplete=u'INCOMPLETE', **kw)
    r = ctx.R(ctx.call(val, ns['root'], st))
    a, b = [ctx.attr(ctx.R(ns['root'].p.get(ctx.I, k)[1]), 'value') for k in (u'a', u'b')]
    full = a is not None and b is not None
    ctx.check(r is (full and ok), 'result %s' % ctx.show(r))
    ctx.check(calls == ([(212, 555)] if full else []), 'looked up %s' % calls)
    where = ns['root'] if to is None else ctx.R(ns['root'].p.get(ctx.I, u'c')[1])
    other = ns['root'] if to is not None else ctx.R(ns['root'].p.get(ctx.I, u'c')[1])
    want = [] if full and ok else [u'INVALID' if full else u'INCOMPLETE']
    ctx.check([ctx.R(e) for e in ctx.items(ctx.attr(where, 'errors'))] == want, 'errors are not recorded on the named element')
    ctx.check(not ctx.items(ctx.attr(other, 'errors')), 'errors are recorded elsewhere')
