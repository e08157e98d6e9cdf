"""V10 — URL and email validators."""
from sa.oblig import Check

check = Check('V10', 'URL and email validators apply their part, scheme and domain rules to every input')
N = 'flatland.validation.network:'
PARTS = ['scheme', 'netloc', 'path', 'params', 'query', 'fragment']
HTTP = ['scheme', 'username', 'password', 'hostname', 'port', 'path', 'params', 'query', 'fragment']
PRE = '''
    from flatland.validation.network import *
    class Obj(object):
        # like the results of the standard parser: six parts, by place and by name
        def _six(self):
            return [getattr(self, p, u'') for p in ('scheme', 'netloc', 'path', 'params', 'query', 'fragment')]
        def __iter__(self):
            return iter(self._six())
        def __getitem__(self, i):
            return tuple(self._six())[i]
        def __len__(self):
            return 6
        def _asdict(self):
            return dict(zip(('scheme', 'netloc', 'path', 'params', 'query', 'fragment'), self._six()))
        def _replace(self, **kw):
            new = Obj()
            for k, v in list(self._asdict().items()) + list(kw.items()):
                setattr(new, k, v)
            return new
    el = String.named(u'n').using(label=u'L', strip=False)()
'''


def parser(ctx, parts, result, log, rebuilt=u'REBUILT'):
    """A parser object with urlparse()/urlunparse() whose outcome the obligation controls."""
    o = ctx.do(PRE + '\n    p = Obj()\n')['p']

    def urlparse(v):
        log.append(ctx.R(v))
        if result == 'raise':
            ctx.do('raise ValueError("bad")')
        return parts
    ctx.put(o, 'urlparse', ctx.fn('urlparse', urlparse))
    ctx.put(o, 'urlunparse', ctx.fn('urlunparse', lambda l: (log.append(('unparse', ctx.items(l))), rebuilt)[1]))
    return o


def verdict(ctx, el, r, want, what, msgs):
    r = ctx.R(r)
    errors = [ctx.R(e) for e in ctx.items(ctx.attr(el, 'errors'))]
    if want is True:
        ctx.check(r is True, '%s is refused (%s)' % (what, errors))
        ctx.check(not errors, '%s is accepted but records %s' % (what, errors))
    else:
        ctx.check(r is False, '%s is accepted: %s' % (what, ctx.show(r)))
        ctx.check(errors == [msgs[want]], '%s records %s instead of the %s message' % (what, errors, want))


@check.ob('url', [N + 'URLValidator.validate'],
          'a URL is accepted iff it parses, its scheme is not blank and allowed, and every part outside allowed_parts is '
          'blank; the value is stripped for parsing and left unchanged', max_runs=9000, shards=4)
def url(ctx):
    ns = ctx.do(PRE)
    el = ns['el']
    v = ctx.text('url')
    state = ctx.choose('text', 'none')
    ctx.m(el, 'set', v if state == 'text' else None)
    log = []
    res = ctx.choose('ok', 'raise') if state == 'text' else 'ok'
    scheme = ctx.choose(u'http', u'ftp', u'', u'tp')
    u = ctx.do(PRE + '\n    u = Obj()')['u']
    ctx.put(u, 'scheme', scheme)
    blank = {}
    probe = ctx.choose(*PARTS[1:] + ['-'])
    given = ctx.choose(u'something', u'/', u' ', u'0') if scheme == u'http' and probe != '-' else u'something'
    for p in PARTS[1:]:
        blank[p] = p != probe
        ctx.put(u, p, u'' if p != probe else given)
    kw = dict((k, u'MSG ' + k) for k in ('bad_format', 'blocked_scheme', 'blocked_part'))
    msgs = dict(kw)
    schemes = ctx.choose(None, (u'http', u'https'), (u'ftp',), (), (u'*',))
    if schemes is not None:
        kw['allowed_schemes'] = schemes
        if schemes == (u'ftp',):
            kw['allowed_schemes'] = ctx.do('r = %s' % ctx.choose('("ftp",)', '["ftp"]', 'set(["ftp"])', '{"ftp": 1}'))['r']
    allowed = ctx.choose(None, 'all', 'without', 'scheme', 'nothing')
    if allowed is not None:
        kw['allowed_parts'] = tuple({'all': PARTS, 'without': [p for p in PARTS if p != probe], 'scheme': ['scheme'], 'nothing': []}[allowed])
    kw['urlparse'] = parser(ctx, u, res, log)
    val = ctx.call(ctx.get(N + 'URLValidator'), **kw)
    r = ctx.call(val, el, None)
    if state == 'none' or res == 'raise':
        want = 'bad_format'
    elif scheme == u'':
        want = 'blocked_scheme'
    elif schemes not in (None, (u'*',)) and scheme not in schemes:
        want = 'blocked_scheme'
    elif any(p not in kw.get('allowed_parts', PARTS) and (p == 'scheme' or not blank[p]) for p in PARTS):
        want = 'blocked_part'
    else:
        want = True
    verdict(ctx, el, r, want, 'scheme %r with %s given, schemes %s, parts %s' % (scheme, probe, schemes, allowed), msgs)
    if state == 'text':
        ctx.check(ctx.same(ctx.attr(el, 'value'), v), 'the value changes')
        ctx.check(len(log) == 1 and ctx.same(log[0], ctx.do('r = v.strip()', v=v)['r']), 'parsed %s' % log)


@check.ob('url-builtin', [N + 'URLValidator.validate', N + 'URLCanonicalizer.validate', N + 'HTTPURLValidator.validate'],
          'with the standard parser: unparseable text is reported, nothing escapes')
def builtin(ctx):
    kind = ctx.choose('URLValidator', 'HTTPURLValidator', 'URLCanonicalizer')
    ns = ctx.do(PRE + '''
    el.set(V)
    v = %s(bad_format=u'BAD')
    r = v(el, None)
    ''' % kind, V=ctx.text('url'))
    errors = [ctx.R(e) for e in ctx.items(ctx.attr(ns['el'], 'errors'))]
    r = ctx.R(ns['r'])
    ctx.check(r is True or r is False, 'result %s' % ctx.show(r))
    ctx.check((len(errors) == 0) is r, 'result %s with errors %s' % (r, errors))


@check.ob('http', [N + 'HTTPURLValidator.validate'],
          'a URL is accepted iff each required part is present (and among the listed values) and no forbidden part is '
          '(nor among the listed values); None is accepted, an unparseable URL or port is a format error', max_runs=12000, shards=8)
def http(ctx):
    ns = ctx.do(PRE)
    el = ns['el']
    log = []
    state = ctx.choose('text', 'none', 'raise', 'badport')
    v = ctx.text('url')
    ctx.m(el, 'set', None if state == 'none' else v)
    part = ctx.choose(*HTTP)
    value = ctx.choose(u'one', u'two', u'', None, u' ', u'0') if part != 'port' else ctx.choose(80, 8080, None, 0)
    text = value if part != 'port' else (None if value is None else u'%d' % value)
    good = u'one' if part != 'port' else u'80'
    u = ctx.do(PRE + '''
    class U(Obj):
        badport = False
        @property
        def port(self):
            if self.badport:
                raise ValueError('port')
            return self._port
    u = U()
    ''')['u']
    ctx.put(u, 'badport', state == 'badport')
    for p in HTTP:
        ctx.put(u, '_port' if p == 'port' else p, None if p != part else value)
    req = ctx.choose('absent', 'True', 'list', 'False')
    forb = ctx.choose('absent', 'True', 'list', 'False')
    listed = ctx.do('r = %s' % (ctx.choose('(G, "other", "on")', '[G, "other"]', 'frozenset([G, ""])', '{G: 1}') if 'list' in (req, forb) else '(G,)'), G=good)['r']
    vals = [ctx.R(x) for x in ctx.items(ctx.do('r = list(L)', L=listed)['r'])] if 'list' in (req, forb) else []
    table = {'True': True, 'False': False, 'list': listed}
    kw = dict((k, u'MSG ' + k) for k in ('bad_format', 'required_part', 'forbidden_part'))
    msgs = dict(kw)
    kw['required_parts'] = ctx.I.new_dict([] if req == 'absent' else [(part, table[req])])
    kw['forbidden_parts'] = ctx.I.new_dict([] if forb == 'absent' else [(part, table[forb])])
    kw['urlparse'] = parser(ctx, u, state, log)
    val = ctx.call(ctx.get(N + 'HTTPURLValidator'), **kw)
    r = ctx.call(val, el, None)
    want = True
    if state == 'none':
        ctx.check(not log, 'None is parsed')
    elif state == 'raise':
        want = 'bad_format'
    else:
        before = HTTP.index(part) < HTTP.index('port')
        first = None
        if (req == 'True' and not text) or (req == 'list' and text not in vals):
            first = 'required_part'
        elif (forb == 'True' and text) or (forb == 'list' and text in vals):
            first = 'forbidden_part'
        if state == 'badport':
            # an unreadable port is a format error; a part met earlier may be reported first
            r = ctx.R(r)
            errors = [ctx.R(e) for e in ctx.items(ctx.attr(el, 'errors'))]
            ok = [[msgs['bad_format']]] + ([[msgs[first]]] if first else [])
            ctx.check(r is False and errors in ok, 'an invalid port gives %s, %s' % (ctx.show(r), errors))
            return
        want = first or True
    verdict(ctx, el, r, want, '%s=%r, required %s, forbidden %s' % (part, value, req, forb), msgs)


@check.ob('http-default', [N + 'HTTPURLValidator'],
          'by default the scheme must be http or https, a host is needed, user names and passwords are refused')
def http_default(ctx):
    scheme = ctx.choose(u'http', u'https', u'ftp', u'')
    host = ctx.choose(u'example.com', u'', None)
    user = ctx.choose(u'u', u'', None)
    pw = ctx.choose(u'p', u'', None)
    rest = ctx.choose(u'', u'x')
    ns = ctx.do(PRE)
    u = ctx.do(PRE + '\n    u = Obj()')['u']
    for k, x in dict(scheme=scheme, hostname=host, username=user, password=pw, port=None, path=rest, params=rest, query=rest, fragment=rest).items():
        ctx.put(u, k, x)
    ctx.m(ns['el'], 'set', u'x')
    val = ctx.call(ctx.get(N + 'HTTPURLValidator'), urlparse=parser(ctx, u, 'ok', []), required_part=u'R', forbidden_part=u'F')
    r = ctx.R(ctx.call(val, ns['el'], None))
    want = scheme in (u'http', u'https') and bool(host) and not user and not pw
    ctx.check(r is want, 'scheme %r host %r user %r password %r: %s' % (scheme, host, user, pw, ctx.show(r)))


@check.ob('canonical', [N + 'URLCanonicalizer.validate'],
          'exactly the discarded parts are blanked, in their own positions, and the value rebuilt from the rest')
def canonical(ctx):
    ns = ctx.do(PRE)
    el = ns['el']
    v = ctx.choose(ctx.text('url'), u'', None)
    ctx.m(el, 'set', v)
    parts = [ctx.text(p) if i % 2 else u'c' + p for i, p in enumerate(PARTS)]
    hole = ctx.choose(None, 0, 3, 5)
    given = tuple(None if i == hole else p for i, p in enumerate(parts))
    parsed = ctx.do(PRE + '\n    u = Obj()')['u']
    for p, t in zip(PARTS, given):
        ctx.put(parsed, p, t)
    log = []
    discard = ctx.choose(None, (), ('scheme',), ('netloc',), ('path',), ('params',), ('query',), ('fragment',), ('query', 'fragment'), ('fragment', 'scheme'))
    rebuilt = ctx.choose(u'REBUILT', u'', u' x ')
    kw = {'urlparse': parser(ctx, parsed, ctx.choose('ok', 'raise'), log, rebuilt), 'bad_format': u'BAD'}
    if discard is not None:
        kw['discard_parts'] = discard
    raised = [False]
    val = ctx.call(ctx.get(N + 'URLCanonicalizer'), **kw)
    r = ctx.R(ctx.call(val, el, None))
    eff = ('fragment',) if discard is None else discard
    errors = [ctx.R(e) for e in ctx.items(ctx.attr(el, 'errors'))]
    un = [l for l in log if isinstance(l, tuple)]
    if not eff:
        ctx.check(r is True and not un and ctx.same(ctx.attr(el, 'value'), v), 'nothing to discard, but the value is rebuilt')
        return
    if not un:
        ctx.check(r is False and errors == [u'BAD'] and ctx.same(ctx.attr(el, 'value'), v), 'an unparseable URL gives %s, %s' % (ctx.show(r), errors))
        ctx.check(len(log) == 1, 'not parsed')
        return
    ctx.check(r is True and not errors, 'result %s, %s' % (ctx.show(r), errors))
    ctx.check(ctx.same(log[0], v), 'something else is parsed')
    got = list(un[0][1])
    ctx.check(len(got) == 6, '%d parts rebuilt' % len(got))
    for i, p in enumerate(PARTS):
        want = given[i] if p not in eff else (u'' if given[i] is not None else None)
        ctx.check(ctx.same(got[i], want) or got[i] is want or (want == u'' and got[i] == u''), '%s becomes %s, expected %s' % (p, ctx.show(got[i]), ctx.show(want)))
    ctx.check(ctx.same(ctx.attr(el, 'value'), rebuilt), 'the value is not the rebuilt URL')


LOCALS = [(u'bob', True), (u'b', True), (u'', False), (u' ', False), (u'\t\n', False), (u' x', True), (u'\xe9', True), (u'!#$%', True), (u'a b', True), (u'"q"', True),
          (u'\xa0', False), (u'\u2003\u3000', False), (u'\x1f', False), (u'\xa0x', True), (u'x\u2003', True), (u'.', True), (u'0', True), (u'a' * 300, True)]
L63, L64 = u'a' * 63, u'a' * 64
D = lambda n: u'.'.join([u'a' * 49] * 4 + [u'b' * (n - 200)])


def I(n):
    # a domain of international labels that has n characters after conversion
    d = u'.'.join([u'b\xfccher'] * 18)
    return d + u'.' + u'a' * (n - 1 - len(u'.'.join([u'xn--bcher-kva'] * 18)))


# (domain, well-formed, dotted)
DOMAINS = [(u'example.com', True, True), (u'localhost', True, False), (u'', False, False), (u'a', True, False), (u'a.b', True, True),
           (u'.com', False, True), (u'a..b', False, True), (u'-x.y-', True, True), (u'1.2', True, True), (u'EXAMPLE.Com', True, True),
           (L63 + u'.com', True, True), (L64 + u'.com', False, True), (u'com.' + L63, True, True), (u'com.' + L64, False, True), (L64, False, False), (L63, True, False),
           (D(253), True, True), (D(254), False, True), (u'a b.com', False, True), (u'a_b.com', False, True), (u'[1.2.3.4]', False, True), (u'a!.com', False, True),
           (u'b\xfccher.example', True, True), (u'\u4f8b\u3048.jp', True, True), (u'\xfc' * 70 + u'.com', False, True), (u'x y', False, False), (u'example.com\n', False, True), (u'\nexample.com', False, True), (u'example.com\r', False, True),
           (u'example.com.', False, True), (u'example.com..', False, True), (u'localhost.', False, True), (u'.', False, True), (u'..', False, True), (u'\u4f8b\u3048\u3002jp', True, True),
           (u'a\uff0eb', True, True), (I(253), True, True), (I(254), False, True), (u'\xfc', True, False), (u'\xfc' * 30, True, False), (u'a.\xfc.b', True, True), (u'xn--b-eha.example', True, True), (u'0', True, False),
           (u'a.b.c.d.e.f.g', True, True), (u'example.c', True, True), (u'-', True, False), (u'a\xa0b.com', False, True), (u'a,b.com', False, True), (u'a.com:80', False, True), (u'a/b.com', False, True)]


@check.ob('email', [N + 'IsEmail.validate'],
          'accepted iff there is exactly one @, the local part is not blank, every domain label is well formed and shorter '
          'than 64 after IDN conversion, the domain has at most 253 characters, and a dot unless local domains are allowed', max_runs=9000, shards=4)
def email(ctx):
    local, lok = ctx.choose(*LOCALS)
    dom, dok, dotted = ctx.choose(*DOMAINS) if local in (u'bob', u'') else (u'example.com', True, True)
    ats = ctx.choose(0, 1, 2, 3) if dom == u'example.com' else 1
    nl = ctx.choose(None, True, False, 1, 0)
    addr = {0: local + dom, 1: local + u'@' + dom, 2: local + u'@x@' + dom, 3: local + u'@@' + dom}[ats]
    ns = ctx.do(PRE)
    ctx.m(ns['el'], 'set', addr)
    kw = {'invalid': u'INVALID'}
    if nl is not None:
        kw['non_local'] = nl
    r = ctx.call(ctx.call(ctx.get(N + 'IsEmail'), **kw), ns['el'], None)
    want = ats == 1 and lok and dok and (dotted or nl in (False, 0) and nl is not None)
    verdict(ctx, ns['el'], r, True if want else 'invalid', 'address %r (non_local=%s)' % (addr[:40], nl), kw)


@check.ob('email-patterns', [N + 'IsEmail.validate'], 'local_part_pattern and domain_pattern are matched against their part')
def email_patterns(ctx):
    ns = ctx.do(PRE)
    log = []
    a, b = ctx.choose(True, False), ctx.choose(True, False)

    def pat(name, ok):
        o = ctx.do(PRE + '\n    o = Obj()')['o']
        ctx.put(o, 'match', ctx.fn('match', lambda s: (log.append((name, ctx.R(s))), (1 if ok else None))[1]))
        return o
    kw = {'invalid': u'INVALID'}
    which = ctx.choose('both', 'local', 'domain')
    if which != 'domain':
        kw['local_part_pattern'] = pat('local', a)
    if which != 'local':
        kw['domain_pattern'] = pat('domain', b)
    ctx.m(ns['el'], 'set', u'me@b\xfc.example')
    r = ctx.call(ctx.call(ctx.get(N + 'IsEmail'), **kw), ns['el'], None)
    want = (a or which == 'domain') and (b or which == 'local')
    verdict(ctx, ns['el'], r, True if want else 'invalid', 'patterns %s %s %s' % (which, a, b), kw)
    for name, s in log:
        ctx.check(s == {'local': u'me', 'domain': u'xn--b-eha.example'}[name], '%s pattern is matched against %r' % (name, s))


REAL = ['[a-z]+\\Z', '[a-z]+', 'b.b', '(?!bob)']


@check.ob('email-real-patterns', [N + 'IsEmail.validate'],
          'patterns that are compiled regular expressions are matched from the start of their part')
def email_real(ctx):
    pat = ctx.choose(*REAL)
    text = ctx.choose(u'bob', u'bob1', u'!bob', u'a bob', u'b', u'Bob')
    side = ctx.choose('local', 'domain')
    if side == 'domain' and text in (u'a bob', u'Bob'):
        return
    ns = ctx.do(PRE + """
    import re
    v = IsEmail(%s_pattern=re.compile(P), non_local=False, invalid=u'INVALID')
    """ % ('local_part' if side == 'local' else 'domain'), P=pat)
    ctx.m(ns['el'], 'set', text + u'@example.com' if side == 'local' else u'me@' + text)
    import re
    want = bool(re.match(pat, text))
    verdict(ctx, ns['el'], ctx.call(ns['v'], ns['el'], None), True if want else 'invalid', '%s part %r against %s' % (side, text, pat), {'invalid': u'INVALID'})


# text -> (URLValidator, URLValidator(http only, no fragment), HTTPURLValidator, HTTPURLValidator(no port, query), canonical)
URLS = [(u'http://x', 1, 1, 1, 1, u'http://x'),
        (u'HTTP://x/', 1, 1, 1, 1, u'http://x/'),
        (u'https://x/p;a?q#f', 1, 0, 1, 0, u'https://x/p;a?q'),
        (u'http://x/#', 1, 1, 1, 1, u'http://x/'),
        (u'http://x/?', 1, 1, 1, 1, u'http://x/'),
        (u'http://x?0', 1, 1, 1, 0, u'http://x?0'),
        (u'http://x:0/', 1, 1, 1, 0, u'http://x:0/'),
        (u'http://x:/', 1, 1, 1, 1, u'http://x:/'),
        (u'http://x:80/a', 1, 1, 1, 0, u'http://x:80/a'),
        (u'http://x:abc/', 1, 1, 0, 0, u'http://x:abc/'),
        (u'http://u@x/', 1, 1, 0, 0, u'http://u@x/'),
        (u'http://u:p@x/', 1, 1, 0, 0, u'http://u:p@x/'),
        (u'http://:p@x/', 1, 1, 0, 0, u'http://:p@x/'),
        (u'http://@x/', 1, 1, 1, 1, u'http://@x/'),
        (u'http:///p', 1, 1, 0, 0, None),
        (u'http:', 1, 1, 0, 0, None),
        (u'//x/p', 0, 0, 0, 0, u'//x/p'),
        (u'x', 0, 0, 0, 0, u'x'),
        (u'', 0, 0, 0, 0, u''),
        (u'#f', 0, 0, 0, 0, u''),
        (u'ftp://x/', 1, 0, 0, 0, u'ftp://x/'),
        (u'htt://x/', 1, 0, 0, 0, u'htt://x/'),
        (u'http://[::1]:8/', 1, 1, 1, 0, u'http://[::1]:8/'),
        (u'http://[::1', 0, 0, 0, 0, 'bad')]


@check.ob('url-table', [N + 'URLValidator.validate', N + 'HTTPURLValidator.validate', N + 'URLCanonicalizer.validate'],
          'concrete addresses are accepted, refused and rebuilt as their parts say, with the standard parser')
def url_table(ctx):
    row = ctx.choose(*URLS)
    i = ctx.choose(1, 2, 3, 4, 5)
    v = {1: 'URLValidator()', 2: 'URLValidator(allowed_schemes=("http", "https"), allowed_parts=("scheme", "netloc", "path", "params", "query"))',
         3: 'HTTPURLValidator()', 4: 'HTTPURLValidator(forbidden_parts=dict(port=True, query=True, username=True, password=True))', 5: 'URLCanonicalizer()'}[i]
    pad = ctx.choose(u'', u' ', u'\t\n') if i < 3 else u''
    if i == 2 and row[0] == u'https://x/p;a?q#f':
        return
    ns = ctx.do(PRE + """
    el.set(T)
    r = %s(el, None)
    """ % v, T=pad + row[0] + pad)
    r, n = ctx.R(ns['r']), len(ctx.items(ctx.attr(ns['el'], 'errors')))
    want = bool(row[i]) if i < 5 else row[5] != 'bad'
    ctx.check(r is want and n == (0 if want else 1), '%s gives %s for %r with %d errors' % (v, ctx.show(r), row[0], n))
    if i == 5 and row[5] is not None:
        ctx.check(ctx.same(ctx.attr(ns['el'], 'value'), row[5] if want else row[0]), '%r becomes %s' % (row[0], ctx.show(ctx.attr(ns['el'], 'value'))))
    if i < 5:
        ctx.check(ctx.same(ctx.attr(ns['el'], 'value'), pad + row[0] + pad), 'the value changes')


@check.ob('http-two-parts', [N + 'HTTPURLValidator.validate'],
          'each part has its own rules: requiring values of one and forbidding another, or both for one part', max_runs=9000)
def http_two(ctx):
    ns = ctx.do(PRE)
    names = ctx.choose(('scheme', 'hostname'), ('username', 'password'), ('path', 'query'), ('fragment', 'fragment'), ('hostname', 'hostname'), ('port', 'path'), ('params', 'port'))
    a, b = names
    u = ctx.do(PRE + '\n    u = Obj()')['u']
    vals = {}
    for p in HTTP:
        vals[p] = None if p not in names else ctx.choose(u'a', u'b', u'') if p != 'port' else ctx.choose(1, None)
        ctx.put(u, p, vals[p])
    rule_a, rule_b = ctx.choose(True, (u'a', u'1', u'')), ctx.choose(True, (u'b', u'1'))
    val = ctx.call(ctx.get(N + 'HTTPURLValidator'), urlparse=parser(ctx, u, 'ok', []), required_part=u'R', forbidden_part=u'F',
                   required_parts=ctx.I.new_dict([(a, rule_a)]), forbidden_parts=ctx.I.new_dict([(b, rule_b)]))
    ctx.m(ns['el'], 'set', u'x')
    r = ctx.R(ctx.call(val, ns['el'], None))
    t = lambda p: u'%d' % vals[p] if isinstance(vals[p], int) else vals[p]
    bad_a = not t(a) if rule_a is True else t(a) not in rule_a
    bad_b = bool(t(b)) if rule_b is True else t(b) in rule_b
    want = ([u'R'] if bad_a else []) + ([u'F'] if bad_b else [])
    errors = [ctx.R(e) for e in ctx.items(ctx.attr(ns['el'], 'errors'))]
    ctx.check(r is (not want) and (errors == [] if not want else len(errors) == 1 and errors[0] in want), '%s=%r required %s, %s=%r forbidden %s: %s %s' % (a, t(a), rule_a, b, t(b), rule_b, ctx.show(r), errors))
