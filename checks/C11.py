"""C11 — defaults."""
from sa.oblig import Check

check = Check('C11', 'Defaults: a factory is asked first, containers spread them')
C = 'flatland.schema.containers:'
B = 'flatland.schema.base:Element.'


@check.ob('scalar', ['flatland.schema.scalars:Scalar.set_default', B + 'default_value'],
          'default_factory(element) when present, else default, is set; Unspecified leaves the element alone')
def scalar(ctx):
    calls = []
    made = ctx.choose(None, ctx.text('made'))

    def f(el):
        calls.append(ctx.R(el))
        return made
    how = ctx.choose('none', 'default', 'factory', 'both', 'unspecified', 'factory-unspecified')
    d = ctx.text('d')
    ns = ctx.do('K = String.using(strip=False)')
    K = ns['K']
    fn = ctx.fn('factory', f)
    if how in ('default', 'both'):
        K = ctx.do('K = K.using(default=D)', K=K, D=d)['K']
    if how in ('factory', 'both'):
        K = ctx.do('K = K.using(default_factory=F)', K=K, F=fn)['K']
    if how == 'unspecified':
        K = ctx.do('from flatland.util import Unspecified\nK = K.using(default=Unspecified)', K=K)['K']
    if how == 'factory-unspecified':
        un = ctx.get('flatland.util:Unspecified')
        K = ctx.do('K = K.using(default_factory=F)', K=K, F=ctx.fn('factory', lambda el: un))['K']
    way = ctx.choose('from_defaults', 'set_default', 'set_default after set')
    if way == 'from_defaults':
        el = ctx.m(K, 'from_defaults')
    else:
        el = ctx.call(K)
        if way.endswith('set'):
            ctx.m(el, 'set', u'earlier')
        ctx.m(el, 'set_default')
    got = ctx.attr(el, 'value')
    if how in ('factory', 'both'):
        ctx.check(len(calls) == 1 and calls[0] is ctx.R(el), 'the factory was called %d times, or not with the element' % len(calls))
        ctx.check(ctx.same(got, made), 'the product of the factory is not the value (%s)' % how)
    elif how == 'default':
        ctx.check(ctx.same(got, d), 'the default is not the value')
    elif how == 'none':
        ctx.check(got is None and ctx.R(ctx.attr(el, 'u')) == u'', 'a default of None leaves %s' % ctx.show(got))
    else:
        want = u'earlier' if way.endswith('set') else None
        ctx.check(got == want, 'Unspecified changes the value to %s' % ctx.show(got))


@check.ob('default-value', [B + 'default_value'], 'default_value computes the same without setting anything')
def default_value(ctx):
    d, f = ctx.any('d'), ctx.any('f')
    how = ctx.choose('default', 'factory', 'both')
    kw = {}
    if how != 'factory':
        kw['default'] = d
    if how != 'default':
        kw['default_factory'] = ctx.fn('factory', lambda el: f)
    kind = ctx.choose('String', 'List.of(String)', 'Dict.of(String.named(u"a"))', 'JoinedString')
    el = ctx.call(ctx.do('K = %s' % kind)['K'], **kw)
    got = ctx.attr(el, 'default_value')
    ctx.check(ctx.same(got, d if how == 'default' else f), 'default_value is %s' % ctx.show(got))


@check.ob('list-int', [C + 'List.set_default'], 'an integer default makes that many members, each at its own default')
def list_int(ctx):
    n = ctx.choose(0, 1, 2, 3)
    count = n
    if ctx.choose('plain', 'derived') == 'derived':
        count = ctx.do('from flatland.util import named_int_factory\nr = named_int_factory("SOME", N)', N=n)['r']
    ns = ctx.do('K = List.named(u"l").of(String.named(u"m").using(default=D, strip=False)).using(default=N)', D=ctx.text('d'), N=count)
    el = ctx.call(ns['K'])
    for i in range(ctx.choose(0, 1, 2)):
        ctx.m(el, 'append', u'old')
    ctx.m(el, 'set_default')
    ms = ctx.items(el)
    ctx.check(len(ms) == n, 'default=%d makes %d members' % (n, len(ms)))
    for i, m in enumerate(ms):
        ctx.check(ctx.same(ctx.attr(m, 'value'), ctx.text('d')), 'member %d is not at its default' % i)
        ctx.check(ctx.R(ctx.m(m, 'flattened_name')) == u'l_%d_m' % i, 'member %d is misnumbered' % i)


@check.ob('list-int-members', [C + 'List.set_default'], 'every member of an integer default computes its own default, once, whatever type the members are')
def list_int_members(ctx):
    calls = []

    def f(el):
        calls.append(ctx.R(el))
        return ctx.text('made%d' % len(calls))
    n = ctx.choose(0, 1, 2, 3)
    kind = ctx.choose('String', 'Dict', 'List')
    ns = ctx.do('''
        S = String.named(u'm').using(strip=False, default_factory=F)
        M = S if KIND == 'String' else Dict.named(u'd').of(S) if KIND == 'Dict' else List.named(u'i').of(S).using(default=1)
        el = List.named(u'l').of(M).using(default=N)()
        el.set_default()
        leaves = [m if KIND == 'String' else m[u'm'] if KIND == 'Dict' else m[0] for m in el]
    ''', F=ctx.fn('factory', f), KIND=kind, N=n)
    leaves = ctx.items(ns['leaves'])
    ctx.check(len(ctx.items(ns['el'])) == n, 'default=%d makes %d members' % (n, len(ctx.items(ns['el']))))
    ctx.check(len(calls) == n and all(a is ctx.R(b) for a, b in zip(calls, leaves)), 'the %d members asked for %d defaults, or not with themselves' % (n, len(calls)))
    for i, m in enumerate(leaves):
        ctx.check(ctx.same(ctx.attr(m, 'value'), ctx.text('made%d' % (i + 1))), 'member %d does not hold the default computed for it' % i)


@check.ob('map-members', [C + 'Mapping.set_default'], 'every field of a mapping without a default of its own computes its default once, with itself')
def map_members(ctx):
    calls = []

    def f(el):
        calls.append(ctx.R(el))
        return ctx.text('made-' + ctx.R(ctx.attr(el, 'name')))
    cls = ctx.choose('Dict', 'SparseDict', 'Form')
    ns = ctx.do('''
        S = String.using(strip=False, default_factory=F)
        el = %s.of(S.named(u'a'), Dict.named(u'd').of(S.named(u'b')), S.named(u'c').using(default=u'unused'))()
        if SPARSE:
            el.minimum_fields = u'required'
        el.set_default()
        leaves = [el[u'a'], el[u'd'][u'b'], el[u'c']]
    ''' % cls, F=ctx.fn('factory', f), SPARSE=cls == 'SparseDict')
    leaves = [ctx.R(m) for m in ctx.items(ns['leaves'])]
    ctx.check(len(calls) == 3 and (cls == 'SparseDict' or all(any(c is m for c in calls) for m in leaves)), 'the factories of 3 fields are called %d times, or with other elements' % len(calls))
    for m in leaves:
        ctx.check(ctx.same(ctx.attr(m, 'value'), ctx.text('made-' + ctx.R(ctx.attr(m, 'name')))), 'a field does not hold the default computed for it')


def seq(cls):
    @check.ob('seq-' + cls, [C + 'Sequence.set_default'], 'a sequence default replaces the members, None leaves them alone')
    def ob(ctx):
        n = ctx.choose(None, 0, 1, 2)
        vals = [ctx.text('v%d' % i, True) for i in range(n or 0)]
        d = None if n is None else ctx.I.new_list(vals)
        if n is not None and ctx.choose(False, True):
            d = tuple(vals)
        kw = {'default': d}
        if ctx.choose(False, True):
            kw = {'default_factory': ctx.fn('f', lambda el: d)}
        el = ctx.call(ctx.do('K = %s.of(String.using(strip=False))' % cls)['K'], **kw)
        old = ctx.choose(0, 1)
        for i in range(old):
            ctx.m(el, 'append', u'old')
        ctx.m(el, 'set_default')
        ms = ctx.items(el)
        if n is None:
            ctx.check(len(ms) == old, 'a default of None changes the members')
            return
        ctx.check(len(ms) == n, 'a default of %d values makes %d members' % (n, len(ms)))
        for m, v in zip(ms, vals):
            ctx.check(ctx.same(ctx.attr(m, 'value'), v), 'the members are not the default in order')


for c in ('List', 'Array', 'MultiValue', 'JoinedString'):
    seq(c)


@check.ob('joined', ['flatland.schema.compound:JoinedString.set_default'], 'a text default of a JoinedString is split like set()')
def joined(ctx):
    el = ctx.do('el = JoinedString(default=u"a,b"); el.set_default()')['el']
    ctx.check([ctx.attr(m, 'value') for m in ctx.items(el)] == [u'a', u'b'], 'the default is not split at the separator')


def mapping(cls):
    @check.ob('map-' + cls, [C + 'Mapping.set_default'] + ([C + 'SparseDict.set_default'] if cls == 'SparseDict' else []),
              'a mapping default is set; without one every %s field takes its own' % ('required' if cls == 'SparseDict' else 'declared'))
    def ob(ctx):
        own = ctx.choose(None, 'default', 'factory')
        a, b, w = ctx.text('a'), ctx.text('b'), ctx.text('w')
        ns = ctx.do('''
            K = %s.of(String.named(u'a').using(default=A, strip=False), String.named(u'b').using(default=B, strip=False, optional=True),
                      List.named(u'l').of(String.using(default=A, strip=False)).using(default=2),
                      String.named(u'n').using(strip=False))
            D = {u'a': W}
        ''' % cls, A=a, B=b, W=w)
        K = ns['K']
        mode = None
        if cls == 'SparseDict':
            mode = ctx.choose(None, 'required')
            K = ctx.do('K = K.using(minimum_fields=M)', K=K, M=mode if mode is None else u'required')['K']
        if own == 'default':
            K = ctx.do('K = K.using(default=D)', K=K, D=ns['D'])['K']
        elif own == 'factory':
            D = ns['D']
            K = ctx.do('K = K.using(default_factory=F)', K=K, F=ctx.fn('f', lambda el: D))['K']
        el = ctx.m(K, 'from_defaults')
        def val(k):
            kv = el.p.get(ctx.I, k)
            return 'absent' if kv is None else ctx.attr(ctx.R(kv[1]), 'value')
        if own:
            ctx.check(ctx.same(val(u'a'), w), 'the own default of the mapping is not set')
            if cls == 'Dict':
                ctx.check(val(u'b') is None, 'a field the default does not name holds %s' % ctx.show(val(u'b')))
            return
        if cls == 'SparseDict' and mode is None:
            ctx.check(len(ctx.host(el.p.keys())) == 0 if False else val(u'a') == 'absent', 'a sparse default creates fields')
            return
        ctx.check(ctx.same(val(u'a'), a), 'a field is not at its default')
        if cls == 'Dict':
            ctx.check(ctx.same(val(u'b'), b), 'an optional field is not at its default')
        else:
            ctx.check(val(u'b') == 'absent', 'an optional field is created')
        ctx.check(val(u'n') is None, 'a field without default holds %s' % ctx.show(val(u'n')))
        l = ctx.R(el.p.get(ctx.I, u'l')[1])
        ctx.check(len(l.p) == 2, 'a nested list is not at its default')


mapping('Dict')
mapping('SparseDict')


@check.ob('from-defaults', [B + 'from_defaults'], 'from_defaults(**kw) builds with kw, then sets the default')
def from_defaults(ctx):
    d = ctx.text('d')
    el = ctx.do('el = String.using(default=u"class").from_defaults(default=D, strip=False)', D=d)['el']
    ctx.check(ctx.same(ctx.attr(el, 'value'), d), 'the constructor arguments are not in effect')


@check.ob('map-states', [C + 'Mapping.set_default', C + 'SparseDict.set_default', C + 'Dict.set'],
          'what set_default() leaves in a mapping depends on its default and the defaults of its fields alone: not on being optional, on its policy or name, on what it held before, '
          'or on whether the default is spelled None, Unspecified, as a factory or not at all; once set, a default names the fields that are filled and the others are blank', shards=4)
def map_states(ctx):
    cls = ctx.choose('Dict', 'Form', 'SparseDict', 'SparseDict-required')
    sparse = cls.startswith('Sparse')
    a, b, w = ctx.text('a', True), ctx.text('b', True), ctx.text('w', True)
    opt = ctx.choose(False, True)
    policy = ctx.choose('subset', 'duck', 'strict')
    spelled = ctx.choose('absent', 'None', 'Unspecified', 'factory-None', 'factory-Unspecified', 'empty', 'dict', 'pairs', 'tuple', 'factory-dict', 'both', 'bad', 'bad-first')
    ns = ctx.do('''
        from flatland.util import Unspecified
        K = %s.named(N).of(String.named(u'a').using(default=A, strip=False), String.named(u'b').using(default=B, strip=False, optional=True), Integer.named(u'c').using(default=3, optional=True)).using(optional=OPT, policy=POLICY)
        if REQ:
            K = K.using(minimum_fields='required')
        s = SPELLED
        if s == 'None':
            K = K.using(default=None)
        elif s == 'Unspecified':
            K = K.using(default=Unspecified)
        elif s == 'factory-None':
            K = K.using(default={u'a': u'unused'}, default_factory=lambda el: None)
        elif s == 'factory-Unspecified':
            K = K.using(default={u'a': u'unused'}, default_factory=lambda el: Unspecified)
        elif s == 'empty':
            K = K.using(default={})
        elif s == 'dict':
            K = K.using(default={u'a': W})
        elif s == 'pairs':
            K = K.using(default=[(u'a', W)])
        elif s == 'tuple':
            K = K.using(default=((u'a', W),))
        elif s == 'factory-dict':
            K = K.using(default_factory=lambda el: {u'a': W})
        elif s == 'both':
            K = K.using(default={u'b': u'unused'}, default_factory=lambda el: {u'a': W})
        elif s == 'bad':
            K = K.using(default=[(u'a', W), (u'c', u'bogus')])
        elif s == 'bad-first':
            K = K.using(default=[(u'c', u'bogus'), (u'a', W)])
        el = K()
        h = HOW
        if h == 'held':
            el[u'a'] = u'old'
            el[u'b'] = u'old'
            el[u'c'] = 8
        elif h == 'twice' and POLICY != 'strict':
            el.set_default()
            el[u'a'] = u'old'
    ''' % cls.split('-')[0], N=ctx.choose(None, u'd'), A=a, B=b, W=w, OPT=opt, POLICY=policy, REQ='-' in cls, SPELLED=spelled, HOW=ctx.choose('new', 'held', 'twice'))
    el = ns['el']
    st, r, e = ctx.catch(lambda: ctx.m(el, 'set_default'))
    own = spelled in ('empty', 'dict', 'pairs', 'tuple', 'factory-dict', 'both', 'bad', 'bad-first')
    where = '%s%s, policy %s, default %s' % (cls, ' (optional)' if opt else '', policy, spelled)
    if own and policy == 'strict':
        ctx.check(st == 'raise' and r == 'TypeError', '%s: a default without some field is accepted' % where)
        return
    ctx.check(st == 'ok', '%s: raises %s' % (where, r))
    def val(k):
        kv = el.p.get(ctx.I, k)
        return 'absent' if kv is None else ctx.attr(ctx.R(kv[1]), 'value')
    blank = 'absent' if sparse else None
    want = {u'a': a, u'b': b, u'c': 3}
    if own:
        want = {u'a': blank if spelled == 'empty' else w, u'b': blank, u'c': None if 'bad' in spelled else blank}
        if cls == 'SparseDict-required' and spelled == 'empty':
            want[u'a'] = None
    elif cls == 'SparseDict':
        want = dict.fromkeys(want, 'absent')
    elif sparse:
        want = {u'a': a, u'b': 'absent', u'c': 'absent'}
    for k in want:
        got = val(k)
        ctx.check(got is want[k] or got == want[k] if want[k] is None or isinstance(want[k], (str, int)) else ctx.same(got, want[k]), '%s: field %r holds %s, not %s' % (where, k, ctx.show(got), ctx.show(want[k])))
        if 'bad' in spelled and k == u'c':
            ctx.check(ctx.R(ctx.attr(ctx.R(el.p.get(ctx.I, k)[1]), 'u')) == u'bogus', '%s: the unsuitable part of the default is lost' % where)
