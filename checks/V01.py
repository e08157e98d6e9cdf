"""V01 — what one round of validators means."""
from sa.oblig import Check

check = Check('V01', 'One round of validators: results, order, short cuts and signals')
B = 'flatland.schema.base:'
OUT = ['True', 'one', 'False', 'zero', 'None', 'empty', 'Skip', 'SkipAll', 'SkipAllFalse', 'Unevaluated', 'truthy', 'falsy']
STOP = {'False': 'self', 'zero': 'self', 'empty': 'self', 'SkipAllFalse': 'self', 'falsy': 'self', 'SkipAll': 'self', 'None': False, 'Skip': True}


def outcome(ctx, name):
    if name in ('Skip', 'SkipAll', 'SkipAllFalse', 'Unevaluated'):
        return ctx.get(B + name)
    if name in ('truthy', 'falsy'):
        v = ctx.sym('res-' + name, 'object')
        ctx.I.run.truth[v] = name == 'truthy'
        return v
    return {'True': True, 'one': 1, 'False': False, 'zero': 0, 'None': None, 'empty': u''}[name]


def element(ctx, optional, empty):
    return ctx.do('''
        class Stub(Element):
            @property
            def is_empty(self):
                return E
        el = Stub()
        el.optional = O
    ''', E=empty, O=optional)['el']


@check.ob('validators', [B + 'validate_element'],
          'validators run in order, each with (element, state), until one returns None, a false value, Skip or SkipAll; '
          'that decides the result; each run sends one signal with the raw result', max_runs=9000)
def validators(ctx):
    optional, empty = ctx.choose((False, False), (False, True), (True, False))
    el = element(ctx, optional, empty)
    n = ctx.choose(1, 2, 3)
    outs = []
    calls, sent = [], []
    state = ctx.any('state')

    def mk(i):
        def f(e, s):
            calls.append((i, ctx.R(e), s))
            outs.append(ctx.choose(*OUT))
            return outcome(ctx, outs[-1])
        return ctx.fn('validator%d' % i, f)
    fns = [mk(i) for i in range(n)]
    if ctx.choose(True, False):
        ctx.do('from flatland.signals import validator_validated as s\ns.connect(L)',
               L=ctx.fn('listener', lambda sender, **kw: sent.append((sender, kw))))
        listening = True
    else:
        listening = False
    arg = ctx.I.new_list(fns) if ctx.choose('list', 'tuple') == 'list' else tuple(fns)
    r = ctx.R(ctx.call(ctx.get(B + 'validate_element'), el, state, arg))
    want, ran = True, n
    for i, o in enumerate(outs):
        if o in STOP:
            want, ran = STOP[o], i + 1
            if want == 'self':
                want = ctx.R(outcome(ctx, o))
            break
    ctx.check([c[0] for c in calls] == list(range(ran)), 'outcomes %s: validators %s ran' % (outs, [c[0] for c in calls]))
    for i, e, s in calls:
        ctx.check(e is ctx.R(el) and ctx.same(s, state), 'a validator did not receive the element and the state')
    ctx.check(r is want or (type(r) is type(want) and not hasattr(r, 'cls') and r == want), 'outcomes %s give %s, expected %s' % (outs, ctx.show(r), ctx.show(want)))
    if listening:
        ctx.check(len(sent) == ran, '%d signals for %d validator runs' % (len(sent), ran))
        for i, (sender, kw) in enumerate(sent):
            ctx.check(ctx.R(sender) is ctx.R(fns[i]) and ctx.R(kw.get('element')) is ctx.R(el) and ctx.same(kw.get('state'), state)
                      and (ctx.same(kw.get('result'), outcome(ctx, outs[i])) or ctx.R(kw.get('result')) is ctx.R(outcome(ctx, outs[i]))),
                      'signal %d does not carry the validator, element, state and raw result' % i)
    else:
        ctx.check(not sent, 'a signal without receivers')


@check.ob('optional-empty', [B + 'validate_element'], 'an optional empty element is valid and no validator runs')
def optional_empty(ctx):
    el = element(ctx, True, True)
    calls = []
    fns = ctx.choose(None, [], [ctx.fn('v', lambda e, s: calls.append(1))])
    r = ctx.R(ctx.call(ctx.get(B + 'validate_element'), el, None, fns if fns is None else ctx.I.new_list(fns)))
    ctx.check(r is True and not calls, 'an empty optional element gives %s, %d validators ran' % (ctx.show(r), len(calls)))


@check.ob('fallback', [B + 'validate_element'], 'without validators the element must not be empty; the signal names NotEmpty')
def fallback(ctx):
    optional, empty = ctx.choose((False, False), (False, True), (True, False))
    el = element(ctx, optional, empty)
    sent = []
    if ctx.choose(True, False):
        ctx.do('from flatland.signals import validator_validated as s\ns.connect(L)',
               L=ctx.fn('listener', lambda sender, **kw: sent.append((sender, kw))))
        n = 1
    else:
        n = 0
    arg = ctx.choose(None, 'list', ())
    r = ctx.R(ctx.call(ctx.get(B + 'validate_element'), el, u'st', ctx.I.new_list([]) if arg == 'list' else arg))
    ctx.check(r is (not empty), 'no validators, empty=%s: %s' % (empty, ctx.show(r)))
    ctx.check(len(sent) == n, '%d signals' % len(sent))
    for sender, kw in sent:
        ctx.check(ctx.R(sender) is ctx.R(ctx.get(B + 'NotEmpty')) and ctx.R(kw['element']) is ctx.R(el)
                  and ctx.R(kw['result']) is (not empty) and kw['state'] == u'st', 'the signal does not carry NotEmpty and the result')
