"""V07 — the shipped messages can always be expanded."""
import ast
import re
from sa.oblig import Check

check = Check('V07', 'Every shipped validation message expands and names its element')
M = 'flatland.validation.'
PRE = '''
    from flatland.validation import *
    from flatland.validation.scalars import *
    from flatland.validation.containers import *
    from flatland.validation.network import *
    from flatland.validation.string import *
    from flatland.validation.number import *
    from flatland.ext.creditcard import *
'''
S = u'el = String.named(u"n").using(label=LABEL)()\n'
I = u'el = Integer.named(u"n").using(label=LABEL)(7)\n'
L = u'el = List.named(u"n").using(label=LABEL).of(String.named(u"c").using(label=u"child"))([u"a", u"a"])\n'
D = u'el = Dict.named(u"n").using(label=LABEL).of(String.named(u"a").using(label=u"LA"), String.named(u"b").using(label=u"LB"))()\nel[u"a"].set(u"x")\n'
# (anchor, element source, validator source) of every way a shipped validator rejects
WAYS = [
    ('scalars:Present', S, 'Present()'),
    ('scalars:IsTrue', S, 'IsTrue()'),
    ('scalars:IsFalse', I, 'IsFalse()'),
    ('scalars:ValueIn', I, 'ValueIn(valid_options=[1, 2])'),
    ('scalars:ValueIn', I, 'ValueIn()'),
    ('scalars:Converted', S, 'Converted()'),
    ('scalars:ShorterThan', I, 'ShorterThan(0)'),
    ('scalars:LongerThan', S, 'LongerThan(3)'),
    ('scalars:LengthBetween', I, 'LengthBetween(3, 4)'),
    ('scalars:ValueLessThan', I, 'ValueLessThan(boundary=7)'),
    ('scalars:ValueAtMost', I, 'ValueAtMost(maximum=6)'),
    ('scalars:ValueGreaterThan', I, 'ValueGreaterThan(boundary=7)'),
    ('scalars:ValueAtLeast', I, 'ValueAtLeast(minimum=8)'),
    ('scalars:ValueBetween', I, 'ValueBetween(minimum=8, maximum=9)'),
    ('scalars:ValueBetween', I, 'ValueBetween(minimum=7, maximum=9, inclusive=False)'),
    ('scalars:MapEqual', D, 'MapEqual(u"a", u"b", transform=lambda x: x.value)'),
    ('scalars:ValuesEqual', D, 'ValuesEqual(u"a", u"b")'),
    ('scalars:UnisEqual', D, 'UnisEqual(u"a", u"b")'),
    ('containers:HasAtLeast', L, 'HasAtLeast(minimum=3)'),
    ('containers:HasAtLeast', L.replace('"a", u"a"', '"a"'), 'HasAtLeast(minimum=2)'),
    ('containers:HasAtLeast', L.replace('u"a", u"a"', ''), 'HasAtLeast()'),
    ('containers:HasAtMost', L, 'HasAtMost()'),
    ('containers:HasAtMost', L, 'HasAtMost(maximum=0)'),
    ('containers:HasBetween', L, 'HasBetween(minimum=3, maximum=4)'),
    ('containers:HasBetween', L, 'HasBetween(minimum=3, maximum=3)'),
    ('containers:HasBetween', L, 'HasBetween(minimum=1, maximum=1)'),
    ('containers:HasBetween', L, 'HasBetween()'),
    ('containers:NotDuplicated', L + 'el = el[1]\nel.label = LABEL\n', 'NotDuplicated()'),
    ('network:IsEmail', S, 'IsEmail()'),
    ('network:URLValidator', S, 'URLValidator()'),
    ('network:URLValidator', S + 'el.set(u"x")\n', 'URLValidator()'),
    ('network:URLValidator', S + 'el.set(u"ftp://x")\n', 'URLValidator(allowed_schemes=("http",))'),
    ('network:URLValidator', S + 'el.set(u"http://x/#y")\n', 'URLValidator(allowed_parts=("scheme", "netloc", "path"))'),
    ('network:HTTPURLValidator', S + 'el.set(u"x")\n', 'HTTPURLValidator()'),
    ('network:HTTPURLValidator', S + 'el.set(u"http://u:p@x/")\n', 'HTTPURLValidator()'),
    ('network:URLCanonicalizer', S, 'URLCanonicalizer()'),
    ('string:NANPphone', S, 'NANPphone()'),
    ('string:NANPphone', S + 'el.set(u"212-555-0123 x45")\n', 'NANPphone()'),
    ('number:Luhn10', S, 'Luhn10()'),
    ('number:Luhn10', I + 'el.set(2)\n', 'Luhn10()'),
]


@check.ob('expand', [M + 'base:Validator.note_error', M + 'base:Validator.expand_message'],
          'every rejecting path of every shipped validator records exactly one message that has the label in it')
def expand(ctx):
    anchor, el, val = ctx.choose(*WAYS)
    # element text is inert in messages: labels may look like placeholders
    label = ctx.choose(u'LABEL', u'100%', u'%(nothing)s')
    ns = ctx.do(PRE + '\n' + '\n'.join('    ' + l for l in (el + 'v = ' + val).splitlines()), LABEL=label)
    el, v = ns['el'], ns['v']
    st, r, e = ctx.catch(lambda: ctx.call(v, el, None))
    ctx.check(st == 'ok', '%s: %s escapes while reporting' % (val, r))
    ctx.check(r is False, '%s does not reject: %s' % (val, ctx.show(r)))
    errors = [ctx.R(x) for x in ctx.items(ctx.attr(el, 'errors'))]
    ctx.check(len(errors) == 1, '%s records %d messages' % (val, len(errors)))
    want = u'LA' if 'Equal' in anchor else label
    ctx.check(isinstance(errors[0], str) and want in errors[0], '%s: the message %r does not name the element' % (val, errors[0]))
    ctx.check('%(' not in errors[0].replace(label, u'') if isinstance(errors[0], str) else True, '%s: unfilled placeholder in %r' % (val, errors[0]))


# what the text must mention, in this order (L stands for the label)
TEXTS = [
    (I, 'ValueIn(valid_options=[1, 2])', [u'7', u'L']),
    (I, 'ShorterThan(0)', [u'L', u'0']),
    (S, 'LongerThan(3)', [u'L', u'3']),
    (I, 'LengthBetween(3, 4)', [u'L', u'3', u'4']),
    (I, 'LengthBetween(minlength=31, maxlength=44)', [u'L', u'31', u'44']),
    (I, 'ValueLessThan(boundary=5)', [u'L', u'less than 5']),
    (I, 'ValueAtMost(maximum=6)', [u'L', u'less than or equal to 6']),
    (I, 'ValueGreaterThan(boundary=8)', [u'L', u'greater than 8']),
    (I, 'ValueAtLeast(minimum=8)', [u'L', u'greater than or equal to 8']),
    (I, 'ValueBetween(minimum=8, maximum=9)', [u'L', u'range 8 to 9']),
    (I, 'ValueBetween(minimum=7, maximum=9, inclusive=False)', [u'L', u'greater than 7', u'less than 9']),
    (I, 'ValueBetween(minimum=0, maximum=0)', [u'L', u'range 0 to 0']),
    (D, 'ValuesEqual(u"b", u"a")', [u'LB', u'LA']),
    (D, 'MapEqual(u"a", u"b", u"a", transform=lambda x: x.name)', [u'LA, LB', u'LA']),
    (L, 'HasAtLeast(minimum=3)', [u'L', u'at least 3 child']),
    (L.replace('u"a", u"a"', ''), 'HasAtLeast()', [u'L', u'at least one child']),
    (L, 'HasAtMost()', [u'L', u'at most one child']),
    (L, 'HasAtMost(maximum=0)', [u'L', u'at most 0 child']),
    (L, 'HasBetween(minimum=3, maximum=4)', [u'L', u'at least 3', u'at most 4 child']),
    (L, 'HasBetween(minimum=3, maximum=3)', [u'L', u'exactly 3 child']),
    (L, 'HasBetween()', [u'L', u'exactly one child']),
    (L + 'el[1].label = u"child"\nel = el[1]\n', 'NotDuplicated()', [u'child', u'within', u'L']),
    (S + 'el.set(u"212-555-0123 x45")\n', 'NANPphone()', [u'L']),
]


@check.ob('texts', [M + 'base:Validator.note_error', M + 'base:Validator.expand_message'],
          'the shipped messages mention the values, bounds and labels they are about, whatever the state is and whatever the messages there are about', max_runs=9000)
def texts(ctx):
    el, val, needles = ctx.choose(*TEXTS)
    label = ctx.choose(u'Lab', u'', u'9')
    state = ctx.choose('None', 'dict()', 'object()', 'dict(other=1)', 'u"text"', '5')
    old = ctx.choose(False, True)
    ns = ctx.do(PRE + '\n' + '\n'.join('    ' + l for l in (el + 'v = ' + val + '\nst = ' + state + ('\nel.add_error(u"old")' if old else '') + '\nr = v(el, st)').splitlines()), LABEL=label)
    errors = [ctx.R(x) for x in ctx.items(ctx.attr(ns['el'], 'errors'))]
    ctx.check(ctx.R(ns['r']) is False and len(errors) == 1 + old and (not old or errors[0] == u'old'), '%s: %s, %s' % (val, ctx.show(ns['r']), errors))
    msg, at = errors[-1], 0
    for n in needles:
        n = label if n == u'L' else n
        i = msg.find(n, at)
        ctx.check(i >= 0, '%s: %r does not mention %r' % (val, msg, n))
        at = max(at, i + len(n))


@check.ob('errors-to', [M + 'number:NANPnpa_nxx.validate', M + 'base:Validator.note_error'],
          'a telephone prefix is looked up in the state; a refusal is recorded once, on the element errors_to names, with its label', max_runs=9000)
def errors_to(ctx):
    npa, nxx = ctx.choose(415, None), ctx.choose(555, None)
    to = ctx.choose(None, u'npa', u'nxx', u'o', u'/d/o', u'../x')
    fill = ctx.choose(None, u'', u'x')
    answer = ctx.choose(True, False, None, 0, 1)
    how = ctx.choose('attribute', 'item', 'named')
    incomplete = ctx.choose(None, u'%(label)s is incomplete')
    asked = []
    ns = ctx.do(PRE + '''
    class St(object):
        pass
    class AQ(object):
        pass
    aq = AQ()
    aq.valid_npanxx = FN
    aq.other = FN
    if HOW == 'attribute':
        st = St()
        st.aq = aq
    elif HOW == 'item':
        st = dict(aq=aq)
    else:
        st = St()
        st.mine = aq
    root = Dict.of(Dict.named(u'd').using(label=u'LD').of(Integer.named(u'npa').using(label=u'L1'), Integer.named(u'nxx').using(label=u'L2'), String.named(u'o').using(label=u'LO')),
                   String.named(u'x').using(label=u'LX'))()
    root.set({u'd': {u'npa': NPA, u'nxx': NXX, u'o': FILL}, u'x': FILL})
    el = root[u'd']
    kw = dict(lookup='mine', method='other') if HOW == 'named' else {}
    v = NANPnpa_nxx('npa', 'nxx', errors_to=TO, incomplete=INC, **kw)
    r = v(el, st)
    ''', FN=ctx.fn('valid', lambda a, b: (asked.append((ctx.R(a), ctx.R(b))), answer)[1]), HOW=how, NPA=npa, NXX=nxx, FILL=fill, TO=to, INC=incomplete)
    r = ctx.R(ns['r'])
    missing = npa is None or nxx is None
    ctx.check(asked == ([] if missing else [(npa, nxx)]), 'npa %s nxx %s: asked %s' % (npa, nxx, asked))
    want = not missing and bool(answer)
    ctx.check(r is want, 'npa %s nxx %s answer %r: %s' % (npa, nxx, answer, ctx.show(r)))
    at = {None: 'el', u'npa': 'el[u"npa"]', u'nxx': 'el[u"nxx"]', u'o': 'el[u"o"]', u'/d/o': 'el[u"o"]', u'../x': 'root[u"x"]'}[to]
    label = {None: u'LD', u'npa': u'L1', u'nxx': u'L2', u'o': u'LO', u'/d/o': u'LO', u'../x': u'LX'}[to]
    for e in ('root', 'root[u"x"]', 'el', 'el[u"npa"]', 'el[u"nxx"]', 'el[u"o"]'):
        errors = [ctx.R(x) for x in ctx.items(ctx.do('r = list(%s.errors)' % e, root=ns['root'], el=ns['el'])['r'])]
        msg = [] if want or e != at or (missing and incomplete is None) else [label + u' is incomplete'] if missing else [u'The %s can not be verified.' % label]
        ctx.check(errors == msg, 'npa %s nxx %s answer %r errors_to %s: %s records %s' % (npa, nxx, answer, to, e, errors))


def names_in(msg):
    """placeholder names of a template value"""
    out = set()
    if isinstance(msg, tuple):
        for m in msg[:2]:
            out |= names_in(m)
        if len(msg) == 3 and isinstance(msg[2], str):
            out.add(msg[2])
    elif isinstance(msg, str):
        out |= set(re.findall(r'%\((\w+)\)', msg))
    return out


@check.rule('placeholders', [M + 'base:Validator'],
            'at each note_error/note_warning call with a literal key, the key names a message of the class and each of its '
            'placeholders names extra info, an attribute of the validator or an attribute of elements')
def placeholders(S):
    base = S.get(M + 'base:Validator')
    elements = [S.get('flatland.schema:' + n) for n in ('String', 'List', 'Dict')]
    every = S.subclasses(base)
    for cls in every:
        # what a class leaves to the classes derived from it is checked there
        derived = any(cls in c.mro and c is not cls for c in every)
        for fn, call, file in S.methods_calls(cls, ('note_error', 'note_warning')):
            key = call.args[2] if len(call.args) > 2 else dict((k.arg, k.value) for k in call.keywords).get('key')
            if not isinstance(key, ast.Constant) or not isinstance(key.value, str):
                S.skip('computed key')
                continue
            S.count('note_error/note_warning call sites with a literal key')
            msg = S.class_attr(cls, key.value)
            if msg is S.MISSING:
                if not S.sets_self_attr(cls, key.value) and not derived:
                    yield '%s.%s' % (cls.name, key.value), file, call.lineno, 'message %r is not an attribute of %s' % (key.value, cls.name)
                continue
            if any(k.arg is None for k in call.keywords):
                S.skip('computed extra information')
                continue
            info = set(k.arg for k in call.keywords)
            for n in sorted(names_in(msg) - info):
                if S.class_attr(cls, n) is not S.MISSING or S.sets_self_attr(cls, n):
                    continue
                if any(S.class_attr(e, n) is not S.MISSING or S.sets_self_attr(e, n) for e in elements):
                    continue
                if derived:
                    S.skip('left to derived classes')
                    continue
                yield '%s.%s' % (cls.name, n), file, call.lineno, '%%(%s)s in message %r of %s names nothing' % (n, key.value, cls.name)
