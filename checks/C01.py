"""C01 — every member of a sequence is an Element parented to it."""
from sa.oblig import Check
from . import seqops

check = Check('C01', 'Sequence members are always Elements parented to their container')
C = 'flatland.schema.containers:'
ANCHOR = {'append': 'append', 'extend': 'extend', 'insert': 'insert', 'setitem': '__setitem__', 'setslice': '__setitem__',
          'extslice': '__setitem__', 'iadd': 'extend', 'imul': 'extend', 'set': 'set', 'set_default': 'set_default'}


def members(ctx, ns):
    return ctx.items(ns['el'])


def invariant(ctx, ns, what):
    el = ns['el']
    E = ctx.get('flatland:Element')
    is_list = el.cls.lookup('_slots')[0] is not None
    ms = members(ctx, ns)
    ctx.check(len(ms) == len(el.p), '%s: iteration yields %d members for len() %d' % (what, len(ms), len(el.p)))
    for i, m in enumerate(ms):
        ctx.check(ctx.truth(ctx.I.isinstance(m, E)), '%s leaves a member that is not an Element: %s' % (what, ctx.show(m)))
        chain = ctx.items(ctx.attr(m, 'parents'))
        ctx.check(el in chain[:2] and chain and (chain[0] is el or is_list),
                  '%s leaves a member whose parent is not the sequence' % what)
        slot = ctx.truth(ctx.I.isinstance(m, ctx.get('flatland.schema.base:Slot')))
        ctx.check(not slot, '%s exposes a list slot as a member' % what)
        ctx.check(ctx.R(ctx.m(el, '__getitem__', i)) is m, '%s: indexing and iteration disagree' % what)
    kids = ctx.items(ctx.attr(el, 'children'))
    ctx.check(len(kids) == len(ms) and all(a is b for a, b in zip(kids, ms)), '%s: children differ from the members' % what)


def make(cls, op):
    owner = 'List' if cls == 'List' and op in ('append', 'extend', 'insert', 'setitem', 'setslice', 'extslice', 'pop', 'delitem', 'delslice', 'remove', 'sort', 'reverse') else 'Sequence'
    anchors = [C + '%s.%s' % (owner, ANCHOR[op])] if op in ANCHOR else [C + cls if cls != 'JoinedString' else C + 'Array']

    @check.ob('%s-%s' % (cls, op), anchors,
              'after %s with plain values, fresh or foreign elements, all members are Elements whose parent chain '
              'starts at the sequence' % op)
    def ob(ctx):
        ns = seqops.build(ctx, cls)
        if not seqops.apply(ctx, ns, op):
            return
        invariant(ctx, ns, op)
        if op == 'pop':
            got = ctx.R(ns['got'])
            ctx.check(ctx.truth(ctx.I.isinstance(got, ctx.get('flatland:Element'))), 'pop() returned a non-element')
            ctx.check(not ctx.truth(ctx.I.isinstance(got, ctx.get('flatland.schema.base:Slot'))), 'pop() returned a list slot, not the member')
            old = ctx.items(ns['olds'])
            i = ns['args']['i']
            ctx.check(got is old[i], 'pop(%d) returned another member' % i)


for c in ('Array', 'MultiValue', 'List', 'JoinedString'):
    for o in seqops.OPS:
        make(c, o)


def wrap(cls):
    @check.ob('%s-wraps' % cls, [C + 'Sequence.append', C + 'List._as_element'],
              'plain values are wrapped in member_schema and set; elements are kept as they are')
    def ob(ctx):
        ns = seqops.build(ctx, cls, n=1)
        el = ns['el']
        how = ctx.choose('append', 'insert', 'setslice', 'extend', 'setitem')
        x = seqops.item(ctx, ns, 'x')
        src = {'append': 'el.append(x)', 'insert': 'el.insert(0, x)', 'setslice': 'el[0:1] = [x]',
               'extend': 'el.extend([x])', 'setitem': 'el[0] = x'}[how]
        pos = {'append': 1, 'insert': 0, 'setslice': 0, 'extend': 1, 'setitem': 0}[how]
        ctx.do(src, el=el, x=x)
        m = members(ctx, ns)[pos]
        if ctx.kindset(x) == {'text'}:
            ctx.check(m.cls in ns['K'].attrs.get('member_schema').mro or ns['K'].attrs.get('member_schema') in m.cls.mro,
                      '%s wrapped a plain value in %s' % (how, m.cls.name))
            ctx.check(ctx.same(ctx.attr(m, 'raw'), x), '%s did not set() the plain value' % how)
        else:
            ctx.check(m is x, '%s copied or replaced the element it was given' % how)


for c in ('Array', 'MultiValue', 'List', 'JoinedString'):
    wrap(c)


MEMBERS = ['String', 'String.using(strip=False, default=u"dflt")', 'Integer.using(default=9)', 'Boolean', 'Enum.using(valid_values=(u"a", u"1"))',
           'List.of(String)', 'Array.of(Integer).using(default=[4])', 'Dict.of(String.named(u"a").using(default=u"dflt"))', 'DateYYYYMMDD', 'JoinedString']
VALUES = ['None', 'True', 'False', '0', '1', 'u""', 'u" "', 'u"x"', 'u"1"', '[]', '[u"x"]', '[u"1", None]', '()', '{}', '{u"a": u"x"}', '{u"a": None}', 'object()', 'u"2000-01-02"', 'u"a,b"']


def values(cls, how):
    src = {'append': 'el.append(v)', 'insert': 'el.insert(1, v)', 'setitem': 'el[1] = v', 'setslice': 'el[1:2] = [v]', 'setslice-empty': 'el[1:1] = (v,)', 'extend': 'el.extend([v])',
           'iadd': 'el += [v]', 'set': 'el.set([v, v])', 'init': 'el = K([v, v])', 'default': 'el.default = [v, v]; el.set_default()', 'factory': 'el = K.using(default_factory=lambda e: iter([v, v])).from_defaults()'}[how]
    pos = {'append': 2, 'extend': 2, 'iadd': 2}.get(how, 1)

    @check.ob('%s-values-%s' % (cls, how), [C + ('List.' if cls == 'List' and how in ('append', 'insert', 'setitem', 'setslice') else 'Sequence.') +
                                             {'setitem': '__setitem__', 'setslice': '__setitem__', 'setslice-empty': '__setitem__', 'iadd': 'extend', 'init': '__init__', 'default': 'set_default', 'factory': 'set_default'}.get(how, how)],
              '%s with any plain value - None, false, blank and unsuitable ones included - leaves a member that looks in every way like a new one set to that value' % how)
    def ob(ctx):
        member = ctx.choose(*MEMBERS)
        v = ctx.choose(*VALUES)
        ns = ctx.do('''
            v = %s
            K = %s.named(u's').of(%s)
            el = K()
            one, two = K.member_schema(), K.member_schema()
            el.append(one)
            el.append(two)
            fresh = K.member_schema()
        ''' % (v, cls, member))
        if ctx.catch(lambda: ctx.do('f.set(v)', f=ns['fresh'], v=ns['v']))[0] == 'raise':
            return      # the member type refuses such values by an exception
        st, r, e = ctx.catch(lambda: ctx.do(src, el=ns['el'], K=ns['K'], v=ns['v']))
        ctx.check(st == 'ok', '%s of %s raises %s' % (how, v, r))
        el = r['el']
        ms = members(ctx, dict(el=el))
        ctx.check(len(ms) == {'append': 3, 'insert': 3, 'setitem': 2, 'setslice': 2, 'setslice-empty': 3, 'extend': 3, 'iadd': 3}.get(how, 2) or how in ('set', 'init', 'default', 'factory') and cls == 'JoinedString',
                  '%s leaves %d members' % (how, len(ms)))
        if len(ms) <= pos:
            return
        m, f = ms[pos], ns['fresh']
        ctx.check(m is not f and ctx.attr(m, 'parent') is not None, 'the member is not parented')
        for a in ('raw', 'u', 'value', 'is_empty'):
            x, y = ctx.attr(m, a), ctx.attr(f, a)
            ctx.check(ctx.R(x) is ctx.R(y) or type(ctx.R(x)) is type(ctx.R(y)) and ctx.truth(ctx.I.eq(x, y)),
                      '%s of %s to a sequence of %s: the .%s of the member is %s, not %s' % (how, v, member, a, ctx.show(x), ctx.show(y)))


for c in ('Array', 'MultiValue', 'List', 'JoinedString'):
    for h in ('append', 'insert', 'setitem', 'setslice', 'setslice-empty', 'extend', 'iadd', 'set', 'init', 'default', 'factory'):
        values(c, h)


@check.ob('sort-key', [C + 'List.sort', C + 'Sequence'],
          'a sort key is called once with each member, in order, and the same members come out in the stable order of the keys it gave', max_runs=20000)
def sort_key(ctx):
    cls = ctx.choose('List', 'Array', 'MultiValue', 'List-sub')
    member = ctx.choose('Integer', 'Dict.of(Integer.named(u"a"))', 'List.of(Integer)', 'Array.of(Integer)')
    n = ctx.choose(0, 1, 2, 3)
    ks = [ctx.choose(1, 2, None) for _ in range(n)]
    rev = ctx.choose('', ', reverse=True', ', reverse=False')
    ns = ctx.do('''
        class Sub(List):
            pass
        K = %s.named(u's').of(%s)
        el = K()
        olds = [K.member_schema() for _ in range(N)]
        el.extend(olds)
        seen = []
        def key(m):
            seen.append(m)
            for i, o in enumerate(olds):
                if o is m:
                    return KS[i]
            return 0
        got = el.sort(key=key%s)
    ''' % ({'List-sub': 'Sub'}.get(cls, cls), member, rev), N=n, KS=ctx.I.new_list(list(ks)))
    olds, seen = ctx.items(ns['olds']), ctx.items(ns['seen'])
    ctx.check(len(seen) == n and all(ctx.R(a) is ctx.R(b) for a, b in zip(seen, olds)), 'the sort key was called with %s for the members %s' % (ctx.show(ns['seen']), ctx.show(ns['olds'])))
    order = sorted(range(n), key=lambda i: (ks[i] is not None, ks[i] or 0), reverse='True' in rev)
    ms = members(ctx, ns)
    ctx.check(len(ms) == n and all(ctx.R(a) is ctx.R(olds[i]) for a, i in zip(ms, order)), 'sort(key%s) of members with the keys %r gave another order' % (rev, ks))
    invariant(ctx, ns, 'sort')
