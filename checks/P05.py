"""P05 — el()."""
from sa.oblig import Check

check = Check('P05', 'el() leads to the named element or raises KeyError, and changes nothing')
B = 'flatland.schema.base:'
SRC = '''
    from flatland import DateYYYYMMDD
    root = Dict.named(u'top').of(
        Dict.named(u'a').of(String.named(u'x'), List.named(u'l').of(Dict.named(u'm').of(String.named(u'x')))),
        Array.named(u'r').of(Integer.named(u'v')),
        MultiValue.named(u'mv').of(Integer),
        SparseDict.named(u's').of(String.named(u'x'), String.named(u'y')),
        DateYYYYMMDD.named(u'dt'),
        List.named(u'll').of(List.of(String)),
        String.named(u'0'))()
    root[u'a'][u'l'].set([{u'x': u'1'}, {u'x': u'2'}])
    root[u'r'].set([1, 2])
    root[u'mv'].set([3, 4])
    root[u's'].set({u'y': u'z'})
    root[u'll'].set([[u'p', u'q'], [], [u'r']])
'''
PARTS = [u'a', u'x', u'l', u'r', u's', u'y', u'mv', u'll', u'dt', u'year', u'0', u'1', u'2', u'-1', u'zz', u'', u' 1', u'1.5', u'top', u'9' * 30, u'\xe9']


def kids(ctx, el):
    """name -> child, read off the containers themselves."""
    p = getattr(el, 'p', None)
    if hasattr(p, 'items') and not isinstance(p, list):
        return dict((ctx.R(k), ctx.R(v)) for k, v in p.items())
    if isinstance(p, list):
        out = {}
        for i, m in enumerate(ctx.items(el)):
            out[u'%d' % i] = ctx.R(m)
        return out
    return {}


def walk(ctx, el, names):
    for n in names:
        k = kids(ctx, el)
        if n not in k:
            if isinstance(getattr(el, 'p', None), list):
                try:
                    n = u'%d' % range(len(k))[int(n)]
                except (ValueError, IndexError, OverflowError):
                    return None
                el = k[n]
                continue
            return None
        el = k[n]
    return el


def nodes(ctx, el, names=()):
    yield names, el
    for k, v in sorted(kids(ctx, el).items()):
        for x in nodes(ctx, v, names + (k,)):
            yield x


def snap(ctx, root):
    return [(n, e) for n, e in nodes(ctx, root)]


@check.ob('paths', [B + 'Element.el', B + 'Element._parse_element_path'],
          'from every element, every dotted path of up to two parts (three thoroughly): the element the parts name, or KeyError if there is none; absolute '
          'paths start at the root; the tree is left as it was')
def paths(ctx):
    first = ctx.choose(*PARTS)
    root = ctx.R(ctx.do(SRC)['root'])
    before = snap(ctx, root)
    starts = [(n, e) for n, e in before if n in ((), (u'a',), (u'a', u'x'), (u'a', u'l'), (u'r',), (u's',), (u'dt',), (u'll',), (u'mv',), (u'0',), (u'r', u'0'))]
    seqs = [[first]] + [[first, x] for x in PARTS]
    if ctx.thorough:
        seqs += [[first, x, y] for x in PARTS for y in (u'x', u'0', u'1', u'', u'zz', u'-1')]
    for seq in seqs:
        for names, start in starts if len(seq) < 3 else starts[:3]:
            for form in ('dotted', 'absolute', 'sep', 'sepabs', 'list', 'iter', 'bytes'):
                kw = {}
                absolute = form in ('absolute', 'sepabs')
                if form in ('dotted', 'absolute'):
                    arg = (u'.' if absolute else u'') + u'.'.join(seq)
                    if u'1.5' in seq:
                        continue
                elif form in ('sep', 'sepabs'):
                    arg = (u'::' if absolute else u'') + u'::'.join(seq)
                    kw = {'sep': u'::'}
                else:
                    arg = ctx.I.new_list(seq)
                    if form == 'bytes':
                        if u'1.5' in seq or any(ord(c) > 126 for p in seq for c in p):
                            continue
                        arg = ctx.do("a = str('%s')" % '.'.join(seq).replace('\\', '\\\\').replace("'", "\\'"))['a']
                    if form == 'iter':
                        arg = ctx.do('a = iter(a)', a=arg)['a']
                if not absolute and form not in ('list', 'iter') and seq[0] == u'':
                    continue        # reads as an absolute path
                if form in ('list', 'iter') and names and len(seq) > 1:
                    continue
                want = walk(ctx, root if absolute else start, seq)
                if absolute and seq == [u'']:
                    want = root     # just the separator
                st, r, x = ctx.catch(lambda: ctx.m(start, 'el', arg, **kw))
                if want is None:
                    ctx.check(st == 'raise' and r == 'KeyError', '%s path %s from %s gives %s' % (form, seq, names, r if st == 'raise' else 'an element'))
                else:
                    ctx.check(st == 'ok' and ctx.R(r) is want, '%s path %s from %s gives %s' % (form, seq, names, r if st == 'raise' else 'another element'))
    after = snap(ctx, root)
    ctx.check(len(before) == len(after) and all(a[0] == b[0] and a[1] is b[1] for a, b in zip(before, after)), 'looking elements up changes the tree')


@check.ob('odd', [B + 'Element.el', B + 'Element._index'], 'parts of any kind, no parts at all, and parts naming children of scalars: an element or KeyError, nothing else')
def odd(ctx):
    cls = ctx.choose('String', 'Integer', 'Boolean', 'Date', 'DateTime', 'Decimal', 'Enum', 'Ref', 'Dict', 'SparseDict', 'List', 'Array', 'MultiValue', 'DateYYYYMMDD', 'JoinedString',
                     'Form', 'Constrained')
    el = ctx.do('''
        import flatland
        from flatland import *
        cls = getattr(flatland, NAME)
        if NAME in ('Dict', 'SparseDict', 'Form'):
            cls = cls.of(String.named(u'x'))
        elif NAME in ('List', 'Array', 'MultiValue', 'JoinedString'):
            cls = cls.of(String)
        el = cls()
        if NAME in ('List', 'Array'):
            el.append(u'x')
    ''', NAME=cls)['el']
    a = ctx.choose('none', 'int', 'float', 'text', 'bytes', 'empty', 'anytext', 'tuple', 'object', 'emptytext', 'sep')
    arg = {'none': lambda: ctx.I.new_list([None]), 'int': lambda: ctx.I.new_list([ctx.int('i')]), 'float': lambda: ctx.I.new_list([1.5]), 'text': lambda: u'zz',
           'bytes': lambda: ctx.do("a = str('zz')")['a'], 'empty': lambda: ctx.I.new_list([]), 'anytext': lambda: ctx.I.new_list([ctx.text('t')]),
           'tuple': lambda: ctx.do("a = (None, u'x', ())")['a'], 'object': lambda: ctx.do('a = [object()]')['a'], 'emptytext': lambda: u'', 'sep': lambda: u'.'}[a]()
    st, r, x = ctx.catch(lambda: ctx.m(el, 'el', arg))
    ctx.check(st == 'ok' or r == 'KeyError', 'el() of %s with %s raises %s' % (cls, a, r))
    if a in ('text', 'bytes', 'empty', 'none', 'object', 'emptytext', 'float', 'tuple'):
        if cls in ('List', 'Array') and a == 'float':
            return
        ctx.check(st == 'raise', 'el() of %s with %s finds something' % (cls, a))
    if a == 'sep':
        ctx.check(st == 'ok' and ctx.R(r) is ctx.R(el), 'el() of %s with the separator alone is not its root' % cls)
