"""P03 — names and escapes in paths."""
import itertools

from sa.oblig import Check

check = Check('P03', 'Any name can be spelled in a path; malformed brackets are names, not errors')
P = 'flatland.schema.paths:'
NAMES = [u'a/b', u'/', u'//', u'a[', u'[', u']', u'[0]', u'[:]', u'a[b]', u'a[1:2]', u'.', u'..', u'.a', u'..a', u'a.b', u'...', u'a.', u'-1', u'\xe9\u0416',
         u' ', u'a b', u'../x', u'%s', u'a\\b', u'[', u'[a', u'a]b', u'1', u'a\nb', u'\n', u'/a.b', u'/a/b', u'[a.b]', u'a.b.c', u'.a.b', u'a[b.c]', u'a//b[c]', u']a.b]', u'a/b/c/d']


def esc(name):
    return u''.join(u'\\' + c if c in u'/[].' else c for c in name)


def some(name):
    """Only what needs it: separators, brackets, and dots that would read as . or .."""
    if name in (u'.', u'..'):
        return esc(name)
    return u''.join(u'\\' + c if c in u'/[' else c for c in name)


def tree(ctx, name):
    return ctx.do('''
        root = Dict.named(u't').of(Dict.named(NAME).of(String.named(u'plain'), Dict.named(NAME).of(String.named(u'leaf'), String.named(NAME))), String.named(u'plain'))()
        one = root[NAME]
        two = one[NAME]
        leaf = two[u'leaf']
        deep = two[NAME]
    ''', NAME=name)


@check.ob('escapes', [P + 'tokenize'],
          'with / [ ] . escaped by a backslash every name selects the child of that name, alone, first, in the middle and last, absolute or not')
def escapes(ctx):
    name = ctx.choose(*sorted(set(NAMES)))
    ns = tree(ctx, name)
    for e in set((esc(name), some(name)) + ((u'\\' + name,) if name in (u'.', u'..') else ())):
        for path, want in ((e, 'one'), (e + u'/' + e, 'two'), (e + u'/' + e + u'/leaf', 'leaf'), (u'/'.join([e] * 3), 'deep'), (u'/' + e, 'one'), (u'./' + e, 'one'),
                           (u'/' + e + u'/' + e, 'two'), (e + u'/../' + e, 'one'), (e + u'/' + e + u'/..', 'one'), (u'plain/../' + e, 'one'), (e + u'/', 'one'), (e + u'/.', 'one')):
            for start in ('root',) + (('leaf',) if path[0] == u'/' else ()):
                st, r, x = ctx.catch(lambda: ctx.m(ns[start], 'find', path))
                ctx.check(st == 'ok', '%r for the child named %r raises %s' % (path, name, r))
                r = ctx.items(r)
                ctx.check(len(r) == 1 and ctx.R(r[0]) is ctx.R(ns[want]), '%r does not lead to the child named %r' % (path, name))


@check.ob('brackets', [P + 'tokenize', P + '_parse_slice'],
          'brackets that are neither an index nor a slice belong to the name they stand in')
def brackets(ctx):
    path, names = ctx.choose((u'a[b]', [u'a[b]']), (u'a[b]/x', [u'a[b]', u'x']), (u'x/a[b]', [u'x', u'a[b]']), (u'[b]', [u'[b]']), (u'[]', [u'[]']), (u'a[]', [u'a[]']),
                             (u'[1:2:3:4]', [u'[1:2:3:4]']), (u'[-]', [u'[-]']), (u'[--1]', [u'[--1]']), (u'[1:-]', [u'[1:-]']), (u'a[b][c]', [u'a[b][c]']),
                             (u'a[1.5]', [u'a[1.5]']), (u'a[ 1]', [u'a[ 1]']), (u'[b]/[c]', [u'[b]', u'[c]']), (u'a[b]/c[d]', [u'a[b]', u'c[d]']), (u'a[+1]', [u'a[+1]']),
                             (u'/a[b]', [u'a[b]']), (u'../a[b]', [u'a[b]']), (u'a[\\[]', [u'a[[]']), (u'a[b\\.c]', [u'a[b.c]']), (u'a\\/b[c]', [u'a/b[c]']), (u'a[\\.]', [u'a[.]']))
    ns = ctx.do('''
        inner = String
        fields = list(reversed(NAMES))
        field = String.named(fields[0])
        for n in fields[1:]:
            field = Dict.named(n).of(field, String.named(u'other'))
        root = Dict.named(u't').of(field, String.named(u'other'))()
        el = root
        for n in NAMES:
            el = el[n]
    ''', NAMES=ctx.I.new_list(names))
    st, r, x = ctx.catch(lambda: ctx.m(ns['root'], 'find', path))
    ctx.check(st == 'ok', '%r raises %s although the tree has %r' % (path, r, names))
    r = ctx.items(r)
    ctx.check(len(r) == 1 and ctx.R(r[0]) is ctx.R(ns['el']), '%r does not lead to %r' % (path, names))


@check.ob('total', [P + 'tokenize', P + 'PathExpression.__call__'],
          'no text at all (every text of up to three, thoroughly four, of the special characters) makes find raise when not strict, or raise anything but LookupError when strict')
def total(ctx):
    chars = u'a/[].\\:-1'
    first = ctx.choose(u'', *chars)
    more = 2
    if ctx.thorough and first:
        first += ctx.choose(*chars) + ctx.choose(u'', *chars)
        more = 1
    root = ctx.do("root = Dict.named(u't').of(List.named(u'a').of(Array.named(u'1').of(String)), String.named(u'[a'))({u'a': [[u'p']]})")['root']
    for n in range(more + 1) if first else [0]:
        for rest in itertools.product(chars, repeat=n):
            text = first + u''.join(rest)
            ns = ctx.do('''
                ok = True
                try:
                    root.find(TEXT, strict=False)
                except LookupError:
                    ok = False
                try:
                    root.find(TEXT)
                except LookupError:
                    pass
            ''', root=root, TEXT=text)
            ctx.check(ctx.R(ns['ok']) is True, '%r raises although not strict' % text)


@check.ob('every-name', [P + 'tokenize'], 'every name of up to three (thoroughly four) of the special characters, fully escaped, selects the child of that name alone, after another step and before one')
def every_name(ctx):
    chars = u'a/[].\\:1'
    first = ctx.choose(*chars) + ctx.choose(u'', *chars)
    n = 2 if ctx.thorough else 1
    names = [first] + [first + u''.join(r) for k in range(1, n + 1) if len(first) == 2 for r in itertools.product(chars, repeat=k)]
    for name in names:
        ns = ctx.do('''
            root = Dict.named(u't').of(Dict.named(NAME).of(String.named(NAME), String.named(u'x')), String.named(u'plain'))()
            one = root[NAME]
            two = one[NAME]
            x = one[u'x']
        ''', NAME=name)
        e = esc(name)
        # a backslash is no escape for itself: a name that ends with one can only come last
        inner = [] if name.endswith(u'\\') else [(e + u'/' + e, 'two'), (e + u'/x', 'x'), (u'/' + e + u'/x/..', 'one')]
        for path, want in [(e, 'one'), (u'/' + e, 'one'), (u'plain/../' + e, 'one')] + inner:
            st, r, x = ctx.catch(lambda: ctx.m(ns['root'], 'find', path))
            ctx.check(st == 'ok', '%r for the child named %r raises %s' % (path, name, r))
            r = ctx.items(r)
            ctx.check(len(r) == 1 and ctx.R(r[0]) is ctx.R(ns[want]), '%r does not lead to the child named %r' % (path, name))


@check.ob('mixed', [P + 'tokenize'], 'a name may mix escapes and bare brackets that hold no index or slice')
def mixed(ctx):
    parts = [(u'a', u'a'), (u'\\/', u'/'), (u'\\.', u'.'), (u'\\[', u'['), (u'\\]', u']'), (u'é', u'é')]
    brs = [(u'[b]', u'[b]'), (u'[]', u'[]'), (u'[\\.c]', u'[.c]'), (u'[1.0]', u'[1.0]'), (u'[b][c]', u'[b][c]'), (u'[b][\\.]', u'[b][.]')]
    p1, p2, br = ctx.choose(*parts), ctx.choose((u'', u''), *parts), ctx.choose(*brs)
    text, name = p1[0] + p2[0] + br[0], p1[1] + p2[1] + br[1]
    ns = ctx.do('''
        root = Dict.named(u't').of(Dict.named(NAME).of(String.named(NAME), String.named(u'x')), String.named(u'plain'))()
        one = root[NAME]
        two = one[NAME]
        x = one[u'x']
    ''', NAME=name)
    for path, want in ((text, 'one'), (text + u'/' + text, 'two'), (text + u'/x', 'x'), (u'/' + text, 'one')):
        st, r, x = ctx.catch(lambda: ctx.m(ns['root'], 'find', path))
        ctx.check(st == 'ok', '%r raises %s although the tree has %r' % (path, r, name))
        r = ctx.items(r)
        ctx.check(len(r) == 1 and ctx.R(r[0]) is ctx.R(ns[want]), '%r does not lead to %r' % (path, name))
