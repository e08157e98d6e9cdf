"""U01 — symbols."""
from sa.oblig import Check

check = Check('U01', 'A symbol is the one object of its name')
B = 'flatland.util.base:'
SRC = '''
    from flatland.util import symbol
    log = []
    class Lock(object):
        held = 0
        def acquire(self, *a):
            log.append('acquire')
            self.held += 1
            return True
        def release(self):
            log.append('release')
            if not self.held:
                raise RuntimeError('release unlocked lock')
            self.held -= 1
        def __enter__(self):
            return self.acquire()
        def __exit__(self, *a):
            self.release()
    lock = Lock()
    class Table(dict):
        def get(self, k, d=None):
            log.append('read')
            return dict.get(self, k, d)
        def __getitem__(self, k):
            log.append('read')
            return dict.__getitem__(self, k)
        def __contains__(self, k):
            log.append('read')
            return dict.__contains__(self, k)
        def has_key(self, k):
            log.append('read')
            return dict.__contains__(self, k)
        def __setitem__(self, k, v):
            log.append('write')
            dict.__setitem__(self, k, v)
'''


@check.ob('same', [B + 'symbol.__new__', B + '_symbol.__init__'],
          'the same name gives the same object, different names different ones, at any time; each shows its name')
def same(ctx):
    ns = ctx.do(SRC)
    s = ctx.get(B + 'symbol')
    names = ['a', 'b', 'Unset', 'a b', '']
    first = {}
    for i in range(3):
        n = ctx.choose(*names)
        got = ctx.R(ctx.call(s, n if isinstance(n, str) and False else ctx.do('r = %r' % n)['r']))
        if n in first:
            ctx.check(got is first[n], 'symbol(%r) is another object the second time' % n)
        for k, v in first.items():
            if k != n:
                ctx.check(got is not v, 'symbol(%r) is symbol(%r)' % (n, k))
        first[n] = got
        # equal to nothing but itself
        for src in ('x == n', 'n == x', 'x == u"" + n', 'x == None', 'x == 0', 'not (x == x)', 'x != x', 'not (x != n)', 'x == symbol(n + "!")', 'x in (n, None, 0)', 'hash(x) != hash(x)', 'not x'):
            r = ctx.do('r = bool(%s)' % src, x=got, symbol=s, n=ctx.do('r = %r' % n)['r'])['r']
            ctx.check(not ctx.truth(r), 'for x = symbol(n), n = %r: %s' % (n, src))
        for f in ('repr', 'str'):
            r = ctx.do('r = %s(x) == n' % f, x=got, n=ctx.do('r = %r' % n)['r'])['r']
            ctx.check(ctx.truth(r), '%s of symbol(%r) differs from its name' % (f, n))
        ctx.check(ctx.truth(ctx.do('r = x == x and not (x != x) and bool(x)', x=got)['r']), 'a symbol differs from itself')


@check.ob('pickle', [B + '_symbol.__reduce__'],
          'copying and unpickling a symbol gives the symbol itself')
def pickle(ctx):
    r = ctx.do('''
    from flatland.util import symbol, Unspecified
    out = []
    for x in (symbol('n'), Unspecified):
        f, args = x.__reduce__()[:2]
        out.append(f(*args) is x)
''')['out']
    ctx.check(all(ctx.truth(x) for x in ctx.items(r)), 'a reduced symbol comes back as another object')


@check.ob('known', ['flatland.schema.base:'], 'the published constants are symbols of their names, all distinct')
def known(ctx):
    r = ctx.do('''
    from flatland.util import symbol
    from flatland import Unspecified, Unset, Skip, SkipAll, SkipAllFalse, Unevaluated
    all = [Unspecified, Unset, Skip, SkipAll, SkipAllFalse, Unevaluated]
    n = len(set([id(x) for x in all]))
    r = (n == 6, Unspecified is symbol('Unspecified'), Unset is symbol('Unset'))
''')['r']
    ctx.check(all(ctx.truth(x) for x in r), 'the constants are %s' % ctx.show(r))


@check.ob('locked', [B + 'symbol.__new__'],
          'a new symbol is entered in the table while the lock is held and after looking there under the same lock, which is released on every path, failures included')
def locked(ctx):
    ns = ctx.do(SRC + '''
    table = Table()
''')
    s = ctx.get(B + 'symbol')
    # whichever lock and table the class or its module keeps, watched ones take their places
    for owner, names in ((s, s.attrs), (ctx.get(B), ctx.get(B).attrs)):
        for k in [str(k) for k in names]:
            v = ctx.R(names[k])
            if type(v).__name__ == 'Inst' and v.cls.name == 'Lock':
                ctx.I.setattr(owner, k, ns['lock'])
            elif 'symbols' in k and not k.startswith('__'):
                ctx.I.setattr(owner, k, ns['table'])
    for i in range(3):
        n = ctx.choose('a', 'b', 3, [])
        ctx.do('del log[:]', log=ns['log'])
        arg = ctx.do('r = %r' % n)['r']
        st, r, e = ctx.catch(lambda: ctx.call(s, arg))
        if n == 3 or n == []:
            ctx.check(st == 'raise', '%r is accepted as a symbol name' % n)
        else:
            ctx.check(st == 'ok', 'symbol(%r) raises %s' % (n, r))
        held, looked = 0, False
        for ev in [x.decode() if isinstance(x, bytes) else str(x) for x in ctx.items(ns['log'])]:
            ev = ev.strip("b'")
            if ev == 'acquire':
                ctx.check(held == 0, 'the lock is taken twice')
                held, looked = held + 1, False
            elif ev == 'release':
                held -= 1
                ctx.check(held >= 0, 'the lock is released twice')
            elif ev == 'read':
                looked = looked or held > 0
            else:
                ctx.check(held > 0 and looked, 'a symbol is added to the table %s' % ('without the lock' if not held else 'without looking there first'))
        ctx.check(held == 0, 'the lock stays held after symbol(%r)' % n)
