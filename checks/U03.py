"""U03 — the package's public names."""
import ast
import os
from sa.oblig import Check, REPO

check = Check('U03', 'Every published name resolves, and to one object')
PK = ('flatland', 'flatland.util')


@check.ob('published', ['flatland.util.deferred:deferred_module.__getattr__'],
          'every name a package publishes is there, is the very object of the module that defines it, and stays so; a name it does not publish is an AttributeError')
def published(ctx):
    ns = ctx.do('''
    import flatland, flatland.util, sys
    packages = {'flatland': sys.modules['flatland'], 'flatland.util': sys.modules['flatland.util']}
''')
    p = ctx.choose(*PK)
    r = ctx.do('''
    P = packages[p]
    names = list(P.__all__)
    out = []
    for n in names:
        first = getattr(P, n)
        out.append((n, first is getattr(P, n), n in dir(P)))
    try:
        P.no_such_name
        missing = False
    except AttributeError:
        missing = True
    except Exception:
        missing = False
''', packages=ns['packages'], p=ctx.do('r = %r' % p)['r'])
    ctx.check(ctx.truth(r['missing']), 'an unknown name of %s is not an AttributeError' % p)
    out = [ctx.host(x) if not isinstance(x, tuple) else x for x in ctx.items(r['out'])]
    ctx.check(len(out) > 5, '%s publishes %d names' % (p, len(out)))
    for n, same, listed in out:
        ctx.check(ctx.truth(same), '%s.%s is another object the second time' % (p, ctx.show(n)))
        ctx.check(ctx.truth(listed), '%s.%s is not listed by dir()' % (p, ctx.show(n)))


PUBLIC = '''Array Boolean Compound Constrained Container Date DateTime DateYYYYMMDD Decimal Dict Element Enum Float Form Integer JoinedString List Long Mapping
 MultiValue Number Properties Ref Scalar Sequence Skip SkipAll SkipAllFalse SparseDict String Time Unevaluated Unset AdaptationError Unspecified class_cloner'''.split()
WHERE = {'AdaptationError': 'flatland.exc', 'Unspecified': 'flatland.util.base', 'class_cloner': 'flatland.util.base'}


@check.ob('origin', ['flatland.util.deferred:deferred_module.__getattr__'],
          'the names of the package are those of the schema, exc and util modules, whether imported from the package or from there')
def origin(ctx):
    for n in PUBLIC:
        home = WHERE.get(n, 'flatland.schema')
        r = ctx.do('''
    from flatland import %s as one
    from %s import %s as two
    r = one is two
''' % (n, home, n))['r']
        ctx.check(ctx.truth(r), 'flatland.%s is not %s.%s' % (n, home, n))


def tables_of(pk):
    '''(submodule, names, attributes) of a package's export table, read from its source.'''
    from sa.loader import parse
    out, attrs = {}, {}
    for call in ast.walk(parse(os.path.join(REPO, pk.replace('.', '/'), '__init__.py'))):
        if isinstance(call, ast.Call) and isinstance(call.func, ast.Attribute) and call.func.attr == 'shadow':
            dec = lambda v: v.decode() if isinstance(v, bytes) else v
            for d in call.args:
                if isinstance(d, ast.Dict):
                    for k, v in zip(d.keys, d.values):
                        if isinstance(k, ast.Constant) and isinstance(v, (ast.Tuple, ast.List)):
                            out[dec(k.value)] = [dec(e.value) for e in v.elts]
            attrs.update((k.arg, dec(k.value.value)) for k in call.keywords if isinstance(k.value, ast.Constant))
    return out, attrs


@check.ob('complete', ['flatland.util.deferred:deferred_module.__init__', 'flatland.util.deferred:deferred_module.__getattr__', 'flatland.util.deferred:deferred_module.__dir__'],
          'each module and name of an export table, and each attribute given with it, is published, read from the package and listed by dir(), along with what any module has; nothing internal is listed')
def complete(ctx):
    pk = ctx.choose(*PK)
    table, attrs = tables_of(pk)
    ctx.check(len(table) > 1, '%s has no export table' % pk)
    names = sorted(table) + sorted(n for ns in table.values() for n in ns)
    # a fresh package each: nothing loaded yet
    ns = ctx.do('''
        from flatland.util.deferred import deferred_module
        import flatland, flatland.util, flatland.exc, flatland.schema, flatland.validation, flatland.signals, sys
        old = sys.modules[PK]
        class Mod(object):
            __name__ = PK
            __doc__ = None
            __file__ = old.__file__
            __path__ = old.__path__
        P = deferred_module(Mod(), TABLE, **ATTRS)
        published = list(P.__all__)
        def listed(n):
            return n in dir(P)
    ''', PK=ctx.do('r = %r' % pk)['r'], TABLE=ctx.do('r = %r' % dict((k, tuple(v)) for k, v in table.items()))['r'], ATTRS=ctx.do('r = %r' % attrs)['r'])
    got = [str(ctx.host(x)) if not isinstance(x, (str, bytes)) else x for x in ctx.items(ns['published'])]
    got = [g.decode() if isinstance(g, bytes) else g for g in got]
    ctx.check(sorted(got) == sorted(names), '%s publishes %s but not %s' % (pk, sorted(set(got) - set(names)), sorted(set(names) - set(got))))
    real = ctx.do("import sys, flatland, flatland.util\nr = list(sys.modules[PK].__all__)", PK=ctx.do('r = %r' % pk)['r'])['r']
    real = sorted(g.decode() if isinstance(g, bytes) else g for g in (ctx.R(x) for x in ctx.items(real)))
    ctx.check(real == sorted(names), '%s publishes %s' % (pk, sorted(set(real) ^ set(names))))
    for when in ('before', 'after'):
        for n in names + sorted(attrs) + ['__name__', '__all__', '__file__', '__path__']:
            ctx.check(ctx.truth(ctx.call(ns['listed'], ctx.do('r = %r' % n)['r'])), '%s.%s is not listed by dir() %s its first use' % (pk, n, when))
        extra = ctx.do('r = [n for n in dir(P) if n.startswith("_deferred")]', P=ns['P'])['r']
        ctx.check(not ctx.items(extra), '%s lists internals: %s' % (pk, ctx.show(extra)))
        for n in names + sorted(attrs):
            st, r, e = ctx.catch(lambda: ctx.do('r = getattr(P, n)', P=ns['P'], n=ctx.do('r = %r' % n)['r'])['r'])
            ctx.check(st == 'ok', '%s.%s raises %s' % (pk, n, r))
            if n in attrs:
                ctx.check(ctx.same(r, ctx.do('r = %r' % attrs[n])['r']), '%s.%s is %s' % (pk, n, ctx.show(r)))
                continue
            home = '%s.%s' % (pk, n) if n in table else '%s.%s' % (pk, [m for m in table if n in table[m]][0])
            want = ctx.do('import %s, sys\nm = sys.modules[%r]\nr = m if n is None else getattr(m, n)' % (home, home), n=None if n in table else ctx.do('r = %r' % n)['r'])['r']
            ctx.check(ctx.R(r) is ctx.R(want), '%s.%s is not that of %s' % (pk, n, home))


MODULES = ['flatland.schema.base', 'flatland.schema.scalars', 'flatland.schema.containers', 'flatland.schema.compound', 'flatland.schema.forms',
           'flatland.schema.properties', 'flatland.schema.paths', 'flatland.validation.base', 'flatland.validation.scalars', 'flatland.validation.containers',
           'flatland.validation.network', 'flatland.validation.number', 'flatland.validation.string', 'flatland.validation', 'flatland.schema',
           'flatland.out.markup', 'flatland.out.generic', 'flatland.out.util', 'flatland.util.base', 'flatland.util.deferred', 'flatland.signals', 'flatland.exc']


@check.ob('all-lists', [], 'every name in a module\'s __all__ is defined in it')
def all_lists(ctx):
    for m in MODULES:
        r = ctx.do('''
    import %s
    import sys
    M = sys.modules[%r]
    missing = [n for n in getattr(M, '__all__', ()) if not hasattr(M, n)]
''' % (m, m))['missing']
        ctx.check(not ctx.items(r), '%s lists names it does not define: %s' % (m, [ctx.show(x) for x in ctx.items(r)]))


@check.rule('tables', ['flatland.util.deferred:deferred_module.shadow'], 'each entry of a deferred export table names a module of the package that defines the name')
def tables(S):
    for pk in PK:
        init = os.path.join(REPO, pk.replace('.', '/'), '__init__.py')
        from sa.loader import parse
        tree = parse(init)
        for call in ast.walk(tree):
            if not (isinstance(call, ast.Call) and isinstance(call.func, ast.Attribute) and call.func.attr == 'shadow'):
                continue
            for d in call.args:
                if not isinstance(d, ast.Dict):
                    continue
                for k, v in zip(d.keys, d.values):
                    if not isinstance(k, ast.Constant) or not isinstance(v, (ast.Tuple, ast.List)):
                        continue
                    name = k.value.decode() if isinstance(k.value, bytes) else k.value
                    path = os.path.join(os.path.dirname(init), name)
                    S.count('modules')
                    if not (os.path.exists(path + '.py') or os.path.exists(os.path.join(path, '__init__.py'))):
                        yield '%s/%s' % (pk, name), init, k.lineno, 'the deferred module %s.%s does not exist' % (pk, name)
                        continue
                    for e in v.elts:
                        n = e.value.decode() if isinstance(e.value, bytes) else e.value
                        S.count('names')
                        try:
                            got = S.get('%s.%s:%s' % (pk, name, n))
                        except Exception:
                            got = S.MISSING
                        if got is S.MISSING:
                            yield '%s/%s.%s' % (pk, name, n), init, e.lineno, '%s.%s does not define %s' % (pk, name, n)
