"""Abstract interpreter for the Python 2.7 sources of flatland.

Never imports or executes the analysed package: it parses /repo's sources and
evaluates them over an abstract domain (see DESIGN.md):

 * constants, and heap objects of k-limited shape (lists, dicts, instances);
 * ``Sym``: an unknown scalar / opaque object, refined along a trace by facts
   (possible kinds, truthiness, equality, intervals, ordering) drawn from
   finite tables -- there is no solver;
 * control flow that the facts do not settle splits the trace (trace
   partitioning); all partitions are enumerated depth first.
"""
import ast
import os
import sys
import warnings

sys.setrecursionlimit(20000)
warnings.simplefilter('ignore')


class BStr(str):
    """A Python 2 byte string constant (plain ``str`` stands for unicode)."""
    __slots__ = ()

    def __repr__(self):
        return 'b' + str.__repr__(self)


class Unsupported(Exception):
    """The analysis cannot follow this construct: the trace is undecided."""


class Cut(Exception):
    """The trace left the explored bound (recursion, steps, infeasible)."""


class Blocked(Cut):
    """The thread simulated at this point would wait for another."""


class Diverges(Cut):
    """A loop or recursion that keeps going while every test on its way is already decided."""


class Infeasible(Cut):
    pass


class PyRaise(Exception):
    """An exception of the analysed program."""

    def __init__(self, exc, site=None):
        Exception.__init__(self)
        self.exc = exc
        self.site = site


ALLKINDS = frozenset(['none', 'bool', 'int', 'float', 'text', 'bytes', 'list',
                      'tuple', 'dict', 'set', 'date', 'time', 'datetime',
                      'decimal', 'callable', 'object'])
NUMK = frozenset(['bool', 'int', 'float', 'decimal'])
STRK = frozenset(['text', 'bytes'])


class Sym(object):
    """An unknown value.  Identity is the term."""
    __slots__ = ('term', 'kinds0', 'name', 'attrs', 'meta')

    def __init__(self, term, kinds, name=None, meta=None):
        self.term = term
        self.kinds0 = frozenset(kinds)
        self.name = name
        self.attrs = None
        self.meta = meta

    def __repr__(self):
        return show_term(self.term)


def show_term(t):
    if isinstance(t, tuple):
        if t and t[0] == 'sym':
            return '<%s>' % (t[1],)
        if t and t[0] == 'lin':
            return '+'.join(['%s*%s' % (c, show_term(s)) for s, c in t[1]] +
                            [str(t[2])])
        if t and isinstance(t[0], str):
            return '%s(%s)' % (t[0], ', '.join(show_term(x) for x in t[1:]))
        return '(%s)' % ', '.join(show_term(x) for x in t)
    return repr(t)


class Inst(object):
    __slots__ = ('cls', 'attrs', 'p', 'epoch', 'tag', '__weakref__')
    ctr = 0

    def __init__(self, cls, p=None):
        self.cls = cls
        self.attrs = {}
        self.p = p
        self.epoch = -1
        self.tag = None

    def __repr__(self):
        if isinstance(self.p, list):
            if self.cls.name == 'list':
                return '[%s]' % ', '.join(map(repr, self.p))
            return '<%s [%s]>' % (self.cls.name, ', '.join(map(repr, self.p[:4])))
        if isinstance(self.p, PDict) and self.cls.name == 'dict':
            return '{%s}' % ', '.join('%r: %r' % kv for kv in self.p.items())
        if self.cls.is_exc:
            return '%s%r' % (self.cls.name, self.attrs.get('args', ()))
        if self.tag:
            return '<%s %s>' % (self.cls.name, self.tag)
        return '<%s obj>' % (self.cls.name,)


class ClassObj(Inst):
    __slots__ = ('name', 'bases', 'mro', 'builtin', 'module', 'is_exc', 'node')

    def __init__(self, meta, name, bases, attrs, builtin=False):
        Inst.__init__(self, meta)
        self.name = name
        self.bases = tuple(bases)
        self.attrs = attrs
        self.builtin = builtin
        self.module = None
        self.node = None
        self.mro = c3(self)
        self.is_exc = any(c.builtin and c.name == 'BaseException'
                          for c in self.mro)

    def __repr__(self):
        return '<class %s>' % self.name

    def lookup(self, name):
        for c in self.mro:
            if name in c.attrs:
                return c.attrs[name], c
        return None, None


def c3(cls):
    def merge(seqs):
        res = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported('inconsistent MRO')
            res.append(c)
            seqs = [[x for x in s if x is not c] for s in seqs]
            seqs = [s for s in seqs if s]
        return res
    return [cls] + merge([b.mro for b in cls.bases] + [list(cls.bases)])


class FuncObj(Inst):
    __slots__ = ('name', 'node', 'mod', 'env', 'defaults', 'kwdefaults',
                 'scope', 'is_gen', 'owner')

    def __init__(self, fcls, name, node, mod, env, defaults, scope):
        Inst.__init__(self, fcls)
        self.name = name
        self.node = node
        self.mod = mod
        self.env = env
        self.defaults = defaults
        self.scope = scope
        self.is_gen = scope.is_gen
        self.owner = None

    @property
    def site(self):
        return '%s:%d' % (self.mod.relpath, self.node.lineno)

    def __repr__(self):
        return '<function %s>' % self.name


class BFn(object):
    """A modelled builtin: fn(I, args, kw)."""
    __slots__ = ('name', 'fn', 'method', 'attrs', 'ident')

    def __init__(self, name, fn, method=False):
        self.name = name
        self.fn = fn
        self.method = method
        self.attrs = None

    def __repr__(self):
        return '<builtin %s>' % self.name


class Bound(object):
    __slots__ = ('fn', 'self')

    def __init__(self, fn, self_):
        self.fn = fn
        self.self = self_

    def __repr__(self):
        return '<bound %r of %r>' % (self.fn, self.self)


class Prop(object):
    __slots__ = ('fget', 'fset', 'fdel', 'doc')

    def __init__(self, fget=None, fset=None, fdel=None, doc=None):
        self.fget, self.fset, self.fdel, self.doc = fget, fset, fdel, doc


class StaticM(object):
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class ClassM(object):
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class SuperObj(object):
    __slots__ = ('cls', 'obj', 'objcls')

    def __init__(self, cls, obj, objcls):
        self.cls, self.obj, self.objcls = cls, obj, objcls


class IterObj(object):
    """A host iterator over abstract values (list iterators, generators...)."""
    __slots__ = ('it', 'name', 'done', 'fr')

    def __init__(self, it, name='iterator', fr=None):
        self.it = it
        self.fr = fr        # the frame of a generator function, where values sent and thrown in are left
        self.name = name
        self.done = False

    def __repr__(self):
        return '<%s>' % self.name


class SliceV(object):
    __slots__ = ('start', 'stop', 'step')

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __repr__(self):
        return 'slice(%r, %r, %r)' % (self.start, self.stop, self.step)


class NotImpl(object):
    def __repr__(self):
        return 'NotImplemented'


NOTIMPL = NotImpl()


class PDict(object):
    """Insertion-ordered dict payload keyed by abstract values."""

    def __init__(self):
        self.d = {}       # hkey -> (key, value)
        self.syms = 0     # number of Sym keys

    def copy(self):
        n = PDict()
        n.d = dict(self.d)
        n.syms = self.syms
        return n

    def find(self, I, key):
        key = I.R(key)
        hk = I.hkey(key)
        if hk in self.d:
            return hk
        if hk[0] == 's' or self.syms:
            for k2, (kk, vv) in list(self.d.items()):
                if hk[0] != 's' and k2[0] != 's':
                    continue
                if I.eq(key, kk):
                    return k2
        return None

    def get(self, I, key):
        hk = self.find(I, key)
        return None if hk is None else self.d[hk]

    def set(self, I, key, value):
        key = I.R(key)
        hk = self.find(I, key)
        if hk is None:
            hk = I.hkey(key)
            if hk[0] == 's':
                self.syms += 1
            self.d[hk] = (key, value)
        else:
            self.d[hk] = (self.d[hk][0], value)

    def delete(self, I, key):
        hk = self.find(I, key)
        if hk is None:
            return None
        e = self.d.pop(hk)
        if hk[0] == 's':
            self.syms -= 1
        return e

    def clear(self):
        self.d.clear()
        self.syms = 0

    def keys(self):
        return [k for k, v in self.d.values()]

    def values(self):
        return [v for k, v in self.d.values()]

    def items(self):
        return list(self.d.values())

    def __len__(self):
        return len(self.d)


class AttrDict(PDict):
    """View of an attribute dict as a dict payload."""

    def __init__(self, store):
        self.store = store
        self.syms = 0

    @property
    def d(self):
        return dict((('c', k), (BStr(k), v)) for k, v in self.store.items())

    def copy(self):
        n = PDict()
        n.d = self.d
        return n

    def find(self, I, key):
        key = I.R(key)
        if isinstance(key, Sym):
            for k in self.store:
                if I.eq(key, BStr(k)):
                    return ('c', k)
            return None
        if isinstance(key, str) and key in self.store:
            return ('c', str(key))
        return None

    def get(self, I, key):
        hk = self.find(I, key)
        return None if hk is None else (BStr(hk[1]), self.store[hk[1]])

    def set(self, I, key, value):
        key = I.R(key)
        hk = self.find(I, key)
        if hk is None:
            if not isinstance(key, str):
                raise Unsupported('symbolic attribute name')
            self.store[str(key)] = value
        else:
            self.store[hk[1]] = value

    def delete(self, I, key):
        hk = self.find(I, key)
        if hk is None:
            return None
        return (BStr(hk[1]), self.store.pop(hk[1]))

    def clear(self):
        self.store.clear()


class Scope(object):
    """Static scoping facts of one function body."""

    def __init__(self, node, is_class=False):
        self.locals = set()
        self.globals = set()
        self.is_gen = False
        self.is_class = is_class
        if isinstance(node, (ast.FunctionDef, ast.Lambda)):
            a = node.args
            for x in list(getattr(a, 'posonlyargs', [])) + a.args + a.kwonlyargs:
                self.locals.add(x.arg)
            if a.vararg:
                self.locals.add(a.vararg.arg)
            if a.kwarg:
                self.locals.add(a.kwarg.arg)
        body = node.body if isinstance(node.body, list) else [node.body]
        for s in body:
            self.visit(s)
        self.locals -= self.globals

    def visit(self, n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            self.locals.add(n.name)
            for d in n.decorator_list:
                self.visit(d)
            return
        if isinstance(n, (ast.Lambda, ast.GeneratorExp)):
            if isinstance(n, ast.GeneratorExp):
                self.visit(n.generators[0].iter)
            return
        if isinstance(n, (ast.SetComp, ast.DictComp)):
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            self.globals.update(n.names)
        elif isinstance(n, ast.Name):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                self.locals.add(n.id)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            self.is_gen = True
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                self.locals.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                self.locals.add(n.name)
        for c in ast.iter_child_nodes(n):
            self.visit(c)


class Module(object):
    """A parsed source module of the analysed package."""

    def __init__(self, name, path, relpath, tree):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.tree = tree
        self.obj = None       # abstract module object
        self.ns = {}


PY2_BUILTINS = frozenset('''
abs all any apply basestring bin bool buffer bytearray bytes callable chr classmethod cmp coerce compile
complex copyright credits delattr dict dir divmod enumerate eval execfile exit file filter float format
frozenset getattr globals hasattr hash help hex id input int intern isinstance issubclass iter len license
list locals long map max memoryview min next object oct open ord pow print property quit range raw_input
reduce reload repr reversed round set setattr slice sorted staticmethod str sum super tuple type unichr
unicode vars xrange zip ArithmeticError AssertionError AttributeError BaseException BufferError BytesWarning
DeprecationWarning EOFError EnvironmentError Exception FloatingPointError FutureWarning GeneratorExit IOError
ImportError ImportWarning IndentationError IndexError KeyError KeyboardInterrupt LookupError MemoryError
NameError NotImplementedError OSError OverflowError PendingDeprecationWarning ReferenceError RuntimeError
RuntimeWarning StandardError StopIteration SyntaxError SyntaxWarning SystemError SystemExit TabError TypeError
UnboundLocalError UnicodeDecodeError UnicodeEncodeError UnicodeError UnicodeTranslateError UnicodeWarning
UserWarning ValueError Warning ZeroDivisionError NotImplemented Ellipsis __import__ __debug__
'''.split())


class Frame(object):
    __slots__ = ('func', 'mod', 'locals', 'parent', 'scope', 'exc', 'cls', 'sent', 'started')

    def __init__(self, func, mod, parent, scope):
        self.func = func
        self.mod = mod
        self.locals = {}
        self.parent = parent
        self.scope = scope
        self.exc = None
        self.cls = None
        self.sent = None
        self.started = False


class Run(object):
    """One trace partition."""

    def __init__(self, decisions):
        self.decisions = decisions      # [(index, n, label, site)]
        self.lockhook = None
        self.thread = 0
        self.pos = 0
        self.bind = {}
        self.kinds = {}
        self.truth = {}
        self.neq = set()
        self.iv = {}
        self.rel = {}
        self.bools = {}
        self.terms = {}
        self.events = []
        self.trail = []
        self.steps = 0
        self.ctr = 0
        self.lens = {}
        self.notes = []


# statement completion signals
class _Sig(object):
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


BREAK, CONTINUE = _Sig('break'), _Sig('continue')


class ReturnSig(object):
    __slots__ = ('value',)

    def __init__(self, value):
        self.value = value


INF = float('inf')
KLIMIT = 2


class Interp(object):
    MAXDEPTH = 90

    def __init__(self, root='/repo', package='flatland'):
        self.root = root
        self.package = package
        self.sources = {}
        self.more_run = None
        self.run = Run([])
        self.importing = True
        self.epoch = 0
        self.stack = []
        self.depth = 0
        self.functions_seen = set()
        self.klimit = KLIMIT
        self.maxsteps = 400000
        self.enterpos = {}
        self.calls_seen = {}
        from . import lib
        self.lib = lib
        lib.install(self)

    # -- sources ---------------------------------------------------------
    def load_source(self, name):
        if name in self.sources:
            return self.sources[name]
        base = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(base) and os.path.exists(base + '/__init__.py'):
            path = base + '/__init__.py'
        elif os.path.exists(base + '.py'):
            path = base + '.py'
        else:
            base = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs', *name.split('.'))
            if os.path.exists(base + '/__init__.py'):
                path = base + '/__init__.py'
            elif os.path.exists(base + '.py'):
                path = base + '.py'
            else:
                return None
        from . import loader
        tree = loader.parse(path)
        m = Module(name, path, os.path.relpath(path, self.root), tree)
        m.is_pkg = path.endswith('__init__.py')
        self.sources[name] = m
        return m

    # -- choice / facts ----------------------------------------------------
    def site(self):
        if not self.stack:
            return '?'
        fr, node = self.stack[-1]
        return '%s:%s' % (fr.mod.relpath if fr.mod else '?',
                          getattr(node, 'lineno', '?'))

    def where(self):
        out = []
        for fr, node in self.stack:
            if fr.mod is None:
                continue
            fn = fr.func.name if fr.func is not None else '<module>'
            out.append('%s:%s in %s' % (fr.mod.relpath,
                                        getattr(node, 'lineno', '?'), fn))
        return out

    def choose(self, n, label=''):
        if self.importing:
            raise Unsupported('choice while importing: %s at %s'
                              % (label, self.site()))
        if n == 1:
            return 0
        if n == 0:
            raise Infeasible()
        r = self.run
        if r.pos < len(r.decisions):
            d = r.decisions[r.pos]
            if d[1] != n:
                raise RuntimeError('nondeterministic replay %r %r %r' %
                                   (d, n, label))
            r.pos += 1
            return d[0]
        if len(r.decisions) > 400:
            raise Cut('too many choices')
        r.decisions.append([0, n, label, self.site()])
        r.pos += 1
        return 0

    def chooseof(self, opts, label=''):
        opts = list(opts)
        return opts[self.choose(len(opts), label)]

    def R(self, v):
        while isinstance(v, Sym):
            n = self.run.bind.get(v)
            if n is None and v not in self.run.bind:
                return v
            v = n
        return v

    def sym(self, name, kinds, meta=None):
        return self.mk(('sym', name), kinds, name, meta)

    def mk(self, term, kinds, name=None, meta=None):
        s = self.run.terms.get(term)
        if s is None:
            s = Sym(term, [kinds] if isinstance(kinds, str) else kinds, name, meta)
            self.run.terms[term] = s
            self.run.kinds[s] = s.kinds0
            if len(s.kinds0) == 1:
                self._settle(s)
        return s

    def fresh(self, name, kinds, meta=None):
        self.run.ctr += 1
        return self.sym('%s#%d' % (name, self.run.ctr), kinds, meta)

    def tkey(self, v):
        """Hashable structural key of a value, for use inside terms."""
        v = self.R(v)
        if isinstance(v, Sym):
            return v.term
        if isinstance(v, BStr):
            return ('b', str(v))
        if isinstance(v, bool):
            return ('bool', v)
        if v is None or isinstance(v, (int, float, str)):
            return v
        if isinstance(v, tuple):
            return ('tuple',) + tuple(self.tkey(x) for x in v)
        return ('id', id(v))

    def app(self, op, *args, **kw):
        kinds = kw['kinds']
        return self.mk((op,) + tuple(self.tkey(a) for a in args), kinds,
                       meta=args)

    def kinds(self, s):
        return self.run.kinds[s]

    def _settle(self, s):
        k = self.run.kinds[s]
        if k == frozenset(['none']):
            self.run.bind[s] = None
        elif len(k) == 1:
            kk = next(iter(k))
            if kk in ('list', 'tuple', 'dict', 'set') and s.meta != 'nomat':
                self.materialise(s, kk)

    def setkinds(self, s, ks):
        ks = frozenset(ks)
        if not ks:
            raise Infeasible()
        t = self.run.truth.get(s)
        if t is True:
            ks = ks - frozenset(['none'])
        elif t is False:
            ks = ks - frozenset(['callable', 'date', 'datetime'])
        if not ks:
            raise Infeasible()
        self.run.kinds[s] = ks
        if len(ks) == 1:
            self._settle(s)
            t2 = t
            if t2 is False and s not in self.run.bind:
                k = next(iter(ks))
                z = {'bool': False, 'int': 0, 'text': u'', 'bytes': BStr(''),
                     'float': 0.0}.get(k, Ellipsis)
                if z is not Ellipsis:
                    self.run.bind[s] = z
            elif t2 is True and ks == frozenset(['bool']):
                self.run.bind[s] = True

    def materialise(self, s, kind):
        t = self.run.truth.get(s)
        lo = 1 if t is True else 0
        hi = 0 if t is False else self.klimit
        n = lo + self.choose(hi - lo + 1, 'len(%r)' % s)
        nm = s.name or show_term(s.term)
        ik = s.meta if isinstance(s.meta, (frozenset, set)) else ALLKINDS_SCALAR
        if kind == 'dict':
            d = self.new_dict()
            for i in range(n):
                k = self.sym('%s.key%d' % (nm, i), ['text'])
                for kk in d.p.keys():
                    self.add_neq(k, kk)
                v = self.sym('%s.val%d' % (nm, i), ik)
                d.p.set(self, k, v)
            self.run.bind[s] = d
        else:
            items = [self.sym('%s[%d]' % (nm, i), ik) for i in range(n)]
            if kind == 'tuple':
                self.run.bind[s] = tuple(items)
            elif kind == 'set':
                for i, a in enumerate(items):
                    for b in items[:i]:
                        self.add_neq(a, b)
                self.run.bind[s] = self.new_set(items)
            else:
                self.run.bind[s] = self.new_list(items)

    def add_neq(self, a, b):
        self.run.neq.add((self.tkey(a), self.tkey(b)))
        self.run.neq.add((self.tkey(b), self.tkey(a)))

    def kind1(self, s, label='kind'):
        """Split until the symbol has a single kind; returns it."""
        s = self.R(s)
        if not isinstance(s, Sym):
            return None
        ks = sorted(self.run.kinds[s])
        if len(ks) > 1:
            k = ks[self.choose(len(ks), '%r is a' % s)]
            self.setkinds(s, [k])
            return k
        return ks[0]

    def split_kinds(self, s, inside, label):
        """Decide whether the kind of s lies in `inside`."""
        ks = self.run.kinds[s]
        a, b = ks & inside, ks - inside
        if not b:
            return True
        if not a:
            return False
        if self.choose(2, label) == 0:
            self.setkinds(s, a)
            return True
        self.setkinds(s, b)
        return False

    def decide(self, term, label=None):
        """A memoised opaque boolean."""
        b = self.run.bools.get(term)
        if b is None:
            b = self.choose(2, label or show_term(term)) == 0
            self.run.bools[term] = b
        return b

    # -- truth -------------------------------------------------------------
    def truth(self, v):
        v = self.R(v)
        if isinstance(v, Sym):
            return self.sym_truth(v)
        if v is None or isinstance(v, (bool, int, float, str, complex)):
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, (FuncObj, ClassObj)):
            if isinstance(v, ClassObj):
                f, c = v.cls.lookup('__nonzero__')
                if f is not None:
                    return self.truth(self.call(f, [v]))
            return True
        if isinstance(v, Inst):
            for nm in ('__nonzero__', '__len__'):
                f, c = v.cls.lookup(nm)
                if f is not None:
                    if isinstance(f, BFn):
                        break
                    r = self.call(self.bind_attr(f, v, v.cls), [])
                    return self.truth(r)
            if isinstance(v.p, (list, PDict)):
                return len(v.p) > 0
            if isinstance(v.p, (int, float, str, bool)):
                return bool(v.p)
            if isinstance(v.p, Sym):
                return self.truth(v.p)
            if f is not None:
                return self.truth(self.call(self.bind_attr(f, v, v.cls), []))
            return True
        return True

    def sym_truth(self, s):
        r = self.run
        t = r.truth.get(s)
        if t is not None:
            return t
        ks = r.kinds[s]
        alw_t = frozenset(['callable', 'date', 'datetime', 'object'])
        if s.meta == 'opaque-truth':
            alw_t = alw_t - frozenset(['object'])
        if ks <= alw_t:
            return True
        if 'list' in ks or 'dict' in ks or 'tuple' in ks or 'set' in ks:
            pass
        if s.term[0] == 'lin' and ks <= frozenset(['int', 'bool']):
            return not self.numcmp(s, 0, frozenset(['eq']))
        lo, hi = r.iv.get(s, (-INF, INF))
        if ks <= NUMK:
            if lo > 0 or hi < 0:
                return True
        ln = r.terms.get(('len', s.term))
        if ln is not None:
            l2 = self.R(ln)
            if not isinstance(l2, Sym):
                return bool(l2)
            if r.iv.get(l2, (0, INF))[0] > 0:
                return True
        if (s.term, u'') in r.neq and ks <= STRK:
            r.truth[s] = True
            return True
        t = self.choose(2, 'bool(%r)' % s) == 0
        r.truth[s] = t
        if t:
            if ln is not None:
                l, h = r.iv.get(ln, (0, INF))
                r.iv[ln] = (max(l, 1), h)
            if 'none' in ks:
                self.setkinds(s, ks - frozenset(['none']))
            elif ks == frozenset(['bool']):
                r.bind[s] = True
        else:
            if ln is not None and isinstance(self.R(ln), Sym):
                r.bind[ln] = 0
            self.setkinds(s, ks - alw_t)
        return t

    # -- equality ------------------------------------------------------------
    def hkey(self, v):
        v = self.R(v)
        if isinstance(v, Sym):
            return ('s', v.term)
        if v is None:
            return ('n',)
        if isinstance(v, str):
            return ('c', str(v))
        if isinstance(v, (int, float)):
            return ('c', v)
        if isinstance(v, tuple):
            ks = tuple(self.hkey(x) for x in v)
            if any(k[0] == 's' for k in ks):
                return ('s', ks)
            return ('t', ks)
        if isinstance(v, Bound):
            return ('m', id(v.fn), id(v.self))
        if isinstance(v, Inst) and not isinstance(v, (ClassObj, FuncObj)):
            f, c = v.cls.lookup('__hash__')
            if f is not None and not (isinstance(f, BFn)):
                h = self.call(self.bind_attr(f, v, v.cls), [])
                return ('h', id(v))
            if isinstance(v.p, (int, str)):
                return ('c', v.p)
            if isinstance(v.p, (list, PDict)) and f is None:
                self.throw('TypeError', u'unhashable type: %s' % v.cls.name)
            if isinstance(v.p, list) and v.cls.name == 'frozenset':
                return ('fs', frozenset(self.hkey(x) for x in v.p))
        return ('o', id(v))

    def eq(self, a, b):
        a, b = self.R(a), self.R(b)
        if a is b:
            return True
        if isinstance(a, Sym) or isinstance(b, Sym):
            return self.sym_eq(a, b)
        ca = a is None or isinstance(a, (bool, int, float, str))
        cb = b is None or isinstance(b, (bool, int, float, str))
        if ca and cb:
            if isinstance(a, str) and isinstance(b, str) and \
                    isinstance(a, BStr) != isinstance(b, BStr):
                if not (a.isascii() and b.isascii()):
                    return False
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(
                self.eq(x, y) for x, y in zip(a, b))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Inst) and not isinstance(x, (ClassObj, FuncObj)):
                f, c = x.cls.lookup('__eq__')
                if f is not None and not isinstance(f, BFn):
                    r = self.call(self.bind_attr(f, x, x.cls), [y])
                    if r is NOTIMPL:
                        continue
                    return self.truth(r)
        if isinstance(a, Bound) and isinstance(b, Bound):
            return a.fn is b.fn and a.self is b.self
        if isinstance(a, Inst) and isinstance(b, Inst):
            pa, pb = a.p, b.p
            if isinstance(pa, list) and isinstance(pb, list):
                sa, sb = self.is_setlike(a), self.is_setlike(b)
                if sa != sb:
                    return False
                if sa:
                    return len(pa) == len(pb) and all(
                        any(self.eq(x, y) for y in pb) for x in pa)
                return len(pa) == len(pb) and all(
                    self.eq(x, y) for x, y in zip(list(pa), list(pb)))
            if isinstance(pa, PDict) and isinstance(pb, PDict):
                if len(pa) != len(pb):
                    return False
                for k, v in pa.items():
                    e = pb.get(self, k)
                    if e is None or not self.eq(v, e[1]):
                        return False
                return True
        pa = a.p if isinstance(a, Inst) and isinstance(a.p, (int, float, str, tuple, Sym)) else a
        pb = b.p if isinstance(b, Inst) and isinstance(b.p, (int, float, str, tuple, Sym)) else b
        if (pa is not a or pb is not b) and not isinstance(pa, Inst) \
                and not isinstance(pb, Inst):
            return self.eq(pa, pb)
        return False

    def is_setlike(self, a):
        return any(c.builtin and c.name in ('set', 'frozenset')
                   for c in a.cls.mro)

    def const_kinds(self, c):
        if c is None:
            return frozenset(['none'])
        if isinstance(c, (bool, int, float)):
            return NUMK
        if isinstance(c, str):
            return STRK
        if isinstance(c, tuple):
            return frozenset(['tuple'])
        if isinstance(c, Inst):
            if isinstance(c.p, list):
                return frozenset(['set' if self.is_setlike(c) else 'list'])
            if isinstance(c.p, PDict):
                return frozenset(['dict'])
            if isinstance(c.p, (int, bool)):
                return NUMK
            if isinstance(c, FuncObj):
                return frozenset(['callable'])
            return frozenset(['object'])
        if isinstance(c, (Bound, BFn)):
            return frozenset(['callable'])
        return frozenset(['object'])

    def congruent(self, ka, kb):
        """Are two terms known equal, by equal arguments of one operation?"""
        if ka == kb:
            return True
        r = self.run
        if r.bools.get(('==', ka, kb)) or r.rel.get((ka, kb)) == frozenset(['eq']):
            return True
        if not (isinstance(ka, tuple) and isinstance(kb, tuple)) or len(ka) != len(kb) or len(ka) < 2 or ka[0] != kb[0]:
            return False
        if ka[0] in ('sym', 'id', 'fresh', 'b', 'bool'):
            return False
        return all(self.congruent(x, y) for x, y in zip(ka[1:], kb[1:]))

    def sym_eq(self, a, b):
        r = self.run
        if not isinstance(a, Sym):
            a, b = b, a
        ka, kb = self.tkey(a), self.tkey(b)
        if (ka, kb) in r.neq:
            return False
        memo = r.bools.get(('==', ka, kb))
        if memo is not None:
            return memo
        if isinstance(b, Sym):
            if ka[0] == kb[0] and self.congruent(ka, kb):
                return True
            A, B = r.kinds[a], r.kinds[b]
            if A <= NUMK and B <= NUMK:
                res = self.numcmp(a, b, frozenset(['eq']))
                if res:
                    r.bools[('==', ka, kb)] = True
                    r.bools[('==', kb, ka)] = True
                return res
            common = A & B
            if A & NUMK and B & NUMK:
                common = common | NUMK
            if A & STRK and B & STRK:
                common = common | STRK
            if not common:
                return False
            rel = r.rel.get((ka, kb))
            if rel is not None:
                if rel == frozenset(['eq']):
                    return True
                if 'eq' not in rel:
                    return False
            if self.choose(2, '%r == %r' % (a, b)) == 0:
                if (A & B):
                    self.setkinds(a, A & common)
                    self.setkinds(b, B & common)
                    a2, b2 = self.R(a), self.R(b)
                    ta, tb = r.truth.get(a), r.truth.get(b)
                    if ta is not None and tb is not None and ta != tb:
                        raise Infeasible()
                    if isinstance(a2, Sym) and isinstance(b2, Sym):
                        # keep distinct identities, but remember equality
                        r.bools[('==', ka, kb)] = True
                        r.bools[('==', kb, ka)] = True
                        if ta is None and tb is not None:
                            r.truth[a] = tb
                        if tb is None and ta is not None:
                            r.truth[b] = ta
                        if ta is None and tb is None and A <= STRK:
                            pass
                        return True
                    return True
                r.bools[('==', ka, kb)] = True
                r.bools[('==', kb, ka)] = True
                return True
            self.add_neq(a, b)
            return False
        # symbol against a constant / object
        if a.meta == 'nomat' or isinstance(b, (tuple, Inst)):
            if isinstance(b, Inst):
                f, c = b.cls.lookup('__eq__')
                if f is not None and not isinstance(f, BFn):
                    res = self.truth(self.call(self.bind_attr(f, b, b.cls), [a]))
                    r.bools[('==', ka, kb)] = res
                    return res
        ck = self.const_kinds(b)
        ks = r.kinds[a]
        if not (ks & ck):
            return False
        if isinstance(b, (bool, int, float)) and ks <= NUMK:
            return self.numcmp(a, b, frozenset(['eq']))
        t = r.truth.get(a)
        if isinstance(b, (int, float, str)) or b is None:
            if t is not None and t != bool(b):
                return False
        if b is None:
            return self.split_kinds(a, frozenset(['none']), '%r == None' % a)
        if isinstance(b, str):
            for op in ('lower', 'upper', 'strip'):
                if a.term[0] == op and getattr(str(b), op)() != str(b):
                    return False
            if a.term[0] == 'concat':
                cs = [x for x in a.term[1:] if isinstance(x, str)]
                if not self.concat_may_equal(a, str(b)):
                    return False
        if isinstance(b, (tuple, Inst)) and (ks & ck) & frozenset(
                ['list', 'tuple', 'dict', 'set']):
            if not self.split_kinds(a, ck, '%r kind' % a):
                return False
            a2 = self.R(a)
            if not isinstance(a2, Sym):
                return self.eq(a2, b)
        if self.choose(2, '%r == %r' % (a, b)) == 0:
            if isinstance(b, str):
                self.setkinds(a, ks & ck)
                k = self.kind1(a)
                a2 = self.R(a)
                if isinstance(a2, Sym):
                    r.bind[a] = BStr(b) if k == 'bytes' else str(b)
                elif not self.eq(a2, b):
                    raise Infeasible()
            elif isinstance(b, (int, float)):
                r.bind[a] = b
            else:
                r.bools[('==', ka, kb)] = True
                self.setkinds(a, ks & ck)
            return True
        self.add_neq(a, b)
        return False

    def concat_may_equal(self, a, const):
        parts = a.term[1:]
        pos = 0
        if parts and isinstance(parts[0], str) and \
                not const.startswith(parts[0]):
            return False
        if parts and isinstance(parts[-1], str) and \
                not const.endswith(parts[-1]):
            return False
        return sum(len(x) for x in parts if isinstance(x, str)) <= len(const)

    # -- ordering --------------------------------------------------------------
    def lin(self, v):
        v = self.R(v)
        if isinstance(v, Inst) and isinstance(v.p, int):
            v = v.p
        if isinstance(v, (bool, int, float)):
            return {}, v
        if isinstance(v, Sym):
            if v.term[0] == 'lin':
                out, c = {}, v.term[2]
                for st, k in v.term[1]:
                    s = self.R(self.run.terms[st])
                    if isinstance(s, Sym):
                        out[s] = out.get(s, 0) + k
                    else:
                        c += k * s
                return out, c
            return {v: 1}, 0
        return None

    def mklin(self, coeffs, const):
        coeffs = dict((s, k) for s, k in coeffs.items() if k)
        if not coeffs:
            return const
        if const == 0 and len(coeffs) == 1:
            (s, k), = coeffs.items()
            if k == 1:
                return s
        kk = frozenset(['int'])
        if any(self.run.kinds[s] - frozenset(['int', 'bool']) for s in coeffs):
            kk = frozenset().union(*[self.run.kinds[s] for s in coeffs])
        t = ('lin', tuple(sorted(((s.term, k) for s, k in coeffs.items()),
                                 key=repr)), const)
        return self.mk(t, kk)

    def lin_range(self, coeffs, const):
        """Interval of a linear form."""
        lo = hi = const
        for s, k in coeffs.items():
            a, b = self.run.iv.get(s, (0, 1) if self.run.kinds[s] == frozenset(['bool'])
                                   else (-INF, INF))
            lo += k * (a if k > 0 else b)
            hi += k * (b if k > 0 else a)
        return lo, hi

    def numcmp(self, a, b, want):
        """Decide whether rel(a, b) is in `want` (subset of lt/eq/gt)."""
        la, lb = self.lin(a), self.lin(b)
        if la is None or lb is None:
            raise Unsupported('ordering of %r and %r' % (a, b))
        co = dict(la[0])
        for s, k in lb[0].items():
            co[s] = co.get(s, 0) - k
        co = dict((s, k) for s, k in co.items() if k)
        c = la[1] - lb[1]
        if not co:
            rel = 'lt' if c < 0 else 'gt' if c > 0 else 'eq'
            return rel in want
        r = self.run
        if len(co) == 1:
            (s, k), = co.items()
            x = -c / k
            integral = r.kinds[s] <= frozenset(['int', 'bool'])
            if x == int(x) if abs(x) != INF else False:
                x = int(x)
            lo, hi = r.iv.get(s, (0, 1) if r.kinds[s] == frozenset(['bool'])
                              else (-INF, INF))
            rels = set()
            if lo < x:
                rels.add('lt')
            if hi > x:
                rels.add('gt')
            if lo <= x <= hi and (s.term, x) not in r.neq and not (
                    integral and x != int(x)):
                rels.add('eq')
            t = r.truth.get(s)
            if t is True and x == 0:
                rels.discard('eq')
            if k < 0:
                want = frozenset({'lt': 'gt', 'gt': 'lt', 'eq': 'eq'}[w]
                                 for w in want)
            ins, outs = rels & want, rels - want
            if not ins and not outs:
                raise Infeasible()
            if not outs:
                res = True
            elif not ins:
                res = False
            else:
                res = self.choose(2, '%r %s %r' % (s, '/'.join(sorted(want)), x)) == 0
            keep = ins if res else outs
            if keep == {'eq'}:
                r.bind[s] = x
            else:
                import math
                if 'lt' not in keep:
                    lo = max(lo, x)
                    if 'eq' not in keep and integral:
                        lo = max(lo, math.floor(x) + 1)
                if 'gt' not in keep:
                    hi = min(hi, x)
                    if 'eq' not in keep and integral:
                        hi = min(hi, math.ceil(x) - 1)
                if 'eq' not in keep:
                    r.neq.add((s.term, x))
                    r.neq.add((x, s.term))
                if lo > hi:
                    raise Infeasible()
                if lo == hi and integral:
                    r.bind[s] = lo
                else:
                    r.iv[s] = (lo, hi)
            return res
        # several symbols: memo on the normalised difference
        lo, hi = self.lin_range(co, c)
        rels = frozenset((['lt'] if lo < 0 else []) + (['gt'] if hi > 0 else [])
                         + (['eq'] if lo <= 0 <= hi else []))
        if rels and rels <= want:
            return True
        if not rels & want:
            return False
        items = sorted(co.items(), key=lambda sk: repr(sk[0].term))
        neg = items[0][1] < 0
        if neg:
            items = [(s, -k) for s, k in items]
            c = -c
            want = frozenset({'lt': 'gt', 'gt': 'lt', 'eq': 'eq'}[w]
                             for w in want)
        key = ('d', tuple((s.term, k) for s, k in items), c)
        return self.relmemo(key, want, ' '.join('%+d*%r' % (k, s) for s, k in items) + ' %+g' % c)

    def relmemo(self, key, want, label):
        r = self.run
        rels = r.rel.get(key, frozenset(['lt', 'eq', 'gt']))
        ins, outs = rels & want, rels - want
        if not outs:
            return True
        if not ins:
            return False
        res = self.choose(2, '%s %s' % (label, '/'.join(sorted(want)))) == 0
        r.rel[key] = ins if res else outs
        return res

    FLIP = {'lt': 'gt', 'gt': 'lt', 'eq': 'eq'}

    def order(self, a, b, want):
        """Decide a <op> b where want is a subset of {lt, eq, gt}."""
        a, b = self.R(a), self.R(b)
        want = frozenset(want)
        for x in (a, b):
            if isinstance(x, Sym) and len(self.run.kinds[x]) > 1 and not (
                    self.run.kinds[x] <= NUMK):
                self.kind1(x)
        a, b = self.R(a), self.R(b)
        if isinstance(a, Inst) and isinstance(a.p, (int, str)):
            a = a.p
        if isinstance(b, Inst) and isinstance(b.p, (int, str)):
            b = b.p
        na = isinstance(a, (int, float)) or (isinstance(a, Sym) and self.run.kinds[a] <= NUMK)
        nb = isinstance(b, (int, float)) or (isinstance(b, Sym) and self.run.kinds[b] <= NUMK)
        if na and nb:
            return self.numcmp(a, b, want)
        if isinstance(a, str) and isinstance(b, str):
            rel = 'lt' if a < b else 'gt' if a > b else 'eq'
            return rel in want
        if isinstance(a, tuple) and isinstance(b, tuple):
            for x, y in zip(a, b):
                if not self.eq(x, y):
                    return self.order(x, y, want)
            rel = 'lt' if len(a) < len(b) else 'gt' if len(a) > len(b) else 'eq'
            return rel in want
        # py2 mixed-type ordering: None < numbers < everything else
        def rank(x):
            if x is None:
                return 0
            if isinstance(x, (int, float)) or (isinstance(x, Sym) and self.run.kinds[x] <= NUMK):
                return 1
            return 2
        ra, rb = rank(a), rank(b)
        if ra != rb:
            return ('lt' if ra < rb else 'gt') in want
        if a is None:
            return 'eq' in want
        # opaque order (dates, texts, objects): total order relation memo
        ka, kb = self.tkey(a), self.tkey(b)
        if ka == kb:
            return 'eq' in want
        if repr(ka) > repr(kb):
            ka, kb = kb, ka
            want = frozenset(self.FLIP[w] for w in want)
        key = ('o', ka, kb)
        r = self.run
        if key not in r.rel:
            eqv = r.bools.get(('==', ka, kb))
            if eqv is True:
                r.rel[key] = frozenset(['eq'])
            elif (ka, kb) in r.neq:
                r.rel[key] = frozenset(['lt', 'gt'])
        res = self.relmemo(key, want, '%s ? %s' % (show_term(ka), show_term(kb)))
        rel = r.rel[key]
        r.rel[(ka, kb)] = rel
        r.rel[(kb, ka)] = frozenset(self.FLIP[w] for w in rel)
        return res

    # -- heap helpers ------------------------------------------------------------
    def mut(self, o):
        """Call before mutating an object: keeps import-time state intact."""
        if self.importing:
            return
        if o.epoch == -1 and not (o.epoch == self.epoch):
            if getattr(o, 'tag', None) == 'run':
                return
        if id(o) in self.imported and id(o) not in self.saved:
            self.saved.add(id(o))
            p = o.p
            if isinstance(p, list):
                p = list(p)
            elif isinstance(p, PDict) and not isinstance(p, AttrDict):
                p = p.copy()
            self.run.trail.append((o, o.attrs, dict(o.attrs), p))

    def rollback(self):
        for o, store, attrs, p in reversed(self.run.trail):
            store.clear()
            store.update(attrs)
            o.attrs = store
            o.p = p
        self.run.trail = []
        self.saved = set()

    def seal(self):
        """End of the import phase: everything reachable so far is restored
        after each trace."""
        import gc
        self.importing = False
        self.imported = {}
        for o in gc.get_objects():
            if isinstance(o, Inst):
                self.imported[id(o)] = o
        self.saved = set()

    def new_list(self, items=()):
        return Inst(self.T['list'], list(items))

    def new_dict(self, items=()):
        d = Inst(self.T['dict'], PDict())
        for k, v in items:
            d.p.set(self, k, v)
        return d

    def new_set(self, items=(), frozen=False):
        s = Inst(self.T['frozenset' if frozen else 'set'], [])
        for x in items:
            self.set_add(s, x)
        return s

    def set_add(self, s, x):
        x = self.R(x)
        self.hkey(x)
        for y in s.p:
            if self.eq(x, y):
                return
        self.mut(s)
        s.p.append(x)

    def exc(self, clsname, *args):
        cls = self.T[clsname] if isinstance(clsname, str) else clsname
        e = Inst(cls)
        e.attrs['args'] = tuple(args)
        return e

    def throw(self, clsname, *args):
        e = self.exc(clsname, *args)
        raise PyRaise(e, self.where())

    # -- classes -------------------------------------------------------------------
    def class_of(self, v):
        v = self.R(v)
        T = self.T
        if isinstance(v, Inst):
            return v.cls
        if v is None:
            return T['NoneType']
        if isinstance(v, bool):
            return T['bool']
        if isinstance(v, int):
            return T['int']
        if isinstance(v, float):
            return T['float']
        if isinstance(v, BStr):
            return T['str']
        if isinstance(v, str):
            return T['unicode']
        if isinstance(v, tuple):
            return T['tuple']
        if isinstance(v, Bound):
            return T['instancemethod']
        if isinstance(v, BFn):
            return T['builtin_function']
        if isinstance(v, Prop):
            return T['property']
        if isinstance(v, StaticM):
            return T['staticmethod']
        if isinstance(v, ClassM):
            return T['classmethod']
        if isinstance(v, SuperObj):
            return T['super']
        if isinstance(v, IterObj):
            return T['generator']
        if isinstance(v, SliceV):
            return T['slice']
        if v is NOTIMPL:
            return T['NotImplementedType']
        if v is Ellipsis:
            return T['ellipsis']
        if isinstance(v, Sym):
            k = self.kind1(v)
            v2 = self.R(v)
            if not isinstance(v2, Sym):
                return self.class_of(v2)
            return self.kind_class(v, k)
        raise Unsupported('class of %r' % (v,))

    KCLS = {'none': 'NoneType', 'bool': 'bool', 'int': 'int',
            'float': 'float', 'text': 'unicode', 'bytes': 'str',
            'list': 'list', 'tuple': 'tuple', 'dict': 'dict', 'set': 'set',
            'date': 'date', 'time': 'time', 'datetime': 'datetime',
            'decimal': 'Decimal', 'callable': 'function',
            'object': 'opaque'}

    def kind_class(self, s, k):
        if isinstance(s.meta, dict) and 'cls' in s.meta:
            return s.meta['cls']
        return self.T[self.KCLS[k]]

    def isinstance(self, v, cls):
        v = self.R(v)
        cls = self.R(cls)
        if isinstance(cls, tuple):
            # a single split over the union
            flat = []
            def fl(c):
                c = self.R(c)
                if isinstance(c, tuple):
                    for x in c:
                        fl(x)
                else:
                    flat.append(c)
            fl(cls)
            if isinstance(v, Sym):
                ins = frozenset(k for k in self.run.kinds[v] if any(
                    c in self.kind_class(v, k).mro for c in flat))
                return self.split_kinds(v, ins, 'isinstance(%r, %s)' % (
                    v, '/'.join(getattr(c, 'name', '?') for c in flat)))
            return any(self.isinstance(v, c) for c in flat)
        if not isinstance(cls, ClassObj):
            if isinstance(cls, Sym):
                raise Unsupported('isinstance of symbolic class')
            self.throw('TypeError', u'isinstance() arg 2 must be a class')
        if isinstance(v, Sym):
            ins = frozenset(k for k in self.run.kinds[v]
                            if cls in self.kind_class(v, k).mro)
            return self.split_kinds(v, ins, 'isinstance(%r, %s)' % (v, cls.name))
        return cls in self.class_of(v).mro

    def issub(self, c, cls):
        c, cls = self.R(c), self.R(cls)
        if isinstance(cls, tuple):
            return any(self.issub(c, x) for x in cls)
        if not isinstance(c, ClassObj):
            self.throw('TypeError', u'issubclass() arg 1 must be a class')
        return cls in c.mro

    # -- attributes -------------------------------------------------------------------
    def has_dunder(self, d, name):
        if isinstance(d, Inst) and not isinstance(d, (ClassObj, FuncObj)):
            f, c = d.cls.lookup(name)
            return f
        return None

    def bind_attr(self, d, obj, cls):
        """Non-data/data descriptor __get__."""
        if isinstance(d, FuncObj):
            return d if obj is None else Bound(d, obj)
        if isinstance(d, BFn):
            if d.method and obj is not None:
                return Bound(d, obj)
            return d
        if isinstance(d, StaticM):
            return d.fn
        if isinstance(d, ClassM):
            if isinstance(d.fn, (FuncObj, BFn)):
                return Bound(d.fn, cls)
            return Bound(d.fn, cls)
        if isinstance(d, Prop):
            if obj is None:
                return d
            if d.fget is None:
                self.throw('AttributeError', u'unreadable attribute')
            return self.call(d.fget, [obj])
        g = self.has_dunder(d, '__get__')
        if g is not None:
            return self.call(self.bind_attr(g, d, d.cls), [obj, cls])
        return d

    MISSING = object()

    def getattr(self, o, name, default=MISSING):
        if default is not Interp.MISSING:
            try:
                return self.getattr(o, name)
            except PyRaise as e:
                if self.exc_match(e.exc, self.T['AttributeError']):
                    return default
                raise
        o = self.R(o)
        name = str(name)
        if isinstance(o, ClassObj):
            return self.class_getattr(o, name)
        if isinstance(o, SuperObj):
            return self.super_getattr(o, name)
        if isinstance(o, FuncObj):
            if name in ('__name__', 'func_name'):
                return BStr(o.attrs.get('__name__', o.name))
            if name in ('func_globals', '__globals__'):
                return self.ns_dict(o.mod)
            if name == '__dict__':
                return self.attr_view(o)
            if name == '__doc__':
                return o.attrs.get('__doc__')
            if name == '__module__':
                return BStr(o.mod.name)
            if name == '__get__':
                return BFn('__get__', lambda I, a, kw: I.bind_attr(
                    o, I.R(a[0]), I.R(a[1]) if len(a) > 1 else None))
            if name in ('func_defaults', '__defaults__'):
                return tuple(o.defaults) if o.defaults else None
            if name in o.attrs:
                return o.attrs[name]
            if name == '__call__':
                return o
            if name in ('im_func', '__func__'):
                return o        # unbound methods are not told from their functions
        if isinstance(o, Bound):
            if name in ('im_func', '__func__'):
                return o.fn
            if name in ('im_self', '__self__'):
                return o.self
            if name == 'im_class':
                return self.class_of(o.self)
            if name == '__call__':
                return o
            return self.getattr(o.fn, name)
        if isinstance(o, BFn):
            if name == '__name__':
                return BStr(o.name)
            if name == '__doc__':
                return None
            if name == '__call__':
                return o
            if o.attrs and name in o.attrs:
                return o.attrs[name]
            if name in ('__self__', '__module__', 'im_func', '__defaults__', 'func_code', '__code__'):
                raise Unsupported('attribute %s of a builtin' % name)
            self.throw('AttributeError', BStr("builtin has no attribute %r" % name))
        if isinstance(o, (StaticM, ClassM)):
            if name == '__get__':
                return BFn('__get__', lambda I, a, kw: I.bind_attr(
                    o, I.R(a[0]), I.R(a[1]) if len(a) > 1 else I.class_of(a[0])))
            if name == '__func__':
                return o.fn
            self.throw('AttributeError', BStr(name))
        if isinstance(o, Prop):
            if name in ('fget', 'fset', 'fdel'):
                return getattr(o, name)
            if name in ('setter', 'getter', 'deleter'):
                def mkp(I, a, kw, which=name):
                    n = Prop(o.fget, o.fset, o.fdel, o.doc)
                    setattr(n, {'setter': 'fset', 'getter': 'fget',
                                'deleter': 'fdel'}[which], a[0])
                    return n
                return BFn(name, mkp)
            if name == '__doc__':
                return o.doc
            if name == '__get__':
                return BFn('__get__', lambda I, a, kw: I.bind_attr(
                    o, I.R(a[0]), I.R(a[1]) if len(a) > 1 else None))
            self.throw('AttributeError', BStr(name))
        if isinstance(o, SliceV):
            if name in ('start', 'stop', 'step'):
                return getattr(o, name)
        if isinstance(o, Sym):
            return self.sym_getattr(o, name)
        cls = self.class_of(o)
        if name == '__class__':
            return cls
        d, owner = cls.lookup(name)
        if d is not None or owner is not None:
            if isinstance(d, Prop) or self.has_dunder(d, '__set__') is not None:
                return self._getd(d, o, cls, name)
        if isinstance(o, Inst):
            if name == '__dict__':
                return self.attr_view(o)
            if name in o.attrs:
                return o.attrs[name]
        if owner is not None:
            return self._getd(d, o, cls, name)
        m = self.lib.method(self, o, cls, name)
        if m is not None:
            return m
        if name == '__doc__':
            return None
        if name == '__module__' and cls.module:
            return BStr(cls.module)
        g, c = cls.lookup('__getattr__')
        if g is not None:
            return self.call(self.bind_attr(g, o, cls), [BStr(name)])
        if self.lib.unmodelled(self, cls, name):
            raise Unsupported('attribute %s of %s' % (name, cls.name))
        if cls is self.T['module'] and isinstance(o, Inst):
            found, v = self.lib.library_attr(self, o, name)
            if found:
                return v
        self.throw('AttributeError', BStr("%r object has no attribute %r" % (
            cls.name, name)))

    def _getd(self, d, o, cls, name):
        try:
            return self.bind_attr(d, o, cls)
        except PyRaise as e:
            if self.exc_match(e.exc, self.T['AttributeError']):
                g, c = cls.lookup('__getattr__')
                if g is not None:
                    return self.call(self.bind_attr(g, o, cls), [BStr(name)])
            raise

    def attr_view(self, o):
        d = Inst(self.T['dict'], AttrDict(o.attrs))
        d.tag = ('attrview', o)
        return d

    def ns_dict(self, mod):
        d = Inst(self.T['dict'], AttrDict(mod.ns))
        d.tag = ('attrview', mod.obj)
        return d

    def class_getattr(self, c, name):
        meta = c.cls
        md, mowner = meta.lookup(name)
        if mowner is not None and (isinstance(md, Prop) or
                                   self.has_dunder(md, '__set__') is not None):
            return self.bind_attr(md, c, meta)
        if name == '__dict__':
            return self.attr_view(c)
        if name == '__name__':
            return BStr(c.attrs.get('__name__', c.name)) if isinstance(
                c.attrs.get('__name__', c.name), str) else c.name
        if name == '__bases__':
            return tuple(c.bases)
        if name == '__base__':
            return c.bases[0] if c.bases else None
        if name == '__mro__':
            return tuple(c.mro)
        if name == '__class__':
            return meta
        d, owner = c.lookup(name)
        if owner is not None:
            return self.bind_attr(d, None, c)
        if name == '__module__':
            return BStr(c.module or '__builtin__')
        if name == '__doc__':
            return None
        if mowner is not None:
            return self.bind_attr(md, c, meta)
        m = self.lib.class_method(self, c, name)
        if m is not None:
            return m
        g, gc = meta.lookup('__getattr__')
        if g is not None:
            return self.call(self.bind_attr(g, c, meta), [BStr(name)])
        if self.lib.unmodelled(self, c, name) or name in ('__base__', '__weakref__', '__subclasshook__'):
            raise Unsupported('attribute %s of class %s' % (name, c.name))
        self.throw('AttributeError', BStr("type object %r has no attribute %r" % (
            c.name, name)))

    def super_getattr(self, s, name):
        mro = s.objcls.mro
        i = mro.index(s.cls)
        for c in mro[i + 1:]:
            if name in c.attrs:
                d = c.attrs[name]
                if isinstance(s.obj, ClassObj) and s.objcls is s.obj:
                    if isinstance(d, ClassM):
                        return Bound(d.fn, s.obj)
                    return self.bind_attr(d, None, s.objcls)
                return self.bind_attr(d, s.obj, s.objcls)
        m = self.lib.super_method(self, s, mro[i + 1:], name)
        if m is not None:
            return m
        for c in mro[i + 1:]:
            if c.builtin and self.lib.unmodelled(self, c, name):
                raise Unsupported('super attribute %s' % name)
        self.throw('AttributeError', BStr("'super' object has no attribute %r" % name))

    def sym_getattr(self, s, name):
        ks = self.run.kinds[s]
        if s.attrs is not None and name in s.attrs:
            return s.attrs[name]
        if ks != frozenset(['object']) and len(ks) > 1:
            # does any kind define this attribute?
            have = frozenset(k for k in ks if k == 'object' or
                             self.lib.kind_has_attr(self, k, name))
            if have and have != ks:
                if not self.split_kinds(s, have, 'hasattr(%r, %s)' % (s, name)):
                    self.throw('AttributeError', BStr(name))
            elif not have:
                self.throw('AttributeError', BStr(name))
        k = self.kind1(s)
        s2 = self.R(s)
        if not isinstance(s2, Sym):
            return self.getattr(s2, name)
        if name == '__class__':
            return self.kind_class(s, k)
        if isinstance(s.meta, dict) and 'getattr' in s.meta:
            return s.meta['getattr'](self, s, name)
        if k == 'object':
            if s.meta == 'noattrs' or name.startswith('__'):
                self.throw('AttributeError', BStr(name))
            if not self.decide(('hasattr', s.term, name)):
                self.throw('AttributeError', BStr(name))
            return self.app('attr', s, name, kinds=ALLKINDS_SCALAR)
        m = self.lib.sym_method(self, s, k, name)
        if m is not None:
            return m
        if k == 'callable' and name in ('__name__', 'func_name'):
            return self.app('attr', s, name, kinds=['bytes'])
        if k == 'callable' and name == '__call__':
            return s
        if self.lib.unmodelled(self, self.kind_class(s, k), name):
            raise Unsupported('attribute %s of a %s' % (name, k))
        self.throw('AttributeError', BStr("%r object has no attribute %r" % (k, name)))

    def setattr(self, o, name, v):
        o = self.R(o)
        name = str(name)
        if isinstance(o, (FuncObj,)):
            self.mut(o)
            o.attrs[name] = v
            return
        if isinstance(o, Inst):
            cls = o.cls
            d, owner = cls.lookup(name)
            if owner is not None:
                if isinstance(d, Prop):
                    if d.fset is None:
                        self.throw('AttributeError', BStr("can't set attribute"))
                    self.call(d.fset, [o, v])
                    return
                st = self.has_dunder(d, '__set__')
                if st is not None:
                    self.call(self.bind_attr(st, d, d.cls), [o, v])
                    return
            f, c = cls.lookup('__setattr__')
            if f is not None and not isinstance(f, BFn):
                self.call(self.bind_attr(f, o, cls), [BStr(name), v])
                return
            self.raw_setattr(o, name, v)
            return
        if isinstance(o, Sym) and self.run.kinds[o] == frozenset(['object']):
            if o.attrs is None:
                o.attrs = {}
            o.attrs[name] = v
            return
        self.throw('AttributeError', BStr("object has no attribute %r" % name))

    def raw_setattr(self, o, name, v):
        if isinstance(o, ClassObj):
            if o.builtin:
                self.throw('TypeError', BStr("can't set attributes of built-in type"))
            if name == '__name__' and isinstance(v, str):
                o.name = str(v)
            if name == '__bases__':
                # only bookkeeping: hierarchy surgery is applied statically
                self.mut(o)
                bases = tuple(v)
                o.bases = bases
                self.recompute_mro(o)
                return
        if isinstance(o.p, (tuple,)) or (
                o.cls.builtin and o.cls.name in ('list', 'dict', 'set')):
            self.throw('AttributeError', BStr(name))
        self.mut(o)
        o.attrs[name] = v

    def recompute_mro(self, o):
        for c in self.all_classes:
            if o in c.mro:
                c.mro = c3(c)

    def delattr(self, o, name):
        o = self.R(o)
        name = str(name)
        if not isinstance(o, Inst):
            self.throw('AttributeError', BStr(name))
        d, owner = o.cls.lookup(name)
        if owner is not None:
            if isinstance(d, Prop) and d.fdel is not None:
                self.call(d.fdel, [o])
                return
            dl = self.has_dunder(d, '__delete__')
            if dl is not None:
                self.call(self.bind_attr(dl, d, d.cls), [o])
                return
        if name in o.attrs:
            self.mut(o)
            del o.attrs[name]
            return
        self.throw('AttributeError', BStr(name))

    # -- calls ------------------------------------------------------------------
    def call(self, f, args=(), kw=None):
        f = self.R(f)
        args = list(args)
        kw = dict(kw) if kw else {}
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self] + args, kw)
        if isinstance(f, BFn):
            try:
                return f.fn(self, args, kw)
            except (TypeError, IndexError, ValueError) as e:
                # host-level signature mismatch of a builtin model
                raise Unsupported('call of %s: %s' % (f.name, e))
            except KeyError as e:
                raise Unsupported('symbolic argument to %s' % f.name)
        if isinstance(f, FuncObj):
            return self.call_func(f, args, kw)
        if isinstance(f, ClassObj):
            return self.call_class(f, args, kw)
        if isinstance(f, StaticM):
            self.throw('TypeError', BStr("'staticmethod' object is not callable"))
        if isinstance(f, Inst):
            c, owner = f.cls.lookup('__call__')
            if c is not None:
                return self.call(self.bind_attr(c, f, f.cls), args, kw)
            self.throw('TypeError', BStr("%r object is not callable" % f.cls.name))
        if isinstance(f, Sym):
            if isinstance(f.meta, dict) and 'call' in f.meta:
                return f.meta['call'](self, f, args, kw)
            ks = self.run.kinds[f]
            if not (ks & frozenset(['callable', 'object'])):
                self.throw('TypeError', BStr('object is not callable'))
            if not self.split_kinds(f, frozenset(['callable', 'object']),
                                    'callable(%r)' % f):
                self.throw('TypeError', BStr('object is not callable'))
            self.run.events.append(('call', f, tuple(args), dict(kw), self.site()))
            self.run.ctr += 1
            return self.sym('ret#%d of %s' % (self.run.ctr, show_term(f.term)), ALLKINDS_SCALAR)
        self.throw('TypeError', BStr('%r is not callable' % (f,)))

    def call_class(self, c, args, kw):
        if not c.cls.builtin:
            m, owner = c.cls.lookup('__call__')
            if m is not None and not isinstance(m, BFn):
                return self.call(self.bind_attr(m, c, c.cls), args, kw)
        return self.type_call(c, args, kw)

    def type_call(self, c, args, kw):
        if c is self.T['type'] and len(args) == 1:
            return self.class_of(args[0])
        new, owner = c.lookup('__new__')
        if new is None:
            raise Unsupported('no __new__ for %s' % c.name)
        if isinstance(new, StaticM):
            new = new.fn
        o = self.call(new, [c] + list(args), kw)
        o = self.R(o)
        if isinstance(o, Inst) and c in o.cls.mro:
            init, owner = o.cls.lookup('__init__')
            if init is not None:
                self.call(self.bind_attr(init, o, o.cls), args, kw)
        return o

    def call_func(self, f, args, kw):
        if self.depth > self.MAXDEPTH:
            self.too_deep()
        fr = Frame(f, f.mod, f.env, f.scope)
        self.bind_args(f, fr, args, kw)
        self.functions_seen.add((f.mod.relpath, f.name, f.node.lineno))
        if f.is_gen:
            return IterObj(self.gen_driver(f, fr), 'generator %s' % f.name, fr)
        self.depth += 1
        self.enterpos[self.depth] = self.run.pos
        node = f.node
        self.stack.append((fr, node))
        n = len(self.stack)
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            for y in self.exec_body(node.body, fr):
                if isinstance(y, ReturnSig):
                    return y.value
                raise Unsupported('yield outside generator')
            return None
        finally:
            self.depth -= 1
            del self.stack[n - 1:]

    def too_deep(self):
        """Python's stack is finite: no test was left open over the last 60 frames, so nothing stops the recursion."""
        if self.enterpos.get(self.depth - 60) == self.run.pos and not self.importing:
            raise Diverges('the recursion at %s does not end: 60 frames without an undecided test' % self.site())
        raise Cut('recursion depth')

    def gen_driver(self, f, fr):
        """Host generator that runs an interpreted generator function."""
        fr.started = True
        it = self.exec_body(f.node.body, fr)
        while True:
            self.stack.append((fr, f.node))
            n = len(self.stack)
            self.depth += 1
            self.enterpos[self.depth] = self.run.pos
            if self.depth > self.MAXDEPTH:
                self.too_deep()
            try:
                try:
                    y = next(it)
                except StopIteration:
                    return
                except PyRaise as e:
                    if self.exc_match(e.exc, self.T['StopIteration']):
                        return
                    raise
            finally:
                self.depth -= 1
                del self.stack[n - 1:]
            if isinstance(y, ReturnSig):
                return
            yield y[0]

    def bind_args(self, f, fr, args, kw):
        a = f.node.args
        names = [x.arg for x in list(getattr(a, 'posonlyargs', [])) + a.args]
        L = fr.locals
        n = len(names)
        if len(args) > n and not a.vararg:
            self.throw('TypeError', BStr('%s() takes at most %d arguments (%d given)' % (
                f.name, n, len(args))))
        for nm, v in zip(names, args):
            L[nm] = v
        if a.vararg:
            L[a.vararg.arg] = tuple(args[n:])
        extra = {}
        allnames = set(names) | set(x.arg for x in a.kwonlyargs)
        for k, v in kw.items():
            if k in allnames:
                if k in L:
                    self.throw('TypeError', BStr("%s() got multiple values for keyword argument '%s'" % (f.name, k)))
                L[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.throw('TypeError', BStr("%s() got an unexpected keyword argument '%s'" % (f.name, k)))
        if a.kwarg:
            d = self.new_dict()
            for k, v in extra.items():
                d.p.set(self, BStr(k) if not isinstance(k, Sym) else k, v)
            L[a.kwarg.arg] = d
        nd = len(f.defaults)
        for i, nm in enumerate(names):
            if nm not in L:
                j = i - (n - nd)
                if j >= 0:
                    L[nm] = f.defaults[j]
                else:
                    self.throw('TypeError', BStr('%s() takes at least %d arguments (%d given)' % (
                        f.name, n - nd, len(args))))
        # tuple parameters do not occur in py3 syntax

    # -- statements ----------------------------------------------------------------
    def exec_body(self, body, fr):
        for s in body:
            self.step(s, fr)
            for y in self.exec_stmt(s, fr):
                if isinstance(y, (ReturnSig, _Sig)):
                    yield y
                    return
                yield y

    def step(self, node, fr):
        self.run.steps += 1
        if self.run.steps > self.maxsteps and not self.importing:
            raise Cut('step budget')
        if self.stack:
            self.stack[-1] = (fr, node)

    def exec_stmt(self, s, fr):
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s at %s' % (type(s).__name__, self.site()))
        r = m(s, fr)
        if r is None:
            return ()
        return r

    def x_Expr(self, s, fr):
        if isinstance(s.value, ast.Yield):
            return self.do_yield(s.value, fr)
        if isinstance(s.value, ast.YieldFrom):
            return self.do_yieldfrom(s.value, fr)
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def do_yield(self, y, fr):
        yield (self.ev(y.value, fr) if y.value is not None else None,)
        self.resumed(fr)

    def resumed(self, fr):
        """The value of a yield: what the caller sent, or the exception it threw in."""
        sent, fr.sent = fr.sent, None
        if isinstance(sent, PyRaise):
            raise sent
        return sent

    def do_yieldfrom(self, y, fr):
        for v in self.iterate(self.ev(y.value, fr)):
            yield (v,)

    def x_Pass(self, s, fr):
        pass

    def x_Global(self, s, fr):
        pass

    x_Nonlocal = x_Global

    def x_Return(self, s, fr):
        return [ReturnSig(self.ev(s.value, fr) if s.value is not None else None)]

    def x_Break(self, s, fr):
        return [BREAK]

    def x_Continue(self, s, fr):
        return [CONTINUE]

    def x_Assign(self, s, fr):
        if isinstance(s.value, ast.Yield):
            def g():
                yield (self.ev(s.value.value, fr) if s.value.value is not None else None,)
                v = self.resumed(fr)
                for t in s.targets:
                    self.assign(t, v, fr)
            return g()
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            v = self.inplace(s.op, cur, self.ev(s.value, fr))
            self.assign(t, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            nm = self.mangle(t.attr, fr)
            cur = self.getattr(o, nm)
            v = self.inplace(s.op, cur, self.ev(s.value, fr))
            self.setattr(o, nm, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            i = self.ev_index(t.slice, fr)
            cur = self.getitem(o, i)
            v = self.inplace(s.op, cur, self.ev(s.value, fr))
            self.setitem(o, i, v)
        else:
            raise Unsupported('augassign target')

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                sc = fr.scope
                if sc is not None and t.id in sc.locals:
                    if t.id not in fr.locals:
                        self.throw('UnboundLocalError', BStr(t.id))
                    del fr.locals[t.id]
                else:
                    fr.mod.ns.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value, fr), self.mangle(t.attr, fr))
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, fr), self.ev_index(t.slice, fr))
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    self.x_Delete(ast.Delete(targets=[e]), fr)
            else:
                raise Unsupported('del target')

    def x_If(self, s, fr):
        if self.truth(self.ev(s.test, fr)):
            return self.exec_body(s.body, fr)
        return self.exec_body(s.orelse, fr)

    def x_While(self, s, fr):
        n = 0
        mark = None
        while True:
            self.step(s, fr)
            if not self.truth(self.ev(s.test, fr)):
                break
            n += 1
            if n > 60:
                if mark is None or self.run.pos != mark[1]:
                    if n > 400:
                        raise Cut('loop bound')
                    mark = (n, self.run.pos)
                elif n - mark[0] > 2000:
                    raise Diverges('the loop at %s does not end: 2000 turns without an undecided test' % self.site())
            stop = False
            for y in self.exec_body(s.body, fr):
                if y is BREAK:
                    return
                if y is CONTINUE:
                    break
                yield y
                if isinstance(y, ReturnSig):
                    return
        for y in self.exec_body(s.orelse, fr):
            yield y

    def x_For(self, s, fr):
        it = self.iterate(self.ev(s.iter, fr))
        n = 0
        mark = None
        for v in it:
            n += 1
            if n > 300:
                if mark is None or self.run.pos != mark[1]:
                    if n > 600:
                        raise Cut('loop bound')
                    mark = (n, self.run.pos)
                elif n - mark[0] > 3000:
                    raise Diverges('the loop at %s does not end: 3000 turns without an undecided test' % self.site())
            self.step(s, fr)
            self.assign(s.target, v, fr)
            for y in self.exec_body(s.body, fr):
                if y is BREAK:
                    return
                if y is CONTINUE:
                    break
                yield y
                if isinstance(y, ReturnSig):
                    return
        for y in self.exec_body(s.orelse, fr):
            yield y

    def x_Raise(self, s, fr):
        if s.exc is None:
            f = fr
            while f is not None:
                if f.exc is not None:
                    raise f.exc
                f = f.parent
            cur = self.handling[-1] if self.handling else None
            if cur is None:
                self.throw('TypeError', BStr('no exception to re-raise'))
            raise cur
        e = self.R(self.ev(s.exc, fr))
        if isinstance(e, tuple):
            e = e[0]
        if isinstance(e, ClassObj):
            e = self.call(e, [])
        e = self.R(e)
        if not isinstance(e, Inst) or not e.cls.is_exc:
            self.throw('TypeError', BStr('exceptions must be classes or instances'))
        raise PyRaise(e, self.where())

    def exc_match(self, e, cls):
        cls = self.R(cls)
        if isinstance(cls, tuple):
            return any(self.exc_match(e, c) for c in cls)
        return cls in e.cls.mro

    handling = []

    def x_Try(self, s, fr):
        def body():
            n = len(self.stack)
            d = self.depth
            try:
                for y in self.exec_body(s.body, fr):
                    yield y
                    if isinstance(y, (ReturnSig, _Sig)):
                        return
            except PyRaise as e:
                del self.stack[n:]
                self.depth = d
                for h in s.handlers:
                    if h.type is not None:
                        if not self.exc_match(e.exc, self.ev(h.type, fr)):
                            continue
                    if h.name:
                        self.assign(ast.Name(id=h.name, ctx=ast.Store()), e.exc, fr)
                    old = fr.exc
                    fr.exc = e
                    self.handling = self.handling + [e]
                    try:
                        for y in self.exec_body(h.body, fr):
                            yield y
                            if isinstance(y, (ReturnSig, _Sig)):
                                return
                    finally:
                        fr.exc = old
                        self.handling = self.handling[:-1]
                    return
                raise
            for y in self.exec_body(s.orelse, fr):
                yield y
        if not s.finalbody:
            return body()
        return self.try_finally(body(), s, fr)

    def try_finally(self, inner, s, fr):
        pending = None
        n = len(self.stack)
        d = self.depth
        try:
            for y in inner:
                if isinstance(y, (ReturnSig, _Sig)):
                    pending = y
                    break
                yield y
        except PyRaise as e:
            del self.stack[n:]
            self.depth = d
            pending = e
        for y in self.exec_body(s.finalbody, fr):
            yield y
            if isinstance(y, (ReturnSig, _Sig)):
                return
        if isinstance(pending, PyRaise):
            raise pending
        if pending is not None:
            yield pending

    def x_With(self, s, fr):
        def go(items):
            if not items:
                for y in self.exec_body(s.body, fr):
                    yield y
                    if isinstance(y, (ReturnSig, _Sig)):
                        return
                return
            it = items[0]
            mgr = self.ev(it.context_expr, fr)
            ent = self.getattr(mgr, '__enter__')
            ext = self.getattr(mgr, '__exit__')
            v = self.call(ent, [])
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            n = len(self.stack)
            d = self.depth
            pending = None
            try:
                for y in go(items[1:]):
                    if isinstance(y, (ReturnSig, _Sig)):
                        pending = y
                        break
                    yield y
            except PyRaise as e:
                del self.stack[n:]
                self.depth = d
                r = self.call(ext, [e.exc.cls, e.exc, None])
                if not self.truth(r):
                    raise e
                return
            self.call(ext, [None, None, None])
            if pending is not None:
                yield pending
        return go(list(s.items))

    def x_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            args = [self.ev(s.msg, fr)] if s.msg is not None else []
            self.throw('AssertionError', *args)

    def x_FunctionDef(self, s, fr):
        f = self.make_func(s, fr)
        v = f
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, fr), [v])
        self.assign(ast.Name(id=s.name, ctx=ast.Store()), v, fr)

    def scope_of(self, node):
        sc = getattr(node, '_scope', None)
        if sc is None:
            sc = node._scope = Scope(node)
        return sc

    def make_func(self, s, fr):
        defaults = [self.ev(d, fr) for d in s.args.defaults]
        env = fr if (fr.func is not None or fr.cls is not None) else None
        # class bodies are not an enclosing scope for functions
        while env is not None and env.cls is not None:
            env = env.parent
        name = getattr(s, 'name', '<lambda>')
        f = FuncObj(self.T['function'], name, s, fr.mod, env, defaults,
                    self.scope_of(s))
        f.owner = self.cls_name(fr)
        if isinstance(s, ast.FunctionDef):
            doc = ast.get_docstring(s, clean=False)
            f.attrs['__doc__'] = BStr(doc) if doc is not None else None
        return f

    def cls_name(self, fr):
        while fr is not None:
            if fr.cls is not None:
                return fr.cls
            if fr.func is not None and fr.func.owner:
                return fr.func.owner
            fr = fr.parent
        return None

    def x_ClassDef(self, s, fr):
        bases = [self.R(self.ev(b, fr)) for b in s.bases]
        cf = Frame(None, fr.mod, fr if fr.func is not None or fr.cls is not None else None, None)
        cf.cls = s.name
        ns = cf.locals
        ns['__module__'] = BStr(fr.mod.name)
        doc = ast.get_docstring(s, clean=False)
        if doc is not None:
            ns['__doc__'] = BStr(doc)
        self.stack.append((cf, s))
        try:
            for y in self.exec_body(s.body, cf):
                raise Unsupported('control flow in class body')
        finally:
            self.stack.pop()
        meta = None
        for k in s.keywords:
            if k.arg == 'metaclass':
                meta = self.R(self.ev(k.value, fr))
        if meta is None:
            meta = ns.get('__metaclass__')
        if meta is None:
            meta = bases[0].cls if bases and isinstance(bases[0], Inst) else self.T['type']
        d = Inst(self.T['dict'], AttrDict(ns))
        c = self.call(meta, [BStr(s.name), tuple(bases), d])
        if isinstance(c, ClassObj):
            c.node = s
        for dec in reversed(s.decorator_list):
            c = self.call(self.ev(dec, fr), [c])
        self.assign(ast.Name(id=s.name, ctx=ast.Store()), c, fr)

    def new_class(self, meta, name, bases, ns):
        bases = [self.R(b) for b in bases] or [self.T['object']]
        # most derived metaclass
        for b in bases:
            if not isinstance(b, ClassObj):
                raise Unsupported('class with opaque base %r' % (b,))
            if meta not in b.cls.mro and b.cls is not meta:
                pass
            if meta in b.cls.mro:
                meta = b.cls
        c = ClassObj(meta, str(name), bases, dict(ns))
        c.attrs.setdefault('__doc__', None)     # never inherited
        m = ns.get('__module__')
        c.module = str(m) if isinstance(m, str) else None
        self.all_classes.append(c)
        n = c.attrs.get('__new__')
        if isinstance(n, FuncObj):
            c.attrs['__new__'] = StaticM(n)
        return c

    def x_Import(self, s, fr):
        for al in s.names:
            m = self.lib.import_module(self, al.name, fr.mod)
            if al.asname:
                for part in al.name.split('.')[1:]:
                    m = self.getattr(m, part)
                self.assign(ast.Name(id=al.asname, ctx=ast.Store()), m, fr)
            else:
                self.assign(ast.Name(id=al.name.split('.')[0], ctx=ast.Store()), m, fr)

    def x_ImportFrom(self, s, fr):
        name = self.resolve_rel(s.module or '', s.level, fr.mod)
        if name == '__future__':
            return
        m = self.lib.import_leaf(self, name, fr.mod)
        for al in s.names:
            if al.name == '*':
                for k, v in self.lib.module_public(self, m):
                    self.assign(ast.Name(id=k, ctx=ast.Store()), v, fr)
                continue
            v = self.lib.import_from(self, m, name, al.name, fr.mod)
            self.assign(ast.Name(id=al.asname or al.name, ctx=ast.Store()), v, fr)

    def resolve_rel(self, name, level, mod):
        if not level:
            return name
        parts = mod.name.split('.')
        if not mod.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (level - 1)]
        return '.'.join(parts + ([name] if name else []))

    # -- assignment -------------------------------------------------------------------
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            sc = fr.scope
            if fr.func is None and fr.cls is None and fr.scope is None:
                self.mod_set(fr.mod, t.id, v)
            elif fr.cls is not None:
                fr.locals[self.mangle(t.id, fr)] = v
            elif sc is not None and t.id in sc.globals:
                self.mod_set(fr.mod, t.id, v)
            else:
                fr.locals[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev_index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.R(v)
            if isinstance(v, Sym):
                ks = self.run.kinds[v]
                seq = frozenset(['list', 'tuple', 'set', 'dict', 'text', 'bytes'])
                if not self.split_kinds(v, seq, 'iterable(%r)' % v):
                    self.throw('TypeError', BStr('object is not iterable'))
                v = self.R(v)
            items = list(self.iterate(v))
            if len(items) != len(t.elts):
                self.throw('ValueError', BStr('need %d values to unpack, got %d' % (len(t.elts), len(items))))
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
        else:
            raise Unsupported('assign target %s' % type(t).__name__)

    def mod_set(self, mod, name, v):
        if mod.obj is not None:
            self.mut(mod.obj)
        mod.ns[name] = v

    def mangle(self, name, fr):
        if name.startswith('__') and not name.endswith('__'):
            c = self.cls_name(fr)
            if c:
                return '_%s%s' % (c.lstrip('_'), name)
        return name

    # -- names -----------------------------------------------------------------------------
    def lookup(self, name, fr):
        f = fr
        if f.cls is not None:
            n2 = self.mangle(name, fr)
            if n2 in f.locals:
                return f.locals[n2]
            f = f.parent
        while f is not None:
            if f.cls is None and f.func is not None or f.scope is not None:
                if name in f.locals:
                    return f.locals[name]
                if f.scope is not None and name in f.scope.locals:
                    if f is fr:
                        self.throw('UnboundLocalError', BStr("local variable '%s' referenced before assignment" % name))
                    self.throw('NameError', BStr("free variable '%s'" % name))
                if f.scope is not None and name in f.scope.globals:
                    break
            f = f.parent
        ns = fr.mod.ns
        if name in ns:
            return ns[name]
        b = self.builtins
        if name in b:
            return b[name]
        if name in PY2_BUILTINS:
            raise Unsupported('builtin %s' % name)
        self.throw('NameError', BStr("name '%s' is not defined" % name))

    # -- expressions ------------------------------------------------------------------------
    def ev(self, n, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s at %s' % (type(n).__name__, self.site()))
        return m(n, fr)

    def e_Constant(self, n, fr):
        v = n.value
        if isinstance(v, str):
            if n.kind == 'u' or getattr(fr.mod, 'unicode_literals', False):
                return v
            return BStr(v)
        if isinstance(v, bytes):
            return BStr(v.decode('latin-1'))
        return v

    def e_JoinedStr(self, n, fr):
        raise Unsupported('f-string')

    def e_Name(self, n, fr):
        return self.lookup(n.id, fr)

    def e_Attribute(self, n, fr):
        o = self.ev(n.value, fr)
        return self.getattr(o, self.mangle(n.attr, fr))

    def e_Tuple(self, n, fr):
        return tuple(self.elts(n.elts, fr))

    def e_List(self, n, fr):
        return self.new_list(self.elts(n.elts, fr))

    def e_Set(self, n, fr):
        return self.new_set(self.elts(n.elts, fr))

    def elts(self, es, fr):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.ev(e.value, fr)))
            else:
                out.append(self.ev(e, fr))
        return out

    def e_Dict(self, n, fr):
        d = self.new_dict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                raise Unsupported('dict unpack')
            kv = self.ev(k, fr)
            d.p.set(self, kv, self.ev(v, fr))
        return d

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, e in enumerate(n.values):
            v = self.ev(e, fr)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v
            if not isand and t:
                return v
        return v

    def e_UnaryOp(self, n, fr):
        if isinstance(n.op, ast.Not):
            return not self.truth(self.ev(n.operand, fr))
        v = self.R(self.ev(n.operand, fr))
        if isinstance(v, Inst) and isinstance(v.p, int):
            v = v.p
        if isinstance(n.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            if isinstance(v, Sym):
                return self.binop('-', 0, v)
        if isinstance(n.op, ast.UAdd) and isinstance(v, (int, float)):
            return +v
        if isinstance(n.op, ast.Invert) and isinstance(v, int):
            return ~v
        if isinstance(v, Inst):
            nm = {ast.USub: '__neg__', ast.UAdd: '__pos__', ast.Invert: '__invert__'}[type(n.op)]
            f, c = v.cls.lookup(nm)
            if f is not None:
                return self.call(self.bind_attr(f, v, v.cls), [])
        raise Unsupported('unary op on %r' % (v,))

    OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
           ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.BitAnd: '&',
           ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<',
           ast.RShift: '>>'}
    DUNDER = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '//': 'floordiv',
              '%': 'mod', '**': 'pow', '&': 'and', '|': 'or', '^': 'xor',
              '<<': 'lshift', '>>': 'rshift'}

    def e_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        b = self.ev(n.right, fr)
        if isinstance(n.op, ast.Div) and getattr(fr.mod, 'truediv', False):
            return self.binop('truediv', a, b)
        return self.binop(self.OPS[type(n.op)], a, b)

    def inplace(self, op, a, b):
        o = self.OPS[type(op)]
        a = self.R(a)
        if isinstance(a, Inst) and not isinstance(a, (ClassObj, FuncObj)):
            f, c = a.cls.lookup('__i%s__' % self.DUNDER[o])
            if f is not None:
                r = self.call(self.bind_attr(f, a, a.cls), [b])
                if r is not NOTIMPL:
                    return r
        return self.binop(o, a, b)

    def binop(self, o, a, b):
        return self.lib.binop(self, o, a, b)

    def e_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        res = True
        for op, rn in zip(n.ops, n.comparators):
            right = self.ev(rn, fr)
            res = self.compare(op, left, right)
            if len(n.ops) > 1:
                if not self.truth(res):
                    return False
            left = right
        return res

    def compare(self, op, a, b):
        t = type(op)
        if t is ast.Is:
            return self.is_(a, b)
        if t is ast.IsNot:
            return not self.is_(a, b)
        if t is ast.In:
            return self.contains(b, a)
        if t is ast.NotIn:
            return not self.contains(b, a)
        a, b = self.R(a), self.R(b)
        if t in (ast.Eq, ast.NotEq):
            if t is ast.NotEq:
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, Inst) and not isinstance(x, (ClassObj, FuncObj)):
                        f, c = x.cls.lookup('__ne__')
                        if f is not None and not isinstance(f, BFn):
                            r = self.call(self.bind_attr(f, x, x.cls), [y])
                            if r is not NOTIMPL:
                                return self.truth(r)
            r = self.eq(a, b)
            return r if t is ast.Eq else not r
        dn = {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__', ast.GtE: '__ge__'}[t]
        if isinstance(a, Inst) and not isinstance(a, (ClassObj, FuncObj)):
            f, c = a.cls.lookup(dn)
            if f is not None and not isinstance(f, BFn):
                r = self.call(self.bind_attr(f, a, a.cls), [b])
                if r is not NOTIMPL:
                    return r
            if self.is_setlike(a) and isinstance(b, Inst) and self.is_setlike(b):
                sub = all(self.contains(b, x) for x in a.p)
                sup = all(self.contains(a, x) for x in b.p)
                return {ast.Lt: sub and not sup, ast.LtE: sub,
                        ast.Gt: sup and not sub, ast.GtE: sup}[t]
        if isinstance(b, Inst) and not isinstance(b, (ClassObj, FuncObj)):
            f, c = b.cls.lookup({'__lt__': '__gt__', '__gt__': '__lt__', '__le__': '__ge__', '__ge__': '__le__'}[dn])
            if f is not None and not isinstance(f, BFn):
                r = self.call(self.bind_attr(f, b, b.cls), [a])
                if r is not NOTIMPL:
                    return r
        want = {ast.Lt: ['lt'], ast.LtE: ['lt', 'eq'], ast.Gt: ['gt'],
                ast.GtE: ['gt', 'eq']}[t]
        xs, ys = [x if isinstance(x, tuple) else x.p if isinstance(x, Inst) and isinstance(x.p, (list, tuple)) and not self.is_setlike(x)
                  else None for x in (a, b)]
        if xs is not None and ys is not None:
            for x, y in zip(xs, ys):
                if not self.eq(x, y):
                    return self.compare(op, x, y)
            return self.order(len(xs), len(ys), want)
        self.nan_check(a, b, 'isnan')
        return self.order(a, b, want)

    def nan_check(self, a, b, what):
        """Ordering a Decimal NaN, or equating a signalling one, raises."""
        from .lib import nanable
        for x, y in ((a, b), (b, a)):
            x = self.R(x)
            if isinstance(x, Sym) and 'decimal' in self.run.kinds[x]:
                y = self.R(y)
                if isinstance(y, (int, float)) or (isinstance(y, Sym) and self.run.kinds[y] & NUMK):
                    if self.split_kinds(x, frozenset(['decimal']), '%r is a Decimal' % x):
                        nanable(self, x, what)

    def is_(self, a, b):
        a, b = self.R(a), self.R(b)
        if a is b:
            return True
        if isinstance(b, Sym) and not isinstance(a, Sym):
            a, b = b, a
        if isinstance(a, Sym):
            ks = self.run.kinds[a]
            if b is None:
                if 'none' not in ks:
                    return False
                return self.split_kinds(a, frozenset(['none']), '%r is None' % a)
            if b is True or b is False:
                if 'bool' not in ks:
                    return False
                t = self.run.truth.get(a)
                if t is not None and t != b:
                    return False
                if not self.split_kinds(a, frozenset(['bool']), '%r is bool' % a):
                    return False
                return self.truth(a) is b
            if isinstance(b, Sym):
                key = ('is',) + tuple(sorted([a.term, b.term], key=repr))
                if a.meta == 'alias' or b.meta == 'alias':
                    return self.decide(key)
                return False
            return False
        if a is None or b is None:
            return False
        if isinstance(a, bool) or isinstance(b, bool):
            return isinstance(a, bool) and isinstance(b, bool) and a == b
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return type(a) is type(b) and a == b
        if isinstance(a, str) and isinstance(b, str):
            return type(a) is type(b) and a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a == b == ()
        if isinstance(a, Bound) and isinstance(b, Bound):
            return False
        return False

    def contains(self, c, x):
        return self.lib.contains(self, c, x)

    def e_IfExp(self, n, fr):
        if self.truth(self.ev(n.test, fr)):
            return self.ev(n.body, fr)
        return self.ev(n.orelse, fr)

    def e_Lambda(self, n, fr):
        return self.make_func(n, fr)

    def e_Call(self, n, fr):
        f = self.ev(n.func, fr)
        args = self.elts(n.args, fr)
        kw = {}
        for k in n.keywords:
            if k.arg is not None:
                kw[k.arg] = self.ev(k.value, fr)
            else:
                d = self.R(self.ev(k.value, fr))
                for kk, vv in self.lib.dict_items(self, d):
                    kk = self.R(kk)
                    if isinstance(kk, Sym):
                        raise Unsupported('symbolic keyword')
                    if not isinstance(kk, str):
                        self.throw('TypeError', BStr('keywords must be strings'))
                    kw[str(kk)] = vv
        if self.stack:
            self.stack[-1] = (fr, n)
        b = self.R(f)
        if isinstance(b, BFn) and b.name in self.lib.FRAME_FNS:
            return self.lib.FRAME_FNS[b.name](self, args, kw, fr)
        return self.call(f, args, kw)

    def ev_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return SliceV(*[self.ev(x, fr) if x is not None else None
                            for x in (s.lower, s.upper, s.step)])
        return self.ev(s, fr)

    def e_Slice(self, n, fr):
        return self.ev_index(n, fr)

    def e_Subscript(self, n, fr):
        return self.getitem(self.ev(n.value, fr), self.ev_index(n.slice, fr))

    def getitem(self, o, i):
        return self.lib.getitem(self, o, i)

    def setitem(self, o, i, v):
        return self.lib.setitem(self, o, i, v)

    def delitem(self, o, i):
        return self.lib.delitem(self, o, i)

    def comp(self, gens, fr, emit):
        def go(i):
            if i == len(gens):
                yield emit()
                return
            g = gens[i]
            n = 0
            for v in self.iterate(self.ev(g.iter, fr) if i or first is None else first):
                n += 1
                if n > 300:
                    raise Cut('loop bound')
                self.assign(g.target, v, fr)
                if all(self.truth(self.ev(c, fr)) for c in g.ifs):
                    for x in go(i + 1):
                        yield x
        first = None
        return go(0)

    def e_ListComp(self, n, fr):
        return self.new_list(list(self.comp(n.generators, fr, lambda: self.ev(n.elt, fr))))

    def subframe(self, n, fr):
        sub = Frame(fr.func, fr.mod, fr, None)
        sc = getattr(n, '_scope', None)
        if sc is None:
            sc = Scope.__new__(Scope)
            sc.locals, sc.globals, sc.is_gen, sc.is_class = set(), set(), False, False
            for g in n.generators:
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        sc.locals.add(x.id)
            n._scope = sc
        sub.scope = sc
        return sub

    def e_SetComp(self, n, fr):
        sub = self.subframe(n, fr)
        return self.new_set(list(self.comp(n.generators, sub, lambda: self.ev(n.elt, sub))))

    def e_DictComp(self, n, fr):
        sub = self.subframe(n, fr)
        d = self.new_dict()
        for k, v in self.comp(n.generators, sub, lambda: (self.ev(n.key, sub), self.ev(n.value, sub))):
            d.p.set(self, k, v)
        return d

    def e_GeneratorExp(self, n, fr):
        sub = self.subframe(n, fr)
        first = self.ev(n.generators[0].iter, fr)
        src = self.iterate(first)

        def gen():
            g0 = n.generators[0]
            cnt = 0
            for v in src:
                cnt += 1
                if cnt > 300:
                    raise Cut('loop bound')
                self.stack.append((sub, n))
                k = len(self.stack)
                try:
                    self.assign(g0.target, v, sub)
                    ok = all(self.truth(self.ev(c, sub)) for c in g0.ifs)
                    outs = []
                    if ok:
                        if len(n.generators) == 1:
                            outs = [self.ev(n.elt, sub)]
                        else:
                            outs = list(self.comp(n.generators[1:], sub, lambda: self.ev(n.elt, sub)))
                finally:
                    del self.stack[k - 1:]
                for o in outs:
                    yield o
        return IterObj(gen(), 'genexpr')

    def e_Yield(self, n, fr):
        raise Unsupported('yield expression')

    def e_Starred(self, n, fr):
        raise Unsupported('starred')

    # -- iteration ---------------------------------------------------------------------------
    def iterate(self, v):
        """A host iterator over the elements of an abstract iterable."""
        return self.lib.iterate(self, v)

    # -- modules -----------------------------------------------------------------------------
    def exec_module(self, m):
        fr = Frame(None, m, None, None)
        for s in m.tree.body:
            if isinstance(s, ast.ImportFrom) and s.module == '__future__':
                for al in s.names:
                    if al.name == 'division':
                        m.truediv = True
                    if al.name == 'unicode_literals':
                        m.unicode_literals = True
        self.stack.append((fr, m.tree))
        try:
            for y in self.exec_body(m.tree.body, fr):
                raise Unsupported('control flow at module level')
        finally:
            self.stack.pop()

    # -- exploration -----------------------------------------------------------------------
    def explore(self, fn, max_runs=4000, max_secs=120):
        """Enumerate trace partitions of fn(I).  Yields (status, value, run)."""
        import time
        t0 = time.time()
        decisions = []
        n = 0
        while True:
            self.run = Run(decisions)
            self.stack = []
            self.depth = 0
            self.handling = []
            status, val = 'ok', None
            try:
                val = fn(self)
            except PyRaise as e:
                status, val = 'raise', e
            except Infeasible as e:
                status, val = 'infeasible', e
            except Diverges as e:
                status, val = 'diverges', e
            except Cut as e:
                status, val = 'cut', e
            except Unsupported as e:
                status, val = 'unsupported', e
            n += 1
            run = self.run
            yield status, val, run
            self.rollback()
            decisions = run.decisions[:run.pos] if run.pos < len(run.decisions) else run.decisions
            while decisions and decisions[-1][0] + 1 >= decisions[-1][1]:
                decisions.pop()
            if not decisions:
                return
            decisions = [list(d) for d in decisions]
            decisions[-1][0] += 1
            if n >= max_runs or time.time() - t0 > max_secs:
                yield 'budget', None, run
                return


ALLKINDS_SCALAR = frozenset(['none', 'bool', 'int', 'float', 'text', 'bytes',
                             'list', 'tuple', 'dict', 'object'])
