"""Obligation framework: abstract clients, post-conditions, reports, evidence."""
import ast
import hashlib
import json
import os
import pickle
import re
import select
import sys
import time
import traceback

from . import lib
from .engine import (Interp, Sym, Inst, ClassObj, FuncObj, BFn, Bound, BStr,
                     IterObj, PyRaise, Unsupported, Cut, Infeasible, Module,
                     Frame, PDict, AttrDict, StaticM, ClassM, Prop, Scope,
                     ALLKINDS, ALLKINDS_SCALAR, NUMK, STRK, show_term)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FLATLAND_REPO', '/repo')


class Violation(Exception):
    def __init__(self, msg, anchor=None):
        Exception.__init__(self, msg)
        self.msg = msg
        self.anchor = anchor


class Broken(Exception):
    """An anchor the analysis depends on has vanished."""


MODULES = ['flatland', 'flatland.exc', 'flatland.signals', 'flatland.util.base',
           'flatland.schema', 'flatland.schema.base', 'flatland.schema.scalars',
           'flatland.schema.containers', 'flatland.schema.compound',
           'flatland.schema.forms', 'flatland.schema.paths',
           'flatland.schema.properties', 'flatland.schema.util',
           'flatland.validation', 'flatland.validation.base',
           'flatland.validation.scalars', 'flatland.validation.containers',
           'flatland.validation.network', 'flatland.validation.number',
           'flatland.validation.string', 'flatland.out.generic',
           'flatland.out.markup', 'flatland.out.util',
           'flatland.ext.creditcard']


def load(root=REPO, modules=MODULES):
    I = Interp(root)
    for m in modules:
        try:
            lib.import_leaf(I, m, None)
        except PyRaise as e:
            if I.exc_match(e.exc, I.T['ImportError']) and \
                    I.load_source(m) is None:
                raise Broken('module %s is gone' % m)
            raise Broken('abstract import of %s raises %r at %s' % (
                m, e.exc, (e.site or ['?'])[-1]))
        except Unsupported as e:
            raise Broken('abstract import of %s: unsupported %s at %s' % (
                m, e, I.site()))
    # eager resolution of the lazily exported names
    for m in ('flatland', 'flatland.util'):
        mod = lib.import_leaf(I, m, None)
        al = mod.attrs.get('__all__')
        for n in list(lib.iterate(I, al)) if al is not None else []:
            try:
                I.getattr(mod, str(n))
            except PyRaise:
                pass
            except Unsupported:
                pass
    I.seal()
    return I


class Ctx(object):
    """What an obligation sees on one trace partition."""

    def __init__(self, I, ob, tier='quick'):
        self.sharded = False
        self.thorough = tier == 'thorough'
        self.I = I
        self.ob = ob
        self.T = I.T

    # -- names
    def get(self, path):
        mod, _, names = path.partition(':')
        I = self.I
        try:
            o = lib.import_leaf(I, mod, None)
            for n in names.split('.') if names else ():
                o = I.getattr(o, n)
        except PyRaise as e:
            raise Broken('anchor %s vanished (%r)' % (path, e.exc))
        return o

    def sym(self, name, *kinds):
        return self.I.sym(name, kinds or ALLKINDS_SCALAR)

    def any(self, name):
        return self.I.sym(name, ALLKINDS_SCALAR)

    def text(self, name, nonempty=None):
        s = self.I.sym(name, ['text'])
        if nonempty is not None:
            self.I.run.truth[s] = nonempty
        return s

    def int(self, name, lo=None, hi=None):
        s = self.I.sym(name, ['int'])
        if lo is not None or hi is not None:
            self.I.run.iv[s] = (float('-inf') if lo is None else lo,
                                float('inf') if hi is None else hi)
        return s

    def R(self, v):
        return self.I.R(v)

    def fn(self, name, f):
        """An opaque callable implemented by the obligation."""
        return BFn(name, lambda I, a, kw: f(*a, **kw))

    def app(self, op, *args, kinds=('text',)):
        """The uninterpreted application op(args…)."""
        return self.I.app(op, *args, kinds=list(kinds))

    def kindset(self, v):
        v = self.R(v)
        if isinstance(v, Sym):
            return set(self.I.run.kinds[v])
        if isinstance(v, Inst):
            for k, b in (('text', 'unicode'), ('bytes', 'str'), ('int', 'int'), ('list', 'list'),
                         ('dict', 'dict'), ('set', 'set'), ('float', 'float')):
                if self.T.get(b) in v.cls.mro:
                    return set([k])
            return set(['object'])
        if isinstance(v, tuple):
            return set(['tuple'])
        if isinstance(v, BStr):
            return set(['bytes'])
        return set([{type(None): 'none', bool: 'bool', int: 'int', float: 'float', str: 'text'}.get(type(v), 'object')])

    def put(self, o, name, v):
        self.I.setattr(o, name, v)

    def is_none(self, v):
        return self.I.is_(self.R(v), None)

    # -- operations
    def call(self, f, *a, **kw):
        return self.I.call(f, list(a), kw)

    def m(self, o, name, *a, **kw):
        return self.I.call(self.I.getattr(o, name), list(a), kw)

    def attr(self, o, name):
        return self.R(self.I.getattr(o, name))

    def truth(self, v):
        return self.I.truth(v)

    def choose(self, *opts):
        o = self.I.choose(len(opts), 'client choice among %d' % len(opts))
        if self.ob.shard and not self.sharded and len(opts) > 1:
            # this process decides every n-th of the first alternatives
            self.sharded = True
            if o % self.ob.shard[1] != self.ob.shard[0]:
                raise Infeasible()
        return opts[o]

    def items(self, v):
        return [self.R(x) for x in self.I.iterate(v)]

    def host(self, v):
        """Resolved host view of lists / tuples / dicts (shallow)."""
        v = self.R(v)
        if isinstance(v, Inst) and isinstance(v.p, list):
            return [self.R(x) for x in v.p]
        if isinstance(v, Inst) and isinstance(v.p, PDict):
            return [(self.R(k), self.R(x)) for k, x in v.p.items()]
        return v

    def same(self, a, b):
        """Structural identity of abstract values, without deciding."""
        a, b = self.R(a), self.R(b)
        if a is b:
            return True
        # instances of str/int subclasses are values too
        if isinstance(a, Inst) and isinstance(a.p, (int, str, Sym)):
            a = self.R(a.p)
        if isinstance(b, Inst) and isinstance(b.p, (int, str, Sym)):
            b = self.R(b.p)
        if isinstance(a, Inst) or isinstance(b, Inst):
            return a is b
        if isinstance(a, bool) != isinstance(b, bool):
            return False
        try:
            ka, kb = self.I.tkey(a), self.I.tkey(b)
            return ka == kb or self.norm(ka) == self.norm(kb)
        except TypeError:
            return False

    def norm(self, t):
        """A term with the symbols decided since it was built replaced."""
        if not isinstance(t, tuple):
            return t
        s = self.I.run.terms.get(t)
        if s is not None:
            r = self.I.R(s)
            if r is not s:
                return self.norm(self.I.tkey(r))
        return tuple(self.norm(x) for x in t)

    def do(self, src, **env):
        """Interpret client source abstractly; returns its namespace."""
        key = src
        tree = _client_cache.get(key)
        if tree is None:
            import textwrap
            tree = ast.parse(textwrap.dedent(src))
            _client_cache[key] = tree
        m = Module('client', '<client>', '<client>', tree)
        m.is_pkg = False
        m.obj = None
        m.ns.update(self.ob.check.prelude(self))
        m.ns['__name__'] = BStr('client')
        m.ns.update(env)
        fr = Frame(None, m, None, None)
        I = self.I
        I.stack.append((fr, tree))
        n = len(I.stack)
        try:
            for y in I.exec_body(tree.body, fr):
                raise Unsupported('client control flow')
        finally:
            del I.stack[n - 1:]
        return m.ns

    def catch(self, thunk):
        """('ok', value) or ('raise', class name, exception)"""
        I = self.I
        n, d = len(I.stack), I.depth
        try:
            return ('ok', self.R(thunk()), None)
        except PyRaise as e:
            del I.stack[n:]
            I.depth = d
            return ('raise', e.exc.cls.name, e)

    def events(self, kind):
        return [e for e in self.I.run.events if e[0] == kind]

    # -- verdicts
    def fail(self, msg, anchor=None):
        raise Violation(msg, anchor)

    def check(self, cond, msg, anchor=None):
        self.ob.assertions += 1
        if not cond:
            raise Violation(msg if isinstance(msg, str) else msg(), anchor)

    def undecided(self, why):
        raise Unsupported(why)

    def show(self, v):
        v = self.R(v)
        return repr(v)


_client_cache = {}


class Obligation(object):
    def __init__(self, check, name, fn, anchors, rule, raises, max_runs, optional, shards=1):
        self.shards = shards
        self.shard = None
        self.check = check
        self.name = name
        self.fn = fn
        self.anchors = anchors
        self.rule = rule
        self.raises = raises
        self.max_runs = max_runs
        self.optional = optional
        self.paths = self.undecided = self.cut = self.infeasible = 0
        self.assertions = 0
        self.violations = []
        self.reasons = {}
        self.budget = False
        self.functions = set()
        self.sources = []
        self.secs = 0.0


class Check(object):
    level = 'other'

    def __init__(self, pid, title):
        self.pid = pid
        self.title = title
        self.obls = []
        self.struct = []      # structural rules
        self.notes = []
        self.assumptions = []
        self.klimit = {'quick': 2, 'thorough': 3}
        self.prelude_names = {}

    def ob(self, name, anchors=(), rule='', raises='violation', max_runs=6000, optional=False, shards=1):
        """Register a path obligation.  raises: what an exception escaping the
        client means ('violation' or 'undecided')."""
        if isinstance(anchors, str):
            anchors = [anchors]

        def deco(fn):
            self.obls.append(Obligation(self, name, fn, list(anchors), rule, raises, max_runs, optional, shards))
            return fn
        return deco

    def rule(self, name, anchors=(), what=''):
        """Register a structural rule: fn(S) yields findings
        (construct, file, line, message) after calling S.count(...)"""
        def deco(fn):
            self.struct.append((name, fn, anchors, what))
            return fn
        return deco

    def prelude(self, ctx):
        d = {}
        for short, path in PRELUDE.items():
            v = _prelude_cache.get((id(ctx.I), short))
            if v is None:
                v = ctx.get(path)
                _prelude_cache[(id(ctx.I), short)] = v
            d[short] = v
        return d


PRELUDE = dict((n, 'flatland.schema:' + n) for n in (
    'Element Array Boolean Compound Constrained Container Date DateTime DateYYYYMMDD '
    'Decimal Dict Enum Float Form Integer JoinedString List Long Mapping MultiValue '
    'Number Ref Scalar Sequence Skip SkipAll SkipAllFalse SparseDict String '
    'Time Unevaluated Unset Properties Slot').split())
_prelude_cache = {}


def anchor_site(I, anchor):
    """'flatland.schema.containers:List.pop' -> (file, line) of the definition."""
    mod, _, names = anchor.partition(':')
    try:
        m = I.sources.get(mod)
        o = I.sysmodules.p.get(I, BStr(mod))[1]
        parts = names.split('.') if names else []
        for n in parts:
            if isinstance(o, ClassObj):
                d, owner = o.lookup(n)
                if isinstance(d, (StaticM, ClassM)):
                    d = d.fn
                if isinstance(d, Prop):
                    d = d.fget
                if isinstance(d, Inst) and not isinstance(d, (FuncObj, ClassObj)):
                    c = d.attrs.get('cloner')
                    if isinstance(c, ClassM):
                        d = c.fn
                    elif isinstance(d.attrs.get('fget'), FuncObj):
                        d = d.attrs['fget']
                o = d
            else:
                o = I.getattr(o, n)
        if isinstance(o, Bound):
            o = o.fn
        if isinstance(o, FuncObj):
            return o.mod.relpath, o.node.lineno, o.name
        if isinstance(o, ClassObj) and o.node is not None:
            mm = I.sources.get(o.module)
            return (mm.relpath if mm else '?'), o.node.lineno, o.name
        if m is not None:
            return m.relpath, 1, names or mod
    except Exception:
        pass
    return None


class StructCtx(object):
    """What a structural rule sees: parsed sources and the abstract heap."""

    def __init__(self, I, check):
        self.I = I
        self.check = check
        self.counts = {}

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def module(self, name):
        m = self.I.sources.get(name)
        if m is None:
            raise Broken('module %s vanished' % name)
        return m

    def modules(self):
        return [m for n, m in sorted(self.I.sources.items())]

    def get(self, path):
        return Ctx(self.I, None).get(path)

    MISSING = object()

    def skip(self, why):
        self.count('skipped: ' + why)

    def classes(self):
        """Every class the sources define at module or class level."""
        out, todo = [], []
        for m in self.modules():
            todo.extend(v for v in m.ns.values() if isinstance(v, ClassObj))
        while todo:
            c = todo.pop(0)
            if c.builtin or c.node is None or any(c is x for x in out):
                continue
            out.append(c)
            todo.extend(v for v in c.attrs.values() if isinstance(v, ClassObj))
        return out

    def subclasses(self, base):
        return [c for c in self.classes() if base in c.mro and c is not base]

    def functions(self, cls):
        """(FuncObj, first parameter) of what the class body itself defines."""
        for v in cls.attrs.values():
            if isinstance(v, (StaticM, ClassM)):
                v = v.fn
            for f in ([v.fget, v.fset, v.fdel] if isinstance(v, Prop) else [v]):
                if isinstance(f, FuncObj) and isinstance(f.node, (ast.FunctionDef, ast.Lambda)):
                    a = f.node.args.args
                    yield f, (a[0].arg if a else None)

    def methods_calls(self, cls, names):
        """Calls self.<name>(...) in every method an instance of cls has."""
        seen = set()
        for c in cls.mro:
            for f, me in self.functions(c):
                if f.name in seen or f.name in names:
                    continue
                seen.add(f.name)
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in names \
                            and isinstance(n.func.value, ast.Name) and n.func.value.id == me:
                        yield f, n, f.mod.relpath

    def class_attr(self, cls, name):
        for c in cls.mro:
            for k, v in c.attrs.items():
                if str(k) == name:
                    return self.I.R(v)
        return self.MISSING

    def sets_self_attr(self, cls, name):
        for c in cls.mro:
            for f, me in self.functions(c):
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store) \
                            and isinstance(n.value, ast.Name) and n.value.id == me:
                        return True
        return False


def known_findings():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip('\n')
            if not line or line.startswith('#') or line.startswith('fixed:'):
                continue
            m = re.match(r'^known: property=(\S+) key=(\S+) (.*)$', line)
            if m:
                out.append(m.groups())
    return out


def run_obligation(I, ob, tier, deadline):
    t0 = time.time()
    I.klimit = ob.check.klimit[tier]
    max_runs = ob.max_runs * (6 if tier == 'thorough' else 1)
    seen_msgs = {}

    def client(I):
        I.run.events = []
        try:
            return ob.fn(Ctx(I, ob, tier))
        except (PyRaise, Infeasible, Cut, Unsupported, Violation, Broken):
            raise
        except Exception as e:
            # the client could not read the abstract state: nothing is decided on this path
            tb = traceback.extract_tb(e.__traceback__)[-1]
            raise Unsupported('%s: %s at %s:%d' % (type(e).__name__, str(e)[:60], os.path.basename(tb.filename), tb.lineno))
    base = set(I.functions_seen)
    I.functions_seen = set()
    gen = I.explore(client, max_runs=max_runs, max_secs=max(1.0, min(deadline - time.time(), 400 if tier == 'thorough' else 150)))
    while True:
        try:
            status, val, run = next(gen)
        except StopIteration:
            break
        except Violation as v:
            # explore() does not swallow Violation: re-create the generator
            raise
        if status == 'ok':
            ob.paths += 1
            if isinstance(val, Violation):
                record(I, ob, val, run)
        elif status == 'raise':
            if ob.raises == 'violation':
                ob.paths += 1
                e = val
                where = [w for w in (e.site or []) if not w.startswith('<client>')]
                record(I, ob, Violation('raises %s%s at %s' % (
                    e.exc.cls.name, show_args(e.exc), where[-1] if where else 'client'), None), run,
                    key='raises-' + e.exc.cls.name)
            else:
                ob.undecided += 1
                ob.reasons['raise %r' % (e_short(val),)] = ob.reasons.get('raise %r' % (e_short(val),), 0) + 1
        elif status == 'unsupported':
            ob.undecided += 1
            k = str(val)[:100]
            ob.reasons[k] = ob.reasons.get(k, 0) + 1
        elif status == 'diverges' and ob.raises == 'violation':
            ob.paths += 1
            record(I, ob, Violation(str(val), None), run, key='diverges')
        elif status in ('cut', 'diverges'):
            ob.cut += 1
            k = 'cut: ' + str(val)
            ob.reasons[k] = ob.reasons.get(k, 0) + 1
        elif status == 'infeasible':
            ob.infeasible += 1
        elif status == 'budget':
            ob.budget = True
        if len(ob.violations) >= 12:
            gen.close()
            I.rollback()
            break
    ob.functions = set(I.functions_seen)
    ob.sources = [(m.relpath, m.path) for m in I.sources.values()]
    I.functions_seen = base | ob.functions
    ob.secs = time.time() - t0


def e_short(e):
    return '%s@%s' % (e.exc.cls.name, ([w for w in (e.site or []) if not w.startswith('<client>')] or ['client'])[-1])


def show_args(e):
    a = e.attrs.get('args', ())
    return '(%s)' % ', '.join(repr(x)[:60] for x in a)


def record(I, ob, v, run, key=None):
    k = key or re.sub(r'[^A-Za-z]+', '-', v.msg)[:40]
    for o in ob.violations:
        if o['key'] == k:
            o['count'] += 1
            return
    anchors = [v.anchor] if v.anchor else ob.anchors
    sites = [anchor_site(I, a) for a in anchors]
    ob.violations.append({
        'key': k, 'msg': v.msg, 'count': 1, 'anchors': anchors, 'sites': sites,
        'branches': ['%s: %s [%d/%d]' % (d[3], d[2], d[0] + 1, d[1]) for d in run.decisions[:run.pos]],
    })


RESULTS = ('paths', 'undecided', 'cut', 'infeasible', 'assertions', 'violations', 'secs', 'budget', 'reasons', 'functions', 'sources')


def run_one(I, ob, tier, deadline):
    orig = ob.fn

    def wrapped(ctx):
        try:
            return orig(ctx)
        except Violation as v:
            return v
    ob.fn = wrapped
    try:
        run_obligation(I, ob, tier, deadline)
    except Broken as e:
        I.rollback()
        return str(e)
    finally:
        ob.fn = orig
    return None


def run_all(I, obls, tier, deadline):
    """Decide the obligations, each in a process of its own forked from the loaded program; one after another if there
    is a single processor.  The outcome does not depend on the order."""
    work = [(ob, j) for ob in obls for j in range(ob.shards)]
    jobs = min(len(work), os.cpu_count() or 1, int(os.environ.get('FLATLAND_JOBS', '8')))
    if jobs <= 1:
        return [(ob, run_one(I, ob, tier, deadline)) for ob in obls]
    todo = sorted(range(len(work)), key=lambda i: -work[i][0].shards)
    running = {}
    done = {}
    sys.stdout.flush()
    while todo or running:
        while todo and len(running) < jobs:
            i = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if not pid:
                code = 1
                try:
                    os.close(r)
                    ob, j = work[i]
                    if ob.shards > 1:
                        ob.shard = (j, ob.shards)
                    problem = run_one(I, ob, tier, deadline)
                    data = pickle.dumps((problem, {k: getattr(ob, k) for k in RESULTS}))
                    with os.fdopen(w, 'wb') as f:
                        f.write(data)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            os.close(w)
            running[r] = (i, pid, [])
        for r in select.select(list(running), [], [])[0]:
            chunk = os.read(r, 1 << 20)
            i, pid, parts = running[r]
            if chunk:
                parts.append(chunk)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del running[r]
            done[i] = b''.join(parts)
    problems = {}
    for i, (ob, j) in enumerate(work):
        if not done[i]:
            problems[ob] = 'the analysis of this obligation ended early'
            continue
        problem, data = pickle.loads(done[i])
        problems.setdefault(ob, problem)
        if problem:
            problems[ob] = problem
        for k in ('paths', 'undecided', 'cut', 'infeasible', 'assertions', 'secs', 'sources'):
            setattr(ob, k, getattr(ob, k) + data[k])
        ob.budget = ob.budget or data['budget']
        ob.functions = ob.functions | data['functions']
        for k, n in data['reasons'].items():
            ob.reasons[k] = ob.reasons.get(k, 0) + n
        for v in data['violations']:
            for o in ob.violations:
                if o['key'] == v['key']:
                    o['count'] += v['count']
                    break
            else:
                ob.violations.append(v)
    return [(ob, problems[ob]) for ob in obls]


def main(check, argv=None):
    argv = sys.argv[1:] if argv is None else argv
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    verbose = '-v' in argv
    only = [a for a in argv if not a.startswith('-')]
    t0 = time.time()
    deadline = t0 + (780 if tier == 'thorough' else 400)
    pid = check.pid
    try:
        I = load()
    except Broken as e:
        print('ANALYSIS-BROKEN %s: %s' % (pid, e))
        return 2
    viols = []
    struct_info = []
    undec_struct = []
    broken = []
    for name, fn, anchors, what in check.struct:
        if only and name not in only:
            continue
        S = StructCtx(I, check)
        try:
            found = list(fn(S) or ())
        except Broken as e:
            broken.append('%s: %s' % (name, e))
            continue
        except Unsupported as e:
            undec_struct.append('%s: %s' % (name, e))
            continue
        except PyRaise as e:
            undec_struct.append('%s: raise %r' % (name, e.exc))
            continue
        finally:
            I.rollback()
        struct_info.append({'rule': name, 'what': what, 'counts': S.counts, 'findings': len(found)})
        if not S.counts or not any(S.counts.values()):
            broken.append('%s: rule matched no construct' % name)
        for construct, fl, line, msg in found:
            viols.append({'ob': name, 'key': '%s/%s' % (name, construct), 'msg': msg,
                          'where': '%s:%s %s' % (fl, line, construct), 'branches': [], 'rule': what})
    for ob, problem in run_all(I, [o for o in check.obls if not only or o.name in only], tier, deadline):
        if problem:
            broken.append('%s: %s' % (ob.name, problem))
        for v in ob.violations:
            s = [x for x in v['sites'] if x]
            viols.append({'ob': ob.name, 'key': '%s/%s' % (ob.name, v['key']),
                          'msg': '%s (on %d paths)' % (v['msg'], v['count']),
                          'where': '; '.join('%s:%s %s' % x for x in s) or ', '.join(v['anchors']),
                          'branches': v['branches'], 'rule': ob.rule})
    known = [(k, d) for p, k, d in known_findings() if p == pid]
    new = []
    reported = set()
    for v in viols:
        hit = [(k, d) for k, d in known if v['key'] == k or (k.endswith('*') and v['key'].startswith(k[:-1]))]
        if hit:
            if hit[0][0] not in reported:
                reported.add(hit[0][0])
                print('KNOWN-FINDING: property=%s %s' % (pid, hit[0][1]))
        else:
            new.append(v)
    decided = sum(1 for o in check.obls if o.paths) + len(struct_info)
    total = len(check.obls) + len(check.struct)
    for o in check.obls:
        if verbose:
            print('  %-34s paths=%d undecided=%d cut=%d infeasible=%d asserts=%d viol=%d %.2fs%s' % (
                o.name, o.paths, o.undecided, o.cut, o.infeasible, o.assertions, len(o.violations), o.secs,
                ' BUDGET' if o.budget else ''))
            for k, n in sorted(o.reasons.items(), key=lambda x: -x[1])[:6]:
                print('      %5d %s' % (n, k))
    if verbose:
        for s in struct_info:
            print('  rule %-30s %r' % (s['rule'], s['counts']))
        for s in undec_struct:
            print('  undecided', s)
        for s in broken:
            print('  BROKEN', s)
    funcs = sorted(set('%s:%s:%d' % (f, n, l) for o in check.obls for f, n, l in o.functions if f.startswith('flatland')))
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': check.level,
        'coverage': {
            'explanation': check.explanation if hasattr(check, 'explanation') else check.title,
            'obligations': total,
            'discharged': sum(1 for o in check.obls if o.paths and not o.violations and not o.undecided and not o.cut and not o.budget)
            + sum(1 for s in struct_info if not s['findings']),
            'partially_decided': sum(1 for o in check.obls if o.paths and (o.undecided or o.cut or o.budget)),
            'abstract_paths': sum(o.paths for o in check.obls),
            'undecided_paths': sum(o.undecided for o in check.obls),
            'cut_paths': sum(o.cut for o in check.obls),
            'assertions_checked': sum(o.assertions for o in check.obls),
            'shape_bound_k': check.klimit[tier],
            'functions_analysed': len(funcs),
            'functions': funcs,
            'rules': [{'name': o.name, 'anchors': o.anchors, 'rule': o.rule, 'paths': o.paths,
                       'undecided': o.undecided, 'cut': o.cut, 'assertions': o.assertions,
                       'undecided_reasons': dict(sorted(o.reasons.items(), key=lambda x: -x[1])[:5])} for o in check.obls],
            'structural_rules': struct_info,
            'undecided_rules': undec_struct + broken,
            'sources': [{'file': rel, 'lines': len(open(path).read().split('\n'))} for rel, path in sorted(
                set((m.relpath, m.path) for m in I.sources.values()) | set(x for o in check.obls for x in o.sources)) if '/stubs/' not in path],
            'samples': [v['msg'] for v in viols][:5] or [o.name + ': ' + o.rule for o in check.obls[:5]],
        },
        'assumptions': check.assumptions + [
            'Models of Python 2.7 builtins and of six/re/datetime/decimal/blinker/urlparse in sa/lib.py are faithful.',
            'Container shapes are k-limited (shape_bound_k); undecided or cut paths are not claimed.',
            'Dictionary iteration follows one fixed order.'],
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if new:
        rd = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, pid + '.json')
        with open(rp, 'w') as f:
            json.dump(new, f, indent=1)
        for v in new:
            print('  %s: %s' % (v['where'], v['msg']))
            print('     rule [%s] %s' % (v['key'], v['rule']))
            if verbose or len(new) < 4:
                for b in v['branches'][-14:]:
                    print('       branch %s' % b)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    for b in broken:
        print('NOT-DECIDED %s: %s' % (pid, b))
    if not decided:
        print('ANALYSIS-BROKEN %s: nothing could be decided' % pid)
        return 2
    print('OK %s: %d obligations (%d fully discharged), %d abstract paths, %d undecided, %.1fs' % (
        pid, total, ev['coverage']['discharged'], ev['coverage']['abstract_paths'],
        ev['coverage']['undecided_paths'], ev['wall_s']))
    return 0
