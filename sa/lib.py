"""Models of the Python 2.7 builtins and of the external modules flatland uses."""
import ast as _ast
import math
import operator as _op
import re as _re
import string as _string

import os
import sys
from . import engine as E
from .engine import (BStr, Sym, Inst, ClassObj, FuncObj, BFn, Bound, Prop,
                     StaticM, ClassM, SuperObj, IterObj, SliceV, NOTIMPL,
                     PDict, AttrDict, Unsupported, Cut, Blocked, Infeasible, PyRaise,
                     ALLKINDS_SCALAR, NUMK, STRK, INF)

FRAME_FNS = {}


def is_str(v):
    return isinstance(v, str)


def conc(v):
    return v is None or isinstance(v, (bool, int, float, str))


def unbox(I, v):
    v = I.R(v)
    if isinstance(v, Inst) and not isinstance(v, (ClassObj, FuncObj)) and \
            isinstance(v.p, (bool, int, float, str, tuple, Sym)):
        return I.R(v.p)
    return v


def is_text_sym(I, v):
    return isinstance(v, Sym) and I.run.kinds[v] <= STRK


def py(I, v):
    """Concrete host value of an abstract value or raise KeyError."""
    v = unbox(I, v)
    if conc(v):
        return v
    if isinstance(v, tuple):
        return tuple(py(I, x) for x in v)
    raise KeyError


def back(v, bstr):
    if isinstance(v, str):
        return BStr(v) if bstr else str(v)
    if isinstance(v, tuple):
        return tuple(back(x, bstr) for x in v)
    return v


# ---------------------------------------------------------------- text
def concat(I, parts, bytes_=None):
    flat = []
    allb = True
    anyt = False
    for p in parts:
        p = unbox(I, p)
        if isinstance(p, Sym):
            k = I.kind1(p)
            p = I.R(p)
        if isinstance(p, Sym):
            if k not in STRK:
                I.throw('TypeError', BStr('expected a string, %s found' % k))
            if k == 'text':
                anyt = True
            flat.append(p)
        elif isinstance(p, str):
            if not isinstance(p, BStr):
                anyt = True
            flat.append(p)
        else:
            I.throw('TypeError', BStr('expected a string'))
    if anyt:
        out = []
        for p in flat:
            if isinstance(p, BStr):
                if not p.isascii():
                    I.throw('UnicodeDecodeError', BStr('ascii'))
            elif isinstance(p, Sym) and I.run.kinds[p] == frozenset(['bytes']):
                p = decode(I, p)
            out.append(p)
        flat = out
    terms = []
    for p in flat:
        if isinstance(p, Sym) and p.term[0] == 'concat':
            terms.extend(p.term[1:])
        elif isinstance(p, Sym):
            terms.append(p.term)
        else:
            terms.append(str(p))
    merged = []
    for t in terms:
        if t == '':
            continue
        if isinstance(t, str) and merged and isinstance(merged[-1], str):
            merged[-1] += t
        else:
            merged.append(t)
    isb = not anyt and bool(flat) if bytes_ is None else bytes_ and not anyt
    if not merged:
        return BStr('') if isb else u''
    if len(merged) == 1:
        if isinstance(merged[0], str):
            return BStr(merged[0]) if isb else merged[0]
        return I.run.terms[merged[0]]
    s = I.mk(('concat',) + tuple(merged), ['bytes' if isb else 'text'])
    if s not in I.run.truth and any(
            isinstance(t, str) or I.run.truth.get(I.run.terms.get(t)) for t in merged):
        I.run.truth[s] = True
    return s


def ascii_term(I, t):
    """Is the text or byte string t certainly ASCII?"""
    if isinstance(t, str):
        return t.isascii()
    if isinstance(t, tuple) and t:
        if t[0] == 'b':
            return t[1].isascii()
        if t[0] == 'repr':
            s = I.run.terms.get(t[1])
            if s is None:
                return not isinstance(t[1], tuple) or t[1][0] != 'id'
            return not I.run.kinds[s] & frozenset(['object', 'callable', 'list', 'dict', 'tuple', 'set'])
        if t[0] == 'fmt':
            return t[1][-1:] in 'diouxXeEfFgGr'
        if t[0] in ('str', 'decode'):
            n = I.run.terms.get(t[1])
            return n is not None and (t[0] == 'decode' or I.run.kinds[n] <= NUMK)
        if t[0] == 'concat':
            return all(ascii_term(I, x) for x in t[1:])
    return False


def decode(I, b):
    """implicit ascii decode of an unknown byte string"""
    b = I.R(b)
    if isinstance(b, BStr):
        if not b.isascii():
            I.throw('UnicodeDecodeError', BStr('ascii'))
        return str(b)
    if not ascii_term(I, b.term) and not I.decide(('ascii', b.term), 'ascii(%r)' % b):
        I.throw('UnicodeDecodeError', BStr('ascii'))
    t = I.mk(('decode', b.term), ['text'])
    if b in I.run.truth:
        I.run.truth[t] = I.run.truth[b]
    return t


def encode(I, t):
    t = I.R(t)
    if isinstance(t, str):
        if not t.isascii():
            I.throw('UnicodeEncodeError', BStr('ascii'))
        return BStr(t)
    if not ascii_term(I, t.term) and not I.decide(('ascii', t.term), 'ascii(%r)' % t):
        I.throw('UnicodeEncodeError', BStr('ascii'))
    if t.term[0] == 'decode':
        return I.run.terms[t.term[1]]
    b = I.mk(('encode', t.term), ['bytes'])
    if t in I.run.truth:
        I.run.truth[b] = I.run.truth[t]
    return b


def to_text(I, v, want_bytes=False):
    """unicode(v) / str(v)"""
    v = I.R(v)
    if isinstance(v, Inst) and not isinstance(v, (ClassObj, FuncObj)):
        names = ('__str__',) if want_bytes else ('__unicode__', '__str__')
        if isinstance(v.p, str) and not isinstance(v.p, BStr) or isinstance(v.p, Sym) and I.T['unicode'] in v.cls.mro:
            names = ('__str__',) if want_bytes else ('__unicode__',)     # of a subclass of unicode
        else:
            names += ('__repr__',)
        for nm in names:
            f, c = v.cls.lookup(nm)
            if f is not None and not (isinstance(f, BFn)):
                r = I.call(I.bind_attr(f, v, v.cls), [])
                return r if want_bytes else to_text(I, r)
        if isinstance(v.p, (int, float, str, Sym)):
            v = I.R(v.p)
        elif v.cls.is_exc:
            a = v.attrs.get('args', ())
            if not a:
                return BStr('') if want_bytes else u''
            return to_text(I, a[0], want_bytes)
        else:
            s = I.app('str', v, kinds=['bytes' if want_bytes else 'text'])
            I.run.truth.setdefault(s, True)
            return s
    if isinstance(v, Sym):
        k = I.kind1(v)
        v = I.R(v)
    if isinstance(v, Sym):
        if k == 'text':
            return encode(I, v) if want_bytes else v
        if k == 'bytes':
            return v if want_bytes else decode(I, v)
        s = I.mk(('str', v.term), ['bytes' if want_bytes else 'text'])
        I.run.truth.setdefault(s, True)
        return s
    if isinstance(v, BStr):
        return v if want_bytes else decode(I, v)
    if isinstance(v, str):
        return encode(I, v) if want_bytes else v
    if conc(v):
        r = py2_str(v)
        return BStr(r) if want_bytes else r
    if isinstance(v, Inst) and isinstance(v, ClassObj):
        r = "<class '%s'>" % v.name
        return BStr(r) if want_bytes else r
    s = I.app('str', v, kinds=['bytes' if want_bytes else 'text'])
    I.run.truth.setdefault(s, True)
    return s


def py2_str(v):
    if isinstance(v, float):
        return '%.12g' % v if v != int(v) else '%.1f' % v if abs(v) < 1e16 else repr(v)
    return str(v)


def py2_repr(I, v):
    v = I.R(v)
    if isinstance(v, BStr):
        return ascii(str(v))
    if isinstance(v, str):
        return 'u' + ascii(v)
    if conc(v):
        return repr(v)
    return None


def to_repr(I, v):
    v = I.R(v)
    if isinstance(v, Inst) and not isinstance(v, (ClassObj, FuncObj)):
        f, c = v.cls.lookup('__repr__')
        if f is not None and not isinstance(f, BFn):
            return I.call(I.bind_attr(f, v, v.cls), [])
    return plain_repr(I, v)


def plain_repr(I, v):
    """What the built-in type says."""
    v = I.R(v)
    if isinstance(v, Inst) and not isinstance(v, (ClassObj, FuncObj)) and isinstance(v.p, (int, float, str, Sym)):
        v = I.R(v.p)
    r = py2_repr(I, v)
    if r is not None:
        return BStr(r)
    busy = I.run.__dict__.setdefault('shown', [])
    if not any(v is b for b in busy) and len(busy) < 8:
        parts = None
        busy.append(v)
        try:
            if isinstance(v, tuple) or isinstance(v, Inst) and isinstance(v.p, tuple):
                t = v if isinstance(v, tuple) else v.p
                parts = [BStr('('), [[to_repr(I, x)] for x in t], BStr(',)' if len(t) == 1 else ')')]
            elif isinstance(v, Inst) and isinstance(v.p, list):
                parts = [BStr('['), [[to_repr(I, x)] for x in v.p], BStr(']')]
            elif isinstance(v, Inst) and isinstance(v.p, PDict):
                if len(v.p.items()) <= 1:
                    parts = [BStr('{'), [[to_repr(I, k), BStr(': '), to_repr(I, x)] for k, x in v.p.items()], BStr('}')]
                else:
                    # the order is not known
                    s = I.app('repr', v, kinds=['bytes'])
                    I.run.truth.setdefault(s, True)
                    parts = [BStr('{'), [[s]], BStr('}')]
        finally:
            busy.pop()
        if parts is not None:
            flat = [parts[0]]
            for i, x in enumerate(parts[1]):
                flat += ([BStr(', ')] if i else []) + x
            return concat(I, flat + [parts[2]], True)
    s = I.app('repr', v, kinds=['bytes'])
    I.run.truth.setdefault(s, True)
    return s


_fmt_re = _re.compile(r'%(?:\((.*?)\))?([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?([a-zA-Z%])')


def str_format(I, fmt, arg):
    arg = I.R(arg)
    if isinstance(arg, Sym):
        I.kind1(arg)
        arg = I.R(arg)
    parts = []
    pos = 0
    args = list(arg) if isinstance(arg, tuple) else [arg]
    used = 0
    isb = isinstance(fmt, BStr)
    mapping = False
    for m in _fmt_re.finditer(fmt):
        parts.append(type(fmt)(fmt[pos:m.start()]))
        pos = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == '%':
            parts.append(type(fmt)('%'))
            continue
        if key is not None:
            mapping = True
            if isinstance(arg, Inst) or isinstance(arg, Sym):
                v = I.getitem(arg, BStr(key) if isb else key)
            else:
                I.throw('TypeError', BStr('format requires a mapping'))
        else:
            if used >= len(args):
                I.throw('TypeError', BStr('not enough arguments for format string'))
            v = args[used]
            used += 1
        v = I.R(v)
        spec = '%' + flags + (width or '') + ('.' + prec if prec else '') + conv
        if conv == 's':
            if isb:
                if isinstance(v, str) and not isinstance(v, BStr) or (
                        isinstance(v, Sym) and I.kind1(v) == 'text'):
                    x = I.R(v)
                else:
                    x = to_text(I, v, True)
            else:
                x = to_text(I, v)
            if flags or width or prec:
                x = I.R(x)
                if isinstance(x, str):
                    x = type(x)(spec % str(x))
                else:
                    x = I.mk(('fmt', spec, I.tkey(x)), ['bytes' if isb else 'text'])
            parts.append(x)
        elif conv == 'r':
            parts.append(to_repr(I, v))
        elif conv in 'dioxXufFeEgG':
            parts.append(fmt_num(I, spec, conv, v, isb))
        elif conv == 'c':
            parts.append(to_text(I, v))
        else:
            raise Unsupported('format %r' % conv)
    parts.append(type(fmt)(fmt[pos:]))
    if isinstance(arg, tuple) and used < len(args) and not mapping:
        I.throw('TypeError', BStr('not all arguments converted during string formatting'))
    if not isinstance(arg, tuple) and not mapping and used == 0:
        ok = isinstance(arg, Inst) and not isinstance(arg, (ClassObj, FuncObj)) and \
            arg.cls.lookup('__getitem__')[0] is not None
        if not ok:
            I.throw('TypeError', BStr('not all arguments converted during string formatting'))
    return concat(I, parts, bytes_=isb)


def new_format(I, fmt, args, kw):
    """fmt.format(*args, **kw)"""
    isb = isinstance(fmt, BStr)
    cls = type(fmt)
    parts = []
    auto = 0
    try:
        fields = list(_string.Formatter().parse(str(fmt)))
    except ValueError as e:
        I.throw('ValueError', BStr(str(e)))
    for lit, field, spec, conv in fields:
        parts.append(cls(lit))
        if field is None:
            continue
        m = _re.match(r'[^.\[]*', field)
        first, rest = m.group(), field[m.end():]
        if first == '':
            first = str(auto)
            auto += 1
        if first.isdigit():
            if int(first) >= len(args):
                I.throw('IndexError', BStr('tuple index out of range'))
            v = args[int(first)]
        else:
            if first not in kw:
                I.throw('KeyError', BStr(first))
            v = kw[first]
        for a, i in _re.findall(r'\.([^.\[]+)|\[([^\]]+)\]', rest):
            v = I.getattr(v, a) if a else I.getitem(v, int(i) if i.isdigit() else BStr(i) if isb else i)
        if conv == 'r':
            v = to_repr(I, v)
        elif conv == 's':
            v = to_text(I, v, True)
        v = I.R(v)
        if isinstance(v, Inst) and not isinstance(v, (ClassObj, FuncObj)):
            f, c = v.cls.lookup('__format__')
            if f is not None and not isinstance(f, BFn):
                parts.append(I.call(I.bind_attr(f, v, v.cls), [BStr(spec) if isb else spec]))
                continue
        if not spec:
            parts.append(to_text(I, v, isb))
            continue
        if '{' in spec:
            raise Unsupported('str.format with a computed specification')
        m = _re.match(r'^(?:(0)(\d+))?d?$', spec)
        if isinstance(v, Sym) or isinstance(v, Inst) and isinstance(v.p, Sym):
            n = unbox(I, v)
            k = I.kind1(n)
            if m and k in ('int', 'long'):
                parts.append(fmt_num(I, '%' + (m.group(1) or '') + (m.group(2) or '') + 'd', 'd', n, isb))
                continue
            if spec == 's' and k in ('text', 'bytes'):
                parts.append(to_text(I, v, isb))
                continue
            raise Unsupported('str.format specification %r' % spec)
        n = unbox(I, v)
        if not isinstance(n, (bool, int, float, str)):
            raise Unsupported('str.format specification %r' % spec)
        try:
            parts.append(cls(format(str(n) if isinstance(n, str) else n, spec)))
        except ValueError as e:
            I.throw('ValueError', BStr(str(e)))
    return concat(I, parts, bytes_=isb)


def fmt_num(I, spec, conv, v, isb):
    v = unbox(I, v)
    if isinstance(v, Sym):
        k = I.kind1(v)
        v = I.R(v)
    if isinstance(v, (bool, int, float)):
        sp = spec.replace('u', 'd') if conv == 'u' else spec
        r = sp % (int(v) if conv in 'diu' else v)
        return BStr(r) if isb else r
    if isinstance(v, Sym):
        if k in NUMK:
            if k == 'decimal':
                nanable(I, v, 'fmt')
            elif k in ('int', 'long') and conv in 'diu':
                spec = spec[:-1] + 'd'
                if spec == '%d':
                    return to_text(I, v, isb)
            s = I.mk(('fmt', spec, v.term), ['bytes' if isb else 'text'])
            I.run.truth.setdefault(s, True)
            return s
        I.throw('TypeError', BStr('a number is required, not %s' % k))
    f = None
    if isinstance(v, Inst):
        f, c = v.cls.lookup('__int__' if conv in 'diu' else '__float__')
    if f is not None:
        raise Unsupported('number protocol in format')
    I.throw('TypeError', BStr('a number is required'))


def nanable(I, v, what):
    """Decimal NaNs: conversions of, and comparisons with, signalling ones raise."""
    t = v.term
    if t[0] in ('Decimal',) or t[0] == 'sym':
        if I.decide(('isnan', t), 'isnan(%r)' % v):
            if what == 'isnan' or I.decide(('snan', t), 'snan(%r)' % v):
                I.throw('TypeError' if what == 'fmt' else 'InvalidOperation', BStr('NaN'))


CONST_STR_METHODS = set('''capitalize center count decode encode endswith
expandtabs find index isalnum isalpha isdigit islower isspace istitle isupper
join ljust lower lstrip partition replace rfind rindex rjust rpartition
rsplit rstrip split splitlines startswith strip swapcase title translate
upper zfill format isnumeric isdecimal'''.split())


def str_attr(I, s, name):
    if name == '__len__':
        return BFn('len', lambda I, a, kw: py_len(I, s))
    if name == '__contains__':
        return BFn(name, lambda I, a, kw: contains(I, s, a[0]))
    if name == '__getitem__':
        return BFn(name, lambda I, a, kw: getitem(I, s, a[0]))
    if name == '__iter__' and False:
        pass
    if name in ('__eq__', '__ne__'):
        return BFn(name, lambda I, a, kw: I.eq(s, a[0]) == (name == '__eq__'))
    if name == '__add__':
        return BFn(name, lambda I, a, kw: concat(I, [s, a[0]]))
    if name == '__mod__':
        return BFn(name, lambda I, a, kw: binop(I, '%', s, a[0]))
    if name == '__hash__':
        return BFn(name, lambda I, a, kw: I.app('hash', s, kinds=['int']))
    if name in CONST_STR_METHODS:
        return BFn('str.' + name, lambda I, a, kw: strcall(I, s, name, a, kw))
    return None


def kind_of_str(I, s):
    s = I.R(s)
    if isinstance(s, BStr):
        return 'bytes'
    if isinstance(s, str):
        return 'text'
    return I.kind1(s)


def strcall(I, s, name, args, kw):
    s = unbox(I, s)
    args = [unbox(I, a) for a in args]
    if name == 'join':
        items = list(iterate(I, args[0]))
        parts = []
        for i, x in enumerate(items):
            if i:
                parts.append(s)
            parts.append(x)
        if not parts:
            return s[:0] if isinstance(s, str) and not isinstance(s, BStr) else (BStr('') if isinstance(s, BStr) else u'')
        if isinstance(s, str) and not isinstance(s, BStr):
            parts.append(u'')
        return concat(I, parts)
    k = kind_of_str(I, s)
    s = I.R(s)
    bstr = k == 'bytes'
    if isinstance(s, str):
        try:
            pa = [py(I, a) for a in args]
            pk = dict((kk, py(I, v)) for kk, v in kw.items())
            if name == 'decode':
                enc = str(pa[0]).lower() if pa else 'ascii'
                try:
                    return str(s).encode('latin-1').decode(enc, *[str(x) for x in pa[1:]])
                except UnicodeError:
                    I.throw('UnicodeDecodeError', BStr('decode'))
            if name == 'encode':
                enc = str(pa[0]).lower() if pa else 'ascii'
                try:
                    return BStr(str(s).encode(enc, *[str(x) for x in pa[1:]]).decode('latin-1'))
                except UnicodeError:
                    I.throw('UnicodeEncodeError', BStr('encode'))
            if name == 'format':
                raise KeyError
            if name == 'translate' and bstr:
                tbl, dele = pa[0], pa[1] if len(pa) > 1 else ''
                return BStr(''.join(c if tbl is None else tbl[ord(c)] for c in str(s) if c not in dele))
            rb = bstr and not any(isinstance(x, str) and not isinstance(x, BStr) for x in pa)
            conv = [str(x) if isinstance(x, str) else x for x in pa]
            try:
                r = getattr(str(s), name)(*conv, **pk)
            except (TypeError, ValueError) as e:
                I.throw(type(e).__name__, BStr(str(e)))
            if isinstance(r, list):
                return I.new_list([back(x, rb) for x in r])
            return back(r, rb)
        except KeyError:
            pass
    if name == 'format':
        if not isinstance(s, str):
            raise Unsupported('str.format of an unknown format')
        return new_format(I, s, args, kw)
    if name in ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'title', 'capitalize', 'swapcase'):
        if isinstance(s, Sym) and s.term[0] == name and tuple(s.term[2:]) == tuple(I.tkey(a) for a in args):
            return s
        r = I.app(name, s, *args, kinds=[k])
        if name in ('lower', 'upper', 'title', 'capitalize', 'swapcase'):
            if isinstance(s, Sym) and s in I.run.truth:
                I.run.truth.setdefault(r, I.run.truth[s])
        elif isinstance(s, Sym) and I.run.truth.get(s) is False:
            I.run.truth[r] = False
        return r
    if name in ('startswith', 'endswith') and args:
        a0 = args[0]
        if isinstance(a0, tuple):
            return any(I.truth(strcall(I, s, name, [x], {})) for x in a0)
        a0 = I.R(a0)
        if a0 == '' and isinstance(a0, str):
            return True
        if isinstance(s, Sym) and s.term[0] == 'repr' and name == 'startswith' and isinstance(a0, str) and len(a0) == 1:
            of = I.run.terms.get(s.term[1])
            if of is not None and set(I.run.kinds[of]) == set(['text']):
                return str(a0) == 'u'
        if isinstance(s, Sym) and s.term[0] == 'concat' and isinstance(a0, str):
            edge = s.term[1] if name == 'startswith' else s.term[-1]
            if isinstance(edge, str):
                n = min(len(edge), len(a0))
                if name == 'startswith':
                    if edge[:n] != a0[:n]:
                        return False
                    if len(edge) >= len(a0):
                        return True
                else:
                    if edge[-n:] != a0[-n:]:
                        return False
                    if len(edge) >= len(a0):
                        return True
        if isinstance(s, Sym) and isinstance(a0, Sym) and s.term == a0.term:
            return True
        if isinstance(s, Sym) and I.run.truth.get(s) is False:
            return False
        r = I.decide((name, I.tkey(s), I.tkey(a0)))
        if r and isinstance(s, Sym) and isinstance(a0, str) and a0:
            if I.run.truth.get(s) is False:
                raise Infeasible()
            I.run.truth[s] = True
        return r
    if name.startswith('is'):
        if isinstance(s, Sym) and I.run.truth.get(s) is False:
            return False
        r = I.decide((name, I.tkey(s)))
        if r and isinstance(s, Sym):
            I.run.truth[s] = True
        return r
    if name in ('zfill', 'rjust') and isinstance(s, Sym):
        t = s.term
        if t[0] in ('encode', 'decode'):
            t = t[1]
        n = I.run.terms.get(t[1]) if t[0] == 'str' else None
        if n is not None and I.run.kinds[n] <= frozenset(['int', 'long']) and isinstance(I.R(args[0]), int):
            if name == 'zfill' or len(args) > 1 and I.R(args[1]) == '0' and I.order(n, 0, ['eq', 'gt']):
                z = I.mk(('fmt', '%%0%dd' % I.R(args[0]), n.term), [k])
                I.run.truth.setdefault(z, True)
                return z
    if name in ('replace', 'translate', 'center', 'ljust', 'rjust', 'zfill', 'expandtabs'):
        return I.app(name, s, *args, kinds=[k])
    if name in ('find', 'rfind', 'index', 'rindex', 'count'):
        t = args[0]
        has = contains(I, s, t)
        if not has:
            if 'index' in name:
                I.throw('ValueError', BStr('substring not found'))
            return 0 if name == 'count' else -1
        r = I.app(name, s, *args, kinds=['int'])
        I.run.iv.setdefault(r, (1 if name == 'count' else 0, INF))
        return r
    if name in ('split', 'rsplit'):
        if args and args[0] is not None:
            sep = args[0]
            if len(args) < 2 and 'maxsplit' not in kw:
                n = 1
                while n < 3 and I.decide(('pieces', I.tkey(s), I.tkey(sep), n), 'more than %d pieces of %r' % (n, s)):
                    n += 1
            else:
                m = I.R(args[1])
                n = 1
                while n <= m and n < 3 and I.decide(('pieces', I.tkey(s), I.tkey(sep), n)):
                    n += 1
            if n == 1:
                I.run.bools[('in', I.tkey(sep), I.tkey(s))] = False
                return I.new_list([s])
            I.run.bools[('in', I.tkey(sep), I.tkey(s))] = True
            out = [I.app('piece', s, sep, i, n, kinds=[k]) for i in range(n)]
            for o in out:
                I.run.bools[('in', I.tkey(sep), o.term)] = False
            return I.new_list(out)
        n = 0
        while n < 3 and I.decide(('words', I.tkey(s), n)):
            n += 1
        out = [I.app('word', s, i, kinds=[k]) for i in range(n)]
        for o in out:
            I.run.truth[o] = True
        return I.new_list(out)
    if name in ('partition', 'rpartition'):
        sep = args[0]
        if I.decide(('in', I.tkey(sep), I.tkey(s))):
            return (I.app(name, s, sep, 0, kinds=[k]), sep, I.app(name, s, sep, 2, kinds=[k]))
        e = BStr('') if bstr else u''
        return (s, e, e) if name == 'partition' else (e, e, s)
    if name == 'splitlines':
        return I.new_list([s])
    if name == 'decode':
        enc = args[0] if args else BStr('ascii')
        safe = isinstance(s, Sym) and s.term[0] == 'repr' and ascii_term(I, s.term)
        if len(args) < 2 and not safe and not I.decide(('decodes', I.tkey(s), I.tkey(enc))):
            I.throw('UnicodeDecodeError', BStr('decode'))
        return I.app('decode', s, *args, kinds=['text'])
    if name == 'encode':
        enc = args[0] if args else BStr('ascii')
        full = isinstance(enc, str) and str(enc).lower().replace('-', '') in ('utf8', 'utf16')
        if len(args) < 2 and not full and not I.decide(('encodes', I.tkey(s), I.tkey(enc))):
            I.throw('UnicodeEncodeError', BStr('encode'))
        return I.app('encode', s, *args, kinds=['bytes'])
    raise Unsupported('str.%s on symbolic text' % name)


# ---------------------------------------------------------------- numbers
def convert_int(I, args, kw, kind='int'):
    v = unbox(I, args[0]) if args else 0
    if isinstance(v, Sym):
        k = I.kind1(v)
        v = I.R(v)
    base = args[1:] and [py(I, args[1])] or []
    if v is None:
        I.throw('TypeError', BStr('int() argument must be a string or a number, not NoneType'))
    if conc(v):
        try:
            if isinstance(v, str):
                if '_' in v:
                    raise ValueError('invalid literal: %s' % v)
                if kind == 'int':
                    return int(str(v), *base)
                return float(str(v))
            return int(v) if kind == 'int' else float(v)
        except ValueError as e:
            I.throw('ValueError', BStr(str(e)))
        except OverflowError as e:
            I.throw('OverflowError', BStr(str(e)))
    if isinstance(v, Sym):
        if k in ('int', 'bool'):
            if kind == 'int':
                return v
            return I.app('float', v, kinds=['float'])
        if k == 'float':
            if kind == 'float':
                return v
            if I.decide(('isnan', v.term)):
                I.throw('ValueError', BStr('cannot convert float NaN to integer'))
            if I.decide(('isinf', v.term)):
                I.throw('OverflowError', BStr('cannot convert float infinity to integer'))
            return I.app('int', v, kinds=['int'])
        if k == 'decimal':
            if I.decide(('isnan', v.term)):
                I.throw('ValueError', BStr('cannot convert NaN to integer'))
            return I.app(kind, v, kinds=[kind])
        if k in STRK:
            dg = I.run.bools.get(('isdigit', v.term)) or digit_group(I, v)
            if I.run.truth.get(v) is False:
                I.throw('ValueError', BStr('invalid literal'))
            if not dg and not I.decide((kind + '-parses', v.term), '%s(%r) parses' % (kind, v)):
                if k == 'text' and I.decide(('nonascii', v.term)):
                    I.throw('UnicodeEncodeError', BStr('decimal codec'))
                I.throw('ValueError', BStr('invalid literal for %s()' % kind))
            if I.run.truth.get(v) is None:
                I.run.truth[v] = True
            r = I.app(kind, v, kinds=[kind])
            if dg and isinstance(dg, tuple) and kind == 'int':
                I.run.iv.setdefault(r, (0, 10 ** dg[1] - 1 if dg[1] < 20 else INF))
            return r
        if k == 'object':
            if not I.decide((kind + '-able', v.term)):
                I.throw('TypeError', BStr('int() argument must be a string or a number'))
            return I.app(kind, v, kinds=[kind])
        I.throw('TypeError', BStr('int() argument must be a string or a number'))
    if isinstance(v, Inst):
        f, c = v.cls.lookup('__%s__' % kind)
        if f is not None:
            return I.call(I.bind_attr(f, v, v.cls), [])
    I.throw('TypeError', BStr('int() argument must be a string or a number'))


def digit_group(I, v):
    """(min,max) width when v is a regex group that matches digits only."""
    t = v.term
    while t and t[0] in ('strip',):
        t = t[1]
    if t[0] == 'group':
        return regroup_digits(t[1], t[2])
    return None


def regroup_digits(pat, idx):
    import re._parser as sp
    import re._constants as sc
    try:
        tree = sp.parse(pat)
    except Exception:
        return None
    gi = tree.state.groupdict.get(idx, idx) if isinstance(idx, str) else idx
    found = []

    def walk(seq):
        for op, av in seq:
            if op is sc.SUBPATTERN:
                if av[0] == gi:
                    found.append(av[3])
                walk(av[3])
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                walk(av[2])
            elif op is sc.BRANCH:
                for b in av[1]:
                    walk(b)
            elif op in (sc.ASSERT, sc.ASSERT_NOT):
                walk(av[1])
    walk(tree)
    if not found:
        return None

    def width(seq):
        lo = hi = 0
        for op, av in seq:
            if op is sc.IN and all(
                    (o is sc.CATEGORY and a is sc.CATEGORY_DIGIT) or
                    (o is sc.RANGE and a[0] >= 48 and a[1] <= 57) or
                    (o is sc.LITERAL and 48 <= a <= 57) for o, a in av):
                lo, hi = lo + 1, hi + 1
            elif op is sc.LITERAL and 48 <= av <= 57:
                lo, hi = lo + 1, hi + 1
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                w = width(av[2])
                if w is None:
                    return None
                lo += w[0] * int(av[0])
                hi += w[1] * (int(av[1]) if av[1] is not sc.MAXREPEAT else 1000)
            elif op is sc.SUBPATTERN:
                w = width(av[3])
                if w is None:
                    return None
                lo, hi = lo + w[0], hi + w[1]
            else:
                return None
        return lo, hi
    w = width(found[0])
    if w is None or w[0] == 0:
        return None
    return w


def group_optional(pat, idx):
    import re._parser as sp
    import re._constants as sc
    tree = sp.parse(pat)
    gi = tree.state.groupdict.get(idx, idx) if isinstance(idx, str) else idx
    res = []

    def walk(seq, opt):
        for op, av in seq:
            if op is sc.SUBPATTERN:
                if av[0] == gi:
                    res.append(opt)
                walk(av[3], opt)
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                walk(av[2], opt or av[0] == 0)
            elif op is sc.BRANCH:
                for b in av[1]:
                    walk(b, True)
    walk(tree, False)
    if not res:
        return None
    return any(res)


def group_nonempty(pat, idx):
    import re._parser as sp
    import re._constants as sc
    tree = sp.parse(pat)
    gi = tree.state.groupdict.get(idx, idx) if isinstance(idx, str) else idx
    res = []

    def walk(seq):
        for op, av in seq:
            if op is sc.SUBPATTERN:
                if av[0] == gi:
                    res.append(av[3].getwidth()[0] > 0)
                walk(av[3])
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                walk(av[2])
            elif op is sc.BRANCH:
                for b in av[1]:
                    walk(b)
    walk(tree)
    return bool(res) and all(res)


def binop(I, o, a, b):
    a0, b0 = I.R(a), I.R(b)
    d = I.DUNDER.get(o, 'div')
    for x, y, nm in ((a0, b0, '__%s__' % d), (b0, a0, '__r%s__' % d)):
        if isinstance(x, Inst) and not isinstance(x, FuncObj):
            f, c = x.cls.lookup(nm)
            if f is not None and not (isinstance(f, BFn) and x.p is not None and not isinstance(x.p, (list, PDict))):
                r = I.call(I.bind_attr(f, x, x.cls), [y])
                if r is not NOTIMPL:
                    return r
    a, b = unbox(I, a0), unbox(I, b0)
    if o == '%' and (isinstance(a, str) or is_text_sym(I, a)):
        if isinstance(a, str):
            return str_format(I, a, b0)
        if isinstance(a, Sym):
            I.run.events.append(('format', a, b0, I.site()))
            return I.app('mod', a, b0, kinds=['text'])
    if isinstance(a, Sym) and len(I.run.kinds[a]) > 1 and not I.run.kinds[a] <= NUMK:
        I.kind1(a)
        a = unbox(I, a)
    if isinstance(b, Sym) and len(I.run.kinds[b]) > 1 and not I.run.kinds[b] <= NUMK:
        I.kind1(b)
        b = unbox(I, b)
    num = lambda x: isinstance(x, (bool, int, float)) or (isinstance(x, Sym) and I.run.kinds[x] <= NUMK)
    if num(a) and num(b):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            try:
                if o == '/':
                    if isinstance(a, int) and isinstance(b, int):
                        return a // b
                    return a / b
                return {'+': _op.add, '-': _op.sub, '*': _op.mul, '//': _op.floordiv,
                        'truediv': _op.truediv, '%': _op.mod, '**': _op.pow,
                        '&': _op.and_, '|': _op.or_, '^': _op.xor,
                        '<<': _op.lshift, '>>': _op.rshift}[o](a, b)
            except ZeroDivisionError:
                I.throw('ZeroDivisionError', BStr('division by zero'))
            except TypeError as e:
                I.throw('TypeError', BStr(str(e)))
        if o in '+-':
            la, lb = I.lin(a), I.lin(b)
            co = dict(la[0])
            sg = 1 if o == '+' else -1
            for s, k in lb[0].items():
                co[s] = co.get(s, 0) + sg * k
            return I.mklin(co, la[1] + sg * lb[1])
        if o == '*' and (not isinstance(a, Sym) or not isinstance(b, Sym)):
            c, s = (a, b) if not isinstance(a, Sym) else (b, a)
            la = I.lin(s)
            return I.mklin(dict((x, k * c) for x, k in la[0].items()), la[1] * c)
        if o in ('&', '|') and I.is_boolish(a) and I.is_boolish(b):
            ta, tb = I.truth(a), I.truth(b)
            return (ta and tb) if o == '&' else (ta or tb)
        if o in ('//', '%', '/', 'truediv'):
            if not isinstance(b, Sym) and b == 0:
                I.throw('ZeroDivisionError', BStr('division by zero'))
            if isinstance(b, Sym) and I.eq(b, 0):
                I.throw('ZeroDivisionError', BStr('division by zero'))
            if isinstance(b, int) and b > 0 and o != 'truediv' and isinstance(a, Sym) and kinds_int(I, a):
                dm = lin_divmod(I, a, b)
                if dm is not None:
                    return dm[1] if o == '%' else dm[0]
            r = I.app(o, a, b, kinds=['int'] if kinds_int(I, a) and kinds_int(I, b) and o != 'truediv' else ['float', 'decimal'])
            if o == '%' and isinstance(b, int) and b > 0 and isinstance(r, Sym):
                I.run.iv.setdefault(r, (0, b - 1))
            if o == '//' and isinstance(b, int) and b > 0 and isinstance(a, Sym) and isinstance(r, Sym):
                lo, hi = I.run.iv.get(a, (-INF, INF))
                I.run.iv.setdefault(r, (lo // b if lo > -INF else lo, hi // b if hi < INF else hi))
            return r
        return I.app(o, a, b, kinds=['int'] if kinds_int(I, a) and kinds_int(I, b) else ['float'])
    strish = lambda x: isinstance(x, str) or is_text_sym(I, x)
    if o == '+':
        if strish(a) and strish(b):
            return concat(I, [a, b])
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
    if o == '*':
        if isinstance(b, (str, tuple)) and isinstance(a, int):
            a, b = b, a
        if isinstance(a, str) and isinstance(b, int):
            return type(a)(a * b)
        if isinstance(a, tuple) and isinstance(b, int):
            return a * b
    if isinstance(a, Inst) and isinstance(b, Inst) and isinstance(a.p, list) and I.is_setlike(a) and I.is_setlike(b):
        if o == '|':
            return I.new_set(a.p + b.p)
        if o == '&':
            return I.new_set([x for x in a.p if contains(I, b, x)])
        if o == '-':
            return I.new_set([x for x in a.p if not contains(I, b, x)])
        if o == '^':
            return I.new_set([x for x in a.p if not contains(I, b, x)] + [x for x in b.p if not contains(I, a, x)])
    for x in (a, b):
        if isinstance(x, Sym) and I.run.kinds[x] & frozenset(['object', 'date', 'datetime', 'time']):
            return I.app(o, a, b, kinds=ALLKINDS_SCALAR)
    I.throw('TypeError', BStr('unsupported operand type(s) for %s: %r and %r' % (o, a, b)))


def lin_divmod(I, a, b):
    """divmod of a linear form by a positive constant, when its non-multiple part is bounded."""
    co, c = I.lin(a)
    if not isinstance(c, int) or not all(isinstance(k, int) for k in co.values()):
        return None
    mult = dict((s, k) for s, k in co.items() if k % b == 0)
    rest = dict((s, k) for s, k in co.items() if k % b)
    cq, cr = divmod(c, b)
    lo, hi = I.lin_range(rest, cr)
    if lo == -INF or hi == INF or (hi // b) - (lo // b) > 3:
        return None
    rsym = I.mklin(rest, cr)
    q = int(lo // b)
    while q < hi // b and not I.numcmp(rsym, (q + 1) * b, frozenset(['lt'])):
        q += 1
    return (I.mklin(dict((s, k // b) for s, k in mult.items()), cq + q),
            I.mklin(rest, cr - q * b))


def kinds_int(I, x):
    if isinstance(x, (bool, int)):
        return True
    return isinstance(x, Sym) and I.run.kinds[x] <= frozenset(['int', 'bool'])


# library types known to have neither length nor members
PLAIN = frozenset('''object type NoneType bool int long float complex Decimal function instancemethod builtin_function property
staticmethod classmethod super generator slice NotImplementedType ellipsis module date datetime time timedelta tzinfo opaque
Pattern Match frame Lock Signal code traceback local'''.split())


def lacks(I, o, msg, also=()):
    """The TypeError of an operation *o* has not, or no answer where its library type is only partly modelled."""
    if isinstance(o, Inst) and not isinstance(o, (ClassObj, FuncObj)):
        base = I.T['BaseException']
        for c in o.cls.mro:
            if c.builtin and c.name not in PLAIN and c.name not in also and base not in c.mro:
                raise Unsupported('%s object: %s' % (c.name, msg))
    I.throw('TypeError', BStr(msg))


ITERABLES = ('list', 'tuple', 'dict', 'set', 'frozenset', 'str', 'unicode', 'basestring', 'xrange')
MEMBERLESS = ('set', 'frozenset')
FROZEN = ('set', 'frozenset', 'tuple', 'str', 'unicode', 'basestring', 'xrange')


class SymRange(object):
    def __init__(self, args):
        self.args = args


def py_len(I, v):
    v = I.R(v)
    if isinstance(v, (str, tuple)):
        return len(v)
    if isinstance(v, Inst) and not isinstance(v, (ClassObj, FuncObj)):
        f, c = v.cls.lookup('__len__')
        if f is not None and not isinstance(f, BFn):
            return I.call(I.bind_attr(f, v, v.cls), [])
        if isinstance(v.p, (list, PDict)):
            return len(v.p)
        if isinstance(v.p, (str,)):
            return len(v.p)
        if isinstance(v.p, (range, SymRange)):
            return I.call(I.bind_attr(f, v, v.cls), [])
    if isinstance(v, Sym):
        k = I.kind1(v)
        v = I.R(v)
        if not isinstance(v, Sym):
            return py_len(I, v)
        if k in STRK:
            n = I.mk(('len', v.term), ['int'])
            t = I.run.truth.get(v)
            if isinstance(I.R(n), Sym) and n not in I.run.iv:
                I.run.iv[n] = (1 if t else 0, INF)
                if t is False:
                    I.run.bind[n] = 0
            return n
        if k == 'object':
            if not I.decide(('has-len', v.term)):
                I.throw('TypeError', BStr('object has no len()'))
            n = I.mk(('len', v.term), ['int'])
            I.run.iv.setdefault(n, (0, INF))
            return n
    lacks(I, v, 'object of type %r has no len()' % (v,))


# ---------------------------------------------------------------- containers
def norm_index(I, i, n, what='list'):
    i = unbox(I, i)
    if isinstance(i, Sym):
        k = I.kind1(i)
        i = I.R(i)
    if isinstance(i, Sym):
        if k not in ('int', 'bool'):
            I.throw('TypeError', BStr('%s indices must be integers' % what))
        opts = list(range(-n, n)) + ['out']
        # decide by equality with each index, canonical first
        for j in range(n):
            if I.eq(i, j):
                return j
        for j in range(-n, 0):
            if I.eq(i, j):
                return j + n
        I.throw('IndexError', BStr('%s index out of range' % what))
    if not isinstance(i, int):
        I.throw('TypeError', BStr('%s indices must be integers, not %r' % (what, i)))
    if i < 0:
        i += n
    if i < 0 or i >= n:
        I.throw('IndexError', BStr('%s index out of range' % what))
    return i


def norm_slice(I, s, n):
    vals = []
    for x in (s.start, s.stop, s.step):
        x = unbox(I, x)
        if isinstance(x, Sym):
            x = small_int(I, x, n)
        if x is not None and not isinstance(x, int):
            I.throw('TypeError', BStr('slice indices must be integers or None'))
        vals.append(x)
    if vals[2] == 0:
        I.throw('ValueError', BStr('slice step cannot be zero'))
    return slice(*vals)


def small_int(I, x, n):
    k = I.kind1(x)
    x = I.R(x)
    if not isinstance(x, Sym):
        return x
    for j in range(0, n + 1):
        if I.eq(x, j):
            return j
    for j in range(-n, 0):
        if I.eq(x, j):
            return j
    if I.order(x, 0, ['gt']):
        return n + 1
    return -n - 1


def getitem(I, o, i):
    o = I.R(o)
    if isinstance(o, Inst) and not isinstance(o, (ClassObj, FuncObj)):
        f, c = o.cls.lookup('__getitem__')
        if f is not None:
            if isinstance(i, SliceV):
                g, gc = o.cls.lookup('__getslice__')
                if g is not None and not isinstance(g, BFn) and i.step is None:
                    return I.call(I.bind_attr(g, o, o.cls), [
                        0 if i.start is None else i.start,
                        2147483647 if i.stop is None else i.stop])
            return I.call(I.bind_attr(f, o, o.cls), [i])
        o = unbox(I, o)
    if isinstance(o, Sym):
        ks = I.run.kinds[o]
        k = I.kind1(o)
        o = I.R(o)
        if isinstance(o, Sym):
            if k in STRK:
                if isinstance(i, SliceV):
                    return I.app('slice', o, i.start, i.stop, i.step, kinds=[k])
                i = unbox(I, i)
                if I.run.truth.get(o) is False:
                    I.throw('IndexError', BStr('string index out of range'))
                if isinstance(i, int) and i in (0, -1):
                    if not I.truth(o):
                        I.throw('IndexError', BStr('string index out of range'))
                elif not I.decide(('hasindex', o.term, I.tkey(i))):
                    I.throw('IndexError', BStr('string index out of range'))
                ch = I.app('char', o, i, kinds=[k])
                I.run.truth[ch] = True
                return ch
            if k == 'object':
                if isinstance(o.meta, dict) and 'getitem' in o.meta:
                    return o.meta['getitem'](I, o, i)
                if not I.decide(('subscriptable', o.term)):
                    I.throw('TypeError', BStr('object is not subscriptable'))
                if not I.decide(('hasitem', o.term, I.tkey(i))):
                    I.throw('KeyError', i)
                return I.app('item', o, i, kinds=ALLKINDS_SCALAR)
            I.throw('TypeError', BStr('object is not subscriptable'))
        return getitem(I, o, i)
    if isinstance(o, (str, tuple)):
        if isinstance(i, SliceV):
            r = o[norm_slice(I, i, len(o))]
            return type(o)(r) if isinstance(o, BStr) else r
        j = norm_index(I, i, len(o), 'tuple' if isinstance(o, tuple) else 'string')
        r = o[j]
        return BStr(r) if isinstance(o, BStr) else r
    lacks(I, o, '%r is not subscriptable' % (o,), MEMBERLESS)


def setitem(I, o, i, v):
    o = I.R(o)
    if isinstance(o, Inst) and not isinstance(o, (ClassObj, FuncObj)):
        if isinstance(i, SliceV) and i.step is None:
            g, c = o.cls.lookup('__setslice__')
            f, c2 = o.cls.lookup('__setitem__')
            if g is not None and not isinstance(g, BFn):
                return I.call(I.bind_attr(g, o, o.cls), slice_args(I, o, i) + [v])
        f, c = o.cls.lookup('__setitem__')
        if f is not None:
            if isinstance(i, SliceV) and i.step is None:
                g, gc = o.cls.lookup('__setslice__')
                if g is not None and o.cls.mro.index(gc) < o.cls.mro.index(c):
                    return I.call(I.bind_attr(g, o, o.cls), slice_args(I, o, i) + [v])
            return I.call(I.bind_attr(f, o, o.cls), [i, v])
    if isinstance(o, Sym):
        k = I.kind1(o)
        o = I.R(o)
        if not isinstance(o, Sym):
            return setitem(I, o, i, v)
        if k == 'object':
            I.run.events.append(('setitem', o, i, v, I.site()))
            return
    lacks(I, o, '%r does not support item assignment' % (o,), FROZEN)


def slice_args(I, o, i):
    return [0 if i.start is None else i.start,
            2147483647 if i.stop is None else i.stop]


def delitem(I, o, i):
    o = I.R(o)
    if isinstance(o, Inst) and not isinstance(o, (ClassObj, FuncObj)):
        if isinstance(i, SliceV) and i.step is None:
            g, c = o.cls.lookup('__delslice__')
            if g is not None and not isinstance(g, BFn):
                return I.call(I.bind_attr(g, o, o.cls), slice_args(I, o, i))
        f, c = o.cls.lookup('__delitem__')
        if f is not None:
            return I.call(I.bind_attr(f, o, o.cls), [i])
    if isinstance(o, Sym):
        k = I.kind1(o)
        o = I.R(o)
        if not isinstance(o, Sym):
            return delitem(I, o, i)
    lacks(I, o, '%r does not support item deletion' % (o,), FROZEN)


def contains(I, c, x):
    c = I.R(c)
    if isinstance(c, Inst) and not isinstance(c, FuncObj):
        f, cc = c.cls.lookup('__contains__')
        if f is not None:
            return I.truth(I.call(I.bind_attr(f, c, c.cls), [x]))
        if isinstance(c.p, (str, Sym)):
            c = I.R(c.p)
        else:
            for y in iterate(I, c):
                if I.is_(x, y) or I.eq(x, y):
                    return True
            return False
    if isinstance(c, tuple):
        for y in c:
            if I.is_(x, y) or I.eq(x, y):
                return True
        return False
    if isinstance(c, Sym):
        k = I.kind1(c)
        c = I.R(c)
        if not isinstance(c, Sym):
            return contains(I, c, x)
        if k in STRK:
            x = unbox(I, x)
            if isinstance(x, str) and x == '':
                return True
            if not (isinstance(x, str) or is_text_sym(I, x)):
                if isinstance(x, Sym):
                    I.kind1(x)
                    x = I.R(x)
                if not (isinstance(x, str) or is_text_sym(I, x)):
                    I.throw('TypeError', BStr("'in <string>' requires string"))
            if I.run.truth.get(c) is False:
                return False
            if isinstance(x, str) and c.term[0] == 'concat':
                if any(isinstance(t, str) and x in t for t in c.term[1:]):
                    return True
            r = I.decide(('in', I.tkey(x), c.term))
            if r and isinstance(x, str):
                I.run.truth[c] = True
            return r
        if k == 'object':
            return I.decide(('in', I.tkey(x), c.term))
        I.throw('TypeError', BStr('argument is not iterable'))
    if isinstance(c, str):
        x = unbox(I, x)
        if isinstance(x, str):
            return str(x) in str(c)
        if isinstance(x, Sym):
            ks = I.run.kinds[x]
            if not ks & STRK:
                I.throw('TypeError', BStr("'in <string>' requires string"))
            if x.term[0] == 'char' or True:
                return I.decide(('in', I.tkey(x), str(c)))
        I.throw('TypeError', BStr("'in <string>' requires string"))
    if isinstance(c, IterObj):
        for y in iterate(I, c):
            if I.is_(x, y) or I.eq(x, y):
                return True
        return False
    if isinstance(c, ClassObj):
        I.throw('TypeError', BStr('type is not iterable'))
    I.throw('TypeError', BStr('argument of type %r is not iterable' % (c,)))


def list_iter(I, o):
    i = 0
    while i < len(o.p):
        yield o.p[i]
        i += 1


def iterate(I, v):
    v = I.R(v)
    if isinstance(v, tuple):
        return iter(v)
    if isinstance(v, IterObj):
        return v.it
    if isinstance(v, BStr):
        return iter([BStr(c) for c in v])
    if isinstance(v, str):
        return iter(v)
    if isinstance(v, Inst) and not isinstance(v, FuncObj):
        if isinstance(v, ClassObj):
            f, c = v.cls.lookup('__iter__')
            if f is None:
                I.throw('TypeError', BStr('type object is not iterable'))
        f, c = v.cls.lookup('__iter__')
        if f is not None and not isinstance(f, BFn):
            it = I.R(I.call(I.bind_attr(f, v, v.cls), []))
            return iterate_iter(I, it)
        if isinstance(v.p, list):
            return list_iter(I, v)
        if isinstance(v.p, PDict):
            return iter(v.p.keys())
        if isinstance(v.p, (str, tuple, Sym)):
            return iterate(I, v.p)
        if f is not None:
            it = I.R(I.call(I.bind_attr(f, v, v.cls), []))
            return iterate_iter(I, it)
        f, c = v.cls.lookup('__getitem__')
        if f is not None:
            return getitem_iter(I, v)
        lacks(I, v, '%r object is not iterable' % v.cls.name)
    if isinstance(v, Sym):
        seq = frozenset(['list', 'tuple', 'dict', 'set', 'text', 'bytes', 'object'])
        if not I.split_kinds(v, seq, 'iterable(%r)' % v):
            I.throw('TypeError', BStr('object is not iterable'))
        k = I.kind1(v)
        v = I.R(v)
        if not isinstance(v, Sym):
            return iterate(I, v)
        if k in STRK:
            n = 0
            if I.truth(v):
                n = 1
                while n < I.klimit and I.decide(('morechars', v.term, n)):
                    n += 1
            out = [I.app('char', v, i, kinds=[k]) for i in range(n)]
            for c in out:
                I.run.truth[c] = True
            return iter(out)
        if k == 'object':
            if isinstance(v.meta, dict) and 'iter' in v.meta:
                return v.meta['iter'](I, v)
            if not I.decide(('iterable', v.term)):
                I.throw('TypeError', BStr('object is not iterable'))
            n = 0
            while n < I.klimit and I.decide(('moreitems', v.term, n)):
                n += 1
            return iter([I.app('iteritem', v, i, kinds=ALLKINDS_SCALAR) for i in range(n)])
    I.throw('TypeError', BStr('%r is not iterable' % (v,)))


def iterate_iter(I, it):
    """Iterate the result of an __iter__ call."""
    if isinstance(it, IterObj):
        return it.it
    if isinstance(it, Inst):
        f, c = it.cls.lookup('next')
        if f is not None:
            def g():
                while True:
                    try:
                        x = I.call(I.bind_attr(f, it, it.cls), [])
                    except PyRaise as e:
                        if I.exc_match(e.exc, I.T['StopIteration']):
                            return
                        raise
                    yield x
            return g()
    if isinstance(it, Sym):
        return iterate(I, it)
    I.throw('TypeError', BStr('iter() returned non-iterator %r' % (it,)))


def getitem_iter(I, v):
    i = 0
    while True:
        try:
            x = I.getitem(v, i)
        except PyRaise as e:
            if I.exc_match(e.exc, I.T['IndexError']):
                return
            raise
        yield x
        i += 1


def dict_items(I, d):
    d = I.R(d)
    if isinstance(d, Inst) and isinstance(d.p, PDict):
        f, c = d.cls.lookup('items')
        if f is not None and not isinstance(f, BFn):
            return [tuple(iterate(I, x)) for x in iterate(I, I.call(I.bind_attr(f, d, d.cls), []))]
        return d.p.items()
    if isinstance(d, Sym):
        I.kind1(d)
        if not isinstance(I.R(d), Sym):
            return dict_items(I, d)
    if isinstance(d, Inst):
        f, c = d.cls.lookup('keys')
        if f is not None:
            return [(k, I.getitem(d, k)) for k in iterate(I, I.call(I.bind_attr(f, d, d.cls), []))]
    I.throw('TypeError', BStr('argument after ** must be a mapping'))


def host_iter(gen, name='iterator'):
    return IterObj(gen, name)


def nx_of(I, o):
    try:
        return next(o.it)
    except StopIteration:
        I.throw('StopIteration')
    finally:
        o.fr.sent = None


# methods on primitive values -------------------------------------------
def method(I, o, cls, name):
    if isinstance(o, str):
        return str_attr(I, o, name)
    if isinstance(o, Inst) and isinstance(o.p, (str,)):
        return str_attr(I, o.p, name)
    if isinstance(o, Inst) and isinstance(o.p, Sym) and is_text_sym(I, o.p):
        return str_attr(I, o.p, name)
    if isinstance(o, IterObj):
        if name in ('next', '__next__'):
            def nx(I, a, kw):
                try:
                    return next(o.it)
                except StopIteration:
                    I.throw('StopIteration')
            return BFn('next', nx)
        if name == '__iter__':
            return BFn('__iter__', lambda I, a, kw: o)
        if o.fr is None:
            if name == 'close':
                return BFn('close', lambda I, a, kw: None)
            return None
        if name == 'send':
            def send(I, a, kw):
                if not o.fr.started and a[0] is not None:
                    I.throw('TypeError', BStr("can't send non-None value to a just-started generator"))
                o.fr.sent = a[0]
                return nx_of(I, o)
            return BFn('send', send)
        if name == 'throw':
            def throw(I, a, kw):
                e = I.R(a[0])
                v = I.R(a[1]) if len(a) > 1 else None
                if isinstance(e, ClassObj):
                    if not (isinstance(v, Inst) and e in v.cls.mro):
                        e = I.R(I.call(e, [] if v is None else [v]))
                    else:
                        e = v
                exc = PyRaise(e, I.where())
                if not o.fr.started or o.it.gi_frame is None:
                    o.it.close()
                    raise exc
                o.fr.sent = exc
                return nx_of(I, o)
            return BFn('throw', throw)
        if name == 'close':
            def close(I, a, kw):
                if not o.fr.started:
                    o.it.close()
                    return None
                exc = I.R(I.call(I.T['GeneratorExit'], []))
                o.fr.sent = PyRaise(exc, I.where())
                try:
                    next(o.it)
                except StopIteration:
                    pass
                except PyRaise as e:
                    if not (I.exc_match(e.exc, I.T['GeneratorExit']) or I.exc_match(e.exc, I.T['StopIteration'])):
                        raise
                else:
                    I.throw('RuntimeError', BStr('generator ignored GeneratorExit'))
                finally:
                    o.fr.sent = None
                return None
            return BFn('close', close)
        return None
    if isinstance(o, tuple):
        if name == 'index':
            def idx(I, a, kw):
                for i, x in enumerate(o):
                    if I.eq(x, a[0]):
                        return i
                I.throw('ValueError', BStr('not in tuple'))
            return BFn('index', idx)
        if name == 'count':
            return BFn('count', lambda I, a, kw: sum(1 for x in o if I.eq(x, a[0])))
        if name in ('__iter__', '__len__', '__getitem__', '__contains__'):
            return BFn(name, lambda I, a, kw: {
                '__iter__': lambda: IterObj(iter(o)),
                '__len__': lambda: len(o),
                '__getitem__': lambda: getitem(I, o, a[0]),
                '__contains__': lambda: contains(I, o, a[0])}[name]())
        return None
    if isinstance(o, (bool, int, float)) or (isinstance(o, Inst) and isinstance(o.p, (int, float)) and not isinstance(o, (ClassObj, FuncObj))):
        v = o.p if isinstance(o, Inst) else o
        m = {'__and__': '&', '__or__': '|', '__add__': '+', '__sub__': '-', '__mul__': '*'}
        if name in m:
            return BFn(name, lambda I, a, kw: binop(I, m[name], v, a[0]))
        if name in ('__nonzero__',):
            return BFn(name, lambda I, a, kw: bool(v))
        if name in ('real', 'numerator'):
            return v
        if name == '__int__':
            return BFn(name, lambda I, a, kw: int(v))
        if name == 'is_integer' and isinstance(v, float):
            return BFn(name, lambda I, a, kw: v.is_integer())
        return None
    if isinstance(o, SuperObj):
        return None
    return None


def class_method(I, c, name):
    """Unbound access of builtin str methods through the class."""
    if any(b.builtin and b.name in ('str', 'unicode', 'basestring') for b in c.mro):
        if name in CONST_STR_METHODS:
            return BFn('str.' + name, lambda I, a, kw: strcall(I, a[0], name, a[1:], kw))
    if name == 'mro':
        return BFn('mro', lambda I, a, kw: I.new_list(c.mro))
    if name == '__subclasses__':
        return BFn(name, lambda I, a, kw: I.new_list([x for x in I.all_classes if c in x.bases]))
    if name == '__call__':
        return BFn('__call__', lambda I, a, kw: I.type_call(c, a, kw))
    return None


def super_method(I, s, mro, name):
    if name == '__call__' and isinstance(s.obj, ClassObj):
        return BFn('type.__call__', lambda I, a, kw: I.type_call(s.obj, a, kw))
    if any(b.builtin and b.name in ('str', 'unicode') for b in mro) and name in CONST_STR_METHODS:
        return BFn('str.' + name, lambda I, a, kw: strcall(I, s.obj, name, a, kw))
    return None


KIND_ATTR_CACHE = {}


def kind_has_attr(I, k, name):
    if k in ('text', 'bytes'):
        if name == 'decode' or name == 'encode':
            return True
        return name in CONST_STR_METHODS or name in (
            '__len__', '__contains__', '__getitem__', '__add__', '__eq__', '__ne__',
            '__class__', '__mod__', '__hash__', '__doc__')
    if k == 'none':
        return name in ('__class__', '__doc__', '__hash__', '__repr__', '__str__', '__nonzero__', '__eq__', '__ne__')
    if k in ('int', 'bool', 'float', 'decimal'):
        return name in ('__class__', '__doc__', '__add__', '__sub__', '__int__', '__float__', '__nonzero__',
                        '__mul__', 'real', 'imag', '__neg__', '__abs__', '__eq__', '__hash__') or (
                            k == 'decimal' and name in ('quantize', 'is_nan', 'normalize', 'is_signed', 'to_eng_string', 'is_infinite', 'as_tuple', 'is_snan', 'is_qnan', 'compare')) or (
                                k in ('int', 'bool') and name in ('__and__', '__or__', 'numerator', 'denominator'))
    if k in ('list', 'dict', 'set'):
        f, c = I.T[k].lookup(name)
        return f is not None or name == '__class__'
    if k == 'tuple':
        return name in ('index', 'count', '__iter__', '__len__', '__getitem__', '__contains__', '__class__', '__add__')
    if k in ('date', 'datetime', 'time'):
        return name in DATE_ATTRS[k] or name == '__class__'
    if k == 'callable':
        return name in ('__call__', '__name__', '__class__', '__doc__', 'func_name', '__module__')
    return True


DATE_ATTRS = {
    'date': ['year', 'month', 'day', 'strftime', 'isoformat', 'timetuple', 'weekday', 'replace', 'today', 'toordinal', '__hash__'],
    'time': ['hour', 'minute', 'second', 'microsecond', 'tzinfo', 'strftime', 'isoformat', 'replace'],
}
DATE_ATTRS['datetime'] = DATE_ATTRS['date'] + DATE_ATTRS['time'] + ['date', 'time', 'now', 'utcnow', 'timetz']


PY2_ATTRS = {
    'list': set(dir(list)) | set(['__getslice__', '__setslice__', '__delslice__']) - set(['copy', 'clear']),
    'dict': set(dir(dict)) | set(['has_key', 'iteritems', 'iterkeys', 'itervalues', 'viewitems', 'viewkeys', 'viewvalues']),
    'set': set(dir(set)), 'frozenset': set(dir(frozenset)),
    'deque': set(['append', 'appendleft', 'clear', 'count', 'extend', 'extendleft', 'pop', 'popleft', 'remove', 'rotate', 'maxlen', 'reverse']),
    'str': set(dir(str)) - set(['casefold', 'isidentifier', 'isprintable', 'maketrans', 'format_map', 'isascii', 'isdecimal', 'isnumeric', 'removeprefix', 'removesuffix']) | set(['decode']),
    'unicode': set(dir(str)) - set(['casefold', 'isidentifier', 'isprintable', 'maketrans', 'format_map', 'isascii', 'removeprefix', 'removesuffix']) | set(['decode']),
    'tuple': set(dir(tuple)) | set(['__getslice__']),
    'int': set(dir(int)) - set(['to_bytes', 'from_bytes', 'as_integer_ratio', 'is_integer', 'bit_count']) | set(['__nonzero__', '__div__']),
    'float': set(dir(float)), 'bool': set(dir(int)) - set(['to_bytes', 'from_bytes', 'as_integer_ratio', 'is_integer', 'bit_count']),
    'function': set(['__name__', 'func_name', 'func_code', '__code__', 'func_defaults', '__closure__', 'func_closure', 'func_dict', 'func_doc']),
    'instancemethod': set(['__name__', '__doc__', '__module__', '__dict__']),
    'generator': set(['next', 'send', 'throw', 'close', 'gi_frame', 'gi_running', 'gi_code']),
    'object': set(dir(object)) - set(['__init_subclass__', '__dir__', '__ge__', '__gt__', '__le__', '__lt__', '__getstate__', '__eq__', '__ne__']),
    'type': set(['__base__', '__bases__', '__dict__', '__mro__', '__name__', '__subclasses__', '__weakrefoffset__', 'mro', '__basicsize__', '__flags__']),
    'Match': set(['expand', 'lastindex', 'lastgroup', 're', 'string', 'pos', 'endpos', 'regs']),
    'Pattern': set(['findall', 'finditer', 'groups', 'groupindex', 'scanner', 'subn', 'split', 'sub']),
    'date': set(dir(__import__('datetime').date)) - set(dir(object)), 'time': set(dir(__import__('datetime').time)) - set(dir(object)),
    'datetime': set(dir(__import__('datetime').datetime)) - set(dir(object)),
    'Decimal': set(dir(__import__('decimal').Decimal)) - set(dir(object)),
    'Signal': set(['connect', 'connect_via', 'connected_to', 'temporarily_connected_to', 'receivers_for', 'has_receivers_for', 'send', 'disconnect']),
    'Lock': set(['locked', '_is_owned', 'locked_lock', 'acquire_lock', 'release_lock']),
    'WeakKeyDictionary': set(['iterkeyrefs', 'keyrefs']),
}


def unmodelled(I, cls, name):
    if name == '__iter__' and any(c.builtin and c.name in ('unicode', 'str', 'int', 'long', 'float', 'bool', 'NoneType') for c in cls.mro):
        return False    # Python 2 texts have none
    for c in cls.mro:
        if c.builtin and name in PY2_ATTRS.get(c.name, ()) and c.name != 'object':
            return True
        if c.builtin and c.name == 'ext' or c.module == 'genshi':
            return True
    if name.startswith('__') and name in ('__reduce__', '__reduce_ex__', '__sizeof__', '__format__'):
        return True
    return False


def sym_method(I, s, k, name):
    if k in STRK:
        return str_attr(I, s, name)
    if k in ('date', 'time', 'datetime'):
        if name in ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond'):
            if name not in DATE_ATTRS[k]:
                return None
            order = {'date': ['year', 'month', 'day'],
                     'time': ['hour', 'minute', 'second', 'microsecond'],
                     'datetime': ['year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond']}[k]
            if s.term[0] == 'new' and s.meta and isinstance(s.meta, tuple) and len(s.meta) > 1 + order.index(name):
                return s.meta[1 + order.index(name)]
            r = I.app('attr', s, name, kinds=['int'])
            rng = {'year': (1, 9999), 'month': (1, 12), 'day': (1, 31), 'hour': (0, 23), 'minute': (0, 59),
                   'second': (0, 59), 'microsecond': (0, 999999)}[name]
            if isinstance(I.R(r), Sym):
                I.run.iv.setdefault(r, rng)
            return r
        if name in DATE_ATTRS[k]:
            if name in ('strftime', 'isoformat'):
                def f(I, a, kw):
                    if name == 'strftime':
                        if k != 'time' and I.order(sym_method(I, s, k, 'year'), 1900, ['lt']):
                            I.throw('ValueError', BStr('year is before 1900'))
                    r = I.app(name, s, *a, kinds=['bytes'])
                    I.run.truth.setdefault(r, True)
                    return r
                return BFn(name, f)
            if k == 'datetime' and name in ('date', 'time'):
                return BFn(name, lambda I, a, kw: I.app(name + 'of', s, kinds=[name]))
            if name == 'tzinfo':
                return None
            return BFn(name, lambda I, a, kw: I.app(name, s, *a, kinds=[k]))
        return None
    if k == 'decimal':
        if name in ('is_nan',):
            return BFn(name, lambda I, a, kw: I.decide(('isnan', s.term)))
        if name in ('is_snan',):
            return BFn(name, lambda I, a, kw: I.decide(('isnan', s.term)) and I.decide(('snan', s.term)))
        if name == 'is_qnan':
            return BFn(name, lambda I, a, kw: I.decide(('isnan', s.term)) and not I.decide(('snan', s.term)))
        if name in ('is_infinite', 'is_signed'):
            return BFn(name, lambda I, a, kw: I.decide((name, s.term)))
        if name == '__class__':
            return I.T['Decimal']
    if k in ('int', 'bool', 'float'):
        return None
    return None


# ---------------------------------------------------------------- install
def install(I):
    T = I.T = {}
    I.all_classes = []
    I.builtins = B = {}
    I.ext = {}
    I.modules = {}
    I.is_boolish = lambda x: isinstance(I.R(x), bool) or (isinstance(I.R(x), Sym) and I.run.kinds[I.R(x)] == frozenset(['bool']))

    obj = ClassObj.__new__(ClassObj)
    typ = ClassObj.__new__(ClassObj)
    for c, n in ((obj, 'object'), (typ, 'type')):
        Inst.__init__(c, typ)
        c.name, c.builtin, c.module, c.node, c.is_exc = n, True, '__builtin__', None, False
    obj.bases, obj.mro = (), [obj]
    typ.bases, typ.mro = (obj,), [typ, obj]
    T['object'], T['type'] = obj, typ

    def cls(name, *bases):
        bs = [T[b] for b in bases] or [obj]
        c = ClassObj(typ, name, bs, {}, builtin=True)
        c.module = '__builtin__'
        T[name] = c
        return c

    def meth(c, name):
        def deco(fn):
            T[c].attrs[name] = BFn(name, fn, method=True)
            return fn
        return deco

    for n in ('NoneType', 'function', 'instancemethod', 'builtin_function', 'property', 'staticmethod', 'classmethod',
              'super', 'generator', 'slice', 'NotImplementedType', 'ellipsis', 'module', 'float', 'int', 'basestring',
              'list', 'tuple', 'dict', 'set', 'frozenset', 'date', 'time', 'Decimal', 'opaque', 'Pattern', 'Match',
              'frame', 'Lock', 'Signal', 'timedelta', 'xrange', 'complex', 'code', 'traceback', 'tzinfo', 'ext', 'file',
              'mappingproxy', 'local'):
        cls(n)
    cls('bool', 'int')
    cls('long')
    cls('str', 'basestring')
    cls('unicode', 'basestring')
    cls('datetime', 'date')
    cls('BaseException')
    cls('Exception', 'BaseException')
    for n, b in [('StandardError', 'Exception'), ('StopIteration', 'Exception'), ('GeneratorExit', 'BaseException'),
                 ('KeyboardInterrupt', 'BaseException'), ('SystemExit', 'BaseException'),
                 ('ArithmeticError', 'StandardError'), ('LookupError', 'StandardError'), ('AssertionError', 'StandardError'),
                 ('AttributeError', 'StandardError'), ('EnvironmentError', 'StandardError'), ('IOError', 'EnvironmentError'),
                 ('OSError', 'EnvironmentError'), ('ImportError', 'StandardError'), ('IndexError', 'LookupError'),
                 ('KeyError', 'LookupError'), ('MemoryError', 'StandardError'), ('NameError', 'StandardError'),
                 ('UnboundLocalError', 'NameError'), ('RuntimeError', 'StandardError'), ('NotImplementedError', 'RuntimeError'),
                 ('SyntaxError', 'StandardError'), ('SystemError', 'StandardError'), ('TypeError', 'StandardError'),
                 ('ValueError', 'StandardError'), ('UnicodeError', 'ValueError'), ('UnicodeDecodeError', 'UnicodeError'),
                 ('UnicodeEncodeError', 'UnicodeError'), ('OverflowError', 'ArithmeticError'),
                 ('ZeroDivisionError', 'ArithmeticError'), ('FloatingPointError', 'ArithmeticError'),
                 ('Warning', 'Exception'), ('DeprecationWarning', 'Warning'), ('UserWarning', 'Warning'),
                 ('RuntimeWarning', 'Warning'), ('FutureWarning', 'Warning'),
                 ('PendingDeprecationWarning', 'Warning'), ('DecimalException', 'ArithmeticError')]:
        cls(n, b)
    cls('InvalidOperation', 'DecimalException')
    for n in T:
        T[n].is_exc = any(c.name == 'BaseException' for c in T[n].mro)
    cls('defaultdict', 'dict')
    cls('deque', 'list')
    cls('OrderedDict', 'dict')
    cls('WeakKeyDictionary', 'dict')
    cls('WeakValueDictionary', 'dict')

    # object / type
    def obj_new(I, a, kw):
        c = I.R(a[0])
        o = Inst(c)
        names = [b.name for b in c.mro if b.builtin]
        if 'list' in names or 'set' in names or 'frozenset' in names:
            o.p = []
        elif 'dict' in names:
            o.p = PDict()
        return o
    obj.attrs['__new__'] = StaticM(BFn('object.__new__', obj_new))

    def obj_init(I, a, kw):
        s = I.R(a[0])
        if (len(a) > 1 or kw) and isinstance(s, Inst):
            n, owner = s.cls.lookup('__new__')
            i, iowner = s.cls.lookup('__init__')
            if owner is obj and iowner is obj:
                I.throw('TypeError', BStr('object.__new__() takes no parameters'))
    obj.attrs['__init__'] = BFn('__init__', obj_init, method=True)
    obj.attrs['__setattr__'] = BFn('__setattr__', lambda I, a, kw: I.raw_setattr(I.R(a[0]), str(I.R(a[1])), a[2]), method=True)
    obj.attrs['__getattribute__'] = BFn('__getattribute__', lambda I, a, kw: plain_getattr(I, a[0], a[1]), method=True)
    obj.attrs['__delattr__'] = BFn('__delattr__', lambda I, a, kw: I.delattr(a[0], I.R(a[1])), method=True)
    obj.attrs['__eq__'] = BFn('__eq__', lambda I, a, kw: I.is_(a[0], a[1]), method=True)
    obj.attrs['__ne__'] = BFn('__ne__', lambda I, a, kw: not I.eq(a[0], a[1]), method=True)
    obj.attrs['__hash__'] = BFn('__hash__', lambda I, a, kw: id(I.R(a[0])), method=True)
    obj.attrs['__repr__'] = BFn('__repr__', lambda I, a, kw: plain_repr(I, a[0]), method=True)
    obj.attrs['__str__'] = BFn('__str__', lambda I, a, kw: to_text(I, a[0], True), method=True)

    def plain_getattr(I, o, name):
        o, name = I.R(o), str(I.R(name))
        if isinstance(o, Inst):
            if name in o.attrs:
                return o.attrs[name]
            d, w = o.cls.lookup(name)
            if w is not None:
                return I.bind_attr(d, o, o.cls)
        I.throw('AttributeError', BStr(name))

    def type_new(I, a, kw):
        if len(a) == 2:
            return I.class_of(a[1])
        meta, name, bases, ns = [I.R(x) for x in a[:4]]
        winner = meta
        for b in [I.R(b) for b in bases]:
            if not isinstance(b, ClassObj):
                raise Unsupported('class with opaque base %r' % (b,))
            if winner in b.cls.mro:
                winner = b.cls
            elif b.cls not in winner.mro:
                I.throw('TypeError', BStr('metaclass conflict'))
        if winner is not meta:
            n, owner = winner.lookup('__new__')
            if owner is not typ:
                return I.call(I.bind_attr(n, winner, winner), [winner, name, bases, ns])
        if isinstance(ns.p, AttrDict):
            d = dict(ns.p.store)
        else:
            d = dict((str(I.R(k)), v) for k, v in ns.p.items())
        return I.new_class(meta, I.R(name), list(bases), d)
    typ.attrs['__new__'] = StaticM(BFn('type.__new__', type_new))
    typ.attrs['__init__'] = BFn('type.__init__', lambda I, a, kw: None, method=True)
    typ.attrs['__call__'] = BFn('type.__call__', lambda I, a, kw: I.type_call(I.R(a[0]), a[1:], kw), method=True)
    typ.attrs['__setattr__'] = BFn('__setattr__', lambda I, a, kw: I.raw_setattr(I.R(a[0]), str(I.R(a[1])), a[2]), method=True)
    typ.attrs['__delattr__'] = obj.attrs['__delattr__']

    # exceptions
    def exc_new(I, a, kw):
        o = Inst(I.R(a[0]))
        o.attrs['args'] = tuple(a[1:])
        return o
    T['BaseException'].attrs['__new__'] = StaticM(BFn('exc.__new__', exc_new))

    def exc_init(I, a, kw):
        I.R(a[0]).attrs['args'] = tuple(a[1:])
    T['BaseException'].attrs['__init__'] = BFn('exc.__init__', exc_init, method=True)
    T['BaseException'].attrs['message'] = Prop(BFn('message', lambda I, a, kw: (I.R(a[0]).attrs['args'] or (BStr(''),))[0]))
    T['KeyError'].attrs['__getitem__'] = T['IndexError'].attrs['__getitem__'] = BFn(
        '__getitem__', lambda I, a, kw: getitem(I, I.R(a[0]).attrs['args'], a[1]), method=True)

    # primitive constructors
    def simple_new(c, fn):
        def new(I, a, kw):
            k = I.R(a[0])
            v = fn(I, a[1:], kw)
            if k is not T[c]:
                return Inst(k, v)
            return v
        T[c].attrs['__new__'] = StaticM(BFn(c, new))
        T[c].attrs['__init__'] = BFn('__init__', lambda I, a, kw: None, method=True)
    simple_new('int', lambda I, a, kw: convert_int(I, a, kw, 'int'))
    simple_new('long', lambda I, a, kw: convert_int(I, a, kw, 'int'))
    simple_new('float', lambda I, a, kw: convert_int(I, a, kw, 'float') if a else 0.0)

    def mkbool(I, a, kw):
        return I.truth(a[0]) if a else False
    simple_new('bool', mkbool)
    simple_new('str', lambda I, a, kw: to_text(I, a[0], True) if a else BStr(''))

    def mkuni(I, a, kw):
        if not a:
            return u''
        if len(a) > 1 or kw:
            enc = a[1] if len(a) > 1 else kw.get('encoding', BStr('ascii'))
            err = a[2:] and [a[2]] or [kw[k] for k in ('errors',) if k in kw]
            v = unbox(I, a[0])
            if isinstance(v, Sym):
                k = I.kind1(v)
                v = I.R(v)
            if not (isinstance(v, BStr) or (isinstance(v, Sym) and k == 'bytes')):
                I.throw('TypeError', BStr('decoding Unicode is not supported'))
            return strcall(I, v, 'decode', [enc] + err, {})
        return to_text(I, a[0])
    simple_new('unicode', mkuni)
    simple_new('tuple', lambda I, a, kw: tuple(iterate(I, a[0])) if a else ())
    T['NoneType'].attrs['__new__'] = StaticM(BFn('NoneType', lambda I, a, kw: None))

    for c in ('super',):
        def super_new(I, a, kw):
            c2, o = I.R(a[1]), I.R(a[2])
            if isinstance(o, ClassObj) and c2 in o.mro:
                return SuperObj(c2, o, o)
            return SuperObj(c2, o, I.class_of(o))
        T['super'].attrs['__new__'] = StaticM(BFn('super', super_new))
    T['property'].attrs['__new__'] = StaticM(BFn('property', lambda I, a, kw: Prop(
        *(list(a[1:]) + [kw.get(n) for n in ('fget', 'fset', 'fdel', 'doc')[len(a) - 1:]]))))
    T['staticmethod'].attrs['__new__'] = StaticM(BFn('staticmethod', lambda I, a, kw: StaticM(I.R(a[1]))))
    T['classmethod'].attrs['__new__'] = StaticM(BFn('classmethod', lambda I, a, kw: ClassM(I.R(a[1]))))

    def slice_new(I, a, kw):
        a = list(a[1:])
        if len(a) == 1:
            return SliceV(None, a[0], None)
        while len(a) < 3:
            a.append(None)
        return SliceV(*a)
    T['slice'].attrs['__new__'] = StaticM(BFn('slice', slice_new))

    # list -------------------------------------------------------------
    L = T['list'].attrs

    def lm(name):
        def deco(fn):
            def wrap(I, a, kw):
                s = I.R(a[0])
                if not (isinstance(s, Inst) and isinstance(s.p, list)):
                    I.throw('TypeError', BStr('descriptor %s requires a list' % name))
                return fn(I, s, *a[1:], **kw)
            L[name] = BFn(name, wrap, method=True)
            return fn
        return deco

    L['__new__'] = StaticM(BFn('list.__new__', lambda I, a, kw: Inst(I.R(a[0]), [])))

    @lm('__init__')
    def _(I, s, it=()):
        I.mut(s)
        s.p[:] = list(iterate(I, it))

    @lm('append')
    def _(I, s, x):
        I.mut(s)
        s.p.append(I.R(x))

    @lm('extend')
    def _(I, s, it):
        items = list(iterate(I, it))
        I.mut(s)
        s.p.extend(items)

    @lm('__iadd__')
    def _(I, s, it):
        items = list(iterate(I, it))
        I.mut(s)
        s.p.extend(items)
        return s

    @lm('__imul__')
    def _(I, s, n):
        n = py(I, n)
        I.mut(s)
        s.p[:] = s.p * n
        return s

    @lm('__add__')
    def _(I, s, o):
        o = I.R(o)
        if not (isinstance(o, Inst) and isinstance(o.p, list)):
            I.throw('TypeError', BStr('can only concatenate list'))
        return I.new_list(s.p + o.p)

    @lm('__mul__')
    def _(I, s, n):
        n = unbox(I, n)
        if not isinstance(n, int):
            raise Unsupported('list * symbolic')
        return I.new_list(s.p * n)
    L['__rmul__'] = L['__mul__']

    @lm('insert')
    def _(I, s, i, x):
        i = unbox(I, i)
        if isinstance(i, Sym):
            i = small_int(I, i, len(s.p))
        if not isinstance(i, int):
            I.throw('TypeError', BStr('an integer is required'))
        I.mut(s)
        s.p.insert(i, I.R(x))

    @lm('pop')
    def _(I, s, i=-1):
        if not s.p:
            I.throw('IndexError', BStr('pop from empty list'))
        j = norm_index(I, i, len(s.p), 'pop')
        I.mut(s)
        return s.p.pop(j)

    @lm('remove')
    def _(I, s, x):
        for i, y in enumerate(list(s.p)):
            if I.is_(x, y) or I.eq(y, x):
                I.mut(s)
                del s.p[i]
                return
        I.throw('ValueError', BStr('list.remove(x): x not in list'))

    @lm('index')
    def _(I, s, x, *r):
        lo = py(I, r[0]) if r else 0
        for i, y in enumerate(list(s.p)):
            if i >= lo and (I.is_(x, y) or I.eq(y, x)):
                return i
        I.throw('ValueError', BStr('x not in list'))

    @lm('count')
    def _(I, s, x):
        return sum(1 for y in list(s.p) if I.is_(x, y) or I.eq(y, x))

    @lm('reverse')
    def _(I, s):
        I.mut(s)
        s.p.reverse()

    @lm('sort')
    def _(I, s, cmp=None, key=None, reverse=False):
        items = sort_items(I, list(s.p), cmp, key, reverse)
        I.mut(s)
        s.p[:] = items

    @lm('__len__')
    def _(I, s):
        return len(s.p)

    @lm('__iter__')
    def _(I, s):
        return IterObj(list_iter(I, s), 'listiterator')

    @lm('__reversed__')
    def _(I, s):
        return IterObj(reversed(list(s.p)), 'reversed')

    @lm('__contains__')
    def _(I, s, x):
        for y in list(s.p):
            if I.is_(x, y) or I.eq(y, x):
                return True
        return False

    @lm('__getitem__')
    def _(I, s, i):
        i = I.R(i)
        if isinstance(i, SliceV):
            return I.new_list(s.p[norm_slice(I, i, len(s.p))])
        return s.p[norm_index(I, i, len(s.p))]

    @lm('__setitem__')
    def _(I, s, i, v):
        i = I.R(i)
        if isinstance(i, SliceV):
            items = list(iterate(I, v))
            I.mut(s)
            try:
                s.p[norm_slice(I, i, len(s.p))] = items
            except ValueError as e:
                I.throw('ValueError', BStr(str(e)))
            return
        j = norm_index(I, i, len(s.p))
        I.mut(s)
        s.p[j] = I.R(v)

    @lm('__delitem__')
    def _(I, s, i):
        i = I.R(i)
        if isinstance(i, SliceV):
            I.mut(s)
            del s.p[norm_slice(I, i, len(s.p))]
            return
        j = norm_index(I, i, len(s.p))
        I.mut(s)
        del s.p[j]

    @lm('__getslice__')
    def _(I, s, i, j):
        return L['__getitem__'].fn(I, [s, SliceV(i, j, None)], {})

    @lm('__setslice__')
    def _(I, s, i, j, v):
        return L['__setitem__'].fn(I, [s, SliceV(i, j, None), v], {})

    @lm('__delslice__')
    def _(I, s, i, j):
        return L['__delitem__'].fn(I, [s, SliceV(i, j, None)], {})

    @lm('__eq__')
    def _(I, s, o):
        o = I.R(o)
        if not (isinstance(o, Inst) and isinstance(o.p, list)):
            return NOTIMPL
        return len(s.p) == len(o.p) and all(I.eq(x, y) for x, y in zip(list(s.p), list(o.p)))

    @lm('__ne__')
    def _(I, s, o):
        r = L['__eq__'].fn(I, [s, o], {})
        return r if r is NOTIMPL else not r
    L['__hash__'] = None

    # deque
    D = T['deque'].attrs

    @meth('deque', 'popleft')
    def _(I, a, kw):
        s = I.R(a[0])
        if not s.p:
            I.throw('IndexError', BStr('pop from an empty deque'))
        I.mut(s)
        return s.p.pop(0)

    @meth('deque', 'appendleft')
    def _(I, a, kw):
        s = I.R(a[0])
        I.mut(s)
        s.p.insert(0, a[1])

    @meth('deque', 'extendleft')
    def _(I, a, kw):
        s = I.R(a[0])
        items = list(iterate(I, a[1]))
        I.mut(s)
        for x in items:
            s.p.insert(0, x)

    # sets ---------------------------------------------------------------
    def setnew(I, a, kw):
        o = Inst(I.R(a[0]), [])
        if len(a) > 1:
            for x in iterate(I, a[1]):
                I.set_add(o, x)
        return o
    for c in ('set', 'frozenset'):
        T[c].attrs['__new__'] = StaticM(BFn(c, setnew))
        T[c].attrs['__init__'] = BFn('__init__', lambda I, a, kw: None, method=True)
    S = {}

    def sm(*names):
        def deco(fn):
            for name in names:
                S[name] = BFn(name, lambda I, a, kw, fn=fn: fn(I, I.R(a[0]), *a[1:]), method=True)
            return fn
        return deco

    @sm('add')
    def _(I, s, x):
        I.set_add(s, x)

    @sm('discard')
    def _(I, s, x):
        for y in list(s.p):
            if I.eq(x, y):
                I.mut(s)
                s.p.remove(y)
                return

    @sm('remove')
    def _(I, s, x):
        for i, y in enumerate(list(s.p)):
            if I.eq(x, y):
                I.mut(s)
                del s.p[i]
                return
        I.throw('KeyError', x)

    @sm('pop')
    def _(I, s):
        if not s.p:
            I.throw('KeyError', BStr('pop from an empty set'))
        I.mut(s)
        return s.p.pop(0)

    @sm('clear')
    def _(I, s):
        I.mut(s)
        del s.p[:]

    @sm('copy')
    def _(I, s):
        return I.new_set(s.p)

    @sm('update')
    def _(I, s, *its):
        for it in its:
            for x in list(iterate(I, it)):
                I.set_add(s, x)

    @sm('union')
    def _(I, s, *its):
        r = I.new_set(s.p)
        for it in its:
            for x in iterate(I, it):
                I.set_add(r, x)
        return r

    @sm('difference', '__sub__')
    def _(I, s, *its):
        ex = [x for it in its for x in iterate(I, it)]
        return I.new_set([x for x in s.p if not any(I.eq(x, y) for y in ex)])

    @sm('intersection', '__and__')
    def _(I, s, it):
        ex = list(iterate(I, it))
        return I.new_set([x for x in s.p if any(I.eq(x, y) for y in ex)])

    @sm('symmetric_difference', '__xor__')
    def _(I, s, it):
        ex = list(iterate(I, it))
        return I.new_set([x for x in s.p if not any(I.eq(x, y) for y in ex)] +
                         [x for x in ex if not any(I.eq(x, y) for y in s.p)])

    @sm('issubset')
    def _(I, s, it):
        ex = list(iterate(I, it))
        return all(any(I.eq(x, y) for y in ex) for x in list(s.p))

    @sm('issuperset')
    def _(I, s, it):
        return all(any(I.eq(x, y) for y in s.p) for x in list(iterate(I, it)))

    @sm('isdisjoint')
    def _(I, s, it):
        return not any(any(I.eq(x, y) for y in s.p) for x in list(iterate(I, it)))

    @sm('difference_update', '__isub__')
    def _(I, s, it):
        ex = list(iterate(I, it))
        keep = [x for x in s.p if not any(I.eq(x, y) for y in ex)]
        I.mut(s)
        s.p[:] = keep
        return s

    @sm('__ior__')
    def _(I, s, it):
        for x in list(iterate(I, it)):
            I.set_add(s, x)
        return s

    @sm('__contains__')
    def _(I, s, x):
        I.hkey(x)
        for y in list(s.p):
            if I.eq(x, y):
                return True
        return False

    @sm('__len__')
    def _(I, s):
        return len(s.p)

    @sm('__iter__')
    def _(I, s):
        return IterObj(iter(list(s.p)), 'setiterator')
    for c in ('set', 'frozenset'):
        T[c].attrs.update(S)
    T['set'].attrs['__hash__'] = None

    # dict ---------------------------------------------------------------
    DD = T['dict'].attrs

    def dm(*names):
        def deco(fn):
            for name in names:
                def wrap(I, a, kw, fn=fn, name=name):
                    s = I.R(a[0])
                    if not (isinstance(s, Inst) and isinstance(s.p, PDict)):
                        I.throw('TypeError', BStr('descriptor %s requires a dict' % name))
                    return fn(I, s, *a[1:], **kw)
                DD[name] = BFn(name, wrap, method=True)
            return fn
        return deco

    def dmut(I, s):
        if isinstance(s.tag, tuple) and s.tag[0] == 'attrview':
            if s.tag[1] is not None:
                I.mut(s.tag[1])
        else:
            I.mut(s)
    I.dmut = dmut

    DD['__new__'] = StaticM(BFn('dict.__new__', lambda I, a, kw: Inst(I.R(a[0]), PDict())))

    def dupdate(I, s, its, kw):
        dmut(I, s)
        for it in its:
            it = I.R(it)
            if isinstance(it, Sym):
                seq = frozenset(['list', 'tuple', 'dict', 'set', 'text', 'bytes', 'object'])
                if not I.split_kinds(it, seq, 'iterable(%r)' % it):
                    I.throw('TypeError', BStr('object is not iterable'))
                I.kind1(it)
                it = I.R(it)
            if isinstance(it, Inst) and not isinstance(it, (ClassObj, FuncObj)):
                f, c = it.cls.lookup('keys')
                if f is not None:
                    if isinstance(it.p, PDict) and isinstance(f, BFn):
                        for k, v in it.p.items():
                            s.p.set(I, k, v)
                    else:
                        for k in iterate(I, I.call(I.bind_attr(f, it, it.cls), [])):
                            s.p.set(I, k, I.getitem(it, k))
                    continue
            for pair in iterate(I, it):
                pr = list(iterate(I, pair))
                if len(pr) != 2:
                    I.throw('ValueError', BStr('dictionary update sequence element has wrong length'))
                s.p.set(I, pr[0], pr[1])
        for k, v in kw.items():
            s.p.set(I, BStr(k), v)

    def dinit(I, a, kw):
        s = I.R(a[0])
        if len(a) > 2:
            I.throw('TypeError', BStr('dict expected at most 1 arguments, got %d' % (len(a) - 1)))
        dupdate(I, s, a[1:], kw)
    DD['__init__'] = BFn('__init__', dinit, method=True)

    def dupd(I, a, kw):
        dupdate(I, I.R(a[0]), a[1:], kw)
    DD['update'] = BFn('update', dupd, method=True)

    @dm('__getitem__')
    def _(I, s, k):
        e = s.p.get(I, k)
        if e is None:
            m, c = s.cls.lookup('__missing__')
            if m is not None:
                return I.call(I.bind_attr(m, s, s.cls), [k])
            df = s.attrs.get('default_factory')
            if df is not None:
                v = I.call(df, [])
                dmut(I, s)
                s.p.set(I, k, v)
                return v
            I.throw('KeyError', k)
        return e[1]

    @dm('__setitem__')
    def _(I, s, k, v):
        dmut(I, s)
        s.p.set(I, k, I.R(v))

    @dm('__delitem__')
    def _(I, s, k):
        dmut(I, s)
        if s.p.delete(I, k) is None:
            I.throw('KeyError', k)

    @dm('get')
    def _(I, s, k, d=None):
        e = s.p.get(I, k)
        return d if e is None else e[1]

    @dm('setdefault')
    def _(I, s, k, d=None):
        e = s.p.get(I, k)
        if e is None:
            dmut(I, s)
            s.p.set(I, k, d)
            return d
        return e[1]

    @dm('pop')
    def _(I, s, k, *d):
        dmut(I, s)
        e = s.p.delete(I, k)
        if e is None:
            if d:
                return d[0]
            I.throw('KeyError', k)
        return e[1]

    @dm('popitem')
    def _(I, s):
        items = s.p.items()
        if not items:
            I.throw('KeyError', BStr('dictionary is empty'))
        dmut(I, s)
        k, v = items[-1]
        s.p.delete(I, k)
        return (k, v)

    @dm('clear')
    def _(I, s):
        dmut(I, s)
        s.p.clear()

    @dm('copy')
    def _(I, s):
        d = I.new_dict()
        d.p = s.p.copy()
        return d

    @dm('has_key', '__contains__')
    def _(I, s, k):
        return s.p.get(I, k) is not None

    @dm('keys')
    def _(I, s):
        return I.new_list(s.p.keys())

    @dm('values')
    def _(I, s):
        return I.new_list(s.p.values())

    @dm('items')
    def _(I, s):
        return I.new_list([(k, v) for k, v in s.p.items()])

    def dict_live(I, s, what):
        # raises if the dictionary changes size during iteration
        n = len(s.p)
        for k, v in s.p.items():
            yield {'k': k, 'v': v, 'i': (k, v)}[what]
            if len(s.p) != n:
                I.throw('RuntimeError', BStr('dictionary changed size during iteration'))

    @dm('iterkeys', '__iter__', 'viewkeys')
    def _(I, s):
        return IterObj(dict_live(I, s, 'k'), 'dictiter')

    @dm('itervalues', 'viewvalues')
    def _(I, s):
        return IterObj(dict_live(I, s, 'v'), 'dictiter')

    @dm('iteritems', 'viewitems')
    def _(I, s):
        return IterObj(dict_live(I, s, 'i'), 'dictiter')

    @dm('__len__')
    def _(I, s):
        return len(s.p)

    @dm('__eq__')
    def _(I, s, o):
        o = I.R(o)
        if not (isinstance(o, Inst) and isinstance(o.p, PDict)):
            return NOTIMPL
        if len(s.p) != len(o.p):
            return False
        for k, v in s.p.items():
            e = o.p.get(I, k)
            if e is None or not I.eq(v, e[1]):
                return False
        return True

    @dm('__ne__')
    def _(I, s, o):
        r = DD['__eq__'].fn(I, [s, o], {})
        return r if r is NOTIMPL else not r
    DD['__hash__'] = None

    def fromkeys(I, a, kw):
        d = I.call(I.R(a[0]), [])
        v = a[2] if len(a) > 2 else None
        for k in iterate(I, a[1]):
            I.setitem(d, k, v)
        return d
    DD['fromkeys'] = ClassM(BFn('fromkeys', fromkeys))

    def ddinit(I, a, kw):
        s = I.R(a[0])
        s.attrs['default_factory'] = I.R(a[1]) if len(a) > 1 else None
        dupdate(I, s, a[2:], kw)
    T['defaultdict'].attrs['__init__'] = BFn('__init__', ddinit, method=True)

    # module
    def modinit(I, a, kw):
        s = I.R(a[0])
        s.attrs['__name__'] = a[1]
        s.attrs['__doc__'] = a[2] if len(a) > 2 else None
    T['module'].attrs['__init__'] = BFn('__init__', modinit, method=True)

    def modgetattribute(I, a, kw):
        s, n = I.R(a[0]), str(I.R(a[1]))
        if n in s.attrs:
            return s.attrs[n]
        d, w = s.cls.lookup(n)
        if w is not None:
            return I.bind_attr(d, s, s.cls)
        I.throw('AttributeError', BStr(n))
    T['module'].attrs['__getattribute__'] = BFn('__getattribute__', modgetattribute, method=True)

    # locks
    def lockop(which):
        def f(I, a, kw):
            s = I.R(a[0])
            hook = getattr(I.run, 'lockhook', None)
            me = getattr(I.run, 'thread', 0)
            if which == 'acquire' and hook is not None and not s.attrs.get('_count', 0):
                hook(s)        # what another thread may do while this one waits
            n = s.attrs.get('_count', 0)
            if which == 'acquire' and n and s.attrs.get('_owner', 0) != me:
                raise Blocked('waits for a lock held by another thread')
            I.run.events.append(('lock', which, s, I.site()))
            I.mut(s)
            s.attrs['_owner'] = me
            if which == 'release':
                if n <= 0:
                    I.throw('RuntimeError', BStr('release of un-acquired lock'))
                s.attrs['_count'] = n - 1
            else:
                s.attrs['_count'] = n + 1
            return True
        return BFn(which, f, method=True)
    LK = T['Lock'].attrs
    LK['acquire'], LK['release'] = lockop('acquire'), lockop('release')
    LK['__enter__'] = LK['acquire']

    def lexit(I, a, kw):
        LK['release'].fn(I, a[:1], {})
        return None
    LK['__exit__'] = BFn('__exit__', lexit, method=True)

    # signals
    def send(I, a, kw):
        s = I.R(a[0])
        sender = a[1] if len(a) > 1 else None
        I.run.events.append(('signal', sender, dict(kw), I.site(), s))
        out = []
        for rcv in list(iterate(I, I.call(I.getattr(I.getattr(s, 'receivers'), 'values'), []))):
            out.append((rcv, I.call(rcv, [sender], dict(kw))))
        return I.new_list(out)

    def connect(I, a, kw):
        d = I.getattr(a[0], 'receivers')
        I.call(I.getattr(d, '__setitem__'), [len(I.R(d).p.keys()), a[1]])
        return a[1]

    def disconnect(I, a, kw):
        I.call(I.getattr(I.getattr(a[0], 'receivers'), 'clear'), [])
    T['Signal'].attrs['send'] = BFn('send', send, method=True)
    T['Signal'].attrs['connect'] = BFn('connect', connect, method=True)
    T['Signal'].attrs['disconnect'] = BFn('disconnect', disconnect, method=True)
    T['Signal'].attrs['has_receivers_for'] = BFn('has_receivers_for', lambda I, a, kw: I.truth(I.getattr(a[0], 'receivers')), method=True)

    def receivers_for(I, a, kw):
        return I.new_list(list(iterate(I, I.getattr(a[0], 'receivers'))))
    T['Signal'].attrs['receivers_for'] = BFn('receivers_for', receivers_for, method=True)

    # dates
    def mkdate(c, lo):
        def new(I, a, kw):
            k = I.R(a[0])
            names = {'date': ['year', 'month', 'day'],
                     'time': ['hour', 'minute', 'second', 'microsecond', 'tzinfo'],
                     'datetime': ['year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tzinfo']}[c]
            vals = list(a[1:])
            if len(vals) > len(names):
                I.throw('TypeError', BStr('too many arguments'))
            for n in names[len(vals):]:
                if n in kw:
                    vals.append(kw.pop(n))
                elif len(vals) < lo:
                    I.throw('TypeError', BStr('Required argument %r not found' % n))
                else:
                    vals.append(0 if n != 'tzinfo' else None)
            if kw:
                I.throw('TypeError', BStr('unexpected keyword %r' % list(kw)))
            if vals and names[-1] == 'tzinfo' and I.R(vals[-1]) is None and len(vals) == len(names):
                vals = vals[:-1]
            vs = []
            for v in vals:
                v = unbox(I, v)
                if isinstance(v, Sym):
                    kk = I.kind1(v)
                    v = I.R(v)
                    if isinstance(v, Sym) and kk not in ('int', 'bool'):
                        I.throw('TypeError', BStr('an integer is required'))
                if not isinstance(v, (Sym, int)):
                    I.throw('TypeError', BStr('an integer is required'))
                vs.append(v)
            if all(isinstance(v, int) for v in vs):
                import datetime
                try:
                    getattr(datetime, c)(*vs)
                except (ValueError, OverflowError) as e:
                    I.throw('ValueError', BStr(str(e)))
            elif not I.decide(('valid', c) + tuple(I.tkey(v) for v in vs), 'valid %s' % c):
                I.throw('ValueError', BStr('%s out of range' % c))
            s = I.mk(('new', c) + tuple(I.tkey(v) for v in vs), [c], meta=(c,) + tuple(vs))
            return s
        T[c].attrs['__new__'] = StaticM(BFn(c, new))
    mkdate('date', 3)
    mkdate('time', 0)
    mkdate('datetime', 3)
    for c in ('date', 'datetime'):
        for n in ('today', 'now', 'utcnow'):
            T[c].attrs[n] = StaticM(BFn(n, lambda I, a, kw, c=c: I.fresh('today', [c])))
    T['datetime'].attrs['strptime'] = StaticM(BFn('strptime', lambda I, a, kw: strptime(I, a)))
    T['datetime'].attrs['combine'] = StaticM(BFn('combine', lambda I, a, kw: I.app('combine', *a, kinds=['datetime'])))

    def strptime(I, a):
        if not I.decide(('strptime', I.tkey(a[0]), I.tkey(a[1]))):
            I.throw('ValueError', BStr('time data does not match format'))
        return I.app('strptime', *a, kinds=['datetime'])

    # Decimal
    def decnew(I, a, kw):
        v = unbox(I, a[1]) if len(a) > 1 else BStr('0')
        if isinstance(v, Sym):
            k = I.kind1(v)
            v = I.R(v)
        if isinstance(v, Sym):
            if k == 'decimal':
                return v
            if k in STRK:
                if not I.decide(('decimal-parses', v.term), 'Decimal(%r) parses' % v):
                    if k == 'text' and False:
                        pass
                    I.throw('InvalidOperation', BStr('Invalid literal for Decimal'))
                I.run.truth.setdefault(v, True)
                return I.mk(('Decimal', v.term), ['decimal'])
            if k in ('int', 'bool', 'float'):
                return I.mk(('Decimal', v.term), ['decimal'])
            if k in ('tuple', 'list'):
                I.throw('ValueError', BStr('Invalid tuple size'))
            I.throw('TypeError', BStr('Cannot convert to Decimal'))
        if isinstance(v, str):
            import decimal
            try:
                decimal.Decimal(str(v))
            except decimal.InvalidOperation:
                I.throw('InvalidOperation', BStr('Invalid literal for Decimal'))
            return I.mk(('Decimal', ('const', str(v).strip())), ['decimal'])
        if isinstance(v, (bool, int, float)):
            return I.mk(('Decimal', ('const', str(v))), ['decimal'])
        if isinstance(v, tuple) or (isinstance(v, Inst) and isinstance(v.p, list)):
            I.throw('ValueError', BStr('Invalid tuple size'))
        I.throw('TypeError', BStr('Cannot convert to Decimal'))
    T['Decimal'].attrs['__new__'] = StaticM(BFn('Decimal', decnew))

    # regex
    def pat_new(I, pattern, flags):
        o = Inst(T['Pattern'], (pattern, flags))
        o.attrs['pattern'] = pattern
        o.attrs['flags'] = flags
        return o
    I.pat_new = pat_new

    def re_compile(I, a, kw):
        p = I.R(a[0])
        if isinstance(p, Inst) and p.cls is T['Pattern']:
            return p
        fl = unbox(I, a[1]) if len(a) > 1 else kw.get('flags', 0)
        if isinstance(p, str):
            try:
                compile_re(p, fl)
            except _re.error as e:
                I.throw('ValueError', BStr('bad regex: %s' % e))
        return pat_new(I, p, fl)

    def compile_re(p, fl):
        p = str(p)
        p = _re.sub(r'\\Z', r'\\Z', p)
        return _re.compile(p, fl if isinstance(fl, int) else 0)

    def pat_method(which):
        def f(I, a, kw):
            o = I.R(a[0])
            pat, fl = o.p
            subj = unbox(I, a[1]) if len(a) > 1 else u''
            if isinstance(subj, Sym):
                k = I.kind1(subj)
                subj = I.R(subj)
            if not (isinstance(subj, str) or (isinstance(subj, Sym) and k in STRK)):
                I.throw('TypeError', BStr('expected string or buffer'))
            rest = [unbox(I, x) for x in a[2:]]
            if isinstance(pat, str) and isinstance(subj, str) and all(conc(x) for x in rest):
                rx = compile_re(pat, fl)
                r = getattr(rx, which)(str(subj), *rest)
                if r is None:
                    return None
                b = isinstance(subj, BStr)
                m = Inst(T['Match'], ('c', r, b))
                return m
            key = ('re', which, I.tkey(pat), I.tkey(subj)) + tuple(I.tkey(x) for x in rest)
            if isinstance(pat, str) and isinstance(subj, Sym) and I.run.truth.get(subj) is False:
                if getattr(compile_re(pat, fl), which)('') is None:
                    return None
            if not I.decide(key, '%s.%s(%r)' % (getattr(pat, 'pattern', repr(pat))[:40], which, subj)):
                return None
            if isinstance(pat, str) and isinstance(subj, Sym):
                if getattr(compile_re(pat, fl), which)('') is None:
                    if I.run.truth.get(subj) is False:
                        raise Infeasible()
                    I.run.truth[subj] = True
            m = Inst(T['Match'], ('s', pat, subj, which))
            return m
        return BFn(which, f, method=True)
    P = T['Pattern'].attrs
    for n in ('match', 'search', 'fullmatch'):
        P[n] = pat_method(n)

    def mgroup(I, m, idx):
        idx = unbox(I, idx)
        if m.p[0] == 'c':
            try:
                g = m.p[1].group(idx if not isinstance(idx, str) else str(idx))
            except (IndexError, TypeError):
                I.throw('IndexError', BStr('no such group'))
            return back(g, m.p[2])
        pat, subj = m.p[1], m.p[2]
        k = 'bytes' if isinstance(subj, BStr) or (isinstance(subj, Sym) and I.run.kinds[subj] == frozenset(['bytes'])) else 'text'
        if not isinstance(pat, str):
            return I.app('group', I.tkey(pat), idx, subj, kinds=[k, 'none'])
        if idx == 0:
            if m.p[3] == 'match' and str(pat).endswith('$'):
                pass
            r = I.app('group', str(pat), 0, subj, kinds=[k])
            return r
        opt = group_optional(str(pat), str(idx) if isinstance(idx, str) else idx)
        if opt is None:
            I.throw('IndexError', BStr('no such group'))
        key = str(idx) if isinstance(idx, str) else idx
        if opt and not I.decide(('hasgroup', str(pat), key, I.tkey(subj))):
            return None
        r = I.mk(('group', str(pat), key, I.tkey(subj)), [k])
        if group_nonempty(str(pat), key):
            I.run.truth[r] = True
        return r
    M = T['Match'].attrs

    def m_group(I, a, kw):
        m = I.R(a[0])
        ids = a[1:] or [0]
        r = [mgroup(I, m, i) for i in ids]
        return r[0] if len(r) == 1 else tuple(r)
    M['group'] = BFn('group', m_group, method=True)
    M['__getitem__'] = M['group']

    def ngroups(m):
        if m.p[0] == 'c':
            return m.p[1].re.groups
        return _re.compile(str(m.p[1])).groups

    def m_groups(I, a, kw):
        m = I.R(a[0])
        d = a[1] if len(a) > 1 else None
        out = []
        for i in range(1, ngroups(m) + 1):
            g = mgroup(I, m, i)
            out.append(d if I.R(g) is None else g)
        return tuple(out)
    M['groups'] = BFn('groups', m_groups, method=True)

    def m_groupdict(I, a, kw):
        m = I.R(a[0])
        rx = m.p[1].re if m.p[0] == 'c' else _re.compile(str(m.p[1]))
        dflt = a[1] if len(a) > 1 else None
        d = I.new_dict()
        for n in rx.groupindex:
            g = mgroup(I, m, n)
            d.p.set(I, BStr(n), dflt if I.R(g) is None else g)
        return d
    M['groupdict'] = BFn('groupdict', m_groupdict, method=True)

    def m_pos(which):
        def f(I, a, kw):
            m = I.R(a[0])
            idx = a[1] if len(a) > 1 else 0
            if m.p[0] == 'c':
                return getattr(m.p[1], which)(py(I, idx))
            r = I.app('m' + which, I.tkey(m.p[1]), m.p[2], idx, kinds=['int'])
            I.run.iv.setdefault(r, (0, INF))
            return r
        return BFn(which, f, method=True)
    for n in ('start', 'end'):
        M[n] = m_pos(n)
    M['span'] = BFn('span', lambda I, a, kw: (m_pos('start').fn(I, a, kw), m_pos('end').fn(I, a, kw)), method=True)

    def p_sub(I, a, kw):
        o, repl, subj = I.R(a[0]), unbox(I, a[1]), unbox(I, a[2])
        pat, fl = o.p
        if isinstance(pat, str) and isinstance(subj, str) and isinstance(repl, str):
            r = compile_re(pat, fl).sub(str(repl), str(subj))
            return BStr(r) if isinstance(subj, BStr) and isinstance(repl, BStr) else r
        k = 'text'
        if isinstance(subj, Sym):
            k = I.kind1(subj)
            subj = I.R(subj)
        if not (isinstance(subj, str) or (isinstance(subj, Sym) and k in STRK)):
            I.throw('TypeError', BStr('expected string or buffer'))
        return I.app('resub', I.tkey(pat), repl if isinstance(repl, (str, Sym)) else 'fn', subj, kinds=[k])
    P['sub'] = BFn('sub', p_sub, method=True)

    def p_split(I, a, kw):
        o, subj = I.R(a[0]), unbox(I, a[1])
        pat, fl = o.p
        if isinstance(pat, str) and isinstance(subj, str):
            return I.new_list([back(x, isinstance(subj, BStr)) for x in compile_re(pat, fl).split(str(subj), *[py(I, x) for x in a[2:]])])
        if isinstance(subj, Sym):
            k = I.kind1(subj)
            subj = I.R(subj)
            if isinstance(subj, Sym) and k in STRK:
                n = 1
                while n < 3 and I.decide(('resplit', I.tkey(pat), subj.term, n)):
                    n += 1
                if n == 1:
                    return I.new_list([subj])
                return I.new_list([I.app('resplit', I.tkey(pat), subj, i, n, kinds=[k]) for i in range(n)])
        I.throw('TypeError', BStr('expected string or buffer'))
    P['split'] = BFn('split', p_split, method=True)

    def p_findall(I, a, kw):
        o, subj = I.R(a[0]), unbox(I, a[1])
        pat, fl = o.p
        if isinstance(pat, str) and isinstance(subj, str):
            return I.new_list([back(x, isinstance(subj, BStr)) for x in compile_re(pat, fl).findall(str(subj))])
        raise Unsupported('findall on symbolic text')
    P['findall'] = BFn('findall', p_findall, method=True)

    def p_finditer(I, a, kw):
        o, subj = I.R(a[0]), unbox(I, a[1])
        pat, fl = o.p
        if isinstance(pat, str) and isinstance(subj, str):
            return IterObj(iter([Inst(T['Match'], ('c', r, isinstance(subj, BStr))) for r in compile_re(pat, fl).finditer(str(subj))]))
        raise Unsupported('finditer on symbolic text')
    P['finditer'] = BFn('finditer', p_finditer, method=True)

    def resc(I, a, kw):
        s = unbox(I, a[0])
        if isinstance(s, str):
            out = ''.join(c if c.isascii() and c.isalnum() else '\\' + c if c != '\0' else '\\000' for c in s)
            return BStr(out) if isinstance(s, BStr) else out
        k = I.kind1(s)
        return I.app('re.escape', s, kinds=[k])

    # builtin functions ---------------------------------------------------
    def bf(name):
        def deco(fn):
            B[name] = BFn(name, lambda I, a, kw: fn(I, *a, **kw))
            return fn
        return deco

    for n in ('object', 'type', 'int', 'long', 'float', 'bool', 'str', 'unicode', 'basestring', 'list', 'tuple', 'dict',
              'set', 'frozenset', 'super', 'property', 'staticmethod', 'classmethod', 'slice', 'complex'):
        B[n] = T[n]
    for n, c in T.items():
        if c.is_exc and n not in ('DecimalException', 'InvalidOperation'):
            B[n] = c
    B['None'], B['True'], B['False'] = None, True, False
    B['NotImplemented'], B['Ellipsis'] = NOTIMPL, Ellipsis
    B['__debug__'] = True
    B['__name__'] = BStr('__builtin__')

    bf('len')(lambda I, x: py_len(I, x))
    bf('isinstance')(lambda I, x, c: I.isinstance(x, c))
    bf('issubclass')(lambda I, x, c: I.issub(x, c))

    @bf('getattr')
    def _(I, o, n, *d):
        n = I.R(n)
        if isinstance(n, Sym):
            raise Unsupported('symbolic getattr')
        return I.getattr(o, n, *d)

    @bf('hasattr')
    def _(I, o, n):
        # Python 2: any exception means "no"
        n = I.R(n)
        if isinstance(n, Sym):
            o2 = I.R(o)
            if isinstance(o2, ClassObj) or isinstance(o2, Inst):
                return I.decide(('hasattr', I.tkey(o2), n.term))
            raise Unsupported('symbolic hasattr')
        try:
            I.getattr(o, n)
            return True
        except PyRaise:
            return False

    @bf('setattr')
    def _(I, o, n, v):
        n = I.R(n)
        if isinstance(n, Sym):
            raise Unsupported('symbolic setattr')
        I.setattr(o, n, v)
    bf('delattr')(lambda I, o, n: I.delattr(o, I.R(n)))

    @bf('callable')
    def _(I, o):
        o = I.R(o)
        if isinstance(o, (FuncObj, ClassObj, BFn, Bound)):
            return True
        if isinstance(o, Sym):
            return I.split_kinds(o, frozenset(['callable']), 'callable(%r)' % o)
        if isinstance(o, Inst):
            return o.cls.lookup('__call__')[0] is not None
        return False

    @bf('id')
    def _(I, o):
        o = I.R(o)
        if isinstance(o, Sym):
            return I.app('id', o, kinds=['int'])
        return id(o)

    @bf('hash')
    def _(I, o):
        o = I.R(o)
        I.hkey(o)
        return I.app('hash', o, kinds=['int'])

    @bf('iter')
    def _(I, o, *sent):
        if sent:
            def g():
                while True:
                    v = I.call(o, [])
                    if I.eq(v, sent[0]):
                        return
                    yield v
            return IterObj(g())
        o = I.R(o)
        if isinstance(o, IterObj):
            return o
        if isinstance(o, Inst) and not isinstance(o, (ClassObj, FuncObj)):
            f, c = o.cls.lookup('__iter__')
            if f is not None and not isinstance(f, BFn):
                return I.call(I.bind_attr(f, o, o.cls), [])
        return IterObj(iterate(I, o), 'iterator')

    @bf('next')
    def _(I, it, *d):
        it = I.R(it)
        try:
            if isinstance(it, IterObj):
                try:
                    return next(it.it)
                except StopIteration:
                    I.throw('StopIteration')
            if not isinstance(it, Sym) and (not isinstance(it, Inst) or it.cls.lookup('next')[0] is None):
                lacks(I, it, '%r is not an iterator' % (it,), ITERABLES)
            return I.call(I.getattr(it, 'next'), [])
        except PyRaise as e:
            if d and I.exc_match(e.exc, T['StopIteration']):
                return d[0]
            raise

    @bf('range')
    def _(I, *a):
        a = [unbox(I, x) for x in a]
        if any(isinstance(x, Sym) for x in a):
            return I.new_list(list(sym_range(I, a)))
        try:
            r = range(*a)
        except TypeError as e:
            I.throw('TypeError', BStr(str(e)))
        if len(r) > 4000:
            raise Cut('large range')
        return I.new_list(list(r))
    B['xrange'] = BFn('xrange', lambda I, a, kw: xrange_(I, a))

    def xrange_(I, a):
        a = [unbox(I, x) for x in a]
        r = Inst(T['xrange'])
        if any(isinstance(x, Sym) for x in a):
            r.p = SymRange(a)
            return r
        try:
            r.p = range(*a)
        except TypeError as e:
            I.throw('TypeError', BStr(str(e)))
        except ValueError as e:
            I.throw('ValueError', BStr(str(e)))
        if any(abs(x) > 2 ** 63 - 1 for x in a) or r.p and max(abs(r.p[0]), abs(r.p[-1]), r.p[-1] - r.p[0]) >= 2 ** 63 - 1:
            I.throw('OverflowError', BStr('Python int too large to convert to C long'))
        return r

    @meth('xrange', '__iter__')
    def _(I, a, kw):
        r = a[0].p
        return IterObj(iter(r) if isinstance(r, range) else sym_range(I, r.args), 'rangeiterator')

    @meth('xrange', '__reversed__')
    def _(I, a, kw):
        if not isinstance(a[0].p, range):
            raise Unsupported('reversed symbolic range')
        return IterObj(iter(a[0].p[::-1]), 'rangeiterator')

    @meth('xrange', '__len__')
    def _(I, a, kw):
        r = a[0].p
        if isinstance(r, range):
            return len(r)
        lo, hi = (0, r.args[0]) if len(r.args) == 1 else r.args[:2]
        if len(r.args) > 2:
            raise Unsupported('length of a stepping symbolic range')
        return binop(I, '-', hi, lo) if I.order(lo, hi, ['lt']) else 0

    @meth('xrange', '__getitem__')
    def _(I, a, kw):
        r = a[0].p
        if isinstance(a[1], SliceV):
            I.throw('TypeError', BStr('sequence index must be integer, not slice'))
        if not isinstance(r, range):
            raise Unsupported('item of a symbolic range')
        i = unbox(I, a[1])
        if isinstance(i, Sym) and len(r) > 50:
            raise Unsupported('symbolic item of a range')
        return r[norm_index(I, i, len(r), 'xrange object')]

    def sym_range(I, a):
        lo, hi, st = 0, None, 1
        if len(a) == 1:
            hi = a[0]
        else:
            lo, hi = a[0], a[1]
            if len(a) > 2:
                st = a[2]
        if isinstance(st, Sym):
            raise Unsupported('symbolic step')
        i = lo
        n = 0
        while I.order(i, hi, ['lt'] if st > 0 else ['gt']):
            n += 1
            if n > 8:
                raise Cut('symbolic range bound')
            yield i
            i = binop(I, '+', i, st)

    @bf('enumerate')
    def _(I, it, start=0):
        src = iterate(I, it)

        def g():
            i = py(I, start)
            for x in src:
                yield (i, x)
                i += 1
        return IterObj(g(), 'enumerate')

    bf('zip')(lambda I, *its: I.new_list([tuple(t) for t in zip(*[iterate(I, i) for i in its])]))

    @bf('map')
    def _(I, f, *its):
        if I.R(f) is None:
            return I.new_list([tuple(t) if len(its) > 1 else t[0] for t in zip(*[iterate(I, i) for i in its])])
        return I.new_list([I.call(f, list(t)) for t in zip(*[iterate(I, i) for i in its])])

    @bf('filter')
    def _(I, f, it):
        out = [x for x in iterate(I, it) if I.truth(x if I.R(f) is None else I.call(f, [x]))]
        it = I.R(it)
        if isinstance(it, tuple):
            return tuple(out)
        if isinstance(it, str) or isinstance(it, Sym) and I.run.kinds[it] <= frozenset(['text', 'bytes']):
            return concat(I, out, bytes_=isinstance(it, BStr) or isinstance(it, Sym) and I.kind1(it) == 'bytes')
        return I.new_list(out)

    @bf('reduce')
    def _(I, f, it, *init):
        items = list(iterate(I, it))
        if init:
            acc = init[0]
        else:
            if not items:
                I.throw('TypeError', BStr('reduce() of empty sequence with no initial value'))
            acc = items.pop(0)
        for x in items:
            acc = I.call(f, [acc, x])
        return acc

    @bf('any')
    def _(I, it):
        for x in iterate(I, it):
            if I.truth(x):
                return True
        return False

    @bf('all')
    def _(I, it):
        for x in iterate(I, it):
            if not I.truth(x):
                return False
        return True

    @bf('sum')
    def _(I, it, start=0):
        acc = start
        for x in iterate(I, it):
            acc = binop(I, '+', acc, x)
        return acc

    def minmax(name, op):
        def f(I, *a, **kw):
            items = list(iterate(I, a[0])) if len(a) == 1 else list(a)
            key = kw.get('key')
            if not items:
                I.throw('ValueError', BStr('%s() arg is an empty sequence' % name))
            best = items[0]
            bk = I.call(key, [best]) if key else best
            for x in items[1:]:
                xk = I.call(key, [x]) if key else x
                if I.truth(I.compare(op(), xk, bk)):
                    best, bk = x, xk
            return best
        bf(name)(f)
    minmax('min', _ast.Lt)
    minmax('max', _ast.Gt)

    def sort_items(I, items, cmp=None, key=None, reverse=False):
        cmp = I.R(cmp)
        keyf = I.R(key)
        ks = [(I.call(keyf, [x]) if keyf is not None else x) for x in items]
        out = []
        rev = I.truth(reverse)

        def less(a, b):
            if cmp is not None:
                return I.truth(I.compare(_ast.Lt(), I.call(cmp, [a, b]), 0))
            return I.truth(I.compare(_ast.Lt(), a, b))
        for k, x in zip(ks, items):
            j = len(out)
            while j > 0 and (less(out[j - 1][0], k) if rev else less(k, out[j - 1][0])):
                j -= 1
            out.insert(j, (k, x))
        return [x for k, x in out]
    I.sort_items = sort_items

    @bf('sorted')
    def _(I, it, cmp=None, key=None, reverse=False):
        return I.new_list(sort_items(I, list(iterate(I, it)), cmp, key, reverse))

    @bf('reversed')
    def _(I, it):
        it = I.R(it)
        if isinstance(it, Inst) and not isinstance(it, (ClassObj, FuncObj)):
            f, c = it.cls.lookup('__reversed__')
            if f is not None and (not isinstance(f, BFn) or isinstance(it.p, range)):
                return I.call(I.bind_attr(f, it, it.cls), [])
            g, gc = it.cls.lookup('__getitem__')
            n, nc = it.cls.lookup('__len__')
            if isinstance(it.p, list) and not (I.is_setlike(it)):
                return IterObj(reversed(list(it.p)), 'reversed')
            if g is not None and n is not None and not isinstance(it.p, PDict) and not I.is_setlike(it):
                size = py_len(I, it)
                if isinstance(size, Sym):
                    raise Unsupported('reversed with a symbolic length')
                return IterObj((I.R(getitem(I, it, i)) for i in range(size - 1, -1, -1)), 'reversed')
        if isinstance(it, (tuple, str)):
            return IterObj(reversed(list(iterate(I, it))), 'reversed')
        I.throw('TypeError', BStr('argument to reversed() must be a sequence'))

    @bf('abs')
    def _(I, x):
        x = unbox(I, x)
        if isinstance(x, (int, float)):
            return abs(x)
        if isinstance(x, Sym) and I.run.kinds[x] <= NUMK:
            if I.order(x, 0, ['lt']):
                return binop(I, '-', 0, x)
            return x
        I.throw('TypeError', BStr('bad operand type for abs()'))

    @bf('divmod')
    def _(I, a, b):
        return (binop(I, '//', a, b), binop(I, '%', a, b))

    @bf('round')
    def _(I, x, *n):
        x = unbox(I, x)
        if isinstance(x, (int, float)):
            from decimal import Decimal, ROUND_HALF_UP
            q = Decimal(1).scaleb(-(py(I, n[0]) if n else 0))
            return float(Decimal(x).quantize(q, rounding=ROUND_HALF_UP))
        return I.app('round', x, *n, kinds=['float'])

    @bf('pow')
    def _(I, a, b):
        return binop(I, '**', a, b)

    bf('repr')(lambda I, x: to_repr(I, x))

    @bf('ord')
    def _(I, c):
        c = unbox(I, c)
        if isinstance(c, str) and len(c) == 1:
            return ord(c)
        return I.app('ord', c, kinds=['int'])

    for nm in ('hex', 'oct', 'bin'):
        def conv(I, x, nm=nm):
            x = unbox(I, x)
            if isinstance(x, int):
                r = {'hex': hex, 'oct': oct, 'bin': bin}[nm](x)
                return BStr(r.replace('0o', '0') if x else r.replace('0o0', '0'))
            raise Unsupported('builtin %s' % nm)
        bf(nm)(conv)

    @bf('chr')
    def _(I, c):
        c = unbox(I, c)
        return BStr(chr(c)) if isinstance(c, int) else I.app('chr', c, kinds=['bytes'])

    @bf('unichr')
    def _(I, c):
        c = unbox(I, c)
        return chr(c) if isinstance(c, int) else I.app('chr', c, kinds=['text'])

    @bf('cmp')
    def _(I, a, b):
        if I.eq(a, b):
            return 0
        return -1 if I.truth(I.compare(_ast.Lt(), a, b)) else 1

    @bf('print')
    def _(I, *a, **kw):
        return None

    @bf('apply')
    def _(I, f, a=(), kw=None):
        return I.call(f, list(iterate(I, a)), dict((str(k), v) for k, v in dict_items(I, kw)) if kw is not None else {})

    @bf('intern')
    def _(I, s):
        return s

    @bf('vars')
    def _(I, *o):
        if not o:
            raise Unsupported('vars()')
        return I.getattr(o[0], '__dict__')

    def dir_of(I, o):
        o = I.R(o)
        names = set()
        if isinstance(o, ClassObj):
            for c in o.mro:
                names.update(c.attrs)
        elif isinstance(o, Inst):
            f = o.cls.lookup('__dir__')[0] if o.cls is not I.T['module'] else None
            if f is not None:
                return I.call(I.builtins['sorted'], [I.call(f, [o], {})], {})
            names.update(o.attrs)
            for c in o.cls.mro:
                names.update(c.attrs)
        return I.new_list([BStr(n) for n in sorted(names)])
    bf('dir')(dir_of)

    @bf('__import__')
    def _(I, name, *a, **kw):
        return import_leaf(I, str(I.R(name)), None)
    bf('globals')(lambda I: None)
    bf('locals')(lambda I: None)
    bf('compile')(lambda I, *a: (_ for _ in ()).throw(Unsupported('compile')))
    FRAME_FNS['globals'] = lambda I, a, kw, fr: I.ns_dict(fr.mod)
    FRAME_FNS['locals'] = lambda I, a, kw, fr: I.new_dict([(BStr(k), v) for k, v in fr.locals.items()])

    install_modules(I, bf, resc, re_compile, xrange_)


def mkmod(I_, name_, **attrs):
    m = Inst(I_.T['module'])
    m.attrs['__name__'] = BStr(name_)
    m.attrs.update(attrs)
    I_.ext[name_] = m
    return m


def install_modules(I, bf, resc, re_compile, xrange_):
    T, B = I.T, I.builtins

    def fn(name, f):
        return BFn(name, lambda I, a, kw: f(I, *a, **kw))

    bm = mkmod(I, '__builtin__')
    bm.attrs = B
    I.ext['builtins'] = bm

    # six
    def six_iter(which):
        def f(I, d, **kw):
            d = I.R(d)
            m = I.getattr(d, 'iter' + which)
            return I.call(m, [])
        return fn('six.iter' + which, f)

    def with_metaclass(I, meta, *bases):
        # builds the temporary class as six does, collapsing it at class creation
        tmp = ClassObj(T['type'], 'temporary_class', [T['object']], {})
        tmpmeta = ClassObj(T['type'], 'metaclass', [I.R(meta)], {})

        def new(I, a, kw):
            name, this, ns = I.R(a[1]), a[2], I.R(a[3])
            return I.call(meta, [name, tuple(bases), ns])
        tmpmeta.attrs['__new__'] = StaticM(BFn('metaclass.__new__', new))
        tmp.cls = tmpmeta
        return tmp

    def add_metaclass(I, meta):
        def deco(I, c):
            c = I.R(c)
            ns = dict(c.attrs)
            d = Inst(T['dict'], AttrDict(ns))
            return I.call(meta, [BStr(c.name), tuple(c.bases), d])
        return fn('add_metaclass', deco)

    def reraise(I, t, v=None, tb=None):
        v = I.R(v)
        if v is None:
            v = I.call(t, [])
        raise PyRaise(v, I.where())

    moves = mkmod(I, 'six.moves', builtins=bm, xrange=B['xrange'], range=B['xrange'],
                  reduce=B['reduce'], map=fn('imap', lambda I, f, *its: IterObj(iter(
                      [I.call(f, list(t)) for t in zip(*[iterate(I, i) for i in its])]))),
                  zip=fn('izip', lambda I, *its: IterObj(zip(*[iterate(I, i) for i in its]))),
                  filter=B['filter'], input=None)
    six = mkmod(I, 'six', PY2=True, PY3=False, text_type=T['unicode'], binary_type=T['str'],
                string_types=(T['basestring'],), integer_types=(T['int'], T['long']),
                class_types=(T['type'],), MAXSIZE=2147483647,
                iteritems=six_iter('items'), iterkeys=six_iter('keys'), itervalues=six_iter('values'),
                with_metaclass=fn('with_metaclass', with_metaclass), add_metaclass=fn('add_metaclass', add_metaclass),
                reraise=fn('reraise', reraise), moves=moves,
                u=fn('u', lambda I, s: s if not isinstance(s, BStr) else str(s)),
                b=fn('b', lambda I, s: s),
                callable=B['callable'], next=B['next'], advance_iterator=B['next'],
                get_function_code=fn('gfc', lambda I, f: I.getattr(f, 'func_code')),
                python_2_unicode_compatible=fn('p2uc', lambda I, c: c),
                get_unbound_function=fn('guf', lambda I, f: f))

    def re_fn(n):
        def f(I, p, *a, **kw):
            return I.call(I.getattr(re_compile(I, [p], {}), n), list(a), kw)
        return f
    mkmod(I, 're', compile=BFn('re.compile', re_compile), escape=BFn('re.escape', resc), UNICODE=32, U=32, IGNORECASE=2,
          I=2, MULTILINE=8, M=8, DOTALL=16, S=16, VERBOSE=64, X=64,
          **dict((n, fn('re.' + n, re_fn(n)))
              for n in ('match', 'search', 'sub', 'split', 'findall', 'finditer')))

    mkmod(I, 'string', **dict((n, BStr(getattr(_string, n))) for n in
                              ('digits', 'ascii_lowercase', 'ascii_uppercase', 'ascii_letters', 'punctuation', 'whitespace', 'printable')))
    I.ext['string'].attrs['letters'] = BStr(_string.ascii_letters)
    I.ext['string'].attrs['lowercase'] = BStr(_string.ascii_lowercase)

    sysm = mkmod(I, 'sys', maxint=2 ** 63 - 1, maxsize=2 ** 63 - 1, version_info=(2, 7, 3, BStr('final'), 0), platform=BStr('java'),
                 version=BStr('2.7.3'), maxunicode=1114111, byteorder=BStr('little'))
    sysm.attrs['modules'] = I.sysmodules = I.new_dict()
    sysm.attrs['exc_info'] = fn('exc_info', lambda I: (
        (I.handling[-1].exc.cls, I.handling[-1].exc, None) if I.handling else (None, None, None)))

    def getframe(I, n=0):
        # frame 0 is the caller of _getframe
        n = py(I, n)
        frames = [f for f, nd in I.stack]
        fr = frames[-1 - n] if n < len(frames) else frames[0] if frames else None
        o = Inst(T['frame'])
        if fr is None:
            d = I.new_dict([(BStr('__name__'), BStr('client'))])
            o.attrs['f_globals'] = o.attrs['f_locals'] = d
        else:
            o.attrs['f_globals'] = I.ns_dict(fr.mod) if fr.mod is not None else I.new_dict([(BStr('__name__'), BStr('client'))])
            o.attrs['f_locals'] = I.new_dict([(BStr(k), v) for k, v in fr.locals.items()])
        return o
    sysm.attrs['_getframe'] = fn('_getframe', getframe)

    def attrgetter(I, *names):
        names = [str(I.R(n)) for n in names]

        def one(I, o, n):
            for part in n.split('.'):
                o = I.getattr(o, part)
            return o

        def get(I, o):
            if len(names) == 1:
                return one(I, o, names[0])
            return tuple(one(I, o, n) for n in names)
        return fn('attrgetter', get)

    def itemgetter(I, *ks):
        def get(I, o):
            r = tuple(I.getitem(o, k) for k in ks)
            return r[0] if len(r) == 1 else r
        return fn('itemgetter', get)

    import ast as _ast
    cmpf = lambda n, op: fn(n, lambda I, a, b: I.compare(op, a, b))
    mkmod(I, 'operator', attrgetter=fn('attrgetter', attrgetter), itemgetter=fn('itemgetter', itemgetter),
          and_=fn('and_', lambda I, a, b: binop(I, '&', a, b)), or_=fn('or_', lambda I, a, b: binop(I, '|', a, b)),
          add=fn('add', lambda I, a, b: binop(I, '+', a, b)), sub=fn('sub', lambda I, a, b: binop(I, '-', a, b)),
          mul=fn('mul', lambda I, a, b: binop(I, '*', a, b)), mod=fn('mod', lambda I, a, b: binop(I, '%', a, b)),
          eq=cmpf('eq', _ast.Eq()), ne=cmpf('ne', _ast.NotEq()), lt=cmpf('lt', _ast.Lt()), le=cmpf('le', _ast.LtE()),
          gt=cmpf('gt', _ast.Gt()), ge=cmpf('ge', _ast.GtE()), is_=cmpf('is_', _ast.Is()), is_not=cmpf('is_not', _ast.IsNot()),
          not_=fn('not_', lambda I, a: not I.truth(a)), truth=fn('truth', lambda I, a: I.truth(a)),
          contains=fn('contains', lambda I, a, b: contains(I, a, b)),
          getitem=fn('getitem', lambda I, a, b: I.getitem(a, b)))

    def groupby(I, it, key=None):
        groups = []
        for x in iterate(I, it):
            k = I.call(key, [x]) if key is not None else x
            if groups and I.eq(groups[-1][0], k):
                groups[-1][1].append(x)
            else:
                groups.append((k, [x]))
        return IterObj(iter([(k, IterObj(iter(g))) for k, g in groups]))

    def count(I, start=0, step=1):
        def g():
            i = start
            while True:
                yield i
                i = binop(I, '+', i, step)
        return IterObj(g())

    def islice(I, it, *a):
        import itertools
        return IterObj(itertools.islice(iterate(I, it), *[py(I, x) for x in a]))

    def chain(I, *its):
        def g():
            for it in its:
                for x in iterate(I, it):
                    yield x
        return IterObj(g(), 'chain')
    ch = fn('chain', chain)
    ch.attrs = {'from_iterable': fn('from_iterable', lambda I, its: chain(I, *list(iterate(I, its))))}

    def lazy(fn_):
        return fn_

    def imap(I, f, *its):
        def g():
            for t in zip(*[iterate(I, i) for i in its]):
                yield I.call(f, list(t))
        return IterObj(g())

    def ifilter(I, f, it, neg=False):
        def g():
            for x in iterate(I, it):
                if I.truth(x if I.R(f) is None else I.call(f, [x])) != neg:
                    yield x
        return IterObj(g())

    def takewhile(I, f, it):
        def g():
            for x in iterate(I, it):
                if not I.truth(I.call(f, [x])):
                    return
                yield x
        return IterObj(g())

    def dropwhile(I, f, it):
        def g():
            drop = True
            for x in iterate(I, it):
                if drop and I.truth(I.call(f, [x])):
                    continue
                drop = False
                yield x
        return IterObj(g())
    mkmod(I, 'itertools', chain=ch, groupby=fn('groupby', groupby), count=fn('count', count), islice=fn('islice', islice),
          imap=fn('imap', imap), izip=fn('izip', lambda I, *its: IterObj(zip(*[iterate(I, i) for i in its]))),
          ifilter=fn('ifilter', ifilter), ifilterfalse=fn('iff', lambda I, f, it: ifilter(I, f, it, True)),
          takewhile=fn('takewhile', takewhile), dropwhile=fn('dropwhile', dropwhile),
          starmap=fn('starmap', lambda I, f, it: IterObj(iter([I.call(f, list(iterate(I, x))) for x in iterate(I, it)]))),
          repeat=fn('repeat', lambda I, x, n: IterObj(iter([x] * py(I, n)))))

    def namedtuple(I, name, fields, *a, **kw):
        import ast
        from .engine import Frame, Module
        fields = py(I, fields) if isinstance(I.R(fields), str) else [py(I, f) for f in iterate(I, fields)]
        fields = fields.replace(',', ' ').split() if isinstance(fields, str) else fields
        src = 'class %s(tuple):\n    _fields = (%s)\n    def __new__(cls, %s):\n        return tuple.__new__(cls, (%s,))\n' % (
            py(I, name), ''.join('"%s", ' % f for f in fields), ', '.join(fields), ', '.join(fields))
        src += '    def _asdict(self):\n        return OrderedDict(zip(self._fields, self))\n'
        src += '    def _replace(self, **kw):\n        return self.__class__(*[kw.get(f, x) for f, x in zip(self._fields, self)])\n'
        src += '    @classmethod\n    def _make(cls, it):\n        return cls(*it)\n'
        src += ''.join('    @property\n    def %s(self):\n        return self[%d]\n' % (f, i) for i, f in enumerate(fields))
        tree = ast.parse(src)
        m = Module('collections', '<namedtuple>', '<namedtuple>', tree)
        m.is_pkg, m.obj = False, None
        m.ns['__name__'] = BStr('collections')
        m.ns['OrderedDict'] = T['OrderedDict']
        fr = Frame(None, m, None, None)
        I.stack.append((fr, tree))
        n = len(I.stack)
        try:
            for y in I.exec_body(tree.body, fr):
                raise Unsupported('namedtuple')
        finally:
            del I.stack[n - 1:]
        return m.ns[str(py(I, name))]

    mkmod(I, 'collections', namedtuple=fn('namedtuple', namedtuple), deque=T['deque'], defaultdict=T['defaultdict'], OrderedDict=T['OrderedDict'],
          Mapping=T['mappingproxy'], Callable=T['function'])

    def update_wrapper(I, w, f, *a, **kw):
        w, f = I.R(w), I.R(f)
        for n in ('__name__', '__doc__', '__module__'):
            if isinstance(w, FuncObj):
                I.mut(w)
                w.attrs[n] = I.getattr(f, n, None)
        return w

    def partial(I, f, *a, **kw):
        return BFn('partial', lambda I, b, kw2: I.call(f, list(a) + list(b), dict(kw, **kw2)))
    mkmod(I, 'functools', reduce=B['reduce'], update_wrapper=fn('update_wrapper', update_wrapper),
          wraps=fn('wraps', lambda I, f, *a, **kw: fn('wraps', lambda I, w: update_wrapper(I, w, f))),
          partial=fn('partial', partial))

    mkmod(I, 'types', ModuleType=T['module'], FunctionType=T['function'], MethodType=T['instancemethod'], NoneType=T['NoneType'],
          StringType=T['str'], UnicodeType=T['unicode'], ClassType=T['type'], TypeType=T['type'],
          GeneratorType=T['generator'], StringTypes=(T['str'], T['unicode']), BuiltinFunctionType=T['builtin_function'],
          DictType=T['dict'], ListType=T['list'], TupleType=T['tuple'], IntType=T['int'], BooleanType=T['bool'])
    T['instancemethod'].attrs['__new__'] = StaticM(BFn('MethodType', lambda I, a, kw: Bound(I.R(a[1]), a[2]) if I.R(a[2]) is not None else I.R(a[1])))
    mkmod(I, 'weakref', WeakKeyDictionary=T['WeakKeyDictionary'], WeakValueDictionary=T['WeakValueDictionary'],
          ref=fn('ref', lambda I, o, *cb: BFn('ref', lambda I, a, kw: o)))
    lock = fn('Lock', lambda I: Inst(T['Lock']))
    mkmod(I, 'threading', Lock=lock, RLock=lock, local=T['local'], currentThread=fn('ct', lambda I: None))
    I.ext['dummy_threading'] = I.ext['threading']
    mkmod(I, 'thread', get_ident=fn('gi', lambda I: 1), allocate_lock=lock)

    def signal(I, name, doc=None):
        s = Inst(T['Signal'])
        s.attrs['receivers'] = I.new_dict()
        s.attrs['name'] = name
        return s
    mkmod(I, 'blinker', signal=fn('signal', signal), Signal=T['Signal'], Namespace=fn('Namespace', lambda I: None))
    mkmod(I, 'datetime', date=T['date'], time=T['time'], datetime=T['datetime'], timedelta=T['timedelta'])
    mkmod(I, 'decimal', Decimal=T['Decimal'], InvalidOperation=T['InvalidOperation'], DecimalException=T['DecimalException'])
    mkmod(I, 'math', floor=fn('floor', lambda I, x: math.floor(py(I, x))))
    mkmod(I, 'copy', copy=fn('copy', copy_copy), deepcopy=fn('deepcopy', lambda I, x: (_ for _ in ()).throw(Unsupported('deepcopy'))))
    mkmod(I, 'warnings', warn=fn('warn', lambda I, *a, **kw: None))
    mkmod(I, 'inspect', isclass=fn('isclass', lambda I, x: isinstance(I.R(x), ClassObj)))
    mkmod(I, 'time', time=fn('time', lambda I: I.fresh('now', ['float'])))

    # urlparse
    def urlparse(I, s, *a, **kw):
        s = unbox(I, s)
        if isinstance(s, Sym):
            k = I.kind1(s)
            s = I.R(s)
        if not (isinstance(s, str) or (isinstance(s, Sym) and k in STRK)):
            I.throw('AttributeError', BStr('not a string'))
        if isinstance(s, Sym):
            if not I.decide(('urlparses', s.term), 'urlparse(%r) succeeds' % s):
                I.throw('ValueError', BStr('Invalid IPv6 URL'))
        o = Inst(T['ext'])
        o.tag = ('url', s)
        o.attrs['__url__'] = s
        parts = ['scheme', 'netloc', 'path', 'params', 'query', 'fragment']
        if isinstance(s, str):
            import urllib.parse
            try:
                r = urllib.parse.urlparse(str(s))
            except ValueError as e:
                I.throw('ValueError', BStr(str(e)))
            for p in parts + ['username', 'password', 'hostname']:
                o.attrs[p] = getattr(r, p)
            port = r.netloc.split('@')[-1].split(']')[-1]
            o.attrs['port'] = LazyAttr(lambda I, port=port: concrete_port(I, port))
        else:
            for p in parts:
                o.attrs[p] = I.app('url.' + p, s, kinds=[k])
            for p in ('username', 'password', 'hostname'):
                o.attrs[p] = LazyAttr(lambda I, p=p: I.app('url.' + p, s, kinds=[k]) if I.decide(('has', p, s.term)) else None)
            o.attrs['port'] = LazyAttr(lambda I: url_port(I, s))
        o.p = None
        c = T['ParseResult']
        o.cls = c
        return o
    c = ClassObj(T['type'], 'ParseResult', [T['object']], {}, builtin=True)
    T['ParseResult'] = c

    def concrete_port(I, s):
        s = s.split(':', 1)[1] if ':' in s else ''
        if not s:
            return None
        try:
            n = int(s, 10)
        except ValueError:
            I.throw('ValueError', BStr('invalid literal for int()'))
        return n if 0 <= n <= 65535 else None

    def url_port(I, s):
        if not I.decide(('has', 'port', s.term)):
            return None
        if not I.decide(('port-valid', s.term)):
            I.throw('ValueError', BStr('invalid port'))
        return I.app('url.port', s, kinds=['int'])

    def res_get(p):
        def f(I, a, kw):
            v = I.R(a[0]).attrs.get(p)
            return v.fn(I) if isinstance(v, LazyAttr) else v
        return Prop(BFn(p, f))
    for p in ('scheme', 'netloc', 'path', 'params', 'query', 'fragment', 'username', 'password', 'hostname', 'port'):
        c.attrs[p] = res_get(p)
    URLP = ('scheme', 'netloc', 'path', 'params', 'query', 'fragment')
    c.attrs['__iter__'] = BFn('__iter__', lambda I, a, kw: IterObj(iter([I.R(a[0]).attrs[p] for p in URLP])), method=True)
    c.attrs['__getitem__'] = BFn('__getitem__', lambda I, a, kw: getitem(I, tuple(I.R(a[0]).attrs[p] for p in URLP), a[1]), method=True)
    c.attrs['__len__'] = BFn('__len__', lambda I, a, kw: 6, method=True)
    c.attrs['_replace'] = BFn('_replace', lambda I, a, kw: url_replace(I, I.R(a[0]), kw), method=True)
    c.attrs['geturl'] = BFn('geturl', lambda I, a, kw: urlunparse(I, I.R(a[0])), method=True)

    def url_replace(I, o, kw):
        n = Inst(o.cls)
        n.attrs.update(o.attrs)
        n.attrs.update(kw)
        return n

    def urlunparse(I, parts):
        ps = list(iterate(I, parts))
        if all(isinstance(unbox(I, x), str) for x in ps):
            import urllib.parse
            return urllib.parse.urlunparse([str(unbox(I, x)) for x in ps])
        return I.app('urlunparse', *ps, kinds=['text'])
    mkmod(I, 'urlparse', urlparse=fn('urlparse', urlparse), urlunparse=fn('urlunparse', urlunparse),
          urlsplit=fn('urlsplit', urlparse), urlunsplit=fn('urlunsplit', urlunparse),
          ParseResult=T['ParseResult'], SplitResult=T['ParseResult'])
    moves.attrs['urllib'] = mkmod(I, 'six.moves.urllib', parse=I.ext['urlparse'])
    I.ext['six.moves.urllib.parse'] = I.ext['urlparse']

    # xml.sax.saxutils
    def sax_text(I, s, rest, kw):
        s = unbox(I, s)
        ents = rest[0] if rest else kw.get('entities')
        ents = {} if ents is None else {unbox(I, k): unbox(I, v) for k, v in I.R(ents).p.items()}
        if not isinstance(s, str) or not all(isinstance(x, str) for kv in ents.items() for x in kv):
            return None, ents
        return s, ents

    def sax_escape(I, s, *a, **kw):
        t, ents = sax_text(I, s, a, kw)
        if t is None:
            return I.app('saxescape', s, kinds=['text'])
        import xml.sax.saxutils
        return xml.sax.saxutils.escape(t, ents)

    def sax_quote(I, s, *a, **kw):
        t, ents = sax_text(I, s, a, kw)
        if t is None:
            return I.app('saxquoteattr', s, kinds=['text'])
        import xml.sax.saxutils
        return xml.sax.saxutils.quoteattr(t, ents)

    def sax_unescape(I, s, *a, **kw):
        t, ents = sax_text(I, s, a, kw)
        if t is None:
            return I.app('saxunescape', s, kinds=['text'])
        import xml.sax.saxutils
        return xml.sax.saxutils.unescape(t, ents)
    esc = fn('escape', sax_escape)
    quo = fn('quoteattr', sax_quote)
    su = mkmod(I, 'xml.sax.saxutils', escape=esc, quoteattr=quo, unescape=fn('unescape', sax_unescape))
    sx = mkmod(I, 'xml.sax', saxutils=su)
    mkmod(I, 'xml', sax=sx)

    # genshi is restated in sa/stubs


class LazyAttr(object):
    def __init__(self, fn):
        self.fn = fn


def copy_copy(I, o):
    o = I.R(o)
    if isinstance(o, Inst) and not isinstance(o, (ClassObj, FuncObj)):
        f, c = o.cls.lookup('__copy__')
        if f is not None:
            return I.call(I.bind_attr(f, o, o.cls), [])
        n = Inst(o.cls)
        n.attrs.update(o.attrs)
        n.p = list(o.p) if isinstance(o.p, list) else o.p.copy() if isinstance(o.p, PDict) else o.p
        return n
    return o


# ---------------------------------------------------------------- imports
STDLIB = frozenset(getattr(sys, 'stdlib_module_names', ())) | frozenset(
    ['StringIO', 'cStringIO', 'urllib2', 'UserDict', 'UserList', 'UserString', 'sets', 'Queue', 'exceptions', 'cPickle', 'md5', 'sha', 'new', 'future_builtins', 'HTMLParser', 'htmlentitydefs'])


def more_source(I, name):
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs_more', name + '.py')
    if not os.path.exists(path):
        return None
    key = 'more:' + name
    if key not in I.sources:
        from . import loader
        from .engine import Module
        m = Module(name, path, os.path.relpath(path, I.root), loader.parse(path))
        m.is_pkg, m.obj = False, None
        I.sources[key] = m
    return I.sources[key]


def library_attr(I, o, name):
    """(found, value) of a name a modelled library module does not define itself."""
    mod = o.attrs.get('__name__')
    mod = str(mod) if isinstance(mod, str) else ''
    if I.ext.get(mod) is not o and not (mod.split('.')[0] == 'genshi' and mod in I.sources):
        return False, None
    m = more_source(I, mod)
    if m is not None:
        key = 'more:' + mod
        if I.more_run is not I.run:
            I.more_run, I.sources_run = I.run, {}
        if key not in I.sources_run:
            from .engine import Frame
            fresh = type(m)(m.name, m.path, m.relpath, m.tree)
            fresh.is_pkg, fresh.obj = False, None
            fresh.ns['__name__'] = BStr(mod)
            I.sources_run[key] = fresh
            fr = Frame(None, fresh, None, None)
            I.stack.append((fr, m.tree))
            n = len(I.stack)
            try:
                for y in I.exec_body(m.tree.body, fr):
                    raise Unsupported('library stub')
            finally:
                del I.stack[n - 1:]
        ns = I.sources_run[key].ns
        if name in ns:
            return True, ns[name]
    if name.startswith('__') or mod in ('__builtin__', 'builtins') and name not in E.PY2_BUILTINS:
        return False, None
    raise Unsupported('%s.%s' % (mod, name))


def import_leaf(I, name, mod):
    """Import and return the named (leaf) module object."""
    e = I.sysmodules.p.get(I, BStr(name))
    if e is not None:
        return e[1]
    m = I.load_source(name)
    if m is None and mod is not None and '.' not in name:
        # implicit relative import (Python 2)
        pkg = mod.name if mod.is_pkg else mod.name.rpartition('.')[0]
        if pkg:
            e = I.sysmodules.p.get(I, BStr(pkg + '.' + name))
            if e is not None:
                return e[1]
            m = I.load_source(pkg + '.' + name)
            if m is not None and name in I.ext:
                m = None
            elif m is not None:
                name = pkg + '.' + name
    if m is None:
        if name not in I.ext and more_source(I, name) is not None:
            o = Inst(I.T['module'])
            o.attrs['__name__'] = BStr(name)
            I.ext[name] = o
        if name in I.ext:
            I.sysmodules.p.set(I, BStr(name), I.ext[name])
            return I.ext[name]
        top = name.split('.')[0]
        if top in STDLIB:
            raise Unsupported('module %s' % name)
        I.throw('ImportError', BStr('No module named %s' % name))
    # parents first
    if '.' in name:
        import_leaf(I, name.rpartition('.')[0], None)
        e = I.sysmodules.p.get(I, BStr(name))
        if e is not None:
            return e[1]
    o = Inst(I.T['module'])
    o.attrs = m.ns
    m.obj = o
    o.tag = name
    m.ns['__name__'] = BStr(name)
    m.ns['__file__'] = BStr(m.path)
    import ast
    doc = ast.get_docstring(m.tree, clean=False)
    m.ns['__doc__'] = BStr(doc) if doc is not None else None
    if m.is_pkg:
        m.ns['__path__'] = I.new_list([BStr('.')])
    I.mut(I.sysmodules)
    I.sysmodules.p.set(I, BStr(name), o)
    I.exec_module(m)
    e = I.sysmodules.p.get(I, BStr(name))
    o = e[1]
    if '.' in name:
        parent, _, leaf = name.rpartition('.')
        pe = I.sysmodules.p.get(I, BStr(parent))
        if pe is not None:
            I.mut(pe[1])
            pe[1].attrs[leaf] = o
    return o


def import_module(I, name, mod):
    m = import_leaf(I, name, mod)
    if '.' in name:
        e = I.sysmodules.p.get(I, BStr(name.split('.')[0]))
        if e is None:
            import_leaf(I, name.split('.')[0], mod)
            e = I.sysmodules.p.get(I, BStr(name.split('.')[0]))
        return e[1]
    return m


def import_from(I, m, modname, name, mod):
    try:
        return I.getattr(m, name)
    except PyRaise as e:
        if not I.exc_match(e.exc, I.T['AttributeError']):
            raise
    full = str(I.R(I.getattr(m, '__name__'))) + '.' + name
    e = I.sysmodules.p.get(I, BStr(full))
    if e is not None:
        return e[1]
    if I.load_source(full) is not None or full in I.ext:
        return import_leaf(I, full, None)
    I.throw('ImportError', BStr('cannot import name %s' % name))


def module_public(I, m):
    al = m.attrs.get('__all__')
    if al is not None:
        return [(str(I.R(n)), I.getattr(m, str(I.R(n)))) for n in iterate(I, al)]
    return [(k, v) for k, v in m.attrs.items() if not k.startswith('_')]
