"""Run-time hooks called by instrumented code (see instr.py).

Python's own operators dispatch to the symbolic classes; what is hooked here is what CPython
resolves in C without asking the operand: calls of builtins, str/dict/set methods, `in`,
%-formatting, f-strings, dict/set displays and subscripts."""
__sx__ = True

import copy
import builtins
import collections
import functools
import math
import random
import re
import string
import sys
import types

import z3

from . import core
from .core import (ENG, AND, OR, NOT, Sym, SymBool, SymInt, SymReal, SymStr, DecAtom, Ch,
                   Inconclusive, EngineSignal, mkstr, elems, has_sym, deep_concrete, str_eq, _b)
from . import sregex

Function = types.FunctionType
BuiltinMethod = types.BuiltinMethodType
MethodDescriptor = type(str.strip)
Method = types.MethodType
WrapperDescriptor = types.WrapperDescriptorType
MethodWrapper = types.MethodWrapperType

INSTR_MODULES = set()      # names of instrumented modules
VFSMOD = None              # the instrumented vfs module


# ------------------------------------------------------------------ text
def to_text(x):
    """str(x) that keeps symbolic parts"""
    t = type(x)
    if t is str or t is SymStr:
        return x
    if t is SymInt:
        if x >= 0:
            return SymStr((DecAtom(x),))
        return "-" + SymStr((DecAtom(-x),))
    if t is SymBool:
        return str(bool(x))
    if t is SymReal:
        if ENG.digits:
            raise core.Inconclusive("str() of a real")
        return "0.0"
    if isinstance(x, BaseException):
        m = type(x).__str__
        if isinstance(m, Function):
            return to_text(m(x))
        if isinstance(x, OSError) and not has_sym(x.args):
            return str(x)
        if len(x.args) == 1:
            return to_text(x.args[0])
        if has_sym(x.args):
            return "<" + join_text(", ", [to_text(a) for a in x.args]) + ">"
        return str(x)
    if t in (list, tuple, dict, set):
        if has_sym(x):
            return to_repr(x)
        return str(x)
    m = type(x).__str__
    if isinstance(m, Function):
        r = m(x)
        if isinstance(r, (str, SymStr)):
            return r
        raise TypeError("__str__ returned non-string")
    return str(x)


def join_text(sep, parts):
    return core.join(sep, parts)


def to_repr(x):
    t = type(x)
    if t is SymStr:
        return "'" + x + "'"
    if t in (SymInt, SymBool, SymReal):
        return to_text(x)
    if has_sym(x):
        if t is list:
            return "[" + join_text(", ", [to_repr(y) for y in x]) + "]"
        if t is tuple:
            return "(" + join_text(", ", [to_repr(y) for y in x]) + ")"
        if isinstance(x, (set, frozenset)):
            return "{" + join_text(", ", [to_repr(y) for y in x]) + "}"
        if isinstance(x, dict):
            return "{" + join_text(", ", [to_repr(k) + ": " + to_repr(v) for k, v in x.items()]) + "}"
    m = type(x).__repr__
    if isinstance(m, Function):
        return m(x)
    return repr(x)


def fmt_value(x, conv, spec):
    if conv == "r":
        x = to_repr(x)
    elif conv == "s":
        x = to_text(x)
    elif conv == "a":
        x = to_repr(x)
    if not spec:
        if isinstance(x, Sym) or isinstance(x, BaseException) or has_sym(x):
            return to_text(x)
        m = type(x).__format__
        if m is object.__format__:
            return to_text(x)
        return format(x)
    if isinstance(spec, SymStr):
        spec = spec.concrete("format spec")
    if isinstance(x, SymReal) and ENG.digits:
        return core.real_text(x, spec)
    if isinstance(x, SymReal):
        return format(0.0, spec)         # digits of a symbolic float: outside every claim
    if isinstance(x, SymInt):
        if spec in ("d", "s", "i"):
            return to_text(x)
        if spec[-1] in "feEgG%":
            if ENG.digits:
                return core.real_text(_real(x), spec)
            return format(0.0, spec)
        return format(x.concrete("format spec"), spec)
    if isinstance(x, SymStr):
        if spec == "s":
            return x
        return format(x.concrete("format spec"), spec)
    return format(x, spec)


def fstr(*parts):
    """f-string: parts are str or (value, conv, spec)"""
    out = []
    sym = False
    for p in parts:
        if type(p) is tuple:
            p = fmt_value(*p)
        if type(p) is SymStr:
            sym = True
        out.append(p)
    if not sym:
        return "".join(out)
    return core.join("", out)


class _Fmt(string.Formatter):
    def vformat_sym(self, fmt, a, k):
        out = []
        auto = 0
        for lit, field, spec, conv in self.parse(fmt):
            if lit:
                out.append(lit)
            if field is None:
                continue
            if field == "":
                field = str(auto)
                auto += 1
            elif field[0] in ".[":
                field = str(auto) + field
                auto += 1
            first, rest = string._string.formatter_field_name_split(field)
            v = a[first] if isinstance(first, int) else getitem(k, first)
            for is_attr, i in rest:
                v = getattr(v, i) if is_attr else getitem(v, i)
            if spec and "{" in spec:
                spec = self.vformat_sym(spec, a, k)
            out.append(fmt_value(v, conv, spec))
        return core.join("", out)


def fmt_method(s, a, k):
    if isinstance(s, SymStr):
        s = s.concrete("format string")
    if not needs_sym((a, k)):
        return s.format(*a, **k)
    return _Fmt().vformat_sym(s, a, k)


def needs_sym(x):
    """formatting arguments that need our own rendering"""
    if has_sym(x):
        return True

    def deep(y):
        if isinstance(y, BaseException):
            return True
        if isinstance(y, (list, tuple)):
            return any(deep(z) for z in y)
        if isinstance(y, dict):
            return any(deep(z) for z in y.values())
        m = getattr(type(y), "__str__", None)
        return isinstance(m, Function)
    return deep(x)


_pct = re.compile(r"%(?:\((?P<key>[^)]*)\))?(?P<flags>[#0\- +]*)(?P<w>\*|\d+)?(?:\.(?P<p>\*|\d+))?[hlL]?(?P<t>.)", re.S)


def mod(a, b):
    if isinstance(a, SymStr):
        # a symbolic format string: only when it cannot contain a conversion
        if not isinstance(b, (tuple, dict)) or b:
            a = a.concrete("% format string")
            return mod(a, b)
        return a
    if type(a) is not str or not needs_sym(b):
        return a % b
    out = []
    pos = 0
    idx = 0
    args = b if isinstance(b, tuple) else None
    for m in _pct.finditer(a):
        out.append(a[pos:m.start()])
        pos = m.end()
        t = m.group("t")
        if t == "%":
            out.append("%")
            continue
        if m.group("key") is not None:
            v = getitem(b, m.group("key"))
        elif args is not None:
            if idx >= len(args):
                raise TypeError("not enough arguments for format string")
            v = args[idx]
            idx += 1
        else:
            if idx:
                raise TypeError("not enough arguments for format string")
            v = b
            idx += 1
        spec = (m.group("flags") or "") + (m.group("w") or "") + ("." + m.group("p") if m.group("p") else "")
        if t == "s" and not spec:
            out.append(to_text(v))
        elif t in "ra":
            out.append(to_repr(v))
        elif t in "diu" and not spec:
            if isinstance(v, (str, SymStr)):
                raise TypeError("%d format: a real number is required, not str")
            out.append(to_text(v))
        elif isinstance(v, SymReal) or (isinstance(v, SymInt) and t in "feEgG"):
            out.append(core.real_text(_real(v), spec + t) if ENG.digits else ("%" + spec + t) % 0.0)
        else:
            v = deep_concrete(v, "% format") if not isinstance(v, BaseException) else to_text(v)
            out.append(("%" + spec + t) % (v,))
    out.append(a[pos:])
    if args is not None and idx < len(args):
        raise TypeError("not all arguments converted during string formatting")
    return core.join("", out)


# ------------------------------------------------------------------ dict / set keys
_hashing = [0]


def _symhash(self):
    if _hashing[0]:
        return 7
    return hash(self.concrete("hash()"))


SymStr.__hash__ = _symhash


def _tuple_sym(k):
    return type(k) is tuple and has_sym(k)


def _keysym(k):
    return type(k) is SymStr or _tuple_sym(k) or type(k) is SymInt


def ckey(d, k):
    """the key of d equal to k on this path, or k itself if there is none"""
    if type(k) is SymInt:
        return k.concrete("dict key")
    if _keysym(k):
        for x in d:
            if x is k or bool(eq(x, k)):
                return x
        return k
    if type(k) is str or type(k) is tuple:
        anysym = False
        for x in d:
            if _keysym(x):
                anysym = True
                break
        if not anysym:
            return k
        for x in d:
            if _keysym(x) and bool(eq(x, k)):
                return x
    return k


def has_key(d, k):
    """membership without deciding which key"""
    if type(k) is SymInt:
        k = k.concrete("dict key")
    if _keysym(k):
        return OR(*[True if x is k else eq(x, k) for x in d])
    if any(_keysym(x) for x in d):
        with _H():
            if dict.__contains__(d, k) if isinstance(d, dict) else k in list(d):
                return True
        return OR(*[eq(x, k) for x in d if _keysym(x)])
    return k in d


class _H(object):
    def __enter__(self):
        _hashing[0] += 1

    def __exit__(self, *a):
        _hashing[0] -= 1


def d_get(d, k, default=None):
    k = ckey(d, k)
    with _H():
        return dict.get(d, k, default)


def d_getitem(d, k):
    k = ckey(d, k)
    with _H():
        has = dict.__contains__(d, k)
        if has:
            return dict.__getitem__(d, k)
    if isinstance(d, collections.defaultdict) and d.default_factory is not None:
        v = d.default_factory()
        d_setitem(d, k, v)
        return v
    miss = getattr(type(d), "__missing__", None)
    if miss is not None:
        return miss(d, k)
    raise KeyError(k)


def d_setitem(d, k, v):
    k = ckey(d, k)
    with _H():
        dict.__setitem__(d, k, v)


def d_delitem(d, k):
    k = ckey(d, k)
    with _H():
        if not dict.__contains__(d, k):
            raise KeyError(k)
        dict.__delitem__(d, k)


_nodefault = object()


def d_method(d, name, a, kw):
    if name == "get":
        return d_get(d, *a)
    if name == "setdefault":
        k = ckey(d, a[0])
        with _H():
            return dict.setdefault(d, k, *a[1:])
    if name == "pop":
        k = ckey(d, a[0])
        with _H():
            return dict.pop(d, k, *a[1:])
    if name == "update":
        d_update(d, *a, **kw)
        return None
    if name == "__contains__":
        return has_key(d, a[0])
    if name == "__getitem__":
        return d_getitem(d, *a)
    if name == "__setitem__":
        return d_setitem(d, *a)
    if name == "__delitem__":
        return d_delitem(d, *a)
    if name == "copy":
        out = type(d)() if not isinstance(d, collections.defaultdict) else type(d)(d.default_factory)
        with _H():
            for k, v in d.items():
                dict.__setitem__(out, k, v)
        return out
    if name == "__init__":
        d_update(d, *a, **kw)
        return None
    with _H():
        return getattr(d, name)(*a, **kw)


def d_update(d, *a, **kw):
    if a:
        src = a[0]
        if isinstance(src, dict):
            for k, v in list(src.items()):
                d_setitem(d, k, v)
        elif hasattr(src, "keys"):
            for k in src.keys():
                d_setitem(d, k, src[k])
        else:
            for kv in src:
                k, v = kv
                d_setitem(d, k, v)
    for k, v in kw.items():
        d_setitem(d, k, v)


def mkdict(pairs):
    d = {}
    for k, v in pairs:
        if k is _splat:
            d_update(d, v)
        elif type(k) in (str, int) and not d:
            d[k] = v
        else:
            d_setitem(d, k, v)
    return d


_splat = object()


def mkset(items, cls=set):
    s = set()
    for x in items:
        s_add(s, x)
    return cls(s) if cls is not set else s


def s_add(s, x):
    x = ckey(s, x)
    with _H():
        set.add(s, x)


def s_method(s, name, a, kw):
    if name == "add":
        return s_add(s, a[0])
    if name in ("remove", "discard"):
        k = ckey(s, a[0])
        with _H():
            if k in s:
                set.remove(s, k)
                return None
        if name == "remove":
            raise KeyError(a[0])
        return None
    if name == "update":
        for it in a:
            for x in list(it):
                s_add(s, x)
        return None
    if name == "__contains__":
        return has_key(s, a[0])
    if name in ("union", "intersection", "difference", "symmetric_difference"):
        out = mkset(s)
        for it in a:
            out = s_op({"union": "|", "intersection": "&", "difference": "-",
                        "symmetric_difference": "^"}[name], out, mkset(it))
        return out
    if name in ("intersection_update", "difference_update", "symmetric_difference_update"):
        r = s_method(s, name[:-7], a, kw)
        set.clear(s)
        for x in r:
            s_add(s, x)
        return None
    if name == "issubset":
        return AND(*[has_key(mkset(a[0]), x) for x in s])
    if name == "issuperset":
        return AND(*[has_key(s, x) for x in a[0]])
    if name == "isdisjoint":
        return NOT(OR(*[has_key(s, x) for x in a[0]]))
    with _H():
        return getattr(s, name)(*a, **kw)


def s_op(op, a, b):
    cls = type(a) if isinstance(a, (set, frozenset)) else set
    out = set()
    if op == "|":
        for x in list(a) + list(b):
            s_add(out, x)
    elif op == "&":
        for x in a:
            if has_key(b, x):
                s_add(out, x)
    elif op == "-":
        for x in a:
            if not has_key(b, x):
                s_add(out, x)
    else:
        for x in a:
            if not has_key(b, x):
                s_add(out, x)
        for x in b:
            if not has_key(a, x):
                s_add(out, x)
    return out if cls is set else cls(out)


_SETLIKE = (set, frozenset, type({}.keys()), type({}.items()))


def binop(op, a, b):
    if isinstance(a, _SETLIKE) and isinstance(b, _SETLIKE) and (has_sym(list(a), 2) or has_sym(list(b), 2)):
        return s_op(op, a, b)
    if op == "|":
        if isinstance(a, dict) and isinstance(b, dict):
            out = d_method(a, "copy", (), {})
            d_update(out, b)
            return out
        return a | b
    if op == "&":
        return a & b
    if op == "-":
        return a - b
    return a ^ b


def iop(op, a, b):
    if isinstance(a, set) and (has_sym(a, 2) or has_sym(list(b), 2)):
        r = s_op(op, a, b)
        set.clear(a)
        for x in r:
            s_add(a, x)
        return a
    if isinstance(a, dict) and op == "|":
        d_update(a, b)
        return a
    if op == "%":
        return mod(a, b)
    if op == "|":
        a |= b
    elif op == "&":
        a &= b
    elif op == "-":
        a -= b
    else:
        a ^= b
    return a


# ------------------------------------------------------------------ operators
def eq(a, b):
    """a == b, handling containers with symbolic contents without forking"""
    ta, tb = type(a), type(b)
    if ta is SymStr or tb is SymStr:
        if ta in (str, SymStr) and tb in (str, SymStr):
            return str_eq(a, b)
        return a == b
    if (ta is list and tb is list) or (ta is tuple and tb is tuple):
        if len(a) != len(b):
            return False
        if has_sym(a, 2) or has_sym(b, 2):
            return AND(*[eq(x, y) for x, y in zip(a, b)])
        return a == b
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        if has_sym(a, 2) or has_sym(b, 2):
            for k, v in a.items():
                kk = ckey(b, k)
                with _H():
                    if kk not in b:
                        return False
                    w = dict.__getitem__(b, kk)
                if not eq(v, w):
                    return False
            return True
        return a == b
    if isinstance(a, _SETLIKE) and isinstance(b, _SETLIKE):
        if has_sym(list(a), 2) or has_sym(list(b), 2):
            return AND(*([has_key(b, x) for x in a] + [has_key(a, x) for x in b]))
        return a == b
    return a == b


def ne(a, b):
    ta = type(a)
    if ta in (str, list, tuple, dict, set, frozenset, SymStr) or isinstance(a, dict):
        return NOT(eq(a, b)) if type(b) in (str, list, tuple, dict, set, frozenset, SymStr) or isinstance(b, dict) else a != b
    return a != b


def contains(c, x):
    t = type(c)
    if t is str:
        if type(x) is SymStr:
            return SymStr(elems(c)).__contains__(x)
        return x in c
    if t is SymStr:
        return c.__contains__(x)
    if isinstance(c, dict):
        m = type(c).__contains__
        if isinstance(m, Function):
            return m(c, x)
        return has_key(c, x)
    if t in (set, frozenset):
        return has_key(c, x)
    if t in (list, tuple):
        if isinstance(x, Sym) or has_sym(c, 1):
            return OR(*[True if y is x else eq(y, x) for y in c])
        return x in c
    if isinstance(c, (type({}.keys()),)):
        return OR(*[True if y is x else eq(y, x) for y in c])
    m = getattr(t, "__contains__", None)
    if isinstance(m, Function):
        return m(c, x)
    return x in c


def cmp(op, a, b):
    ta = type(a)
    if (ta is list or ta is tuple) and (has_sym(a, 2) or has_sym(b, 2)) and type(b) is ta:
        return seq_cmp(op, a, b)
    if ta in (set, frozenset) and (has_sym(list(a), 2) or has_sym(list(b), 2)):
        if op in (">", ">="):
            a, b, op = b, a, {">": "<", ">=": "<="}[op]
        sub = AND(*[has_key(b, x) for x in a])
        if op == "<=":
            return sub
        return AND(sub, NOT(AND(*[has_key(a, x) for x in b])))
    if op == "<":
        return a < b
    if op == "<=":
        return a <= b
    if op == ">":
        return a > b
    return a >= b


def seq_cmp(op, a, b):
    for x, y in zip(a, b):
        if not eq(x, y):
            return cmp(op, x, y)
    n, m = len(a), len(b)
    return {"<": n < m, "<=": n <= m, ">": n > m, ">=": n >= m}[op]


def not_(x):
    return NOT(x) if isinstance(x, SymBool) else (not x)


class DictProxy(object):
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return d_getitem(self.d, k)

    def __setitem__(self, k, v):
        d_setitem(self.d, k, v)

    def __delitem__(self, k):
        d_delitem(self.d, k)


def sub(o):
    """what to subscript instead of o"""
    if isinstance(o, dict):
        t = type(o)
        if t is dict or not isinstance(t.__getitem__, Function):
            return DictProxy(o)
    return o


def getitem(o, k):
    return sub(o)[k]


# ------------------------------------------------------------------ builtins
def m_isinstance(x, t):
    if isinstance(x, Sym):
        ts = t if isinstance(t, tuple) else (t,)
        flat = []
        for y in ts:
            flat.extend(y if isinstance(y, tuple) else (y,))
        k = {SymStr: str, SymInt: int, SymBool: bool, SymReal: float}.get(type(x))
        if k is None:
            k = getattr(type(x), "STANDS_FOR", type(x))
        return any(isinstance(y, type) and (issubclass(k, y) or (issubclass(type(x), y) and y is not object)) for y in flat)
    return isinstance(x, t)


def m_len(x):
    f = getattr(type(x), "sx_len", None)
    if f is not None:
        return f(x)
    if type(x) is SymStr:
        for c in x.c:
            if isinstance(c, core.DecAtom):
                from . import native
                return native.charlen(x)
    return len(x)


def m_str(*a, **kw):
    if not a:
        return str(*a, **kw)
    if len(a) > 1 or kw:
        x = a[0]
        if hasattr(x, "decode") and isinstance(x, Sym):
            return x.decode(*a[1:], **kw)
        return str(*a, **kw)
    return to_text(a[0])


def m_int(x=0, *a):
    if type(x) is SymInt:
        return x
    if type(x) is SymBool:
        return SymInt(z3.If(x.e, z3.IntVal(1), z3.IntVal(0)))
    if type(x) is SymReal:
        return SymInt(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))
    if type(x) is SymStr:
        if a:
            return int(x.concrete("int(base)"), *a)
        return parse_int(x)
    return int(x, *a)


def parse_int(s):
    s0 = s
    s = s.strip()
    c = elems(s)
    bad = ValueError("invalid literal for int() with base 10")
    if len(c) == 1 and isinstance(c[0], DecAtom):
        return c[0].i
    if any(isinstance(x, DecAtom) for x in c):
        return parse_int(mkstr(SymStr(c)._noatoms("int()"))) if isinstance(s, SymStr) else int(s)
    if isinstance(s, str):
        return int(s)
    sign = 1
    if c and bool(core.ch_in(c[0], frozenset((43, 45)))):
        if bool(core.ch_eq(c[0], 45)):
            sign = -1
        c = c[1:]
    if not c:
        raise bad
    val = 0
    prev_us = True
    for x in c:
        if bool(core.ch_in(x, core._DIGITS)):
            d = (x - 48) if isinstance(x, int) else SymInt(x.e - 48)
            val = val * 10 + d
            prev_us = False
        elif not prev_us and bool(core.ch_eq(x, 95)):
            prev_us = True
        else:
            if not isinstance(x, int) and any(chr(k).isdigit() and k > 57 for k in x.dom):
                raise Inconclusive("non-ASCII digit")
            raise bad
    if prev_us:
        raise bad
    return val * sign


def m_float(x=0.0):
    if type(x) is SymInt:
        return SymReal(z3.ToReal(x.e))
    if type(x) is SymReal:
        return x
    if type(x) is SymStr:
        return float(x.concrete("float()"))
    return float(x)


def m_type(*a):
    if len(a) == 1 and isinstance(a[0], Sym):
        return {SymStr: str, SymInt: int, SymBool: bool, SymReal: float}.get(type(a[0]), type(a[0]))
    return type(*a)


def m_map(f, *its):
    for a in zip(*its):
        yield call(f, *a)


def m_filter(f, it):
    for x in it:
        if (x if f is None else call(f, x)):
            yield x


def m_reduce(f, it, *init):
    it = iter(it)
    acc = init[0] if init else next(it)
    for x in it:
        acc = call(f, acc, x)
    return acc


def m_sorted(it, key=None, reverse=False):
    lst = list(it)
    m_sort(lst, key=key, reverse=reverse)
    return lst


def m_sort(lst, key=None, reverse=False):
    if key is not None:
        k = key
        lst.sort(key=lambda x: call(k, x), reverse=reverse)
    else:
        lst.sort(reverse=reverse)


def m_cmp_to_key(mycmp):
    class K(object):
        def __init__(self, obj):
            self.obj = obj

        def __lt__(self, o):
            return bool(call(mycmp, self.obj, o.obj) < 0)

        def __gt__(self, o):
            return bool(call(mycmp, self.obj, o.obj) > 0)

        def __le__(self, o):
            return bool(call(mycmp, self.obj, o.obj) <= 0)

        def __ge__(self, o):
            return bool(call(mycmp, self.obj, o.obj) >= 0)

        def __eq__(self, o):
            return bool(call(mycmp, self.obj, o.obj) == 0)
        __hash__ = None

    def key(obj):
        return K(obj)
    return key


def _mm(fn):
    def m(*a, **kw):
        key = kw.pop("key", None)
        if key is not None:
            kw["key"] = lambda x: call(key, x)
        return fn(*a, **kw)
    return m


def m_any(it):
    syms = []
    for x in it:
        if isinstance(x, SymBool):
            syms.append(x)
        elif x:
            return True
    return OR(*syms)


def m_all(it):
    syms = []
    for x in it:
        if isinstance(x, SymBool):
            syms.append(x)
        elif not x:
            return False
    return AND(*syms)


def m_bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return _b(z3.simplify(x.e != 0))
    return bool(x)


def m_dict(*a, **kw):
    d = {}
    d_update(d, *a, **kw)
    return d


def m_set(it=()):
    return mkset(it)


def m_frozenset(it=()):
    return mkset(it, frozenset)


def m_print(*a, **kw):
    f = kw.get("file")
    if f is None or f is sys.stdout or f is sys.stderr:
        return None
    sep, end = kw.get("sep"), kw.get("end")
    f.write(core.join(" " if sep is None else sep, [to_text(x) for x in a]) + ("\n" if end is None else end))


def m_ord(c):
    if type(c) is SymStr:
        x = c._noatoms("ord")[0]
        return x if isinstance(x, int) else SymInt(x.e)
    return ord(c)


def m_chr(i):
    if type(i) is SymInt:
        return chr(i.concrete("chr"))
    return chr(i)


def m_hash(x):
    return hash(x)


def m_repr(x):
    return to_repr(x)


def m_format(x, spec=""):
    return fmt_value(x, None, spec)


def m_round(x, n=None):
    if isinstance(x, Sym):
        return x.__round__(n)
    return round(x) if n is None else round(x, n)


def m_sum(it, start=0):
    t = start
    for x in it:
        t = t + x
    return t


def m_divmod(a, b):
    return (a // b, a % b)


def m_zip(*a, **k):
    return zip(*a, **k)


class _ODict(dict):
    """collections.OrderedDict without C key hashing on iteration"""

    def __init__(self, *a, **kw):
        dict.__init__(self)
        d_update(self, *a, **kw)

    def move_to_end(self, key, last=True):
        k = ckey(self, key)
        with _H():
            v = dict.pop(self, k)
            if last:
                dict.__setitem__(self, k, v)
            else:
                items = list(self.items())
                dict.clear(self)
                dict.__setitem__(self, k, v)
                for a, b in items:
                    dict.__setitem__(self, a, b)

    def popitem(self, last=True):
        if last:
            with _H():
                return dict.popitem(self)
        k = next(iter(self))
        with _H():
            return (k, dict.pop(self, k))

    def copy(self):
        return _ODict(self)

    def __deepcopy__(self, memo):
        import copy
        return _ODict([(copy.deepcopy(k, memo), copy.deepcopy(v, memo)) for k, v in self.items()])

    def __reversed__(self):
        return reversed(list(self.keys()))

    def __repr__(self):
        return "OrderedDict(...)"

    @classmethod
    def fromkeys(cls, it, v=None):
        return cls([(k, v) for k in it])


_ODict.__name__ = "OrderedDict"


# ------------------------------------------------------------------ math and random
def _real(x):
    return x if type(x) is SymReal else SymReal(z3.ToReal(x.e))


def m_floor(x):
    if type(x) is SymReal:
        return core._simp_int(z3.ToInt(x.e))
    return x if type(x) is SymInt else math.floor(x)


def m_ceil(x):
    if type(x) is SymReal:
        return core._simp_int(-z3.ToInt(-x.e))
    return x if type(x) is SymInt else math.ceil(x)


def m_trunc(x):
    return m_int(x) if isinstance(x, Sym) else math.trunc(x)


def m_fabs(x):
    if isinstance(x, Sym):
        r = _real(x)
        return SymReal(z3.simplify(z3.If(r.e >= 0, r.e, -r.e)))
    return math.fabs(x)


def m_copysign(x, y):
    if isinstance(y, Sym):
        y = 1 if y >= 0 else -1
    if isinstance(x, Sym):
        r = m_fabs(x)
        return r if math.copysign(1, y) > 0 else 0 - r
    return math.copysign(x, y)


RANDOM = [None, 0]


def m_randrange(a, b=None, step=1):
    a = int(a)
    lo, hi = (0, a) if b is None else (a, int(b))
    if hi <= lo:
        raise ValueError("empty range for randrange()")
    n = len(range(lo, hi, step))
    if RANDOM[0] is not None:
        return lo + step * RANDOM[0](n)
    RANDOM[1] += 1
    return lo + step * ((RANDOM[1] * 7919) % n)


MODELS = {
    math.floor: m_floor, math.ceil: m_ceil, math.trunc: m_trunc, math.fabs: m_fabs, math.copysign: m_copysign,
    random.randrange: m_randrange, random.randint: lambda a, b: m_randrange(a, int(b) + 1),
    random.choice: lambda s: s[m_randrange(len(s))],
    builtins.isinstance: m_isinstance, builtins.len: m_len, builtins.str: m_str, builtins.int: m_int,
    builtins.float: m_float, builtins.map: m_map, builtins.filter: m_filter,
    builtins.sorted: m_sorted, builtins.min: _mm(min), builtins.max: _mm(max), builtins.any: m_any,
    builtins.all: m_all, builtins.bool: m_bool, builtins.dict: m_dict, builtins.set: m_set,
    builtins.frozenset: m_frozenset, builtins.print: m_print, builtins.ord: m_ord, builtins.chr: m_chr,
    builtins.repr: m_repr, builtins.format: m_format, builtins.round: m_round, builtins.sum: m_sum,
    builtins.divmod: m_divmod, functools.reduce: m_reduce,
    re.match: lambda p, s, f=0: sregex.match(re.compile(p, f), s),
    re.search: lambda p, s, f=0: sregex.search(re.compile(p, f), s),
    re.fullmatch: lambda p, s, f=0: sregex.fullmatch(re.compile(p, f), s),
    re.sub: lambda p, r, s, count=0, flags=0: sregex.sub(re.compile(p, flags), r, s, count),
    re.split: lambda p, s, maxsplit=0, flags=0: sregex.split(re.compile(p, flags), s, maxsplit),
    re.findall: lambda p, s, flags=0: sregex.findall(re.compile(p, flags), s),
    re.finditer: lambda p, s, flags=0: sregex.finditer(re.compile(p, flags), s),
}

# builtins that are fine with symbolic arguments as they are
_nop = object()
PASS = {builtins.list, builtins.tuple, builtins.enumerate, builtins.zip, builtins.reversed, builtins.iter,
        builtins.next, builtins.range, builtins.getattr, builtins.hasattr, builtins.setattr,
        builtins.delattr, builtins.id, builtins.callable, builtins.issubclass, builtins.abs,
        builtins.type, builtins.property, builtins.staticmethod, builtins.classmethod, builtins.object,
        builtins.slice, functools.cmp_to_key, functools.partial}
PASS_NAMES = {"deepcopy", "copy", "bind", "bind_partial"}

RESOLVE = {}      # extra models registered by the environment (open, ...)


def _is_instr(f):
    return getattr(f, "__module__", None) in INSTR_MODULES


def call(f, /, *a, **kw):
    t = type(f)
    if t is Function:
        g = f.__globals__
        if "__sx__" in g:
            return f(*a, **kw)
        m = MODELS.get(f)
        if m is not None:
            return m(*a, **kw)
        return call_native(f, a, kw)
    if t is Method:
        fn = f.__func__
        if type(fn) is Function and "__sx__" in fn.__globals__:
            return f(*a, **kw)
        if isinstance(f.__self__, random.Random):
            m = MODELS.get(f)
            if m is not None:
                return m(*a, **kw)
            raise Inconclusive("random." + f.__name__)
        return mcall(f.__self__, f.__name__, *a, **kw) if type(f.__self__) in _MC else call_native(f, a, kw)
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*a, **kw)
    if t is type or isinstance(f, type):
        if f is type:
            return m_type(*a, **kw)
        if f in PASS or _is_instr(f) or issubclass(f, BaseException) or hasattr(f, "_fields"):
            return f(*a, **kw)
        if issubclass(f, dict):
            if not a and not kw:
                return f()
            if f is collections.defaultdict:
                d = f(a[0])
                d_update(d, *a[1:], **kw)
                return d
        return call_native(f, a, kw)
    if t is BuiltinMethod or isinstance(f, BuiltinMethod):
        s = f.__self__
        if type(s) in _MC:
            return mcall(s, f.__name__, *a, **kw)
        if isinstance(s, dict) and f.__name__ in _DM:
            return d_method(s, f.__name__, a, kw)
        if isinstance(s, (list, type)) or f in PASS:
            return f(*a, **kw)
        return call_native(f, a, kw)
    if t is WrapperDescriptor or t is MethodWrapper:
        s = a[0] if t is WrapperDescriptor else f.__self__
        if type(s) in _MC and not f.__name__ == "__init__":
            return mcall(s, f.__name__, *(a[1:] if t is WrapperDescriptor else a), **kw)
        if isinstance(s, dict) and f.__name__ in _DM:
            return d_method(s, f.__name__, a[1:] if t is WrapperDescriptor else a, kw)
        return f(*a, **kw)
    if t is MethodDescriptor:
        s = a[0]
        if type(s) in _MC or isinstance(s, Sym):
            return mcall(s, f.__name__, *a[1:], **kw)
        if isinstance(s, dict) and f.__name__ in _DM:
            return d_method(s, f.__name__, a[1:], kw)
        return f(*a, **kw)
    if t is functools.partial:
        k = dict(f.keywords)
        k.update(kw)
        return call(f.func, *(f.args + a), **k)
    if _is_instr(t) or getattr(t, "SX_OK", False):
        return f(*a, **kw)
    return call_native(f, a, kw)


def call_native(f, a, kw):
    """an uninstrumented callable: symbolic arguments are made concrete (exhaustively)"""
    if has_sym(a) or (kw and has_sym(kw)):
        name = getattr(f, "__name__", repr(f))
        if name in PASS_NAMES or getattr(f, "SX_OK", False):
            return f(*a, **kw)
        a = tuple(deep_concrete(x, "call " + name) for x in a)
        kw = dict((k, deep_concrete(v, "call " + name)) for k, v in kw.items())
    return f(*a, **kw)


def m_deepcopy(x, memo=None, _nil=[]):
    """copy.deepcopy that does not hash symbolic keys"""
    if memo is None:
        memo = {}
    t = type(x)
    if t in (dict, _ODict, collections.defaultdict) and has_sym(list(x.keys()), 2):
        out = t(x.default_factory) if t is collections.defaultdict else t()
        for k, v in x.items():
            d_setitem(out, m_deepcopy(k, memo), m_deepcopy(v, memo))
        return out
    if t is list:
        return [m_deepcopy(y, memo) for y in x]
    if t is tuple:
        return tuple([m_deepcopy(y, memo) for y in x])
    if t in (set, frozenset):
        return t(x)
    return copy.deepcopy(x, memo)


MODELS[copy.deepcopy] = m_deepcopy


_MC = (str, SymStr, dict, set, frozenset, list, _ODict, collections.defaultdict, re.Pattern)


def mcall(o, name, /, *a, **kw):
    t = type(o)
    if t is str:
        if name == "join":
            lst = list(a[0])
            for x in lst:
                if type(x) is SymStr:
                    return core.join(o, lst)
            return o.join(lst)
        if name == "format":
            return fmt_method(o, a, kw)
        if has_sym(a):
            return getattr(SymStr(elems(o)), name)(*a, **kw)
        return getattr(o, name)(*a, **kw)
    if t is SymStr:
        return getattr(o, name)(*a, **kw)
    if t is dict or t is _ODict or t is collections.defaultdict:
        if name in _DM:
            return d_method(o, name, a, kw)
        return getattr(o, name)(*a, **kw)
    if t is set or t is frozenset:
        return s_method(o, name, a, kw)
    if t is list:
        if name == "sort":
            return m_sort(o, *a, **kw)
        if name in ("index", "remove", "count") and has_sym((o, a), 2):
            return l_method(o, name, a)
        return getattr(o, name)(*a, **kw)
    if t is re.Pattern:
        f = getattr(sregex, name, None)
        if f is None:
            return call_native(getattr(o, name), a, kw)
        return f(o, *a, **kw)
    f = getattr(o, name)
    return call(f, *a, **kw)


_DM = {"get", "setdefault", "pop", "update", "__contains__", "__getitem__", "__setitem__", "__delitem__",
       "copy", "__init__"}


def l_method(o, name, a):
    x = a[0]
    if name == "count":
        return sum(1 for y in o if bool(eq(y, x)))
    lo = int(a[1]) if len(a) > 1 else 0
    hi = int(a[2]) if len(a) > 2 else len(o)
    for i in range(lo, min(hi, len(o))):
        if o[i] is x or bool(eq(o[i], x)):
            if name == "index":
                return i
            del o[i]
            return None
    raise ValueError("x not in list")


def encode(s, encoding="utf-8", errors="strict"):
    return VFSMOD.SymBytes([s])


def chk_exc():
    """first statement of a bare `except:` handler"""
    if isinstance(sys.exc_info()[1], EngineSignal):
        raise
