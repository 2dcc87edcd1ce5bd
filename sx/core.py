"""Symbolic execution core: path exploration, symbolic booleans, integers and strings.

A harness is ordinary Python that drives the real multibag code.  Inputs are symbolic values made
by the context (ctx.py).  Every branch on a symbolic value is decided by z3 under the current path
condition; when both outcomes are feasible the path forks (depth-first, by re-execution).  Nothing
here samples: a harness is finished when the work list of feasible branches is empty.
"""
import functools
import sys
import time
import z3

__sx__ = True        # hooks.call passes symbolic values straight to this module's functions


class EngineSignal(BaseException):
    """Control flow of the engine itself; never caught by the code under test."""


class Infeasible(EngineSignal):
    """the path condition has become unsatisfiable (an assume() that cannot hold)"""


class Inconclusive(EngineSignal):
    """the engine cannot decide this path (unsupported operation, solver unknown, budget)"""


class Violation(EngineSignal):
    def __init__(self, msg, inputs):
        EngineSignal.__init__(self, msg)
        self.msg = msg
        self.inputs = inputs


class PathDone(EngineSignal):
    """the harness ended this path on purpose"""


_z3true = z3.BoolVal(True)
_z3false = z3.BoolVal(False)

CONCRETE_LIMIT = 64      # distinct values tried when something has to be made concrete


class Engine(object):
    """One engine per process; holds the solver and the state of the current path."""

    def __init__(self, query_timeout_ms=20000):
        self.solver = z3.Solver()
        self.solver.set("timeout", query_timeout_ms)
        self.levels = []          # expressions pushed on the solver, one level each
        self.queries = 0
        self.solver_s = 0.0
        self.unknowns = 0
        self.domforks = 0
        self.concretised = {}
        self.concretise_cap_hit = 0
        self.deadline = None
        self.reset(b"", ())

    # -- path life cycle
    def reset(self, prefix, vals):
        LOG.reset(vals)
        self.prefix = prefix      # decisions to replay
        self.pos = 0              # next decision index
        self.decisions = bytearray()   # decisions taken on this path
        self.alts = []            # newly found alternatives: (prefix, concretised values)
        self.trail = []           # expressions asserted on this path
        self.known = {}           # ast id -> (expr, bool) decided on this path
        self.model = None
        self.inputs = []          # (name, kind, payload)
        self.fresh = 0
        self.digits = False      # whether the digits of reals are modelled (ctx.digits)
        self.covers = {}
        self.asserts = 0
        self.forks = 0
        self.dom = {}             # character variable id -> code points still possible
        self.taint = set()        # character variables in constraints over several variables

    def _sync(self):
        """make the solver's stack equal to self.trail"""
        n = 0
        L = min(len(self.levels), len(self.trail))
        while n < L and self.levels[n].eq(self.trail[n]):
            n += 1
        if n < len(self.levels):
            self.solver.pop(len(self.levels) - n)
            del self.levels[n:]
        for e in self.trail[n:]:
            self.solver.push()
            self.solver.add(e)
            self.levels.append(e)

    def check(self, *extra):
        self._sync()
        self.queries += 1
        t = time.monotonic()
        r = self.solver.check(*extra)
        self.solver_s += time.monotonic() - t
        return r

    def sat(self, expr):
        """is PC and expr satisfiable?  (returns model or None)"""
        r = self.check(expr)
        if r == z3.sat:
            return self.solver.model()
        if r == z3.unknown:
            self.unknowns += 1
            raise Inconclusive("solver unknown")
        return None

    def push(self, expr):
        self.trail.append(expr)
        self._taint(expr)
        self.known[expr.get_id()] = (expr, True)

    def cur_model(self):
        if self.model is None:
            r = self.check()
            if r == z3.unknown:
                self.unknowns += 1
                raise Inconclusive("solver unknown")
            if r == z3.unsat:
                raise Infeasible()
            self.model = self.solver.model()
        return self.model

    def _taint(self, expr):
        self.taint.update(_vars(expr))

    def decide(self, expr, src=None):
        """Truth of a symbolic condition on this path; forks when both outcomes are feasible.

        Every outcome is recorded: 0/1 a fork taken false/true, 2/3 forced false/true."""
        if expr is True or expr is False:
            return expr
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        k = self.known.get(expr.get_id())
        if k is not None:
            return k[1]
        if z3.is_not(expr):
            k = self.known.get(expr.arg(0).get_id())
            if k is not None:
                return not k[1]
        if src is not None:
            # a condition on a single character: settled by the code points still possible for it
            vid = src[0].e.get_id()
            d = self.dom.get(vid, src[0].dom)
            hit = d & src[1]
            if len(hit) == len(d):
                return True
            if not hit:
                return False
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(c)
            val = c in (1, 3)
            if c >= 2:
                self.known[expr.get_id()] = (expr, val)
            else:
                self._take(expr, z3.Not(expr), val, src)
            if src is not None:
                self.dom[vid] = hit if val else d - hit
            if self.pos == len(self.prefix):
                self.model = None
            return val
        self.tick()
        if src is not None and vid not in self.taint:
            # unconstrained otherwise: both outcomes are feasible
            if self.model is not None:
                side = z3.is_true(self.model.eval(expr, model_completion=True))
            else:
                side = True
            self.pos += 1
            self.forks += 1
            self.domforks += 1
            self.alts.append((bytes(self.decisions) + bytes([0 if side else 1]),
                              tuple(LOG.vals[:LOG.pos])))
            self.decisions.append(1 if side else 0)
            self._take(expr, z3.Not(expr), side, src)
            self.dom[vid] = hit if side else d - hit
            return side
        m = self.cur_model()
        side = z3.is_true(m.eval(expr, model_completion=True))
        neg = z3.Not(expr)
        om = self.sat(neg if side else expr)
        self.pos += 1
        if src is not None:
            self.dom[vid] = hit if side else d - hit
        if om is None:
            self.known[expr.get_id()] = (expr, side)
            self.decisions.append(3 if side else 2)
            return side
        self.forks += 1
        self.alts.append((bytes(self.decisions) + bytes([0 if side else 1]),
                          tuple(LOG.vals[:LOG.pos])))
        self.decisions.append(1 if side else 0)
        self._take(expr, neg, side, src)
        return side

    def tick(self):
        if self.deadline and time.monotonic() > self.deadline:
            raise Inconclusive("path time limit")

    def _take(self, expr, neg, val, src=None):
        e = expr if val else neg
        self.trail.append(e)
        if src is None:
            self._taint(expr)
        self.known[expr.get_id()] = (expr, val)
        self.known[e.get_id()] = (e, True)

    def assume(self, expr):
        expr = zbool(expr)
        if expr is True or (expr is not False and z3.is_true(expr)):
            return
        if expr is False or z3.is_false(expr):
            raise Infeasible()
        self.push(expr)
        if self.model is not None and not z3.is_true(self.model.eval(expr, model_completion=True)):
            self.model = None
        if self.pos >= len(self.prefix):
            self.cur_model()

    def fresh_name(self, base):
        self.fresh += 1
        return "%s!%d" % (base, self.fresh)


_varcache = {}


def _vars(expr):
    """ids of the uninterpreted constants in expr"""
    k = expr.get_id()
    r = _varcache.get(k)
    if r is not None and r[0].eq(expr):
        return r[1]
    out = set()
    if z3.is_const(expr):
        if expr.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(k)
    else:
        for c in expr.children():
            out |= _vars(c)
    if len(_varcache) > 200000:
        _varcache.clear()
    _varcache[k] = (expr, out)
    return out


ENG = Engine.__new__(Engine)     # replaced by start()


def start():
    ENG.__init__()
    return ENG


def _b(e):
    """wrap a z3 Bool, collapsing constants"""
    if e is True or e is False:
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def zbool(x):
    """z3 expression (or Python bool) of a bool-like"""
    if isinstance(x, SymBool):
        return x.e
    return bool(x)


def AND(*xs):
    out = []
    for x in xs:
        if not isinstance(x, SymBool):
            if not x:
                return False
        else:
            out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return SymBool(z3.And(*[x.e for x in out]))


def OR(*xs):
    out = []
    for x in xs:
        if not isinstance(x, SymBool):
            if x:
                return True
        else:
            out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return SymBool(z3.Or(*[x.e for x in out]))


def NOT(x):
    if not isinstance(x, SymBool):
        return not x
    if x.src is not None:
        return SymBool(z3.Not(x.e), (x.src[0], x.src[0].dom - x.src[1]))
    return _b(z3.Not(x.e))


class Sym(object):
    """base class of symbolic values"""
    __slots__ = ()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Inconclusive("pickling a symbolic value")


class SymBool(Sym):
    __slots__ = ("e", "src")

    def __init__(self, e, src=None):
        self.e = e
        self.src = src       # (Ch, code points): the condition is "this character is one of these"

    def __bool__(self):
        return ENG.decide(self.e, self.src)

    def __and__(self, o):
        return AND(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return OR(self, o)
    __ror__ = __or__

    def __invert__(self):
        return NOT(self)

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            a, b = self.e, zbool(o)
            if b is True:
                return self
            if b is False:
                return NOT(self)
            return _b(a == b)
        if isinstance(o, (int, SymInt)):
            return SymInt(z3.If(self.e, 1, 0)) == o
        return False

    def __ne__(self, o):
        return NOT(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __add__(self, o):
        return SymInt(z3.If(self.e, 1, 0)) + o
    __radd__ = __add__

    def __repr__(self):
        return "<SymBool>"


def _ze(x):
    """z3 Int expression for int-like or NotImplemented"""
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    return None


def mkint(e):
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def _simp_int(e):
    e = z3.simplify(e)
    return mkint(e)


class SymInt(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __getattr__(self, name):
        if name in ("bit_length", "bit_count", "to_bytes", "as_integer_ratio", "conjugate", "is_integer"):
            return getattr(self.concrete(name), name)
        if name in ("real", "numerator"):
            return self
        raise AttributeError("'int' object has no attribute %r" % (name,))

    def concrete(self, why="int"):
        """fork over the feasible values (exhaustive up to CONCRETE_LIMIT values per site)"""
        ENG.concretised[why] = ENG.concretised.get(why, 0) + 1
        tried = 0
        while True:
            v = LOG.next_value(self.e)
            if ENG.decide(self.e == v):
                return v
            tried += 1
            if tried > CONCRETE_LIMIT:
                ENG.concretise_cap_hit += 1
                raise Inconclusive("too many values for " + why)

    def _cmp(self, o, f, fr):
        if isinstance(o, float) or isinstance(o, SymReal):
            return SymReal(z3.ToReal(self.e))._cmp(o, fr)
        z = _ze(o)
        if z is None:
            return NotImplemented
        return _b(z3.simplify(f(self.e, z)))

    def __eq__(self, o):
        if isinstance(o, (float, SymReal)):
            return SymReal(z3.ToReal(self.e)) == o
        z = _ze(o)
        if z is None:
            return False
        return _b(z3.simplify(self.e == z))

    def __ne__(self, o):
        return NOT(self == o)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def __hash__(self):
        return hash(self.concrete("hash(int)"))

    def __bool__(self):
        return ENG.decide(z3.simplify(self.e != 0))

    def __index__(self):
        return self.concrete("index")
    __int__ = __index__

    def __float__(self):
        return float(self.concrete("float"))

    def __str__(self):
        return str(self.concrete("str(int)"))

    def __repr__(self):
        return "<SymInt %s>" % self.e

    def __format__(self, spec):
        return format(self.concrete("format(int)"), spec)

    def _ar(self, o, f):
        if isinstance(o, (float, SymReal)):
            return NotImplemented
        z = _ze(o)
        if z is None:
            return NotImplemented
        return _simp_int(f(self.e, z))

    def __add__(self, o):
        if isinstance(o, float):
            return SymReal(z3.ToReal(self.e)) + o
        return self._ar(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, float):
            return SymReal(z3.ToReal(self.e)) - o
        return self._ar(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._ar(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, float):
            return SymReal(z3.ToReal(self.e)) * o
        if isinstance(o, str) and len(o) == 1 and o.isascii():
            return SymRep(o, self)
        if isinstance(o, (str, list, tuple, bytes, SymStr)):
            return o * self.concrete("repeat")
        return self._ar(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __neg__(self):
        return _simp_int(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return _simp_int(z3.If(self.e >= 0, self.e, -self.e))

    # Python floor division and modulo: z3 div/mod are Euclidean, equal to Python's for a
    # positive divisor
    def __floordiv__(self, o):
        if isinstance(o, float):
            return NotImplemented
        o = o if isinstance(o, int) else int(o)
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if o > 0:
            return _simp_int(self.e / o)
        return _simp_int((-self.e) / (-o))

    def __mod__(self, o):
        if isinstance(o, float):
            return NotImplemented
        o = o if isinstance(o, int) else int(o)
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return self - (self // o) * o

    def __rfloordiv__(self, o):
        return o // self.concrete("divisor")

    def __rmod__(self, o):
        return o % self.concrete("divisor")

    def __divmod__(self, o):
        return (self // o, self % o)

    def __truediv__(self, o):
        return SymReal(z3.ToReal(self.e)) / o

    def __rtruediv__(self, o):
        return o / self.concrete("divisor")

    def __pow__(self, o):
        return self.concrete("pow") ** o

    def __rpow__(self, o):
        return o ** self.concrete("pow")

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __rshift__(self, o):
        return self // (1 << int(o))

    def __and__(self, o):
        return self.concrete("bitop") & int(o)

    def __or__(self, o):
        return self.concrete("bitop") | int(o)

    def __round__(self, n=None):
        return self


class ConcreteLog(object):
    """Values picked for concretisation, in order, for the current path.  Stored in the work item
    together with the prefix so that replays are exact."""

    def __init__(self):
        self.vals = []
        self.pos = 0

    def reset(self, vals):
        self.vals = list(vals)
        self.pos = 0

    def next_value(self, e):
        if self.pos < len(self.vals):
            v = self.vals[self.pos]
            self.pos += 1
            return v
        # smallest-effort pick: the current model's value
        m = ENG.cur_model()
        v = m.eval(e, model_completion=True)
        v = v.as_long()
        self.vals.append(v)
        self.pos += 1
        return v


LOG = ConcreteLog()


def nearest(e, n):
    """the number of units of the n-th decimal that the real e rounds to; either of two at a tie"""
    k = z3.Int(ENG.fresh_name("round"))
    d = e * z3.RatVal(10 ** n, 1) - z3.ToReal(k)
    ENG.assume(SymBool(z3.And(d <= z3.RatVal(1, 2), d >= z3.RatVal(-1, 2))))
    return k


def digits_of(k, least=1):
    """the decimal digits of the non-negative integer k as characters, at least so many"""
    n = least
    while not ENG.decide(k < 10 ** n):
        n += 1
    ds = [z3.Int(ENG.fresh_name("digit")) for i in range(n)]
    ENG.assume(SymBool(z3.And(*([z3.And(d >= 0, d <= 9) for d in ds] +
                                [k == z3.Sum([d * 10 ** (n - 1 - i) for i, d in enumerate(ds)])]))))
    return [Ch(z3.simplify(d + 48), _DIGITS) for d in ds]


def real_text(x, spec):
    """the text of a non-negative symbolic real in fixed-point notation"""
    import re
    m = re.match(r"^([<>]?)(0?)(\d*)(?:\.(\d+))?[fF]$", spec)
    if not m:
        raise Inconclusive("format of a real: " + spec)
    p = 6 if m.group(4) is None else int(m.group(4))
    if not ENG.decide(z3.simplify(x.e >= 0)):
        raise Inconclusive("format of a negative real")
    k = nearest(x.e, p)
    c = digits_of(k, p + 1)
    if p:
        c[-p:-p] = [46]
    w = int(m.group(3) or 0)
    if len(c) < w:
        pad = [48 if m.group(2) else 32] * (w - len(c))
        c = c + pad if m.group(1) == "<" else pad + c
    return SymStr(tuple(c))


class SymReal(Sym):
    """exact real standing in for a float (rounding is outside every claim that uses it)"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def _z(o):
        if isinstance(o, SymReal):
            return o.e
        if isinstance(o, SymInt):
            return z3.ToReal(o.e)
        if isinstance(o, (int, float)):
            from fractions import Fraction
            f = Fraction(o)
            return z3.RatVal(f.numerator, f.denominator)
        return None

    def _cmp(self, o, f):
        z = self._z(o)
        if z is None:
            return NotImplemented
        return _b(z3.simplify(f(self.e, z)))

    def __eq__(self, o):
        z = self._z(o)
        return False if z is None else _b(z3.simplify(self.e == z))

    def __ne__(self, o):
        return NOT(self == o)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return ENG.decide(z3.simplify(self.e != 0))

    def __hash__(self):
        raise Inconclusive("hash of a symbolic real")

    def _ar(self, o, f):
        z = self._z(o)
        if z is None:
            return NotImplemented
        return SymReal(z3.simplify(f(self.e, z)))

    def __add__(self, o):
        return self._ar(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._ar(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._ar(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._ar(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (int, float)) and o == 0:
            raise ZeroDivisionError("float division by zero")
        return self._ar(o, lambda a, b: a / b)

    def __round__(self, n=None):
        if n is None:
            return SymInt(z3.ToInt(self.e + z3.RatVal(1, 2)))
        if not ENG.digits:
            return self      # rounding to n digits: outside the claim
        return SymReal(z3.simplify(z3.ToReal(nearest(self.e, n)) / z3.RatVal(10 ** n, 1)))

    def __int__(self):
        return int(SymInt(z3.ToInt(self.e)))

    def __float__(self):
        raise Inconclusive("float() of a symbolic real")

    def __repr__(self):
        return "<SymReal>"


# ---------------------------------------------------------------- strings

class SymRep(Sym):
    """one ASCII character repeated a symbolic number of times; anything but taking its length or
    writing it to a file fixes the number"""
    __slots__ = ("ch", "n")
    STANDS_FOR = str

    def __init__(self, ch, n):
        self.ch = ch
        self.n = SymInt(z3.simplify(z3.If(n.e > 0, n.e, z3.IntVal(0))))

    def sx_len(self):
        return self.n

    def concrete(self, why="repeat"):
        return self.ch * self.n.concrete(why)

    def __len__(self):
        return self.n.concrete("len")

    def __str__(self):
        return self.concrete()

    def __bool__(self):
        return bool(self.n > 0)

    def __add__(self, o):
        return self.concrete() + o

    def __radd__(self, o):
        return o + self.concrete()

    def __eq__(self, o):
        return self.concrete() == o

    def __ne__(self, o):
        return NOT(self == o)

    def __hash__(self):
        return hash(self.concrete())

    def __iter__(self):
        return iter(self.concrete())

    def __getitem__(self, k):
        return self.concrete()[k]

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __getattr__(self, nm):
        if nm.startswith("__") or nm in ("c", "e"):
            raise AttributeError(nm)
        return getattr(self.concrete(), nm)


class DecAtom(object):
    """the decimal text of a non-negative symbolic integer, as one element of a SymStr"""
    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i           # SymInt


WS = [9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xa0, 0x1680] + list(range(0x2000, 0x200b)) + \
     [0x2028, 0x2029, 0x202f, 0x205f, 0x3000]
LINEBREAKS = [10, 11, 12, 13, 28, 29, 30, 0x85, 0x2028, 0x2029]


class Ch(object):
    """a symbolic character: z3 Int plus the set of code points it may take (or None)"""
    __slots__ = ("e", "dom", "var")

    def __init__(self, e, dom, var=False):
        self.e = e
        self.dom = dom       # frozenset of code points
        self.var = var       # e is an input variable


def ch_in(c, codes):
    """is element c (int | Ch | DecAtom) one of the code points `codes` (a set)?"""
    if isinstance(c, int):
        return c in codes
    if isinstance(c, Ch):
        dom = ENG.dom.get(c.e.get_id(), c.dom) if c.var else c.dom
        hit = dom & codes
        if not hit:
            return False
        if len(hit) == len(dom):
            return True
        return SymBool(_member(c.e, c.dom & codes, c.dom), (c, c.dom & codes) if c.var else None)
    raise TypeError


_membcache = {}


def _member(e, hit, dom):
    k = (e.get_id(), hit)
    r = _membcache.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    if len(_membcache) > 100000:
        _membcache.clear()
    rest = dom - hit
    x = z3.Not(_memb(e, rest)) if len(rest) < len(hit) else _memb(e, hit)
    _membcache[k] = (e, x)
    return x


def _memb(e, codes):
    """z3 membership of e in a set of ints, as ranges"""
    cs = sorted(codes)
    parts = []
    i = 0
    while i < len(cs):
        j = i
        while j + 1 < len(cs) and cs[j + 1] == cs[j] + 1:
            j += 1
        if i == j:
            parts.append(e == cs[i])
        else:
            parts.append(z3.And(e >= cs[i], e <= cs[j]))
        i = j + 1
    return z3.Or(*parts) if len(parts) > 1 else parts[0]


def ch_eq(a, b):
    """equality of two character elements (no DecAtom)"""
    if isinstance(a, int):
        if isinstance(b, int):
            return a == b
        return ch_in(b, frozenset((a,)))
    if isinstance(b, int):
        return ch_in(a, frozenset((b,)))
    if a is b or a.e.eq(b.e):
        return True
    da = ENG.dom.get(a.e.get_id(), a.dom) if a.var else a.dom
    db = ENG.dom.get(b.e.get_id(), b.dom) if b.var else b.dom
    if not (da & db):
        return False
    if len(da) == 1:
        return ch_in(b, da)
    if len(db) == 1:
        return ch_in(a, db)
    return _b(a.e == b.e)


def elems(s):
    if isinstance(s, SymStr):
        return s.c
    return tuple(map(ord, s))


def mkstr(el):
    """str if all elements are concrete, else SymStr"""
    el = tuple(el)
    for c in el:
        if not isinstance(c, int):
            return SymStr(el)
    return "".join(map(chr, el))


def _iscls(x):
    return isinstance(x, (str, SymStr))


class SymStr(Sym):
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    # -- concretisation
    def concrete(self, why="str"):
        ENG.concretised[why] = ENG.concretised.get(why, 0) + 1
        out = []
        for c in self.c:
            if isinstance(c, int):
                out.append(chr(c))
            elif isinstance(c, DecAtom):
                out.append(str(c.i.concrete(why)))
            else:
                tried = 0
                while True:
                    v = LOG.next_value(c.e)
                    if ENG.decide(c.e == v):
                        out.append(chr(v))
                        break
                    tried += 1
                    if tried > 300:
                        ENG.concretise_cap_hit += 1
                        raise Inconclusive("too many values for " + why)
        return "".join(out)

    def _noatoms(self, why):
        """make decimal atoms concrete (their length matters)"""
        if any(isinstance(c, DecAtom) for c in self.c):
            out = []
            for c in self.c:
                if isinstance(c, DecAtom) and ENG.digits:
                    out.extend(digits_of(c.i.e))
                elif isinstance(c, DecAtom):
                    out.extend(map(ord, str(c.i.concrete(why))))
                else:
                    out.append(c)
            return tuple(out)
        return self.c

    def __str__(self):
        return self.concrete("str()")

    def __repr__(self):
        return "<SymStr %r>" % "".join(
            chr(c) if isinstance(c, int) else ("{n}" if isinstance(c, DecAtom) else "?") for c in self.c)

    def __format__(self, spec):
        return format(self.concrete("format()"), spec)

    def __hash__(self):
        return hash(self.concrete("hash()"))

    def __len__(self):
        return len(self._noatoms("len"))

    def __bool__(self):
        return len(self.c) > 0

    def __iter__(self):
        for c in self._noatoms("iter"):
            yield mkstr((c,))

    def __getitem__(self, k):
        if isinstance(k, slice):
            c = self._noatoms("slice")
            return mkstr(c[slice(*(int(x) if isinstance(x, SymInt) else x
                                   for x in (k.start, k.stop, k.step)))])
        if isinstance(k, int) and k >= 0 and k < len(self.c) and \
           not any(isinstance(c, DecAtom) for c in self.c[:k + 1]):
            return mkstr((self.c[k],))
        return mkstr((self._noatoms("index")[int(k)],))

    def __add__(self, o):
        if not _iscls(o):
            return NotImplemented
        return mkstr(self.c + elems(o))

    def __radd__(self, o):
        if not _iscls(o):
            return NotImplemented
        return mkstr(elems(o) + self.c)

    def __mul__(self, n):
        return mkstr(self.c * int(n))
    __rmul__ = __mul__

    def __mod__(self, args):
        from . import hooks
        return hooks.mod(self, args)

    # -- comparison
    def __eq__(self, o):
        if not _iscls(o):
            return NotImplemented
        return str_eq(self, o)

    def __ne__(self, o):
        if not _iscls(o):
            return NotImplemented
        return NOT(str_eq(self, o))

    def __lt__(self, o):
        return str_lt(self, o, False) if _iscls(o) else NotImplemented

    def __le__(self, o):
        return str_lt(self, o, True) if _iscls(o) else NotImplemented

    def __gt__(self, o):
        return str_lt(o, self, False) if _iscls(o) else NotImplemented

    def __ge__(self, o):
        return str_lt(o, self, True) if _iscls(o) else NotImplemented

    def __contains__(self, sub):
        return self.find(sub) >= 0

    # -- searching.  Results are concrete positions; the comparisons fork.
    def _match_at(self, c, i, sub):
        """condition: c[i:i+len(sub)] == sub; elements may include atoms (never match non-digits)"""
        conds = []
        for k, x in enumerate(sub):
            y = c[i + k]
            if isinstance(x, DecAtom) or isinstance(y, DecAtom):
                if isinstance(y, DecAtom) and isinstance(x, int) and not (48 <= x <= 57):
                    return False
                raise Inconclusive("substring match against a number")
            e = ch_eq(y, x)
            if e is False:
                return False
            if e is not True:
                conds.append(e)
        return AND(*conds)

    def _hasdigit(self, sub):
        return any(not isinstance(x, int) or 48 <= x <= 57 for x in sub)

    def _searchable(self, sub):
        """self's elements, with atoms made concrete if sub could match inside one"""
        if any(isinstance(c, DecAtom) for c in self.c) and self._hasdigit(sub):
            return self._noatoms("search")
        return self.c

    def find(self, sub, start=0, end=None):
        s = elems(sub)
        c = self._searchable(s) if (start == 0 and end is None) else self._noatoms("find")
        if end is None:
            end = len(c)
        start, end = _clip(int(start), int(end), len(c))
        for i in range(start, end - len(s) + 1):
            if self._match_at(c, i, s):
                if any(isinstance(x, DecAtom) for x in c[:i]):
                    c2 = self._noatoms("find")
                    return mkstr(c2).find(sub)
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        s = elems(sub)
        c = self._noatoms("rfind")
        if end is None:
            end = len(c)
        start, end = _clip(int(start), int(end), len(c))
        for i in range(end - len(s), start - 1, -1):
            if self._match_at(c, i, s):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, sub, *a):
        i = self.rfind(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub, *a):
        if a:
            return mkstr(self._noatoms("count")).__getitem__(slice(*a)).count(sub)
        return len(self.split(sub)) - 1

    def startswith(self, pfx, start=0, end=None):
        if isinstance(pfx, tuple):
            return OR(*[self.startswith(p, start, end) for p in pfx])
        if start or end is not None:
            return mkstr(self._noatoms("startswith")[start:end]).startswith(pfx)
        s = elems(pfx)
        c = self.c
        for k in range(min(len(s), len(c))):
            if isinstance(c[k], DecAtom):
                if isinstance(s[k], int) and not 48 <= s[k] <= 57:
                    return False
                c = self._noatoms("startswith")
                break
            if not isinstance(s[k], DecAtom) and ch_eq(c[k], s[k]) is False:
                return False
        if len(s) > len(c):
            return False
        return self._match_at(c, 0, s)

    def endswith(self, sfx, start=0, end=None):
        if isinstance(sfx, tuple):
            return OR(*[self.endswith(p, start, end) for p in sfx])
        if start or end is not None:
            return mkstr(self._noatoms("endswith")[start:end]).endswith(sfx)
        s = elems(sfx)
        if not s:
            return True
        c = self.c
        for k in range(1, min(len(s), len(c)) + 1):
            if isinstance(c[-k], DecAtom):
                # a number ends with a digit and is not empty
                if isinstance(s[-k], int) and not 48 <= s[-k] <= 57:
                    return False
                c = self._noatoms("endswith")
                break
            if not isinstance(s[-k], DecAtom) and ch_eq(c[-k], s[-k]) is False:
                return False
        if len(s) > len(c):
            return False
        return self._match_at(c, len(c) - len(s), s)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:-len(p)] if p and self.endswith(p) else self

    # -- stripping
    def _strip(self, chars, left, right):
        if chars is None:
            codes = _WSSET
            extra = ()
        elif isinstance(chars, SymStr):
            codes = frozenset(c for c in chars.c if isinstance(c, int))
            extra = tuple(c for c in chars.c if not isinstance(c, int))
        else:
            codes = frozenset(map(ord, chars))
            extra = ()
        c = self.c
        if any(48 <= x <= 57 for x in codes) or extra:
            c = self._noatoms("strip")

        def hit(x):
            if isinstance(x, DecAtom):
                return False
            r = ch_in(x, codes)
            if extra:
                r = OR(r, *[ch_eq(x, y) for y in extra])
            return bool(r)
        i, j = 0, len(c)
        if left:
            while i < j and hit(c[i]):
                i += 1
        if right:
            while j > i and hit(c[j - 1]):
                j -= 1
        return mkstr(c[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    # -- splitting
    def split(self, sep=None, maxsplit=-1):
        out = []
        c = self.c
        maxsplit = int(maxsplit)
        if sep is None:
            i, n = 0, len(c)

            def ws(x):
                return (not isinstance(x, DecAtom)) and bool(ch_in(x, _WSSET))
            while i < n:
                while i < n and ws(c[i]):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(mkstr(c[i:]).rstrip())
                    return out
                j = i
                while j < n and not ws(c[j]):
                    j += 1
                out.append(mkstr(c[i:j]))
                i = j
            return out
        s = elems(sep)
        if not s:
            raise ValueError("empty separator")
        c = self._searchable(s)
        i = start = 0
        while i <= len(c) - len(s):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if self._match_at(c, i, s):
                out.append(mkstr(c[start:i]))
                i += len(s)
                start = i
            else:
                i += 1
        out.append(mkstr(c[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = int(maxsplit)
        if maxsplit < 0:
            return self.split(sep)
        out = []
        c = self.c
        if sep is None:
            def ws(x):
                return (not isinstance(x, DecAtom)) and bool(ch_in(x, _WSSET))
            j = len(c)
            while j > 0:
                while j > 0 and ws(c[j - 1]):
                    j -= 1
                if j == 0:
                    break
                if len(out) >= maxsplit:
                    out.append(mkstr(c[:j]).lstrip())
                    return out[::-1]
                i = j
                while i > 0 and not ws(c[i - 1]):
                    i -= 1
                out.append(mkstr(c[i:j]))
                j = i
            return out[::-1]
        s = elems(sep)
        if not s:
            raise ValueError("empty separator")
        c = self._searchable(s)
        end = len(c)
        i = end - len(s)
        while i >= 0:
            if len(out) >= maxsplit:
                break
            if self._match_at(c, i, s):
                out.append(mkstr(c[i + len(s):end]))
                end = i
                i -= len(s)
            else:
                i -= 1
        out.append(mkstr(c[:end]))
        return out[::-1]

    def partition(self, sep):
        p = self.split(sep, 1)
        return (p[0], sep, p[1]) if len(p) == 2 else (self, "", "")

    def rpartition(self, sep):
        p = self.rsplit(sep, 1)
        return (p[0], sep, p[1]) if len(p) == 2 else ("", "", self)

    def splitlines(self, keepends=False):
        return split_lines(self, _LBSET, keepends)

    def replace(self, old, new, count=-1):
        if not elems(old):
            return mkstr(map(ord, self.concrete("replace-empty").replace("", str(new))))
        return join(new, self.split(old, count))

    def join(self, it):
        return join(self, it)

    # -- classification
    def _all(self, pred):
        if not self.c:
            return False
        return AND(*[pred(c) for c in self.c])

    def isspace(self):
        return self._all(lambda c: False if isinstance(c, DecAtom) else ch_in(c, _WSSET))

    def isdigit(self):
        return self._all(lambda c: True if isinstance(c, DecAtom) else ch_pred(c, str.isdigit))
    
    def isdecimal(self):
        return self._all(lambda c: True if isinstance(c, DecAtom) else ch_pred(c, str.isdecimal))

    def isnumeric(self):
        return self._all(lambda c: True if isinstance(c, DecAtom) else ch_pred(c, str.isnumeric))

    def isalpha(self):
        return self._all(lambda c: False if isinstance(c, DecAtom) else ch_pred(c, str.isalpha))

    def isalnum(self):
        return self._all(lambda c: True if isinstance(c, DecAtom) else ch_pred(c, str.isalnum))

    def isascii(self):
        return AND(*[True if isinstance(c, DecAtom) else ch_pred(c, str.isascii) for c in self.c])

    def isprintable(self):
        return AND(*[True if isinstance(c, DecAtom) else ch_pred(c, str.isprintable) for c in self.c])

    def _map(self, f):
        out = []
        for c in self.c:
            if isinstance(c, DecAtom):
                out.append(c)
            elif isinstance(c, int):
                out.extend(map(ord, f(chr(c))))
            else:
                e = c.e
                img = set()
                for d in sorted(c.dom):
                    r = f(chr(d))
                    if len(r) != 1:
                        raise Inconclusive("case mapping")
                    img.add(ord(r))
                    if ord(r) != d:
                        e = z3.If(c.e == d, z3.IntVal(ord(r)), e)
                out.append(Ch(e, frozenset(img)))
        return mkstr(out)

    def lower(self):
        return self._map(str.lower)

    def casefold(self):
        return self._map(str.casefold)

    def upper(self):
        return self._map(str.upper)

    def encode(self, *a, **kw):
        from . import hooks
        return hooks.encode(self, *a, **kw)

    def format(self, *a, **kw):
        from . import hooks
        return hooks.fmt_method(self, a, kw)

    def __getattr__(self, name):
        if hasattr(str, name) and not name.startswith("__"):
            def m(*a, **kw):
                return getattr(self.concrete("str." + name), name)(*a, **kw)
            return m
        raise AttributeError("'str' object has no attribute %r" % name)


_WSSET = frozenset(WS)
_LBSET = frozenset(LINEBREAKS)


def ch_pred(c, f):
    if isinstance(c, int):
        return f(chr(c))
    return ch_in(c, _pred_set(c.dom, f))


@functools.lru_cache(maxsize=4096)
def _pred_set(dom, f):
    return frozenset(d for d in dom if f(chr(d)))


def _clip(s, e, n):
    if s < 0:
        s = max(0, n + s)
    if e < 0:
        e = max(0, n + e)
    return s, min(e, n)


def split_lines(s, breaks, keepends):
    """lines of s at the break characters `breaks` (\\r\\n counts as one if \\r is a break)"""
    c = elems(s)
    out = []
    i = start = 0
    n = len(c)
    while i < n:
        x = c[i]
        if not isinstance(x, DecAtom) and bool(ch_in(x, breaks)):
            j = i + 1
            if 13 in breaks and j < n and not isinstance(c[j], DecAtom) and \
               bool(AND(ch_eq(x, 13), ch_eq(c[j], 10))):
                j += 1
            out.append(mkstr(c[start:j] if keepends else c[start:i]))
            i = start = j
        else:
            i += 1
    if start < n:
        out.append(mkstr(c[start:]))
    return out


def join(sep, it):
    sep = elems(sep)
    out = []
    for n, s in enumerate(it):
        if not _iscls(s):
            raise TypeError("sequence item %d: expected str instance, %s found" % (n, type(s).__name__))
        if n:
            out.extend(sep)
        out.extend(elems(s))
    return mkstr(out)


def str_eq(a, b):
    ca, cb = elems(a), elems(b)
    if any(isinstance(x, DecAtom) for x in ca) or any(isinstance(x, DecAtom) for x in cb):
        return _atom_eq(ca, cb)
    if len(ca) != len(cb):
        return False
    conds = []
    for x, y in zip(ca, cb):
        e = ch_eq(x, y)
        if e is False:
            return False
        if e is not True:
            conds.append(e)
    return AND(*conds)


def _isdig(x):
    if isinstance(x, DecAtom):
        return True
    return bool(ch_in(x, _DIGITS))


_DIGITS = frozenset(range(48, 58))


def _tokens(c):
    """maximal digit runs and other characters"""
    out = []
    i = 0
    while i < len(c):
        if _isdig(c[i]):
            j = i
            while j < len(c) and _isdig(c[j]):
                j += 1
            out.append(("d", c[i:j]))
            i = j
        else:
            out.append(("c", c[i]))
            i += 1
    return out


def _num(run):
    """(SymInt|int value, canonical?) of a digit run"""
    if len(run) == 1 and isinstance(run[0], DecAtom):
        return run[0].i
    if all(isinstance(x, int) for x in run):
        s = "".join(map(chr, run))
        return int(s) if str(int(s)) == s else None
    return False


def _atom_eq(ca, cb):
    ta, tb = _tokens(ca), _tokens(cb)
    if len(ta) != len(tb):
        return False
    conds = []
    for (ka, x), (kb, y) in zip(ta, tb):
        if ka != kb:
            return False
        if ka == "c":
            conds.append(ch_eq(x, y))
        else:
            nx, ny = _num(x), _num(y)
            if nx is None or ny is None:
                if nx is None and ny is None:
                    conds.append(x == y)
                    continue
                if nx is False or ny is False:
                    raise Inconclusive("number text comparison")
                return False
            if nx is False or ny is False:
                sx = mkstr(SymStr(tuple(x))._noatoms("cmp"))
                sy = mkstr(SymStr(tuple(y))._noatoms("cmp"))
                conds.append(sx == sy)
            else:
                conds.append(nx == ny)
    return AND(*conds)


def str_lt(a, b, or_eq):
    ca = a._noatoms("cmp") if isinstance(a, SymStr) else elems(a)
    cb = b._noatoms("cmp") if isinstance(b, SymStr) else elems(b)
    n = min(len(ca), len(cb))
    # built from the end
    if len(ca) < len(cb):
        r = True
    elif len(ca) > len(cb):
        r = False
    else:
        r = or_eq
    for i in range(n - 1, -1, -1):
        x, y = ca[i], cb[i]
        if isinstance(x, int) and isinstance(y, int):
            if x < y:
                r = True
            elif x > y:
                r = False
            continue
        ex = z3.IntVal(x) if isinstance(x, int) else x.e
        ey = z3.IntVal(y) if isinstance(y, int) else y.e
        r = OR(_b(ex < ey), AND(ch_eq(x, y), r))
    return r


def has_sym(x, depth=3):
    """does x contain a symbolic value (shallow containers only)?"""
    if isinstance(x, Sym):
        return True
    if depth and isinstance(x, (list, tuple, set, frozenset)):
        return any(has_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
    return False


def deep_concrete(x, why, depth=4):
    if isinstance(x, SymStr) or isinstance(x, SymInt):
        return x.concrete(why)
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, SymReal):
        raise Inconclusive("real made concrete: " + why)
    if depth:
        if type(x) in (list, tuple, set, frozenset):
            return type(x)(deep_concrete(y, why, depth - 1) for y in x)
        if type(x) is dict:
            return dict((deep_concrete(k, why, depth - 1), deep_concrete(v, why, depth - 1)) for k, v in x.items())
    return x
