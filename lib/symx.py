"""Symbolic execution of the real Python code of /repo by operator overloading.

A harness is a function h(ctx).  It asks ctx for inputs (bits / reals / choices), runs the *real*, freshly
imported functions of /repo on them and states the property with ctx.check(cond, label).

Three ways of running the same harness:
  * symbolic   inputs are S objects (integer-linear forms over z3 Booleans) inside SymArray object arrays.
               Every Python-level branch on a symbolic value forks the path (solver decides feasibility of
               both sides); at ctx.check the solver is asked for  path-condition AND NOT cond.
  * fork-first fallback when the code does something the overloading cannot follow: each input is fixed by
               solver-guided forking before the code runs (still every value in the bound, or reported
               as truncated).
  * concrete   replay of a solver model on the unpatched code, with ordinary ints / numpy arrays.
"""

from __future__ import annotations

import builtins
import itertools
import time
from fractions import Fraction

import numpy as np
import z3


class Budget(BaseException):
    """Path / time budget used up."""


class Infeasible(BaseException):
    """Current path has an unsatisfiable condition (assume false)."""


class Unsupported(BaseException):
    """The engine cannot follow this operation symbolically."""


class PropertyViolated(BaseException):
    """Concrete mode: ctx.check failed."""

    def __init__(self, label, info=None):
        super().__init__(label)
        self.label = label
        self.info = info


_CUR = None  # current context


def cur():
    return _CUR


# ----------------------------------------------------------------------------------------------------------------
# atoms: base Booleans, and XOR sets of base Booleans (kept canonical)
# ----------------------------------------------------------------------------------------------------------------
_BASE: list = []  # id -> z3 Bool expression
_BASE_IX: dict = {}  # ast hash -> [ids]
_XOR_CACHE: dict = {}


def base_id(e):
    h = e.get_id()
    i = _BASE_IX.get(h)
    if i is None:
        i = len(_BASE)
        _BASE.append(e)
        _BASE_IX[h] = i
    return i


def reset_atoms():
    _BASE.clear()
    _BASE_IX.clear()
    _XOR_CACHE.clear()


def atom_expr(key):
    if len(key) == 1:
        (i,) = key
        return _BASE[i]
    e = _XOR_CACHE.get(key)
    if e is None:
        e = None
        for i in sorted(key):
            e = _BASE[i] if e is None else z3.Xor(e, _BASE[i])
        _XOR_CACHE[key] = e
    return e


_INTS = (int, np.integer, np.bool_)


def _isint(x):
    return isinstance(x, _INTS)


class S:
    """Integer valued linear form  c + sum coef * [atom]  over Boolean atoms."""

    __slots__ = ("c", "t")
    __array_priority__ = 1000

    def __init__(self, c=0, t=None):
        self.c = c
        self.t = t or {}

    # construction -------------------------------------------------------------------------------------------
    @staticmethod
    def of(x):
        if isinstance(x, S):
            return x
        if _isint(x):
            return S(int(x))
        if isinstance(x, (float, np.floating)) and float(x).is_integer():
            return S(int(x))
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return S.of(x.item())
        return None

    @staticmethod
    def from_bool(e):
        if e is True or e is False:
            return S(int(e))
        if z3.is_true(e):
            return S(1)
        if z3.is_false(e):
            return S(0)
        if z3.is_not(e):
            inner = S.from_bool(e.arg(0))
            return 1 - inner
        return S(0, {frozenset((base_id(e),)): 1})

    def const(self):
        return not self.t

    def simp(self):
        return self.c if not self.t else self

    def is_bit(self):
        if not self.t:
            return self.c in (0, 1)
        if len(self.t) == 1:
            (v,) = self.t.values()
            return (self.c, v) in ((0, 1), (1, -1))
        return False

    def rng(self):
        lo = hi = self.c
        for v in self.t.values():
            if v < 0:
                lo += v
            else:
                hi += v
        return lo, hi

    # as z3 Bool ( value != 0 ) ------------------------------------------------------------------------------
    def z(self):
        """z3 Bool for value != 0."""
        if not self.t:
            return z3.BoolVal(self.c != 0)
        if self.is_bit():
            (k,) = self.t
            e = atom_expr(k)
            return e if self.c == 0 else z3.Not(e)
        return z3.Not(self._eq0())

    def _pb(self):
        return [(atom_expr(k), v) for k, v in self.t.items()]

    def _eq0(self):
        lo, hi = self.rng()
        if lo > 0 or hi < 0:
            return z3.BoolVal(False)
        if lo == 0 and hi == 0:
            return z3.BoolVal(True)
        return z3.PbEq(self._pb(), -self.c)

    def _le0(self):
        lo, hi = self.rng()
        if hi <= 0:
            return z3.BoolVal(True)
        if lo > 0:
            return z3.BoolVal(False)
        return z3.PbLe(self._pb(), -self.c)

    def zint(self):
        return z3.IntVal(self.c) + z3.Sum([z3.If(atom_expr(k), z3.IntVal(v), z3.IntVal(0)) for k, v in self.t.items()])

    # arithmetic ---------------------------------------------------------------------------------------------
    def __add__(self, o):
        o = S.of(o)
        if o is None:
            return NotImplemented
        t = dict(self.t)
        for k, v in o.t.items():
            w = t.get(k, 0) + v
            if w:
                t[k] = w
            else:
                t.pop(k, None)
        return S(self.c + o.c, t)

    __radd__ = __add__

    def __neg__(self):
        return S(-self.c, {k: -v for k, v in self.t.items()})

    def __pos__(self):
        return self

    def __abs__(self):
        lo, hi = self.rng()
        if lo >= 0:
            return self
        if hi <= 0:
            return -self
        return self if bool(self >= 0) else -self

    def __sub__(self, o):
        o = S.of(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = S.of(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        if isinstance(o, R):
            return o * self
        if isinstance(o, (float, np.floating)) and not float(o).is_integer():
            return R.of(self) * o
        o = S.of(o)
        if o is None:
            return NotImplemented
        if not o.t:
            return S(self.c * o.c, {k: v * o.c for k, v in self.t.items()} if o.c else {})
        if not self.t:
            return o * self
        if len(self.t) * len(o.t) > 400:
            return self.concretize() * o.concretize()
        r = S(self.c * o.c)
        r = r + S(0, {k: v * o.c for k, v in self.t.items()} if o.c else {})
        r = r + S(0, {k: v * self.c for k, v in o.t.items()} if self.c else {})
        for k, v in self.t.items():
            for k2, v2 in o.t.items():
                r = r + _and_atoms(k, k2) * (v * v2)
        return r

    __rmul__ = __mul__

    def __mod__(self, m):
        if isinstance(m, S):
            m = m.concretize()
        m = int(m)
        if m == 2:
            key = frozenset()
            for k, v in self.t.items():
                if v % 2:
                    key = key ^ k
            par = self.c % 2
            if not key:
                return S(par)
            return S(0, {key: 1}) if not par else S(1, {key: -1})
        if not self.t:
            return S(self.c % m)
        lo, hi = self.rng()
        if 0 <= lo and hi < m:
            return self
        # drop multiples of m
        t = {k: v % m for k, v in self.t.items() if v % m}
        r = S(self.c % m, t)
        lo, hi = r.rng()
        if 0 <= lo and hi < m:
            return r
        return S(self.concretize() % m)

    def __rmod__(self, o):
        return S.of(o) % self.concretize()

    def __divmod__(self, o):
        return divmod(self.concretize(), o)

    def __floordiv__(self, o):
        return self.concretize() // (o.concretize() if isinstance(o, S) else o)

    def __rfloordiv__(self, o):
        return o // self.concretize()

    def __truediv__(self, o):
        return R.of(self) / o

    def __rtruediv__(self, o):
        return R.of(o) / R.of(self)

    def __pow__(self, o):
        if _isint(o) and int(o) >= 0:
            r = S(1)
            if self.is_bit() and int(o) > 0:
                return self
            for _ in range(int(o)):
                r = r * self
            return r
        return self.concretize() ** (o.concretize() if isinstance(o, S) else o)

    def __rpow__(self, o):
        return o ** self.concretize()

    # bit operations -----------------------------------------------------------------------------------------
    def _bitpair(self, o):
        o = S.of(o)
        if o is None:
            return None
        return o

    def __xor__(self, o):
        if isinstance(o, (bool, np.bool_)) or isinstance(o, S) or _isint(o):
            o = S.of(o)
            if self.is_bit() and o.is_bit():
                return (self + o) % 2
            return S(self.concretize() ^ o.concretize())
        return NotImplemented

    __rxor__ = __xor__

    def __and__(self, o):
        o2 = S.of(o)
        if o2 is None:
            return NotImplemented
        if self.is_bit() and o2.is_bit():
            return self * o2
        if o2.const() and o2.c == 1:
            return self % 2
        if self.const() and self.c == 1:
            return o2 % 2
        return S(self.concretize() & o2.concretize())

    __rand__ = __and__

    def __or__(self, o):
        o2 = S.of(o)
        if o2 is None:
            return NotImplemented
        if self.is_bit() and o2.is_bit():
            return self + o2 - self * o2
        return S(self.concretize() | o2.concretize())

    __ror__ = __or__

    def __invert__(self):
        # numpy bool invert is logical; Python int invert is -x-1.  Only bits reach this in practice.
        if self.is_bit():
            return 1 - self
        return S(~self.concretize())

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __rlshift__(self, o):
        return S(o << self.concretize())

    def __rshift__(self, o):
        return S(self.concretize() >> int(o))

    # comparisons --------------------------------------------------------------------------------------------
    def _cmp(self, o, op):
        if isinstance(o, R):
            return R.of(self)._cmp(o, op)
        if isinstance(o, (float, np.floating)) and not float(o).is_integer():
            return R.of(self)._cmp(R.of(o), op)
        if isinstance(o, (float, np.floating)) and o in (float("inf"), float("-inf")):
            return R.of(self)._cmp(o, op)
        o2 = S.of(o)
        if o2 is None:
            return NotImplemented
        d = self - o2
        if not d.t:
            return S(int({"eq": d.c == 0, "ne": d.c != 0, "le": d.c <= 0, "lt": d.c < 0, "ge": d.c >= 0, "gt": d.c > 0}[op]))
        if op in ("eq", "ne"):
            r = None
            if self.is_bit() and o2.is_bit():
                r = (self + o2 + 1) % 2
            elif len(d.t) == 1:
                (k,), (v,) = d.t.keys(), d.t.values()
                if d.c == 0:
                    r = S(1, {k: -1})
                elif d.c == -v:
                    r = S(0, {k: 1})
                else:
                    r = S(0)
            else:
                r = S.from_bool(d._eq0())
            return r if op == "eq" else 1 - r
        if op == "le":
            return S.from_bool(d._le0())
        if op == "lt":
            return S.from_bool((d + 1)._le0())
        if op == "ge":
            return S.from_bool((-d)._le0())
        return S.from_bool((-d + 1)._le0())

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        return self._cmp(o, "ne")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    # forking ------------------------------------------------------------------------------------------------
    def __bool__(self):
        if not self.t:
            return self.c != 0
        return _CUR.fork(self.z())

    def concretize(self):
        v = self.c
        for k, w in sorted(self.t.items(), key=lambda kv: sorted(kv[0])):
            if _CUR.fork(atom_expr(k)):
                v += w
        return v

    def __int__(self):
        return self.concretize()

    __index__ = __int__

    def __float__(self):
        return float(self.concretize())

    def __hash__(self):
        return hash(self.concretize())

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        if not self.t:
            return f"S({self.c})"
        return f"S({self.c}+{ {str(atom_expr(k))[:40]: v for k, v in self.t.items()} })"

    def __str__(self):
        return str(self.concretize())

    def __format__(self, spec):
        return format(self.concretize(), spec)

    # numpy scalar look-alikes
    def item(self):
        return self

    def any(self, *a, **k):
        return self != 0

    def all(self, *a, **k):
        return self != 0

    def sum(self, *a, **k):
        return self

    def astype(self, dt, *a, **k):
        return _cast(self, dt)

    def conjugate(self):
        return self

    def logical_not(self):
        return 1 - (self != 0)

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def real(self):
        return self

    def sqrt(self):
        return R.of(self).sqrt()


def _and_atoms(k, k2):
    if k == k2:
        return S(0, {k: 1})
    return S.from_bool(z3.And(*sorted((atom_expr(k), atom_expr(k2)), key=lambda e: e.get_id())))


def _cast(x, dt):
    try:
        kind = np.dtype(dt).kind
    except TypeError:
        kind = "O"
    if isinstance(x, S):
        if kind == "b":
            return x != 0
        if kind in "iuOf":
            return x
    if isinstance(x, R):
        if kind in "fO":
            return x
        if kind in "iu":
            return S(int(x))
        if kind == "b":
            return x._cmp(0, "ne")
    if kind == "b":
        return bool(x)
    if kind in "iu":
        return int(x)
    if kind == "f":
        return float(x)
    return x


def ite(c, a, b):
    """Symbolic if-then-else on S / R / numbers."""
    c = S.of(c)
    if c.const():
        return a if c.c else b
    c = c != 0
    if isinstance(a, R) or isinstance(b, R) or isinstance(a, float) or isinstance(b, float):
        a, b = R.of(a), R.of(b)
        return R(z3.If(c.z(), a.e, b.e))
    return S.of(b) + c * (S.of(a) - S.of(b))


def s_and(*xs):
    out = []
    for x in xs:
        x = S.of(x)
        if x.const():
            if not x.c:
                return S(0)
            continue
        out.append(x.z())
    if not out:
        return S(1)
    return S.from_bool(out[0] if len(out) == 1 else z3.And(out))


def s_or(*xs):
    out = []
    for x in xs:
        x = S.of(x)
        if x.const():
            if x.c:
                return S(1)
            continue
        out.append(x.z())
    if not out:
        return S(0)
    return S.from_bool(out[0] if len(out) == 1 else z3.Or(out))


def s_not(x):
    x = S.of(x)
    if x.const():
        return S(int(not x.c))
    return 1 - (x != 0)


def s_iff(a, b):
    a, b = S.of(a) != 0, S.of(b) != 0
    return (a + b + 1) % 2 if (isinstance(a, S) or isinstance(b, S)) else S(int(a == b))


def s_implies(a, b):
    return s_or(s_not(a), b)


def truth(x):
    """z3 Bool (or S) of any condition value."""
    if isinstance(x, z3.BoolRef):
        return S.from_bool(x)
    r = S.of(x)
    if r is None:
        if isinstance(x, R):
            return x._cmp(0, "ne")
        return S(int(bool(x)))
    return r


# ----------------------------------------------------------------------------------------------------------------
# reals
# ----------------------------------------------------------------------------------------------------------------
def _frac(x):
    if isinstance(x, Fraction):
        return x
    if _isint(x):
        return Fraction(int(x))
    return Fraction(float(x))


class R:
    """Symbolic real (z3 Real expression).  Floats are embedded as the exact rational they denote."""

    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    @staticmethod
    def of(x):
        if isinstance(x, R):
            return x
        if isinstance(x, S):
            if x.const():
                return R(z3.RealVal(x.c))
            return R(z3.Sum([z3.RealVal(x.c)] + [z3.If(atom_expr(k), z3.RealVal(v), z3.RealVal(0)) for k, v in x.t.items()]))
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return R.of(x.item())
        if isinstance(x, (int, float, Fraction, np.integer, np.floating, np.bool_)):
            f = _frac(x)
            return R(z3.RealVal(f"{f.numerator}/{f.denominator}"))
        return None

    def _b(self, o, f):
        o = R.of(o)
        if o is None:
            return NotImplemented
        return R(f(self.e, o.e))

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._b(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._b(o, lambda a, b: b * a)

    def __truediv__(self, o):
        return self._b(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._b(o, lambda a, b: b / a)

    def __neg__(self):
        return R(-self.e)

    def __abs__(self):
        return R(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, o):
        if _isint(o) and int(o) >= 0:
            r = R(z3.RealVal(1))
            for _ in range(int(o)):
                r = r * self
            return r
        o = R.of(o)
        f = z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())
        return R(f(self.e, o.e))

    def __rpow__(self, o):
        f = z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())
        return R(f(R.of(o).e, self.e))

    def sqrt(self):
        f = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
        return R(f(self.e))

    def exp(self):
        f = z3.Function("exp", z3.RealSort(), z3.RealSort())
        if isinstance(_CUR, SymCtx):
            _CUR.exp_term(self.e, f)
        return R(f(self.e))

    def _cmp(self, o, op):
        if isinstance(o, (float, np.floating)) and o in (float("inf"), float("-inf")):
            pos = o > 0
            return S(int({"eq": False, "ne": True, "le": pos, "lt": pos, "ge": not pos, "gt": not pos}[op]))
        o = R.of(o)
        if o is None:
            return NotImplemented
        a, b = self.e, o.e
        e = {"eq": lambda: a == b, "ne": lambda: z3.Not(a == b), "le": lambda: a <= b, "lt": lambda: a < b,
             "ge": lambda: a >= b, "gt": lambda: a > b}[op]()
        return S.from_bool(z3.simplify(e))

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        return self._cmp(o, "ne")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __bool__(self):
        return bool(self._cmp(0, "ne"))

    def __float__(self):
        raise Unsupported("float() of symbolic real")

    def __int__(self):
        raise Unsupported("int() of symbolic real")

    def __hash__(self):
        raise Unsupported("hash() of symbolic real")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def item(self):
        return self

    def astype(self, dt, *a, **k):
        return _cast(self, dt)

    def __repr__(self):
        return f"R({self.e})"


# ----------------------------------------------------------------------------------------------------------------
# arrays
# ----------------------------------------------------------------------------------------------------------------
def _plain(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, (list, tuple)):
        return type(x)(_plain(i) for i in x) if type(x) in (list, tuple) else x
    return x


def has_sym(x):
    if isinstance(x, (S, R)):
        return True
    if isinstance(x, SymArray):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(i, (S, R)) for i in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(i) for i in x)
    return False


def wrap(x):
    if isinstance(x, SymArray):
        return x
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x.view(SymArray)
    if isinstance(x, tuple):
        return tuple(wrap(i) for i in x)
    if isinstance(x, list):
        return [wrap(i) for i in x]
    return x


def symarray(vals):
    a = np.empty(np.shape(vals) if not isinstance(vals, list) else np.array(vals, dtype=object).shape, dtype=object)
    a[...] = np.array(vals, dtype=object)
    return a.view(SymArray)


_CMP = {np.equal: "eq", np.not_equal: "ne", np.less: "lt", np.less_equal: "le", np.greater: "gt", np.greater_equal: "ge"}


def _cmp_el(a, b, op):
    if isinstance(a, (S, R)):
        r = a._cmp(b, op)
        if r is NotImplemented:
            return int(op == "ne")
        return r
    if isinstance(b, (S, R)):
        sw = {"eq": "eq", "ne": "ne", "lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}[op]
        r = b._cmp(a, sw)
        if r is NotImplemented:
            return int(op == "ne")
        return r
    return S(int({"eq": lambda: a == b, "ne": lambda: a != b, "lt": lambda: a < b, "le": lambda: a <= b,
                  "gt": lambda: a > b, "ge": lambda: a >= b}[op]()))


def _t(x):
    if isinstance(x, (S, R)):
        return truth(x)
    return S(int(bool(x)))


def _apply(f, *args):
    arrs = [np.asarray(_plain(a), dtype=object) if not isinstance(a, (S, R)) else _scalar(a) for a in args]
    bc = np.broadcast_arrays(*arrs)
    out = np.empty(bc[0].shape, dtype=object)
    for ix in np.ndindex(*bc[0].shape):
        out[ix] = f(*(b[ix] for b in bc))
    if out.ndim == 0:
        return out[()]
    return out.view(SymArray)


def _scalar(a):
    o = np.empty((), dtype=object)
    o[()] = a
    return o


def _mx(a, b):
    return ite(_cmp_el(a, b, "ge"), a, b)


def _mn(a, b):
    return ite(_cmp_el(a, b, "le"), a, b)


def _num(x):
    """S/py number with object semantics for arithmetic."""
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, bool):
        return int(x)
    return x


_EL = {
    np.logical_and: lambda a, b: s_and(_t(a), _t(b)),
    np.logical_or: lambda a, b: s_or(_t(a), _t(b)),
    np.logical_xor: lambda a, b: (_t(a) + _t(b)) % 2 if _t(a).is_bit() and _t(b).is_bit() else ((_t(a) != 0) + (_t(b) != 0)) % 2,
    np.logical_not: lambda a: s_not(_t(a)),
    np.add: lambda a, b: _num(a) + _num(b),
    np.subtract: lambda a, b: _num(a) - _num(b),
    np.multiply: lambda a, b: _num(a) * _num(b),
    np.true_divide: lambda a, b: (a / b if isinstance(a, (S, R)) or isinstance(b, (S, R)) else _num(a) / _num(b)),
    np.floor_divide: lambda a, b: _num(a) // _num(b),
    np.remainder: lambda a, b: _num(a) % _num(b),
    np.power: lambda a, b: _num(a) ** _num(b),
    np.bitwise_xor: lambda a, b: _num(a) ^ _num(b),
    np.bitwise_and: lambda a, b: _num(a) & _num(b),
    np.bitwise_or: lambda a, b: _num(a) | _num(b),
    np.invert: lambda a: (~a if isinstance(a, S) else int(not a)),
    np.negative: lambda a: -a,
    np.positive: lambda a: a,
    np.absolute: lambda a: abs(a),
    np.maximum: _mx,
    np.minimum: _mn,
    np.sqrt: lambda a: (R.of(a).sqrt() if isinstance(a, (S, R)) else float(np.sqrt(a))),
    np.exp: lambda a: (R.of(a).exp() if isinstance(a, (S, R)) else float(np.exp(a))),
    np.isnan: lambda a: (S(0) if isinstance(a, (S, R)) else int(np.isnan(a))),
    np.isinf: lambda a: (S(0) if isinstance(a, (S, R)) else int(np.isinf(a))),
    np.sign: lambda a: (ite(a > 0, 1, ite(a < 0, -1, 0)) if isinstance(a, (S, R)) else int(np.sign(a))),
    np.where: None,
}
_EL = {k: v for k, v in _EL.items() if v is not None}
_REDUCE_ID = {np.add: 0, np.multiply: 1, np.logical_or: 0, np.logical_and: 1, np.bitwise_xor: 0, np.bitwise_or: 0, np.logical_xor: 0}


def _reduce(uf, a, axis=0, keepdims=False, initial=None):
    a = np.asarray(_plain(a), dtype=object)
    f = _EL[uf]
    if axis is None:
        flat = list(a.flat)
        r = _red_list(uf, flat, initial)
        if keepdims:
            o = np.empty((1,) * a.ndim, dtype=object)
            o[...] = r
            return o.view(SymArray)
        return r
    if isinstance(axis, tuple):
        axes = tuple(x % a.ndim for x in axis)
        a2 = np.moveaxis(a, axes, tuple(range(len(axes)))).reshape((-1,) + tuple(s for i, s in enumerate(a.shape) if i not in axes))
    else:
        a2 = np.moveaxis(a, axis, 0)
    out = np.empty(a2.shape[1:], dtype=object)
    for ix in np.ndindex(*a2.shape[1:]):
        out[ix] = _red_list(uf, [a2[(i,) + ix] for i in range(a2.shape[0])], initial)
    if keepdims:
        out = np.expand_dims(out, axis)
    if out.ndim == 0:
        return out[()]
    return out.view(SymArray)


def _red_list(uf, xs, initial=None):
    if uf is np.logical_or:
        return s_or(*[_t(x) for x in xs])
    if uf is np.logical_and:
        return s_and(*[_t(x) for x in xs])
    if not xs:
        if initial is not None:
            return initial
        if uf in _REDUCE_ID:
            return _REDUCE_ID[uf]
        raise ValueError("zero-size array to reduction operation")
    r = _num(xs[0])
    for x in xs[1:]:
        r = _EL[uf](r, x)
    return r


class SymArray(np.ndarray):
    """Object ndarray whose elements may be symbolic."""

    __array_priority__ = 1001

    def __array_finalize__(self, obj):
        pass

    def __array_ufunc__(self, uf, method, *inputs, out=None, **kw):
        kw.pop("dtype", None)
        kw.pop("casting", None)
        kw.pop("where", None) if kw.get("where", True) is True else None
        if method == "__call__":
            if uf in _CMP:
                r = _apply(lambda a, b: _cmp_el(a, b, _CMP[uf]), *inputs)
            elif uf in _EL:
                r = _apply(_EL[uf], *inputs)
            elif uf is np.matmul:
                r = _matmul(*inputs)
            elif uf is np.isfinite:
                r = _apply(lambda a: S(1), *inputs)
            else:
                raise Unsupported(f"ufunc {uf}")
        elif method == "reduce":
            r = _reduce(uf, inputs[0], kw.get("axis", 0), kw.get("keepdims", False), kw.get("initial") if kw.get("initial") is not np._NoValue else None)
        elif method == "outer":
            a, b = (np.asarray(_plain(i), dtype=object) for i in inputs)
            r = _apply(_EL.get(uf) or (lambda x, y: _cmp_el(x, y, _CMP[uf])), a.reshape(a.shape + (1,) * b.ndim), b)
        elif method == "accumulate":
            a = np.asarray(_plain(inputs[0]), dtype=object)
            o = a.copy()
            for i in range(1, len(o)):
                o[i] = _EL[uf](o[i - 1], o[i])
            r = o.view(SymArray)
        elif method == "at":
            raise Unsupported("ufunc.at")
        else:
            raise Unsupported(f"ufunc method {method}")
        if out is not None:
            o = out[0]
            if isinstance(o, np.ndarray):
                if o.dtype == object:
                    o.view(np.ndarray)[...] = _plain(r)
                else:
                    o[...] = _plain(r)  # forks through int()
                return o
        return r

    def __array_function__(self, func, types, args, kwargs):
        h = _AF.get(func)
        if h is not None:
            return h(*args, **kwargs)
        name = getattr(func, "__name__", "")
        if name in _PASS:
            kwargs = {k: _plain(v) for k, v in kwargs.items() if not (k in ("dtype", "casting") )}
            return wrap(func(*[_plain(a) for a in args], **kwargs))
        raise Unsupported(f"numpy function {name}")

    def astype(self, dt, *a, **k):
        try:
            kind = np.dtype(dt).kind
        except TypeError:
            kind = "O"
        if kind == "S" or kind == "U":
            return self.concrete().astype(dt)
        return _apply(lambda x: _cast(x, dt), self)

    def concrete(self):
        flat = [int(x) if isinstance(x, (S, int, np.integer, np.bool_)) else float(x) for x in self.view(np.ndarray).flat]
        return np.array(flat).reshape(self.shape) if flat else np.zeros(self.shape, dtype=int)

    def tobytes(self, *a, **k):
        return self.concrete().astype(np.int8).tobytes(*a, **k)

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def any(self, axis=None, out=None, keepdims=False, **k):
        return _reduce(np.logical_or, self, axis, keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return _reduce(np.logical_and, self, axis, keepdims)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _reduce(np.add, self, axis, keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _reduce(np.multiply, self, axis, keepdims)

    def max(self, axis=None, **k):
        return _reduce(np.maximum, self, axis)

    def min(self, axis=None, **k):
        return _reduce(np.minimum, self, axis)

    def dot(self, o, out=None):
        return np.dot(self, o)

    def cumsum(self, axis=None, dtype=None, out=None):
        return _cumsum(self, axis)

    def nonzero(self):
        return _nonzero(self)

    def argmax(self, axis=None, **k):
        return _argmax(self, axis)

    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return _reduce(np.add, self, axis) / n

    def __contains__(self, x):
        return bool((self == x).any())

    def __getitem__(self, ix):
        ix = _fix_index(ix, self.shape)
        r = super().__getitem__(ix)
        return r

    def __setitem__(self, ix, v):
        ix = _fix_index(ix, self.shape)
        if isinstance(v, SymArray):
            v = v.view(np.ndarray)
        super().__setitem__(ix, v)

    def __bool__(self):
        if self.size == 1:
            return bool(self.view(np.ndarray).flat[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __int__(self):
        return int(self.view(np.ndarray).item())

    def __reduce__(self):
        raise Unsupported("pickle")


def _fix_one(i):
    if isinstance(i, S):
        return int(i)
    if isinstance(i, SymArray) or (isinstance(i, np.ndarray) and i.dtype == object):
        vals = [x for x in i.flat]
        boolish = len(vals) > 0 and all(isinstance(x, (bool, np.bool_)) or (isinstance(x, S) and x.is_bit()) for x in vals)
        c = np.array([int(x) for x in vals], dtype=int).reshape(i.shape)
        # a mask and an integer index array look alike; comparison results carry the flag below
        return c.astype(bool) if boolish and getattr(i, "_mask", True) else c
    return i


def _fix_index(ix, shape=None):
    if isinstance(ix, tuple):
        return tuple(_fix_one(i) for i in ix)
    return _fix_one(ix)


def _matmul(a, b, **kw):
    a = np.asarray(_plain(a), dtype=object)
    b = np.asarray(_plain(b), dtype=object)
    if a.shape[-1] == 0:
        shp = a.shape[:-1] + b.shape[1:] if b.ndim > 1 else a.shape[:-1]
        o = np.zeros(shp, dtype=object)
        return o.view(SymArray) if o.ndim else 0
    r = np.dot(_obj(a), _obj(b)) if a.ndim <= 2 and b.ndim <= 2 else np.matmul(_obj(a), _obj(b))
    return wrap(r) if isinstance(r, np.ndarray) else r


def _obj(a):
    o = np.empty(a.shape, dtype=object)
    for ix in np.ndindex(*a.shape):
        o[ix] = _num(a[ix])
    return o


def _nonzero(a):
    a = np.asarray(_plain(a), dtype=object)
    m = np.zeros(a.shape, dtype=bool)
    for ix in np.ndindex(*a.shape):
        m[ix] = bool(a[ix])
    return np.nonzero(m)


def _argmax(a, axis=None):
    a = np.asarray(_plain(a), dtype=object)
    if axis is not None and a.ndim > 1:
        raise Unsupported("argmax axis")
    best, bi = None, 0
    flat = list(a.flat)
    if not flat:
        raise ValueError("attempt to get argmax of an empty sequence")
    for i, x in enumerate(flat):
        if best is None or bool(_cmp_el(x, best, "gt")):
            best, bi = x, i
            if isinstance(best, int) and best == 1 and all(isinstance(y, int) or (isinstance(y, S) and y.is_bit()) for y in flat):
                break
    return bi


def _array_equal(a, b, equal_nan=False):
    a, b = np.asarray(_plain(a), dtype=object), np.asarray(_plain(b), dtype=object)
    if a.shape != b.shape:
        return False
    return s_and(*[_cmp_el(x, y, "eq") for x, y in zip(a.flat, b.flat)])


def _where(c, *ab):
    if not ab:
        return _nonzero(c)
    return _apply(lambda x, a, b: ite(_t(x), a, b), c, *ab)


def _apply_along_axis(func1d, axis, arr, *args, **kw):
    a = np.moveaxis(_obj(arr), axis, -1)
    lead = a.shape[:-1]
    if 0 in lead:
        raise ValueError("Cannot apply_along_axis when any iteration dimensions are 0")
    res = []
    for ix in np.ndindex(*lead):
        res.append(np.asarray(func1d(symarray(list(a[ix])), *args, **kw), dtype=object))
    out = np.empty(lead + res[0].shape, dtype=object)
    for ix, r in zip(np.ndindex(*lead), res):
        out[ix] = r
    if res[0].ndim == 1:
        out = np.moveaxis(out, -1, axis)
    return wrap(out)


def _dot(a, b, out=None):
    return _matmul(a, b)


def _dotm(a, b):
    return _matmul(a, b)


def _zeros_like(a, dtype=None, **k):
    o = np.zeros(np.shape(a), dtype=object)
    return o.view(SymArray)


def _copy(a, **k):
    return np.array(_plain(a), dtype=object).view(SymArray)


def _cnz(a, axis=None, **k):
    return _reduce(np.add, _apply(lambda x: _cmp_el(x, 0, "ne"), a), axis)


def _cumsum(a, axis=None):
    a = _obj(np.asarray(_plain(a), dtype=object))
    if axis is None:
        a, axis = a.ravel(), 0
    o = np.moveaxis(a, axis, 0)
    for i in range(1, o.shape[0]):
        for ix in np.ndindex(*o.shape[1:]):
            o[(i,) + ix] = o[(i - 1,) + ix] + o[(i,) + ix]
    return a.view(SymArray)


def _clip(x, lo, hi):
    if lo is not None:
        x = ite(_cmp_el(x, lo, "ge"), x, lo)
    if hi is not None:
        x = ite(_cmp_el(x, hi, "le"), x, hi)
    return x


def _kron(a, b):
    a, b = np.atleast_2d(_plain(a)), np.atleast_2d(_plain(b))
    out = np.empty((a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]), dtype=object)
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            for k in range(b.shape[0]):
                for l in range(b.shape[1]):
                    out[i * b.shape[0] + k, j * b.shape[1] + l] = _num(a[i, j]) * _num(b[k, l])
    return out.view(SymArray)


_AF = {
    np.array_equal: _array_equal,
    np.any: lambda a, axis=None, out=None, keepdims=False, **k: _reduce(np.logical_or, a, axis, keepdims is True),
    np.all: lambda a, axis=None, out=None, keepdims=False, **k: _reduce(np.logical_and, a, axis, keepdims is True),
    np.sum: lambda a, axis=None, dtype=None, out=None, keepdims=False, **k: _reduce(np.add, a, axis, keepdims is True),
    np.prod: lambda a, axis=None, **k: _reduce(np.multiply, a, axis),
    np.max: lambda a, axis=None, **k: _reduce(np.maximum, a, axis),
    np.min: lambda a, axis=None, **k: _reduce(np.minimum, a, axis),
    np.mean: lambda a, axis=None, **k: _reduce(np.add, a, axis) / (np.size(a) if axis is None else np.shape(a)[axis]),
    np.count_nonzero: _cnz,
    np.nonzero: _nonzero,
    np.flatnonzero: lambda a: _nonzero(np.ravel(_plain(a)))[0],
    np.argwhere: lambda a: np.transpose(_nonzero(a)),
    np.where: _where,
    np.dot: _dot,
    np.inner: lambda a, b: _matmul(a, np.transpose(b)),
    np.zeros_like: _zeros_like,
    np.ones_like: lambda a, dtype=None, **k: (_zeros_like(a) + 1),
    np.empty_like: _zeros_like,
    np.full_like: lambda a, v, dtype=None, **k: (_zeros_like(a) + v),
    np.copy: _copy,
    np.cumsum: lambda a, axis=None, dtype=None, out=None: _cumsum(a, axis),
    np.clip: lambda a, a_min=None, a_max=None, **k: _apply(lambda x: _clip(x, a_min, a_max), a),
    np.abs: lambda a, **k: np.absolute(a),
    np.argmax: _argmax,
    np.kron: _kron,
    np.shape: lambda a: a.shape,
    np.size: lambda a, axis=None: a.size if axis is None else a.shape[axis],
    np.ndim: lambda a: a.ndim,
    np.array2string: lambda a, **k: str(a.concrete()),
    np.array_str: lambda a, **k: str(a.concrete()),
    np.array_repr: lambda a, **k: "SymArray",
    np.savetxt: None,
}
_AF = {k: v for k, v in _AF.items() if v is not None}
_PASS = {
    "vstack", "hstack", "concatenate", "stack", "column_stack", "transpose", "reshape", "ravel", "squeeze", "expand_dims",
    "delete", "insert", "append", "roll", "flip", "fliplr", "flipud", "split", "array_split", "hsplit", "vsplit", "tile", "repeat",
    "diag", "atleast_1d", "atleast_2d", "moveaxis", "swapaxes", "block", "take", "broadcast_to", "row_stack", "rot90", "triu", "tril",
    "broadcast_arrays", "outer", "tensordot",
}


# ----------------------------------------------------------------------------------------------------------------
# numpy module proxy: put in place of `np` in a module under test during symbolic runs
# ----------------------------------------------------------------------------------------------------------------
class _Scalar:
    """np.int32 and friends: usable as dtype, as converter and in isinstance."""

    def __init__(self, name):
        self.t = getattr(np, name)
        self.dtype = np.dtype(name)
        self.__name__ = name

    def __call__(self, x=0):
        return x if has_sym(x) else self.t(x)

    def __instancecheck__(self, x):
        return isinstance(x, self.t)

    def __eq__(self, o):
        return o is self or o == self.t

    def __hash__(self):
        return hash(self.t)


class NumpyProxy:
    """Behaves like numpy, but arrays it creates can take symbolic elements."""

    def __init__(self, zeros_symbolic=True, **over):
        self.__dict__["_over"] = over
        self.__dict__["_zs"] = zeros_symbolic

    def __getattr__(self, name):
        if name in self._over:
            return self._over[name]
        f = getattr(self, "_f_" + name, None) if not name.startswith("_") else None
        if f is not None:
            return f
        return getattr(np, name)

    @staticmethod
    def _mk(a):
        return a

    def _f_array(self, x, dtype=None, **k):
        if has_sym(x):
            if isinstance(x, (S, R)):
                return x
            a = np.array(_lists(x), dtype=object).view(SymArray)
            return a.astype(dtype) if dtype is not None else a
        return np.array(x, dtype=dtype, **k) if dtype is not None else np.array(x, **k)

    def _f_asarray(self, x, dtype=None, **k):
        if isinstance(x, SymArray):
            return x
        return self._f_array(x, dtype=dtype) if has_sym(x) else np.asarray(x, dtype=dtype, **k)

    _f_asanyarray = _f_asarray

    def _f_fromiter(self, it, dtype=None, count=-1, **k):
        return self._f_array(list(it), dtype=dtype)

    def _f_zeros(self, shape, dtype=float, **k):
        if not self._zs:
            return np.zeros(shape, dtype=dtype, **k)
        return np.zeros(shape, dtype=object).view(SymArray)

    def _f_ones(self, shape, dtype=float, **k):
        if not self._zs:
            return np.ones(shape, dtype=dtype, **k)
        return (np.zeros(shape, dtype=object) + 1).view(SymArray)

    def _f_empty(self, shape, dtype=float, **k):
        return self._f_zeros(shape, dtype)

    def _f_full(self, shape, fill_value=None, dtype=None, **k):
        v = fill_value
        if not self._zs and not has_sym(v):
            return np.full(shape, v, dtype=dtype, **k)
        o = np.empty(shape, dtype=object)
        o[...] = v
        return o.view(SymArray)

    def _f_isscalar(self, x):
        return True if isinstance(x, (S, R)) else np.isscalar(x)

    def _f_zeros_like(self, a, dtype=None, **k):
        return self._f_zeros(np.shape(a), dtype or float)

    def _f_copy(self, a, **k):
        return _copy(a) if has_sym(a) else np.copy(a, **k)

    int32 = _Scalar("int32")
    int64 = _Scalar("int64")
    int8 = _Scalar("int8")
    float64 = _Scalar("float64")

    def _f_sqrt(self, x):
        if isinstance(x, (S, R)):
            return R.of(x).sqrt()
        return np.sqrt(x)

    def _f_isinf(self, x):
        if isinstance(x, (S, R)):
            return False
        return np.isinf(x)

    def _f_mod(self, a, b):
        return a % b if has_sym(a) else np.mod(a, b)

    def _f_array_equal(self, a, b, **k):
        return _array_equal(a, b) if has_sym(a) or has_sym(b) else np.array_equal(a, b, **k)

    def _f_apply_along_axis(self, f, axis, arr, *a, **k):
        return _apply_along_axis(f, axis, arr, *a, **k) if has_sym(arr) else np.apply_along_axis(f, axis, arr, *a, **k)

    def _wrapcall(name):  # noqa: N805
        def f(self, *a, **k):
            if any(has_sym(x) for x in a):
                a = [_deep_wrap(x) for x in a]
                k.pop("dtype", None)
            return getattr(np, name)(*a, **k)

        return f

    for _n in ("vstack", "hstack", "concatenate", "stack", "sum", "any", "all", "dot", "matmul", "count_nonzero", "where",
               "nonzero", "kron", "logical_and", "logical_or", "logical_not", "logical_xor", "bitwise_xor", "remainder", "max", "min",
               "flatnonzero", "argwhere", "add", "append", "equal", "not_equal", "roll", "delete", "insert", "argmax", "inner", "atleast_2d", "abs",
               "column_stack", "flip", "tile", "repeat", "transpose", "reshape", "bitwise_and", "bitwise_or", "multiply", "subtract",
               "array_split", "split", "prod", "outer", "cumsum", "clip", "block", "exp", "absolute", "ravel", "squeeze", "less", "less_equal", "greater", "greater_equal"):
        locals()["_f_" + _n] = _wrapcall(_n)
    del _n, _wrapcall


def _lists(x):
    if isinstance(x, np.ndarray):
        return _plain(x).tolist() if x.ndim else x.item()
    if isinstance(x, (list, tuple)):
        return [_lists(i) for i in x]
    return x


def _deep_wrap(x):
    if isinstance(x, np.ndarray):
        return wrap(x)
    if isinstance(x, (list, tuple)):
        if any(isinstance(i, (S, R)) for i in x):
            return np.array(list(x), dtype=object).view(SymArray)
        return [_deep_wrap(i) for i in x]
    return x


# ----------------------------------------------------------------------------------------------------------------
# contexts
# ----------------------------------------------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.paths = 0
        self.forks = 0
        self.queries = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.unsat = 0
        self.trivial = 0
        self.unknown = 0
        self.truncated = []
        self.reached = {}
        self.functions = set()
        self.samples = []

    def as_dict(self):
        return {
            "paths": self.paths, "forks": self.forks, "solver_queries": self.queries, "solver_s": round(self.solver_s, 3),
            "assertions": self.obligations, "assertions_unsat_by_solver": self.unsat, "assertions_closed_by_normal_form": self.trivial,
            "unknown": self.unknown, "truncated": self.truncated, "reached": self.reached,
        }


class Base:
    symbolic = False

    def bits(self, name, *shape):
        n = int(np.prod(shape)) if shape else 1
        v = [self.bit(f"{name}{i}") for i in range(n)]
        return self._arr(v, shape)

    def choice(self, name, options):
        """One of finitely many options (forks)."""
        options = list(options)
        nb = max(1, (len(options) - 1).bit_length()) if len(options) > 1 else 0
        v = 0
        for i in range(nb):
            b = self.bit(f"{name}@{i}")
            v = v * 2 + int(b)
        if v >= len(options):
            raise Infeasible
        return options[v]


class SymCtx(Base):
    symbolic = True

    def __init__(self, ex, prefix):
        self.ex = ex
        self.st = ex.st
        self.prefix = prefix
        self.depth = 0
        self.decisions = []
        self.solver = z3.Solver()
        self.solver.set("timeout", ex.query_ms)
        self.inputs = {}
        self.reals = {}
        self.fixed = {}
        self.exps = []

    def exp_term(self, a, f):
        """Axioms of the exponential for the terms that occur (positivity, monotony, reciprocal)."""
        self.solver.add(f(a) > 0, z3.Implies(a > 0, f(a) > 1), z3.Implies(a < 0, f(a) < 1), z3.Implies(a == 0, f(a) == 1))
        for b in self.exps:
            self.solver.add(z3.Implies(a == -b, f(a) * f(b) == 1), z3.Implies(a < b, f(a) < f(b)), z3.Implies(b < a, f(b) < f(a)))
        self.exps.append(a)

    # inputs
    def bit(self, name):
        if self.ex.fork_first:
            e = z3.Bool(name)
            self.inputs[name] = e
            return int(self.fork(e))
        e = z3.Bool(name)
        self.inputs[name] = e
        return S.from_bool(e)

    def real(self, name, lo=None, hi=None, strict_lo=False, strict_hi=False):
        e = z3.Real(name)
        self.reals[name] = e
        if lo is not None:
            lo = R.of(lo).e
            self.solver.add(e > lo if strict_lo else e >= lo)
        if hi is not None:
            hi = R.of(hi).e
            self.solver.add(e < hi if strict_hi else e <= hi)
        return R(e)

    def nat(self, name, hi):
        """Integer 0..hi as an S (binary encoding)."""
        nb = max(1, int(hi).bit_length())
        v = 0
        for i in range(nb):
            v = self.bit(f"{name}#{i}") * (1 << i) + v
        self.assume(S.of(v) <= hi)
        return v

    def _arr(self, v, shape):
        if self.ex.fork_first:
            return np.array(v, dtype=np.int8).reshape(shape)
        a = np.empty(len(v), dtype=object)
        for i, x in enumerate(v):
            a[i] = x
        return a.reshape(shape).view(SymArray)

    # solver
    def _check(self, *assumps):
        t = time.time()
        r = self.solver.check(*assumps)
        self.st.solver_s += time.time() - t
        self.st.queries += 1
        if self.ex.deadline and time.time() > self.ex.deadline:
            raise Budget("time")
        return r

    def fork(self, e):
        if isinstance(e, S):
            e = e.z()
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        i = self.depth
        if i < len(self.prefix):
            d = self.prefix[i]
            self.depth += 1
            self.decisions.append(d)
            if d[1]:
                self.solver.add(e if d[0] else z3.Not(e))
            return d[0]
        rt = self._check(e)
        rf = self._check(z3.Not(e)) if rt != z3.unsat else z3.sat
        if rt == z3.unknown or rf == z3.unknown:
            self.st.unknown += 1
            raise Unsupported("solver unknown at branch")
        if rt == z3.unsat:
            d = (False, False)
        elif rf == z3.unsat:
            d = (True, False)
        else:
            self.st.forks += 1
            self.ex.push(self.decisions + [(False, True)])
            d = (True, True)
        self.decisions.append(d)
        self.depth += 1
        if d[1]:
            self.solver.add(e if d[0] else z3.Not(e))
        return d[0]

    def assume(self, c):
        c = truth(c)
        if c.const():
            if not c.c:
                raise Infeasible
            return
        self.solver.add(c.z())
        if self.depth >= len(self.prefix):
            r = self._check()
            if r == z3.unsat:
                raise Infeasible

    def check(self, c, label, info=None):
        self.st.obligations += 1
        self.st.reached[label] = self.st.reached.get(label, 0) + 1
        c = truth(c)
        if c.const():
            if c.c:
                self.st.trivial += 1
                return
            r = self._check()
            neg = None
        else:
            neg = z3.Not(c.z())
            r = self._check(neg)
        if r == z3.unsat:
            self.st.unsat += 1
            return
        if r == z3.unknown:
            self.st.unknown += 1
            self.st.truncated.append(f"solver gave no answer for '{label}'")
            return
        self.ex.found(self, self.solver.model(), label, info)
        # continue under the assumption that it holds, to find different labels
        if neg is not None:
            self.solver.add(z3.Not(neg))
            if self._check() == z3.unsat:
                raise Infeasible
        else:
            raise Infeasible

    def expect_raise(self, exc_types, fn, *a, **k):
        try:
            fn(*a, **k)
        except exc_types:
            return True
        return False

    def model_inputs(self, m):
        d = {}
        for n, e in self.inputs.items():
            d[n] = int(z3.is_true(m.eval(e, model_completion=True)))
        for n, e in self.reals.items():
            v = m.eval(e, model_completion=True)
            if z3.is_algebraic_value(v):
                v = v.approx(30)
            f = v.as_fraction()
            d[n] = f"{f.numerator}/{f.denominator}"
        return d

    def count(self, key, n=1):
        self.st.reached[key] = self.st.reached.get(key, 0) + n


class ConcCtx(Base):
    """Concrete replay."""

    def __init__(self, values):
        self.values = values
        self.failed = []

    def bit(self, name):
        return int(self.values.get(name, 0))

    def real(self, name, lo=None, hi=None, strict_lo=False, strict_hi=False):
        v = self.values.get(name, 0)
        return float(Fraction(v)) if not isinstance(v, float) else v

    def nat(self, name, hi):
        nb = max(1, int(hi).bit_length())
        v = sum(self.bit(f"{name}#{i}") << i for i in range(nb))
        if v > hi:
            raise Infeasible
        return v

    def _arr(self, v, shape):
        return np.array(v, dtype=np.int8).reshape(shape)

    def fork(self, e):
        return bool(e)

    def assume(self, c):
        if not bool(c):
            raise Infeasible

    def check(self, c, label, info=None):
        if isinstance(c, S):
            c = c.c if c.const() else (_ for _ in ()).throw(RuntimeError("symbolic in concrete"))
        if isinstance(c, z3.BoolRef):
            c = z3.is_true(z3.simplify(c))
        if not bool(c):
            raise PropertyViolated(label, info)

    def expect_raise(self, exc_types, fn, *a, **k):
        try:
            fn(*a, **k)
        except exc_types:
            return True
        return False

    def count(self, key, n=1):
        pass


class Explorer:
    def __init__(self, harness, name, max_paths=20000, seconds=120, query_ms=60000, fork_first=False, setup=None, st=None, max_found=3):
        self.h = harness
        self.name = name
        self.max_paths = max_paths
        self.deadline = time.time() + seconds if seconds else None
        self.query_ms = query_ms
        self.fork_first = fork_first
        self.setup = setup
        self.st = st or Stats()
        self.work = []
        self.viol = []
        self.max_found = max_found
        self.unsupported = []

    def push(self, prefix):
        self.work.append(prefix)

    def found(self, ctx, model, label, info):
        self.viol.append({"harness": self.name, "label": label, "inputs": ctx.model_inputs(model), "info": info})

    def run(self):
        global _CUR
        self.work = [[]]
        n0 = 0
        while self.work:
            if n0 >= self.max_paths:
                self.st.truncated.append(f"{self.name}: {n0} paths done, {len(self.work)} open branches left")
                break
            if self.deadline and time.time() > self.deadline:
                self.st.truncated.append(f"{self.name}: time budget; {n0} paths done, {len(self.work)} open branches left")
                break
            prefix = self.work.pop()
            n0 += 1
            self.st.paths += 1
            ctx = SymCtx(self, prefix)
            old = _CUR
            _CUR = ctx
            undo = None
            try:
                if self.setup and not self.fork_first:
                    undo = self.setup()
                self.h(ctx)
                if len(self.st.samples) < 3 and ctx.solver.check() == z3.sat:
                    self.st.samples.append({"harness": self.name, "path_decisions": len(ctx.decisions), "path_example": ctx.model_inputs(ctx.solver.model())})
            except Infeasible:
                pass
            except Budget:
                self.st.truncated.append(f"{self.name}: time budget; {n0} paths done")
                break
            except Unsupported as e:
                self.unsupported.append(str(e))
                break
            except Exception as e:  # noqa: BLE001  unexpected exception in the code under test
                import traceback

                tb = traceback.format_exc(limit=-4)
                try:
                    sat = ctx.solver.check() == z3.sat
                except z3.Z3Exception:
                    sat = False
                if sat:
                    self.viol.append({"harness": self.name, "label": "exception", "inputs": ctx.model_inputs(ctx.solver.model()), "info": f"{type(e).__name__}: {e}", "tb": tb})
            finally:
                _CUR = old
                if undo:
                    undo()
            if len(self.viol) >= self.max_found:
                break
        return self.viol


def replay(harness, inputs):
    """Run harness concretely on the unpatched code; returns (reproduced, label, info)."""
    global _CUR
    old = _CUR
    _CUR = None
    try:
        ctx = ConcCtx(inputs)
        try:
            harness(ctx)
        except PropertyViolated as e:
            return True, e.label, e.info
        except Infeasible:
            return False, "assumption not met in replay", None
        except Exception as e:  # noqa: BLE001
            import traceback

            return True, "exception", f"{type(e).__name__}: {e} | {traceback.format_exc(limit=-3)}"
        return False, None, None
    finally:
        _CUR = old


def patch(*triples):
    """patch((obj, name, new), ...) -> setup() returning undo()."""

    def setup():
        olds = []
        for o, n, v in triples:
            if n in vars(o) if hasattr(o, "__dict__") else hasattr(o, n):
                olds.append((o, n, getattr(o, n), True))
            else:
                olds.append((o, n, None, False))
            setattr(o, n, v)

        def undo():
            for o, n, v, had in reversed(olds):
                if had:
                    setattr(o, n, v)
                else:
                    delattr(o, n)

        return undo

    return setup


# ----------------------------------------------------------------------------------------------------------------
# GF(2) helpers working on concrete and symbolic rows
# ----------------------------------------------------------------------------------------------------------------
def rref_rows(rows):
    """Row reduce a list of lists of (int|S) bits; symbolic pivots fork.  Concrete pivots are preferred."""
    rows = [[(x % 2) if isinstance(x, S) else int(x) % 2 for x in r] for r in rows]
    rows = [[x.simp() if isinstance(x, S) else x for x in r] for r in rows]
    if not rows:
        return [], []
    ncol = len(rows[0])
    done, piv = [], []
    rest = rows
    while rest:
        # prefer a row with a concrete 1
        ri = ci = None
        for i, r in enumerate(rest):
            for j, x in enumerate(r):
                if not isinstance(x, S) and x == 1:
                    ri, ci = i, j
                    break
            if ri is not None:
                break
        if ri is None:
            sym = [i for i, r in enumerate(rest) if any(isinstance(x, S) for x in r)]
            if not sym:
                break
            if len(rest) == 1 or len(sym) == 1:
                # single symbolic row left: rank grows iff any entry is set
                r = rest[sym[0]]
                if bool(s_or(*[x for x in r if isinstance(x, S)])):
                    done.append(r)
                    piv.append(None)
                break
            i = sym[0]
            j = next(j for j, x in enumerate(rest[i]) if isinstance(x, S))
            if bool(rest[i][j]):
                rest[i] = list(rest[i])
                rest[i][j] = 1
            else:
                rest[i] = list(rest[i])
                rest[i][j] = 0
            continue
        p = rest.pop(ri)
        new = []
        for r in rest:
            x = r[ci]
            if isinstance(x, S):
                new.append([_x2(a, b, x) if j != ci else 0 for j, (a, b) in enumerate(zip(r, p))])
            elif x == 1:
                new.append([_xor(a, b) for a, b in zip(r, p)])
            else:
                new.append(r)
        rest = new
        done.append(p)
        piv.append(ci)
    return done, piv


def _xor(a, b):
    if isinstance(a, S) or isinstance(b, S):
        r = (S.of(a) + S.of(b)) % 2
        return r.simp()
    return a ^ b


def _x2(a, p, coef):
    """a xor (coef and p)."""
    if not isinstance(p, S):
        return _xor(a, coef) if p else a
    return _xor(a, (coef * p))


def sym_rank(m):
    rows = [list(r) for r in np.asarray(_plain(m), dtype=object)]
    return len(rref_rows(rows)[0])
