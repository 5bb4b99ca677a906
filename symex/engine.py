"""Path-exploring symbolic execution engine.

Symbolic scalars (``SV``) are either booleans (a z3 BoolRef) or numbers.  Numbers are
kept as rational functions num/den of polynomials over *atoms* (z3 Int/Real terms) so
that ring identities are normalised before they reach the solver.  Branching on a
symbolic boolean (``bool(sv)``) asks z3 which outcomes are feasible under the current
path condition and explores both by re-execution.
"""
import sys
import time
import math
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3
except ImportError:
    sys.path.append(_VT)
    import z3

# Value standing for +infinity inside symbolic real terms (all finite symbolic reals of
# the harnesses are bounded far below it).
INF = Fraction(10) ** 30


class PathAbort(BaseException):
    """Path condition became unsatisfiable / path deliberately ended."""


class Unsupported(BaseException):
    """The encoding has no model for an operation."""


class Budget(BaseException):
    """Time or path budget of a job exhausted."""


E = None  # current engine


def cur():
    if E is None:
        raise RuntimeError("no symbolic engine active")
    return E


# --------------------------------------------------------------------------------------
# Atoms and polynomials
# --------------------------------------------------------------------------------------

_ATOMS = []  # id -> (z3expr, is_int, lo, hi)
_ATOM_IDS = {}  # z3 ast id -> atom id


def atom(expr, is_int, lo=None, hi=None):
    key = expr.get_id()
    a = _ATOM_IDS.get(key)
    if a is None:
        a = len(_ATOMS)
        _ATOMS.append((expr, is_int, lo, hi))
        _ATOM_IDS[key] = a
    elif lo is not None or hi is not None:
        e, ii, l, h = _ATOMS[a]
        _ATOMS[a] = (e, ii, lo if lo is not None else l, hi if hi is not None else h)
    return a


_ONE = {(): 1}


def p_const(c):
    return {(): c} if c else {}


def p_add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_scale(a, c):
    if c == 0:
        return {}
    if c == 1:
        return a
    return {m: v * c for m, v in a.items()}


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def p_mul(a, b):
    if len(a) == 1 and () in a:
        return p_scale(b, a[()])
    if len(b) == 1 and () in b:
        return p_scale(a, b[()])
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = _mono_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def p_isconst(a):
    return not a or (len(a) == 1 and () in a)


def p_cval(a):
    return a.get((), 0)


def p_interval(a):
    """Interval of a polynomial with bounded atoms; (None, None) if unbounded."""
    lo = hi = 0
    for m, c in a.items():
        l = h = c
        for at, e in m:
            _, _, al, ah = _ATOMS[at]
            if al is None or ah is None:
                return None, None
            for _ in range(e):
                cs = (l * al, l * ah, h * al, h * ah)
                l, h = min(cs), max(cs)
        lo += l
        hi += h
    return lo, hi


def _num_z3(c):
    if isinstance(c, Fraction):
        if c.denominator == 1:
            return z3.RealVal(c.numerator)
        return z3.Q(c.numerator, c.denominator)
    return z3.RealVal(c)


def p_z3(a, as_int):
    """Lower a polynomial to z3."""
    terms = []
    for m, c in a.items():
        fac = []
        for at, e in m:
            ex, is_int, _, _ = _ATOMS[at]
            if is_int and not as_int:
                ex = z3.ToReal(ex)
            fac.extend([ex] * e)
        if as_int:
            if c != 1 or not fac:
                fac.insert(0, z3.IntVal(int(c)))
        elif c != 1 or not fac:
            fac.insert(0, _num_z3(c))
        t = fac[0]
        for f in fac[1:]:
            t = t * f
        terms.append(t)
    if not terms:
        return z3.IntVal(0) if as_int else z3.RealVal(0)
    if len(terms) == 1:
        return terms[0]
    return z3.Sum(terms)


# --------------------------------------------------------------------------------------
# Symbolic scalars
# --------------------------------------------------------------------------------------


def is_sv(x):
    return type(x) is SV


def to_q(x):
    """Exact rational of a concrete number (inf -> INF)."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return x
    if hasattr(x, "item") and not isinstance(x, float):
        x = x.item()
        if isinstance(x, (bool, int)):
            return int(x)
    if isinstance(x, float):
        if math.isinf(x):
            return INF if x > 0 else -INF
        if math.isnan(x):
            raise Unsupported("nan in symbolic arithmetic")
        if x == int(x) and abs(x) < 2**53:
            return int(x)
        return Fraction(x)
    raise Unsupported(f"cannot lift {type(x).__name__}")


_NUM = (int, float, Fraction)


class SV:
    __slots__ = ("k", "n", "d", "b", "sq", "dt", "_z")
    __array_priority__ = 1e6

    def __init__(self, k, n=None, d=None, b=None, sq=None, dt=None):
        self.k = k  # 'i' 'r' 'b'
        self.n = n
        self.d = d
        self.b = b
        self.sq = sq  # Poly p (value == sqrt(p)), numerators only
        self.dt = dt
        self._z = None

    # -- construction ------------------------------------------------------------------
    @staticmethod
    def const(x, dt=None):
        if isinstance(x, bool):
            return SV("b", b=z3.BoolVal(x), dt=dt)
        q = to_q(x)
        k = "i" if isinstance(x, int) else "r"
        return SV(k, p_const(q), dt=dt)

    @staticmethod
    def of_z3(e, lo=None, hi=None, dt=None):
        if z3.is_bool(e):
            return SV("b", b=e, dt=dt)
        is_int = e.sort() == z3.IntSort()
        if z3.is_int_value(e):
            return SV("i", p_const(e.as_long()), dt=dt)
        if z3.is_rational_value(e):
            f = Fraction(e.numerator_as_long(), e.denominator_as_long())
            return SV("r", p_const(f), dt=dt)
        return SV("i" if is_int else "r", {((atom(e, is_int, lo, hi), 1),): 1}, dt=dt)

    def with_dt(self, dt):
        if self.dt is dt:
            return self
        s = SV(self.k, self.n, self.d, self.b, self.sq, dt)
        s._z = self._z
        return s

    # -- lowering ----------------------------------------------------------------------
    def _force(self):
        """Materialise a lazy square root as a fresh atom."""
        if self.n is None and self.sq is not None:
            self.n = cur().sqrt_atom(self.sq)
        return self

    def num(self):
        """(numerator, denominator) polynomials."""
        if self.k == "b":
            e = z3.If(self.b, z3.IntVal(1), z3.IntVal(0))
            if z3.is_true(self.b):
                return _ONE, None
            if z3.is_false(self.b):
                return {}, None
            return {((atom(e, True, 0, 1), 1),): 1}, None
        self._force()
        return self.n, self.d

    def z(self):
        """z3 term: Bool for booleans, Int for integer, Real for real numbers."""
        if self._z is None:
            if self.k == "b":
                self._z = self.b
            else:
                self._force()
                if self.k == "i" and self.d is None and self._intcoef():
                    self._z = p_z3(self.n, True)
                else:
                    t = p_z3(self.n, False)
                    if self.d is not None:
                        t = t / p_z3(self.d, False)
                    self._z = t
        return self._z

    def _intcoef(self):
        for m, c in self.n.items():
            if isinstance(c, Fraction) and c.denominator != 1:
                return False
            for at, _ in m:
                if not _ATOMS[at][1]:
                    return False
        return True

    def zr(self):
        t = self.z()
        if z3.is_bool(t):
            t = z3.If(t, z3.RealVal(1), z3.RealVal(0))
        elif t.sort() == z3.IntSort():
            t = z3.ToReal(t)
        return t

    def interval(self):
        if self.k == "b":
            return 0, 1
        if self.n is None or self.d is not None:
            return None, None
        return p_interval(self.n)

    def const_value(self):
        """Concrete value if the term is syntactically constant, else None."""
        if self.k == "b":
            b = z3.simplify(self.b)
            if z3.is_true(b):
                return True
            if z3.is_false(b):
                return False
            return None
        if self.n is None:
            return None
        if self.d is None and p_isconst(self.n):
            v = p_cval(self.n)
            if self.k == "i":
                return int(v)
            if v == INF:
                return math.inf
            return float(v)
        return None

    # -- arithmetic --------------------------------------------------------------------
    def _lift(self, o):
        if type(o) is SV:
            return o
        if isinstance(o, (bool,) + _NUM):
            return SV.const(o)
        if hasattr(o, "dtype") and getattr(o, "shape", None) == () and not isinstance(
            o, complex
        ):
            return SV.const(o.item())
        return None

    def _kind2(self, o):
        return "r" if "r" in (self.k, o.k) else "i"

    def __add__(self, o):
        if isinstance(o, (SC, complex)):
            return SC(self, 0) + o
        o = self._lift(o)
        if o is None:
            return NotImplemented
        if self.k == "b" and o.k == "b":
            pass
        n1, d1 = self.num()
        n2, d2 = o.num()
        if d1 is None and d2 is None:
            return SV(self._kind2(o), p_add(n1, n2))
        if d1 == d2:
            return _mk_frac(p_add(n1, n2), d1)
        return _mk_frac(
            p_add(p_mul(n1, d2 or _ONE), p_mul(n2, d1 or _ONE)),
            p_mul(d1 or _ONE, d2 or _ONE),
        )

    __radd__ = __add__

    def __neg__(self):
        n, d = self.num()
        return SV("i" if self.k == "b" else self.k, p_scale(n, -1), d)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, (SC, complex)):
            return SC(self, 0) - o
        o = self._lift(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        if isinstance(o, (SC, complex)):
            return SC.of(o) - self
        o = self._lift(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        if isinstance(o, (SC, complex)):
            return SC(self, 0) * o
        o = self._lift(o)
        if o is None:
            return NotImplemented
        # keep square roots lazy under scaling by non-negative constants
        for s, c in ((self, o), (o, self)):
            if s.sq is not None and s.n is None and c.sq is None:
                cn, cd = c.num()
                if cd is None and p_isconst(cn) and p_cval(cn) >= 0:
                    v = p_cval(cn)
                    return SV("r", sq=p_scale(s.sq, v * v))
        if (
            self.sq is not None
            and o.sq is not None
            and self.n is None
            and o.n is None
            and self.sq == o.sq
        ):
            return SV("r", self.sq)
        n1, d1 = self.num()
        n2, d2 = o.num()
        n = p_mul(n1, n2)
        if d1 is None and d2 is None:
            return SV(self._kind2(o), n)
        return _mk_frac(n, p_mul(d1 or _ONE, d2 or _ONE))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (SC, complex)):
            return SC(self, 0) / o
        o = self._lift(o)
        if o is None:
            return NotImplemented
        n1, d1 = self.num()
        n2, d2 = o.num()
        if d2 is None and p_isconst(n2):
            c = p_cval(n2)
            if c == 0:
                raise Unsupported("division by constant zero")
            if self.sq is not None and self.n is None and c > 0:
                return SV("r", sq=p_scale(self.sq, Fraction(1) / (c * c)))
            return SV("r", p_scale(n1, Fraction(1) / c), d1)
        if cur().branch(_cmp_zero(n2, d2, "==")):
            raise Unsupported("division by zero")
        return _mk_frac(p_mul(n1, d2 or _ONE), p_mul(d1 or _ONE, n2))

    def __rtruediv__(self, o):
        if isinstance(o, (SC, complex)):
            return SC.of(o) / self
        o = self._lift(o)
        if o is None:
            return NotImplemented
        return o.__truediv__(self)

    def __floordiv__(self, o):
        o = self._lift(o)
        if o is None:
            return NotImplemented
        return int_divmod(self, o)[0]

    def __rfloordiv__(self, o):
        return int_divmod(self._lift(o), self)[0]

    def __mod__(self, o):
        o = self._lift(o)
        if o is None:
            return NotImplemented
        return int_divmod(self, o)[1]

    def __rmod__(self, o):
        return int_divmod(self._lift(o), self)[1]

    def __divmod__(self, o):
        return int_divmod(self, self._lift(o))

    def __rdivmod__(self, o):
        return int_divmod(self._lift(o), self)

    def __pow__(self, e):
        if type(e) is SV:
            c = e.const_value()
            e = c if c is not None else cur().concretize(e)
        if hasattr(e, "item"):
            e = e.item()
        if e == 0.5:
            return sv_sqrt(self)
        if isinstance(e, float) and e.is_integer():
            e = int(e)
        if isinstance(e, int):
            if e < 0:
                return 1 / (self ** (-e))
            if e == 2 and self.sq is not None and self.n is None:
                return SV("r", self.sq)
            r = SV("i" if self.k in "ib" else "r", _ONE)
            for _ in range(e):
                r = r * self
            return r
        raise Unsupported(f"pow {e!r}")

    def __rpow__(self, base):
        e = cur().concretize(self)
        return base**e

    def __abs__(self):
        if self.sq is not None and self.n is None:
            return self
        lo, hi = self.interval()
        if lo is not None and lo >= 0:
            return self
        if hi is not None and hi <= 0:
            return -self
        return ite(self >= 0, self, -self)

    # -- comparisons -------------------------------------------------------------------
    def __lt__(self, o):
        return compare(self, o, "<")

    def __le__(self, o):
        return compare(self, o, "<=")

    def __gt__(self, o):
        return compare(self, o, ">")

    def __ge__(self, o):
        return compare(self, o, ">=")

    def __eq__(self, o):
        return compare(self, o, "==")

    def __ne__(self, o):
        return compare(self, o, "!=")

    def __hash__(self):
        c = self.const_value()
        if c is not None and not getattr(E, "box_hash", False):
            return hash(c)
        if self.k in "ib" and not getattr(E, "box_hash", False):
            return hash(cur().concretize(self))
        return 0  # equality decides (forks)

    # -- booleans ----------------------------------------------------------------------
    def _bool(self):
        if self.k == "b":
            return self.b
        r = self != 0
        return r.b if type(r) is SV else z3.BoolVal(bool(r))

    def __and__(self, o):
        o = self._lift(o)
        if o is None:
            return NotImplemented
        if self.k == "b" and o.k == "b":
            return mk_bool(z3.And(self.b, o.b))
        return _bitop(self, o, "and")

    __rand__ = __and__

    def __or__(self, o):
        o = self._lift(o)
        if o is None:
            return NotImplemented
        if self.k == "b" and o.k == "b":
            return mk_bool(z3.Or(self.b, o.b))
        return _bitop(self, o, "or")

    __ror__ = __or__

    def __xor__(self, o):
        o = self._lift(o)
        if o is None:
            return NotImplemented
        if self.k == "b" and o.k == "b":
            return mk_bool(z3.Xor(self.b, o.b))
        raise Unsupported("xor on ints")

    __rxor__ = __xor__

    def __invert__(self):
        if self.k == "b":
            return mk_bool(z3.Not(self.b))
        return -self - 1

    def __bool__(self):
        return cur().branch(self._bool())

    # -- conversions -------------------------------------------------------------------
    def __index__(self):
        if self.k == "r":
            raise TypeError("symbolic float cannot be interpreted as an integer")
        return int(cur().concretize(self))

    def __int__(self):
        return int(cur().concretize(sv_trunc(self)))

    def __float__(self):
        return float(cur().concretize(self))

    def __round__(self, nd=None):
        return sv_round(self, nd or 0) if nd is not None else sv_rint(self)

    def __trunc__(self):
        return sv_trunc(self)

    def __floor__(self):
        return sv_floor(self)

    def __ceil__(self):
        return -sv_floor(-self)

    def __complex__(self):
        raise Unsupported("complex")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickle of symbolic value")

    # -- numpy scalar protocol -----------------------------------------------------------
    shape = ()
    ndim = 0
    size = 1

    @property
    def dtype(self):
        import numpy as np

        if self.dt is not None:
            return self.dt
        return np.dtype({"b": bool, "i": np.int64, "r": np.float64}[self.k])

    def item(self):
        return self.with_dt(None)

    def astype(self, dt, **kw):
        from . import symnp

        return symnp.cast_scalar(self, symnp.norm_dtype(dt))

    def copy(self):
        return self

    def tolist(self):
        return self.with_dt(None)

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    conj = conjugate

    def sum(self, *a, **k):
        return self

    max = min = prod = mean = sum

    def all(self, *a, **k):
        return mk_bool(self._bool())

    any = all

    def flatten(self):
        from . import symnp

        return symnp.arr([self])

    ravel = flatten

    def reshape(self, *shape):
        from . import symnp

        return symnp.arr([self]).reshape(*shape)

    def __getitem__(self, idx):
        if idx == () or idx is Ellipsis:
            return self
        raise IndexError("invalid index to scalar variable.")

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import symnp

        return symnp.ufunc_call(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from . import symnp

        return symnp.call_np(func, args, kwargs)

    def __repr__(self):
        c = self.const_value() if self.k != "b" or self.b is not None else None
        if c is not None:
            return repr(c)
        return f"<sym {self.k}>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<sym>"


def _mk_frac(n, d):
    if not n:
        return SV("r", {})
    if p_isconst(d):
        return SV("r", p_scale(n, Fraction(1) / p_cval(d)))
    # cancel identical / proportional numerator
    if len(n) == len(d):
        m0 = next(iter(d))
        if m0 in n:
            r = Fraction(n[m0]) / Fraction(d[m0])
            if p_scale(d, r) == n:
                return SV("r", p_const(r))
    # exact division by the denominator
    q = p_divexact(n, d)
    if q is not None:
        return SV("r", q)
    # cancel a common monomial
    ms = list(n) + list(d)
    common = dict(ms[0])
    for m in ms[1:]:
        dm = dict(m)
        common = {a: min(e, dm[a]) for a, e in common.items() if a in dm}
        if not common:
            break
    if common:

        def red(p):
            r = {}
            for m, c in p.items():
                dm = dict(m)
                for a, e in common.items():
                    dm[a] -= e
                    if not dm[a]:
                        del dm[a]
                r[tuple(sorted(dm.items()))] = c
            return r

        n, d = red(n), red(d)
        if p_isconst(d):
            return SV("r", p_scale(n, Fraction(1) / p_cval(d)))
    return SV("r", n, d)


def _lead(p):
    def key(m):
        return (sum(e for _, e in m), m)

    return max(p, key=key)


def p_divexact(n, d, limit=2000):
    """n / d if d divides n exactly, else None (multivariate long division, lex)."""
    if len(d) > 60 or len(n) > 400:
        return None
    atoms = sorted({a for m in list(n) + list(d) for a, _ in m})
    pos = {a: i for i, a in enumerate(atoms)}

    def vec(m):
        v = [0] * len(atoms)
        for a, e in m:
            v[pos[a]] = e
        return tuple(v)

    N = {vec(m): c for m, c in n.items()}
    D = {vec(m): c for m, c in d.items()}
    ld = max(D)
    lc = D[ld]
    Q = {}
    steps = 0
    while N:
        steps += 1
        if steps > limit:
            return None
        ln = max(N)
        q = tuple(a - b for a, b in zip(ln, ld))
        if min(q, default=0) < 0:
            return None
        c = Fraction(N[ln]) / lc
        Q[q] = c
        for m, cc in D.items():
            t = tuple(a + b for a, b in zip(m, q))
            v = N.get(t, 0) - c * cc
            if v:
                N[t] = v
            else:
                N.pop(t, None)
    out = {}
    for v, c in Q.items():
        m = tuple((atoms[i], e) for i, e in enumerate(v) if e)
        out[m] = int(c) if c.denominator == 1 else c
    return out


def mk_bool(e):
    return SV("b", b=e)


def _cmp_zero(n, d, op):
    """z3 condition  n/d op 0."""
    if d is None:
        if p_isconst(n):
            c = p_cval(n)
            return z3.BoolVal(
                {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[op]
            )
        # integer polynomials stay in the integer theory
        den = 1
        isint = True
        for m, c in n.items():
            if isinstance(c, Fraction):
                den = den * c.denominator // math.gcd(den, c.denominator)
            for at, _ in m:
                if not _ATOMS[at][1]:
                    isint = False
        lo, hi = p_interval(n)
        if True:
            if lo is not None:
                if op == "<" and (hi < 0 or lo >= 0):
                    return z3.BoolVal(hi < 0)
                if op == "<=" and (hi <= 0 or lo > 0):
                    return z3.BoolVal(hi <= 0)
                if op == ">" and (lo > 0 or hi <= 0):
                    return z3.BoolVal(lo > 0)
                if op == ">=" and (lo >= 0 or hi < 0):
                    return z3.BoolVal(lo >= 0)
                if op == "==" and (lo > 0 or hi < 0):
                    return z3.BoolVal(False)
                if op == "!=" and (lo > 0 or hi < 0):
                    return z3.BoolVal(True)
        if isint:
            if den != 1:
                n = {m: int(c * den) for m, c in n.items()}
            # move the constant to the right hand side
            c = n.get((), 0)
            lhs = {m: v for m, v in n.items() if m}
            t, z = p_z3(lhs, True), z3.IntVal(int(-c))
        else:
            c = n.get((), 0)
            lhs = {m: v for m, v in n.items() if m}
            t, z = p_z3(lhs, False), _num_z3(-c)
    else:
        if op in ("==", "!="):
            t = p_z3(n, False)  # denominators were branched non-zero
        else:
            t = p_z3(p_mul(n, d), False)
        z = z3.RealVal(0)
    return {
        "<": lambda: t < z,
        "<=": lambda: t <= z,
        ">": lambda: t > z,
        ">=": lambda: t >= z,
        "==": lambda: t == z,
        "!=": lambda: t != z,
    }[op]()


_FLIP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}


def compare(a, b, op):
    if type(b) is not SV:
        if b is None or isinstance(b, str):
            return {"==": False, "!=": True}.get(op, NotImplemented)
        if hasattr(b, "shape") and getattr(b, "shape") != ():
            return NotImplemented
        if isinstance(b, float) and math.isnan(b):
            return op == "!="
        bb = a._lift(b)
        if bb is None:
            if op in ("==", "!="):
                return op == "!="
            return NotImplemented
        b = bb
    if a.k == "b" and b.k == "b":
        if op == "==":
            return mk_bool(a.b == b.b)
        if op == "!=":
            return mk_bool(z3.Xor(a.b, b.b))
    la = a.sq is not None and a.n is None
    lb = b.sq is not None and b.n is None
    if la and lb:
        return mk_bool(_cmp_zero(p_add(a.sq, p_scale(b.sq, -1)), None, op))
    if lb:
        return compare(b, a, _FLIP[op])
    if la:
        # sqrt(p) op t
        tn, td = b.num()
        if td is None:
            p = a.sq
            t2 = p_mul(tn, tn)
            if p_isconst(tn):
                c = p_cval(tn)
                if c < 0:
                    return mk_bool(z3.BoolVal(op in (">", ">=", "!=")))
                return mk_bool(_cmp_zero(p_add(p, p_const(-c * c)), None, op))
            diff = p_add(p, p_scale(t2, -1))
            if op in ("<", "<=", "=="):
                e = z3.And(_cmp_zero(tn, None, ">=" if op != "<" else ">"), _cmp_zero(diff, None, op))
            else:
                e = z3.Or(_cmp_zero(tn, None, "<"), _cmp_zero(diff, None, op))
            return mk_bool(e)
    n1, d1 = a.num()
    n2, d2 = b.num()
    if d1 is None and d2 is None:
        return mk_bool(_cmp_zero(p_add(n1, p_scale(n2, -1)), None, op))
    diff = a - b
    return mk_bool(_cmp_zero(diff.n, diff.d, op))


def ite(c, a, b):
    """Symbolic conditional on scalars."""
    if type(c) is not SV:
        return a if c else b
    cv = c._bool()
    cs = z3.simplify(cv)
    if z3.is_true(cs):
        return a
    if z3.is_false(cs):
        return b
    if a is b:
        return a
    if isinstance(a, (SC, complex)) or isinstance(b, (SC, complex)):
        a, b = SC.of(a), SC.of(b)
        return SC(ite(c, a.re, b.re), ite(c, a.im, b.im))
    ta, tb = type(a) is SV, type(b) is SV
    if not ta and not tb:
        if type(a) is type(b) and a == b:
            return a
    A = a if ta else SV.const(a)
    B = b if tb else SV.const(b)
    if A.k == "b" and B.k == "b":
        return mk_bool(z3.simplify(z3.If(cv, A.b, B.b)))
    dt = A.dt or B.dt
    if A.k != "b" and B.k != "b" and A.n is not None and A.n == B.n and A.d == B.d:
        return A
    la = A.sq is not None and A.n is None
    lb = B.sq is not None and B.n is None
    if la and lb or (la and _sqrt_const(B) is not None) or (lb and _sqrt_const(A) is not None):
        pa = A.sq if la else _sqrt_const(A)
        pb = B.sq if lb else _sqrt_const(B)
        p = ite(c, SV("r", pa), SV("r", pb))
        return SV("r", sq=p.num()[0], dt=dt)
    k = "r" if "r" in (A.k, B.k) else "i"
    if k == "i":
        na, nb = A.num()[0], B.num()[0]
        la_, ha_ = p_interval(na)
        lb_, hb_ = p_interval(nb)
        lo = hi = None
        if la_ is not None and lb_ is not None:
            lo, hi = min(la_, lb_), max(ha_, hb_)
        e = z3.If(cv, p_z3(na, True), p_z3(nb, True))
        at = atom(e, True, lo, hi)
        _merge_vals(at, A, B)
        return SV("i", {((at, 1),): 1}, dt=dt)
    e = z3.If(cv, A.zr(), B.zr())
    lo = hi = None
    if A.n is not None and B.n is not None and A.d is None and B.d is None:
        la_, ha_ = p_interval(A.num()[0])
        lb_, hb_ = p_interval(B.num()[0])
        if la_ is not None and lb_ is not None:
            lo, hi = min(la_, lb_), max(ha_, hb_)
    at = atom(e, False, lo, hi)
    _merge_vals(at, A, B)
    return SV("r", {((at, 1),): 1}, dt=dt)


def _merge_vals(at, A, B):
    va = sv_vals(A)
    if va is not None:
        vb = sv_vals(B)
        if vb is not None and len(va | vb) <= MAXVALS:
            _VALS[at] = va | vb


def _sqrt_const(s):
    if s.k == "b" or s.n is None or s.d is not None or not p_isconst(s.n):
        return None
    c = p_cval(s.n)
    return p_const(c * c) if c >= 0 else None


class SC:
    """A complex number with symbolic parts."""
    __slots__ = ("re", "im")
    shape, ndim, size = (), 0, 1
    __array_ufunc__ = None

    def __init__(self, re, im=0):
        self.re, self.im = (v if type(v) is not SV or v.k == "b" or v.const_value() is None else v.const_value()
                            for v in (re, im))

    @staticmethod
    def of(x):
        if type(x) is SC:
            return x
        if isinstance(x, complex):
            return SC(x.real, x.imag)
        if type(x) is SV or isinstance(x, (int, float)):
            return SC(x, 0)
        if hasattr(x, "item") and getattr(x, "shape", None) == ():
            return SC.of(x.item())
        return None

    @property
    def dtype(self):
        import numpy
        return numpy.dtype(complex)

    real = property(lambda self: self.re)
    imag = property(lambda self: self.im)

    def conjugate(self):
        return SC(self.re, -self.im)

    conj = conjugate

    def item(self, *a):
        return self

    def __add__(self, o):
        o = SC.of(o)
        return NotImplemented if o is None else SC(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    def __neg__(self):
        return SC(-self.re, -self.im)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = SC.of(o)
        return NotImplemented if o is None else self + (-o)

    def __rsub__(self, o):
        return -self + o

    def __mul__(self, o):
        o = SC.of(o)
        if o is None:
            return NotImplemented
        return SC(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = SC.of(o)
        if o is None:
            return NotImplemented
        n = o.re * o.re + o.im * o.im
        p = self * o.conjugate()
        return SC(p.re / n, p.im / n)

    def __rtruediv__(self, o):
        return SC.of(o) / self

    def __pow__(self, n):
        if not isinstance(n, int) or n < 0:
            raise Unsupported("power of a complex number")
        r = SC(1, 0)
        for _ in range(n):
            r = r * self
        return r

    def __abs__(self):
        q = self.re * self.re + self.im * self.im
        return sv_sqrt(q) if type(q) is SV else math.sqrt(q)

    def __eq__(self, o):
        o = SC.of(o)
        if o is None:
            return NotImplemented
        a, b = self.re == o.re, self.im == o.im
        for u, v in ((a, b), (b, a)):
            if type(u) is not SV:
                return v if u else False
        return a & b

    def __ne__(self, o):
        r = self == o
        return ~r if type(r) is SV else not r

    __hash__ = None

    def exp(self):
        if type(self.re) is SV or self.re != 0:
            raise Unsupported("exponential of a complex number with a real part")
        if type(self.im) is not SV:
            return SC(math.cos(self.im), math.sin(self.im))
        return SC(*cur().trig(self.im))

    def __bool__(self):
        return bool(self != 0)

    def __complex__(self):
        raise Unsupported("complex")

    def __reduce__(self):
        raise Unsupported("pickle of symbolic value")


def _bitop(a, b, op):
    # small special cases used on 0/1 integers and booleans
    def as01(x):
        if x.k == "b":
            return x.b
        lo, hi = x.interval()
        if lo is not None and lo >= 0 and hi <= 1:
            return (x == 1).b
        return None

    x, y = as01(a), as01(b)
    if x is None or y is None:
        for u, v in ((a, b), (b, a)):
            if v.k != "i" or not p_isconst(v.n):
                continue
            c = int(p_cval(v.n))
            if 0 <= c < 1 << 16:      # sum over the set bits of a constant mask
                m = 0
                for k in range(c.bit_length()):
                    if c >> k & 1:
                        m = m + u // (1 << k) % 2 * (1 << k)
                return m if op == "and" else u + c - m
        raise Unsupported("bit operation on integers")
    r = mk_bool(z3.And(x, y) if op == "and" else z3.Or(x, y))
    return ite(r, 1, 0)


def int_divmod(a, b):
    n2, d2 = b.num()
    if a.k == "r" or b.k == "r":
        q = sv_floor(a / b)
        return SV("r", q.n, q.d), a - q * b
    if p_isconst(n2):
        c = int(p_cval(n2))
        if c == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
    az = a.z() if a.k == "i" else ite(a, 1, 0).z()
    bz = b.z() if b.k == "i" else ite(b, 1, 0).z()
    if p_isconst(n2):
        if c > 0:
            q, r = az / bz, az % bz
            lo, hi = a.interval()
            qlo = qhi = None
            if lo is not None:
                qlo, qhi = lo // c, hi // c
                if lo >= 0 and hi < c:
                    return SV("i", p_const(0)), a
            return (
                SV("i", {((atom(q, True, qlo, qhi), 1),): 1}),
                SV("i", {((atom(r, True, 0, c - 1), 1),): 1}),
            )
        q, r = int_divmod(-a, SV.const(-c))
        return q, -r
    e = cur()
    if e.branch((b == 0)._bool()):
        raise ZeroDivisionError("integer division or modulo by zero")
    if e.branch((b > 0)._bool()):
        return (
            SV("i", {((atom(az / bz, True), 1),): 1}),
            SV("i", {((atom(az % bz, True), 1),): 1}),
        )
    q, r = int_divmod(-a, -b)
    return q, -r


def sv_sqrt(x):
    if type(x) is not SV:
        return math.sqrt(x)
    n, d = x.num()
    if p_isconst(n) and d is None:
        c = p_cval(n)
        return SV("r", p_const(to_q(math.sqrt(c))))
    if d is None:
        q = p_sqrt(n)
        if q is not None:
            return abs(SV("r", q))
    else:
        qn, qd = p_sqrt(n), p_sqrt(d)
        if qn is not None and qd is not None:
            return abs(SV("r", qn)) / abs(SV("r", qd))
        xx = SV.of_z3(x.zr())
        n = xx.n
    return SV("r", sq=n)


def c_sqrt(c):
    """Square root of a positive rational: exact if possible, else the float's value."""
    c = Fraction(c)
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        r = Fraction(a, b)
        return int(r) if r.denominator == 1 else r
    return Fraction(math.sqrt(c))


def p_sqrt(n):
    """Polynomial q with q*q == n (up to the rounding of constants), or None."""
    if not n:
        return {}
    atoms = sorted({a for m in n for a, _ in m})
    pos = {a: i for i, a in enumerate(atoms)}

    def vec(m):
        v = [0] * len(atoms)
        for a, e in m:
            v[pos[a]] = e
        return tuple(v)

    def mono(v):
        return tuple((atoms[i], e) for i, e in enumerate(v) if e)

    N = {vec(m): c for m, c in n.items()}
    lead = max(N)
    if N[lead] <= 0 or any(e % 2 for e in lead):
        return None
    lq = tuple(e // 2 for e in lead)
    cq = c_sqrt(N[lead])
    q = {lq: cq}
    exact = cq * cq == N[lead]
    if len(N) == 1:
        return {mono(lq): cq}
    if not exact or len(N) > 60:
        return None
    rem = dict(N)
    del rem[lead]
    for _ in range(12):
        if not rem:
            return {mono(v): c for v, c in q.items()}
        l = max(rem)
        t = tuple(a - b for a, b in zip(l, lq))
        if min(t, default=0) < 0:
            return None
        c = Fraction(rem[l]) / (2 * cq)
        if c.denominator == 1:
            c = int(c)
        if t in q:
            return None
        # subtract 2*c*t*q + c^2 t^2
        for v, cc in list(q.items()):
            k = tuple(a + b for a, b in zip(v, t))
            w = rem.get(k, 0) - 2 * c * cc
            if w:
                rem[k] = w
            else:
                rem.pop(k, None)
        k = tuple(2 * a for a in t)
        w = rem.get(k, 0) - c * c
        if w:
            rem[k] = w
        else:
            rem.pop(k, None)
        q[t] = c
    return None


_VALS = {}  # atom id -> frozenset of the (few) values the atom can take
MAXVALS = 24


def sv_vals(x):
    """Finite set of rationals containing every value of x, or None."""
    if type(x) is not SV:
        try:
            return frozenset([Fraction(to_q(x))])
        except Unsupported:
            return None
    if x.k == "b":
        return frozenset([Fraction(0), Fraction(1)])
    if x.n is None or x.d is not None:
        return None
    n = x.n
    if p_isconst(n):
        return frozenset([Fraction(p_cval(n))])
    ms = [m for m in n if m]
    if len(ms) != 1 or len(ms[0]) != 1 or ms[0][0][1] != 1:
        return None
    a = ms[0][0][0]
    v = _VALS.get(a)
    if v is None:
        _, isint, lo, hi = _ATOMS[a]
        if isint and lo is not None and hi is not None and hi - lo < MAXVALS:
            v = frozenset(Fraction(i) for i in range(int(lo), int(hi) + 1))
        else:
            return None
    c, k = n[ms[0]], n.get((), 0)
    return frozenset(Fraction(c) * x + k for x in v)


def sv_floor(x):
    if type(x) is not SV:
        return math.floor(x)
    if x.k in "ib":
        return x
    n, d = x.num()
    if d is None and p_isconst(n):
        return SV("i", p_const(math.floor(p_cval(n))))
    # split off integer part
    if d is None:
        ip, fp = {}, {}
        for m, c in n.items():
            if all(_ATOMS[a][1] for a, _ in m) and (not isinstance(c, Fraction) or c.denominator == 1):
                ip[m] = c
            else:
                fp[m] = c
        if not fp:
            return SV("i", ip)
        lo, hi = p_interval(fp)
        flo = fhi = None
        if lo is not None:
            flo, fhi = math.floor(lo), math.floor(hi)
            if flo == fhi:
                return SV("i", p_add(ip, p_const(flo)))
        e = z3.ToInt(p_z3(fp, False))
        return SV("i", p_add(ip, {((atom(e, True, flo, fhi), 1),): 1}))
    e = z3.ToInt(x.zr())
    return SV("i", {((atom(e, True), 1),): 1})


def _eval_floors(m, z):
    """Model value of a term with floors of algebraic numbers."""
    todo, subs, seen = [z], [], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app_of(t, z3.Z3_OP_TO_INT):
            a = m.eval(t.arg(0), model_completion=True)
            if z3.is_algebraic_value(a):
                a = a.approx(40)
            if z3.is_rational_value(a):
                n = math.floor(Fraction(a.numerator_as_long(), a.denominator_as_long()))
                subs.append((t, z3.IntVal(n)))
                continue
        todo.extend(t.children())
    return m.eval(z3.simplify(z3.substitute(z, *subs)), model_completion=True) if subs else z


def sv_ceil(x):
    if type(x) is not SV:
        return math.ceil(x)
    return -sv_floor(-x)


def sv_trunc(x):
    if type(x) is not SV:
        return math.trunc(x)
    if x.k in "ib":
        return x + 0
    return ite(x >= 0, sv_floor(x), -sv_floor(-x))


def sv_rint(x):
    """Round half to even."""
    if type(x) is not SV:
        return round(x)
    if x.k in "ib":
        return x
    y = x + Fraction(1, 2)
    f = sv_floor(y)
    tie = (y == f) if type(y == f) is SV else mk_bool(z3.BoolVal(y == f))
    odd = (f % 2) == 1
    return f - ite(tie & odd if type(odd) is SV else (tie if odd else False), 1, 0)


def sv_round(x, decimals):
    if type(x) is not SV:
        return round(x, decimals)
    if decimals == 0:
        r = sv_rint(x)
        return SV("r", r.n, r.d)
    if decimals < 0:
        raise Unsupported("round to tens")
    if decimals < 5 or cur().round_exact:
        s10 = 10**decimals
        r = sv_rint(x * s10)
        return SV("r", p_scale(r.num()[0], Fraction(1, s10)))
    cur().note(
        "np.round(x, decimals>=5) on a symbolic real is modelled as the identity with the "
        "coefficients of its polynomial snapped to multiples of 1e-10"
    )

    def snap(p):
        out = {}
        for m, c in p.items():
            if abs(c) < INF:
                c = Fraction(round(Fraction(c) * 10**10), 10**10)
                if c.denominator == 1:
                    c = int(c)
            if c:
                out[m] = c
        return out

    if x.n is None:
        return SV("r", sq=snap(x.sq))
    if x.d is not None:
        return x
    return SV("r", snap(x.n))


# --------------------------------------------------------------------------------------
# Engine
# --------------------------------------------------------------------------------------


class Violation:
    def __init__(self, kind, msg, inputs):
        self.kind, self.msg, self.inputs = kind, msg, inputs


class Engine:
    """Explores all paths of ``body(ctx)``."""

    def __init__(self, query_timeout=20000, max_paths=20000, budget_s=600.0, max_viol=3,
                 max_concretize=200, tactic=None):
        self.solver = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
        self.query_timeout = query_timeout
        self.solver.set("timeout", query_timeout)
        self.max_paths = max_paths
        self.deadline = time.time() + budget_s
        self.max_viol = max_viol
        self.max_concretize = max_concretize
        self.stats = dict(paths=0, completed=0, aborted=0, branch_queries=0, check_queries=0,
                          discharged=0, trivially_discharged=0, unknown_branches=0,
                          unknown_checks=0, degraded=0, solver_s=0.0, forks=0)
        self.violations = []
        self.degraded = []
        self.witnesses = []
        self.notes = set()
        self.box_hash = False
        self.sort_mode = "fork"
        self.mask_mode = "fork"
        self.round_exact = False    # decide np.round(x, decimals >= 5) exactly
        self.noise = 0              # bound of the rounding errors of computed distances
        self.noise_num = 0
        self.assumption_log = set()

    # ---- used by SV -------------------------------------------------------------------
    def note(self, s):
        self.notes.add(s)

    def _check(self, *assumps):
        t = time.time()
        if t > self.deadline:
            raise Budget("time budget exhausted")
        left = max(1000, min(self.query_timeout, int((self.deadline - t) * 1000)))
        self.solver.set("timeout", left)
        r = self.solver.check(*assumps)
        self.stats["solver_s"] += time.time() - t
        return r

    def add(self, c):
        self.solver.add(c)
        self.pc.append(c)

    def _model_ok(self, c):
        """Value of c in the cached model (True/False/None)."""
        if self.model is None:
            return None
        v = self.model.eval(c, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def ensure_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self.solver.model()
            elif r == z3.unsat:
                raise PathAbort("infeasible")
        return self.model

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = self.pos
        self.pos += 1
        if i < len(self.prefix):
            tag, val, _ = self.prefix[i]
            if tag != "b":
                raise RuntimeError("non-deterministic replay (branch)")
            self._take(c, val)
            return val
        mv = self._model_ok(c)
        if mv is None:
            self.stats["branch_queries"] += 1
            r = self._check()
            if r == z3.sat:
                self.model = self.solver.model()
                mv = self._model_ok(c)
            elif r == z3.unsat:
                raise PathAbort("infeasible path")
        if mv is None:
            # unknown: explore both sides
            self.stats["unknown_branches"] += 1
            val, both = True, True
        else:
            self.stats["branch_queries"] += 1
            r = self._check(z3.Not(c) if mv else c)
            val = mv
            both = r != z3.unsat
            if r == z3.unknown:
                self.stats["unknown_branches"] += 1
        if both:
            self.stats["forks"] += 1
            self.work.append(self.prefix[:i] + [("b", not val, None)])
        self.prefix = self.prefix[:i] + [("b", val, None)]
        self._take(c, val)
        return val

    def _take(self, c, val):
        cc = c if val else z3.Not(c)
        if self.model is not None and self._model_ok(cc) is not True:
            self.model = None
        self.add(cc)

    def concretize(self, sv):
        """Fork over the feasible values of a symbolic scalar."""
        cv = sv.const_value()
        if cv is not None:
            return cv
        if sv.k == "b":
            return self.branch(sv.b)
        z = sv.z()
        for _ in range(self.max_concretize):
            i = self.pos
            self.pos += 1
            if i < len(self.prefix):
                tag, taken, v = self.prefix[i]
                if tag != "c":
                    raise RuntimeError("non-deterministic replay (concretize)")
                c = z == v
                self._take(c, taken)
                if taken:
                    return self._pyval(v, sv)
                continue
            m = self.ensure_model()
            if m is None:
                raise Unsupported("concretize: solver unknown")
            v = m.eval(z, model_completion=True)
            if not (z3.is_int_value(v) or z3.is_rational_value(v)):
                v = _eval_floors(m, z)
            if not (z3.is_int_value(v) or z3.is_rational_value(v)):
                raise Unsupported("concretize: non-rational value")
            c = z == v
            self.stats["branch_queries"] += 1
            r = self._check(z3.Not(c))
            if r != z3.unsat:
                if sv.k == "r" and not getattr(self, "allow_real_concretize", False):
                    raise Unsupported("concretize: symbolic real has several values")
                self.stats["forks"] += 1
                self.work.append(self.prefix[:i] + [("c", False, v)])
            self.prefix = self.prefix[:i] + [("c", True, v)]
            self._take(c, True)
            return self._pyval(v, sv)
        raise Unsupported("concretize: too many values")

    @staticmethod
    def _pyval(v, sv):
        if z3.is_int_value(v):
            return v.as_long() if sv.k == "i" else float(v.as_long())
        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        if sv.k == "i":
            return int(f)
        return float(f)

    def sqrt_atom(self, p):
        key = tuple(sorted(p.items(), key=repr))
        a = self.sqrts.get(key)
        if a is None:
            s = z3.Real(f"sqrt!{len(self.sqrts)}")
            t = p_z3(p, False)
            self.add(z3.And(s >= 0, s * s == t))
            self.model = None
            a = atom(s, False)
            self.sqrts[key] = a
        return {((a, 1),): 1}

    def trig(self, x):
        """(cos, sin) of a symbolic angle: atoms on the unit circle, cos even, sin odd."""
        n, d = x.num()
        if d is not None:
            x = SV.of_z3(x.zr())
            n = x.n
        lead = min(n.items(), key=lambda t: repr(t[0]))
        sign = 1
        if lead[1] < 0:
            n, sign = p_scale(n, -1), -1
        key = tuple(sorted(n.items(), key=repr))
        cs = self.trigs.get(key)
        if cs is None:
            i = len(self.trigs)
            c, s = z3.Reals(f"cos!{i} sin!{i}")
            self.add(c * c + s * s == 1)
            self.add(z3.And(c <= 1, c >= -1, s <= 1, s >= -1))
            self.model = None
            cs = (atom(c, False), atom(s, False))
            self.trigs[key] = cs
            self.note("cos/sin of a symbolic angle are arbitrary points of the unit circle "
                      "(cos even, sin odd)")
        return SV("r", {((cs[0], 1),): 1}), SV("r", {((cs[1], 1),): sign})

    # ---- context API ------------------------------------------------------------------
    def noisy(self, x):
        """A computed value: any number within the rounding error of x."""
        if not self.noise or type(x) is not SV:
            return x
        self.noise_num += 1
        return x + self.fresh(f"noise{self.noise_num}", "r", -self.noise, self.noise)

    def fresh(self, name, sort, lo=None, hi=None):
        if sort == "i":
            v = z3.Int(name)
        elif sort == "r":
            v = z3.Real(name)
        else:
            v = z3.Bool(name)
        self.inputs[name] = (sort, v)
        cs = []
        if lo is not None:
            cs.append(v >= (lo if sort == "i" else _num_z3(to_q(lo))))
        if hi is not None:
            cs.append(v <= (hi if sort == "i" else _num_z3(to_q(hi))))
        for c in cs:
            self.add(c)
        if cs:
            self.model = None
        if sort == "b":
            return SV("b", b=v)
        return SV.of_z3(v, lo if sort == "i" else (to_q(lo) if lo is not None else None),
                        hi if sort == "i" else (to_q(hi) if hi is not None else None))

    def assume(self, c):
        if type(c) is not SV:
            if not c:
                raise PathAbort("assumption false")
            return
        b = z3.simplify(c._bool())
        if z3.is_true(b):
            return
        if z3.is_false(b):
            raise PathAbort("assumption false")
        if self._model_ok(b) is not True:
            self.model = None
        self.add(b)

    def check(self, c, msg):
        """Queue an assertion; discharged at the end of the path."""
        if type(c) is SV:
            self.pending.append((c._bool(), msg))
        else:
            self.pending.append((z3.BoolVal(bool(c)), msg))

    def flush(self):
        todo = []
        for b, msg in self.pending:
            s = z3.simplify(b)
            self.stats["check_queries"] += 1
            if z3.is_true(s):
                self.stats["trivially_discharged"] += 1
                self.stats["discharged"] += 1
            else:
                todo.append((s, msg))
        self.pending = []
        if not todo:
            return
        self._discharge(todo)

    def _discharge(self, todo):
        neg = z3.Not(z3.And([b for b, _ in todo])) if len(todo) > 1 else z3.Not(todo[0][0])
        self.solver.push()
        try:
            self.solver.add(neg)
            r = self._check()
            m = self.solver.model() if r == z3.sat else None
        finally:
            self.solver.pop()
        if r == z3.unsat:
            self.stats["discharged"] += len(todo)
            return
        if r == z3.unknown:
            if len(todo) > 1:
                for t in todo:
                    self._discharge([t])
                return
            m = self.specialise(neg)
            if m is None:
                self.stats["unknown_checks"] += 1
                return
        failed = [msg for b, msg in todo if z3.is_false(m.eval(b, model_completion=True))]
        msg = failed[0] if failed else todo[0][1]
        self.add_violation("assert", msg, m, neg)

    def specialise(self, extra):
        """Look for a model by fixing most inputs to small concrete values."""
        import random

        rnd = random.Random(7)
        names = [n for n, (s, _) in self.inputs.items() if s == "r"]
        for k in range(12):
            self.solver.push()
            try:
                self.solver.add(extra)
                keep = set(rnd.sample(names, min(len(names), 1 + k % 3)))
                for n in names:
                    if n not in keep:
                        q = Fraction(rnd.randint(-12, 12), 4)
                        self.solver.push()
                        self.solver.add(self.inputs[n][1] == _num_z3(q))
                t = self.query_timeout
                self.query_timeout = 3000
                try:
                    r = self._check()
                finally:
                    self.query_timeout = t
                if r == z3.sat:
                    return self.solver.model()
            finally:
                while self.solver.num_scopes() > self.base_scopes:
                    self.solver.pop()
        return None

    def add_violation(self, kind, msg, model, extra=None):
        cands = [self.extract(model)]
        nice = self.nicen(model, extra)
        if nice is not None:
            cands.insert(0, nice)
        self.violations.append(Violation(kind, msg, cands))
        raise PathAbort("violation recorded")

    def nicen(self, model, extra):
        """Model of the same query whose real inputs are short dyadic rationals."""
        self.solver.push()
        try:
            if extra is not None:
                self.solver.add(extra)
            cur_m = model
            for name, (s, v) in self.inputs.items():
                if s != "r":
                    continue
                val = self.approx(cur_m.eval(v, model_completion=True))
                for den in (1, 4, 64, 4096):
                    q = Fraction(round(val * den), den)
                    self.solver.push()
                    self.solver.add(v == _num_z3(q))
                    t = self.query_timeout
                    self.query_timeout = 1500
                    try:
                        r = self._check()
                    except Budget:
                        r = z3.unknown
                    finally:
                        self.query_timeout = t
                    if r == z3.sat:
                        cur_m = self.solver.model()
                        break
                    self.solver.pop()
            return self.extract(cur_m)
        finally:
            while self.solver.num_scopes() > self.base_scopes:
                self.solver.pop()

    @staticmethod
    def approx(v):
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
        if z3.is_algebraic_value(v):
            a = v.approx(20)
            return Fraction(a.numerator_as_long(), a.denominator_as_long())
        return Fraction(0)

    def extract(self, model):
        out = {}
        for name, (s, v) in self.inputs.items():
            x = model.eval(v, model_completion=True)
            if s == "b":
                out[name] = bool(z3.is_true(x))
            elif s == "i":
                out[name] = int(self.approx(x))
            else:
                f = self.approx(x)
                out[name] = float(f)
        return out

    def eval_value(self, val, model):
        """Concrete value of an observed (possibly nested) symbolic value."""
        if type(val) is SC:
            return complex(self.eval_value(val.re, model), self.eval_value(val.im, model))
        if type(val) is SV:
            if val.k == "b":
                return bool(z3.is_true(model.eval(val.b, model_completion=True)))
            if val.sq is not None and val.n is None:
                f = self.approx(model.eval(p_z3(val.sq, False), model_completion=True))
                return math.sqrt(float(f)) if f >= 0 else float("nan")
            f = self.approx(model.eval(val.z(), model_completion=True))
            if val.k == "i":
                return int(f)
            if abs(f) >= INF:
                return math.inf if f > 0 else -math.inf
            return float(f)
        if hasattr(val, "tolist"):
            val = val.tolist()
        if isinstance(val, (list, tuple)):
            return [self.eval_value(v, model) for v in val]
        return val

    # ---- exploration ------------------------------------------------------------------
    def explore(self, body, keep_witnesses=40):
        """Run ``body()`` over every feasible path."""
        global E
        self.work = [[]]
        complete = True
        prev = E
        E = self
        try:
            while self.work:
                if self.stats["paths"] >= self.max_paths or time.time() > self.deadline:
                    complete = False
                    break
                self.prefix = self.work.pop()
                self.pos = 0
                self.pc = []
                self.model = None
                self.inputs = {}
                self.sqrts = {}
                self.trigs = {}
                self.pending = []
                self.observed = {}
                self.solver.push()
                self.base_scopes = self.solver.num_scopes()
                self.stats["paths"] += 1
                try:
                    self._run_path(body, keep_witnesses)
                except Budget:
                    complete = False
                    if self.model is not None:      # the path was cut off: replay what is known of it
                        self.degraded.append(("time budget exhausted", False, [self.extract(self.model)]))
                    break
                finally:
                    while self.solver.num_scopes() >= self.base_scopes:
                        self.solver.pop()
                if len(self.violations) >= self.max_viol:
                    complete = False
                    break
        finally:
            E = prev
        if self.stats["unknown_branches"] or self.stats["unknown_checks"] or self.stats["degraded"]:
            complete = False
        self.complete = complete
        return self

    def _run_path(self, body, keep_witnesses):
        try:
            body()
            self.flush()
            self.stats["completed"] += 1
            if len(self.witnesses) < keep_witnesses:
                m = self.ensure_model()
                if m is not None:
                    obs = {k: self.eval_value(v, m) for k, v in self.observed.items()}
                    self.witnesses.append((self.extract(m), obs))
        except PathAbort:
            self.stats["aborted"] += 1
        except Unsupported as e:
            self._degrade(f"unsupported: {e}", None)
        except Budget:
            raise
        except RecursionError as e:
            self._degrade(f"recursion: {e}", None)
        except Exception as e:  # raised by the code under test (or a gap in the encoding)
            import traceback

            tb = traceback.extract_tb(e.__traceback__)
            last = tb[-1] if tb else None
            self._degrade(
                f"{type(e).__name__}: {e}"[:300]
                + (f" at {last.filename.split('/')[-1]}:{last.lineno}" if last else ""),
                e,
            )

    def _degrade(self, msg, exc):
        """The path could not be decided symbolically: hand one model of it to the
        concrete replay (which decides whether it is a violation)."""
        try:
            self.flush()
        except PathAbort:
            return
        try:
            m = self.ensure_model()
        except PathAbort:
            self.stats["aborted"] += 1
            return
        except Budget:
            raise
        self.stats["degraded"] += 1
        if m is not None:
            cands = [self.extract(m)]
            if len(self.degraded) < 60:
                try:
                    n = self.nicen(m, None)
                    if n is not None:
                        cands.insert(0, n)
                except BaseException:
                    pass
                self.degraded.append((msg, exc is not None, cands))
