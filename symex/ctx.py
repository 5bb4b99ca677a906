"""The two faces of a harness: symbolic (solver) and concrete (real library)."""
import hashlib
import math


class CheckFailed(Exception):
    """An assertion of the harness is false (concrete run)."""


class Skip(Exception):
    """The inputs do not satisfy the harness' assumptions (concrete run)."""


class Base:
    sym = False

    def close(self, a, b, msg, tol=1e-6):
        """|a - b| <= tol element-wise (nested sequences allowed)."""
        a, b = self.flat(a), self.flat(b)
        self.check(len(a) == len(b), msg + " (length)")
        for x, y in zip(a, b):
            self.check(self.near(x, y, tol), msg)

    def flat(self, x):
        if hasattr(x, "tolist") and getattr(x, "shape", ()) != ():
            x = x.tolist()
        if isinstance(x, (list, tuple)):
            out = []
            for y in x:
                out.extend(self.flat(y))
            return out
        return [x]

    def same(self, a, b, msg):
        """Element-wise equality of integer / boolean data."""
        a, b = self.flat(a), self.flat(b)
        self.check(len(a) == len(b), msg + " (length)")
        for x, y in zip(a, b):
            if type(x) in (int, bool, str) and type(y) in (int, bool, str) and x == y:
                continue
            self.check(x == y, msg)

    def count(self, conds):
        s = 0
        for c in conds:
            s = s + self.ite(c, 1, 0)
        return s

    def raises(self, excs, f, msg):
        """f() must raise one of excs; returns the exception."""
        try:
            f()
        except excs as e:
            return e
        self.check(False, msg)
        return None


class Concrete(Base):
    sym = False

    def __init__(self, inputs, lp, np):
        self.inputs = inputs
        self.lp, self.np = lp, np
        self.observed = {}

    def get(self, name, default):
        """Inputs the solver did not reach (aborted path) get some value of their range."""
        if name not in self.inputs:
            self.inputs[name] = default
        return self.inputs[name]

    def unit(self, name):
        """A number in [0, 1) that depends on the input and on the probe (None: no probe)."""
        p = self.inputs.get("__probe__")
        if p is None:
            return None
        return int(hashlib.sha1(f"{p}:{name}".encode()).hexdigest()[:8], 16) / 2 ** 32

    def real(self, name, lo=None, hi=None):
        lo_, hi_ = (-1.0 if lo is None else lo), (1.0 if hi is None else hi)
        u = self.unit(name)
        d = lo_ + (0.37 if u is None else round(u, 4)) * (hi_ - lo_)
        if u is not None and hi_ - lo_ >= 1 and lo_ <= round(d * 8) / 8 <= hi_:
            d = round(d * 8) / 8        # binary fractions: no distance at the edge of a decimal rounding
        v = float(self.get(name, d))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip(name)
        return v

    def int(self, name, lo=None, hi=None):
        u, lo_ = self.unit(name), 0 if lo is None else lo
        v = int(self.get(name, lo_ if u is None else lo_ + math.floor(u * ((lo_ + 3 if hi is None else hi) - lo_ + 1))))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip(name)
        return v

    def bool(self, name):
        u = self.unit(name)
        return bool(self.get(name, False if u is None else u < 0.5))

    def pick(self, name, lo, hi):
        return self.int(name, lo, hi)

    def assume(self, c):
        if not c:
            raise Skip("assumption")

    def check(self, c, msg):
        if not c:
            raise CheckFailed(msg)

    def near(self, x, y, tol=1e-6):
        if x == y:
            return True
        return abs(x - y) <= tol * max(1.0, min(abs(x), abs(y)))

    def and_(self, *cs):
        return all(bool(c) for c in cs)

    def or_(self, *cs):
        return any(bool(c) for c in cs)

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def observe(self, name, v):
        self.observed[name] = v

    def branch(self, c):
        return bool(c)

    def opts(self, **k):
        pass


class Symbolic(Base):
    sym = True

    def __init__(self, engine, lp, np):
        self.e = engine
        self.lp, self.np = lp, np

    def real(self, name, lo=None, hi=None):
        return self.e.fresh(name, "r", lo, hi)

    def int(self, name, lo=None, hi=None):
        return self.e.fresh(name, "i", lo, hi)

    def bool(self, name):
        return self.e.fresh(name, "b")

    def pick(self, name, lo, hi):
        """Integer input that is case-split (one path per value)."""
        v = self.e.fresh(name, "i", lo, hi)
        return int(self.e.concretize(v))

    def assume(self, c):
        self.e.assume(c)

    def check(self, c, msg):
        self.e.check(c, msg)

    def near(self, x, y, tol=1e-6):
        from . import engine as eng

        if type(x) is eng.SV and type(y) is eng.SV and x.b is None and y.b is None and x.k == y.k \
                and x.n == y.n and x.d == y.d and x.sq == y.sq:
            return True
        if type(x) is not eng.SV and type(y) is not eng.SV:
            if x == y:
                return True
            return abs(x - y) <= tol * max(1.0, min(abs(x), abs(y)))
        if (isinstance(x, float) and math.isinf(x)) or (isinstance(y, float) and math.isinf(y)):
            return x == y
        lx = type(x) is eng.SV and x.sq is not None and x.n is None
        ly = type(y) is eng.SV and y.sq is not None and y.n is None
        if lx and ly and x.sq == y.sq:
            return True
        d = x - y
        if type(d) is not eng.SV:
            return abs(d) <= tol
        return (d <= tol) & (d >= -tol)

    def _b(self, c):
        from . import engine as eng

        return c._bool() if type(c) is eng.SV else eng.z3.BoolVal(bool(c))

    def and_(self, *cs):
        from . import engine as eng

        return eng.mk_bool(eng.z3.And([self._b(c) for c in cs]))

    def or_(self, *cs):
        from . import engine as eng

        return eng.mk_bool(eng.z3.Or([self._b(c) for c in cs]))

    def not_(self, c):
        from . import engine as eng

        return eng.mk_bool(eng.z3.Not(self._b(c)))

    def implies(self, a, b):
        from . import engine as eng

        return eng.mk_bool(eng.z3.Implies(self._b(a), self._b(b)))

    def iff(self, a, b):
        from . import engine as eng

        return eng.mk_bool(self._b(a) == self._b(b))

    def ite(self, c, a, b):
        from . import engine as eng

        return eng.ite(c, a, b)

    def observe(self, name, v):
        self.e.observed[name] = v

    def branch(self, c):
        return bool(c)

    def opts(self, **k):
        for n, v in k.items():
            setattr(self.e, n, v)
