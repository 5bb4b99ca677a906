"""Loads /repo's lattpy a second time as package ``symlattpy`` with symbolic libraries.

The sources are read from the working tree on every run.  Inside this second copy numpy,
math and the parts of scipy the library uses are the models of ``symnp`` and of this file.
"""
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import itertools
import math
import os
import sys
import types
from fractions import Fraction

import numpy as np

from . import engine as eng
from . import symnp
from .engine import SV, Unsupported, cur, ite, z3
from .symnp import SymArray, MaskSel, _plain, _mk, arr, collapse, raw, wrap, _contains_sym, _real

REPO = os.environ.get("LATTPY_REPO", "/repo")
PKG = "symlattpy"

# --------------------------------------------------------------------------------------
# builtins
# --------------------------------------------------------------------------------------

_isinstance = builtins.isinstance


class _NumMeta(type):
    def __instancecheck__(cls, x):
        if type(x) is SV:
            return _sv_isinstance(x, cls._sym_real)
        return _isinstance(x, cls._sym_real)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._sym_real)

    def __eq__(cls, o):
        return o is cls or o is cls._sym_real

    def __hash__(cls):
        return hash(cls._sym_real)


class SymInt(int, metaclass=_NumMeta):
    _sym_real = int

    def __new__(cls, x=0, *a):
        if type(x) is SV:
            r = eng.sv_trunc(x)
            return raw(r.with_dt(None) if type(r) is SV else r)
        if _isinstance(x, SymArray) and x.size == 1:
            return SymInt(_plain(x).reshape(-1)[0])
        return int(x, *a)

    from_bytes = int.from_bytes


class SymFloat(float, metaclass=_NumMeta):
    _sym_real = float

    def __new__(cls, x=0.0):
        if type(x) is SV:
            if x.k == "r":
                return x.with_dt(None)
            return SV("r", *x.num())
        if _isinstance(x, SymArray) and x.size == 1:
            return SymFloat(_plain(x).reshape(-1)[0])
        return float(x)


SymInt.__name__ = "int"
SymFloat.__name__ = "float"


def _sv_isinstance(x, cls):
    if cls is object:
        return True
    if x.k == "b":
        return cls in (bool, int) if x.dt is None else cls in (np.bool_, np.generic)
    if x.k == "i":
        if x.dt is None:
            return cls is int or _is_abc(cls, int)
        return issubclass(x.dt.type, cls) if _isinstance(cls, type) else False
    if x.dt is None:
        return cls is float or _is_abc(cls, float)
    return cls is float or (issubclass(x.dt.type, cls) if _isinstance(cls, type) else False)


def _is_abc(cls, t):
    try:
        return cls is not t and _isinstance(cls, type) and cls.__module__ == "numbers" and issubclass(t, cls)
    except TypeError:
        return False


def sym_isinstance(x, cls):
    if type(x) is SV:
        cs = cls if _isinstance(cls, tuple) else (cls,)
        for c in cs:
            c = getattr(c, "_sym_real", c)
            if _isinstance(c, types.UnionType):
                if sym_isinstance(x, tuple(c.__args__)):
                    return True
            elif c is SV or _sv_isinstance(x, c):
                return True
        return False
    if type(x) is MaskSel:
        x = x.realize()
    return _isinstance(x, cls)


def _minmax(name, better, np_f):
    real = getattr(builtins, name)

    def f(*args, **kw):
        if kw.get("key") is not None or len(args) == 0:
            return real(*args, **kw)
        items = list(args[0]) if len(args) == 1 else list(args)
        if not any(type(x) is SV for x in items):
            return real(*args, **kw) if len(args) > 1 else real(items, **kw)
        acc = items[0]
        for x in items[1:]:
            acc = raw(np_f(acc, x))
        return acc

    f.__name__ = name
    return f


sym_min = _minmax("min", None, symnp._f_min)
sym_max = _minmax("max", None, symnp._f_max)


def sym_round(x, nd=None):
    if type(x) is SV:
        if nd is None:
            return eng.sv_rint(x)
        return raw(eng.sv_round(x, int(nd))) if x.k == "r" else x
    return builtins.round(x, nd) if nd is not None else builtins.round(x)


# --------------------------------------------------------------------------------------
# math
# --------------------------------------------------------------------------------------


class MathModule(types.ModuleType):
    def __getattr__(self, name):
        return getattr(math, name)


def _m(f, real):
    def g(x, *a):
        if _isinstance(x, SymArray) and x.size == 1:
            x = _plain(x).reshape(-1)[0]
        if type(x) is SV:
            return raw(f(x, *a))
        return real(x, *a)

    return g


sym_math = MathModule("math")
sym_math.sqrt = _m(eng.sv_sqrt, math.sqrt)
sym_math.floor = _m(eng.sv_floor, math.floor)
sym_math.ceil = _m(eng.sv_ceil, math.ceil)
sym_math.trunc = _m(eng.sv_trunc, math.trunc)
sym_math.sin = _m(symnp._f_sin, math.sin)
sym_math.cos = _m(symnp._f_cos, math.cos)
sym_math.fabs = _m(abs, math.fabs)
sym_math.radians = _m(lambda x: x * (math.pi / 180), math.radians)
sym_math.isfinite = _m(symnp._f_isfinite, math.isfinite)
sym_math.isinf = _m(symnp._f_isinf, math.isinf)
sym_math.isnan = _m(lambda x: False, math.isnan)


def _hypot(*xs):
    if any(type(x) is SV for x in xs):
        return raw(eng.sv_sqrt(sum(x * x for x in xs)))
    return math.hypot(*xs)


def _mdist(p, q):
    return _hypot(*(a - b for a, b in zip(p, q)))


def _misclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    if type(a) is SV or type(b) is SV:
        m = symnp._f_max(symnp._f_max(abs(a), abs(b)) * rel_tol, abs_tol)
        return bool(abs(a - b) <= m)
    return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


def _mprod(xs, start=1):
    for x in xs:
        start = start * x
    return start


sym_math.hypot, sym_math.dist, sym_math.isclose = _hypot, _mdist, _misclose
sym_math.prod = _mprod
sym_math.fsum = lambda xs: sum(xs)

# --------------------------------------------------------------------------------------
# scipy
# --------------------------------------------------------------------------------------


def _dist(p, q, order=2):
    if order == 2:
        s = 0
        for a, b in zip(p, q):
            d = a - b
            s = s + d * d
        return raw(eng.cur().noisy(eng.sv_sqrt(s))) if type(s) is SV else math.sqrt(s)
    ds = [abs(a - b) for a, b in zip(p, q)]
    if order == 1:
        return raw(sum(ds))
    if order == math.inf:
        acc = ds[0]
        for d in ds[1:]:
            acc = symnp._f_max(acc, d)
        return raw(acc)
    raise Unsupported(f"metric p={order}")


class SymTree:
    """cKDTree / KDTree.  Concrete data: scipy's own tree.  Symbolic data: a direct model
    of the documented query semantics (k nearest within the upper bound, ascending)."""

    _real_cls = None

    def __init__(self, data, leafsize=None, compact_nodes=True, copy_data=False,
                 balanced_tree=True, boxsize=None):
        a = arr(data, dtype=np.float64)
        if a.ndim != 2:
            raise ValueError("data must be of shape (n, m), where there are n points of "
                             "dimension m")
        self._a = a
        self.data = a
        self.n, self.m = a.shape
        c = collapse(a)
        self._c = None
        if boxsize is not None and c is None:
            raise Unsupported("boxsize with symbolic points")
        self._box = boxsize
        if c is not None:
            self._c = self._real_cls(c, boxsize=None if boxsize is None else _real(boxsize))

    def _pts(self):
        return _plain(self._a).tolist()

    def query(self, x, k=1, eps=0, p=2, distance_upper_bound=math.inf, workers=1):
        xx = arr(x, dtype=np.float64)
        if type(k) is SV:
            k = int(k)
        cx = collapse(xx)
        if self._c is not None and cx is not None and not _contains_sym(distance_upper_bound):
            kk = _real(k)
            return wrap(self._c.query(cx, kk, _real(eps), _real(p), _real(distance_upper_bound),
                                      _real(workers) if workers != 1 else 1))
        if not (type(k) is not SV and _isinstance(k, (int, np.integer))):
            raise Unsupported("k-list query")
        k = int(k)
        if xx.shape[-1] != self.m:
            raise ValueError(f"x must consist of vectors of length {self.m} but has shape {xx.shape}")
        pts = self._pts()
        rows = _plain(xx).reshape(-1, self.m)
        D = np.empty((len(rows), k), dtype=object)
        I = np.empty((len(rows), k), dtype=object)
        ub = raw(distance_upper_bound)
        if _contains_sym(eps) or eps != 0:
            # approximate query: nodes of the tree beyond ub / (1 + eps) may be left out
            if symnp._isinf(ub):
                raise Unsupported("approximate query without an upper bound")
            ub = raw(ub / (1 + eps))
        for r, q in enumerate(rows):
            cand = []
            for i, pt in enumerate(pts):
                d = _dist(pt, q, p)
                if symnp._isinf(ub) or bool(d < ub):
                    cand.append((d, i))
            if k == 1 and cand:
                best = 0
                for j in range(1, len(cand)):
                    if bool(cand[j][0] < cand[best][0]):
                        best = j
                order = [best]
            else:
                order = symnp._fork_argsort([c[0] for c in cand])
            for j in range(k):
                if j < len(order):
                    D[r, j], I[r, j] = cand[order[j]]
                else:
                    D[r, j], I[r, j] = math.inf, self.n
        D = _mk(D, np.dtype(float)).reshape(xx.shape[:-1] + (k,))
        I = _mk(I, np.dtype(np.int64)).reshape(xx.shape[:-1] + (k,))
        if k == 1:
            D, I = D[..., 0], I[..., 0]
        return D, I

    def query_ball_tree(self, other, r, p=2.0, eps=0):
        if self._c is not None and getattr(other, "_c", None) is not None and not _contains_sym(r):
            return self._c.query_ball_tree(other._c, _real(r), _real(p), _real(eps))
        if eps:
            raise Unsupported("approximate query")
        return [[j for j, b in enumerate(other._pts()) if bool(_dist(a, b, p) <= raw(r))]
                for a in self._pts()]

    def query_ball_point(self, x, r, p=2.0, eps=0, workers=1, return_sorted=None, return_length=False):
        xx = arr(x, dtype=np.float64)
        if self._c is not None and collapse(xx) is not None and not _contains_sym(r):
            return self._c.query_ball_point(collapse(xx), _real(r), _real(p), _real(eps))
        if eps:
            raise Unsupported("approximate query")
        rows = _plain(xx).reshape(-1, self.m)
        res = [[j for j, b in enumerate(self._pts()) if bool(_dist(q, b, p) <= raw(r))] for q in rows]
        return res[0] if xx.ndim == 1 else res

    def query_pairs(self, r, p=2.0, eps=0, output_type="set"):
        if self._c is not None and not _contains_sym(r):
            return self._c.query_pairs(_real(r), _real(p), _real(eps), output_type=output_type)
        if eps:
            raise Unsupported("approximate query")
        pts = self._pts()
        return {(i, j) for i in range(self.n) for j in range(i + 1, self.n)
                if bool(_dist(pts[i], pts[j], p) <= raw(r))}

    def __reduce__(self):
        raise Unsupported("pickle of tree")

    def __deepcopy__(self, memo):
        return self


def _make_spatial():
    import scipy.spatial as sp
    import scipy.spatial.distance as spd

    m = types.ModuleType("scipy.spatial")
    m.__dict__["__path__"] = []

    class cKDTree(SymTree):
        _real_cls = sp.cKDTree

    class KDTree(SymTree):
        _real_cls = sp.KDTree

    class _Wrapped:
        def __init__(self, *a, **k):
            if _contains_sym(a) or _contains_sym(k):
                raise Unsupported(f"{self._cls.__name__} of symbolic points")
            self._o = self._cls(*_real(a), **_real(k))

        def __getattr__(self, n):
            return wrap(getattr(self._o, n))

    class ConvexHull(_Wrapped):
        _cls = sp.ConvexHull

    class Voronoi(_Wrapped):
        _cls = sp.Voronoi

    class Delaunay(_Wrapped):
        _cls = sp.Delaunay

    d = types.ModuleType("scipy.spatial.distance")

    def cdist(XA, XB, metric="euclidean", **kw):
        a, b = arr(XA, dtype=float), arr(XB, dtype=float)
        ca, cb = collapse(a), collapse(b)
        if ca is not None and cb is not None:
            return wrap(spd.cdist(ca, cb, metric, **kw))
        if metric != "euclidean":
            raise Unsupported("cdist metric")
        if a.shape[1] != b.shape[1]:
            raise ValueError("XA and XB must have the same number of columns")
        res = np.empty((len(a), len(b)), dtype=object)
        for i, p in enumerate(_plain(a)):
            for j, q in enumerate(_plain(b)):
                res[i, j] = _dist(p, q)
        return _mk(res, np.dtype(float))

    def pdist(X, metric="euclidean", **kw):
        a = arr(X, dtype=float)
        c = collapse(a)
        if c is not None:
            return wrap(spd.pdist(c, metric, **kw))
        p = _plain(a)
        return arr([_dist(p[i], p[j]) for i in range(len(p)) for j in range(i + 1, len(p))])

    def euclidean(u, v, w=None):
        return symnp.out_scalar(_dist(_plain(arr(u)), _plain(arr(v))), np.dtype(float))

    d.cdist, d.pdist, d.euclidean = cdist, pdist, euclidean
    m.distance = d
    for c in (cKDTree, KDTree, ConvexHull, Voronoi, Delaunay):
        setattr(m, c.__name__, c)
    return m, d


class SymSparse:
    """csr/bsr/coo/lil matrix with possibly symbolic coordinates or data."""

    def __init__(self, real_cls, args, kwargs):
        self.cls, self.args, self.kwargs = real_cls, args, dict(kwargs)
        a0 = args[0]
        self.dtype = symnp.norm_dtype(self.kwargs.get("dtype"))
        if not _isinstance(a0, (tuple, list)) or len(a0) not in (2, 3) or _isinstance(a0[0], int):
            raise Unsupported("sparse constructor with symbolic data")
        if len(args) > 1:
            self.kwargs.setdefault("shape", args[1])
        if len(a0) == 3:
            a0 = self._compressed(*a0)
        data, ij = a0
        self.data = arr(data)
        ij = arr(ij) if not _isinstance(ij, tuple) else ij
        self.rows, self.cols = arr(ij[0]), arr(ij[1])
        sh = self.kwargs.get("shape")
        if sh is None:
            r, c = symnp.call_np(np.max, (self.rows,), {}), symnp.call_np(np.max, (self.cols,), {})
            sh = (int(r) + 1, int(c) + 1)
        self.shape = tuple(int(s) for s in sh)
        if self.dtype is None:
            self.dtype = self.data.dtype

    def _compressed(self, data, indices, indptr):
        """(data, indices, indptr) of the CSR/BSR formats as coordinates (CSC is not modelled)."""
        name = self.cls.__name__
        if not name.startswith(("csr", "bsr")):
            raise Unsupported("compressed format " + name)
        data = arr(data)
        ind = [int(x) for x in _plain(arr(indices)).tolist()]
        ptr = [int(x) for x in _plain(arr(indptr)).tolist()]
        if not name.startswith("bsr") and data.ndim != 1 or name.startswith("bsr") and data.ndim != 3:
            raise ValueError("data array must be %d-D" % (3 if name.startswith("bsr") else 1))
        if ptr[0] != 0 or ptr[-1] > len(ind) or len(ind) != data.shape[0]:
            raise ValueError("indices, indptr and data do not match")
        R, C = data.shape[1:] if data.ndim == 3 else (1, 1)
        D = _plain(data).reshape(len(ind), R, C)
        v, r, c = [], [], []
        for row in range(len(ptr) - 1):
            for k in range(ptr[row], ptr[row + 1]):
                for x in range(R):
                    for y in range(C):
                        v.append(D[k, x, y])
                        r.append(row * R + x)
                        c.append(ind[k] * C + y)
        if self.kwargs.get("shape") is None:
            self.kwargs["shape"] = ((len(ptr) - 1) * R, (max(ind, default=-1) + 1) * C)
        o = np.empty(len(v), dtype=object)
        o[:] = v
        return _mk(o, data.dtype), (np.array(r, dtype=np.int64), np.array(c, dtype=np.int64))

    def toarray(self):
        n, m = self.shape
        res = np.empty((n, m), dtype=object)
        d, r, c = _plain(self.data), _plain(self.rows), _plain(self.cols)
        for i in range(n):
            for j in range(m):
                acc = 0
                for k in range(len(d)):
                    hit = symnp._f_and(r[k] == i, c[k] == j)
                    acc = acc + (ite(hit, d[k], 0) if type(hit) is SV else (d[k] if hit else 0))
                res[i, j] = raw(symnp.cast_scalar(raw(acc), self.dtype))
        return _mk(res, self.dtype)

    todense = toarray

    @property
    def nnz(self):
        raise Unsupported("nnz of symbolic sparse matrix")


class SparseRes:
    """Concrete sparse matrix handed to the code under test / the harness."""

    def __init__(self, m):
        self._m = m

    def __getattr__(self, n):
        v = getattr(self._m, n)
        if callable(v):
            return lambda *a, **k: wrap(v(*_real(a), **_real(k)))
        return wrap(v)


def _sparse_ctor(name):
    import scipy.sparse as ss

    real = getattr(ss, name)

    def ctor(*args, **kwargs):
        if "dtype" in kwargs:
            kwargs["dtype"] = symnp.norm_dtype(kwargs["dtype"])
        if not _contains_sym(args) and not _contains_sym(kwargs):
            return SparseRes(real(*_real(args), **_real(kwargs)))
        return SymSparse(real, args, kwargs)

    ctor.__name__ = name
    return ctor


class ConcreteOnly(types.ModuleType):
    """Unmodelled library module: its functions run on concrete arguments only."""

    def __init__(self, name, real):
        super().__init__(name)
        self.__dict__["_real_mod"] = real
        self.__dict__["__path__"] = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        r = getattr(self._real_mod, name)
        if _isinstance(r, types.ModuleType):
            v = ConcreteOnly(f"{self.__name__}.{name}", r)
        elif callable(r):
            def v(*a, **k):
                if _contains_sym(a) or _contains_sym(k):
                    raise Unsupported(f"{self.__name__}.{name} on symbolic data")
                return wrap(r(*_real(a), **_real(k)))
        else:
            v = wrap(r)
        self.__dict__[name] = v
        return v


def _make_pickle():
    """pickle: a stored object is a deep copy (both use the same reduction protocol)."""
    import copy
    import pickle as real

    m = types.ModuleType("pickle")
    m.__dict__.update({k: v for k, v in vars(real).items() if not k.startswith("__")})
    store = []

    def dumps(obj, protocol=None, **kw):
        store.append(copy.deepcopy(obj))
        return b"sym-pickle:%d" % (len(store) - 1)

    def loads(data, **kw):
        if not bytes(data).startswith(b"sym-pickle:"):
            raise real.UnpicklingError("invalid load key")
        return copy.deepcopy(store[int(bytes(data)[11:])])

    def dump(obj, file, protocol=None, **kw):
        file.write(dumps(obj))

    def load(file, **kw):
        return loads(file.read())

    m.dumps, m.loads, m.dump, m.load = dumps, loads, dump, load
    return m


_MODS = None


def _mods():
    global _MODS
    if _MODS is None:
        sp, d = _make_spatial()
        ss = types.ModuleType("scipy.sparse")
        for n in ("csr_matrix", "bsr_matrix", "coo_matrix", "csc_matrix", "lil_matrix", "csr_array",
                  "coo_array"):
            setattr(ss, n, _sparse_ctor(n))
        sc = types.ModuleType("scipy")
        sc.__dict__["__path__"] = []
        sc.spatial, sc.sparse = sp, ss
        _MODS = {
            "numpy": symnp.shim, "numpy.linalg": symnp.shim.linalg, "math": sym_math,
            "scipy": sc, "scipy.spatial": sp, "scipy.spatial.distance": d, "scipy.sparse": ss,
            "pickle": _make_pickle(),
        }
    return _MODS


def sym_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        mods = _mods()
        top = name.split(".")[0]
        if top in ("numpy", "scipy") or name in ("math", "pickle"):
            if name in mods:
                return mods[name] if fromlist else mods[top]
            real = builtins.__import__(name, None, None, ("*",), 0)
            mods[name] = ConcreteOnly(name, real)
            return mods[name] if fromlist else mods[top]
        if top == "lattpy":
            name = PKG + name[len("lattpy"):]
    return builtins.__import__(name, globals, locals, fromlist, level)


def make_builtins():
    d = dict(vars(builtins))
    d["__import__"] = sym_import
    d["int"], d["float"] = SymInt, SymFloat
    d["isinstance"] = sym_isinstance
    d["min"], d["max"], d["round"] = sym_min, sym_max, sym_round
    return d


class _Loader(importlib.machinery.SourceFileLoader):
    def exec_module(self, module):
        module.__dict__["__builtins__"] = make_builtins()
        with open(self.path, "rb") as f:
            src = f.read()
        code = compile(src, self.path, "exec", dont_inherit=True)
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != PKG and not fullname.startswith(PKG + "."):
            return None
        rel = fullname.split(".")[1:]
        base = os.path.join(REPO, "lattpy", *rel)
        if os.path.isdir(base):
            f = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(
                fullname, f, loader=_Loader(fullname, f), submodule_search_locations=[base])
        f = base + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(fullname, f, loader=_Loader(fullname, f))
        return None


_loaded = None


def load():
    """The symbolically executable copy of lattpy."""
    global _loaded
    if _loaded is None:
        import matplotlib

        matplotlib.use("Agg")
        sys.meta_path.insert(0, _Finder())
        _loaded = importlib.import_module(PKG)
    return _loaded


# --------------------------------------------------------------------------------------
# record which functions of the library were executed symbolically
# --------------------------------------------------------------------------------------

executed = set()


def start_trace():
    mon = sys.monitoring
    root = os.path.join(REPO, "lattpy") + os.sep
    try:
        mon.use_tool_id(3, "symtrace")
    except ValueError:
        return

    def on_start(code, off):
        if code.co_filename.startswith(root):
            executed.add(f"{code.co_filename[len(root):]}:{code.co_qualname}")
        return mon.DISABLE

    mon.register_callback(3, mon.events.PY_START, on_start)
    mon.set_events(3, mon.events.PY_START)
