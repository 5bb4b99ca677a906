"""Symbolic numpy: object-storage arrays with a logical dtype, plus a numpy module proxy.

Every array the code under test sees is a ``SymArray``.  Operations whose operands are all
concrete are executed by the real numpy on real arrays of the logical dtype (so dtype
promotion, overflow and error behaviour are numpy's own); operations with symbolic elements
go through the models in this file.
"""
import cmath
import functools
import itertools
import math
import types
from fractions import Fraction

import numpy as np

from . import engine as eng
from .engine import SC, SV, Unsupported, cur, ite, mk_bool, z3

_F64 = np.dtype(np.float64)
_I64 = np.dtype(np.int64)
_B = np.dtype(bool)
_O = np.dtype(object)


def is_sv(x):
    return type(x) is SV


def norm_dtype(dt):
    """numpy dtype of a dtype specification (including the symbolic int/float classes)."""
    if dt is None:
        return None
    if isinstance(dt, type) and getattr(dt, "_sym_real", None) is not None:
        dt = dt._sym_real
    return np.dtype(dt)


def _kind(dt):
    return dt.kind


# --------------------------------------------------------------------------------------
# scalars
# --------------------------------------------------------------------------------------


def raw(x):
    """Storage form of a scalar: SV or Python number."""
    t = type(x)
    if t is SV:
        if x.k != "b":
            if x.n is not None and x.d is None and eng.p_isconst(x.n):
                return x.const_value()
        else:
            if z3.is_true(x.b):
                return True
            if z3.is_false(x.b):
                return False
        return x
    if t in (int, float, bool, complex):
        return x
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, Fraction):
        return float(x)
    if isinstance(x, (int, float, complex)):
        return x
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return raw(x[()])
    return x


def out_scalar(x, ldt):
    """Scalar handed to the code under test."""
    if type(x) is SV:
        return SC(x.with_dt(None), 0) if ldt is not None and ldt.kind == "c" else x.with_dt(ldt)
    if type(x) is SC:
        return x
    if ldt is None or ldt.kind not in "biufc":
        return x
    try:
        return ldt.type(x)
    except (OverflowError, TypeError, ValueError):
        return x


_LIM = {}
for _d in (np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64):
    _ii = np.iinfo(_d)
    _LIM[np.dtype(_d)] = (int(_ii.min), int(_ii.max))


def wrap_int(x, ldt):
    """Two's complement wrap of a symbolic integer into ldt (64-bit never wraps)."""
    lim = _LIM.get(ldt)
    if lim is None:
        return x
    lo, hi = lim
    if type(x) is not SV:
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, float):
            return x
        if lo <= x <= hi:
            return x
        m = hi - lo + 1
        return (x - lo) % m + lo
    if ldt.itemsize == 8:
        return x
    il, ih = x.interval()
    if il is not None and il >= lo and ih <= hi:
        return x
    m = hi - lo + 1
    inr = (x >= lo) & (x <= hi)
    return raw(ite(inr, x, (x - lo) % m + lo))


def cast_scalar(x, ldt):
    """C-style cast of one element to a logical dtype (as ndarray.astype)."""
    if ldt is None or ldt == _O:
        return x
    k = ldt.kind
    if type(x) is SC:
        if k == "c":
            return x
        if k == "f":
            return cast_scalar(x.re, ldt)
        raise Unsupported(f"cast of a complex number to {ldt}")
    if type(x) is not SV:
        if isinstance(x, (bool, int, float, complex)):
            if k == "b":
                return bool(x)
            if k in "iu":
                if isinstance(x, float) and (math.isinf(x) or math.isnan(x)):
                    return int(np.float64(x).astype(ldt))
                if isinstance(x, complex):
                    x = x.real
                return wrap_int(int(x), ldt)
            if k == "f":
                if isinstance(x, complex):
                    return x.real
                return float(x)
            if k == "c":
                return complex(x)
        return np.array([x], dtype=object).astype(ldt)[0].item()
    if k == "b":
        return raw(mk_bool(x._bool()))
    if k in "iu":
        if x.k == "r":
            x = eng.sv_trunc(x)
        elif x.k == "b":
            x = ite(x, 1, 0)
        return wrap_int(x, ldt)
    if k == "f":
        if x.k == "r":
            return x
        n, d = x.num()
        return SV("r", n, d)
    if k == "c":
        return x
    raise Unsupported(f"cast to {ldt}")


# --------------------------------------------------------------------------------------
# arrays
# --------------------------------------------------------------------------------------


class SymArray(np.ndarray):
    __array_priority__ = 1e5

    def __array_finalize__(self, obj):
        if obj is not None:
            self._ldt = getattr(obj, "_ldt", None)
        else:
            self._ldt = None

    # -- dtype protocol ---------------------------------------------------------------
    @property
    def dtype(self):
        return self._ldt if self._ldt is not None else _O

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.size * self.dtype.itemsize

    @property
    def T(self):
        return _mk(_plain(self).T, self._ldt)

    @property
    def flat(self):
        return iter(self.ravel())

    @property
    def real(self):
        if self._ldt is None or self._ldt.kind != "c":
            return self
        return _mk(_map1(lambda x: raw(x.re) if type(x) is SC else x.real if isinstance(x, complex) else x, _plain(self)), _F64)

    @property
    def imag(self):
        if self._ldt is None or self._ldt.kind != "c":
            return self * 0
        return _mk(_map1(lambda x: raw(x.im) if type(x) is SC else x.imag if isinstance(x, complex) else 0.0, _plain(self)), _F64)

    @property
    def base(self):
        return None

    # -- conversions ------------------------------------------------------------------
    def _el(self):
        return _plain(self)

    def item(self, *a):
        return _plain(self).item(*a)

    def tolist(self):
        return _plain(self).tolist()

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self)):
            yield self[i]

    def __bool__(self):
        if self.size == 1:
            return bool(_plain(self).reshape(-1)[0])
        if self.size == 0:
            return False
        raise ValueError(
            "The truth value of an array with more than one element is ambiguous. "
            "Use a.any() or a.all()"
        )

    def _scalar(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return _plain(self).reshape(-1)[0]

    def __int__(self):
        return int(self._scalar())

    def __float__(self):
        return float(self._scalar())

    def __complex__(self):
        return complex(self._scalar())

    def __index__(self):
        if self.ndim or self.dtype.kind not in "iu":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return int(self._scalar())

    def __round__(self, nd=None):
        return call_np(np.round, (self, nd or 0), {})

    def __contains__(self, x):
        return bool(call_np(np.any, (self == x,), {}))

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def __reduce__(self):
        return (_rebuild, (_plain(self).tolist(), self.shape, self.dtype.str))

    def __reduce_ex__(self, protocol):
        return self.__reduce__()

    def __repr__(self):
        c = collapse(self)
        return repr(c) if c is not None else f"SymArray({_plain(self).tolist()!r})"

    def __str__(self):
        c = collapse(self)
        return str(c) if c is not None else str(_plain(self).tolist())

    def __format__(self, spec):
        c = collapse(self)
        return format(c, spec) if c is not None else str(self)

    def copy(self, order="C"):
        return _mk(_plain(self).copy(), self._ldt)

    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        ldt = norm_dtype(dtype)
        c = collapse(self)
        if c is not None:
            return wrap(c.astype(ldt, casting=casting))
        if not np.can_cast(self.dtype, ldt, casting):
            raise TypeError(f"Cannot cast array data from {self.dtype!r} to {ldt!r} "
                            f"according to the rule '{casting}'")
        return _mk(_map1(lambda x: raw(cast_scalar(x, ldt)), _plain(self)), ldt)

    def fill(self, value):
        v = cast_scalar(raw(value), self._ldt)
        _plain(self).fill(v)

    # -- delegating methods -----------------------------------------------------------
    def sum(self, axis=None, dtype=None, out=None, **kw):
        return call_np(np.sum, (self,), dict(axis=axis, **kw))

    def prod(self, axis=None, **kw):
        return call_np(np.prod, (self,), dict(axis=axis, **kw))

    def max(self, axis=None, out=None, **kw):
        return call_np(np.max, (self,), dict(axis=axis, **kw))

    def min(self, axis=None, out=None, **kw):
        return call_np(np.min, (self,), dict(axis=axis, **kw))

    def mean(self, axis=None, **kw):
        return call_np(np.mean, (self,), dict(axis=axis, **kw))

    def any(self, axis=None, out=None, **kw):
        return call_np(np.any, (self,), dict(axis=axis, **kw))

    def all(self, axis=None, out=None, **kw):
        return call_np(np.all, (self,), dict(axis=axis, **kw))

    def cumsum(self, axis=None, **kw):
        return call_np(np.cumsum, (self,), dict(axis=axis))

    def argsort(self, axis=-1, kind=None, order=None):
        return call_np(np.argsort, (self,), dict(axis=axis))

    def sort(self, axis=-1, kind=None, order=None):
        self[...] = call_np(np.sort, (self,), dict(axis=axis))

    def argmax(self, axis=None, **kw):
        return call_np(np.argmax, (self,), dict(axis=axis))

    def argmin(self, axis=None, **kw):
        return call_np(np.argmin, (self,), dict(axis=axis))

    def nonzero(self):
        return call_np(np.nonzero, (self,), {})

    def round(self, decimals=0, out=None):
        return call_np(np.round, (self, decimals), {})

    def clip(self, *a, **k):
        return call_np(np.clip, (self,) + a, k)

    def dot(self, b):
        return call_np(np.dot, (self, b), {})

    def take(self, idx, axis=None, **kw):
        return call_np(np.take, (self, idx), dict(axis=axis))

    def searchsorted(self, v, side="left", sorter=None):
        return call_np(np.searchsorted, (self, v), dict(side=side))

    def repeat(self, r, axis=None):
        return call_np(np.repeat, (self, r), dict(axis=axis))

    def conj(self):
        return ufunc_call(np.conjugate, "__call__", (self,), {})

    conjugate = conj

    def ptp(self, axis=None):
        return self.max(axis) - self.min(axis)

    def std(self, axis=None, **kw):
        return call_np(np.std, (self,), dict(axis=axis, **kw))

    def var(self, axis=None, **kw):
        return call_np(np.var, (self,), dict(axis=axis, **kw))

    def cumprod(self, axis=None, **kw):
        return call_np(np.cumprod, (self,), dict(axis=axis, **kw))

    def tobytes(self, *a):
        c = collapse(self)
        if c is None:
            raise Unsupported("tobytes of symbolic array")
        return c.tobytes(*a)

    def flatten(self, order="C"):
        return _mk(_plain(self).flatten(order), self._ldt)

    def ravel(self, order="C"):
        return _mk(_plain(self).ravel(order), self._ldt)

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and not isinstance(shape[0], (int, SV)):
            shape = tuple(shape[0])
        shape = tuple(int(s) for s in shape)
        return _mk(_plain(self).reshape(shape, order=order), self._ldt)

    def transpose(self, *axes):
        return _mk(_plain(self).transpose(*axes), self._ldt)

    def squeeze(self, axis=None):
        return _mk(_plain(self).squeeze(axis), self._ldt)

    def swapaxes(self, a, b):
        return _mk(_plain(self).swapaxes(a, b), self._ldt)

    def view(self, *a, **k):
        if not a and not k:
            return _mk(_plain(self), self._ldt)
        raise Unsupported("ndarray.view")

    # -- numpy protocols --------------------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return ufunc_call(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return call_np(func, args, kwargs)

    # -- comparison of arrays with None / str ------------------------------------------
    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return full_like_bool(self, False)
        return ufunc_call(np.equal, "__call__", (self, o), {})

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return full_like_bool(self, True)
        return ufunc_call(np.not_equal, "__call__", (self, o), {})

    __hash__ = None

    # -- indexing -----------------------------------------------------------------------
    def __getitem__(self, idx):
        return getitem(self, idx)

    def __setitem__(self, idx, val):
        setitem(self, idx, val)


def _rebuild(lst, shape, dt):
    a = np.empty(shape, dtype=object)
    flat = a.reshape(-1)

    def leaves(x):
        if isinstance(x, list):
            for y in x:
                yield from leaves(y)
        else:
            yield x

    for i, x in enumerate(leaves(lst)):
        flat[i] = x
    return _mk(a, np.dtype(dt))


def _plain(a):
    """Object ndarray sharing storage with a SymArray."""
    return np.ndarray.view(a, np.ndarray)


def _mk(obj, ldt):
    if not isinstance(obj, np.ndarray):
        t = np.empty((), dtype=object)
        t[()] = obj
        obj = t
    r = np.ndarray.view(obj, SymArray)
    r._ldt = ldt
    return r


def _map1(f, a):
    out = np.empty(a.shape, dtype=object)
    fo, fi = out.reshape(-1), a.reshape(-1)
    for i in range(fi.shape[0]):
        fo[i] = f(fi[i])
    return out


def wrap(a):
    """Real numpy value -> SymArray / scalar (recursively through tuples/lists)."""
    if isinstance(a, SymArray) or type(a) is SV:
        return a
    if isinstance(a, np.ndarray):
        if a.dtype == _O:
            if a.size and all(isinstance(x, (SV, int, float, bool, complex, np.generic))
                              for x in a.reshape(-1)):
                return arr_from_obj(a)
            return a
        if a.dtype.kind in "biufc":
            return _mk(a.astype(object), a.dtype)
        return a
    if isinstance(a, tuple):
        if hasattr(a, "_fields"):
            return type(a)(*(wrap(x) for x in a))
        return tuple(wrap(x) for x in a)
    if isinstance(a, list):
        return [wrap(x) for x in a]
    return a


def has_sym(a):
    for x in _plain(a).reshape(-1):
        if type(x) is SV or type(x) is SC:
            return True
    return False


def collapse(a):
    """Real ndarray of the logical dtype, or None if some element is symbolic."""
    if type(a) is MaskSel:
        a = a.realize()
    p = _plain(a)
    fl = p.reshape(-1)
    for i in range(fl.shape[0]):
        x = fl[i]
        if type(x) is SC:
            return None
        if type(x) is SV:
            y = raw(x)
            if type(y) is SV:
                return None
            fl[i] = y
    ldt = a._ldt
    if ldt is None or ldt == _O:
        return p
    try:
        return p.astype(ldt)
    except OverflowError:
        return np.array([cast_scalar(x, ldt) for x in p.reshape(-1)], dtype=ldt).reshape(p.shape)


def _scalar_dt(x):
    if type(x) is SV or type(x) is SC:
        return x.dtype
    if isinstance(x, np.generic):
        return x.dtype
    if isinstance(x, bool):
        return _B
    if isinstance(x, int):
        return _I64 if -(2**63) <= x < 2**63 else np.asarray(x).dtype
    if isinstance(x, float):
        return _F64
    if isinstance(x, complex):
        return np.dtype(complex)
    return None


def arr_from_obj(a, ldt=None):
    if ldt is None:
        dts = []
        for x in a.reshape(-1):
            d = _scalar_dt(x)
            if d is None:
                return a
            dts.append(d)
        ldt = np.result_type(*dts) if dts else _F64
    return _mk(_map1(lambda x: raw(cast_scalar(raw(x), ldt)), a), ldt)


def arr(x, dtype=None, ndmin=0, copy=True):
    """np.array for (nested) symbolic data."""
    ldt = norm_dtype(dtype)
    if type(x) is MaskSel:
        x = x.realize()
    if isinstance(x, SymArray):
        r = x if ldt is None or ldt == x.dtype else x.astype(ldt)
        if copy and r is x:
            r = x.copy()
        while r.ndim < ndmin:
            r = r[np.newaxis]
        return r
    if isinstance(x, np.ndarray):
        r = wrap(np.array(x, dtype=ldt, ndmin=ndmin))
        return r
    if type(x) is SV:
        o = np.empty((), dtype=object)
        o[()] = raw(x)
        d = ldt or x.dtype
        r = _mk(o, x.dtype)
        r = r.astype(d) if d != x.dtype else r
        while r.ndim < ndmin:
            r = r[np.newaxis]
        return r
    if isinstance(x, (list, tuple, range)) or (
        hasattr(x, "__iter__") and hasattr(x, "__len__") and not isinstance(x, (str, bytes, dict, set))
    ):
        if not _contains_sym(x):
            return wrap(np.array(_real(x), dtype=ldt, ndmin=ndmin))
        leaves, dts = [], []

        def shape_of(v):
            if type(v) is MaskSel:
                v = v.realize()
            if isinstance(v, np.ndarray):
                if isinstance(v, SymArray):
                    dts.append(v.dtype)
                    leaves.extend(_plain(v).reshape(-1).tolist())
                else:
                    dts.append(v.dtype)
                    leaves.extend(v.reshape(-1).tolist())
                return v.shape
            if isinstance(v, (list, tuple, range)):
                if not len(v):
                    return (0,)
                shapes = [shape_of(y) for y in v]
                if any(s != shapes[0] for s in shapes):
                    raise ValueError(
                        "setting an array element with a sequence. The requested array has an "
                        "inhomogeneous shape after 1 dimensions."
                    )
                return (len(v),) + shapes[0]
            d = _scalar_dt(v)
            if d is None:
                raise Unsupported(f"array of {type(v).__name__}")
            dts.append(d)
            leaves.append(v)
            return ()

        shp = shape_of(list(x))
        d = ldt or (np.result_type(*dts) if dts else _F64)
        a = np.empty(len(leaves), dtype=object)
        for i, v in enumerate(leaves):
            a[i] = raw(cast_scalar(raw(v), d))
        r = _mk(a.reshape(shp), d)
        while r.ndim < ndmin:
            r = r[np.newaxis]
        return r
    return wrap(np.array(x, dtype=ldt, ndmin=ndmin))


def _contains_sym(x):
    """Does a nested structure contain a genuinely symbolic element?"""
    t = type(x)
    if t is SV:
        return type(raw(x)) is SV
    if t is MaskSel or t is SC:
        return True
    if isinstance(x, SymArray):
        return collapse(x) is None
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(_contains_sym(y) for y in x)
    if isinstance(x, slice):
        return _contains_sym(x.start) or _contains_sym(x.stop) or _contains_sym(x.step)
    if isinstance(x, dict):
        return any(_contains_sym(y) for y in x.values())
    return False


def _real(x):
    """Replace concrete symbolic containers by real numpy objects."""
    t = type(x)
    if t is SV:
        v = raw(x)
        if type(v) is SV:
            raise Unsupported("symbolic scalar where a concrete one is needed")
        return out_scalar(v, x.dt) if x.dt is not None else v
    if t is MaskSel:
        x = x.realize()
    if isinstance(x, SymArray):
        c = collapse(x)
        if c is None:
            raise Unsupported("symbolic array where a concrete one is needed")
        return c
    if isinstance(x, tuple):
        return tuple(_real(y) for y in x) if not hasattr(x, "_fields") else type(x)(*map(_real, x))
    if isinstance(x, list):
        return [_real(y) for y in x]
    if isinstance(x, slice):
        return slice(_real(x.start), _real(x.stop), _real(x.step))
    if isinstance(x, dict):
        return {k: _real(v) for k, v in x.items()}
    if isinstance(x, type) and getattr(x, "_sym_real", None) is not None:
        return x._sym_real
    return x


def full_like_bool(a, v):
    o = np.empty(a.shape, dtype=object)
    o.fill(v)
    return _mk(o, _B)


# --------------------------------------------------------------------------------------
# indexing
# --------------------------------------------------------------------------------------


class MaskSel:
    """Lazy ``a[mask]`` with a symbolic mask (realised by forking when needed)."""

    __array_priority__ = 2e5

    def __init__(self, vals, mask, tail=()):
        self.vals = vals  # SymArray, shape == mask.shape + tail
        self.mask = mask  # object ndarray of bool / SV
        self._r = None

    def realize(self):
        if self._r is None:
            m = force_mask(self.mask)
            self._r = _mk(_plain(self.vals)[m], self.vals._ldt)
        return self._r

    @property
    def dtype(self):
        return self.vals.dtype

    def _op(self, ufunc, o, rev=False):
        def val(x):
            if type(x) is MaskSel:
                if same_mask(x.mask, self.mask):
                    return x.vals
                return None
            if type(x) is SV or not hasattr(x, "__len__"):
                return x
            return None

        ov = val(o)
        if ov is None or self._r is not None:
            a, b = self.realize(), (o.realize() if type(o) is MaskSel else o)
            return ufunc_call(ufunc, "__call__", (b, a) if rev else (a, b), {})
        args = (ov, self.vals) if rev else (self.vals, ov)
        return MaskSel(ufunc_call(ufunc, "__call__", args, {}), self.mask)

    def _iop(self, ufunc, o):
        r = self._op(ufunc, o)
        if r.dtype != self.dtype:
            if not np.can_cast(r.dtype, self.dtype, "same_kind"):
                raise np.core._exceptions._UFuncOutputCastingError(
                    ufunc, "same_kind", r.dtype, self.dtype, 0)
            r = r.astype(self.dtype)
        return r

    def astype(self, dt, **k):
        if self._r is None:
            return MaskSel(self.vals.astype(dt), self.mask)
        return self._r.astype(dt)

    def __neg__(self):
        if self._r is None:
            return MaskSel(-self.vals, self.mask)
        return -self._r

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return ufunc_call(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types_, args, kwargs):
        return call_np(func, args, kwargs)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.realize(), name)

    def __len__(self):
        return len(self.realize())

    def __iter__(self):
        return iter(self.realize())

    def __getitem__(self, i):
        return self.realize()[i]

    def __setitem__(self, i, v):
        self.realize()[i] = v

    def __contains__(self, x):
        return x in self.realize()

    def __bool__(self):
        return bool(self.realize())

    def __repr__(self):
        return "<MaskSel>"


def _add_ops(cls):
    table = {
        "add": np.add, "sub": np.subtract, "mul": np.multiply, "truediv": np.true_divide,
        "floordiv": np.floor_divide, "mod": np.remainder, "and": np.bitwise_and,
        "or": np.bitwise_or, "xor": np.bitwise_xor, "pow": np.power,
    }
    for n, u in table.items():
        setattr(cls, f"__{n}__", lambda s, o, u=u: s._op(u, o))
        setattr(cls, f"__r{n}__", lambda s, o, u=u: s._op(u, o, True))
        setattr(cls, f"__i{n}__", lambda s, o, u=u: s._iop(u, o))
    for n, u in {"lt": np.less, "le": np.less_equal, "gt": np.greater, "ge": np.greater_equal,
                 "eq": np.equal, "ne": np.not_equal}.items():
        setattr(cls, f"__{n}__", lambda s, o, u=u: s._op(u, o))
    cls.__hash__ = None


_add_ops(MaskSel)


def same_mask(a, b):
    if a is b:
        return True
    if a.shape != b.shape:
        return False
    for x, y in zip(a.reshape(-1), b.reshape(-1)):
        if x is y:
            continue
        if type(x) is SV and type(y) is SV:
            if not x.b.eq(y.b):
                return False
        elif type(x) is SV or type(y) is SV or bool(x) != bool(y):
            return False
    return True


def force_mask(m):
    """Concrete bool array by forking on each symbolic entry."""
    out = np.empty(m.shape, dtype=bool)
    fo, fi = out.reshape(-1), m.reshape(-1)
    for i in range(fi.shape[0]):
        fo[i] = bool(fi[i])
    return out.reshape(m.shape)


def _prep_index(idx):
    """Normalise an index; returns (tuple, has_symbolic_mask, has_symbolic_int)."""
    if not isinstance(idx, tuple):
        idx = (idx,)
    out, smask, sint = [], False, False
    for i in idx:
        if type(i) is MaskSel:
            i = i.realize()
        if type(i) is SV:
            v = raw(i)
            if type(v) is SV:
                if v.k == "b":
                    v = bool(v)
                elif v.k == "r":
                    raise IndexError("only integers, slices (`:`), ellipsis (`...`), "
                                     "numpy.newaxis (`None`) and integer or boolean arrays "
                                     "are valid indices")
                else:
                    sint = True
            i = v
        elif isinstance(i, SymArray):
            c = collapse(i)
            if c is not None:
                i = c
            elif i.dtype.kind == "b":
                smask = True
            elif i.dtype.kind in "iu":
                sint = True
            else:
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
        elif isinstance(i, slice):
            i = slice(*(None if s is None else int(s) for s in (i.start, i.stop, i.step)))
        elif isinstance(i, (list, tuple)):
            a = arr(list(i)) if len(i) else np.array([], dtype=int)
            c = collapse(a) if isinstance(a, SymArray) else a
            if c is not None:
                i = c
            else:
                i = a
                if a.dtype.kind == "b":
                    smask = True
                else:
                    sint = True
        elif isinstance(i, np.generic):
            i = i.item() if i.dtype.kind != "b" else bool(i)
        if isinstance(i, np.ndarray) and not isinstance(i, SymArray) and i.dtype.kind == "f":
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        if isinstance(i, float):
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis "
                             "(`None`) and integer or boolean arrays are valid indices")
        out.append(i)
    return tuple(out), smask, sint


def _ret(x, ldt):
    if isinstance(x, np.ndarray) and x.dtype == _O:
        return _mk(x, ldt)
    return out_scalar(x, ldt)


def getitem(a, idx):
    t, smask, sint = _prep_index(idx)
    p = _plain(a)
    if smask:
        if len(t) == 1 and t[0].shape == a.shape and cur().mask_mode == "ite":
            return MaskSel(_mk(p.copy(), a._ldt), _plain(t[0]).copy())
        t = tuple(force_mask(_plain(i)) if isinstance(i, SymArray) and i.dtype.kind == "b" else i
                  for i in t)
    if sint:
        return _gather(a, t)
    return _ret(p[t], a._ldt)


def _expand_idx(a, t):
    """Expand Ellipsis; boolean arrays -> integer arrays."""
    out = []
    n_used = sum(
        (i.ndim if isinstance(i, np.ndarray) and not isinstance(i, SymArray) and i.dtype == bool else 1)
        for i in t if i is not None and i is not Ellipsis
    )
    for i in t:
        if i is Ellipsis:
            out.extend([slice(None)] * (a.ndim - n_used))
        elif isinstance(i, np.ndarray) and not isinstance(i, SymArray) and i.dtype == bool:
            out.extend(np.nonzero(i))
        else:
            out.append(i)
    return out


def _gather(a, t):
    p = _plain(a)
    t = _expand_idx(a, t)
    if any(i is None for i in t):
        raise Unsupported("newaxis with symbolic index")
    while len(t) < a.ndim:
        t.append(slice(None))
    adv = [k for k, i in enumerate(t) if not isinstance(i, slice)]
    if adv != list(range(adv[0], adv[-1] + 1)):
        raise Unsupported("separated advanced indices with symbolic index")
    pre, post = t[: adv[0]], t[adv[-1] + 1:]
    idxs = []
    for k in adv:
        i = t[k]
        n = a.shape[k]
        if isinstance(i, SymArray):
            o = _plain(i)
        elif isinstance(i, np.ndarray):
            o = i.astype(object)
        else:
            o = np.empty((), dtype=object)
            o[()] = i
        idxs.append((o, n))
    shp = np.broadcast_shapes(*(o.shape for o, _ in idxs))
    idxs = [(np.broadcast_to(o, shp), n) for o, n in idxs]
    sub = p[tuple(pre) + tuple(slice(None) for _ in adv) + tuple(post)]
    # move the advanced axes to the front
    npre = len(pre)
    sub = np.moveaxis(sub, list(range(npre, npre + len(adv))), list(range(len(adv))))
    rest = sub.shape[len(adv):]
    res = np.empty(shp + rest, dtype=object)
    for b in np.ndindex(*shp):
        cells = [((), None)]
        pos = [o[b] for o, _ in idxs]
        cands = []
        for v, (_, n) in zip(pos, idxs):
            cands.append(_index_cands(v, n))
        # select by nested ite
        res[b] = _select(sub, cands, rest)
    if npre:
        res = np.moveaxis(res, list(range(len(shp), len(shp) + npre)), list(range(npre)))
    if res.shape == ():
        return out_scalar(res[()], a._ldt)
    return _mk(res, a._ldt)


def _index_cands(v, n):
    """[(position, condition or None)] for one index component (bounds checked)."""
    if type(v) is not SV:
        if not -n <= v < n:
            raise IndexError(f"index {v} is out of bounds for axis with size {n}")
        return [(v % n if n else 0, None)]
    inb = (v >= -n) & (v < n)
    if not bool(inb):
        raise IndexError("symbolic index is out of bounds")
    vals = eng.sv_vals(v)
    lo, hi = v.interval()
    out = []
    for k in range(-n, n):
        if vals is not None and Fraction(k) not in vals:
            continue
        if vals is None and lo is not None and not lo <= k <= hi:
            continue
        c = v == k
        b = z3.simplify(c.b) if type(c) is SV else z3.BoolVal(bool(c))
        if z3.is_false(b):
            continue
        out.append((k % n, mk_bool(b)))
    if not out:
        raise eng.PathAbort("no index candidate")
    return out


def _select(sub, cands, rest):
    if not cands:
        return sub if rest or not isinstance(sub, np.ndarray) else sub[()]
    head, tail = cands[0], cands[1:]
    res = None
    for k, c in reversed(head):
        v = _select(sub[k], tail, rest)
        if res is None:
            res = v
        else:
            res = _ite_any(c, v, res)
    return res


def _ite_any(c, a, b):
    if isinstance(a, np.ndarray):
        out = np.empty(a.shape, dtype=object)
        fo, fa, fb = out.reshape(-1), a.reshape(-1), b.reshape(-1)
        for i in range(fo.shape[0]):
            fo[i] = raw(ite(c, fa[i], fb[i]))
        return out
    return raw(ite(c, a, b))


def setitem(a, idx, val):
    t, smask, sint = _prep_index(idx)
    p = _plain(a)
    ldt = a._ldt

    def cv(x):
        return raw(cast_scalar(raw(x), ldt))

    if smask:
        m = None
        if len(t) == 1 and cur().mask_mode == "ite":
            m = _plain(t[0])
        if m is not None and m.shape == a.shape[: m.ndim]:
            if type(val) is MaskSel and not same_mask(val.mask, m):
                val = val.realize()
            if type(val) is MaskSel:
                vals = _plain(val.vals)
                for i in np.ndindex(*m.shape):
                    p[i] = _ite_any(m[i], _cast_el(vals[i], cv), p[i]) if type(m[i]) is SV else (
                        _cast_el(vals[i], cv) if m[i] else p[i])
                return
            va = val if isinstance(val, SymArray) else arr(val)
            if va.ndim == 0 or (va.ndim <= a.ndim - m.ndim):
                for i in np.ndindex(*m.shape):
                    c = m[i]
                    if type(c) is not SV:
                        if c:
                            p[i] = _cast_el(_bc(va, p[i]), cv)
                        continue
                    p[i] = _ite_any(c, _cast_el(_bc(va, p[i]), cv), p[i])
                return
        t = tuple(force_mask(_plain(i)) if isinstance(i, SymArray) and i.dtype.kind == "b" else i
                  for i in t)
    if sint:
        t = tuple(_force_int(i) for i in t)
    if type(val) is MaskSel:
        val = val.realize()
    if isinstance(val, np.ndarray) or isinstance(val, (list, tuple)) or type(val).__name__ == "range":
        va = arr(val) if not isinstance(val, SymArray) else val
        if ldt is not None and va.dtype.kind == "c" and ldt.kind != "c":
            raise Unsupported("complex assigned to real array")
        src = _map1(cv, _plain(va)) if va.dtype != ldt else _plain(va)
        p[t] = src if src.ndim else src[()]
    else:
        if isinstance(val, float) and ldt is not None and ldt.kind in "iu" and (
                math.isnan(val) or math.isinf(val)):
            raise OverflowError("cannot convert float infinity to integer")
        p[t] = cv(val)


def _cast_el(x, cv):
    if isinstance(x, np.ndarray):
        return _map1(cv, x)
    return cv(x)


def _bc(va, cell):
    v = _plain(va)
    if isinstance(cell, np.ndarray):
        return np.broadcast_to(v, cell.shape)
    return v.reshape(-1)[0] if v.size == 1 else v[()]


def _force_int(i):
    if type(i) is SV:
        return int(i)
    if isinstance(i, SymArray):
        return np.array([int(x) for x in _plain(i).reshape(-1)], dtype=np.int64).reshape(i.shape)
    return i


# --------------------------------------------------------------------------------------
# ufuncs
# --------------------------------------------------------------------------------------


def _isinf(x):
    return isinstance(x, float) and math.isinf(x)


def _f_add(a, b):
    if _isinf(a):
        return a
    if _isinf(b):
        return b
    return a + b


def _f_sub(a, b):
    if _isinf(a):
        return a
    if _isinf(b):
        return -b
    return a - b


def _f_div(a, b):
    if type(b) is not SV:
        if b == 0:
            if type(a) is SV:
                raise Unsupported("symbolic value divided by zero")
            with np.errstate(all="ignore"):
                return float(np.float64(a) / np.float64(b))
        if _isinf(b):
            return 0.0
    if _isinf(a):
        raise Unsupported("inf divided by symbolic")
    return a / b


def _f_max(a, b):
    if type(a) is not SV and type(b) is not SV:
        return max(a, b)
    return ite(a >= b, a, b)


def _f_min(a, b):
    if type(a) is not SV and type(b) is not SV:
        return min(a, b)
    return ite(a <= b, a, b)


def _tb(x):
    return mk_bool(x._bool()) if type(x) is SV else bool(x)


def _f_and(a, b):
    a, b = _tb(a), _tb(b)
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return a & b


def _f_or(a, b):
    a, b = _tb(a), _tb(b)
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return a | b


def _f_not(a):
    a = _tb(a)
    return ~a if type(a) is SV else not a


def _f_xor(a, b):
    a, b = _tb(a), _tb(b)
    return a ^ b


def _f_band(a, b):
    ba = isinstance(a, bool) or (type(a) is SV and a.k == "b")
    bb = isinstance(b, bool) or (type(b) is SV and b.k == "b")
    if ba and bb:
        return _f_and(a, b)
    return a & b


def _f_bor(a, b):
    ba = isinstance(a, bool) or (type(a) is SV and a.k == "b")
    bb = isinstance(b, bool) or (type(b) is SV and b.k == "b")
    if ba and bb:
        return _f_or(a, b)
    return a | b


def _f_inv(a):
    if isinstance(a, bool) or (type(a) is SV and a.k == "b"):
        return _f_not(a)
    return ~a


def _f_isfinite(x):
    if type(x) is not SV:
        return math.isfinite(x)
    v = eng.sv_vals(x)
    if v is not None and all(abs(q) < eng.INF for q in v):
        return True
    if x.sq is not None and x.n is None:
        lo, hi = eng.p_interval(x.sq)
        if hi is not None and hi < eng.INF:
            return True
        return x < math.inf
    lo, hi = x.interval()
    if lo is not None and hi < eng.INF and lo > -eng.INF:
        return True
    if v is None and lo is None and not _has_inf(x):
        return True
    return abs(x) < math.inf


def _has_inf(x):
    """Could the symbolic real be the INF marker?  Only through If-terms."""
    for p in (x.n, x.d):
        if p is None:
            continue
        for m in p:
            for a, _ in m:
                if z3.is_app_of(eng._ATOMS[a][0], z3.Z3_OP_ITE):
                    return True
                ex = eng._ATOMS[a][0]
                if ex.num_args():
                    return True
    return False


def _f_isinf(x):
    r = _f_isfinite(x)
    return ~r if type(r) is SV else not r


def _f_sqrt(x):
    if type(x) is not SV:
        return math.sqrt(x) if x >= 0 else math.nan
    return eng.sv_sqrt(x)


def _f_floor(x):
    if type(x) is SV:
        r = eng.sv_floor(x)
        return SV("r", *r.num())
    return float(math.floor(x)) if math.isfinite(x) else x


def _f_ceil(x):
    if type(x) is SV:
        r = eng.sv_ceil(x)
        return SV("r", *r.num())
    return float(math.ceil(x)) if math.isfinite(x) else x


def _f_rint(x):
    if type(x) is SV:
        r = eng.sv_rint(x)
        return SV("r", *r.num())
    return float(np.rint(x))


def _f_trunc(x):
    if type(x) is SV:
        r = eng.sv_trunc(x)
        return SV("r", *r.num())
    return float(np.trunc(x))


def _f_sin(x):
    return cur().trig(x)[1] if type(x) is SV else math.sin(x)


def _f_cos(x):
    return cur().trig(x)[0] if type(x) is SV else math.cos(x)


def _f_sign(x):
    if type(x) is not SV:
        return (x > 0) - (x < 0)
    return ite(x > 0, 1, ite(x < 0, -1, 0))


def _f_square(x):
    return x * x if type(x) is not SV else x ** 2


def _f_mul(a, b):
    if (_isinf(a) and type(b) is SV) or (_isinf(b) and type(a) is SV):
        i, s = (a, b) if _isinf(a) else (b, a)
        if bool(s > 0):
            return i
        if bool(s < 0):
            return -i
        return math.nan
    return a * b


def _f_pow(a, b):
    return a ** b


def _f_fdiv(a, b):
    if type(a) is not SV and type(b) is not SV:
        return a // b
    if type(b) is not SV and b == 0:
        raise Unsupported("symbolic floor division by zero")
    return a // b


def _f_mod(a, b):
    if type(b) is not SV and b == 0:
        raise Unsupported("symbolic modulo zero")
    return a % b


def _f_hypot(a, b):
    return _f_sqrt(a * a + b * b)


def _f_exp(x):
    if type(x) is SC:
        return x.exp()
    if type(x) is SV:
        raise Unsupported("exponential of a symbolic number")
    return cmath.exp(x) if isinstance(x, complex) else math.exp(x)


def _f_fmod(a, b):
    if type(a) is not SV and type(b) is not SV:
        return math.fmod(a, b) if b else math.nan
    if type(b) is not SV and b == 0:
        raise Unsupported("symbolic modulo zero")
    r = abs(a) % abs(b)
    return ite(a < 0, -r, r)


def _f_heaviside(x, h):
    if type(x) is not SV:
        return float(x > 0) if x else h
    return ite(x > 0, 1.0, ite(x < 0, 0.0, h))


UF = {
    np.add: _f_add, np.subtract: _f_sub, np.multiply: _f_mul, np.true_divide: _f_div,
    np.floor_divide: _f_fdiv, np.remainder: _f_mod, np.power: _f_pow, np.float_power: _f_pow,
    np.negative: lambda a: -a, np.positive: lambda a: a, np.absolute: abs, np.fabs: abs,
    np.equal: lambda a, b: a == b, np.not_equal: lambda a, b: a != b,
    np.less: lambda a, b: a < b, np.less_equal: lambda a, b: a <= b,
    np.greater: lambda a, b: a > b, np.greater_equal: lambda a, b: a >= b,
    np.logical_and: _f_and, np.logical_or: _f_or, np.logical_not: _f_not,
    np.logical_xor: _f_xor, np.bitwise_and: _f_band, np.bitwise_or: _f_bor,
    np.bitwise_xor: _f_xor, np.invert: _f_inv,
    np.maximum: _f_max, np.minimum: _f_min, np.fmax: _f_max, np.fmin: _f_min,
    np.sqrt: _f_sqrt, np.square: _f_square, np.floor: _f_floor, np.ceil: _f_ceil,
    np.rint: _f_rint, np.trunc: _f_trunc, np.sin: _f_sin, np.cos: _f_cos, np.sign: _f_sign,
    np.isfinite: _f_isfinite, np.isinf: _f_isinf, np.isnan: lambda x: (
        False if type(x) is SV else math.isnan(x)),
    np.deg2rad: lambda x: x * (math.pi / 180), np.radians: lambda x: x * (math.pi / 180),
    np.rad2deg: lambda x: x * (180 / math.pi), np.degrees: lambda x: x * (180 / math.pi),
    np.fmod: _f_fmod, np.heaviside: _f_heaviside, np.left_shift: lambda a, b: a * 2 ** b,
    np.right_shift: lambda a, b: a // 2 ** b,
    np.exp: _f_exp, np.conjugate: lambda x: x.conjugate() if type(x) is SC else x, np.hypot: _f_hypot, np.reciprocal: lambda x: 1 / x,
}
_IDENT = {np.add: 0, np.multiply: 1, np.logical_and: True, np.logical_or: False,
          np.bitwise_or: 0, np.bitwise_and: -1}


def _dummy(x):
    """Small real operand with the promotion behaviour of x."""
    if isinstance(x, SymArray):
        if x.ndim == 0:
            v = _plain(x)[()]
            return _dummy_scalar(v, x.dtype)
        return np.ones((1,) * 1, dtype=x.dtype)
    if isinstance(x, np.ndarray):
        return np.ones((1,), dtype=x.dtype) if x.ndim else x
    if type(x) is SV:
        return _dummy_scalar(x, x.dt)
    if type(x) is SC:
        return complex(1, 1)
    return x


def _dummy_scalar(v, dt):
    if type(v) is SC:
        return complex(1, 1)
    if type(v) is not SV:
        return out_scalar(v, dt) if dt is not None else v
    if dt is not None and dt.kind == "c":
        return complex(1, 1)
    k = {"b": bool, "i": int, "r": float}[v.k]
    val = 1
    if k is int:
        lo, hi = v.interval()
        if lo is not None:
            val = hi if abs(hi) >= abs(lo) else lo
            val = int(val)
            if not -(2**62) < val < 2**62:
                val = 1
            if val == 0 and lo < 0:
                val = lo
    r = k(val)
    if dt is not None:
        try:
            return dt.type(r)
        except OverflowError:
            return dt.type(1)
    return r


def _norm_in(x):
    if type(x) is MaskSel:
        return x.realize()
    if isinstance(x, (list, tuple, range)):
        return arr(x)
    if isinstance(x, np.ndarray) and not isinstance(x, SymArray):
        return wrap(x)
    return x


def _elt(x):
    if isinstance(x, SymArray):
        return _plain(x)
    o = np.empty((), dtype=object)
    o[()] = raw(x)
    return o


def ufunc_call(ufunc, method, inputs, kwargs):
    kwargs = dict(kwargs)
    out = kwargs.pop("out", None)
    if out is not None:
        out = out[0] if isinstance(out, tuple) else out
        if type(out) is MaskSel:
            raise Unsupported("out=MaskSel")
    kwargs.pop("casting", None)
    kwargs.pop("order", None)
    kwargs.pop("subok", None)
    dtype = norm_dtype(kwargs.pop("dtype", None))
    if method == "__call__" and out is None and any(type(i) is MaskSel for i in inputs) \
            and len(inputs) == 2 and "where" not in kwargs:
        a, b = inputs
        return a._op(ufunc, b) if type(a) is MaskSel else b._op(ufunc, a, True)
    inputs = tuple(_norm_in(x) for x in inputs)
    where = kwargs.pop("where", True)
    if where is not True:
        if method == "reduce" and (ufunc in _IDENT or "initial" in kwargs):
            inputs = (_masked(inputs[0], where, kwargs.get("initial", _IDENT.get(ufunc))),)
        elif method == "__call__" and isinstance(out, SymArray) and ufunc.nout == 1:
            r = A(ufunc_call(ufunc, "__call__", inputs, {} if dtype is None else {"dtype": dtype}))
            if not np.can_cast(r.dtype, out.dtype, "same_kind"):
                raise Unsupported("ufunc where=, casting")
            setitem(out, Ellipsis, A(_h_where(where, r, out)).astype(out.dtype))
            return out
        else:
            raise Unsupported("ufunc where=")
    if method == "reduce":
        res = _reduce(ufunc, inputs[0], kwargs.get("axis", 0), kwargs.get("keepdims", False), dtype,
                      kwargs.get("initial", np._NoValue))
    elif method == "outer":
        a, b = (x if isinstance(x, SymArray) else arr(x) for x in inputs)
        res = ufunc_call(ufunc, "__call__",
                         (a.reshape(a.shape + (1,) * b.ndim), b), {})
    elif method == "accumulate":
        res = _accumulate(ufunc, inputs[0], kwargs.get("axis", 0))
    elif method == "at":
        a, idx = inputs[0], inputs[1]
        val = inputs[2] if len(inputs) > 2 else None
        _ufunc_at(ufunc, a, idx, val)
        return None
    elif method == "__call__":
        if ufunc is np.matmul:
            res = matmul(*inputs)
        else:
            res = _call_elem(ufunc, inputs, dtype)
    else:
        raise Unsupported(f"ufunc method {method}")
    if out is not None:
        if not isinstance(out, SymArray):
            raise Unsupported("out is a plain array")
        rdt = res.dtype
        if not np.can_cast(rdt, out.dtype, "same_kind"):
            raise np.core._exceptions._UFuncOutputCastingError(
                ufunc, "same_kind", rdt, out.dtype, 0)
        rr = res if isinstance(res, SymArray) else arr(res)
        if np.broadcast_shapes(rr.shape, out.shape) != out.shape:
            raise ValueError(f"non-broadcastable output operand with shape {out.shape} doesn't "
                             f"match the broadcast shape {rr.shape}")
        setitem(out, Ellipsis, rr)
        return out
    return res


def _call_elem(ufunc, inputs, dtype=None):
    if not any(_contains_sym(x) for x in inputs):
        kw = {} if dtype is None else {"dtype": dtype}
        with np.errstate(all="ignore"):
            return wrap(ufunc(*(_real(x) for x in inputs), **kw))
    f = UF.get(ufunc)
    if f is None:
        if ufunc is np.divmod:
            return (_call_elem(np.floor_divide, inputs, dtype), _call_elem(np.remainder, inputs, dtype))
        if ufunc is np.modf:
            t = _call_elem(np.trunc, inputs, dtype)
            return (inputs[0] - t, t)
        if ufunc.nout > 1:
            raise Unsupported(f"ufunc {ufunc.__name__}")
        raise Unsupported(f"ufunc {ufunc.__name__} on symbolic data")
    for x in inputs:
        if not isinstance(x, (SymArray, SV, SC, int, float, complex, np.generic)):
            return NotImplemented
    with np.errstate(all="ignore"):
        try:
            d = ufunc(*(_dummy(x) for x in inputs))
        except TypeError:
            raise
    ldt = dtype or d.dtype
    els = [_elt(x) for x in inputs]
    shp = np.broadcast_shapes(*(e.shape for e in els))
    els = [np.broadcast_to(e, shp) for e in els]
    res = np.empty(shp, dtype=object)
    it = [e.reshape(-1) for e in els]
    fr = res.reshape(-1)
    narrow = ldt.kind in "iu"
    toflt = ldt.kind == "f"
    for k in range(fr.shape[0]):
        v = raw(f(*(e[k] for e in it)))
        if narrow:
            v = cast_scalar(v, ldt) if not isinstance(v, (bool, SV)) or True else v
        elif toflt or (ldt.kind == "c" and type(v) is not SC):
            v = cast_scalar(v, ldt)
        fr[k] = v
    res = fr.reshape(shp)
    if shp == () :
        return out_scalar(res[()], ldt)
    return _mk(res, ldt)


def _reduce(ufunc, a, axis, keepdims, dtype, initial=np._NoValue):
    if not isinstance(a, SymArray):
        a = arr(a)
    c = collapse(a)
    if c is not None:
        kw = {} if initial is np._NoValue else {"initial": _real(initial)}
        with np.errstate(all="ignore"):
            return wrap(ufunc.reduce(c, axis=_real(axis) if axis is not None else None,
                                     keepdims=keepdims, dtype=dtype, **kw))
    f = UF.get(ufunc)
    if f is None:
        raise Unsupported(f"reduce {ufunc.__name__}")
    with np.errstate(all="ignore"):
        ldt = dtype or ufunc.reduce(np.ones(1, dtype=a.dtype)).dtype
    p = _plain(a)
    if axis is None:
        axes = tuple(range(p.ndim))
    elif isinstance(axis, tuple):
        axes = tuple(int(x) % p.ndim for x in axis)
    else:
        axes = (int(axis) % p.ndim,)
    keep = [i for i in range(p.ndim) if i not in axes]
    q = np.transpose(p, keep + list(axes)).reshape(
        [p.shape[i] for i in keep] + [int(np.prod([p.shape[i] for i in axes], dtype=int))])
    res = np.empty(q.shape[:-1], dtype=object)
    for b in np.ndindex(*q.shape[:-1]):
        row = q[b]
        vals = list(row)
        if initial is not np._NoValue:
            vals.insert(0, raw(initial))
        if not vals:
            if ufunc not in _IDENT:
                raise ValueError(f"zero-size array to reduction operation {ufunc.__name__} "
                                 "which has no identity")
            acc = _IDENT[ufunc]
        elif ufunc in (np.logical_and, np.logical_or):
            acc = _bool_reduce(vals, ufunc is np.logical_and)
        else:
            acc = vals[0]
            for v in vals[1:]:
                acc = f(acc, v)
        res[b] = raw(cast_scalar(raw(acc), ldt))
    if keepdims:
        res = res.reshape([1 if i in axes else p.shape[i] for i in range(p.ndim)])
    if res.shape == ():
        return out_scalar(res[()], ldt)
    return _mk(res, ldt)


def _bool_reduce(vals, conj):
    zs = []
    for v in vals:
        v = _tb(v)
        if type(v) is SV:
            zs.append(v.b)
        elif bool(v) != conj:
            return not conj
    if not zs:
        return conj
    return mk_bool(z3.simplify(z3.And(zs) if conj else z3.Or(zs)))


def _accumulate(ufunc, a, axis):
    if not isinstance(a, SymArray):
        a = arr(a)
    c = collapse(a)
    if c is not None:
        return wrap(ufunc.accumulate(c, axis=axis))
    f = UF[ufunc]
    ldt = ufunc.accumulate(np.ones(1, dtype=a.dtype)).dtype
    p = np.moveaxis(_plain(a), axis, 0)
    res = np.empty(p.shape, dtype=object)
    for i in range(p.shape[0]):
        if i == 0:
            res[0] = p[0]
        else:
            x, y = res[i - 1], p[i]
            if isinstance(x, np.ndarray):
                res[i] = np.array([raw(f(u, v)) for u, v in zip(x.reshape(-1), y.reshape(-1))],
                                  dtype=object).reshape(x.shape)
            else:
                res[i] = raw(f(x, y))
    res = _map1(lambda v: raw(cast_scalar(v, ldt)), np.moveaxis(res, 0, axis))
    return _mk(res, ldt)


def _ufunc_at(ufunc, a, idx, val):
    f = UF[ufunc]
    idx = idx if isinstance(idx, tuple) else (idx,)
    ii = [arr(i).reshape(-1) for i in idx]
    n = max(len(i) for i in ii)
    va = None if val is None else arr(val)
    for k in range(n):
        t = tuple(int(i[k if len(i) > 1 else 0]) for i in ii)
        if va is None:
            a[t] = ufunc(a[t])
        else:
            v = va.reshape(-1)[k] if va.ndim and va.size > 1 else va.reshape(-1)[0]
            a[t] = ufunc_call(ufunc, "__call__", (a[t], v), {})


def matmul(a, b):
    a = a if isinstance(a, SymArray) else arr(a)
    b = b if isinstance(b, SymArray) else arr(b)
    ca, cb = collapse(a), collapse(b)
    if ca is not None and cb is not None:
        return wrap(np.matmul(ca, cb))
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    ldt = np.result_type(a.dtype, b.dtype)
    if a.ndim <= 2 and b.ndim <= 2:
        return dot(a, b)
    sa = a.shape[:-2]
    sb = b.shape[:-2] if b.ndim > 1 else ()
    shp = np.broadcast_shapes(sa, sb)
    A = np.broadcast_to(_plain(a), shp + a.shape[-2:]) if a.ndim > 1 else _plain(a)
    B = np.broadcast_to(_plain(b), shp + b.shape[-2:]) if b.ndim > 1 else _plain(b)
    out = []
    for i in np.ndindex(*shp):
        out.append(_plain(arr(dot(_mk(np.array(A[i] if a.ndim > 1 else A), a.dtype),
                                  _mk(np.array(B[i] if b.ndim > 1 else B), b.dtype)))))
    res = np.empty((len(out),) + out[0].shape, dtype=object)
    for i, o in enumerate(out):
        res[i] = o
    return _mk(res.reshape(shp + out[0].shape), ldt)


def _vdot(x, y):
    acc = 0
    for u, v in zip(x, y):
        if type(u) is not SV and u == 0 and not _isinf(v):
            continue
        if type(v) is not SV and v == 0 and not _isinf(u):
            continue
        acc = acc + u * v
    return acc


def dot(a, b):
    a = a if isinstance(a, SymArray) else arr(a)
    b = b if isinstance(b, SymArray) else arr(b)
    ca, cb = collapse(a), collapse(b)
    if ca is not None and cb is not None:
        return wrap(np.dot(ca, cb))
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    ldt = np.result_type(a.dtype, b.dtype)
    A, B = _plain(a), _plain(b)
    kb = 0 if b.ndim == 1 else b.ndim - 2
    if A.shape[-1] != B.shape[kb]:
        raise ValueError(f"shapes {A.shape} and {B.shape} not aligned: "
                         f"{A.shape[-1]} (dim {A.ndim - 1}) != {B.shape[kb]} (dim {kb})")
    Bm = np.moveaxis(B, kb, -1)
    shp = A.shape[:-1] + Bm.shape[:-1]
    res = np.empty(shp, dtype=object)
    for i in np.ndindex(*A.shape[:-1]):
        for j in np.ndindex(*Bm.shape[:-1]):
            res[i + j] = raw(cast_scalar(raw(_vdot(A[i], Bm[j])), ldt))
    if shp == ():
        return out_scalar(res[()], ldt)
    return _mk(res, ldt)


def inner(a, b):
    a = a if isinstance(a, SymArray) else arr(a)
    b = b if isinstance(b, SymArray) else arr(b)
    ca, cb = collapse(a), collapse(b)
    if ca is not None and cb is not None:
        return wrap(np.inner(ca, cb))
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.shape[-1] != b.shape[-1]:
        raise ValueError(f"shapes {a.shape} and {b.shape} not aligned")
    return dot(a, _mk(np.moveaxis(_plain(b), -1, 0 if b.ndim == 1 else -2), b.dtype))


# --------------------------------------------------------------------------------------
# array functions
# --------------------------------------------------------------------------------------

H = {}


def handles(*fs):
    def deco(g):
        for f in fs:
            H[f] = g
        return g

    return deco


def A(x):
    return x if isinstance(x, SymArray) else arr(x)


# functions whose result only rearranges / copies elements
STRUCT = {
    np.reshape, np.ravel, np.transpose, np.concatenate, np.append, np.hstack, np.vstack,
    np.stack, np.column_stack, np.tile, np.pad, np.roll, np.repeat, np.flip, np.flipud,
    np.fliplr, np.swapaxes, np.moveaxis, np.expand_dims, np.squeeze, np.broadcast_to,
    np.atleast_1d, np.atleast_2d, np.atleast_3d, np.diag, np.diagonal, np.insert,
    np.split, np.array_split, np.meshgrid, np.rollaxis, np.rot90, np.tril, np.triu, np.resize,
    np.broadcast_arrays, np.dstack, np.block, np.triu_indices_from,
}


# functions whose result is a view: it shares memory with the argument
VIEWS = {
    np.reshape, np.ravel, np.transpose, np.atleast_1d, np.atleast_2d, np.atleast_3d, np.expand_dims,
    np.swapaxes, np.moveaxis, np.rollaxis, np.squeeze, np.flip, np.flipud, np.fliplr, np.rot90, np.split,
    np.array_split, np.broadcast_to,
}


def _obj(x, dummy):
    """Object-array (dummy=False) or zero array (dummy=True) image of an argument."""
    if type(x) is MaskSel:
        x = x.realize()
    if isinstance(x, SymArray):
        return np.zeros(x.shape, dtype=x.dtype) if dummy else _plain(x)
    if type(x) is SV:
        if dummy:
            return _dummy_scalar(x, x.dt)
        o = np.empty((), dtype=object)
        o[()] = x
        return o
    if isinstance(x, (list, tuple)):
        return type(x)(_obj(y, dummy) for y in x)
    return x


def struct_call(func, args, kwargs):
    args = list(args)
    # lists of scalars/arrays that numpy would convert to arrays
    if args and isinstance(args[0], (list, tuple)) and func in (
            np.reshape, np.ravel, np.transpose, np.tile, np.pad, np.append, np.diag, np.roll,
            np.repeat, np.flip, np.atleast_1d, np.atleast_2d, np.expand_dims, np.insert,
            np.resize, np.broadcast_to):
        args[0] = arr(args[0])
    if func in (np.append,) and isinstance(args[1], (list, tuple)):
        args[1] = arr(args[1])
    if func in (np.meshgrid, np.atleast_1d, np.atleast_2d, np.atleast_3d, np.broadcast_arrays):
        args = [A(a) for a in args]
    if func in (np.concatenate, np.hstack, np.vstack, np.stack, np.column_stack, np.dstack) and \
            not isinstance(args[0], np.ndarray):
        args[0] = [A(a) for a in args[0]]
    if func in (np.append, np.insert):
        args = [A(a) if type(a) is SV else a for a in args]
    for k, v in list(kwargs.items()):
        if type(v) is SV and k != "constant_values":
            kwargs[k] = int(v)
    res = func(*(_obj(a, False) for a in args), **{k: _obj(v, False) for k, v in kwargs.items()})
    dmy = func(*(_obj(a, True) for a in args), **{k: _obj(v, True) for k, v in kwargs.items()})

    def fin(r, d):
        if isinstance(r, np.ndarray):
            ldt = d.dtype
            return _mk(_map1(lambda x: raw(cast_scalar(raw(x), ldt)), r) if func not in VIEWS else r, ldt)
        if isinstance(r, (list, tuple)):
            return type(r)(fin(x, y) for x, y in zip(r, d))
        return r

    return fin(res, dmy)


_UNWRAP = {}


def call_np(func, args, kwargs):
    if isinstance(func, np.ufunc):
        return ufunc_call(func, "__call__", args, kwargs)
    kwargs = dict(kwargs)
    if "dtype" in kwargs:
        kwargs["dtype"] = norm_dtype(kwargs["dtype"])
    h = H.get(func)
    if h is not None and getattr(h, "always", False):
        return h(*args, **kwargs)
    if func in VIEWS and h is None and args and isinstance(args[0], SymArray):
        return struct_call(func, args, kwargs)
    if not _contains_sym(args) and not _contains_sym(kwargs):
        with np.errstate(all="ignore"):
            return wrap(func(*(_real(a) for a in args), **{k: _real(v) for k, v in kwargs.items()}))
    if h is not None:
        for k in ("out",):
            if k in kwargs:
                if kwargs[k] is not None:
                    raise Unsupported("out=")
                del kwargs[k]
        return h(*args, **kwargs)
    if func in STRUCT:
        return struct_call(func, args, kwargs)
    raise Unsupported(f"numpy function {getattr(func, '__name__', func)} on symbolic data")


def _always(g):
    g.always = True
    return g


@handles(np.array)
def _h_array(object, dtype=None, copy=True, order="K", subok=False, ndmin=0, like=None):
    return arr(object, dtype, ndmin, copy)


_h_array.always = True


@handles(np.asarray, np.asanyarray, np.ascontiguousarray, np.asfarray)
def _h_asarray(a, dtype=None, order=None, like=None):
    return arr(a, dtype, copy=False)


_h_asarray.always = True


@handles(np.copy)
def _h_copy(a, order="K", subok=False):
    return arr(a)


_h_copy.always = True


def _shape(s):
    if isinstance(s, (SV, int, np.integer)):
        return (int(s),)
    return tuple(int(x) for x in s)


def _const_arr(shape, v, ldt):
    a = np.empty(_shape(shape), dtype=object)
    a.fill(raw(cast_scalar(raw(v), ldt)))
    return _mk(a, ldt)


@handles(np.zeros)
@_always
def _h_zeros(shape, dtype=float, order="C", like=None):
    return _const_arr(shape, 0, norm_dtype(dtype) or _F64)


@handles(np.empty)
@_always
def _h_empty(shape, dtype=float, order="C", like=None):
    return _const_arr(shape, 0, norm_dtype(dtype) or _F64)


@handles(np.ones)
@_always
def _h_ones(shape, dtype=None, order="C", like=None):
    return _const_arr(shape, 1, norm_dtype(dtype) or _F64)


@handles(np.full)
@_always
def _h_full(shape, fill_value, dtype=None, order="C", like=None):
    v = A(fill_value)
    ldt = norm_dtype(dtype) or v.dtype
    r = _const_arr(shape, 0, ldt)
    r[...] = v if v.ndim else _plain(v)[()]
    return r


def _like(v):
    @_always
    def g(a, dtype=None, order="K", subok=True, shape=None):
        a = A(a)
        return _const_arr(a.shape if shape is None else shape, v, norm_dtype(dtype) or a.dtype)

    return g


H[np.zeros_like] = _like(0)
H[np.empty_like] = _like(0)
H[np.ones_like] = _like(1)


@handles(np.full_like)
@_always
def _h_full_like(a, fill_value, dtype=None, order="K", subok=True, shape=None):
    a = A(a)
    r = _const_arr(a.shape if shape is None else shape, 0, norm_dtype(dtype) or a.dtype)
    r[...] = fill_value
    return r


@handles(np.arange)
@_always
def _h_arange(*args, **kw):
    dtype = kw.pop("dtype", None)
    if "start" in kw or "stop" in kw or "step" in kw:
        st = kw.get("step", args[2] if len(args) > 2 else 1)
        if len(args) >= 2:
            a, b = args[0], args[1]
        elif len(args) == 1 and "stop" in kw:
            a, b = args[0], kw["stop"]
        elif len(args) == 1:
            a, b = 0, args[0]
        else:
            a, b = kw.get("start", 0), kw["stop"]
        args = (a, b, st)
    if not _contains_sym(args):
        return wrap(np.arange(*_real(tuple(args)), dtype=norm_dtype(dtype)))
    if len(args) == 1:
        a, b, st = 0, args[0], 1
    elif len(args) == 2:
        (a, b), st = args, 1
    else:
        a, b, st = args
    q = (b - a) / st
    n = int(eng.sv_ceil(q) if type(q) is SV else math.ceil(q))
    n = max(n, 0)
    ldt = norm_dtype(dtype) or np.result_type(*(d for d in map(_scalar_dt, (a, b, st))))
    return arr([a + i * st for i in range(n)], dtype=ldt) if n else wrap(np.zeros(0, dtype=ldt))


@handles(np.linspace)
def _h_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    div = num - 1 if endpoint else num
    start, stop = A(start), A(stop)
    rows = []
    for i in range(num):
        if div > 0:
            rows.append(start + (stop - start) * i / div if i else start * 1.0)
        else:
            rows.append(start * 1.0)
    if start.ndim == 0 and stop.ndim == 0:
        r = arr([raw(x[()]) if isinstance(x, SymArray) else x for x in rows], dtype=dtype or _F64)
    else:
        r = arr(rows, dtype=dtype or _F64)
    return (r, (stop - start) / div) if retstep else r


@handles(np.eye, np.identity)
def _h_eye(N, M=None, k=0, dtype=float, **kw):
    return wrap(np.eye(int(N), None if M is None else int(M), int(k), dtype=norm_dtype(dtype)))


@handles(np.indices)
def _h_indices(dimensions, dtype=int, sparse=False):
    return wrap(np.indices(_shape(dimensions), dtype=norm_dtype(dtype), sparse=sparse))


def _masked(a, where, ident):
    """a with the entries not selected by `where` replaced by the identity of the reduction."""
    a = A(a)
    if where is True or where is None:
        return a
    if ident is None:
        raise Unsupported("where= without initial")
    return _h_where(where, a, ident)


@handles(np.sum, np.nansum)
def _h_sum(a, axis=None, dtype=None, keepdims=False, initial=np._NoValue, where=True):
    return _reduce(np.add, _masked(a, where, 0), axis, keepdims, dtype, initial)


@handles(np.prod)
def _h_prod(a, axis=None, dtype=None, keepdims=False, initial=np._NoValue, where=True):
    return _reduce(np.multiply, _masked(a, where, 1), axis, keepdims, dtype, initial)


def _ini(initial):
    return None if initial is np._NoValue else initial


@handles(np.max, np.amax, np.nanmax)
def _h_max(a, axis=None, keepdims=False, initial=np._NoValue, where=True):
    return _reduce(np.maximum, _masked(a, where, _ini(initial)), axis, keepdims, None, initial)


@handles(np.min, np.amin, np.nanmin)
def _h_min(a, axis=None, keepdims=False, initial=np._NoValue, where=True):
    return _reduce(np.minimum, _masked(a, where, _ini(initial)), axis, keepdims, None, initial)


@handles(np.ptp)
def _h_ptp(a, axis=None, keepdims=False):
    return _h_max(a, axis, keepdims) - _h_min(a, axis, keepdims)


@handles(np.any)
def _h_any(a, axis=None, keepdims=False, where=True):
    return _reduce(np.logical_or, _masked(a, where, False), axis, keepdims, None)


@handles(np.all)
def _h_all(a, axis=None, keepdims=False, where=True):
    return _reduce(np.logical_and, _masked(a, where, True), axis, keepdims, None)


def _axlen(a, axis):
    if axis is None:
        return a.size
    return math.prod(a.shape[k] for k in (axis if isinstance(axis, tuple) else (axis,)))


@handles(np.mean, np.nanmean)
def _h_mean(a, axis=None, dtype=None, keepdims=False, where=True):
    a = A(a)
    if where is not True:
        raise Unsupported("mean where=")
    return _reduce(np.add, a, axis, keepdims, None) / _axlen(a, axis)


@handles(np.average)
def _h_average(a, axis=None, weights=None, returned=False, keepdims=False):
    a = A(a)
    if weights is None:
        r = _h_mean(a, axis, keepdims=keepdims)
        return (r, _const_arr(A(r).shape, float(_axlen(a, axis)), np.dtype(float))) if returned else r
    w = A(weights)
    if w.shape != a.shape:
        if axis is None:
            raise TypeError("Axis must be specified when shapes of a and weights differ.")
        if w.ndim != 1:
            raise TypeError("1D weights expected when shapes of a and weights differ.")
        if w.shape[0] != a.shape[axis]:
            raise ValueError("Length of weights not compatible with specified axis.")
        sh = [1] * a.ndim
        sh[axis] = w.shape[0]
        w = w.reshape(*sh)
    tot = _reduce(np.add, _mk(np.broadcast_to(_plain(w), a.shape).copy(), w._ldt), axis, keepdims, None)
    if bool(_h_any(A(tot) == 0)):
        raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    r = _reduce(np.add, a * w, axis, keepdims, None) / tot
    return (r, tot) if returned else r


@handles(np.var)
def _h_var(a, axis=None, dtype=None, ddof=0, keepdims=False):
    a = A(a)
    d = a - _h_mean(a, axis, keepdims=True) if axis is not None else a - _h_mean(a)
    return _reduce(np.add, d * d, axis, keepdims, None) / (_axlen(a, axis) - ddof)


@handles(np.std)
def _h_std(a, axis=None, dtype=None, ddof=0, keepdims=False):
    return ufunc_call(np.sqrt, "__call__", (_h_var(a, axis, None, ddof, keepdims),), {})


@handles(np.cumprod)
def _h_cumprod(a, axis=None, dtype=None):
    a = A(a)
    if axis is None:
        a, axis = a.ravel(), 0
    return _accumulate(np.multiply, a, axis)


@handles(np.cumsum)
def _h_cumsum(a, axis=None, dtype=None):
    a = A(a)
    if axis is None:
        a, axis = a.ravel(), 0
    return _accumulate(np.add, a, axis)


@handles(np.diff)
def _h_diff(a, n=1, axis=-1, **k):
    a = A(a)
    for _ in range(n):
        sl1, sl2 = [slice(None)] * a.ndim, [slice(None)] * a.ndim
        sl1[axis], sl2[axis] = slice(1, None), slice(None, -1)
        a = a[tuple(sl1)] - a[tuple(sl2)]
    return a


@handles(np.count_nonzero)
def _h_count_nonzero(a, axis=None, keepdims=False):
    a = A(a)
    b = _mk(_map1(lambda x: raw(ite(_tb(x), 1, 0)) if type(x) is SV else int(bool(x)), _plain(a)), _I64)
    r = _reduce(np.add, b, axis, keepdims, None)
    if axis is None and type(r) is SV:
        r = r.with_dt(None)
    return r


@handles(np.dot)
def _h_dot(a, b):
    return dot(a, b)


@handles(np.inner)
def _h_inner(a, b):
    return inner(a, b)


@handles(np.vdot)
def _h_vdot(a, b):
    return dot(A(a).ravel(), A(b).ravel())


@handles(np.outer)
def _h_outer(a, b):
    return ufunc_call(np.multiply, "outer", (A(a).ravel(), A(b).ravel()), {})


@handles(np.tensordot)
def _h_tensordot(a, b, axes=2):
    a, b = A(a), A(b)
    if isinstance(axes, int):
        ax_a, ax_b = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ax_a, ax_b = axes
        ax_a = [ax_a] if isinstance(ax_a, int) else list(ax_a)
        ax_b = [ax_b] if isinstance(ax_b, int) else list(ax_b)
    ka = [i for i in range(a.ndim) if i not in [x % a.ndim for x in ax_a]]
    kb = [i for i in range(b.ndim) if i not in [x % b.ndim for x in ax_b]]
    at = a.transpose(ka + ax_a).reshape([a.shape[i] for i in ka] + [-1])
    bt = b.transpose(ax_b + kb).reshape([-1] + [b.shape[i] for i in kb])
    return dot(at, bt)


@handles(np.einsum)
def _h_einsum(subs, *ops, **kw):
    ops = [A(o) for o in ops]
    subs = subs.replace(" ", "")
    if "->" in subs:
        ins, out = subs.split("->")
    else:
        ins = subs
        letters = sorted(set(ins.replace(",", "").replace(".", "")))
        out = ("..." if "." in ins else "") + "".join(c for c in letters if ins.count(c) == 1)
    ins = ins.split(",")
    if "." in subs:  # name the broadcast axes (aligned at the end)
        free = [c for c in "ZYXWVUTSRQPONMLKJIHGFEDCBA" if c not in subs]
        most = 0
        for k, (s, o) in enumerate(zip(ins, ops)):
            if "..." in s:
                n = o.ndim - len(s.replace("...", ""))
                most = max(most, n)
                ins[k] = s.replace("...", "".join(free[:n][::-1]))
        out = out.replace("...", "".join(free[:most][::-1]))
    size = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError("einstein sum subscripts string does not match the operand")
        for c, n in zip(s, o.shape):
            if size.setdefault(c, n) != n:
                raise Unsupported("einsum with broadcast axes")
    summed = [c for c in size if c not in out]
    ldt = np.result_type(*(o.dtype for o in ops))
    res = np.empty(tuple(size[c] for c in out), dtype=object)
    P = [_plain(o) for o in ops]
    for oi in np.ndindex(*res.shape):
        env = dict(zip(out, oi))
        acc = 0
        for si in itertools.product(*(range(size[c]) for c in summed)):
            env.update(zip(summed, si))
            t = 1
            for s, o in zip(ins, P):
                t = t * o[tuple(env[c] for c in s)]
            acc = acc + t
        res[oi] = raw(cast_scalar(raw(acc), ldt))
    return _mk(res, ldt) if res.shape else out_scalar(res[()], ldt)


@handles(np.cross)
def _h_cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    a, b = A(a), A(b)
    ldt = np.result_type(a.dtype, b.dtype)
    da, db = a.shape[-1], b.shape[-1]
    if da not in (2, 3) or db not in (2, 3):
        raise ValueError("incompatible dimensions for cross product\n"
                         "(dimension must be 2 or 3)")
    shp = np.broadcast_shapes(a.shape[:-1], b.shape[:-1])
    P = np.broadcast_to(_plain(a), shp + (da,))
    Q = np.broadcast_to(_plain(b), shp + (db,))
    res = np.empty(shp + ((3,) if (da, db) != (2, 2) else ()), dtype=object)
    for i in np.ndindex(*shp):
        x, y = list(P[i]), list(Q[i])
        z = x[0] * y[1] - x[1] * y[0]
        if (da, db) == (2, 2):
            res[i] = raw(z)
        else:
            x2 = x[2] if da == 3 else 0
            y2 = y[2] if db == 3 else 0
            res[i + (0,)] = raw(x[1] * y2 - x2 * y[1])
            res[i + (1,)] = raw(x2 * y[0] - x[0] * y2)
            res[i + (2,)] = raw(z)
    return _mk(res, ldt) if res.shape else out_scalar(res[()], ldt)


@handles(np.where)
def _h_where(condition, x=None, y=None):
    if x is None:
        return _h_nonzero(condition)
    c, a, b = A(condition), A(x), A(y)
    ldt = np.result_type(_dummy(x) if not isinstance(x, (list, tuple)) else a.dtype,
                         _dummy(y) if not isinstance(y, (list, tuple)) else b.dtype)
    shp = np.broadcast_shapes(c.shape, a.shape, b.shape)
    C, P, Q = (np.broadcast_to(_plain(t), shp) for t in (c, a, b))
    res = np.empty(shp, dtype=object)
    for i in np.ndindex(*shp):
        res[i] = raw(cast_scalar(raw(ite(_tb(C[i]), P[i], Q[i])), ldt))
    return _mk(res, ldt)


@handles(np.nonzero)
def _h_nonzero(a):
    a = A(a)
    m = _map1(_tb, _plain(a))
    return wrap(np.nonzero(force_mask(m)))


@handles(np.flatnonzero)
def _h_flatnonzero(a):
    return _h_nonzero(A(a).ravel())[0]


@handles(np.argwhere)
def _h_argwhere(a):
    return wrap(np.transpose(_real(_h_nonzero(a))))


def _lt(x, y):
    return bool(x < y)


def _fork_argsort(keys):
    """Stable argsort of Python-comparable keys (comparisons fork)."""
    def cmp(i, j):
        a, b = keys[i], keys[j]
        if bool(a < b):
            return -1
        if bool(b < a):
            return 1
        return 0

    # binary insertion sort: stable, few comparisons
    out = []
    for i in range(len(keys)):
        lo, hi = 0, len(out)
        # common case: already sorted
        if out and not _lt(keys[i], keys[out[-1]]):
            out.append(i)
            continue
        while lo < hi:
            mid = (lo + hi) // 2
            if _lt(keys[i], keys[out[mid]]):
                hi = mid
            else:
                lo = mid + 1
        out.insert(lo, i)
    return out


def _rank_argsort(row):
    """Symbolic stable argsort: list of SV positions."""
    n = len(row)
    ranks = []
    for i in range(n):
        r = 0
        for j in range(n):
            if j == i:
                continue
            c = (row[j] <= row[i]) if j < i else (row[j] < row[i])
            r = r + (ite(c, 1, 0) if type(c) is SV else int(c))
        ranks.append(r)
    out = []
    for k in range(n):
        acc = n - 1
        for i in range(n - 2, -1, -1):
            c = ranks[i] == k
            acc = ite(c, i, acc) if type(c) is SV else (i if c else acc)
        out.append(raw(acc))
    return out


@handles(np.argsort)
def _h_argsort(a, axis=-1, kind=None, order=None):
    a = A(a)
    if axis is None:
        a, axis = a.ravel(), 0
    p = np.moveaxis(_plain(a), axis, -1)
    res = np.empty(p.shape, dtype=object)
    rank = cur().sort_mode == "rank"
    for i in np.ndindex(*p.shape[:-1]):
        row = list(p[i])
        if rank and any(type(x) is SV for x in row):
            o = _rank_argsort(row)
        else:
            o = _fork_argsort(row)
        for k, v in enumerate(o):
            res[i + (k,)] = v
    return _mk(np.moveaxis(res, -1, axis), _I64)


@handles(np.sort)
def _h_sort(a, axis=-1, kind=None, order=None):
    a = A(a)
    if axis is None:
        a, axis = a.ravel(), 0
    p = np.moveaxis(_plain(a), axis, -1)
    res = np.empty(p.shape, dtype=object)
    rank = cur().sort_mode == "rank"
    for i in np.ndindex(*p.shape[:-1]):
        row = list(p[i])
        if rank and any(type(x) is SV for x in row):
            n = len(row)
            for x in range(n):
                for y in range(n - 1 - x):
                    u, v = row[y], row[y + 1]
                    row[y], row[y + 1] = _f_min(u, v), _f_max(u, v)
            for k in range(n):
                res[i + (k,)] = raw(row[k])
        else:
            for k, v in enumerate(_fork_argsort(row)):
                res[i + (k,)] = row[v]
    return _mk(np.moveaxis(res, -1, axis), a._ldt)


class _Lex(tuple):
    """Lexicographic key with forking comparisons."""

    def __lt__(self, o):
        for x, y in zip(self, o):
            if bool(x < y):
                return True
            if bool(y < x):
                return False
        return False


@handles(np.lexsort)
def _h_lexsort(keys, axis=-1):
    keys = [A(k) for k in keys]
    n = keys[0].shape[0]
    rows = [_Lex(_plain(k)[i] for k in reversed(keys)) for i in range(n)]
    return wrap(np.array(_fork_argsort(rows), dtype=np.int64))


@handles(np.argmax)
def _h_argmax(a, axis=None, **k):
    return _arg(a, axis, lambda x, best: bool(x > best))


@handles(np.argmin)
def _h_argmin(a, axis=None, **k):
    return _arg(a, axis, lambda x, best: bool(x < best))


def _arg(a, axis, better):
    a = A(a)
    if axis is None:
        a, axis = a.ravel(), 0
    p = np.moveaxis(_plain(a), axis, -1)
    res = np.empty(p.shape[:-1], dtype=np.int64)
    for i in np.ndindex(*p.shape[:-1]):
        row = p[i]
        b = 0
        for k in range(1, len(row)):
            if better(row[k], row[b]):
                b = k
        res[i] = b
    return wrap(res if res.shape else np.int64(res[()]))


@handles(np.unique)
def _h_unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None,
              equal_nan=True):
    a = A(ar)
    if axis is None:
        p = _plain(a).reshape(-1)
        vals, first, inv = _unique_vals(list(p))
        u = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            u[i] = v
        res = [_mk(u, a._ldt)]
        keys = list(p)
    else:
        p = np.moveaxis(_plain(a), axis, 0)
        keys = [_Lex(r.reshape(-1)) for r in p]
        order = _fork_argsort(keys)
        groups = []
        for i in order:
            if groups and not (keys[groups[-1][0]] < keys[i]):
                groups[-1].append(i)
            else:
                groups.append([i])
        first = [min(g) for g in groups]
        inv = [0] * len(keys)
        for k, g in enumerate(groups):
            for i in g:
                inv[i] = k
        u = p[np.array(first, dtype=int)] if first else p[:0]
        res = [_mk(np.moveaxis(u, 0, axis), a._ldt)]
    if return_index:
        if first is None:
            first = [next(i for i, x in enumerate(keys) if bool(x == v)) for v in vals]
        res.append(wrap(np.array(first, dtype=np.int64)))
    if return_inverse:
        if inv is None:
            inv = []
            for x in keys:
                acc = 0
                for k in range(1, len(vals)):
                    c = x == vals[k]
                    acc = ite(c, k, acc) if type(c) is SV else (k if c else acc)
                inv.append(acc)
        res.append(arr(inv, dtype=np.int64) if inv else wrap(np.zeros(0, dtype=np.int64)))
    if return_counts:
        cnt = []
        for v in vals if axis is None else first:
            if axis is None:
                s = 0
                for x in keys:
                    c = x == v
                    s = s + (ite(c, 1, 0) if type(c) is SV else int(c))
                cnt.append(s)
            else:
                cnt.append(inv.count(inv[v]))
        res.append(arr(cnt, dtype=np.int64))
    return res[0] if len(res) == 1 else tuple(res)


def _unique_vals(xs):
    """(values, first index, inverse) — finite value sets only fork on presence."""
    sets = [eng.sv_vals(x) for x in xs]
    if xs and all(s is not None for s in sets):
        allv = sorted(frozenset().union(*sets))
        if len(allv) <= eng.MAXVALS:
            present = []
            for v in allv:
                pv = math.inf if v == eng.INF else (-math.inf if v == -eng.INF else (
                    int(v) if v.denominator == 1 else float(v)))
                ex = next((x for x in xs if type(x) is not SV and eng.to_q(x) == v), None)
                if ex is not None:
                    present.append(ex)
                    continue
                conds = []
                for x, s in zip(xs, sets):
                    if v in s and type(x) is SV:
                        xx = x if x.k != "b" else ite(x, 1, 0)
                        conds.append((xx == SV.const(v))._bool())
                if conds and cur().branch(z3.Or(conds)):
                    present.append(pv)
            return present, None, None
    order = _fork_argsort(xs)
    groups = []
    for i in order:
        if groups and not bool(xs[groups[-1][0]] < xs[i]):
            groups[-1].append(i)
        else:
            groups.append([i])
    inv = [0] * len(xs)
    for k, g in enumerate(groups):
        for i in g:
            inv[i] = k
    return [xs[g[0]] for g in groups], [min(g) for g in groups], inv


@handles(np.isin, np.in1d)
def _h_isin(element, test_elements, assume_unique=False, invert=False, **k):
    if isinstance(test_elements, (set, frozenset)):
        test_elements = list(test_elements)
    e, t = A(element), A(test_elements)
    ts = list(_plain(t).reshape(-1))

    def f(x):
        zs = []
        for y in ts:
            c = x == y
            if type(c) is SV:
                zs.append(c.b)
            elif c:
                return not invert
        if not zs:
            return invert
        b = z3.simplify(z3.Or(zs))
        return raw(mk_bool(z3.Not(b) if invert else b))

    return _mk(_map1(f, _plain(e)), _B)


@handles(np.setdiff1d)
def _h_setdiff1d(a, b, assume_unique=False):
    u = _h_unique(a)
    m = _h_isin(u, b, invert=True)
    return _mk(_plain(u)[force_mask(_plain(m))], u._ldt)


@handles(np.intersect1d)
def _h_intersect1d(a, b, **k):
    u = _h_unique(a)
    m = _h_isin(u, b)
    return _mk(_plain(u)[force_mask(_plain(m))], u._ldt)


@handles(np.union1d)
def _h_union1d(a, b):
    return _h_unique(struct_call(np.concatenate, ([A(a).ravel(), A(b).ravel()],), {}))


@handles(np.searchsorted)
def _h_searchsorted(a, v, side="left", sorter=None):
    a, vv = A(a), A(v)
    xs = list(_plain(a))

    def f(y):
        s = 0
        for x in xs:
            c = (x < y) if side == "left" else (x <= y)
            s = s + (ite(c, 1, 0) if type(c) is SV else int(bool(c)))
        return raw(s)

    r = _map1(f, _plain(vv))
    if vv.ndim == 0:
        return out_scalar(r[()], _I64)
    return _mk(r, _I64)


@handles(np.round, np.around, np.round_)
def _h_round(a, decimals=0):
    decimals = int(decimals)
    if type(a) is SV:
        return raw(eng.sv_round(a, decimals)) if a.k == "r" else a
    a = A(a)
    if a.dtype.kind in "iub":
        return a.copy()

    def f(x):
        if type(x) is SV:
            return raw(eng.sv_round(x, decimals))
        return float(np.round(x, decimals))

    r = _map1(f, _plain(a))
    return _mk(r, a._ldt) if a.ndim else out_scalar(r[()], a._ldt)


@handles(np.isclose)
def _h_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = A(a), A(b)
    return abs(a - b) <= (atol + rtol * abs(b))


@handles(np.allclose)
def _h_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = _h_isclose(a, b, rtol, atol)
    return bool(_h_all(r))


@handles(np.array_equal)
def _h_array_equal(a, b, equal_nan=False):
    a, b = A(a), A(b)
    if a.shape != b.shape:
        return False
    return bool(_h_all(a == b))


@handles(np.array_equiv)
def _h_array_equiv(a, b):
    return bool(_h_all(A(a) == A(b)))


@handles(np.clip)
def _h_clip(a, a_min=None, a_max=None, **k):
    r = A(a)
    if a_min is not None:
        r = ufunc_call(np.maximum, "__call__", (r, a_min), {})
    if a_max is not None:
        r = ufunc_call(np.minimum, "__call__", (r, a_max), {})
    return r


@handles(np.take)
def _h_take(a, indices, axis=None, **k):
    a = A(a)
    if axis is None:
        return a.ravel()[A(indices)]
    t = [slice(None)] * a.ndim
    t[axis] = A(indices)
    return a[tuple(t)]


@handles(np.take_along_axis)
def _h_taa(a, indices, axis):
    a, ind = A(a), A(indices)
    if axis is None:
        return a.ravel()[ind]
    axis %= a.ndim
    t = []
    for k in range(a.ndim):
        if k == axis:
            t.append(ind)
        else:
            sh = [1] * a.ndim
            sh[k] = ind.shape[k]
            t.append(wrap(np.arange(ind.shape[k]).reshape(sh)))
    return a[tuple(t)]


@handles(np.compress)
def _h_compress(cond, a, axis=None, **k):
    a = A(a)
    m = A(cond)
    if axis is None:
        return a.ravel()[m]
    t = [slice(None)] * a.ndim
    t[axis] = m
    return a[tuple(t)]


@handles(np.delete)
def _h_delete(a, obj, axis=None):
    a = A(a)
    if type(obj) is SV:
        obj = int(obj)
    elif not isinstance(obj, (int, slice, np.integer)):
        o = A(obj)
        if o.dtype.kind == "b":
            obj = force_mask(_plain(o))
        else:
            obj = _force_int(o) if o.size else np.array([], dtype=int)
    r = np.delete(_plain(a), obj, axis=axis)
    return _mk(r, a._ldt)


@handles(np.min_scalar_type)
def _h_min_scalar_type(a):
    if isinstance(a, np.ndarray) and a.ndim:
        return a.dtype
    x = raw(a)
    if type(x) is not SV:
        return np.min_scalar_type(x)
    if x.k == "b":
        return _B
    if x.k == "r":
        return np.min_scalar_type(1.5)
    if bool(x >= 0):
        for d in (np.uint8, np.uint16, np.uint32):
            if bool(x <= int(np.iinfo(d).max)):
                return np.dtype(d)
        return np.dtype(np.uint64)
    for d in (np.int8, np.int16, np.int32):
        if bool(x >= int(np.iinfo(d).min)):
            return np.dtype(d)
    return _I64


@handles(np.result_type)
@_always
def _h_result_type(*args):
    return np.result_type(*(a.dtype if isinstance(a, SymArray) else (
        _dummy(a) if type(a) is SV else norm_dtype(a) if isinstance(a, type) else a) for a in args))


@handles(np.shape)
@_always
def _h_shape(a):
    return A(a).shape


@handles(np.ndim)
@_always
def _h_ndim(a):
    return A(a).ndim


@handles(np.size)
@_always
def _h_size(a, axis=None):
    a = A(a)
    return a.size if axis is None else a.shape[axis]


@handles(np.iscomplexobj)
@_always
def _h_iscomplexobj(x):
    return A(x).dtype.kind == "c"


@handles(np.isscalar)
@_always
def _h_isscalar(x):
    return type(x) is SV or np.isscalar(x)


@handles(np.trace)
def _h_trace(a):
    a = A(a)
    return functools.reduce(lambda x, y: x + y, [a[i, i] for i in range(min(a.shape))])


@handles(np.bincount)
def _h_bincount(x, weights=None, minlength=0):
    x = A(x)
    m = int(x.max()) + 1 if x.size else 0
    n = max(m, int(minlength))
    out = []
    for v in range(n):
        s = 0
        for y, w in zip(_plain(x), [1] * x.size if weights is None else _plain(A(weights))):
            c = y == v
            s = s + (ite(c, w, 0) if type(c) is SV else w if c else 0)
        out.append(s)
    return arr(out, dtype=np.int64 if weights is None else np.float64)


@handles(np.real)
def _h_real(x):
    return x.real if isinstance(x, (SC, SV)) else A(x).real


@handles(np.imag)
def _h_imag(x):
    return x.im if type(x) is SC else x * 0 if type(x) is SV else A(x).imag


@handles(np.select)
def _h_select(condlist, choicelist, default=0):
    r = default
    dt = np.result_type(*(np.zeros((), A(x).dtype) for x in choicelist), np.zeros((), A(default).dtype))
    for m, x in zip(list(condlist)[::-1], list(choicelist)[::-1]):
        r = _h_where(m, x, r)
    return A(r).astype(dt)


@handles(np.choose)
def _h_choose(a, choices, **k):
    if k:
        raise Unsupported("choose mode=")
    a = A(a)
    ch = [A(c) for c in choices]
    n = len(ch)
    bad = A((a < 0) | (a >= n))
    if bool(_h_any(bad)):
        raise ValueError("invalid entry in choice array")
    r = ch[-1]
    for i in range(n - 2, -1, -1):
        r = _h_where(a == i, ch[i], r)
    return r


@handles(np.digitize)
def _h_digitize(x, bins, right=False):
    b = A(bins)
    if b.size > 1 and not bool(_h_all(b[1:] >= b[:-1])):
        raise Unsupported("digitize with decreasing bins")
    return _h_searchsorted(b, x, side="left" if right else "right")


@handles(np.ravel_multi_index)
def _h_rmi(multi_index, dims, mode="raise", order="C"):
    if mode != "raise" or order != "C":
        raise Unsupported("ravel_multi_index mode/order")
    dims = [int(d) for d in ([dims] if isinstance(dims, (int, SV)) else dims)]
    idx = list(multi_index) if not isinstance(multi_index, SymArray) else [multi_index[i] for i in range(len(multi_index))]
    if len(idx) != len(dims):
        raise ValueError("parameter multi_index must be a sequence of length %d" % len(dims))
    r = 0
    for i, d in zip(idx, dims):
        if bool(_h_any((A(i) < 0) | (A(i) >= d))):
            raise ValueError("invalid entry in coordinates array")
        r = r * d + i
    return r


@handles(np.unravel_index)
def _h_umi(indices, shape, order="C"):
    if order != "C":
        raise Unsupported("unravel_index order")
    dims = [int(d) for d in ([shape] if isinstance(shape, (int, SV)) else shape)]
    if bool(_h_any((A(indices) < 0) | (A(indices) >= math.prod(dims)))):
        raise ValueError("index is out of bounds for array with size %d" % math.prod(dims))
    out, r = [], indices
    for d in dims[::-1]:
        out.append(r % d)
        r = r // d
    return tuple(out[::-1])


@handles(np.kron)
def _h_kron(a, b):
    a, b = A(a), A(b)
    n = max(a.ndim, b.ndim)
    a = a.reshape(*((1,) * (n - a.ndim) + a.shape))
    b = b.reshape(*((1,) * (n - b.ndim) + b.shape))
    sa = [v for k in range(n) for v in (a.shape[k], 1)]
    sb = [v for k in range(n) for v in (1, b.shape[k])]
    return (a.reshape(*sa) * b.reshape(*sb)).reshape(*(p * q for p, q in zip(a.shape, b.shape)))


@handles(np.nan_to_num)
def _h_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    x = A(x)
    if not all(type(v) is SV or math.isfinite(v) for v in _plain(x).reshape(-1)):
        raise Unsupported("nan_to_num of infinities")
    return x.copy() if copy else x


@handles(np.fromiter)
@_always
def _h_fromiter(iter, dtype, count=-1, like=None):
    v = list(iter)
    return arr(v if count < 0 else v[:count], dtype=norm_dtype(dtype)) if v else wrap(np.empty(0, norm_dtype(dtype)))


@handles(np.median)
def _h_median(a, axis=None, keepdims=False, **k):
    a = A(a)
    if axis is None:
        a, axis = a.ravel(), 0
    elif keepdims:
        raise Unsupported("median keepdims")
    a = _h_sort(a, axis=axis)
    n = a.shape[axis]
    i = [slice(None)] * a.ndim
    j = list(i)
    i[axis], j[axis] = (n - 1) // 2, n // 2
    return (a[tuple(i)] + a[tuple(j)]) / 2.0


@handles(np.partition)
def _h_partition(a, kth, axis=-1, **k):
    # (fully sorted: one of the results numpy may return)
    return _h_sort(a, axis=axis)


@handles(np.linalg.multi_dot)
def _h_multi_dot(arrays, **k):
    return functools.reduce(dot, [A(x) for x in arrays])


@handles(np.linalg.matrix_power)
def _h_matrix_power(a, n):
    a = A(a)
    _chk_square(a)
    if n < 0:
        a, n = _h_inv(a), -n
    r = wrap(np.eye(a.shape[0], dtype=a.dtype))
    for _ in range(int(n)):
        r = matmul(r, a)
    return r


@handles(np.ediff1d)
def _h_ediff1d(a, to_end=None, to_begin=None):
    if to_end is not None or to_begin is not None:
        raise Unsupported("ediff1d ends")
    return _h_diff(A(a).ravel())


@handles(np.extract)
def _h_extract(condition, a):
    return A(a).ravel()[A(condition).ravel().astype(bool)]


@handles(np.setxor1d)
def _h_setxor1d(a, b, assume_unique=False):
    return _h_union1d(_h_setdiff1d(a, b), _h_setdiff1d(b, a))


@handles(np.fix)
def _h_fix(x, out=None):
    return ufunc_call(np.trunc, "__call__", (x,), {})


@handles(np.require)
def _h_require(a, dtype=None, requirements=None, **k):
    return _h_asarray(a, dtype=dtype)


@handles(np.fill_diagonal)
def _h_fill_diagonal(a, val, wrap=False):
    if wrap or a.ndim != 2:
        raise Unsupported("fill_diagonal")
    n = min(a.shape)
    setitem(a, (np.arange(n), np.arange(n)), val)


@handles(np.copyto)
def _h_copyto(dst, src, casting="same_kind", where=True):
    s = A(src)
    if not np.can_cast(s.dtype, dst.dtype, casting) and not (s.ndim == 0 and s.dtype.kind in "iu" and dst.dtype.kind in "iuf"):
        raise TypeError(f"Cannot cast array data from {s.dtype!r} to {dst.dtype!r} according to the rule '{casting}'")
    if where is True:
        setitem(dst, Ellipsis, s)
    else:
        setitem(dst, Ellipsis, A(_h_where(where, s, dst)).astype(dst.dtype))


@handles(np.putmask)
def _h_putmask(a, mask, values):
    v = A(values)
    if v.ndim and v.shape != a.shape:
        v = _mk(np.resize(_plain(v), a.shape), v._ldt)
    setitem(a, Ellipsis, A(_h_where(mask, v, a)).astype(a.dtype))


@handles(np.place)
def _h_place(a, mask, vals):
    m = force_mask(_plain(A(mask)))
    k = int(m.sum())
    setitem(a, m, _mk(np.resize(_plain(A(vals).ravel()), (k,)), A(vals)._ldt))


@handles(np.put)
def _h_put(a, ind, v, mode="raise"):
    if a.ndim != 1 or mode != "raise":
        raise Unsupported("put")
    n = A(ind).size
    v = A(v).ravel()
    setitem(a, A(ind).ravel(), _mk(np.resize(_plain(v), (n,)), v._ldt))


@handles(np.ix_)
@_always
def _h_ix(*args):
    return wrap(np.ix_(*(_force_int(A(a)) if A(a).dtype.kind != "b" else force_mask(_plain(A(a)))
                         for a in args)))


@handles(np.apply_along_axis)
@_always
def _h_aaa(func1d, axis, a, *args, **kw):
    a = A(a)
    p = np.moveaxis(_plain(a), axis, -1)
    rows = [func1d(_mk(p[i].copy(), a._ldt), *args, **kw) for i in np.ndindex(*p.shape[:-1])]
    r = arr(rows)
    r = r.reshape(p.shape[:-1] + r.shape[1:])
    return r if r.ndim == len(p.shape[:-1]) else _mk(np.moveaxis(_plain(r), -1, axis), r._ldt)


# ---- linear algebra ----------------------------------------------------------------------


def _det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    acc = 0
    for j in range(n):
        c = m[0][j]
        if type(c) is not SV and c == 0:
            continue
        minor = [row[:j] + row[j + 1:] for row in m[1:]]
        t = c * _det(minor)
        acc = acc + t if j % 2 == 0 else acc - t
    return acc


def _chk_square(a):
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")


@handles(np.linalg.det)
def _h_det(a):
    a = A(a)
    _chk_square(a)
    return out_scalar(raw(_det(_plain(a).tolist())), _F64)


@handles(np.linalg.inv)
def _h_inv(a):
    a = A(a)
    _chk_square(a)
    m = _plain(a).tolist()
    n = len(m)
    d = _det(m)
    if bool(d == 0):
        raise np.linalg.LinAlgError("Singular matrix")
    res = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            if n == 1:
                c = 1
            else:
                minor = [[m[r][c] for c in range(n) if c != i] for r in range(n) if r != j]
                c = _det(minor)
                if (i + j) % 2:
                    c = -c
            res[i, j] = raw(c / d)
    return _mk(res, _F64)


@handles(np.linalg.solve)
def _h_solve(a, b):
    return matmul(_h_inv(a), A(b))


@handles(np.linalg.norm)
def _h_norm(x, ord=None, axis=None, keepdims=False):
    x = A(x)
    if ord not in (None, 2, "fro") or (ord == 2 and x.ndim == 2 and axis is None):
        if ord in (1, np.inf) and x.ndim == 1:
            return _h_sum(abs(x)) if ord == 1 else _h_max(abs(x))
        raise Unsupported("norm order")
    s = _reduce(np.add, ufunc_call(np.square, "__call__", (x,), {}), axis, keepdims, None)
    return ufunc_call(np.sqrt, "__call__", (s,), {})


@handles(np.linalg.matrix_rank)
def _h_rank(a, *args, **k):
    raise Unsupported("matrix_rank")


# --------------------------------------------------------------------------------------
# module proxy
# --------------------------------------------------------------------------------------


class _Mgrid:
    def __init__(self, real):
        self.real = real

    def _slice(self, s):
        if not isinstance(s, slice):
            return _real(s), None
        if not _contains_sym(s):
            return _real(s), None
        a, b, st = s.start, s.stop, s.step
        a = 0 if a is None else a
        st = 1 if st is None else st
        return None, A(H[np.arange](a, b, st))

    def __getitem__(self, key):
        single = isinstance(key, slice)
        if isinstance(key, list):
            key = tuple(key)
        keys = (key,) if single else tuple(key)
        if not _contains_sym(keys):
            k = _real(keys)
            return wrap(self.real[k[0] if single else k])
        axes = []
        for k in keys:
            _, a = self._slice(k)
            if a is None:
                r = np.mgrid[_real(k)]
                a = wrap(r)
            axes.append(a)
        if single:
            return axes[0]
        ldt = np.result_type(*(a.dtype for a in axes))
        shp = tuple(len(a) for a in axes)
        res = np.empty((len(axes),) + shp, dtype=object)
        for d, a in enumerate(axes):
            for i in np.ndindex(*shp):
                res[(d,) + i] = _plain(a)[i[d]]
        return _mk(res, ldt)


class _Concat:
    def __init__(self, real):
        self.real = real

    def __getitem__(self, key):
        keys = key if isinstance(key, tuple) else (key,)
        if not _contains_sym(keys):
            return wrap(self.real[_real(key) if not isinstance(key, tuple) else tuple(map(_real, key))])
        ks = [A(k) for k in keys]
        objs = tuple(_plain(k) for k in ks)
        res = self.real[objs if len(objs) > 1 else objs[0]]
        return _mk(res, np.result_type(*(k.dtype for k in ks)))


class UfuncProxy:
    def __init__(self, u):
        object.__setattr__(self, "_u", u)

    def __call__(self, *args, **kwargs):
        return ufunc_call(self._u, "__call__", args, kwargs)

    def reduce(self, a, axis=0, **k):
        return ufunc_call(self._u, "reduce", (a,), dict(axis=axis, **k))

    def outer(self, a, b, **k):
        return ufunc_call(self._u, "outer", (a, b), k)

    def accumulate(self, a, axis=0, **k):
        return ufunc_call(self._u, "accumulate", (a,), dict(axis=axis, **k))

    def at(self, a, idx, b=None):
        return ufunc_call(self._u, "at", (a, idx) if b is None else (a, idx, b), {})

    def __getattr__(self, n):
        return getattr(self._u, n)

    def __eq__(self, o):
        return o is self or o is self._u

    def __hash__(self):
        return hash(self._u)


def _fproxy(f):
    def g(*args, **kwargs):
        return call_np(f, args, kwargs)

    g.__name__ = getattr(f, "__name__", "np_function")
    g.__wrapped__ = f
    return g


class NpModule(types.ModuleType):
    def __init__(self, name, real):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__["__path__"] = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        r = getattr(self._real, name)
        if name in ("mgrid",):
            v = _Mgrid(r)
        elif name in ("c_", "r_"):
            v = _Concat(r)
        elif isinstance(r, np.ufunc):
            v = UfuncProxy(r)
        elif isinstance(r, types.ModuleType):
            if name == "random":
                v = r
            else:
                v = NpModule(f"{self.__name__}.{name}", r)
        elif isinstance(r, type):
            v = r
        elif callable(r):
            v = _fproxy(r)
        else:
            v = r
        self.__dict__[name] = v
        return v


class _Vectorize:
    def __init__(self, f, **k):
        self.f = f

    def __call__(self, *args):
        args = [A(a) for a in args]
        shp = np.broadcast_shapes(*(a.shape for a in args))
        bs = [np.broadcast_to(_plain(a), shp) for a in args]
        vals = [self.f(*(out_scalar(b[i], a._ldt) for a, b in zip(args, bs)))
                for i in np.ndindex(*shp)]
        return arr(vals).reshape(shp)


shim = NpModule("numpy", np)
shim.__dict__["ndarray"] = np.ndarray
shim.__dict__["vectorize"] = _Vectorize


class _DtMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.dtype)


class DtypeProxy(metaclass=_DtMeta):
    def __new__(cls, x=None, *a, **k):
        return norm_dtype(x) if not a and not k else np.dtype(x, *a, **k)


shim.__dict__["dtype"] = DtypeProxy
