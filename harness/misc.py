"""C14-C20: shapes, array utilities, vector geometry, atoms, Wigner-Seitz cells, paths."""
import copy

from .common import *
from .geo import GEO
from .model import ints

BASES = {
    "oblique": [[1.0, 0.0], [0.5, 1.0]],
    "neg": [[1.0, 0.5], [-0.5, 1.0]],
    "flip": [[0.0, 2.0], [1.5, 0.0]],
    "skew": [[1.0, 0.0], [0.75, 0.5]],
    "left": [[-1.0, 0.25], [0.0, -2.0]],
    "cubic": [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]],
    "tri": [[1.0, 0.0, 0.0], [0.5, 1.0, 0.0], [0.25, -0.5, 2.0]],
    "fcc": [[0.5, 0.5, 0.0], [0.5, 0.0, 0.5], [0.0, 0.5, 0.5]],
    "bcc": [[0.5, 0.5, 0.5], [0.5, -0.5, 0.5], [-0.5, 0.5, 0.5]],
    "chain": [[1.5]],
    "square": [[1.0, 0.0], [0.0, 1.0]],
    "rect": [[1.0, 0.0], [0.0, 1.5]],
    "hex": [[1.5, S3 / 2], [1.5, -S3 / 2]],
}


def away(c, x, lim, eps=1e-4):
    """Exclude the neighbourhood of a limit (rounding errors decide there)."""
    if not c.sym:
        eps = eps / 2
    c.assume(c.or_(x >= lim + eps, x <= lim - eps))


def points(c, n, dim, lo=-4, hi=4):
    return [[c.real(f"x{i}{k}", lo, hi) for k in range(dim)] for i in range(n)]


# ---- C14 shapes ---------------------------------------------------------------------------

def sh_box(c, dim, basis=None, tol=False):
    """Shape: a point is contained exactly if its coordinates (in the basis) are inside."""
    s = [c.real(f"s{k}", 0.01, 3) for k in range(dim)]
    p = [c.real(f"p{k}", -2, 2) for k in range(dim)]
    t = c.real("t", 0, 0.5) if tol else 0.0
    B = BASES[basis] if basis else None
    y = points(c, 2, dim)  # coordinates in the basis
    x = [comb(v, B) for v in y] if B else y
    shape = c.lp.Shape(s if dim > 1 or tol else s[0], pos=p, basis=B)
    for v in y:
        for k in range(dim):
            away(c, v[k], p[k] - t)
            away(c, v[k], p[k] + s[k] + t)
    got = shape.contains(c.np.array(x), t) if tol else shape.contains(c.np.array(x))
    c.check(got.shape == (2,), "one result per point")
    lim = rows(shape.limits())
    c.check(len(lim) == dim, "one pair of limits per axis")
    for v, xx, g in zip(y, x, got.tolist()):
        ins = c.and_(*[c.and_(p[k] - t <= v[k], v[k] <= p[k] + s[k] + t) for k in range(dim)])
        c.check(c.iff(g, ins), "contains the points inside the box")
        if not tol:
            for k in range(dim):
                c.check(c.implies(g, c.and_(lim[k][0] - 1e-6 <= xx[k], xx[k] <= lim[k][1] + 1e-6)),
                        "limits enclose the shape")
    corners = [comb(v, B) if B else list(v) for v in itertools.product(*[(p[k], p[k] + s[k]) for k in range(dim)])]
    for k in range(dim):
        lo = hi = corners[0][k]
        for v in corners[1:]:
            lo = c.ite(v[k] < lo, v[k], lo)
            hi = c.ite(v[k] > hi, v[k], hi)
        c.close(lim[k][0], lo, "lower limit")
        c.close(lim[k][1], hi, "upper limit")
    c.observe("got", got)


def sh_default(c, dim):
    """Shape without a position starts at the origin."""
    s = [c.real(f"s{k}", 0.01, 3) for k in range(dim)]
    shape = c.lp.Shape(s if dim > 1 else s[0])
    c.check(shape.dim == dim, "dimension")
    c.close(shape.limits(), [[0, x] for x in s], "limits")


def sh_round(c, kind, dim, tol=False):
    """Circle / Donut: containment by distance to the centre."""
    o = [c.real(f"o{k}", -2, 2) for k in range(dim)]
    r = c.real("r", 0.1, 3)
    t = c.real("t", 0, 0.05) if tol else 0.0
    x = points(c, 2, dim)
    q = None
    if kind == "circle":
        shape = c.lp.Circle(o, r)
    else:
        q = c.real("q", 0.1, 3)
        c.assume(q <= r)
        shape = c.lp.Donut(o, r, q)
    e = 1e-3 if c.sym else 5e-4
    d2 = [norm2(sub(v, o)) for v in x]
    for d in d2:
        c.assume(c.or_(d >= (r + t + e) * (r + t + e), d <= (r + t - e) * (r + t - e)))
        if q is not None:
            c.assume(c.or_(d >= (q - t + e) * (q - t + e), d <= (q - t - e) * (q - t - e)))
    got = shape.contains(c.np.array(x), t) if tol else shape.contains(c.np.array(x))
    c.check(got.shape == (2,), "one result per point")
    lim = rows(shape.limits())
    c.close(lim, [[y - r, y + r] for y in o], "limits")
    for v, d, g in zip(x, d2, got.tolist()):
        ins = d <= (r + t) * (r + t)
        if q is not None:
            ins = c.and_(ins, d >= (q - t) * (q - t))
        c.check(c.iff(g, ins), "contains the points within the radii")
    c.observe("got", got)


POLY = {
    "triangle": [[0.0, 0.0], [2.0, 0.25], [0.5, 1.5]],
    "quad": [[-1.0, -1.0], [1.5, -0.5], [1.0, 1.25], [-0.5, 0.75]],
    "inner": [[-1.0, -1.0], [0.0, 0.1], [1.5, -0.5], [1.0, 1.25], [0.2, 0.0], [-0.5, 0.75]],
}


def sh_hull(c, name):
    """ConvexHull: containment by half planes (2D, also with interior points)."""
    P = POLY[name]
    hull = [p for p in P if any(True for _ in [0])]
    ext = [[-1.0, -1.0], [1.5, -0.5], [1.0, 1.25], [-0.5, 0.75]] if name != "triangle" else P
    shape = c.lp.ConvexHull(c.np.array(P))
    c.check(shape.dim == 2, "dimension")
    x = points(c, 2, 2, -3, 3)
    e = 1e-4 if c.sym else 5e-5
    ins = []
    for v in x:
        cs = []
        for a, b in zip(ext, ext[1:] + ext[:1]):  # counter-clockwise
            z = (b[0] - a[0]) * (v[1] - a[1]) - (b[1] - a[1]) * (v[0] - a[0])
            c.assume(c.or_(z >= e, z <= -e))
            cs.append(z >= 0)
        ins.append(c.and_(*cs))
    got = shape.contains(c.np.array(x))
    for g, i in zip(got.tolist(), ins):
        c.check(c.iff(g, i), "contains the points inside the hull")
    c.close(shape.limits(), [[min(p[k] for p in hull), max(p[k] for p in hull)] for k in range(2)], "limits")
    c.observe("got", got)


def sh_tetra(c):
    """ConvexHull of a tetrahedron in three dimensions."""
    shape = c.lp.ConvexHull(c.np.array([[0.0, 0, 0], [2.0, 0, 0], [0, 1.0, 0], [0, 0, 1.5], [0.2, 0.2, 0.2]]))
    x = points(c, 1, 3, -1, 3)[0]
    vals = [x[0], x[1], x[2], 1 - x[0] / 2 - x[1] - x[2] / 1.5]
    for v in vals:
        away(c, v, 0)
    got = shape.contains(c.np.array([x]))
    c.check(c.iff(got[0], c.and_(*[v >= 0 for v in vals])), "contains the points inside the hull")
    c.close(shape.limits(), [[0, 2], [0, 1], [0, 1.5]], "limits")


# ---- C15 array utilities ------------------------------------------------------------------

def u_vindices(c, dim, lo, hi, smax, sort=0, dtype=None):
    """vindices: every integer vector of the box exactly once, sorted along the axis."""
    a = [c.int(f"a{k}", lo, hi) for k in range(dim)]
    n = [c.pick(f"n{k}", 1, smax) for k in range(dim)]
    lim = c.np.array([[a[k], a[k] + n[k]] for k in range(dim)])
    kw = {} if sort == 0 else {"sort_axis": sort if sort >= 0 else None}
    if dtype:
        kw["dtype"] = dtype
    got = rows(c.lp.vindices(lim, **kw))
    off = list(itertools.product(*[range(x) for x in n]))
    c.check(len(got) == len(off), "number of vectors")
    for o in off:
        c.check(c.count([c.and_(*[r[k] == a[k] + o[k] for k in range(dim)]) for r in got]) == 1,
                "each vector of the box exactly once")
    if sort >= 0:
        for r, s in zip(got, got[1:]):
            c.check(r[sort] <= s[sort], "sorted along the axis")
    c.observe("v", got)


def u_vrange(c, dim, form, sort=0):
    """vrange: the grid start, start + step, ... below stop, each point once."""
    st = [c.pick(f"a{k}", -2, 1) for k in range(dim)]
    n = [c.pick(f"n{k}", 1, 2) for k in range(dim)]
    step = [1.0] * dim
    if form == "stop":
        st = [0] * dim
        got = c.lp.vrange([float(x) for x in n], sort_axis=sort)
    elif form == "startstop":
        got = c.lp.vrange([float(x) for x in st], [float(x + y) for x, y in zip(st, n)], sort_axis=sort)
    elif form in ("scalar", "keyword"):
        step = [[0.5, 2.0, 4.0][c.pick("s", 0, 2)]] * dim
        st = st if form == "scalar" else [0] * dim
        stop = [x + y * z for x, y, z in zip(st, n, step)]
        if form == "scalar":
            got = c.lp.vrange(st, stop, step[0], sort_axis=sort)
        else:
            got = c.lp.vrange(stop, step=step[0], sort_axis=sort)
    else:
        step = [0.5, 0.25, 2.0][:dim]
        stop = [x + y * z for x, y, z in zip(st, n, step)]
        got = c.lp.vrange([float(x) for x in st], stop, step, sort_axis=sort)
    got = rows(got)
    want = [[st[k] + o[k] * step[k] for k in range(dim)] for o in itertools.product(*[range(x) for x in n])]
    c.check(len(got) == len(want), "number of grid points")
    for w in want:
        c.check(c.count([c.and_(*[c.near(x, y) for x, y in zip(r, w)]) for r in got]) == 1,
                "each grid point exactly once")
    for r, s in zip(got, got[1:]):
        c.check(r[sort] <= s[sort], "sorted along the axis")


def u_interweave(c, num, n, cols, mixed=False):
    """interweave: element i of array k ends up at i * num + k, values unchanged."""
    A = []
    for k in range(num):
        if mixed and k == 0:
            A.append(c.np.array([[c.int(f"z{i}{j}", -9, 9) for j in range(cols)] for i in range(n)]))
        else:
            A.append(c.np.array([[c.real(f"z{k}{i}{j}", -9, 9) for j in range(cols)] for i in range(n)]))
    before = [a.tolist() for a in A]
    got = c.lp.interweave(A)
    c.check(tuple(got.shape) == (num * n, cols), "shape")
    for i in range(n):
        for k in range(num):
            c.close(got[i * num + k], before[k][i], "order of the rows")
    for a, b in zip(A, before):
        c.close(a, b, "arguments are unchanged")
    c.observe("g", got)


def u_lookup(c, n, inf=False):
    """create_lookup_table: sorted unique values, and indices that reproduce the array."""
    x = [c.real(f"x{i}", -3, 3) for i in range(n)]
    a = c.np.array([x[: n // 2] + ([math.inf] if inf else []), x[n // 2: n // 2 * 2] + ([math.inf] if inf else [])])
    vals, ind = c.lp.utils.create_lookup_table(a)
    v = vals.tolist()
    for p, q in zip(v, v[1:]):
        c.check(p < q, "values are sorted and unique")
    c.check(tuple(ind.shape) == tuple(a.shape), "shape of the indices")
    for i, w in zip(c.flat(ind), c.flat(a)):
        i = int(i)
        c.check(0 <= i < len(v), "valid index")
        c.check(v[i] == w, "index points to the value")
    for p in v:
        c.check(c.or_(*[p == w for w in c.flat(a)]), "only values of the array")
    c.observe("v", vals)


def u_lookup_big(c, n):
    """More distinct values than the default index type can number."""
    s = c.real("s", 0.5, 2)
    a = c.np.array([s * ((7 * i) % n) for i in range(n)])
    vals, ind = c.lp.utils.create_lookup_table(a)
    c.check(len(vals) == n, "number of values")
    for k in range(n):
        c.check(int(ind[k]) == (7 * k) % n, "index points to the value")


def u_mindtype(c, signed, n=1):
    """min_dtype: a data type that holds all given integers."""
    x = [c.int(f"x{i}", -2 ** 40, 2 ** 40) for i in range(n)]
    if signed is None:
        dt = c.lp.min_dtype(x if n > 1 else x[0])
        signed = True
    else:
        dt = c.lp.min_dtype(x if n > 1 else x[0], signed=signed)
    import numpy as np
    info = np.iinfo(np.dtype(str(dt)))
    for v in x:
        c.check(c.and_(int(info.min) <= v, v <= int(info.max)), "the data type holds the value")
    if signed:
        c.check(int(info.min) < 0, "signed data type")
    small = {8: None, 16: 8, 32: 16, 64: 32}[info.bits]
    if small:
        si = np.iinfo(f"int{small}" if info.min < 0 else f"uint{small}")
        c.check(c.or_(*[c.or_(v <= int(si.min) + 1, v >= int(si.max)) for v in x]),
                "no smaller data type would do")


def u_chain(c, n, cycle):
    """chain: consecutive pairs, closed for cycles."""
    x = [c.real(f"x{i}", -5, 5) for i in range(n)]
    got = c.lp.chain(x, cycle=cycle)
    want = [[x[i], x[i + 1]] for i in range(n - 1)] + ([[x[-1], x[0]]] if cycle else [])
    c.check(len(got) == len(want), "number of pairs")
    for p, q in zip(got, want):
        c.close(list(p), q, "pair")


# ---- C16 vector geometry ------------------------------------------------------------------

def rounded(c, x, k):
    """x is a multiple of 10 ** -k"""
    t = x * 10 ** k
    f = c.np.rint(t)
    c.check(c.and_(f - t <= 1e-6, t - f <= 1e-6), "multiple of the last decimal")


def v_distance(c, dim):
    """distance: the Euclidean metric."""
    x, y, z = ([c.real(f"{n}{k}", -5, 5) for k in range(dim)] for n in "xyz")
    a = c.np.array
    d = c.lp.distance(a(x), a(y))
    c.check(d >= 0, "distances are not negative")
    c.close(d * d, norm2(sub(x, y)), "Euclidean distance", 1e-5)
    c.close(c.lp.distance(a(y), a(x)), d, "symmetry")
    if dim > 1:
        y = [y[0]] + x[1:]
        d = c.lp.distance(a(x), a(y))
    for k in (0, 2):
        r, e = c.lp.distance(a(x), a(y), decimals=k), 0.5 * 10 ** -k + 1e-9
        c.check(c.and_(r - d <= e, d - r <= e), "rounded distance")
        rounded(c, r, k)
    c.observe("d", d)


def v_distances(c, dim, form):
    """distances: row-wise Euclidean distances."""
    X = [[c.real(f"x{i}{k}", -5, 5) for k in range(dim)] for i in range(2)]
    Y = [[c.real(f"y{i}{k}", -5, 5) for k in range(dim)] for i in range(2)]
    if form == "one":
        Y = [Y[0], Y[0]]
        d = c.lp.distances(c.np.array(Y[0]), c.np.array(X))
    else:
        d = c.lp.distances(c.np.array(X), c.np.array(Y))
    c.check(d.shape == (2,), "one distance per row")
    for i in range(2):
        c.check(d[i] >= 0, "distances are not negative")
        c.close(d[i] * d[i], norm2(sub(X[i], Y[i])), "Euclidean distance", 1e-5)
    c.observe("d", d)
    X, Y = X[:1], [[y] + x[1:] for x, (y, *_) in zip(X, Y[:1])]
    d = c.lp.distances(c.np.array(X), c.np.array(Y))
    for k in (0, 1):
        r, e = c.lp.distances(c.np.array(X), c.np.array(Y), decimals=k), 0.5 * 10 ** -k + 1e-9
        c.check(r.shape == (1,), "one distance per row")
        c.check(c.and_(r[0] - d[0] <= e, d[0] - r[0] <= e), "rounded distance")
        rounded(c, r[0], k)


def matmul(a, b):
    return [[dot(r, [b[k][j] for k in range(len(b))]) for j in range(len(b[0]))] for r in a]


def v_rotation(c, ax):
    """rx, ry, rz: proper rotations about their axis by the right-hand rule."""
    t = c.real("t", -7, 7)
    np = c.np
    R = rows(getattr(c.lp.spatial, "r" + "xyz"[ax])(t))
    co, si = np.cos(t), np.sin(t)
    u, v = (ax + 1) % 3, (ax + 2) % 3
    want = [[0.0] * 3 for _ in range(3)]
    want[ax][ax] = 1.0
    want[u][u] = want[v][v] = co
    want[v][u], want[u][v] = si, -si
    c.close(R, want, "rotation matrix")
    c.close(matmul(R, [list(x) for x in zip(*R)]), [[1.0 if i == j else 0.0 for j in range(3)] for i in range(3)],
            "rotations are orthogonal")
    c.close(det(R), 1.0, "rotations have determinant one")


def v_rot(c, which):
    """rotate3d / rot: product of the rotations about z, y and x; lengths are kept."""
    sp = c.lp.spatial
    np = c.np
    a = [c.real(f"a{k}", -4, 4) for k in range(3)]
    th = [c.real(f"t{k}", 0.1, 3) if k in which else 0.0 for k in range(3)]
    got = sp.rotate3d(np.array(a), *th, degree=False)
    M = matmul(rows(sp.rz(th[2])), matmul(rows(sp.ry(th[1])), rows(sp.rx(th[0]))))
    c.close(got, matmul([a], M), "rotation of a vector", 1e-5)
    c.close(sp.rot(*th), M, "rotation matrix", 1e-5)
    if len(which) == 1:
        c.close(norm2(c.flat(got)), norm2(a), "lengths are kept", 1e-5)


def v_rotate2d(c, degree):
    """rotate2d: keeps lengths and turns by the angle."""
    sp = c.lp.spatial
    np = c.np
    a = [c.real(f"a{k}", -4, 4) for k in range(2)]
    t = c.real("t", -7, 7)
    rad = t * (math.pi / 180) if degree else t
    got = sp.rotate2d(np.array(a), t) if degree else sp.rotate2d(np.array(a), t, degree=False)
    R = rows(sp.rz(np.deg2rad(t) if degree else t))
    R = [r[:2] for r in R[:2]]
    c.close(got, matmul([a], R), "rotation of a vector", 1e-5)
    c.close(norm2(c.flat(got)), norm2(a), "lengths are kept", 1e-5)


def v_degree(c, deg):
    """Angles in degrees: the same as the angle in radians."""
    sp = c.lp.spatial
    np = c.np
    a = [c.real(f"a{k}", -4, 4) for k in range(3)]
    t = math.radians(deg)
    c.close(sp.rotate2d(np.array(a[:2]), deg), sp.rotate2d(np.array(a[:2]), t, degree=False), "degrees (2D)")
    co, si = math.cos(t), math.sin(t)
    x, y, z = a
    c.close(sp.rotate2d(np.array(a[:2]), deg), [co * x + si * y, -si * x + co * y], "rotation in the plane")
    c.close(sp.rotate3d(np.array(a), thetaz=deg), [co * x + si * y, -si * x + co * y, z], "rotation about z")
    c.close(sp.rotate3d(np.array(a), thetax=deg), [x, co * y + si * z, -si * y + co * z], "rotation about x")
    c.close(sp.rotate3d(np.array(a), thetay=deg), [co * x - si * z, y, si * x + co * z], "rotation about y")


def v_vectors(c, dim, ang, dec=None):
    """compute_vectors: vectors of the given lengths and angles."""
    L = [c.real(f"l{k}", 0.25, 5) for k in range(dim)]
    if dim == 1:
        c.close(c.lp.compute_vectors(L[0]), [L[0]], "one vector")
        return
    kw = dict(zip(("alpha", "beta", "gamma"), ang))
    V = rows(c.lp.compute_vectors(*L, **kw))
    if dec:
        W = rows(c.lp.compute_vectors(*L, decimals=dec, **kw))
        for v, w in zip(V, W):
            for x, y in zip(v, w):
                c.check(abs(x - y) <= 0.5 * 10 ** -dec + 1e-9, "rounded to the decimals")
                z = y * 10 ** dec
                c.close(c.np.round(z), z, "rounded to the decimals")
        return
    for v, x in zip(V, L):
        c.close(norm2(v), x * x, "length of a vector", 1e-5)
    if dim == 2:
        pairs = [(0, 1, ang[0])]
    else:
        pairs = [(1, 2, ang[0]), (0, 2, ang[1]), (0, 1, ang[2])]
    for i, j, x in pairs:
        c.close(dot(V[i], V[j]), L[i] * L[j] * math.cos(math.radians(x)), "angle between vectors", 1e-5)
    c.check(det(V) > 0, "right-handed")
    c.observe("v", V)


# ---- C17 atoms ----------------------------------------------------------------------------

KEYS = ["radius", "color", "spin", "energy"]


def a_mapping(c, steps):
    """Atom parameters behave like a dictionary, under every history of changes."""
    v0 = c.real("v0", -3, 3)
    r0 = c.real("r0", 0, 3)
    at = c.lp.Atom("X", radius=r0, energy=v0)
    other = c.lp.Atom("X")
    cp = at.copy()
    model = {"color": None, "radius": r0, "energy": v0}
    for s in range(steps):
        op = c.pick(f"op{s}", 0, 3)
        key = KEYS[c.pick(f"k{s}", 0, len(KEYS) - 1)]
        val = c.real(f"w{s}", -3, 3)
        if op == 0:
            at[key] = val
            model[key] = val
        elif op == 1:
            if key in model:
                del at[key]
                del model[key]
            else:
                def f():
                    del at[key]
                c.raises(KeyError, f, "deleting a missing parameter is an error")
        elif op == 2:
            if key in model:
                setattr(at, key, val)
                model[key] = val
        else:
            d = at.get(key, val)
            c.check(same_val(d, model.get(key, val)), "get returns the value or the default")
    c.check(len(at) == len(model) and sorted(at) == sorted(model), "parameters")
    for k in KEYS:
        c.check((k in at) == (k in model), "membership")
        if k in model:
            c.check(same_val(at[k], model[k]), "item access")
            c.check(same_val(getattr(at, k), model[k]), "attribute access")
            c.check(same_val(at.get(k), model[k]), "get")
        else:
            c.raises(KeyError, lambda: at[k], "missing parameter")
            c.check(at.get(k) is None, "get of a missing parameter")
            if k != "radius" and k != "color":
                c.raises(AttributeError, lambda: getattr(at, k), "missing attribute")
    d = at.dict()
    c.check(d["name"] == "X" and d["index"] == at.index, "dict has the name and the index")
    for k in model:
        c.check(same_val(d[k], model[k]), "dict has the parameters")
    # copies and other atoms are independent
    c.check(cp.name == "X" and cp == at and hash(cp) == hash(at), "equality by name")
    c.check(same_val(cp["energy"], v0) and same_val(cp["radius"], r0), "a copy is independent")
    c.check(same_val(other["radius"], 0.2) and "energy" not in other, "other atoms are independent")
    c.check(len({at.index, cp.index, other.index}) == 3, "indices are unique")
    for late in (at.copy(), copy.copy(at)):
        c.check(type(late) is c.lp.Atom and late.name == "X" and late.index != at.index, "a copy is a new atom")
        c.check(len(late) == len(model) and sorted(late) == sorted(model)
                and all(same_val(late[k], model[k]) for k in model), "a copy has the same parameters")
        for k in KEYS:
            late[k] = 17.0
        for k in list(late):
            del late[k]
        c.check(len(at) == len(model) and sorted(at) == sorted(model)
                and all(same_val(at[k], model[k]) for k in model), "changing a copy changes nothing else")


def same_val(a, b):
    if a is None or b is None:
        return a is b
    return a == b


def a_identity(c):
    """Atoms are equal exactly if their names are, compare to strings, and keep their weight."""
    names = ["A", "B", "AB", None, "a", "Co", "CO", "A ", "B1", "B2"]
    i, j = c.pick("i", 0, 9), c.pick("j", 0, 9)
    w = c.real("w", 0, 5)
    p, q = c.lp.Atom(names[i], weight=w), c.lp.Atom(names[j])
    n, m = names[i] or "A", names[j] or "A"
    c.check(p.name == n, "name")
    c.check((p == q) == (n == m) and (p != q) == (n != m), "equality of atoms")
    c.check(p.is_identical(q) == (n == m), "identity of atoms")
    c.check((p == m) == (n == m), "comparison with a name")
    if n == m:
        c.check(hash(p) == hash(q), "equal atoms have equal hashes")
    c.close(p.weight, w, "weight")
    c.close(p.copy().weight, w, "weight of a copy")
    c.check(len({p: 1, q: 2}) == (1 if n == m else 2), "atoms as dictionary keys")


# ---- C19 Wigner-Seitz cells ---------------------------------------------------------------

def cell_points(B):
    dim = len(B)
    return [(n, comb(n, B)) for n in itertools.product(range(-3, 4), repeat=dim)]


def w_check(c, name, recip=False, num=1):
    """A point is in the Wigner-Seitz cell exactly if no lattice point is closer than the origin."""
    B = BASES[name]
    basis = c.lp.LatticeBasis(B if len(B) > 1 else B[0][0])
    ws = basis.brillouin_zone() if recip else basis.wigner_seitz_cell()
    if recip:
        import numpy as np
        B = (2 * math.pi * np.linalg.inv(np.array(B)).T).tolist()
    dim = len(B)
    ext = max(math.sqrt(norm2(b)) for b in B)
    x = [c.real(f"x{k}", -1.5 * ext, 1.5 * ext) for k in range(dim)]
    ins = []
    for n, p in cell_points(B):
        if not any(n):
            continue
        z = dot(x, p) - norm2(p) / 2
        if relevant(B, p):
            away(c, z, 0)
            ins.append(z <= 0)
    got = ws.check(c.np.array([x] * num) if num > 1 else c.np.array(x))
    for g in c.flat(got):
        c.check(c.iff(g, c.and_(*ins)), "in the cell exactly if the origin is the closest lattice point")
    lim = rows(ws.limits)
    for k in range(dim):
        c.check(c.implies(c.and_(*ins), c.and_(lim[k][0] - 1e-6 <= x[k], x[k] <= lim[k][1] + 1e-6)),
                "limits enclose the cell")
        c.close(ws.size[k], lim[k][1] - lim[k][0], "size")
    c.observe("g", got)


_REL = {}


def relevant(B, p):
    key = (tuple(map(tuple, B)), tuple(p))
    if key not in _REL:
        _REL[key] = bool(_relevant(B, p))
    return _REL[key]


_CP = {}


def _cp(B):
    key = tuple(map(tuple, B))
    if key not in _CP:
        import numpy as np
        _CP[key] = np.array([q for n, q in cell_points(B) if any(n)])
    return _CP[key]


def _relevant(B, p):
    """Only lattice vectors whose bisector can touch the cell matter (the others are implied)."""
    import numpy as np
    P = _cp(B)
    m = np.array(p) / 2
    d = np.linalg.norm(P - m, axis=1)
    return np.all(d >= np.linalg.norm(m) - 1e-7)


def w_vertices(c, name, recip=False):
    """Vertices, limits and symmetry points of the cell, for all lattice constants.

    The geometry is concrete; the query point of the supporting planes is symbolic: every convex
    combination of the vertices is in the (closed) cell, and no vertex is cut off."""
    B = BASES[name]
    basis = c.lp.LatticeBasis(B if len(B) > 1 else B[0][0])
    ws = basis.brillouin_zone() if recip else basis.wigner_seitz_cell()
    if recip:
        import numpy as np
        B = (2 * math.pi * np.linalg.inv(np.array(B)).T).tolist()
    dim = len(B)
    V = rows(ws.vertices)
    planes = [(p, norm2(p) / 2) for n, p in cell_points(B) if any(n) and relevant(B, p)]
    for v in V:
        on = 0
        for p, h in planes:
            c.check(dot(v, p) <= h + 1e-6, "vertices belong to the cell")
            on += dot(v, p) >= h - 1e-6
        c.check(on >= dim, "a vertex lies on as many faces as dimensions")
    # the cell does not extend beyond the convex hull of the vertices (for every point x)
    x = [c.real(f"y{k}", -20, 20) for k in range(dim)]
    c.assume(c.and_(*[dot(x, p) <= h for p, h in planes]))
    if dim == 1:
        lo, hi = min(v[0] for v in V), max(v[0] for v in V)
        c.check(c.and_(lo - 1e-6 <= x[0], x[0] <= hi + 1e-6), "the vertices span the whole cell")
    else:
        import scipy.spatial as real_spatial
        for eq in real_spatial.ConvexHull(V).equations.tolist():
            c.check(dot(x, eq[:-1]) + eq[-1] <= 1e-5, "the vertices span the whole cell")
    o, corners, ec, fc = ws.symmetry_points()
    c.close(o, [0.0] * dim, "origin")
    c.close(corners, V, "corners")
    if dim == 1:
        c.check(ec is None and fc is None, "no edges in one dimension")
        return
    for e in rows(ec):
        on = [h - dot(e, p) for p, h in planes]
        c.check(min(on) >= -1e-6, "edge centres belong to the cell")
        c.check(sum(x <= 1e-6 for x in on) >= dim - 1, "edge centres lie on the faces")
        c.check(any(math.dist(e, [(s + t) / 2 for s, t in zip(v, w)]) < 1e-6
                    for v, w in itertools.combinations(V, 2)), "edge centres are the middle of two corners")
    if dim == 2:
        c.check(len(rows(ec)) == len(V) and fc is None, "as many edges as corners")
    else:
        F = rows(fc)
        for p, h in planes:
            if sum(abs(dot(v, p) - h) < 1e-6 for v in V) >= 3:
                c.check(any(abs(dot(f, p) - h) < 1e-6 for f in F), "every face has a centre")
        for f in F:
            on = [h - dot(f, p) for p, h in planes]
            c.check(min(on) >= -1e-6 and min(on) <= 1e-6, "face centres lie on a face")


def w_grid(c, name, kind):
    """linspace / arange / meshgrid of the cell: regular grids, points outside are NaN."""
    B = BASES[name]
    dim = len(B)
    ws = c.lp.LatticeBasis(B if dim > 1 else B[0][0]).wigner_seitz_cell()
    lim = rows(ws.limits)
    if kind == "arange":
        off = c.real("off", 0, 0.5)
        st = [c.real(f"st{k}", 0.4, 3) for k in range(dim)]
        g = ws.arange(st, off)
        one = ws.arange(st[0], off)
        c.check(len(g) == dim and len(one) == dim, "one axis per dimension")
        for ax, ss in ((g, st), (one, [st[0]] * dim)):
            for k in range(dim):
                lo, hi = lim[k][0] * (1 + off), lim[k][1] * (1 + off)
                c.check(len(ax[k]) >= 1, "the lower limit is part of the grid")
                for i, v in enumerate(ax[k]):
                    c.close(v, lo + i * ss[k], "grid points")
                    c.check(v <= hi + 1e-6, "grid points are within the limits")
                c.check(lo + len(ax[k]) * ss[k] >= hi - 1e-6, "the grid covers the limits")
    elif kind == "linspace":
        off = c.real("off", 0, 1)
        for end in (False, True):
            g = ws.linspace([3, 4, 5][:dim], off, endpoint=end)
            c.check(len(g) == dim, "one axis per dimension")
            for k in range(dim):
                n = 3 + k
                lo, hi = lim[k][0] * (1 + off), lim[k][1] * (1 + off)
                c.close(g[k], [lo + (hi - lo) * i / (n - 1 if end else n) for i in range(n)], "grid points")
        g = ws.linspace(4, off)
        c.check([len(x) for x in g] == [4] * dim, "same number of points on all axes")
    else:
        n = c.pick("n", 2, 4)
        off = c.pick("o", 0, 2) / 4
        grid = ws.meshgrid(nums=n, offset=off, check=True)
        full = ws.meshgrid(nums=n, offset=off, check=False)
        lin = ws.linspace(n, off)
        planes = [(p, norm2(p) / 2) for m, p in cell_points(B) if any(m) and relevant(B, p)]
        import numpy as rnp
        F = rnp.array(full.tolist()).reshape(dim, -1).T
        G = rnp.array(grid.tolist()).reshape(dim, -1).T
        c.check(len(F) == n ** dim, "number of grid points")
        have = {tuple(round(float(v), 9) for v in r) for r in F}
        c.check(have == {tuple(round(float(v), 9) for v in r) for r in
                         itertools.product(*[x.tolist() for x in lin])}, "all grid points")
        for f, g in zip(F, G):
            z = [h - float(rnp.dot(f, p)) for p, h in planes]
            if min(z) > 1e-6:
                c.check(bool(rnp.allclose(f, g)), "points inside are kept")
            elif min(z) < -1e-6:
                c.check(bool(rnp.all(rnp.isnan(g))), "points outside are masked")


def v_tree(c, dim, n, what):
    """Queries of the tree: exactly the points within the distance."""
    P = [vec(c, f"p{i}", dim, -4, 4) for i in range(n)] if what != "points" else \
        [[0.0, 0.5, -1.0][:dim], [1.0, -0.25, 2.0][:dim], [2.5, 1.5, 0.75][:dim], [-1.25, -2.0, 1.0][:dim]][:n]
    D = {}
    for i in range(n):
        for j in range(i):
            D[i, j] = D[j, i] = norm2(sub(P[i], P[j]))
            if what != "points":
                c.assume(D[i, j] >= 0.01)
    tree = lambda *a, **k: c.lp.spatial.KDTree(c.np.array(P), *a, **k)  # noqa: E731
    if what == "pairs":
        r = c.real("r", 0.25, 6)
        for v in D.values():
            away(c, v, r * r)
        t = tree()
        got = {(int(i), int(j)) for i, j in t.query_pairs(r)}
        c.check(all(i < j for i, j in got), "pairs are ordered")
        ball = t.query_ball_point(c.np.array(P[0]), r)
        other = t.query_ball_tree(tree(), r)
        for (i, j), v in D.items():
            if i < j:
                c.check(c.iff(v <= r * r, (i, j) in got), "pairs within the distance")
            c.check(c.iff(v <= r * r, j in [int(x) for x in other[i]]), "points within the distance of a point of the other tree")
            if i == 0:
                c.check(c.iff(v <= r * r, j in [int(x) for x in ball]), "points within the distance")
        c.check(0 in [int(x) for x in ball], "the point itself")
        return
    m = c.real("m", 0.5, 6)
    for v in D.values():
        away(c, v, m * m)
    if what == "points":  # other points, some of which coincide with points of the tree
        x = vec(c, "x", dim, -4, 4)
        d2 = [norm2(sub(x, p)) for p in P]
        for v in d2:
            c.assume(v >= 0.01)
            away(c, v, m * m)
        inc = bool(c.pick("zero", 0, 1))
        Q = [x, P[0]] if c.pick("order", 0, 1) else [P[0], x]
        nb, ds = tree(n, m).query(c.np.array(Q), include_zero=inc)
        i = Q.index(x)
        row, dist = [int(v) for v in nb[i]], list(ds[i])
        for j in range(n):
            c.check(c.iff(d2[j] < m * m, j in row), "points of the tree within the distance")
            if j in row:
                d = dist[row.index(j)]
                c.close(d * d, d2[j], "distance of a point", tol=1e-5)
        row = [int(v) for v in nb[1 - i]]
        for j in range(1, n):
            c.check(c.iff(D[0, j] < m * m, j in row), "neighbours of a point of the tree")
        return
    if what == "one":  # a tree that looks for the closest point only
        one = tree(1, m) if c.pick("max", 0, 1) else tree()
        nb, ds = one.query(include_zero=True)
        c.check(ints(nb) == [[i] for i in range(n)], "the closest point of the tree to a point of the tree is itself")
        c.close(ds, [[0.0]] * n, "distance to itself")
        nb, ds = one.query()
        c.check(tuple(nb.shape) == (n, 0) and tuple(ds.shape) == (n, 0), "no other points")
        x = [P[0][k] + (P[1][k] - P[0][k]) * 0.25 for k in range(dim)]
        nb, ds = tree().query(c.np.array([x]), include_zero=True)
        d2 = [norm2(sub(x, p)) for p in P]
        c.check(len(nb) == 1 and len(nb[0]) == 1, "one closest point")
        j = int(nb[0][0])
        for k in range(n):
            c.check(d2[j] <= d2[k] + 1e-6, "no point is closer")
        c.close(ds[0][0] * ds[0][0], d2[j], "distance of the closest point", tol=1e-5)
        return
    full = tree(n, m)
    zero = bool(c.pick("zero", 0, 1))
    comp = bool(c.pick("comp", 0, 1))
    nb, ds = full.query(include_zero=zero, compact=comp)
    nb, ds = rows(nb), rows(ds)
    c.check(len(nb) == n and len(ds) == n, "one row per point")
    width = len(nb[0])
    if not comp:
        c.check(width == n - (not zero), "one column per neighbour")
    for i in range(n):
        c.check(len(nb[i]) == width and len(ds[i]) == width, "rectangular tables")
        js = [int(x) for x in nb[i]]
        val = [j for j in js if j < n]
        c.check(js == val + [n] * (width - len(val)), "missing neighbours are marked at the end of a row")
        c.check(len(set(val)) == len(val), "a neighbour is listed once")
        c.check((i in val) == zero, "the point itself")
        for j in range(n):
            if j != i:
                c.check(c.iff(D[i, j] < m * m, j in val), "neighbours are the points within the maximum distance")
        for k, j in enumerate(js):
            if j == n:
                c.check(math.isinf(float(ds[i][k])), "distance of a missing neighbour")
            elif j == i:
                c.close(ds[i][k], 0.0, "distance to itself")
            else:
                c.close(ds[i][k] * ds[i][k], D[i, j], "distance of a neighbour")
        for k in range(1, len(val)):
            c.check(ds[i][k] >= ds[i][k - 1] - 1e-9, "distances are ascending")
    if comp and width:
        c.check(any(int(r[-1]) < n for r in nb), "no empty columns")


# ---- C20 dispersion paths -----------------------------------------------------------------

def k_path(c, dim, num, n, cycle=False):
    """A path visits its points in order on straight, evenly sampled sections."""
    P = [[c.real(f"p{i}{k}", -4, 4) for k in range(dim)] for i in range(num)]
    path = c.lp.DispersionPath(dim) if c.pick("dim", 0, 1) else c.lp.DispersionPath()
    path.add_points(P[:-1], names=["a%d" % i for i in range(num - 1)])
    path.add(P[-1], "z")
    labels = ["a%d" % i for i in range(num - 1)] + ["z"]
    if cycle:
        path.cycle()
        P = P + [P[0]]
        labels = labels + [labels[0]]
    c.check(path.num_points == len(P), "number of points")
    ks = path.build(n)
    c.check(tuple(ks.shape) == ((len(P) - 1) * n, dim), "number of samples")
    R = rows(ks)
    for s in range(len(P) - 1):
        for i in range(n):
            w = [a + (b - a) * i / (n - 1) for a, b in zip(P[s], P[s + 1])]
            c.close(R[s * n + i], w, "samples on the straight section")
    ticks, lab = path.get_ticks()
    c.same(ticks, [i * n for i in range(len(P))], "ticks")
    c.check(list(lab) == labels, "labels")
    c.check(len(path.edges()) == len(P) - 1, "number of sections")
    for (a, b), p, q in zip(path.edges(), P, P[1:]):
        c.close([list(a), list(b)], [p, q], "section")
    d = path.distances()
    for x, p, q in zip(d.tolist(), P, P[1:]):
        c.check(x >= 0, "length of a section")
        c.close(x * x, norm2(sub(p, q)), "length of a section", 1e-5)
    c.assume(norm2(sub(P[0], P[1])) >= 0.01)
    sc = path.scales().tolist()
    for s, x in zip(sc, d.tolist()):
        c.close(s * d[0], x, "sections are scaled by their length", 1e-5)
    c.observe("k", ks)


def k_long(c, num, n):
    """Long paths: the ticks mark the sample where a section starts."""
    x = c.real("x", 0.5, 4)
    path = c.lp.DispersionPath(1)
    path.add_points([[x * (i % 3)] for i in range(num)])
    ks = path.build(n)
    c.check(tuple(ks.shape) == ((num - 1) * n, 1), "number of samples")
    ticks, lab = path.get_ticks()
    ticks = [int(t) for t in ticks]
    c.check(ticks == [i * n for i in range(num)], "ticks")
    c.check(len(lab) == num, "labels")
    for i in range(num - 1):
        c.close(ks[i * n][0], x * (i % 3), "a section starts at its tick")


class Canvas:
    """Stand-in for the axes of a plot: records the lines."""

    def __init__(self):
        self.lines = []

    def plot(self, x, y, *args, **kw):
        self.lines.append((x, y, kw))

    def get_figure(self):
        return self

    def get_xlim(self):
        return 0, 1

    def __getattr__(self, name):
        return lambda *a, **kw: None


def k_plot(c, num, n, dos=False):
    """The dispersion is drawn over sections that are as wide as the scale of the section."""
    P = [c.real(f"p{i}", 3 * i, 3 * i + 2) for i in range(num)]
    path = c.lp.DispersionPath(1)
    path.add_points([[p] for p in P])
    size = (num - 1) * n
    E = [[c.real(f"e{i}{b}", -2, 2) for b in range(2)] for i in range(size)]
    disp = c.np.array(E)
    ax, ax2 = Canvas(), Canvas()
    if dos:
        D = [(c.np.array([0.0, 1.0]), c.np.array([c.real(f"d{b}", 0, 1), 0.5])) for b in range(2)]
        path.plot_disp_dos(disp, D, axs=(ax, ax2), show=False, fill=False)
        c.check(len(ax2.lines) == 2, "one density of states per band")
        for (x, y, _), (bins, d) in zip(ax2.lines, D):
            c.close(list(x), list(d), "density of states")
            c.close(list(y), list(bins), "energies of the density of states")
    else:
        path.plot_dispersion(disp, ax=ax, show=False)
    c.check(len(ax.lines) == 2, "one line per band")
    for b, (x, y, _) in enumerate(ax.lines):
        x = list(x)
        c.check(len(x) == size and len(list(y)) == size, "all samples are drawn")
        c.close(list(y), [e[b] for e in E], "energies of a band")
        k0 = 0
        for s in range(num - 1):
            for i in range(n):
                # scale of a section relative to the first one
                c.close(x[s * n + i] * (P[1] - P[0]), k0 + i * (P[s + 1] - P[s]), "sections are as wide as their scale", 1e-5)
            k0 = k0 + (n - 1) * (P[s + 1] - P[s])


def k_prefab(c, name):
    """Predefined paths: the high-symmetry points of the lattice constant."""
    a = c.real("a", 0.25, 8)
    D = c.lp.DispersionPath
    x = math.pi / a
    if name == "chain":
        path, want, dim = D.chain_path(a), [[x], [0], [x]], 1
    elif name == "square":
        path, want, dim = D.square_path(a), [[0, 0], [x, 0], [x, x], [0, 0]], 2
    else:
        path, want, dim = D.cubic_path(a), [[0, 0, 0], [x, 0, 0], [x, x, 0], [0, 0, 0], [x, x, x]], 3
    c.check(path.dim == dim and path.num_points == len(want), "dimension and number of points")
    for p, w in zip(path.points, want):
        c.close(p, w, "high-symmetry point", 1e-5)
    c.check(len(path.labels) == len(want), "labels")
    R = rows(path.build(2))
    for i, (p, q) in enumerate(zip(want, want[1:])):
        c.close(R[2 * i], p, "start of the section", 1e-5)
        c.close(R[2 * i + 1], q, "end of the section", 1e-5)
