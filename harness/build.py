"""C06-C08, C11, C13: finite lattices through the public interface."""
from .common import *
from .geo import GEO
from .model import *


def cells(dim, m=None):
    m = m or {1: 12, 2: 10, 3: 4, 4: 2}[dim]
    return itertools.product(range(-m, m + 1), repeat=dim)


def site_check(c, latt, cand, inside):
    """The built sites are exactly the candidates for which ``inside`` holds."""
    ind = ints(latt.indices)
    have = {tuple(i) for i in ind}
    c.check(len(have) == len(ind), "no duplicate sites")
    for (i, x), ins in zip(cand, inside):
        if tuple(i) in have:
            c.check(ins, "built site lies inside the shape")
        else:
            c.check(c.not_(ins), "site inside the shape is built")
    c.check(have <= {tuple(i) for i, _ in cand}, "only sites inside the shape are built")
    return ind


def apart(c, x, v, eps=0.01):
    """Stay away from the documented tolerance (1e-3) of the boundary; exactly on it is allowed
    where floating-point numbers represent it."""
    eps = eps if c.sym else eps / 2
    away = c.or_(x >= v + eps, x <= v - eps)
    c.assume(c.or_(x == v, away) if float(v * 16).is_integer() else away)


def locate(c, x, values, eps=0.01):
    """Case split on the interval between ``values`` that holds x; stay away from its ends."""
    v = sorted(set(values))
    eps = eps if c.sym else eps * 0.75
    lo, hi = 0, len(v)
    while lo < hi:
        mid = (lo + hi) // 2
        if c.branch(x < v[mid]):
            hi = mid
        else:
            lo = mid + 1
    if lo:
        c.assume(x >= v[lo - 1] + eps)
    if lo < len(v):
        c.assume(x <= v[lo] - eps)


def b_box(c, geo, smax, pmax, pos, nbr=True, cap=None):
    """build(shape, pos): exactly the sites inside the box, for all boxes; exact neighbours."""
    g = GEO[geo]
    latt = g.make(c, 1.0)
    s = [c.real(f"s{i}", 0, smax) for i in range(g.dim)]
    p = [c.real(f"p{i}", -pmax, pmax) for i in range(g.dim)] if pos else [0] * g.dim
    cand = []
    for n in cells(g.dim):
        for al in range(g.nb):
            x = g.pos(n, al)
            if all(-pmax - 1e-9 <= y <= pmax + smax + 1e-9 for y in x):
                cand.append((list(n) + [al], x))
    for ax in range(g.dim):
        for v in sorted({round(x[ax], 9) for _, x in cand}):
            for lim in ((p[ax], s[ax] + p[ax]) if pos else (s[ax],)):
                apart(c, lim, v)
    inside = [c.and_(*[c.and_(p[k] - 1e-4 <= x[k], x[k] <= p[k] + s[k] + 1e-4) for k in range(g.dim)])
              for _, x in cand]
    c.assume(c.or_(*inside))
    kw = {"pos": p} if pos else {}
    latt.build(s if g.dim > 1 else s[0], **kw)
    ind = site_check(c, latt, cand, inside)
    for i, x in zip(ind, rows(latt.positions)):
        c.close(x, g.pos(i[:-1], i[-1]), "site position")
    if nbr:
        audit(c, latt, g, views=False)
    lim = rows(latt.limits())
    ps = [g.pos(i[:-1], i[-1]) for i in ind]
    for k in range(g.dim):
        c.close(lim[0][k], min(x[k] for x in ps), "lower limit")
        c.close(lim[1][k], max(x[k] for x in ps), "upper limit")
        c.close(latt.shape[k], max(x[k] for x in ps) - min(x[k] for x in ps), "shape of the lattice")
        c.close(latt.pos[k], min(x[k] for x in ps), "position of the lattice")
    c.observe("ind", ind)


def b_distant(c, geo, off, smax):
    """build far away from the origin: the same sites as near the origin, shifted by whole cells."""
    g = GEO[geo]
    latt = g.make(c, 1.0)
    o = [sum(k * v[i] for k, v in zip(off, g.V)) for i in range(g.dim)]
    s = [c.real(f"s{i}", 0, smax) for i in range(g.dim)]
    p = [x - 0.125 for x in o]
    cand = []
    for n in cells(g.dim):
        for al in range(g.nb):
            x = g.pos(n, al)
            if all(-0.125 <= y <= smax for y in x):
                cand.append(([i + k for i, k in zip(n, off)] + [al], x))
    for ax in range(g.dim):
        for v in sorted({round(x[ax], 9) for _, x in cand}):
            c.assume(c.or_(s[ax] - 0.125 <= v - 0.01, s[ax] - 0.125 >= v + 0.01))
    inside = [c.and_(*[c.and_(-0.125 <= x[k], x[k] <= s[k] - 0.125 + 1e-4) for k in range(g.dim)]) for _, x in cand]
    c.assume(c.or_(*inside))
    latt.build(s if g.dim > 1 else s[0], pos=p)
    ind = site_check(c, latt, cand, inside)
    for i, x in zip(ind, rows(latt.positions)):
        c.close(sub(x, o), g.pos([k - m for k, m in zip(i, off)], i[-1]), "site position", 1e-5)
    audit(c, latt, g, views=False)


def b_nvecs(c, geo, smax, pmax=None, kind="box", atoms=True):
    """build_translation_vectors: exactly the cells whose origin lies inside the shape."""
    g = GEO[geo]
    latt = g.make(c, 1.0) if atoms else c.lp.LatticeStructure(c.np.array(g.V))
    p = [c.real(f"p{i}", -pmax, pmax) if pmax else 0.0 for i in range(g.dim)]
    cand = []
    if kind == "box":
        s = [c.real(f"s{i}", 0, smax) for i in range(g.dim)]
        m, top = pmax or 0, smax
    else:
        r = c.real("r", 0.25, smax)
        p, m, top = [0.375] * g.dim, smax, 2 * smax + 0.5
    for n in cells(g.dim):
        x = [sum(k * v[i] for k, v in zip(n, g.V)) for i in range(g.dim)]
        if all(-m - 1e-9 <= y <= m + top + 1e-9 for y in x):
            cand.append((n, x))
    if kind == "box":
        for ax in range(g.dim):
            for v in sorted({round(x[ax], 9) for _, x in cand}):
                for lim in ((p[ax], s[ax] + p[ax]) if pmax else (s[ax],)):
                    apart(c, lim, v)
        inside = [c.and_(*[c.and_(p[k] - 1e-4 <= x[k], x[k] <= p[k] + s[k] + 1e-4) for k in range(g.dim)])
                  for _, x in cand]
        got = latt.build_translation_vectors(s if g.dim > 1 else s[0], **({"pos": p} if pmax else {}))
    else:
        ds = [math.dist(x, p) for _, x in cand]
        locate(c, r, [d for d in ds if d <= smax + 0.1])
        inside = [d <= r for d in ds]
        got = latt.build_translation_vectors(c.lp.Circle(p, r))
    rows_ = [tuple(r) for r in ints(got)]
    c.check(len(set(rows_)) == len(rows_), "each translation once")
    for (n, _), ins in zip(cand, inside):
        c.check(ins if tuple(n) in rows_ else c.not_(ins), "exactly the translations inside the shape")
    c.check(set(rows_) <= {tuple(n) for n, _ in cand}, "only translations inside the shape")


def b_points(c, geo, num=2, kind="box", tol=False):
    """check_points: exactly the points inside the shape."""
    g = GEO[geo]
    latt = g.make(c, 1.0)
    pts = [[c.real(f"x{i}{k}", -4, 6) for k in range(g.dim)] for i in range(num)]
    p = [c.real(f"p{i}", -2, 2) for i in range(g.dim)]
    s = [c.real(f"s{i}", 0, 3) for i in range(g.dim)]
    t = c.real("t", 0, 0.5) if tol else 1e-3
    eps = 1e-4 if c.sym else 5e-5
    for x in pts:
        for k in range(g.dim):
            for lim in (p[k] - t, p[k] + s[k] + t):
                c.assume(c.or_(x[k] <= lim - eps, x[k] >= lim + eps))
    want = [c.and_(*[c.and_(p[k] - t <= x[k], x[k] <= p[k] + s[k] + t) for k in range(g.dim)]) for x in pts]
    kw = {"tol": t} if tol else {}
    shape, pos = (s, p) if kind == "box" else (c.lp.Shape(s, pos=p), None)
    got = latt.check_points(c.np.array(pts), shape, pos=pos, **kw)
    c.check(len(got) == num, "one result per point")
    for m, w in zip(got, want):
        c.check(c.iff(m, w), "exactly the points inside the shape")


def b_indices(c, geo, L):
    """build_indices without a lattice model: the sites and, on request, their positions."""
    g = GEO[geo]
    a = c.real("a", 0.0625, 64)
    latt = g.make(c, a)
    s = box(c, g, L, a, free=False)
    ind, pos = latt.build_indices(s if g.dim > 1 else s[0], return_pos=True)
    c.check({tuple(i) for i in ints(ind)} == {tuple(i) for i in full_box(g, L)}, "sites of the box")
    only = latt.build_indices(s if g.dim > 1 else s[0])
    c.check(ints(only[0] if isinstance(only, tuple) else only) == ints(ind), "same indices without positions")
    for i, x in zip(ints(ind), rows(pos)):
        c.close(x, [y * a for y in g.pos(i[:-1], i[-1])], "site position")
    nb, d = latt.compute_neighbors(ind, pos)
    ind = ints(ind)
    want = wanted(g, ind)
    for i in range(len(ind)):
        have = {int(j): x for j, x in zip(rows(nb)[i], rows(d)[i]) if int(j) < len(ind)}
        c.check(set(have) == set(want[i]), "neighbours of a site")
        for j, x in have.items():
            c.close(x, want[i][j][0] * a, "distance of a neighbour")


def b_primdirect(c, geo, what, lmax=2, a=1.0):
    """Boxes in units of the lattice vectors without a lattice model (orthogonal vectors)."""
    g = GEO[geo]
    latt = g.make(c, a)
    w, _ = ortho(g)
    s = [c.real(f"s{i}", 0.15, lmax) for i in range(g.dim)]
    fr = {al: g.frac(g.atoms[al]) for al in range(g.nb)}
    ats = range(g.nb) if what != "nvecs" else [0]
    off = c.pick("off", -1, 1)
    for k, x in enumerate(s):
        locate(c, x, {round(m + fr[al][k], 9) for m in range(lmax + 1) for al in ats}, 0.12)
    pos = [off * x * a for x in w] if off else None
    cand = [(n, al) for n in itertools.product(range(-3, lmax + 4), repeat=g.dim) for al in ats]
    want = [c.and_(*[c.and_(n[k] - off + fr[al][k] >= -1e-9, n[k] - off + fr[al][k] <= s[k]) for k in range(g.dim)]) for n, al in cand]
    arg = s if g.dim > 1 else s[0]
    if what == "points":
        got = latt.check_points(c.np.array([[y * a for y in g.pos(n, al)] for n, al in cand]), arg, True, pos)
        for m, v in zip(got, want):
            c.check(c.iff(m, v), "points of the box")
        return
    if what == "nvecs":
        have = [tuple(x) + (0,) for x in ints(latt.build_translation_vectors(arg, True, pos))]
    else:
        have = [tuple(x) for x in ints(latt.build_indices(arg, True, pos)[0])]
    c.check(len(set(have)) == len(have), "everything once")
    for (n, al), v in zip(cand, want):
        c.check(c.iff(tuple(n) + (al,) in have, v), "cells of the box")
    c.check(set(have) <= {tuple(n) + (al,) for n, al in cand}, "only cells of the box")


def b_far(c, geo, base, size, ds=0.6, dp=0.4):
    """build(shape, pos) far away from the origin and for elongated boxes: exactly the sites inside."""
    g = GEO[geo]
    latt = g.make(c, 1.0)
    p = [b + c.real(f"p{i}", 0, dp) if dp else b for i, b in enumerate(base)]
    s = [x + c.real(f"s{i}", 0, ds) for i, x in enumerate(size)]
    corners = [g.frac(x) for x in itertools.product(*[(b - 0.5, b + dp + z + ds + 0.5) for b, z in zip(base, size)])]
    rng = []
    for k in range(g.dim):
        at = [g.frac(x)[k] for x in g.atoms]
        rng.append(range(math.floor(min(x[k] for x in corners) - max(at)) - 1,
                         math.ceil(max(x[k] for x in corners) - min(at)) + 2))
    cand = []
    for n in itertools.product(*rng):
        for al in range(g.nb):
            x = g.pos(n, al)
            if all(b - 0.01 <= y <= b + dp + z + ds + 0.01 for y, b, z in zip(x, base, size)):
                cand.append((list(n) + [al], x))
    for ax in range(g.dim):
        for v in sorted({round(x[ax], 9) for _, x in cand}):
            if dp and v <= base[ax] + dp + 0.02:
                apart(c, p[ax], v)
            if v >= base[ax] + size[ax] - 0.02:
                apart(c, s[ax] + p[ax], v)
    inside = [c.and_(*[c.and_(p[k] - 1e-4 <= x[k], x[k] <= p[k] + s[k] + 1e-4) for k in range(g.dim)])
              for _, x in cand]
    c.assume(c.or_(*inside))
    latt.build(s if g.dim > 1 else s[0], pos=p)
    ind = site_check(c, latt, cand, inside)
    for i, x in zip(ind, rows(latt.positions)):
        c.close(x, g.pos(i[:-1], i[-1]), "site position")
    c.observe("n", len(ind))


def b_shape(c, geo, kind, rmax, centre):
    """build with Circle / Donut / Shape objects of symbolic size (symbolic centre in 1D)."""
    g = GEO[geo]
    lp = c.lp
    latt = g.make(c, 1.0)
    o = [c.real("o0", -1, 1)] if centre is None else list(centre)
    R = rmax + 2
    cand = []
    for n in cells(g.dim):
        for al in range(g.nb):
            x = g.pos(n, al)
            if all(-R <= y <= R for y in x):
                cand.append((list(n) + [al], x))
    if centre is None:
        dist = [c.ite(x[0] >= o[0], x[0] - o[0], o[0] - x[0]) for _, x in cand]
    else:
        dist = [math.dist(x, o) for _, x in cand]
    r = c.real("r", 0.05, rmax)

    def away(r):
        if centre is not None:
            locate(c, r, dist)
            return
        for d in dist:
            c.assume(c.or_(d >= r + 0.01, d <= r - 0.01))

    away(r)
    inside = [d <= r for d in dist]
    if kind == "circle":
        shape = lp.Circle(o, r)
    else:
        q = c.real("q", 0.05, rmax)
        c.assume(q + 0.1 <= r)
        away(q)
        shape = lp.Donut(o, r, q)
        inside = [c.and_(i, d >= q) for i, d in zip(inside, dist)]
    c.assume(c.or_(*inside))
    latt.build(shape)
    ind = site_check(c, latt, cand, inside)
    audit(c, latt, g, views=False)
    c.observe("ind", ind)


def b_shapeobj(c, geo, prim, nsym=2):
    """build with a Shape object, optionally given in units of basis vectors."""
    g = GEO[geo]
    lp = c.lp
    latt = g.make(c, 1.0)
    s = [c.real(f"s{k}", 0.2, 1.8) for k in range(nsym)] + [1.4] * (g.dim - nsym)
    p = [0.25] + [-1.25] * (g.dim - 1)
    cand, co = [], []
    for n in cells(g.dim, 4):
        for al in range(g.nb):
            x = g.pos(n, al)
            cand.append((list(n) + [al], x))
            co.append(list(g.frac(x)) if prim else x)
    inside = []
    for x in co:
        cs = []
        for k in range(g.dim):
            if -1 < x[k] - p[k] < 3:
                apart(c, s[k] + p[k], round(x[k], 9))
            cs.append(c.and_(p[k] - 1e-4 <= x[k], x[k] <= p[k] + s[k] + 1e-4))
        inside.append(c.and_(*cs))
    c.assume(c.or_(*inside))
    latt.build(lp.Shape(s, p, basis=g.V if prim else None))
    site_check(c, latt, cand, inside)
    audit(c, latt, g, views=False)


def b_callback(c, geo, size, kind):
    """A callback filters exactly the sites it rejects; neighbours are the induced relation."""
    g = GEO[geo]
    latt = g.make(c, 1.0)
    full = [list(n) + [al] for n in cells(g.dim) for al in range(g.nb)
            if all(-1e-9 <= y <= s + 1e-9 for y, s in zip(g.pos(n, al), size))]
    if kind == "mask":
        keep = {tuple(i): c.bool("k" + "_".join(map(str, i))) for i in full}
        c.assume(c.or_(*keep.values()))

        def cb(indices, positions):
            c.check({tuple(i) for i in ints(indices)} == set(keep), "callback sees the sites of the shape")
            for i, x in zip(ints(indices), rows(positions)):
                c.close(x, g.pos(i[:-1], i[-1]), "callback sees the positions")
            return c.np.array([keep[tuple(i)] for i in ints(indices)])
    else:
        t = c.real("t", -0.5, max(size) + 0.5)
        for v in {g.pos(i[:-1], i[-1])[0] for i in full}:
            c.assume(c.or_(t >= v + 0.01, t <= v - 0.01))
        keep = {tuple(i): g.pos(i[:-1], i[-1])[0] < t for i in full}
        c.assume(c.or_(*keep.values()))

        def cb(indices, positions):
            return positions[:, 0] < t
    latt.build(size, callback=cb)
    have = {tuple(i) for i in ints(latt.indices)}
    for i in full:
        c.check(c.iff(keep[tuple(i)], tuple(i) in have), "exactly the accepted sites are built")
    c.check(have <= set(keep), "callback only removes sites")
    audit(c, latt, g, views=False)


def b_scale(c, geo, size, kw=None, at=None):
    """The finite lattice of a scaled geometry: same sites and relation for every scale."""
    g = GEO[geo]
    a = c.real("a", at or 0.0625, at or 64)
    latt = g.make(c, a)
    full = {tuple(n) + (al,) for n in cells(g.dim) for al in range(g.nb)
            if all(-1e-9 <= y <= s + 1e-9 for y, s in zip(g.pos(n, al), size))}
    sz = [s * a for s in size]
    latt.build(sz if g.dim > 1 else sz[0], **(kw or {}))
    audit(c, latt, g, a, sites=full)
    c.close(latt.volume(), abs(det(g.V)) * a ** g.dim * len({s[:-1] for s in full}), "volume", 1e-5)
    c.check(int(latt.num_cells) == len({s[:-1] for s in full}), "number of cells")


def b_primitive(c, geo, lmax, nsym=None, a=2.0):
    """primitive=True: the cells of the parallelepiped spanned by the basis vectors.

    Sizes within 0.12 of a site on the upper boundary are excluded (the library drops a tenth)."""
    g = GEO[geo]
    a = a or c.real("a", 0.25, 4)
    latt = g.make(c, a)
    s = [c.real(f"s{i}", 0, lmax) for i in range(nsym or g.dim)]
    s += [1.4] * (g.dim - len(s))
    fr = {al: g.frac(g.atoms[al]) for al in range(g.nb)}
    for x in s[:nsym]:
        locate(c, x, {round(k + f, 9) for k in range(lmax + 1) for al in range(g.nb) for f in fr[al]}, 0.12)
    latt.build(s if g.dim > 1 else s[0], primitive=True)
    have = {tuple(i) for i in ints(latt.indices)}
    for n in itertools.product(range(-2, lmax + 2), repeat=g.dim):
        for al in range(g.nb):
            ins = c.and_(*[c.and_(n[k] + fr[al][k] >= -1e-9, n[k] + fr[al][k] <= s[k])
                           for k in range(g.dim)])
            c.check(c.iff(ins, n + (al,) in have), "sites of the primitive box")
    audit(c, latt, g, a, views=False)


def b_primint(c, geo):
    """primitive=True with whole numbers of cells: the upper boundary belongs to the box."""
    g = GEO[geo]
    L = [c.pick(f"L{i}", 1, 2) for i in range(g.dim)]
    latt = g.make(c, 1.0)
    latt.build(L if g.dim > 1 else L[0], primitive=True)
    have = {tuple(i) for i in ints(latt.indices)}
    want = {n + (al,) for n in itertools.product(range(-2, 4), repeat=g.dim) for al in range(g.nb)
            if all(-1e-9 <= n[k] + f <= L[k] + 1e-9 for k, f in enumerate(g.frac(g.atoms[al])))}
    c.check(have == want, "upper boundary of the primitive box")


def b_history(c, geo, sizes):
    """Building again forgets everything about the previous finite lattice."""
    g = GEO[geo]
    latt = g.make(c, 1.0)
    i = c.pick("i", 0, len(sizes) - 1)
    j = c.pick("j", 0, len(sizes) - 1)
    per = c.pick("per", 0, 1)
    latt.build(sizes[i], periodic=0 if per else None)
    latt.dmap(), latt.neighbor_pairs()
    latt.build(sizes[j])
    full = {tuple(n) + (al,) for n in cells(g.dim) for al in range(g.nb)
            if all(-1e-9 <= y <= s + 1e-9 for y, s in zip(g.pos(n, al), sizes[j]))}
    c.check(len(latt.periodic_axes) == 0, "no periodic axes")
    audit(c, latt, g, sites=full)


def b_min(c, geo, size, m=None):
    """min_neighbors removes exactly the sites with too few neighbours."""
    g = GEO[geo]
    m = c.pick("m", 1, 3) if m is None else m
    full = [tuple(n) + (al,) for n in cells(g.dim) for al in range(g.nb)
            if all(-1e-9 <= y <= s + 1e-9 for y, s in zip(g.pos(n, al), size))]
    keep = {i: c.branch(c.bool("k" + "_".join(map(str, i)))) for i in full}
    c.assume(c.or_(*keep.values()))
    ind = [list(i) for i in full if keep[i]]
    want = wanted(g, ind)
    left = [i for i, w in zip(ind, want) if len(w) >= m]

    def cb(indices, positions):
        return c.np.array([keep[tuple(i)] for i in ints(indices)])

    latt = g.make(c, 1.0)
    if not left:
        c.raises(ValueError, lambda: latt.build(size, callback=cb, min_neighbors=m),
                 "removing all sites is an error")
        return
    latt.build(size, callback=cb, min_neighbors=m)
    audit(c, latt, g, sites=left)


# ---- periodic boundary conditions ---------------------------------------------------------

def ortho(g):
    """Edge lengths of an orthogonal cell and the largest atom offset per axis."""
    w = [g.V[k][k] for k in range(g.dim)]
    return w, [max(p[k] for p in g.atoms) for k in range(g.dim)]


def box(c, g, L, a=1.0, free=True, tag=""):
    """Size of a box that holds L cells per axis (any such size)."""
    w, off = ortho(g)
    out = []
    for k in range(g.dim):
        lo, hi = (L[k] - 1) * w[k] + off[k], L[k] * w[k]
        if free:
            out.append(c.real(f"s{tag}{k}", lo + 0.01, hi - 0.01) * a)
        else:
            out.append((lo + hi) / 2 * a)
    return out


def unit(dim, ax, n):
    return [n if k == ax else 0 for k in range(dim)]


def full_box(g, L, off=None):
    off = off or [0] * g.dim
    return [tuple(x + o for x, o in zip(n, off)) + (al,)
            for n in itertools.product(*[range(x) for x in L]) for al in range(g.nb)]


def axes_args(axes, form):
    if form == "int" and len(axes) == 1:
        return axes[0]
    if form == "tuple":
        return tuple(axes)
    return list(axes)


def shuffle(c, latt, tag="mix"):
    """Bring the sites into another order first."""
    k = c.pick(tag, 0, 3)
    d, n = latt.data, latt.num_sites
    if k == 0:
        d.sort(ax=latt.dim - 1)
    elif k == 1:
        d.sort(ax=0, reverse=True)
    elif k == 2:
        d.sort(indices=list(range(n))[::-1])
    else:
        d.sort(indices=sorted(range(n), key=lambda i: (i * 7) % 5 * n + i))


def at(g, off, a=1.0, prim=False):
    """Arguments of build for a box whose first cell is ``off`` (any size of ``box``)."""
    if not off:
        return {}
    if prim:
        return {"pos": [o - 0.125 for o in off]}
    w, _ = ortho(g)
    return {"pos": [(o * x - 0.005) * a for o, x in zip(off, w)]}


def p_torus(c, geo, L, axes, how="set", form="list", scale=True, views=True, mix=False, off=None):
    """Neighbours with periodic boundary conditions are those of the torus."""
    g = GEO[geo]
    a = c.real("a", 0.0625, 64) if scale else 1.0
    latt = g.make(c, a)
    s = box(c, g, L, a, free=not scale)
    arg = True if form == "bool" else axes_args(axes, form)
    if how == "build":
        latt.build(s if g.dim > 1 else s[0], periodic=arg, **at(g, off, a))
    else:
        latt.build(s if g.dim > 1 else s[0], **at(g, off, a))
        if mix:
            shuffle(c, latt)
        latt.set_periodic(arg)
    torus = [unit(g.dim, ax, L[ax]) for ax in axes]
    audit(c, latt, g, a, torus=torus, sites=full_box(g, L, off), views=views)
    c.check(sorted(int(x) for x in latt.periodic_axes) == sorted(axes), "periodic axes")
    pax(c, latt, g, L, axes)


def pax(c, latt, g, L, axes):
    """The axes noted for a periodic neighbour are those along which the boundary is crossed."""
    d = latt.data
    for i in range(latt.num_sites):
        for s in range(d.neighbors.shape[1]):
            if bool(d.pmask[i, s]):
                nv = [int(x) for x in d.pnvecs[i, s]]
                px = {int(x) for x in d.paxes[i, s]} - {g.dim}
                c.check(px == {k for k in range(g.dim) if nv[k]}, "axes of a periodic neighbour")


def p_general(c, geo, size, torus, axes, primitive=False, a=1.0, off=None):
    """Torus of a non-orthogonal lattice; ``torus``: period (in cells) per axis."""
    g = GEO[geo]
    if a == "sym":
        a = c.real("a", 1, 4)
    latt = g.make(c, a)
    eps = c.real("eps", -0.05, 0.05)
    sz = [(s + eps) * (1 if primitive else a) for s in size]
    latt.build(sz, primitive=primitive, **at(g, off, prim=True))
    latt.set_periodic(list(axes))
    full = None
    if not primitive:
        full = {tuple(n) + (al,) for n in cells(g.dim) for al in range(g.nb)
                if all(-1e-9 <= y <= s + 1e-9 for y, s in zip(g.pos(n, al), size))}
    else:
        full = full_box(g, [t[k] for k, t in enumerate(torus)], off)
    audit(c, latt, g, a, torus=[torus[k] for k in axes], sites=full)


OPS = [None, 0, 1, (0, 1), True, False]


def p_history(c, geo, L, steps):
    """Only the last boundary condition counts; open boundaries restore the original lattice."""
    g = GEO[geo]
    latt = g.make(c, 1.0)
    s = box(c, g, L, 1.0, free=False)
    latt.build(s if g.dim > 1 else s[0])
    ops = OPS if g.dim > 1 else [None, 0, True, False]
    for t in range(steps):
        op = ops[c.pick(f"op{t}", 0, len(ops) - 1)]
        latt.set_periodic(op)
        latt.dmap()
        axes = [] if op is None or op is False else list(range(g.dim)) if op is True else \
            [op] if isinstance(op, int) else list(op)
    torus = [unit(g.dim, ax, L[ax]) for ax in axes]
    audit(c, latt, g, 1.0, torus=torus, sites=full_box(g, L))
    c.check(sorted(int(x) for x in latt.periodic_axes) == axes, "periodic axes")


def p_mindist(c, geo, L, axes, mix=False, off=None):
    """minimum_distances: the shortest distance to any periodic image."""
    g = GEO[geo]
    a = c.real("a", 0.0625, 64)
    latt = g.make(c, a)
    s = box(c, g, L, a, free=False)
    latt.build(s if g.dim > 1 else s[0], periodic=list(axes), **at(g, off, a))
    if mix:
        shuffle(c, latt)
    ind = ints(latt.indices)
    w, _ = ortho(g)
    for i in range(len(ind)):
        md = latt.minimum_distances(i)
        c.check(len(md) == len(ind), "one distance per site")
        for j in range(len(ind)):
            best = min(g.dist(ind[i], [x + k for x, k in zip(ind[j], list(sh) + [0])])
                       for sh in itertools.product(*[(-L[k], 0, L[k]) if k in axes else (0,)
                                                     for k in range(g.dim)]))
            c.close(md[j], best * a, "minimum image distance")


def p_transvec(c, geo, L, axes, primitive=None, off=None):
    """periodic_translation_vectors: one of each pair of opposite translations to a periodic image."""
    g = GEO[geo]
    a = c.real("a", 0.0625, 64)
    latt = g.make(c, a)
    s = box(c, g, L, a, free=False)
    latt.build(s if g.dim > 1 else s[0], **at(g, off, a))
    kw = {} if primitive is None else {"primitive": primitive}
    got = latt.periodic_translation_vectors(axes, **kw)
    ax = [axes] if isinstance(axes, int) else list(axes)
    want = set()
    for f in itertools.product((0, 1, -1), repeat=len(ax)):
        v = [0] * g.dim
        for x, k in zip(f, ax):
            v[k] = x * L[k]
        if any(v):
            want.add(tuple(v))
    have = [tuple(int(x) for x in c.flat(v)) for _, v in got]
    c.check(len(have) * 2 == len(want), "one vector for each pair of opposite images")
    c.check({*have, *[tuple(-x for x in v) for v in have]} == want, "translations to the periodic images")
    for (axs, _), v in zip(got, have):
        axs = c.flat(axs) if hasattr(axs, "__len__") else [axs]
        c.check({int(x) for x in axs} == {k for k in range(g.dim) if v[k]}, "axes of the translation")


# ---- composing lattices -------------------------------------------------------------------

def x_append(c, geo, L1, L2, ax, side=1, sort=None, rev=False, per1=False, per2=False, scale=False, rm=None, mix=False,
             off1=None, off2=None):
    """append: the union of both systems with all connections across the border."""
    g = GEO[geo]
    a = c.real("a", 0.0625, 64) if scale else 1.0
    latt = g.make(c, a)
    other = g.make(c, a)
    s1, s2 = box(c, g, L1, a, not scale, "x"), box(c, g, L2, a, not scale, "y")
    latt.build(s1 if g.dim > 1 else s1[0], periodic=ax if per1 else None, **at(g, off1, a))
    other.build(s2 if g.dim > 1 else s2[0], periodic=ax if per2 else None, **at(g, off2, a))
    if mix:
        shuffle(c, latt)
        shuffle(c, other, "omix")
    gone = []
    for k, r in enumerate(rm or ()):  # sites that were removed before
        t = (latt, other)[k].data
        i = r[c.pick(f"rm{k}", 0, len(r) - 1)]
        gone.append(tuple(int(x) for x in t.indices[i]))
        t.remove(i)
    before = snapshot(other)
    latt.dmap()
    latt.append(other, ax, side, sort_ax=sort, sort_reverse=rev)
    off1, off2 = off1 or [0] * g.dim, off2 or [0] * g.dim
    off = unit(g.dim, ax, off1[ax] - off2[ax] + (L1[ax] if side > 0 else -L2[ax]))
    s1, s2 = full_box(g, L1, off1), full_box(g, L2, off2)
    if gone:
        s1, s2 = [x for x in s1 if x != gone[0]], [x for x in s2 if x != gone[1]]
    sites = s1 + [tuple(x + o for x, o in zip(i, off + [0])) for i in s2]
    audit(c, latt, g, a, sites=sites)
    same_snapshot(c, before, snapshot(other), "the appended lattice is not changed")
    c.check(len(latt.periodic_axes) == 0, "open boundaries")
    order(c, latt, sort, rev)


def order(c, latt, sort, rev):
    if sort is not None:
        ks = [i[sort] for i in ints(latt.indices)]
        c.check(ks == sorted(ks, reverse=rev), "sites are sorted along the axis")


def snapshot(latt):
    d = latt.data
    return dict(ind=d.indices.tolist(), pos=d.positions.tolist(), nb=d.neighbors.tolist(),
                di=d.distances.tolist(), dv=d.distvals.tolist(), pm=d.pmask.tolist(),
                pn=d.pnvecs.tolist(), paxes=[int(x) for x in latt.periodic_axes])


def same_snapshot(c, s, t, msg):
    for k in s:
        if k in ("pos", "dv"):
            c.close(s[k], t[k], msg)
        else:
            c.same(s[k], t[k], msg)


def x_repeat(c, geo, L, ax, num, side=1, sort=None, rev=False, per=False, scale=False, mix=False):
    """repeat: num further copies of the system next to each other."""
    g = GEO[geo]
    a = c.real("a", 0.0625, 64) if scale else 1.0
    latt = g.make(c, a)
    s = box(c, g, L, a, not scale)
    latt.build(s if g.dim > 1 else s[0], periodic=ax if per else None)
    if mix:
        shuffle(c, latt)
    latt.dmap()
    latt.repeat(num, ax, side, sort_ax=sort, sort_reverse=rev)
    sites = []
    for k in range(num + 1):
        sites += full_box(g, L, unit(g.dim, ax, k * L[ax] * (1 if side > 0 else -1)))
    audit(c, latt, g, a, sites=sites)
    order(c, latt, sort, rev)


def x_extend(c, geo, L, n, ax, side=1, sort=None, rev=False, off=None, mix=False):
    """extend: adds n cells along the axis."""
    g = GEO[geo]
    latt = g.make(c, 1.0)
    off = off or [0] * g.dim
    w, mo = ortho(g)
    s = box(c, g, L, 1.0)
    kw = {"pos": [o * x - 0.005 for o, x in zip(off, w)]} if any(off) else {}
    latt.build(s if g.dim > 1 else s[0], **kw)
    if mix:
        shuffle(c, latt)
    size = c.real("size", (n - 1) * w[ax] + mo[ax] + 0.01, n * w[ax] - 0.01)
    latt.extend(size, ax, side, sort_ax=sort, sort_reverse=rev)
    o2 = [o + (L[ax] if side > 0 else -n) * (k == ax) for k, o in enumerate(off)]
    sites = full_box(g, L, off) + full_box(g, [n if k == ax else x for k, x in enumerate(L)], o2)
    audit(c, latt, g, 1.0, sites=sites)
    order(c, latt, sort, rev)


def x_history(c, geo, L, L2, ax, ops, prim=False, off=None, sort=None):
    """Several steps, each on either side: always the next free cells."""
    g = GEO[geo]
    a = 1.0 if prim else c.real("a", 0.0625, 64)
    latt, other = g.make(c, a), g.make(c, a)
    s, s2 = ([x - 0.25 for x in L], [x - 0.25 for x in L2]) if prim else (box(c, g, L, a, False), box(c, g, L2, a, False))
    latt.build(s if g.dim > 1 else s[0], primitive=prim, **at(g, off, a, prim))
    other.build(s2 if g.dim > 1 else s2[0], primitive=prim)
    off = list(off or [0] * g.dim)
    sites = full_box(g, L, off)
    lo, hi = off[ax], off[ax] + L[ax]
    for t, op in enumerate(ops):
        side = [1, -1][c.pick(f"side{t}", 0, 1)]
        n, k = L2[ax], 1
        if op == "append":
            latt.append(other, ax, side, sort_ax=sort)
        elif op == "extend":
            latt.extend(n - 0.25 if prim else s2[ax], ax, side, sort_ax=sort)
        else:
            n = hi - lo
            latt.repeat(1, ax, side, sort_ax=sort)
        cross = [n if j == ax else x for j, x in enumerate(L)]
        o = list(off)
        if op == "append":
            cross = list(L2)
            o = [0] * g.dim
        o[ax] = hi if side > 0 else lo - n
        sites = sites + full_box(g, cross, o)
        lo, hi = (lo, hi + n) if side > 0 else (lo - n, hi)
    audit(c, latt, g, a, sites=sites, views=False)
    order(c, latt, sort, False)


def x_periodic(c, geo, L, ax, num, paxes):
    """Boundary conditions of a composed system span the whole system."""
    g = GEO[geo]
    latt = g.make(c, 1.0)
    s = box(c, g, L, 1.0, free=False)
    latt.build(s if g.dim > 1 else s[0])
    latt.repeat(num, ax)
    latt.set_periodic(list(paxes))
    LL = list(L)
    LL[ax] *= num + 1
    audit(c, latt, g, 1.0, torus=[unit(g.dim, k, LL[k]) for k in paxes], sites=full_box(g, LL))


def x_general(c, geo, size, nvec, ax, side=1, axes=()):
    """append/repeat of non-orthogonal lattices (commensurate box), nvec: the expected offset."""
    g = GEO[geo]
    a = c.real("a", 1, 4)
    latt = g.make(c, a)
    sz = [s * a for s in size]
    latt.build(sz)
    full = [tuple(n) + (al,) for n in cells(g.dim) for al in range(g.nb)
            if all(-1e-9 <= y <= s + 1e-9 for y, s in zip(g.pos(n, al), size))]
    latt.repeat(1, ax, side)
    sites = full + [tuple(x + side * o for x, o in zip(i, list(nvec) + [0])) for i in full]
    audit(c, latt, g, a, sites=sites, views=False)


def x_prim(c, geo, size, L, ax, op, side=1, n=2, sort=None, off=None):
    """append/repeat/extend of systems whose box is given in units of the lattice vectors (L cells)."""
    g = GEO[geo]
    a = c.real("a", 1, 4)
    latt = g.make(c, a)
    eps = c.real("eps", -0.05, 0.05)
    latt.build([s + eps for s in size] if g.dim > 1 else size[0] + eps, primitive=True,
               **at(g, off, prim=True))
    first = full_box(g, L, off)
    off = off or [0] * g.dim
    num = 1
    if op == "append":
        other = g.make(c, a)
        L2 = [n if k == ax else x for k, x in enumerate(L)]
        s2 = [x + size[k] - L[k] for k, x in enumerate(L2)]
        other.build(s2 if g.dim > 1 else s2[0], primitive=True)
        latt.append(other, ax, side, sort_ax=sort)
    elif op == "extend":
        L2 = [n if k == ax else x for k, x in enumerate(L)]
        latt.extend(n + size[ax] - L[ax] + c.real("es", -0.05, 0.05), ax, side, sort_ax=sort)
    else:
        L2, num = L, n
        latt.repeat(n, ax, side, sort_ax=sort)
    sites = list(first)
    for k in range(num):
        o = L[ax] + k * L2[ax] if side > 0 else -(k + 1) * L2[ax]
        base = unit(g.dim, ax, off[ax]) if op == "append" else off
        sites += full_box(g, L2, [x + y for x, y in zip(base, unit(g.dim, ax, o))])
    audit(c, latt, g, a, sites=sites, views=False)
    order(c, latt, sort, False)


def x_connect(c, geo, L1, L2, omax):
    """compute_connections: exactly the connected pairs of two systems of the same lattice."""
    g = GEO[geo]
    a = c.real("a", 0.0625, 64)
    latt, other = g.make(c, a), g.make(c, a)
    off = [c.pick(f"o{k}", 0 if k else 1, omax[k]) for k in range(g.dim)]
    w, _ = ortho(g)
    s1, s2 = box(c, g, L1, a, False), box(c, g, L2, a, False)
    eps = 0.0625
    latt.build(s1 if g.dim > 1 else s1[0])
    other.build([x - eps * 0.5 * a for x in s2] if g.dim > 1 else s2[0] - eps * 0.5 * a, pos=[(o * x - eps * 0.25) * a for o, x in zip(off, w)])
    b1, b2 = snapshot(latt), snapshot(other)
    pairs, dists = latt.compute_connections(other)
    i1, i2 = ints(latt.indices), ints(other.indices)
    c.check(sorted(map(tuple, i2)) == sorted(full_box(g, L2, off)), "sites of the other lattice")
    want = {}
    for i, s in enumerate(i1):
        for j, t in enumerate(i2):
            d = g.dist(s, t)
            if d > 1e-9 and g.connected(s[-1], t[-1], d):
                want[i, j] = d
    got = [(int(p[0]), int(p[1])) for p in pairs]
    c.check(len(set(got)) == len(got), "a connection is listed once")
    c.check(set(got) == set(want), "exactly the connected pairs")
    c.check(len(dists) == len(got), "one distance per connection")
    for p, d in zip(got, dists):
        c.close(d, want[p] * a, "distance of a connection", tol=2e-3)
    same_snapshot(c, b1, snapshot(latt), "the lattice is not changed")
    same_snapshot(c, b2, snapshot(other), "the other lattice is not changed")


def p_mindist_general(c, geo, size, torus, axes, primitive=False):
    """minimum_distances of non-orthogonal lattices."""
    g = GEO[geo]
    a = c.real("a", 1, 4)
    latt = g.make(c, a)
    latt.build([s * (1 if primitive else a) for s in size], primitive=primitive)
    latt.set_periodic(list(axes))
    ind = ints(latt.indices)
    for i in range(len(ind)):
        md = latt.minimum_distances(i)
        for j in range(len(ind)):
            best = min(g.dist(ind[i], [x + sum(k * torus[t][d] for k, t in zip(ks, axes)) for d, x in enumerate(ind[j][:-1])]
                              + ind[j][-1:]) for ks in itertools.product((-1, 0, 1), repeat=len(axes)))
            c.close(md[j], best * a, "minimum image distance")


def b_tie(c, geo, L, lo, hi, op="build"):
    """Distances between two rounded values: rounding errors do not separate neighbours (lengths with 7 decimals)."""
    c.opts(noise=0, noise_num=0, round_exact=True)
    g = GEO[geo]
    a = c.int("m", lo, hi) / 10 ** 7
    latt = g.make(c, a)
    s = box(c, g, L, a, free=False)
    other = g.make(c, a)
    c.opts(noise=1e-13)
    latt.build(s if g.dim > 1 else s[0])
    sites, torus = full_box(g, L), []
    if op == "append":
        c.opts(noise=0)
        other.build(s if g.dim > 1 else s[0])
        c.opts(noise=1e-13)
        latt.append(other)
        sites = sites + full_box(g, L, unit(g.dim, 0, L[0]))
    elif op == "periodic":
        latt.set_periodic(True)
        torus = [unit(g.dim, ax, L[ax]) for ax in range(g.dim)]
    c.opts(noise=0)
    audit(c, latt, g, a, sites=sites, torus=torus)


# ---- systems beyond the range of the small index types --------------------------------------

def b_large(c, geo, L, op, pick=()):
    """More than 255 sites: the same guarantees (the index types of the tables grow)."""
    g = GEO[geo]
    a = c.real("a", 0.0625, 64)
    latt = g.make(c, a)
    s = box(c, g, L, a, free=False)
    latt.build(s if g.dim > 1 else s[0])
    sites = full_box(g, L)
    torus = []
    if op in ("periodic", "unset"):
        latt.set_periodic(True)
        torus = [unit(g.dim, ax, L[ax]) for ax in range(g.dim)]
        if op == "unset":
            latt.set_periodic(None)
            torus = []
    elif op == "remove":
        k = pick[c.pick("k", 0, len(pick) - 1)]
        gone = tuple(ints(latt.indices)[k])
        latt.data.remove(k)
        sites.remove(gone)
    elif op == "sort":
        latt.data.sort(ax=0, reverse=True)
        order(c, latt, 0, True)
    elif op == "repeat":
        latt.repeat(1, 0)
        sites = sites + full_box(g, L, unit(g.dim, 0, L[0]))
    audit(c, latt, g, a, torus=torus, sites=sites, views=op not in ("sort", "unset"))


def b_manydist(c, num):
    """Pairs of sites at many different distances: the adjacency matrix, the neighbour pairs and the data
    map number all of them."""
    a = c.real("a", 0.5, 2)
    latt = c.lp.Lattice.chain(a)
    latt.add_atom()
    latt.add_connections(1)
    n = 2 * num
    ind = c.np.array([[i, 0] for i in range(n)])
    pos = c.np.array([[(i // 2) * a * 1000 + (i % 2) * (i // 2 + 1) * a] for i in range(n)])
    nb = c.np.array([[i ^ 1, n] for i in range(n)])
    ds = c.np.array([[(i // 2 + 1) * a, math.inf] for i in range(n)])
    latt.data.set(ind, pos, nb, ds)
    A = latt.adjacency_matrix()
    A = A.tocoo() if hasattr(A, "tocoo") else A
    got = {(int(i), int(j)): int(v) for i, j, v in zip(A.row, A.col, A.data)}
    c.check(got == {(i, i ^ 1): i // 2 + 1 for i in range(n)}, "entries number the distances")
    pairs, idx = latt.neighbor_pairs()
    got = {(int(i), int(j)): int(v) for (i, j), v in zip(pairs, idx)}
    c.check(got == {(i, i ^ 1): i // 2 for i in range(n)}, "pairs of neighbours")
    m = latt.dmap()
    for k in (0, num // 2, num - 1):
        h = [bool(x) for x in m.hopping(k)]
        got = {(int(i), int(j)) for i, j, x in zip(m.rows, m.cols, h) if x}
        c.check(got == {(2 * k, 2 * k + 1), (2 * k + 1, 2 * k)}, "elements of a distance")
        c.check([int(x) for x in latt.neighbors(2 * k, k)] == [2 * k + 1], "neighbour at a distance")
        c.check(int(latt.check_neighbors(2 * k, 2 * k + 1)) == k, "distance index of neighbours")
        c.close(latt.data.distvals[k], (k + 1) * a, "value of a distance")
