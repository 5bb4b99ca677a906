"""Arguments handed to the library are neither modified nor kept: arrays of the caller stay the caller's."""
from .common import *
from .geo import GEO
from .model import ints, audit
from .build import box, full_box, snapshot, same_snapshot


def arrays(c, **shapes):
    """Named arrays with symbolic entries."""
    out = {}
    for n, (shape, lo, hi) in shapes.items():
        if len(shape) == 1:
            v = [c.real(f"{n}{i}", lo, hi) for i in range(shape[0])]
        else:
            v = [[c.real(f"{n}{i}_{j}", lo, hi) for j in range(shape[1])] for i in range(shape[0])]
        out[n] = c.np.array(v)
    return out


def pure(c, f, args):
    """f(*args) leaves its arguments alone and gives the same result again, whatever is done to the first result."""
    before = [rows(x) for x in args]
    r1 = f(*args)
    for x, b in zip(args, before):
        c.close(rows(x), b, "arguments are not modified")
    first = [c.flat(y) for y in (r1 if type(r1) in (tuple, list) else [r1])]
    for y in r1 if type(r1) in (tuple, list) else [r1]:
        if hasattr(y, "fill") and getattr(y, "ndim", 0):
            y.fill(0)  # the result belongs to the caller
    for x, b in zip(args, before):
        c.close(rows(x), b, "results do not share memory with the arguments")
    r2 = f(*args)
    for y, z in zip(first, r2 if type(r2) in (tuple, list) else [r2]):
        z = c.flat(z)
        c.check(len(y) == len(z), "same result again")
        for p, q in zip(y, z):
            c.check(c.near(p, q, 1e-6) if type(p) is not bool else c.iff(p, q), "same result again")


def u_pure(c, what):
    lp, np = c.lp, c.np
    B = [[1.0, 0.25], [-0.5, 1.5]]
    if what in ("transform", "itransform", "itranslate", "translate"):
        b = lp.LatticeBasis(B)
        a = arrays(c, x=((2, 2), -3, 3), y=((2,), -3, 3), n=((2,), -3, 3))
        if what == "translate":
            pure(c, b.translate, [a["n"], a["y"]])
            pure(c, b.translate, [a["x"], a["y"]])
        elif what == "itranslate":
            c.assume(c.and_(*[c.and_(v >= 0.125, v <= 0.5) for v in c.flat(a["y"])]))
            pure(c, b.itranslate, [a["y"]])
        else:
            pure(c, getattr(b, what), [a["x"]])
            pure(c, getattr(b, what), [a["y"]])
    elif what == "reciprocal":
        b = lp.LatticeBasis(B)
        pure(c, b.reciprocal_vectors, [])
        a = arrays(c, x=((2, 2), -3, 3))
        before = rows(a["x"])
        b.is_reciprocal(a["x"])
        c.close(rows(a["x"]), before, "arguments are not modified")
    elif what == "superindex":
        b = lp.LatticeBasis(B)
        shape, ind = np.array([3, 4]), np.array([[1, 2], [2, 3]])
        pure(c, lambda i, s: b.get_cell_superindex(i, s), [ind, shape])
        pure(c, lambda i, s: b.get_cell_index(i, s), [np.array([6, 11]), shape])
    elif what == "distance":
        a = arrays(c, p=((2,), -3, 3), q=((2,), -3, 3), x=((2, 2), -3, 3), y=((2, 2), -3, 3))
        pure(c, lp.distance, [a["p"], a["q"]])
        pure(c, lp.distances, [a["x"], a["y"]])
    elif what == "cell":
        a = arrays(c, x=((2, 2), -3, 3))
        pure(c, lp.spatial.cell_size, [a["x"]])
        pure(c, lp.spatial.cell_volume, [a["x"]])
    elif what == "shapes":
        a = arrays(c, x=((2, 2), -3, 3))
        for s in (lp.Shape([1.0, 2.0], pos=[0.5, 0.25]), lp.Shape([1.0, 2.0], basis=B), lp.Circle([0.5, 0.0], 1.5),
                  lp.Donut([0.5, 0.0], 1.5, 0.5)):
            before = rows(a["x"])
            s.contains(a["x"])
            s.contains(a["x"], 0.125)
            c.close(rows(a["x"]), before, "arguments are not modified")
            pure(c, s.limits, [])
    elif what == "interweave":
        a = arrays(c, x=((2, 2), -3, 3), y=((2, 2), -3, 3))
        pure(c, lambda p, q: lp.spatial.interweave([p, q]), [a["x"], a["y"]])
    elif what == "vrange":
        lim = np.array([[-1, 2], [0, 2]])
        pure(c, lambda l: lp.spatial.vindices(l, sort_axis=1), [lim])
    elif what == "lookup":
        x = np.array([[0.5, 1.5, 2.5], [1.5, 0.5, 3.0]])
        pure(c, lp.utils.create_lookup_table, [x])
    elif what == "rotate":
        a = arrays(c, p=((2,), -3, 3), q=((3,), -3, 3))
        pure(c, lambda x: lp.spatial.rotate2d(x, 90), [a["p"]])
        pure(c, lambda x: lp.spatial.rotate3d(x, 0, 90, 0), [a["q"]])
    elif what == "tree":
        a = arrays(c, x=((2, 2), -3, 3))
        c.assume(norm2(sub(c.flat(a["x"])[:2], c.flat(a["x"])[2:])) >= 0.25)
        pure(c, lambda x: lp.spatial.KDTree(x, k=2).query(), [a["x"]])
    elif what == "wsc":
        ws = lp.LatticeBasis(B).wigner_seitz_cell()
        a = arrays(c, x=((2,), 0.0625, 0.125))
        before = rows(a["x"])
        ws.check(a["x"])
        c.close(rows(a["x"]), before, "arguments are not modified")
        pure(c, lambda: ws.limits, [])
        pure(c, lambda: ws.size, [])
        lim = rows(ws.limits)
        for y in ws.symmetry_points()[:3]:
            y.fill(0)
        c.close(ws.limits, lim, "results do not share memory with the cell")
        c.check(any(bool(abs(v) > 0.125) for v in c.flat(ws.symmetry_points()[1])), "results do not share memory with the cell")
    elif what == "basis":
        v = np.array(B)
        n = [c.real(f"n{i}", -3, 3) for i in range(2)]
        for cls in (lp.LatticeBasis, lp.LatticeStructure, lp.Lattice):
            b = cls(v)
            w = rows(b.transform(np.array(n)))
            v[0, 0] = 7.0
            c.close(b.transform(np.array(n)), w, "the basis does not share memory with the caller")
            c.close(b.vectors, B, "the basis does not share memory with the caller")
            c.close(b.itransform(b.transform(np.array(n))), n, "the basis does not share memory with the caller")
            v[0, 0] = 1.0
    else:
        raise AssertionError(what)


def u_struct(c, what):
    """Queries of a structure hand out arrays of their own and leave their arguments alone."""
    np = c.np
    g = GEO["squareABmix"]
    a = c.real("a", 0.0625, 64)
    latt = g.make(c, a, c.lp.LatticeStructure)
    n = np.array([c.pick("n0", -2, 2), c.pick("n1", 0, 1)])
    if what == "atoms":
        latt = c.lp.Lattice([[a, 0.0], [0.0, a]])
        p = np.array([0.0, 0.0])
        want = []
        for k in range(3):
            p[0] = k * 0.25 * a
            latt.add_atom(p, "ABC"[k])
            want.append([k * 0.25 * a, 0.0])
        p[:] = 0.125 * a
        c.close(latt.atom_positions, want, "atom positions are those given")
        latt.add_connections(1)
        p[:] = 0.5
        c.close(latt.atom_positions, want, "atom positions are those given")
        latt.build([1.5 * a, 0.25 * a])
        c.close(latt.atom_positions, want, "atom positions are those given")
        return
    al = c.pick("al", 0, 1)
    f = dict(neighbors=lambda v: latt.get_neighbors(v, al, 0), positions=lambda v: latt.get_neighbor_positions(v, al, 0),
             vectors=lambda v: latt.get_neighbor_vectors(al, 0), position=lambda v: latt.get_position(v, al))
    if what == "all":
        for h in f.values():
            pure(c, h, [n])
        pure(c, lambda i: latt.get_positions(i), [np.array([[1, 2, 0], [0, 1, 1]])])
        k = np.array([c.real("k0", -2, 2), 0.5])
        before = rows(k)
        latt.fourier_weights(k, al, 0)
        c.close(rows(k), before, "arguments are not modified")
        ex = g.alldists(al)
        c.close(sorted(latt.base_neighbors[al]), [d * a for d in ex], "neighbours are unchanged", tol=2e-3)
    elif what == "build":
        s, p = np.array([1.25 * a, 1.75 * a]), np.array([0.5 * a, -0.25 * a])
        b = [rows(s), rows(p)]
        f1 = latt.build_indices(s, pos=p, return_pos=True)
        f2 = latt.build_indices(s, pos=p, return_pos=True)
        latt.build_translation_vectors(s, pos=p)
        latt.check_points(f1[1], s, False, p)
        c.close([rows(s), rows(p)], b, "arguments are not modified")
        c.check(ints(f1[0]) == ints(f2[0]), "same result again")
        c.close(f1[1], f2[1], "same result again")


def u_model(c, what):
    """Finite lattices do not share memory with the arguments of the caller."""
    np = c.np
    g = GEO["square2"]
    a = c.real("a", 0.0625, 64)
    latt = g.make(c, a)
    s, p = np.array([1.5 * a, 2.5 * a]), np.array([-0.25 * a, -0.25 * a])
    if what == "build":
        prim = c.pick("prim", 0, 1)
        if prim:
            s = np.array([1.5, 2.5])
            p = np.array([-0.25, -0.25])
        b = [rows(s), rows(p)]
        latt.build(s, pos=p, primitive=bool(prim))
        c.close([rows(s), rows(p)], b, "arguments are not modified")
        before = snapshot(latt)
        shape, pos = rows(latt.shape), rows(latt.pos)
        s.fill(0)
        p.fill(0)
        same_snapshot(c, before, snapshot(latt), "the model is independent of the arguments")
        c.close([rows(latt.shape), rows(latt.pos)], [shape, pos], "the model is independent of the arguments")
        latt.extend(1.5 if prim else 1.5 * a, 0)
        audit(c, latt, g, a, sites=full_box(g, [4, 3]), views=False)
    elif what == "periodic":
        latt.build([2.5 * a, 2.5 * a])
        ax = np.array([c.pick("ax", 0, 1)])
        k = int(ax[0])
        how = c.pick("how", 0, 1)
        if how:
            latt.set_periodic(ax)
        else:
            latt.build([2.5 * a, 2.5 * a], periodic=ax)
        ax[0] = 1 - k
        c.check([int(x) for x in latt.periodic_axes] == [k], "periodic axes are those given")
        audit(c, latt, g, a, torus=[[3 * (i == k) for i in range(2)]], sites=full_box(g, [3, 3]), views=False)
        m = c.flat(latt.minimum_distances(0))
        for i, v in zip(ints(latt.indices), m):
            d = [min(x, 3 - x) if j == k else x for j, x in enumerate(i[:2])]
            c.close(v, math.hypot(*d) * a, "minimum distance", tol=1e-5)
    elif what == "views":
        latt.build([1.5 * a, 1.5 * a], periodic=None)
        before = snapshot(latt)
        i = c.pick("i", 0, 3)
        for y in (latt.neighbors(i), latt.nearest_neighbors(i), latt.limits(), latt.center(), latt.data.get_limits(),
                  latt.minimum_distances(i), latt.data.get_positions(0), *latt.neighbor_pairs(), latt.data.find_sites([0.0, 0.0]),
                  latt.data.neighbor_mask(i), latt.data.site_mask([0.0, 0.0]), latt.data.get_index_limits()):
            if hasattr(y, "fill"):
                y.fill(0)
        same_snapshot(c, before, snapshot(latt), "results do not share memory with the model")
        audit(c, latt, g, a, sites=full_box(g, [2, 2]), views=False)
    elif what == "edit":
        latt.build([2.5 * a, 0.5 * a])
        rm = np.array([c.pick("r", 0, 2)])
        r = int(rm[0])
        perm = np.array([2, 0, 1])
        latt.data.sort(indices=perm)
        c.check([int(x) for x in perm] == [2, 0, 1], "arguments are not modified")
        perm.fill(0)
        latt.data.remove(rm)
        c.check([int(x) for x in rm] == [r], "arguments are not modified")
        gone = [2, 0, 1][r]
        audit(c, latt, g, a, sites=[x for x in full_box(g, [3, 1]) if x[0] != gone])
        mins, maxs = [0.5 * a], [None, 0.25 * a]
        latt.data.site_mask(mins, maxs)
        latt.data.find_sites(mins, maxs)
        c.check(len(mins) == 1 and len(maxs) == 2 and maxs[0] is None, "arguments are not modified")


def u_path(c, dim):
    """The points of a path are those given, whatever happens to the array of the caller."""
    np = c.np
    P = [vec(c, f"p{i}", dim, -4, 4) for i in range(3)]
    path = c.lp.DispersionPath(dim) if c.pick("dim", 0, 1) else c.lp.DispersionPath()
    z = np.array(P[0])
    for i in range(3):
        z[:] = np.array(P[i])
        path.add(z, str(i))
    z.fill(0)
    c.close(path.points, P, "points of the path")
    v = path.build(n_sect=2)
    c.close(v[0], P[0], "first point")
    v.fill(0)
    c.close(path.points, P, "points of the path")
    c.close(path.build(n_sect=2)[0], P[0], "first point")
