"""C05: neighbours of the infinite lattice."""
from .common import *
from .geo import GEO
from .model import ints


def n_infinite(c, geo):
    """Neighbours of the infinite lattice, for every scale of the geometry."""
    g = GEO[geo]
    a = c.real("a", 0.0625, 64)
    infinite(c, g.make(c, a), g, a)


def infinite(c, latt, g, a):
    """The analyzed lattice has exactly the neighbours of the geometry scaled by ``a``."""
    c.check(latt.num_base == g.nb, "number of atoms")
    R = {1: 8, 2: 4, 3: 2, 4: 1}[g.dim]
    cells = list(itertools.product(range(-R, R + 1), repeat=g.dim))
    total = g.alldists()
    c.check(latt.num_distances == max(g.cons.values()), "number of configured distances")
    for al in range(g.nb):
        ds = g.alldists(al)
        row = latt.distances[al]
        c.check(row.shape == (len(total),), "distance table width")
        c.close(row[: len(ds)], [d * a for d in ds], "sorted neighbour distances")
        num = 0
        for k, d in enumerate(ds):
            want = sorted(list(n) + [be] for n in cells for be in range(g.nb)
                          if abs(g.dist([0] * g.dim + [al], list(n) + [be]) - d) < 1e-7
                          and g.connected(al, be, d))
            got = latt.get_neighbors(alpha=al, distidx=k)
            c.check(sorted(ints(got)) == want, f"neighbours of atom {al} at distance {k}")
            num += len(want)
            nv = [(-1) ** i * (3 + i) for i in range(g.dim)]
            shifted = latt.get_neighbors(nv, al, k)
            c.check(ints(shifted) == [[x + y for x, y in zip(r, nv + [0])] for r in ints(got)],
                    "neighbours are translation invariant")
            for far in (150, -40000, 3 * 10 ** 9):
                fv = [far + (-1) ** i * i for i in range(g.dim)]
                c.check(ints(latt.get_neighbors(fv, al, k)) == [[x + y for x, y in zip(r, fv + [0])] for r in ints(got)],
                        "neighbours of distant cells")
            pos = latt.get_neighbor_positions(nv, al, k)
            for p, ind in zip(rows(pos), ints(shifted)):
                c.close(p, [x * a for x in g.pos(ind[:-1], ind[-1])], "neighbour position")
            for p, ind in zip(rows(latt.get_neighbor_positions(alpha=al, distidx=k)), ints(got)):
                c.close(p, [x * a for x in g.pos(ind[:-1], ind[-1])], "neighbour position in the first cell")
            vs = latt.get_neighbor_vectors(alpha=al, distidx=k)
            p0 = g.pos([0] * g.dim, al)
            for v, ind in zip(rows(vs), ints(got)):
                c.close(v, [x * a for x in sub(g.pos(ind[:-1], ind[-1]), p0)], "neighbour vector")
            vz = rows(latt.get_neighbor_vectors(alpha=al, distidx=k, include_zero=True))
            c.check(len(vz) == len(ints(got)) + 1, "neighbour vectors with the zero vector")
            c.close(vz, [[0.0] * g.dim] + rows(vs), "neighbour vectors with the zero vector")
            # translating the caller's array must not change the structure
            c.check(ints(latt.get_neighbors(alpha=al, distidx=k)) == ints(got), "queries have no effect")
        c.check(int(latt.num_neighbors[al]) == num, "number of neighbours")
    if g.alldists(0):
        o = [0] * g.dim
        c.check(ints(latt.get_neighbors()) == ints(latt.get_neighbors(o, 0, 0)), "defaults: first atom, nearest neighbours")
        c.close(rows(latt.get_neighbor_positions()), rows(latt.get_neighbor_positions(o, 0, 0)), "defaults: first atom, nearest neighbours")
        c.close(rows(latt.get_neighbor_vectors()), rows(latt.get_neighbor_vectors(0, 0, False)), "defaults: first atom, nearest neighbours")
    c.observe("d", latt.distances)


def n_positions(c, geo, top=20):
    """get_position(s): atom position plus lattice translation, for all cell indices."""
    g = GEO[geo]
    a = c.real("a", 0.0625, 64)
    latt = g.make(c, a)
    n = ivec(c, "n", g.dim, -top, top)
    m = ivec(c, "m", g.dim, -top, top)
    for al in range(g.nb):
        want = [x * a for x in g.pos(n, al)]
        c.close(latt.get_position(n, al), want, "get_position")
        be = g.nb - 1
        ps = latt.get_positions([list(n) + [al], list(m) + [be]])
        c.close(ps, [want, [x * a for x in g.pos(m, be)]], "get_positions")
        c.close(latt.get_position(alpha=al), [x * a for x in g.atoms[al]], "atom position")
        c.close(latt.atom_positions[al], [x * a for x in g.atoms[al]], "atom position")
        est = latt.estimate_index([x * a for x in g.pos(n, 0)])
        if not any(g.atoms[0]):
            c.same(est, n, "estimate_index inverts positions")
    nb = latt.get_neighbors(n, 0, 0)
    nb0 = latt.get_neighbors(None, 0, 0)
    for r, r0 in zip(rows(nb), rows(nb0)):
        c.same(r, [x + y for x, y in zip(r0, list(n) + [0])], "translation invariance for all cells")


FAMILY = {
    # name: (vectors, atoms, connections) as functions of the symbolic parameters u, v
    "ssh": lambda u, v: ([[1.0]], [[0.0], [u]], {(0, 1): 1}),
    "ssh2": lambda u, v: ([[1.0]], [[0.0], [u]], {(0, 1): 2}),
    "sshAA": lambda u, v: ([[1.0]], [[0.0], [u]], {(0, 1): 1, (0, 0): 1}),
    "sshout": lambda u, v: ([[1.0]], [[-2.0], [u + 1]], {(0, 1): 1}),
    "rect": lambda u, v: ([[1.0, 0.0], [0.0, u]], [[0.0, 0.0]], {(0, 0): 2}),
    "rect1": lambda u, v: ([[u, 0.0], [0.0, 1.0]], [[0.0, 0.0]], {(0, 0): 1}),
    "oblique": lambda u, v: ([[1.0, 0.0], [u, 1.0]], [[0.0, 0.0]], {(0, 0): 1}),
    "squareAB": lambda u, v: ([[1.0, 0.0], [0.0, 1.0]], [[0.0, 0.0], [u, v]], {(0, 1): 1}),
}


def n_family(c, kind, u, v=None):
    """Neighbours of the infinite lattice for every value of the structure parameters.

    Oracle: for every configured pair of atoms the k smallest distinct distances (over all cells
    of a window that covers them) and exactly the sites at these distances.
    """
    u = c.real("u", *u)
    v = c.real("v", *v) if v else 0.0
    V, atoms, cons = FAMILY[kind](u, v)
    dim, nb = len(V), len(atoms)
    latt = c.lp.Lattice(V if dim > 1 else V[0][0])
    for i, p in enumerate(atoms):
        latt.add_atom(p, atom="A%d" % i)
    for (i, j), k in cons.items():
        latt.add_connection(i, j, k)
    R = 4 if dim == 1 else 2
    if kind == "sshout":
        R = 6
    cells = list(itertools.product(range(-R, R + 1), repeat=dim))

    def d2(al, n, be):
        return norm2(sub(add(comb(n, V), atoms[be]), atoms[al]))

    D = {}
    for al, be in itertools.product(range(nb), repeat=2):
        D[al, be] = [(list(n) + [be], d2(al, n, be)) for n in cells]
    latt.analyze()
    for al in range(nb):
        got = {}
        k = 0
        row = latt.distances[al].tolist()
        nn = 0
        while k < len(row) and c.branch(row[k] > 1e-9):
            ind = ints(latt.get_neighbors(alpha=al, distidx=k))
            if k:
                c.check(row[k] > row[k - 1], "distances are sorted")
            for s in ind:
                c.check(tuple(s) not in got, "neighbour listed once")
                got[tuple(s)] = k
                dd = norm2(sub(add(comb(s[:-1], V), atoms[s[-1]]), atoms[al]))
                c.check(c.and_(dd <= (row[k] + 1e-5) * (row[k] + 1e-5), dd >= (row[k] - 1e-5) * (row[k] - 1e-5)),
                        "neighbour at the listed distance")
            nn += len(ind)
            k += 1
        c.check(int(latt.num_neighbors[al]) == nn, "number of neighbours")
        for be in range(nb):
            want = cons.get((al, be), cons.get((be, al), 0))
            mine = sorted({got[s] for s in got if s[-1] == be})
            c.check(len(mine) == want, "as many distances as configured for the pair of atoms")
            if not mine:
                continue
            last = row[mine[-1]]
            for s, x in D[al, be]:
                if tuple(s) in got or (al == be and not any(s[:-1])):
                    continue
                # not listed: farther than every configured distance of the pair
                c.check(x >= (last - 1e-5) * (last - 1e-5), "no closer site is left out")
                for kk in mine:
                    c.check(c.or_(x > (row[kk] + 1e-5) * (row[kk] + 1e-5), x < (row[kk] - 1e-5) * (row[kk] - 1e-5)),
                            "no site at a listed distance is left out")
    c.observe("d", latt.distances)


def n_cells(c, geo, distidx, a=None):
    """get_neighbor_cells: the complete shell of cells (bases with vectors of equal length)."""
    g = GEO[geo]
    a = a or c.real("a", 0.25, 8)
    V = [[x * a for x in v] for v in g.V]
    basis = c.lp.LatticeBasis(V if g.dim > 1 else V[0][0])
    cells = list(itertools.product(range(-4, 5), repeat=g.dim))
    o = [0] * g.dim + [0]
    ds = []
    for d in sorted(g.dist(o, list(n) + [0]) for n in cells):
        if not ds or d - ds[-1] > 1e-7:
            ds.append(d)
    want = sorted(list(n) for n in cells if abs(g.dist(o, list(n) + [0]) - ds[distidx + 1]) < 1e-7)
    got = ints(basis.get_neighbor_cells(distidx, include_origin=False))
    c.check(sorted(got) == want, "cells at the distance")
    got = ints(basis.get_neighbor_cells(distidx))
    c.check(sorted(got) == sorted(want + [[0] * g.dim]), "cells at the distance and the origin")
    le = lambda d, m: d <= m * (1 + 1e-6)  # noqa: E731
    want = sorted(list(n) for n in cells if 1e-7 < g.dist(o, list(n) + [0]) < ds[distidx + 1] + 1e-7)
    if all(max(map(abs, n)) <= distidx + 1 for n in want):
        got = ints(basis.get_neighbor_cells(distidx, include_origin=False, comparison=le))
        c.check(sorted(got) == want, "cells up to the distance")
        got = ints(basis.get_neighbor_cells(distidx, True, le))
        c.check(sorted(got) == sorted(want + [[0] * g.dim]), "cells up to the distance and the origin")


# ---- C26 Fourier weights --------------------------------------------------------------------

def n_fourier(c, geo, form="array"):
    """fourier_weights: the sum of the phases over the neighbours of an atom at a distance."""
    g = GEO[geo]
    a = 1.0 if form == "unit" else 1.25
    latt = g.make(c, a)
    k = [c.real(f"k{i}", -4, 4) for i in range(g.dim)]
    kk = c.np.array(k) if form != "list" else k
    minus = c.np.array([-x for x in k])
    o = [0] * g.dim
    R = {1: 8, 2: 4, 3: 2, 4: 1}[g.dim]
    for al in range(g.nb):
        nums = latt.num_neighbors[al]
        tot = 0
        for di in range(len(latt.base_neighbors[al])):
            w = latt.fourier_weights(kk, alpha=al, distidx=di)
            vecs = rows(latt.get_neighbor_vectors(alpha=al, distidx=di))
            c.check(len(vecs) > 0, "neighbours of every distance")
            dist = math.sqrt(norm2([float(x) for x in vecs[0]]))
            own = [n for n in itertools.product(range(-R, R + 1), repeat=g.dim) for be in range(g.nb)
                   if any(abs(x * a - dist) < 1e-6 for x in g.allowed[al, be])
                   and abs(g.dist(o + [al], list(n) + [be]) * a - dist) < 1e-6]
            re, im = 0.0, 0.0
            for v in vecs:
                ph = dot(k, [float(x) for x in v])
                re, im = re + c.np.cos(ph), im + c.np.sin(ph)
            c.close(w.real, re, "real part of the weight")
            c.close(w.imag, im, "imaginary part of the weight")
            u = latt.fourier_weights(minus, alpha=al, distidx=di)
            c.close([u.real, u.imag], [w.real, -w.imag], "the opposite wave vector has the conjugate weight")
            z = latt.fourier_weights(c.np.array([0.0] * g.dim), alpha=al, distidx=di)
            c.close([z.real, z.imag], [float(len(vecs)), 0.0], "number of neighbours at the origin")
            c.check(len(vecs) == len(own), "one phase per site at the distance")
            tot += len(vecs)
            if al == 0:
                d = latt.fourier_weights(kk, distidx=di)
                c.close([d.real, d.imag], [w.real, w.imag], "the first atom is the default")
        d, e = latt.fourier_weights(kk, al), latt.fourier_weights(kk, alpha=al, distidx=0)
        c.close([d.real, d.imag], [e.real, e.imag], "the first distance is the default")
        c.check(tot == int(nums), "all neighbours belong to a distance")
    c.observe("w", [w.real, w.imag])
