"""Audit of a finite lattice against an independent description of its geometry."""
import itertools

from .common import sub


def ints(x):
    return [[int(v) for v in r] for r in x]


def wanted(g, ind, torus=()):
    """Expected neighbours: per site {j: (distance, period)}; period is None inside the system."""
    N = len(ind)
    dim = g.dim
    shifts = []
    for ks in itertools.product((0, 1, -1), repeat=len(torus)):
        if any(ks):
            shifts.append([sum(k * t[d] for k, t in zip(ks, torus)) for d in range(dim)])
    want = [dict() for _ in range(N)]
    for i, j in itertools.product(range(N), repeat=2):
        if i == j:
            continue
        al, be = ind[i][-1], ind[j][-1]
        d = g.dist(ind[i], ind[j])
        if g.connected(al, be, d):
            want[i][j] = (d, None)
            continue
        best = None
        for s in shifts:
            t = [x + y for x, y in zip(ind[j], s + [0])]
            d = g.dist(ind[i], t)
            if g.connected(al, be, d) and (best is None or d < best[0] - 1e-9):
                best = (d, s)
        if best is not None:
            want[i][j] = best
    return want


def audit(c, latt, g, a=1.0, torus=(), axes=None, views=True, sites=None, want=None):
    """Everything observable about the finite lattice agrees with the geometry."""
    data = latt.data
    ind = ints(latt.indices)
    N = len(ind)
    dim = g.dim
    c.check(latt.num_sites == N, "num_sites")
    c.check(len({tuple(i) for i in ind}) == N, "no duplicate sites")
    if sites is not None:
        c.check({tuple(i) for i in ind} == {tuple(i) for i in sites}, "set of sites")
    pos = latt.positions
    c.check(tuple(pos.shape) == (N, dim), "one position per site")
    for i, p in zip(ind, pos.tolist()):
        c.close(p, [x * a for x in g.pos(i[:-1], i[-1])], "site position")
    if want is None:
        want = wanted(g, ind, torus)
    nb = data.neighbors
    cols = nb.shape[1]
    c.check(tuple(nb.shape) == tuple(data.distances.shape) == tuple(data.pmask.shape)
            and nb.shape[0] == N, "shapes of the neighbour tables")
    c.check(tuple(data.pnvecs.shape) == (N, cols, dim), "shape of the translations")
    dv = data.distvals.tolist()
    got = []
    for i in range(N):
        lst = [int(x) for x in latt.neighbors(i)]
        c.check(len(set(lst)) == len(lst), "a neighbour is listed once")
        c.check(set(lst) == set(want[i]), "neighbours are exactly the connected sites")
        mask = [bool(x) for x in data.neighbor_mask(i)]
        rec = {}
        for s in range(cols):
            if not mask[s]:
                c.check(not bool(data.pmask[i, s]), "free slots are not periodic")
                continue
            j = int(nb[i, s])
            k = int(data.distances[i, s])
            d, per = want[i][j]
            c.close(dv[k], d * a, "neighbour distance")
            pm = bool(data.pmask[i, s])
            c.check(pm == (per is not None), "periodic flag of a neighbour")
            nv = [int(x) for x in data.pnvecs[i, s]]
            if not pm:
                c.check(not any(nv), "translation of a regular neighbour is zero")
            else:
                t = [x - y for x, y in zip(ind[j], nv + [0])]
                c.check(abs(g.dist(ind[i], t) - d) < 1e-7, "translation maps to the periodic image")
                c.check(any(nv), "translation of a periodic neighbour")
            rec[j] = (k, pm)
        got.append(rec)
    for i in range(N):
        for j, (k, pm) in got[i].items():
            c.check(i in got[j] and got[j][i] == (k, pm), "neighbour relation is symmetric")
    if views:
        view_check(c, latt, got)
    return want


def view_check(c, latt, got, light=False):
    """All views of the neighbour data describe the same relation ``got``."""
    data = latt.data
    N = len(got)
    ks = sorted({k for r in got for k, _ in r.values()})
    allk = range(len(data.distvals))
    for i in range(N):
        r = got[i]
        for k in allk:
            exp = sorted(j for j, (kk, _) in r.items() if kk == k)
            if k < len(data.distvals) - 1 or k in ks:
                c.check(sorted(int(x) for x in latt.neighbors(i, k)) == exp, "neighbours per distance")
        c.check(sorted(int(x) for x in latt.neighbors(i, unique=True)) == sorted(j for j in r if j > i),
                "unique neighbours")
        c.check(sorted(int(x) for x in latt.nearest_neighbors(i)) ==
                sorted(j for j, (k, _) in r.items() if k == 0), "nearest neighbours")
        for per in (True, False):
            c.check(sorted(int(x) for x in data.get_neighbors(i, periodic=per)) ==
                    sorted(j for j, (_, p) in r.items() if p is per), "(non-)periodic neighbours")
            for k in [None] + (ks if ks != [0] else []):
                for uniq in ((True, False) if k is not None else (True,)):
                    c.check(sorted(int(x) for x in data.get_neighbors(i, k, per, uniq)) ==
                            sorted(j for j, (kk, p) in r.items() if p is per and k in (None, kk) and (j > i or not uniq)),
                            "neighbours per distance, periodic and unique")
        it = {}
        for k, js in latt.iter_neighbors(i):
            c.check(int(k) not in it, "iter_neighbors yields a distance once")
            it[int(k)] = sorted(int(x) for x in js)
        c.check(it == {k: sorted(j for j, (kk, _) in r.items() if kk == k)
                       for k in {k for k, _ in r.values()}}, "iter_neighbors")
        it = {}
        for k, js in latt.iter_neighbors(i, unique=True):
            if len(js):
                it[int(k)] = sorted(int(x) for x in js)
        exp = {}
        for j, (k, _) in r.items():
            if j > i:
                exp.setdefault(k, []).append(j)
        c.check(it == {k: sorted(v) for k, v in exp.items()}, "iter_neighbors (unique)")
    edges = sorted((i, j, k) for i in range(N) for j, (k, _) in got[i].items())
    pairs, di = latt.neighbor_pairs()
    c.check(sorted((int(p[0]), int(p[1]), int(k)) for p, k in zip(pairs, di)) == edges, "neighbor_pairs")
    pairs, di = latt.neighbor_pairs(unique=True)
    c.check(sorted((int(p[0]), int(p[1]), int(k)) for p, k in zip(pairs, di)) ==
            [e for e in edges if e[0] < e[1]], "neighbor_pairs (unique)")
    if edges:
        m = latt.adjacency_matrix()
        c.check(tuple(m.shape) == (N, N), "adjacency matrix shape")
        dense = m.toarray()
        full = [[0] * N for _ in range(N)]
        for i, j, k in edges:
            full[i][j] = k + 1
        c.check([[int(x) for x in r] for r in dense.tolist()] == full, "adjacency matrix")
    map_check(c, latt.dmap(), [int(x[-1]) for x in latt.indices], edges)


def map_check(c, m, alphas, edges):
    """DataMap: one diagonal element per site and one element per directed neighbour pair."""
    N = len(alphas)
    rows = [int(x) for x in m.rows]
    cols = [int(x) for x in m.cols]
    size = N + len(edges)
    c.check(m.size == size and len(rows) == size and len(cols) == size, "size of the data map")
    c.check(ints(m.indices.tolist()) == [rows, cols], "indices of the data map")
    c.check(rows == sorted(rows), "rows of the data map are sorted")
    on = [bool(x) for x in m.onsite()]
    hop = [bool(x) for x in m.hopping()]
    c.check(all(x != y for x, y in zip(on, hop)), "an element is either onsite or hopping")
    c.check(sorted((r, s) for r, s, o in zip(rows, cols, on) if o) == [(i, i) for i in range(N)],
            "onsite elements")
    for al in sorted(set(alphas)):
        sel = [bool(x) for x in m.onsite(al)]
        c.check(sorted((r, s) for r, s, o in zip(rows, cols, sel) if o) ==
                [(i, i) for i in range(N) if alphas[i] == al], "onsite elements per atom")
    c.check(sorted((r, s) for r, s, o in zip(rows, cols, hop) if o) ==
            sorted((i, j) for i, j, _ in edges), "hopping elements")
    for k in sorted({e[2] for e in edges}):
        sel = [bool(x) for x in m.hopping(k)]
        c.check(sorted((r, s) for r, s, o in zip(rows, cols, sel) if o) ==
                sorted((i, j) for i, j, kk in edges if kk == k), "hopping elements per distance")
    ind, ptr = m.indices_indptr()
    ind, ptr = [int(x) for x in ind], [int(x) for x in ptr]
    c.check(len(ptr) == N + 1 and ptr[0] == 0 and ptr[-1] == size, "row pointers")
    if len(ptr) == N + 1:
        for i in range(N):
            c.check(sorted(ind[ptr[i]:ptr[i + 1]]) ==
                    sorted(s for r, s in zip(rows, cols) if r == i), "columns of a row")


__all__ = ["ints", "wanted", "audit", "view_check", "map_check", "sub"]
