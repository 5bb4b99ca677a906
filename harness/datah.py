"""C09, C10, C12: the site/neighbour tables, for every consistent state of the tables."""
from .common import *
from .geo import GEO
from .model import *
from .build import box, full_box, unit, cells, snapshot, same_snapshot


class Tables:
    """An arbitrary consistent neighbour table: symmetric, no duplicates, D distances."""

    def __init__(self, c, N, cols, D, tag="", periodic=False, keys=None, dim=2):
        np, lp = c.np, c.lp
        self.c, self.N, self.cols, self.D = c, N, cols, D
        nb0 = [[(i + 1) % N] + [N] * (cols - 1) for i in range(N)]
        di0 = [[1.0] + [float("inf")] * (cols - 1) for i in range(N)]
        for k in range(D):
            di0[k % N][0] = 1.0 + k
        self.keys = keys or [[i, 0] for i in range(N)]
        self.dim = dim
        self.pos = [[float(i), 0.5 * i, 0.25 * i * i][:dim] for i in range(N)]
        d = lp.LatticeData(np.array([self.row(i) for i in range(N)]), np.array(self.pos), np.array(nb0),
                           np.array(di0))
        if keys is not None:
            d.indices = np.array([k + [0] for k in keys])
        self.nb = [[c.int(f"{tag}n{i}{s}", 0, N) for s in range(cols)] for i in range(N)]
        self.di = [[c.int(f"{tag}d{i}{s}", 0, D) for s in range(cols)] for i in range(N)]
        self.pm = None
        for i in range(N):
            for s in range(cols):
                n, k = self.nb[i][s], self.di[i][s]
                c.assume(c.iff(k == D, n == N))
                c.assume(n != i)
                for t in range(s):
                    c.assume(c.or_(n == N, n != self.nb[i][t]))
        for i in range(N):
            for j in range(i):
                for k in range(D):
                    c.assume(c.iff(self.rel(i, j, k), self.rel(j, i, k)))
        d.neighbors = np.array(self.nb).astype(d.neighbors.dtype)
        d.distances = np.array(self.di).astype(d.distances.dtype)
        if periodic:
            self.pm = [[c.bool(f"{tag}p{i}{s}") for s in range(cols)] for i in range(N)]
            self.pv = [[c.int(f"{tag}v{i}{s}", -1, 1) for s in range(cols)] for i in range(N)]
            for i in range(N):
                for s in range(cols):
                    c.assume(c.implies(self.pm[i][s], self.nb[i][s] < N))
                    c.assume(c.iff(self.pm[i][s], self.pv[i][s] != 0))
            d.pmask = np.array(self.pm)
            d.pnvecs = np.array([[[v] + [0] * (dim - 1) for v in r] for r in self.pv]).astype(d.pnvecs.dtype)
        self.data = d

    def row(self, i):
        return [i] + [0] * self.dim

    def rel(self, i, j, k, pm=None):
        c = self.c
        out = []
        for s in range(self.cols):
            e = [self.nb[i][s] == j, self.di[i][s] == k]
            if pm is not None:
                e += [self.pm[i][s], self.pv[i][s] == pm]
            out.append(c.and_(*e))
        return c.or_(*out)


def now(c, d, i, j, k, pm=None):
    """Is j a neighbour of i at distance index k according to the current tables?"""
    out = []
    mask = d.neighbor_mask(i)
    for s in range(d.neighbors.shape[1]):
        e = [mask[s], d.neighbors[i, s] == j, d.distances[i, s] == k]
        if pm is not None:
            e += [d.pmask[i, s], d.pnvecs[i, s, 0] == pm]
        out.append(c.and_(*e))
    return c.or_(*out)


def consistent(c, d, N, D):
    """Free slots are marked consistently; no neighbour is listed twice."""
    c.check(d.num_sites == N and d.neighbors.shape[0] == N and d.distances.shape[0] == N
            and d.positions.shape[0] == N and d.pmask.shape[0] == N and d.pnvecs.shape[0] == N
            and d.paxes.shape[0] == N, "number of rows of all tables")
    for i in range(N):
        mask = d.neighbor_mask(i)
        for s in range(d.neighbors.shape[1]):
            n = d.neighbors[i, s]
            c.check(c.implies(mask[s], c.and_(n >= 0, n < N, n != i)), "valid slots hold sites")
            c.check(c.implies(c.not_(mask[s]), c.not_(d.pmask[i, s])), "free slots are not periodic")
            for t in range(s):
                c.check(c.or_(c.not_(mask[s]), c.not_(mask[t]), n != d.neighbors[i, t]),
                        "no neighbour is listed twice")


def d_remove(c, N, cols, D, num, form="list", periodic=False, dim=2):
    """remove: the remaining sites keep exactly their relation, re-numbered."""
    c.opts(mask_mode="ite", sort_mode="rank")
    t = Tables(c, N, cols, D, periodic=periodic, dim=dim)
    d = t.data
    if form == "subset":
        subs = list(itertools.combinations(range(N), num))
        sites = list(subs[c.pick("sub", 0, len(subs) - 1)])
        if c.pick("rev", 0, 1):
            sites = sites[::-1]
    else:
        sites = [c.pick(f"r{m}", -N if form == "neg" else 0, N - 1) for m in range(num)]
    gone = {s % N for s in sites}
    c.assume(len(gone) < N)
    if form == "int":
        d.remove(sites[0])
    elif form == "array":
        d.remove(c.np.array(sites))
    else:
        d.remove(sites)
    left = [i for i in range(N) if i not in gone]
    M = len(left)
    consistent(c, d, M, D)
    for x, i in enumerate(left):
        c.check([int(v) for v in d.indices[x]] == t.row(i), "index of a remaining site")
        c.close(d.positions[x], t.pos[i], "position of a remaining site")
        for y, j in enumerate(left):
            for k in range(D):
                c.check(c.iff(now(c, d, x, y, k), t.rel(i, j, k)), "relation of the remaining sites")
                if periodic:
                    for v in (-1, 1):
                        c.check(c.iff(now(c, d, x, y, k, v), t.rel(i, j, k, v)),
                                "periodic data of the remaining sites")


def d_sort(c, N, cols, D, kind, periodic=False, rev=False, dim=2):
    """sort: a permutation of the sites that re-numbers the neighbours consistently."""
    c.opts(mask_mode="ite")
    if kind == "axis":
        keys = [[c.int(f"x{i}", -2, 2), i] for i in range(N)]
        t = Tables(c, N, cols, D, periodic=periodic, keys=keys)
        d = t.data
        d.sort(ax=0, reverse=rev)
        perm = [int(v) for v in d.indices[:, 1]]
        ks = [d.indices[x, 0] for x in range(N)]
        for a, b in zip(ks, ks[1:]):
            c.check(a >= b if rev else a <= b, "sorted along the axis")
        for x, i in enumerate(perm):
            c.same(d.indices[x], keys[i] + [0], "indices are permuted")
    else:
        t = Tables(c, N, cols, D, periodic=periodic, dim=dim)
        d = t.data
        perms = list(itertools.permutations(range(N)))
        perm = list(perms[c.pick("perm", 0, len(perms) - 1)])
        d.sort(indices=c.np.array(perm), reverse=rev)
        if rev:
            perm = perm[::-1]
        for x, i in enumerate(perm):
            c.check([int(v) for v in d.indices[x]] == t.row(i), "indices are permuted")
    c.check(sorted(perm) == list(range(N)), "permutation of the sites")
    consistent(c, d, N, D)
    for x, i in enumerate(perm):
        c.close(d.positions[x], t.pos[i], "positions are permuted")
        for y, j in enumerate(perm):
            for k in range(D):
                c.check(c.iff(now(c, d, x, y, k), t.rel(i, j, k)), "relation is preserved")
                if periodic:
                    for v in (-1, 1):
                        c.check(c.iff(now(c, d, x, y, k, v), t.rel(i, j, k, v)), "periodic data is preserved")


def d_sortnb(c, N, cols, D, periodic=False, dim=2):
    """sort_neighbors: same relation, ordered by distance."""
    c.opts(mask_mode="ite", sort_mode="rank")
    t = Tables(c, N, cols, D, periodic=periodic, dim=dim)
    d = t.data
    d.sort_neighbors()
    consistent(c, d, N, D)
    for i in range(N):
        for s in range(cols - 1):
            c.check(d.distances[i, s] <= d.distances[i, s + 1], "neighbours are ordered by distance")
        for j in range(N):
            for k in range(D):
                c.check(c.iff(now(c, d, i, j, k), t.rel(i, j, k)), "relation is preserved")
                if periodic:
                    for v in (-1, 1):
                        c.check(c.iff(now(c, d, i, j, k, v), t.rel(i, j, k, v)), "periodic data is preserved")


def d_rmper(c, N, cols, D, dim=2):
    """remove_periodic: exactly the periodic neighbours disappear."""
    c.opts(mask_mode="ite")
    t = Tables(c, N, cols, D, periodic=True, dim=dim)
    d = t.data
    d.remove_periodic()
    consistent(c, d, N, D)
    for i in range(N):
        for s in range(cols):
            c.check(c.not_(d.pmask[i, s]), "no periodic neighbour is left")
            c.check(d.pnvecs[i, s, 0] == 0, "no translation is left")
        for j in range(N):
            for k in range(D):
                reg = c.or_(*[c.and_(t.nb[i][s] == j, t.di[i][s] == k, c.not_(t.pm[i][s]))
                              for s in range(cols)])
                c.check(c.iff(now(c, d, i, j, k), reg), "regular neighbours are kept")


def d_add(c, N, cols, D, num, newdist):
    """add_neighbors: adds exactly the given neighbours, whatever slots are free."""
    t = Tables(c, N, cols, D)
    d = t.data
    site = c.pick("site", 0, N - 1)
    new = [c.pick(f"j{m}", 0, N - 1) for m in range(num)]
    c.assume(len(set(new)) == num and site not in new)
    for j in new:
        for k in range(D):
            c.assume(c.not_(t.rel(site, j, k)))
    old = [1.0 + k for k in range(D)]
    if newdist == "free":
        vals = free_dists(c, num, old)
        d.add_neighbors(site, new, c.np.array(vals))
        for i in range(N):
            for j in range(N):
                for k, v in enumerate(old):
                    if not (i == site and j in new):
                        c.check(c.iff(atval(c, d, i, j, v), t.rel(i, j, k)), "other neighbours are kept")
                if i == site and j in new:
                    c.check(atval(c, d, i, j, vals[new.index(j)]), "the neighbour is added")
        increasing(c, d)
        return consistent(c, d, N, len(d.distvals) - 1)
    vals = [newdist] * num
    d.add_neighbors(site, new, vals)
    dv = [float(x) for x in d.distvals]
    c.check(dv == sorted(set(old + [newdist])) + [float("inf")], "sorted list of distances")
    up = {k: dv.index(v) for k, v in enumerate(old)}
    consistent(c, d, N, len(dv) - 1)
    kn = dv.index(newdist)
    for i in range(N):
        for j in range(N):
            for k, k2 in up.items():
                if i == site and j in new:
                    continue
                c.check(c.iff(now(c, d, i, j, k2), t.rel(i, j, k)), "other neighbours are kept")
            if i == site and j in new:
                c.check(now(c, d, i, j, kn), "the neighbour is added")


def free_dists(c, num, old):
    """Arbitrary new distances, well apart from each other and from the existing ones."""
    vals = [c.real(f"d{m}", 0.25, 4) for m in range(num)]
    for m, v in enumerate(vals):
        for w in old + vals[:m]:
            c.assume(c.or_(v < w - 0.01, v > w + 0.01))
    return vals


def atval(c, d, i, j, val):
    """Is j a neighbour of i at the (symbolic) distance ``val``?"""
    dv = d.distvals.tolist()
    mask = d.neighbor_mask(i)
    out = [False]
    for s in range(d.neighbors.shape[1]):
        for k, v in enumerate(dv[:-1]):
            out.append(c.and_(mask[s], d.neighbors[i, s] == j, d.distances[i, s] == k, c.near(v, val, 1e-6)))
    return c.or_(*out)


def increasing(c, d):
    dv = d.distvals.tolist()
    for v, w in zip(dv[:-1], dv[1:-1]):
        c.check(v < w, "sorted list of distances")
    c.check(dv[-1] == float("inf"), "distance of free slots")


def d_limits(c, N, dim):
    """Limits of sites and cells."""
    np, lp = c.np, c.lp
    pos = [[c.real(f"p{i}{k}", -5, 5) for k in range(dim)] for i in range(N)]
    ind = [[c.int(f"i{i}{k}", -5, 5) for k in range(dim + 1)] for i in range(N)]
    nb = [[(i + 1) % N] for i in range(N)]
    d = lp.LatticeData(np.array(ind), np.array(pos), np.array(nb), np.array([[1.0]] * N))
    for got, want, w in ((d.get_limits(), pos, dim), (d.get_index_limits(), ind, dim + 1),
                         (d.get_cell_limits(), [r[:-1] for r in ind], dim),
                         (d.get_translation_limits(), [r[:-1] for r in ind], dim)):
        c.check(tuple(got.shape) == (2, w), "shape of the limits")
        for k in range(w):
            col = [r[k] for r in want]
            c.check(c.and_(*[c.and_(got[0, k] <= x, x <= got[1, k]) for x in col]), "limits enclose all sites")
            c.check(c.or_(*[c.near(got[0, k], x, 1e-9) for x in col]), "the lower limit is attained")
            c.check(c.or_(*[c.near(got[1, k], x, 1e-9) for x in col]), "the upper limit is attained")


def d_mask(c, dim, kind):
    """site_mask / find_sites / find_outer_sites: closed boxes, all bounds."""
    np, lp = c.np, c.lp
    N = 3
    c.opts(mask_mode="ite")
    pos = [[c.real(f"p{i}{k}", -3, 3) for k in range(dim)] for i in range(N)]
    nb = [[(i + 1) % N] for i in range(N)]
    d = lp.LatticeData(np.array([[i] * dim + [0] for i in range(N)]), np.array(pos), np.array(nb),
                       np.array([[1.0]] * N))
    if kind == "outer":
        off = c.real("off", 0, 2)
        got = d.find_outer_sites(0, off)
        lo, hi = pos[0][0], pos[0][0]
        for r in pos:
            lo, hi = c.ite(r[0] < lo, r[0], lo), c.ite(r[0] > hi, r[0], hi)
        want = [c.or_(r[0] < lo + off, r[0] > hi - off) for r in pos]
        have = {int(x) for x in got}
        for i in range(N):
            c.check(c.iff(want[i], i in have), "outer sites")
        return
    lo = [c.real(f"l{k}", -3, 3) for k in range(dim)]
    hi = [c.real(f"h{k}", -3, 3) for k in range(dim)]
    use = {"both": (lo, hi), "min": (lo, None), "max": (None, hi), "short": (lo[:1], hi[:1]),
           "none": ([None] * dim, [None] + hi[1:])}[kind]
    want = []
    for r in pos:
        e = [True]
        for k in range(dim):
            if use[0] is not None and k < len(use[0]) and use[0][k] is not None:
                e.append(use[0][k] <= r[k])
            if use[1] is not None and k < len(use[1]) and use[1][k] is not None:
                e.append(r[k] <= use[1][k])
        want.append(c.and_(*e))
    m = d.site_mask(*use)
    w = d.site_mask(*use, invert=True)
    for i in range(N):
        c.check(c.iff(want[i], m[i] == 1), "site mask")
        c.check(c.iff(c.not_(want[i]), w[i] == 1), "inverted site mask")
    have = {int(x) for x in d.find_sites(*use)}
    for i in range(N):
        c.check(c.iff(want[i], i in have), "found sites")
    for inv in (False, True):
        sel = d.indices[d.site_mask(*use, invert=inv)]
        c.check([int(r[0]) for r in sel] == [i for i in range(N) if (i in have) != inv], "sites selected by the mask")
    have = {int(x) for x in d.find_sites(*use, invert=True)}
    for i in range(N):
        c.check(c.iff(c.not_(want[i]), i in have), "found sites (inverted)")


# ---- histories of a lattice ---------------------------------------------------------------

def h_history(c, geo, L, steps, ops, first=None):
    """After every history of operations all views show the same, current relation."""
    g = GEO[geo]
    latt = g.make(c, 1.0)
    s = box(c, g, L, 1.0, free=False)
    latt.build(s if g.dim > 1 else s[0])
    ref = Ref(g, [list(i) for i in ints(latt.indices)])
    op0 = [list(i) for i in ref.ind]
    top = len(op0)
    look(latt)
    for t in range(steps):
        op = first if first and not t else ops[c.pick(f"op{t}", 0, len(ops) - 1)]
        if op == "remove":
            if len(ref.ind) < 2:
                c.assume(False)
            k = c.pick(f"k{t}", 0, 2)
            k = [0, len(ref.ind) // 2, len(ref.ind) - 1][k]
            latt.data.remove(k)
            ref.remove(k)
        elif op == "per":
            # the period is the extent of the remaining cells along the axis
            P = ref.extent()
            if P < min(3, L[0]):
                c.assume(False)
            latt.set_periodic(0)
            ref.period(unit(g.dim, 0, P))
        elif op == "open":
            latt.set_periodic(None)
            ref.period(None)
        elif op == "sort":
            latt.data.sort(ax=g.dim - 1)
            ref.ind = [list(i) for i in ints(latt.indices)]
        elif op == "reverse":
            latt.data.sort(ax=0, reverse=True)
            ref.ind = [list(i) for i in ints(latt.indices)]
        elif op == "sortnb":
            latt.data.sort_neighbors()
        elif op == "build":
            latt.build(s if g.dim > 1 else s[0])
            ref = Ref(g, [list(i) for i in ints(latt.indices)])
        elif op in ("repeat", "append"):
            if len(ref.ind) > top:
                c.assume(False)
            P = ref.extent()
            if op == "repeat":
                latt.repeat(ax=0)
                ref.ind += [[i[0] + P, *i[1:]] for i in ref.ind]
            else:
                # on the left side, in front of the cells of the model
                other = g.make(c, 1.0)
                other.build(s if g.dim > 1 else s[0])
                if op0 != [list(i) for i in ints(other.indices)] or min(i[0] for i in ref.ind) != 0:
                    c.assume(False)
                latt.append(other, ax=0, side=-1)
                ref.ind += [[i[0] - L[0], *i[1:]] for i in op0]
            ref.period(None)
        elif op == "look":
            look(latt)
        audit(c, latt, g, torus=ref.torus, sites=ref.ind)


def h_edit(c, L, steps, per=False):
    """All views follow edits of the neighbour data (adding neighbours, removing periodic ones, sorting)."""
    latt = GEO["chain"].make(c, 1.0)
    latt.build(L - 1, periodic=0 if per else None)
    rel = {(i, j): (1.0, False) for i in range(L) for j in range(L) if abs(i - j) == 1}
    if per:
        rel.update({(0, L - 1): (1.0, True), (L - 1, 0): (1.0, True)})
    look(latt)
    for t in range(steps):
        op = c.pick(f"op{t}", 0, 3)
        if op == 0:
            i, k = c.pick(f"i{t}", 0, L - 3), c.pick(f"k{t}", 0, 2)
            j = min(i + 2 + k, L - 1)
            if (i, j) in rel:
                c.assume(False)
            d = [0.5, 1.0, 2.5][k]
            latt.data.add_neighbors(i, j, d)
            latt.data.add_neighbors(j, [i], [d])
            rel[i, j] = rel[j, i] = d, False
        elif op == 1:
            latt.data.remove_periodic()
            rel = {e: v for e, v in rel.items() if not v[1]}
        elif op == 2:
            latt.data.sort_neighbors()
        else:
            # reverse the order of the sites
            latt.data.sort(indices=list(range(L))[::-1])
            rel = {(L - 1 - i, L - 1 - j): v for (i, j), v in rel.items()}
        vals = [float(x) for x in latt.data.distvals]
        c.check(vals == sorted(vals), "distances are sorted")
        got = [{} for _ in range(L)]
        for (i, j), (d, pm) in rel.items():
            c.check(any(abs(x - d) < 1e-9 for x in vals), "distance of the neighbours")
            got[i][j] = (min(range(len(vals)), key=lambda k: abs(vals[k] - d)), pm)
        view_check(c, latt, got)


class Ref:
    def __init__(self, g, ind):
        self.ind, self.torus = ind, ()

    def extent(self):
        x = [i[0] for i in self.ind]
        return max(x) - min(x) + 1

    def remove(self, k):
        del self.ind[k]

    def period(self, t):
        self.torus = () if t is None else (t,)


def look(latt):
    latt.dmap(), latt.neighbor_pairs(), latt.adjacency_matrix()


def m_hamiltonian(c, geo, L, axes, norb=None):
    """The matrix built from the data map: the values end up at the pairs they belong to."""
    g = GEO[geo]
    latt = g.make(c, 1.0)
    s = box(c, g, L, 1.0, free=False)
    latt.build(s if g.dim > 1 else s[0])
    if axes:
        latt.set_periodic(list(axes))
    N = latt.num_sites
    eps = [c.real(f"e{al}", -2, 2) for al in range(g.nb)]
    ds = sorted({k for i in range(N) for k, _ in latt.iter_neighbors(i)})
    hop = [c.real(f"t{k}", -2, 2) for k in range(len(ds))]
    m = latt.dmap()
    ind = ints(latt.indices)
    want = wanted(g, ind, [unit(g.dim, a, L[a]) for a in axes])
    dv = [float(x) for x in latt.data.distvals]
    if norb is None:
        data = m.zeros(dtype=float)
        c.check(tuple(data.shape) == (m.size,), "one value per element")
        for al in range(g.nb):
            data[m.onsite(al)] = eps[al]
        for k in range(len(ds)):
            data[m.hopping(k)] = hop[k]
        H = m.build_csr(data).toarray()
        c.check(tuple(H.shape) == (N, N), "shape of the matrix")
        for i in range(N):
            for j in range(N):
                if i == j:
                    w = eps[ind[i][-1]]
                elif j in want[i]:
                    w = hop[min(range(len(ds)), key=lambda k: abs(dv[k] - want[i][j][0]))]
                else:
                    w = 0.0
                c.close(H[i, j], w, "matrix element")
    else:
        data = m.zeros(norb)
        c.check(tuple(data.shape) == (m.size, norb, norb), "one block per element")
        c.check(all(float(x) == 0 for x in c.flat(data)), "zeros")
        np = c.np
        data = m.zeros(norb, dtype=float)
        E = [[[c.real(f"e{al}{x}{y}", -2, 2) if x <= y else 0.0 for y in range(norb)] for x in range(norb)] for al in range(g.nb)]
        T = [[[c.real(f"t{k}{x}{y}", -2, 2) if x >= y else 0.5 for y in range(norb)] for x in range(norb)] for k in range(len(ds))]
        for al in range(g.nb):
            data[m.onsite(al)] = np.array(E[al])
        for k in range(len(ds)):
            data[m.hopping(k)] = np.array(T[k])
        H = m.build_bsr(data).toarray()
        c.check(tuple(H.shape) == (N * norb, N * norb), "shape of the matrix")
        for i in range(N):
            for j in range(N):
                w = [[0.0] * norb] * norb
                if i == j:
                    w = E[ind[i][-1]]
                elif j in want[i]:
                    w = T[min(range(len(ds)), key=lambda k: abs(dv[k] - want[i][j][0]))]
                for x in range(norb):
                    for y in range(norb):
                        c.close(H[i * norb + x, j * norb + y], w[x][y], "element of a block")


def m_symbolic(c, N):
    """DataMap of arbitrary pairs and atoms."""
    np = c.np
    from importlib import import_module

    al = [c.pick(f"a{i}", 0, 1) for i in range(N)]
    edges = []
    for i, j in itertools.combinations(range(N), 2):
        k = c.pick(f"e{i}{j}", 0, 2)
        if k:
            edges += [(i, j, k - 1), (j, i, k - 1)]
    c.assume(len(edges) > 0)
    order = c.pick("rev", 0, 1)
    es = sorted(edges, reverse=bool(order))
    DataMap = c.lp.data.DataMap
    m = DataMap(np.array(al, dtype=np.int8), np.array([[i, j] for i, j, _ in es], dtype=np.int64),
                np.array([k for _, _, k in es], dtype=np.uint8))
    map_check(c, m, al, sorted(edges))


def m_atoms(c):
    """Data map of unit cells with many atoms."""
    np = c.np
    some = [0, 1, 126, 127, 128, 129, 254, 255, 256, 300]
    al = [some[c.pick(f"a{i}", 0, len(some) - 1)] for i in range(2)] + [2]
    d = c.lp.LatticeData(np.array([[i, x] for i, x in enumerate(al)]), np.array([[0.5 * i] for i in range(3)]),
                         np.array([[1, 3], [0, 2], [1, 3]]), np.array([[1.0, float("inf")], [1.0, 2.0], [2.0, float("inf")]]))
    map_check(c, d.map(), al, [(0, 1, 0), (1, 0, 0), (1, 2, 1), (2, 1, 1)])


def d_many(c, n):
    """add_neighbors with many distances."""
    np, lp = c.np, c.lp
    N, inf = n + 1, float("inf")
    nb = [[i - 1 if i else N, i + 1 if i < n else N] for i in range(N)]
    di = [[float(i) if i else inf, i + 1.0 if i < n else inf] for i in range(N)]
    d = lp.LatticeData(np.array([[i, 0] for i in range(N)]), np.array([[float(i)] for i in range(N)]), np.array(nb), np.array(di))
    new = [(0, 2, c.real("x", 0.25, 0.75)), (1, 3, 2.0 + c.real("y", 0.25, 0.75)), (0, 3, n + c.real("z", 0.25, 0.75))]
    want = {(i, j): v for i in range(N) for j, v in zip(nb[i], di[i]) if j < N}
    for i, j, v in new:
        d.add_neighbors(i, j, [v])
        d.add_neighbors(j, [i], v)
        want[i, j] = want[j, i] = v
    got = [(i, int(j)) for i in range(N) for j in d.get_neighbors(i)]
    c.check(sorted(got) == sorted(want), "exactly the given neighbours")
    for i in sorted({0, 1, 2, 3, 127, 128, 250, 253, 254, 255, n - 1, n} & set(range(N))):
        for j, k in zip(d.neighbors[i], d.distances[i]):
            if int(j) < N:
                c.close(d.distvals[k], want[i, int(j)], "distance of a neighbour", 1e-3)


def h_refuse(c, geo, L, axes):
    """A build that fails leaves the lattice as it is."""
    g = GEO[geo]
    a = c.real("a", 0.0625, 64)
    latt = g.make(c, a)
    s = box(c, g, L, a, free=False)
    s = s if g.dim > 1 else s[0]
    latt.build(s, periodic=axes or None)
    before = snapshot(latt)
    k = c.pick("how", 0, 2)
    f = (lambda: latt.build([2.5 * a] * (g.dim + 1)), lambda: latt.build(s, min_neighbors=99),
         lambda: latt.build(c.lp.Shape([1.5 * a] * (g.dim + 1))))[k]
    c.raises(ValueError, f, "the build is refused")
    same_snapshot(c, before, snapshot(latt), "the lattice is unchanged")
    audit(c, latt, g, a, torus=[unit(g.dim, x, L[x]) for x in axes], sites=full_box(g, L))


def nowval(c, d, i, j, val):
    """Is j a neighbour of i at the distance ``val`` according to the current tables?"""
    dv = d.distvals.tolist()
    out = []
    mask = d.neighbor_mask(i)
    for s in range(d.neighbors.shape[1]):
        for k, v in enumerate(dv):
            if v == val:
                out.append(c.and_(mask[s], d.neighbors[i, s] == j, d.distances[i, s] == k))
    return c.or_(*out) if out else False


def d_append(c, N1, N2, cols1, cols2, D, form="data", copy=False, periodic=False):
    """append: disjoint union of two arbitrary tables; periodic neighbours are dropped."""
    c.opts(mask_mode="ite")
    t1 = Tables(c, N1, cols1, D, tag="a", periodic=periodic)
    t2 = Tables(c, N2, cols2, D, tag="b", periodic=periodic and form == "data")
    d1, d2 = t1.data, t2.data
    before = [x.tolist() for x in (d2.neighbors, d2.distances, d2.pmask, d2.indices, d2.positions)]
    if form == "data":
        res = d1.append(d2, copy=copy)
    else:
        res = d1.append(d2.indices, d2.positions, d2.neighbors, d2.distvals[d2.distances], copy=copy)
    if not copy:
        c.check(res is d1, "returns the data")
    for x, y in zip(before, (d2.neighbors, d2.distances, d2.pmask, d2.indices, d2.positions)):
        c.close(x, y, "the appended data is not changed")
    if copy:
        c.check(d1.num_sites == N1, "the original is not changed")
        for i in range(N1):
            for j in range(N1):
                for k in range(D):
                    c.check(c.iff(now(c, d1, i, j, k), t1.rel(i, j, k)), "the original is not changed")
    N = N1 + N2
    consistent(c, res, N, D)
    c.close(res.positions, t1.pos + t2.pos, "positions")
    c.check(ints(res.indices) == [[i, 0, 0] for i in range(N1)] + [[i, 0, 0] for i in range(N2)], "indices")
    for t, off, n in ((t1, 0, N1), (t2, N1, N2)):
        for i in range(n):
            for j in range(N):
                for k in range(D):
                    if not off <= j < off + n:
                        w = False
                    elif t.pm is not None:
                        w = c.or_(*[c.and_(t.nb[i][s] == j - off, t.di[i][s] == k, c.not_(t.pm[i][s]))
                                    for s in range(t.cols)])
                    else:
                        w = t.rel(i, j - off, k)
                    c.check(c.iff(nowval(c, res, i + off, j, 1.0 + k), w), "relation of the parts")


def d_setper(c, N, cols, D, num, newdist=1.0, old=False):
    """set_periodic: replaces the periodic neighbours, keeps the regular ones."""
    c.opts(mask_mode="ite")
    t = Tables(c, N, cols, D, periodic=old)
    d = t.data
    np = c.np
    new = {}
    for m in range(num):
        i, j = c.pick(f"i{m}", 0, N - 1), c.pick(f"j{m}", 0, N - 1)
        c.assume(i < j and (i, j) not in new)
        new[i, j] = [1, -1][c.pick(f"v{m}", 0, 1)]
    pidx, pd, pv, pa = {}, {}, {}, {}
    free = newdist == "free"
    vals = free_dists(c, num, [1.0 + k for k in range(D)]) if free else [newdist] * num
    for ((i, j), v), dist in zip(new.items(), vals):
        for k in range(D):
            c.assume(c.not_(regular_rel(c, t, i, j, k)))
            c.assume(c.not_(regular_rel(c, t, j, i, k)))
        for x, y, w in ((i, j, v), (j, i, -v)):
            pidx.setdefault(x, []).append(y)
            pd.setdefault(x, []).append(dist)
            pv.setdefault(x, []).append([w, 0])
            pa.setdefault(x, []).append([0])
    arrs = [{k: np.array(v) for k, v in x.items()} for x in (pidx, pd, pv, pa)]
    d.set_periodic(*arrs)
    if free:
        increasing(c, d)
        for i in range(N):
            for j in range(N):
                for k in range(D):
                    c.check(c.iff(atval(c, d, i, j, 1.0 + k), regular_rel(c, t, i, j, k)), "regular neighbours are kept")
        for (i, j), dist in zip(new, vals):
            c.check(atval(c, d, i, j, dist), "the periodic neighbour is added")
            c.check(atval(c, d, j, i, dist), "the periodic neighbour is added")
        return consistent(c, d, N, len(d.distvals) - 1)
    dv = [float(x) for x in d.distvals]
    consistent(c, d, N, len(dv) - 1)
    for i in range(N):
        for j in range(N):
            w = new.get((i, j), -new[j, i] if (j, i) in new else None)
            for k in range(D):
                reg = regular_rel(c, t, i, j, k)
                if w is not None and newdist == 1.0 + k:
                    reg = True
                c.check(c.iff(nowval(c, d, i, j, 1.0 + k), reg), "regular neighbours are kept")
            per = [c.and_(d.neighbor_mask(i)[s], d.pmask[i, s], d.neighbors[i, s] == j)
                   for s in range(d.neighbors.shape[1])]
            if w is None:
                c.check(c.not_(c.or_(*per)), "no other periodic neighbour")
            else:
                kn = dv.index(newdist)
                c.check(c.or_(*[c.and_(p, d.distances[i, s] == kn, d.pnvecs[i, s, 0] == w,
                                       d.pnvecs[i, s, 1] == 0, d.paxes[i, s, 0] == 0)
                                for s, p in enumerate(per)]), "the periodic neighbour is added")


def regular_rel(c, t, i, j, k):
    if t.pm is None:
        return t.rel(i, j, k)
    return c.or_(*[c.and_(t.nb[i][s] == j, t.di[i][s] == k, c.not_(t.pm[i][s])) for s in range(t.cols)])
