"""C01-C04: basis vectors, coordinate transformations, reciprocal space, cell indices."""
from .common import *


def t_inverse(c, dim, kind):
    """transform/itransform are mutually inverse linear maps for every basis."""
    B = mat(c, "b", dim, -8, 8)
    regular(c, B)
    basis = c.lp.LatticeBasis(B if dim > 1 else B[0][0])
    n = vec(c, "n", dim, -50, 50)
    m = vec(c, "m", dim, -50, 50)
    r = vec(c, "r", dim, -50, 50)
    c.check(basis.dim == dim, "dim")
    c.close(basis.vectors, B, "vectors are the given basis vectors")
    if kind == "single":
        x = basis.transform(n)
        c.close(x, comb(n, B), "transform(n) = sum n_i a_i")
        c.close(basis.itransform(x), n, "itransform(transform(n)) = n")
        c.close(basis.transform(basis.itransform(r)), r, "transform(itransform(x)) = x")
        c.close(basis.translate(n, r), add(r, comb(n, B)), "translate(n, r) = r + sum n_i a_i")
        c.close(basis.translate(n), comb(n, B), "translate(n) = sum n_i a_i")
    else:
        x = basis.transform(c.np.array([n, m]))
        c.check(x.shape == (2, dim), "batch shape")
        c.close(x, [comb(n, B), comb(m, B)], "batch transform")
        c.close(basis.itransform(x), [n, m], "batch itransform(transform(n)) = n")
        y = basis.itransform(c.np.array([r, n]))
        c.close(basis.transform(y), [r, n], "batch transform(itransform(x)) = x")
        z = basis.translate(c.np.array([n, m]), r)
        c.close(z, [add(r, comb(n, B)), add(r, comb(m, B))], "batch translate")
    c.observe("x", x)


def t_itranslate(c, dim, kind, tri=False):
    """itranslate decomposes every point into an integer translation and a remainder in the cell."""
    if tri:
        B = tri_mat(c, dim, -2, 2)
    else:
        B = mat(c, "b", dim, -4, 4)
        regular(c, B)
    basis = c.lp.LatticeBasis(B if dim > 1 else B[0][0])
    x = vec(c, "x", dim, -6, 6)
    if kind == "batch":
        y = vec(c, "y", dim, -6, 6)
        nv, rr = basis.itranslate(c.np.array([x, y]))
        pts = [x, y]
        c.check(nv.shape == (2, dim) and rr.shape == (2, dim), "shape")
    else:
        n1, r1 = basis.itranslate(x if dim > 1 else x[0])
        nv, rr, pts = [n1], [r1], [x]
        c.check(n1.shape == (dim,), "shape")
    for p, n, r in zip(pts, nv, rr):
        c.check(str(n.dtype).startswith("int"), "integer translation vector")
        c.close(add(comb(list(n), B), list(r)), p, "translate(nvec, r) = x")
        c.close(basis.translate(n, r), p, "translate inverts itranslate")
        f = basis.itransform(r)
        for t in list(f):
            c.check(c.and_(t >= -1e-6, t <= 1 + 1e-6), "remainder lies in the unit cell")


EXACT = {
    "chain": [[2.0]],
    "neg": [[-0.5]],
    "square": [[1.0, 0.0], [0.0, 1.0]],
    "rect": [[2.0, 0.0], [0.0, 0.5]],
    "oblique": [[1.0, 0.0], [0.5, 1.0]],
    "skew": [[2.0, 1.0], [1.0, 1.0]],
    "sc": [[1.0, 0.0, 0.0], [0.0, 2.0, 0.0], [0.0, 0.0, 4.0]],
    "tri": [[1.0, 0.0, 0.0], [0.5, 1.0, 0.0], [0.0, 0.5, 2.0]],
}


def t_itranslate_exact(c, name):
    """Exact half-open cell condition on bases whose inverse is exact in floating point."""
    B = EXACT[name]
    dim = len(B)
    basis = c.lp.LatticeBasis(B)
    x = vec(c, "x", dim, -8, 8)
    n, r = basis.itranslate(x)
    f = basis.itransform(r)
    t = basis.itransform(x)
    c.close(add(comb(list(n), B), list(r)), x, "translate(nvec, r) = x")
    for i in range(dim):
        c.check(c.and_(f[i] >= 0, f[i] < 1), "fractional remainder in [0, 1)")
        c.check(c.and_(n[i] <= t[i], t[i] < n[i] + 1), "translation is the containing cell")
    c.observe("n", n)
    c.observe("r", r)


def t_construct(c, kind, dim=2):
    """The basis is taken row-wise from every accepted description."""
    lp = c.lp
    if kind == "float":
        a = c.real("a", 0.25, 8)
        b = lp.LatticeBasis(a)
        c.check(b.dim == 1, "dim")
        c.close(b.vectors, [[a]], "vectors")
        c.close(b.cell_volume, a, "volume")
        c.close(b.cell_size, [a], "size")
    elif kind == "copy":
        B = mat(c, "b", 2, -4, 4)
        regular(c, B)
        b0 = lp.LatticeBasis(B)
        for cls in (lp.LatticeBasis, lp.LatticeStructure, lp.Lattice):
            b = cls(b0)
            c.close(b.vectors, B, "vectors of a basis built from a basis")
            n = [2, -1]
            c.close(b.transform(n), comb(n, B), "transform")
    elif kind == "norms":
        B = mat(c, "b", dim, -4, 4)
        regular(c, B)
        b = lp.LatticeBasis(B)
        nr = b.norms
        for i in range(dim):
            c.check(nr[i] >= 0, "norm sign")
            c.close(nr[i] * nr[i], norm2(B[i]), "norm of basis vector")
        v3 = b.vectors3d
        c.check(v3.shape == (3, 3), "vectors3d shape")
        for i, j in itertools.product(range(3), repeat=2):
            want = B[i][j] if i < dim and j < dim else (1.0 if i == j else 0.0)
            c.close(v3[i, j], want, "vectors3d embeds the basis")
    elif kind == "int":
        B = [[2, 1], [-1, 3]]
        for arg in (B, tuple(map(tuple, B)), c.np.array(B)):
            b = lp.LatticeBasis(arg)
            n = vec(c, "n", 2, -50, 50) if arg is B else n
            c.close(b.transform(n), comb(n, B), "transform of an integer basis")
            c.close(b.itransform(comb(n, B)), n, "itransform of an integer basis")
        arr = c.np.array([[1.0, 0.0], [0.5, 2.0]])
        b = lp.LatticeBasis(arr)
        b.transform(n), b.itransform(n), b.translate(n, n), b.itranslate([0.3, 0.4])
        b.reciprocal_vectors(), b.cell_size, b.norms
        c.close(arr, [[1.0, 0.0], [0.5, 2.0]], "the argument is not modified")
        c.close(b.vectors, [[1.0, 0.0], [0.5, 2.0]], "queries do not modify the basis")
        q = c.np.array([n, n])
        b.transform(q), b.itransform(q), b.translate(q, n), b.itranslate([[0.3, 0.4], [1.2, 7.1]])
        c.close(q, [n, n], "the points are not modified")


def tri_mat(c, dim, lo, hi):
    """Lower triangular basis (every basis is one up to a rotation), diagonal of either sign."""
    B = [[0.0] * dim for _ in range(dim)]
    for i in range(dim):
        for j in range(i):
            B[i][j] = c.real(f"b{i}{j}", lo, hi)
        B[i][i] = c.real(f"b{i}{i}", lo, hi)
        c.assume(c.or_(B[i][i] >= 0.5, B[i][i] <= -0.5))
    return B


def r_vectors(c, dim):
    """a_i . b_j = 2 pi delta_ij for every regular basis (of either handedness)."""
    B = mat(c, "b", dim, -4, 4)
    d = regular(c, B)
    basis = c.lp.LatticeBasis(B if dim > 1 else B[0][0])
    R = basis.reciprocal_vectors()
    c.check(R.shape == (dim, dim), "shape")
    for i, j in itertools.product(range(dim), repeat=2):
        c.close(dot(B[i], list(R[j])), 2 * math.pi if i == j else 0.0, "a_i . b_j = 2 pi delta_ij", 1e-5)
    v = basis.cell_volume
    c.close(c.ite(d > 0, d, -d), v, "cell volume = |det|")
    c.check(v >= 0, "cell volume is positive")
    c.observe("R", R)


def r_double(c, dim, tri=False):
    """The reciprocal of the reciprocal lattice is the lattice; volumes multiply to (2 pi)^d."""
    if tri:
        B = tri_mat(c, dim, -2, 2)
    else:
        B = mat(c, "b", dim, -4, 4)
        regular(c, B)
    basis = c.lp.LatticeBasis(B if dim > 1 else B[0][0])
    rl = basis.reciprocal_lattice()
    c.check(rl.dim == dim, "dim")
    c.close(rl.cell_volume * basis.cell_volume, (2 * math.pi) ** dim, "V V* = (2 pi)^d", 1e-4)
    c.close(rl.reciprocal_vectors(), B, "reciprocal of the reciprocal", 1e-5)
    c.check(basis.is_reciprocal(rl.vectors, 1e-4), "reciprocal vectors are recognised")


def r_recognise(c, dim, fix=None):
    """is_reciprocal compares a_i . b_j with 2 pi delta_ij for each pair of vectors."""
    B = fix or mat(c, "b", dim, -2, 2)
    if not fix:
        regular(c, B, 0.25)
    basis = c.lp.LatticeBasis(B if dim > 1 else B[0][0])
    V = mat(c, "v", dim, -30, 30)
    ans = basis.is_reciprocal(V if dim > 1 else V[0][0], 1e-3)
    ok, far = [], []
    for i, j in itertools.product(range(dim), repeat=2):
        e = dot(B[i], V[j]) - (2 * math.pi if i == j else 0)
        ok.append(c.and_(e <= 0.5e-3, e >= -0.5e-3))
        far.append(c.or_(e >= 0.5, e <= -0.5))
    c.check(c.implies(c.and_(*ok), ans), "reciprocal vectors are accepted")
    c.check(c.implies(c.or_(*far), c.not_(ans)), "vectors that are not reciprocal are rejected")


def s_bijection(c, dim, kind):
    """(super index <-> cell index) is the row-major bijection of the cell box."""
    lp = c.lp
    basis = lp.LatticeBasis.hypercubic(dim)
    shape = [c.int(f"s{i}", 1, 6) for i in range(dim)]
    idx = [c.int(f"i{i}", 0, 5) for i in range(dim)]
    for i in range(dim):
        c.assume(idx[i] < shape[i])
    want = 0
    for i in range(dim):
        want = want * shape[i] + idx[i]
    if kind == "single":
        si = basis.get_cell_superindex(idx, shape)
        c.same(si, want, "row-major super index")
        back = basis.get_cell_index([si], shape)
        c.same(back, idx, "cell index of the super index")
    elif kind == "batch":
        jdx = [c.int(f"j{i}", 0, 5) for i in range(dim)]
        for i in range(dim):
            c.assume(jdx[i] < shape[i])
        si = basis.get_cell_superindex(c.np.array([idx, jdx]), shape)
        c.check(si.shape == (2,), "shape")
        c.same(si[0], want, "row-major super index")
        eq = c.and_(*[a == b for a, b in zip(idx, jdx)])
        c.check(c.iff(si[0] == si[1], eq), "distinct cells have distinct super indices")
        back = basis.get_cell_index(si, shape)
        c.check(back.shape == (2, dim), "shape of the indices")
        c.same(back, idx + jdx, "cell index of the super index (batch)")
        tot = 1
        for s in shape:
            tot = tot * s
        c.check(c.and_(si[0] >= 0, si[0] < tot), "super index range")
    c.observe("si", si)


def s_big(c, shape):
    """Shapes with very many cells."""
    dim = len(shape)
    basis = c.lp.LatticeBasis.hypercubic(dim)
    idx = [c.int(f"i{k}", 0, s - 1) for k, s in enumerate(shape)]
    jdx = [c.int(f"j{k}", 0, s - 1) for k, s in enumerate(shape)]
    want = []
    for v in (idx, jdx):
        n = 0
        for k in range(dim):
            n = n * shape[k] + v[k]
        want.append(n)
    c.same(basis.get_cell_superindex(idx, shape), want[0], "row-major super index")
    si = basis.get_cell_superindex(c.np.array([idx, jdx]), shape)
    c.same(si, want, "row-major super index")
    c.same(basis.get_cell_index(c.np.array(want), shape), idx + jdx, "cell index of the super index")


def g_prefab(c, name):
    """Lattice vectors, angles and volumes of the predefined bases for every lattice constant."""
    lp = c.lp
    a = c.real("a", 0.25, 8)
    L = lp.LatticeBasis

    def angle(v, w, cosine):
        c.close(dot(v, w), cosine * a * a, "angle between basis vectors")

    if name == "chain":
        b = L.chain(a)
        c.close(b.vectors, [[a]], "chain vector")
        c.close(b.cell_volume, a, "volume")
    elif name == "square":
        b = L.square(a)
        c.close(b.vectors, [[a, 0], [0, a]], "square vectors")
        c.close(b.cell_volume, a * a, "volume")
    elif name == "rectangular":
        a2 = c.real("a2", 0.25, 8)
        b = L.rectangular(a, a2)
        c.close(b.vectors, [[a, 0], [0, a2]], "rectangular vectors")
        c.close(b.cell_volume, a * a2, "volume")
        c.close(b.norms, [a, a2], "norms")
    elif name == "hexagonal":
        b = L.hexagonal(a)
        v, w = rows(b.vectors)
        c.close(norm2(v), 3 * a * a, "|a1| = sqrt(3) a")
        c.close(norm2(w), 3 * a * a, "|a2| = sqrt(3) a")
        c.close(dot(v, w), 1.5 * a * a, "60 degrees")
        c.close(b.cell_volume, 1.5 * S3 * a * a, "volume", 1e-5)
    elif name == "sc":
        b = L.sc(a)
        c.close(b.vectors, [[a, 0, 0], [0, a, 0], [0, 0, a]], "sc vectors")
        c.close(b.cell_volume, a * a * a, "volume", 1e-5)
    elif name == "fcc":
        b = L.fcc(a)
        V = rows(b.vectors)
        for v in V:
            c.close(norm2(v), 0.5 * a * a, "|a_i| = a / sqrt(2)")
        for v, w in itertools.combinations(V, 2):
            c.close(dot(v, w), 0.25 * a * a, "60 degrees")
        c.close(b.cell_volume, 0.25 * a * a * a, "volume", 1e-5)
    elif name == "bcc":
        b = L.bcc(a)
        V = rows(b.vectors)
        for v in V:
            c.close(norm2(v), 0.75 * a * a, "|a_i| = sqrt(3)/2 a")
        c.close(b.cell_volume, 0.5 * a * a * a, "volume", 1e-5)
        inv = b.itransform(c.np.array([[a, 0, 0], [0, a, 0], [0, 0, a]]))
        for t in c.flat(inv):
            c.check(c.or_(*[c.near(t, k) for k in range(-3, 4)]), "cubic cell is a lattice translation")
    elif name == "hexagonal3d":
        b = L.hexagonal3d(a, 1.0)
        V = rows(b.vectors)
        c.close(norm2(V[0]), 3 * a * a, "|a1| = sqrt(3) a")
        c.close(norm2(V[1]), 3 * a * a, "|a2| = sqrt(3) a")
        c.close(dot(V[0], V[1]), 1.5 * a * a, "60 degrees")
        c.close(dot(V[0], V[2]), 0, "stacking axis is perpendicular")
        c.close(dot(V[1], V[2]), 0, "stacking axis is perpendicular")
        c.check(V[2][2] > 0, "stacking axis")
    elif name.startswith("hypercubic"):
        d = int(name[-1])
        b = L.hypercubic(d, a)
        c.check(b.dim == d, "dim")
        c.close(b.vectors, [[a if i == j else 0 for j in range(d)] for i in range(d)], "vectors")
        v = 1
        for _ in range(d):
            v = v * a
        c.close(b.cell_volume, v, "volume", 1e-4)
        c.close(b.cell_size, [a] * d, "cell size")
    c.observe("v", b.vectors)


def g_oblique(c, deg):
    al = math.radians(deg)
    a1 = c.real("a1", 0.25, 8)
    a2 = c.real("a2", 0.25, 8)
    b = c.lp.LatticeBasis.oblique(al, a1, a2)
    v, w = rows(b.vectors)
    c.close(norm2(v), a1 * a1, "|a1|", 1e-5)
    c.close(norm2(w), a2 * a2, "|a2|", 1e-5)
    c.close(dot(v, w), a1 * a2 * math.cos(al), "angle", 1e-5)
    c.close(b.cell_volume, a1 * a2 * abs(math.sin(al)), "volume", 1e-5)
    c.close(v[0] * w[1] - v[1] * w[0], a1 * a2 * math.sin(al), "the angle is measured from the first vector", 1e-5)


def g_volume(c, dim, free):
    """Volume of a cell in more dimensions: orthogonal vectors, sheared by one free component."""
    n = [c.real(f"n{k}", 0.25, 4) for k in range(dim)]
    s = c.real("s", -4, 4)
    V = [[n[i] if i == j else 0.0 for j in range(dim)] for i in range(dim)]
    V[free[0]][free[1]] = s
    want = 1
    for x in n:
        want = want * x
    c.close(c.lp.cell_volume(c.np.array(V)), want, "volume of a sheared cell", 1e-4)


def g_cell_size(c, dim):
    """Extent of the box enclosing the origin and all basis vectors, per axis."""
    B = mat(c, "b", dim, -4, 4)
    regular(c, B)
    basis = c.lp.LatticeBasis(B if dim > 1 else B[0][0])
    s = basis.cell_size
    c.check(s.shape == (dim,), "shape")
    for ax in range(dim):
        hi, lo = 0, 0
        for v in B:
            p = v[ax]
            hi = c.ite(p > hi, p, hi)
            lo = c.ite(p < lo, p, lo)
        c.close(s[ax], hi - lo, "cell size encloses the origin and the basis vectors")


def g_default(c):
    """Lattice constants that are not given are 1."""
    L = c.lp.LatticeBasis
    a = c.real("a", 0.25, 8)
    one = c.real("one", 1, 1)
    for x, y in ((L.chain(), L.chain(one)), (L.square(), L.square(one)), (L.rectangular(), L.rectangular(one, one)),
                 (L.rectangular(a), L.rectangular(a, one)), (L.rectangular(a2=a), L.rectangular(one, a)),
                 (L.oblique(0.5), L.oblique(0.5, one, one)), (L.oblique(0.5, a), L.oblique(0.5, a, one)),
                 (L.oblique(0.5, a2=a), L.oblique(0.5, one, a)), (L.hexagonal(), L.hexagonal(one)),
                 (L.hexagonal3d(), L.hexagonal3d(one, one)), (L.hexagonal3d(a), L.hexagonal3d(a, one)),
                 (L.hexagonal3d(az=a), L.hexagonal3d(one, a)), (L.sc(), L.sc(one)), (L.fcc(), L.fcc(one)), (L.bcc(), L.bcc(one)),
                 (L.hypercubic(2), L.hypercubic(2, one)), (L.hypercubic(4, a=a), L.hypercubic(4, a))):
        c.close(x.vectors, y.vectors, "default lattice constant")
    for f in (L.chain, L.square, L.hexagonal, L.sc, L.fcc, L.bcc, L.rectangular, L.hexagonal3d):
        c.check(type(f(a)) is L, "type")
        s = getattr(c.lp.Lattice, f.__name__)(a)
        c.check(type(s) is c.lp.Lattice, "type of a lattice")
        c.close(s.vectors, f(a).vectors, "same vectors for every class")
