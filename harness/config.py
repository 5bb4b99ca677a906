"""C18, C21, C22, C23, C25: configuration, prefabs, copies and site queries."""
from .common import *
from .geo import GEO, Geo
from .model import *
from .build import at, box, full_box, cells, snapshot, same_snapshot, axes_args
from .lattice import infinite


def conns(latt):
    return [[int(x) for x in r] for r in latt.todict()["connections"].tolist()]


# ---- C18 configuration --------------------------------------------------------------------

def q_occupied(c, dim, num=2):
    """add_atom: a position can be used exactly once; a refused atom changes nothing."""
    latt = c.lp.Lattice([[1.0 if i == j else 0.25 * (j > i) for j in range(dim)] for i in range(dim)]
                        if dim > 1 else 1.0)
    P, used = [], []
    for k in range(num):
        p = [c.real(f"p{k}{i}", -3, 3) for i in range(dim)]
        for q in P:  # equal, or different beyond rounding errors
            c.assume(c.and_(*[c.or_(x == y, x >= y + 0.01, x <= y - 0.01) for x, y in zip(p, q)]))
        taken = any(c.branch(c.and_(*[x == y for x, y in zip(p, q)])) for q in P)
        n = latt.num_base
        if taken:
            e = c.raises(c.lp.utils.SiteOccupiedError, lambda: latt.add_atom(p, "X"), "occupied position")
            c.check(isinstance(e, c.lp.utils.ConfigurationError) and len(str(e)) > 0, "message")
            c.check(latt.num_base == n and len(latt.atoms) == n and len(latt.atom_positions) == n,
                    "a refused atom changes nothing")
            for x in (c.lp.Atom("Y"), latt.atoms[0]):
                c.raises(c.lp.utils.SiteOccupiedError, lambda: latt.add_atom(p, x), "occupied position")
                c.check(latt.num_base == n and [y.name for y in latt.atoms] == ["B%d" % b for b in used]
                        and len(latt.atom_positions) == n, "a refused atom changes nothing")
        else:
            used.append(k)
            at = latt.add_atom(p if dim > 1 else p[0], "B%d" % k)
            P.append(p)
            c.check(at.name == "B%d" % k and latt.atoms[-1] is at, "the new atom is returned")
        c.check(latt.num_base == len(P), "number of atoms")
        for x, y in zip(latt.atom_positions, P):
            c.close(x, y, "atom position")


def q_default(c, dim):
    """The default position is the origin; wrong dimensions are refused."""
    a = c.real("a", 0.25, 4)
    latt = c.lp.Lattice([[a * (i == j) for j in range(dim)] for i in range(dim)] if dim > 1 else a)
    c.raises(ValueError, lambda: latt.add_atom([0.5] * (dim + 1)), "wrong dimension of a position")
    c.raises(ValueError, lambda: latt.add_atom([0.5] * (dim + 1), c.lp.Atom("Y")), "wrong dimension of a position")
    c.check(latt.num_base == 0 and len(latt.atoms) == 0, "a refused atom changes nothing")
    latt.add_atom(atom="A", energy=a)
    c.close(latt.atom_positions[0], [0.0] * dim, "default position")
    c.close(latt.atoms[0]["energy"], a, "atom parameter")
    c.check(latt.get_atom(0).name == "A", "atom name")
    latt.add_connections(1)
    for bad in ([1.0] * (dim + 1), [1.0] * (dim - 1)):
        if bad:
            c.raises((ValueError, IndexError), lambda: latt.build([2 * x * a for x in bad]), "wrong dimension of a shape")


def q_conndefault(c, how):
    """Connections without a number of distances use the nearest one only."""
    d = c.real("d", 0.25, 0.45)
    latt = c.lp.Lattice.chain(1.0)
    latt.add_atom(0.0, "A")
    latt.add_atom(d, "B")
    if how == "pair":
        latt.add_connection(*[(0, 1), ("A", "B"), ("B", 0)][c.pick("k", 0, 2)])
        c.raises(c.lp.NotAnalyzedError, lambda: latt.build(2), "add_connection only analyzes on request")
        latt.analyze()
        c.check([int(x) for x in latt.num_neighbors] == [1, 1], "one distance by default")
    else:
        latt.add_connections()
        c.check([int(x) for x in latt.num_neighbors] == [3, 3], "one distance per pair by default (analyzed)")
    c.check(latt.num_distances == 1, "one distance by default")


def q_primitive(c, geo):
    """add_atom(primitive=True): fractional coordinates."""
    g = GEO[geo]
    latt = c.lp.Lattice(g.V if g.dim > 1 else g.V[0][0])
    f = [[c.real(f"f{i}{k}", 0, 1) for k in range(g.dim)] for i in range(2)]
    c.assume(c.or_(*[c.or_(x >= y + 0.05, x <= y - 0.05) for x, y in zip(*f)]))
    for x in f:
        latt.add_atom(x, primitive=True)
    for i, x in enumerate(f):
        c.close(latt.atom_positions[i], comb(x, g.V), "position of a fractional coordinate")


NAMES = ["A", "B", "A"]


def q_connect(c, steps, forms=(0, 1, 2, 3, 4, 5), kmax=2):
    """add_connection by index, name or atom: symmetric, exactly the addressed pairs."""
    a = c.real("a", 0.0625, 64)
    latt = c.lp.Lattice(a)
    for i, n in enumerate(NAMES):
        latt.add_atom([0.25 * i * a], n)
    model = [[0] * 3 for _ in range(3)]
    allf = [(0, [0]), (1, [1]), (2, [2]), ("A", [0, 2]), ("B", [1]), (latt.atoms[1], [1])]
    forms = [allf[i] for i in forms]
    m = len(forms) - 1
    for s in range(steps):
        i, j, k = c.pick(f"i{s}", 0, m), c.pick(f"j{s}", 0, m), c.pick(f"k{s}", 0, kmax)
        latt.add_connection(forms[i][0], forms[j][0], k)
        for x in forms[i][1]:
            for y in forms[j][1]:
                model[x][y] = model[y][x] = k
    c.check(conns(latt) == model, "configured connections")
    for i, (f, want) in enumerate(forms):
        got = latt.get_alpha(f)
        c.check([int(x) for x in (got if isinstance(got, list) else [got])] == want, "get_alpha")
        c.check(latt.get_atom(f) is latt.atoms[want[0]], "get_atom")
        c.check(latt.get_atom(latt.atoms[want[0]]) is latt.atoms[want[0]], "get_atom of an atom")
    c.raises(ValueError, lambda: latt.get_atom("C"), "unknown atom")
    if steps > 1:
        return
    if any(any(r) for r in model):
        latt.analyze()
        infinite(c, latt, Geo([[1]], [[0], [0.25], [0.5]],
                              {(i, j): model[i][j] for i in range(3) for j in range(i, 3)}), a)
    else:
        c.raises(c.lp.utils.NoConnectionsError, latt.analyze, "no connections")


def q_states(c, steps):
    """Operations are refused with the documented error exactly while their configuration is missing."""
    U = c.lp.utils
    latt = c.lp.Lattice(1.0)
    atoms = conn = 0
    analyzed = built = False
    for s in range(steps):
        op = c.pick(f"op{s}", 0, 5)
        if op == 0:
            if atoms < 2:
                latt.add_atom(0.375 * atoms, "A%d" % atoms)
                atoms += 1
                conn, analyzed = 0, False
        elif op == 1:
            if atoms:
                k = c.pick(f"n{s}", 1, 2)
                latt.add_connection(0, 0, k)
                conn = 1
        elif op == 2:
            if not atoms:
                e = c.raises(U.NoAtomsError, latt.analyze, "no atoms")
            elif not conn:
                e = c.raises(U.NoConnectionsError, latt.analyze, "no connections")
            else:
                latt.analyze()
                analyzed, e = True, None
            if e is not None:
                c.check(isinstance(e, U.ConfigurationError) and e.msg and e.msg in str(e), "message")
        elif op == 3:
            if analyzed:
                c.check(len(latt.get_neighbors()) == 2, "neighbours")
            elif atoms:
                for f in (latt.get_neighbors, latt.get_neighbor_positions, latt.get_neighbor_vectors):
                    e = c.raises(U.NotAnalyzedError, f, "not analyzed")
                    c.check(e.hint and e.hint in str(e), "hint")
        elif op == 4:
            if analyzed and conn:
                latt.build(5.2)
                built = True
                c.check(latt.num_sites >= 5, "sites")
            elif atoms:
                c.raises((U.NotAnalyzedError, U.NoConnectionsError), lambda: latt.build(3), "not configured")
                c.assume(False)
        else:
            if not built:
                c.raises(U.NotBuiltError, lambda: latt.set_periodic(0), "not built")
            else:
                c.assume(False)
        c.check(latt.num_base == atoms, "number of atoms")


def q_ctor(c, kind):
    """Keyword arguments of the constructor equal the step by step configuration."""
    a = c.real("a", 0.0625, 64)
    lp = c.lp
    g = GEO["squareABmix"] if kind != "int" else GEO["square2"]
    V = [[x * a for x in v] for v in g.V]
    if kind == "int":
        latt = lp.Lattice(V, atoms={(0.0, 0.0): "A0"}, cons=2)
    else:
        kw = {}
        if kind == "shape":
            kw["shape"] = (2.2 * a, 2.2 * a)
        elif kind == "periodic":
            kw = dict(shape=(2.75 * a, 2.75 * a), periodic=0)
        latt = lp.Lattice(V, atoms={(0.0, 0.0): "A0", (0.5 * a, 0.5 * a): lp.Atom("A1")},
                          cons={("A0", "A1"): 1, ("A0", "A0"): 1}, **kw)
    c.check([x.name for x in latt.atoms] == g.names, "atoms")
    infinite(c, latt, g, a)
    if kind == "shape":
        full = {tuple(n) + (al,) for n in cells(2, 4) for al in range(2)
                if all(-1e-9 <= y <= 2.2 for y in g.pos(n, al))}
        audit(c, latt, g, a, sites=full, views=False)
    elif kind == "periodic":
        full = {tuple(n) + (al,) for n in cells(2, 4) for al in range(2)
                if all(-1e-9 <= y <= 2.75 for y in g.pos(n, al))}
        audit(c, latt, g, a, sites=full, torus=[[3, 0]], views=False)


def q_atomdict(c, dim):
    """get_base_atom_dict: all positions of each atom."""
    p = [[c.real(f"p{i}{k}", -3, 3) for k in range(dim)] for i in range(3)]
    for i in range(3):
        c.assume(p[i][0] >= 2 * i - 3)
        c.assume(p[i][0] <= 2 * i - 2)
    latt = c.lp.Lattice([[1.0 * (i == j) for j in range(dim)] for i in range(dim)] if dim > 1 else 1.0)
    names = [["A", "B"][c.pick(f"n{i}", 0, 1)] for i in range(3)]
    for x, n in zip(p, names):
        latt.add_atom(x, n)
    for flag in (True, False):
        d = latt.get_base_atom_dict(flag)
        c.check(sorted(k.name for k in d) == sorted(set(names)), "one entry per atom name")
        for k, v in d.items():
            want = [x + [0.0] if dim == 1 and flag else x for x, n in zip(p, names) if n == k.name]
            c.check(len(v) == len(want), "number of positions")
            for x, y in zip(v, want):
                c.close(x, y, "position")


def q_neighbors_kw(c, num):
    """add_atom(neighbors=k) connects all atoms with k distances."""
    a = c.real("a", 0.0625, 64)
    latt = c.lp.Lattice(a)
    latt.add_atom([0.0], "A0", neighbors=1)
    latt.add_atom([0.25 * a], "A1", neighbors=num)
    infinite(c, latt, Geo([[1]], [[0], [0.25]], num), a)


# ---- C21 minimum image distances: build.p_mindist ------------------------------------------

# ---- C22 predefined lattices ---------------------------------------------------------------

Q = 0.5
HEX = [[1.5, S3 / 2], [1.5, -S3 / 2]]
PREFAB = {
    "simple_chain": (lambda lp, a, k: lp.simple_chain(a, neighbors=k), lambda k: Geo([[1]], [[0]], k)),
    "alternating_chain": (lambda lp, a, k: lp.alternating_chain(a, "X", "Y", neighbors=k),
                          lambda k: Geo([[1]], [[0], [0.5]], k, ["X", "Y"])),
    "alternating_chain_x0": (lambda lp, a, k: lp.alternating_chain(a, x0=0.125, neighbors=k),
                             lambda k: Geo([[1]], [[0.125], [0.625]], k, ["A", "A"])),
    "simple_square": (lambda lp, a, k: lp.simple_square(a, neighbors=k),
                      lambda k: Geo([[1, 0], [0, 1]], [[0, 0]], k)),
    "simple_rectangular": (lambda lp, a, k: lp.simple_rectangular(1.75 * a, a, neighbors=k),
                           lambda k: Geo([[1.75, 0], [0, 1]], [[0, 0]], k)),
    "simple_hexagonal": (lambda lp, a, k: lp.simple_hexagonal(a, neighbors=k), lambda k: Geo(HEX, [[0, 0]], k)),
    "honeycomb": (lambda lp, a, k: lp.honeycomb(a, "Z"),
                  lambda k: Geo(HEX, [[0, 0], [1, 0]], {(0, 1): 1}, ["Z", "Z"])),
    "graphene": (lambda lp, a, k: lp.graphene(a),
                 lambda k: Geo(HEX, [[0, 0], [1, 0]], {(0, 1): 1}, ["C1", "C2"])),
    "simple_cubic": (lambda lp, a, k: lp.simple_cubic(a, neighbors=k),
                     lambda k: Geo([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 0, 0]], k)),
    "nacl_structure": (lambda lp, a, k: lp.nacl_structure(a, neighbors=k),
                       lambda k: Geo([[0, Q, Q], [Q, 0, Q], [Q, Q, 0]], [[0, 0, 0], [Q, Q, Q]], k,
                                     ["Na", "Cl"])),
}


def f_prefab(c, name, k=1, size=None):
    """Predefined lattice: documented cell, atoms and neighbours, for every lattice constant."""
    a = c.real("a", 0.0625, 64)
    mk, geo = PREFAB[name]
    latt = mk(c.lp, a, k)
    g = geo(k)
    if g.names[0] != "A0":
        c.check([x.name for x in latt.atoms] == g.names, "names of the atoms")
    # the order of the vectors is free: compare the lattice they span
    V = rows(latt.vectors)
    c.check(len(V) == g.dim, "dimension")
    g = orient(c, g, V, a)
    for p, q in zip(latt.atom_positions, g.atoms):
        c.close(p, [x * a for x in q], "atom position")
    infinite(c, latt, g, a)
    if size:
        latt.build([x * a for x in size] if g.dim > 1 else size[0] * a)
        full = {tuple(n) + (al,) for n in cells(g.dim) for al in range(g.nb)
                if all(-1e-9 <= y <= s + 1e-9 for y, s in zip(g.pos(n, al), size))}
        audit(c, latt, g, a, sites=full, views=False)


def f_default(c):
    """Arguments that are not given have their documented values."""
    lp, a = c.lp, c.real("a", 0.25, 8)
    for x, y in ((lp.simple_chain(), lp.simple_chain(1.0, None, 1)), (lp.simple_chain(a), lp.simple_chain(a, neighbors=1)),
                 (lp.alternating_chain(), lp.alternating_chain(1.0, None, None, 0.0, 1)),
                 (lp.alternating_chain(a, "A", "B"), lp.alternating_chain(a, "A", "B", 0.0, 1)),
                 (lp.simple_square(), lp.simple_square(1.0, None, 1)), (lp.simple_square(a), lp.simple_square(a, neighbors=1)),
                 (lp.simple_rectangular(), lp.simple_rectangular(1.5, 1.0, None, 2)),
                 (lp.simple_hexagonal(), lp.simple_hexagonal(1.0, None, 1)), (lp.simple_hexagonal(a), lp.simple_hexagonal(a, neighbors=1)),
                 (lp.honeycomb(), lp.honeycomb(1.0)), (lp.graphene(), lp.graphene(1.0)),
                 (lp.simple_cubic(), lp.simple_cubic(1.0, None, 1)), (lp.simple_cubic(a), lp.simple_cubic(a, neighbors=1)),
                 (lp.nacl_structure(), lp.nacl_structure(1.0, "Na", "Cl", 1)), (lp.nacl_structure(a), lp.nacl_structure(a, neighbors=1))):
        c.close(x.vectors, y.vectors, "lattice vectors by default")
        c.close(x.atom_positions, y.atom_positions, "positions by default")
        c.check([t.name for t in x.atoms] == [t.name for t in y.atoms] or all("A" == t.name for t in x.atoms), "atoms by default")
        c.same(conns(x), conns(y), "connections by default")
        c.check([int(t) for t in x.num_neighbors] == [int(t) for t in y.num_neighbors], "neighbours by default")
        c.close(rows(x.distances), rows(y.distances), "distances by default")


def b_refuse(c, dim):
    """A shape of the wrong dimension is refused; the configuration stays as it is."""
    g = GEO[{1: "dimermix", 2: "squareABmix", 3: "cscl"}[dim]]
    a = c.real("a", 0.5, 4)
    latt = g.make(c, a)
    before = state(latt)
    n = c.pick("n", 1, 4)
    c.assume(n != dim)
    how = c.pick("how", 0, 4)
    size = [1.5 * a] * n
    f = (lambda: latt.build(size), lambda: latt.build_indices(size), lambda: latt.build_translation_vectors(size),
         lambda: latt.check_points(c.np.array([[0.0] * dim]), size), lambda: latt.build(c.lp.Shape(size)))[how]
    c.raises(ValueError, f, "a shape of the wrong dimension is refused")
    same_state(c, before, state(latt), "the configuration is unchanged")


def orient(c, g, V, a):
    """The geometry with its vectors in the order used by the library."""
    for perm in itertools.permutations(range(g.dim)):
        if c.branch(c.and_(*[c.near(x, y * a) for v, i in zip(V, perm) for x, y in zip(v, g.V[i])])):
            return Geo([g.V[i] for i in perm], g.atoms, g.cons, g.names)
    c.check(False, "documented lattice vectors")


def f_hyper(c, dim, prim, form="seq", per=None, how="list"):
    """finite_hypercubic: the finite lattice of the given size."""
    a = c.real("a", 0.0625, 64)
    L = [c.pick(f"L{k}", 1, 3 if dim < 3 else 2) for k in range(dim)]
    if per is not None:
        for k in per:
            L[k] = max(L[k], 3)
    s = [(x - 0.5) * (1 if prim else a) for x in L]
    arg = s if form == "seq" else tuple(s) if form == "tuple" else s[0]
    if form == "shape":
        arg = c.lp.Shape(s)
    pa = {"list": per, "int": (per or [None])[0], "true": True, "false": False}[how]
    latt = c.lp.finite_hypercubic(arg, a, atom="H", primitive=prim, periodic=pa)
    g = Geo([[1.0 * (i == j) for j in range(dim)] for i in range(dim)], [[0.0] * dim], 1)
    c.check(latt.atoms[0].name == "H", "atom")
    audit(c, latt, g, a, sites=full_box(g, L),
          torus=[[L[k] * (i == k) for i in range(dim)] for k in per or ()], views=False)


# ---- C23 copies and storage ----------------------------------------------------------------

def state(latt):
    """Everything observable of a configured (and built) lattice."""
    s = dict(vec=rows(latt.vectors), names=[x.name for x in latt.atoms],
             apos=[rows(p) for p in latt.atom_positions], con=conns(latt),
             par=[dict((k, v) for k, v in x.dict().items() if k != "index") for x in latt.atoms])
    if latt.base_neighbors is not None:
        s["nn"] = [int(x) for x in latt.num_neighbors]
        s["nb"] = [[ints(latt.get_neighbors(alpha=al, distidx=k)) for k in range(len(latt.base_neighbors[al]))]
                   for al in range(latt.num_base)]
        s["dist"] = rows(latt.distances)
    if getattr(latt, "shape", None) is not None:
        s.update(snapshot(latt))
        s["shape"] = rows(latt.shape)
    return s


def same_state(c, s, t, msg):
    c.check(set(s) == set(t), msg)
    for k in s:
        if k in ("vec", "apos", "dist", "pos", "dv", "shape"):
            c.close(s[k], t[k], msg)
        elif k == "par":
            for x, y in zip(s[k], t[k]):
                c.check(set(x) == set(y), msg)
                for n in x:
                    c.check((x[n] is y[n]) if x[n] is None else x[n] == y[n], msg)
        else:
            c.same(s[k], t[k], msg)


OPS = ["atom", "connection", "param", "build", "periodic", "remove", "sort", "append", "sortnb", "analyze"]


def change(c, latt, op, a, L):
    """Some change of a lattice."""
    if op == "atom":
        latt.add_atom([0.125 * a] * latt.dim, "N")
    elif op == "connection":
        latt.add_connection(0, 0, 3, analyze=True)
    elif op == "analyze":
        latt.add_connections(2)
    elif op == "param":
        latt.atoms[0]["energy"] = 7.0
    elif op == "build":
        latt.build([1.25 * a] * latt.dim if latt.dim > 1 else 1.25 * a)
    elif op == "periodic":
        latt.set_periodic(0)
    elif op == "remove":
        latt.data.remove(1)
    elif op == "sort":
        latt.data.sort(ax=0, reverse=True)
    elif op == "sortnb":
        latt.data.sort_neighbors()
        latt.data.add_neighbors(0, [latt.num_sites - 1], [9.5])
    elif op == "append":
        latt.append(latt.copy(), 0)
    elif op == "arrays":
        latt.data.positions[0] += 1.0
        latt.data.indices[0] += 1
        latt.data.neighbors[0, 0] = 1
    elif op == "add":
        latt.data.add_neighbors(0, [latt.num_sites - 1], [rows(latt.distances)[0]])


def z_copy(c, geo, L, built=True, how="copy", ops=None, cls=None):
    """A copy equals the original, and neither is changed through the other."""
    g = GEO[geo]
    a = c.real("a", 0.0625, 64)
    e = c.real("e", -2, 2)
    latt = g.make(c, a, cls and getattr(c.lp, cls))
    latt.atoms[0]["energy"] = e
    if built:
        s = box(c, g, L, a, free=False)
        latt.build(s if g.dim > 1 else s[0], periodic=[None, 0][c.pick("per", 0, 1)])
    before = state(latt)
    cp = duplicate(c, latt, how)
    c.check(type(cp) is type(latt) and cp is not latt, "type of the copy")
    same_state(c, before, state(cp), "the copy equals the original")
    same_state(c, before, state(latt), "copying does not change the original")
    ops = ops or (OPS if built else OPS[:4] if cls is None else OPS[:3])
    op = ops[c.pick("op", 0, len(ops) - 1)]
    first, second = (cp, latt) if c.pick("which", 0, 1) else (latt, cp)
    change(c, first, op, a, L)
    same_state(c, before, state(second), "a copy is independent")
    op2 = ["analyze", "param", "build"][c.pick("op2", 0, 2 if cls is None else 1)]
    if op == "atom" and op2 == "build":
        op2 = "analyze"
    mine = state(first)
    if op2 == "build" and first.base_neighbors is None:
        c.assume(False)
    change(c, second, op2, a, L)
    same_state(c, mine, state(first), "a copy is independent")


def duplicate(c, latt, how):
    if how == "copy":
        return latt.copy()
    if how == "data":  # the tables alone
        x = latt.copy()
        x.data = latt.data.copy()
        return x
    if how == "file":
        import os
        import tempfile

        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, "x.latt")
            latt.dump(f)
            return type(latt).load(f)
    raise AssertionError(how)


def z_dict(c, geo, cls="Lattice"):
    """todict / fromdict: the configuration is restored and not shared."""
    g = GEO[geo]
    a = c.real("a", 0.0625, 64)
    cls = getattr(c.lp, cls)
    latt = g.make(c, a, cls)
    d = latt.todict()
    c.close(rows(d["vectors"]), [[x * a for x in v] for v in g.V], "vectors")
    c.check([x.name for x in d["atoms"]] == g.names, "atoms")
    for p, q in zip(d["positions"], g.atoms):
        c.close(p, [x * a for x in q], "positions")
    before = state(latt)
    other = cls.fromdict(d)
    c.check(type(other) is cls, "type of the restored lattice")
    same_state(c, before, state(other), "the restored lattice equals the original")
    op = ["connection", "atom", "analyze"][c.pick("op", 0, 2)]
    first, second = (other, latt) if c.pick("which", 0, 1) else (latt, other)
    change(c, first, op, a, None)
    same_state(c, before, state(second), "restored lattices are independent")
    change(c, second, "analyze", a, None)


def z_equal(c, geo, L, cls=None):
    """Equality: copies are equal; a different configuration or size is not."""
    g = GEO[geo]
    cls = cls and getattr(c.lp, cls)
    latt = g.make(c, 1.0, cls)
    if L is not None:
        s = box(c, g, L, 1.0, free=False)
        latt.build(s if g.dim > 1 else s[0])
    cp = latt.copy()
    c.check(latt == cp and hash(latt) == hash(cp), "copies are equal")
    k = [0, 1, 3, 2][c.pick("k", 0, 3 if L is not None else 2)]
    if k == 0:
        cp.add_connection(0, 0, 3)
    elif k == 1:
        cp.add_atom([0.125] * g.dim, "N")
    elif k == 2:
        cp.build([5.5] * g.dim if g.dim > 1 else 5.5)
    else:
        cp = GEO[geo].make(c, 2.0, cls)
    c.check(latt != cp, "different lattices are not equal")


def z_empty(c, cls, dim):
    """Lattices without atoms or without connections can be copied and compared."""
    a = c.pick("a", 1, 3) * 0.75
    latt = getattr(c.lp, cls)(c.np.array([[a * (i == j) for j in range(dim)] for i in range(dim)]))
    if c.pick("atoms", 0, 1):
        latt.add_atom([0.0] * dim)
    cp = latt.copy()
    c.check(latt == cp and hash(latt) == hash(cp), "copies are equal")
    cp.add_atom([0.5] * dim, "B")
    c.check(latt != cp, "different lattices are not equal")
    cp2 = cp.copy()
    cp2.add_connections(1)
    c.check(cp2 != cp, "different lattices are not equal")


def z_unequal(c, dim, eps, built):
    """Lattices that differ in a single small detail are not equal; equal configurations are."""
    np = c.np
    V = [[1.0 + 0.25 * i if i == j else 0.125 * (i - j) for j in range(dim)] for i in range(dim)]
    atoms = [[0.0] * dim, [0.375] + [0.25] * (dim - 1)]
    kinds = [c.lp.Atom(n) for n in "ABC"]

    def make(k=None, i=0, j=0):
        v, p, names, cons = [list(r) for r in V], [list(r) for r in atoms], list(kinds[:2]), {(0, 1): 1, (0, 0): 1, (1, 1): 1}
        if k == 0:
            v[i][j] += eps
        elif k == 1:
            p[1][j] += eps
        elif k == 2:
            names[i % 2] = kinds[2]
        elif k == 3:
            cons[[(0, 1), (0, 0), (1, 1)][(i + j) % 3]] = 2
        latt = c.lp.Lattice(np.array(v))
        for x, n in zip(p, names):
            latt.add_atom(x, n)
        for (x, y), n in cons.items():
            latt.add_connection(x, y, n)
        latt.analyze()
        if built:
            # one more site of the second atom along one of the axes
            latt.build([2.05 + (i == m) * 0.35 * (k == 4) for m in range(dim)] if dim > 1 else 2.05 + 0.35 * (k == 4))
        return latt

    x = make()
    c.check(x == make(), "equal configurations are equal")
    k = c.pick("k", 0, 4 if built and dim == 1 else 3)
    i, j = c.pick("i", 0, dim - 1), c.pick("j", 0, dim - 1)
    y = make(k, i, j)
    c.check(x != y and y == make(k, i, j), "different lattices are not equal")
    c.check(hash(x) == hash(make()) and hash(y) == hash(make(k, i, j)), "equal lattices have equal hashes")


def z_atoms(c, geo):
    """get_positions / indices handed to a caller are not changed by later operations."""
    g = GEO[geo]
    latt = g.make(c, c.real("a", 0.0625, 64))
    p = [rows(x) for x in latt.atom_positions]
    q = latt.get_position(alpha=g.nb - 1)
    v = latt.vectors
    v[0, 0] = 99.0
    q2 = latt.get_positions([[0] * g.dim + [g.nb - 1]])
    q2[0, 0] = 77.0
    for x, y in zip(latt.atom_positions, p):
        c.close(x, y, "atom positions are not shared")


# ---- C25 site queries -----------------------------------------------------------------------

def y_queries(c, geo, L, per=None, rm=None, off=None):
    """Super-indices, positions, atoms and centres of a finite lattice (from which sites may be missing)."""
    g = GEO[geo]
    a = c.real("a", 0.0625, 64)
    latt = g.make(c, a)
    m = [c.real(f"m{al}", 0, 3) for al in range(g.nb)]
    for al in range(g.nb - 1):  # the last atom uses the default mass of one
        latt.atoms[al]["mass"] = m[al]
    m[-1] = 1.0
    s = box(c, g, L, a, free=False)
    latt.build(s if g.dim > 1 else s[0], periodic=per, **at(g, off, a))
    if rm is not None:
        latt.data.remove(c.pick("rm", 0, rm))
    ind = ints(latt.indices)
    P = [[x * a for x in g.pos(i[:-1], i[-1])] for i in ind]
    want = wanted(g, ind, [[L[k] * (i == k) for i in range(g.dim)] for k in ([per] if per is not None else [])])
    ds = sorted({round(d, 9) for w in want for d, _ in w.values()})
    for n, i in enumerate(ind):
        c.check(int(latt.alpha(n)) == i[-1], "atom index of a site")
        c.check(latt.atom(n) is latt.atoms[i[-1]], "atom of a site")
        c.close(latt.position(n), P[n], "position of a site")
        c.check(int(latt.superindex_from_index(i)) == n, "super-index of an index")
        for j in range(len(ind)):
            k = latt.check_neighbors(n, j)
            if j in want[n]:
                c.check(k is not None and int(k) == ds.index(round(want[n][j][0], 9)), "distance index of neighbours")
            else:
                c.check(k is None, "no neighbours")
    for i in itertools.product(*[range(-max(map(abs, x)) - 1, max(map(abs, x)) + 2) for x in list(zip(*ind))[:-1]], range(g.nb)):
        n = latt.superindex_from_index(list(i))
        c.check((n is None) if list(i) not in ind else (n is not None and int(n) == ind.index(list(i))), "super-index of a cell or none")
    out = [x + 50 for x in ind[0][:-1]] + [0]
    c.check(latt.superindex_from_index(out) is None, "index outside of the lattice")
    unit = [[x / a for x in p] for p in P]
    lo = [min(g.pos(i[:-1], i[-1])[k] for i in ind) for k in range(g.dim)]
    hi = [max(g.pos(i[:-1], i[-1])[k] for i in ind) for k in range(g.dim)]
    f = [c.real(f"f{k}", -1, 2) for k in range(g.dim)]
    c.close(latt.limits(), [[x * a for x in lo], [x * a for x in hi]], "limits")
    c.close(latt.relative_position(f), [(x + t * (y - x)) * a for x, y, t in zip(lo, hi, f)], "relative position", 1e-5)
    c.close(latt.center(), [(x + y) / 2 * a for x, y in zip(lo, hi)], "centre", 1e-5)
    cg = latt.center_of_gravity()
    tot = sum(m[i[-1]] for i in ind)
    for k in range(g.dim):
        mom = 0
        for i, p in zip(ind, P):
            mom = mom + m[i[-1]] * p[k]
        c.close(cg[k] * tot, mom, "centre of gravity", 1e-4)
    for al in range(g.nb):
        c.close(latt.data.get_positions(al), [p for p, i in zip(P, ind) if i[-1] == al], "positions of an atom")
    c.check(latt.dim == g.dim and latt.num_base == g.nb and latt.num_sites == len(ind), "sizes")
    cells = len({tuple(i[:-1]) for i in ind})
    c.check(int(latt.num_cells) == cells, "number of unit cells")
    c.close(latt.volume(), cells * g.volume() * a ** g.dim, "volume", 1e-5)
    c.check(bool(latt.data) and int(latt.data.num_sites) == len(ind), "data of the model")
    c.check(int(latt.data.dim) == g.dim, "dimension of the data")


def y_frompos(c, geo, L, default=False, off=None):
    """superindex_from_pos: the site whose position agrees within the tolerance, or None."""
    g = GEO[geo]
    latt = g.make(c, 1.0)
    s = box(c, g, L, 1.0, free=False)
    latt.build(s if g.dim > 1 else s[0], **at(g, off))
    x = [c.real(f"x{k}", -3.5 if off else -0.5, 2.5) for k in range(g.dim)]
    if default:
        t, eps = 1e-4, 1e-6
    else:
        t, eps = c.real("t", 0.01, 0.1), 1e-4
    eps = eps if c.sym else eps / 2
    P = rows(latt.positions)
    hit = []
    for p in P:
        cs = []
        for k in range(g.dim):
            for lim in (p[k] - t, p[k] + t):
                c.assume(c.or_(x[k] >= lim + eps, x[k] <= lim - eps))
            cs.append(c.and_(x[k] > p[k] - t, x[k] < p[k] + t))
        hit.append(c.and_(*cs))
    got = latt.superindex_from_pos(x) if default else latt.superindex_from_pos(x, atol=t)
    for i, h in enumerate(hit):
        c.check(c.iff(h, got is not None and int(got) == i), "site at the position")


def y_estimate(c, geo):
    """estimate_index: the cell whose origin is closest in lattice coordinates."""
    g = GEO[geo]
    a = c.real("a", 0.0625, 64)
    latt = g.make(c, a)
    f = [c.real(f"f{k}", -3, 3) for k in range(g.dim)]
    n = latt.estimate_index([x * a for x in comb(f, g.V)])
    for k in range(g.dim):
        v = n[k]
        c.check(c.and_(v - f[k] <= 0.5 + 1e-6, f[k] - v <= 0.5 + 1e-6), "closest cell")


# ---- scalars of NumPy as arguments ------------------------------------------------------------

def np_int(c, k):
    """The integer ``k`` as one of the types a user may have at hand."""
    import numpy as np
    return (int, np.int64, np.int32, np.uint8)[c.pick("type", 0, 3)](k)


def q_npscalar(c, what):
    """Integers of NumPy mean the same as integers of Python."""
    a = c.real("a", 0.0625, 64)
    if what == "atom":
        latt = GEO["trimer"].make(c, a)
        latt.build(4 * a)
        for k in range(latt.num_base):
            c.check(latt.get_atom(np_int(c, k)) is latt.atoms[k], "atom of an index")
            c.check(int(latt.get_alpha(np_int(c, k))) == k, "index of an index")
        for i in range(latt.num_sites):
            c.check(latt.get_atom(latt.alpha(i)) is latt.atom(i), "atom of the index of a site")
        return
    if what == "cons":
        n = c.pick("n", 1, 2)
        one = c.lp.LatticeStructure([[a, 0], [0, 2 * a]], atoms={(0.0, 0.0): "A"}, cons=np_int(c, n))
        two = c.lp.LatticeStructure([[a, 0], [0, 2 * a]], atoms={(0.0, 0.0): "A"}, cons=n)
        same_state(c, state(one), state(two), "number of distances of the connections")
        return
    if what == "hyper":
        one = c.lp.finite_hypercubic(np_int(c, 4), a)
        two = c.lp.finite_hypercubic(4, a)
        same_state(c, state(one), state(two), "size of the lattice")
        return
    g = GEO["square"]
    one, two = g.make(c, a), g.make(c, a)
    s = [x * a for x in (2.5, 3.5)]
    ax = c.pick("ax", 0, 1)
    if what == "translation":
        one.build(s)
        (x, v), = one.periodic_translation_vectors(np_int(c, ax))
        c.check([int(t) for t in v] == [(3, 4)[k] * (k == ax) for k in range(2)], "translation along the axis")
        return
    if what == "build":
        one.build(s, periodic=np_int(c, ax))
        two.build(s, periodic=ax)
    elif what == "bool":
        import numpy as np
        on = bool(ax)
        one.build(s)
        one.set_periodic(np.bool_(on))
        two.build(s, periodic=on)
    elif what == "set":
        one.build(s)
        one.set_periodic(np_int(c, ax))
        two.build(s, periodic=ax)
    elif what == "edit":
        one.build(s)
        two.build(s)
        one.data.remove(np_int(c, 3))
        two.data.remove(3)
        one.repeat(np_int(c, 1), ax=np_int(c, ax), side=np_int(c, 1))
        two.repeat(1, ax=ax)
        one.data.sort(np_int(c, ax))
        two.data.sort(ax)
    same_state(c, state(one), state(two), "same lattice")
