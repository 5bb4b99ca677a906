"""Lattice geometries and their independent description (the oracle)."""
import itertools
import math

S3 = math.sqrt(3)


class Geo:
    """Unit geometry: vectors, atoms and the number of distances per atom pair."""

    def __init__(self, vectors, atoms, cons, names=None):
        self.V = [list(map(float, v)) for v in vectors]
        self.atoms = [list(map(float, p)) for p in atoms]
        self.dim = len(self.V)
        self.nb = len(self.atoms)
        self.names = names or ["A%d" % i for i in range(self.nb)]
        if isinstance(cons, int):
            cons = {(i, j): cons for i in range(self.nb) for j in range(i, self.nb)}
        self.cons = cons
        self._allowed = None

    def ncon(self, i, j):
        return self.cons.get((i, j), self.cons.get((j, i), 0))

    def pos(self, n, al):
        p = list(self.atoms[al])
        for x, v in zip(n, self.V):
            for k in range(self.dim):
                p[k] += x * v[k]
        return p

    def dist(self, s, t):
        return math.dist(self.pos(s[:-1], s[-1]), self.pos(t[:-1], t[-1]))

    def volume(self):
        import numpy as np

        return abs(float(np.linalg.det(np.array(self.V))))

    def frac(self, x):
        import numpy as np

        return np.linalg.solve(np.array(self.V).T, np.array(x))

    @property
    def allowed(self):
        """{(al, be): the k smallest distances of the pair in the infinite lattice}"""
        if self._allowed is None:
            R = {1: 12, 2: 7, 3: 4, 4: 2}[self.dim]
            self._allowed = {}
            for i, j in itertools.product(range(self.nb), repeat=2):
                k = self.ncon(i, j)
                ds = sorted(self.dist([0] * self.dim + [i], list(n) + [j])
                            for n in itertools.product(range(-R, R + 1), repeat=self.dim))
                out = []
                for d in ds:
                    if d < 1e-9 or (out and d - out[-1] < 1e-7):
                        continue
                    if len(out) == k:
                        break
                    out.append(d)
                self._allowed[(i, j)] = out
        return self._allowed

    def connected(self, al, be, d):
        return any(abs(d - x) < 1e-7 for x in self.allowed[(al, be)])

    def alldists(self, al=None):
        ds = []
        for (i, j), v in self.allowed.items():
            if al is None or i == al:
                ds += v
        out = []
        for d in sorted(ds):
            if not out or d - out[-1] > 1e-7:
                out.append(d)
        return out

    def make(self, c, a=1.0, cls=None):
        """Configure a lattice scaled by ``a`` through the public interface."""
        cls = cls or c.lp.Lattice
        V = [[x * a for x in v] for v in self.V]
        latt = cls(V if self.dim > 1 else V[0][0])
        for p, n in zip(self.atoms, self.names):
            latt.add_atom([x * a for x in p], atom=n)
        for (i, j), k in self.cons.items():
            if k:
                latt.add_connection(i, j, k)
        latt.analyze()
        return latt


GEO = {
    "chain": Geo([[1]], [[0]], 1),
    "chain2": Geo([[1]], [[0]], 2),
    "chain3": Geo([[1]], [[0]], 3),
    "dimer": Geo([[1]], [[0], [0.25]], 1),
    "dimerAB": Geo([[1]], [[0], [0.25]], {(0, 1): 1}),
    "dimerAB2": Geo([[1]], [[0], [0.25]], {(0, 1): 2}),
    "dimermix": Geo([[1]], [[0], [0.375]], {(0, 1): 1, (0, 0): 1}),
    "ssh": Geo([[1]], [[0], [0.5]], {(0, 1): 2}),
    "trimer": Geo([[1]], [[0], [0.25], [0.625]], {(0, 1): 1, (1, 2): 1, (0, 2): 1}),
    "square": Geo([[1, 0], [0, 1]], [[0, 0]], 1),
    "square2": Geo([[1, 0], [0, 1]], [[0, 0]], 2),
    "square3": Geo([[1, 0], [0, 1]], [[0, 0]], 3),
    "square4": Geo([[1, 0], [0, 1]], [[0, 0]], 4),
    "rect": Geo([[1, 0], [0, 1.5]], [[0, 0]], 2),
    "rect1": Geo([[2, 0], [0, 1]], [[0, 0]], 1),
    "aniso": Geo([[1, 0], [0, 8]], [[0, 0], [0, 4]], 1),
    "layer": Geo([[1, 0], [0, 4]], [[0, 0], [0.875, 3.5]], {(0, 1): 2, (0, 0): 1}),
    "squareAB": Geo([[1, 0], [0, 1]], [[0, 0], [0.5, 0.5]], {(0, 1): 1}),
    "squareABmix": Geo([[1, 0], [0, 1]], [[0, 0], [0.5, 0.5]], {(0, 1): 1, (0, 0): 1}),
    "lieb": Geo([[2, 0], [0, 2]], [[0, 0], [1, 0], [0, 1]], {(0, 1): 1, (0, 2): 1}),
    "liebmix": Geo([[2, 0], [0, 2]], [[0, 0], [1, 0], [0, 1]], {(0, 1): 1, (1, 2): 1}),
    "kagome": Geo([[2, 0], [1, S3]], [[0, 0], [1, 0], [0.5, S3 / 2]], {(0, 1): 1, (0, 2): 1}),
    "oblique": Geo([[1, 0], [0.5, 1.0]], [[0, 0]], 2),
    "obliqueneg": Geo([[1, 0], [-0.5, 1.0]], [[0, 0]], 1),
    "hex": Geo([[1.5, S3 / 2], [1.5, -S3 / 2]], [[0, 0]], 1),
    "hex2": Geo([[1.5, S3 / 2], [1.5, -S3 / 2]], [[0, 0]], 2),
    "graphene": Geo([[1.5, S3 / 2], [1.5, -S3 / 2]], [[0, 0], [1, 0]], {(0, 1): 1}),
    "graphene2": Geo([[1.5, S3 / 2], [1.5, -S3 / 2]], [[0, 0], [1, 0]],
                     {(0, 1): 1, (0, 0): 1, (1, 1): 1}),
    "sc": Geo([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 0, 0]], 1),
    "sc2": Geo([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 0, 0]], 2),
    "sc3": Geo([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 0, 0]], 3),
    "fcc": Geo([[0.5, 0.5, 0], [0.5, 0, 0.5], [0, 0.5, 0.5]], [[0, 0, 0]], 1),
    "bcc": Geo([[0.5, 0.5, 0.5], [0.5, -0.5, 0.5], [-0.5, 0.5, 0.5]], [[0, 0, 0]], 1),
    "cscl": Geo([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 0, 0], [0.5, 0.5, 0.5]], {(0, 1): 1}),
    "nacl": Geo([[0.5, 0.5, 0], [0.5, 0, 0.5], [0, 0.5, 0.5]], [[0, 0, 0], [0.5, 0, 0]], {(0, 1): 1}),
    "outcell": Geo([[1]], [[-1.5], [2.25]], 1),
    "outcell2d": Geo([[1, 0], [0, 1]], [[-1.25, 0.5], [0.25, 2.75]], {(0, 1): 1, (0, 0): 1, (1, 1): 1}),
    "negchain": Geo([[-1]], [[0]], 2),
    "negdimer": Geo([[-1]], [[0], [0.25]], {(0, 1): 1, (0, 0): 1}),
    "swap": Geo([[0, 1], [1, 0]], [[0, 0]], 2),
    "negsquare": Geo([[-1, 0], [0, -1]], [[0, 0]], 2),
    "mirror": Geo([[0.5, -1], [1, 0]], [[0, 0], [0.5, 0.25]], {(0, 1): 1, (1, 1): 1}),
    "negskew": Geo([[-1, 0], [1, -1]], [[0, 0]], 2),
    "negskew3": Geo([[-1, 0, 0], [1, -1, 0], [0, 1, -1]], [[0, 0, 0]], 1),
    "chain5": Geo([[1]], [[0]], 5),
    "quad": Geo([[1]], [[0], [0.125], [0.375], [0.75]], {(0, 1): 1, (1, 2): 1, (2, 3): 1, (0, 3): 1, (0, 2): 1}),
    "penta": Geo([[3, 0], [0, 2]], [[0, 0], [1, 0], [2, 0], [0, 1], [1.5, 1]],
                 {(0, 1): 1, (1, 2): 1, (0, 3): 2, (2, 4): 1, (4, 4): 1}),
    "triclinic": Geo([[1, 0, 0], [0.25, 1, 0], [0.25, 0.5, 1.25]], [[0, 0, 0]], 2),
    "hyper4": Geo([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]], [[0, 0, 0, 0]], 1),
}
