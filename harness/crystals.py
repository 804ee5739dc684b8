"""Parent crystals given two ways at once: floats for the code, integers for the
specification (Gram matrix, atom positions in q-ths of the lattice vectors)."""
import math, random
from fractions import Fraction


def mat_mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def transpose(a):
    return [list(r) for r in zip(*a)]


def det3(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def gram(a):
    return [[sum(x * y for x, y in zip(u, v)) for v in a] for u in a]


def chol_rows(G):
    """Rows of a lower triangular float matrix with Gram matrix G."""
    L = [[0.0] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(i + 1):
            s = G[i][j] - sum(L[i][k] * L[j][k] for k in range(j))
            L[i][j] = math.sqrt(s) if i == j else s / L[j][j]
    return L


class Lat:
    def __init__(self, name, aint=None, gram_=None, scale=1.0, rows=None):
        self.name = name
        self.aint = aint                      # integer rows (None: irrational lattice)
        self.G = gram_ or gram(aint)
        if rows is not None:
            self.A = rows
        elif aint:
            self.A = [[x * scale for x in r] for r in aint]
        else:
            self.A = [[x * scale for x in r] for r in chol_rows(gram_)]
        self.scale = scale


LATS = {l.name: l for l in [
    Lat("sc", [[1, 0, 0], [0, 1, 0], [0, 0, 1]]),
    Lat("fcc", [[0, 1, 1], [1, 0, 1], [1, 1, 0]], scale=0.5),
    Lat("fcc2", [[1, 1, 0], [0, 1, 1], [1, 0, 1]], scale=0.5),
    Lat("bcc", [[-1, 1, 1], [1, -1, 1], [1, 1, -1]], scale=0.5),
    Lat("bcc2", [[1, 1, 1], [1, 1, -1], [1, -1, 1]], scale=0.5),
    Lat("tet", [[2, 0, 0], [0, 2, 0], [0, 0, 3]], scale=0.5),
    Lat("tet_x", [[3, 0, 0], [0, 2, 0], [0, 0, 2]], scale=0.5),
    Lat("bct", [[-2, 2, 3], [2, -2, 3], [2, 2, -3]], scale=0.5),
    Lat("ort", [[2, 0, 0], [0, 3, 0], [0, 0, 4]], scale=0.5),
    Lat("orc", [[2, 3, 0], [-2, 3, 0], [0, 0, 5]], scale=0.5),      # base centred
    Lat("orf", [[0, 3, 4], [2, 0, 4], [2, 3, 0]], scale=0.5),      # face centred
    Lat("mon", [[4, 0, 1], [0, 5, 0], [1, 0, 6]], scale=0.25),
    Lat("mon_z", [[3, 1, 0], [0, 4, 0], [0, 0, 5]], scale=0.5),
    Lat("tri", [[4, 1, 0], [0, 5, 1], [1, 0, 7]], scale=0.25),
    Lat("rho", [[3, 1, 1], [1, 3, 1], [1, 1, 3]], scale=0.5),
    Lat("sc_sk", [[1, 0, 0], [1, 1, 0], [0, 1, 1]]),                # skewed basis of sc
    Lat("sc_neg", [[0, 1, 0], [1, 0, 0], [0, 0, 1]]),               # left handed
    Lat("hex", gram_=[[2, -1, 0], [-1, 2, 0], [0, 0, 5]],
        rows=[[1.0, 0.0, 0.0], [-0.5, math.sqrt(3) / 2, 0.0], [0.0, 0.0, math.sqrt(2.5)]]),
    Lat("hex2", gram_=[[2, 1, 0], [1, 2, 0], [0, 0, 3]],
        rows=[[1.0, 0.0, 0.0], [0.5, math.sqrt(3) / 2, 0.0], [0.0, 0.0, math.sqrt(1.5)]]),
    Lat("hexhcp", gram_=[[3, -2, 0], [-2, 3, 0], [0, 0, 8]], rows=None),
    Lat("rhom", gram_=[[4, 1, 1], [1, 4, 1], [1, 1, 4]]),
]}
del LATS["hexhcp"]
AXIS = ["sc", "fcc", "fcc2", "bcc", "bcc2", "tet", "tet_x", "bct", "ort", "orf", "sc_neg", "sc_sk"]


class Crystal:
    def __init__(self, lat, D, q, types=None, name=None):
        self.lat = LATS[lat] if isinstance(lat, str) else lat
        self.D = [list(d) for d in D]
        self.q = q
        self.types = types or [1] * len(D)
        self.name = name or self.lat.name

    def basis(self):
        """Cartesian positions (floats)."""
        A = self.lat.A
        return [[sum(d[k] / float(self.q) * A[k][j] for k in range(3)) for j in range(3)] for d in self.D]

    def spec(self):
        d = {"G": self.lat.G, "D": [[x % self.q for x in p] for p in self.D], "q": self.q, "types": self.types}
        if self.lat.aint:
            d["A"] = self.lat.aint
        return d

    def inp(self):
        d = {"crystal": self.name, "_rows": self.lat.A, "_D": self.D}
        d.update(self.spec())
        return d


O = [0, 0, 0]
BASES = {  # name: (lattice, D, q)
    "diamond": ("fcc", [O, [1, 1, 1]], 4),
    "hcp": ("hex", [O, [2, 4, 3]], 6),
    "cscl": ("sc", [O, [1, 1, 1]], 2),
    "sc_edge": ("sc", [[1, 1, 0], [1, 0, 1], [0, 1, 1]], 2),          # perovskite anions
    "sc_cyc": ("sc", [[1, 2, 3], [3, 1, 2], [2, 3, 1]], 10),
    "sc_cyc4": ("sc", [[1, 2, 3], [3, 1, 2], [2, 3, 1], [9, 8, 7]], 10),
    "sc_off": ("sc", [[1, 2, 3]], 8),                                 # one atom, not at the origin
    "fcc_off": ("fcc", [[1, 1, 2]], 4),
    "fluor": ("fcc", [O, [1, 1, 1], [3, 3, 3]], 4),
    "tet2": ("tet", [O, [2, 2, 1]], 4),
    "tet_s": ("tet", [[1, 0, 0], [0, 1, 0]], 2),
    "ort2": ("ort", [O, [1, 2, 0]], 4),
    "mon2": ("mon", [O, [1, 0, 2]], 4),
    "tri2": ("tri", [O, [1, 2, 3]], 7),
    "tri1": ("tri", [[1, 2, 3]], 5),
    "hex3": ("hex", [O, [1, 2, 0], [2, 1, 0]], 3),                    # honeycomb-like
    "hex_wz": ("hex", [O, [4, 8, 6], [0, 0, 5], [4, 8, 11]], 12),
    "kag": ("hex", [[1, 0, 0], [0, 1, 0], [1, 1, 0]], 2),
    "bcc_t": ("bcc", [O, [1, 2, 3]], 4),
    "rho2": ("rhom", [[1, 1, 1], [3, 3, 3]], 4),
    "a15": ("sc", [O, [2, 2, 2], [1, 0, 2], [3, 0, 2], [2, 1, 0], [2, 3, 0], [0, 2, 1], [0, 2, 3]], 4),
    "out": ("sc", [[0, 0, 0], [5, -3, 2]], 4),                        # an atom given outside the cell
    "nonprim": ("sc", [O, [0, 0, 1]], 2),                             # not a primitive description
    "nonprim2": ("tet", [O, [1, 1, 0]], 2),
    "screw4": ("tet", [[2, 0, 0], [8, 0, 0], [0, 2, 5], [0, 8, 5]], 10),  # a four-fold screw axis
    "sc3": ("sc", [O, [1, 1, 1], [1, 1, 2]], 4),
}


def crystal(name):
    if name.startswith(("gen:", "gena:")):
        kind, num = name.split(":")
        return generated(int(num), AXIS if kind == "gena" else GENLATS, name)
    if name in BASES:
        lat, D, q = BASES[name]
        return Crystal(lat, D, q, name=name)
    return Crystal(name, [O], 1, name=name)


def lattice_ops(G, cache={}):
    """Integer matrices (entries -1..1, acting on lattice coordinates) that keep the Gram matrix."""
    key = str(G)
    if key not in cache:
        import itertools
        ok = []
        for m in itertools.product((-1, 0, 1), repeat=9):
            M = [list(m[0:3]), list(m[3:6]), list(m[6:9])]
            if abs(det3(M)) == 1 and mat_mul(transpose(M), mat_mul(G, M)) == G:
                ok.append(M)
        cache[key] = ok
    return cache[key]


GENLATS = ["sc", "fcc", "bcc", "tet", "tet_x", "bct", "ort", "orc", "orf", "mon", "rho", "hex", "hex2", "rhom"]


def generated(num, lats, name):
    """A crystal whose atoms are an orbit under an operation with a fractional translation (screw axes, glide planes,
    cyclic arrangements), sometimes with one more atom: the same crystal for the same number, every time."""
    rng = random.Random("crystal%d" % num)
    while True:
        lat = LATS[rng.choice(lats)]
        ops = [M for M in lattice_ops(lat.G) if M != [[1, 0, 0], [0, 1, 0], [0, 0, 1]]]
        if not ops:
            continue
        q = rng.choice([4, 6, 8, 12])
        gens = []
        for _ in range(rng.choice([1, 1, 2])):
            s = rng.choice([d for d in (2, 3, 4) if q % d == 0])
            gens.append((rng.choice(ops), [rng.randrange(s) * q // s for _ in range(3)]))
        D = [[rng.randrange(q) for _ in range(3)]]
        k = 0
        while k < len(D) and len(D) <= 6:
            for M, t in gens:
                y = [(sum(M[i][j] * D[k][j] for j in range(3)) + t[i]) % q for i in range(3)]
                if y not in D:
                    D.append(y)
            k += 1
        if not 2 <= len(D) <= 6:
            continue
        if len(D) < 6 and rng.random() < .25:
            e = [rng.randrange(q) for _ in range(3)]
            if e not in D:
                D.append(e)
        # no translation but the lattice's own maps the crystal to itself
        if any(sorted([[(x + b - a) % q for x, a, b in zip(p, D[0], d)] for p in D]) == sorted(D) for d in D[1:]):
            continue
        rng.shuffle(D)
        return Crystal(lat, D, q, name=name)


def rotation(rng):
    """Rows of a random orthogonal matrix of determinant 1 (from a unit quaternion)."""
    while True:
        w, x, y, z = [rng.uniform(-1, 1) for _ in range(4)]
        n = math.sqrt(w * w + x * x + y * y + z * z)
        if .3 < n < 1:
            break
    w, x, y, z = w / n, x / n, y / n, z / n
    return [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
            [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]


SCALES = [0.0529, 0.31, 1 / 3, 2.7183, 4.05, 5.43095, 25.1, 100.3, 286.65, 1000.1]


def placed(rng, c, p=.3, turn=True, scales=SCALES):
    """The same crystal in other units and, with turn, in another orientation (sometimes; a Lat or a Crystal)."""
    if rng.random() >= p:
        return c
    lat = c if isinstance(c, Lat) else c.lat
    s = rng.choice(scales) if rng.random() < .6 else 1.0
    A, aint, nm = lat.A, lat.aint, lat.name + "@%g" % s
    if turn and rng.random() < .6:
        A, aint, nm = mat_mul(A, rotation(rng)), None, nm + "turned"
    l2 = Lat(nm, aint, lat.G, rows=[[x * s for x in r] for r in A])
    if isinstance(c, Lat):
        return l2
    c2 = Crystal(l2, c.D, c.q, types=c.types, name=c.name + nm[len(lat.name):])
    return c2


def nearly(rng, c, atom=()):
    """A crystal a little (parts in hundreds to a hundred thousand) away from the given one: symmetries are lost.
    atom: only an atom is moved, by one part in one of these numbers."""
    lat, D, q, nm = c.lat, [list(d) for d in c.D], c.q, c.name
    what = "atom" if atom else rng.choice(["lattice", "lattice", "atom", "both"] if len(D) > 1 else ["lattice"])
    if what != "atom":
        K, s = rng.choice([50, 500, 5000, 50000]), rng.choice([-2, -1, 1, 1, 3])
        if lat.aint:                # stretched along one of the axes
            x = rng.randrange(3)
            G = [[K * lat.G[i][j] + s * lat.aint[i][x] * lat.aint[j][x] for j in range(3)] for i in range(3)]
            f = math.sqrt(1 + s / K)
            rows = [[v * (f if j == x else 1.0) for j, v in enumerate(r)] for r in lat.A]
        else:
            G = [[K * v for v in r] for r in lat.G]
            i, j = rng.choice([(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)])
            G[i][j] += s
            G[j][i] = G[i][j]
            f = math.sqrt(sum(v * v for v in lat.A[0]) / lat.G[0][0] / K)
            rows = [[v * f for v in r] for r in chol_rows(G)]
        nm += "~%d/%d" % (s, K)
        lat = Lat(lat.name + "~", lat.aint, G, rows=rows)
    if what != "lattice":
        K, k = rng.choice(atom or [20, 200, 2000]), rng.randrange(len(D))
        D, q = [[v * K for v in d] for d in D], q * K
        e = [0, 0, 0]
        while e == [0, 0, 0]:
            e = [rng.choice([0, 0, -1, 1]) for _ in range(3)]
        D[k] = [a + b for a, b in zip(D[k], e)]
        nm += "~atom%d%s/%d" % (k, e, K)
    return Crystal(lat, D, q, types=c.types, name=nm)


def gen_names(rng, m, axis=False):
    return ["gen%s:%d" % ("a" if axis else "", rng.randrange(10 ** 6)) for _ in range(m)]


def cart_basis(inp):
    A, q = inp["_rows"], float(inp["q"])
    return [[sum(d[k] / q * A[k][j] for k in range(3)) for j in range(3)] for d in inp["_D"]]


def lat_op(rows, R, tol=1e-6):
    """Cartesian column matrix R -> integer matrix in lattice coordinates (or BAD entries)."""
    import numpy as np
    from engine import ints
    At = np.transpose(np.array(rows, dtype=float))
    return ints(np.linalg.inv(At) @ np.array(R, dtype=float) @ At, tol)


def lat_vec(rows, v, q, tol=1e-6):
    """Cartesian vector -> integer q-ths of the lattice vectors (or BAD)."""
    import numpy as np
    from engine import ints
    At = np.transpose(np.array(rows, dtype=float))
    return ints(np.linalg.inv(At) @ np.array(v, dtype=float) * q, tol * q)


def random_lattice(rng, kind=None):
    """A random integer lattice (small entries, moderately conditioned)."""
    while True:
        kind_ = kind or rng.choice(["any", "diag", "skew"])
        if kind_ == "diag":
            a = [[rng.randint(1, 3) if i == j else 0 for j in range(3)] for i in range(3)]
        elif kind_ == "skew":
            base = rng.choice([[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 1, 1], [1, 0, 1], [1, 1, 0]],
                               [[-1, 1, 1], [1, -1, 1], [1, 1, -1]], [[2, 0, 0], [0, 2, 0], [0, 0, 3]]])
            u = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
            for _ in range(2):
                i, j = rng.sample(range(3), 2)
                u[i] = [x + rng.choice([-1, 1]) * y for x, y in zip(u[i], u[j])]
            a = mat_mul(u, base)
        else:
            a = [[rng.randint(-3, 3) for _ in range(3)] for _ in range(3)]
        d = det3(a)
        if d == 0:
            continue
        G = gram(a)
        m = max(G[i][i] for i in range(3))
        if m > 24:
            continue
        adj = [(G[1][1] * G[2][2] - G[1][2] ** 2), (G[0][0] * G[2][2] - G[0][2] ** 2), (G[0][0] * G[1][1] - G[0][1] ** 2)]
        dg = det3(G)
        if any(m * x / dg > 9.5 for x in adj):
            continue
        return Lat("r" + "_".join(str(x) for r in a for x in r), a, scale=rng.choice([1.0, 0.5, 0.25]))


def all_hnfs(n):
    r = []
    for a in range(1, n + 1):
        if n % a:
            continue
        for c in range(1, n // a + 1):
            if (n // a) % c:
                continue
            f = n // a // c
            r += [[a, b, c, d, e, f] for b in range(c) for d in range(f) for e in range(f)]
    return r


def full(h):
    return [[h[0], 0, 0], [h[1], h[2], 0], [h[3], h[4], h[5]]]


def smith(H):
    """(diagonal, L) with L H R = diag for some unimodular R; worked out here, not by the library."""
    M = [list(r) for r in H]
    L = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]

    def rowop(i, j, k):
        M[i] = [x - k * y for x, y in zip(M[i], M[j])]
        L[i] = [x - k * y for x, y in zip(L[i], L[j])]

    def rswap(i, j):
        M[i], M[j] = M[j], M[i]
        L[i], L[j] = L[j], L[i]

    def colop(i, j, k):
        for r in M:
            r[i] -= k * r[j]

    def cswap(i, j):
        for r in M:
            r[i], r[j] = r[j], r[i]
    t = 0
    while t < 3:
        nz = [(abs(M[i][j]), i, j) for i in range(t, 3) for j in range(t, 3) if M[i][j]]
        _, i, j = min(nz)
        rswap(t, i)
        cswap(t, j)
        done = True
        for i in range(t + 1, 3):
            rowop(i, t, M[i][t] // M[t][t])
            done = done and M[i][t] == 0
        for j in range(t + 1, 3):
            colop(j, t, M[t][j] // M[t][t])
            done = done and M[t][j] == 0
        if not done:
            continue
        bad = [(i, j) for i in range(t + 1, 3) for j in range(t + 1, 3) if M[i][j] % M[t][t]]
        if bad:
            rowop(t, bad[0][0], -1)
            continue
        if M[t][t] < 0:
            M[t] = [-x for x in M[t]]
            L[t] = [-x for x in L[t]]
        t += 1
    return [M[0][0], M[1][1], M[2][2]], L
