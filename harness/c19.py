"""C19: Minkowski and Gauss reduction."""
from engine import guarded, BAD
import crystals as C
ASSUMPTIONS = ["bases of integer combinations of the catalogue lattices (exact integer Gram matrices); entries up to 600 (cells in a plane up to 33461, thin cells up to 80782)",
               "tolerances 1e-7 to 1e-10 (1e-7 for entries above 100)"]
DESIGN = [{"module": "MC_Reduce.tla", "cfg": "MC_Reduce.cfg"}, {"module": "MC_Reduce.tla", "cfg": "MC_Reduce_big.cfg", "thorough": True, "timeout": 3000}]


def unimod(rng, steps, big):
    M = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    for _ in range(steps):
        i, j = rng.sample(range(3), 2)
        k = rng.randint(-big, big)
        M[i] = [x + k * y for x, y in zip(M[i], M[j])]
    rng.shuffle(M)
    if rng.random() < .5:
        M[0] = [-x for x in M[0]]
    return M


def slow(rng, G, b):
    """A basis of the lattice that takes many rounds to reduce: the shortest
    vector is lengthened by multiples of the others until entries reach b."""
    M = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    n2 = lambda v: sum(v[i] * G[i][j] * v[j] for i in range(3) for j in range(3))
    while True:
        n = [n2(r) for r in M]
        i = n.index(min(n))
        x, y = rng.sample([j for j in range(3) if j != i], 2)
        q = rng.choice([-2, -1, 1, 2]), rng.choice([0, 0, 1, -1])
        r = [M[i][k] + q[0] * M[x][k] + q[1] * M[y][k] for k in range(3)]
        if max(map(abs, r)) > b:
            return rng.sample(M, 3)
        M[i] = r


def suites(ctx):
    rng, quick = ctx["rng"], ctx["tier"] == "quick"
    ins = []

    def add(lat, R, eps, kind="three"):
        L = C.placed(rng, C.LATS[lat] if isinstance(lat, str) else lat, .2)
        ins.append({"kind": kind, "lat": L.name, "G": L.G, "R": R, "_A": L.A, "eps": eps,
                    "key": "%s %s %s %s %s" % (kind, L.name, R, eps, L.A)})
    names = sorted(C.LATS)
    eps = lambda: rng.choice([1e-10, 1e-8, 1e-7])
    for nm in names:
        hs = [h for n in range(1, 7) for h in C.all_hnfs(n)]
        for h in (rng.sample(hs, 6) if quick else hs):
            add(nm, C.transpose(C.full(h)), eps())
    for _ in range(1200 if quick else 3000):
        n = rng.randint(7, 60)
        h = rng.choice(C.all_hnfs(n))
        add(rng.choice(names), C.transpose(C.full(h)), eps())
    for _ in range(1200 if quick else 4000):
        c = rng.random()
        if c < .4:
            R = unimod(rng, rng.randint(2, 6), rng.choice([1, 2, 3]))
        else:
            b = rng.choice([2, 5, 12, 30, 100])
            R = [[rng.randint(-b, b) for _ in range(3)] for _ in range(3)]
        if C.det3(R) == 0 or max(abs(x) for r in R for x in r) > 100:
            continue
        L = rng.choice(names) if rng.random() < .6 else C.random_lattice(rng)
        add(L, R, eps())
        if c < .4 or rng.random() < .5:
            add(L, R[:2], eps(), "two")
    # bases that take many rounds
    for _ in range(1500 if quick else 8000):
        L = C.LATS[rng.choice(names)] if rng.random() < .6 else C.random_lattice(rng)
        M = slow(rng, L.G, rng.choice([100, 300, 600, 600]))
        if abs(C.det3(M)) == 1:
            add(L, M, 1e-7)
    pell = [0, 1]
    while pell[-1] < 40000:
        pell.append(2 * pell[-1] + pell[-2])
    for i in range(3, len(pell) - 1):
        a, b, c = pell[i - 2:i + 1]
        add("sc", [[a, 0, b], [b, 0, c]], eps(), "two")
        add("sc", [[b, -c, 0], [-a, b, 0]], eps(), "two")
        if c < 10000:
            add("sc", [[a, 0, b], [b, 0, c], [0, 1, 0]], 1e-7)
    # long thin cells
    for _ in range(40):
        n = rng.choice([50, 97, 144, 408, 985, 2000, 5040, 9973, 20011])
        d, e = rng.randrange(n), rng.randrange(n)
        add("sc", [[1, 0, d], [0, 1, e], [0, 0, n]], eps())
        add("sc", [[1, 0, d], [0, 0, n]], eps(), "two")
    for d, n in ((12, 29), (29, 70), (70, 169), (169, 408), (408, 985), (985, 2378), (2378, 5741), (5741, 13860), (13860, 33461), (33461, 80782)):        # slowest for Gauss
        add("sc", [[1, 0, d], [0, 0, n]], eps(), "two")
        add("sc", [[0, 1, -d], [0, 0, n]], eps(), "two")
        add("sc", [[1, 0, d], [0, 1, n // 3], [0, 0, n]], eps())
    return [{"spec": "T_C19", "inputs": ins, "cpu": 30}]


def execute(inp):
    def go():
        import numpy as np
        from phenum import vector_utils as v
        A = np.array(inp["_A"], float)
        IN = (np.array(inp["R"], float) @ A).tolist()
        if inp["kind"] == "two":
            out = v._gaussian_reduce_two_vectors(list(IN[0]), list(IN[1]), inp["eps"])
        else:
            out = v._minkowski_reduce_basis([list(r) for r in IN], inp["eps"])
        W = np.array([list(x) for x in out], float) @ np.linalg.inv(A)
        return [[int(round(x)) if abs(x - round(x)) < 1e-4 else BAD for x in r] for r in W.tolist()]
    st, w, note = guarded(go)
    if st != "ok":
        return {"st": st, "note": str(w) + note}
    if any(x == BAD for r in w for x in r):
        return {"st": "offlattice"}
    return {"st": "ok", "W": w}
