"""C07: Smith normal form."""
import copy
from engine import guarded
import crystals as C
ASSUMPTIONS = ["entries of the input matrices stay below 2*10^9 in absolute value, the diagonal of the Smith form below 2^30, those of the transforms below 2^130 (they reach the specification as residues modulo 20 primes whose product exceeds any value the identities can take)"]
PRIMES = [32749, 32719, 32717, 32713, 32707, 32693, 32687, 32653, 32647, 32633, 32621, 32611, 32609, 32603, 32587, 32579, 32573, 32569, 32563, 32561]


def exact(v):
    """3x3 nested list of Python ints or None."""
    try:
        r = [[int(x) for x in row] for row in v]
        if len(r) != 3 or any(len(x) != 3 for x in r) or any(a != b for x, y in zip(r, v) for a, b in zip(x, y)):
            return None
        return r
    except Exception:
        return None
DESIGN = [{"module": "MC_Snf.tla", "cfg": "MC_Snf.cfg"}, {"module": "MC_Snf.tla", "cfg": "MC_Snf_big.cfg", "thorough": True, "timeout": 3000}]


def suites(ctx):
    rng, quick = ctx["rng"], ctx["tier"] == "quick"
    ms = []
    for n in range(1, 13 if quick else 25):
        ms += [C.full(h) for h in C.all_hnfs(n)]
    if quick:
        ms = ms[:200] + rng.sample(ms[200:], 500)
    for _ in range(4000 if quick else 9000):
        b = rng.choice([1, 2, 3, 5, 9, 15, 30])
        m = [[rng.randint(-b, b) for _ in range(3)] for _ in range(3)]
        if rng.random() < .3:          # many zeros
            m = [[x if rng.random() < .5 else 0 for x in r] for r in m]
        if rng.random() < .2:          # a common factor
            k = rng.choice([2, 3, 6])
            m = [[k * x for x in r] for r in m]
        ms.append(m)
    for _ in range(100):               # unimodular and scaled unimodular
        u = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
        for _ in range(rng.randint(1, 6)):
            i, j = rng.sample(range(3), 2)
            k = rng.choice([-2, -1, 1, 2])
            u[i] = [x + k * y for x, y in zip(u[i], u[j])]
        ms.append(u)
    for _ in range(150 if quick else 1500):   # large entries, a moderate determinant
        m = [[rng.choice([1, 1, 2, 3, 6]), 0, 0], [0, rng.choice([1, 2, 4, 12]), 0], [0, 0, rng.choice([1, 5, 30, 64])]]
        top = 10 ** rng.uniform(3, 8.5)
        while max(abs(x) for r in m for x in r) < top:
            i, j = rng.sample(range(3), 2)
            k = rng.choice([-2, -1, 1, 2, 3])
            if rng.random() < .5:
                m[i] = [x + k * y for x, y in zip(m[i], m[j])]
            else:
                for r in m:
                    r[i] += k * r[j]
        if rng.random() < .15:
            m[0] = [-x for x in m[0]]
        ms.append(m)
    for _ in range(40 if quick else 400):     # entries of any size whose invariants stay below 2^30
        b = rng.choice([100, 300, 900])
        m = [[rng.randint(-b, b) for _ in range(3)] for _ in range(3)]
        if abs(C.det3(m)) < 2 ** 30:
            ms.append(m)
    inputs = []
    for m in ms:
        d = C.det3(m)
        inputs.append({"H": m, "bad": d <= 0, "key": "H=%s" % m})
    for m in [[[1, 0, 0], [0, 1.5, 0], [0, 0, 2]], [[1, 0.25, 0], [0, 3, 0], [0, 0, 2]], [[2, 0, 0], [0, 2.5, 0], [1, 0, 2]],
              [[0.5, 0, 0], [0, 0.5, 0], [0, 0, 0.5]], [[1, 0, 0], [0, 1, 0], [0, 0, 1.01]], [[7, 0, 0], [3, 5.9, 0], [0, 0, 3]],
              [[1, 0, 0], [0, 1, 0], [0, 200000.5, 200001]], [[300000.25, 0, 0], [0, 1, 0], [0, 0, 1]],
              [[.5, 0, 0], [0, 1, 0], [0, 0, 1.8]]]:
        inputs.append({"_H": m, "H": [[0] * 3] * 3, "bad": True, "key": "nonint %s" % m})
    return [{"spec": "T_C07", "inputs": inputs, "cpu": 20}]


def execute(inp):
    from phenum.grouptheory import SmithNormalForm
    h0 = inp.get("_H", inp["H"])
    h = copy.deepcopy(h0)
    st, v, out = guarded(SmithNormalForm, h)
    r = {"st": st, "same": h == h0, "nontrivial": not inp["bad"]}
    if st == "ok":
        M, A, B = [exact(x) for x in v]
        if M is None or A is None or B is None or max(abs(y) for X in (A, B) for z in X for y in z) >= 2 ** 130 \
                or max(abs(y) for z in M for y in z) >= 2 ** 30:
            return {"st": "malformed", "same": True}
        mod = lambda X: [[[y % p for y in z] for z in X] for p in PRIMES]
        r.update(M=M, Ar=mod(A), Br=mod(B))
    else:
        r["note"] = str(v) + out
    return r
