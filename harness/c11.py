"""C11: compositions of a cell size."""
import math
from engine import guarded, ints
ASSUMPTIONS = ["windows lo/den..hi/den with small integers"]
DESIGN = []


def suites(ctx):
    rng, quick = ctx["rng"], ctx["tier"] == "quick"
    ins = []

    def ncomp(N, k):
        return math.comb(N + k - 1, k - 1)
    lim = 1500 if quick else 4000
    for k in range(1, 6):
        for size in range(1, 9 if quick else 13):
            for nb in (1, 2, 3):
                if ncomp(size * nb, k) <= lim and (size * nb + 1) ** k < 60000:
                    ins.append({"k": k, "size": size, "nb": nb, "restricted": False, "win": []})
    for _ in range(1500 if quick else 4000):
        k = rng.randint(1, 4)
        nb = rng.choice([1, 1, 2, 3, 4])
        size = rng.randint(1, 24 if k < 4 else 8)
        if ncomp(size * nb, k) > lim * 2:
            continue
        den = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 25, 100])
        win = []
        style = rng.choice(["free", "tight", "full", "point", "mixed"])
        for _ in range(k):
            d = den if style != "mixed" else rng.choice([2, 3, 4, 5, 6, 7, 10, size * nb])
            a, b = rng.randint(0, d), rng.randint(0, d)
            if style == "full":
                a, b = rng.choice([(0, d), (1, d), (0, d - 1)])
            if style == "point":
                b = a
            if style == "tight":
                b = min(d, a + 1)
            if rng.random() < .8:
                a, b = min(a, b), max(a, b)
            win.append([a, b, d])
        if rng.random() < .4:      # make one composition certainly allowed: windows around it
            c = [rng.randint(0, size * nb) for _ in range(k - 1)]
            if sum(c) <= size * nb:
                c.append(size * nb - sum(c))
                rng.shuffle(c)
                win = [[max(0, x - rng.randint(0, 2)), min(size * nb, x + rng.randint(0, 2)), size * nb] for x in c]
        ins.append({"k": k, "size": size, "nb": nb, "restricted": True, "win": win})
    # limits whose product with the number of sites is not the whole number it stands for once it is rounded
    odd = [(a, d, N) for N in range(1, 73) for d in (list(range(1, 31)) + [36, 40, 49, 50, 64, 98, 100]) for a in range(0, d + 1)
           if (a * N) % d == 0 and float(a) / d * N != a * N // d]
    lo = [t for t in odd if float(t[0]) / t[1] * t[2] < t[0] * t[2] // t[1]]
    hi = [t for t in odd if float(t[0]) / t[1] * t[2] > t[0] * t[2] // t[1]]
    m = 40 if quick else 400
    for a, d, N in rng.sample(lo, min(m, len(lo))) + rng.sample(hi, min(m, len(hi))):
        nb = rng.choice([b for b in (1, 2, 3) if N % b == 0])
        for w in ([0, a, d], [a, d, d], [a, a, d]):
            win = [w, [0, 1, 1]]
            if rng.random() < .5:
                win.reverse()
            ins.append({"k": 2, "size": N // nb, "nb": nb, "restricted": True, "win": win})
    # limits just beside a composition
    for _ in range(80 if quick else 600):
        nb = rng.choice([1, 2, 3])
        size = rng.randint(1, 12)
        N, k = size * nb, rng.choice([2, 2, 3])
        c = [rng.randint(0, N) for _ in range(k - 1)]
        if sum(c) > N:
            continue
        c.append(N - sum(c))
        den = rng.choice([50, 99, 997, 1000, 4999, 10000, 100000])
        win = []
        for x in c:
            a = x * den // N                                        # the last below, the next above
            lo, hi = rng.choice([(a, den), (a + 1, den), (0, a), (0, max(0, a - 1)), (a, a + 1), (0, den), (max(0, a - 1), a)])
            win.append([lo, min(hi, den), den])
        ins.append({"k": k, "size": size, "nb": nb, "restricted": True, "win": win})
    return [{"spec": "T_C11", "inputs": ins, "cpu": 60}]


def execute(inp):
    def go():
        from phenum.symmetry import get_concs_for_size
        win = [list(w) for w in inp["win"]] or [[0, 1, 1]] * inp["k"]
        return ints([list(c) for c in get_concs_for_size(inp["size"], inp["k"], inp["restricted"], inp["nb"], win)])
    st, v, _ = guarded(go)
    return {"st": st, "note": str(v)} if st != "ok" else {"st": st, "out": v, "nontrivial": len(v) > 1}
