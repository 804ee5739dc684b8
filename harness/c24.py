"""C24: numbering of labellings and displacement patterns."""
import itertools
from engine import guarded, as_int
import groups as g
ASSUMPTIONS = ["counts of more than 31 bits are compared modulo four primes", "sizes up to 130 sites"]
DESIGN = []
P4 = [32749, 32719, 32717, 32713]


def suites(ctx):
    rng, quick = ctx["rng"], ctx["tier"] == "quick"
    ins = []
    lim = 400 if quick else 6000
    for n in range(1, 9 if quick else 11):
        for k in range(1, min(n, 6) + 1):
            ps = [c for c in g.palettes(n, k) if g.fold([[1, 0]] * len(c), c, 1) <= lim]
            for c in (rng.sample(ps, min(len(ps), 12)) if quick else ps):
                ins.append({"kind": "all", "concs": c})
    for _ in range(80 if quick else 200):
        n = rng.randint(10, 120)
        k = rng.randint(1, 6)
        cuts = sorted(rng.sample(range(1, n), k - 1))
        c = [b - a for a, b in zip([0] + cuts, cuts + [n])]
        ins.append({"kind": "some", "concs": c, "seed": rng.randrange(10 ** 6)})
    for dim in (1, 2, 3, 4, 5, 6):
        for n in range(0, 7):
            if dim ** n <= (1300 if quick else 8000):
                ins.append({"kind": "dirs", "n": n, "dim": dim})
        for n in (8, 15, 24, 50):
            ins.append({"kind": "dirssome", "n": n, "dim": dim, "seed": rng.randrange(10 ** 6)})
    for lo in range(0, 130, 10):
        bins = [(n, k) for n in range(lo, lo + 10) for k in range(-1, n + 2)]
        if quick:
            bins = rng.sample(bins, min(len(bins), 150))
        muls = []
        for _ in range(20):
            n = rng.randint(max(lo, 1), lo + 9)
            k = rng.randint(1, min(n, 6))
            cuts = sorted(rng.sample(range(0, n + 1), k - 1)) if rng.random() < .3 else sorted(rng.sample(range(1, n), k - 1))
            muls.append([b - a for a, b in zip([0] + cuts, cuts + [n])])
        ins.append({"kind": "counts", "lo": lo, "_bins": bins, "_muls": muls, "key": "counts %d" % lo})
    return [{"spec": "T_C24", "inputs": ins, "cpu": 120}]


def levels(hashf, arr, k):
    back, bits = [], []
    for i in range(1, k + 1):
        b = [1 if c == i else 0 for c in arr if c >= i]
        bits.append(b)
        back.append(hashf(list(b)))
    return back, bits


def execute(inp):
    def go():
        import random
        from phenum import tree, phonons, numerics
        res = lambda x: [int(x) % p for p in P4] if int(x) == x else [-1] * 4
        kind = inp["kind"]
        if kind in ("all", "some"):
            concs = inp["concs"]
            C = tree._coefficients(list(concs), sum(concs))
            out = {"radix": [res(x) for x in C], "arr": [], "back": [], "branch": [], "bits": []}
            if kind == "all":
                bs = itertools.product(*[range(min(int(c), 7000)) for c in C])
            else:
                r = random.Random(inp["seed"])
                bs = [[0] * len(C), [c - 1 for c in C]] + [[r.randrange(int(c)) for c in C] for _ in range(12)]
            exact = True
            for b in bs:
                arr = [int(x) for x in tree._invhash(list(b), list(concs), sum(concs))]
                back, bits = levels(tree._hash, arr, len(concs))
                out["arr"].append(arr)
                exact = exact and list(back) == list(b)
                out["back"].append([as_int(x) for x in back] if kind == "all" else [res(x) for x in back])
                out["branch"].append(list(b) if kind == "all" else [res(x) for x in b])
                if kind == "all":
                    out["bits"].append(bits)
            out["exact"] = exact
            return out
        if kind in ("dirs", "dirssome"):
            n, dim = inp["n"], inp["dim"]
            if kind == "dirs":
                nums = range(dim ** n)
            else:
                r = random.Random(inp["seed"])
                nums = [r.randrange(dim ** n) for _ in range(20)] + [dim ** n - 1]
            arr = [[int(x) for x in phonons._ainvhash(a, n, dim)] for a in nums]
            back = [phonons._ahash(list(x), dim) for x in arr]
            return {"arr": arr, "back": [as_int(x) for x in back] if kind == "dirs" else [], "exact": back == list(nums)}
        whole = True
        fact, bn, mu = [], [], []
        vals = []
        for n in range(inp["lo"], inp["lo"] + 10):
            v = numerics.factorial(n)
            vals.append(v)
            fact.append([n, res(v)])
        for n, k in inp["_bins"]:
            v = numerics.binomial_coefficient(n, k)
            vals.append(v)
            bn.append([n, k, res(v)])
        for c in inp["_muls"]:
            v = numerics.multinomial(list(c))
            vals.append(v)
            mu.append([c, res(v)])
        return {"fact": fact, "bin": bn, "mul": mu, "whole": all(v >= 0 and not isinstance(v, float) for v in vals)}
    st, v, _ = guarded(go)
    if st != "ok":
        return {"st": st, "note": v}
    return dict(v, st="ok")
