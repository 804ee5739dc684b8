"""C18: a structure in real space."""
import random
from engine import guarded, BAD
import crystals as C
ASSUMPTIONS = ["catalogue crystals with exact positions; every normal form up to the stated size, a valid Smith form each"]
DESIGN = []
NAMES = ["sc", "fcc", "bcc", "hex", "tet", "ort", "mon", "tri", "rhom", "sc_sk", "sc_neg", "diamond", "hcp", "cscl", "sc_cyc", "tri2",
         "kag", "out", "sc_off", "fluor", "hex_wz"]


def suites(ctx):
    rng, quick = ctx["rng"], ctx["tier"] == "quick"
    ins = []
    hs = [h for n in range(1, 7 if quick else 13) for h in C.all_hnfs(n)]
    big = [h for n in ((8, 9, 12, 16, 24) if quick else range(13, 49)) for h in C.all_hnfs(n)]
    pool = (rng.sample(hs, min(len(hs), 1200)) + rng.sample(big, 900)) if quick else hs + rng.sample(big, 3000)
    # cells that are multiples of smaller ones: every invariant factor larger than one
    mult = [[m * x for x in h] for m in (2, 3) for n in (1, 2, 3, 4) for h in C.all_hnfs(n) if m ** 3 * n <= 54]
    pool += rng.sample(mult, min(len(mult), 80 if quick else 10 ** 6))
    # more than fifty parent cells
    far = [h for n in rng.sample([50, 61, 64, 71, 81, 97, 100, 101, 121, 128, 131], 3 if quick else 6) for h in rng.sample(C.all_hnfs(n), 10)]
    for h in pool + far:
        c = C.placed(rng, C.crystal(rng.choice(NAMES if h not in far else ["sc", "fcc", "mon", "tri", "cscl", "sc_neg", "tri2"])), .2)
        n = h[0] * h[2] * h[5]
        S, L = C.smith(C.full(h))
        if rng.random() < .3:          # another left transform of the same form
            i, j = rng.sample(range(3), 2)
            if S[i] % S[j] == 0:       # adding S[i]/S[j] multiples keeps L H R = S for another R
                k = rng.choice([-1, 1, 2]) * (S[i] // S[j])
                L[i] = [x + k * y for x, y in zip(L[i], L[j])]
        k = rng.randint(1, 5)
        lab = [rng.randrange(k) for _ in range(n * len(c.D))]
        d = {"h": h, "S": S, "L": L, "k": k, "lab": lab, "mink": rng.random() < .5, "_rows": c.lat.A, "_bas": c.basis(),
             "D": c.D, "q": c.q, "key": "%s h%s L%s mink k%d %s" % (c.name, h, L, k, lab[:12])}
        ins.append(d)
    return [{"spec": "T_C18", "inputs": ins, "cpu": 60}]


def execute(inp):
    def go():
        import numpy as np
        from phenum.vector_utils import map_enumStr_to_real_space as f
        A = np.array(inp["_rows"], float)
        h = inp["h"]
        n = h[0] * h[2] * h[5]
        system = {"plattice": np.transpose(A), "dvecs": [list(b) for b in inp["_bas"]], "title": "t", "bulksurf": "bulk",
                  "nD": len(inp["D"]), "k": inp["k"], "eps": 1e-7}
        st = {"strN": 1, "hnfN": 1, "hnf_degen": 1, "lab_degen": 1, "tot_degen": 1, "sizeN": 1, "n": n, "pgOps": 1, "diag": list(inp["S"]),
              "HNF": C.full(h), "L": [list(r) for r in inp["L"]], "labeling": "".join(map(str, inp["lab"])), "directions": "0" * len(inp["lab"])}
        r = f(system, st, inp["mink"])
        inv = np.linalg.inv(A)

        def rnd(x):
            return int(round(x)) if abs(x - round(x)) < 1e-6 and abs(x) < 1e8 else BAD
        pos = [[rnd(x) for x in np.array(p, float) @ inv * inp["q"]] for p in r["aBas"]]
        slv = [[rnd(x) for x in np.array(v, float) @ inv] for v in r["sLV"]]
        return {"pos": pos, "slv": slv, "gidx": [int(x) for x in r["gIndx"]], "spin": [int(x) for x in r["spin"]],
                "x": [rnd(float(x) * n * len(inp["D"])) for x in r["x"]]}
    st, v, note = guarded(go)
    if st != "ok":
        return {"st": st, "note": str(v) + note}
    if any(x == BAD for r in v["pos"] + v["slv"] for x in r):
        return {"st": "offlattice"}
    return dict(v, st="ok", nontrivial=len(v["pos"]) > 1)
