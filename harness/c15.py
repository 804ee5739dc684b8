"""C15: the tables of the polya command."""
import os
from engine import guarded, as_int
import crystals as C
import latin, tables
ASSUMPTIONS = ["input files written by the harness for catalogue crystals; numbers are compared modulo four primes (product 1.1e18)", "displaced fractions with small denominators"]
DESIGN = []
BIG = ["mon", "tri", "ort", "tet", "sc", "fcc", "bcc", "mon2", "tri2", "sc_off", "cscl", "tri1"]


def suites(ctx):
    rng, quick = ctx["rng"], ctx["tier"] == "quick"
    ins = []
    names = [n for n in list(C.LATS) + list(C.BASES) if n != "a15"] + C.gen_names(rng, 12 if quick else 60)
    for nm in names:
        i = latin.random_system(rng, [nm], 10 ** 6, 5 if quick else 7)
        ins.append(i)
    for _ in range(60 if quick else 900):
        ins.append(latin.random_system(rng, names, 10 ** 8, rng.choice([3, 5, 7, 8])))
    for _ in range(30 if quick else 300):
        ins.append(latin.random_system(rng, [n for n in names if C.crystal(n).lat.name in C.AXIS] + C.gen_names(rng, 8 if quick else 40, True), 10 ** 7, rng.choice([2, 4, 6]), arrows=1.0))
    # only one of three or four kinds of atoms displaced, each in turn
    for nm in rng.sample(["sc", "fcc", "tet", "bcc", "ort", "cscl"], 3):
        for k in (3, 4):
            for j in range(k):
                N = k + rng.randint(0, 1)
                nd = len(C.crystal(nm).D)
                fr = [[0, 1]] * j + [rng.choice([[1, 1], [1, 2]])] + [[0, 1]] * (k - j - 1)
                n = max(2, N // nd)
                ins.append(latin.sysinput(C.crystal(nm), k, n, n, True, [[0, nd * n, nd * n]] * k, fr))
    # many atoms per cell: displaced fractions of large counts
    for m, p, q in [(22, 15, 22), (23, 26, 46), (26, 30, 52), (43, 23, 43), (40, 1, 3)] + ([] if quick else [(50, 29, 50), (50, 58, 100), (55, 56, 100), (60, 1, 3)]):
        D = [[0, 0, j] for j in range(m)]
        c = C.Crystal("tet", D, 2 * m, types=[1] * m, name="rod%d" % m)
        w = [[m, m, m], [0, 0, m]] if rng.random() < .5 else [[m, m, m]]
        i = latin.sysinput(c, len(w), 1, 1, True, w, [[p, q]] * len(w))
        ins.append(i)
    # numbers of 20 to 60 digits: many displaced atoms, little symmetry
    for m, per, k in ((27, 30, 1), (56, 60, 1) if quick else (70, 75, 1), (40, 43, 2)):
        z = sorted(rng.sample(range(per), m))
        c = C.Crystal("ort", [[0, 0, j] for j in z], per, types=[1] * m, name="irod%s" % z)
        ins.append(latin.sysinput(c, k, 1, 1, True, [[m, m, m]] if k == 1 else [[0, 2, m], [0, m, m]], [[1, 1]] * k))
    for i in ins:
        i["out"] = rng.choice(["", "", "tab"])
        i["old"] = rng.random() < .2
    ins.sort(key=lambda i: -(i["hi"] ** 3 * len(i["D"])))
    return [{"spec": "T_C15", "inputs": ins, "cpu": 200}]


def execute(inp):
    from phenum.enumeration import _script_enum
    latin.write_inp(inp)
    base = inp["out"] or "polya.out"
    if inp["old"]:
        with open("%s.%d" % (base, inp["lo"]), "w") as f:
            f.write("left over from before\n" * 50)
    st, v, note = guarded(_script_enum, latin.args(polya=True, outfile=inp["out"] or None), testmode=True)
    if st != "ok":
        return {"st": st, "note": str(v) + note[-500:]}
    names = sorted(os.listdir("."))
    files = sorted(int(n[len(base) + 1:]) for n in names if n.startswith(base + ".") and n[len(base) + 1:].isdigit())
    others = [n for n in names if n != "lattice.in" and not (n.startswith(base + ".") and n[len(base) + 1:].isdigit())]
    R = lambda v: [v % p for p in (32749, 32719, 32717, 32713)]
    tabs, ok = [], True
    for s in files:
        concs, rows, rt, ct, g = tables.read_table("%s.%d" % (base, s))
        ok = ok and min([x for r in rows for x in r[1]] + [0]) >= 0
        tabs.append({"size": s, "concs": concs, "rows": [{"hnf": h, "cnt": [R(x) for x in c]} for h, c in rows],
                     "rowtot": [R(x) for x in rt], "coltot": [R(x) for x in ct], "grand": R(g), "_g": g})
    return {"st": "ok" if ok else "negative", "files": files, "others": others, "nontrivial": any(len(t["rows"]) > 1 or t["_g"] > 1 for t in tabs),
            "tables": [{k: v for k, v in t.items() if k != "_g"} for t in tabs]}
