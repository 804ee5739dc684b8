"""C16: the structure file of an enumeration."""
import os, random
from engine import guarded, ints
import crystals as C
import groups as g
import latin, enumout
ASSUMPTIONS = ["input and request files written by the harness for catalogue crystals", "requests small enough for the tree search (the sampling path has its own check)"]
DESIGN = []


def comps(N, k):
    if k == 1:
        yield [N]
        return
    for x in range(N + 1):
        for r in comps(N - x, k - 1):
            yield [x] + r


def palette(c, fr):
    cols, num = [], []
    for disp in (0, 1):
        for i, x in enumerate(c):
            d = x * fr[i][0] // fr[i][1]
            m = d if disp else x - d
            if m:
                cols.append([i + 1, disp])
                num.append(m)
    return cols, num


def request(rng, i, c, cells, full, lim=3000):
    """Lines of a request file for the listed cells."""
    arrows = any(f[0] for f in i["fr"])
    out = []
    for h in cells:
        N = h[0] * h[2] * h[5] * len(i["D"])
        for conc in comps(N, i["k"]):
            if i["restricted"] and not all(min(w[:2]) * N <= x * w[2] <= max(w[:2]) * N for x, w in zip(conc, i["win"])):
                continue
            cols, num = palette(conc, i["fr"])
            if g.fold(cols, num, 6) > lim or (arrows and N >= 12):
                continue
            tot = g.classes_of(g.lattice_group(c, h, arrows), cols, num)
            n = tot if full or rng.random() < .5 else rng.randint(1, tot)
            out.append({"h": h, "conc": conc, "num": n, "full": n == tot})
    return out


def write_request(path, req, rng):
    with open(path, "w") as f:
        f.write("# HNF     Conc   Number\n")
        for r in req:
            f.write("  %s    %s   %d\n" % (" ".join(map(str, r["h"])), " ".join(map(str, r["conc"])), r["num"]))


def suites(ctx):
    rng, quick = ctx["rng"], ctx["tier"] == "quick"
    ins = []
    names = [n for n in list(C.LATS) + list(C.BASES) if n not in ("a15", "nonprim", "nonprim2")] + C.gen_names(rng, 10 if quick else 60)
    plan = names + [None] * (40 if quick else 700)
    for nm in plan:
        while True:
            n2 = nm or rng.choice(names)
            i = latin.random_system(rng, [n2], 3000, 6, arrows=.5)
            if any(f[0] for f in i["fr"]) and C.crystal(n2).lat.name not in C.AXIS:
                continue
            break
        c = latin.random_system.crystal
        cells = [h for n in range(i["lo"], i["hi"] + 1) for h in C.all_hnfs(n)]
        cells = rng.sample(cells, min(len(cells), rng.choice([1, 2, 3, 5])))
        full = rng.random() < .5
        req = request(rng, i, c, cells, full)
        rng.shuffle(req)
        while sum(r["num"] for r in req) > 250 or len(req) > (14 if quick else 60):
            req.pop()
        if rng.random() < .1:
            req = req[:1]
        if not req:
            continue
        i["req"], i["super"], i["seed"] = req, rng.random() < .3, rng.choice([0, rng.randrange(10 ** 6), rng.randrange(10 ** 6)])
        i["key"] += " req %s super%d seed%d" % ([(r["h"], r["conc"], r["num"]) for r in req], i["super"], i["seed"])
        ins.append(i)
    # long cells: numbers with three digits
    for nm, h in (("mon", [1, 0, 1, 0, 0, 110]), ("tri", [1, 0, 100, 0, 0, 1]), ("tri", [1, 0, 1, 7, 50, 101]), ("ort", [1, 0, 1, 0, 100, 105]), ("tri", [1, 0, 1, 49, 100, 103]),
                  ("tri", [1, 99, 100, 0, 0, 1])):
        c = C.crystal(nm)
        i = latin.sysinput(c, 2, 1, 200, False, None, None)
        n = h[0] * h[2] * h[5]
        i["req"] = [{"h": h, "conc": [n - 1, 1], "num": 1, "full": True}]
        i["super"], i["seed"] = False, 0
        i["key"] += " long cell %s" % h
        ins.append(i)
    # requests over many sizes, below and above ten, in any order
    for _ in range(10 if quick else 60):
        nm = rng.choice(["tri", "mon", "ort", "sc", "fcc", "tet", "hex", "tri1", "sc_off"])
        c = C.crystal(nm)
        k = rng.choice([2, 2, 3])
        i = latin.sysinput(c, k, 1, 24, False, None, None)
        req = []
        for n in rng.sample([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 20, 24], rng.randint(4, 9)):
            conc = [n - 1, 1] + [0] * (k - 2) if n > 1 else [1] + [0] * (k - 1)
            if n in (5, 6) and rng.random() < .5:
                conc = [n - 2, 2] + [0] * (k - 2)
            h = rng.choice(C.all_hnfs(n))
            tot = g.classes_of(g.lattice_group(c, h, False), *palette(conc, i["fr"]))
            req.append({"h": h, "conc": conc, "num": tot, "full": True})
        i["req"], i["super"], i["seed"] = req, False, rng.choice([0, 1, 2])
        i["key"] += " many sizes %s" % [(r["h"], r["conc"]) for r in req]
        ins.append(i)
    # more than a thousand structures in one file
    for m, cs in ((12, ([6, 6], [5, 7], [1, 11])), (6, ([3, 2, 1], [2, 2, 2], [1, 1, 4]))) if quick else ((12, ([6, 6], [5, 7], [7, 5])), (13, ([6, 7],)), (8, ([3, 3, 2], [4, 2, 2], [1, 3, 4]))):
        z = sorted(rng.sample(range(3 * m), m))
        c = C.Crystal("tri", [[x % 2, x % 3, x] for x in z], 3 * m, types=[1] * m, name="big%s" % z)
        i = latin.sysinput(c, len(cs[0]), 1, 2, False, None, None)
        req = [{"h": [1, 0, 1, 0, 0, 1], "conc": x, "num": g.classes_of(g.lattice_group(c, [1, 0, 1, 0, 0, 1], False), *palette(x, i["fr"])), "full": True} for x in cs]
        req.append({"h": [1, 0, 1, 0, 1, 2], "conc": [2 * m - 1, 1] + [0] * (len(cs[0]) - 2), "num": 3, "full": False})
        i["req"], i["super"], i["seed"] = req, False, 0
        i["key"] += " many structures %s" % [(r["h"], r["conc"], r["num"]) for r in req]
        ins.append(i)
    i = latin.sysinput(C.crystal("sc"), 2, 1, 4, False, None, None)
    i["req"], i["super"], i["seed"] = [], False, 0
    i["key"] += " empty request"
    ins.append(i)
    for i in ins:
        i["lat7"] = enumout.seven(i["_rows"])
    ins.sort(key=lambda i: -sum(r["num"] for r in i["req"]))
    return [{"spec": "T_C16", "inputs": ins, "cpu": 200}]


def execute(inp):
    from phenum.enumeration import _script_enum
    from phenum.io_utils import read_enum_out
    latin.write_inp(inp)
    write_request("enum.in", inp["req"], None)
    st, v, note = guarded(_script_enum, latin.args(enum=True, super=inp["super"], seed=inp["seed"]), testmode=True)
    if st != "ok":
        return {"st": st, "note": str(v) + note[-500:]}
    hdr, rows = enumout.read("enum.out", inp["_rows"], inp["q"])
    st, v, note = guarded(read_enum_out, {"structures": None, "input": "enum.out"})
    if st != "ok":
        return {"st": st, "note": "read back: " + str(v) + note[-500:]}
    sysd, data = v
    import numpy as np
    hb = (np.allclose(np.transpose(sysd["plattice"]), hdr["latf"], atol=1e-12) and np.allclose(sysd["dvecs"], hdr["bas"], atol=1e-12)
          and sysd["k"] == hdr["k"] and sysd["nD"] == hdr["nD"])
    back = [{"num": d["strN"], "idx": d["sizeN"], "size": d["n"], "S": d["diag"], "h": [d["HNF"][0][0], d["HNF"][1][0], d["HNF"][1][1]] + d["HNF"][2],
             "L": d["L"], "lab": [int(x) for x in d["labeling"]], "dir": [int(x) for x in d["directions"]]} for d in data]
    hdr.pop("bas"), hdr.pop("latf")
    return {"st": "ok", "hdr": hdr, "rows": rows, "back": back, "headback": bool(hb), "nontrivial": len(rows) > 1}
