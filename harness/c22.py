"""C22: MTP configuration files, through phenumStr.run with -config t."""
import os
from engine import guarded, BAD
import rsp, c21
ASSUMPTIONS = c21.ASSUMPTIONS + ["the mapping names distinct species numbers; when as many species as labels are named they are in label order"]
DESIGN = []


def suites(ctx):
    rng = ctx["rng"]
    ins = c21.cases(rng, ctx["tier"] == "quick", True)
    for e in ins:
        this = {x: e.pop(x) for x in ("h", "S", "L", "lab", "dirs")}
        allst = e.pop("_pre") + [this] + e.pop("_post")
        e["_all"] = allst
        mode = rng.choice(["one", "one", "range", "all"])
        num = e.pop("num")
        if mode == "one":
            e["_sel"], idx = [str(num)], [num]
        elif mode == "all":
            e["_sel"], idx = ["all"], list(range(1, len(allst) + 1))
        else:
            lo = rng.randint(1, num)
            hi = rng.randint(num, len(allst))
            e["_sel"], idx = [str(lo), str(hi)], list(range(lo, hi + 1))
        e["structs"] = [dict({k: allst[i - 1][k] for k in ("h", "S", "L", "lab", "dirs")}, num=i) for i in idx]
        e["_old"] = rng.random() < .3
        e["key"] += " sel%s" % e["_sel"]
    return [{"spec": "T_C22", "inputs": ins, "cpu": 60}]


OLD = "BEGIN_CFG\n Size\n    1\n END_CFG\n\n"


def execute(inp):
    def go():
        import numpy as np
        import random as R
        from phenum.phenumStr import run
        rsp.enum_file("struct_enum.out", inp["_rows"], inp["_bas"], inp["k"], inp["_all"], inp["_title"])
        R.seed(inp["seed"])
        np.random.seed(inp["seed"])
        if inp["_old"]:
            with open("to-relax.cfg", "w") as f:
                f.write(OLD)
        run(c21.arguments(inp, structures=list(inp["_sel"]), config="t", outfile="to-relax.cfg", species_mapping=list(inp["map"]) or None))
        files = sorted(x for x in os.listdir(".") if x != "struct_enum.out")
        if files != ["to-relax.cfg"]:
            return {"st": "files", "note": str(files)}
        kept = True
        if inp["_old"]:
            t = open("to-relax.cfg").read()
            kept = t.startswith(OLD)
            with open("to-relax.cfg", "w") as f:
                f.write(t[len(OLD):])
        sp = inp["species"]
        if sp and inp["map"] and len(sp) != len(inp["map"]):
            sp = [sp[i] for i in inp["map"]]
        inv = np.linalg.inv(np.array(inp["_rows"], float))
        Q = inp["q"] * inp["f"]
        blocks = []
        bl = rsp.config("to-relax.cfg")
        if len(bl) != len(inp["structs"]):
            return {"st": "ok", "blocks": [0] * len(bl), "kept": kept}
        for s, b in zip(inp["structs"], bl):
            a = c21.expected_scale({"lab": s["lab"], "k": inp["k"], "_rows": inp["_rows"], "D": inp["D"]}, sp)
            slv = [[rsp.grid(x, 1, 1e-5) for x in r] for r in np.array(b["vecs"]) / a @ inv]
            atoms = [{"id": t[0], "sp": t[1], "p": [rsp.near(x, Q) for x in np.array(t[2:], float) / a @ inv]} for t in b["atoms"]]
            if any(x == BAD for r in slv + [t["p"] for t in atoms] for x in r):
                return {"st": "offlattice"}
            num = b["feature"][-1].split("_")[-1]
            blocks.append({"size": b["size"], "slv": slv, "atoms": atoms, "num": int(num) if num.isdigit() else -1})
        return {"st": "ok", "blocks": blocks, "kept": kept}
    st, v, note = guarded(go)
    if st != "ok":
        return {"st": st, "note": str(v) + note}
    return dict(v, nontrivial=inp["j"] > 0)
