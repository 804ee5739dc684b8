"""C23: histories of structure commands, generated by TLC from MakeStr.tla, replayed in a folder."""
import os, sys
from engine import guarded, generate
import crystals as C
import rsp, c21
ASSUMPTIONS = ["an output name for a config file is always given", "the structure file is present (its absence is one extra case)"]
DESIGN = [{"module": "MC_MakeStr.tla", "cfg": "MC_MakeStr.cfg"}]
NAMES = ["sc", "fcc", "hex", "diamond", "tet2", "sc_cyc", "mon"]


def suites(ctx):
    rng, quick = ctx["rng"], ctx["tier"] == "quick"
    hist = generate("MC_MakeStr.tla", "Gen_MakeStr.cfg", 600 if quick else 4000, 5, ctx["seed"] + 17, ctx["scratch"])
    ins = []
    for h in hist:
        c = C.crystal(rng.choice(NAMES))
        structs, seen = [], set()
        while len(structs) < 4:
            s = rsp.structure(rng, c, 3, rng.randint(1, 4), True)
            sig = (tuple(s["lab"].count(i) for i in range(3)), tuple(s["h"]))
            if sig not in seen:
                seen.add(sig)
                structs.append(s)
        h = [x for x in h]
        # files there before, under a name that a command writes to
        init = []
        for x in h:
            if not x["cfg"] and rng.random() < .3:
                n = rng.randint(1, 4)
                init.append(x["pre"] + str(n) + x["post"] if x["pat"] else x["pre"] + x["post"] + ".%d" % n)
        init = [{"name": f, "type": "other", "nums": []} for f in sorted(set(init)) if not f.endswith(".cfg")]
        ins.append({"cmds": h, "init": init, "N": 4, "k": 3, "_rows": c.lat.A, "_bas": c.basis(), "_structs": structs,
                    "_how": [rng.choice(["run", "argv"]) for _ in h],
                    "_say": [rng.randrange(10 ** 6) for _ in h],
                    "key": "%s %s %s there before %s" % (c.name, [s["h"] for s in structs], h, [f["name"] for f in init])})
    # long structure files, with structures that occur twice
    for h in rng.sample(hist, 16 if quick else 80):
        c, N = C.crystal(rng.choice(NAMES)), rng.choice([40, 150, 400, 700])
        structs = [rsp.structure(rng, c, 3, rng.randint(1, 4), True) for _ in range(N)]
        for _ in range(rng.randint(0, 5)):
            structs[rng.randrange(N)] = dict(rng.choice(structs))
        cmds = []
        for x in h[:3]:
            x = dict(x)
            if x["kind"] in ("one", "two") and rng.random() < .5:
                x["kind"] = "all"
            a = rng.randint(1, N)
            if x["kind"] == "one":
                x["a"] = rng.choice([a, N, N + 1, 10, 100])
            elif x["kind"] == "two":
                x["a"], x["b"] = rng.choice([(a, rng.randint(a, N)), (1, N), (a, N + 3), (9, 11), (95, 105), (a, a)])
            cmds.append(x)
        ins.append({"cmds": cmds, "init": [], "N": N, "k": 3, "_rows": c.lat.A, "_bas": c.basis(), "_structs": structs,
                    "_how": [rng.choice(["run", "argv"]) for _ in cmds], "_say": [rng.randrange(10 ** 6) for _ in cmds],
                    "key": "%s %d structures %s" % (c.name, N, cmds)})
    ins.sort(key=lambda i: -i["N"])
    return [{"spec": "T_C23", "inputs": ins, "cpu": 240}]


def words(c, r):
    k = c["kind"]
    if k == "all":
        return [["all"], ["ALL"], ["All"]][r % 3]
    if k == "one":
        return [str(c["a"])]
    if k == "two":
        return [str(c["a"]), str(c["b"])]
    return [["1", "2", "3"], ["first"], ["1", "x"], ["1.5"], ["none"], ["1", "2", "3", "4"], ["one", "two"], ["1-3"], None][r % 9]


def look(inp):
    out = []
    for f in sorted(os.listdir(".")):
        if f == "struct_enum.out":
            continue
        if open(f).read() == OLD:
            out.append({"name": f, "type": "other", "nums": []})
            continue
        if f.endswith(".cfg"):
            nums = []
            for b in rsp.config(f):
                n = b["feature"][-1].split("_")[-1]
                n = int(n) if n.isdigit() else -1
                if not (1 <= n <= inp["N"]) or sorted(a[1] for a in b["atoms"]) != sorted(inp["_structs"][n - 1]["lab"]):
                    n = -1
                nums.append(n)
            out.append({"name": f, "type": "cfg", "nums": nums})
        else:
            p = rsp.poscar(f)
            n = int(p["title"][-1]) if p["title"] and p["title"][-1].isdigit() else -1
            if not (1 <= n <= inp["N"]) or len(p["atoms"]) != len(inp["_structs"][n - 1]["lab"]) or [x for x in p["counts"] if x] != [x for x in (inp["_structs"][n - 1]["lab"].count(i) for i in range(3)) if x]:
                n = -1
            out.append({"name": f, "type": "poscar", "nums": [n]})
    return out


OLD = "Something that was here before\n1.00\n" + "  9.5 9.5 9.5\n" * 400
ELS = ["Al", "Cu", "Ni", "Pd"]


def execute(inp):
    from phenum import phenumStr
    rsp.enum_file("struct_enum.out", inp["_rows"], inp["_bas"], 3, inp["_structs"])
    for f in inp["init"]:
        open(f["name"], "w").write(OLD)
    before = open("struct_enum.out").read()
    steps = []
    for c, how, r in zip(inp["cmds"], inp["_how"], inp["_say"]):
        w = words(c, r)
        out = c["pre"] + ("{}" if c["pat"] else "") + c["post"]
        sp = ELS[:c["nsp"]] or None

        def go():
            if how == "argv" and w is not None:
                sys.argv = ["makeStr.py"] + w + ["-outfile", out, "-config", "t" if c["cfg"] else "f"] + (["-species"] + sp if sp else [])
                phenumStr.run(phenumStr._parser_options())
            else:
                phenumStr.run({"structures": w, "debug": False, "examples": False, "displace": 0.0, "input": "struct_enum.out", "mink": "t",
                               "species": sp, "verbose": None, "outfile": out, "rattle": 0.0, "species_mapping": None,
                               "config": "t" if c["cfg"] else "f", "remove_zeros": "f"})
        st, v, note = guarded(go)
        steps.append({"st": st, "files": look(inp)})
        if open("struct_enum.out").read() != before:
            return {"st": "input-changed"}
    return {"st": "ok", "steps": steps}
