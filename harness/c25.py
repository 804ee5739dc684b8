"""C25: whole enumerations, judged as structures of the infinite crystal."""
import os
from engine import guarded
import crystals as C
import latin, enumout
ASSUMPTIONS = ["input files written by the harness for catalogue crystals", "sizes and species such that all structures of a size can be listed by TLC"]
DESIGN = []
HNUM = {1: 1, 2: 7, 3: 13, 4: 35, 5: 31, 6: 91, 7: 57, 8: 155}


def total(i):
    """Upper bound of the number of structures over all shapes."""
    nd = len(i["D"])
    return max(HNUM[n] * latin.colourings(i["k"], nd * n, i["restricted"], i["win"], i["_fr"]) for n in range(i["lo"], i["hi"] + 1))


def suites(ctx):
    rng, quick = ctx["rng"], ctx["tier"] == "quick"
    lim = 3000 if quick else 12000
    ins = []

    def add(nm, k, lo, hi, restricted=False, win=None, fr=None):
        ins.append(latin.sysinput(C.crystal(nm), k, lo, hi, restricted, win, fr))
    full = lambda k: [[0, 1, 1]] * k
    add("fcc", 2, 1, 5 if quick else 7)
    add("bcc", 2, 1, 5 if quick else 6)
    add("sc", 2, 1, 5 if quick else 6)
    add("hcp", 2, 1, 3)
    add("diamond", 2, 1, 2 if quick else 3)
    add("fcc", 3, 1, 3 if quick else 4)
    add("tri", 2, 1, 4 if quick else 5)
    add("sc", 2, 1, 2, True, full(2), [[1, 1], [0, 1]])
    add("fcc", 2, 2, 3, True, [[1, 1, 3], [2, 2, 3]], [[1, 1], [0, 1]])
    add("tet", 2, 2, 2, True, full(2), [[1, 2], [1, 1]])
    add("sc_cyc4", 2, 1, 1, True, full(2), [[1, 2], [0, 1]])        # no symmetry but the identity
    # several atoms that only operations with a fractional translation exchange
    for nm in ["screw4", "hex_wz", "sc_cyc"] + [n for n in C.gen_names(rng, 40) if len(C.crystal(n).D) in (3, 4)][:7 if quick else 25]:
        N = 2 * len(C.crystal(nm).D)
        add(nm, 2, 1, 2, True, [[1, 1, N], [N - 1, N - 1, N]] if N < 8 else rng.choice([[[1, 1, N], [N - 1, N - 1, N]], [[2, 2, N], [N - 2, N - 2, N]]]))
    names = [n for n in list(C.LATS) + list(C.BASES) if n not in ("a15", "nonprim", "nonprim2")] + C.gen_names(rng, 12 if quick else 60) + C.gen_names(rng, 6 if quick else 40, True)
    tries = 0
    while len(ins) < (110 if quick else 1200):
        tries += 1
        nm = names[tries % len(names)] if tries < 4 * len(names) else rng.choice(names)
        i = latin.random_system(rng, [nm], 3000, 7 if quick else 8, arrows=.4)
        if i["hi"] > 8 or total(i) > lim or (total(i) < 20 and rng.random() < .7):
            continue
        ins.append(i)
    for i in ins:
        i["how"] = rng.choice(["at once", "step by step"])
        i["key"] += " " + i["how"]
    ins.sort(key=lambda i: -total(i) * len(i["D"]))
    return [{"spec": "T_C25", "inputs": ins, "cpu": 200}]


def execute(inp):
    from phenum.enumeration import _script_enum
    latin.write_inp(inp)
    if inp["how"] == "at once":
        runs = [{"enum": True}]
    else:
        runs = [{"polya": True}, {"distribution": ["all", "all"]}, {"enum": True}]
    for r in runs:
        st, v, note = guarded(_script_enum, latin.args(**r), testmode=True)
        if st != "ok":
            return {"st": st, "note": str(v) + note[-500:]}
    hdr, rows = enumout.read("enum.out", inp["_rows"], inp["q"])
    return {"st": "ok", "rows": [{"h": r["h"], "L": r["L"], "S": r["S"], "lab": r["lab"], "dir": r["dir"]} for r in rows]}
