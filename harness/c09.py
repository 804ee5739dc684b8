"""C09: direction permutations of a supercell."""
import crystals as C
import symgrp as grp
ASSUMPTIONS = ["lattices whose symmetry operations map coordinate axes to coordinate axes (others are refused by design)"]
DESIGN = []


def suites(ctx):
    rng, quick = ctx["rng"], ctx["tier"] == "quick"
    xs = []
    for nm in C.AXIS + [b for b in C.BASES if C.BASES[b][0] in C.AXIS]:
        c = C.crystal(nm)
        for n in ([1, 2, 3, 4, 6] if quick else range(1, 9)):
            if n * len(c.D) > (16 if quick else 24):
                continue
            hs = C.all_hnfs(n)
            xs += [(c, h) for h in rng.sample(hs, min(len(hs), 5 if quick else 10))]
    xs += grp.large(rng, C.AXIS + [b for b in C.BASES if C.BASES[b][0] in C.AXIS] + C.gen_names(rng, 12, True), 36 if quick else 300, 20 if quick else 36)
    for nm in C.gen_names(rng, 20 if quick else 300, True):
        xs.append((C.crystal(nm), rng.choice(C.all_hnfs(rng.choice([1, 1, 2, 2, 3])))))
    for nm in (C.AXIS + [b for b in C.BASES if C.BASES[b][0] in C.AXIS] + C.gen_names(rng, 10, True)) * (1 if quick else 4):
        xs.append((C.nearly(rng, C.crystal(nm)), rng.choice(C.all_hnfs(rng.choice([1, 2, 2, 3, 4])))))
    xs += grp.long(rng, ["tri", "mon", "ort"], 4 if quick else 16)
    inputs = [grp.mk(C.placed(rng, c, .2, turn=False), h) for c, h in xs]
    return [{"spec": "T_C09", "inputs": inputs, "cpu": 120}]


def execute(inp):
    return grp.call(inp, True)
