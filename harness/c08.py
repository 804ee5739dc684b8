"""C08: site permutations of a supercell."""
import crystals as C
import symgrp as grp
ASSUMPTIONS = ["lattices are given to the specification by their exact integer Gram matrix, to the code as floats",
               "sites are numbered through the left transform and Smith form the library itself reports for the supercell (checked by C07)"]
DESIGN = []


def suites(ctx):
    rng, quick = ctx["rng"], ctx["tier"] == "quick"
    xs = []
    for nm in list(C.LATS):
        for n in ([1, 2, 3, 4, 6] if quick else range(1, 9)):
            hs = C.all_hnfs(n)
            xs += [(C.crystal(nm), h) for h in rng.sample(hs, min(len(hs), 4 if quick else 12))]
    for nm in C.BASES:
        for n in ([1, 2, 3, 4] if quick else range(1, 7)):
            if n * len(C.BASES[nm][1]) > (18 if quick else 24):
                continue
            hs = C.all_hnfs(n)
            xs += [(C.crystal(nm), h) for h in rng.sample(hs, min(len(hs), 4 if quick else 8))]
    for _ in range(80 if quick else 250):
        lat = C.random_lattice(rng)
        q = rng.choice([2, 3, 4])
        nb = rng.choice([1, 1, 2, 3])
        D = []
        while len(D) < nb:
            d = [rng.randrange(q) for _ in range(3)]
            if d not in D:
                D.append(d)
        n = rng.choice([2, 3, 4, 5])
        xs.append((C.Crystal(lat, D, q, name=lat.name + "/%s/%d" % (D, q)), rng.choice(C.all_hnfs(n))))
    xs += grp.large(rng, list(C.LATS) + list(C.BASES) + C.gen_names(rng, 20), 50 if quick else 300, 24 if quick else 36)
    for nm in C.gen_names(rng, 30 if quick else 300):
        xs.append((C.crystal(nm), rng.choice(C.all_hnfs(rng.choice([1, 1, 2, 2, 3, 4])))))
    for nm in (list(C.LATS) + list(C.BASES) + C.gen_names(rng, 12)) * (1 if quick else 4):
        xs.append((C.nearly(rng, C.crystal(nm)), rng.choice(C.all_hnfs(rng.choice([1, 2, 2, 3, 4])))))
    xs += grp.long(rng, ["tri", "mon", "ort"], 4 if quick else 16)
    inputs = [grp.mk(C.placed(rng, c, .25), h) for c, h in xs]
    for i in inputs:
        i["nontrivial"] = i["n"] > 1
    return [{"spec": "T_C08", "inputs": inputs, "cpu": 120}]


def execute(inp):
    return grp.call(inp, False)
