"""C01: every class of colourings once."""
import groups as g
import colr
ASSUMPTIONS = ["the permutation groups are groups (every subgroup of S_4 (quick) / S_5 (thorough), random groups, supercell groups computed by the harness)"]
DESIGN = [{"module": "MC_Tree.tla", "cfg": "MC_Tree_4.cfg"}, {"module": "MC_Tree.tla", "cfg": "MC_Tree_5.cfg", "thorough": True, "timeout": 3000}]


def suites(ctx):
    rng, quick = ctx["rng"], ctx["tier"] == "quick"
    base = list(range(6))
    cases = []
    small, many = [], []
    for n in ((1, 2, 3, 4) if quick else (1, 2, 3, 4, 5)):
        for G in (g.all_subgroups(n) if n <= 5 else []):
            GG = [[p, base] for p in G]
            for k in range(1, n + 1):
                for concs in g.palettes(n, k):
                    small.append(colr.case("S%d|%d|%s" % (n, len(G), G[:3]), GG, colr.plain(k), concs))
    if quick:
        small = rng.sample(small, min(len(small), 400))
    for nm, G, n in colr.lat_groups(ctx, ["sc", "fcc", "bcc", "hex", "tet", "ort", "mon", "tri", "rhom"],
                                    (2, 3, 4, 5, 6) if quick else (2, 3, 4, 5, 6, 7, 8), 1 if quick else 4, False):
        for k in (2, 3, 4):
            for concs in g.palettes(len(G[0][0]), k) if n >= k else []:
                cases.append(colr.case(nm, G, colr.plain(k), concs, nt=n))
    for nm, G, n in colr.lat_groups(ctx, ["diamond", "hcp", "cscl", "sc_edge", "fluor", "hex3", "kag", "sc_cyc"],
                                    (1, 2, 3), 1 if quick else 3, False):
        N = len(G[0][0])
        for k in (2, 3):
            if N >= k:
                for concs in g.palettes(N, k):
                    cases.append(colr.case(nm, G, colr.plain(k), concs, nt=n))
    # many species on few sites: permutations, cyclic and dihedral groups, random groups, supercells
    for n in range(5, 8 if quick else 9):
        cyc = list(range(1, n)) + [0]
        flip = [(-i) % n for i in range(n)]
        for nm, gens in (("id", []), ("C", [cyc]), ("D", [cyc, flip]), ("S2", [[1, 0] + list(range(2, n))]),
                         ("tail", [list(range(n - 2)) + [n - 1, n - 2]]), ("flip", [[n - 1 - i for i in range(n)]])):
            G = [[list(a), list(b)] for a, b in g.close([(p, base) for p in gens], n, 6)]
            for k in range(5, n + 1):
                pal = list(g.palettes(n, k))
                for concs in rng.sample(pal, min(len(pal), 3 if quick else 12)):
                    many.append(colr.case("%s%d" % (nm, n), G, colr.plain(k), concs))
    for _ in range(120 if quick else 150):
        n = rng.randint(5, 8)
        k = rng.randint(5, n)
        many.append(colr.case("rnd%d" % n, g.random_group(rng, n, arrows=False), colr.plain(k), rng.choice(list(g.palettes(n, k)))))
    for nm, G, n in colr.lat_groups(ctx, ["sc", "fcc", "tet", "mon", "hex"], (5, 6), 1 if quick else 4, False):
        for k in range(5, n + 1):
            for concs in g.palettes(n, k):
                many.append(colr.case(nm, G, colr.plain(k), concs, nt=n))
    many = colr.budget(rng, many, 12000 if quick else 60000, 900000 if quick else 3000000)
    for _ in range(120 if quick else 400):
        n = rng.randint(2, 9)
        G = g.random_group(rng, n, arrows=False)
        k = rng.randint(1, min(n, 5))
        concs = rng.choice(list(g.palettes(n, k)))
        cases.append(colr.case("rnd%s" % G[1:4], G, colr.plain(k), concs))
    cases = colr.budget(rng, cases, 20000 if quick else 120000, 1200000 if quick else 6000000)
    # species numbers need not be 1..k in order
    cases += many
    for i in cases:
        if rng.random() < .3:
            perm = list(range(1, len(i["cols"]) + 1))
            rng.shuffle(perm)
            i["cols"] = [[p, 0] for p in perm]
            i["key"] += " species%s" % perm
    return [{"spec": "T_Color", "cfg": "T_C01.cfg", "inputs": cases + small, "cpu": 120}]


def execute(inp):
    st, full, note = colr.run(inp, True)
    if st != "ok":
        return {"st": st, "note": note}
    return {"st": "ok", "full": full, "nontrivial": len(inp["cols"]) > 1 and len(inp["G"]) > 1}
