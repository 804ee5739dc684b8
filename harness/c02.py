"""C02: superperiodic structures are excluded, and nothing else."""
import copy, random
from engine import guarded
import groups as g
import crystals as C
import colr
ASSUMPTIONS = ["the translations come first in the group and are normal in it (true of every supercell group)"]
DESIGN = []


def suites(ctx):
    rng, quick = ctx["rng"], ctx["tier"] == "quick"
    cases = []
    for nm, G, n in colr.lat_groups(ctx, ["sc", "fcc", "bcc", "hex", "tet", "mon"], (2, 3, 4, 6) if quick else (2, 3, 4, 5, 6, 7, 8), 2 if quick else 5, False):
        for k in (1, 2, 3):
            for concs in g.palettes(n, k) if n >= k else []:
                cases.append(colr.case(nm, G, colr.plain(k), concs, nt=n))
    for nm, G, n in colr.lat_groups(ctx, ["diamond", "hcp", "cscl", "sc_edge"], (2, 3, 4), 1 if quick else 3, False):
        N = len(G[0][0])
        for k in (2, 3):
            for concs in g.palettes(N, k):
                cases.append(colr.case(nm, G, colr.plain(k), concs, nt=n))
    for nm, G, n in colr.lat_groups(ctx, ["sc", "fcc", "bcc", "tet", "ort", "cscl", "diamond"], (1, 2, 3, 4), 2 if quick else 5, True):
        cases += arrow_cases(rng, nm, G, n)
    for _ in range(40 if quick else 300):
        n, nd = rng.choice([(2, 1), (3, 1), (4, 1), (4, 2), (6, 1), (2, 2), (2, 3), (3, 2), (8, 1), (5, 1), (9, 1)])
        G = g.affine_group(rng, n, nd)
        N = n * nd
        k = rng.randint(1, min(N, 4))
        concs = rng.choice(list(g.palettes(N, k)))
        if rng.random() < .5 and N <= 6:
            cases += arrow_cases(rng, "aff%d.%d %s" % (n, nd, G[n:n + 2]), G, n)[:6]
        else:
            cases.append(colr.case("aff%d.%d %s" % (n, nd, G[n:n + 2]), G, colr.plain(k), concs, nt=n))
    # translations that are not cyclic, every atom displaced: always there
    must = []
    for nm, h in [("sc", [2, 0, 2, 0, 0, 1]), ("ort", [1, 0, 2, 0, 0, 2]), ("tet", [2, 0, 1, 0, 0, 2])]:
        c = C.crystal(nm)
        if c.lat.aint is None:
            continue
        G = g.lattice_group(c, h, True)
        must += [colr.case("%s h=%s" % (nm, h), G, [[1, 1]], [4], nt=4),
                 colr.case("%s h=%s" % (nm, h), G, [[1, 0], [2, 1]], [2, 2], nt=4)]
    # displaced atoms that only one of the later translations repeats
    for n, hs in ((6, ([1, 0, 1, 0, 0, 6], [1, 0, 6, 0, 0, 1])), (8, ([1, 0, 2, 0, 0, 4], [2, 0, 2, 0, 0, 2], [1, 0, 1, 0, 3, 8]))):
        for h in hs:
            nm = rng.choice(["sc", "fcc", "bcc", "tet", "ort"])
            c = C.crystal(nm)
            if c.lat.aint is None:
                continue
            G = g.lattice_group(c, h, True)
            m = 2 if n == 8 else rng.choice([2, 3])
            must.append(colr.case("%s h=%s" % (nm, h), G, [[1, 0], rng.choice([[1, 1], [2, 1]])], [n - m, m], nt=n))
    # the same on larger cells with two directions that no operation exchanges
    for n, m, h in ((8, 4, [1, 0, 1, 0, 0, 8]), (9, 3, [1, 0, 3, 0, 0, 3]), (9, 3, [1, 0, 1, 0, 0, 9]), (10, 2, [1, 0, 10, 0, 0, 1]), (12, 2, [1, 0, 2, 0, 0, 6]),
                    (12, 3, [2, 0, 2, 0, 0, 3]), (14, 2, [1, 0, 1, 0, 0, 14]), (16, 2, [1, 0, 2, 0, 0, 8]), (16, 2, [2, 0, 2, 0, 0, 4]), (15, 3, [1, 0, 1, 0, 0, 15])):
        nm = rng.choice(["ort", "mon", "tri", "hex", "tet"])
        G = [[p, [0, 1]] for p, _ in g.lattice_group(C.crystal(nm), h, False)]
        must.append(colr.case("2 directions %s h=%s" % (nm, h), G, [[1, 0], rng.choice([[1, 1], [2, 1]])], [n - m, m], nt=n, dim=2))
    # larger cells, numbers of atoms that a translation can repeat
    large = []
    for n, nd in ((9, 1), (9, 1), (10, 1), (12, 1), (12, 1), (15, 1), (16, 1), (5, 2), (4, 3), (3, 4), (3, 5), (5, 3), (6, 2), (6, 2)):
        for _ in range(1 if quick else 8):
            pals = [p for k in (2, 3) for p in g.palettes(n * nd, k)
                    if any(n % q == 0 and all(x % q == 0 for x in p) for q in (2, 3, 5)) and g.fold(colr.plain(k), p, 6) <= (2000 if quick else 7000)]
            for concs in rng.sample(pals, min(len(pals), 2)):
                if nd == 1:
                    nm = rng.choice(["sc", "fcc", "bcc", "hex", "tet", "ort", "mon", "tri"])
                    h = rng.choice(C.all_hnfs(n))
                    nm, G = "%s h=%s" % (nm, h), g.lattice_group(C.crystal(nm), h, False)
                else:
                    G = g.affine_group(rng, n, nd)
                    nm = "aff%d.%d %s" % (n, nd, G[n:n + 2])
                large.append(colr.case(nm, G, colr.plain(len(concs)), concs, nt=n))
    must += colr.budget(rng, large, 40000 if quick else 120000, 200000 if quick else 4000000)
    # the search by guessing: groups of translations that are not cyclic among them
    guess = []
    for nm, h in [("sc", [2, 0, 2, 0, 0, 1]), ("tet", [2, 0, 1, 0, 0, 2]), ("ort", [1, 0, 2, 0, 0, 2]), ("ort", [2, 0, 2, 0, 0, 2]),
                  ("tri", [2, 0, 2, 0, 0, 2]), ("mon", [2, 0, 1, 0, 0, 4]), ("fcc", [2, 0, 2, 0, 0, 2]), ("ort", [1, 0, 2, 0, 0, 4])] + \
                 [(rng.choice(["sc", "ort", "mon", "hex", "tri", "bcc"]), rng.choice(C.all_hnfs(n)))
                  for n in (3, 4, 5, 6, 6, 8) for _ in range(1 if quick else 6)]:
        n = h[0] * h[2] * h[5]
        arr = n <= 4 and C.crystal(nm).lat.aint is not None
        G = g.lattice_group(C.crystal(nm), h, arr)
        pals = [p for k in (2, 3) if k <= n for p in g.palettes(n, k)]
        for concs in pals if n <= 4 else rng.sample(pals, min(len(pals), 3)):
            guess.append(colr.case("%s h=%s" % (nm, h), G, colr.plain(len(concs)), sorted(concs), nt=n))
        if arr:
            cs = arrow_cases(rng, "%s h=%s" % (nm, h), G, n)
            guess += rng.sample(cs, min(4, len(cs)))
    for n, m, h in ((8, 2, [1, 0, 2, 0, 0, 4]), (8, 4, [1, 0, 1, 0, 0, 8]), (9, 3, [1, 0, 3, 0, 0, 3]), (10, 2, [1, 0, 1, 0, 0, 10]), (12, 2, [1, 0, 2, 0, 0, 6])):
        nm = rng.choice(["ort", "mon", "tri", "hex", "tet"])
        G = [[p, [0, 1]] for p, _ in g.lattice_group(C.crystal(nm), h, False)]
        guess.append(colr.case("2 directions %s h=%s" % (nm, h), G, [[1, 0], rng.choice([[1, 1], [2, 1]])], [n - m, m], nt=n, dim=2))
    guess = colr.budget(rng, guess, 6000 if quick else 60000, 120000 if quick else 1500000)
    for i in guess:
        i["guess"] = rng.choice([1, 3, 10, 10 ** 6, 10 ** 6]) if i["dim"] == 6 else 10 ** 6
        i["seed"] = rng.randrange(10 ** 6)
        i["key"] = "guess %s %s wanted=%d seed=%d" % (i["key"], i["concs"], i["guess"], i["seed"])
    return [{"spec": "T_Color", "cfg": "T_C02.cfg", "cpu": 240,
             "inputs": must + colr.budget(rng, cases, 16000 if quick else 120000, 420000 if quick else 6000000)},
            {"spec": "T_Color", "cfg": "T_C02g.cfg", "cpu": 240, "inputs": guess}]


def arrow_cases(rng, nm, G, n, dim=6):
    """palettes with displaced colours: whole species or part of a species"""
    N = len(G[0][0])
    out = []
    for k in (1, 2, 3):
        if k > N:
            continue
        for concs in g.palettes(N, k):
            for mask in range(1, 2 ** k):
                # colours: split each species at random into displaced and not
                cols = [[s + 1, 1 if mask >> s & 1 else 0] for s in range(k)]
                i = colr.case(nm, G, cols, concs, nt=n, dim=dim)
                out.append(i)
    # one species, part of it displaced
    for m in range(1, N):
        out.append(colr.case(nm, G, [[1, 0], [1, 1]], [m, N - m], nt=n, dim=dim))
        if N - m > 1:
            out.append(colr.case(nm, G, [[2, 0], [1, 0], [1, 1]], [m, 1, N - m - 1], nt=n, dim=dim))
            out.append(colr.case(nm, G, [[1, 1], [2, 0], [1, 0]], [1, m, N - m - 1], nt=n, dim=dim))
    return out


def execute(inp):
    from phenum.tree import guess_and_check_brancher
    st, full, note = colr.run(inp, True)
    if st != "ok":
        return {"st": st, "note": note}
    if "guess" in inp:
        random.seed(inp["seed"])
        st, v, note = guarded(guess_and_check_brancher, list(inp["concs"]), copy.deepcopy(inp["G"]), g.decorate(inp["cols"], inp["concs"]),
                              inp["dim"], False, inp["nt"], inp["guess"])
        if st != "ok":
            return {"st": st, "note": str(v) + note}
        return {"st": "ok", "full": full, "guess": g.encode(v), "wanted": inp["guess"], "nontrivial": 0 < len(v) < len(full)}
    st, prim, note = colr.run(inp, False)
    if st != "ok":
        return {"st": st, "note": note}
    return {"st": "ok", "full": full, "prim": prim, "nontrivial": len(prim) != len(full)}
