"""C03: Polya counts."""
import copy, random
from engine import guarded
import crystals as C
import groups as g
import colr
from c02 import arrow_cases
ASSUMPTIONS = ["predictions below 2^100 (checked modulo eight primes)", "groups as in C01/C04"]
DESIGN = []
P8 = [32749, 32719, 32717, 32713, 32707, 32693, 32687, 32653]


def suites(ctx):
    rng, quick = ctx["rng"], ctx["tier"] == "quick"
    base = list(range(6))
    out = []

    def add(i, tiny=None):
        if i["key"] in seen:
            return
        seen.add(i["key"])
        i["cols"] = sorted(i["cols"], key=lambda c: c[1])        # the code wants displaced colours last
        i["tiny"] = g.fold(i["cols"], i["concs"], i["dim"]) <= 600 and (len(i["cols"]) + 5 * sum(c[1] for c in i["cols"])) ** i["n"] <= 3000
        i["form"] = rng.choice(["int", "bool"])
        i["base1"] = rng.random() < .2 and all(c[1] == 0 for c in i["cols"])
        i["seed"] = rng.randrange(10 ** 6)
        out.append(i)
    seen = set()

    def pal(i):
        # reorder concs along with the colours
        z = sorted(zip(i["cols"], i["concs"]), key=lambda t: t[0][1])
        i["cols"], i["concs"] = [a for a, b in z], [b for a, b in z]
        return i
    for n in (1, 2, 3, 4):
        subs = g.all_subgroups(n)
        for G in (rng.sample(subs, min(30, len(subs))) if quick else subs):
            for k in range(1, n + 1):
                for concs in g.palettes(n, k):
                    add(colr.case("S%d|%d|%s" % (n, len(G), G[:3]), [[p, base] for p in G], colr.plain(k), concs))
    for nm, G, n in colr.lat_groups(ctx, ["sc", "fcc", "bcc", "cscl", "sc_edge", "diamond", "sc_cyc", "tet"], (1, 2, 3, 4), 1 if quick else 4, True):
        cs = arrow_cases(rng, nm, G, n)
        for i in rng.sample(cs, min(len(cs), 5 if quick else 20)):
            add(pal(i))
    for _ in range(150 if quick else 500):
        n, dim = rng.randint(2, 9), rng.choice([6, 6, 4, 3, 2])
        G = g.random_group(rng, n, dim=dim)
        cs = arrow_cases(rng, "rnd%s" % G[1:3], G, 1, dim)
        add(pal(rng.choice(cs)))
        k = rng.randint(1, min(n, 5))
        add(colr.case("rnd%s" % G[1:3], G, colr.plain(k), rng.choice(list(g.palettes(n, k))), dim=dim))
    # many colours
    for _ in range(16 if quick else 60):
        n = rng.randint(6, 10)
        k = rng.randint(5, min(n, 8))
        arrows = rng.random() < .4
        G = g.random_group(rng, n, arrows=arrows)
        concs = [1] * k
        for _ in range(n - k):
            concs[rng.randrange(k)] += 1
        add(pal(colr.case("many%s" % G[1:3], G, [[s, int(arrows and rng.random() < .4)] for s in range(1, k + 1)], concs)))
    # zero counts
    for _ in range(10):
        n = rng.randint(2, 7)
        G = g.random_group(rng, n, arrows=False)
        c = rng.choice(list(g.palettes(n, 2)))
        c.insert(rng.randrange(3), 0)
        add(colr.case("rnd0%s" % G[1:3], G, colr.plain(3), c))
    # large cells: counts beyond 2^53
    big = [("sc", 1, 64, 2), ("fcc", 1, 62, 2), ("sc", 1, 40, 3), ("hex", 1, 48, 2), ("tri", 1, 70, 2), ("bcc", 1, 36, 3), ("tri", 1, 24, 4),
           ("mon", 1, 60, 2), ("hcp", 1, 32, 2), ("tri", 1, 90, 2)]
    for nm, per, n, k in big:
        c = C.crystal(nm)
        h = rng.choice([x for x in C.all_hnfs(n) if x[0] == 1] or C.all_hnfs(n))
        G = g.lattice_group(c, h, False)
        N = len(G[0][0])
        concs = [N // k] * (k - 1)
        concs.append(N - sum(concs))
        add(colr.case("%s h=%s" % (nm, h), G, colr.plain(k), concs, nt=n))
        concs = [max(1, N // (k + 3))] * (k - 1)
        concs.append(N - sum(concs))
        add(colr.case("%s h=%s" % (nm, h), G, colr.plain(k), concs, nt=n))
    # a few sites moved, many left alone: operations with cycles of different lengths and large coefficients
    for m, N, k in ((2, 70, 2), (3, 66, 2), (4, 80, 2), (3, 50, 3), (4, 45, 3), (5, 72, 2), (2, 36, 4), (6, 64, 2)):
        for arrows in ((False, True) if N < 60 or not quick else (False,)):
            G0 = g.random_group(rng, m, arrows=arrows)
            G = [[list(p) + list(range(m, N)), a] for p, a in G0]
            if len(G) > 60:
                continue
            concs = [N // k + rng.randint(-2, 2) for _ in range(k - 1)]
            concs.append(N - sum(concs))
            cols = colr.plain(k)
            if arrows:
                cols = cols[:-1] + [[k, 1]]
                concs[-1] = rng.randint(3, 9)
                concs[0] += N - sum(concs)
            add(colr.case("emb%d%s" % (m, G0[1:3]), G, cols, concs))
    for nm, n in (("sc", 24), ("fcc", 16), ("tet", 20), ("ort", 30)):
        c = C.crystal(nm)
        h = rng.choice(C.all_hnfs(n))
        G = g.lattice_group(c, h, True)
        add(colr.case("%s h=%s" % (nm, h), G, [[1, 0], [1, 1]], [n // 3, n - n // 3], nt=n))
        add(colr.case("%s h=%s" % (nm, h), G, [[1, 0], [2, 1]], [n // 2, n - n // 2], nt=n))
        add(colr.case("%s h=%s" % (nm, h), G, [[1, 1]], [n], nt=n))
    # groups of one generator with chosen cycles on the sites and on the directions: every way one length may divide another
    for dim, dcyc in ((6, (4, 1, 1)), (6, (4, 2)), (6, (2, 2, 2)), (6, (3, 3)), (6, (6,)), (6, (2, 2, 1, 1)), (6, (2, 1, 1, 1, 1)), (4, (4,)), (4, (3, 1)), (3, (3,)), (2, (2,))):
        for _ in range(3 if quick else 12):
            cyc = rng.choice([(8,), (4, 4), (8, 4), (12,), (6, 3), (9,), (3, 3, 2), (6, 6), (8, 2), (4, 2, 1), (6, 2), (12, 4), (9, 3), (2, 2, 2), (16,), (10, 5), (8, 4, 2, 1)])
            n = sum(cyc)
            G = g.close([(g.with_cycles(cyc), g.with_cycles(dcyc))], n, dim)
            k = rng.randint(1, 3)
            # numbers of sites that leave colourings fixed under the whole group or its larger elements
            cols = [[s, rng.randint(0, 1)] for s in range(1, k + 1)]
            cols[rng.randrange(k)][1] = 1
            cnt = [0] * k
            for c in cyc:
                cnt[rng.randrange(k)] += c
            if 0 in cnt:
                cols, cnt = zip(*[(a, b) for a, b in zip(cols, cnt) if b])
                if not any(a[1] for a in cols):
                    cols = [[cols[0][0], 1]] + list(cols[1:])
            add(pal(colr.case("cyc%s%s" % (cyc, dcyc), [[list(p), list(a)] for p, a in G], [list(c) for c in cols], list(cnt), dim=dim)))
    # a displaced species on sites whose cycle is a multiple of the longest cycle of the directions
    for dim, dcyc in ((6, (4, 1, 1)), (6, (4, 2)), (6, (2, 2, 2)), (6, (3, 3)), (6, (6,)), (6, (2, 2, 1, 1)), (4, (4,)), (4, (3, 1)), (2, (2,))):
        for mult, rest in ((1, 0), (2, 1), (1, 3)) if quick else ((1, 0), (2, 1), (1, 3), (3, 0), (1, 1), (2, 2)):
            m = mult * max(dcyc)
            cyc = (m,) + ((rest,) if rest else ())
            G = g.close([(g.with_cycles(cyc), g.with_cycles(dcyc))], sum(cyc), dim)
            cols, cnt = ([[1, 0], [2, 1]], [rest, m]) if rest else ([[1, 1]], [m])
            add(colr.case("long%s%s" % (cyc, dcyc), [[list(p), list(a)] for p, a in G], cols, cnt, dim=dim))
    out.sort(key=lambda i: -len(i["G"]) * i["n"] ** len(i["cols"]))
    return [{"spec": "T_C03", "inputs": out, "cpu": 120}]


def execute(inp):
    from phenum.polyaburnside import polya
    from math import isqrt
    r = {}
    ar = [bool(c[1]) for c in inp["cols"]]
    rnd = random.Random(inp["seed"])
    vals = []
    for turn in (0, 1):
        G = copy.deepcopy(inp["G"])
        if turn:
            rnd.shuffle(G)
        if inp["base1"]:
            G = [[[x + 1 for x in p], a] for p, a in G]
        arg = sum(ar) if inp["form"] == "int" else ar
        if not any(ar) and rnd.random() < .5:
            arg = None
        st, v, out = guarded(polya, list(inp["concs"]), G, arrowings=arg)
        if st != "ok":
            return {"st": st, "note": str(v) + out}
        if int(v) != v or not 0 <= int(v) < 2 ** 110:
            return {"st": "not a count"}
        vals.append(int(v))
    return {"st": "ok", "pred": min(vals[0], 2 ** 30), "predr": [vals[0] % p for p in P8], "again": [vals[1] % p for p in P8],
            "nontrivial": vals[0] > 1}
