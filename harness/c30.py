"""C30: closing generators."""
import copy, itertools
from engine import guarded, ints
import crystals as C
import groups as g
import colr
ASSUMPTIONS = ["generators are permutations of 0..n-1 (or 1..n for polyaburnside.group)",
               "permutations of sites and of directions are multiplied component by component"]
DESIGN = [{"module": "MC_Closure.tla", "cfg": "MC_Closure.cfg"}, {"module": "MC_Closure.tla", "cfg": "MC_Closure_4.cfg"}]


def mulclose(gens, n, m, lim):
    """Group order by direct multiplication (to keep the cases small)."""
    gens = [(tuple(a), tuple(b)) for a, b in gens]
    done = {(tuple(range(n)), tuple(range(m)))}
    front = list(done)
    while front:
        new = []
        for h in front:
            for x in gens:
                c = (tuple(h[0][i] for i in x[0]), tuple(h[1][i] for i in x[1]))
                if c not in done:
                    done.add(c)
                    new.append(c)
        if len(done) > lim:
            return None
        front = new
    return done


def suites(ctx):
    rng, quick = ctx["rng"], ctx["tier"] == "quick"
    lim = 130 if quick else 400
    ins = []

    def add(kind, **k):
        k["kind"] = kind
        ins.append(k)

    def rndgens(n, m, k):
        gens = []
        for _ in range(k):
            p = list(range(n))
            c = rng.random()
            if c < .45 and n > 1:
                ix = rng.sample(range(n), rng.randint(2, n))
                for x, y in zip(ix, ix[1:] + ix[:1]):
                    p[x] = y
            elif c < .9:
                rng.shuffle(p)
            a = list(range(m))
            if m == 6 and rng.random() < .6:
                a = g.random_dirperm(rng, 6)
            elif m > 1 and rng.random() < .5:
                rng.shuffle(a)
            gens.append([p, a])
        return gens
    # every set of one or two generators on up to three sites
    for n in (1, 2, 3):
        ps = [list(p) for p in itertools.permutations(range(n))]
        for a in ps:
            add("pairs", n=n, m=1, gens=[[a, [0]]])
            add("sites", n=n, m=1, gens=[[a, [0]]], base=0)
            for b in ps:
                add("pairs", n=n, m=1, gens=[[a, [0]], [b, [0]]])
                add("sites", n=n, m=1, gens=[[a, [0]], [b, [0]]], base=rng.choice([0, 1]))
    ps = [[list(p), [0]] for p in itertools.permutations(range(4))]
    for a in (rng.sample(ps, 12) if quick else ps):
        add("pairs", n=4, m=1, gens=[a])
        add("sites", n=4, m=1, gens=[a], base=rng.choice([0, 1]))
    # groups whose elements need long words: two mirrors of a polygon, neighbouring exchanges
    for n in ((9, 17, 24, 40) if quick else (9, 17, 24, 40, 61, 90)):
        two = [[[-x % n for x in range(n)], [0, 1]], [[(1 - x) % n for x in range(n)], [1, 0]]]
        add("pairs", n=n, m=2, gens=two)
        add("sites", n=n, m=1, gens=[[p, [0]] for p, _ in two], base=rng.choice([0, 1]))
        shift = [[(x + 1) % n for x in range(n)], [0, 1]]
        add("pairs", n=n, m=2, gens=[shift])
        add("pairs", n=n, m=2, gens=[shift, two[0]])
    # more than two hundred elements
    for n in (150, 260):
        two = [[[-x % n for x in range(n)], [0, 1]], [[(1 - x) % n for x in range(n)], [1, 0]]]
        add("pairs", n=n, m=2, gens=[[[(x + 1) % n for x in range(n)], [1, 0] if n % 4 == 0 else [0, 1]]])
        add("sites", n=n, m=1, gens=[[p, [0]] for p, _ in (two if n < 200 else [[[(x + 1) % n for x in range(n)], 0]])], base=n // 10 % 2)
    six = [[[(x + 1) % 6 for x in range(6)], [0]], [[1, 0, 2, 3, 4, 5], [0]]]
    add("pairs", n=6, m=1, gens=six)
    add("sites", n=6, m=1, gens=six, base=1)
    for nm, G, n in colr.lat_groups(ctx, ["sc", "fcc"], (8, 9), 1, True):
        one = {}
        for p, a in G:
            one.setdefault(tuple(a), [p, a])
        al = [[x[0], list(range(6))] for x in G[:n]]
        add("products", n=len(G[0][0]), m=6, trans=[x[0] for x in al], rots=list(one.values()), gens=[])
        add("both", n=len(G[0][0]), m=6, trans=[x[0] for x in al[:2]], rots=list(one.values())[:3], gens=[])
    for n in (4, 5):
        ex = [[[{i: i + 1, i + 1: i}.get(x, x) for x in range(n)], [0]] for i in range(n - 1)]
        add("pairs", n=n, m=1, gens=ex)
        add("sites", n=n, m=1, gens=ex, base=rng.choice([0, 1]))
    want = 500 if quick else 1500
    tries = 0
    while want and tries < 40000:
        tries += 1
        n = rng.randint(2, 9)
        m = rng.choice([1, 1, 2, 3, 6, 6])
        kind = rng.choice(["pairs", "pairs", "sites", "products", "both"])
        if kind == "sites":
            m = 1
        gens = rndgens(n, m, rng.choice([1, 1, 2, 2, 3, 4]))
        if rng.random() < .25:
            gens.append(copy.deepcopy(rng.choice(gens)))
        if rng.random() < .15:
            gens.insert(rng.randrange(len(gens) + 1), [list(range(n)), list(range(m))])
        if kind in ("products", "both"):
            trans = [x[0] for x in rndgens(n, 1, rng.choice([1, 2, 3]))]
            al = [[t, list(range(m))] for t in trans]
            prods = [[[r[0][i] for i in t[0]], r[1]] for t in al for r in gens]
            if kind == "both" and mulclose(prods, n, m, lim) is None:
                continue
            add(kind, n=n, m=m, trans=trans, rots=gens, gens=[])
        else:
            if mulclose(gens, n, m, lim) is None:
                continue
            if kind == "sites":
                add(kind, n=n, m=1, gens=gens, base=rng.choice([0, 1]))
            else:
                add(kind, n=n, m=m, gens=gens)
        want -= 1
    # the supercell groups themselves: closing a generating part gives them back
    for nm, G, n in colr.lat_groups(ctx, ["sc", "fcc", "cscl", "tet", "ort"], (2, 3, 4), 1 if quick else 3, True):
        N = len(G[0][0])
        if len(G) <= lim:
            add("products", n=N, m=6, trans=[x[0] for x in G[:n]], rots=G[n:] + G[:1], gens=[])
            site = [[x[0], [0]] for x in G]
            part = rng.sample(site, min(len(site), rng.randint(1, 4)))
            add("sites", n=N, m=1, gens=part, base=rng.choice([0, 1]))
            add("pairs", n=N, m=1, gens=part)
    return [{"spec": "T_C30", "inputs": ins, "cpu": 120}]


def execute(inp):
    def go():
        from phenum import grouptheory as gt, polyaburnside as pb
        k = inp["kind"]
        if k == "sites":
            gens = [[x + inp["base"] for x in p[0]] for p in inp["gens"]]
            return [[ints(x), [0]] for x in pb.group(gens)]
        if k == "pairs":
            out = gt._group(copy.deepcopy(inp["gens"]))
        elif k == "products":
            out = gt.a_group(copy.deepcopy(inp["trans"]), copy.deepcopy(inp["rots"]))
        else:
            out = gt.a_group_gen(copy.deepcopy(inp["trans"]), copy.deepcopy(inp["rots"]))
        return [[ints(p), ints(a)] for p, a in out]
    st, out, _ = guarded(go)
    if st != "ok":
        return {"st": st, "note": out}
    return {"st": "ok", "out": out, "nontrivial": len(out) > 1}
