"""C12: a requested random sample."""
import copy, random
from engine import guarded
import crystals as C
import groups as g
import colr
from c02 import arrow_cases
ASSUMPTIONS = ["seeds drawn from the check's seed; groups as in C02; the supercell group used by enum_sys is the library's own (its exactness is C08/C09)"]
DESIGN = []
P3 = [32749, 32719, 32717]


def lib_group(c, h, arrows):
    from phenum.grouptheory import get_sym_group
    i = c.inp()
    x = get_sym_group(copy.deepcopy(i["_rows"]), C.cart_basis(i), C.full(h), 3, arrows=arrows)
    return [[[int(y) for y in p], [int(y) for y in a]] for p, a in zip(x.perm.site_perm, x.perm.arrow_perm)]


def suites(ctx):
    rng, quick = ctx["rng"], ctx["tier"] == "quick"
    out = []

    def add(i, kind, wanted, supers):
        j = dict(i)
        j.update(kind=kind, wanted=wanted, supers=supers, seed=rng.choice([0, rng.randrange(10 ** 6), rng.randrange(10 ** 6)]))
        j["key"] = "%s %s wanted=%d supers=%s seed=%d" % (i["key"], kind, wanted, supers, j["seed"])
        out.append(j)
    # direct calls on groups
    base = []
    for nm, G, n in colr.lat_groups(ctx, ["sc", "fcc", "hex", "bcc", "tet"], (3, 4, 6, 8), 1 if quick else 4, False):
        for k in (2, 3):
            for concs in rng.sample(list(g.palettes(n, k)), min(2, len(list(g.palettes(n, k))))):
                base.append(colr.case(nm, G, colr.plain(k), sorted(concs), nt=n))
    for nm, G, n in colr.lat_groups(ctx, ["sc", "fcc", "bcc", "cscl"], (1, 2, 3, 4), 1 if quick else 3, True):
        cs = arrow_cases(rng, nm, G, n)
        base += rng.sample(cs, min(3 if quick else 8, len(cs)))
    for _ in range(12 if quick else 120):
        n = rng.choice([2, 3, 4, 6])
        G = g.affine_group(rng, n, rng.choice([1, 1, 2]) if n < 6 else 1)
        N = len(G[0][0])
        cs = arrow_cases(rng, "aff%d %s" % (n, G[n:n + 2]), G, n)
        base.append(rng.choice(cs))
        k = rng.randint(1, min(3, N))
        base.append(colr.case("aff%d %s" % (n, G[n:n + 2]), G, colr.plain(k), sorted(rng.choice(list(g.palettes(N, k)))), nt=n))
    for i in base:
        if g.fold(i["cols"], i["concs"], 6) > 20000:
            continue
        t = g.classes_of(i["G"], i["cols"], i["concs"])
        ws = {1, t, t + 3, rng.randint(1, t), rng.randint(1, t)}
        for w in ws:
            if w > 150:
                continue
            supers = rng.random() < .6
            add(i, "guess", w, supers)
            if w < t:
                add(i, "subset", w, rng.random() < .6)
    # arrows on a colouring that is fixed (one species)
    for nm, G, n in colr.lat_groups(ctx, ["sc", "fcc", "bcc"], (1, 2, 3), 1 if quick else 3, True):
        i = colr.case(nm, G, [[1, 1]], [n], nt=n)
        t = g.classes_of(G, i["cols"], i["concs"])
        for w in {1, 2, t, t + 2, max(1, t // 2)}:
            add(i, "arrows", w, rng.random() < .6)
    # whole path through enum_sys
    for nm in ["sc", "fcc", "hex", "cscl", "bcc", "diamond", "tet"]:
        for n in ((2, 4) if quick else (2, 3, 4, 5, 6)):
            for h in rng.sample(C.all_hnfs(n), 1 if quick else 3):
                c = C.crystal(nm)
                N = n * len(c.D)
                arr = c.lat.aint is not None and N <= 4
                for _ in range(2):
                    k = rng.randint(1, 3 if N >= 3 else 2)
                    concs = list(rng.choice(list(g.palettes(N, k))))
                    if rng.random() < .3:
                        concs.insert(rng.randrange(len(concs) + 1), 0)
                    ac = [0.0] * len(concs)
                    cols, cc = [], []
                    for s, m in enumerate(concs):
                        fr = rng.choice([0, 0, 1.0, .5]) if arr else 0
                        if fr == .5 and m % 2:
                            fr = 1.0
                        ac[s] = float(fr)
                        d = int(round(m * fr))
                        for q, mm in ((0, m - d), (1, d)):
                            if mm:
                                cols.append([s + 1, q])
                                cc.append(mm)
                    G = lat_G(nm, h, arr and any(ac))
                    i = colr.case("%s h=%s" % (nm, h), G, cols, cc, nt=n, conc=concs, aconc=ac, h=h, crystal=nm, lib=1)
                    if g.fold(cols, cc, 6) > 200000:
                        continue
                    t = g.classes_of(G, cols, cc)
                    for w in {1, t, t + 5, rng.randint(1, t)}:
                        if w <= 200:
                            add(i, "enum_sys", w, rng.random() < .7)
    # large cells, where structures are guessed
    big = [("sc", [1, 0, 2, 2, 0, 6], [2, 2, 3, 5], None), ("sc", [1, 0, 1, 2, 6, 12], [2, 4, 6], [0, 1.0, .5]),
           ("fcc", [1, 0, 2, 1, 3, 6], [3, 4, 5], [0, 0, 0.2]), ("sc", [1, 0, 1, 3, 1, 12], [12], [1.0]), ("sc", [1, 0, 1, 3, 1, 12], [1, 11], [1.0, 0]),
           ("bcc", [2, 0, 2, 0, 0, 4], [3, 3, 4, 6], None), ("cscl", [1, 0, 2, 1, 0, 4], [4, 5, 7], None), ("sc", [1, 0, 1, 0, 3, 13], [13], [1.0])]
    for nm, h, concs, ac in big:
        ac = ac or [0.0] * len(concs)
        n = h[0] * h[2] * h[5]
        cols, cc = [], []
        for s, m in enumerate(concs):
            d = int(round(m * ac[s]))
            for q, mm in ((0, m - d), (1, d)):
                if mm:
                    cols.append([s + 1, q])
                    cc.append(mm)
        G = lat_G(nm, h, any(ac))
        i = colr.case("%s h=%s" % (nm, h), G, cols, cc, nt=n, conc=concs, aconc=ac, h=h, crystal=nm, lib=1)
        t = g.classes_of(G, cols, cc)
        for w in ((3, 60) if quick else (1, 10, 50, 100)):
            if w <= t or t < 30:
                for sup in (True, False):
                    add(i, "enum_sys", w, sup)
        if t < 100:
            add(i, "enum_sys", t, True)
    # a very large number of structures
    huge = [("tri2", [1, 0, 1, 1, 2, 4], [4, 4], [1.0, 1.0], None), ("tri1", [1, 0, 1, 1, 2, 9], [4, 5], [1.0, 1.0], None),
            ("mon2", [1, 0, 1, 0, 1, 5], [3, 7], [1.0, 1.0], None), ("ort", [1, 0, 1, 3, 2, 10], [10], [1.0], None),
            ("ort", [1, 0, 1, 3, 7, 16], [3, 4, 4, 5], [0.0] * 4, .5), ("ort", [1, 0, 1, 3, 7, 16], [3, 4, 4, 5], [0.0] * 4, .02)]
    for nm, h, concs, ac, acc in huge:
        n = h[0] * h[2] * h[5]
        cols, cc = [], []
        for s, m in enumerate(concs):
            cols.append([s + 1, 1 if ac[s] else 0])
            cc.append(m)
        i = colr.case("huge %s h=%s accept=%s" % (nm, h, acc), lat_G(nm, h, any(ac)), cols, cc, nt=n, conc=concs, aconc=ac, h=h,
                      crystal=nm, lib=1, **({} if acc is None else {"accept": acc}))
        for w in ((7, 40) if any(ac) else (110,)):
            add(i, "enum_sys", w, acc is None or rng.random() < .5)
    # thousands of structures known, nearly all of them asked for
    for N, step, concs in ((10, 5, [3, 3, 4]), (10, 10, [2, 3, 5]), (9, 3, [2, 3, 4]), (12, 4, [1, 4, 7]), (8, 8, [1, 2, 2, 3]))[:3 if quick else 5]:
        G = [[[(j + a) % N for j in range(N)], list(range(6))] for a in range(0, N, step)]
        i = colr.case("cycle%d/%d" % (N, step), G, colr.plain(len(concs)), concs, nt=N // step)
        t = g.classes_of(G, i["cols"], concs)
        add(i, "guess", int(t * rng.uniform(.8, .95)), True)
        add(i, "guess", int(t * rng.uniform(.3, .9)), False)
    # brancher with a rate of acceptance of one
    for i in rng.sample(base, min(len(base), 12 if quick else 80)):
        if g.fold(i["cols"], i["concs"], 6) > 20000:
            continue
        t = g.classes_of(i["G"], i["cols"], i["concs"])
        for w in {1, t, rng.randint(1, t)}:
            if w <= 150:
                add(i, "accept", w, True)
        if t <= 150:
            j = dict(i, nosub=1)
            add(j, "accept", t, True)
    # the one input on which the library is known to return the wrong composition
    G = lat_G("sc", [1, 0, 2, 2, 0, 6], False)
    i = colr.case("sc h=[1, 0, 2, 2, 0, 6]", G, [[3, 0], [4, 0], [1, 0], [2, 0]], [2, 2, 3, 5], nt=12, conc=[3, 5, 2, 2],
                  aconc=[0.0] * 4, h=[1, 0, 2, 2, 0, 6], crystal="sc", lib=1)
    i.update(kind="enum_sys", wanted=10, supers=False, seed=0, key="enum_sys sc 1 0 2 2 0 6 conc 3 5 2 2 wanted 10 seed 0")
    out.append(i)
    for i in out:
        t = g.classes_of(i["G"], i["cols"], i["concs"])
        i["total"] = min(t, 2 ** 30)
        i["totalr"] = [t % p for p in P3]
        i["nontrivial"] = i["wanted"] < t
    out.sort(key=lambda i: -len(i["G"]) * i["n"] * i["wanted"])
    return [{"spec": "T_C12", "inputs": out, "cpu": 20}]


def lat_G(nm, h, arrows):
    """the library's numbering of sites is needed to judge enum_sys; the sites of the harness's group
    are renumbered through the library's Smith form"""
    c = C.crystal(nm)
    G = g.lattice_group(c, h, arrows)
    return G


def renumber(c, h, G):
    from phenum.grouptheory import SmithNormalForm
    H = C.full(h)
    M, L, R = SmithNormalForm(copy.deepcopy(H))
    S = [int(M[k][k]) for k in range(3)]
    a, b, cc, d, e, f = h
    n = a * cc * f
    box = [(x, y, z) for x in range(a) for y in range(cc) for z in range(f)]
    to = []
    for i in range(len(c.D)):
        for z in box:
            v = [int(sum(L[r][k] * z[k] for k in range(3))) % S[r] for r in range(3)]
            to.append(i * n + v[0] * S[1] * S[2] + v[1] * S[2] + v[2])
    res = []
    for p, ar in G:
        q = [0] * len(p)
        for s, t in enumerate(p):
            q[to[s]] = to[t]
        res.append([q, ar])
    return res


def execute(inp):
    from phenum.tree import brancher, guess_and_check_brancher
    from phenum.phonons import enum_sys, add_arrows
    random.seed(inp["seed"])
    G = copy.deepcopy(inp["G"])
    dec = g.decorate(inp["cols"], inp["concs"])
    w, sup = inp["wanted"], inp["supers"]
    if inp["kind"] == "guess":
        r = guarded(guess_and_check_brancher, list(inp["concs"]), G, dec, inp["dim"], sup, inp["nt"], w)
    elif inp["kind"] == "subset":
        sub = random.sample(range(1, inp["total"] + 1), w)
        r = guarded(brancher, list(inp["concs"]), G, dec, inp["dim"], sup, inp["nt"], inp["total"], sub)
    elif inp["kind"] == "accept":
        r = guarded(brancher, list(inp["concs"]), G, dec, inp["dim"], sup, inp["nt"], inp["total"], None if inp.get("nosub") else w, 1.0)
    elif inp["kind"] == "arrows":
        r = guarded(add_arrows, dec, G, 6, G[:inp["nt"]], num_wanted=w, small=True, supers=sup)
    else:
        c = C.crystal(inp["crystal"])
        i = c.inp()
        params = {"lat_vecs": copy.deepcopy(i["_rows"]), "basis_vecs": C.cart_basis(i), "nspecies": len(inp["conc"])}
        r = guarded(enum_sys, None, list(inp["conc"]), list(inp["aconc"]), w, list(inp["h"]), params, sup, inp.get("accept"))
    st, v, note = r
    if st != "ok":
        return {"st": st, "note": str(v) + note}
    out = {"st": "ok", "got": g.encode(v)}
    if inp["kind"] == "enum_sys":
        out["G"] = renumber(C.crystal(inp["crystal"]), inp["h"], inp["G"])
    return out
