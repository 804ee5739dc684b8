"""Shared pieces of the colouring checks (C01-C04, C12)."""
import copy
from engine import guarded, shape_ok, as_int
import crystals as C
import groups as g


def case(name, G, cols, concs, dim=6, nt=1, **k):
    i = {"G": G, "cols": [list(c) for c in cols], "concs": list(concs), "n": sum(concs), "dim": dim, "nt": nt,
         "key": "%s cols=%s concs=%s" % (name, cols, concs)}
    i.update(k)
    return i


def run(inp, supers):
    from phenum.tree import brancher
    G = copy.deepcopy(inp["G"])
    st, v, out = guarded(brancher, list(inp["concs"]), G, g.decorate(inp["cols"], inp["concs"]), inp["dim"], supers, inp["nt"])
    if st != "ok":
        return st, None, str(v) + out
    return st, g.encode(v), ""


def predict(inp, G=None):
    from phenum.polyaburnside import polya
    ar = [bool(c[1]) for c in inp["cols"]]
    st, v, out = guarded(polya, list(inp["concs"]), copy.deepcopy(G or inp["G"]), arrowings=ar if any(ar) else None)
    return st, (as_int(v) if st == "ok" else -1), str(v) + out


def plain(k):
    return [[s, 0] for s in range(1, k + 1)]


def lat_groups(ctx, names, sizes, per, arrows):
    """(name, group, n cells) for sampled supercells of named crystals."""
    rng = ctx["rng"]
    for nm in names:
        c = C.crystal(nm)
        for n in sizes:
            hs = C.all_hnfs(n)
            for h in rng.sample(hs, min(per, len(hs))):
                yield "%s h=%s" % (nm, h), g.lattice_group(c, h, arrows), n


def work(i):
    """rough number of site operations the judge needs"""
    return g.fold(i["cols"], i["concs"], i["dim"]) * i["n"]


def budget(rng, cases, per_case, total):
    """shuffle, drop what is too big, stop when the total work is used up; biggest first"""
    cases = [c for c in cases if work(c) <= per_case]
    rng.shuffle(cases)
    out, t = [], 0
    for c in cases:
        w = work(c) + 200
        if t + w <= total:
            t += w
            out.append(c)
    out.sort(key=lambda c: -work(c))
    return out
