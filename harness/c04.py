"""C04: every class of displaced colourings once."""
import groups as g
import colr
from c02 import arrow_cases
ASSUMPTIONS = ["groups as in C02; six directions permuted by signed axis permutations, or a smaller set of directions permuted arbitrarily"]
DESIGN = [{"module": "MC_Tree.tla", "cfg": "MC_Tree.cfg"}, {"module": "MC_Tree.tla", "cfg": "MC_Tree_42.cfg", "thorough": True, "timeout": 3000}]


def suites(ctx):
    rng, quick = ctx["rng"], ctx["tier"] == "quick"
    cases = []
    for nm, G, n in colr.lat_groups(ctx, ["sc", "fcc", "bcc", "tet", "tet_x", "ort", "bct", "cscl", "sc_edge", "diamond", "sc_cyc"],
                                    (1, 2, 3, 4), 3 if quick else 6, True):
        cases += arrow_cases(rng, nm, G, n)
    for _ in range(150 if quick else 300):
        n, dim = rng.randint(1, 7), rng.choice([6, 6, 2, 3, 4])
        G = g.random_group(rng, n, dim=dim)
        cases += rng.sample(arrow_cases(rng, "rnd%s" % G[1:3], G, 1, dim), 1)
    return [{"spec": "T_Color", "cfg": "T_C04.cfg", "cpu": 240,
             "inputs": colr.budget(rng, cases, 30000 if quick else 150000, 2000000 if quick else 6000000)}]


def execute(inp):
    st, full, note = colr.run(inp, True)
    if st != "ok":
        return {"st": st, "note": note}
    st, p, note = colr.predict(inp)
    if st != "ok":
        return {"st": "polya-" + st, "note": note}
    return {"st": "ok", "full": full, "polya": p, "nontrivial": len(inp["G"]) > 1}
