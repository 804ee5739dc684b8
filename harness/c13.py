"""C13: distributions."""
import os, random
from engine import guarded
import tables as T
ASSUMPTIONS = ["tables in the format of the polya command, written by the harness with made-up numbers", "numbers below 2^31 with an exact share; up to 48 digits (sequences of digits) with the other clauses"]
DESIGN = [{"module": "MC_Distribution.tla", "cfg": "MC_Distribution.cfg"},
          {"module": "MC_Distribution.tla", "cfg": "MC_Distribution_big.cfg", "thorough": True}]


def suites(ctx):
    rng, quick = ctx["rng"], ctx["tier"] == "quick"
    ins, huge = [], []
    for j in range(1560 if quick else 16600):
        wide = ["shape", "conc", "size"][j % 3 if j % 2 else j % 7 % 3] if j >= (1500 if quick else 16000) else None
        k, nD, tabs = T.random_tables(rng, quick, wide)
        if j % 3 == 0:
            tabs = T.enlarge(rng, tabs)
        ft = rng.choice(["all", "all", "shape", "conc", "size"])
        rt, rv = T.random_filter(rng, tabs, wide)
        sizes = [t["size"] for t in tabs]
        if rng.random() < .3:
            sizes = rng.sample(sizes, rng.randint(1, len(sizes)))
        g = sum(sum(sum(c for c, cc in zip(r["cnt"], t["concs"]) if rt == "none" or (rt == "shape" and r["hnf"] in rv) or (rt == "conc" and cc in rv))
                    for r in t["rows"]) for t in tabs if t["size"] in sizes)
        n = rng.choice([-1, g, g - 1, g - 2, g + 5, g // 2, g // 3, 1, 2, rng.randint(0, g + 1), rng.randint(0, g + 1), (9 * g) // 10])
        n = -1 if n < -1 else n
        if j % 3 == 0 and rng.random() < .6:
            n = rng.choice([1, 5, 10, 50, 1000])
        seeded = rng.random() < .8
        (huge if j % 3 == 0 or g > 40000 else ins).append({"tables": tabs, "sizes": sizes, "rt": rt, "rv": rv, "ft": ft, "n": n, "seeded": seeded,
                    "via": rng.choice(["distribute", "file"]), "seed": rng.choice([0, rng.randrange(10 ** 6), rng.randrange(10 ** 6)]),
                    "key": "%s n%d of %d sizes%s filter %s%s seeded%d tables %s" % (ft, n, g, sizes, rt, rv, seeded, [(t["size"], [r["cnt"] for r in t["rows"]]) for t in tabs])})
    for i in huge:
        i["big"] = True
        i["tables_"] = i["tables"]
        i["_tables"] = [{"size": t["size"], "concs": t["concs"], "rows": [{"hnf": r["hnf"], "cnt": list(r["cnt"])} for r in t["rows"]]} for t in i["tables"]]
        i["tables"] = [{"size": t["size"], "concs": t["concs"], "rows": [{"hnf": r["hnf"], "cnt": [T.big(x) for x in r["cnt"]]} for r in t["rows"]]}
                       for t in i.pop("tables_")]
        i["_n"] = i["n"]
        i["all"] = i["n"] == -1
        i["n"] = T.big(max(0, i["n"]))
    return [{"spec": "T_C13", "inputs": ins, "cpu": 60}, {"spec": "T_C13", "cfg": "T_C13b.cfg", "inputs": huge, "cpu": 60}]


def execute(inp):
    if inp.get("big"):
        o = run(dict(inp, tables=inp["_tables"], n=inp["_n"]))
        for k in ("res", "again"):
            for r in o.get(k, []):
                r["num"] = T.big(r["num"])
        return o
    return run(inp)


def run(inp):
    def go():
        from phenum.structures import _distribute, make_enum_in
        for t in inp["tables"]:
            T.write_table("polya.out.%d" % t["size"], t["size"], t["concs"], [(r["hnf"], r["cnt"]) for r in t["rows"]])
        if inp["rt"] != "none":
            T.write_filter("filt", inp["rt"], inp["rv"], inp["seed"] % 7 + 1)
        n = None if inp["n"] == -1 else inp["n"]
        seed = inp["seed"] if inp["seeded"] else None

        def once():
            if inp["via"] == "distribute":
                rv = [tuple(v) for v in inp["rv"]] if inp["rt"] != "none" else None
                return T.key_rows(_distribute("polya.out", list(inp["sizes"]), inp["ft"], n=n, seed=seed,
                                              res_type=None if rv is None else inp["rt"], res_values=rv))
            make_enum_in("polya.out", inp["ft"], "dist.in", number=n, sizes=list(inp["sizes"]), save=True, seed=seed,
                         restrict=[inp["rt"], "filt"] if inp["rt"] != "none" else None)
            return T.parse_rows(open("dist.in").read(), inp["ft"])
        random.seed(inp["seed"] + 1)
        a = once()
        random.seed(inp["seed"] + 2)
        random.random()
        return {"st": "ok", "res": a, "again": once()}
    st, v, note = guarded(go)
    if st != "ok":
        return {"st": st, "note": str(v) + note}
    return v
