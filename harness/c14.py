"""C14: the summary of the tables and what is listed from it."""
import os
from engine import guarded
import tables as T
ASSUMPTIONS = ["tables in the format of the polya command, written by the harness with made-up numbers"]
DESIGN = []


def suites(ctx):
    rng, quick = ctx["rng"], ctx["tier"] == "quick"
    ins = []
    for j in range(1260 if quick else 12600):
        wide = ["shape", "conc", "size"][j % 3] if j >= (1200 if quick else 12000) else None
        k, nD, tabs = T.random_tables(rng, quick, wide)
        if rng.random() < .3:
            tabs = T.enlarge(rng, tabs)
        rt, rv = T.random_filter(rng, tabs, wide)
        sizes = [t["size"] for t in tabs]
        some = rng.random() < .4
        if some:
            sizes = rng.sample(sizes, rng.randint(1, len(sizes)))
        ft = rng.choice(["all", "shape", "conc", "size"])
        asked = ft == "all" or rng.random() < .6
        ins.append({"tables": tabs, "sizes": sizes, "rt": rt, "rv": rv, "ft": ft, "asked": asked, "_some": some, "seed": rng.choice([0, rng.randrange(10 ** 6), rng.randrange(10 ** 6)]),
                    "key": "%s sizes%s filter %s%s asked%d tables %s" % (ft, sizes, rt, rv, asked, [(t["size"], t["concs"], [r["cnt"] for r in t["rows"]]) for t in tabs])})
    for i in ins:
        i["_tables"] = i["tables"]
        i["tables"] = [{"size": t["size"], "concs": t["concs"], "rows": [{"hnf": r["hnf"], "cnt": [T.big(x) for x in r["cnt"]]} for r in t["rows"]]}
                       for t in i["tables"]]
    return [{"spec": "T_C14", "inputs": ins, "cpu": 60}]


def execute(inp):
    def go():
        from phenum.structures import _distribution_summary, make_enum_in
        for t in inp["_tables"]:
            T.write_table("polya.out.%d" % t["size"], t["size"], t["concs"], [(r["hnf"], r["cnt"]) for r in t["rows"]])
        kw = {}
        if inp["rt"] != "none":
            T.write_filter("filt", inp["rt"], inp["rv"], inp["seed"] % 7 + 1)
            kw = {"shape": "HNFs", "conc": "wanted_concs"}[inp["rt"]]
            kw = {kw: [tuple(v) for v in inp["rv"]]}
        data, total = _distribution_summary("polya.out", list(inp["sizes"]), **kw)
        o = {"distr": [], "ct": [], "stt": [], "gt": [], "total": T.big(total)}
        for s, d in data.items():
            for h, cs in d["distr"].items():
                for c, v in cs.items():
                    o["distr"].append({"size": int(s), "hnf": [int(x) for x in h], "conc": [int(x) for x in c], "num": T.big(v)})
            for c, v in d["ctotals"].items():
                o["ct"].append({"size": int(s), "conc": [int(x) for x in c], "num": T.big(v)})
            for h, v in d["stotals"].items():
                o["stt"].append({"size": int(s), "hnf": [int(x) for x in h], "num": T.big(v)})
            o["gt"].append({"size": int(s), "num": T.big(d["gtotal"])})
        import contextlib, io
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            make_enum_in("polya.out", inp["ft"], "dist.in", sizes=list(inp["sizes"]) if inp["_some"] else None, save=inp["asked"], seed=None,
                         restrict=[inp["rt"], "filt"] if inp["rt"] != "none" else None)
        o["shown"] = T.parse_screen(buf.getvalue())
        o["saved"] = os.path.exists("dist.in")
        o["rows"] = T.parse_rows(open("dist.in").read(), inp["ft"]) if o["saved"] else list(o["shown"])
        for k in ("shown", "rows"):
            o[k] = [dict(r, num=T.big(r["num"])) for r in o[k]]
        return dict(o, st="ok")
    st, v, note = guarded(go)
    if st != "ok":
        return {"st": st, "note": str(v) + note}
    return v
