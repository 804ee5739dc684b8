"""C17: histories of commands, walked by TLC over Workflow.tla, done in a folder with the real commands.
Every predicted file is compared with the same file made from scratch in a folder of its own."""
import os, random, shutil, tempfile
from engine import guarded, generate
import crystals as C
import latin
ASSUMPTIONS = ["the contents of files made from scratch are judged by the other checks; here they are what the file in the folder must be equal to (apart from the date line)",
               "a request saved over size, shape or composition read back as a request, and commands that fail after they have made tables (-sizes naming sizes the input file has not), are not part of the model"]
DESIGN = [{"module": "MC_Workflow.tla", "cfg": "MC_Workflow.cfg"}, {"module": "MC_Workflow.tla", "cfg": "MC_Workflow_all.cfg", "thorough": True}]
SEED = 7
STRAY = ["polya.out.bak", "polya.out", "xpolya.out.3", "polya.out.2~", "enum.in.old", "tab.", "tab.1.2", "mypolya.out.1", "polya.outs.2", "enum.out.1"]
PAIRS = [("sc", "fcc"), ("bcc", "tet"), ("ort", "sc"), ("hcp", "diamond"), ("tri", "rhomb"), ("fcc", "mon")]


def pair(rng, n):
    a, b = n
    k = rng.choice([2, 2, 3])
    ls = []
    for nm, sz in ((a, (1, 2)), (b, (2, 3))):
        c = C.crystal(nm)
        N = len(c.D) * sz[1]
        win = latin.windows(rng, k, N) if rng.random() < .5 else None
        fr = None
        if win and c.lat.name in C.AXIS and rng.random() < .6:
            fr = [rng.choice([[0, 1], [1, 2], [1, 1]]) for _ in range(k)]
            if latin.colourings(k, N, True, win, fr) > 20000:
                fr = None
        ls.append(latin.sysinput(c, k, sz[0], sz[1], bool(win), win, fr))
    ls.append(latin.sysinput(C.crystal(a), k, 1, 3, False, None, None))
    return ls


def filters(rng, lats):
    """Texts of the files for -filter shape and -filter conc."""
    k, nd = lats[0]["k"], len(lats[0]["D"])
    hs = ["1 0 1 0 0 1", "1 0 1 0 0 2", "1 0 1 0 1 2", "1 0 2 0 0 1", "1 0 1 0 0 3", "1 0 1 0 1 3", "1 0 1 1 1 3", "1 0 2 1 0 1"]
    sh = "# HNF  Number\n" + "".join("  %s   %d\n" % (h, rng.randint(1, 9)) for h in rng.sample(hs, rng.randint(1, len(hs))))
    rows = []
    for n in (1, 2, 3):
        for _ in range(rng.randint(0, 4)):
            c = [0] * k
            for _ in range(n * nd):
                c[rng.randrange(k)] += 1
            rows.append("  %d   %s   %d\n" % (n, " ".join(map(str, c)), rng.randint(1, 9)))
    return {"shape": sh, "conc": "# Size   Conc.   Number\n" + "".join(dict.fromkeys(rows))}


def suites(ctx):
    rng, quick = ctx["rng"], ctx["tier"] == "quick"
    hs = generate("MC_Workflow.tla", "Gen_Workflow.cfg", 500 if quick else 6000, 8, ctx["seed"], ctx["scratch"])
    ins = []
    np = 4 if quick else 40
    pairs = [pair(rng, PAIRS[i % len(PAIRS)]) for i in range(np)]
    flts = [filters(rng, p) for p in pairs]
    for j, h in enumerate(hs):
        p = pairs[(j // 25) % np]
        ins.append({"steps": h, "_lats": p, "_pid": (j // 25) % np, "_stray": rng.sample(STRAY, rng.choice([0, 1, 3, 6])),
                    "_order": rng.random() < .5, "_flt": flts[(j // 25) % np],
                    "key": "crystals %s steps %s" % ([l["key"] for l in p[:2]], [(s["c"], s["s"] if not i else "") for i, s in enumerate(h)])})
    return [{"spec": "T_C17", "inputs": ins, "cpu": 120}]


CACHE = {}


def lat_text(lats, l):
    if l == 3:
        return "# not a lattice\n1 2\nnothing\n"
    ts = []
    for x in lats:
        latin.write_inp(x, "tmp.lat")
        ts.append(open("tmp.lat").read())
        os.unlink("tmp.lat")
    t = ts[2 if l == 4 else l - 1]
    return t + "#" + "." * (max(map(len, ts)) - len(t)) + "\n"         # all of the same length


def undated(t):
    return t.split("\n", 1)[1] if t.startswith("Random structure enumeration") else t


def clean(files, want, **k):
    """Files made by one command in a new folder."""
    from phenum.enumeration import _script_enum
    here = os.getcwd()
    d = tempfile.mkdtemp(dir=here, prefix="clean")
    os.chdir(d)
    try:
        for n, t in sorted(files.items()):
            with open(n, "w") as f:
                f.write(t)
        st, v, note = guarded(_script_enum, latin.args(seed=SEED, **k), testmode=True)
        if st != "ok":
            raise Clean("%s %s: %s %s" % (k, st, v, note[-200:]))
        return {w: open(w).read() for w in os.listdir(".") if w.startswith(want)}
    finally:
        os.chdir(here)
        shutil.rmtree(d)


class Clean(Exception):
    pass


def tabs_files(inp, tabs, base="polya.out"):
    return {"%s.%d" % (base, n): content(inp, "tab", [t, n]) for n, t in enumerate(tabs, 1) if t != "none"}


def content(inp, kind, tag):
    ck = (inp["_pid"], kind, repr(tag))
    if ck not in CACHE:
        CACHE[ck] = make(inp, kind, tag)
    return CACHE[ck]


def make(inp, kind, tag):
    lats = inp["_lats"]
    if kind == "tab":
        who, n = tag
        fs = clean({"lattice.in": lat_text(lats, {"p1": 1, "p2": 2, "user": 4}[who])}, "polya.out", polya=True)
        for f, t in fs.items():
            CACHE[(inp["_pid"], "tab", repr([who, int(f.split(".")[-1])]))] = t
        return fs["polya.out.%d" % n]
    if kind == "req":
        if tag[0] == "user":
            k, nd = lats[0]["k"], len(lats[0]["D"])
            rows = [("1 0 1 0 0 2", 2 * nd), ("1 0 1 0 0 1", nd)]
            return "# a request\n" + "".join("%s  %d %s  1\n" % (h, N - 1, " ".join(["1"] + ["0"] * (k - 2))) for h, N in rows if N > 1)
        if tag[0] == "bad":
            return "this is not a request\n"
        _, over, number, tabs, flt = tag
        files = dict(tabs_files(inp, tabs), **{"lattice.in": lat_text(lats, 1)})
        return clean(dict(files, **{"the." + f: inp["_flt"][f] for f in inp["_flt"]}), "req", distribution=[over, "all" if number < 0 else str(number)],
                     savedist=True, outfile="req", filter=[flt, "the." + flt] if flt else None)["req"]
    if tag[0] == "old":
        return "something old\n"
    _, l, req, sup, fresh = tag
    files = {"lattice.in": lat_text(lats, l)}
    k = {}
    if fresh:
        files.update(tabs_files(inp, req[3]))
        k = {"distribution": ["all", "all" if req[2] < 0 else str(req[2])]}
        if req[4]:
            files["the." + req[4]] = inp["_flt"][req[4]]
            k["filter"] = [req[4], "the." + req[4]]
    else:
        files["enum.in"] = content(inp, "req", req)
    return clean(files, "enum.out", enum=True, super=sup, **k)["enum.out"]


def predicted(inp, s):
    out = {}
    for b, t in s["tabs"].items():
        for n, tag in enumerate(t, 1):
            if tag != "none":
                out["%s.%d" % (b, n)] = ("tab", [tag, n])
    for f, tag in s["req"].items():
        if tag != ["none"]:
            out[f] = ("req", tag)
    for f, tag in s["out"].items():
        if tag != ["none"]:
            out[f] = ("out", tag)
    return out


def execute(inp):
    from phenum.enumeration import _script_enum
    steps = inp["steps"]
    obs = []
    os.mkdir("work")
    first = predicted(inp, steps[0]["s"])
    start = sorted(first, reverse=inp["_order"])
    texts = {f: content(inp, *first[f]) for f in start}
    lat = {l: lat_text(inp["_lats"], l) for l in (1, 2, 3)}
    for f in start:
        open("work/" + f, "w").write(texts[f])
    for f in inp["_stray"]:
        open("work/" + f, "w").write("stray " + f + "\n")
    if steps[0]["s"]["lat"]:
        open("work/the.lat", "w").write(lat[steps[0]["s"]["lat"]])
    for f in inp["_flt"]:
        open("work/the." + f, "w").write(inp["_flt"][f])
    for s in steps[1:]:
        c, st, note = s["c"], "ok", ""
        op = c["op"]
        os.chdir("work")
        try:
            if op == "setlat":
                if os.path.exists("the.lat"):
                    os.unlink("the.lat")
                if c["lat"]:
                    open("the.lat", "w").write(lat[c["lat"]])
            elif op == "rmreq":
                if os.path.exists(c["req"]):
                    os.unlink(c["req"])
            elif op == "rmtabs":
                for n in (1, 2, 3):
                    if os.path.exists("%s.%d" % (c["base"], n)):
                        os.unlink("%s.%d" % (c["base"], n))
            else:
                default = lambda v, d: None if v == d else v
                if op == "polya":
                    a = latin.args(polya=True, outfile=default(c["base"], "polya.out"))
                elif op == "dist":
                    a = latin.args(distribution=[c["over"], "all" if c["number"] < 0 else str(c["number"])], savedist=c["save"],
                                   input=default(c["base"], "polya.out"), outfile=default(c["req"], "enum.in"))
                else:
                    a = latin.args(enum=True, input=default(c["req"], "enum.in"), outfile=default(c["out"], "enum.out"), super=c["super"],
                                   distribution=None if c["number"] < 0 else ["all", str(c["number"])])
                a["seed"], a["lattice"] = SEED, "the.lat"
                if op != "polya":
                    a["polya"], a["sizes"] = c["polya"], c["sizes"] or None
                    a["filter"] = [c["filter"], "the." + c["filter"]] if c["filter"] else None
                st, v, note = guarded(_script_enum, a, testmode=True)
                note = str(v) + note[-200:]
        finally:
            os.chdir("..")
        if st == "timeout":
            return {"st": "timeout"}
        want = predicted(inp, s["s"])
        wrong = []
        have = set(os.listdir("work"))
        for f in sorted(want):
            if f not in have:
                wrong.append("missing " + f)
            elif undated(open("work/" + f).read()) != undated(content(inp, *want[f])):
                wrong.append("differs " + f)
        for f in inp["_stray"]:
            if f not in have or open("work/" + f).read() != "stray " + f + "\n":
                wrong.append("stray " + f)
        if s["s"]["lat"] and ("the.lat" not in have or open("work/the.lat").read() != lat[s["s"]["lat"]]):
            wrong.append("input file")
        for f in inp["_flt"]:
            if "the." + f not in have or open("work/the." + f).read() != inp["_flt"][f]:
                wrong.append("filter file")
        wrong += ["extra " + f for f in sorted(have - set(want) - set(inp["_stray"]) - {"the." + f for f in inp["_flt"]} - ({"the.lat"} if s["s"]["lat"] else set()))]
        obs.append({"ok": st == "ok", "wrong": wrong, "note": "" if st == "ok" else st + " " + note[-300:]})
        if wrong or (st == "ok") != s["ok"]:
            break
    return {"st": "ok", "obs": obs}
