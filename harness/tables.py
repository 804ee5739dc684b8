"""Polya tables: written by this harness or by the code, and the files made from them."""
import os, re
import crystals as C


def write_table(name, size, concs, rows):
    """The format of the polya command."""
    with open(name, "w") as f:
        f.write('{0: <28}'.format("# HNF") + "".join("{0: <50}".format(":".join(map(str, c))) for c in concs) + '{0: <50}\n'.format("Total"))
        for h, cnt in rows:
            f.write("  {0: <26}".format(" ".join(map(str, h))) + "".join("{0: <50d}".format(x) for x in cnt) + "{0: <10d}\n".format(sum(cnt)))
        f.write("# " + "-" * (len(concs) * 10 + 40) + "\n")
        f.write("{0: <28}".format("  0 0 0 0 0 0") + "".join("{0: <50d}".format(sum(r[1][i] for r in rows)) for i in range(len(concs))))
        f.write("{0: <50d}\n".format(sum(sum(r[1]) for r in rows)))


def read_table(name):
    """(concs, rows, per-row totals, column totals, grand total)"""
    with open(name) as f:
        lines = [l.rstrip("\n") for l in f]
    head = lines[0].split()
    assert head[:2] == ["#", "HNF"] and head[-1] == "Total", head
    concs = [[int(x) for x in t.split(":")] for t in head[2:-1]]
    data = [[int(x) for x in l.split()] for l in lines[1:] if l.strip() and not l.startswith("#")]
    rows, tot = data[:-1], data[-1]
    assert tot[:6] == [0] * 6
    for r in data:
        assert len(r) == 7 + len(concs), r
    return concs, [(r[:6], r[6:-1]) for r in rows], [r[-1] for r in rows], tot[6:-1], tot[-1]


def random_tables(rng, quick, wide=None):
    """wide: "shape" many shapes, "conc" many compositions, "size" many sizes"""
    k = rng.choice([2, 2, 2, 3, 4])
    nD = rng.choice([1, 1, 2])
    sizes = sorted(rng.sample(range(1, 13), rng.randint(1, 4)))
    if wide == "shape":
        sizes = sorted(rng.sample([6, 7, 8, 9, 10, 12], rng.choice([1, 1, 2])))
    elif wide == "conc":
        k, sizes = rng.choice([(2, [12]), (3, [9]), (3, [11]), (4, [6]), (2, [11, 12]), (5, [4])])
    elif wide == "size":
        sizes = sorted(rng.sample(range(1, 33), rng.choice([9, 12, 17])) + rng.sample([97, 100, 101, 128], 2))
    style = rng.choice(["small", "small", "mixed", "large", "flat", "zeros"])
    out = []
    for s in sizes:
        hs = C.all_hnfs(s)
        hs = rng.sample(hs, min(len(hs), {None: rng.randint(1, 6), "shape": rng.choice([15, 30, 60]), "conc": rng.choice([1, 2, 3]), "size": rng.choice([1, 2])}[wide]))
        allc = []
        n = s * nD

        def rec(left, parts):
            if parts == 1:
                return [[left]]
            return [[x] + r for x in range(left + 1) for r in rec(left - x, parts - 1)]
        allc = rec(n, k)
        if wide == "conc":
            if len(allc) > 60:
                allc = sorted(rng.sample(allc, rng.choice([30, 60])))
        elif wide:
            allc = sorted(rng.sample(allc, min(len(allc), rng.randint(1, 3))))
        elif len(allc) > 7 or rng.random() < .4:
            allc = sorted(rng.sample(allc, min(len(allc), rng.randint(1, 6))))
        val = {"small": lambda: rng.randint(1, 6), "mixed": lambda: rng.choice([1, 1, 2, 40]), "large": lambda: rng.randint(20, 900),
               "flat": lambda: 1, "zeros": lambda: rng.choice([0, 0, 1, 3])}[style]
        out.append({"size": s, "concs": allc, "rows": [{"hnf": h, "cnt": [val() for _ in allc]} for h in hs]})
    return k, nD, out


def big(x):
    """A natural number for Big.tla: digits to base 1000, lowest first; not a number: [-1]."""
    if x != int(x) or x < 0:
        return [-1]
    x, out = int(x), []
    while x:
        out.append(x % 1000)
        x //= 1000
    return out


def enlarge(rng, tables):
    """The same tables with numbers of structures of up to 48 digits."""
    style = rng.choice(["19", "19", "mixed", "wide", "even"])
    for t in tables:
        for r in t["rows"]:
            for i, v in enumerate(r["cnt"]):
                e = {"19": 63, "mixed": rng.choice([0, 0, 30, 64, 90]), "wide": rng.randint(0, 158), "even": 80}[style]
                w = v * 2 ** e // rng.choice([1, 1, 3]) + rng.randint(0, 9)
                r["cnt"][i] = 0 if v == 0 else w % 10 ** 48 + 1
    return tables


def random_filter(rng, tables, wide=None):
    rt = rng.choice(["none", "none", "shape", "conc"])
    if wide and rng.random() < .6:
        rt = "conc" if wide == "conc" else "shape"
    rv = []
    if rt != "none":
        pool = [r["hnf"] for t in tables for r in t["rows"]] if rt == "shape" else [c for t in tables for c in t["concs"]]
        rv = rng.sample(pool, rng.randint(max(1, len(pool) // 2), len(pool)) if wide else rng.randint(1, max(1, min(len(pool), 6))))
        if rng.random() < .3:
            rv.append([1, 0, 1, 0, 0, 77] if rt == "shape" else [99] + [0] * (len(tables[0]["concs"][0]) - 1))
        if rng.random() < .1:
            rv = rv[-1:]
        if rng.random() < .3:
            # one listed again, where others stand between the two or not
            rv.insert(rng.randint(0, len(rv)), rng.choice(rv))
    return rt, rv


def write_filter(name, rt, rv, rng_number):
    with open(name, "w") as f:
        f.write("# HNF                 Number\n" if rt == "shape" else "# Size    Conc.   Number\n")
        for i, v in enumerate(rv):
            txt = " ".join(map(str, v))
            f.write("  %s         %d\n" % (txt, rng_number + i) if rt == "shape" else "  %-6d  %-6s  %d\n" % (sum(v), txt, rng_number + i))


ANSI = re.compile("\x1b\\[[0-9;]*m")


def parse_rows(text, ft):
    """Rows of a saved distribution."""
    out = []
    for l in text.split("\n"):
        if not l.strip() or l.startswith("#"):
            continue
        v = [int(x) for x in l.split()]
        if ft == "all":
            h, c = v[:6], v[6:-1]
            out.append({"size": h[0] * h[2] * h[5], "hnf": h, "conc": c, "num": v[-1]})
        elif ft == "shape":
            assert len(v) == 7
            out.append({"size": v[0] * v[2] * v[5], "hnf": v[:6], "conc": [], "num": v[-1]})
        elif ft == "conc":
            out.append({"size": v[0], "hnf": [], "conc": v[1:-1], "num": v[-1]})
        else:
            assert len(v) == 2
            out.append({"size": v[0], "hnf": [], "conc": [], "num": v[-1]})
    return out


def parse_screen(text):
    out = []
    for l in ANSI.sub("", text).split("\n"):
        if l.count("|") >= 3:
            a, h, c, v = [x.strip() for x in l.split("|")[:4]]
            out.append({"size": int(a), "hnf": [int(x) for x in h.split()], "conc": [int(x) for x in c.split(":")] if c else [], "num": int(v)})
    return out


def key_rows(d):
    """The returned dictionary of a distribution as rows."""
    out = []
    for (s, h, c), v in d.items():
        out.append({"size": int(s), "hnf": [int(x) for x in h] if h is not None else [], "conc": [int(x) for x in c] if c is not None else [],
                    "num": int(v)})
    return out
