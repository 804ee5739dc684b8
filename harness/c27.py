"""C27: what the input, request and group files mean."""
import os, random
from decimal import Decimal
from engine import guarded, as_int, BAD
ASSUMPTIONS = ["files are given to the specification as lines of words with numbers in ten-thousandths and eight more digits, compared to 1e-9"]
DESIGN = []


def w(k):
    return [k, {"k": k, "v": 0, "r": 0}]


def n(rng, v, plain=False):
    """A number (v in 1/10000) in one of the ways it can be written, sometimes
    with eight more digits (r)."""
    if not plain and rng.random() < .25:
        r = rng.choice([rng.randrange(10 ** 8), 33333333, 99999999, 1])
        d = Decimal(v * 10 ** 8 + r).scaleb(-12)
        return ["%.12f" % d if rng.random() < .7 else "%.14E" % d, {"k": "n", "v": v, "r": r}]
    if v % 10000 == 0 and (plain or rng.random() < .6):
        t = str(v // 10000)
    else:
        t = "%.4f" % (v / 10000)
        x = rng.random()
        if x < .3:
            t = t.rstrip("0")
            t = t + "0" if t.endswith(".") else t
        elif x < .4:
            t = "%.6e" % (v / 10000)
        elif x < .5 and v >= 0:
            t = "+" + t
        elif x < .6:
            t = t + "0000"
    return [t, {"k": "n", "v": v, "r": 0}]


def text(rng, lines, plainness):
    """lines: list of word lists (data) -> (text, specification view)."""
    out, view = [], []
    for l in lines:
        while rng.random() < plainness["comments"]:
            c = rng.choice(["# a comment", "#", "  # indented 1 2 3", "#1 2 3", "# F"] + ([""] if plainness["blank"] else []))
            out.append(c)
            view.append({"c": True, "t": []})
        sep = lambda: " " if not plainness["space"] else rng.choice([" ", "  ", "   ", "\t", " \t "])
        t = (rng.choice(["", " ", "   ", "\t"]) if plainness["space"] else "") + l[0][0]
        for x in l[1:]:
            t += sep() + x[0]
        t += rng.choice(["", " ", "\t", "   "]) if plainness["space"] else ""
        out.append(t)
        view.append({"c": False, "t": [x[1] for x in l]})
    return "\n".join(out) + ("\n" if rng.random() < .7 else ""), view


def lattice_in(rng, many=False):
    P = {"comments": rng.choice([0, .4, .7]), "space": rng.random() < .6, "blank": rng.random() < .4}
    k, nb = rng.randint(1, 6), rng.choice([1, 1, 2, 3, 8, 12])
    if many:
        k, nb = rng.randint(7, 24), rng.choice([2, 30, 64, 120])
    num = lambda lo, hi: n(rng, rng.choice([rng.randint(lo, hi) * 10000, rng.randint(lo * 10000, hi * 10000), rng.randint(lo, hi) * 2500]))
    a = rng.randint(1, 12)
    L = [[n(rng, a * 10000, True), n(rng, rng.randint(a, 20) * 10000, True)]]
    b = rng.choice(["bulk", "Bulk", "BULK", "b", "surface", "surf", "s"])
    L.append([[b, {"k": b[0], "v": 0, "r": 0}]])
    L += [[num(-3, 3) for _ in range(3)] for _ in range(3)]
    L += [[n(rng, k * 10000, True)], [n(rng, nb * 10000, True)]]
    L += [[num(-1, 1) for _ in range(3)] for _ in range(nb)]
    restricted, disp = rng.random() < .7, rng.random() < .6
    L.append([w("T" if restricted else "F")])
    if restricted or rng.random() < .7:
        L.append([w("T" if disp else "F")])
        for _ in range(k):
            den = rng.choice([1, 2, 3, 5, 10, 17, 100])
            r = [n(rng, rng.randint(0, den) * 10000, True), n(rng, rng.randint(0, den) * 10000, True), n(rng, den * 10000, True)]
            if disp or rng.random() < .3:
                r.append(n(rng, rng.choice([0, 5000, 10000, 2500, 3333, 5800, 1, rng.randint(0, 10000)])))
            L.append(r)
    t, v = text(rng, L, P)
    return {"what": "lattice", "_text": t, "lines": v, "key": "lattice " + repr(t)}


def enum_in(rng, many=False):
    P = {"comments": rng.choice([0, .3]), "space": rng.random() < .6, "blank": rng.random() < .3}
    k = rng.randint(1, 20 if many else 5)
    L = []
    for _ in range(rng.randint(100, 1500) if many else rng.randint(1, 12)):
        a, c, f = rng.randint(1, 4), rng.randint(1, 20), rng.choice([1, 2, 7, 130])
        h = [a, rng.randrange(c), c, rng.randrange(f), rng.randrange(f), f]
        L.append([n(rng, x * 10000, True) for x in h + [rng.randint(0, 40) for _ in range(k)] + [rng.choice([0, 1, 5, 99, 1234, 100000])]])
        if rng.random() < .15:
            L.append(rng.choice(L))           # the same request twice
    t, v = text(rng, L, P)
    return {"what": "enum", "_text": t, "lines": v, "key": "enum " + repr(t)}


def group(rng, many=False):
    N, m, width = rng.choice([1, 2, 7, 12, 40]), rng.randint(1, 9), rng.choice([100, 100, 10, 7])
    if many:
        N, m, width = rng.choice([5, 30, 150]), rng.choice([64, 192, 400]), rng.choice([100, 20])
    head = ["The integer vectors in the final columns of each", "permutation listing describe how a list 1, 2, ...", 'gets permuted. So "2 1" implies that element 2 is',
            "mapped to position 1, and the first one ends up in", "second position.", "Number of permutations: %4d" % m]
    out, view = list(head), [{"c": True, "t": []} for _ in head]
    for i in range(m):
        p = list(range(1, N + 1))
        if i:
            rng.shuffle(p)
        first = True
        while p or first:
            now, p = p[:width], p[width:]
            t = [{"k": "Perm", "v": 0, "r": 0}, {"k": "#:", "v": 0, "r": 0}, {"k": "n", "v": (i + 1) * 10000, "r": 0}, {"k": "Perm:", "v": 0, "r": 0}] if first else []
            view.append({"c": False, "t": t + [{"k": "n", "v": x * 10000, "r": 0} for x in now]})
            out.append(("Perm #: %5d Perm: " % (i + 1) if first else "   ") + "".join("%5d" % x for x in now))
            first = False
    return {"what": "group", "_text": "\n".join(out) + "\n", "lines": view, "key": "group " + repr(out[6:])}


def suites(ctx):
    rng, quick = ctx["rng"], ctx["tier"] == "quick"
    m = 4 if quick else 20
    ins = [lattice_in(rng) for _ in range(500 * m)] + [enum_in(rng) for _ in range(150 * m)] + [group(rng) for _ in range(60 * m)]
    ins += [f(rng, True) for f in (lattice_in, enum_in, group) for _ in range(2 * m)]
    return [{"spec": "T_C27", "inputs": ins, "cpu": 30}]


def fine(x):
    """A number as whole 1/10000 and the eight digits after them."""
    try:
        d = int(round(Decimal(repr(float(x))).scaleb(12)))
    except Exception:
        return BAD, 0
    v, r = divmod(d, 10 ** 8)
    return (v, r) if abs(v) < 2 ** 30 else (BAD, 0)


def words(t):
    out = []
    for l in t.split("\n"):
        ws = []
        for x in l.split():
            try:
                v, r = fine(float(x))
                ws.append({"k": "n", "v": v, "r": r})
            except ValueError:
                ws.append({"k": x[0] if x[0] in "bBsS" and x != "System" else x, "v": 0, "r": 0})
        # "full" and the title stay as they are
        if len(ws) == 4 and l.split()[3].isdigit():
            ws[3] = {"k": l.split()[3], "v": 0, "r": 0}
        out.append({"c": not ws, "t": ws})
    return out


def execute(inp):
    from phenum import io_utils as io
    S = lambda v: [S(x) for x in v] if isinstance(v, (list, tuple)) else as_int(float(v) * 10000, 1e-5)
    D = lambda v: [D(x) for x in v] if isinstance(v, (list, tuple)) else list(fine(v))
    with open("file", "w") as f:
        f.write(inp["_text"])

    def go():
        if inp["what"] == "lattice":
            from phenum.phonons import get_arrow_concs
            p = io.read_lattice("file")
            io.write_struct_enum(p)
            fr = get_arrow_concs(p)
            o = {"sizes": [as_int(x) for x in p["sizes"]], "bulk": bool(p["bulk"]), "lat": D(p["lat_vecs"]), "k": as_int(p["nspecies"]),
                 "basis": D(p["basis_vecs"]), "restricted": bool(p["is_crestricted"]), "disp": bool(p["arrows"]),
                 "win": [S(c[:3]) for c in p["concs"]], "fr": D(list(fr))}
            return {"out": o, "struct": words(open("struct_enum.in").read())}
        if inp["what"] == "enum":
            return {"out": [{"h": [as_int(x) for x in h], "conc": [as_int(x) for x in c], "num": as_int(k)} for h, c, k in io.read_enum("file")]}
        return {"out": [[as_int(x) for x in p] for p in io.read_group("file")]}
    st, v, note = guarded(go)
    if st != "ok":
        return {"st": st, "note": str(v) + note[-300:]}
    return dict(v, st="ok")
