"""Structure files for makeStr and readers for what it writes."""
import numpy as np
import crystals as C
from engine import BAD

HEAD = ["full list of labelings (including incomplete labelings) is used ",
        "Equivalency list: 1 #Not used in the random enumeration algorithm ",
        "start   #tot      HNF     Hdegn   labdegn   Totdegn   #size idx    pg    SNF             HNF                 Left "
        "transform                          labeling                 directions"]


def enum_file(path, rows, basis, k, structs, title="Random structure enumeration: 2016-07-21 15:42:57.223450"):
    """structs: list of dicts h, S, L, lab, dirs (digits)."""
    v = lambda x: " {0:.7f}       {1:.7f}       {2:.7f}".format(*x)
    lines = [title, "bulk"] + [v(r) for r in rows] + ["    %d" % len(basis)] + [v(b) for b in basis] + \
            [" %d-nary case" % k, "   1   9", " 1e-7", "Concentration check:", "    F"] + HEAD
    for i, s in enumerate(structs):
        h, S, L = s["h"], s["S"], s["L"]
        n = h[0] * h[2] * h[5]
        lines.append("%10d%10d%8d%9d%9d%12d%4d%6d  %s  %s  %s    %s    %s" % (
            i + 1, 1, 1, 1, 1, i + 1, n, 1, " ".join(map(str, S)), " ".join(map(str, h)),
            " ".join("%3d" % x for r in L for x in r), "".join(map(str, s["lab"])), "".join(map(str, s["dirs"]))))
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")


def structure(rng, c, k, n, maxdir):
    h = rng.choice(C.all_hnfs(n))
    S, L = C.smith(C.full(h))
    N = n * len(c.D)
    lab = [rng.randrange(k) for _ in range(N)]
    if rng.random() < .3:
        lab = [x if x != 0 else (1 if k > 1 else 0) for x in lab]      # a species that does not occur
    dirs = [rng.randint(1, 6) if maxdir and rng.random() < .4 else 0 for _ in range(N)]
    return {"h": h, "S": S, "L": L, "lab": lab, "dirs": dirs}


def poscar(path):
    with open(path) as f:
        t = f.read().split("\n")
    d = {"title": t[0].split(), "scale": float(t[1]), "vecs": [[float(x) for x in l.split()] for l in t[2:5]],
         "counts": [int(x) for x in t[5].split()], "mode": t[6].strip()}
    rest = [l for l in t[7:]]
    while rest and not rest[-1].strip():
        rest.pop()
    d["atoms"] = [[float(x) for x in l.split()] for l in rest]
    return d


def config(path):
    """Blocks of an MTP file; None where a line is not what it should be."""
    with open(path) as f:
        t = [l.rstrip() for l in f.read().split("\n")]
    out, i = [], 0
    while i < len(t):
        if not t[i].strip():
            i += 1
            continue
        assert t[i] == "BEGIN_CFG", t[i]
        assert t[i + 1].strip() == "Size"
        n = int(t[i + 2])
        assert t[i + 3].strip() == "SuperCell"
        vecs = [[float(x) for x in l.split()] for l in t[i + 4:i + 7]]
        assert t[i + 7].split() == ["AtomData:", "id", "type", "cartes_x", "cartes_y", "cartes_z"], t[i + 7]
        j = i + 8
        atoms = []
        while not t[j].strip().startswith("Feature"):
            f = t[j].split()
            atoms.append([int(f[0]), int(f[1])] + [float(x) for x in f[2:]])
            j += 1
        assert t[j + 1].strip() == "END_CFG"
        out.append({"size": n, "vecs": vecs, "atoms": atoms, "feature": t[j].split()[1:]})
        i = j + 2
    return out


def grid(x, unit, tol):
    """x*unit as an integer when it is one within tol (in x)."""
    r = int(round(x * unit))
    return r if abs(x * unit - r) <= tol * unit and abs(r) < 2 ** 30 else BAD


def near(x, unit):
    r = int(round(x * unit))
    return r if abs(r) < 2 ** 30 else BAD
