"""Input files (lattice.in) and parent systems for the checks that run whole commands."""
import math
from fractions import Fraction
import crystals as C


def num(x):
    return repr(float(x)) if float(x) != int(x) else str(int(x))


def write(path, rows, basis, k, lo, hi, restricted, win, fr=None, bulk="bulk"):
    """fr: fractions [num, den] per species or None."""
    L = ["# sizes", "%d %d" % (lo, hi), "# bulk or surface", bulk, "# lattice"] + [" ".join(num(x) for x in r) for r in rows]
    L += ["# species", str(k), "# basis", str(len(basis))] + [" ".join(num(x) for x in b) for b in basis]
    L += ["# concentrations", "T" if restricted else "F", "T" if fr else "F"]
    if restricted:
        for i, w in enumerate(win):
            L.append(" ".join(str(x) for x in w) + (" " + repr(fr[i][0] / fr[i][1]) if fr else ""))
    with open(path, "w") as f:
        f.write("\n".join(L) + "\n")


def windows(rng, k, N):
    """Random windows that allow at least one composition of N sites."""
    st = rng.choice(["full", "point", "around", "tight", "third"])
    c = [0] * k
    for _ in range(N):
        c[rng.randrange(k)] += 1
    if st == "full":
        return [[0, N, N] for _ in range(k)]
    if st == "point":
        return [[x, x, N] for x in c]
    if st == "third":
        w = [[0, 2, 3] for _ in range(k)]
        return w if k > 1 else [[0, 1, 1]]
    r = 1 if st == "tight" else 2
    w = [[max(0, x - rng.randint(0, r)), min(N, x + rng.randint(0, r)), N] for x in c]
    if rng.random() < .3:
        w = [[b, a, d] for a, b, d in w]
    if rng.random() < .4:      # the same windows with other denominators
        w = [[a * m, b * m, d * m] for (a, b, d), m in zip(w, [rng.choice([1, 2, 3]) for _ in w])]
    return w


def classes_bound(k, N, fr):
    """Number of colourings of N sites, everything that can be displaced displaced."""
    return sum(math.comb(N, 0) and 1 for _ in [0]) and (k + 5 * sum(1 for f in (fr or []) if f[0])) ** N


def colourings(k, N, restricted, win, fr):
    """Number of colourings of N sites over all allowed compositions."""
    tot = 0

    def comps(N, k):
        if k == 1:
            yield [N]
            return
        for x in range(N + 1):
            for r in comps(N - x, k - 1):
                yield [x] + r
    for c in comps(N, k):
        if restricted and not all(min(w[:2]) * N <= x * w[2] <= max(w[:2]) * N for x, w in zip(c, win)):
            continue
        t = math.factorial(N)
        for i, x in enumerate(c):
            d = x * fr[i][0] // fr[i][1] if fr else 0
            t //= math.factorial(x - d) * math.factorial(d)
            t *= 6 ** d
        tot += t
    return tot


def sysinput(c, k, lo, hi, restricted, win, fr):
    i = c.inp()
    i.update({"k": k, "lo": lo, "hi": hi, "restricted": restricted, "win": win or [], "_fr": fr,
              "fr": [list(f) for f in fr] if fr else [[0, 1]] * k})
    i["key"] = "%s k%d sizes %d-%d win %s fr %s" % (c.name, k, lo, hi, win if restricted else "-", fr)
    return i


def write_inp(inp, path="lattice.in"):
    write(path, inp["_rows"], C.cart_basis(inp), inp["k"], inp["lo"], inp["hi"], inp["restricted"], inp["win"], inp["_fr"])


def args(**k):
    a = {"profile": None, "savedist": False, "verbose": None, "outfile": None, "enum": False, "lattice": "lattice.in", "acceptrate": None,
         "examples": False, "sizes": None, "debug": False, "input": None, "polya": False, "super": False, "distribution": None,
         "seed": None, "filter": None, "visualize": False, "shapes": False, "show": False}
    a.update(k)
    return a


def random_system(rng, names, maxcol, nmax, arrows=.3):
    while True:
        nm = rng.choice(names)
        c = C.crystal(nm)
        nd = len(c.D)
        k = rng.choice([1, 2, 2, 2, 3, 3, 4])
        hi = rng.randint(1, max(1, nmax // nd))
        lo = rng.randint(max(1, hi - 2), hi)
        restricted = rng.random() < .6
        win = fr = None
        if restricted:
            win = windows(rng, k, nd * rng.randint(lo, hi))
            if rng.random() < arrows and c.lat.name in C.AXIS:
                fr = [rng.choice([[0, 1], [1, 2], [1, 1], [1, 3], [7, 10], [1, 4]]) for _ in range(k)]
                if rng.random() < .35:        # one kind of atom displaced
                    j = rng.randrange(k)
                    fr = [f if i == j else [0, 1] for i, f in enumerate(fr)]
        if max(colourings(k, nd * n, restricted, win, fr) for n in range(lo, hi + 1)) <= maxcol:
            if rng.random() < .12:
                c = C.nearly(rng, c)
            c = C.placed(rng, c, .2, turn=fr is None)
            random_system.crystal = c       # the crystal of the system made last
            return sysinput(c, k, lo, hi, restricted, win, fr)
