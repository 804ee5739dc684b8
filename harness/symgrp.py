"""Shared driver: the symmetry group of a supercell (C08, C09)."""
import copy
from engine import ints, guarded, shape_ok
import crystals as C


def call(inp, arrows):
    from phenum.grouptheory import get_sym_group, SmithNormalForm
    rows = copy.deepcopy(inp["_rows"])
    bas = C.cart_basis(inp)
    H = C.full(inp["h"])
    st, v, out = guarded(SmithNormalForm, copy.deepcopy(H))
    if st != "ok":
        return {"st": "snf-" + st, "note": str(v) + out}
    M, L = ints(v[0]), ints(v[1])
    st, g, out = guarded(get_sym_group, rows, bas, H, 3, arrows=arrows)
    if st != "ok":
        return {"st": st, "note": str(g) + out}
    p = ints(g.perm.site_perm)
    n = inp["n"] * len(inp["D"])
    if not shape_ok(p, None, n) or not all(sorted(x) == list(range(n)) for x in p):
        return {"st": "not permutations"}
    r = {"st": "ok", "S": [M[0][0], M[1][1], M[2][2]], "L": L, "perms": p}
    if arrows:
        a = ints(g.perm.arrow_perm)
        if not shape_ok(a, len(p), 6):
            return {"st": "malformed"}
        r["arrows"] = a
    return r


def mk(c, h, **k):
    i = c.inp()
    i["h"], i["n"] = h, h[0] * h[2] * h[5]
    i["key"] = "%s h=%s" % (c.name, h)
    i.update(k)
    return i


def large(rng, names, m, most):
    """Crystals with cells of many sites: rods and plates on which many rotations move nothing, cubes, and cells of any shape."""
    out = []
    while len(out) < m:
        c = C.crystal(rng.choice(names))
        nd = len(c.D)
        n = rng.choice([x for x in (5, 7, 8, 9, 10, 12, 13, 14, 16, 18, 20, 24, 27, 32) if x * nd <= most] or [1])
        kind = rng.choice(["rod", "plate", "any", "cube"])
        if kind == "rod":
            h = rng.choice([[1, 0, 1, 0, 0, n], [1, 0, n, 0, 0, 1], [n, 0, 1, 0, 0, 1]])
        elif kind == "plate":
            a = rng.choice([d for d in range(1, n + 1) if n % d == 0])
            h = rng.choice([[1, 0, a, 0, 0, n // a], [a, 0, 1, 0, 0, n // a], [a, 0, n // a, 0, 0, 1]])
        elif kind == "cube" and 8 * nd <= most:
            a = rng.choice([x for x in (2, 3) if x ** 3 * nd <= most])
            h = [a, 0, a, 0, 0, a]
        else:
            h = rng.choice(C.all_hnfs(n))
        out.append((c, h))
    return out


def long(rng, names, m):
    """Cells of more than a hundred sites of crystals with few symmetries."""
    out = []
    for _ in range(m):
        n = rng.choice([80, 129, 137, 150])
        h = rng.choice([[1, 0, 1, 0, 0, n], [1, 0, 1, rng.randrange(n), rng.randrange(n), n], [1, 0, n, 0, 0, 1], [1, rng.randrange(n), n, 0, 0, 1]])
        out.append((C.crystal(rng.choice(names)), h))
    return out
