"""C06: symmetry-distinct supercells."""
import copy
from engine import ints, guarded, shape_ok
import crystals as C
ASSUMPTIONS = ["lattices are given to the specification by their exact integer Gram matrix, to the code as floats",
               "space group rotations act on superlattices; crystals are valid (atoms at distinct positions)"]
DESIGN = []


def suites(ctx):
    rng, quick = ctx["rng"], ctx["tier"] == "quick"
    xs = []
    for nm in C.LATS:
        for n in ([2, 3, 4, 6] if quick else range(1, 9)):
            xs.append((C.crystal(nm), n))
    for nm in C.BASES:
        for n in ([2, 4] if quick else range(1, 7)):
            xs.append((C.crystal(nm), n))
    for _ in range(12 if quick else 120):
        lat = C.random_lattice(rng)
        D, q = ([[0, 0, 0]], 1) if rng.random() < .5 else ([[0, 0, 0], [rng.randrange(4), rng.randrange(4), 1 + rng.randrange(3)]], 4)
        xs.append((C.Crystal(lat, D, q, name=lat.name + "/%s" % D), rng.choice([2, 3, 4, 5, 6])))
    for nm in C.gen_names(rng, 24 if quick else 200):
        xs.append((C.crystal(nm), rng.choice([1, 2, 3, 4, 6])))
    # large cells: many lattices close to each other
    big = [("tri", 11), ("tri", 13), ("tri", 17), ("mon", 11), ("mon", 13), ("ort", 11), ("rhom", 13), ("hex2", 11), ("tri2", 11), ("sc", 13),
           ("tri", 19), ("tri", 12), ("mon_z", 12)]
    if not quick:
        big += [("tri", 23), ("tri", 29), ("tri", 31), ("mon", 23), ("tri", 20), ("tri", 24), ("ort", 17), ("fcc", 13), ("tet", 16), ("hex", 13), ("bct", 12),
                ("mon2", 17), ("orc", 12)]
    xs += [(C.crystal(nm), n) for nm, n in big]
    for nm in rng.sample(list(C.LATS) + list(C.BASES) + C.gen_names(rng, 12), 24) * (1 if quick else 6):
        xs.append((C.nearly(rng, C.crystal(nm)), rng.choice([2, 3, 4, 6])))
    inputs = []
    for c, n in xs:
        c = C.placed(rng, c, .25)
        i = c.inp()
        i["n"] = n
        i["key"] = "%s n=%d" % (c.name, n)
        inputs.append(i)
    inputs.sort(key=lambda i: -i["n"] * len(i["D"]))
    return [{"spec": "T_C06", "inputs": inputs, "cpu": 300}]


def execute(inp):
    from phenum.HNFs import get_HNFs
    rows = copy.deepcopy(inp["_rows"])
    bas = C.cart_basis(inp)
    st, v, out = guarded(get_HNFs, inp["n"], rows, bas, 3)
    if st != "ok":
        return {"st": st, "note": str(v) + out}
    hn = ints(v)
    if not shape_ok(hn, None, 3, 3):
        return {"st": "malformed"}
    return {"st": "ok", "upper_zero": all(h[0][1] == 0 and h[0][2] == 0 and h[1][2] == 0 for h in hn),
            "lat_same": rows == inp["_rows"],
            "hnfs": [[h[0][0], h[1][0], h[1][1], h[2][0], h[2][1], h[2][2]] for h in hn]}
