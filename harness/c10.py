"""C10: point group and space group of the parent crystal."""
import copy
from engine import ints, guarded, shape_ok
import crystals as C
ASSUMPTIONS = ["lattices of moderate shape (coordinates of equivalent vectors at most 3)"]
DESIGN = []


def suites(ctx):
    rng, quick = ctx["rng"], ctx["tier"] == "quick"
    cs = [C.crystal(nm) for nm in list(C.LATS) + list(C.BASES) + C.gen_names(rng, 60 if quick else 400)]
    for nm in C.BASES:
        c = C.crystal(nm)
        if len(c.D) > 1:
            for _ in range(2):
                c2 = C.crystal(nm)
                c2.types = [rng.randint(1, 2) for _ in c.D]
                c2.name = nm + "/types%s" % c2.types
                cs.append(c2)
    for _ in range(250 if quick else 500):
        lat = C.random_lattice(rng)
        q = rng.choice([2, 3, 4, 6])
        D = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            d = [rng.randrange(q) for _ in range(3)]
            if d not in D:
                D.append(d)
        t = [rng.randint(1, 2) for _ in D]
        cs.append(C.Crystal(lat, D, q, types=t, name=lat.name + "/%s/%d/%s" % (D, q, t)))
    for _ in range(14 if quick else 60):        # many atoms: grids, with some of another kind or left out
        nm = rng.choice(["ort", "mon", "tri", "tet"])
        a, b, m = rng.choice([(1, 1, 18), (1, 1, 24), (1, 2, 10), (2, 3, 3), (1, 20, 1), (2, 2, 5), (3, 1, 8)] if nm != "tet" else [(1, 1, 18), (2, 2, 5), (3, 3, 2)])
        q = a * b * m // (2 if a == b == 2 or (a, b) == (1, 2) else 3 if a == b == 3 else 1)
        while q % a or q % b or q % m:
            q += 1
        D = [[x * q // a, y * q // b, z * q // m] for x in range(a) for y in range(b) for z in range(m)]
        t = [1] * len(D)
        if rng.random() < .4:
            for j in range(len(D)):
                t[j] = 1 + (D[j][2] * m // q + D[j][0] * a // q) % 2
        if rng.random() < .3:
            for j in sorted(rng.sample(range(1, len(D)), rng.randint(1, 2)), reverse=True):
                del D[j], t[j]
        o = rng.sample(range(len(D)), len(D))
        cs.append(C.Crystal(nm, [D[j] for j in o], q, types=[t[j] for j in o], name="grid %s %d %d %d/%s" % (nm, a, b, m, o[:6])))
    cs = [C.placed(rng, c) for c in cs]
    near = [C.placed(rng, C.nearly(rng, C.crystal(nm)), .2) for nm in (list(C.LATS) + list(C.BASES) + C.gen_names(rng, 20)) * (1 if quick else 6)]
    many = [nm for nm in list(C.BASES) + C.gen_names(rng, 20) if len(C.crystal(nm).D) > 1] * (1 if quick else 6)
    fine = [C.placed(rng, C.nearly(rng, C.crystal(nm), [20000, 200000]), .3, scales=[2.7183, 4.05, 25.1]) for nm in many]
    cs += near + fine
    for _ in range(40 if quick else 150):       # the normal of a surface along x
        b = [rng.randint(1, 4), 0, rng.randint(1, 4)]
        a = [[rng.choice([1, 2, 3, b[0], b[2]]), 0, 0], [0, b[0], rng.choice([0, 0, 0, 1, -1, b[0]])], [0, 0, b[2]]]
        lat = C.Lat("plane%s" % a, a, scale=rng.choice([1.0, .5]))
        if max(lat.G[i][i] for i in range(3)) > 24:
            continue
        q = rng.choice([2, 4])
        D = [[0, 0, 0]] + ([[rng.randrange(q), rng.randrange(q), rng.randrange(1, q)]] if rng.random() < .6 else [])
        cs.append(C.Crystal(lat, D, q, types=[rng.randint(1, 2) for _ in D], name=lat.name + "/%s/%d" % (D, q)))
    inputs = []
    for c in cs:
        i = c.inp()
        a = c.lat.aint
        i["surf"] = bool(a) and a[0][1] == a[0][2] == a[1][0] == a[2][0] == a[2][1] == 0
        i["latt"] = rng.random() < .3
        i["_eps"] = 1e-10 if c in fine else rng.choice([1e-10, 1e-7] if "~" in c.name else [1e-10, 1e-7, 1e-5])
        i["key"] = c.name + (" latt" if i["latt"] else "")
        inputs.append(i)
    return [{"spec": "T_C10", "inputs": inputs, "cpu": 200}]


def execute(inp):
    from phenum.symmetry import get_lattice_pointGroup, get_spaceGroup
    rows = copy.deepcopy(inp["_rows"])
    st, pg, out = guarded(get_lattice_pointGroup, rows, eps=inp["_eps"])
    if st != "ok":
        return {"st": st, "note": str(pg) + out}
    if inp["latt"]:
        bas = [[x / float(inp["q"]) for x in d] for d in inp["_D"]]
    else:
        bas = C.cart_basis(inp)
    st, v, out = guarded(get_spaceGroup, rows, list(inp["types"]), bas, eps=inp["_eps"], lattcoords=inp["latt"])
    if st != "ok":
        return {"st": st, "note": str(v) + out}
    sf, surf = [[], []], inp["surf"]
    try:
        from phenum.grouptheory import _rm_3D_operations
    except ImportError:
        surf = False
    if surf:
        st, sf, out = guarded(_rm_3D_operations, rows, v[0], v[1], inp["_eps"])
        if st != "ok":
            return {"st": st, "note": "surface: " + str(sf) + out}
    return {"st": "ok", "surf": surf, "sfU": [C.lat_op(rows, R) for R in sf[0]], "sfT": [C.lat_vec(rows, t, inp["q"]) for t in sf[1]],
            "pg": [C.lat_op(rows, R) for R in pg], "sgU": [C.lat_op(rows, R) for R in v[0]],
            "sgT": [C.lat_vec(rows, t, inp["q"]) for t in v[1]]}
