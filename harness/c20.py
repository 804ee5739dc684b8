"""C20: folding points into a cell."""
from engine import guarded, BAD
import crystals as C
ASSUMPTIONS = ["points in rational coordinates, also moved by less than the tolerance", "up to 30 cells away"]
DESIGN = []


def suites(ctx):
    rng, quick = ctx["rng"], ctx["tier"] == "quick"
    ins = []
    names = sorted(C.LATS)
    for t in range(1000 if quick else 4000):
        L = C.LATS[rng.choice(names)] if rng.random() < .7 else C.random_lattice(rng)
        L = C.placed(rng, L, .3)
        q = rng.choice([1, 2, 3, 4, 5, 6, 8, 12])
        kind = rng.choice(["direct", "fold"])
        if kind == "direct":
            if rng.random() < .6:
                R = C.transpose(C.full(rng.choice(C.all_hnfs(rng.randint(1, 9)))))
            else:
                R = [[rng.randint(-3, 3) for _ in range(3)] for _ in range(3)]
                if C.det3(R) == 0:
                    continue
        else:
            R = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
        far = rng.choice([1, 2, 6, 30])
        pts = []
        for _ in range(6):
            c = rng.random()
            if c < .3:
                p = [rng.randint(-far * q, far * q) for _ in range(3)]
            elif c < .6:       # on faces and corners
                p = [q * sum(rng.choice([-far, 0, 1, far]) * R[i][k] for i in range(3)) for k in range(3)]
            else:
                p = [rng.choice([0, q, -q, q - 1, -1, 1, 2 * q]) for _ in range(3)]
            pts.append(p)
        eps = rng.choice([1e-10, 1e-7, 1e-5, 1e-3])
        wob = rng.choice([0, 0, 1e-3, .3])     # part of eps
        ins.append({"kind": kind, "lat": L.name, "R": R, "q": q, "pts": pts, "_A": L.A, "eps": str(eps), "wob": str(wob),
                    "seed": rng.randrange(10 ** 6), "key": "%s %s %s q%d %s eps%s wob%s %s" % (kind, L.name, R, q, pts, eps, wob, L.A)})
    return [{"spec": "T_C20", "inputs": ins, "cpu": 20}]


def execute(inp):
    def go():
        import random
        import numpy as np
        from phenum import vector_utils as v, symmetry as s
        r = random.Random(inp["seed"])
        A = np.array(inp["_A"], float)
        R = np.array(inp["R"], float)
        q, eps, wob = inp["q"], float(inp["eps"]), float(inp["wob"])
        cell = R @ A if inp["kind"] == "direct" else A
        frac = np.array(inp["pts"], float) / q                       # parent coordinates
        own = frac @ np.linalg.inv(R) if inp["kind"] == "direct" else frac
        own = own + np.array([[r.uniform(-1, 1) * wob * eps for _ in range(3)] for _ in own])
        cart = [list(map(float, x)) for x in (own @ cell)]
        if inp["kind"] == "direct":
            out = v.cartesian2direct([list(map(float, x)) for x in cell], cart, eps)
            unit = q * abs(int(round(np.linalg.det(R))))
            co = [[float(x) for x in p] for p in out]
        else:
            l2c, c2l = s._get_transformations([list(map(float, x)) for x in cell])
            out = [s.bring_into_cell(p, c2l, l2c, eps) for p in cart]
            unit = q
            co = [[float(x) for x in np.array(p, float) @ np.linalg.inv(cell)] for p in out]
        # the wobble must not have been amplified: allow it, and rounding
        tol = (eps * wob + 1e-9) * unit * 1.01
        o = [[int(round(x * unit)) if abs(x * unit - round(x * unit)) <= tol else BAD for x in p] for p in co]
        inside = all(-eps * 1.001 - 1e-12 <= x < 1 - eps * .999 + 1e-12 for p in co for x in p)
        return {"out": o, "inside": bool(inside)}
    st, v, note = guarded(go)
    if st != "ok":
        return {"st": st, "note": str(v) + note}
    return dict(v, st="ok")
