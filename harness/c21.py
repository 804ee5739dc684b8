"""C21: POSCAR files, from a structure file written by this harness through phenumStr.run."""
import os, random
from engine import guarded, BAD
import crystals as C
import rsp
ASSUMPTIONS = ["displacements along the axes on lattices with integer axes (exact arithmetic), none on the others",
               "positions compared to the printed precision", "at most nine species (one digit per label)"]
DESIGN = []
NAMES = ["sc", "fcc", "bcc", "tet", "ort", "mon", "tri", "orf", "sc_neg", "sc_sk", "diamond", "cscl", "sc_cyc", "fluor", "tet2", "tri2", "out",
         "sc_off", "fcc_off", "bcc_t", "ort2"]
IRR = ["hex", "rhom", "hcp", "hex3", "rho2"]
ELS = ["Al", "Cu", "Ni", "Pd", "Ag", "Au", "Ti", "Zr", "Co", "Pt", "V"]


def cases(rng, quick, config):
    ins = []
    few = 900 if quick else 4000
    for t in range(few + (24 if quick else 150)):
        irr = rng.random() < .12
        c = C.crystal(rng.choice(IRR if irr else NAMES))
        if irr or rng.random() < .1:
            irr, c = True, C.placed(rng, c, .6, scales=[2.7183, 5.43095, 25.1])
        n = rng.randint(1, 7) if rng.random() < .8 else rng.randint(8, 14)
        if n * len(c.D) > 24:
            n = 3
        k = rng.choice([1, 2, 2, 3, 3, 4, 6])
        if t >= few:        # many atoms
            n, k = rng.choice([x for x in (13, 16, 20, 25, 30, 36, 48, 60) if 40 <= x * len(c.D) <= 130] or [60 // len(c.D)]), rng.choice([2, 3, 8, 9])
        arrows = rng.random() < .8
        s = rsp.structure(rng, c, k, n, arrows)
        j = rho = 0
        if not irr and rng.random() < .85:
            rho = rng.choice([0, 0, 0, 5, 25, 50])
            j = rng.choice([1, 2]) if rho else rng.choice([1, 2, 3, 5, 7, 10])
        num = rng.choice([1, 1, 3])
        sp = rng.choice([None, rng.sample(ELS, k)])
        det = abs(C.det3(c.lat.aint)) if c.lat.aint else 1
        m = 1000 if rho else 100
        f = 10 * det * m
        A = c.lat.aint or [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
        d = {"h": s["h"], "S": s["S"], "L": s["L"], "lab": s["lab"], "dirs": s["dirs"], "k": k, "D": c.D, "q": c.q, "G": c.lat.G,
             "j": j, "rho": rho, "f": f, "Ainv": _adj(A), "u": c.q * m * (1 if C.det3(A) > 0 else -1), "tol": max(1, (5 * f * c.q) // 100000),
             "num": num, "species": sp or [], "mink": rng.random() < .6, "rz": rng.random() < .5,
             "_rows": c.lat.A, "_bas": c.basis(), "_sc": c.lat.scale, "_name": c.name, "_title": rng.choice(["Random structure enumeration: 2016-07-21 15:42:57.223450", "fcc", "Al-Cu alloy of 2016", "test : x"]), "_pre": [rsp.structure(rng, c, k, rng.randint(1, 4), True) for _ in range(num - 1)],
             "_post": [rsp.structure(rng, c, k, 2, True)] if rng.random() < .5 else [], "seed": rng.randrange(10 ** 6)}
        if config:
            d["map"], d["species"] = mapping(rng, k, sp)
        d["key"] = "%s %s L%s lab%s dirs%s j%d rho%d num%d sp%s mink%d rz%d%s" % (
            c.name, s["h"], s["L"], s["lab"], s["dirs"], j, rho, num, d["species"], d["mink"], d["rz"], " map%s" % d["map"] if config else "")
        ins.append(d)
    return ins


def mapping(rng, k, sp):
    """Numbers of the species of the labels in the (possibly longer) list of species."""
    if rng.random() < .4:
        return [], sp or []
    big = rng.randint(k, k + 2)
    mp = rng.sample(range(big), k)
    if big == k:
        mp = list(range(k))
    if sp is None:
        return mp, []
    return mp, rng.sample(ELS, big)


def _adj(A):
    def cr(u, v):
        return [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    return C.transpose([cr(A[1], A[2]), cr(A[2], A[0]), cr(A[0], A[1])])


def suites(ctx):
    return [{"spec": "T_C21", "inputs": cases(ctx["rng"], ctx["tier"] == "quick", False), "cpu": 60}]


def arguments(inp, **kw):
    a = {"structures": [str(inp.get("num", 1))], "debug": False, "examples": False, "displace": inp["_sc"] * inp["j"] / 10.0, "input": "struct_enum.out",
         "mink": "t" if inp["mink"] else "f", "species": list(inp["species"]) or None, "verbose": None, "outfile": "vasp.{}",
         "rattle": inp["rho"] / 100.0, "species_mapping": None, "config": "f", "remove_zeros": "t" if inp["rz"] else "f"}
    a.update(kw)
    return a


def write_input(inp):
    this = {"h": inp["h"], "S": inp["S"], "L": inp["L"], "lab": inp["lab"], "dirs": inp["dirs"]}
    rsp.enum_file("struct_enum.out", inp["_rows"], inp["_bas"], inp["k"], inp["_pre"] + [this] + inp["_post"], inp["_title"])


def expected_scale(inp, species):
    """The length unit of the composition (the rule itself is C28)."""
    if not species:
        return 1.0
    import numpy as np
    from phenum.element_data import get_lattice_parameter
    cs = [inp["lab"].count(i) for i in range(inp["k"])]
    return float(get_lattice_parameter(species, cs, np.transpose(np.array(inp["_rows"])), len(inp["D"]), "t\n")[0])


def execute(inp):
    def go():
        import numpy as np
        import random as R
        from phenum.phenumStr import run
        write_input(inp)
        R.seed(inp["seed"])
        np.random.seed(inp["seed"])
        run(arguments(inp))
        files = sorted(x for x in os.listdir(".") if x != "struct_enum.out")
        if files != ["vasp.%d" % inp["num"]]:
            return {"st": "files", "note": str(files)}
        p = rsp.poscar(files[0])
        A = np.array(inp["_rows"], float)
        V = np.array(p["vecs"])
        toP = V @ np.linalg.inv(A)
        slv = [[rsp.grid(x, 1, 1e-5) for x in r] for r in toP]
        Q = inp["q"] * inp["f"]
        exact = np.round(toP)
        pos = [[rsp.near(x, Q) for x in np.array(a, float) @ exact] for a in p["atoms"]]
        if any(x == BAD for r in slv + pos for x in r):
            return {"st": "offlattice"}
        return {"st": "ok", "slv": slv, "pos": pos, "counts": p["counts"], "mode": p["mode"], "words": p["title"],
                "scale": rsp.near(p["scale"], 100), "want": rsp.near(float("%.2f" % expected_scale(inp, inp["species"])), 100)}
    st, v, note = guarded(go)
    if st != "ok":
        return {"st": st, "note": str(v) + note}
    return dict(v, nontrivial=inp["j"] > 0 and any(inp["dirs"]))
