"""C28: lattice parameter by concentration-weighted average."""
import random
from engine import guarded
import crystals as C
ASSUMPTIONS = ["lengths compared to a millionth", "the volumes of the elements are data: the table in T_C28.tla"]
DESIGN = []
EL = ("H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh "
      "Pd Ag Cd In Sn Sb Te I Xe Cs Ba Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi").split()


def suites(ctx):
    rng, quick = ctx["rng"], ctx["tier"] == "quick"
    ins = []

    def lat():
        while True:
            A = [[rng.choice([0, 0, 1, -1, 2, .5, -.5, 1.5, 3]) for _ in range(3)] for _ in range(3)]
            v = C.det3(A)
            if abs(v) > .1:
                w = abs(v) * 1000
                return A, int(round(w))
    for i, e in enumerate(EL):
        A, w = lat()
        ins.append({"kind": "mix", "elems": [e], "concs": [rng.randint(1, 9)], "lat": A, "vol": w, "nb": rng.randint(1, 4)})
        o = [e] + rng.sample([x for x in EL if x != e], rng.randint(1, 4))
        rng.shuffle(o)
        c = [rng.randint(0, 8) for _ in o]
        if sum(c) == 0:
            c[0] = 2
        A, w = lat()
        ins.append({"kind": "mix", "elems": o, "concs": c, "lat": A, "vol": w, "nb": rng.randint(1, 4)})
    for _ in range(300 if quick else 1500):
        o = rng.sample(EL, rng.randint(1, 6))
        c = [rng.choice([0, 1, 1, 2, 3, 5, 8, 40]) for _ in o]
        if sum(c) == 0:
            c[-1] = 1
        A, w = lat()
        ins.append({"kind": "mix", "elems": o, "concs": c, "lat": A, "vol": w, "nb": rng.randint(1, 6)})
    for c in ([3], [1, 0], [2, 3, 4], [0, 0, 5]):
        A, w = lat()
        ins.append({"kind": "none", "elems": [], "concs": c, "lat": A, "vol": w, "nb": 1})
    for _ in range(20):
        o = rng.sample(EL, rng.randint(2, 5))
        c = [rng.randint(1, 4) for _ in o]
        A, w = lat()
        d = rng.choice([-1, 1])
        ins.append({"kind": "bad", "elems": o, "concs": c[:-1] if d < 0 else c + [1], "error": "ValueError", "lat": A, "vol": w, "nb": 1})
        x = list(o)
        x[rng.randrange(len(x))] = rng.choice(["Xx", "al", "PD", "", "Q"])
        ins.append({"kind": "bad", "elems": x, "concs": c, "error": "KeyError", "lat": A, "vol": w, "nb": 1})
    for i in ins:
        i["_lat"] = i.pop("lat")
        i["key"] = "%s %s %s nb%d %s" % (i["kind"], i["elems"], i["concs"], i["nb"], i["_lat"])
        i["rz"] = rng.random() < .5
        i["seed"] = rng.randrange(10 ** 6)
    return [{"spec": "T_C28", "inputs": ins, "cpu": 30}]


def execute(inp):
    def go():
        from phenum.element_data import get_lattice_parameter as f
        mil = lambda x: int(round(float(x) * 1e6))
        L, nb = inp["_lat"], inp["nb"]

        def call(e, c):
            return float(f(e, list(c), [list(r) for r in L], nb, "title", inp["rz"])[0])
        el, cs = list(inp["elems"]), list(inp["concs"])
        if inp["kind"] == "none":
            v = call(None, cs)
            return {"lat": mil(v), "exact": v == 1.0}
        lat = call(el, cs)
        if inp["kind"] == "bad":
            return {"lat": mil(lat)}
        r = random.Random(inp["seed"])
        p = list(range(len(el)))
        r.shuffle(p)
        k = r.randint(2, 5)
        j = r.randrange(len(el) + 1)
        near = lambda v: mil(lat) if abs(v - lat) < 1e-9 * lat else mil(v) + (2 if mil(v) == mil(lat) else 0)
        return {"lat": mil(lat), "pure": [mil(call([x], [1])) for x in el],
                "shuffled": near(call([el[i] for i in p], [cs[i] for i in p])),
                "scaled": near(call(el, [k * c for c in cs])),
                "padded": near(call(el[:j] + ["W"] + el[j:], cs[:j] + [0] + cs[j:]))}
    st, v, _ = guarded(go)
    return {"st": st, "note": str(v)} if st != "ok" else dict(v, st="ok")
