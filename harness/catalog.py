"""Calls into the library with arguments that are shared by all calls of a session."""
import os
import latin

A0 = ["Random structure enumeration: x", "bulk", " 0.0 0.5 0.5", " 0.5 0.0 0.5", " 0.5 0.5 0.0", "    1", " 0.0 0.0 0.0", " 2-nary case",
      "   1   4", " 1e-7", "Concentration check:", "    F", "full list of labelings (including incomplete labelings) is used ", "Equivalency list: 1", "start   #tot  "]
ROW = "         1         1       1        1        1           1   2     1   1  1  2   1  0  1  1  1  2     1    0    0    0    1    0   -1   -1    1    01     13\n"
LAT = "1 2\nbulk\n0.5 0.5 0\n0.5 0 0.5\n0 0.5 0.5\n2\n2\n0 0 0\n1.25 0.25 -0.75\nT\nT\n0 1 2 0.5\n0 1 1 0\n"
LAT2 = "1 3\nsurface\n1 0 0\n0 1 0\n0 0 1\n3\n1\n0 0 0\nF\n"
REQ = "# request\n1 0 1 0 0 2  2 2  5\n1 0 1 0 0 1  1 1  1\n"
TAB = [("polya.out.1", 1, [[1, 1], [2, 0]], [([1, 0, 1, 0, 0, 1], [1, 1])]),
       ("polya.out.2", 2, [[2, 2], [1, 3]], [([1, 0, 1, 0, 0, 2], [3, 2]), ([1, 0, 2, 0, 1, 1], [4, 2]), ([1, 0, 1, 1, 1, 2], [2, 6])])]


def group(n, rev=False, one=0):
    """Cyclic (or dihedral) group of n sites with some effect on the directions, translations first."""
    out = []
    for f in ([0, 1] if rev else [0]):
        for t in range(n):
            p = [((n - i) if f else i) for i in range(n)]
            p = [(x + t) % n + one for x in p]
            out.append([p, [x + one for x in ([1, 0, 2, 3, 4, 5] if f else [0, 1, 2, 3, 4, 5])]])
    return out


def objects():
    import numpy as np
    fcc = [[0.5, 0.5, 0.0], [0.5, 0.0, 0.5], [0.0, 0.5, 0.5]]
    sq3 = 3 ** .5
    return {
        "fcc": fcc, "sc": [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], "hcp": [[1.0, 0.0, 0.0], [0.5, sq3 / 2, 0.0], [0.0, 0.0, 1.633]],
        "nfcc": np.array(fcc), "b1": [[0.0, 0.0, 0.0]], "b1out": [[2.0, -1.0, 1.0]], "zb": [[0.0, 0.0, 0.0], [0.25, 0.25, 0.25]],
        "zbout": [[0.0, 0.0, 0.0], [1.25, 0.25, -0.75]], "bh": [[0.0, 0.0, 0.0], [0.5, sq3 / 6, 0.8165]], "bhout": [[0.0, 0.0, 0.0], [1.5, sq3 / 6, -0.8165]],
        "nzb": np.array([[0.0, 0.0, 0.0], [1.25, 0.25, -0.75]]), "direct": [[0.0, 0.0, 0.0], [1.25, -0.75, 0.25]],
        "t1": [1], "t11": [1, 1], "t12": [1, 2],
        "H2": [[1, 0, 0], [0, 1, 0], [0, 0, 2]], "H4": [[1, 0, 0], [0, 2, 0], [0, 1, 2]], "M": [[3, 1, -2], [4, 7, 1], [0, -5, 6]], "h4": [1, 0, 2, 0, 1, 2], "h2": [1, 0, 1, 0, 0, 2],
        "c22": [2, 2], "c31": [3, 1], "c112": [1, 1, 2], "c4": [4], "c33": [3, 3], "c222": [2, 2, 2],
        "g4": group(4), "g4r": group(4, True), "g6": group(6, True), "g4one": group(4, False, 1),
        "d22": [[-1, 1], [-1, 1], [-1, 2], [-1, 2]], "d112": [[-1, 2], [-1, 3], [-1, 3], [1, 1]], "d13": [[1, 1], [-1, 2], [-1, 2], [-1, 2]],
        "dall": [[1, 1], [1, 1], [1, 1], [1, 1]], "d33": [[-1, 1]] * 3 + [[-1, 2]] * 3, "d222": [[-1, 1], [-1, 1], [-1, 2], [-1, 2], [1, 3], [1, 3]],
        "col": [[-1, 1], [0, 2], [0, 2], [-1, 1]], "colun": [[1, 2], [-1, 1], [1, 2], [-1, 3], [-1, 1], [-1, 1]],
        "sub": [1, 3, 4], "tr4": [x[0] for x in group(4)], "rots": group(4, True)[4:6] + group(4)[:1],
        "win": [[0, 1, 2], [1, 2, 2]], "winr": [[1, 0, 3], [1, 3, 3], [0, 2, 3]], "fr": [0.5, 0], "fr3": [1.0, 0.5, 0.0],
        "params": {"bulk": True, "sizes": [1, 2], "lat_vecs": [list(r) for r in fcc], "nspecies": 2, "basis_vecs": [[0.0, 0.0, 0.0], [1.25, 0.25, -0.75]],
                   "is_crestricted": True, "arrows": True, "concs": [[0.0, 1.0, 2.0, 0.5], [0.0, 1.0, 1.0, 0.0]]},
        "psc": {"bulk": False, "sizes": [1, 4], "lat_vecs": [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]], "nspecies": 2, "basis_vecs": [[0.0, 0.0, 0.0]],
                "is_crestricted": False, "arrows": [], "concs": []},
        "sys": {"plattice": np.transpose(np.array(fcc)), "dvecs": [[0.0, 0.0, 0.0]], "title": "x", "bulksurf": "bulk", "nD": 1, "k": 2, "eps": 1e-7},
        "str": {"strN": 3, "hnfN": 1, "hnf_degen": 1, "lab_degen": 1, "tot_degen": 1, "sizeN": 1, "n": 2, "pgOps": 1, "diag": [1, 1, 2],
                "HNF": [[1, 0, 0], [0, 1, 0], [1, 1, 2]], "L": [[1, 0, 0], [0, 1, 0], [-1, -1, 1]], "labeling": "01", "directions": "13"},
        "str4": {"strN": 4, "hnfN": 1, "hnf_degen": 1, "lab_degen": 1, "tot_degen": 1, "sizeN": 1, "n": 4, "pgOps": 1, "diag": [1, 2, 2],
                 "HNF": [[1, 0, 0], [0, 2, 0], [0, 0, 2]], "L": [[1, 0, 0], [0, 1, 0], [0, 0, 1]], "labeling": "0110", "directions": "0040"},
        "pargs": {"outfile": "vasp.{}", "species": ["Al", "Cu"], "displace": 0.1, "rattle": 0.0, "remove_zeros": False},
        "pargsr": {"outfile": "v", "species": None, "displace": 0.0, "rattle": 0.2, "remove_zeros": True},
        "space": {"sLV": [[0.5, 0.5, 0.0], [0.5, 0.0, 0.5], [0.5, 1.5, 1.0]], "aBas": [[0.0, 0.0, 0.0], [0.0, 0.5, 0.5]], "spin": [-1, 1], "gIndx": [0, 1], "x": [0.5, 0.5]},
        "els": ["Al", "Cu"], "skew": [[1.0, 0.0, 0.0], [5.0, 1.0, 0.0], [3.0, -4.0, 1.0]], "abas": [[0.25, 0.75, 1.25], [-0.5, 2.0, 0.0]], "v": [1.25, -0.75, 0.1],
        "cfg": [[-1, 1], [2, 2], [-1, 3]], "cfg1": [1, 2, 2, 1], "branch": [2, 1], "lab01": [0, 1, 1, 0], "arr": [3, 0, 5],
        "reads": {"structures": None, "input": "enum.out"}, "reads2": {"structures": [2], "input": "enum.out"},
        "perm1": [[0, 1, 2, 3], [1, 0, 3, 2]],
    }


def put(**files):
    for n, t in files.items():
        with open(n.replace("_", "."), "w") as f:
            f.write(t)


def tables():
    from tables import write_table
    for n, s, c, r in TAB:
        write_table(n, s, c, r)


def calls():
    """id, family, random numbers, objects, function of the objects"""
    from phenum import HNFs, grouptheory as gt, symmetry as sy, polyaburnside as pb, tree, phonons as ph, vector_utils as vu, element_data as ed, io_utils as io, structures as st, enumeration as en, numerics as nu
    import phenum.phenumStr as mk
    L = []

    def add(fam, rng, objs, fn):
        n = sum(1 for x in L if x[1] == fam)
        L.append(("%s%d" % (fam, n), fam, rng, objs.split(), fn))
    N = "none"
    for n, o in ((2, "fcc zbout"), (3, "hcp bhout"), (4, "sc b1"), (2, "nfcc zb"), (3, "fcc b1out"), (2, "sc b1")):
        add("hnfs", N, o, lambda l, b, n=n: HNFs.get_HNFs(n, l, b, 3))
    for o, ar in (("fcc zbout H2", True), ("fcc zbout H2", False), ("fcc b1 H4", True), ("sc b1 H4", True), ("hcp bhout H2", False), ("sc b1out H2", True), ("fcc nzb H4", False)):
        add("sym", N, o, lambda l, b, h, ar=ar: gt.get_sym_group(l, b, h, 3, arrows=ar))
    for o in ("fcc t11 zbout", "fcc t12 zbout", "hcp t11 bhout", "sc t1 b1out", "nfcc t11 zb"):
        add("space", N, o, lambda l, t, b: sy.get_spaceGroup(l, t, b))
    add("space", N, "fcc t11 direct", lambda l, t, b: sy.get_spaceGroup(l, t, b, lattcoords=True))
    for o in ("fcc", "sc", "hcp", "nfcc"):
        add("point", N, o, lambda l: sy.get_lattice_pointGroup(l))
    for o in ("fcc zb", "hcp bh", "sc b1"):
        add("dperm", N, o, lambda l, b: gt._get_dvector_permutations(l, b, 3, 1e-10, row_action=False))
    for o in ("H2", "H4", "M"):
        add("snf", N, o, lambda m: gt.SmithNormalForm(m))
        add("fixops", N, o + " fcc zb", lambda m, l, b: None)
    L[:] = [x for x in L if x[1] != "fixops"]
    add("snf", N, "h4", lambda h: gt.get_full_HNF(h))
    for o, a in (("c22 g4", None), ("c31 g4r", None), ("c22 g4one", None), ("c112 g4r", 1), ("c112 g4", 2), ("c4 g4r", 1), ("c31 g4one", 1), ("c33 g6", None)):
        add("polya", N, o, lambda c, g, a=a: pb.polya(c, g, arrowings=a))
    for o, sup in (("c22 g4 d22", False), ("c22 g4r d22", True), ("c33 g6 d33", False), ("c112 g4r d112", False), ("c31 g4r d13", True), ("c222 g6 d222", False)):
        add("tree", N, o, lambda c, g, d, sup=sup: tree.brancher(c, g, d, 6, sup, len(g[0][0])))
    add("tree", N, "c33 g6 d33 sub", lambda c, g, d, s: tree.brancher(c, g, d, 6, True, 6, 5, s))
    for o, n in (("c33 g6 d33", 2), ("c22 g4r d22", 2), ("c112 g4r d112", 3)):
        add("guess", "draws", o, lambda c, g, d, n=n: tree.guess_and_check_brancher(c, g, d, 6, False, len(g[0][0]), n))
    for o in ("col g4", "dall g4r", "d13 g4r"):
        add("arrows", N, o, lambda c, g: ph.add_arrows(c, g, 6, g[0:4]))
    add("arrowsr", "draws", "dall g4r", lambda c, g: ph.add_arrows(c, g, 6, g[0:4], num_wanted=3, small=True))
    add("arrowsr", "draws", "dall g4r", lambda c, g: ph.add_arrows(c, g, 6, g[0:4], accept=.4))
    add("arrowsr", "draws", "col g4", lambda c, g: ph.add_arrows(c, g, 6, g[0:4], accept=.5, supers=True))
    for o, n in (("c22 h2 params", 100), ("c31 h2 params", 100), ("c22 h4 psc", 100), ("c31 h4 psc", 100)):
        add("enumsys", N, o, lambda c, h, p, n=n: ph.enum_sys(None, c, ph.get_arrow_concs(p), n, h, p, True))
    for o, n in (("c22 h2 params", 3), ("c22 h4 psc", 2), ("c31 h2 params", 2)):
        add("enumsysr", "draws", o, lambda c, h, p, n=n: ph.enum_sys(None, c, ph.get_arrow_concs(p), n, h, p, False))
    for o, a in (("win", (2, 2, True, 1)), ("winr", (2, 3, True, 2)), ("win", (3, 2, False, 1)), ("winr", (1, 3, True, 3))):
        add("concs", N, o, lambda w, a=a: sy.get_concs_for_size(a[0], a[1], a[2], a[3], w))
    for o in ("sys str", "sys str4"):
        for m in (True, False):
            add("map", N, o, lambda s, t, m=m: vu.map_enumStr_to_real_space(s, t, m))

    def files(fn):
        fn()
        return {f: "\n".join(l for l in open(f).read().split("\n") if "enumeration:" not in l and "conf_id" not in l) for f in sorted(os.listdir("."))}
    add("poscar", N, "sys space str pargs", lambda s, p, t, a: files(lambda: io.write_POSCAR(s, p, t, dict(a, rattle=0.0))) and files(lambda: None))
    add("poscarr", "draws", "sys space str pargsr", lambda s, p, t, a: files(lambda: io.write_POSCAR(s, p, t, a)))
    add("poscarr", "draws", "sys space str pargs", lambda s, p, t, a: files(lambda: io.write_config(s, p, t, a)))
    L[:] = [x if x[0] != "poscar0" else x[:2] + ("draws",) + x[3:] for x in L]     # random numbers are drawn and multiplied with zero
    for o in ("skew", "fcc", "hcp"):
        add("mink", N, o, lambda b: vu._minkowski_reduce_basis(b, 1e-10))
    for o in ("skew abas", "fcc abas"):
        add("mink", N, o, lambda l, b: vu.cartesian2direct(l, b, 1e-10))
    for o, rz in (("els c22 fcc", False), ("els c31 fcc", True)):
        add("latpar", N, o, lambda e, c, l, rz=rz: ed.get_lattice_parameter(e, c, l, 1, "t", remove_zeros=rz))
    add("latpar", N, "fcc", lambda l: ed.get_lat_param_element(l, 1, "Al"))
    for o in ("tr4 rots",):
        add("agroup", N, o, lambda t, r: gt.a_group(t, r))
        add("agroup", N, o, lambda t, r: gt.a_group_gen(t, r))
    add("agroup", N, "perm1", lambda g: pb.group([list(x) for x in g]))
    for o in ("c22 fr", "c31 fr", "c112 fr3"):
        add("deco", N, o, lambda c, f: ph.arrow_concs(c, f))
    for o in ("colun", "col", "d112"):
        add("deco", N, o, lambda c: ph.how_many_arrows(c))
        add("deco", N, o, lambda c: ph._col_sort(c))
    add("deco", N, "params", lambda p: ph.get_arrow_concs(p))
    add("deco", N, "cfg", lambda c: io.create_labeling(c))
    add("deco", N, "cfg1", lambda c: io.create_labeling(c))
    add("hash", N, "lab01", lambda c: tree._hash(c))
    add("hash", N, "branch c22", lambda b, c: tree._invhash(b, c, 4))
    add("hash", N, "branch c31", lambda b, c: tree._invhash(b, c, 4))
    add("hash", N, "arr", lambda a: ph._ahash(a, 6))
    add("hash", N, "arr", lambda a: ph._ainvhash(95, 3, 6))
    add("hash", N, "c112", lambda c: [nu.multinomial(c), nu.factorial(12), nu.binomial_coefficient(20, 7)])
    add("hash", N, "c222", lambda c: [nu.multinomial(c), nu.factorial(5), nu.binomial_coefficient(30, 3)])
    for o in ("v fcc", "v hcp"):
        add("cell", N, o, lambda v, l: sy.bring_into_cell(v, *(reversed(sy._get_transformations(l))), 1e-10))
    for t in (LAT, LAT2):
        add("read", N, "", lambda t=t: (put(lattice_in=t), io.read_lattice("lattice.in"))[1])
    add("read", N, "", lambda: (put(enum_in=REQ), io.read_enum("enum.in"))[1])
    for o, n in (("reads", 2), ("reads", 3), ("reads2", 3)):
        add("read", N, o, lambda r, n=n: (put(enum_out="\n".join(A0) + "\n" + "".join(ROW.replace("         1         1", "%10d         1" % (i + 1), 1) for i in range(n))), io.read_enum_out(r))[1])
    add("write", N, "params", lambda p: files(lambda: io.write_enum(p)))
    add("write", N, "psc", lambda p: files(lambda: io.write_enum(p)))
    add("write", N, "params", lambda p: files(lambda: io.write_struct_enum(p)))
    add("write", N, "psc", lambda p: files(lambda: io.write_struct_enum(p)))
    for ft, n in (("all", 7), ("size", 7), ("shape", None), ("conc", 3)):
        add("dist", "resets", "", lambda ft=ft, n=n: (tables(), st._distribute("polya.out", [1, 2], ft, n=n, seed=11))[1])
    add("dist", "resets", "", lambda: files(lambda: (tables(), st.make_enum_in("polya.out", "all", "enum.in", number=5, seed=3))))
    add("dist", "resets", "", lambda: files(lambda: (tables(), st.make_enum_in("polya.out", "shape", "enum.in", number=5, seed=4, sizes=[2]))))
    for t in (LAT, LAT2):
        add("cmd", "resets", "", lambda t=t: files(lambda: (put(lattice_in=t), en._script_enum(latin.args(polya=True, seed=1), testmode=True))))
        add("cmd", "resets", "", lambda t=t: files(lambda: (put(lattice_in=t), en._script_enum(latin.args(enum=True, seed=5, distribution=["all", "6"]), testmode=True))))
    add("cmd", "resets", "", lambda: files(lambda: (put(lattice_in=LAT, enum_in=REQ), en._script_enum(latin.args(enum=True, seed=5, super=True), testmode=True))))
    return L
