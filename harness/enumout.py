"""Reading enum.out independently of the library (fixed meaning of the columns)."""
import numpy as np
from engine import ints, as_int


def seven(rows):
    """Numbers as whole 1/10000 and the three digits after them."""
    return [[list(divmod(int(round(float(x) * 1e7)), 1000)) for x in r] for r in rows]


def read(path, rows, q):
    """(header, rows).  rows: the parent lattice the run was given, to express positions in q-ths of its vectors."""
    with open(path) as f:
        t = f.read().split("\n")
    fl = lambda l: [float(x) for x in l.split()]
    nD = int(t[5])
    lat = [fl(l) for l in t[2:5]]
    bas = [fl(l) for l in t[6:6 + nD]]
    o = 6 + nD
    assert t[o].endswith("-nary case"), t[o]
    hdr = {"bulk": t[1].strip(), "lat": seven(lat), "nD": nD,
           "D": ints(np.linalg.inv(np.array(rows, float).T) @ np.array(bas).T * q, 1e-6 * q * max(1.0, float(np.abs(np.linalg.inv(np.array(rows, float))).sum(0).max()))),
           "k": int(t[o].split("-")[0]), "sizes": [int(x) for x in t[o + 1].split()], "restricted": t[o + 4].strip(), "bas": bas, "latf": lat}
    hdr["D"] = [list(x) for x in zip(*hdr["D"])]
    out = []
    for l in t[o + 8:]:
        if not l.strip():
            continue
        d = l.split()
        assert len(d) == 28, "%d columns: %s" % (len(d), l)
        v = [int(x) for x in d[:26]]
        out.append({"num": v[0], "idx": v[5], "size": v[6], "S": v[8:11], "h": v[11:17], "L": [v[17:20], v[20:23], v[23:26]],
                    "lab": [int(x) for x in d[26]], "dir": [int(x) for x in d[27]]})
    return hdr, out
