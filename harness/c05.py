"""C05: the list of Hermite normal forms of a size."""
from engine import ints, guarded, shape_ok, BAD
ASSUMPTIONS = ["cell sizes up to the bound of the tier; larger sizes follow the same loops"]
DESIGN = [{"module": "MC_Lattice.tla", "cfg": "MC_Lattice.cfg"}]


def suites(ctx):
    quick = ctx["tier"] == "quick"
    # every size up to a bound, and larger ones with large prime factors,
    # high powers of a prime and many divisors
    large = [49, 64, 72, 81, 97, 121, 125, 128, 144, 211] if quick else \
        [81, 83, 89, 96, 97, 101, 113, 121, 125, 127, 128, 144, 162, 169, 180, 211, 216, 240, 251, 256]
    return [{"spec": "T_C05", "inputs": [{"n": n} for n in list(range(1, 41 if quick else 81)) + large]}]


def execute(inp):
    from phenum.HNFs import find_all_HNFs
    st, v, _ = guarded(find_all_HNFs, inp["n"])
    if st != "ok":
        return {"st": st, "note": str(v)}
    hn = ints(v)
    if not shape_ok(hn, None, 3, 3):
        return {"st": "malformed"}
    return {"st": "ok", "upper_zero": all(h[0][1] == 0 and h[0][2] == 0 and h[1][2] == 0 for h in hn),
            "hnfs": [[h[0][0], h[1][0], h[1][1], h[2][0], h[2][1], h[2][2]] for h in hn]}
