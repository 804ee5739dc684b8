"""C26: sessions of calls, walked by TLC over Calls.tla, done in one process; every result is compared with the same call
in a new process, and all arguments and earlier results are watched."""
import hashlib, json, os, pickle, random, shutil, tempfile
from engine import guarded, generate, Unobservable
import catalog
ASSUMPTIONS = ["the catalogue of calls (catalog.py); the functions take part with a few arguments each", "calls with random numbers are compared under the same seed of both generators (random, numpy.random)"]
DESIGN = [{"module": "MC_Calls.tla", "cfg": "MC_Calls.cfg"}]


def suites(ctx):
    import engine
    engine.setup_import()
    quick = ctx["tier"] == "quick"
    path = os.path.join(ctx["scratch"], "catalog.ndjson")
    with open(path, "w") as f:
        for i, fam, rng, _, _ in catalog.calls():
            f.write(json.dumps({"id": i, "fam": fam, "rng": rng}) + "\n")
    hs = generate("MC_Calls.tla", "Gen_Calls.cfg", 700 if quick else 12000, 16, ctx["seed"], ctx["scratch"], env={"CATALOG": path})
    return [{"spec": "T_C26", "inputs": [{"hist": h, "key": "session %s" % [x["a"].get("id") or [x["a"]["op"], x["a"].get("i", x["a"].get("seed"))] for x in h]} for h in hs], "cpu": 100}]


def plain(v, depth=0):
    import numpy as np
    if depth > 12:
        return "deep"
    if isinstance(v, np.ndarray):
        return ["array"] + plain(v.tolist(), depth + 1) if v.ndim else float(v)
    if isinstance(v, (np.floating, float)):
        return "%.9g" % (float(v) + 0.0) if abs(v) > 1e-9 else "0"
    if isinstance(v, (bool, str)) or v is None:
        return v
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (list, tuple)):
        return [plain(x, depth + 1) for x in v]
    if isinstance(v, dict):
        return sorted(([repr(plain(k)), plain(x, depth + 1)] for k, x in v.items()))
    if isinstance(v, (set, frozenset)):
        return sorted((plain(x, depth + 1) for x in v), key=repr)
    if hasattr(v, "__dict__"):
        return [type(v).__name__, plain(vars(v), depth + 1)]
    return repr(type(v))


def digest(v):
    return hashlib.sha1(repr(plain(v)).encode()).hexdigest()[:16]


def parts(v, out, depth=0):
    """Everything that can be changed in place and is reachable from v."""
    import numpy as np
    if isinstance(v, (list, dict, set, np.ndarray)) or hasattr(v, "__dict__"):
        if id(v) in out:
            return out
        out[id(v)] = v
    for x in (v if isinstance(v, (list, tuple)) else v.values() if isinstance(v, dict) else vars(v).values() if hasattr(v, "__dict__") else []):
        if not isinstance(x, (int, float, str)):
            parts(x, out, depth + 1)
    return out


def scribble(v, objs):
    """Change everything in a result, except what it shares with the arguments."""
    import numpy as np
    keep = parts(objs, {})
    for i, x in list(parts(v, {}).items()):
        if i in keep:
            continue
        if isinstance(x, list):
            x.reverse()
            x.append("scribble")
        elif isinstance(x, dict):
            x["scribble"] = 1
        elif isinstance(x, np.ndarray):
            if x.flags.writeable:
                x.fill(-77)
        elif isinstance(x, set):
            x.clear()


def forked(fn):
    """fn() in a copy of this process, which itself never calls the library."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = pickle.dumps((True, fn()))
            except BaseException as e:
                out = pickle.dumps((False, "%s: %s" % (type(e).__name__, e)))
            with os.fdopen(w, "wb") as f:
                f.write(out)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("the call ended its process")
    ok, v = pickle.loads(data)
    if not ok:
        raise (Unobservable if v.startswith("Unobservable") else RuntimeError)(v)
    return v


def seed(n):
    import numpy as np
    random.seed(n)
    np.random.seed(n)


def one(call, objs):
    d = tempfile.mkdtemp()
    here = os.getcwd()
    os.chdir(d)
    try:
        st, v, note = guarded(call[4], *[objs[o] for o in call[3]], cpu=60)
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)
    return v if st == "ok" else ["failed", st, str(v)]


REFS = {}
CAT = {}


def reference(tag):
    """The result of a call in a new process: its arguments made new, the seed set and the calls repeated that drew since."""
    k = repr(tag)
    if k not in REFS:
        def fn():
            i, rng = tag
            if rng:
                seed(rng[0])
                for c in rng[1:]:
                    one(CAT[c], catalog.objects())
            v = one(CAT[i], catalog.objects())
            return [digest(v), str(v)[:200] if isinstance(v, list) and len(v) == 3 and isinstance(v[0], str) and v[0] == "failed" else ""]
        REFS[k] = forked(fn)
    return REFS[k]


def session(hist):
    objs = catalog.objects()
    first = {k: digest(v) for k, v in objs.items()}
    held, obs = [], []
    for x in hist:
        a, d = x["a"], ""
        if a["op"] == "seed":
            seed(a["seed"])
        elif a["op"] == "scribble":
            scribble(held[a["i"] - 1][0], objs)
            held[a["i"] - 1][1] = digest(held[a["i"] - 1][0])
        else:
            v = one(CAT[a["id"]], objs)
            d = digest(v)
            held.append([v, d])
        changed = [k for k, v in objs.items() if digest(v) != first[k]]
        late = [i + 1 for i, (v, e) in enumerate(held) if digest(v) != e]
        obs.append({"d": d, "args": changed, "held": late})
        for k in changed:
            first[k] = digest(objs[k])
        for i in late:
            held[i - 1][1] = digest(held[i - 1][0])
    return obs


def execute(inp):
    import signal
    signal.setitimer(signal.ITIMER_PROF, 0)
    if not CAT:
        CAT.update({c[0]: c for c in catalog.calls()})
    tags = []
    for x in inp["hist"]:
        if x["a"]["op"] == "call" and x["tag"] not in tags:
            tags.append(x["tag"])
    refs = [reference(t) for t in tags]
    obs = forked(lambda: session(inp["hist"]))
    return {"st": "ok", "obs": obs, "refs": [{"tag": t, "d": r[0]} for t, r in zip(tags, refs)], "note": "; ".join(r[1] for r in refs if r[1])[:500]}
