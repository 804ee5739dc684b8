"""Common machinery: run the real code on many inputs in worker processes, hand
the recorded behaviour to TLC, collect total verdicts, filter known findings,
write evidence.  Exit 0 / 1 are verdicts; anything else is a machinery error."""
import contextlib, io, json, multiprocessing, os, re, resource, shutil, signal, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("PHENUM_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = 8
BAD = -1000000007          # sentinel for "not a representable integer"


class CpuLimit(BaseException):
    pass


def setup_import():
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    os.environ.setdefault("MPLBACKEND", "Agg")


def as_int(x, tol=0.0):
    """An int that TLC can hold, or BAD."""
    try:
        f = float(x)
        r = int(round(f))
        if abs(f - r) > tol or abs(r) >= 2 ** 30:
            return BAD
        return r
    except Exception:
        return BAD


def ints(v, tol=0.0):
    """Recursively convert to nested lists of ints."""
    import numpy as np
    if isinstance(v, (list, tuple, range, np.ndarray)):
        return [ints(x, tol) for x in v]
    return as_int(v, tol)


def shape_ok(v, *dims):
    if not dims:
        return not isinstance(v, (list, tuple))
    if not isinstance(v, list) or (dims[0] is not None and len(v) != dims[0]):
        return False
    return all(shape_ok(x, *dims[1:]) for x in v)


# --------------------------------------------------------------------------
_MOD = None
_SCRATCH = None
_LIMIT = 60
_LATE = None                # how many cases ran into their time limit
MOST_LATE = 24              # after that many, the others are left out: the verdict does not need them


def _alarm(signum, frame):
    raise CpuLimit()


def _init_worker(modname, scratch, limit, late=None):
    global _MOD, _SCRATCH, _LIMIT, _LATE
    _LATE = late
    setup_import()
    import importlib
    sys.path.insert(1, HERE)
    _MOD = importlib.import_module(modname)
    _SCRATCH = tempfile.mkdtemp(prefix="w", dir=scratch)
    _LIMIT = limit
    os.chdir(_SCRATCH)
    signal.signal(signal.SIGPROF, _alarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass


class Unobservable(BaseException):
    """A private function that the driver wanted to call is not there any more: nothing was observed."""


def renamed(e):
    """The driver itself (not the code) asked a module of phenum for a private name that it does not have."""
    if not isinstance(e, (AttributeError, ImportError)):
        return False
    m = re.search(r"module 'phenum\.\w+' has no attribute '(\w+)'|cannot import name '(\w+)' from 'phenum\.", str(e))
    if not m or not (m.group(1) or m.group(2)).startswith("_"):
        return False
    tb = e.__traceback__
    while tb.tb_next:
        tb = tb.tb_next
    return os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(HERE)


def guarded(fn, *a, **k):
    """Run fn, return (status, value, printed text).  status is ok, err:<Type>, exit or timeout."""
    buf = io.StringIO()
    val = None
    signal.setitimer(signal.ITIMER_PROF, k.pop("cpu", _LIMIT))
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()):
            val = fn(*a, **k)
        st = "ok"
    except CpuLimit:
        st = "timeout"
    except SystemExit:
        st = "exit"
    except Exception as e:
        if renamed(e):
            raise Unobservable(str(e))
        st = "err:" + type(e).__name__
        val = str(e)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return st, val, buf.getvalue()


def _task(inp):
    if _LATE is not None and _LATE.value >= MOST_LATE:
        return dict({k: v for k, v in inp.items() if not k.startswith("_")}, st="left out")
    os.chdir(_SCRATCH)
    d = tempfile.mkdtemp(prefix="c", dir=_SCRATCH)
    os.chdir(d)
    try:
        out = _MOD.execute(dict(inp))
    except CpuLimit:
        out = {"st": "timeout"}
    except Unobservable as e:
        out = {"st": "left out", "why": str(e)}
    except Exception as e:           # the driver itself could not make sense of what came back
        out = {"st": "unreadable:" + type(e).__name__, "note": traceback.format_exc()[-800:]}
    finally:
        os.chdir(_SCRATCH)
        shutil.rmtree(d, ignore_errors=True)
    rec = {k: v for k, v in inp.items() if not k.startswith("_")}
    rec.update(out)
    if rec.get("st") == "timeout" and _LATE is not None:
        with _LATE.get_lock():
            _LATE.value += 1
    return rec


def run_real(modname, inputs, scratch, limit=60, nproc=NPROC):
    late = multiprocessing.Value("i", 0)
    with ProcessPoolExecutor(max_workers=nproc, initializer=_init_worker,
                             initargs=(modname, scratch, limit, late)) as ex:
        return list(ex.map(_task, inputs, chunksize=1))


# --------------------------------------------------------------------------
STATE1 = re.compile(r"State 1: <Initial predicate>[^=]*case = \d+")
STAT = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc(module, cfg, env=None, workers=NPROC, timeout=800, scratch=None, extra=(), heap="8g"):
    """Run TLC; returns (exit code, output, generated, distinct)."""
    meta = tempfile.mkdtemp(prefix="tlc", dir=scratch)
    size = 0
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    # -Xss: deep recursive operators;  TLC leaves its state directory in meta
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + meta, "-cp", JARS,
           "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module)]
    try:
        log = os.path.join(meta, "log")
        with open(log, "wb") as f:
            p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=SPEC)
        end, seen = time.time() + timeout, None
        while True:
            try:
                rc = p.wait(0.3 if seen is None else 2)
                break
            except subprocess.TimeoutExpired:
                now = time.time()
                if seen is None and os.path.getsize(log) > size:
                    size = os.path.getsize(log)
                    with open(log, "rb") as f:
                        f.seek(max(0, size - 200000))
                        if STATE1.search(f.read().decode(errors="replace")):
                            seen = now
                # after an evaluation error TLC evaluates the state once more, which can take for ever
                if now > end or (seen is not None and now > seen + 12):
                    p.kill()
                    p.wait()
                    rc = 124 if seen is None else 75
                    break
        with open(log, "rb") as f:
            out = f.read().decode(errors="replace")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    gen = dist = 0
    for m in STAT.finditer(out):
        gen, dist = int(m.group(1)), int(m.group(2))
    return rc, out, gen, dist


def generate(module, cfg, num, depth, seed, scratch, env=None):
    """Behaviours of a specification, walked by TLC; each prints its history once as <<"BEHAVIOUR", json>>."""
    rc, out, g, d = tlc(module, cfg, dict(env or {}, GEN="1"), workers=1, scratch=scratch, timeout=300,
                        extra=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)])
    flat = re.sub(r"\s*\n\s*", " ", out)
    res, seen = [], set()
    for m in re.finditer(r'<<\s*"BEHAVIOUR",\s*("(?:[^"\\]|\\.)*")\s*>>', flat):
        t = json.loads(m.group(1))
        if t not in seen:
            seen.add(t)
            res.append(json.loads(t))
    if rc != 0 or not res:
        raise MachineryError("no behaviours from %s rc=%s\n%s" % (module, rc, out[-2000:]))
    return res


VERD = re.compile(r'<<\s*"VERDICT",\s*(\d+),\s*\{([^}]*)\}\s*>>')


def judge(module, cfg, records, scratch, workers=NPROC, timeout=800, env=None, most=12, partial=False):
    """Returns (list of sets of failed clauses, generated, distinct).  A record
    that the specification cannot even evaluate (a value of the wrong shape)
    is not a behaviour of the specification: it gets the clause "not-a-value"."""
    res = [None] * len(records)
    todo = list(range(len(records)))
    G = D = culprits = 0
    t_end = time.time() + timeout
    while todo:
        path = os.path.join(scratch, "trace-%s.ndjson" % module.replace(".tla", ""))
        with open(path, "w") as f:
            for i in todo:
                f.write(json.dumps(records[i], separators=(",", ":")) + "\n")
        ev = {"TRACE": path}
        ev.update(env or {})
        rc, out, gen, dist = tlc(module, cfg, ev, workers=workers, timeout=max(5, t_end - time.time()), scratch=scratch)
        G, D = G + gen, D + dist
        flat = re.sub(r"\s*\n\s*", " ", out)
        for m in VERD.finditer(flat):
            res[todo[int(m.group(1)) - 1]] = set(x.strip().strip('"') for x in m.group(2).split(",") if x.strip())
        left = [i for i in todo if res[i] is None]
        if rc == 0 and not left:
            break
        bad = None
        if rc != 0 and rc != 124 and culprits < most and "OutOfMemory" not in out and "StackOverflow" not in out:
            m = re.search(r"State 1: <Initial predicate>(.*?)case = (\d+)", flat)
            if m and todo[int(m.group(2)) - 1] in left:
                bad = todo[int(m.group(2)) - 1]
        if bad is None and (partial or any(res)):   # something is refused already: the rest does not matter
            break
        if bad is None:
            raise MachineryError("TLC rc=%s on %s, %d of %d not judged\n%s" % (rc, module, len(left), len(res), out[-4000:]))
        culprits += 1
        res[bad] = {"not-a-value"}
        todo = [i for i in left if i != bad]
    return res, G, D


def corrupt(rec, fields, rng):
    """A copy of a record in which one of the observed values is another one; (copy, where) or None."""
    r = json.loads(json.dumps(rec))
    spots = []

    def walk(v, put, where):
        if isinstance(v, bool):
            spots.append((put, not v, where))
        elif isinstance(v, int):
            spots.append((put, v + rng.choice([-1, 1]), where))
        elif isinstance(v, str):
            spots.append((put, v + "x", where))
        elif isinstance(v, list):
            if len(v) > 1:
                spots.append((put, v[:-1], where + " shortened"))
                if v[0] != v[-1]:
                    spots.append((put, v[::-1], where + " reversed"))
            for i, x in enumerate(v):
                walk(x, lambda n, i=i: v.__setitem__(i, n), where + "[]")
        elif isinstance(v, dict):
            for k, x in v.items():
                walk(x, lambda n, k=k: v.__setitem__(k, n), where + "." + k)
    for f in fields:
        if f in r:
            walk(r[f], lambda n, f=f: r.__setitem__(f, n), f)
    if not spots:
        return None
    w = rng.choice(sorted({x[2] for x in spots}))         # every kind of place is as likely
    put, new, where = rng.choice([x for x in spots if x[2] == w])
    put(new)
    return r, where


def controls(module, cfg, pairs, rng, scratch, number, timeout):
    """Corrupted copies of behaviours that were accepted; how many of them the specification refuses, by place."""
    recs, places = [], []
    for _ in range(number * 3):
        inp, rec = rng.choice(pairs)
        c = corrupt(rec, sorted(k for k in rec if k not in inp and k not in ("st", "note", "nontrivial")), rng)
        if c and len(recs) < number:
            recs.append(c[0])
            places.append(c[1])
    if not recs:
        return {}
    verd, g, d = judge(module, cfg, recs, scratch, timeout=timeout, most=len(recs) + 1, partial=True)
    out = {}
    for p, v in zip(places, verd):
        if v is None:                    # a corrupted value may send the specification anywhere
            continue
        out.setdefault(p, [0, 0])[0 if v else 1] += 1
    return out


class MachineryError(Exception):
    pass
