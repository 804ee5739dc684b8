#!/opt/venv/bin/python
"""run.py <property> : decide one property on /repo's current tree.
Reads VERIF_SEED and VERIF_TIER.  See DESIGN.md."""
import importlib, json, os, random, shutil, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
sys.dont_write_bytecode = True
os.environ.update(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
                  OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")
import engine
from concurrent.futures import ThreadPoolExecutor


def known(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [x for x in json.load(open(p))["findings"] if x["property"] == prop]


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="phx-%s-" % prop)
    os.chmod(scratch, 0o755)
    try:
        return decide(prop, tier, seed, scratch, t0)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, tier, seed, scratch, t0):
    engine.setup_import()
    mod = importlib.import_module(prop.lower())
    rng = random.Random("%s-%d" % (prop, seed))
    # 1. design level: model check the specification itself
    designs = mod.DESIGN if hasattr(mod, "DESIGN") else []
    designs = [d for d in designs if tier == "thorough" or not d.get("thorough")]
    pool = ThreadPoolExecutor(max_workers=3)
    dfut = [pool.submit(engine.tlc, d["module"], d["cfg"], d.get("env"), d.get("workers", 2),
                        d.get("timeout", 700), scratch, d.get("extra", ())) for d in designs]
    # 2. behaviours of the real code
    ctx = {"tier": tier, "seed": seed, "scratch": scratch, "rng": rng}
    suites = mod.suites(ctx)
    allbad, samples = [], []
    states = trans = ncase = 0
    control = {}
    extra_cov = {}
    keys = set()
    nontrivial = left_out = 0
    for s in suites:
        inputs = s["inputs"]
        for i, x in enumerate(inputs):
            x.setdefault("key", json.dumps({k: v for k, v in x.items() if not k.startswith("_")}, sort_keys=True))
        recs = engine.run_real(s.get("driver", prop.lower()), inputs, scratch, limit=s.get("cpu", 60),
                               nproc=s.get("nproc", engine.NPROC))
        left_out += sum(r.get("st") == "left out" for r in recs)
        kept = [(r, i) for r, i in zip(recs, inputs) if r.get("st") != "left out"]
        if not kept:
            continue
        recs, inputs = [x[0] for x in kept], [x[1] for x in kept]
        for r in recs:
            r.pop("note", None) if r.get("st") == "ok" else None
        slim = [{k: v for k, v in r.items() if k not in ("key", "note")} for r in recs]
        timeout = s.get("timeout", 600 if tier == "quick" else 6000)
        verd, g, d = engine.judge(s["spec"] + ".tla", s.get("cfg", s["spec"] + ".cfg"), slim, scratch,
                                  timeout=timeout)
        states += d
        trans += g
        ncase += sum(v is not None for v in verd)
        for r, v in zip(recs, verd):
            if v is None:
                left_out += 1
                continue
            keys.add(r["key"])
            if r.get("nontrivial", True):
                nontrivial += 1
            if v:
                allbad.append((r, v))
        good = [(i, r) for i, r, v in zip(inputs, slim, verd) if v is not None and not v and r.get("st") == "ok"]
        if good and len(allbad) < len(good) and (tier == "thorough" or time.time() - t0 < 300):
            c = engine.controls(s["spec"] + ".tla", s.get("cfg", s["spec"] + ".cfg"), good,
                                random.Random("control-%s-%d" % (prop, seed)), scratch, 10 if tier == "quick" else 60,
                                40 if tier == "quick" else 600)
            for k, (a, b) in c.items():
                x = control.setdefault(k, [0, 0])
                x[0], x[1] = x[0] + a, x[1] + b
        if recs:
            for r in recs[:: max(1, len(recs) // 2)][:2]:
                txt = json.dumps({k: v for k, v in r.items()})
                samples.append(txt[:600])
    if hasattr(mod, "extra"):
        extra_cov = mod.extra(ctx) or {}
        for b in extra_cov.pop("bad", []):
            allbad.append(b)
        states += extra_cov.pop("states", 0)
        trans += extra_cov.pop("transitions", 0)
        ncase += extra_cov.pop("cases", 0)
        samples += extra_cov.pop("samples", [])
    # design results
    dinfo = []
    for d, f in zip(designs, dfut):
        rc, out, g, dist = f.result()
        if rc != d.get("rc", 0):
            raise engine.MachineryError("design check %s rc=%s\n%s" % (d["cfg"], rc, out[-3000:]))
        states += dist
        trans += g
        dinfo.append({"model": d["module"], "config": d["cfg"], "distinct_states": dist, "states_generated": g})
    # known findings
    viol, seen = [], []
    kf = known(prop)
    for r, v in allbad:
        rest = set(v)
        for k in kf:
            if k["key"] == r["key"]:
                hit = rest & set(k["clauses"])
                if hit:
                    seen.append((k, r))
                    rest -= hit
        if rest:
            viol.append((r, rest))
    printed = set()
    for k, r in seen:
        if k["what"] not in printed:
            printed.add(k["what"])
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": states, "transitions": trans, "traces_validated_against_impl": ncase,
                       "distinct_inputs": len(keys), "nontrivial_inputs": nontrivial,
                       "design_models": dinfo, "known_findings_seen": len(printed), "left_out": left_out,
                       "corrupted_records": {"refused": sum(a for a, b in control.values()), "accepted": sum(b for a, b in control.values()),
                                             "refused_and_accepted_by_place": control},
                       "samples": samples[:6], **extra_cov},
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if control and not any(a for a, b in control.values()):
        raise engine.MachineryError("%s accepts every corrupted record: %s" % (prop, control))
    if viol:
        os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
        rp = os.path.join(HERE, "out", "%s-replay.json" % prop)
        with open(rp, "w") as f:
            json.dump([{"case": r, "failed_clauses": sorted(v)} for r, v in viol[:20]], f, indent=1)
        for r, v in viol[:5]:
            print("  failed clauses %s on %s" % (sorted(v), r["key"][:300]))
            if r.get("st") != "ok":
                print("    status", r.get("st"), str(r.get("note", ""))[-300:])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("%s held: %d behaviours of the code judged, %d spec states, %.1fs" % (prop, ncase, states, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
