#!/usr/bin/env python3
"""Development tool: try planted bugs.

  plant.py DEF.py ...   each DEF defines  PROPERTY, NEEDS, BREAKS, EDITS (list
                        of (file, old, new)), DEMO (python source)
  plant.py --recheck ID ...  run only the checks against bugs kept in seeded/

For every bug: a copy of /repo with the edits, the stable tests, the
demonstration on both trees and the property's check on the copy.  A bug that
is confirmed (tests pass, demo 0 / nonzero) is kept in seeded/<id>.
Nothing here is used by the checks.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = json.load(open("/opt/vp/BASELINE.json"))
WORK = "/tmp/b/work"
DEMO_SH = '#!/bin/bash\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'

def sh(cmd, cwd, timeout, env=None):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, timeout=timeout, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return 124, str(x.stdout or "")

def stable():
    s = BASE["stable"]
    return set(s if isinstance(s, list) else s.keys())

def copy(bid):
    d = os.path.join(WORK, bid, "repo")
    shutil.rmtree(os.path.dirname(d), ignore_errors=True)
    os.makedirs(os.path.dirname(d))
    subprocess.check_call(["cp", "-a", "/repo", d])
    return d

def note(bid, prop, caught, t):
    p = os.path.join(VERIF, "tools", "caught.json")
    c = json.load(open(p)) if os.path.exists(p) else {}
    old = c.get(bid, {})
    c[bid] = {"property": prop, "result": "caught" if caught else "missed", "missed": bool(old.get("missed") or not caught)}
    json.dump(c, open(p, "w"), indent=1, sort_keys=True)

def check(prop, d):
    t = time.time()
    rc, out = sh("./run.py %s" % prop, VERIF, 900, {"PHENUM_REPO": d, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
    hit = re.findall(r"^VIOLATION property=%s.*" % prop, out, re.M)
    return rc, bool(hit), time.time() - t, out

def plant(path):
    bid = os.path.splitext(os.path.basename(path))[0]
    ns = {}
    exec(open(path).read(), ns)
    d = copy(bid)
    log = [bid]
    try:
        for f, old, new in ns["EDITS"]:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "%s: edit of %s matches %d times: %r" % (bid, f, s.count(old), old[:60])
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", d, "diff"], text=True)
        dd = os.path.join(WORK, bid, "demo"); os.makedirs(dd)
        open(dd + "/demo.py", "w").write(ns["DEMO"]); open(dd + "/demo.sh", "w").write(DEMO_SH); os.chmod(dd + "/demo.sh", 0o755)
        a, oa = sh("bash %s/demo.sh" % dd, "/repo", 300)
        b, ob = sh("bash %s/demo.sh" % dd, d, 300)
        if a != 0 or b == 0:
            return "%s: DEMO base=%d bug=%d\n%s\n---\n%s" % (bid, a, b, oa[-1500:], ob[-1500:])
        out = os.path.join(WORK, bid, "junit.xml")
        rc, o = sh(". /opt/vp/env.sh; PYTHONPATH=/opt/vp/plugins timeout 900 %s -m pytest tests -q --tb=short -p no:cacheprovider -p phenum_cwd --timeout=180 --junitxml=%s; /usr/bin/python3 /opt/vp/results.py %s.json junit:%s" % (PY, out, out, out), d, 1000)
        res = json.load(open(out + ".json"))
        passed = set(res["passed"] if isinstance(res["passed"], list) else res["passed"].keys())
        lost = sorted(stable() - passed)
        if lost:
            return "%s: TESTS lost %d: %s" % (bid, len(lost), lost[:6])
        rc, hit, t, o = check(ns["PROPERTY"], d)
        keep = os.path.join(VERIF, "seeded", bid)
        os.makedirs(keep, exist_ok=True)
        open(keep + "/patch.diff", "w").write(diff)
        for f in ("demo.py", "demo.sh"):
            shutil.copy(dd + "/" + f, keep + "/" + f)
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
                  open(keep + "/meta.json", "w"), indent=1)
        first = re.findall(r"^VIOLATION.*", o, re.M)[:1]
        note(bid, ns["PROPERTY"], rc == 1 and hit, t)
        return "%s: KEPT check %s rc=%d %s %.0fs %s" % (bid, ns["PROPERTY"], rc, "CAUGHT" if rc == 1 and hit else "MISSED", t,
                                                       (first[0][:150] if first else o[-600:]))
    finally:
        shutil.rmtree(os.path.join(WORK, bid), ignore_errors=True)

def recheck(bid):
    keep = os.path.join(VERIF, "seeded", bid)
    prop = json.load(open(keep + "/meta.json"))["property"]
    d = copy(bid)
    try:
        rc, o = sh("git apply %s/patch.diff" % keep, d, 60)
        if rc: return "%s: patch does not apply: %s" % (bid, o[-300:])
        rc, hit, t, o = check(prop, d)
        note(bid, prop, rc == 1 and hit, t)
        return "%s: %s rc=%d %s %.0fs" % (bid, prop, rc, "CAUGHT" if rc == 1 and hit else "MISSED", t)
    finally:
        shutil.rmtree(os.path.join(WORK, bid), ignore_errors=True)

if __name__ == "__main__":
    args = sys.argv[1:]
    f = plant
    if args[0] == "--recheck":
        f, args = recheck, args[1:] or sorted(os.listdir(os.path.join(VERIF, "seeded")))
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(f, args):
            print(r, flush=True)
