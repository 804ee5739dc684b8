"""C29: messages and their settings."""
import contextlib, io, re
from engine import guarded
ASSUMPTIONS = ["verbosity is None, True or an integer (False is not a documented setting)", "colour codes are ignored"]
DESIGN = [{"module": "MC_Msg.tla", "cfg": "MC_Msg.cfg"}]
KINDS = ["warn", "err", "info", "okay", "gen", "blank", "std"]
VERBS = [["none"], ["all"]] + [["num", k] for k in range(-2, 5)]
QUIET = ["none", "on", "off"]
LEVELS = list(range(-2, 6))


def suites(ctx):
    rng, quick = ctx["rng"], ctx["tier"] == "quick"
    ins = []
    says = [{"act": k, "level": l, "default": False} for k in KINDS for l in LEVELS] + \
           [{"act": k, "level": 0, "default": True} for k in KINDS]
    # every message in every setting
    for v in VERBS:
        for q in QUIET:
            for nc in (0, 1):
                s = [{"act": "verbosity", "val": v}, {"act": "quiet", "val": q}]
                x = [dict(a) for a in says]
                rng.shuffle(x)
                ins.append({"nocolor": nc, "plan": s + x})
    for _ in range(500 if quick else 3000):
        plan = []
        for _ in range(rng.randint(5, 60)):
            c = rng.random()
            if c < .25:
                plan.append({"act": "verbosity", "val": rng.choice(VERBS)})
            elif c < .45:
                plan.append({"act": "quiet", "val": rng.choice(QUIET)})
            else:
                plan.append(dict(rng.choice(says)))
        ins.append({"nocolor": rng.randrange(2), "plan": plan})
    for i in ins:
        for k, s in enumerate(i["plan"]):
            s["prefix"] = rng.random() < .7
            s["txt"] = rng.choice(["m%d" % k, "a b", "WARNING", "", "x\ny"])
            s["n"] = rng.randint(0, 3)
    return [{"spec": "T_C29", "inputs": ins, "cpu": 60}]


ANSI = re.compile("\x1b\\[[0-9;]*m")


def execute(inp):
    def go():
        from phenum import msg
        dec = {"none": None, "on": True, "off": False}
        vd = lambda v: None if v[0] == "none" else True if v[0] == "all" else v[1]

        def venc(v):
            return ["none"] if v is None else ["all"] if v is True else ["num", v] if isinstance(v, int) else ["other"]
        qenc = lambda q: {None: "none", True: "on", False: "off"}.get(q, "other")
        msg.set_verbosity(None)
        msg.set_quiet(None)
        msg.nocolor = bool(inp["nocolor"])
        out = {"v0": venc(msg.verbosity), "q0": qenc(msg.quiet), "steps": []}
        for s in inp["plan"]:
            a = s["act"]
            r = dict(s, got="", text="", will=False)
            if a == "verbosity":
                msg.set_verbosity(vd(s["val"]))
            elif a == "quiet":
                msg.set_quiet(dec[s["val"]])
            else:
                kw = {} if s["default"] else {"level": s["level"]}
                r["will"] = bool(msg.will_print(s["level"]))
                if a == "blank":
                    args = (s["n"],)
                    r["text"] = "\n" * s["n"]
                else:
                    args = (s["txt"],)
                    r["text"] = s["txt"] + "\n"
                    if a in ("warn", "err"):
                        kw["prefix"] = s["prefix"]
                        if s["prefix"]:
                            r["text"] = {"warn": "WARNING: ", "err": "ERROR: "}[a] + r["text"]
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf):
                    getattr(msg, a)(*args, **kw)
                r["got"] = ANSI.sub("", buf.getvalue())
            r["v"], r["q"] = venc(msg.verbosity), qenc(msg.quiet)
            out["steps"].append(r)
        return out
    st, v, _ = guarded(go)
    return {"st": st, "note": str(v)} if st != "ok" else dict(v, st="ok")
