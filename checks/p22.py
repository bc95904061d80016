"""P22: algorithms are chosen by name."""
import itertools
import os
import random
import re

import builds
import steps
from app import parallel
from common import Violation
from hydro import num

NAMES = {"reconstruction": ["Constant", "VanLeer", "Minmod", "VanAlbada"], "riemann_solver": ["HLL", "HLLC", "Low Mach"], "grid": ["Regular", "UserDefined"],
         "user_step": ["Off", "Heat_nickel", "UserDefined"], "border": ["NullGradient", "Periodic", "Reflexive", "UserDefined"]}


def wrong(kind):
    """names close to the documented ones, names of other choices, and nothing"""
    out = [""]
    for n in NAMES[kind]:
        out += [n.lower(), n.upper(), n.swapcase(), n + "x", n[:-1], n[1:], n.replace(" ", ""), n.replace("_", " "), n + " " + n, n.capitalize(), "_" + n, '"' + n + '"', n + ","]
    for k in NAMES:
        if k != kind:
            out += NAMES[k]
    out += ["On", "None", "Default", "0", "1", "true", "null", "Sweby", "Roe", "Low", "LowMach", "low mach", "Low_Mach", "Low  Mach", "HLLE", "HLLCC", "Log", "Log10", "Periodical"]
    return sorted({n for n in out if n not in NAMES[kind]})


def check(c):
    c.model("ChoiceModel", constants={"Wrong": {"", "hll"}}, invariants=("Refusal", "Selection"), properties=("Decided",))
    rng = random.Random(f"{c.seed} names")
    cfgs = ["c1", "c2"] + c.pick([], ["c3", "s1", "s2"])
    exes = builds.apps(cfgs)
    jobs = []
    for kind in NAMES:
        w = wrong(kind)
        for n in w:
            jobs.append(("c1", {kind: n}))
        rng.shuffle(w)
        for n in w[:c.pick(12, 60)]:
            jobs.append(("c2", {kind: n}))
    # two unusable names: either is named
    for _ in range(c.pick(12, 100)):
        a, b = rng.sample(sorted(NAMES), 2)
        jobs.append((rng.choice(cfgs), {a: rng.choice(wrong(a)), b: rng.choice(wrong(b))}))
    for a, b in itertools.product(NAMES["reconstruction"], NAMES["riemann_solver"]):
        for cfg in cfgs:
            for _ in range(c.pick(2, 8)):
                jobs.append((cfg, {"reconstruction": a, "riemann_solver": b}))
    for a, b in itertools.product(NAMES["border"], repeat=2):
        jobs.append(("c1", {"borders": [a, b]}))
    for a, b in itertools.product(NAMES["grid"], NAMES["user_step"]):
        for cfg in cfgs:
            jobs.append((cfg, {"grid": a, "user_step": b}))

    def one(a):
        q, (cfg, what) = a
        nd = int(cfg[1])
        rng = random.Random(f"{c.seed} names {q}")
        s = steps.make(rng, cfg, iters=2, grid="uneven", nfx=1, kind=rng.choice(("random", "steps")), recon=what.get("reconstruction", None) or None, solver=what.get("riemann_solver", None) or None)
        lists = ["Periodic", "Periodic", "NullGradient", "Reflexive"]
        if "borders" in what:
            s.bc = list(what["borders"])
        asked = {"reconstruction": what.get("reconstruction", s.recon), "riemann_solver": what.get("riemann_solver", s.solver), "grid": what.get("grid", rng.choice(NAMES["grid"])), "user_step": what.get("user_step", rng.choice(NAMES["user_step"]))}
        if "border" in what:
            s.bc[rng.randrange(2 * nd)] = what["border"]
        asked["border"] = s.bc
        s.recon, s.solver, s.user_step = asked["reconstruction"], asked["riemann_solver"], asked["user_step"]
        sec = s.sections()
        sec["Grid"]["type"] = asked["grid"]
        for d in range(3):
            sec["Grid"][f"x{d}min"], sec["Grid"][f"x{d}max"] = num(s.ends[d][0]), num(s.ends[d][1])
        if asked["grid"] == "Regular" and cfg[0] == "s":
            pass
        r = steps.run(exes[cfg], os.path.join(c.dir, f"name-{q}"), s, np=rng.choice((1, 1, 1, 2)) if s.n[0] >= 4 else 1, layout=None, sections=sec)
        ev = [e for e in r.logs[0] if e["event"] == "step"]
        bad = [n for n in [asked[k] for k in NAMES if k != "border"] + asked["border"] if n and re.search(r"(?<![A-Za-z0-9_])" + re.escape(n) + r"(?![A-Za-z0-9_])", r.err)]
        user = sorted({2 * e["dim"] + e["face"] for l in r.logs for e in l if e["event"] == "bc"})
        stopped = r.rc == 1 and "invalid volumic internal energy" in r.err
        rec = {"what": f"{cfg} {what}", "ndim": nd, "n": s.n, "ng": s.ng, "asked": asked, "rc": "0" if stopped else str(r.rc), "files": len(r.files), "steps": 0, "mentions": bad, "err": r.err[-300:], "user": user, "logged": bool(ev),
               "x": [], "file": s.x, "ends": [[num(v) for v in e] for e in s.ends]}
        rec["file"] = [[num(v) for v in l] for l in s.x]
        recs = []
        if r.rc == "timeout" or (isinstance(r.rc, int) and (r.rc < 0 or r.rc > 80)):
            raise Violation("start-up neither ran nor was refused", rec)
        if r.rc == 0 or stopped:
            outs = steps.outputs(r)[:3]
            rec["steps"] = len(outs) - 1
            rec["x"] = outs[0]["x"] if outs else []
            if not any(b == "UserDefined" for b in s.bc) and (s.bc.count("Periodic") % 2 == 0):
                for i in range(len(outs) - 1):
                    t0, t1 = (float(outs[k]["current_time"][0]) for k in (i, i + 1))
                    x = steps.scheme_record(s, outs[i]["x"], steps.state_of(s, outs[i]), steps.state_of(s, outs[i + 1]), num(t1 - t0), f"{cfg} {asked} step {i + 1}")
                    if asked["user_step"] == "Heat_nickel":
                        x["user"] = {"kind": "nickel", "t": outs[i]["current_time"][0]}
                    recs.append(x)
                    if stopped and i == len(outs) - 3:
                        break
        return rec, recs

    res = parallel(one, list(enumerate(jobs)), 8)
    starts = [a for a, _ in res]
    recs = [x for _, b in res for x in b]
    c.sample({k: starts[3][k] for k in ("what", "rc", "files", "steps", "mentions")})
    c.details["starts"] = {"refused": sum(s["rc"] != "0" for s in starts), "run": sum(s["rc"] == "0" for s in starts)}
    c.conform("ChoiceTrace", starts, what="starts with chosen names")
    c.conform("StepTrace", recs, what="steps of the named algorithms", timeout=3000)
    c.assumptions = ["an empty name is refused without the message being able to quote it"]
