"""P27: user steps."""
import os
import random

import builds
import scheme
import steps
from app import parallel
from common import Violation
from hydro import num

DAY = 86400.0


def heated(rng, s):
    """units in which one step releases about as much heat as the gas has"""
    s.user_step = "Heat_nickel"
    s.t_ini = rng.choice((0.0, 10 ** rng.uniform(3, 7.7)))
    w = min((b - a) for l in ([s.x[d] for d in range(s.ndim)] if s.x is not None else [[s.ends[d][0], s.ends[d][0] + (s.ends[d][1] - s.ends[d][0]) / s.n[d]] for d in range(s.ndim)]) for a, b in zip(l, l[1:]))
    if s.geom != "Cartesian":
        w = (s.ends[0][1] - s.ends[0][0]) / s.n[0]
    c0 = 10 ** rng.uniform(3, 6)
    f = c0 / s.c0
    s.u = [[v * f for v in l] for l in s.u]
    s.P = [v * f * f for v in s.P]
    # power per mass is a few 1e6 W/kg at first
    want = 10 ** rng.uniform(-1, 0.5) * c0 ** 3 / 4e6 / w
    s.g = [v * f * f / want for v in s.g]
    s.ends = [(a * want, b * want) if d == 0 or s.geom == "Cartesian" else (a, b) for d, (a, b) in enumerate(s.ends)]
    if s.x is not None:
        s.x = [[v * want for v in l] if d == 0 or s.geom == "Cartesian" else l for d, l in enumerate(s.x)]
    s.M *= f * f * want
    # steps are read off differences of times
    s.t_ini = min(s.t_ini, 3e3 * w * want / c0)
    if not s.fx:
        s.fx = [[rng.uniform(0, 1) for _ in s.rho]]


def check(c):
    c.model("NickelModel", constants={"Days": c.pick(600, 5000)}, invariants=("Exact",))
    for shift in (False, True):
        c.model("StepPhases", name=f"StepPhases-{shift}", constants={"MaxSteps": c.pick(6, 40), "MayShift": shift}, invariants=("Fresh", "OncePerStep"), properties=("Ends",))
    cfgs = ["c1", "c2", "c3", "s1", "s3"] + c.pick([], ["s2", "c1r"])
    exes = builds.apps(cfgs)
    kinds = ["nickel", "nickel", "nickel", "add", "off", "custom"]
    jobs = [(kind, cfg, k) for cfg in cfgs for k, kind in enumerate(kinds * c.pick(1, 12))]

    def one(j):
        kind, cfg, k = j
        rng = random.Random(f"{c.seed} user {kind} {cfg} {k}")
        s = steps.make(rng, cfg, iters=c.pick(3, 6) if cfg[1] != "3" else 2, nfx=rng.choice((1, 2)) if kind == "nickel" else None)
        script = None
        if kind == "nickel":
            heated(rng, s)
        elif kind == "add":
            v = rng.uniform(0.05, 0.5) * min(s.P)
            script = [f"0 Eall {num(v)}"]
        elif kind == "off":
            s.user_step = "Off"
        users = []
        if kind == "custom":
            # user code at some borders too: everything is logged in order
            s.bc = [rng.choice(("UserDefined", b)) if b != "Periodic" else b for b in s.bc]
            users = [b for b in range(2 * s.ndim) if s.bc[b] == "UserDefined"]
        np = rng.choice((1, 2, 3, 4))
        lay = scheme.layout(rng, s, np)
        if lay is None:
            np, lay = 1, [1, 1, 1]
        sec = s.sections()
        if kind == "custom":
            sec["Grid"]["shift_grid"] = rng.choice(("UserDefined", "Off"))
        r = steps.run(exes[cfg], os.path.join(c.dir, f"user-{kind}-{cfg}-{k}"), s, np=np, layout=lay, script=script, sections=sec)
        stopped = r.rc == 1 and "invalid volumic internal energy" in r.err
        if r.rc != 0 and not stopped:
            raise Violation("the program did not survive a valid run", {"rc": r.rc, "stderr": r.err[-800:], "sections": sec})
        outs = steps.outputs(r)
        if stopped:
            outs = outs[:-1]
        times = [o["current_time"][0] for o in outs]
        what = f"{kind} {cfg} {s.recon} {s.solver} n={s.n} layout={lay} borders={s.bc} t={times[0]}"
        recs, order = [], []
        if kind != "custom":
            for i in range(len(outs) - 1):
                dt = num(float(times[i + 1]) - float(times[i])) if kind == "off" or kind == "nickel" else r.logs[0][[x for x, e in enumerate(r.logs[0]) if e["event"] == "step"][i]]["dt"]
                recs.append((steps.scheme_record(s, outs[i]["x"], steps.state_of(s, outs[i]), steps.state_of(s, outs[i + 1]), dt, what + f" step {i + 1}")))
                recs[-1]["user"] = {"kind": "nickel", "t": times[i]} if kind == "nickel" else {"kind": "add", "v": num(v)} if kind == "add" else {"kind": "none"}
        if kind in ("add", "custom"):
            boxes = [[[e["min"], e["max"]] for e in l if e["event"] == "step"][0] for l in r.logs]
            for q, l in enumerate(r.logs):
                lo, hi = boxes[q]
                mine = [[b // 2, b % 2] for b in s.app() if b in users and (lo[b // 2] == 0 if b % 2 == 0 else hi[b // 2] == s.n[b // 2])]
                order.append({"what": what + f" rank {q}", "mine": mine, "min": lo, "max": hi, "n": s.n, "boxes": boxes, "times": times, "steps": len(times) - 1, "shift": sec["Grid"].get("shift_grid") == "UserDefined",
                              "events": [e for e in l if e["event"] in ("bc", "step", "shift")]})
        return recs, order

    res = parallel(one, jobs, 8)
    recs = [x for a, _ in res for x in a]
    order = [x for _, b in res for x in b]
    c.sample({"step": recs[0]["what"], "user": recs[0]["user"], "E": recs[0]["E"][:2], "E after": recs[0]["after"]["E"][:2]})
    c.sample({"order": order[-1]["what"], "events": [e["event"] for e in order[-1]["events"]][:12]})
    c.conform("StepTrace", recs, what="steps with a user step", timeout=3000)
    c.conform("PhasesTrace", order, what="order of the calls of user code")
    c.assumptions = ["without a user step log the length of a step is the difference of the recorded times"]
