"""P16: the grid follows the flow."""
import os
import random

import builds
import scheme
import steps
from app import parallel
from common import Raw, Violation
from hydro import num


def check(c):
    c.model("ShiftModel", constants={"Splits": Raw(c.pick("{<<3>>, <<4>>, <<2,2>>, <<3,1>>}", "{<<3>>, <<5>>, <<2,2>>, <<3,1>>, <<2,2,2>>, <<1,2,1>>, <<3,2>>}")), "Ngs": {1, 2}, "Limits": c.pick({6, 99}, {5, 6, 7, 99}), "Values": {0, 1} if not c.thorough else {0, 1, 2}, "Steps": c.pick(3, 4)},
            invariants=("Interiors", "Together", "Regular", "Within"), properties=("Stays", "Ends"), timeout=3000)
    cfgs = ["c1", "c2", "s1", "s1m", "s2"] + c.pick([], ["c3", "s2p", "s3", "c1r", "s2m"])
    exes = builds.apps(cfgs)
    jobs = [(cfg, k) for cfg in cfgs for k in range(c.pick(24 if cfg == "c1" else 14, 100))]

    def one(j):
        cfg, k = j
        rng = random.Random(f"{c.seed} shift {cfg} {k}")
        nd = int(cfg[1])
        np = rng.choice((1, 2, 3, 4)) if cfg != "s1m" else 1
        n = [rng.randint(*{1: (6, 9), 2: (4, 5), 3: (4, 4)}[nd]) if d == 0 else (rng.randint(2, 3) if d < nd else 1) for d in range(3)]
        s = steps.make(rng, cfg, n=n, iters=c.pick({1: 7, 2: 4, 3: 3}[nd], 8))
        while True:
            lay = scheme.layout(rng, s, np)
            if lay is not None and not (s.field == "Internal_mass" and lay[0] > 1):
                break
            np -= 1
        s.pf = None if rng.random() < 0.7 else s.pf
        every, start = rng.choice((1, 1, 2, 3)), rng.choice((0, 0, 1, 2))
        sec = s.sections()
        sec["Grid"]["shift_grid"] = "UserDefined"
        sec["Verif"] = {"shift_every": every, "shift_from": start}
        # shifting ends after some shifts, or never
        h = (s.ends[0][1] - s.ends[0][0]) / n[0]
        stop = rng.random()
        if stop < 0.35:
            limit = 1e30
        elif stop < 0.65 and s.x is not None:
            # the outer border would come exactly there
            limit = s.x[0][n[0] + s.ng + rng.randint(1, s.ng)]
        else:
            limit = s.ends[0][1] + h * rng.uniform(-1, 4)
        sec.setdefault("Problem", {})["rmax_shift"] = num(limit)
        d = os.path.join(c.dir, f"shift-{cfg}-{k}")
        r = steps.run(exes[cfg], d, s, np=np, layout=lay, sections=sec)
        stopped = r.rc == 1 and "invalid volumic internal energy" in r.err
        if r.rc != 0 and not stopped:
            raise Violation("the program did not survive a valid run", {"rc": r.rc, "stderr": r.err[-800:], "sections": sec})
        outs = steps.outputs(r)
        dts = [e["dt"] for e in r.logs[0] if e["event"] == "step"]
        if len(outs) != len(dts) + 1 + stopped:
            raise Violation("not one output per step", {"outputs": len(outs), "steps": len(dts), "sections": sec})
        base = steps.scheme_record(s, None, {}, None, None, f"{cfg} {s.recon} {s.solver} n={n} processes={lay} borders={s.bc} every {every} after {start} limit {num(limit)}")
        for f in ("x", "after", "dt"):
            base.pop(f)
        states = [{"x": o["x"], **steps.state_of(s, o)} for o in outs[:len(dts) + 1]]
        return {"base": base, "states": states, "dts": dts, "every": every, "from": start, "limit": num(limit), "moved": sum(a["x"][0] != b["x"][0] for a, b in zip(states, states[1:]))}

    recs = parallel(one, jobs, 8)
    c.sample({"run": recs[0]["base"]["what"], "x": [s["x"][0][:3] for s in recs[0]["states"]], "dts": recs[0]["dts"]})
    c.details["shifts"] = {"runs": len(recs), "steps": sum(len(r["dts"]) for r in recs), "shifts": sum(r["moved"] for r in recs)}
    c.conform("ShiftTrace", recs, what="runs whose grid follows the flow", timeout=3000)
    c.assumptions = ["a shift criterion scripted by step number, the same on all processes", "border conditions other than user-defined ones"]
