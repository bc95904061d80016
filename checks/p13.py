"""P13: time steps, outputs and the end of a run."""
import os
import random

import builds
import sched
from app import parallel
from common import Violation
from hydro import num


def check(c):
    c.model("ScheduleModel", constants=dict({"Ends": {4, 7}, "Everys": {0, 2, 3}, "Periods": {0, 2, 3}, "Firsts": {1, 2, 3}, "Limits": {2, 6}, "Steps": {1, 2, 3}, "MaxRestarts": 0, "MaxSteps": 4},
                                            **c.pick({}, {"Ends": {4, 7, 9}, "MaxSteps": 6})),
            invariants=("StepsAsPlanned", "Forward", "Numbered", "NoneTwice", "NoneSkipped", "Stops"), timeout=3000)
    exe = builds.apps(["c1"])["c1"]
    jobs = [("dyadic", k) for k in range(c.pick(260, 4000))] + [("free", k) for k in range(c.pick(200, 3000))] + [("long", k) for k in range(c.pick(24, 300))] + [("late", k) for k in range(c.pick(8, 40))]

    def one(j):
        kind, k = j
        rng = random.Random(f"{c.seed} schedule {kind} {k}")
        p = {"dyadic": sched.dyadic, "long": sched.long}.get(kind, sched.free)(rng)
        if kind == "late":
            p.tend = p.tini - rng.choice((1e-9, 1.0)) * (1 + abs(p.tini))
        np = rng.choice((2, 3)) if k % 10 == 0 or (p.job is not None and k % 3 == 0) else 1
        r = sched.run(exe, os.path.join(c.dir, f"sched-{kind}-{k}"), p, nx=2 * np, np=np, rank=rng.choice(("-1", "0")))
        rec = sched.record(p, r, f"{kind} {k} every={p.every} period={p.period} first={p.first} from {p.tini} to {p.tend} max_iter={p.maxiter} cfl={p.cfl} time_job={p.job} np={np}")
        if r.rc not in (0, 1):
            raise Violation("the run neither ended nor was refused", rec)
        rec["refused"] = r.rc == 1 and not rec["steps"] and not rec["files"]
        return rec

    recs = parallel(one, jobs, 8)
    c.sample({k: recs[0][k] for k in ("what", "steps", "files")})
    c.details["runs"] = {"steps": sum(len(r["steps"]) for r in recs), "outputs": sum(len(r["files"]) for r in recs), "stopped by the clock": sum(any(s["spent"] for s in r["steps"]) for r in recs)}
    c.conform("ScheduleTrace", recs, what="schedules of runs")
    c.assumptions = ["the wall-time budget is examined at the beginning of a step, by process 0", "first scheduled time after the start time"]
