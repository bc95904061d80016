"""P14: restarts."""
import os
import random

import builds
import scheme
import sched
import steps
from app import parallel
from common import Violation
from hydro import num
from p25 import scale_of


def check(c):
    c.model("ScheduleModel", constants=dict({"Ends": {4, 7}, "Everys": {0, 2, 3}, "Periods": {0, 2, 3}, "Firsts": {1, 3}, "Limits": {2, 6}, "Steps": {1, 2, 3}, "MaxRestarts": 1, "MaxSteps": 4},
                                            **c.pick({}, {"MaxRestarts": 2, "MaxSteps": 5, "Firsts": {1, 2, 3}})),
            invariants=("StepsAsPlanned", "Forward", "Numbered", "NoneTwice", "NoneSkipped", "Stops", "SameAsUninterrupted"), timeout=3000, heap="12g")
    flows(c, schedules(c))


def schedules(c):
    """scripted steps: restarted runs keep the schedule"""
    exe = builds.apps(["c1"])["c1"]
    jobs = [("dyadic", k) for k in range(c.pick(90, 1500))] + [("free", k) for k in range(c.pick(90, 1500))] + [("decimal", k) for k in range(c.pick(90, 1500))]

    def one(j):
        kind, k = j
        rng = random.Random(f"{c.seed} restart {kind} {k}")
        p = (sched.dyadic if kind == "dyadic" else sched.free)(rng)
        p.job, p.jumps = None, {}
        if kind == "decimal":
            # the first leg ends at a scheduled time, up to rounding
            p.tini = rng.choice((0.0, 0.0, 0.1))
            mean = sched.allowed(p, p.E[0])
            p.width *= rng.choice((0.013, 0.037, 0.071)) / mean
            p.period = rng.choice((0.1, 0.2, 0.3, 0.7, 1 / 3))
            p.first = rng.choice((None, 0.3, 0.7))
            n = rng.randint(1, 5)
            p.tend = (p.first if p.first is not None else p.tini + p.period) + n * p.period
            if rng.random() < 0.3:
                p.tend = round(p.tend, 6)
            p.maxiter = 10 ** 6
        what = f"{kind} {k} every={p.every} period={p.period} first={p.first} from {p.tini} to {p.tend} max_iter={p.maxiter} cfl={p.cfl}"
        d = os.path.join(c.dir, f"plan-{kind}-{k}")
        r = sched.run(exe, d, p, np=1)
        out = [sched.record(p, r, what)]
        files = out[0]["files"]
        # wider limits for what follows
        if rng.random() < 0.8 or kind == "decimal":
            p.tend = p.tend + rng.choice((0.5, 1.0, 2.5)) * (max(p.period, 0) or (p.tend - p.tini))
        p.maxiter += rng.randint(1, 9)
        for leg in range(2):
            ok = [f for f in files if float(f["t"]) < p.tend]
            if not ok:
                break
            f = ok[-1] if rng.random() < 0.6 else rng.choice(ok)
            r2 = sched.run(exe, d + f"-{leg}", p, restart=os.path.join(r.outdir, f"{r.prefix}_{f['number']:08d}.h5"), start=f["iter"])
            # the step that starts the leg is the one the saved state allows
            out.append(sched.record(p, r2, what + f" restarted from number {f['number']} at iteration {f['iter']} to {p.tend}", start=(f["iter"], f["t"], f["number"])))
            files, r = out[-1]["files"], r2
            p.maxiter += rng.randint(0, 5)
            p.tend += rng.choice((0.0, 1.0)) * (p.tend - p.tini)
        return out

    recs = [x for l in parallel(one, jobs, 8) for x in l]
    for r in recs:
        if r["rc"] not in ("0", "1"):
            raise Violation("the run neither ended nor was refused", r)
    c.sample({k: recs[1][k] for k in ("what", "from", "files")})
    c.details["legs"] = {"runs": len(recs), "restarted": sum(r["from"]["restart"] for r in recs)}
    c.conform("ScheduleTrace", recs, what="schedules of restarted runs")


def flows(c, _):
    cfgs = ["c1", "c2", "c3", "s1", "s2", "s1m", "c1r"] + c.pick([], ["s3", "c1p", "s3m"])
    exes = builds.apps(cfgs)
    jobs = [(cfg, k) for cfg in cfgs for k in range(c.pick(6, 50))] + [("misfit", k) for k in range(c.pick(24, 60))]

    def go(s, cfg, d, sec, rng):
        np = rng.choice((1, 1, 2, 3, 4))
        lay = scheme.layout(rng, s, np)
        if lay is None or (cfg.endswith("m") and lay[0] > 1):
            np, lay = 1, [1, 1, 1]
        r = steps.run(exes[cfg], d, s, np=np, layout=lay, sections=sec)
        if r.rc != 0 and not (r.rc == 1 and "invalid volumic internal energy" in r.err):
            raise Violation("the program did not survive a valid run", {"rc": r.rc, "stderr": r.err[-800:], "sections": sec})
        return r

    def out(s, o):
        return {"iter": int(o["iter"][0]), "id": int(o["output_id"][0]), "time": o["current_time"][0], "x": o["x"], **steps.state_of(s, o)}

    def one(j):
        cfg, k = j
        rng = random.Random(f"{c.seed} flow {cfg} {k}")
        if cfg == "misfit":
            return misfit(rng, k)
        nd = int(cfg[1])
        n = [rng.randint(*{1: (6, 10), 2: (4, 5), 3: (3, 4)}[nd]) if d < nd else 1 for d in range(3)]
        s = steps.make(rng, cfg, n=n, kind=rng.choice(("smooth", "random", "fast")), jump=0.2, mach=rng.choice((0.3, 2.0)))
        total = c.pick(7, 12)
        s.iters = total
        sec = s.sections()
        sec["Output"]["iter_frequency"] = rng.choice((1, 1, 2, 3))
        if rng.random() < 0.5:
            h = (s.ends[0][1] - s.ends[0][0]) / s.n[0]
            sec["Output"]["time_frequency"] = num(s.cfl * h / s.c0 * rng.uniform(0.5, 2))
        shifting = nd < 3 and s.geom == "Cartesian" and rng.random() < 0.4
        if shifting:
            sec["Grid"]["shift_grid"] = "UserDefined"
            sec.setdefault("Verif", {})["shift_every"] = 1
            sec.setdefault("Problem", {})["rmax_shift"] = "1e30"
        d = os.path.join(c.dir, f"flow-{cfg}-{k}")
        through = go(s, cfg, d, sec, rng)
        outs = [out(s, o) for o in steps.outputs(through)]
        if through.rc:
            # the run was stopped by an invalid energy: the same happens after a restart (P18 judges the file)
            outs = outs[:-1]
        dts = [e["dt"] for e in through.logs[0] if e["event"] == "step"]
        recs = []

        def restarted(rfile, start, extra, name, what):
            sec2 = {a: dict(b) for a, b in sec.items()}
            sec2.setdefault("Problem", {}).update({"restart": "true", "restart_file": rfile})
            r = go(s, cfg, os.path.join(c.dir, f"flow-{cfg}-{k}-{name}"), sec2, rng)
            later = [out(s, o) for o in steps.outputs(r)]
            if r.rc:
                later = later[:-1]
            rest = [o for o in outs if o["iter"] > start]
            recs.append({"kind": "pair", "what": f"{cfg} {s.recon} {s.solver} n={s.n} borders={s.bc} shift={shifting} {what}", "rc": str(r.rc), "rcthrough": str(through.rc), "err": r.err[-300:], "rest": rest, "later": later, "extra": extra,
                         "dtrest": dts[start:], "dtlater": [e["dt"] for e in r.logs[0] if e["event"] == "step"], "scale": scale_of(outs)})
            return r

        usable = [o for o in outs[:-1]]
        for q in range(2):
            o = rng.choice(usable)
            restarted(os.path.join(through.outdir, f"{through.prefix}_{o['id']:08d}.h5"), o["iter"], 0, f"r{q}", f"from number {o['id']} at iteration {o['iter']}")
        # stopped early, on or off the schedule
        stop = rng.randint(1, max(1, len(dts) - 1))
        if stop < len(dts):
            sec3 = {a: dict(b) for a, b in sec.items()}
            sec3["Output"]["max_iter"] = stop
            early = go(s, cfg, os.path.join(c.dir, f"flow-{cfg}-{k}-early"), sec3, rng)
            o = [out(s, x) for x in steps.outputs(early)][-1]
            extra = 0 if any(x["iter"] == stop for x in outs) else 1
            restarted(os.path.join(early.outdir, f"{early.prefix}_{o['id']:08d}.h5"), stop, extra, "e", f"stopped at iteration {stop}")
        return recs

    def misfit(rng, k):
        cfg = ("c1", "c2", "c3", "s2")[k % 4]
        nd = int(cfg[1])
        n = [rng.randint(5, 6) if d < nd else 1 for d in range(3)]
        s = steps.make(rng, cfg, n=n, iters=1, nfx=1, grid="even")
        r = go(s, cfg, os.path.join(c.dir, f"misfit-{k}"), s.sections(), rng)
        sec = s.sections()
        sec["Output"]["max_iter"] = 5
        how = rng.choice(["cells", "cells", "more", "ghosts", "traded", "traded"])
        d = rng.randrange(nd)
        if how == "cells":
            sec["Grid"][f"Nx{d}_glob"] = n[d] + rng.choice((-1, 1, 3, n[d]))
        elif how == "more":
            # another shape with the same number of cells
            sec["Grid"][f"Nx{d}_glob"] = 2 * n[d]
        elif how == "ghosts":
            sec["Grid"]["Nghost"] = 3
        else:
            # as many nodes in the file, more of them of ghost cells
            sec["Grid"]["Nghost"] = 3
            for e in range(nd):
                sec["Grid"][f"Nx{e}_glob"] = n[e] - 2
        sec.setdefault("Problem", {}).update({"restart": "true", "restart_file": os.path.join(r.outdir, r.files[-1])})
        x = steps.run(exes[cfg], os.path.join(c.dir, f"misfit-{k}-again"), s, np=rng.choice((1, 1, 2)), layout=None, sections=sec)
        if x.rc == "timeout" or (isinstance(x.rc, int) and (x.rc < 0 or x.rc > 80)):
            raise Violation("the run neither ended nor was refused", {"rc": x.rc, "err": x.err[-800:], "sections": sec})
        return [{"kind": "misfit", "what": f"{cfg} {how} {n} {sec['Grid']}", "rc": str(x.rc), "steps": sum(e["event"] == "step" for l in x.logs for e in l), "files": len(x.files)}]

    recs = [x for l in parallel(one, jobs, 8) for x in l]
    c.sample({k: recs[0][k] for k in ("what", "dtlater")})
    c.conform("RestartTrace", recs, what="restarted flows and refused files")
    c.assumptions = ["a shift criterion that decides by the state of the flow only (here: at every step)", "fields agree to 1e-9 of their scale: the energy is recomputed from the saved pressure"]
