"""P21: time step and domain integrals."""
import os
import random

import builds
import hydro
import mesh
import scheme
import steps
from app import parallel
from ghosts import factorisations
from hydro import log_uniform, num, nums, uneven


def coordinates(rng, geom, ndim, n, ng):
    if geom == "Spherical":
        r0 = log_uniform(rng, 0.1, 1e9)
        ends = [(r0, r0 * (1 + n[0] * rng.uniform(0.02, 0.25))), (0.8, 0.8 + 0.1 * n[1]), (0.2, 0.2 + 0.2 * n[2])]
        return [uneven(rng, n[d], ng if d < ndim else 0, *ends[d], spread=0.3) for d in range(3)]
    a = log_uniform(rng, 1e-6, 1e6)
    return [uneven(rng, n[d], ng if d < ndim else 0, -a, a * rng.uniform(0.5, 3)) for d in range(3)]


def calls(c):
    rng = random.Random(c.seed)
    tasks = []
    for geom in ("Cartesian", "Spherical"):
        for ndim in (1, 2, 3):
            for np in (1, 2, 3, 4):
                cases = []
                for what in ("call", "integral"):
                    for _ in range(c.pick(3, 40)):
                        p = rng.choice(factorisations(np, ndim))
                        ng = rng.choice((1, 2, 2, 3))
                        n = [rng.randint(max(p[d], 1), p[d] + {1: 8, 2: 3, 3: 2}[ndim]) if d < ndim else 1 for d in range(3)]
                        x = coordinates(rng, geom, ndim, n, ng)
                        m = 1
                        for v in x:
                            m *= len(v) - 1
                        head = "%d %d %d %d %d %d %d " % (*n, *p, ng) + " ".join(nums(v) for v in x)
                        rec = {"kind": what, "geom": geom, "ndim": ndim, "n": n, "ng": ng, "x": [[num(v) for v in l] for l in x]}
                        if what == "integral":
                            s = log_uniform(rng, 1e-20, 1e20)
                            f = [num(s * rng.choice((rng.uniform(-1, 1), rng.uniform(0.5, 1), 0.0))) for _ in range(m)]
                            cases.append(dict(rec, f=f, line="integ " + head + " " + " ".join(f), job=f"integral {geom} {ndim}D n={n} layout={p}"))
                            continue
                        gas = rng.choice(("PerfectGas", "PerfectGas", "RadGas"))
                        gamma, mu = rng.choice((1.4, rng.uniform(1.05, 3))), rng.uniform(0.5, 3)
                        layers = rng.randint(0, ng)
                        rho0, P0 = hydro.gas_state(rng, gas, gamma, mu)
                        cs = (gamma * P0 / rho0) ** 0.5
                        rho = [rho0 * rng.uniform(0.9, 1.1) for _ in range(m)]
                        P = [P0 * rng.uniform(0.9, 1.1) for _ in range(m)]
                        mach = log_uniform(rng, 1e-2, 1e2)
                        u = [[mach * cs * rng.uniform(-1, 1) for _ in range(m)] for _ in range(ndim)]
                        # one outstanding cell anywhere (perhaps in a ghost layer, where it may count or not)
                        q = rng.randrange(m)
                        rng.choice((rho, P, *u))[q] *= rng.choice((50.0, 0.02))
                        line = f"tstep {gas} {num(gamma)} {num(mu)} {layers} " + head + " " + " ".join(nums(v) for v in (rho, *u, P))
                        cases.append(dict(rec, gas=gas, gamma=num(gamma), mu=num(mu), layers=layers, rho=[num(v) for v in rho], u=[[num(v) for v in l] for l in u], P=[num(v) for v in P], line=line,
                                          job=f"time step {gas} {geom} {ndim}D n={n} layout={p} layers={layers}"))
                tasks.append((ndim, np, hydro.exe(ndim, geom), cases, geom))

    def one(t):
        ndim, np, exe, cases, geom = t
        res = mesh.run_jobs(c, exe, np, [k["line"] for k in cases], f"tstep-{geom}{ndim}-{np}")
        return [dict({a: b for a, b in k.items() if a != "line"}, **({"sum": [p["sum"] for p in per]} if k["kind"] == "integral" else {"dt": [p["dt"] for p in per]})) for k, per in zip(cases, res)]

    return [r for l in parallel(one, tasks, 6) for r in l]


def runs(c):
    cfgs = ["c1", "c2", "s2", "s3"] + c.pick([], ["c3", "s1", "c1r"])
    exes = builds.apps(cfgs)
    jobs = [(cfg, k) for cfg in cfgs for k in range(c.pick(5, 60))]

    def one(j):
        cfg, k = j
        rng = random.Random(f"{c.seed} dt {cfg} {k}")
        np = rng.choice((1, 2, 3, 4))
        lay = rng.choice(factorisations(np, int(cfg[1])))
        n = [lay[d] * 2 + rng.randint(0, 2) if d < int(cfg[1]) else 1 for d in range(3)]
        s = steps.make(rng, cfg, n=n, iters=3)
        # one fast cell somewhere
        q = rng.randrange(len(s.rho))
        s.u[rng.randrange(s.ndim)][q] += rng.choice((-1, 1)) * 3 * s.c0
        r = steps.run(exes[cfg], os.path.join(c.dir, f"dt-{cfg}-{k}"), s, np=np, layout=lay)
        recs = steps.steps(s, r)
        ev = [[e["dt"] for e in log if e["event"] == "step"] for log in r.logs]
        return [dict(x, kind="run", cfl=num(s.cfl), dts=[e[i] for e in ev if i < len(e)] + ([] if all(len(e) == len(ev[0]) for e in ev) else ["0"])) for i, x in enumerate(recs)]

    out = [r for l in parallel(one, jobs, 8) for r in l]
    for r in out:
        r.pop("after")
    return out


def check(c):
    c.model("ReduceModel", constants={"Procs": {"a", "b"} if not c.thorough else {"a", "b", "c"}, "Cells": {1, 2, 3}, "Values": {-1, 0, 4}}, invariants=("WholeKnown", "InvalidSeen"), properties=("AllLearn",))
    recs = calls(c)
    c.sample({"job": recs[0]["job"], "dt": recs[0].get("dt")})
    c.conform("TimeStepTrace", recs, what="calls of the time step and integrals", name="calls")
    c.conform("TimeStepTrace", runs(c), what="time steps of runs", name="runs")
    c.assumptions = ["in runs the ghost cells may be included in or left out of the largest signal rate (the property speaks of the cells of the processes)"]
