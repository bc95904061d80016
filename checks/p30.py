"""P30: processes never wait for each other for ever."""
import json
import os
import random

import builds
import setups
import steps
from app import parallel, run_app
from common import Raw, Violation
from ghosts import factorisations
from hydro import num


def logged(lib, d):
    os.makedirs(d, exist_ok=True)
    return {"LD_PRELOAD": lib, "VERIF_MPILOG": os.path.join(d, "calls")}


def programs_of(d, np):
    res = []
    for p in range(np):
        f = os.path.join(d, f"calls.{p}")
        res.append([json.loads(l) for l in open(f)] if os.path.exists(f) else [])
    return res


REFUSED = [("Grid", "Nx0_glob", "0"), ("Grid", "Nghost", "1"), ("Run", "cfl", "-1"), ("Run", "t_end", "-1"), ("Boundary Condition", "BC", "Nothing"), ("Hydro", "riemann_solver", "x"), ("Hydro", "reconstruction", "x"),
           ("User step", "user_step", "x"), ("Perfect Gas", "gamma", "0"), ("Grid", "type", "x"), ("Boundary Condition", "priority", "X_left"), ("Output", "max_iter", "x"), ("Grid", "x0max", "-5")]


def check(c):
    c.model("WaitingModel", constants={"N": 2, "MaxLen": c.pick(2, 3), "Layouts": Raw("{<<2,1,1>>, <<1,1,1>>, <<1,3,1>>}"), "Rounds": c.pick(1, 2)}, invariants=("OneEnd", "Monotone", "NeverWaits", "AllMet"), timeout=3000)
    c.model("WaitingModel", constants={"N": 3, "MaxLen": c.pick(1, 2), "Layouts": Raw(c.pick("{<<1,2,1>>}", "{<<2,2,1>>, <<3,1,1>>, <<1,2,2>>}")), "Rounds": 1}, invariants=("OneEnd", "NeverWaits", "AllMet"), name="WaitingModel3", timeout=3000)
    lib = builds.mpilog()
    cfgs = ["c1", "c2", "c3", "s2m", "s3m"] + c.pick([], ["s1", "s2", "c1r", "s2p"])
    exes = builds.apps(cfgs)
    jobs = [(cfg, k) for cfg in cfgs for k in range(c.pick({"c1": 8, "c2": 10, "c3": 8}.get(cfg, 5), 60))]
    jobs += [(c.pick("c2", "c3"), f"refused{i}") for i in range(len(REFUSED))]

    stuck = []

    def one(j):
        cfg, k = j
        if stuck:
            return []
        rng = random.Random(f"{c.seed} waiting {cfg} {k}")
        nd = int(cfg[1])
        n = [rng.randint(*{1: (4, 17), 2: (4, 9), 3: (4, 6)}[nd]) if d < nd else 1 for d in range(3)]
        s = steps.make(rng, cfg, n=n, kind=rng.choice(("smooth", "random")), jump=0.3, iters=rng.choice((2, 4)))
        sec = s.sections()
        sec["Output"]["iter_frequency"] = rng.choice((0, 1, 2))
        h = (s.ends[0][1] - s.ends[0][0]) / s.n[0]
        if rng.random() < 0.3:
            sec["Output"]["time_frequency"] = num(s.cfl * h / s.c0 * rng.uniform(0.3, 2))
        if rng.random() < 0.3:
            sec["Run"]["t_end"] = num(s.cfl * h / s.c0 * rng.uniform(0.5, 4))
        how = rng.choice(("plain", "plain", "shift", "energy", "clock", "refused", "restart"))
        if isinstance(k, str):
            how = "refused"
        script = []
        if how == "shift":
            sec["Grid"]["shift_grid"] = "UserDefined"
            sec["Verif"] = {"shift_every": rng.choice((1, 2))}
            sec.setdefault("Problem", {})["rmax_shift"] = num(s.ends[0][1] + h * rng.uniform(1, 5))
        elif how == "energy":
            # an invalid energy, known to one process only
            cell = [rng.choice((0, n[d] - 1, rng.randrange(n[d]))) for d in range(3)]
            script = [f"{rng.randint(1, 3)} cell {cell[0]} {cell[1]} {cell[2]} {rng.choice(('nan', '-1'))}"]
        elif how == "clock":
            # each process has its own clock
            sec["Output"]["time_job"] = 5
            script = [f"{rng.randint(1, 3)} clock {r} 7" for r in range(8) if rng.random() < 0.6]
        elif how == "refused":
            a, b, v = REFUSED[int(k[7:])] if isinstance(k, str) else rng.choice(REFUSED)
            if a == "Boundary Condition" and b == "BC":
                sec[a] = {}
            sec.setdefault(a, {})[b] = v
        fits = [(np, l) for np in (2, 3, 4, 6, 8) for l in factorisations(np, nd) if all(s.n[d] // l[d] >= s.ng for d in range(nd)) and not (s.field == "Internal_mass" and l[0] > 1)]
        if not fits:
            return []
        np, lay = rng.choice(fits)
        recs = []
        for q in (0, 1):
            sec2 = {a: dict(b) for a, b in sec.items()}
            sec2["Parallelization"] = {"mpi_device_aware": rng.choice(("true", "false")), **{f"mpi_dims_cart_x{i}": lay[i] for i in range(3)}}
            d = os.path.join(c.dir, f"wait-{cfg}-{k}-{q}")
            if q:
                sec2.setdefault("Problem", {}).update({"restart": "true", "restart_file": rng.choice((first, first, d + "/missing.h5"))})
                sec2["Output"]["max_iter"] = 6
                sec2["Run"]["t_end"] = "1e30"
            import shutil
            shutil.rmtree(d, ignore_errors=True)
            env = logged(lib, d)
            r = steps.run(exes[cfg], d, s, np=np, sections=sec2, script=script, env=env, keep_dir=True, timeout=40)
            progs = programs_of(d, np)
            what = f"{cfg} {how} layout {lay} run {q + 1}"
            if r.rc == "timeout":
                # who waits for what, if the log knows it
                if not stuck:
                    stuck.append(what)
                    c.conform("WaitingTrace", [{"what": what, "progs": progs, "last": "finalize"}], what="a run that does not end", name="WaitingTrace-stuck")
                raise Violation("the run does not end", {"what": what, "sections": sec2, "script": script, "last calls": [p[-1:] for p in progs]})
            if r.rc not in (0, 1):
                raise Violation("the run neither ended nor stopped with an error", {"what": what, "rc": r.rc, "err": r.err[-600:], "sections": sec2, "script": script})
            recs.append({"what": what + f" exit {r.rc}", "progs": progs, "last": "finalize"})
            if how != "restart" or r.rc != 0 or not r.files:
                break
            first = os.path.join(r.outdir, r.files[-1])
        return recs

    recs = [r for l in parallel(one, jobs, 8) for r in l]

    # the shipped problem that draws its wave on one process only, and one that reads files
    apps, _, _ = setups.programs()

    def shipped(np):
        d = os.path.join(c.dir, f"rt3d-{np}")
        env = logged(lib, d)
        ini = {"Grid": {"Nx0_glob": 4, "Nx1_glob": 4, "Nx2_glob": 6, "x0min": -5, "x0max": 5, "x1min": -5, "x1max": 5, "x2min": -5, "x2max": 5}, "Run": {"t_end": 1e9}, "Output": {"max_iter": 2, "iter_frequency": 1}, "Boundary Condition": {"BC": "Periodic", "BC_Z": "Reflexive"},
               "Initialisation": {"rho0": 3, "rho1": 1, "u0": 0}, "Gravity": {"gx2": -1}, "Passive Scalar": {"nfx": 1}}
        r = run_app(apps[("rayleigh_taylor3d", "c3")], d, ini, np=np, env=env, keep_dir=True, timeout=120)
        if r.rc != 0:
            raise Violation("the problem does not run", {"rc": r.rc, "err": r.err[-500:]})
        return {"what": f"rayleigh_taylor3d {np} processes", "progs": programs_of(d, np), "last": "finalize"}

    recs += parallel(shipped, [2, 3, 4], 3)
    for r in recs:
        for p in r["progs"]:
            for o in p:
                o.setdefault("id", 0)
        if not all(r["progs"]):
            raise Violation("a process said nothing", {"what": r["what"]})
    calls = sum(len(p) for r in recs for p in r["progs"])
    c.details["calls"] = {"runs": len(recs), "calls": calls, "messages": sum(o["k"] == "s" for r in recs for p in r["progs"] for o in p), "collective calls": sum(o["k"] == "coll" for r in recs for p in r["progs"] for o in p)}
    c.sample({"run": recs[0]["what"], "calls of process 0": [o.get("sig", o["k"]) for o in recs[0]["progs"][0][:12]]})
    c.conform("WaitingTrace", recs, what="recorded communication")
    c.assumptions = ["calls on the solver's communicators; the internals of the file library are not modelled (a run that hangs there is reported when its time runs out)", "what is learnt of one schedule holds for all, because an end of a call is never taken back (model checked)", "receives name their source and tag"]
