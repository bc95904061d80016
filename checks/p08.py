"""P08: the number of processes does not matter."""
import os
import random

import builds
import scheme
import steps
from app import parallel, read_h5
from common import Raw, Violation
from ghosts import factorisations
from hydro import num


def check(c):
    c.model("ParallelModel", constants={"Splits": Raw(c.pick("{<<2,2>>, <<3,1>>, <<1,1,2>>}", "{<<2,2>>, <<3,1>>, <<1,1,2>>, <<2,1,2>>, <<1,1,1,1>>, <<3,2>>}")), "Ng": 1, "Values": {0, 1, 4}, "Steps": 2}, invariants=("AsOne", "InStep"), properties=("Finish",), timeout=3000)
    if c.thorough:
        c.model("ParallelModel", constants={"Splits": Raw("{<<2,2>>, <<2,3>>, <<2,2,2>>}"), "Ng": 2, "Values": {0, 3}, "Steps": 2}, invariants=("AsOne", "InStep"), name="ParallelModel2", timeout=3000)
    cfgs = ["c1", "c2", "c3", "s2", "s2m", "s3m"] + c.pick([], ["s1", "s3", "c1r", "s2p"])
    exes = builds.apps(cfgs)
    jobs = [(cfg, k) for cfg in cfgs for k in range(c.pick({1: 6, 2: 7, 3: 7}[int(cfg[1])], 60))]

    def one(j):
        cfg, k = j
        rng = random.Random(f"{c.seed} processes {cfg} {k}")
        nd = int(cfg[1])
        n = [rng.randint(*{1: (4, 17), 2: (4, 9), 3: (4, 6)}[nd]) if d < nd else 1 for d in range(3)]
        s = steps.make(rng, cfg, n=n, kind=rng.choice(("smooth", "random", "fast")), jump=0.3, iters=6 if nd < 3 else 4)
        if rng.random() < 0.3:
            s.bc = [rng.choice(("UserDefined", "NullGradient", "Reflexive", b)) if b != "Periodic" else b for b in s.bc]
        sec = s.sections()
        sec["Output"]["iter_frequency"] = rng.choice((1, 2, 3))
        h = (s.ends[0][1] - s.ends[0][0]) / s.n[0]
        if rng.random() < 0.4:
            sec["Output"]["time_frequency"] = num(s.cfl * h / s.c0 * rng.uniform(0.3, 2))
        if rng.random() < 0.3:
            sec["Run"]["t_end"] = num(s.cfl * h / s.c0 * rng.uniform(0.5, 4))
        if rng.random() < 0.3 and nd < 3:
            sec["Grid"]["shift_grid"] = "UserDefined"
            sec["Verif"] = {"shift_every": rng.choice((1, 2))}
            sec.setdefault("Problem", {})["rmax_shift"] = num(s.ends[0][1] + h * rng.uniform(1, 5))
        script = []
        if rng.random() < 0.25:
            # an invalid energy somewhere
            cell = [rng.randrange(n[d]) for d in range(3)]
            script = [f"{rng.randint(1, 5)} cell {cell[0]} {cell[1]} {cell[2]} {rng.choice(('nan', '-1'))}"]
        elif rng.random() < 0.35:
            # the wall-time budget (seen by process 0) is used up during some step; other clocks may be ahead
            sec["Output"]["time_job"] = 5
            at = rng.randint(1, 4)
            script = [f"{at} clock 0 7"] + [f"{rng.randint(1, at)} clock {r} 7" for r in range(1, 8) if rng.random() < 0.5]
        fits = [(np, l) for np in (2, 3, 4, 5, 6, 8) for l in factorisations(np, nd) if all(s.n[d] // l[d] >= s.ng for d in range(nd)) and not (s.field == "Internal_mass" and l[0] > 1)]
        if not fits:
            return None
        chosen = [(1, [1, 1, 1], False)] + [(*rng.choice(fits), rng.random() < 0.5) for _ in range(c.pick(2, 3))]
        # the layout the program chooses itself, when every layout of so many processes is fine
        free = [np for np in (2, 3, 4) if all((np, l) in fits for l in factorisations(np, nd))]
        if free:
            chosen.append((rng.choice(free), None, False))
        runs = []
        for q, (np, lay, aware) in enumerate(chosen):
            sec2 = {a: dict(b) for a, b in sec.items()}
            sec2["Parallelization"] = {"mpi_device_aware": "true" if aware else "false"}
            if lay:
                sec2["Parallelization"].update({f"mpi_dims_cart_x{i}": lay[i] for i in range(3)})
            r = steps.run(exes[cfg], os.path.join(c.dir, f"proc-{cfg}-{k}-{q}"), s, np=np, sections=sec2, script=script)
            if r.rc not in (0, 1):
                raise Violation("the program did not survive a valid run", {"rc": r.rc, "stderr": r.err[-800:], "sections": sec2, "processes": np})
            files = []
            for hf in read_h5([os.path.join(r.outdir, f) for f in r.files if f.startswith(r.prefix + "_")]):
                if hf.get("error"):
                    raise Violation("an output file cannot be read", {"file": hf["file"]})
                files.append({"name": os.path.basename(hf["file"]), "data": {a: {"shape": v["shape"], "data": v["data"]} for a, v in hf["datasets"].items()}})
            ix = os.path.join(r.outdir, r.prefix + ".xmf")
            runs.append({"who": f"{np} processes {lay} device aware {aware}", "rc": str(r.rc), "err": r.err[-300:], "files": files, "steps": [[[e["t"], e["dt"]] for e in l if e["event"] == "step"] for l in r.logs],
                         "index": open(ix).read().splitlines() if os.path.exists(ix) else []})
        big = {}
        for f in runs[0]["files"]:
            for v, d in f["data"].items():
                vals = [abs(float(x)) for x in d["data"]]
                big[v] = max([big.get(v, 0.0)] + [x for x in vals if x == x])
        u = max([big.get(f"ux{d}", 0.0) for d in range(3)])
        scale = {v: num(max(m, u) if v.startswith("ux") else m) for v, m in big.items() if v in ("rho", "P", "E", "T") or v.startswith(("ux", "fx"))}
        scale["P"] = scale.get("E", "0")
        scale["T"] = num(float(scale.get("T", 0)) * max(1.0, float(scale["E"]) / max(big.get("P", 1.0), 1e-300)))
        return {"what": f"{cfg} {s.recon} {s.solver} n={n} {s.bc} {script}", "alone": runs[0], "many": runs[1:], "scale": scale}

    recs = [r for r in parallel(one, jobs, 8) if r]
    c.sample({"run": recs[0]["what"], "compared": [m["who"] for m in recs[0]["many"]], "files": [f["name"] for f in recs[0]["alone"]["files"]]})
    c.details["runs"] = {"inputs": len(recs), "runs on several processes": sum(len(r["many"]) for r in recs)}
    c.conform("ProcessTrace", recs, what="runs on different numbers of processes")
    c.assumptions = ["up to 8 processes; every block at least as wide as the ghost layer", "values agree to 1e-11, or 1e-10 of the largest in the field (global sums are rounded differently)"]
