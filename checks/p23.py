"""P23: the order in which parallel iterations run does not matter."""
import json
import os
import random

import builds
import steps
from app import parallel, read_h5
from common import Violation
from ghosts import factorisations
from hydro import num


def check(c):
    inv = ("Deterministic", "TwoOrdersTell")
    c.model("LoopOrderModel", constants={"N": 2, "M": 2, "Length": 3}, invariants=inv, name="LoopOrderModel two iterations")
    c.model("LoopOrderModel", constants={"N": 3, "M": 2, "Length": 2}, invariants=inv, name="LoopOrderModel three iterations")
    if c.thorough:
        c.model("LoopOrderModel", constants={"N": 2, "M": 3, "Length": 3}, invariants=inv, name="LoopOrderModel three elements", timeout=3000)
        c.model("LoopOrderModel", constants={"N": 3, "M": 3, "Length": 2}, invariants=inv, name="LoopOrderModel 3 x 3", timeout=3000)
    cfgs = ["c1", "c2", "c3", "s1p", "s2", "s3m"] + c.pick([], ["s1m", "s3", "s2p", "c1r", "c2r", "s1r"])
    exes = builds.apps(cfgs)
    jobs = [(cfg, k) for cfg in cfgs for k in range(c.pick({1: 6, 2: 6, 3: 5}[int(cfg[1])], 60))]

    def one(j):
        cfg, k = j
        rng = random.Random(f"{c.seed} order {cfg} {k}")
        nd = int(cfg[1])
        n = [rng.randint(*{1: (5, 14), 2: (4, 7), 3: (2, 4)}[nd]) if d < nd else 1 for d in range(3)]
        s = steps.make(rng, cfg, n=n, kind=rng.choice(("smooth", "random", "fast")), jump=0.3, iters=c.pick(3, 5), recon=steps.RECON[k % 4], solver=steps.SOLVERS[k % 3])
        sec = s.sections()
        h = (s.ends[0][1] - s.ends[0][0]) / s.n[0]
        if s.fx and rng.random() < 0.5:
            sec["User step"]["user_step"] = "Heat_nickel"
        if k % 3 == 1 and nd < 3:
            sec["Grid"]["shift_grid"] = "UserDefined"
            sec["Verif"] = {"shift_every": rng.choice((1, 2))}
            sec.setdefault("Problem", {})["rmax_shift"] = num(s.ends[0][1] + h * rng.uniform(1, 5))
        fits = [(np, l) for np in (2, 4) for l in factorisations(np, nd) if all(s.n[d] // l[d] >= s.ng for d in range(nd)) and not (s.field == "Internal_mass" and l[0] > 1)]
        np, lay = rng.choice(fits) if fits and rng.random() < 0.4 else (1, [1, 1, 1])
        sec["Parallelization"] = {f"mpi_dims_cart_x{i}": lay[i] for i in range(3)}
        runs = []
        orders = [("forward", {}), ("reverse", {"SHIM_ORDER": "1"})] + [(f"random {q}", {"SHIM_ORDER": "2", "SHIM_SEED": str(rng.randint(1, 10**6))}) for q in range(c.pick(1, 3))]
        loops = {}
        for q, (who, env) in enumerate(orders):
            d = os.path.join(c.dir, f"order-{cfg}-{k}-{q}")
            acc = os.path.join(c.dir, f"access-{cfg}-{k}") if q == 0 else None
            r = steps.run(exes[cfg], d, s, np=np, sections=sec, env={**env, **({"SHIM_ACCESS": acc, "SHIM_ACCESS_MAX": c.pick("1", "3")} if acc else {})})
            if r.rc not in (0, 1) or (r.rc == 1 and "invalid volumic internal energy" not in r.err):
                raise Violation("the program did not survive a valid run", {"rc": r.rc, "stderr": r.err[-800:], "sections": sec, "order": who, "processes": np})
            if acc:
                for p in range(np):
                    loops[p] = [json.loads(l) for l in open(f"{acc}.{p}")]
            files = []
            for hf in read_h5([os.path.join(r.outdir, f) for f in r.files if f.startswith(r.prefix + "_")]):
                if hf.get("error"):
                    raise Violation("an output file cannot be read", {"file": hf["file"]})
                files.append({"name": os.path.basename(hf["file"]), "data": {a: {"shape": v["shape"], "data": v["data"]} for a, v in hf["datasets"].items()}})
            runs.append({"who": who, "rc": str(r.rc), "err": r.err[-300:], "files": files, "steps": [[e["t"], e["dt"]] for e in r.logs[0] if e["event"] == "step"]})
        big = {}
        for f in runs[0]["files"]:
            for v, dd in f["data"].items():
                vals = [abs(float(x)) for x in dd["data"]]
                big[v] = max([big.get(v, 0.0)] + [x for x in vals if x == x])
        u = max([big.get(f"ux{d}", 0.0) for d in range(3)])
        scale = {v: num(max(m, u) if v.startswith("ux") else m) for v, m in big.items() if v in ("rho", "P", "E", "T") or v.startswith(("ux", "fx"))}
        scale["P"] = scale.get("E", "0")
        scale["T"] = num(float(scale.get("T", 0)) * max(1.0, float(scale["E"]) / max(big.get("P", 1.0), 1e-300)))
        what = f"{cfg} {s.recon} {s.solver} n={n} {s.bc} np={np}"
        return {"what": what, "exact": s.field != "Internal_mass", "scale": scale, "forward": runs[0], "others": runs[1:]}, [{"what": f"{what} process {p}", "loops": l} for p, l in loops.items()]

    both = parallel(one, jobs, 8)
    recs = [b[0] for b in both]
    acc = [a for b in both for a in b[1]]
    names = sorted({l["loop"] for a in acc for l in a["loops"]})
    c.sample({"run": recs[0]["what"], "orders": [o["who"] for o in recs[0]["others"]], "files": [f["name"] for f in recs[0]["forward"]["files"]]})
    c.details["loops"] = {"names": names, "recorded": sum(len(a["loops"]) for a in acc), "elements written": sum(len(l["written"]) for a in acc for l in a["loops"])}
    c.conform("AccessTrace", acc, what="accesses of recorded loops")
    c.conform("OrderTrace", recs, what="runs in different orders")
    c.assumptions = ["loops run as the Kokkos stand-in runs them: any order of whole iterations; accesses of iterations to views recorded element by element (a write is a change of value)",
                     "where the enclosed mass (a sum over cells) acts on the flow, fields agree to 1e-11, or 1e-10 of the largest in the field"]
