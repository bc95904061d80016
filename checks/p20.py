"""P20: passive scalars."""
import os
import random

import builds
import scheme
import steps
from app import parallel
from common import Violation
from ghosts import factorisations
from hydro import num


def check(c):
    scheme.models(c, properties=("ConstantScalarStays", "NoFeedback"), invariants=("ScalarsBounded",), places=c.pick(("line", "square", "shells"), scheme.ALL), recons={"VanLeer"}, kinds=c.pick({"HLLC"}, {"HLL", "HLLC", "Low Mach"}))
    cfgs = ["c1", "c2", "c3", "s1", "s2"] + c.pick([], ["s3", "c1r", "s1m"])
    jobs = [(cfg, k) for cfg in cfgs for k in range(c.pick(4, 40))]
    exes = builds.apps(cfgs)

    def one(j):
        cfg, k = j
        nd = int(cfg[1])
        rng = random.Random(f"{c.seed} scalars {cfg} {k}")
        np = rng.choice((1, 2, 3, 4))
        lay = rng.choice(factorisations(np, nd))
        if cfg.endswith("m"):
            lay = [1, np, 1] if nd > 1 else [1, 1, 1]
            np = lay[1]
        n = [lay[d] * 2 + rng.randint(0, {1: 10, 2: 3, 3: 1}[nd]) if d < nd else 1 for d in range(3)]
        s = steps.make(rng, cfg, n=n, iters=c.pick(6, 25) if nd < 3 else 4, kind=rng.choice(("random", "steps", "fast", "smooth")), nfx=0)
        m = len(s.rho)
        f = {"a": [rng.choice((0.0, 1.0)) for _ in range(m)], "b": [rng.uniform(0, 1) for _ in range(m)], "z": [0.0 if i % 3 else 1.0 for i in range(m)]}
        const = rng.choice((0.0, 1.0, rng.uniform(0, 1)))
        sets = [["a", "b", "c"], ["b", "c", "a"], [], ["a"], ["c", "a", "z", "b", "a"]]
        runs = []
        for q, names in enumerate(sets):
            t = s.copy()
            t.fx = [[const] * m if x == "c" else f[x] for x in names]
            r = steps.run(exes[cfg], os.path.join(c.dir, f"sc-{cfg}-{k}-{q}"), t, np=np, layout=lay)
            if r.rc != 0 and not (r.rc == 1 and "invalid volumic internal energy" in r.err):
                raise Violation("the program did not survive a valid run", {"rc": r.rc, "stderr": r.err[-800:], "sections": t.sections()})
            runs.append({"label": "scalars " + " ".join(names), "names": [["c", num(const)] if x == "c" else [x] for x in names], "outs": [steps.state_of(t, o) for o in steps.outputs(r)],
                         "dts": [e["dt"] for e in r.logs[0] if e["event"] == "step"]})
        if len(runs[0]["outs"]) < 2:
            raise Violation("no step was taken", {"sections": s.sections()})
        return {"what": f"{cfg} {s.recon} {s.solver} n={n} layout={lay} borders={s.bc}", "runs": runs}

    def sharp(k):
        """long steps, jumps between 0 and 1 and strong flows: here the scheme itself leaves [0,1] before its limits are applied"""
        rng = random.Random(f"{c.seed} sharp {k}")
        cfg = ("c1", "s1")[k % 2]
        s = steps.make(rng, cfg, n=[rng.randint(6, 16), 1, 1], iters=6, kind=rng.choice(("steps", "random", "fast", "smooth")), nfx=0, recon="VanLeer" if k % 8 else None, mach=rng.choice((None, 1.0, 3.0)))
        s.cfl = rng.choice((0.45, 0.9, 0.9))
        m = len(s.rho)
        s.fx = [[rng.choice((0.0, 1.0)) for _ in range(m)], [1.0 - (i % 3 == 0) for i in range(m)], [float(i < m // 2) for i in range(m)], [rng.uniform(0.9, 1) for _ in range(m)], [float(i >= m // 2) for i in range(m)]]
        r = steps.run(exes[cfg], os.path.join(c.dir, f"sharp-{k}"), s, np=1)
        if r.rc != 0 and not (r.rc == 1 and "invalid volumic internal energy" in r.err):
            raise Violation("the program did not survive a valid run", {"rc": r.rc, "stderr": r.err[-800:], "sections": s.sections()})
        # the evidence file of a stopped run is judged by P18
        outs = steps.outputs(r)
        outs = outs[:-1] if r.rc else outs
        return {"what": f"{cfg} {s.recon} {s.solver} n={s.n} borders={s.bc} sharp {k}", "runs": [{"label": "sharp", "names": [[f"q{i}"] for i in range(5)], "outs": [steps.state_of(s, o) for o in outs], "dts": []}]}

    recs = parallel(one, jobs, 8) + parallel(sharp, range(c.pick(120, 1500)), 8)
    c.sample({"run": recs[0]["what"], "sets": [r["label"] for r in recs[0]["runs"]]})
    c.conform("ScalarTrace", recs, what="groups of runs that differ in their scalars")
    c.assumptions = ["user step off or user-defined: nickel heating makes the first scalar active by design (P27)"]
