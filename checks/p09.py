"""P09: conservation of mass, momentum, energy and scalars."""
import os
import random

import builds
import scheme
import steps
from app import parallel
from common import Violation
from ghosts import factorisations
from hydro import num


def axis(rng, n, ng, lo, hi, kind, even):
    """face coordinates whose ghost cells repeat (periodic) or mirror (reflexive) the cells they stand for"""
    w = [1.0 if even else rng.uniform(0.4, 1.6) for _ in range(n)]
    s = (hi - lo) / sum(w)
    w = [s * v for v in w]
    left = w[-ng:] if kind == "Periodic" else list(reversed(w[:ng]))
    right = w[:ng] if kind == "Periodic" else list(reversed(w[-ng:]))
    x = [lo]
    for v in w + right:
        x.append(x[-1] + v)
    for v in reversed(left):
        x.insert(0, x[0] - v)
    return x


def calm(rng, s):
    s.pf = None
    s.g = [0.0] * 3
    s.fx = [[rng.uniform(0.2, 0.8) for _ in s.rho] for _ in range(2)]


def closed(rng, cfg, nsteps, n):
    s = steps.make(rng, cfg, n=n, gravity=0, iters=nsteps, kind=rng.choice(("smooth", "random", "steps", "fast")))
    calm(rng, s)
    kinds = [rng.choice(("Periodic", "Reflexive")) for _ in range(s.ndim)]
    s.bc = [k for k in kinds for _ in range(2)]
    even = rng.random() < 0.5
    s.x = [axis(rng, s.n[d], s.ng if d < s.ndim else 0, *s.ends[d], kinds[d] if d < s.ndim else "", even) if d < s.ndim else [s.ends[d][0], s.ends[d][1]] for d in range(3)]
    return s, ["mass", "energy", "scalars"] + [f"momentum{d + 1}" for d in range(s.ndim) if kinds[d] == "Periodic"]


def compact(rng, cfg, nsteps, core):
    """a disturbance in the middle of a fluid at rest, too far from the borders to reach them"""
    nd = int(cfg[1])
    pad = 2 * nsteps + 1
    n = [core + 2 * pad if d < nd else 1 for d in range(3)]
    s = steps.make(rng, cfg, n=n, gravity=0, iters=nsteps, kind=rng.choice(("random", "steps")))
    calm(rng, s)
    rho, P = s.rho[0], s.P[0]
    for q in range(len(s.rho)):
        p = (q % n[0], (q // n[0]) % n[1], q // (n[0] * n[1]))
        if not all(pad <= p[d] < n[d] - pad for d in range(nd)):
            s.rho[q], s.P[q] = rho, P
            for d in range(nd):
                s.u[d][q] = 0.0
    return s, ["mass", "energy", "scalars"] + ([f"momentum{d + 1}" for d in range(nd)] if s.geom == "Cartesian" else [])


def check(c):
    scheme.models(c, properties=("Conserves",), places=("line", "square", "box"), recons={"VanLeer"}, kinds=c.pick({"HLLC"}, {"HLL", "HLLC", "Low Mach"}), nsteps=c.pick(1, 3))
    jobs = []
    for cfg in ["c1", "c2", "c3"] + ["c1r"] * c.pick(1, 1):
        for k in range(c.pick(8, 60)):
            jobs.append(("closed", cfg, k))
    for cfg in ("c1", "c2", "c3", "s1", "s2", "s3"):
        for k in range(c.pick(2 if cfg[1] == "3" else 4, 30)):
            jobs.append(("compact", cfg, k))
    exes = builds.apps([j[1] for j in jobs])

    def one(j):
        kind, cfg, k = j
        nd = int(cfg[1])
        rng = random.Random(f"{c.seed} {kind} {cfg} {k}")
        np = rng.choice((1, 2, 3, 4))
        lay = rng.choice(factorisations(np, nd))
        if kind == "closed":
            n = [lay[d] * 2 + rng.randint(0, {1: 12, 2: 4, 3: 1}[nd]) if d < nd else 1 for d in range(3)]
            s, keep = closed(rng, cfg, c.pick(30, 200) if nd < 3 else c.pick(12, 60), n)
        else:
            s, keep = compact(rng, cfg, {1: 6, 2: 3, 3: 2}[nd], {1: 8, 2: 4, 3: 2}[nd])
        s.cfl = min(s.cfl, 0.4)
        r = steps.run(exes[cfg], os.path.join(c.dir, f"{kind}-{cfg}-{k}"), s, np=np, layout=lay)
        stopped = r.rc == 1 and "invalid volumic internal energy" in r.err
        if r.rc != 0 and not stopped:
            raise Violation("the program did not survive a valid run", {"rc": r.rc, "stderr": r.err[-800:], "sections": s.sections()})
        outs = steps.outputs(r)
        if len(outs) < 2:
            raise Violation("no step was taken", {"sections": s.sections()})
        # every output of short runs, some of the long ones
        pick = sorted({0, 1, len(outs) // 2, len(outs) - 1})
        return {"what": f"{kind} {cfg} {s.recon} {s.solver} n={s.n} borders={s.bc} layout={lay} steps={len(outs) - 1}", "geom": s.geom, "ndim": nd, "n": s.n, "ng": s.ng, "x": outs[0]["x"], "keep": keep,
                "outs": [steps.state_of(s, outs[i]) for i in pick]}

    recs = parallel(one, jobs, 8)
    c.sample({"run": recs[0]["what"], "kept": recs[0]["keep"]})
    c.conform("ConserveTrace", recs, what="totals over the domain")
    c.assumptions = ["scalars start within [0.2, 0.8]: where the bounds 0 and 1 cut a value, the cut changes the scalar's mass by design (P20)",
                     "ghost cells of closed uneven grids have the widths of the cells they stand for"]
