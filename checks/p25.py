"""P25: directions and orientations are alike."""
import os
import random

import builds
import scheme
import steps
from app import parallel
from common import Violation
from ghosts import factorisations
from hydro import num

FLIP = {0: 1, 1: 0}


def cell(n, q):
    return (q % n[0], (q // n[0]) % n[1], q // (n[0] * n[1]))


def image(s, perm, flip, ndim, n, cfg, across):
    """the scenario in which direction d of s lies along perm[d], mirrored when d is in flip; across: (ends, border) of added directions"""
    t = s.copy()
    t.cfg, t.ndim, t.n = cfg, ndim, n
    m = steps.cells(n)

    def source(q):
        p = cell(n, q)
        i = [0, 0, 0]
        for d in range(s.ndim):
            i[d] = s.n[d] - 1 - p[perm[d]] if d in flip else p[perm[d]]
        return i[0] + s.n[0] * (i[1] + s.n[1] * i[2])

    src = [source(q) for q in range(m)]
    t.rho = [s.rho[j] for j in src]
    t.P = [s.P[j] for j in src]
    t.fx = [[f[j] for j in src] for f in s.fx]
    t.u = [[0.0] * m for _ in range(ndim)]
    t.ends = [None] * 3
    t.x = [None] * 3 if s.x is not None else None
    t.bc = [None] * (2 * ndim)
    t.g = [0.0] * 3
    border = {}
    for d in range(s.ndim):
        e = perm[d]
        sg = -1.0 if d in flip else 1.0
        t.u[e] = [sg * s.u[d][j] for j in src]
        lo, hi = s.ends[d]
        t.ends[e] = (-hi, -lo) if d in flip else (lo, hi)
        if s.x is not None:
            t.x[e] = [-v for v in reversed(s.x[d])] if d in flip else list(s.x[d])
        for f in range(2):
            border[2 * d + f] = 2 * e + (1 - f if d in flip else f)
            t.bc[border[2 * d + f]] = s.bc[2 * d + f]
        t.g[e] = sg * s.g[d]
    for e in range(3):
        if e not in perm:
            t.ends[e] = across[e]["ends"]
            if s.x is not None:
                g = s.ng if e < ndim else 0
                a, b = t.ends[e]
                t.x[e] = [a + (b - a) * (i - g) / n[e] for i in range(n[e] + 2 * g + 1)]
            if e < ndim:
                t.bc[2 * e] = t.bc[2 * e + 1] = across[e]["bc"]
    if ndim == s.ndim and s.prio:
        t.prio = [border[b] for b in s.prio]
    else:
        t.prio = []
    return t


def scale_of(outs):
    mx = lambda v: max((abs(float(x)) for x in v), default=1.0)
    rho = max(mx(o["rho"]) for o in outs)
    u = max(mx(l) for o in outs for l in o["u"])
    E = max(mx(o["E"]) for o in outs)
    return {"rho": num(rho), "u": num(max(u, (E / rho) ** 0.5)), "P": num(E), "E": num(E)}


def check(c):
    scheme.models(c, properties=("Mirrors", "Permutes", "UniformStays"), places=scheme.ALL[:4], kinds=c.pick({"HLLC"}, {"HLL", "HLLC", "Low Mach"}), recons=c.pick({"VanLeer"}, None))
    exes = builds.apps(["c1", "c2", "c3"] + c.pick([], ["c1r", "c2r"]))
    jobs = [("mirror", cfg, k) for cfg in ("c1", "c2", "c3") for k in range(c.pick(8, 80))]
    jobs += [("permute", cfg, k) for cfg in ("c2", "c3") for k in range(c.pick(8, 80))]
    jobs += [("embed", cfg, k) for cfg in ("c2", "c3") for k in range(c.pick(12, 100))]
    jobs += [("uniform", cfg, k) for cfg in ("c1", "c2", "c3") for k in range(c.pick(4, 40))]
    if c.thorough:
        jobs += [(kind, "c2r", k) for kind in ("mirror", "permute", "uniform") for k in range(20)]

    def go(s, cfg, d, np, lay):
        r = steps.run(exes[cfg], os.path.join(c.dir, d), s, np=np, layout=lay)
        if r.rc != 0 and not (r.rc == 1 and "invalid volumic internal energy" in r.err):
            raise Violation("the program did not survive a valid run", {"rc": r.rc, "stderr": r.err[-800:], "sections": s.sections()})
        outs = [steps.state_of(s, o) for o in steps.outputs(r)]
        # the evidence file of a run that was stopped repeats the last output
        return {"n": s.n, "ndim": s.ndim, "outs": outs, "dts": [e["dt"] for e in r.logs[0] if e["event"] == "step"]}

    def one(j):
        kind, cfg, k = j
        nd = int(cfg[1])
        rng = random.Random(f"{c.seed} {kind} {cfg} {k}")
        np = rng.choice((1, 1, 2, 4))
        big = {1: 10, 2: 4, 3: 2}[nd]
        n = [rng.randint(big, big + {1: 6, 2: 3, 3: 2}[nd]) if d < nd else 1 for d in range(3)]
        its = c.pick(4, 10) if nd < 3 else 3
        if kind == "embed":
            bcfg = "c1" if not cfg.endswith("r") else "c1r"
            s = steps.make(rng, bcfg, n=[rng.randint(5, 9), 1, 1], iters=its)
            axis = rng.randrange(nd)
            h = (s.ends[0][1] - s.ends[0][0]) / s.n[0]
            m = [2 if e < nd else 1 for e in range(3)]
            m[axis] = s.n[0]
            across = {e: {"ends": (0.0, h * m[e] * rng.uniform(1, 3)), "bc": rng.choice(("Periodic", "NullGradient", "Reflexive"))} for e in range(3) if e != axis}
            perm, flip = [axis], []
            # every step is cut to the same length, well below what any of the runs would choose
            s.iters = 10 ** 6
            w = min(b - a for a, b in zip(s.x[0], s.x[0][1:])) if s.x is not None else h
            fast = max(abs(s.u[0][q]) + (s.gamma * s.P[q] / s.rho[q]) ** 0.5 for q in range(s.n[0]))
            step = 0.02 * min(w, h) / fast
            s.extra = {"Output": {"iter_frequency": 0, "time_frequency": num(step)}}
            s.t_end = its * step
            s.cfl = 0.4
            s.g = [s.g[0], 0.0, 0.0]
            t = image(s, perm, flip, nd, m, cfg, across)
            a = go(s, bcfg, f"{kind}-{cfg}-{k}-a", 1, None)
        else:
            s = steps.make(rng, cfg, n=n, iters=its)
            if kind == "uniform":
                for f in [s.rho, s.P] + s.u + s.fx:
                    f[:] = [f[0]] * len(f)
                s.g = [0.0] * 3
                s.bc = [b for _ in range(nd) for b in rng.choice((["Periodic", "Periodic"], ["NullGradient", "NullGradient"]))]
                perm, flip = list(range(nd)), []
            elif kind == "mirror":
                perm, flip = list(range(nd)), sorted(rng.sample(range(nd), rng.randint(1, nd)))
            else:
                perm, flip = rng.choice([p for p in ([1, 0], [0, 2, 1], [1, 0, 2], [2, 1, 0], [1, 2, 0], [2, 0, 1]) if len(p) == nd]), []
            s.g = [v if d < nd else 0.0 for d, v in enumerate(s.g)]
            if not s.prio:
                # without a list the fill order depends on the direction (P07); a list makes the image exact
                s.prio = rng.sample(range(2 * nd), 2 * nd)
            m = [1, 1, 1]
            for d in range(nd):
                m[perm[d]] = n[d]
            t = image(s, perm, flip, nd, m, cfg, {e: {"ends": s.ends[e]} for e in range(nd, 3)})
            a = go(s, cfg, f"{kind}-{cfg}-{k}-a", 1, None)
        if kind == "uniform":
            b = {**a, "outs": a["outs"][1:], "dts": []}
            a = {**a, "outs": [a["outs"][0]] * (len(a["outs"]) - 1), "dts": []}
        else:
            lays = [l for l in factorisations(np, nd) if all(t.n[d] // l[d] >= 2 for d in range(nd))] or [None]
            lay = rng.choice(lays)
            b = go(t, cfg, f"{kind}-{cfg}-{k}-b", np if lay else 1, lay)
        if not b["outs"]:
            raise Violation("no step was taken", {"sections": s.sections()})
        return {"what": f"{kind} {cfg} {s.recon} {s.solver} n={s.n} perm={perm} flip={flip} borders={s.bc} pf={s.pf} grid={'uneven' if s.x else 'even'}", "base": a, "image": b, "perm": [p + 1 for p in perm], "flip": [d + 1 for d in flip],
                "scale": scale_of(a["outs"] + b["outs"])}

    recs = parallel(one, jobs, 8)
    c.sample({"pair": recs[0]["what"], "outputs": len(recs[0]["base"]["outs"])})
    c.details["pairs"] = {k: sum(r["what"].startswith(k) for r in recs) for k in ("mirror", "permute", "embed", "uniform")}
    c.conform("SymmetryTrace", recs, what="pairs of runs that are images of each other")
    c.assumptions = ["corner ghost cells are compared under the image of the priority list: without a list the documented fill order is tied to the direction names"]
