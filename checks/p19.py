"""P19: gravity fields and their action."""
import random

import hydro
import mesh
import scheme
from app import parallel
from ghosts import factorisations
from hydro import log_uniform, num, nums, uneven

FIELDS = ("Uniform", "Point_mass", "Internal_mass")


def coordinates(rng, geom, ndim, n, ng):
    if geom == "Spherical":
        r0 = log_uniform(rng, 0.1, 1e9)
        ends = [(r0, r0 * (1 + n[0] * rng.uniform(0.02, 0.25))), (0.8, 0.8 + 0.1 * n[1]), (0.2, 0.2 + 0.2 * n[2])]
        return [uneven(rng, n[d], ng if d < ndim else 0, *ends[d], spread=0.3) for d in range(3)]
    a = log_uniform(rng, 0.1, 1e6)
    return [uneven(rng, n[d], ng if d < ndim else 0, a, a * (1 + n[d] * 0.2), spread=0.3) for d in range(3)]


def fields(c):
    rng = random.Random(c.seed)
    tasks = []
    for geom in ("Cartesian", "Spherical"):
        for ndim in (1, 2, 3):
            for np in (1, 2, 4):
                cases = []
                for kind in FIELDS:
                    for _ in range(c.pick(2, 20) * (2 if kind == "Internal_mass" else 1)):
                        lays = [l for l in factorisations(np, ndim)]
                        good = [l for l in lays if l[0] == 1]
                        p = rng.choice(good if kind == "Internal_mass" and good and rng.random() < 0.7 else lays)
                        ng = rng.choice((2, 2, 3))
                        n = [rng.randint(p[d] * ng, p[d] * ng + (3 if ndim < 3 else 1)) if d < ndim else 1 for d in range(3)]
                        x = coordinates(rng, geom, ndim, n, ng)
                        f = {"kind": kind}
                        job = "grav %s %d %d %d %d %d %d %d " % (kind, *n, *p, ng) + " ".join(nums(v) for v in x)
                        rho = []
                        if kind == "Uniform":
                            f["g"] = [num(rng.choice((0.0, rng.uniform(-10, 10)))) for _ in range(3)]
                            job += " " + " ".join(f["g"])
                        else:
                            # central mass from nothing to dominating
                            rho0 = log_uniform(rng, 1e-3, 1e3)
                            f["M"] = num(rng.choice((0.0, 1.0, log_uniform(rng, 1e-3, 1e3))) * rho0 * x[0][0] ** 3 if kind == "Internal_mass" else log_uniform(rng, 1, 1e30))
                            job += " " + f["M"]
                            if kind == "Internal_mass":
                                m = (len(x[0]) - 1) * (len(x[1]) - 1) * (len(x[2]) - 1)
                                rho = [num(rho0 * rng.uniform(0.1, 2)) for _ in range(m)]
                                job += " " + " ".join(rho)
                        cases.append({"geom": geom, "ndim": ndim, "n": n, "p": p, "ng": ng, "field": f, "x": [[num(v) for v in l] for l in x], "rho": rho, "line": job})
                tasks.append((geom, ndim, np, hydro.exe(ndim, geom), cases))

    def one(t):
        geom, ndim, np, exe, cases = t
        res = mesh.run_jobs(c, exe, np, [k["line"] for k in cases], f"grav-{geom}{ndim}-{np}")
        out = []
        for k, per in zip(cases, res):
            errs = [p["error"] for p in per if "error" in p]
            out.append(dict({a: b for a, b in k.items() if a != "line"}, refused=bool(errs), error=errs[0] if errs else "", blocks=[p for p in per if "error" not in p],
                            job=f"{k['field']['kind']} {geom} {ndim}D n={k['n']} layout={k['p']}"))
        return out

    recs = [r for l in parallel(one, tasks, 6) for r in l]
    c.sample({"job": recs[0]["job"]})
    c.conform("GravityTrace", recs, what="gravity fields")


def check(c):
    c.model("GravityModel", constants={"Owners": {"a", "b"} if not c.thorough else {"a", "b", "c"}, "Columns": {1, 2}, "NShells": 2, "Densities": {0, 1, 3} if c.thorough else {0, 3}}, invariants=("AveragesComplete", "EnclosedRight"))
    fields(c)

    def strong(rng, s):
        s.pf = None
        if s.field == "Uniform" and not any(s.g):
            s.g = [rng.choice((-1, 1)) * 0.3 * s.c0 ** 2 / (s.ends[0][1] - s.ends[0][0]) * s.n[0] for _ in range(3)]

    scheme.validated(c, ["c1", "c2", "s1p", "s1m", "s2m", "s3p", "s3m"] + c.pick([], ["c3", "c1p", "s2p", "s1r"]), c.pick(4, 40), "time steps with gravity", tweak=strong, iters=c.pick(2, 4))
    c.assumptions = ["radii of all cells, ghosts included, are positive"]
