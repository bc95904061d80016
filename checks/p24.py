"""P24: coordinates, volumes and surfaces."""
import math
import random

import mesh
from app import parallel
from ghosts import factorisations


def num(x):
    return "%.17g" % x


def check(c):
    rng = random.Random(c.seed)
    c.model("GeometryModel", constants={"Steps": c.pick(2, 4)}, invariants=("Positive", "Cut", "Outflow"))
    tasks = []
    for geom in ("Cartesian", "Spherical"):
        for ndim in (1, 2, 3):
            exe = mesh.exe(ndim, geom)
            for np in c.pick((1, 3, 4), (1, 2, 3, 4, 5, 6, 8)):
                jobs = []
                for k in range(c.pick(10 if np == 1 else 5, 40)):
                    lay = rng.choice(factorisations(np, ndim))
                    ng = rng.choice((2, 2, 3))
                    n = [rng.randint(lay[d], lay[d] + {1: 12, 2: 4, 3: 2}[ndim]) if d < ndim else 1 for d in range(3)]
                    if geom == "Cartesian":
                        ends = [sorted((rng.uniform(-5, 5), rng.uniform(-5, 5))) for _ in range(3)]
                        if k % 3 == 0:
                            ends = [(0.0, 1.0) if d >= ndim else (rng.uniform(-1, 0), rng.uniform(0.5, 2) * 10 ** rng.randint(-3, 8)) for d in range(3)]
                    else:
                        r0 = rng.choice((0.0, 1.0, rng.uniform(0.1, 3), 1e5))
                        t0 = rng.choice((0.0, rng.uniform(0.05, 1.2)))
                        t1 = rng.choice((math.pi, rng.uniform(1.3, 3.0)))
                        p0 = rng.choice((0.0, rng.uniform(0, 2)))
                        ends = [(r0, r0 + rng.uniform(0.5, 4) * max(1.0, r0)), (t0, t1), (p0, p0 + rng.uniform(0.3, 2 * math.pi))]
                    kind = "Regular" if k % 2 == 0 else "list"
                    lists = [[], [], []]
                    if kind == "list":
                        # uneven cells, ghosts included, between about the same ends
                        for d in range(3):
                            g = ng if d < ndim else 0
                            w = [rng.uniform(0.3, 1.7) for _ in range(n[d] + 2 * g)]
                            s = (ends[d][1] - ends[d][0]) / sum(w[g:g + n[d]])
                            x = [ends[d][0] - s * sum(w[:g])]
                            for v in w:
                                x.append(x[-1] + s * v)
                            lists[d] = [num(v) for v in x]
                    e = [[num(a), num(b)] for a, b in ends]
                    line = "grid %d %d %d %d %d %d %d %s " % (tuple(n) + tuple(lay) + (ng, kind))
                    line += " ".join(v for l in lists for v in l) if kind == "list" else " ".join(v for p in e for v in p)
                    jobs.append({"job": line, "n": n, "ng": ng, "ndim": ndim, "geom": geom, "kind": kind, "ends": e, "list": lists, "unusable": False})
                # ends that make no grid
                if np == 1 and geom == "Cartesian":
                    for d in range(3):
                        for lo, hi in (("1", "1"), ("2", "1"), ("nan", "1"), ("0", "nan")):
                            e = [["0", "1"] for _ in range(3)]
                            e[d] = [lo, hi]
                            if d >= ndim:
                                continue
                            n = [2 if q < ndim else 1 for q in range(3)]
                            jobs.append({"job": "grid %d %d %d 1 1 1 2 Regular " % tuple(n) + " ".join(v for p in e for v in p), "n": n, "ng": 2, "ndim": ndim, "geom": geom, "kind": "Regular", "ends": e, "list": lists, "unusable": True})
                tasks.append((geom, ndim, np, exe, jobs))

    def one(a):
        i, (geom, ndim, np, exe, jobs) = a
        recs = []
        for j, blocks in zip(jobs, mesh.run_jobs(c, exe, np, [j["job"] for j in jobs], f"g{i}")):
            refused = any("error" in b for b in blocks)
            recs.append(dict(j, refused=refused, blocks=[] if refused else [{k: b[k] for k in ("min", "max", "x", "xc", "dx", "dv", "ds")} for b in blocks], np=np))
        return recs

    recs = [r for rs in parallel(one, list(enumerate(tasks)), 3) for r in rs]
    c.sample({"job": recs[3]["job"], "x": recs[3]["blocks"][0]["x"][0][:4]})
    c.conform("GridTrace", recs, what="grids of the real program")
    c.assumptions = ["coordinates of ghost cells beyond the centre or the polar axis are compared, their areas and volumes are not"]
