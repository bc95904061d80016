"""P11: limiters and face reconstruction."""
import random

import hydro
import mesh
from app import parallel
from ghosts import factorisations
from hydro import log_uniform, num, nums, uneven

NAMES = ("Constant", "VanLeer", "Minmod", "VanAlbada")


def slopes(rng, n):
    base = [0.0, 1.0, -1.0, 2.0, 0.5, -0.5, 3.0, 1e-30, -1e-30, 1e30, 1e-12]
    for a in base:
        for b in base:
            yield a, b
    for _ in range(n):
        a = rng.choice((-1, 1)) * log_uniform(rng, 1e-40, 1e40)
        yield a, rng.choice((a, -a, a * rng.uniform(0.1, 10), a * log_uniform(rng, 1e-12, 1e12), -a * rng.uniform(0.1, 10)))


def field(rng, kind, w, x):
    n = w[0] * w[1] * w[2]
    if kind == "linear":
        a = [rng.uniform(-2, 2) for _ in range(4)]
        xc = [[(p + q) / 2 for p, q in zip(x[d], x[d][1:])] for d in range(3)]
        return [a[0] + a[1] * xc[0][q % w[0]] + a[2] * xc[1][(q // w[0]) % w[1]] + a[3] * xc[2][q // (w[0] * w[1])] for q in range(n)]
    if kind == "steps":
        return [float(rng.randint(0, 2)) for _ in range(n)]
    s = log_uniform(rng, 1e-10, 1e10)
    return [s * rng.uniform(-1, 1) for _ in range(n)]


def check(c):
    rng = random.Random(c.seed)
    c.model("LimiterModel", constants={"Slopes": ["-3", "-1", "-0.25", "0", "0.25", "1", "2.5", "1000"], "Values": c.pick(["0", "1", "3"], ["-1", "0", "1", "2.5"]), "Widths": c.pick(["0.5", "1"], ["0.5", "1", "2"])},
            invariants=("SlopeQualities", "FaceQualities"))
    tasks = []
    for ndim in (1, 2, 3):
        for np in (1, 2, 3):
            cases = []
            if np == 1 and ndim == 1:
                for name in NAMES:
                    for a, b in slopes(rng, c.pick(150, 3000)):
                        cases.append({"kind": "lim", "name": name, "a": num(a), "b": num(b), "job": "lim %s %s %s" % (name, num(a), num(b))})
            for name in NAMES:
                for kind in ("linear", "steps", "random"):
                    for _ in range(c.pick(2 if np == 1 else 1, 12)):
                        ng = rng.choice((1, 2, 2, 3))
                        lay = rng.choice(factorisations(np, ndim))
                        n = [rng.randint(max(lay[d], 2), lay[d] + {1: 9, 2: 3, 3: 1}[ndim] + 1) if d < ndim else 1 for d in range(3)]
                        layers = rng.randint(0, ng - 1)
                        x = [uneven(rng, n[d], ng if d < ndim else 0, rng.uniform(-3, 3), rng.uniform(3.5, 6)) if rng.random() < 0.8 else [0.25 * i - 1 for i in range(n[d] + 2 * (ng if d < ndim else 0) + 1)] for d in range(3)]
                        f = field(rng, kind, [len(v) - 1 for v in x], x)
                        cases.append({"kind": "rec", "name": name, "ndim": ndim, "layers": layers, "n": n, "x": [[num(v) for v in l] for l in x], "field": [num(v) for v in f],
                                      "job": "rec %s %d %d %d %d %d %d %d %d " % (name, layers, *n, *lay, ng) + " ".join(nums(v) for v in x) + " " + nums(f)})
            tasks.append((ndim, np, hydro.exe(ndim), cases))

    def one(t):
        ndim, np, exe, cases = t
        res = mesh.run_jobs(c, exe, np, [k["job"] for k in cases], f"rec{ndim}{np}")
        return [dict(k, v=r[0]["v"]) if k["kind"] == "lim" else dict(k, blocks=r) for k, r in zip(cases, res)]

    recs = [r for rs in parallel(one, tasks, 3) for r in rs]
    c.sample({"job": recs[40]["job"], "slope": recs[40]["v"]})
    c.conform("LimiterTrace", recs, what="limiter calls and face reconstructions")
    c.assumptions = ["slopes between 1e-80 and 1e80 whose ratio is at most 1e80: beyond, products and ratios of the formulas leave the range of doubles"]
