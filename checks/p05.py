"""P05: loops over blocks with ghost layers."""
import random

import mesh
from app import parallel


def check(c):
    rng = random.Random(c.seed)
    tasks = []
    for ndim in (1, 2, 3):
        exe = mesh.exe(ndim)
        jobs = []
        for ng in range(0, 4):
            for k in range(0, ng + 3):
                for n in range(c.pick(5, 20)):
                    lo = [rng.randint(0, 9) for _ in range(3)]
                    hi = [l + rng.randint(0 if rng.random() < 0.1 else 1, 4) for l in lo]
                    jobs.append((lo, hi, ng, k, rng.randint(0, 1)))
            for req in (-1, -2, -3, -4):
                for n in range(c.pick(4, 15)):
                    lo = [rng.randint(0, 9) for _ in range(3)]
                    jobs.append((lo, [l + rng.randint(1, 4) for l in lo], ng, req, n % 2))
        # every shape of corner: negative, inverted, in one direction only
        for d in range(3):
            for lo, hi in ((-1, 2), (-3, -1), (3, 2), (0, -1), (5, 0), (0, 0), (7, 7)):
                for six in (0, 1):
                    a, b = [0, 1, 2], [2, 3, 4]
                    a[d], b[d] = lo, hi
                    jobs.append((a, b, 2, 1, six))
        tasks.append((ndim, exe, jobs))

    def one(t):
        ndim, exe, jobs = t
        recs = []
        for order in ("0", "1", "2"):
            js = jobs if order == "0" else jobs[:60]
            res = mesh.run_jobs(c, exe, 1, ["range " + " ".join(map(str, lo + hi + [ng, k, six])) for lo, hi, ng, k, six in js], f"{ndim}-{order}", env={"SHIM_ORDER": order})
            for (lo, hi, ng, k, six), (r,) in zip(js, res):
                kk = {-1: ng, -2: 0, -3: 0, -4: 0}.get(k, k)
                recs.append({"lo": lo, "hi": hi, "ng": ng, "k": kk, "req": k, "ndim": ndim, "refused": "error" in r, "outside": r.get("outside", False), "nghost": r.get("nghost", []), "visits": r.get("visits", [])})
        return recs

    recs = [r for rs in parallel(one, tasks, 3) for r in rs]
    c.sample({k: recs[30][k] for k in ("lo", "hi", "ng", "k", "ndim")})
    c.model("DomainModel", constants={"MaxN": 4, "MaxP": 4, "ND": 2}, invariants=("Good",))
    c.model("LoopModel", constants={"MaxW": c.pick(3, 4), "MaxG": c.pick(2, 3)}, invariants=("Once", "Sizes"))
    c.conform("RangeTrace", recs, what="cells visited by the real loops")
