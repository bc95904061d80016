"""Jobs that refresh ghost cells and the records they give, for P06 and P07."""
import itertools

import mesh
from app import parallel

NAMES = ["X0_left", "X0_right", "X1_left", "X1_right", "X2_left", "X2_right"]
SHORT = ["X_left", "X_right", "Y_left", "Y_right", "Z_left", "Z_right"]


def factorisations(np, ndim):
    out = []
    for a in range(1, np + 1):
        for b in range(1, np + 1) if ndim >= 2 else (1,):
            for e in range(1, np + 1) if ndim == 3 else (1,):
                if a * b * e == np:
                    out.append((a, b, e))
    return out


def job(rng, ndim, np, bc, order=None, top=6, aware=None, rounds=None, ng=None, lay=None):
    """order: None or (list of words, meaning as list of borders, spoiled?)"""
    lay = lay or rng.choice(factorisations(np, ndim))
    ng = ng or rng.choice((1, 2, 2, 2, 3))
    n = []
    for d in range(3):
        if d >= ndim:
            n.append(1)
        else:
            # each block at least as wide as the ghost layer
            n.append(rng.randint(lay[d] * ng, max(lay[d] * ng, top)))
    nfx = rng.choice((0, 1, 2, 2, 3))
    aware = rng.randint(0, 1) if aware is None else aware
    rounds = rounds or rng.choice((1, 1, 2))
    words = ",".join(order[0]) if order else "-"
    line = "bc %d %d %d %d %d %d %d %d %d %d %s %s" % (tuple(n) + tuple(lay) + (ng, nfx, aware, rounds, words, " ".join(bc)))
    return {"line": line, "n": n, "ndim": ndim, "ng": ng, "nfx": nfx, "bc": list(bc), "order": words, "prio": list(order[1]) if order else [], "badorder": bool(order and order[2]), "np": np}


def run(c, tasks, name, workers=3):
    """tasks: list of (ndim, np, jobs); returns one record per job and process"""
    exes = {nd: mesh.exe(nd) for nd in sorted({t[0] for t in tasks})}

    def one(a):
        i, (ndim, np, jobs) = a
        res = mesh.run_jobs(c, exes[ndim], np, [j["line"] for j in jobs], f"{name}-{i}")
        recs = []
        for j, blocks in zip(jobs, res):
            for k, b in enumerate(blocks):
                r = {x: j[x] for x in ("n", "ndim", "ng", "nfx", "bc", "order", "prio", "badorder")}
                refused = "error" in b
                r.update({"what": f"process {k} of {np}", "refused": refused, "min": b.get("min", []), "max": b.get("max", []), "atborder": b.get("border", []), "user": b.get("user", []),
                          "rho": b.get("rho", []), "rhou": b.get("rhou", []), "E": b.get("E", []), "fx": b.get("fx", []), "job": j["line"]})
                if refused:
                    r["error"] = b["error"]
                recs.append(r)
        return recs

    return [r for rs in parallel(one, list(enumerate(tasks)), workers) for r in rs]
