"""P06: exchange of ghost cells."""
import random

from common import Raw
from ghosts import factorisations, job, run


def check(c):
    rng = random.Random(c.seed)
    # the exchange for every interleaving of the processes
    grids = [((5, 1, 1), (2, 1, 1), 2, 1), ((3, 1, 1), (3, 1, 1), 1, 1), ((2, 1, 1), (1, 1, 1), 2, 1), ((2, 2, 1), (2, 1, 1), 1, 2), ((1, 3, 1), (1, 2, 1), 1, 2)]
    if c.thorough:
        grids += [((4, 1, 1), (4, 1, 1), 1, 1), ((8, 1, 1), (4, 1, 1), 2, 1), ((2, 2, 1), (2, 2, 1), 1, 2), ((3, 3, 1), (2, 1, 1), 1, 2), ((4, 3, 1), (2, 1, 1), 2, 2), ((2, 1, 1), (2, 1, 1), 1, 3), ((1, 2, 2), (1, 2, 1), 1, 3), ((3, 2, 2), (3, 1, 1), 1, 3)]
    for i, (N, P, ng, nd) in enumerate(grids):
        c.model("ExchangeModel", name=f"Exchange{i}", constants={"N": N, "P": P, "Ng": ng, "ND": nd}, invariants=("InteriorKept", "Filled", "NothingLeft", "NoDeadlock"))
    tasks = []
    for ndim in (1, 2, 3):
        for np in c.pick((1, 2, 3, 4, 6, 8), (1, 2, 3, 4, 5, 6, 7, 8, 9, 12)):
            jobs = []
            for lay in factorisations(np, ndim):
                per = ["Periodic"] * (2 * ndim)
                top = {1: 12, 2: 6, 3: 4}[ndim]
                for k in range(c.pick(4 if ndim < 3 else 2, 12)):
                    jobs.append(job(rng, ndim, np, per, top=top, lay=lay, aware=k % 2))
                # without periodic borders: the ghost cells towards neighbours
                jobs.append(job(rng, ndim, np, ["NullGradient"] * (2 * ndim), top=top, lay=lay))
            tasks.append((ndim, np, jobs))
    recs = run(c, tasks, "x")
    c.sample({"job": recs[10]["job"], "rho": recs[10]["rho"][:20]})
    c.conform("BoundaryTrace", recs, what="ghost cells after a real exchange")
    c.assumptions = ["blocks are at least as wide as the ghost layer"]
