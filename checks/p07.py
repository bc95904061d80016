"""P07: border conditions and their order."""
import itertools
import random

import mesh
from common import Raw, Violation
from ghosts import NAMES, SHORT, factorisations, job, run

KINDS = ["NullGradient", "Reflexive", "Periodic", "UserDefined"]


def name(rng, b):
    return rng.choice((NAMES[b], SHORT[b]))


def bad_lists(rng, ndim):
    full = [NAMES[b] for b in range(2 * ndim)]
    out = [full[:-1], full[1:], full + [full[0]], full + ["more"], [full[0]] + full[:-1], full[:-1] + [full[0]]]
    out += [full[:-1] + [w] for w in ("x0_left", "X0", "left", "X0_middle", "Q_left", "0", "X0left")]
    for d in range(ndim, 3):
        for s in range(2):
            out.append(full[:-1] + [NAMES[2 * d + s]])
            out.append([SHORT[2 * d + s]] + full[1:])
            out.append(full + [NAMES[2 * d + s]])
    for b in range(2 * ndim):
        out.append([w for i, w in enumerate(full) if i != b])
        out.append([w if i != b else SHORT[(b + 1) % (2 * ndim)] for i, w in enumerate(full)])
    for w in out:
        rng.shuffle(w)
    return out


def check(c):
    rng = random.Random(c.seed)
    models = [((3, 1, 1), (1, 1, 1), 2, 1, KINDS), ((5, 1, 1), (2, 1, 1), 2, 1, KINDS), ((3, 2, 1), (1, 1, 1), 1, 2, KINDS), ((2, 3, 1), (2, 1, 1), 1, 2, KINDS if c.thorough else KINDS[1:])]
    if c.thorough:
        models += [((2, 2, 1), (1, 2, 1), 2, 2, KINDS), ((1, 1, 1), (1, 1, 1), 1, 3, ["Reflexive", "UserDefined"])]
    for i, (N, P, ng, nd, kinds) in enumerate(models):
        c.model("BorderModel", name=f"Border{i}", constants={"N": N, "P": P, "Ng": ng, "ND": nd, "Bcs": set(kinds)}, invariants=("Agrees", "InteriorKept", "FirstWins"))
    tasks = []
    for ndim in (1, 2, 3):
        perms = list(itertools.permutations(range(2 * ndim)))
        combos = list(itertools.product(KINDS, repeat=2 * ndim))
        for np in c.pick((1, 2, 4), (1, 2, 3, 4, 6, 8)):
            jobs = []
            top = {1: 7, 2: 5, 3: 4}[ndim]
            if ndim == 1:
                for bc in combos:
                    for p in perms + [None]:
                        jobs.append(job(rng, ndim, np, bc, top=top, order=([name(rng, b) for b in p], p, False) if p else None))
            else:
                lays = factorisations(np, ndim)
                many = c.pick({2: 120, 3: 36}[ndim], {2: 500, 3: 120}[ndim]) // (1 if np == 1 else 2)
                for k in range(many):
                    bc = rng.choice(combos)
                    p = rng.choice(perms) if rng.random() < 0.85 else None
                    ng = rng.choice((1, 2)) if ndim == 3 else None
                    jobs.append(job(rng, ndim, np, bc, top=top, ng=ng, lay=lays[k % len(lays)], order=([name(rng, b) for b in p], p, False) if p else None))
                # every border first once, user code everywhere
                for b in range(2 * ndim):
                    rest = [x for x in range(2 * ndim) if x != b]
                    rng.shuffle(rest)
                    p = [b] + rest
                    jobs.append(job(rng, ndim, np, ["UserDefined"] * (2 * ndim), top=top, ng=1, order=([name(rng, x) for x in p], p, False)))
            if np <= 2:
                for w in bad_lists(rng, ndim):
                    jobs.append(job(rng, ndim, np, ["NullGradient"] * (2 * ndim), top=top, ng=1, order=(w, [], True)))
            tasks.append((ndim, np, jobs))
    recs = run(c, tasks, "b")
    for r in recs:
        if r["badorder"]:
            r["prio"] = [0]
    c.sample({"job": recs[50]["job"], "rho": recs[50]["rho"][:20]})
    c.conform("BoundaryTrace", recs, what="ghost cells after real border conditions")
    c.assumptions = ["blocks are at least as wide as the ghost layer", "the lists of borders are those of the [Boundary Condition] section; starting the program with them is checked in P03"]
