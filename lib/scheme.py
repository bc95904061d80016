"""Model runs of SchemeModel and validated steps shared by several checks."""
import os
import random

import builds
import steps
from app import parallel
from common import Raw, Violation
from ghosts import factorisations

THREE = Raw('{<<"1","0.3","-0.2","0.1","1","0.2">>, <<"0.2","-0.5","0.4","0","0.3","0.7">>, <<"2","0","0","0","1","0.4">>}')
TWO = Raw('{<<"1","0.3","-0.2","0.1","1","0.2">>, <<"0.2","-0.5","0.4","0","0.3","0.7">>}')
REST = Raw('{<<"1","0","0","0","1","0.2">>, <<"0.2","0","0","0","1","0.7">>}')
ALL = ("line", "wide", "square", "box", "shells", "wedge", "sector")


def models(c, properties, invariants=(), places=ALL, palettes=None, recons=None, kinds=None, nsteps=None, closures=("Periodic", "Reflexive")):
    """the scheme as a state machine: all initial states over the palettes"""
    recons = recons or c.pick({"VanLeer"}, {"Constant", "VanLeer", "Minmod", "VanAlbada"})
    kinds = kinds or c.pick({"HLLC"}, {"HLL", "HLLC", "Low Mach"})

    def one(pl):
        pal = (palettes or {}).get(pl) or (TWO if pl in ("box", "sector") else THREE)
        return c.model("SchemeModel", constants={"Places": {pl}, "Recons": set(recons), "Kinds": set(kinds), "Closures": set(closures), "Palette": pal, "Steps": nsteps or c.pick(1, 2)},
                       invariants=invariants, properties=properties, name="SchemeModel-" + pl, workers=c.pick(2, 8), timeout=3000)
    parallel(one, list(places), c.pick(4, 1))


def layout(rng, s, np):
    """a layout every block of which keeps as many cells as the ghost layers"""
    lays = [l for l in factorisations(np, s.ndim) if all(s.n[d] // l[d] >= s.ng for d in range(s.ndim))]
    return rng.choice(lays) if lays else None


def validated(c, cfgs, count, what, tweak=None, name="steps", iters=2, keep=None, **kw):
    """runs count random scenarios per configuration; every cell of every step is compared with Scheme"""
    exes = builds.apps(cfgs)
    jobs = [(cfg, k) for cfg in cfgs for k in range(count)]

    def one(j):
        cfg, k = j
        rng = random.Random(f"{c.seed} {name} {cfg} {k}")
        s = steps.make(rng, cfg, iters=iters, **kw)
        if tweak:
            tweak(rng, s)
        np = rng.choice((1, 1, 2, 3, 4))
        lay = layout(rng, s, np)
        if s.field == "Internal_mass" and lay and lay[0] > 1:
            lay = None
        if lay is None:
            np, lay = 1, [1, 1, 1]
        d = os.path.join(c.dir, f"{name}-{cfg}-{k}")
        r = steps.run(exes[cfg], d, s, np=np, layout=lay)
        return steps.steps(s, r)

    recs = [x for l in parallel(one, jobs, 8) for x in l]
    if not recs:
        raise Violation("no step was taken", {"what": what})
    c.sample({"step": recs[0]["what"], "dt": recs[0]["dt"], "rho": recs[0]["rho"][:3], "rho after": recs[0]["after"]["rho"][:3]})
    c.conform("StepTrace", recs, what=what, name="StepTrace-" + name, timeout=3000)
    return recs
