"""P18: invalid energies."""
import os
import random
import re

import builds
import scheme
import steps
from app import parallel
from common import Violation
from hydro import num


def check(c):
    c.model("ReduceModel", constants={"Procs": c.pick({"a", "b"}, {"a", "b", "c"}), "Cells": {1, 2, 3}, "Values": {-1, 0, 4}}, invariants=("WholeKnown", "InvalidSeen"), properties=("AllLearn",))
    c.model("StopModel", constants={"Procs": c.pick({"a", "b", "c"}, {"a", "b", "c", "d"}), "Steps": c.pick(3, 4), "Freqs": {0, 1, 2}}, invariants=("Agree", "EvidenceLeft", "OneMore", "OnlyThen"), properties=("NotPast", "Ends"), timeout=3000)
    cfgs = ["c1", "c2", "c3", "s2"] + c.pick([], ["s1", "s3", "c1r"])
    exes = builds.apps(cfgs)
    jobs = [(cfg, k) for cfg in cfgs for k in range(c.pick(16, 120))]

    def one(j):
        cfg, k = j
        rng = random.Random(f"{c.seed} energy {cfg} {k}")
        nd = int(cfg[1])
        n = [rng.randint(2, {1: 9, 2: 5, 3: 4}[nd]) if d < nd else 1 for d in range(3)]
        s = steps.make(rng, cfg, n=n, kind="smooth", jump=0.1, mach=rng.choice((0.0, 0.3, 2.0)), nfx=rng.choice((0, 1)), gravity=rng.choice((0, 1)) if nd < 3 else 0)
        s.pf = None
        limit = rng.randint(1, 6)
        m = steps.cells(n)
        cell = [rng.choice((0, n[d] - 1, rng.randrange(n[d]))) for d in range(3)]
        q = cell[0] + n[0] * (cell[1] + n[1] * cell[2])
        how = rng.choice(("negative", "negative", "nan", "nan", "tiny", "zero", "minus zero", "small", "none", "ghost", "two"))
        E0 = s.P[q] / (s.gamma - 1)
        value = {"negative": num(-E0 * rng.choice((1, 1e-3, 1e3))), "nan": "nan", "tiny": "-1e-300", "zero": "0", "minus zero": "-0.0", "small": num(E0 * 0.3)}.get(how)
        if how in ("tiny", "zero", "minus zero"):
            # at rest: the energy is the internal energy, to the last digit
            s.u = [[0.0] * m for _ in range(nd)]
            s.rho, s.P, s.g = [s.rho[0]] * m, [s.P[0]] * m, [0.0] * 3
            s.recon = "Constant"
        script = []
        when = rng.choice((0, rng.randint(1, limit)))
        extra = {}
        if how == "none":
            pass
        elif how == "ghost":
            limit = 1
            s.bc = ["UserDefined"] * (2 * nd)
            extra = {"Verif": {"bc_mode": "cold"}}
        elif when == 0 and how not in ("tiny", "zero", "minus zero"):
            s.P[q] = float("nan") if value == "nan" else -s.P[q] if how != "small" else s.P[q] * 0.3
        else:
            when = max(when, 1)
            script.append(f"{when} cell {cell[0]} {cell[1]} {cell[2]} {value}")
            if how == "two":
                script = [f"{when} cell {cell[0]} {cell[1]} {cell[2]} nan", f"{when} cell {n[0] - 1} {n[1] - 1} {n[2] - 1} {num(-E0)}", f"{when} cell 0 0 0 {num(E0 * 1e3)}"]
        np = rng.choice((1, 2, 2, 3, 4))
        lay = scheme.layout(rng, s, np)
        if lay is None:
            np, lay = 1, [1, 1, 1]
        every = rng.choice((0, 2, 3, 100))
        res = []
        for f in (1, every):
            sec = s.sections()
            sec["Output"]["iter_frequency"] = f
            sec["Output"]["max_iter"] = limit
            for a, b in extra.items():
                sec.setdefault(a, {}).update(b)
            r = steps.run(exes[cfg], os.path.join(c.dir, f"energy-{cfg}-{k}-{f}"), s, np=np, layout=lay, sections=sec, script=script)
            if r.rc not in (0, 1):
                raise Violation("the run neither ended nor stopped with an error", {"rc": r.rc, "err": r.err[-600:], "sections": sec, "script": script})
            outs = []
            for o in steps.outputs(r):
                outs.append({"number": int(re.search(r"_(\d+)\.h5$", o["file"]).group(1)), "id": int(o["output_id"][0]), "iter": int(o["iter"][0]), "t": o["current_time"][0], "T": o["T"], **steps.state_of(s, o)})
            took = {sum(e["event"] == "step" for e in l) for l in r.logs}
            if len(took) != 1:
                raise Violation("processes took different numbers of steps", {"steps": sorted(took), "sections": sec, "script": script})
            res.append({"rc": str(r.rc), "err": r.err[-400:], "said": re.findall(r"[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?", "\n".join(l for l in r.err.splitlines() if "nternal energy" in l or "Time" in l)), "steps": took.pop(), "files": outs})
        full, sparse = res
        return {"what": f"{cfg} n={n} processes={lay} {how} in {cell} after step {when} of {limit}", "limit": limit, "every": every, "outs": full.pop("files"), **full, "sparse": sparse}

    recs = parallel(one, jobs, 8)
    c.sample({k: recs[1][k] for k in ("what", "rc", "steps", "said")})
    c.details["runs"] = {"runs": len(recs), "stopped": sum(r["rc"] != "0" for r in recs)}
    c.conform("EnergyTrace", recs, what="runs with scripted energies")
    c.assumptions = ["a state within rounding of zero internal energy may be judged either way"]
