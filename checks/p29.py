"""P29: the shipped problems."""
import math
import os
import random
import struct

import setups
import steps
from app import ini_text, parallel, read_h5, run_app
from common import Raw, Violation, run_exe
from ghosts import factorisations
from hydro import log_uniform, num

KB, MP, GG = 1.380649e-23, 1.672649e-27, 6.6743015e-11


def problem(rng, name, cfg):
    """(settings of [Initialisation], ends, cells, gravity, further sections)"""
    nd = int(cfg[1])
    n = [rng.randint(*{1: (6, 16), 2: (5, 9), 3: (4, 5)}[nd]) if d < nd else 1 for d in range(3)]
    ends = [(0.0, 1.0)] * 3
    if cfg[0] == "s":
        r0 = rng.uniform(0.5, 2)
        ends = [(r0, r0 + rng.uniform(0.1, 0.25) * n[0] * r0), (0.8, 0.8 + rng.uniform(0.6, 1.4)), (0.3, 0.3 + rng.uniform(0.5, 3))]
    g = [0.0, 0.0, 0.0]
    extra = {}
    u = lambda: rng.choice((0.0, rng.uniform(-2, 2)))
    pos = lambda: log_uniform(rng, 1e-3, 1e3)
    p = {}
    if name == "advection_gap":
        p = {"rho0": pos(), "rho1": pos(), "u0": u(), "P0": pos()}
        if rng.random() < 0.3:
            n[0] = rng.choice((5, 10, 15))  # centres at the edges of the gap, or near them
        elif rng.random() < 0.5:
            a = rng.uniform(-0.5, 0.25)
            ends[0:1] = [(a, a + rng.uniform(0.5, 2))]
    elif name == "advection_sinus":
        p = {"u0": u(), "P0": pos()}
        a = rng.uniform(-1, 1)
        ends[0:1] = [rng.choice(((0.0, 1.0), (a, a + rng.uniform(0.5, 2))))]
    elif name == "shock_wall":
        p = {"rho0": pos(), "u0": u(), "P0": pos()}
    elif name == "shock_tube":
        p = {"rho0": pos(), "rho1": pos(), "u0": u(), "u1": u(), "P0": pos(), "P1": pos()}
        a, b = ends[0]
        p["inter"] = rng.choice((a + (b - a) * rng.uniform(-0.1, 1.1), a + (b - a) * (rng.randint(0, n[0] - 1) + 0.5) / n[0], a + (b - a) * rng.randint(1, n[0] - 1) / n[0]))
    elif name == "implosion_test":
        p = {"rho0": pos(), "rho1": pos(), "u0": u(), "P0": pos(), "P1": pos()}
        ends = [(0.0, rng.choice((0.3, rng.uniform(0.1, 0.5)))), (rng.uniform(-0.05, 0.05), 0.3), (0.0, 1.0)]
    elif name == "heat_nickel":
        p = {"rho0": pos(), "u0": u(), "T0": log_uniform(rng, 1, 1e8), "fx0": rng.uniform(0, 1)}
        extra["Passive Scalar"] = {"nfx": 1}
    elif name == "kelvin_helmholtz":
        p = {"P0": rng.uniform(1, 100)}
        ends = [(0.0, rng.choice((1.0, rng.uniform(0.5, 2)))), (rng.choice((0.0, rng.uniform(-0.5, 0.5))), 2.0), (0.0, 1.0)]
        n[1] = rng.randint(8, 20)
    elif name == "rayleigh_taylor":
        p = {"rho0": rng.uniform(1, 3), "rho1": rng.uniform(0.1, 2), "u": u(), "A": 0.01, "fx0": rng.choice((1.0, rng.random())), "fx1": rng.choice((0.0, rng.random()))}
        g[1] = rng.uniform(-0.5, -0.05)
        a = rng.choice((0.02, 0.2, 1.0))
        ends = [(-0.5, 0.5), (-a * rng.uniform(0.8, 1), a), (0.0, 1.0)]
        extra["Passive Scalar"] = {"nfx": 1}
    elif name == "rayleigh_taylor3d":
        p = {"rho0": rng.uniform(2, 5), "rho1": rng.uniform(0.3, 2), "u0": u()}
        g[2] = rng.uniform(-3, -0.5)
        b = rng.uniform(2, 10)
        ends = [(-5.0, 5.0), (-5.0, 5.0), (-b, b)]
        n[2] = rng.randint(5, 9)
        extra["Passive Scalar"] = {"nfx": 1}
    elif name == "gresho_vortex":
        p = {"rho0": pos(), "u0": u(), "Ma": 10 ** rng.uniform(-5, 0)}
        a = rng.choice((0.5, 1.0))
        ends = [(-a, a * rng.uniform(0.6, 1)), (-a, a), (0.0, 1.0)]
        n = [rng.randint(6, 14), rng.randint(6, 14), 1]
        extra["Perfect Gas"] = {"gamma": rng.uniform(1.2, 1.9)}
    elif name == "stratified_atm":
        t0 = rng.uniform(50, 1e4)
        g[0] = -rng.uniform(1, 30)
        h = KB * t0 / (MP * -g[0])
        p = {"rho0": pos(), "u0": 0.0 if rng.random() < 0.7 else u(), "T0": t0}
        a = rng.choice((0.0, rng.uniform(-1, 1) * h))
        ends[0:1] = [(a, a + h * rng.uniform(0.5, 6))]
    elif name == "eq_hydro_sphe":
        t0 = rng.uniform(50, 1e4)
        r0 = log_uniform(rng, 1e3, 1e8)
        ends[0:1] = [(r0, r0 * rng.uniform(1.2, 2.5))]
        # the star's gravity over a few scale heights
        m = rng.uniform(0.3, 5) * KB * t0 * r0 / (MP * GG)
        p = {"rho0": pos(), "u0": 0.0 if rng.random() < 0.7 else u(), "T0": t0}
        extra["Gravity"] = {"M": num(m).strip('"')}
    elif name == "sedov1d":
        p = {"rho0": pos(), "u0": u(), "E0": log_uniform(rng, 1e-12, 1e-2), "E1": log_uniform(rng, 0.1, 10)}
    elif name == "sedov2d":
        p = {"rho0": pos(), "u0": u(), "E0": log_uniform(rng, 1e-12, 1e-2), "E1": log_uniform(rng, 0.1, 1e5)}
        b = rng.choice((1.0, 0.1, 0.05))
        n = [2 * rng.randint(2, 5), 2 * rng.randint(2, 5), 1]
        ends = [(-b, b), (-b, b), (0.0, 1.0)] if rng.random() < 0.7 else [(-b, b * rng.uniform(0.5, 1)), (-b * rng.uniform(0.5, 1), b), (0.0, 1.0)]
    elif name == "sedov3d":
        p = {"rho0": pos(), "P0": log_uniform(rng, 1e-3, 1), "E1": log_uniform(rng, 0.1, 10)}
        n = [rng.choice((4, 8)), rng.randint(3, 6), rng.randint(3, 7)]
        ends[0] = rng.choice(((0.5, 1.5), (0.75, 1.25), (1.0, 2.0), (1.0, 1.5)))
    if name != "gresho_vortex":
        extra.setdefault("Perfect Gas", {})["gamma"] = num(rng.choice((1.4, 5 / 3, rng.uniform(1.1, 2.0)))).strip('"')
        extra["Perfect Gas"]["mu"] = num(rng.choice((1.0, rng.uniform(0.5, 2)))).strip('"')
    return p, ends, n, g, extra


def text(v):
    return num(v).strip('"') if isinstance(v, float) else str(v)


def sections(p, ends, n, g, extra, ng, lay, d):
    grid = {"Nghost": ng}
    for i in range(3):
        grid[f"Nx{i}_glob"] = n[i]
        grid[f"x{i}min"], grid[f"x{i}max"] = text(ends[i][0]), text(ends[i][1])
    sec = {"Grid": grid, "Parallelization": {f"mpi_dims_cart_x{i}": lay[i] for i in range(3)}, "Run": {"t_end": "1e-40", "cfl": "0.1"}, "Output": {"iter_frequency": 1, "max_iter": 1}, "Boundary Condition": {"BC": "NullGradient"},
           "Gravity": {f"gx{i}": text(g[i]) for i in range(3)}, "Initialisation": {k: text(v) for k, v in p.items()}}
    for k, v in extra.items():
        sec.setdefault(k, {}).update({a: text(b) for a, b in v.items()})
    return sec


def profile(rng, n, ng, nfx):
    """a one-dimensional state and the radii it belongs to, ghosts included"""
    r0 = log_uniform(rng, 1, 1e9)
    x = [r0]
    w = r0 * rng.uniform(0.05, 0.12)
    for _ in range(n + 2 * ng):
        x.append(x[-1] + w * rng.uniform(0.5, 1.5))
    return {"x0": x, "rho": [log_uniform(rng, 1e-3, 10) for _ in range(n)], "u": [rng.uniform(-1, 1) * 1e3 for _ in range(n)], "P": [log_uniform(rng, 1e6, 1e12) for _ in range(n)], "fx": [[rng.random() for _ in range(n)] for _ in range(nfx)]}


def write_profile(tool, path, f):
    n = len(f["rho"])
    lines = []
    for name, v in (("x0", f["x0"]), ("rho_1d", f["rho"]), ("u_1d", f["u"]), ("P_1d", f["P"])):
        lines.append(" ".join([name, "1", str(len(v))] + [repr(x) for x in v]))
    lines.append(" ".join(["fx_1d", "2", str(len(f["fx"])), str(n)] + [repr(x) for l in f["fx"] for x in l]))
    rc, out, err = run_exe([tool, path], stdin="\n".join(lines) + "\n")
    if rc != 0:
        raise RuntimeError("h5write failed: " + err)


def starts(c, apps, tool):
    jobs = [(name, cfg, k) for name, cfg in setups.PAIRS for k in range(c.pick(5, 60))]

    def one(j):
        name, cfg, k = j
        rng = random.Random(f"{c.seed} setup {name} {cfg} {k}")
        nd = int(cfg[1])
        p, ends, n, g, extra = problem(rng, name, cfg)
        ng = rng.choice((2, 2, 3))
        np = rng.choice((1, 2, 3, 4))
        while True:
            lays = [l for l in factorisations(np, nd) if all(n[d] // l[d] >= ng for d in range(nd))]
            if lays:
                break
            np -= 1
            if np == 0:
                np, ng = 1, 2
        lay = rng.choice(lays)
        d = os.path.join(c.dir, f"start-{name}-{cfg}-{k}")
        os.makedirs(d, exist_ok=True)
        f = {"x0": [], "rho": [], "u": [], "P": [], "fx": []}
        nfx = 1 if "Passive Scalar" in extra else 0
        if name == "v1d":
            nfx = rng.choice((0, 1, 2, 3))
            f = profile(rng, n[0], ng, nfx)
            path = os.path.join(d, "profile.dat")
            write_profile(tool, path, f)
            extra.update({"Problem": {"init_file": path, "vmax_shift": 1, "cell_shift": 1}, "Passive Scalar": {"nfx": nfx}, "Gravity": {"M": "1e20"}})
        sec = sections(p, ends, n, g, extra, ng, lay, d)
        if name == "v1d":
            sec["Grid"]["type"] = "UserDefined"
        r = run_app(apps[name, cfg], d, sec, np=np, keep_dir=True)
        job = f"{name} {cfg} n={n} ghosts={ng} processes={lay}"
        first = [x for x in r.files if x.endswith("_00000000.h5")]
        if not first or (r.rc != 0 and "invalid volumic internal energy" not in r.err):
            raise Violation("a shipped problem does not start", {"job": job, "rc": r.rc, "stderr": r.err[-800:], "sections": sec})
        h = read_h5([os.path.join(r.outdir, first[0])])[0]
        data = {a: b["data"] for a, b in h["datasets"].items()}
        eos = sec["Perfect Gas"] if "Perfect Gas" in sec else {}
        return {"kind": "start", "job": job, "name": name, "geom": "Spherical" if cfg[0] == "s" else "Cartesian", "ndim": nd, "n": n, "ng": ng, "nfx": nfx,
                "e": {"kind": "RadGas" if "r" in cfg[2:] else "PerfectGas", "gamma": eos.get("gamma", "1.6666666666666667"), "mu": eos.get("mu", "1")},
                "par": {**sec["Initialisation"], "M": sec["Gravity"].get("M", "0")}, "g": [text(v) for v in g], "ends": [[text(v) for v in e] for e in ends], "x": [data[f"x{i}"] for i in range(3)],
                "file": {a: ([[num(v).strip('"') for v in l] for l in b] if a == "fx" else [num(v).strip('"') for v in b]) for a, b in f.items()},
                "out": {"rho": data["rho"], "u": [data[f"ux{i}"] for i in range(nd)], "P": data["P"], "fx": [data[f"fx{i}"] for i in range(nfx)]}}

    recs = parallel(one, jobs, 8)
    c.sample({"start": recs[0]["job"], "rho": recs[0]["out"]["rho"][:4]})
    c.conform("SetupsTrace", recs, what="what the shipped problems start from", name="SetupsTrace-start", timeout=3000)
    c.details["cells"] = sum(len(r["out"]["rho"]) for r in recs)


def driver_run(c, exe, d, sec, np, args):
    os.makedirs(d, exist_ok=True)
    ini = os.path.join(d, "in.ini")
    with open(ini, "w") as f:
        f.write(ini_text(sec))
    cmd = [exe, ini, os.path.join(d, "out")] + args
    if np > 1:
        cmd = ["mpirun", "--allow-run-as-root", "--oversubscribe", "-np", str(np)] + cmd
    rc, out, err = run_exe(cmd, timeout=60, cwd=d)
    import json
    per = []
    for r in range(np):
        p = os.path.join(d, f"out.{r}")
        t = open(p).read() if os.path.exists(p) else ""
        if rc != 0 or not t.endswith("\n"):
            raise Violation("a shipped problem's part fails", {"sections": sec, "args": args, "rc": rc, "stderr": err[-800:]})
        per.append(json.loads(t))
    return per


def borders(c, drivers):
    jobs = [(name, cfg, k) for name, cfg in setups.DRIVEN if name != "v1d" for k in range(c.pick(6, 60))]

    def one(j):
        name, cfg, k = j
        rng = random.Random(f"{c.seed} setup border {name} {cfg} {k}")
        nd = int(cfg[1])
        p, ends, n, g, extra = problem(rng, name, cfg)
        p["u0"] = 0.0
        ng = rng.choice((2, 2, 3))
        lay = [rng.choice([q for q in (1, 2) if n[0] // q >= ng]), 1, 1]
        dim, face = rng.randrange(nd), rng.randrange(2)
        sec = sections(p, ends, n, g, extra, ng, lay, "")
        blocks = driver_run(c, drivers[name, cfg], os.path.join(c.dir, f"border-{name}-{cfg}-{k}"), sec, lay[0], ["border", str(dim), str(face)])
        for b in blocks:
            if "error" in b:
                raise Violation("a shipped problem's border fails", {"sections": sec, "error": b["error"]})
        return {"kind": "border", "job": f"{name} {cfg} n={n} ghosts={ng} processes={lay} border {dim} {face}", "name": name, "geom": "Spherical" if cfg[0] == "s" else "Cartesian", "ndim": nd, "ng": ng, "dim": dim + 1, "face": face,
                "e": {"kind": "PerfectGas", "gamma": sec["Perfect Gas"]["gamma"], "mu": sec["Perfect Gas"]["mu"]}, "par": {**sec["Initialisation"], "M": sec["Gravity"].get("M", "0")}, "g": [text(v) for v in g], "blocks": blocks}

    c.conform("SetupsTrace", parallel(one, jobs, 8), what="borders of the shipped atmospheres", name="SetupsTrace-border")


def shifts(c, drivers):
    jobs = [(cfg, k) for name, cfg in setups.DRIVEN if name == "v1d" for k in range(c.pick(24, 200))]

    def one(j):
        cfg, k = j
        rng = random.Random(f"{c.seed} setup shift {cfg} {k}")
        nd = int(cfg[1])
        ng = rng.choice((2, 2, 3))
        n = [rng.randint(6, 20), rng.randint(1, 4) if nd == 3 else 1, rng.randint(1, 4) if nd == 3 else 1]
        if nd == 3:
            n[1], n[2] = max(n[1], ng), max(n[2], ng)
        lay = [rng.choice([q for q in (1, 2, 3) if n[0] // q >= ng]), 1, 1]
        if nd == 3 and rng.random() < 0.4:
            lay[1 + rng.randrange(2)] = 2
            n = [max(n[0], lay[0] * ng)] + [max(n[d], lay[d] * ng) for d in (1, 2)]
        np = lay[0] * lay[1] * lay[2]
        small = n[0] // lay[0]
        cells = rng.choice((1, 2, rng.randint(1, small), small, small + 1, rng.randint(1, n[0] + 2)))
        vmax = rng.randint(100, 1000)
        w = [n[d] + (2 * ng if d < nd else 0) for d in range(3)]
        # calm everywhere but in the ghost cells, which do not count
        v = [[[rng.randint(-2 * vmax, vmax - 2) for _ in range(w[0])] for _ in range(w[1])] for _ in range(w[2])]
        lo = [ng if d < nd else 0 for d in range(3)]
        inner = lambda i, d: lo[d] <= i < lo[d] + n[d]
        for kk in range(w[2]):
            for jj in range(w[1]):
                for i in range(w[0]):
                    if not inner(jj, 1) or not inner(kk, 2) or i >= lo[0] + n[0]:
                        v[kk][jj][i] = 10 * vmax
        # the fastest cell: inside the window, at its edge or beyond
        where = rng.choice((0, 0, cells - 1, cells + ng, cells + ng, rng.randint(0, n[0] - 1)))
        if rng.random() < 0.85 and 0 <= where < n[0]:
            v[lo[2] + rng.randrange(n[2])][lo[1] + rng.randrange(n[1])][lo[0] + n[0] - 1 - where] = rng.choice((vmax, vmax - 1, vmax + 1, 5 * vmax))
        d = os.path.join(c.dir, f"vshift-{cfg}-{k}")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "v")
        with open(path, "wb") as f:
            flat = [float(x) for a in v for b in a for x in b]
            f.write(struct.pack("<%dd" % len(flat), *flat))
        sec = sections({}, [(1.0, 2.0), (0.8, 1.6), (0.3, 1.0)], n, [0.0] * 3, {"Problem": {"vmax_shift": vmax, "cell_shift": cells}, "Gravity": {"M": "1e20"}}, ng, lay, "")
        per = driver_run(c, drivers["v1d", cfg], d, sec, np, ["shift", path])
        sizes = []
        for q in range(lay[0]):
            a = n[0] // lay[0] + (1 if q < n[0] % lay[0] else 0)
            sizes.append({"n": a, "max": (sizes[-1]["max"] if sizes else 0) + a})
        return {"kind": "shift", "job": f"{cfg} n={n} ghosts={ng} processes={lay} cells={cells} vmax={vmax} fastest {where} from the end", "n": n, "ng": ng, "cells": cells, "vmax": vmax, "sizes": sizes,
                "v": [v[kk][jj] for kk in range(w[2]) if inner(kk, 2) for jj in range(w[1]) if inner(jj, 1)], "blocks": [{"refused": "error" in b, "yes": b.get("yes", False), "error": b.get("error", "")} for b in per]}

    recs = parallel(one, jobs, 8)
    c.details["shifts"] = {"asked": sum(r["blocks"][0]["yes"] for r in recs), "refused": sum(r["blocks"][0]["refused"] for r in recs), "all": len(recs)}
    c.conform("SetupsTrace", recs, what="v1d's shift criterion", name="SetupsTrace-shift")


def check(c):
    c.model("SetupsModel", constants={"Depth": c.pick(1, 3)}, invariants=("Fit",))
    apps, drivers, tool = setups.programs()
    starts(c, apps, tool)
    borders(c, drivers)
    shifts(c, drivers)
    c.assumptions = ["the wave of the three-dimensional Rayleigh-Taylor problem is drawn at random: only its layers are checked", "v1d's window may include as many more cells as there are ghost layers"]
