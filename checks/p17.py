"""P17: mirrored arrays and memory spaces."""
import json
import os
import random

import builds
from app import parallel, run_app
from common import ModelError, Violation, run_exe


def line_of(rng, hist, space):
    """a behaviour of the model as operations through any of the handles"""
    ops = ["N 0 %d" % rng.choice((1, 2, 2, 3))]
    mut, con = [0], []
    if rng.random() < 0.7:
        ops.append("C 1 0 %d" % rng.randint(0, 1))
        mut.append(1)
    if rng.random() < 0.7:
        ops.append("C 4 0 %d" % rng.randint(0, 2))
        con.append(4)
    if con and rng.random() < 0.5:
        ops.append("C 5 4 %d" % rng.randint(0, 1))
        con.append(5)
    for o in hist:
        side = o["side"][0]
        if o["mode"] == "s":
            ops.append("S %d %s" % (rng.choice(mut + con), side))
        elif o["mode"] == "r":
            ops.append("A %d %s r %d" % (rng.choice(mut + con), side, rng.randint(0, 1)))
        else:
            ops.append("A %d %s %s %d" % (rng.choice(mut), side, o["mode"], rng.randint(0, 2 if o["mode"] == "x" else 1)))
        if space == "dev" and rng.random() < 0.3:
            ops.append("Q %d" % rng.choice(mut + con))
    return space + " " + " ".join(ops)


def long_line(rng, space, n):
    """several arrays, handles copied, moved and reassigned"""
    owner = {0: 0}
    ops = ["N 0 %d" % rng.randint(1, 4)]
    for _ in range(n):
        mut = [h for h in owner if h < 4]
        r = rng.random()
        if r < 0.06 or not mut:
            h = rng.randrange(4)
            owner[h] = 1
            ops.append("N %d %d" % (h, rng.randint(1, 4)))
        elif r < 0.22:
            src = rng.choice(list(owner))
            dst = rng.choice([h for h in range(8) if h != src and (src < 4 or h >= 4)])
            how = rng.randint(0, 2)
            move = rng.random() < 0.35
            ops.append("%s %d %d %d" % ("M" if move else "C", dst, src, how))
            owner[dst] = 1
            if move:
                del owner[src]
        elif r < 0.28:
            ops.append("S %d %s" % (rng.choice(list(owner)), rng.choice("hd")))
        elif r < 0.36 and space == "dev":
            ops.append("Q %d" % rng.choice(list(owner)))
        elif r < 0.39:
            ops.append("I %d" % rng.choice(list(owner)))
        elif r < 0.41 and space == "dev":
            ops.append("K %d" % rng.choice(list(owner)))
        elif r < 0.68:
            ops.append("A %d %s r %d" % (rng.choice(list(owner)), rng.choice("hd"), rng.randint(0, 1)))
        else:
            m = rng.choice("xxw")
            ops.append("A %d %s %s %d" % (rng.choice(mut), rng.choice("hd"), m, rng.randint(0, 2 if m == "x" else 1)))
    return space + " " + " ".join(ops)


def accesses(c):
    res = c.model("DualModel", constants={"Depth": c.pick(4, 5), "Emitting": True}, invariants=("CountersRefine", "ReadsLast", "FreshIsLast", "BothAgree", "Emit"), workers=4)
    hists = res.printed("CASE")
    if len(hists) < 4000:
        raise ModelError("behaviours of DualModel not found")
    rng = random.Random(c.seed)
    lines = [line_of(rng, h, "dev") for h in hists]
    lines += [line_of(rng, h, "pin") for h in rng.sample(hists, c.pick(600, 4096))]
    lines += [long_line(rng, rng.choice(("dev", "dev", "pin")), rng.randint(10, 60)) for _ in range(c.pick(600, 5000))]
    exe = builds.dual_exe()
    parts = [lines[i::8] for i in range(8)]
    modes = ["0", "0", "0", "1", "1", "2", "2", "2"]

    def one(a):
        k, ls = a
        # kernels are recorded as if the device were far away: touching it from outside ends the program
        rc, out, err = run_exe([exe], stdin="\n".join(ls) + "\n", timeout=200, env={"SHIM_SPACE": "strict", "SHIM_ORDER": modes[k]})
        L = out.splitlines()
        if rc != 0 or len(L) != len(ls):
            raise Violation(f"mirrored arrays: the program did not survive (exit {rc})", {"operations": ls[min(len(L), len(ls) - 1)], "stderr": err[-600:]})
        return [dict(json.loads(x), line=l) for x, l in zip(L, ls)]

    recs = [r for p in parallel(one, list(enumerate(parts)), 8) for r in p]
    c.sample({"operations": lines[5], "saw": [o.get("seen") for o in recs[5]["ops"]]})
    c.conform("DualTrace", recs, what="accesses to mirrored arrays")


RUNS = [
    ("c1", 1, {}), ("c2", 1, {}), ("c3", 1, {}), ("c2", 2, {}), ("c3", 2, {"aware": 1}), ("c1", 2, {"aware": 1}),
    ("s1", 1, {}), ("s1m", 1, {"shift": 1}), ("s2m", 1, {}), ("s3m", 2, {}), ("s1p", 1, {"shift": 1}), ("s2p", 2, {}), ("s3p", 1, {}), ("c1r", 1, {}),
    ("c1", 1, {"shift": 1}), ("c2", 2, {"shift": 1}), ("c2", 1, {"grid": 1}), ("c1", 1, {"step": "Heat_nickel"}), ("c2", 1, {"step": "UserDefined"}),
    ("c2", 1, {"fix": 1}), ("c1", 1, {"bc": "UserDefined"}), ("c2", 1, {"bc": "Reflexive"}), ("c3", 1, {"bc": "NullGradient", "prio": 1}),
    ("c2", 1, {"bad": 1}), ("c1", 1, {"restart": 1}), ("c2", 2, {"restart": 1}), ("s1m", 1, {"restart": 1}), ("c1", 1, {"nfx": 0}),
]


def life(c, exes, k, name, np, opt):
    nd = int(name[1])
    n = [{1: 8, 2: 5, 3: 4}[nd] if d < nd else 1 for d in range(3)]
    sph = name[0] == "s"
    nfx = opt.get("nfx", 2)
    sec = {"Grid": {**{f"Nx{d}_glob": n[d] for d in range(3)}, "x0min": "1" if sph else "0", "x0max": "2", "x1min": "1", "x1max": "2", "x2min": "0.5", "x2max": "1"},
           "Run": {"t_end": "1"}, "Output": {"iter_frequency": 2, "max_iter": 4}, "Boundary Condition": {"BC": opt.get("bc", "NullGradient" if sph else "Periodic")},
           "Passive Scalar": {"nfx": nfx}, "Gravity": {"M": "1e9", "gx0": "0.1", "gx1": "0.2", "gx2": "0.3"}}
    if opt.get("aware"):
        sec["Parallelization"] = {"mpi_device_aware": "true"}
    if name.endswith("m") and np > 1:
        sec["Parallelization"] = {"mpi_dims_cart_x0": 1}
    if opt.get("shift"):
        sec["Grid"]["shift_grid"] = "UserDefined"
        sec["Problem"] = {"rmax_shift": "2.5"}
        sec["Verif"] = {"shift_every": 1}
    if opt.get("step"):
        sec["User step"] = {"user_step": opt["step"]}
    if opt.get("fix"):
        sec["Pressure fix"] = {"pressure_fix": "On", "eps_pf": "1e3"}
    if opt.get("prio"):
        sec["Boundary Condition"]["priority"] = "Z_left X_right Y_left X_left Y_right Z_right"
    m = n[0] * n[1] * n[2]
    P = 1e13 if name.endswith("r") else 1.0
    init = [1.0 + 0.1 * ((i * 7) % 5) for i in range(m)] + [0.1 * ((i * 3) % 4) for i in range(m * nd)] + [P * (1 + 0.1 * (i % 3)) for i in range(m)] + [0.25 * (i % 4) for i in range(nfx * m)]
    script = None
    if opt.get("bad"):
        sec["User step"] = {"user_step": "UserDefined"}
        script = ["2 cell 1 1 0 -5"]
    grid = None
    if opt.get("grid"):
        sec["Grid"]["type"] = "UserDefined"
        grid = []
        for d in range(3):
            g = 2 if d < nd else 0
            x = -1.0
            for i in range(n[d] + 2 * g + 1):
                grid.append(x)
                x += 0.2 + 0.05 * (i % 3)
    env = {"SHIM_SPACE": "strict"}
    if opt.get("aware"):
        env["SHIM_AWARE"] = "1"
    d = os.path.join(c.dir, f"life{k}")
    r = run_app(exes[name], d, sec, np=np, init=init, grid=grid, script=script, env=env)
    if opt.get("restart"):
        sec["Problem"] = {"restart": "true", "restart_file": os.path.join(d, "result_00000001.h5")}
        sec["Output"] = {"iter_frequency": 2, "max_iter": 7, "prefix": "again"}
        r = run_app(exes[name], d, sec, np=np, env=env, keep_dir=True)
    return {"what": f"{name} on {np}: {opt}", "rc": str(r.rc), "violation": "SHIM-SPACE" in r.err or "SHIM-OOB" in r.err, "expect": "1" if opt.get("bad") else "0", "files": len(r.files), "err": r.err[-500:]}


def check(c):
    accesses(c)
    exes = builds.apps([r[0] for r in RUNS])
    recs = parallel(lambda a: life(c, exes, a[0], *a[1]), list(enumerate(RUNS)), 6)
    c.conform("SpaceTrace", recs, what="whole runs with the device's memory out of reach of the host")
    c.assumptions = ["host and device are two memories of the stand-in for Kokkos; the real backends' own memory model is not looked at"]
