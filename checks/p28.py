"""P28: files, process environment, sizes."""
import itertools
import json
import os
import random
import shutil

import build
from app import app_exe, parallel, run_app
from common import ModelError, Raw, Violation, run_exe

REPO = build.REPO


def driver():
    mc, ml = build.mpi_flags()
    return build.build_plain("guard_driver", [os.path.join(REPO, "src/mpi_scope_guard.cpp"), os.path.join(build.VERIF, "harness/guard_driver.cpp"), os.path.join(build.VERIF, "harness/h5watch.cpp")],
                             extra_flags=mc + build.HDF5_INC, links=ml + build.HDF5_LINK + ["-ldl"], includes=[os.path.join(REPO, "src"), os.path.join(REPO, "src/io"), os.path.join(REPO, "src/utils")])


def lines_of(c, exe, args, inp, what, n=None):
    rc, out, err = run_exe([exe] + args, stdin=inp, timeout=200)
    L = out.splitlines()
    if rc != 0 or (n is not None and len(L) != n):
        raise Violation(f"{what}: the program did not survive (exit {rc}, {len(L)} answers)", {"stderr": err[-500:], "input": inp.splitlines()[min(len(L), inp.count(chr(10)) - 1)] if inp else ""})
    return [json.loads(x) for x in L]


def handles(c, exe):
    res = c.model("GuardsModel", constants={"MaxLen": c.pick(5, 6)}, invariants=("EachOnce", "Reverse", "NothingBeforeItExists", "Emit"), workers=4)
    scripts = ["".join(s) for s in res.printed("CASE")]
    if len(scripts) < 900:
        raise ModelError("scripts of GuardsModel not found")
    rng = random.Random(c.seed)
    scripts += ["".join(rng.choice("obczobcze" + "nmft" * (rng.random() < 0.1)) for _ in range(rng.randint(6, 25))) for _ in range(500)]
    recs = lines_of(c, exe, ["handles"], "\n".join(scripts) + "\n", "owners of handles", len(scripts))
    c.conform("GuardsTrace", recs, what="owners of handles")
    c.sample({"script": "".join(recs[700]["script"]), "events": recs[700]["events"]})


def facts(c, exe):
    rng = random.Random(c.seed + 1)
    # extents
    sets = {}
    ext = (0, 1, 2, 3)
    cmds = []
    for r in range(0, 4):
        for e in itertools.product(ext, repeat=r):
            if r == 3 and rng.random() < c.pick(0.6, 0):
                continue
            n = "d" + "_".join(map(str, e))
            sets[n] = e
            cmds.append("D %s %s" % (n, " ".join(map(str, e))))
    for e in [(4, 4, 4, 4), (2, 1, 1, 1), (70000,), (1, 70000), (5, 6, 7)]:
        n = "e" + "_".join(map(str, e))
        sets[n] = e
        cmds.append("D %s %s" % (n, " ".join(map(str, e))))
    for e in [(4,), (2, 2), (3, 2, 1)]:
        n = "m" + "_".join(map(str, e))
        sets[n] = e
        cmds.append("M %s %s" % (n, " ".join(map(str, e))))
    cmds += ["0 nul", "G grp"]
    special = ["nul", "grp", "missing"]
    q = []
    names = list(sets)
    for n in names:
        for N in (1, 2, 3, 4):
            xs = {tuple(sets[n][:N]) + (1,) * (N - len(sets[n])), tuple(sets[n][-N:] if len(sets[n]) >= N else (1,) * (N - len(sets[n])) + sets[n]), tuple(rng.choice(ext) for _ in range(N))}
            if len(sets[n]) == N:
                xs |= {sets[n][::-1]} | {tuple(v + d * (i == k) for i, v in enumerate(sets[n])) for k in range(N) for d in (1, 4294967296)}
            q += [(n, x) for x in sorted(xs)]
    for n in special:
        q += [(n, x) for x in [(0,), (1,), (2,), (0, 0), (1, 1), (0, 0, 0)]]
    inp = "\n".join(cmds + ["C %s %d %s" % (n, len(x), " ".join(map(str, x))) for n, x in q]) + "\n"
    recs = lines_of(c, exe, ["extents", os.path.join(c.dir, "x.h5")], inp, "extents of datasets", len(q))
    for r in recs:
        r["kind"] = "extent"
        r["dataset"] = r["name"] in sets
        r["actual"] = list(sets.get(r["name"], ()))
        # extents beyond the integers of TLC travel as text
        r["expected"] = [str(v) for v in r["expected"]]
        r["actual"] = [str(v) for v in r["actual"]]
    ints = lines_of(c, exe, ["ints"], "", "conversions")
    for r in ints:
        r["kind"] = "int"
    rows = []
    for _ in range(c.pick(300, 2000)):
        row = []
        for _ in range(rng.randint(1, 6)):
            name = "".join(rng.choice("abcXYZ_[0] ") for _ in range(rng.choice([0, 1, 5, 20, 39, 40, 41, 60])))
            t = rng.choice(["int", "long", "ulong", "string", "view", "bool"])
            v = {"int": lambda: str(rng.choice([0, -1, 2**31 - 1, -2**31, rng.randint(-10**6, 10**6)])), "long": lambda: str(rng.choice([2**63 - 1, -2**63, rng.getrandbits(40)])), "ulong": lambda: str(rng.choice([2**64 - 1, 0, rng.getrandbits(64)])), "bool": lambda: rng.choice("01")}.get(t, lambda: "".join(rng.choice("abc. -") for _ in range(rng.choice([0, 1, 10, 39, 40, 41, 55]))))()
            row.append((name, t, v))
        rows.append(row)
    outs = lines_of(c, exe, ["print"], "\n".join("\x1f".join(x for it in row for x in it) for row in rows) + "\n", "summary lines", len(rows))
    for r, row in zip(outs, rows):
        r["kind"] = "print"
        r["items"] = [{"name": list(n.encode()), "value": list(v.encode())} for n, t, v in row]
    c.sample({"extent": recs[3]})
    c.sample({"conversion": ints[777]})
    c.conform("FactsTrace", recs + ints + outs, what="extents, conversions and summary lines")


def base(nd):
    sec = {"Grid": {f"Nx{i}_glob": (3 if i < nd else 1) for i in range(3)}, "Run": {"t_end": "1"}, "Output": {"iter_frequency": 1, "max_iter": 2}, "Boundary Condition": {"BC": "Periodic"}, "Passive Scalar": {"nfx": 2}}
    m = 3 ** nd
    return sec, [1.0] * m + [0.1] * (m * nd) + [1.0] * m + [0.5] * (2 * m)


def run_watched(c, exe, name, sec, init, fail=0, raw=None, args=(), keep=None, cmd=None):
    d = keep or os.path.join(c.dir, name)
    os.makedirs(d, exist_ok=True)
    w = os.path.join(d, "watch-" + name)
    env = {"VERIF_WATCH": w}
    if fail:
        env["VERIF_H5FAIL"] = str(fail)
    r = run_app(exe, d, sec, init=init, env=env, raw_ini=raw, args=args, keep_dir=keep is not None)
    ev = [json.loads(l) for l in open(w)] if os.path.exists(w) else []
    return r, ev


def lives(c):
    exe = app_exe(build.Config(2))
    sec, init = base(2)
    recs = []
    d0 = os.path.join(c.dir, "first")
    r, ev = run_watched(c, exe, "first", sec, init, keep=d0)

    def rec(what, r, ev, expect, usesmpi=True):
        return {"what": what, "events": ev, "rc": str(r.rc), "expect": expect, "usesmpi": usesmpi, "message": r.err.strip() != "", "err": r.err[-200:]}
    recs.append(rec("plain run", r, ev, "ok"))
    calls = max([e["n"] for e in ev] or [0])
    jobs = [("fail%d" % k, sec, init, k, "error" if k <= calls else "ok", None) for k in range(1, calls + 2)]
    rs = dict(sec)
    rs["Problem"] = {"restart": "true", "restart_file": os.path.join(d0, "result_00000001.h5")}
    rs["Output"] = {"iter_frequency": 1, "max_iter": 3}
    r, ev = run_watched(c, exe, "again", rs, init)
    recs.append(rec("restarted run", r, ev, "ok"))
    n2 = max([e["n"] for e in ev] or [0])
    jobs += [("refail%d" % k, rs, init, k, "error", None) for k in range(1, n2 + 1)]
    # starts that fail
    bad = {}
    for s, k, v in [("Grid", "Nx0_glob", "0"), ("Grid", "Nghost", "1"), ("Run", "cfl", "-1"), ("Run", "t_end", "-1"), ("Boundary Condition", "BC", "Nothing"), ("Boundary Condition", "BC", ""), ("Hydro", "riemann_solver", "x"), ("Hydro", "reconstruction", "x"), ("User step", "user_step", "x"), ("Perfect Gas", "gamma", "0"), ("Grid", "type", "x"), ("Boundary Condition", "Priority", "X_left"), ("Parallelization", "mpi_dims_cart_x0", "7"), ("Output", "max_iter", "x")]:
        b = {q: dict(z) for q, z in sec.items()}
        b.setdefault(s, {})[k] = v
        jobs.append((f"bad-{s}-{k}-{v}".replace(" ", ""), b, init, 0, "error" if k != "mpi_dims_cart_x0" else "any", None))
    # restart files that cannot be used
    for nm in ("missing", "garbage", "othergrid", "empty"):
        b = {q: dict(z) for q, z in rs.items()}
        p = os.path.join(c.dir, nm + ".h5")
        if nm == "garbage":
            open(p, "wb").write(b"not a file of that kind" * 100)
        if nm == "empty":
            open(p, "wb").close()
        if nm == "othergrid":
            p = os.path.join(d0, "result_00000001.h5")
            b["Grid"] = dict(b["Grid"], Nx1_glob=4)
        b["Problem"] = dict(b["Problem"], restart_file=p)
        jobs.append(("restart-" + nm, b, init + init, 0, "error", None))
    jobs.append(("no-ini", sec, init, 0, "error", "[Grid\nNx0_glob = 1\n"))

    def one(j):
        n, s, i, k, expect, raw = j
        r, ev = run_watched(c, exe, n, s, i, k, raw)
        if str(r.rc) not in ("0", "1") and not (expect == "any"):
            raise Violation(f"run '{n}' ended with {r.rc}", {"err": r.err[-800:], "events": ev[-5:]})
        shutil.rmtree(os.path.join(c.dir, n), ignore_errors=True)
        return None if expect == "any" else rec(n, r, ev, expect)
    recs += [x for x in parallel(one, jobs, 8) if x]
    # without arguments nothing is started
    w = os.path.join(c.dir, "w0")
    rc, out, err = run_exe([exe], env={"VERIF_WATCH": w})
    recs.append({"what": "no argument", "events": [json.loads(l) for l in open(w)] if os.path.exists(w) else [], "rc": str(rc), "expect": "error", "usesmpi": False, "message": err.strip() != ""})
    rc, out, err = run_exe([exe, os.path.join(c.dir, "nowhere.ini")], env={"VERIF_WATCH": w})
    recs.append({"what": "no such file", "events": [json.loads(l) for l in open(w)] if os.path.exists(w) else [], "rc": str(rc), "expect": "error", "usesmpi": True, "message": err.strip() != ""})
    # the guard alone
    g = driver()
    for sc in ("plain", "default", "throw", "default-throw", "during-unwind"):
        w = os.path.join(c.dir, "w-" + sc)
        rc, out, err = run_exe([g, "mpi", sc], env={"VERIF_WATCH": w})
        ev = [json.loads(l) for l in open(w)] if os.path.exists(w) else []
        want = {"before": "0 0", "inside": "1 0", "after": "1 1"}
        seen = dict(l.split(" ", 1) for l in out.splitlines())
        ok = all(seen.get(k, want[k]) == want[k] for k in want) and (("inside" in seen) == (sc != "during-unwind"))
        given = [e for e in ev if e["fn"] == "init"]
        ok = ok and len(given) == 1 and ((given[0]["id"] == "3" and given[0]["ok"]) if sc in ("plain", "throw") else True)
        recs.append({"what": "guard " + sc, "events": ev, "rc": str(rc), "expect": "ok" if ok else "error", "usesmpi": True, "message": ok})
    c.conform("LifeTrace", recs, what="lives of runs")
    c.details["failed_calls_enumerated"] = calls + n2
    c.sample({"life": recs[2]["what"], "events": recs[2]["events"][:6]})


def summary(c):
    recs = []
    for nd in (2, 3):
        exe = app_exe(build.Config(nd))
        rng = random.Random(c.seed + nd)
        for k in range(c.pick(6, 30)):
            sec, _ = base(nd)
            n = [rng.randint(3, 9) if i < nd else 1 for i in range(3)]
            ng = rng.choice([2, 3])
            nfx = rng.randint(0, 3)
            vals = {"Grid": {**{f"Nx{i}_glob": n[i] for i in range(3)}, "Nghost": ng}, "Passive Scalar": {"nfx": nfx}, "Hydro": {"riemann_solver": rng.choice(["HLL", "HLLC"])}, "Pressure fix": {"pressure_fix": rng.choice(["On", "Off"]), "eps_pf": rng.choice(["0.25", "1e-05", "0.000123"])}, "Parallelization": {"mpi_device_aware": rng.choice(["true", "false"]), "mpi_dims_cart_x0": rng.choice([0, 1])}}
            np = 1 if k % 3 else 2
            if np == 2:
                vals["Parallelization"].update({"mpi_dims_cart_x0": 1, f"mpi_dims_cart_x{nd - 1}": 2})
                n[nd - 1] = rng.randint(6, 9)
                vals["Grid"][f"Nx{nd - 1}_glob"] = n[nd - 1]
            s = {**sec, **vals}
            m = n[0] * n[1] * n[2]
            r = run_app(exe, os.path.join(c.dir, "sum%d_%d" % (nd, k)), s, init=[1.0] * m + [0.1] * (m * nd) + [1.0] * m + [0.5] * (nfx * m), np=np)
            if r.rc != 0:
                raise Violation("a run with valid settings was refused", {"settings": s, "err": r.err[-400:]})
            got = {}
            for l in r.out.splitlines():
                if len(l) == 80 and ".." in l:
                    a, b = l[:40].rstrip("."), l[40:].lstrip(".")
                    got[a] = b
            g = [ng if i < nd else 0 for i in range(3)]
            exp = {"Ndim": nd, "mpi_size": np, "nfx": nfx, "riemann_solver": vals["Hydro"]["riemann_solver"], "pressure_fix": vals["Pressure fix"]["pressure_fix"], "eps_pf": {"0.25": "0.25", "1e-05": "1e-05", "0.000123": "0.000123"}[vals["Pressure fix"]["eps_pf"]], "mpi_device_aware": int(vals["Parallelization"]["mpi_device_aware"] == "true"), "mpi_dims_cart_x0": vals["Parallelization"]["mpi_dims_cart_x0"], **{f"mpi_dims_cart_x{i}": vals["Parallelization"].get(f"mpi_dims_cart_x{i}", 0) for i in (1, 2)}, "setup": "verif", "eos": "PerfectGas", "geometry": "Cartesian", "gravity": "Uniform", "restart": 0, "restart_file": "None", "user_step": "Off", "git_branch": "verif-branch", "git_build_string": "verif-build"}
            for i in range(3):
                p = 2 if np == 2 and i == nd - 1 else 1
                w = (n[i] + p - 1) // p
                exp.update({f"Nghost[{i}]": g[i], f"mpi_dims_cart[{i}]": p, f"Nx_glob_ng[{i}]": n[i], f"Nx[{i}]": w, f"Nx_local_wg[{i}]": w + 2 * g[i], f"Corner_min[{i}]": 0, f"Corner_max[{i}]": w})
            recs.append({"kind": "summary", "lines": got, "expect": {k: str(v) for k, v in exp.items()}})
            shutil.rmtree(r.dir, ignore_errors=True)
    c.conform("FactsTrace", recs, what="summaries of runs", name="Summary")


def check(c):
    exe = driver()
    handles(c, exe)
    facts(c, exe)
    lives(c)
    summary(c)
    c.assumptions = ["calls of the PDI library to HDF5 are not the solver's own", "at most one library call fails in a run", "one process"]
