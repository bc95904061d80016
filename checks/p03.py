"""P03: run parameters."""
import itertools
import json
import os
import random
import re

import build
from app import app_exe, parallel, run_app
from common import ModelError, Raw, Violation, run_exe

REPO = build.REPO
# values written for the two abstract values of the model and further ones: key type -> texts
INT = ["3", "17", "0x1F", "-4", "+9", "2147483647", "-2147483648", "0", "12 # comment", "007"]
REAL = ["0.625", "-3.5e-7", "1e5", "+.25", "7", "1.e3", "0", "123456.789", "2.5 # c", "-0.1"]
BOOL = ["true", "no", "ON", "0", "Yes", "off", "1", "False"]
BADNUM = ["abc", "x1", "-", "1e999", "--3", "# nothing"]
BADINT = BADNUM[:3] + ["99999999999", "-2147483649", "0x1ffffffff", "1e400x"[:0] or "2147483648", "# c"]
# values with a meaning of their own somewhere in the program, each written for every key of its kind
KNOWN = {
    "int": ["1", "2", "4", "5", "16", "20", "100", "10000", "-1"],
    "real": ["1", "1.0", "0.2", "0.4", "0.5", "1.4", "1.66666667", "1e20", "1e-6", "-1", "10", "0.0"],
    "bool": ["true", "false"],
    "str": ["On", "Off", "on", "None", "none", "UserDefined", "Regular", "HLL", "HLLC", "Low Mach", "VanLeer", "Minmod", "VanAlbada", "Constant", "Heat_nickel", "Periodic", "Reflexive", "NullGradient",
            "ShockTube", "Sedov", "result", ".", "..", "output", "X0_left X0_right", "restart.h5", "./results/a_00000001.h5", "true", "0"],
}


def rows():
    """the table of Params.tla, read from the specification"""
    import re
    t = open(os.path.join(build.VERIF, "tla/Params.tla")).read()
    return re.findall(r'Row\("(\w+)", "([\w ]+)", "(\w+)", "(\w+)", "([^"]*)"\)', t)


def case(rng, s):
    return "".join(rng.choice((ch.upper(), ch.lower())) for ch in s)


def render(kv, rng, probe):
    """an INI text with those settings, decoys included"""
    secs = {}
    for s, k, v in kv:
        secs.setdefault(s, []).append((k, v))
    out = []
    items = list(secs.items())
    rng.shuffle(items)
    if probe != "absent":
        items.append(("setup", [("probe", probe)]))
    for s, l in items:
        out.append(f"[{case(rng, s)}]")
        rng.shuffle(l)
        for k, v in l:
            out.append(f"{case(rng, k)} {rng.choice('=:')} {v}")
    # the same keys in sections of other names do not count
    out.append("[Elsewhere]")
    for s, k, v in kv[:4]:
        out.append(f"{k} = 11")
    return "\n".join(out) + "\n"


def drive(c, name, cases):
    """cases: list of (kv, probe, text)"""
    exe = build.build_plain("param_driver", [os.path.join(REPO, "vendor/inih/src/ini.c"), os.path.join(REPO, "vendor/inih/src/INIReader.cpp"), os.path.join(REPO, "src/utils/param.cpp"), os.path.join(build.VERIF, "harness/param_driver.cpp")], includes=[os.path.join(REPO, "src/utils"), os.path.join(REPO, "src")])
    rc, out, err = run_exe([exe, os.path.join(c.dir, "p.ini")], stdin="\n".join(t.encode().hex() for _, _, t in cases) + "\n", timeout=300)
    lines = out.splitlines()
    if rc != 0 or len(lines) != len(cases):
        raise Violation("reading the parameters did not survive an input", {"text": cases[min(len(lines), len(cases) - 1)][2], "rc": rc, "stderr": err[-500:]})
    recs = []
    for (kv, probe, t), l in zip(cases, lines):
        res = json.loads(l)
        if "unreadable" in res:
            raise Violation("a well-formed file was not readable", {"text": t, "what": res["unreadable"]})
        recs.append({"kv": [{"s": s, "k": k, "v": list(v.encode())} for s, k, v in kv], "probe": probe, "res": res, "shown": t})
    c.conform("ParamsTrace", recs, what=name, name=name)
    return recs


def known(rng, t):
    return rng.choice(KNOWN.get(t, KNOWN["str"]))


def shipped():
    """the settings of the shipped input files that name run parameters"""
    import configparser
    T = rows()
    out = []
    for f in sorted(os.listdir(os.path.join(REPO, "inputs"))):
        if not f.endswith(".ini"):
            continue
        cp = configparser.ConfigParser(inline_comment_prefixes=(";",), strict=False, interpolation=None)
        try:
            cp.read(os.path.join(REPO, "inputs", f))
        except configparser.Error:
            continue
        has = {(s.lower(), k.lower()): v for s in cp.sections() for k, v in cp.items(s)}
        out.append([(s, k, has[s.lower(), k.lower()]) for _, s, k, _, _ in T if (s.lower(), k.lower()) in has])
    return out


def value(rng, t, k):
    if t == "int":
        return INT[k] if k < len(INT) else str(rng.randint(-2**31, 2**31 - 1))
    if t == "real":
        return REAL[k] if k < len(REAL) else repr(rng.uniform(-1, 1) * 10.0 ** rng.randint(-12, 12))
    if t == "bool":
        return BOOL[k % len(BOOL)]
    return ["Alpha", "beta gamma", "UserDefined", "12", "X0_left X1_right", "off", "/some/dir", "a;b#c"][k % 8] if rng is None or k < 8 else "w%x" % rng.getrandbits(40)


def parameters(c, rng):
    T = rows()
    res = c.model("ParamsModel", constants={"MaxSet": 2, "Vals": Raw("1..2")}, invariants=("OneToOne", "First", "Emit"), properties=("OnlyNamed",), workers=4)
    cases = []
    for f in res.printed("CASE"):
        items = [(int(i) - 1, v) for i, v in (f.items() if isinstance(f, dict) else enumerate(f, 1))]
        kv = [(T[i][1], T[i][2], value(rng, T[i][3], v - 1)) for i, v in items]
        cases.append((kv, "absent", render(kv, rng, "absent")))
    if len(cases) < 3000:
        raise ModelError("behaviours of ParamsModel not found: %d" % len(cases))
    drive(c, "files of up to two settings", cases)
    c.sample({"file": cases[100][2]})
    # every key, every value; empty settings; unusable values; full files
    cases = []
    for f, s, k, t, d in T:
        for n in range(12):
            v = value(rng, t, n)
            cases.append(([(s, k, v)], "absent", render([(s, k, v)], rng, "absent")))
        cases.append(([(s, k, "")], "absent", render([(s, k, "")], rng, "absent")))
        for v in KNOWN.get(t, KNOWN["str"]):
            cases.append(([(s, k, v)], "absent", render([(s, k, v)], rng, "absent")))
        for v in {"int": BADINT, "real": BADNUM, "bool": ["maybe", "2", "truee", "-"]}.get(t, []):
            cases.append(([(s, k, v)], "absent", render([(s, k, v)], rng, "absent")))
    for n in range(c.pick(800, 6000)):
        dens = rng.choice([0.1, 0.5, 0.9, 1.0])
        usual = rng.choice([0, 0.4, 0.9])
        kv = [(s, k, rng.choice(["", value(rng, t, rng.randint(0, 12))]) if rng.random() < 0.2 else known(rng, t) if rng.random() < usual else value(rng, t, rng.randint(0, 14))) for f, s, k, t, d in T if rng.random() < dens]
        if rng.random() < 0.15 and kv:
            i = rng.randrange(len(kv))
            t = [r[3] for r in T if r[1:3] == kv[i][:2]][0]
            if t == "int":
                kv[i] = kv[i][:2] + (rng.choice(BADINT),)
            elif t == "real":
                kv[i] = kv[i][:2] + (rng.choice(BADNUM),)
        probe = rng.choice(["absent", "there", "1 2 3"])
        cases.append((kv, probe, render(kv, rng, probe)))
    ships = shipped()
    if len(ships) < 5 or not all(ships):
        c.details["shipped_inputs"] = len(ships)
    for kv in ships:
        cases.append((kv, "absent", render(list(kv), rng, "absent")))
        for n in range(c.pick(6, 40)):  # one setting less, one changed
            less = list(kv)
            less.pop(rng.randrange(len(less)))
            f, s, k, t, d = rng.choice(T)
            less = [x for x in less if x[:2] != (s, k)] + [(s, k, known(rng, t))]
            cases.append((less, "absent", render(list(less), rng, "absent")))
    drive(c, "files with any settings", cases)


def base(ndim):
    g = {f"Nx{i}_glob": 3 for i in range(ndim)}
    g.update({f"Nx{i}_glob": 1 for i in range(ndim, 3)})
    return {"Grid": g, "Run": {"t_end": "1e-3"}, "Output": {"iter_frequency": 1, "max_iter": 1}, "Boundary Condition": {}}


def initial(ndim, n=3, ng=2):
    m = n ** ndim
    return [1.0] * m + [0.0] * (m * ndim) + [1.0] * m


def starts(c, rng):
    recs = []
    jobs = []
    for ndim in (1, 2, 3):
        keys = ["BC"] + [f"BC_X{d}" for d in range(ndim)] + [f"BC_X{d}_{s}" for d in range(ndim) for s in ("left", "right")]
        if ndim == 1:
            combos = list(itertools.product(["", None, "UserDefined", "Bogus", "Reflexive"], repeat=4))
            rng.shuffle(combos)
            combos = combos[:c.pick(260, 625)]
        else:
            combos = [[rng.choice(["", None, None, "UserDefined", "UserDefined", "NullGradient", "Reflexive", "Periodic"] + ["Bogus"] * (n % 2)) for _ in keys] for n in range(c.pick(140, 900))]
            for x in combos[: len(combos) // 2]:
                x[0] = rng.choice(["NullGradient", "UserDefined"])
        for x in combos:
            kv = {k: (v if v != "Bogus" else "Bogus_" + k) for k, v in zip(keys, x) if v is not None}
            jobs.append(("borders", ndim, kv, None))
    # settings a run cannot do without or cannot use
    for ndim in (1, 2, 3):
        for d in range(ndim):
            for v in (None, "", "0", "-1", "abc", "99999999999"):
                jobs.append(("setting", ndim, ("Grid", f"Nx{d}_glob", v), False))
            jobs.append(("setting", ndim, ("Grid", f"Nx{d}_glob", "0x3"), True))
    for s, k, v, ok in [("Run", "cfl", "0", False), ("Run", "cfl", "-0.4", False), ("Run", "cfl", "nan", False), ("Run", "cfl", "zero", False), ("Run", "cfl", "", True), ("Run", "cfl", "0.1", True),
                        ("Grid", "Nghost", "1", False), ("Grid", "Nghost", "0", False), ("Grid", "Nghost", "-2", False), ("Grid", "Nghost", "two", False), ("Grid", "Nghost", "3", True),
                        ("Run", "t_ini", "0.5", False), ("Run", "t_ini", "-0.5", True), ("Run", "t_end", "-1", False), ("Run", "t_end", "x", False), ("Run", "t_end", "", True),
                        ("Grid", "x0min", "1", False), ("Grid", "x0min", "2", False), ("Grid", "x0max", "-1", False), ("Grid", "x0max", "5", True), ("Grid", "x0min", "bad", False),
                        ("Perfect Gas", "gamma", "1", False), ("Perfect Gas", "gamma", "nan", False), ("Perfect Gas", "gamma", "1.2", True), ("Perfect Gas", "mu", "0", False), ("Perfect Gas", "mu", "-1", False), ("Perfect Gas", "mu", "2", True),
                        ("Hydro", "reconstruction", "vanleer", False), ("Hydro", "riemann_solver", "hll", False), ("User step", "user_step", "On", False), ("Grid", "type", "regular", False),
                        ("Problem", "restart", "perhaps", False), ("Output", "iter_frequency", "often", False), ("Passive Scalar", "nfx", "many", False)]:
        jobs.append(("setting", rng.choice((1, 2)), (s, k, v), ok))

    def one(a):
        i, (kind, ndim, what, ok) = a
        sec = base(ndim)
        if kind == "borders":
            sec["Boundary Condition"] = dict(what)
        else:
            sec["Boundary Condition"]["BC"] = "NullGradient"
            s, k, v = what
            if v is None:
                sec[s].pop(k, None)
            else:
                sec.setdefault(s, {})[k] = v
        exe = exes[ndim]
        d = os.path.join(c.dir, "s%d" % i)
        r = run_app(exe, d, sec, init=initial(ndim))
        if kind == "borders":
            named = ["Bogus_" + k for k in ["BC"] + [f"BC_X{q}" for q in range(3)] + [f"BC_X{q}_{f}" for q in range(3) for f in ("left", "right")] if re.search(rf"Bogus_{k}(?![A-Za-z0-9_])", r.err)]
            ev = sorted({(e["dim"], e["face"]) for e in r.logs[0] if e["event"] == "bc"})
            rec = {"kind": "borders", "ndim": ndim, "keys": what or {"none": ""}, "started": r.rc == 0, "files": len(r.files), "events": ev, "named": named, "rc": str(r.rc), "err": r.err[-200:]}
        else:
            rec = {"kind": "setting", "ndim": ndim, "what": f"{what[0]}/{what[1]}={what[2]}", "usable": ok, "started": r.rc == 0, "files": len(r.files), "rc": str(r.rc), "err": r.err[-200:]}
        if r.rc not in (0, 1):
            raise Violation("start-up neither ran nor was refused", rec)
        import shutil
        shutil.rmtree(d, ignore_errors=True)
        return rec

    exes = dict(zip((1, 2, 3), [app_exe(build.Config(n)) for n in (1, 2, 3)]))
    recs = parallel(one, list(enumerate(jobs)), 8)
    c.sample({"start": {k: v for k, v in recs[5].items() if k != "err"}})
    c.conform("StartTrace", recs, what="starts of the program")


def check(c):
    rng = random.Random(c.seed)
    parameters(c, rng)
    starts(c, rng)
    c.assumptions = ["the program is built against the stand-ins for Kokkos and PDI of /verif/shim"]
