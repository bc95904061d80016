"""P15: what is in the output files."""
import os
import random
import re
import xml.etree.ElementTree as ET

import builds
import scheme
import steps
from app import parallel, read_h5
from common import Raw, Violation
from hydro import num

BUILD = {"git_build_string": "verif-build", "git_branch": "verif-branch", "compile_date": "1970-01-01", "compile_time": "00:00:00"}


def index(path):
    """the XDMF file as a list of entries"""
    try:
        root = ET.fromstring(open(path).read())
    except (OSError, ET.ParseError) as e:
        raise Violation("the index cannot be read", {"path": path, "error": str(e)})

    def item(i):
        f, s = i.text.strip().split(":/")
        if i.get("NumberType") != "Float" or i.get("Precision") != "8" or i.get("Format") != "HDF":
            raise Violation("the index describes another kind of data", {"item": ET.tostring(i).decode()})
        return {"file": f, "set": s, "dims": [int(v) for v in i.get("Dimensions").split()]}

    out = []
    for g in root.findall("./Domain/Grid/Grid"):
        out.append({"time": g.find("Time").get("Value"), "size": [int(v) for v in g.find("Topology").get("Dimensions").split()], "axes": [item(i) for i in g.find("Geometry").findall("DataItem")],
                    "vars": [{"name": a.get("Name"), **item(a.find("DataItem"))} for a in g.findall("Attribute")]})
    return out


def held(r, n, nfx, cut):
    """per step: the cells of all processes put together"""
    out = {}
    m = n[0] * n[1] * n[2]
    for l in r.logs:
        for e in l:
            if e["event"] == "cells":
                s = out.setdefault(e["n"], {"rho": [None] * m, "E": [None] * m, "fx": [[None] * m for _ in range(nfx)]})
                for i, j, k, *v in e["cells"]:
                    q = i + n[0] * (j + n[1] * k)
                    if s["rho"][q] is not None:
                        raise Violation("two processes hold the same cell", {"cell": [i, j, k]})
                    s["rho"][q], s["E"][q] = v[0], v[1]
                    for f in range(nfx):
                        s["fx"][f][q] = v[2 + f]
    dts = [e for e in r.logs[0] if e["event"] == "step"]
    if cut:
        # the step that failed was not finished
        dts = dts[:cut - 1]
    res = []
    for e in dts:
        s = out.get(e["n"])
        if s is None or any(v is None for v in s["rho"]):
            raise Violation("cells no process holds", {"step": e["n"]})
        res.append({"t": e["t"], "dt": e["dt"], **s})
    return res


def check(c):
    c.model("OutputModel", constants={"Sizes": Raw(c.pick("{<<3,2>>, <<4,1>>}", "{<<3,2>>, <<4,1>>, <<4,3>>, <<1,1>>}")), "Splits": Raw("{<<1>>, <<2>>, <<1,1>>, <<3>>, <<2,1>>, <<1,1,1>>, <<4>>, <<3,1>>, <<2,2>>}"), "Ngs": {0, 2}, "Legs": 2, "Outs": c.pick(2, 4)},
            invariants=("Complete", "NoGhost", "ReadBack", "Indexed", "InOrder"), timeout=3000)
    cfgs = ["c1", "c2", "c3", "s2", "c1r"] + c.pick([], ["s1", "s3", "c2r"])
    exes = builds.apps(cfgs)
    jobs = [(cfg, k) for cfg in cfgs for k in range(c.pick(14, 100))]

    def record(r, s, sec, what, start=0, firstid=0, cut=0):
        n, nfx = s.n, len(s.fx)
        st = held(r, n, nfx, cut)
        files = []
        for h in read_h5([os.path.join(r.outdir, f) for f in r.files if f.startswith(r.prefix + "_")]):
            if h.get("error"):
                raise Violation("an output file cannot be read", {"file": h["file"]})
            m = re.search(r"_(\d{8})\.h5$", h["file"])
            if not m:
                raise Violation("name of an output file", {"file": h["file"]})
            files.append({"name": os.path.basename(h["file"]), "number": int(m.group(1)), "attributes": h["attributes"], "data": {k: {**v, "data": [int(x) if v["type"] == "int" else x for x in v["data"]]} for k, v in h["datasets"].items()}})
        x = s.x
        if x is None:
            x = []
            for d in range(3):
                g = s.ng if d < s.ndim else 0
                a, b = s.ends[d]
                x.append([a + (b - a) * (i - g) / n[d] for i in range(n[d] + 2 * g + 1)])
        every, last = sec["Output"]["iter_frequency"], start + len(st)
        due = [i for i in range(start + 1 if start else 0, last + 1) if (i == last and not cut) or (every > 0 and i % every == 0)]
        return {"what": what, "ndim": s.ndim, "n": n, "ng": s.ng, "nfx": nfx, "gas": s.gas, "gamma": num(s.gamma), "mu": num(s.mu), "x": [[num(v) for v in l] for l in x], "steps": st, "from": start, "firstid": firstid, "due": due,
                "fresh": {"rho": [num(v) for v in s.rho], "u": [[num(v) for v in l] for l in s.u], "P": [num(v) for v in s.P], "fx": [[num(v) for v in l] for l in s.fx]},
                "known": s.known, "files": files, "index": index(os.path.join(r.outdir, r.prefix + ".xmf")) if files else [], "build": BUILD}

    def one(j):
        cfg, k = j
        rng = random.Random(f"{c.seed} output {cfg} {k}")
        nd = int(cfg[1])
        n = [rng.randint(2, {1: 11, 2: 6, 3: 5}[nd]) if d < nd else 1 for d in range(3)]
        nfx = rng.choice((0, 1, 2, 3, 10))
        s = steps.make(rng, cfg, n=n, nfx=nfx, kind="smooth", jump=0.2, mach=rng.choice((0.2, 1.0)), gravity=0)
        s.ng = s.ng if s.x is not None else rng.choice((2, 2, 3)) if s.geom == "Cartesian" and min(n[:nd]) > 2 else 2
        s.pf = None
        s.known = []
        if s.geom == "Cartesian" and rng.random() < 0.6:
            # densities and fractions carried along, the velocity stays what it is
            v = [rng.choice((-1, 1)) * (0.3 + 0.2 * d) * s.c0 for d in range(nd)]
            m = steps.cells(n)
            s.u = [[a] * m for a in v]
            s.P = [s.P[0]] * m
            s.bc = ["Periodic"] * (2 * nd)
            s.g = [0.0] * 3
            if s.gas == "PerfectGas":
                s.known = [num(a) for a in v]
        np = rng.choice((1, 2, 3, 4, 6))
        lay = scheme.layout(rng, s, np)
        while lay is None:
            np -= 1
            lay = scheme.layout(rng, s, np)
        total = rng.choice((2, 5, 12)) if nd < 3 else rng.choice((2, 4))
        sec = s.sections()
        sec["Output"].update({"iter_frequency": rng.choice((1, 1, 2, 3)), "max_iter": total, "prefix": rng.choice(("result", "run", "a_b"))})
        sec["Verif"] = {"dump": 1}
        d = os.path.join(c.dir, f"out-{cfg}-{k}")
        if rng.random() < 0.5:
            sec["Output"]["directory"] = os.path.join(d, "sub.dir")
            os.makedirs(sec["Output"]["directory"], exist_ok=True)
        what = f"{cfg} n={n} ghosts={s.ng} processes={lay} scalars={nfx} steps={total} {sec['Output']}"

        # the index is up to date when a run is cut short
        cut = rng.randint(2, total) if rng.random() < 0.25 else 0

        def go(sec, d, np, lay, cut=0):
            r = steps.run(exes[cfg], d, s, np=np, layout=lay, sections=sec, keep_dir=True, script=[f"{cut} throw"] if cut else None)
            if r.rc != (1 if cut else 0):
                raise Violation("the program did not survive a valid run", {"rc": r.rc, "stderr": r.err[-800:], "sections": sec})
            return r

        r = go(sec, d, np, lay, cut)
        recs = [record(r, s, sec, what + (f' cut short in step {cut}' if cut else ''), cut=cut)]
        if rng.random() < 0.4:
            # the files and the index of the continued run, in another directory
            f = rng.choice(recs[0]["files"])
            it = f["data"]["iter"]["data"][0]
            sec2 = {a: dict(b) for a, b in sec.items()}
            sec2["Output"]["directory"] = d + "-again"
            os.makedirs(d + "-again", exist_ok=True)
            sec2["Output"]["max_iter"] = total + 2
            sec2["Problem"] = {"restart": "true", "restart_file": os.path.join(r.outdir, f["name"])}
            lay2 = scheme.layout(rng, s, rng.choice((1, 2, 4)))
            lay2 = lay2 or [1, 1, 1]
            np2 = lay2[0] * lay2[1] * lay2[2]
            r2 = go(sec2, d + "-log", np2, lay2)
            if it > 0:
                recs.append(record(r2, s, sec2, what + f" continued from iteration {it} on {lay2}", start=it, firstid=f["number"] + 1))
        return recs

    recs = [x for l in parallel(one, jobs, 8) for x in l]
    c.sample({"run": recs[0]["what"], "files": [f["name"] for f in recs[0]["files"]], "index": recs[0]["index"][0]})
    c.conform("OutputTrace", recs, what="output files and their index", timeout=3000)
    c.assumptions = ["a stand-in for PDI executes the configuration of src/io/config.yaml.cpp with HDF5", "times in the index are printed with 6 digits", "the index lists the outputs of one execution (not those written before a restart)", "at most 10 scalars, as the configuration declares"]
