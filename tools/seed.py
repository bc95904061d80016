#!/usr/bin/env python3
"""seed.py FILE.py: makes /verif/seeded/<id>/ from a description and validates it in a scratch copy
(development aid). The description sets: id, property, needs, breaks, edits = [(file, old, new)...],
demo (python text; may import kit) and optionally kit = False for a demonstration without the solver kit."""
import glob, json, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
BASE = "b84a7d9"

DEMO_SH = """#!/bin/bash
# exit 0: behaves as the property says; 1: does not
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
export SCRATCH="$scratch" HCL_BUILD="$scratch/build" PYTHONDONTWRITEBYTECODE=1
cd "$scratch"
python3 "$here/demo.py"
"""

KIT = '''"""Helpers of the demonstration: the real sources, built against stand-ins for Kokkos and PDI."""
import os
import subprocess
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "lib"))
import build
from app import app_exe, read_h5, run_app
from build import Config
from common import run_exe

SCRATCH = os.environ["SCRATCH"]
REPO = build.REPO


def outputs(r):
    """all output files of a run: name -> (datasets, attributes)"""
    res = {}
    for h in read_h5([os.path.join(r.outdir, f) for f in r.files]):
        res[os.path.basename(h["file"])] = (h["datasets"], h["attributes"])
    return res


def fields(datasets, name):
    return [float(v) for v in datasets[name]["data"]]


def run(exe, name, sections, **kw):
    return run_app(exe, os.path.join(SCRATCH, name), sections, **kw)


def scalar(datasets, name):
    return float(datasets[name]["data"][0])


def cxx(source, units, flags=()):
    """a small program from a text and files of the repository"""
    src = os.path.join(SCRATCH, "prog.cpp")
    open(src, "w").write(source)
    exe = os.path.join(SCRATCH, "prog")
    objs = []
    for i, u in enumerate(units):
        o = os.path.join(SCRATCH, "u%d.o" % i)
        c = ["gcc"] if u.endswith(".c") else ["g++", "-std=c++20"]
        subprocess.run(c + ["-O1", *flags, "-c", os.path.join(REPO, u), "-o", o], check=True)
        objs.append(o)
    subprocess.run(["g++", "-std=c++20", "-O1", *flags, src, *objs, "-o", exe], check=True)
    return exe


def verdict(ok, text):
    print(("as stated: " if ok else "BROKEN: ") + text)
    sys.exit(0 if ok else 1)
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def make(desc):
    d = os.path.join(SEEDED, desc["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/demo.sh", "w").write(DEMO_SH)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(desc["demo"].lstrip("\n"))
    open(d + "/kit.py", "w").write(KIT)
    os.makedirs(d + "/lib")
    names = ["lib/build.py", "lib/app.py", "lib/common.py"]
    names += ["shim/" + f for f in sorted(os.listdir(VERIF + "/shim"))]
    names += ["harness/" + f for f in ("setup.hpp", "clock.cpp", "h5watch.cpp", "h5json.cpp", "json_out.hpp")]
    for n in names:
        if not os.path.isfile(os.path.join(VERIF, n)):
            continue
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
        t = open(os.path.join(VERIF, n)).read()
        open(os.path.join(d, n), "w").write(re.sub(r"(?<![\w.)])/verif\b", "here", t))
    json.dump({"property": desc["property"], "needs": desc["needs"], "what_it_breaks": desc["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    work = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    try:
        repo = work + "/repo"
        sh(["git", "clone", "-q", "/repo", repo], check=True)
        for f, old, new in desc["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                print("PATTERN occurs %d times: %s" % (s.count(old), old))
                return 1
            open(p, "w").write(s.replace(old, new, 1))
        diff = sh(["git", "-C", repo, "diff"]).stdout
        open(d + "/patch.diff", "w").write(diff)
        # only lines of the original repository are changed
        fixed = set()
        for l in sh(["git", "-C", "/repo", "diff", BASE, "HEAD"]).stdout.splitlines():
            if l.startswith("+") and not l.startswith("+++") and len(l.strip()) > 4:
                fixed.add(l[1:].strip())
        for l in diff.splitlines():
            if l.startswith("-") and not l.startswith("---") and l[1:].strip() in fixed:
                print("CHANGES A LINE OF A FIX COMMIT:", l)
                return 1
        for path, want in (("/repo", 0), (repo, 1)):
            # elsewhere, as in the final check
            away = work + "/away"
            shutil.rmtree(away, ignore_errors=True)
            shutil.copytree(d, away, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
            env = dict(os.environ, HCL_REPO=path)
            r = sh(["bash", away + "/demo.sh"], cwd=path, env=env)
            print(desc["id"], "demo on", "the patched tree" if want else "the clean tree", "->", r.returncode, r.stdout.strip()[-300:])
            if (r.returncode != 0) != bool(want):
                return 1
    finally:
        shutil.rmtree(work)
    return 0


def official(ids):
    """builds and tests each patched tree with the official scripts, in /repo, and undoes the patch"""
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    bad = 0
    for i in ids:
        p = os.path.join(SEEDED, i, "patch.diff")
        if sh(["git", "-C", "/repo", "apply", p]).returncode != 0:
            print(i, "DOES NOT APPLY"); bad = 1; continue
        try:
            r = sh(["bash", "/opt/vp/test.sh", "/tmp/seed-out.json"])
            passed = set(json.load(open("/tmp/seed-out.json"))["passed"])
            missing = stable - passed
            print(i, "tests", "ok" if not missing else "MISSING %s" % sorted(missing)[:4])
            bad |= bool(missing)
        finally:
            sh(["git", "-C", "/repo", "checkout", "--", "."])
    sh(["bash", "/opt/vp/build.sh"])
    return bad


def caught(ids):
    """the property's own check on a scratch copy with the patch"""
    for i in ids:
        pid = json.load(open(os.path.join(SEEDED, i, "meta.json")))["property"]
        work = tempfile.mkdtemp(prefix="seed", dir="/tmp")
        try:
            sh(["git", "clone", "-q", "/repo", work + "/repo"], check=True)
            sh(["git", "-C", work + "/repo", "apply", os.path.join(SEEDED, i, "patch.diff")], check=True)
            r = sh([sys.executable, os.path.join(VERIF, "check.py"), pid], env=dict(os.environ, HCL_REPO=work + "/repo", VERIF_SEED="1", VERIF_TIER="quick"))
            print(i, pid, "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + pid in r.stdout else "MISSED rc %d" % r.returncode, "|", r.stdout.strip().splitlines()[0][:150] if r.stdout.strip() else "", flush=True)
        finally:
            shutil.rmtree(work)


if sys.argv[1] == "official":
    sys.exit(official(sys.argv[2:] or sorted(os.listdir(SEEDED))))
if sys.argv[1] == "caught":
    caught(sys.argv[2:] or sorted(os.listdir(SEEDED)))
    sys.exit(0)
ns = {}
exec(open(sys.argv[1]).read(), ns)
sys.exit(make(ns))
