"""Runs the real main.cpp (built against the stand-ins) on prepared scenarios."""
import concurrent.futures as cf
import json
import os
import shutil
import struct
import subprocess

import build
from common import run_exe


def app_exe(cfg):
    return build.build_solver("app", cfg, ["clock.cpp", "h5watch.cpp"], with_main=True)


def h5json_exe():
    mc, ml = build.mpi_flags()
    return build.build_plain("h5json", [os.path.join(build.VERIF, "harness/h5json.cpp")], extra_flags=mc + build.HDF5_INC, links=ml + build.HDF5_LINK)


def read_h5(files):
    if not files:
        return []
    rc, out, err = run_exe([h5json_exe()] + files, timeout=120)
    return [json.loads(l) for l in out.splitlines()]


def ini_text(sections):
    s = ""
    for name, kv in sections.items():
        s += f"[{name}]\n"
        for k, v in kv.items():
            s += f"{k} = {v}\n"
    return s


class Run:
    pass


def run_app(exe, d, sections, np=1, init=None, grid=None, script=None, timeout=60, env=None, raw_ini=None, args=(), keep_dir=False):
    """init/grid: lists of doubles; script: list of lines. Returns a Run."""
    if not keep_dir:
        shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    sec = {k: dict(v) for k, v in sections.items()}
    v = sec.setdefault("Verif", {})
    v["log"] = os.path.join(d, "log")
    for f in os.listdir(d):
        if f.startswith("log."):
            os.remove(os.path.join(d, f))
    if init is not None:
        v["init"] = os.path.join(d, "init.bin")
        with open(v["init"], "wb") as f:
            f.write(struct.pack("<%dd" % len(init), *init))
    if grid is not None:
        v["grid"] = os.path.join(d, "grid.bin")
        with open(v["grid"], "wb") as f:
            f.write(struct.pack("<%dd" % len(grid), *grid))
    if script is not None:
        v["script"] = os.path.join(d, "script.txt")
        with open(v["script"], "w") as f:
            f.write("\n".join(script) + "\n")
    o = sec.setdefault("Output", {})
    o.setdefault("directory", d)
    ini = os.path.join(d, "in.ini")
    with open(ini, "w") as f:
        f.write(raw_ini if raw_ini is not None else ini_text(sec))
    cmd = [exe, ini] + list(args)
    if np > 1:
        cmd = ["mpirun", "--allow-run-as-root", "--oversubscribe", "-np", str(np)] + cmd
    r = Run()
    r.rc, r.out, r.err = run_exe(cmd, timeout=timeout, env=env, cwd=d)
    r.dir = d
    r.np = np
    r.prefix = o.get("prefix", "result")
    r.outdir = o["directory"]
    r.logs = []
    for k in range(np):
        p = os.path.join(d, "log.%d" % k)
        r.logs.append([json.loads(l) for l in open(p)] if os.path.exists(p) else [])
    r.files = sorted(f for f in os.listdir(r.outdir) if f.endswith(".h5")) if os.path.isdir(r.outdir) else []
    return r


def parallel(fn, items, n=8):
    with cf.ThreadPoolExecutor(n) as ex:
        futures = [ex.submit(fn, x) for x in items]
        cf.wait(futures, return_when=cf.FIRST_EXCEPTION)
        for f in futures:
            f.cancel()
        for f in futures:  # the first failure, if any
            if f.done() and not f.cancelled() and f.exception():
                raise f.exception()
        return [f.result() for f in futures]
