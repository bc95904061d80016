"""Runs jobs of the mesh driver on any number of processes."""
import json
import os
import shutil

import build
from common import Violation, run_exe


def exe(ndim, geom="Cartesian"):
    return build.build_solver("mesh", build.Config(ndim, geom=geom), ["mesh_driver.cpp"])


def run_jobs(c, program, np, jobs, name, timeout=240, env=None):
    """per job, the list of what each process wrote"""
    d = os.path.join(c.dir, "mesh-" + name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(os.path.join(d, "jobs"), "w") as f:
        f.write("\n".join(jobs) + "\n")
    cmd = [program, os.path.join(d, "jobs"), os.path.join(d, "out")]
    if np > 1:
        cmd = ["mpirun", "--allow-run-as-root", "--oversubscribe", "-np", str(np)] + cmd
    rc, out, err = run_exe(cmd, timeout=timeout, cwd=d, env=env)
    per = []
    for r in range(np):
        p = os.path.join(d, "out.%d" % r)
        per.append([json.loads(l) for l in open(p) if l.endswith("\n")] if os.path.exists(p) else [])
    if rc != 0 or any(len(p) != len(jobs) for p in per):
        k = min(len(p) for p in per)
        raise Violation("the program did not survive a job", {"job": jobs[min(k, len(jobs) - 1)], "processes": np, "rc": rc, "stderr": err[-1500:]})
    shutil.rmtree(d, ignore_errors=True)
    return [[per[r][i] for r in range(np)] for i in range(len(jobs))]
