"""Runs of a uniform fluid at rest whose stable step is scripted, as records of ScheduleTrace."""
import math
import os
import re

from app import read_h5, run_app
from common import Violation
from hydro import log_uniform, num

NONE = 10 ** 6


class Plan:
    pass


def dyadic(rng, nsteps=24):
    """all times and steps are small multiples of a power of two: every sum is exact and ties are common"""
    p = Plan()
    q = 2.0 ** -5
    p.exact = True
    p.gamma, p.rho, p.width = 2.0, 1.0, 1.0
    p.cfl = rng.choice((1.0, 0.5, 0.25))
    p.E = [0.5 * 4.0 ** rng.randint(-1, 3) for _ in range(nsteps)]
    p.tini = rng.choice((0.0, 0.0, rng.randint(-40, 40) * q))
    span = rng.choice((4, 16, 64, 100, 160)) * q
    p.tend = p.tini + span
    p.period = rng.choice((0.0, 0.0, -1.0)) if rng.random() < 0.25 else rng.randint(1, 40) * q
    p.first = None if rng.random() < 0.4 else p.tini + rng.choice((1, 2, 8, 16, 200, rng.randint(1, 60))) * q
    return counts(rng, p)


def free(rng, nsteps=24):
    p = Plan()
    p.exact = False
    p.gamma, p.rho, p.width = rng.uniform(1.1, 2.5), log_uniform(rng, 1e-3, 1e3), log_uniform(rng, 1e-3, 1e3)
    p.cfl = rng.uniform(0.05, 0.9)
    E0 = log_uniform(rng, 1e-3, 1e3)
    p.E = [E0 * log_uniform(rng, 0.1, 10) for _ in range(nsteps)]
    mean = p.cfl * p.width / math.sqrt(p.gamma * (p.gamma - 1) * E0 / p.rho)
    p.tini = rng.choice((0.0, rng.uniform(-5, 5) * mean, rng.uniform(0, 1000) * mean))
    p.tend = p.tini + rng.uniform(0.5, 20) * mean
    p.period = rng.choice((0.0, 0.0, -1.0)) if rng.random() < 0.25 else mean * rng.uniform(0.2, 6)
    p.first = None if rng.random() < 0.4 else p.tini + mean * rng.uniform(0.1, 12)
    if rng.random() < 0.15 and p.period > 0:
        # the end is a scheduled time
        p.tend = (p.first if p.first is not None else p.tini + p.period) + rng.randint(0, 4) * p.period
    return counts(rng, p)


def long(rng):
    """many steps, many outputs"""
    p = rng.choice((dyadic, free))(rng)
    p.tini = rng.choice((p.tini, 0.0))
    step = allowed(p, p.E[-1])
    n = rng.randint(40, 130)
    p.maxiter = rng.choice((n, 10 ** 6))
    # rounding decides ties of inexact times: there are none
    odd = (lambda v: v) if p.exact else (lambda v: v * rng.uniform(1.01, 1.1))
    p.tend = p.tini + odd(n * step)
    p.period = rng.choice((0.0, odd(step * rng.choice((0.75, 1.5, 2.0, 5.25)))))
    p.first = rng.choice((None, p.tini + odd(2 * step)))
    p.every = rng.choice((0, 1, 3, 17))
    return p


def counts(rng, p):
    p.every = rng.choice((0, 0, -1)) if rng.random() < 0.3 else rng.choice((1, 2, 3, 5, 7, 100))
    p.maxiter = rng.choice((1, 2, 3, 5, 8, 13, 24, 24, 24))
    p.job = None
    p.jumps = {}
    p.late = rng.random() < 0.3
    if p.late:
        # the wall clock jumps during some steps; the budget is used up from the step after
        p.job = rng.randint(2, 9)
        k = rng.randint(1, 10)
        p.jumps[k] = p.job - 1
        p.jumps[k + rng.randint(1, 4)] = p.job + rng.randint(0, 3)
    return p


def allowed(p, E):
    return p.cfl * p.width / math.sqrt(p.gamma * (p.gamma - 1) * E / p.rho)


def sections(p, nx):
    s = {"Grid": {"Nx0_glob": nx, "Nx1_glob": 1, "Nx2_glob": 1, "Nghost": 2, "x0min": 0, "x0max": num(nx * p.width), "x1min": 0, "x1max": 1, "x2min": 0, "x2max": 1},
         "Run": {"t_ini": num(p.tini), "t_end": num(p.tend), "cfl": num(p.cfl)},
         "Output": {"iter_frequency": p.every, "time_frequency": num(p.period), "max_iter": p.maxiter},
         "Hydro": {"reconstruction": "Constant", "riemann_solver": "HLL"}, "Perfect Gas": {"gamma": num(p.gamma), "mu": 1},
         "Boundary Condition": {"BC": "Periodic"}, "User step": {"user_step": "UserDefined"}}
    if p.first is not None:
        s["Output"]["time_first_output"] = num(p.first)
    if p.job is not None:
        s["Output"]["time_job"] = p.job
    return s


def script(p, start=0, rank="-1"):
    out = [f"{n - start} E {num(p.E[n])}" for n in range(start + 1, len(p.E))]
    return out + [f"{n - start} clock {rank} {h}" for n, h in p.jumps.items() if n > start]


def run(exe, d, p, nx=2, np=1, rank="-1", restart=None, start=0, sec=None):
    """restart: file to restart from, start: its iteration"""
    s = sec or sections(p, nx)
    if restart:
        s = {k: dict(v) for k, v in s.items()}
        s["Problem"] = {"restart": "true", "restart_file": restart}
    P = (p.gamma - 1) * p.E[0]
    return run_app(exe, d, s, np=np, init=[p.rho] * nx + [0.0] * nx + [P] * nx, script=script(p, start, rank), timeout=60)


def record(p, r, what, start=None):
    """start: (iteration, time text, number of the file) of a restart"""
    files = []
    for h in read_h5([os.path.join(r.outdir, f) for f in r.files if f.startswith(r.prefix + "_")]):
        if h.get("error"):
            raise Violation("an output file cannot be read", {"file": h["file"]})
        ds = h["datasets"]
        files.append({"number": int(re.search(r"_(\d+)\.h5$", h["file"]).group(1)), "id": int(ds["output_id"]["data"][0]), "iter": int(ds["iter"]["data"][0]), "t": ds["current_time"]["data"][0]})
    steps = []
    i0 = start[0] if start else 0
    for e in r.logs[0]:
        if e["event"] == "step":
            n = i0 + len(steps)
            spent = p.job is not None and any(k <= n and h >= p.job and k > i0 for k, h in p.jumps.items())
            steps.append({"t": e["t"], "dt": e["dt"], "cfl": num(allowed(p, p.E[min(n, len(p.E) - 1)])), "spent": spent})
    m = re.search(r"Final time = (\S+)", r.out)
    final = files[-1]["t"] if files else (m.group(1) if m else "nan")
    plan = {"tini": num(p.tini), "tend": num(p.tend), "maxiter": p.maxiter, "every": p.every, "period": num(max(p.period, 0.0)), "first": num(p.first if p.first is not None else p.tini + p.period)}
    return {"what": what, "exact": p.exact, "plan": plan, "from": {"restart": bool(start), "iter": i0, "t": start[1] if start else num(p.tini), "id": start[2] if start else -1}, "steps": steps, "files": files, "final": final,
            "rc": str(r.rc), "err": r.err[-300:], "others": [[[e["t"], e["dt"]] for e in l if e["event"] == "step"] for l in r.logs[1:]]}
