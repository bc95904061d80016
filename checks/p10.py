"""P10: Riemann solvers."""
import random

import hydro
import mesh
from app import parallel
from common import Raw
from hydro import log_uniform, num, nums

SOLVERS = ("HLL", "HLLC", "Low Mach")


def prim(rng, ndim, rho, P, gamma, mach):
    c = (gamma * P / rho) ** 0.5
    return [rho] + [rng.choice((-1, 1)) * c * m for m in mach[:ndim]] + [P]


def pairs(rng, ndim, gas, gamma, mu, n):
    """pairs of states: anything, equal, contacts, supersonic, strong jumps, rest, almost equal"""
    for _ in range(n):
        kind = rng.randrange(9)
        rho, P = hydro.gas_state(rng, gas, gamma, mu)
        mach = [rng.choice((0, log_uniform(rng, 1e-4, 30), rng.uniform(0, 2))) for _ in range(3)]
        l = prim(rng, ndim, rho, P, gamma, mach)
        if kind == 0:
            r = list(l)
        elif kind == 1:  # contact
            r = list(l)
            r[0] *= log_uniform(rng, 1e-3, 1e3)
            if rng.random() < 0.5:
                for i in range(ndim):
                    l[1 + i] = r[1 + i] = 0.0
        elif kind == 2:  # almost equal
            r = [x * (1 + rng.uniform(-1e-6, 1e-6)) for x in l]
        elif kind == 3:  # both fast in the same direction
            s = rng.choice((-1, 1))
            k = rng.uniform(1.5, 10) * (gamma * P / rho) ** 0.5 * 3
            f = rng.uniform(0.3, 3)
            r = [l[0] * rng.uniform(0.3, 3)] + [s * k * rng.uniform(0.8, 1.2) for _ in range(ndim)] + [P * f]
            l = [l[0] * 1.0] + [s * k * rng.uniform(0.8, 1.2) for _ in range(ndim)] + [P]
        elif kind == 4:  # opposed
            r = [l[0]] + [-x for x in l[1:-1]] + [l[-1]]
        elif kind == 5:  # slow flows
            c = (gamma * P / rho) ** 0.5
            l = [rho] + [c * rng.uniform(-1, 1) * 1e-3 for _ in range(ndim)] + [P]
            r = [rho * rng.uniform(0.9, 1.1)] + [c * rng.uniform(-1, 1) * 1e-3 for _ in range(ndim)] + [P * (1 + rng.uniform(-1, 1) * 1e-4)]
        else:
            r = prim(rng, ndim, rho * log_uniform(rng, 1e-2, 1e2), P * log_uniform(rng, 1e-2, 1e2), gamma, [rng.uniform(0, 3) for _ in range(3)])
        yield l, r


def check(c):
    c.model("RiemannModel", constants={"Rhos": ["1", "0.125", "30"][:c.pick(2, 3)], "Speeds": c.pick(["-4", "0", "0.4"], ["-4", "-0.4", "0", "0.4", "4"]), "Pressures": ["1", "0.1"][:c.pick(2, 2)], "Gases": {"PerfectGas"}},
            invariants=("Qualities",), name="RiemannModel")
    rng = random.Random(c.seed)
    tasks = []
    for ndim in (1, 2, 3):
        exe = hydro.exe(ndim)
        cases = []
        for gas in ("PerfectGas", "RadGas"):
            for solver in SOLVERS:
                for d in range(ndim):
                    gamma, mu = rng.choice((1.4, 5 / 3, rng.uniform(1.05, 3))), rng.choice((1.0, 0.6, rng.uniform(0.5, 4)))
                    for l, r in pairs(rng, ndim, gas, gamma, mu, c.pick(120 if gas == "PerfectGas" else 30, 1500 if gas == "PerfectGas" else 400)):
                        cases.append((gas, solver, d, gamma, mu, l, r))
        tasks.append((ndim, exe, cases))

    def one(t):
        ndim, exe, cases = t
        jobs = ["flux %s %s %s %s %d %s %s" % (g, num(ga), num(mu), s.replace("Low Mach", "LowMach"), d, nums(l), nums(r)) for g, s, d, ga, mu, l, r in cases]
        res = mesh.run_jobs(c, exe, 1, jobs, f"flux{ndim}")
        return [dict(x[0], gas=k[0], solver=k[1], dir=k[2] + 1, gamma=num(k[3]), mu=num(k[4]), job=j) for x, k, j in zip(res, cases, jobs)]

    recs = [r for rs in parallel(one, tasks, 3) for r in rs]
    c.sample({"job": recs[7]["job"], "flux": recs[7]["F"]})
    c.conform("RiemannTrace", recs, what="calls of the Riemann solvers")
    c.assumptions = ["states with densities within 1e-8 to 1e6, pressure ratios up to 1e4 and Mach numbers up to 90"]
