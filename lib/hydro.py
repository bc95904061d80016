"""Jobs of the hydro driver."""
import build


def exe(ndim, geom="Cartesian"):
    return build.build_solver("hydro", build.Config(ndim, geom=geom), ["hydro_driver.cpp"])


def num(x):
    return "%.17g" % x


def nums(xs):
    return " ".join(num(x) for x in xs)


def log_uniform(rng, lo, hi):
    import math
    return math.exp(rng.uniform(math.log(lo), math.log(hi)))


def uneven(rng, n, ng, lo, hi, spread=0.7):
    """face coordinates of n cells (and ng ghost cells on both sides) between lo and hi"""
    w = [rng.uniform(1 - spread, 1 + spread) for _ in range(n + 2 * ng)]
    s = (hi - lo) / sum(w[ng:ng + n])
    x = [lo - s * sum(w[:ng])]
    for v in w:
        x.append(x[-1] + s * v)
    return x


AR = 7.565723e-16
KB, MP = 1.380649e-23, 1.672649e-27


def gas_state(rng, kind, gamma, mu):
    """density and pressure in the regime where the gas law is interesting"""
    if kind == "PerfectGas":
        return log_uniform(rng, 1e-6, 1e4), log_uniform(rng, 1e-6, 1e8)
    rho = log_uniform(rng, 1e-8, 1e4)
    # radiation pressure between 1e-6 and 1e6 times the gas pressure
    ratio = log_uniform(rng, 1e-6, 1e6)
    T = (3 * ratio * rho * KB / (mu * MP) / AR) ** (1 / 3)
    return rho, rho * KB * T / (mu * MP) + AR * T ** 4 / 3
