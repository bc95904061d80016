"""Runs of the real program whose every time step is recorded, as records of Scheme.tla."""
import math
import os

import hydro
from app import read_h5, run_app
from common import Violation
from hydro import log_uniform, num

BORDERS = ["X0_left", "X0_right", "X1_left", "X1_right", "X2_left", "X2_right"]
WORDS = ["X_left", "X_right", "Y_left", "Y_right", "Z_left", "Z_right"]
RECON = ("Constant", "VanLeer", "Minmod", "VanAlbada")
SOLVERS = ("HLL", "HLLC", "Low Mach")
AU = 1.0


class Scenario:
    """what a run needs: see make()"""

    def copy(self):
        s = Scenario()
        s.__dict__.update({k: (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v) for k, v in self.__dict__.items()})
        return s

    def sections(self):
        nd = self.ndim
        sec = {"Grid": {**{f"Nx{d}_glob": self.n[d] for d in range(3)}, "Nghost": self.ng}, "Run": {"t_end": num(self.t_end), "cfl": num(self.cfl)},
               "Output": {"iter_frequency": 1, "max_iter": self.iters}, "Hydro": {"reconstruction": self.recon, "riemann_solver": self.solver},
               "Perfect Gas": {"gamma": num(self.gamma), "mu": num(self.mu)}, "Passive Scalar": {"nfx": len(self.fx)},
               "Boundary Condition": {f"BC_{BORDERS[b]}": self.bc[b] for b in range(2 * nd)},
               "User step": {"user_step": self.user_step}, "Gravity": {"gx0": num(self.g[0]), "gx1": num(self.g[1]), "gx2": num(self.g[2]), "M": num(self.M)}}
        if self.t_ini:
            sec["Run"]["t_ini"] = num(self.t_ini)
        if self.prio:
            sec["Boundary Condition"]["priority"] = " ".join(WORDS[b] for b in self.prio)
        if self.pf is not None:
            sec["Pressure fix"] = {"pressure_fix": "On", "eps_pf": num(self.pf)}
        if self.x is not None:
            sec["Grid"]["type"] = "UserDefined"
        else:
            for d in range(3):
                sec["Grid"][f"x{d}min"] = num(self.ends[d][0])
                sec["Grid"][f"x{d}max"] = num(self.ends[d][1])
        for s, kv in self.extra.items():
            sec.setdefault(s, {}).update(kv)
        return sec

    def app(self):
        return list(reversed(self.prio)) if self.prio else list(range(2 * self.ndim))


def cells(n):
    return n[0] * n[1] * n[2]


def centre_coordinates(s):
    if s.x is not None:
        g = [s.ng if d < s.ndim else 0 for d in range(3)]
        return [[(s.x[d][i + g[d]] + s.x[d][i + g[d] + 1]) / 2 for i in range(s.n[d])] for d in range(3)]
    return [[s.ends[d][0] + (i + 0.5) * (s.ends[d][1] - s.ends[d][0]) / s.n[d] for i in range(s.n[d])] for d in range(3)]


def make(rng, cfg, n=None, nfx=None, kind=None, grid=None, bc=None, prio=None, gravity=None, iters=2, mach=None, jump=None, recon=None, solver=None):
    """a random scenario for the configuration named cfg (see builds.config)"""
    s = Scenario()
    s.cfg = cfg
    s.ndim = nd = int(cfg[1])
    s.geom = {"c": "Cartesian", "s": "Spherical"}[cfg[0]]
    s.ng = 2
    s.n = n or [rng.randint(*{1: (5, 9), 2: (3, 4), 3: (2, 3)}[nd]) if d < nd else 1 for d in range(3)]
    s.gas = "RadGas" if "r" in cfg[2:] else "PerfectGas"
    s.gamma = rng.choice((1.4, 5 / 3, rng.uniform(1.1, 2.5)))
    s.mu = rng.choice((1.0, rng.uniform(0.5, 3)))
    s.recon = recon or rng.choice(RECON)
    s.solver = solver or rng.choice(SOLVERS)
    s.cfl = rng.choice((0.4, rng.uniform(0.05, 0.45)))
    s.iters = iters
    s.t_end, s.t_ini = 1e30, 0.0
    s.user_step = "UserDefined"
    s.pf = rng.choice((None, None, 10 ** rng.uniform(-1.5, 1)))
    s.extra = {}
    # domain
    s.x = None
    L = 10 ** rng.uniform(-2, 2)
    if s.geom == "Cartesian":
        s.ends = [(a, a + L * rng.uniform(0.5, 2)) for a in (rng.uniform(-2, 2) * L for _ in range(3))]
        if cfg[2:3] == "p":
            # the point mass stays outside
            a = L * rng.uniform(2, 4)
            s.ends[0] = (a, a + L * rng.uniform(0.5, 2))
    else:
        # radii of all ghost cells stay positive, polar angles inside the sphere
        r0 = L * rng.uniform(0.8, 2)
        dr = r0 / (s.ng + 1.5)
        t0 = rng.uniform(0.7, 1.0)
        s.ends = [(r0, r0 + dr * s.n[0] * rng.uniform(0.4, 1.0)), (t0, t0 + 0.27 * s.n[1] * rng.uniform(0.5, 1.0)), (0.3, 0.3 + rng.uniform(0.2, 0.6) * s.n[2])]
        if s.ends[1][1] + s.ng * (s.ends[1][1] - t0) / s.n[1] > 3.0:
            s.ends[1] = (0.7, 0.7 + 2.0 * s.n[1] / (s.n[1] + s.ng))
    grid = grid or rng.choice(("even", "uneven"))
    if grid == "uneven":
        s.x = [hydro.uneven(rng, s.n[d], s.ng if d < nd else 0, *s.ends[d], spread=0.4 if s.geom == "Cartesian" else 0.15) for d in range(3)]
    # borders
    s.bc = list(bc) if bc else []
    while len(s.bc) < 2 * nd:
        k = rng.random()
        # periodic borders come in pairs here (a lone one is judged by P07)
        s.bc += ["Periodic", "Periodic"] if k < 0.35 else [rng.choice(("NullGradient", "Reflexive")), rng.choice(("NullGradient", "Reflexive"))]
    s.prio = rng.choice(([], rng.sample(range(2 * nd), 2 * nd))) if prio is None else prio
    # state
    m = cells(s.n)
    rho0, P0 = (log_uniform(rng, 1e-3, 1e3), log_uniform(rng, 1e-3, 1e5)) if s.gas == "PerfectGas" else hydro.gas_state(rng, "RadGas", s.gamma, s.mu)
    c0 = math.sqrt(s.gamma * P0 / rho0)
    if s.gas == "RadGas":
        c0 = math.sqrt(4 / 3 * P0 / rho0)
    kind = kind or rng.choice(("smooth", "random", "steps", "fast"))
    amp = jump if jump is not None else {"smooth": 0.2, "random": 0.5, "steps": 0.8, "fast": 0.3}[kind]
    mach = mach if mach is not None else {"smooth": 0.5, "random": 0.8, "steps": 0.6, "fast": 4.0}[kind]
    s.c0 = c0
    k3 = [[rng.uniform(-1, 1) for _ in range(3)] for _ in range(12)]

    def field(i):
        i %= 12
        if kind in ("smooth", "fast"):
            return [math.sin(6 * (k3[i][0] * (q % s.n[0]) / s.n[0] + k3[i][1] * ((q // s.n[0]) % s.n[1]) / s.n[1] + k3[i][2] * (q // (s.n[0] * s.n[1])) / s.n[2] + k3[i][0])) for q in range(m)]
        if kind == "steps":
            return [rng.choice((-1.0, 0.0, 1.0)) for _ in range(m)]
        return [rng.uniform(-1, 1) for _ in range(m)]

    s.rho = [rho0 * (1 + amp * v) for v in field(0)]
    base = [rng.choice((-1, 1)) * (mach if kind == "fast" else 0) * c0 for _ in range(nd)]
    s.u = [[base[d] + mach * (0.3 if kind == "fast" else 1) * c0 * v for v in field(1 + d)] for d in range(nd)]
    s.P = [P0 * (1 + amp * v) for v in field(4)]
    nfx = rng.choice((0, 1, 2)) if nfx is None else nfx
    s.fx = [[min(1.0, max(0.0, 0.5 + 0.5 * v)) for v in field(5 + k)] for k in range(nfx)]
    # gravity strong enough to matter in one step: g * crossing time ~ sound speed
    h = (s.ends[0][1] - s.ends[0][0]) / s.n[0]
    g0 = c0 * c0 / h if gravity is None else gravity * c0 * c0 / h
    s.field = {"p": "Point_mass", "m": "Internal_mass"}.get(cfg[2:3].replace("r", ""), "Uniform")
    s.g = [rng.uniform(-0.4, 0.4) * g0 for _ in range(3)]
    if gravity is None and rng.random() < 0.3:
        s.g = [0.0] * 3
    r0 = abs(s.ends[0][0]) + 3 * h
    s.M = 0.2 * g0 * r0 * r0 / 6.6743015e-11 * rng.uniform(0.2, 1) if s.field != "Uniform" else 0.0
    if s.field == "Internal_mass":
        # the enclosed mass matters too
        want = 0.2 * g0 * r0 * r0 / 6.6743015e-11
        have = 4 / 3 * math.pi * (s.ends[0][1] ** 3 - s.ends[0][0] ** 3) * rho0
        f = want / have
        # rescale units of mass: density and pressure together keep the sound speed
        s.rho = [v * f for v in s.rho]
        s.P = [v * f for v in s.P]
    return s


def init_of(s):
    out = list(s.rho)
    for d in range(s.ndim):
        out += s.u[d]
    out += s.P
    for f in s.fx:
        out += f
    return out


def run(exe, d, s, np=1, layout=None, env=None, timeout=120, sections=None, keep_dir=False, script=None):
    sec = sections or s.sections()
    if layout:
        sec = {k: dict(v) for k, v in sec.items()}
        sec["Parallelization"] = {f"mpi_dims_cart_x{i}": layout[i] for i in range(3)}
    grid = None
    if s.x is not None:
        grid = [v for l in s.x for v in l]
    return run_app(exe, d, sec, np=np, init=init_of(s), grid=grid, env=env, timeout=timeout, keep_dir=keep_dir, script=script)


def outputs(r, text=True):
    """the files of a run as global interior fields (text of doubles), oldest first"""
    outs = []
    for h in read_h5([os.path.join(r.outdir, f) for f in r.files if f.startswith(r.prefix)]):
        if h.get("error"):
            raise Violation("an output file cannot be read", {"file": h["file"]})
        ds = h["datasets"]
        o = {"file": h["file"], "x": [ds["x0"]["data"], ds["x1"]["data"], ds["x2"]["data"]]}
        for k, v in ds.items():
            if k in ("x0", "x1", "x2"):
                continue
            o[k] = v["data"]
            o[k + ".shape"] = v["shape"]
        o["attributes"] = h["attributes"]
        outs.append(o)
    return outs


def state_of(s, o):
    k = 0
    fx = []
    while f"fx{k}" in o:
        fx.append(o[f"fx{k}"])
        k += 1
    return {"rho": o["rho"], "u": [o[f"u{d}" if f"u{d}" in o else f"ux{d}"] for d in range(s.ndim)], "P": o["P"], "E": o["E"], "fx": fx}


def scheme_record(s, x, before, after, dt, what):
    field = {"kind": s.field}
    if s.field == "Uniform":
        field["g"] = [num(v) for v in s.g]
    else:
        field["M"] = num(s.M)
    return {"what": what, "geom": s.geom, "ndim": s.ndim, "n": s.n, "ng": s.ng, "x": x, "gas": s.gas, "gamma": num(s.gamma), "mu": num(s.mu), "recon": s.recon, "solver": s.solver, "field": field,
            "bc": s.bc, "app": s.app(), "dt": dt, "pf": "off" if s.pf is None else num(s.pf), "user": {"kind": "none"}, **before, "after": after}


def steps(s, r):
    """one record per step of the run"""
    # a step may end with an invalid energy: the program stops at the beginning of the next one (judged by P18)
    stopped = r.rc == 1 and "invalid volumic internal energy" in r.err
    if r.rc != 0 and not stopped:
        raise Violation("the program did not survive a valid run", {"dir": r.dir, "rc": r.rc, "stderr": r.err[-800:], "sections": s.sections()})
    outs = outputs(r)
    ev = [e for e in r.logs[0] if e["event"] == "step"]
    if len(outs) != len(ev) + 1 + stopped:
        raise Violation("not one output per step", {"outputs": len(outs), "steps": len(ev), "sections": s.sections()})
    recs = []
    for k, e in enumerate(ev):
        recs.append(scheme_record(s, outs[k]["x"], state_of(s, outs[k]), state_of(s, outs[k + 1]), e["dt"], f"{s.cfg} {s.recon} {s.solver} {s.n} {s.bc} step {k + 1}"))
    return recs
