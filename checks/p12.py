"""P12: gas laws and state conversions."""
import random

import hydro
import mesh
from app import parallel
from hydro import log_uniform, num, nums

GASES = ("PerfectGas", "RadGas")


def check(c):
    rng = random.Random(c.seed)
    c.model("EosModel", constants={"Rhos": ["1e-6", "1", "1000"], "Temps": c.pick(["10", "1e5", "1e8"], ["0.1", "10", "1e4", "1e6", "1e8"]), "Gammas": ["1.1", "1.6666666666666667", "3"][:c.pick(2, 3)], "Mus": ["1", "0.6"][:c.pick(1, 2)]}, invariants=("Qualities",))
    tasks = []
    for ndim in (1, 2, 3):
        cases = []
        for gas in GASES:
            def consts():
                return rng.choice((1.4, 5 / 3, rng.uniform(1.01, 4))), rng.choice((1.0, 0.5, rng.uniform(0.4, 60)))
            if ndim == 1:
                for _ in range(c.pick(150, 2000)):
                    g, m = consts()
                    rho, P = hydro.gas_state(rng, gas, g, m)
                    T = log_uniform(rng, 1e-1, 1e9)
                    e = hydro.gas_state(rng, gas, g, m)[1] * rng.uniform(0.5, 3)
                    cases.append({"kind": "gas", "gas": gas, "gamma": num(g), "mu": num(m), "rho": num(rho), "P": num(P), "T": num(T), "e": num(e), "job": "gas %s %s %s %s" % (gas, num(g), num(m), nums((rho, P, T, e)))})
                bad = ["1", "0.9999999", "0", "-1.4", "nan", "inf", "-inf", "-nan", "1.0000000000000002"]
                for g in bad + ["1.4", "100"]:
                    cases.append({"kind": "ctor", "gas": gas, "gamma": g, "mu": "1", "job": f"ctor {gas} {g} 1"})
                for m in ["0", "-0.0", "-1", "nan", "inf", "-inf", "1e-300", "1e300", "0.5"]:
                    cases.append({"kind": "ctor", "gas": gas, "gamma": "1.4", "mu": m, "job": f"ctor {gas} 1.4 {m}"})
                vals = ["1", "0", "-0.0", "-1", "nan", "inf", "-inf", "1e-300", "1e300", "-1e-300", "5e-324"]
                for a in vals:
                    for b in vals:
                        cases.append({"kind": "valid", "gas": gas, "gamma": "1.4", "mu": "1", "a": a, "b": b, "job": f"valid {gas} 1.4 1 {a} {b}"})
            for _ in range(c.pick(60 if gas == "PerfectGas" else 30, 1500)):
                g, m = consts()
                rho, P = hydro.gas_state(rng, gas, g, m)
                s = (P / rho) ** 0.5
                u = [rng.choice((-1, 1)) * s * rng.choice((0, log_uniform(rng, 1e-6, 100), rng.uniform(0, 2))) for _ in range(ndim)]
                cases.append({"kind": "state", "gas": gas, "gamma": num(g), "mu": num(m), "w": {"rho": num(rho), "u": [num(x) for x in u], "P": num(P)}, "job": "state %s %s %s %s" % (gas, num(g), num(m), nums([rho] + u + [P]))})
            for _ in range(c.pick(10, 60)):
                g, m = consts()
                ng = rng.choice((0, 1, 2, 2, 3))
                k = rng.randint(0, ng)
                n = [rng.randint(1, {1: 8, 2: 3, 3: 2}[ndim]) if d < ndim else 1 for d in range(3)]
                w = [n[d] + 2 * ng if d < ndim else 1 for d in range(3)]
                q = w[0] * w[1] * w[2]
                back = rng.random() < 0.5
                st = [hydro.gas_state(rng, gas, g, m) for _ in range(q)]
                rho = [a for a, _ in st]
                v = [[rng.uniform(-2, 2) * (b / a) ** 0.5 for a, b in st] for _ in range(ndim)]
                s = [b for _, b in st]
                if back:  # conserved: momentum and an energy above the kinetic one
                    ek = [0.5 * st[i][0] * sum(v[d][i] ** 2 for d in range(ndim)) for i in range(q)]
                    s = [ek[i] + st[i][1] * 1.5 for i in range(q)]
                    v = [[v[d][i] * rho[i] for i in range(q)] for d in range(ndim)]
                cases.append({"kind": "arrays", "gas": gas, "gamma": num(g), "mu": num(m), "ndim": ndim, "ng": ng, "layers": k, "back": back, "rho": [num(x) for x in rho], "v": [[num(x) for x in l] for l in v], "s": [num(x) for x in s],
                              "job": "arrays %s %s %s %d %d %d %d %d %d " % (gas, num(g), num(m), *n, ng, k, back) + " ".join([nums(rho)] + [nums(l) for l in v] + [nums(s)])})
        tasks.append((ndim, hydro.exe(ndim), cases))

    def one(t):
        ndim, exe, cases = t
        res = mesh.run_jobs(c, exe, 1, [k["job"] for k in cases], f"eos{ndim}")
        recs = []
        for k, r in zip(cases, res):
            r = r[0]
            if k["kind"] == "ctor":
                recs.append(dict(k, refused="error" in r))
            elif k["kind"] == "valid":
                recs.append(dict(k, ok=r["ok"]))
            else:
                recs.append(dict(k, out=r))
        return recs

    recs = [r for rs in parallel(one, tasks, 3) for r in rs]
    c.sample({"job": recs[3]["job"], "sound": recs[3]["out"]["sound"]})
    c.conform("EosTrace", recs, what="calls of gas laws and conversions")
    c.assumptions = ["densities within 1e-8 to 1e4, temperatures within 1e-1 to 1e9 K or radiation-to-gas pressure ratios within 1e-6 to 1e6; gas with radiation compared to 1e-9 (its temperature is iterated to 1e-6 K)"]
