"""P26: every cell of every recorded step is the update of the scheme."""
import scheme

CONFIGS = ["c1", "c2", "c3", "s1", "s2", "s3", "c1r"]


def rest(rng, s):
    s.u = [[0.0] * len(s.rho) for _ in range(s.ndim)]
    s.P = [s.P[0]] * len(s.rho)
    s.g = [0.0] * 3
    s.pf = None


def check(c):
    # geometric sources are the integrals of the terms of the Euler equations in spherical coordinates
    c.model("CurvatureModel", constants={"Radii": {"0.5", "2"}, "Angles": c.pick({"0.4", "1.3"}, {"0.1", "0.4", "1.3", "2"}), "Widths": c.pick({"0.1"}, {"0.02", "0.1", "0.5"}), "Speeds": {"0", "1", "-0.6"}}, invariants=("Exact",))
    # a fluid at rest (with density jumps) and a uniform one stay so, in every geometry
    rests = {p: scheme.REST for p in scheme.ALL}
    scheme.models(c, properties=("RestStays",), places=scheme.ALL[4:] + c.pick(("square",), scheme.ALL[:4]), palettes=rests, kinds={"HLL", "HLLC", "Low Mach"}, closures=("Reflexive",), nsteps=c.pick(1, 3))
    scheme.models(c, properties=("RestStays", "UniformStays"), places=scheme.ALL[:c.pick(2, 4)], kinds={"HLL", "HLLC", "Low Mach"}, closures=("Periodic",), nsteps=c.pick(1, 2))
    scheme.validated(c, CONFIGS + c.pick([], ["c2r", "s1r", "s1p", "s1m", "s2p", "s2m", "s3p", "s3m"]), c.pick(7, 60), "time steps", iters=c.pick(2, 3))
    scheme.validated(c, ["s1", "s2", "s3", "c2"], c.pick(3, 20), "time steps of a resting fluid", tweak=rest, name="rest", gravity=0, iters=3)
    c.assumptions = ["Mach numbers up to about 6 and jumps of a factor 10 between neighbouring cells; the number of cells stays small (2 to 9 per direction)"]
