"""The problems shipped with the solver, as programs of their own."""
import concurrent.futures as cf

import build

# configurations of test/setups.yaml, and a few more the setups allow
CONFIGS = {"advection_gap": ["c1"], "advection_sinus": ["c1"], "eq_hydro_sphe": ["s1p"], "gresho_vortex": ["c2"], "heat_nickel": ["c2"], "implosion_test": ["c2"], "kelvin_helmholtz": ["c2"],
           "rayleigh_taylor": ["c2"], "rayleigh_taylor3d": ["c3"], "sedov1d": ["c1", "s1"], "sedov2d": ["c2"], "sedov3d": ["s3"], "shock_tube": ["c1", "s1", "s2", "s3"], "shock_wall": ["c1", "c1r"],
           "stratified_atm": ["c1", "c2"], "v1d": ["s1pr", "s2pr", "s3pr"]}
DRIVEN = [("stratified_atm", "c1"), ("stratified_atm", "c2"), ("eq_hydro_sphe", "s1p"), ("v1d", "s1pr"), ("v1d", "s3pr")]
PAIRS = [(n, c) for n in CONFIGS for c in CONFIGS[n]]


def app(name, cfg):
    import builds
    return build.build_solver("setup-" + name, builds.config(cfg), ["h5watch.cpp"], with_main=True, setup=name)


def driver(name, cfg):
    import builds
    return build.build_solver("driver-" + name, builds.config(cfg), ["setup_driver.cpp"], setup=name)


def programs():
    """({(name, configuration): program}, {...: driver}, h5write)"""
    import os
    mc, ml = build.mpi_flags()
    with cf.ThreadPoolExecutor(4) as ex:
        w = ex.submit(build.build_plain, "h5write", [os.path.join(build.VERIF, "harness/h5write.cpp")], mc + build.HDF5_INC, ml + build.HDF5_LINK)
        a = list(ex.map(lambda t: app(*t), PAIRS))
        d = list(ex.map(lambda t: driver(*t), DRIVEN))
        return dict(zip(PAIRS, a)), dict(zip(DRIVEN, d)), w.result()
