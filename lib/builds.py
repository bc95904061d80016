"""Every program the checks build, so that setup can prepare them."""
import concurrent.futures as cf
import os

import build
import hydro
import mesh
from app import app_exe, h5json_exe


def config(name):
    """c2: Cartesian, 2 dimensions; s3p: spherical, 3 dimensions, point mass; m: enclosed mass; r: radiating gas"""
    geom = {"c": "Cartesian", "s": "Spherical"}[name[0]]
    return build.Config(int(name[1]), eos="RadGas" if "r" in name[2:] else "PerfectGas", geom=geom,
                        gravity="Point_mass" if "p" in name[2:] else "Internal_mass" if "m" in name[2:] else "Uniform")


APPS = ["c1", "c2", "c3", "s1", "s1p", "s1m", "s2", "s2p", "s2m", "s3", "s3p", "s3m", "c1r", "c2r", "s1r", "c1p"]


def apps(names):
    """the programs of several configurations, built at the same time"""
    names = list(dict.fromkeys(names))
    with cf.ThreadPoolExecutor(4) as ex:
        return dict(zip(names, ex.map(lambda n: app_exe(config(n)), names)))


def dual_exe():
    return build.build_solver("dual", build.Config(1), ["dual_driver.cpp"])


def mpilog():
    mc, ml = build.mpi_flags()
    return build.build_plain("libmpilog.so", [os.path.join(build.VERIF, "harness/mpilog.cpp")], extra_flags=mc + ["-fPIC"], links=["-shared"] + ml)


def everything():
    print(h5json_exe())
    for n, e in apps(APPS).items():
        print(n, e)
    print(dual_exe())
    for geom in ("Cartesian", "Spherical"):
        for n in (1, 2, 3):
            print(mesh.exe(n, geom))
            print(hydro.exe(n, geom))
    import setups
    setups.programs()
    print(mpilog())
