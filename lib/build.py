"""Builds what the checks need, from /repo's current working tree.

Every translation unit of /repo/src (except main.cpp) is compiled against the
Kokkos and PDI stand-ins of /verif/shim; the harness adds its own units. Objects
are cached in /verif/build/cache under a hash of everything that can influence
them, so a changed tree is always recompiled.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import subprocess
import sys
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HCL_REPO", "/repo")
BUILD = os.environ.get("HCL_BUILD") or os.path.join(VERIF, "build")
CACHE = os.path.join(BUILD, "cache")
JOBS = max(2, os.cpu_count() or 8)


class BuildError(Exception):
    pass


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


_mpi_flags = None


def mpi_flags():
    global _mpi_flags
    if _mpi_flags is None:
        c = _run(["mpicxx", "--showme:compile"]).stdout.split()
        l = _run(["mpicxx", "--showme:link"]).stdout.split()
        _mpi_flags = (c, l)
    return _mpi_flags


HDF5_INC = ["-I/usr/include/hdf5/openmpi"]
HDF5_LINK = ["-L/usr/lib/x86_64-linux-gnu/hdf5/openmpi", "-lhdf5"]


def _write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    tmp = path + ".tmp%d-%d" % (os.getpid(), threading.get_ident())
    with open(tmp, "w") as f:
        f.write(text)
    os.replace(tmp, path)


def configure(path, values):
    text = open(path).read()
    return re.sub(r"@(\w+)@", lambda m: values.get(m.group(1), ""), text)


class Config:
    """One configuration of the solver: dimensions, equation of state, geometry, gravity."""

    def __init__(self, ndim=1, eos="PerfectGas", geom="Cartesian", gravity="Uniform", defines=(), opt="-O1", sanitize=False):
        self.ndim, self.eos, self.geom, self.gravity = ndim, eos, geom, gravity
        self.defines = list(defines)
        self.opt = opt
        self.sanitize = sanitize
        self.gen = os.path.join(BUILD, "gen", f"{ndim}_{eos}_{geom}")
        vals = {
            "Heraclespp_NDIM": str(ndim),
            "Heraclespp_EOS": eos,
            "Heraclespp_GEOM": geom,
            "GIT_BUILD_STRING": "verif-build",
            "GIT_BRANCH": "verif-branch",
            "DATE_STRING": "1970-01-01",
            "TIME_STRING": "00:00:00",
        }
        utils = os.path.join(REPO, "src/utils")
        for f in sorted(os.listdir(utils)):
            if f.endswith(".in"):
                _write_if_changed(os.path.join(self.gen, f[:-3]), configure(os.path.join(utils, f), vals))

    def include_flags(self):
        dirs = []
        for d, sub, files in os.walk(os.path.join(REPO, "src")):
            sub.sort()
            if "setups" in sub:
                sub.remove("setups")
            dirs.append(d)
        inc = [f"-I{self.gen}", f"-I{VERIF}/shim", f"-I{VERIF}/harness"] + [f"-I{d}" for d in dirs]
        inc += [f"-I{REPO}/vendor/inih/include"] + HDF5_INC
        return inc

    def flags(self):
        fl = ["-std=c++20", self.opt, "-UNDEBUG", "-w", "-fno-fast-math", "-ffp-contract=off"]
        if self.sanitize:
            fl += ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-g1"]
        fl += [f"-D{d}" for d in self.defines]
        return fl

    def sources(self):
        """translation units of the solver library (everything but main.cpp)"""
        out = []
        root = os.path.join(REPO, "src")
        for d, sub, files in os.walk(root):
            sub.sort()
            if "setups" in sub:
                sub.remove("setups")
            for f in sorted(files):
                if f.endswith(".cpp") and not (d == root and f == "main.cpp"):
                    out.append(os.path.join(d, f))
        out.append(os.path.join(self.gen, "git_version.cpp"))
        for f in ("ini.c", "INIReader.cpp"):
            p = os.path.join(REPO, "vendor/inih/src", f)
            if os.path.exists(p):
                out.append(p)
        return out


def _hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(repr(p).encode())
    return h.hexdigest()[:32]


_file_hash = {}


def file_hash(path):
    if path not in _file_hash:
        try:
            _file_hash[path] = hashlib.sha256(open(path, "rb").read()).hexdigest()
        except OSError:
            _file_hash[path] = None
    return _file_hash[path]


_names = None


def header_names():
    """every file name a compilation could pick up (a new header may hide another one)"""
    global _names
    if _names is None:
        h = hashlib.sha256()
        for root in (os.path.join(REPO, "src"), os.path.join(REPO, "vendor/inih"), os.path.join(VERIF, "shim"), os.path.join(VERIF, "harness")):
            for d, dirs, files in os.walk(root):
                dirs.sort()
                for f in sorted(files):
                    if not f.endswith((".cpp", ".c", ".md", ".txt", ".py", ".sh")):
                        h.update((d + "/" + f).replace(REPO, "@REPO@").encode())
        _names = h.hexdigest()
    return _names


def compile_unit(src, cmd_flags, gen=None):
    """object file of src; cached under the contents of every file it was made from.
    The place of the repository and of the generated headers does not matter."""
    def hide(p):
        if gen:
            p = p.replace(gen, "@GEN@")
        return p.replace(REPO, "@REPO@")

    def show(p):
        return p.replace("@REPO@", REPO).replace("@GEN@", gen or "")

    key = _hash(hide(src), [hide(f) for f in cmd_flags], header_names())
    os.makedirs(CACHE, exist_ok=True)
    dep = os.path.join(CACHE, key + ".json")
    try:
        known = json.load(open(dep))
    except (OSError, ValueError):
        known = []
    for e in known:
        if all(file_hash(show(p)) == h for p, h in e["deps"].items()) and os.path.exists(os.path.join(CACHE, e["obj"])):
            return os.path.join(CACHE, e["obj"])
    if src.endswith(".c"):
        cmd = ["gcc"] + [f for f in cmd_flags if not f.startswith("-std=")] + ["-c", src, "-o"]
    else:
        cmd = ["g++"] + cmd_flags + ["-c", src, "-o"]
    tmp = os.path.join(CACHE, key + ".tmp%d-%d.o" % (os.getpid(), threading.get_ident()))
    d = tmp[:-2] + ".d"
    r = _run(cmd + [tmp, "-MMD", "-MF", d])
    if r.returncode != 0:
        raise BuildError("compilation of %s failed\n%s" % (src, r.stdout[-6000:]))
    text = open(d).read().replace("\\\n", " ")
    os.unlink(d)
    deps = {hide(p): file_hash(p) for p in text.split(":", 1)[1].split() if not p.startswith("/usr/")}
    obj = hashlib.sha256(repr((key, sorted(deps.items()))).encode()).hexdigest()[:32] + ".o"
    os.replace(tmp, os.path.join(CACHE, obj))
    known = ([{"deps": deps, "obj": obj}] + [k for k in known if k["obj"] != obj])[:20]
    _write_if_changed(dep, json.dumps(known))
    return os.path.join(CACHE, obj)


def build(name, units, flags, links, gen=None):
    """units: list of source files, of (file, further flags) or of (file, further flags, flags that come first).
    Returns the executable's path."""
    units = [u if isinstance(u, tuple) else (u, []) for u in units]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda s: compile_unit(s[0], (list(s[2]) if len(s) > 2 else []) + flags + s[1], gen), units))
    key = _hash(objs, links)
    exe = os.path.join(BUILD, "bin", f"{name}-{key[:16]}")
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".tmp%d-%d" % (os.getpid(), threading.get_ident())
        r = _run(["g++"] + [f for f in flags if f.startswith("-fsanitize")] + objs + links + ["-o", tmp])
        if r.returncode != 0:
            raise BuildError("link of %s failed\n%s" % (name, r.stdout[-6000:]))
        os.replace(tmp, exe)
    return exe


_gravity_users = None


def gravity_users():
    """the files that look at the choice of gravity (only main.cpp, unless the code moved)"""
    global _gravity_users
    if _gravity_users is None:
        _gravity_users = set()
        for d, sub, files in os.walk(os.path.join(REPO, "src")):
            for f in files:
                if f.endswith((".cpp", ".hpp")) and "HERACLESPP_GRAVITY" in open(os.path.join(d, f), errors="replace").read():
                    _gravity_users.add(os.path.join(d, f))
    return _gravity_users


def build_solver(name, cfg, harness, with_main=False, extra_flags=(), omit=(), setup=None):
    """The whole solver library of /repo plus harness units (paths under /verif/harness); setup: a
    shipped setup (of src/setups) instead of the harness's own."""
    mc, ml = mpi_flags()
    flags = cfg.flags() + cfg.include_flags() + mc + list(extra_flags)
    choice = [f"-DHERACLESPP_GRAVITY_{cfg.gravity}", '-DMY_SETUP="verif"']
    main = os.path.join(REPO, "src/main.cpp")
    everywhere = choice if gravity_users() - {main} else []
    units = [(s, everywhere) for s in cfg.sources() if not any(s.endswith(o) for o in omit)]
    first = [f"-I{REPO}/src/setups/{setup}"] if setup else []
    if setup:
        choice[1] = f'-DMY_SETUP="{setup}"'
        units += [(os.path.join(VERIF, "harness", h), choice, first) for h in harness]
    else:
        units += [(os.path.join(VERIF, "harness", h), everywhere) for h in harness]
    if with_main:
        units.append((main, choice, first) if first else (main, choice))
    units.append((os.path.join(VERIF, "shim", "minipdi.cpp"), []))
    return build(name, units, flags, ml + HDF5_LINK, cfg.gen)


def build_solver_flags(cfg):
    mc, ml = mpi_flags()
    return cfg.flags() + cfg.include_flags() + mc, ml


def build_plain(name, units, extra_flags=(), links=(), includes=()):
    flags = ["-std=c++20", "-O1", "-UNDEBUG", "-w", f"-I{VERIF}/harness", f"-I{REPO}/vendor/inih/include"] + [f"-I{i}" for i in includes] + list(extra_flags)
    return build(name, list(units), flags, list(links))
