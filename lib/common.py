"""Shared machinery of the checks: TLC runs, violation reports, evidence."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import hashlib
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"


class ModelError(Exception):
    """the model or the machinery failed: neither a pass nor a violation"""


class Violation(Exception):
    def __init__(self, msg, replay=None):
        super().__init__(msg)
        self.replay = replay or {}


class TlcResult:
    def __init__(self, out, rc, generated, distinct, wall):
        self.out, self.rc, self.generated, self.distinct, self.wall = out, rc, generated, distinct, wall
        self.violated = None

    def printed(self, tag):
        """values printed by PrintT(<<tag, json-string>>) decoded"""
        res = []
        for m in re.finditer(r'<<\s*"%s",\s*"((?:[^"\\]|\\.)*)"\s*>>' % re.escape(tag), self.out, re.S):
            res.append(json.loads(json.loads('"' + m.group(1).replace("\n", "") + '"')))
        return res


_java_lock = threading.Lock()


def java_classes():
    """RealArith.java and friends, compiled on demand"""
    with _java_lock:
        srcs = [os.path.join(VERIF, "tla", f) for f in sorted(os.listdir(os.path.join(VERIF, "tla"))) if f.endswith(".java")]
        h = hashlib.sha256(b"".join(open(s, "rb").read() for s in srcs)).hexdigest()[:16]
        d = os.path.join(BUILD, "java-" + h)
        if not os.path.isdir(d):
            tmp = d + ".tmp%d" % os.getpid()
            os.makedirs(tmp, exist_ok=True)
            r = subprocess.run(["javac", "-nowarn", "-cp", JAR + ":" + CM, "-d", tmp] + srcs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise ModelError("javac failed: " + r.stdout[-3000:])
            try:
                os.rename(tmp, d)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
        return d


def _tla_const(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(_tla_const(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(_tla_const(x) for x in sorted(v)) + "}"
    raise ModelError("constant %r" % (v,))


class Raw(str):
    """TLA+ text for a constant"""


def tlc(workdir, module, constants=None, spec="Spec", init=None, invariants=(), properties=(), postcondition=None,
        env=None, workers=8, timeout=600, deadlock=False, constraint=None, view=None, heap="6g", extra=(), name=None):
    """Runs TLC on /verif/tla/<module>.tla with the given constants (through an MC module)."""
    wd = os.path.join(workdir, "tlc-" + (name or module))
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    mc = "MC_" + module
    defs, cfg = [], []
    for k, v in (constants or {}).items():
        text = v if isinstance(v, Raw) else _tla_const(v)
        defs.append(f"const_{k} == {text}")
        cfg.append(f"CONSTANT {k} <- const_{k}")
    with open(os.path.join(wd, mc + ".tla"), "w") as f:
        f.write(f"---- MODULE {mc} ----\nEXTENDS {module}\n" + "\n".join(defs) + "\n====\n")
    lines = [f"SPECIFICATION {spec}"] + cfg
    lines += [f"INVARIANT {i}" for i in invariants]
    lines += [f"PROPERTY {p}" for p in properties]
    if postcondition:
        lines.append(f"POSTCONDITION {postcondition}")
    if constraint:
        lines.append(f"CONSTRAINT {constraint}")
    if view:
        lines.append(f"VIEW {view}")
    lines.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
    with open(os.path.join(wd, mc + ".cfg"), "w") as f:
        f.write("\n".join(lines) + "\n")
    cmd = ["java", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + wd, "-XX:+UseParallelGC", "-DTLA-Library=" + os.path.join(VERIF, "tla"),
           "-cp", java_classes() + ":" + JAR + ":" + CM, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
           "-metadir", os.path.join(wd, "meta"), "-config", mc + ".cfg"] + list(extra) + [mc + ".tla"]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update({k: str(v) for k, v in (env or {}).items()})
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ModelError(f"TLC on {module}: timeout after {timeout} s")
    out = r.stdout
    with open(os.path.join(wd, "out.txt"), "w") as f:
        f.write(out)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    res = TlcResult(out, r.returncode, gen, dist, time.time() - t0)
    shutil.rmtree(os.path.join(wd, "meta"), ignore_errors=True)
    if "Model checking completed. No error has been found." in out and r.returncode == 0:
        return res
    m = re.search(r"Error: (Invariant (\S+) is violated|Action property (\S+) is violated|.*[Pp]ostcondition.*(violated|false).*|Temporal properties were violated|Deadlock reached)", out)
    if m and "Attempted to" not in out and "evaluating" not in out.split(m.group(0))[0][-400:]:
        res.violated = m.group(1)
        return res
    keep = [l for l in out.splitlines() if not l.startswith(("Loading", "Semantic", "Parsing", "Linting"))]
    raise ModelError(f"TLC on {module} failed (rc {r.returncode}):\n" + "\n".join(keep)[-4000:])


def write_ndjson(path, records):
    with open(path, "w") as f:
        for r in records:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")


class Check:
    """One run of one property's check."""

    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.dir = os.path.join(BUILD, "run", f"{pid}-{os.getpid()}")
        os.makedirs(self.dir, exist_ok=True)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        cache = os.path.join(BUILD, "cache")
        self.warm = len(os.listdir(cache)) if os.path.isdir(cache) else 0
        self.samples = []
        self.details = {}
        self.assumptions = []
        self.known_found = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def count(self, res):
        self.states += res.distinct
        self.transitions += res.generated

    def model(self, module, **kw):
        """exhaustive check of a design module; a violation here is an error of the model"""
        res = tlc(self.dir, module, **kw)
        if res.violated:
            raise ModelError(f"{module}: {res.violated}\n" + res.out[-3000:])
        self.count(res)
        d = self.details.setdefault("models", [])
        d.append({"module": kw.get("name") or module, "states": res.distinct, "transitions": res.generated, "seconds": round(res.wall, 1)})
        return res

    def conform(self, module, records, ntraces=None, what="", describe=None, case_of=None, workers=8, **kw):
        """Validates recorded behaviours against <module>: TLC must accept every record.

        The module reads the ndjson file named by the environment variable TRACE and
        prints <<"REJECTED", json>> for what it does not accept before it violates
        its invariant Conforms."""
        path = os.path.join(self.dir, (kw.get("name") or module) + ".ndjson")
        write_ndjson(path, records)
        env = dict(kw.pop("env", {}) or {})
        env["TRACE"] = path
        inv = kw.pop("invariants", ("Conforms",))
        res = tlc(self.dir, module, env=env, invariants=inv, workers=workers, **kw)
        if res.violated:
            m = re.search(r"(?m)(?:^|/\\ ?)c = (\d+)", res.out)
            idxs = re.findall(r"(?m)(?:^|/\\ ?)c = (\d+)", res.out)
            idx = int(idxs[-1]) if idxs else None
            rec = records[idx - 1] if idx and idx <= len(records) else None
            rej = re.findall(r'<<\s*"REJECTED".*?>>\n', res.out, re.S)
            tail = res.out[res.out.find("Error: "):][:6000]
            raise Violation(f"{what or module}: {res.violated}", {"module": module, "record": rec, "rejected": rej[-3:], "tlc": tail, "constants": {k: str(v) for k, v in (kw.get("constants") or {}).items()}})
        self.count(res)
        self.traces += ntraces if ntraces is not None else len(records)
        d = self.details.setdefault("conformance", [])
        d.append({"module": kw.get("name") or module, "what": what, "records": len(records), "states": res.distinct, "seconds": round(res.wall, 1)})
        return res

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def evidence(self, violations=0, extra=None):
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "samples": self.samples or ["none"],
        }
        cov.update(self.details)
        if self.known_found:
            cov["known_findings"] = self.known_found
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": "model_checking",
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "reused_objects": self.warm,
            "violations": violations,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def run_exe(cmd, stdin=None, timeout=120, env=None, cwd=None, binary=False):
    """(rc, stdout, stderr); rc = 'timeout' when it did not end"""
    e = dict(os.environ)
    e.setdefault("LC_ALL", "C.UTF-8")
    e["OMPI_ALLOW_RUN_AS_ROOT"] = "1"
    e["OMPI_ALLOW_RUN_AS_ROOT_CONFIRM"] = "1"
    e["OMPI_MCA_rmaps_base_oversubscribe"] = "1"
    e["OMPI_MCA_btl_vader_single_copy_mechanism"] = "none"
    e["OMPI_MCA_btl"] = "self,vader"
    e["OMPI_MCA_hwloc_base_binding_policy"] = "none"
    e["OMPI_MCA_ess_singleton_isolated"] = "1"
    e["OMPI_MCA_pml"] = "ob1"
    # the default collective writer of this Open MPI (vulcan) sometimes corrupts small datasets
    e["OMPI_MCA_io"] = "romio321"
    # more processes than cores: do not spin
    e["OMPI_MCA_mpi_yield_when_idle"] = "1"
    tmp = tempfile.mkdtemp(prefix="hv")
    e["TMPDIR"] = tmp
    e.update(env or {})
    try:
        return _run_exe(cmd, stdin, timeout, e, cwd, binary)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _end_session(p):
    """mpirun puts its processes into groups of their own: ask it to end them, then end what is left of the session"""
    import signal
    p.terminate()
    try:
        p.wait(5)
    except subprocess.TimeoutExpired:
        pass
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                with open(f"/proc/{d}/stat") as f:
                    if int(f.read().rsplit(")", 1)[1].split()[3]) == p.pid:
                        os.kill(int(d), signal.SIGKILL)
            except (OSError, IndexError, ValueError):
                pass


def _run_exe(cmd, stdin, timeout, e, cwd, binary):
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd, text=not binary, start_new_session=True, **({} if binary else {"errors": "replace"}))
    try:
        o, er = p.communicate(stdin, timeout=timeout)
        return p.returncode, o, er
    except subprocess.TimeoutExpired:
        _end_session(p)
        o, er = p.communicate()
        return "timeout", o, er


def main(pid, func):
    """Runs func(check); confirms a rejection by a second run before reporting it."""
    from build import BuildError
    viol = None
    for attempt in (1, 2):
        c = Check(pid)
        try:
            func(c)
            if viol is not None:
                print(f"note: a rejection was not repeated ({viol}); run again", file=sys.stderr)
                # neither confirmed nor refuted: a third run decides
                c.cleanup()
                c = Check(pid)
                func(c)
            c.evidence()
            c.cleanup()
            print(f"OK property={pid} warm={c.warm} tier={c.tier} states={c.states} transitions={c.transitions} traces={c.traces} wall={time.time()-c.t0:.1f}s")
            return 0
        except Violation as v:
            if attempt == 1 and viol is None:
                viol = v
                c.cleanup()
                continue
            rp = os.path.join(BUILD, "replay", f"{pid}.json")
            os.makedirs(os.path.dirname(rp), exist_ok=True)
            with open(rp, "w") as f:
                json.dump({"property": pid, "message": str(v), "replay": v.replay}, f, indent=1, default=str)
            try:
                c.sample({"violation": str(v)})
                c.evidence(violations=1)
            except Exception:
                pass
            print(str(v)[:2000])
            print(f"VIOLATION property={pid} replay={rp}")
            c.cleanup()
            return 1
        except BuildError as b:
            print("BUILD-ERROR: " + str(b)[:6000], file=sys.stderr)
            return 3
        except ModelError as m:
            print("MODEL-ERROR: " + str(m)[:6000], file=sys.stderr)
            return 2
        except Exception:
            import traceback
            traceback.print_exc()
            c.cleanup()
            if attempt == 1:
                continue
            return 4
