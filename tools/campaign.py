#!/usr/bin/env python3
"""campaign.py SEED COUNT [file substring [first]]: random small changes of /repo's sources, each judged by the
checks of the properties that speak about the file; prints those that no check sees (development aid)."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [
    ("ini.c", "P01"), ("INIReader.cpp", "P01 P02"), ("param.cpp", "P03"), ("boundary.cpp", "P07"), ("boundary_distribute.cpp", "P06 P07 P28 P08"),
    ("boundary_factory", "P22 P07"), ("boundary.hpp", "P07 P22"), ("broadcast.cpp", "P28 P22"), ("integration.cpp", "P08 P09"), ("internal_energy.cpp", "P18 P08"),
    ("temperature.hpp", "P15 P12"), ("dual_view.hpp", "P17"), ("gravity.cpp", "P19"), ("gravity.hpp", "P19"), ("array_conversion", "P12 P26"),
    ("euler_equations", "P12 P10 P26"), ("extrapolation_rec", "P26"), ("face_reconstruction", "P11 P22"), ("godunov_scheme", "P26 P09 P22"),
    ("hydro_reconstruction", "P26 P11"), ("limited_linear", "P11"), ("pressure_fix", "P26 P23"), ("riemann_solver", "P10"), ("slope_limiters", "P11"),
    ("source_terms", "P26"), ("time_step.hpp", "P21"), ("io.cpp", "P15 P14 P28"), ("config.yaml.cpp", "P15 P14"), ("io_hdf5", "P28 P14"), ("geometry.cpp", "P24"),
    ("geometry_factory", "P24 P22"), ("grid.cpp", "P04 P24 P06 P28"), ("grid_type.cpp", "P24 P22"), ("grid_factory", "P22 P24"), ("range.", "P05"),
    ("moving_grid.cpp", "P16"), ("src/main.cpp", "P13 P14 P15 P16 P18 P22 P27 P26 P07 P03"), ("mpi_scope_guard", "P28"), ("perfect_gas", "P12"), ("rad_gas", "P12"),
    ("units.hpp", "P12 P19 P27"), ("user_step.cpp", "P27"), ("user_step_factory", "P22 P27"), ("int_cast", "P28"), ("kronecker", "P26 P09"), ("print_info", "P28"),
    ("default_boundary", "P22 P07"), ("default_grid", "P22"), ("default_setup", "P22"), ("default_user", "P22"), ("default_shift", "P22 P16"), ("shift_criterion", "P16"), ("setups/advection_gap/setup", "P29"), ("src/setups/", "P29"),
]
SWAPS = [("primL", "primR"), ("consL", "consR"), ("wsL", "wsR"), ("cL", "cR"), ("fluxL", "fluxR"), ("i_p", "i"), ("j_p", "j"), ("k_p", "k"), ("i_m", "i"), ("fmin", "fmax"), ("min", "max"),
         ("rho_new", "rho"), ("E_new", "E"), ("rhou_new", "rhou"), ("idim", "0"), ("idr", "idim"), ("i", "j"), ("j", "k"), ("x0", "x1"), ("x1", "x2"), ("dx0", "dx1"), ("begin", "end"), ("true", "false"),
         ("no_ghosts", "all_ghosts"), ("read_only", "discard_write"), ("read_write", "discard_write"), ("device", "host"), ("Nx_local_ng", "Nx_local_wg"), ("Nx_glob_ng", "Nx_local_ng"), ("MPI_SUM", "MPI_MAX"), ("MPI_MIN", "MPI_MAX"),
         ("sin", "cos"), ("iter_output_id", "time_output_id"), ("t", "dt"), ("dt", "t"), ("iter", "output_id"), ("comm_cart", "comm_cart_horizontal"), ("x0_center", "x0"), ("left", "right")]


def candidates(path):
    """(line number, new line, what)"""
    out = []
    lines = open(path).read().split("\n")
    body = False
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith(("#", "//", "/*", "*", "namespace", "using", "template", "throw", "print_info", "std::cout", "ss <<", "assert", "KOKKOS_ASSERT", "static_assert", "class ", "struct ", "public", "private")) or not s:
            continue
        code = l.split("//")[0]
        if code.count('"') % 2 or '"' in code and "Get" not in code and "==" not in code:
            continue

        def put(a, b, new, what):
            out.append((n, l[:a] + new + l[b:], what))
        for a, b in ((" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" + ", " - "), (" - ", " + "), (" * ", " / "), (" / ", " * "), (" && ", " || "), (" || ", " && "), (" += ", " -= "), (" -= ", " += "), (" *= ", " /= ")):
            for m in re.finditer(re.escape(a), code):
                put(m.start(), m.end(), b, a.strip() + "->" + b.strip())
        for m in re.finditer(r"(?<![\w.\"])(\d+)(?![\w.\"])", code):
            v = int(m.group(1))
            for w in {v + 1, max(v - 1, 0)} - {v}:
                put(m.start(), m.end(), str(w), "%d->%d" % (v, w))
        for m in re.finditer(r"(?<![\w.])(\d+\.\d*)(?![\w])", code):
            put(m.start(), m.end(), "(2 * %s)" % m.group(1), m.group(1) + " doubled")
        for x, y in SWAPS:
            for u, v in ((x, y), (y, x)):
                if u == "0":
                    continue
                for m in re.finditer(r"(?<!\w)" + u + r"(?!\w)", code):
                    put(m.start(), m.end(), v, u + "->" + v)
        if re.match(r"\s+[\w(\[\]).,>:<*& -]+(=|\()[^;]*;$", code) and not re.match(r"\s*(return|auto|double|int|bool|unsigned|Kokkos::Array|Euler|KV|KDV|std::\w+ |for|if|char|FILE|size_t|static|MPI_Comm )", code):
            out.append((n, "", "deleted"))
        m = re.match(r"(\s*)(else )?if \((.*)\) \{$", code)
        if m:
            out.append((n, "%s%sif (!(%s)) {" % (m.group(1), m.group(2) or "", m.group(3)), "negated"))
            out.append((n, "%s%sif (false && (%s)) {" % (m.group(1), m.group(2) or "", m.group(3)), "never"))
    return lines, out


def main():
    seed, count = int(sys.argv[1]), int(sys.argv[2])
    only = sys.argv[3] if len(sys.argv) > 3 else ""
    first = int(sys.argv[4]) if len(sys.argv) > 4 else 0
    rng = random.Random(seed)
    files = []
    for root in ("/repo/src", "/repo/vendor/inih/src"):
        for d, dirs, names in os.walk(root):
            for f in names:
                p = os.path.join(d, f)
                if f.endswith((".c", ".cpp", ".hpp")) and only in p and any(k in p for k, _ in PROPS):
                    files.append(p)
    allc = {p: candidates(p) for p in sorted(files)}
    weights = {p: len(c[1]) ** 0.6 for p, c in allc.items()}
    names = [p for p in sorted(files) if allc[p][1]]
    work = tempfile.mkdtemp(prefix="camp", dir="/tmp")
    stats = {}
    try:
        for x in ("src", "vendor", "inputs"):
            shutil.copytree("/repo/" + x, work + "/" + x)
        for number in range(count):
            p = rng.choices(names, [weights[q] for q in names])[0]
            lines, cs = allc[p]
            n, new, what = rng.choice(cs)
            if number < first:
                continue
            rel = os.path.relpath(p, "/repo")
            text = list(lines)
            text[n] = new
            dst = os.path.join(work, rel)
            open(dst, "w").write("\n".join(text))
            props = max((len(k), v) for k, v in PROPS if k in p)[1].split()
            verdict, by = "MISSED", ""
            t0 = time.time()
            for q in props:
                env = dict(os.environ, HCL_REPO=work, HCL_BUILD=os.environ.get("HCL_BUILD", "/tmp/campbuild"), VERIF_SEED="1", VERIF_TIER="quick")
                try:
                    r = subprocess.run([sys.executable, VERIF + "/check.py", q], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                except subprocess.TimeoutExpired:
                    verdict, by = "TIMEOUT", q
                    break
                if r.returncode == 1:
                    verdict, by = "caught", q
                    break
                if r.returncode != 0:
                    verdict, by = ("nobuild" if "compilation of" in r.stdout or "link of" in r.stdout else "ERROR"), q + (" " + r.stdout[-300:].replace("\n", " ") if "compilation of" not in r.stdout else "")
                    break
            if verdict in ("MISSED", "ERROR") and "note:" in r.stdout:
                print(r.stdout[-500:])
            print("%-8s %-4s %4.0fs %s:%d %s | %s => %s" % (verdict, by, time.time() - t0, rel, n + 1, what, lines[n].strip(), new.strip()), flush=True)
            stats[verdict] = stats.get(verdict, 0) + 1
            shutil.copy(p, dst)
    finally:
        shutil.rmtree(work, ignore_errors=True)
        print(stats, flush=True)


main()
