// The verification setup: initial state, grid, borders, user step and shift
// criterion are all read from files named in the [Verif] section, so that one
// build of the real main.cpp can be driven through any scenario.
#pragma once

#include <mpi.h>

#include <cassert>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <fstream>
#include <limits>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include <Kokkos_Core.hpp>
#include <eos.hpp>
#include <grid.hpp>
#include <inih/INIReader.hpp>
#include <kokkos_shortcut.hpp>
#include <ndim.hpp>
#include <param.hpp>
#include <range.hpp>

#include "boundary.hpp"
#include <grid_type.hpp>
#include <user_step.hpp>
#include "initialization_interface.hpp"
#include "shift_criterion_interface.hpp"

namespace verif {

struct Globals {
    std::string init_file, grid_file, log_file, script_file;
    int shift_every = 0, shift_from = 0, shift_calls = 0;
    std::string bc_mode;
    bool dump = false;
    long clock_hours = 0; // read by the interposed clock (clock.cpp)
    int step = 0;
    // script: what the user step does at its n-th call
    struct Action { int step; std::string what; std::vector<double> a; };
    std::vector<Action> script;
    std::FILE* log = nullptr;
    int nfx = 0;
    std::array<int, 3> N {1, 1, 1};
    std::array<int, 3> Nghost {0, 0, 0};
};
inline Globals& G()
{
    static Globals g;
    return g;
}
inline int rank()
{
    int r = 0;
    MPI_Comm_rank(MPI_COMM_WORLD, &r);
    return r;
}
inline std::string num(double x)
{
    if (std::isnan(x)) return "\"nan\"";
    if (std::isinf(x)) return x > 0 ? "\"inf\"" : "\"-inf\"";
    char b[40];
    std::snprintf(b, 40, "\"%.17g\"", x);
    return b;
}
inline void log(std::string const& s)
{
    if (!G().log && !G().log_file.empty()) G().log = std::fopen((G().log_file + "." + std::to_string(rank())).c_str(), "a");
    if (G().log) { std::fprintf(G().log, "%s\n", s.c_str()); std::fflush(G().log); }
}
inline std::vector<double> read_doubles(std::string const& path)
{
    std::ifstream f(path, std::ios::binary);
    if (!f) throw std::runtime_error("verif: no file " + path);
    f.seekg(0, std::ios::end);
    std::vector<double> v(static_cast<std::size_t>(f.tellg()) / sizeof(double));
    f.seekg(0);
    f.read(reinterpret_cast<char*>(v.data()), static_cast<std::streamsize>(v.size() * sizeof(double)));
    return v;
}

} // namespace verif

namespace hclpp {

class ParamSetup
{
public:
    explicit ParamSetup(INIReader const& r)
    {
        auto& g = verif::G();
        g.init_file = r.Get("Verif", "init", "");
        g.grid_file = r.Get("Verif", "grid", "");
        g.log_file = r.Get("Verif", "log", "");
        g.script_file = r.Get("Verif", "script", "");
        g.shift_every = r.GetInteger("Verif", "shift_every", 0);
        g.shift_from = r.GetInteger("Verif", "shift_from", 0);
        g.dump = r.GetInteger("Verif", "dump", 0) > 0;
        g.bc_mode = r.Get("Verif", "bc_mode", "");
        g.nfx = r.GetInteger("Passive Scalar", "nfx", 0);
        g.N = {r.GetInteger("Grid", "Nx0_glob", 0), r.GetInteger("Grid", "Nx1_glob", 0), r.GetInteger("Grid", "Nx2_glob", 0)};
        if (!g.script_file.empty()) {
            std::ifstream f(g.script_file);
            std::string line;
            while (std::getline(f, line)) {
                std::istringstream is(line);
                verif::Globals::Action a;
                std::string w;
                is >> a.step >> a.what;
                while (is >> w) a.a.push_back(w == "nan" ? std::numeric_limits<double>::quiet_NaN() : std::strtod(w.c_str(), nullptr));
                g.script.push_back(a);
            }
        }
        if (r.GetInteger("Verif", "clock0", 0) > 0) g.clock_hours = 0;
        verif::log("{\"event\":\"setup\"}");
    }
};

// Fields from a file: rho, u_0..u_{ndim-1}, P, fx_0.. each over the global box, first index fastest
template <class Gravity>
class InitializationSetup : public IInitializationProblem
{
public:
    InitializationSetup(EOS const&, ParamSetup const&, Gravity const&) {}

    void execute(Range const& range, Grid const& grid, KV_double_3d const& rho, KV_double_4d const& u, KV_double_3d const& P, KV_double_4d const& fx) const final
    {
        std::vector<double> const data = verif::read_doubles(verif::G().init_file);
        auto const N = grid.Nx_glob_ng;
        std::size_t const n = std::size_t(N[0]) * N[1] * N[2];
        if (data.size() < n * (2 + ndim + fx.extent_int(3))) throw std::runtime_error("verif: initial state too short");
        double const* const d = data.data();
        auto const cmin = range.Corner_min;
        auto const ng = grid.Nghost;
        int const nfx = fx.extent_int(3);
        Kokkos::parallel_for("verif_init", cell_mdrange(range), KOKKOS_LAMBDA(int i, int j, int k) {
            std::size_t const q = std::size_t(i - ng[0] + cmin[0]) + std::size_t(N[0]) * (std::size_t(j - ng[1] + cmin[1]) + std::size_t(N[1]) * std::size_t(k - ng[2] + cmin[2]));
            rho(i, j, k) = d[q];
            for (int a = 0; a < ndim; ++a) u(i, j, k, a) = d[n * (1 + a) + q];
            P(i, j, k) = d[n * (1 + ndim) + q];
            for (int a = 0; a < nfx; ++a) fx(i, j, k, a) = d[n * (2 + ndim + a) + q];
        });
        verif::log("{\"event\":\"init\"}");
    }
};

// A recognisable value per border: rho = 1000 + 10*border, and so on
template <class Gravity>
class BoundarySetup : public IBoundaryCondition<Gravity>
{
public:
    BoundarySetup(int idim, int iface, EOS const&, ParamSetup const&) : IBoundaryCondition<Gravity>(idim, iface) {}

    void execute(Grid const& grid, Gravity const&, KV_double_3d const& rho, KV_double_4d const& rhou, KV_double_3d const& E, KV_double_4d const& fx) const final
    {
        int const d = this->bc_idim(), f = this->bc_iface();
        verif::log("{\"event\":\"bc\",\"dim\":" + std::to_string(d) + ",\"face\":" + std::to_string(f) + ",\"border\":" + (grid.is_border[d][f] ? "true" : "false") + "}");
        Kokkos::Array<int, 3> b {0, 0, 0};
        Kokkos::Array<int, 3> e {rho.extent_int(0), rho.extent_int(1), rho.extent_int(2)};
        if (f == 0) e[d] = grid.Nghost[d];
        else b[d] = e[d] - grid.Nghost[d];
        double const v = 10. + (2 * d) + f;
        bool const cold = verif::G().bc_mode == "cold"; // an invalid energy in the ghosts
        int const nfx = fx.extent_int(3);
        Kokkos::parallel_for("verif_bc", Kokkos::MDRangePolicy<Kokkos::IndexType<int>, Kokkos::Rank<3>>(b, e), KOKKOS_LAMBDA(int i, int j, int k) {
            rho(i, j, k) = v;
            for (int a = 0; a < ndim; ++a) rhou(i, j, k, a) = v / 16 * (a + 1);
            E(i, j, k) = cold ? -v : 4 * v;
            for (int a = 0; a < nfx; ++a) fx(i, j, k, a) = v / 64;
        });
    }
};

// Face coordinates with ghosts from a file: x0 then x1 then x2
class GridSetup : public IGridType
{
public:
    explicit GridSetup(Param const&) {}

    void execute(std::array<int, 3> Nghost, std::array<int, 3> N, KVH_double_1d const& x0, KVH_double_1d const& x1, KVH_double_1d const& x2) const final
    {
        std::vector<double> const data = verif::read_doubles(verif::G().grid_file);
        (void)Nghost; (void)N;
        std::size_t q = 0;
        for (int i = 0; i < x0.extent_int(0); ++i) x0(i) = data.at(q++);
        for (int i = 0; i < x1.extent_int(0); ++i) x1(i) = data.at(q++);
        for (int i = 0; i < x2.extent_int(0); ++i) x2(i) = data.at(q++);
    }
};

class UserStep : public IUserStep
{
public:
    void execute(Range const& range, double const t, double const dt, KV_double_3d const& rho, KV_double_3d const& E, KV_double_4d const& fx) const final
    {
        auto& g = verif::G();
        ++g.step;
        std::string o = "{\"event\":\"step\",\"n\":" + std::to_string(g.step) + ",\"t\":" + verif::num(t) + ",\"dt\":" + verif::num(dt) + ",\"ng\":" + std::to_string(range.NgEff);
        o += ",\"min\":[" + std::to_string(range.Corner_min[0]) + "," + std::to_string(range.Corner_min[1]) + "," + std::to_string(range.Corner_min[2]) + "]";
        o += ",\"max\":[" + std::to_string(range.Corner_max[0]) + "," + std::to_string(range.Corner_max[1]) + "," + std::to_string(range.Corner_max[2]) + "]}";
        verif::log(o);
        auto const cmin = range.Corner_min;
        auto const ng = range.Nghost;
        for (auto const& a : g.script) {
            if (a.step != g.step && a.step != 0) continue;
            if (a.what == "E") { // uniform energy
                double const v = a.a.at(0);
                Kokkos::parallel_for("verif_E", cell_mdrange(range), KOKKOS_LAMBDA(int i, int j, int k) { E(i, j, k) = v; });
            } else if (a.what == "Eall") { // one energy per cell is not needed: add a constant
                double const v = a.a.at(0);
                Kokkos::parallel_for("verif_addE", cell_mdrange(range), KOKKOS_LAMBDA(int i, int j, int k) { E(i, j, k) += v; });
            } else if (a.what == "cell") { // energy of one global cell: i j k value
                int const ci = int(a.a.at(0)), cj = int(a.a.at(1)), ck = int(a.a.at(2));
                double const v = a.a.at(3);
                Kokkos::parallel_for("verif_cell", cell_mdrange(range), KOKKOS_LAMBDA(int i, int j, int k) {
                    if (i - ng[0] + cmin[0] == ci && j - ng[1] + cmin[1] == cj && k - ng[2] + cmin[2] == ck) E(i, j, k) = v;
                });
            } else if (a.what == "rho") {
                int const ci = int(a.a.at(0)), cj = int(a.a.at(1)), ck = int(a.a.at(2));
                double const v = a.a.at(3);
                Kokkos::parallel_for("verif_cell", cell_mdrange(range), KOKKOS_LAMBDA(int i, int j, int k) {
                    if (i - ng[0] + cmin[0] == ci && j - ng[1] + cmin[1] == cj && k - ng[2] + cmin[2] == ck) rho(i, j, k) = v;
                });
            } else if (a.what == "clock") { // the wall clock of one rank (or all: -1) jumps to so many hours
                if (int(a.a.at(0)) < 0 || int(a.a.at(0)) == verif::rank()) g.clock_hours = long(a.a.at(1));
            } else if (a.what == "throw") {
                throw std::runtime_error("verif: scripted failure");
            }
        }
        if (g.dump) { // what this process holds, cell by cell
            std::string c = "{\"event\":\"cells\",\"n\":" + std::to_string(g.step) + ",\"cells\":[";
            bool first = true;
            auto const r_h = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace {}, rho);
            auto const e_h = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace {}, E);
            auto const f_h = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace {}, fx);
            for (int k = ng[2]; k < ng[2] + range.Corner_max[2] - cmin[2]; ++k)
                for (int j = ng[1]; j < ng[1] + range.Corner_max[1] - cmin[1]; ++j)
                    for (int i = ng[0]; i < ng[0] + range.Corner_max[0] - cmin[0]; ++i) {
                        c += std::string(first ? "" : ",") + "[" + std::to_string(i - ng[0] + cmin[0]) + "," + std::to_string(j - ng[1] + cmin[1]) + "," + std::to_string(k - ng[2] + cmin[2]) + "," + verif::num(r_h(i, j, k)) + "," + verif::num(e_h(i, j, k));
                        for (int a = 0; a < fx.extent_int(3); ++a) c += "," + verif::num(f_h(i, j, k, a));
                        c += "]";
                        first = false;
                    }
            verif::log(c + "]}");
        }
    }
};

class UserShiftCriterion : public IShiftCriterion
{
public:
    explicit UserShiftCriterion(ParamSetup const&) {}

    [[nodiscard]] auto execute(Range const&, Grid const&, KV_cdouble_3d const&, KV_cdouble_4d const&, KV_cdouble_3d const&, KV_cdouble_4d const&) const -> bool final
    {
        auto& g = verif::G();
        int const n = ++g.shift_calls;
        bool const r = g.shift_every > 0 && n > g.shift_from && (n - g.shift_from) % g.shift_every == 0;
        verif::log("{\"event\":\"shift\",\"n\":" + std::to_string(n) + ",\"yes\":" + (r ? "true" : "false") + "}");
        return r;
    }
};

} // namespace hclpp
