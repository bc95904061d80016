// Calls the numerical parts of the solver as told by a job file: limiters, Riemann
// solvers, gas laws, state conversions, face reconstruction, time step, integrals
// and gravity. Every process writes one JSON object per job to its own file.
#include <mpi.h>

#include <cstdlib>
#include <fstream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include <Kokkos_Core.hpp>
#include <array_conversion.hpp>
#include <dual_view.hpp>
#include <euler_equations.hpp>
#include <face_reconstruction.hpp>
#include <gravity.hpp>
#include <grid.hpp>
#include <integration.hpp>
#include <kokkos_shortcut.hpp>
#include <ndim.hpp>
#include <perfect_gas.hpp>
#include <rad_gas.hpp>
#include <range.hpp>
#include <riemann_solver.hpp>
#include <slope_limiters.hpp>
#include <time_step.hpp>

#include "json_out.hpp"
#include "mpi_scope_guard.hpp"

using namespace hclpp;

namespace {

std::ofstream out;

double real(std::istringstream& is)
{
    std::string w;
    if (!(is >> w)) throw std::logic_error("driver: missing number");
    return std::strtod(w.c_str(), nullptr);
}
template <class A>
std::string nums(A const& a, std::size_t n)
{
    return jo::list(n, [&](std::size_t i) { return jo::num(a[i]); });
}
std::string show(EulerCons const& c) { return "{\"rho\":" + jo::num(c.rho) + ",\"m\":" + nums(c.rhou, ndim) + ",\"E\":" + jo::num(c.E) + "}"; }
std::string show(EulerFlux const& c) { return "{\"rho\":" + jo::num(c.rho) + ",\"m\":" + nums(c.rhou, ndim) + ",\"E\":" + jo::num(c.E) + "}"; }
std::string show(EulerPrim const& c) { return "{\"rho\":" + jo::num(c.rho) + ",\"u\":" + nums(c.u, ndim) + ",\"P\":" + jo::num(c.P) + "}"; }
EulerPrim prim(std::istringstream& is)
{
    EulerPrim p;
    p.rho = real(is);
    for (int d = 0; d < ndim; ++d) p.u[d] = real(is);
    p.P = real(is);
    return p;
}
// v is flattened first index fastest
template <class V>
void fill(V const& v, std::istringstream& is)
{
    auto const h = Kokkos::create_mirror_view(v);
    for (int k = 0; k < h.extent_int(2); ++k)
        for (int j = 0; j < h.extent_int(1); ++j)
            for (int i = 0; i < h.extent_int(0); ++i) h(i, j, k) = real(is);
    Kokkos::deep_copy(v, h);
}
template <class V>
std::string dump(V const& v)
{
    auto const h = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace {}, v);
    std::string s = "[";
    for (int k = 0; k < h.extent_int(2); ++k)
        for (int j = 0; j < h.extent_int(1); ++j)
            for (int i = 0; i < h.extent_int(0); ++i) s += (s.size() > 1 ? "," : "") + jo::num(h(i, j, k));
    return s + "]";
}

void job_lim(std::istringstream& is)
{
    std::string name;
    is >> name;
    double const a = real(is), b = real(is);
    double r = 0;
    if (name == "Constant") r = Constant()(a, b);
    else if (name == "VanLeer") r = VanLeer()(a, b);
    else if (name == "Minmod") r = Minmod()(a, b);
    else if (name == "VanAlbada") r = VanAlbada()(a, b);
    else throw std::logic_error("driver: limiter");
    out << "{\"v\":" << jo::num(r) << "}\n";
}

template <class F>
void with_gas(std::istringstream& is, F&& f)
{
    std::string kind;
    is >> kind;
    double const g = real(is), m = real(is);
    if (kind == "PerfectGas") f(thermodynamics::PerfectGas(g, m));
    else f(thermodynamics::RadGas(g, m));
}

template <class Eos>
void gas(std::istringstream& is, Eos const& eos)
{
    double const rho = real(is), P = real(is), T = real(is), e = real(is);
    out << "{\"gamma\":" << jo::num(eos.adiabatic_index()) << ",\"mu\":" << jo::num(eos.mean_molecular_weight()) << ",\"EofP\":" << jo::num(eos.compute_evol_from_pres(rho, P)) << ",\"EofT\":" << jo::num(eos.compute_evol_from_temp(rho, T)) << ",\"PofE\":" << jo::num(eos.compute_pres_from_evol(rho, e))
        << ",\"PofT\":" << jo::num(eos.compute_pres_from_temp(rho, T)) << ",\"TofP\":" << jo::num(eos.compute_temp_from_pres(rho, P)) << ",\"TofE\":" << jo::num(eos.compute_temp_from_evol(rho, e)) << ",\"sound\":" << jo::num(eos.compute_speed_of_sound(rho, P)) << "}\n";
}

template <class Eos>
void state(std::istringstream& is, Eos const& eos)
{
    EulerPrim const p = prim(is);
    EulerCons const c = to_cons(p, eos);
    out << "{\"cons\":" << show(c) << ",\"back\":" << show(to_prim(c, eos)) << ",\"ekP\":" << jo::num(compute_ek(p)) << ",\"ekC\":" << jo::num(compute_ek(c)) << ",\"evol\":" << jo::num(compute_evol(c)) << ",\"fluxP\":[";
    for (int d = 0; d < ndim; ++d) out << (d ? "," : "") << show(compute_flux(p, d, eos));
    out << "],\"fluxC\":[";
    for (int d = 0; d < ndim; ++d) out << (d ? "," : "") << show(compute_flux(c, d, eos));
    out << "]}\n";
}

template <class Eos>
void flux(std::istringstream& is, Eos const& eos)
{
    std::string solver;
    int dir = 0;
    is >> solver >> dir;
    EulerCons const l = to_cons(prim(is), eos);
    EulerCons const r = to_cons(prim(is), eos);
    EulerFlux f;
    if (solver == "HLL") f = HLL()(l, r, dir, eos);
    else if (solver == "HLLC") f = HLLC()(l, r, dir, eos);
    else f = Splitting()(l, r, dir, eos);
    out << "{\"L\":" << show(l) << ",\"R\":" << show(r) << ",\"F\":" << show(f) << "}\n";
}

// conversions of arrays over a range; the target arrays hold 7.5 beforehand
template <class Eos>
void arrays(std::istringstream& is, Eos const& eos)
{
    std::array<int, 3> n;
    int ng = 0, k = 0, back = 0;
    is >> n[0] >> n[1] >> n[2] >> ng >> k >> back;
    Range const base({0, 0, 0}, n, ng);
    Range const range = base.with_ghosts(k);
    std::array<int, 3> w;
    for (int d = 0; d < 3; ++d) w[d] = n[d] + 2 * base.Nghost[d];
    KV_double_3d const rho("rho", w[0], w[1], w[2]), s("s", w[0], w[1], w[2]), ts("ts", w[0], w[1], w[2]);
    KV_double_4d const v("v", w[0], w[1], w[2], ndim), tv("tv", w[0], w[1], w[2], ndim);
    fill(rho, is);
    for (int d = 0; d < ndim; ++d) {
        KV_double_3d const one("one", w[0], w[1], w[2]);
        fill(one, is);
        Kokkos::deep_copy(Kokkos::subview(v, ALL, ALL, ALL, d), one);
    }
    fill(s, is);
    Kokkos::deep_copy(ts, 7.5);
    Kokkos::deep_copy(tv, 7.5);
    if (back) conv_cons_to_prim(range, eos, rho, v, s, tv, ts);
    else conv_prim_to_cons(range, eos, rho, v, s, tv, ts);
    auto const all = [&](KV_double_4d const& a) {
        std::string t;
        for (int d = 0; d < ndim; ++d) {
            KV_double_3d const one("one", w[0], w[1], w[2]);
            Kokkos::deep_copy(one, Kokkos::subview(a, ALL, ALL, ALL, d));
            t += (d ? "," : "") + dump(one);
        }
        return "[" + t + "]";
    };
    out << "{\"w\":[" << w[0] << "," << w[1] << "," << w[2] << "],\"rho\":" << dump(rho) << ",\"v\":" << all(v) << ",\"s\":" << dump(s) << ",\"tv\":" << all(tv) << ",\"ts\":" << dump(ts) << "}\n";
}

// n p ng, then the face coordinates (ghosts included) of the whole domain
struct Placed
{
    std::array<int, 3> n, p;
    int ng = 0;
    std::vector<double> field(std::istringstream& is) const
    {
        std::size_t m = 1;
        for (int d = 0; d < 3; ++d) m *= n[d] + 2 * (d < ndim ? ng : 0);
        std::vector<double> v(m);
        for (double& x : v) x = real(is);
        return v;
    }
    // the part of a field of the whole domain (ghosts included) this process sees
    KV_double_3d mine(Grid const& g, std::vector<double> const& v) const
    {
        KV_double_3d const r("field", g.Nx_local_wg[0], g.Nx_local_wg[1], g.Nx_local_wg[2]);
        auto const h = Kokkos::create_mirror_view(r);
        std::array<int, 3> w;
        for (int d = 0; d < 3; ++d) w[d] = n[d] + 2 * g.Nghost[d];
        for (int k = 0; k < h.extent_int(2); ++k)
            for (int j = 0; j < h.extent_int(1); ++j)
                for (int i = 0; i < h.extent_int(0); ++i) h(i, j, k) = v[(i + g.range.Corner_min[0]) + w[0] * ((j + g.range.Corner_min[1]) + w[1] * (k + g.range.Corner_min[2]))];
        Kokkos::deep_copy(r, h);
        return r;
    }
};
void coordinates(std::istringstream& is, Grid& grid)
{
    KDV_double_1d const x0("x0", grid.Nx_glob_ng[0] + 2 * grid.Nghost[0] + 1);
    KDV_double_1d const x1("x1", grid.Nx_glob_ng[1] + 2 * grid.Nghost[1] + 1);
    KDV_double_1d const x2("x2", grid.Nx_glob_ng[2] + 2 * grid.Nghost[2] + 1);
    for (auto const* x : {&x0, &x1, &x2}) {
        auto const h = (*x)(host);
        for (int i = 0; i < h.extent_int(0); ++i) h(i) = real(is);
    }
    grid.set_grid(x0(device, read_only), x1(device, read_only), x2(device, read_only));
}
std::string block(Grid const& g)
{
    std::string s = "\"min\":[", t = "],\"max\":[", u = "],\"nghost\":[";
    for (int d = 0; d < 3; ++d) {
        s += (d ? "," : "") + std::to_string(g.range.Corner_min[d]);
        t += (d ? "," : "") + std::to_string(g.range.Corner_max[d]);
        u += (d ? "," : "") + std::to_string(g.Nghost[d]);
    }
    return s + t + u + "]";
}

void job_rec(std::istringstream& is)
{
    std::string name;
    int layers = 0;
    Placed pl;
    is >> name >> layers >> pl.n[0] >> pl.n[1] >> pl.n[2] >> pl.p[0] >> pl.p[1] >> pl.p[2] >> pl.ng;
    Grid grid(pl.n, pl.p, pl.ng);
    coordinates(is, grid);
    KV_double_3d const v = pl.mine(grid, pl.field(is));
    KV_double_5d const rec("rec", grid.Nx_local_wg[0], grid.Nx_local_wg[1], grid.Nx_local_wg[2], 2, ndim);
    Kokkos::deep_copy(rec, 7.5);
    factory_face_reconstruction(name)->execute(grid.range.with_ghosts(layers), grid, v, rec);
    out << "{" << block(grid) << ",\"faces\":[";
    for (int d = 0; d < ndim; ++d)
        for (int s = 0; s < 2; ++s) {
            KV_double_3d const one("one", grid.Nx_local_wg[0], grid.Nx_local_wg[1], grid.Nx_local_wg[2]);
            Kokkos::deep_copy(one, Kokkos::subview(rec, ALL, ALL, ALL, s, d));
            out << (d + s ? "," : "") << dump(one);
        }
    out << "]}\n";
}

template <class Eos>
void tstep(std::istringstream& is, Eos const& eos)
{
    int layers = 0;
    Placed pl;
    is >> layers >> pl.n[0] >> pl.n[1] >> pl.n[2] >> pl.p[0] >> pl.p[1] >> pl.p[2] >> pl.ng;
    Grid grid(pl.n, pl.p, pl.ng);
    coordinates(is, grid);
    KV_double_3d const rho = pl.mine(grid, pl.field(is));
    KV_double_4d const u("u", grid.Nx_local_wg[0], grid.Nx_local_wg[1], grid.Nx_local_wg[2], ndim);
    for (int d = 0; d < ndim; ++d) Kokkos::deep_copy(Kokkos::subview(u, ALL, ALL, ALL, d), pl.mine(grid, pl.field(is)));
    KV_double_3d const P = pl.mine(grid, pl.field(is));
    out << "{" << block(grid) << ",\"dt\":" << jo::num(time_step(grid.range.with_ghosts(layers), eos, grid, rho, u, P)) << "}\n";
}

void job_integ(std::istringstream& is)
{
    Placed pl;
    is >> pl.n[0] >> pl.n[1] >> pl.n[2] >> pl.p[0] >> pl.p[1] >> pl.p[2] >> pl.ng;
    Grid grid(pl.n, pl.p, pl.ng);
    coordinates(is, grid);
    KV_double_3d const v = pl.mine(grid, pl.field(is));
    out << "{" << block(grid) << ",\"sum\":" << jo::num(integrate(grid.range, grid, v)) << "}\n";
}

template <class G>
std::string felt(Grid const& grid, G const& g)
{
    std::string s = "[";
    for (int d = 0; d < ndim; ++d) {
        KV_double_3d const one("g", grid.Nx_local_wg[0], grid.Nx_local_wg[1], grid.Nx_local_wg[2]);
        Kokkos::parallel_for("felt", Kokkos::MDRangePolicy<Kokkos::IndexType<int>, Kokkos::Rank<3>>({0, 0, 0}, {one.extent_int(0), one.extent_int(1), one.extent_int(2)}), KOKKOS_LAMBDA(int i, int j, int k) { one(i, j, k) = g(i, j, k, d); });
        s += (d ? "," : "") + dump(one);
    }
    return s + "]";
}
void job_grav(std::istringstream& is)
{
    std::string kind;
    Placed pl;
    is >> kind >> pl.n[0] >> pl.n[1] >> pl.n[2] >> pl.p[0] >> pl.p[1] >> pl.p[2] >> pl.ng;
    Grid grid(pl.n, pl.p, pl.ng);
    coordinates(is, grid);
    std::string s;
    if (kind == "Uniform") {
        double const a = real(is), b = real(is), c = real(is);
        s = felt(grid, make_uniform_gravity(a, b, c));
    } else if (kind == "Point_mass") {
        s = felt(grid, make_point_mass_gravity(real(is), grid));
    } else {
        double const m = real(is);
        KV_double_3d const rho = pl.mine(grid, pl.field(is));
        s = felt(grid, make_internal_mass_gravity(m, grid, rho));
    }
    out << "{" << block(grid) << ",\"g\":" << s << "}\n";
}

} // namespace

int main(int argc, char** argv)
{
    MpiScopeGuard const mpi(argc, argv);
    Kokkos::ScopeGuard const kokkos(argc, argv);
    int rank = 0;
    MPI_Comm_rank(MPI_COMM_WORLD, &rank);
    out.open(std::string(argv[2]) + "." + std::to_string(rank));
    std::ifstream in(argv[1]);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string what;
        is >> what;
        try {
            if (what == "lim") job_lim(is);
            else if (what == "gas") with_gas(is, [&](auto const& e) { gas(is, e); });
            else if (what == "state") with_gas(is, [&](auto const& e) { state(is, e); });
            else if (what == "flux") with_gas(is, [&](auto const& e) { flux(is, e); });
            else if (what == "arrays") with_gas(is, [&](auto const& e) { arrays(is, e); });
            else if (what == "valid") with_gas(is, [&](auto const& e) {
                double const a = real(is), b = real(is);
                out << "{\"ok\":" << (e.is_valid(a, b) ? "true" : "false") << "}\n";
            });
            else if (what == "ctor") with_gas(is, [&](auto const&) { out << "{\"ok\":true}\n"; });
            else if (what == "rec") job_rec(is);
            else if (what == "tstep") with_gas(is, [&](auto const& e) { tstep(is, e); });
            else if (what == "integ") job_integ(is);
            else if (what == "grav") job_grav(is);
            else throw std::logic_error("driver: job");
        } catch (std::exception const& e) {
            if (std::string(e.what()).rfind("driver:", 0) == 0) std::abort();
            out << "{\"error\":" << jo::str(e.what()) << "}\n";
        }
        out << std::flush;
    }
    out.close();
    return 0;
}
