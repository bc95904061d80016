// Builds grids, exchanges ghost cells and loops over ranges as told by a job file;
// every process writes what it holds to its own file, one JSON object per job.
#include <mpi.h>

#include <cmath>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include <Kokkos_Core.hpp>
#include <dual_view.hpp>
#include <eos.hpp>
#include <gravity.hpp>
#include <grid.hpp>
#include <grid_factory.hpp>
#include <grid_type.hpp>
#include <inih/INIReader.hpp>
#include <kokkos_shortcut.hpp>
#include <ndim.hpp>
#include <param.hpp>
#include <range.hpp>

#include "boundary.hpp"
#include "boundary_distribute.hpp"
#include "boundary_factory.hpp"
#include "mpi_scope_guard.hpp"

using namespace hclpp;

namespace {

std::string user_log;
std::ofstream out;

template <class A>
std::string ints(A const& a)
{
    std::string s = "[";
    for (std::size_t i = 0; i < a.size(); ++i) s += (i ? "," : "") + std::to_string(a[i]);
    return s + "]";
}
std::string num(double x)
{
    if (std::isnan(x)) return "\"nan\"";
    if (std::isinf(x)) return x > 0 ? "\"inf\"" : "\"-inf\"";
    char b[40];
    std::snprintf(b, 40, "\"%.17g\"", x);
    return b;
}
// a value that should be a small integer
std::string whole(double x)
{
    if (!(std::fabs(x) < 1e9) || x != std::floor(x)) return "-2000000000";
    return std::to_string(static_cast<long>(x));
}
std::string escape(std::string const& s)
{
    std::string o;
    for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if (c == '\n') o += ' '; else o += c; }
    return o;
}
template <class V>
std::string view1(V const& v)
{
    auto const h = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace {}, v);
    std::string s = "[";
    for (int i = 0; i < h.extent_int(0); ++i) s += (i ? "," : "") + num(h(i));
    return s + "]";
}

// fills one layer with recognisable values: user code of a border
struct UserBorder : IBoundaryCondition<UniformGravity>
{
    using IBoundaryCondition<UniformGravity>::IBoundaryCondition;
    void execute(Grid const& grid, UniformGravity const&, KV_double_3d const& rho, KV_double_4d const& rhou, KV_double_3d const& E, KV_double_4d const& fx) const final
    {
        int const d = bc_idim(), f = bc_iface();
        user_log += (user_log.empty() ? "" : ",") + std::to_string(2 * d + f);
        Kokkos::Array<int, 3> b {0, 0, 0};
        Kokkos::Array<int, 3> e {rho.extent_int(0), rho.extent_int(1), rho.extent_int(2)};
        if (f == 0) e[d] = grid.Nghost[d];
        else b[d] = e[d] - grid.Nghost[d];
        int const id = -100 - (2 * d + f);
        Kokkos::parallel_for("user_border", Kokkos::MDRangePolicy<Kokkos::IndexType<int>, Kokkos::Rank<3>>(b, e), KOKKOS_LAMBDA(int i, int j, int k) {
            rho(i, j, k) = id;
            for (int a = 0; a < rhou.extent_int(3); ++a) rhou(i, j, k, a) = 10 * id + a + 1;
            E(i, j, k) = 100 * id;
            for (int a = 0; a < fx.extent_int(3); ++a) fx(i, j, k, a) = 1000 * id + a + 1;
        });
    }
};

std::string layout(Grid const& g)
{
    std::string s = "\"min\":" + ints(g.range.Corner_min) + ",\"max\":" + ints(g.range.Corner_max) + ",\"ng\":" + std::to_string(g.range.Ng);
    s += ",\"dims\":" + ints(g.mpi_dims_cart) + ",\"coords\":" + ints(g.mpi_rank_cart) + ",\"local\":" + ints(g.Nx_local_ng) + ",\"wg\":" + ints(g.Nx_local_wg) + ",\"nghost\":" + ints(g.Nghost) + ",\"border\":[";
    for (int d = 0; d < 3; ++d) s += std::string(d ? "," : "") + "[" + (g.is_border[d][0] ? "true" : "false") + "," + (g.is_border[d][1] ? "true" : "false") + "]";
    return s + "]";
}

void job_grid(std::istringstream& is, Param const& param0)
{
    std::array<int, 3> n, p;
    int ng = 0;
    std::string kind;
    is >> n[0] >> n[1] >> n[2] >> p[0] >> p[1] >> p[2] >> ng >> kind;
    Grid grid(n, p, ng);
    std::string s = layout(grid);
    if (kind != "none") {
        KDV_double_1d const x0("x0_glob", n[0] + 2 * grid.Nghost[0] + 1);
        KDV_double_1d const x1("x1_glob", n[1] + 2 * grid.Nghost[1] + 1);
        KDV_double_1d const x2("x2_glob", n[2] + 2 * grid.Nghost[2] + 1);
        if (kind == "list") {
            auto const read = [&](KDV_double_1d const& x) {
                auto const h = x(host);
                std::string w;
                for (int i = 0; i < h.extent_int(0); ++i) { is >> w; h(i) = std::strtod(w.c_str(), nullptr); }
            };
            read(x0);
            read(x1);
            read(x2);
        } else {
            Param param(param0);
            std::string w[6];
            for (auto& x : w) is >> x;
            param.Nx_glob_ng = n;
            param.x0min = std::strtod(w[0].c_str(), nullptr);
            param.x0max = std::strtod(w[1].c_str(), nullptr);
            param.x1min = std::strtod(w[2].c_str(), nullptr);
            param.x1max = std::strtod(w[3].c_str(), nullptr);
            param.x2min = std::strtod(w[4].c_str(), nullptr);
            param.x2max = std::strtod(w[5].c_str(), nullptr);
            factory_grid_type(kind, param)->execute(grid.Nghost, grid.Nx_glob_ng, x0(host), x1(host), x2(host));
        }
        grid.set_grid(x0(device, read_only), x1(device, read_only), x2(device, read_only));
        s += ",\"x\":[" + view1(grid.x0) + "," + view1(grid.x1) + "," + view1(grid.x2) + "]";
        s += ",\"xc\":[" + view1(grid.x0_center) + "," + view1(grid.x1_center) + "," + view1(grid.x2_center) + "]";
        s += ",\"dx\":[" + view1(grid.dx0) + "," + view1(grid.dx1) + "," + view1(grid.dx2) + "]";
        auto const dv = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace {}, grid.dv);
        auto const ds = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace {}, grid.ds);
        std::string v, f[3];
        bool first = true;
        for (int k = 0; k < dv.extent_int(2); ++k)
            for (int j = 0; j < dv.extent_int(1); ++j)
                for (int i = 0; i < dv.extent_int(0); ++i) {
                    v += (first ? "" : ",") + num(dv(i, j, k));
                    for (int d = 0; d < 3; ++d) f[d] += (first ? "" : ",") + num(ds(i, j, k, d));
                    first = false;
                }
        s += ",\"dv\":[" + v + "],\"ds\":[[" + f[0] + "],[" + f[1] + "],[" + f[2] + "]]";
    }
    out << "{" << s << "}\n";
}

void job_bc(std::istringstream& is, Param const& param0)
{
    std::array<int, 3> n, p;
    int ng = 0, nfx = 0, aware = 0, rounds = 1;
    std::string order;
    std::array<std::string, 6> names;
    is >> n[0] >> n[1] >> n[2] >> p[0] >> p[1] >> p[2] >> ng >> nfx >> aware >> rounds >> order;
    for (int b = 0; b < 2 * ndim; ++b) is >> names[b];
    Grid grid(n, p, ng);
    Param param(param0);
    param.nfx = nfx;
    param.Ng = ng;
    param.mpi_device_aware = aware != 0;
    param.bc_priority.clear();
    if (order != "-") {
        for (char& c : order) if (c == ',') c = ' ';
        param.bc_priority = order;
    }
    std::array<std::unique_ptr<IBoundaryCondition<UniformGravity>>, 2 * ndim> bcs;
    for (int d = 0; d < ndim; ++d)
        for (int f = 0; f < 2; ++f) {
            if (names[2 * d + f] == "UserDefined") bcs[2 * d + f] = std::make_unique<UserBorder>(d, f);
            else bcs[2 * d + f] = factory_boundary_construction<UniformGravity>(names[2 * d + f], d, f);
        }
    DistributedBoundaryCondition const apply(grid, param);
    auto const wg = grid.Nx_local_wg;
    KV_double_3d const rho("rho", wg[0], wg[1], wg[2]);
    KV_double_4d const rhou("rhou", wg[0], wg[1], wg[2], ndim);
    KV_double_3d const E("E", wg[0], wg[1], wg[2]);
    KV_double_4d const fx("fx", wg[0], wg[1], wg[2], nfx);
    UniformGravity const gravity = make_uniform_gravity(0., 0., 0.);
    auto const cmin = grid.range.Corner_min;
    auto const gh = grid.Nghost;
    auto const loc = grid.Nx_local_ng;
    user_log.clear();
    for (int r = 0; r < rounds; ++r) {
        // interior: number of the global cell plus the round's offset; ghosts: what a previous round left, or rubbish
        bool const last = r == rounds - 1;
        Kokkos::parallel_for("fill", Kokkos::MDRangePolicy<Kokkos::IndexType<int>, Kokkos::Rank<3>>({0, 0, 0}, {wg[0], wg[1], wg[2]}), KOKKOS_LAMBDA(int i, int j, int k) {
            bool const in = i >= gh[0] && i < gh[0] + loc[0] && j >= gh[1] && j < gh[1] + loc[1] && k >= gh[2] && k < gh[2] + loc[2];
            if (!in && r > 0) return;
            int const q = 1 + (i - gh[0] + cmin[0]) + n[0] * ((j - gh[1] + cmin[1]) + n[1] * (k - gh[2] + cmin[2]));
            int const id = in ? (last ? q : 500000 + q) : 900000;
            rho(i, j, k) = id;
            for (int a = 0; a < ndim; ++a) rhou(i, j, k, a) = 10 * id + a + 1;
            E(i, j, k) = 100 * id;
            for (int a = 0; a < nfx; ++a) fx(i, j, k, a) = 1000 * id + a + 1;
        });
        user_log.clear();
        apply(bcs, grid, gravity, rho, rhou, E, fx);
    }
    auto const dump3 = [&](auto const& v) {
        auto const h = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace {}, v);
        std::string s = "[";
        for (int k = 0; k < wg[2]; ++k)
            for (int j = 0; j < wg[1]; ++j)
                for (int i = 0; i < wg[0]; ++i) s += (s.size() > 1 ? "," : "") + whole(h(i, j, k));
        return s + "]";
    };
    auto const dump4 = [&](auto const& v) {
        auto const h = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace {}, v);
        std::string s = "[";
        for (int a = 0; a < v.extent_int(3); ++a) {
            s += a ? ",[" : "[";
            bool first = true;
            for (int k = 0; k < wg[2]; ++k)
                for (int j = 0; j < wg[1]; ++j)
                    for (int i = 0; i < wg[0]; ++i) { s += (first ? "" : ",") + whole(h(i, j, k, a)); first = false; }
            s += "]";
        }
        return s + "]";
    };
    out << "{" << layout(grid) << ",\"user\":[" << user_log << "],\"rho\":" << dump3(rho) << ",\"rhou\":" << dump4(rhou) << ",\"E\":" << dump3(E) << ",\"fx\":" << dump4(fx) << "}\n";
}

void job_range(std::istringstream& is)
{
    std::array<int, 3> a, b;
    int ng = 0, req = 0, six = 0;
    is >> a[0] >> a[1] >> a[2] >> b[0] >> b[1] >> b[2] >> ng >> req >> six;
    Range const r = six ? Range({a[0], b[0]}, {a[1], b[1]}, {a[2], b[2]}, ng) : Range(a, b, ng);
    // req: -1 all_ghosts, -2 no_ghosts, -3 the range as built, -4 no_ghosts of all_ghosts
    Range const q = req == -1 ? r.all_ghosts() : req == -2 ? r.no_ghosts() : req == -3 ? r : req == -4 ? r.all_ghosts().no_ghosts() : r.with_ghosts(req);
    std::string const keep = "\"built\":" + std::to_string(r.NgEff);
    // visits counted in a box larger than anything a loop may touch
    int const m = 3;
    std::array<int, 3> ext;
    for (int d = 0; d < 3; ++d) ext[d] = b[d] - a[d] + 2 * (d < ndim ? ng : 0) + 2 * m;
    KV_double_3d const count("count", ext[0], ext[1], ext[2]);
    auto const& gh = r.Nghost;
    (void)gh;
    KV_double_1d const outside("outside", 1);
    Kokkos::parallel_for("visit", cell_mdrange(q), KOKKOS_LAMBDA(int i, int j, int k) {
        if (i + m < 0 || i + m >= ext[0] || j + m < 0 || j + m >= ext[1] || k + m < 0 || k + m >= ext[2]) { outside(0) = 1; return; }
        count(i + m, j + m, k + m) += 1;
    });
    auto const [lo, hi] = cell_range(q);
    auto const h = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace {}, count);
    // cells visited, with the number of visits, relative to the block's first ghost-free cell (Nghost)
    std::string s;
    for (int k = 0; k < ext[2]; ++k)
        for (int j = 0; j < ext[1]; ++j)
            for (int i = 0; i < ext[0]; ++i)
                if (h(i, j, k) != 0) s += (s.empty() ? "[" : ",[") + std::to_string(i - m - r.Nghost[0]) + "," + std::to_string(j - m - r.Nghost[1]) + "," + std::to_string(k - m - r.Nghost[2]) + "," + whole(h(i, j, k)) + "]";
    out << "{" << keep << ",\"outside\":" << (Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace {}, outside)(0) != 0 ? "true" : "false") << ",\"nghost\":" << ints(r.Nghost) << ",\"lo\":[" << lo[0] << "," << lo[1] << "," << lo[2] << "],\"hi\":[" << hi[0] << "," << hi[1] << "," << hi[2] << "],\"visits\":[" << s << "]}\n";
}

} // namespace

int main(int argc, char** argv)
{
    MpiScopeGuard const mpi(argc, argv);
    Kokkos::ScopeGuard const kokkos(argc, argv);
    int rank = 0;
    MPI_Comm_rank(MPI_COMM_WORLD, &rank);
    out.open(std::string(argv[2]) + "." + std::to_string(rank));
    std::string const ini = std::string(argv[2]) + ".ini" + std::to_string(rank);
    {
        std::ofstream f(ini);
        f << "[Grid]\nNx0_glob = 4\nNx1_glob = 4\nNx2_glob = 4\n[Boundary Condition]\nBC = NullGradient\n";
    }
    INIReader const reader(ini);
    Param const param(reader);
    std::ifstream in(argv[1]);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string what;
        is >> what;
        try {
            if (what == "grid") job_grid(is, param);
            else if (what == "bc") job_bc(is, param);
            else if (what == "range") job_range(is);
        } catch (std::exception const& e) {
            out << "{\"error\":\"" << escape(e.what()) << "\"}\n";
        }
        out << std::flush;
    }
    out.close();
    return 0;
}
