// Drives the borders and the shift criterion of a shipped setup (compiled with the setup's own setup.hpp).
// setup_driver INI OUT border dim face : fills with marks, applies the setup's border, writes all arrays
// setup_driver INI OUT shift FILE      : velocities (x slowest index last, ghosts in x0 included) from FILE
#include <mpi.h>

#include <cstdlib>
#include <exception>
#include <fstream>
#include <memory>
#include <string>
#include <vector>

#include <inih/INIReader.hpp>

#include <Kokkos_Core.hpp>
#include <dual_view.hpp>
#include <eos.hpp>
#include <gravity.hpp>
#include <grid.hpp>
#include <grid_factory.hpp>
#include <grid_type.hpp>
#include <kokkos_shortcut.hpp>
#include <ndim.hpp>
#include <param.hpp>
#include <range.hpp>

#include "boundary.hpp"
#include "initialization_interface.hpp"
#include "json_out.hpp"
#include "mpi_scope_guard.hpp"
#include <setup.hpp>
#include "shift_criterion_interface.hpp"

using namespace hclpp;

namespace {

#if defined(HERACLESPP_GRAVITY_Uniform)
using Gravity = UniformGravity;
auto make_gravity(Param const& param, Grid const&) -> Gravity { return make_uniform_gravity(param.gx0, param.gx1, param.gx2); }
#else
using Gravity = PointMassGravity;
auto make_gravity(Param const& param, Grid const& grid) -> Gravity { return make_point_mass_gravity(param.M, grid); }
#endif

template <class V>
std::string dump(V const& v)
{
    auto const h = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace {}, v);
    std::string s = "[";
    for (int k = 0; k < h.extent_int(2); ++k)
        for (int j = 0; j < h.extent_int(1); ++j)
            for (int i = 0; i < h.extent_int(0); ++i) s += (s.size() > 1 ? "," : "") + jo::num(h(i, j, k));
    return s + "]";
}

std::vector<double> read_doubles(std::string const& path)
{
    std::ifstream f(path, std::ios::binary);
    f.seekg(0, std::ios::end);
    std::vector<double> v(static_cast<std::size_t>(f.tellg()) / sizeof(double));
    f.seekg(0);
    f.read(reinterpret_cast<char*>(v.data()), static_cast<std::streamsize>(v.size() * sizeof(double)));
    return v;
}

} // namespace

int main(int argc, char** argv)
{
    MpiScopeGuard const mpi_guard(argc, argv);
    Kokkos::ScopeGuard const kokkos_guard(argc, argv);
    int rank = 0;
    MPI_Comm_rank(MPI_COMM_WORLD, &rank);
    std::ofstream out(std::string(argv[2]) + "." + std::to_string(rank));
    INIReader const reader(argv[1]);
    Param const param(reader);
    ParamSetup const param_setup(reader);
    Grid grid(param.Nx_glob_ng, param.mpi_dims_cart, param.Ng);
    EOS const eos(param.gamma, param.mu);
    KDV_double_1d const x0("x0", grid.Nx_glob_ng[0] + (2 * grid.Nghost[0]) + 1);
    KDV_double_1d const x1("x1", grid.Nx_glob_ng[1] + (2 * grid.Nghost[1]) + 1);
    KDV_double_1d const x2("x2", grid.Nx_glob_ng[2] + (2 * grid.Nghost[2]) + 1);
    factory_grid_type("Regular", param)->execute(grid.Nghost, grid.Nx_glob_ng, x0(host), x1(host), x2(host));
    grid.set_grid(x0(device, read_only), x1(device, read_only), x2(device, read_only));
    auto const g = make_gravity(param, grid);
    auto const w = grid.Nx_local_wg;
    KV_double_3d const rho("rho", w[0], w[1], w[2]);
    KV_double_4d const rhou("rhou", w[0], w[1], w[2], ndim);
    KV_double_3d const E("E", w[0], w[1], w[2]);
    KV_double_4d const fx("fx", w[0], w[1], w[2], 0);
    std::string const what = argv[3];
    auto const cmin = grid.range.Corner_min;
    std::string o = "{\"min\":[" + std::to_string(cmin[0]) + "," + std::to_string(cmin[1]) + "," + std::to_string(cmin[2]) + "],\"size\":[" + std::to_string(w[0]) + "," + std::to_string(w[1]) + "," + std::to_string(w[2]) + "],";
    try {
        if (what == "border") {
            int const d = std::atoi(argv[4]), f = std::atoi(argv[5]);
            Kokkos::deep_copy(rho, 7.);
            Kokkos::deep_copy(rhou, 7.);
            Kokkos::deep_copy(E, 7.);
            std::unique_ptr<IBoundaryCondition<Gravity>> const bc = std::make_unique<BoundarySetup<Gravity>>(d, f, eos, param_setup);
            bc->execute(grid, g, rho, rhou, E, fx);
            auto const xh = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace {}, grid.x0);
            o += "\"rho\":" + dump(rho) + ",\"E\":" + dump(E) + ",\"x0\":" + jo::list(xh.extent(0), [&](std::size_t i) { return jo::num(xh(i)); }) + ",\"m\":[";
            for (int a = 0; a < ndim; ++a) o += (a ? "," : "") + dump(Kokkos::subview(rhou, Kokkos::ALL, Kokkos::ALL, Kokkos::ALL, a));
            o += "]}";
        } else {
            // velocity of the cells of the whole domain with ghosts, x0 fastest
            std::vector<double> const v = read_doubles(argv[4]);
            std::size_t const W0 = grid.Nx_glob_ng[0] + (2 * grid.Nghost[0]), W1 = grid.Nx_glob_ng[1] + (2 * grid.Nghost[1]);
            auto const rh = Kokkos::create_mirror_view(rho);
            auto const mh = Kokkos::create_mirror_view(rhou);
            for (int k = 0; k < w[2]; ++k)
                for (int j = 0; j < w[1]; ++j)
                    for (int i = 0; i < w[0]; ++i) {
                        double const r = 1. + ((i + cmin[0]) % 3) + (0.5 * ((j + cmin[1]) % 2));
                        rh(i, j, k) = r;
                        for (int a = 0; a < ndim; ++a) mh(i, j, k, a) = 1e30;
                        mh(i, j, k, 0) = r * v.at((i + cmin[0]) + (W0 * ((j + cmin[1]) + (W1 * (k + cmin[2])))));
                    }
            Kokkos::deep_copy(rho, rh);
            Kokkos::deep_copy(rhou, mh);
            std::unique_ptr<IShiftCriterion> const sc = std::make_unique<UserShiftCriterion>(param_setup);
            bool const yes = sc->execute(grid.range, grid, rho, rhou, E, fx);
            o += std::string("\"yes\":") + (yes ? "true" : "false") + "}";
        }
    } catch (std::exception const& e) {
        o = "{\"error\":" + jo::str(e.what()) + "}";
    }
    out << o << '\n';
    return 0;
}
