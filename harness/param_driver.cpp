// Run parameters read by the real Param class. stdin: one hex INI text per line; stdout: one JSON line each.
#include <cstdio>
#include <fstream>
#include <iostream>
#include <string>
#include <inih/INIReader.hpp>
#include <param.hpp>
#include "json_out.hpp"
int main(int, char** argv)
{
    std::string line;
    while (std::getline(std::cin, line)) {
        std::string txt;
        for (std::size_t i = 0; i + 1 < line.size(); i += 2) txt += (char)std::stoi(line.substr(i, 2), nullptr, 16);
        { std::ofstream f(argv[1], std::ios::binary); f << txt; }
        try {
            INIReader const r(argv[1]);
            try {
                hclpp::Param const p0(r);
                hclpp::Param const p(p0);
                std::string o = "{\"ok\":true,\"f\":{";
                auto S = [&](char const* n, std::string const& v) { o += std::string("\"") + n + "\":{\"s\":" + jo::str(v) + ",\"c\":" + jo::codes(v) + "},"; };
                auto I = [&](char const* n, long long v) { o += std::string("\"") + n + "\":{\"v\":\"" + std::to_string(v) + "\"},"; };
                auto D = [&](char const* n, double v) { o += std::string("\"") + n + "\":{\"v\":" + jo::num(v) + "},"; };
                auto B = [&](char const* n, bool v) { o += std::string("\"") + n + "\":{\"v\":\"" + (v ? "true" : "false") + "\"},"; };
                S("problem", p.problem); B("restart", p.restart); S("restart_file", p.restart_file); D("rmax_shift", p.rmax_shift);
                I("Nx0", p.Nx_glob_ng[0]); I("Nx1", p.Nx_glob_ng[1]); I("Nx2", p.Nx_glob_ng[2]);
                S("grid_type", p.grid_type); I("Ng", p.Ng);
                D("x0min", p.x0min); D("x0max", p.x0max); D("x1min", p.x1min); D("x1max", p.x1max); D("x2min", p.x2min); D("x2max", p.x2max);
                S("shift_grid", p.shift_grid); B("mpi_device_aware", p.mpi_device_aware);
                I("dims0", p.mpi_dims_cart[0]); I("dims1", p.mpi_dims_cart[1]); I("dims2", p.mpi_dims_cart[2]);
                D("t_ini", p.t_ini); D("t_end", p.t_end); D("cfl", p.cfl);
                I("max_iter", p.max_iter); I("iter_output_frequency", p.iter_output_frequency);
                D("time_output_frequency", p.time_output_frequency); D("time_first_output", p.time_first_output);
                S("directory", p.directory); S("prefix", p.prefix); I("time_job", p.time_job);
                S("reconstruction_type", p.reconstruction_type); S("riemann_solver", p.riemann_solver);
                D("gx0", p.gx0); D("gx1", p.gx1); D("gx2", p.gx2); D("M", p.M); D("gamma", p.gamma); D("mu", p.mu);
                S("bc_choice", p.bc_choice); S("bc_priority", p.bc_priority); I("nfx", p.nfx);
                S("user_step", p.user_step); S("pressure_fix", p.pressure_fix); D("eps_pf", p.eps_pf);
                // the copy of the reader kept for the setups still answers
                S("reader", p.reader.Get("Setup", "probe", "absent"));
                o.back() = '}';
                std::cout << o << "}" << std::endl;
            } catch (std::exception const& e) {
                std::cout << "{\"ok\":false,\"what\":" << jo::str(e.what()) << "}" << std::endl;
            }
        } catch (std::exception const& e) {
            std::cout << "{\"unreadable\":" << jo::str(e.what()) << "}" << std::endl;
        }
    }
}
