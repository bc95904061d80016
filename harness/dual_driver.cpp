// Performs sequences of accesses on mirrored arrays and reports what each one saw.
#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

#include <Kokkos_Core.hpp>
#include <dual_view.hpp>

using namespace hclpp;

template <class Space>
struct Bench
{
    using D = DualView<double*, Kokkos::LayoutLeft, Space>;
    using C = DualView<double const*, Kokkos::LayoutLeft, Space>;
    D d[4];
    C k[4];
    double counter = 0;
    std::string log;
    unsigned long h2d = 0, d2h = 0;
    static constexpr bool shared = !std::is_same_v<Space, Kokkos::DefaultExecutionSpace::memory_space>;

    std::string moves()
    {
        auto& s = hclshim::state();
        std::string r = ",\"h2d\":" + std::to_string(s.dc_h2d - h2d) + ",\"d2h\":" + std::to_string(s.dc_d2h - d2h) + ",\"shared\":" + (shared ? "true" : "false");
        return r;
    }
    void mark() { h2d = hclshim::state().dc_h2d; d2h = hclshim::state().dc_d2h; }
    void add(std::string const& s) { log += (log.empty() ? "" : ",") + ("{" + s + "}"); }

    template <access_target AT, class V>
    static std::vector<double> content(V const& v)
    {
        std::vector<double> r(v.extent(0));
        double* const p = r.data();
        if constexpr (AT == access_target::device)
            Kokkos::parallel_for("read", Kokkos::RangePolicy<int>(0, v.extent_int(0)), KOKKOS_LAMBDA(int i) { p[i] = v(i); });
        else
            for (int i = 0; i < v.extent_int(0); ++i) p[i] = v(i);
        return r;
    }
    template <access_target AT, class V>
    static void put(V const& v, int first, int last, double x)
    {
        if constexpr (AT == access_target::device)
            Kokkos::parallel_for("write", Kokkos::RangePolicy<int>(first, last), KOKKOS_LAMBDA(int i) { v(i) = x; });
        else
            for (int i = first; i < last; ++i) v(i) = x;
    }
    static std::string list(std::vector<double> const& v)
    {
        std::string s = "[";
        for (std::size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(static_cast<long>(v[i]));
        return s + "]";
    }
    template <access_target AT, access_mode AM, class H>
    auto get(H const& h, int form)
    {
        if constexpr (AM == access_mode::read_write) {
            if (form == 2) return h(AccessTargetTag<AT> {});
        }
        if (form == 1) return h(AccessTargetTag<AT> {}, AccessModeTag<AM> {});
        return h(AccessTag<AT, AM> {});
    }
    template <access_target AT>
    void access(int h, std::string const& mode, int form)
    {
        std::vector<double> seen;
        double v = 0;
        int kk = 1;
        mark();
        if (mode == "r") {
            if (h < 4) seen = content<AT>(get<AT, access_mode::read_only>(d[h], form));
            else seen = content<AT>(get<AT, access_mode::read_only>(k[h - 4], form));
        } else if (mode == "x") {
            auto const w = get<AT, access_mode::read_write>(d[h], form);
            seen = content<AT>(w);
            v = ++counter;
            kk = static_cast<int>(counter) % w.extent_int(0);
            put<AT>(w, kk, kk + 1, v);
            ++kk;
        } else {
            auto const w = get<AT, access_mode::discard_write>(d[h], form);
            v = ++counter;
            put<AT>(w, 0, w.extent_int(0), v);
        }
        add("\"op\":\"access\",\"h\":" + std::to_string(h) + ",\"side\":\"" + (AT == access_target::host ? "host" : "device") + "\",\"mode\":\"" + mode + "\",\"form\":" + std::to_string(form) + ",\"v\":" + std::to_string(static_cast<long>(v)) + ",\"k\":" + std::to_string(kk) + ",\"seen\":" + list(seen) + moves());
    }
    template <class H>
    void need(H const& x, int h)
    {
        mark();
        bool const nh = x.need_synchronization(host), nd = x.need_synchronization(device);
        add("\"op\":\"need\",\"h\":" + std::to_string(h) + ",\"host\":" + (nh ? "true" : "false") + ",\"device\":" + (nd ? "true" : "false") + moves());
    }
    template <class H>
    void info(H const& x, int h)
    {
        add("\"op\":\"info\",\"h\":" + std::to_string(h) + ",\"size\":" + std::to_string(x.size()) + ",\"extent\":" + std::to_string(x.extent(0)) + ",\"extent_int\":" + std::to_string(x.extent_int(0)) + ",\"span\":" + std::to_string(x.span()) + ",\"stride\":" + std::to_string(x.stride(0)) + ",\"label\":\"" + x.label() + "\",\"allocated\":" + (x.is_allocated() ? "true" : "false") + moves());
    }
    void run(std::istringstream& is)
    {
        std::string op;
        while (is >> op) {
            int h = 0, f = 0;
            std::string side, mode;
            if (op == "N") {
                int n = 0;
                is >> h >> n;
                d[h] = D("array", n);
                add("\"op\":\"new\",\"h\":" + std::to_string(h) + ",\"n\":" + std::to_string(n));
            } else if (op == "A") {
                is >> h >> side >> mode >> f;
                if (side == "h") access<access_target::host>(h, mode, f);
                else access<access_target::device>(h, mode, f);
            } else if (op == "S") {
                is >> h >> side;
                mark();
                if (h < 4) { if (side == "h") d[h].synchronize(host); else d[h].synchronize(device); }
                else { if (side == "h") k[h - 4].synchronize(host); else k[h - 4].synchronize(device); }
                add("\"op\":\"sync\",\"h\":" + std::to_string(h) + ",\"side\":\"" + (side == "h" ? "host" : "device") + "\"" + moves());
            } else if (op == "Q") {
                is >> h;
                if (h < 4) need(d[h], h);
                else need(k[h - 4], h);
            } else if (op == "K") { // the user declares both sides equal
                is >> h;
                mark();
                if (h < 4) d[h].clear_synchronization_state();
                else k[h - 4].clear_synchronization_state();
                add("\"op\":\"clear\",\"h\":" + std::to_string(h) + moves());
            } else if (op == "I") {
                is >> h;
                mark();
                if (h < 4) info(d[h], h);
                else info(k[h - 4], h);
            } else { // C: copy, M: move; f chooses how
                int from = 0, how = 0;
                is >> h >> from >> how;
                mark();
                bool const move = op == "M";
                if (h < 4) {
                    if (move) { if (how % 2) d[h] = std::move(d[from]); else { D t(std::move(d[from])); d[h] = std::move(t); } }
                    else if (how % 2) d[h] = d[from];
                    else { D const t(d[from]); d[h] = t; }
                } else if (from < 4) {
                    if (move) { if (how % 2) k[h - 4] = std::move(d[from]); else k[h - 4] = C(std::move(d[from])); }
                    else if (how % 3 == 0) k[h - 4] = d[from].const_view();
                    else if (how % 3 == 1) k[h - 4] = d[from];
                    else k[h - 4] = C(d[from]);
                } else {
                    if (move) k[h - 4] = std::move(k[from - 4]);
                    else if (how % 2) k[h - 4] = k[from - 4];
                    else k[h - 4] = k[from - 4].const_view();
                }
                add(std::string("\"op\":\"") + (move ? "move" : "alias") + "\",\"h\":" + std::to_string(h) + ",\"from\":" + std::to_string(from) + ",\"how\":" + std::to_string(how) + moves());
            }
        }
    }
};

int main(int argc, char** argv)
{
    Kokkos::ScopeGuard const guard(argc, argv);
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        std::string space;
        is >> space;
        if (space == "dev") { Bench<Kokkos::DefaultExecutionSpace::memory_space> b; b.run(is); std::cout << "{\"space\":\"dev\",\"ops\":[" << b.log << "]}" << std::endl; }
        else { Bench<Kokkos::SharedHostPinnedSpace> b; b.run(is); std::cout << "{\"space\":\"pin\",\"ops\":[" << b.log << "]}" << std::endl; }
    }
    return 0;
}
