// P28: handles, extents, conversions and summary lines of the real headers.
// guard_driver handles: scripts on stdin. guard_driver extents <file>: cases on stdin.
// guard_driver ints: all conversions. guard_driver print: cases on stdin. guard_driver mpi <scenario>.
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <limits>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
#include <hdf5.h>
#include <mpi.h>
#include <int_cast.hpp>
#include <io_hdf5.hpp>
#include <mpi_scope_guard.hpp>
#include <print_info.hpp>
#include "json_out.hpp"
namespace {
std::string g_ev;
void ev(std::string const& fn, long long id)
{
    if (!g_ev.empty()) g_ev += ",";
    g_ev += "[\"" + fn + "\"," + std::to_string(id) + "]";
}
herr_t close_a(hid_t id) { ev("a", id); return 0; }
herr_t close_b(hid_t id) { ev("b", id); return 0; }
herr_t close_c(hid_t id) { ev("c", id); return -1; } // a close that reports failure
struct Scripted {};
hid_t g_next;
std::size_t run(std::string const& s, std::size_t p)
{
    while (p < s.size()) {
        char const ch = s[p++];
        if (ch == 'e') return p;
        if (ch == 't') throw Scripted();
        hid_t const id = ch == 'z' ? 0 : ch == 'n' ? -1 : ch == 'm' ? std::numeric_limits<hid_t>::min() : g_next++;
        hclpp::RaiiH5Hid const h(id, ch == 'f' ? nullptr : ch == 'b' ? close_b : ch == 'c' ? close_c : close_a);
        ev("got", *h);
        p = run(s, p);
    }
    return p;
}
void handles()
{
    std::string s;
    while (std::getline(std::cin, s)) {
        g_ev.clear();
        g_next = 7;
        std::string end = "ok";
        try { run(s, 0); }
        catch (Scripted const&) { end = "scripted"; }
        catch (std::exception const& e) { end = "error"; }
        std::cout << "{\"script\":" << jo::list(s.size(), [&](std::size_t i) { return jo::str(std::string(1, s[i])); }) << ",\"events\":[" << g_ev << "],\"end\":\"" << end << "\"}" << std::endl;
    }
}
template <std::size_t N> std::string extent_case(hid_t f, std::string const& name, std::vector<std::size_t> const& x)
{
    std::array<std::size_t, N> e {};
    for (std::size_t i = 0; i < N; ++i) e[i] = x.at(i);
    H5Iinc_ref(f);
    try {
        hclpp::RaiiH5Hid const file(f, ::H5Fclose);
        hclpp::check_extent_dset(file, name.c_str(), e);
        return "accepted";
    } catch (std::runtime_error const&) {
        return "refused";
    }
}
void extents(char const* path)
{
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    hid_t const f = H5Fcreate(path, H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
    std::string line;
    // D name rank e..   |  C name N x..
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        std::string op, name;
        is >> op >> name;
        if (op == "D" || op == "M" || op == "0" || op == "G") {
            if (op == "G") { H5Gclose(H5Gcreate2(f, name.c_str(), H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT)); continue; }
            std::vector<hsize_t> e, mx;
            hsize_t v;
            while (is >> v) { e.push_back(v); mx.push_back(H5S_UNLIMITED); }
            hid_t const s = op == "0" ? H5Screate(H5S_NULL) : e.empty() ? H5Screate(H5S_SCALAR) : H5Screate_simple(int(e.size()), e.data(), op == "M" ? mx.data() : nullptr);
            hid_t const pl = H5Pcreate(H5P_DATASET_CREATE);
            if (op == "M") { std::vector<hsize_t> ck(e.size(), 2); H5Pset_chunk(pl, int(e.size()), ck.data()); }
            H5Dclose(H5Dcreate2(f, name.c_str(), H5T_NATIVE_DOUBLE, s, H5P_DEFAULT, pl, H5P_DEFAULT));
            H5Pclose(pl);
            H5Sclose(s);
            continue;
        }
        std::size_t n;
        is >> n;
        std::vector<std::size_t> x(n);
        for (auto& y : x) is >> y;
        ssize_t const before = H5Fget_obj_count(f, H5F_OBJ_ALL) + H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_ALL) + H5Inmembers(H5I_DATASPACE, nullptr) * 0;
        hsize_t sp0 = 0, sp1 = 0;
        H5Inmembers(H5I_DATASPACE, &sp0);
        std::string const r = n == 1 ? extent_case<1>(f, name, x) : n == 2 ? extent_case<2>(f, name, x) : n == 3 ? extent_case<3>(f, name, x) : extent_case<4>(f, name, x);
        ssize_t const after = H5Fget_obj_count(f, H5F_OBJ_ALL) + H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_ALL);
        H5Inmembers(H5I_DATASPACE, &sp1);
        std::cout << "{\"name\":" << jo::str(name) << ",\"expected\":" << jo::list(n, [&](std::size_t i) { return std::to_string(x[i]); }) << ",\"result\":\"" << r << "\",\"leaked\":" << (after - before) + (long long)(sp1 - sp0) << "}" << std::endl;
    }
    H5Fclose(f);
}
template <class T> char const* name()
{
    if (std::is_same_v<T, signed char>) return "int8";
    if (std::is_same_v<T, unsigned char>) return "uint8";
    if (std::is_same_v<T, short>) return "int16";
    if (std::is_same_v<T, unsigned short>) return "uint16";
    if (std::is_same_v<T, int>) return "int32";
    if (std::is_same_v<T, unsigned>) return "uint32";
    if (std::is_same_v<T, long> || std::is_same_v<T, long long>) return "int64";
    return "uint64";
}
template <class R, class T> void conv(T t)
{
    std::string r;
    try { r = "{\"ok\":true,\"v\":\"" + std::to_string(hclpp::int_cast<R>(t)) + "\"}"; }
    catch (std::runtime_error const&) { r = "{\"ok\":false,\"v\":\"\"}"; }
    static_assert(std::is_same_v<decltype(hclpp::int_cast<R>(t)), R>);
    std::cout << "{\"from\":\"" << name<T>() << "\",\"to\":\"" << name<R>() << "\",\"x\":\"" << std::to_string(t) << "\",\"res\":" << r << "}\n";
}
template <class T> std::vector<T> values()
{
    std::vector<T> v;
    if constexpr (sizeof(T) == 1) {
        for (int i = std::numeric_limits<T>::min(); i <= std::numeric_limits<T>::max(); ++i) v.push_back(T(i));
        return v;
    } else {
        for (int b = 0; b <= int(sizeof(T) * 8); ++b) {
            std::uint64_t const p = b == 64 ? 0 : (std::uint64_t(1) << b);
            for (int d = -2; d <= 2; ++d) { v.push_back(T(p + std::uint64_t(d))); v.push_back(T(std::uint64_t(0) - p + std::uint64_t(d))); }
        }
        return v;
    }
}
template <class T> void convs()
{
    for (T const t : values<T>()) {
        conv<signed char>(t); conv<unsigned char>(t); conv<short>(t); conv<unsigned short>(t); conv<int>(t); conv<unsigned>(t);
        conv<long>(t); conv<unsigned long>(t); conv<long long>(t); conv<unsigned long long>(t);
    }
}
void ints()
{
    convs<signed char>(); convs<unsigned char>(); convs<short>(); convs<unsigned short>(); convs<int>(); convs<unsigned>();
    convs<long>(); convs<unsigned long>(); convs<long long>(); convs<unsigned long long>();
}
void print()
{
    // one stream per line: type,value pairs separated by \x1f: name\x1ftype\x1fvalue
    std::string line;
    while (std::getline(std::cin, line)) {
        std::stringstream ss;
        std::vector<std::string> p(1);
        for (char ch : line) { if (ch == '\x1f') p.emplace_back(); else p.back() += ch; }
        std::string items;
        for (std::size_t i = 0; i + 2 < p.size(); i += 3) {
            std::string const &n = p[i], &t = p[i + 1], &v = p[i + 2];
            if (t == "int") hclpp::print_info(ss, n, std::stoi(v));
            else if (t == "long") hclpp::print_info(ss, n, std::stol(v));
            else if (t == "ulong") hclpp::print_info(ss, n, std::stoul(v));
            else if (t == "string") hclpp::print_info(ss, n, v);
            else if (t == "view") hclpp::print_info(ss, n, std::string_view(v));
            else if (t == "bool") hclpp::print_info(ss, n, v == "1");
        }
        std::cout << "{\"out\":" << jo::codes(ss.str()) << "}\n";
    }
}
void mpi(std::string const& sc, int argc, char** argv)
{
    int ini = 0, fin = 0;
    auto probe = [&](char const* w) { MPI_Initialized(&ini); MPI_Finalized(&fin); std::cout << w << " " << ini << " " << fin << "\n"; };
    probe("before");
    try {
        if (sc == "plain") { hclpp::MpiScopeGuard const g(argc, argv); probe("inside"); }
        if (sc == "default") { hclpp::MpiScopeGuard const g; probe("inside"); }
        if (sc == "throw") { hclpp::MpiScopeGuard const g(argc, argv); probe("inside"); throw std::runtime_error("x"); }
        if (sc == "default-throw") { hclpp::MpiScopeGuard const g; probe("inside"); throw 3; }
        if (sc == "during-unwind") {
            struct D { ~D() { hclpp::MpiScopeGuard const g; } } const d;
            throw std::runtime_error("x");
        }
    } catch (...) {
        std::cout << "caught 0 0\n";
    }
    probe("after");
}
}
int main(int argc, char** argv)
{
    std::string const m = argv[1];
    if (m == "handles") handles();
    if (m == "extents") extents(argv[2]);
    if (m == "ints") ints();
    if (m == "print") print();
    if (m == "mpi") mpi(argv[2], argc, argv);
}
