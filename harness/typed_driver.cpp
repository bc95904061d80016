// Typed lookups of the real INIReader. stdin: one hex text per line.
#include <cstdio>
#include <fstream>
#include <iostream>
#include <string>
#include <type_traits>
#include <inih/INIReader.hpp>
#include "json_out.hpp"
namespace {
std::string unhex(std::string const& h)
{
    std::string o;
    for (std::size_t i = 0; i + 1 < h.size(); i += 2) o += (char)std::stoi(h.substr(i, 2), nullptr, 16);
    return o;
}
template <class T> std::string show(T v)
{
    if constexpr (std::is_same_v<T, bool>) return v ? "\"true\"" : "\"false\"";
    else if constexpr (std::is_floating_point_v<T>) {
        if (std::isnan((long double)v)) return "\"nan\"";
        if (std::isinf((long double)v)) return v > 0 ? "\"inf\"" : "\"-inf\"";
        char b[80];
        std::snprintf(b, 80, "\"%.25Lg\"", (long double)v);
        return b;
    } else return "\"" + std::to_string(v) + "\"";
}
template <class F> std::string guarded(F&& f)
{
    try { return "{\"ok\":true,\"v\":" + f() + "}"; }
    catch (std::exception const&) { return "{\"ok\":false,\"v\":\"\"}"; }
}
template <class T, class G> std::string two(T a, T b, G&& get)
{
    return "{\"a\":" + guarded([&] { return show(get(a)); }) + ",\"b\":" + guarded([&] { return show(get(b)); }) + ",\"da\":" + show(a) + ",\"db\":" + show(b) + "}";
}
}
int main(int, char** argv)
{
    std::string line;
    long n = 0;
    while (std::getline(std::cin, line)) {
        std::string const v = unhex(line.substr(1));
        bool const absent = line[0] == 'A';
        { std::ofstream f(argv[1], std::ios::binary); f << "[Other]\nkey = 77\n[Sec]\nkey2 = 88\n"; if (!absent) f << "Key = " << v << "\n"; }
        INIReader const r(argv[1]);
        char const* const S = n % 2 ? "Sec" : "sEC";
        char const* const K = n % 3 ? "key" : "KEY";
        ++n;
        std::string const d1 = "dflt1", d2 = "other default";
        std::string const g1 = r.Get(S, K, d1), g2 = r.Get(S, K, d2);
        bool const present = !absent;
        std::string const raw = present ? g1 : "";
        std::string o = "{\"present\":" + std::string(present ? "true" : "false") + ",\"text\":" + jo::codes(raw) + ",\"shown\":" + jo::str(v) + ",\"res\":[";
        o += two<int>(-7, 12345, [&](int d) { return r.GetInteger(S, K, d); }) + ",";
        o += two<long>(-7, 5000000000L, [&](long d) { return r.GetInteger(S, K, d); }) + ",";
        o += two<long long>(-7, 6000000000LL, [&](long long d) { return r.GetInteger(S, K, d); }) + ",";
        o += two<unsigned>(7, 4000000000U, [&](unsigned d) { return r.GetInteger(S, K, d); }) + ",";
        o += two<unsigned long>(7, 10000000000000000000UL, [&](unsigned long d) { return r.GetInteger(S, K, d); }) + ",";
        o += two<unsigned long long>(7, 11000000000000000000ULL, [&](unsigned long long d) { return r.GetInteger(S, K, d); }) + ",";
        o += two<float>(-1.5F, 2.25e20F, [&](float d) { return r.GetReal(S, K, d); }) + ",";
        o += two<double>(-1.5, 2.25e200, [&](double d) { return r.GetReal(S, K, d); }) + ",";
        o += two<long double>(-1.5L, 2.25e300L, [&](long double d) { return r.GetReal(S, K, d); }) + ",";
        o += two<bool>(true, false, [&](bool d) { return r.GetBoolean(S, K, d); }) + ",";
        o += "{\"a\":{\"ok\":true,\"v\":" + jo::str(g1) + ",\"codes\":" + jo::codes(g1) + "},\"b\":{\"ok\":true,\"v\":" + jo::str(g2) + ",\"codes\":" + jo::codes(g2) + "},\"da\":" + jo::str(d1) + ",\"db\":" + jo::str(d2) + "}";
        std::cout << o << "]}" << std::endl;
    }
}
