// Minimal JSON helpers of the drivers.
#pragma once
#include <cstdio>
#include <string>
#include <vector>
#include <cmath>
#include <cstdint>
#include <cstring>

namespace jo {
inline std::string codes(std::string const& s)
{
    std::string o = "[";
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (i) o += ",";
        o += std::to_string((unsigned)(unsigned char)s[i]);
    }
    return o + "]";
}
inline std::string str(std::string const& s)
{
    std::string o = "\"";
    for (unsigned char ch : s) {
        char b[8];
        if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
        else if (ch < 0x20 || ch > 0x7e) { std::snprintf(b, 8, "\\u%04x", ch); o += b; }
        else o += (char)ch;
    }
    return o + "\"";
}
// a double as text that reads back exactly
inline std::string num(double x)
{
    if (std::isnan(x)) return "\"nan\"";
    if (std::isinf(x)) return x > 0 ? "\"inf\"" : "\"-inf\"";
    char b[40];
    std::snprintf(b, 40, "\"%.17g\"", x);
    return b;
}
// the bits of a double
inline std::string bits(double x)
{
    std::uint64_t u;
    std::memcpy(&u, &x, 8);
    char b[24];
    std::snprintf(b, 24, "\"%016llx\"", (unsigned long long)u);
    return b;
}
template <class F>
std::string list(std::size_t n, F&& f)
{
    std::string o = "[";
    for (std::size_t i = 0; i < n; ++i) {
        if (i) o += ",";
        o += f(i);
    }
    return o + "]";
}
} // namespace jo
