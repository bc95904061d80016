// Reads texts with the real inih/INIReader and reports what they gave.
// stdin, one case per line: <dir/file to use> <hex text> {<hex section>:<hex name>}*
#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <inih/ini.h>
#include <inih/INIReader.hpp>
#include "json_out.hpp"

namespace {
struct Calls { std::vector<std::string> c; bool rej = false; };
int handler(void* u, const char* s, const char* n, const char* v)
{
    auto* p = static_cast<Calls*>(u);
    p->c.push_back("[" + jo::codes(s) + "," + jo::codes(n) + "," + jo::codes(v) + "]");
    if (std::string(n) == "rej") { p->rej = true; return 0; }
    return 1;
}
std::string unhex(std::string const& h)
{
    std::string o;
    for (std::size_t i = 0; i + 1 < h.size(); i += 2) o += (char)std::stoi(h.substr(i, 2), nullptr, 16);
    return o;
}
std::string join(Calls const& c)
{
    return jo::list(c.c.size(), [&](std::size_t i) { return c.c[i]; });
}
} // namespace

int main(int, char** argv)
{
    std::string const file = argv[1];
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        std::string tag, h;
        is >> tag;
        if (tag != "T") continue;
        std::string text;
        std::vector<std::pair<std::string, std::string>> q;
        while (is >> h) {
            auto p = h.find(':');
            if (p == std::string::npos) text = unhex(h.substr(1));
            else q.emplace_back(unhex(h.substr(0, p)), unhex(h.substr(p + 1)));
        }
        { std::ofstream f(file, std::ios::binary); f << text; }
        Calls a, b;
        int const ra = ini_parse(file.c_str(), handler, &a);
        int const rb = ini_parse_string(text.c_str(), handler, &b);
        int ctor = 0;
        std::string lookups = "[]";
        std::string msg;
        try {
            INIReader const r(file);
            lookups = jo::list(q.size(), [&](std::size_t i) {
                std::string const d1 = "\x01none", d2 = "\x02none";
                std::string const v1 = r.Get(q[i].first, q[i].second, d1), v2 = r.Get(q[i].first, q[i].second, d2);
                bool const found = !(v1 == d1 && v2 == d2);
                return "{\"s\":" + jo::codes(q[i].first) + ",\"n\":" + jo::codes(q[i].second) + ",\"found\":" + (found ? "true" : "false") + ",\"v\":" + jo::codes(found ? v1 : "") + "}";
            });
        } catch (std::exception const& e) {
            // the failure must name the line: take the last number of the message
            std::string const m = e.what();
            msg = m;
            ctor = -1;
            std::size_t e2 = m.find_last_of("0123456789");
            if (e2 != std::string::npos) {
                std::size_t b2 = e2;
                while (b2 > 0 && isdigit((unsigned char)m[b2 - 1])) --b2;
                ctor = std::stoi(m.substr(b2, e2 - b2 + 1));
            }
        }
        std::cout << "{\"text\":" << jo::codes(text) << ",\"calls\":" << join(a) << ",\"ret\":" << ra << ",\"scalls\":" << join(b) << ",\"sret\":" << rb << ",\"uses_rej\":" << (a.rej ? "true" : "false") << ",\"ctor\":" << ctor << ",\"msg\":" << jo::str(msg) << ",\"lookups\":" << lookups << "}" << std::endl;
    }
    // a missing file
    int const rm = ini_parse((file + ".does-not-exist").c_str(), handler, nullptr);
    bool threw = false;
    try { INIReader const r(file + ".does-not-exist"); } catch (std::exception const&) { threw = true; }
    INIReader const empty;
    std::cout << "{\"missing\":" << rm << ",\"threw\":" << (threw ? "true" : "false") << "}" << std::endl;
}
