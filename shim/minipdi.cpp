// Minimal interpreter of a PDI specification tree with the decl_hdf5 plugin.
// Errors that PDI would report end the process with exit code 89 (MINIPDI: ...).
#include <mpi.h>

#include <cctype>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

#include <hdf5.h>
#include <sys/stat.h>

#include "paraconf.h"
#include "pdi.h"

// set while the stand-in itself talks to HDF5 (harness/h5watch.cpp)
extern "C" void hclshim_foreign(void const*, char const*) __attribute__((weak));
extern "C" int minipdi_inside __attribute__((weak));
int minipdi_inside = 0;
namespace {
struct Inside { Inside() { ++minipdi_inside; } ~Inside() { --minipdi_inside; } };
}

namespace minipdi {

[[noreturn]] void die(std::string const& what)
{
    std::fflush(stdout);
    std::fprintf(stderr, "MINIPDI: %s\n", what.c_str());
    std::fflush(stderr);
    std::_Exit(89);
}

// ------------------------------------------------------------------ YAML
struct Node;
using NodeP = std::shared_ptr<Node>;
struct Node
{
    enum Kind { Null, Scalar, Map, List } kind = Null;
    std::string scalar;
    std::vector<std::pair<std::string, NodeP>> map;
    std::vector<NodeP> list;
    NodeP get(std::string const& k) const
    {
        for (auto const& [kk, v] : map) {
            if (kk == k) {
                return v;
            }
        }
        return nullptr;
    }
};

struct Line
{
    int indent;
    std::string text;
};

std::string strip(std::string const& s)
{
    std::size_t b = 0;
    std::size_t e = s.size();
    while (b < e && std::isspace(static_cast<unsigned char>(s[b]))) {
        ++b;
    }
    while (e > b && std::isspace(static_cast<unsigned char>(s[e - 1]))) {
        --e;
    }
    return s.substr(b, e - b);
}

std::string strip_comment(std::string const& s)
{
    char q = 0;
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (q != 0) {
            if (s[i] == q) {
                q = 0;
            }
        } else if (s[i] == '\'' || s[i] == '"') {
            q = s[i];
        } else if (s[i] == '#' && (i == 0 || std::isspace(static_cast<unsigned char>(s[i - 1])))) {
            return s.substr(0, i);
        }
    }
    return s;
}

// flow style value
NodeP parse_flow(std::string const& s, std::size_t& i);

void skip_ws(std::string const& s, std::size_t& i)
{
    while (i < s.size() && std::isspace(static_cast<unsigned char>(s[i]))) {
        ++i;
    }
}

std::string flow_token(std::string const& s, std::size_t& i, bool key)
{
    skip_ws(s, i);
    if (i < s.size() && (s[i] == '\'' || s[i] == '"')) {
        char const q = s[i++];
        std::string out;
        while (i < s.size() && s[i] != q) {
            out += s[i++];
        }
        ++i;
        return out;
    }
    std::string out;
    int depth = 0;
    while (i < s.size()) {
        char const c = s[i];
        if (c == '$' && i + 1 < s.size() && s[i + 1] == '{') {
            while (i < s.size() && s[i] != '}') {
                out += s[i++];
            }
            out += s[i++];
            continue;
        }
        if (depth == 0 && (c == ',' || c == '}' || c == ']')) {
            break;
        }
        if (key && c == ':') {
            break;
        }
        out += c;
        ++i;
    }
    return strip(out);
}

NodeP parse_flow(std::string const& s, std::size_t& i)
{
    skip_ws(s, i);
    auto n = std::make_shared<Node>();
    if (i < s.size() && s[i] == '{') {
        n->kind = Node::Map;
        ++i;
        skip_ws(s, i);
        while (i < s.size() && s[i] != '}') {
            std::string k = flow_token(s, i, true);
            skip_ws(s, i);
            if (i < s.size() && s[i] == ':') {
                ++i;
            }
            n->map.emplace_back(k, parse_flow(s, i));
            skip_ws(s, i);
            if (i < s.size() && s[i] == ',') {
                ++i;
                skip_ws(s, i);
            }
        }
        if (i >= s.size()) {
            die("YAML: unterminated flow map: " + s);
        }
        ++i;
        return n;
    }
    if (i < s.size() && s[i] == '[') {
        n->kind = Node::List;
        ++i;
        skip_ws(s, i);
        while (i < s.size() && s[i] != ']') {
            n->list.push_back(parse_flow(s, i));
            skip_ws(s, i);
            if (i < s.size() && s[i] == ',') {
                ++i;
                skip_ws(s, i);
            }
        }
        if (i >= s.size()) {
            die("YAML: unterminated flow list: " + s);
        }
        ++i;
        return n;
    }
    n->kind = Node::Scalar;
    n->scalar = flow_token(s, i, false);
    return n;
}

NodeP parse_value_text(std::string const& text)
{
    std::string const t = strip(text);
    auto n = std::make_shared<Node>();
    if (t.empty() || t == "~" || t == "null") {
        return n;
    }
    if (t[0] == '{' || t[0] == '[') {
        std::size_t i = 0;
        return parse_flow(t, i);
    }
    n->kind = Node::Scalar;
    if (t.size() >= 2 && (t[0] == '\'' || t[0] == '"') && t.back() == t[0]) {
        n->scalar = t.substr(1, t.size() - 2);
    } else {
        n->scalar = t;
    }
    return n;
}

// position of the ':' that ends a block key, or npos
std::size_t key_colon(std::string const& t)
{
    char q = 0;
    int depth = 0;
    for (std::size_t i = 0; i < t.size(); ++i) {
        char const c = t[i];
        if (q != 0) {
            if (c == q) {
                q = 0;
            }
            continue;
        }
        if (c == '\'' || c == '"') {
            q = c;
        } else if (c == '{' || c == '[') {
            ++depth;
        } else if (c == '}' || c == ']') {
            --depth;
        } else if (c == ':' && depth == 0 && (i + 1 == t.size() || t[i + 1] == ' ')) {
            return i;
        }
    }
    return std::string::npos;
}

std::string unquote(std::string const& s)
{
    if (s.size() >= 2 && (s[0] == '\'' || s[0] == '"') && s.back() == s[0]) {
        return s.substr(1, s.size() - 2);
    }
    return s;
}

NodeP parse_block(std::vector<Line>& L, std::size_t& p, int indent);

bool is_item(std::string const& t)
{
    return t == "-" || t.rfind("- ", 0) == 0;
}

NodeP parse_block(std::vector<Line>& L, std::size_t& p, int indent)
{
    auto n = std::make_shared<Node>();
    if (p >= L.size()) {
        return n;
    }
    if (is_item(L[p].text)) {
        n->kind = Node::List;
        while (p < L.size() && L[p].indent == indent && is_item(L[p].text)) {
            std::string rest = L[p].text.substr(1);
            std::size_t skip = 0;
            while (skip < rest.size() && rest[skip] == ' ') {
                ++skip;
            }
            rest = rest.substr(skip);
            if (rest.empty()) {
                ++p;
                if (p < L.size() && L[p].indent > indent) {
                    n->list.push_back(parse_block(L, p, L[p].indent));
                } else {
                    n->list.push_back(std::make_shared<Node>());
                }
            } else if (rest[0] != '{' && rest[0] != '[' && key_colon(rest) != std::string::npos) {
                L[p].indent = indent + 1 + static_cast<int>(skip);
                L[p].text = rest;
                n->list.push_back(parse_block(L, p, L[p].indent));
            } else {
                n->list.push_back(parse_value_text(rest));
                ++p;
            }
        }
        return n;
    }
    n->kind = Node::Map;
    while (p < L.size() && L[p].indent == indent && !is_item(L[p].text)) {
        std::string const t = L[p].text;
        std::size_t const c = key_colon(t);
        if (c == std::string::npos) {
            die("YAML: cannot parse line: " + t);
        }
        std::string const k = unquote(strip(t.substr(0, c)));
        std::string const v = strip(t.substr(c + 1));
        ++p;
        if (!v.empty()) {
            n->map.emplace_back(k, parse_value_text(v));
        } else if (p < L.size() && (L[p].indent > indent || (L[p].indent == indent && is_item(L[p].text)))) {
            n->map.emplace_back(k, parse_block(L, p, L[p].indent));
        } else {
            n->map.emplace_back(k, std::make_shared<Node>());
        }
    }
    return n;
}

NodeP parse_yaml(std::string const& doc)
{
    std::vector<Line> L;
    std::istringstream in(doc);
    std::string s;
    while (std::getline(in, s)) {
        if (s.find('\t') != std::string::npos) {
            for (auto& ch : s) {
                if (ch == '\t') {
                    die("YAML: tab character");
                }
            }
        }
        std::string const t = strip_comment(s);
        if (strip(t).empty() || strip(t) == "---") {
            continue;
        }
        int ind = 0;
        while (t[static_cast<std::size_t>(ind)] == ' ') {
            ++ind;
        }
        // a flow collection may span lines
        std::string body = strip(t);
        L.push_back({ind, body});
    }
    std::size_t p = 0;
    if (L.empty()) {
        return std::make_shared<Node>();
    }
    NodeP const r = parse_block(L, p, L[0].indent);
    if (p != L.size()) {
        die("YAML: bad indentation at: " + L[p].text);
    }
    return r;
}

// ------------------------------------------------------------------ data store
struct Item
{
    NodeP type;
    bool metadata = false;
    void* shared = nullptr; // while exposed
    int access = 0;
    std::vector<unsigned char> copy; // metadata
    bool has_copy = false;
};

struct Context
{
    NodeP conf;
    std::map<std::string, Item> items;
    std::vector<NodeP> h5;
    bool on = false;
};
Context ctx;

struct Val
{
    bool is_str = false;
    double d = 0;
    std::string s;
};

Val eval_expr(std::string const& e);
Val ref_value(std::string const& name, std::vector<long long> const& idx);

struct Type
{
    std::string sub; // int, double, char, MPI_Comm, int64
    std::vector<hsize_t> dims; // empty: scalar
};

std::size_t elem_size(std::string const& s)
{
    if (s == "int") {
        return sizeof(int);
    }
    if (s == "double") {
        return sizeof(double);
    }
    if (s == "char") {
        return 1;
    }
    if (s == "int64") {
        return 8;
    }
    if (s == "float") {
        return 4;
    }
    if (s == "MPI_Comm") {
        return sizeof(MPI_Comm);
    }
    die("unknown type " + s);
}

std::vector<hsize_t> eval_dims(NodeP const& n)
{
    std::vector<hsize_t> out;
    if (!n || n->kind == Node::Null) {
        die("missing size");
    }
    auto one = [&](NodeP const& v) {
        Val const x = eval_expr(v->scalar);
        if (x.is_str || x.d < 0) {
            die("bad size expression " + v->scalar);
        }
        out.push_back(static_cast<hsize_t>(x.d));
    };
    if (n->kind == Node::List) {
        for (auto const& v : n->list) {
            one(v);
        }
    } else {
        one(n);
    }
    return out;
}

Type eval_type(NodeP const& n)
{
    Type t;
    if (!n) {
        die("no type");
    }
    if (n->kind == Node::Scalar) {
        t.sub = n->scalar;
        return t;
    }
    NodeP const ty = n->get("type");
    if (ty && ty->scalar == "array") {
        if (!n->get("subtype")) {
            die("array without subtype");
        }
        t.sub = n->get("subtype")->scalar;
        t.dims = eval_dims(n->get("size"));
        return t;
    }
    if (ty) {
        t.sub = ty->scalar;
        return t;
    }
    die("bad type description");
}

std::size_t type_bytes(Type const& t)
{
    std::size_t s = elem_size(t.sub);
    for (auto d : t.dims) {
        s *= static_cast<std::size_t>(d);
    }
    return s;
}

void const* item_ptr(std::string const& name)
{
    auto it = ctx.items.find(name);
    if (it == ctx.items.end()) {
        die("unknown data '" + name + "'");
    }
    if (it->second.metadata && it->second.has_copy) {
        return it->second.copy.data();
    }
    if (it->second.shared != nullptr) {
        return it->second.shared;
    }
    die("data '" + name + "' is not available");
}

Val ref_value(std::string const& name, std::vector<long long> const& idx)
{
    if (ctx.items.find(name) == ctx.items.end()) {
        die("reference to unknown data '" + name + "'");
    }
    Type const t = eval_type(ctx.items[name].type);
    void const* p = item_ptr(name);
    Val v;
    if (t.sub == "char" && !t.dims.empty() && idx.empty()) {
        v.is_str = true;
        v.s.assign(static_cast<char const*>(p), static_cast<std::size_t>(t.dims[0]));
        return v;
    }
    std::size_t k = 0;
    if (!idx.empty()) {
        if (idx.size() != t.dims.size()) {
            die("bad index on '" + name + "'");
        }
        for (std::size_t i = 0; i < idx.size(); ++i) {
            if (idx[i] < 0 || static_cast<hsize_t>(idx[i]) >= t.dims[i]) {
                die("index out of range on '" + name + "'");
            }
            k = k * static_cast<std::size_t>(t.dims[i]) + static_cast<std::size_t>(idx[i]);
        }
    }
    if (t.sub == "int") {
        v.d = static_cast<int const*>(p)[k];
    } else if (t.sub == "double") {
        v.d = static_cast<double const*>(p)[k];
    } else if (t.sub == "int64") {
        v.d = static_cast<double>(static_cast<std::int64_t const*>(p)[k]);
    } else if (t.sub == "char") {
        v.d = static_cast<char const*>(p)[k];
    } else {
        die("cannot evaluate '" + name + "' of type " + t.sub);
    }
    return v;
}

struct Parser
{
    std::string const& s;
    std::size_t i = 0;
    explicit Parser(std::string const& t) : s(t) {}
    void ws()
    {
        while (i < s.size() && std::isspace(static_cast<unsigned char>(s[i]))) {
            ++i;
        }
    }
    bool eat(std::string const& t)
    {
        ws();
        if (s.compare(i, t.size(), t) == 0) {
            i += t.size();
            return true;
        }
        return false;
    }
    double orx()
    {
        double a = andx();
        while (eat("|")) {
            double const b = andx();
            a = (a != 0) || (b != 0);
        }
        return a;
    }
    double andx()
    {
        double a = cmp();
        while (eat("&")) {
            double const b = cmp();
            a = (a != 0) && (b != 0);
        }
        return a;
    }
    double cmp()
    {
        double const a = add();
        if (eat("<=")) {
            return a <= add();
        }
        if (eat(">=")) {
            return a >= add();
        }
        if (eat("!=")) {
            return a != add();
        }
        if (eat("<")) {
            return a < add();
        }
        if (eat(">")) {
            return a > add();
        }
        if (eat("=")) {
            return a == add();
        }
        return a;
    }
    double add()
    {
        double a = mul();
        for (;;) {
            if (eat("+")) {
                a += mul();
            } else if (eat("-")) {
                a -= mul();
            } else {
                return a;
            }
        }
    }
    double mul()
    {
        double a = prim();
        for (;;) {
            if (eat("*")) {
                a *= prim();
            } else if (eat("/")) {
                double const b = prim();
                long long const ia = static_cast<long long>(a);
                long long const ib = static_cast<long long>(b);
                a = (ib != 0 && static_cast<double>(ia) == a && static_cast<double>(ib) == b) ? static_cast<double>(ia / ib) : a / b;
            } else if (eat("%")) {
                a = static_cast<double>(static_cast<long long>(a) % static_cast<long long>(prim()));
            } else {
                return a;
            }
        }
    }
    Val reference()
    {
        bool const brace = i < s.size() && s[i] == '{';
        if (brace) {
            ++i;
        }
        std::string name;
        while (i < s.size() && (std::isalnum(static_cast<unsigned char>(s[i])) || s[i] == '_')) {
            name += s[i++];
        }
        std::vector<long long> idx;
        while (i < s.size() && s[i] == '[') {
            ++i;
            idx.push_back(static_cast<long long>(orx()));
            if (!eat("]")) {
                die("expected ] in " + s);
            }
        }
        if (brace) {
            if (!eat("}")) {
                die("expected } in " + s);
            }
        }
        return ref_value(name, idx);
    }
    double prim()
    {
        ws();
        if (eat("(")) {
            double const a = orx();
            if (!eat(")")) {
                die("expected ) in " + s);
            }
            return a;
        }
        if (eat("-")) {
            return -prim();
        }
        if (i < s.size() && s[i] == '$') {
            ++i;
            Val const v = reference();
            if (v.is_str) {
                die("string in arithmetic expression: " + s);
            }
            return v.d;
        }
        std::size_t n = 0;
        double const d = std::strtod(s.c_str() + i, nullptr);
        char* end = nullptr;
        std::strtod(s.c_str() + i, &end);
        n = static_cast<std::size_t>(end - (s.c_str() + i));
        if (n == 0) {
            die("cannot parse expression: " + s);
        }
        i += n;
        return d;
    }
};

Val eval_expr(std::string const& e)
{
    Parser p(e);
    Val v;
    v.d = p.orx();
    p.ws();
    if (p.i != e.size()) {
        die("trailing text in expression: " + e);
    }
    return v;
}

std::string eval_string(std::string const& e)
{
    std::string out;
    Parser p(e);
    while (p.i < e.size()) {
        if (e[p.i] == '$') {
            ++p.i;
            Val const v = p.reference();
            if (v.is_str) {
                out += v.s;
            } else {
                std::ostringstream ss;
                ss << static_cast<long long>(v.d);
                out += ss.str();
            }
        } else {
            out += e[p.i++];
        }
    }
    return out;
}

bool eval_when(NodeP const& n)
{
    NodeP const w = n && n->kind == Node::Map ? n->get("when") : nullptr;
    if (!w || w->kind == Node::Null) {
        return true;
    }
    return eval_expr(w->scalar).d != 0;
}

hid_t h5type(std::string const& s)
{
    if (s == "int") {
        return H5T_NATIVE_INT;
    }
    if (s == "double") {
        return H5T_NATIVE_DOUBLE;
    }
    if (s == "char") {
        return H5T_NATIVE_CHAR;
    }
    if (s == "int64") {
        return H5T_NATIVE_INT64;
    }
    die("no HDF5 type for " + s);
}

bool exists(std::string const& p)
{
    struct stat st;
    return ::stat(p.c_str(), &st) == 0;
}

hid_t make_space(std::vector<hsize_t> const& dims)
{
    if (dims.empty()) {
        return H5Screate(H5S_SCALAR);
    }
    return H5Screate_simple(static_cast<int>(dims.size()), dims.data(), nullptr);
}

void select(hid_t space, NodeP const& sel, std::vector<hsize_t> const& dims)
{
    if (!sel || sel->kind == Node::Null) {
        return;
    }
    std::vector<hsize_t> size = sel->get("size") ? eval_dims(sel->get("size")) : dims;
    std::vector<hsize_t> start = sel->get("start") ? eval_dims(sel->get("start")) : std::vector<hsize_t>(dims.size(), 0);
    if (size.size() != dims.size() || start.size() != dims.size()) {
        die("selection rank mismatch");
    }
    for (std::size_t i = 0; i < dims.size(); ++i) {
        if (start[i] + size[i] > dims[i]) {
            die("selection exceeds the dataset");
        }
    }
    if (H5Sselect_hyperslab(space, H5S_SELECT_SET, start.data(), nullptr, size.data(), nullptr) < 0) {
        die("hyperslab selection failed");
    }
}

// normalise "write: {name: spec | [spec...]}" into (name, spec) pairs
std::vector<std::pair<std::string, NodeP>> operations(NodeP const& n)
{
    std::vector<std::pair<std::string, NodeP>> out;
    if (!n || n->kind == Node::Null) {
        return out;
    }
    if (n->kind == Node::Scalar) {
        out.emplace_back(n->scalar, std::make_shared<Node>());
        return out;
    }
    if (n->kind == Node::List) {
        for (auto const& v : n->list) {
            auto sub = operations(v);
            out.insert(out.end(), sub.begin(), sub.end());
        }
        return out;
    }
    for (auto const& [k, v] : n->map) {
        if (v->kind == Node::List) {
            for (auto const& w : v->list) {
                out.emplace_back(k, w);
            }
        } else {
            out.emplace_back(k, v);
        }
    }
    return out;
}

void run_h5(NodeP const& f)
{
    if (!eval_when(f)) {
        return;
    }
    auto const writes = operations(f->get("write"));
    auto const reads = operations(f->get("read"));
    std::string const path = eval_string(f->get("file")->scalar);
    NodeP const comm_n = f->get("communicator");
    bool const parallel = comm_n && comm_n->kind == Node::Scalar;
    hid_t const fapl = H5Pcreate(H5P_FILE_ACCESS);
    hid_t const xfer = H5Pcreate(H5P_DATASET_XFER);
    if (parallel) {
        std::string c = comm_n->scalar;
        if (!c.empty() && c[0] == '$') {
            c = c.substr(1);
        }
        if (c.size() > 2 && c[0] == '{') {
            c = c.substr(1, c.size() - 2);
        }
        MPI_Comm comm = MPI_COMM_WORLD;
        if (c != "MPI_COMM_WORLD") {
            std::memcpy(&comm, item_ptr(c), sizeof(comm));
        }
        H5Pset_fapl_mpio(fapl, comm, MPI_INFO_NULL);
        H5Pset_dxpl_mpio(xfer, H5FD_MPIO_COLLECTIVE);
    }
    std::string const pol = f->get("collision_policy") ? f->get("collision_policy")->scalar : "skip_and_warn";
    hid_t file = -1;
    if (!writes.empty()) {
        bool there = exists(path);
        if (parallel) {
            MPI_Barrier(MPI_COMM_WORLD);
            there = exists(path);
            MPI_Barrier(MPI_COMM_WORLD);
        }
        if (there && pol == "write_into") {
            file = H5Fopen(path.c_str(), H5F_ACC_RDWR, fapl);
        } else if (there && pol == "replace") {
            file = H5Fcreate(path.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, fapl);
        } else if (!there) {
            file = H5Fcreate(path.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, fapl);
        } else if (pol == "error") {
            die("file exists: " + path);
        } else {
            std::fprintf(stderr, "MINIPDI: warning: file exists, skipped: %s\n", path.c_str());
            H5Pclose(fapl);
            H5Pclose(xfer);
            return;
        }
    } else {
        file = H5Fopen(path.c_str(), H5F_ACC_RDONLY, fapl);
    }
    if (file < 0) {
        die("cannot open " + path);
    }
    NodeP const dsets = f->get("datasets");
    auto one = [&](std::string const& name, NodeP const& spec, bool write) {
        if (!eval_when(spec)) {
            return;
        }
        auto it = ctx.items.find(name);
        if (it == ctx.items.end()) {
            die("unknown data '" + name + "' in transfer");
        }
        if (it->second.shared == nullptr && !(write && it->second.metadata && it->second.has_copy)) {
            die("data '" + name + "' is not exposed");
        }
        if (!write && !(it->second.access & PDI_IN)) {
            die("data '" + name + "' is exposed read-only but must be read into");
        }
        Type const t = eval_type(it->second.type);
        void* ptr = it->second.shared != nullptr ? it->second.shared : it->second.copy.data();
        std::string dname = name;
        NodeP msel;
        NodeP dsel;
        if (spec && spec->kind == Node::Map) {
            if (spec->get("dataset")) {
                dname = eval_string(spec->get("dataset")->scalar);
            }
            msel = spec->get("memory_selection");
            dsel = spec->get("dataset_selection");
        }
        hid_t const mspace = make_space(t.dims);
        select(mspace, msel, t.dims);
        NodeP const decl = dsets ? dsets->get(dname) : nullptr;
        if (write) {
            std::vector<hsize_t> fdims;
            std::string sub = t.sub;
            if (decl) {
                Type const dt = eval_type(decl);
                fdims = dt.dims;
                sub = dt.sub;
            } else {
                if (msel && msel->kind == Node::Map && !dsel) {
                    fdims = eval_dims(msel->get("size"));
                } else {
                    fdims = t.dims;
                }
            }
            hid_t const fspace = make_space(fdims);
            select(fspace, dsel, fdims);
            hid_t ds = -1;
            if (H5Lexists(file, dname.c_str(), H5P_DEFAULT) > 0) {
                ds = H5Dopen2(file, dname.c_str(), H5P_DEFAULT);
                if (pol != "write_into" && pol != "replace") {
                    die("dataset exists: " + dname);
                }
            } else {
                ds = H5Dcreate2(file, dname.c_str(), h5type(sub), fspace, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
            }
            if (H5Sget_select_npoints(fspace) != H5Sget_select_npoints(mspace)) {
                die("selection sizes differ writing " + dname);
            }
            if (ds < 0 || H5Dwrite(ds, h5type(t.sub), mspace, fspace, xfer, ptr) < 0) {
                die("writing dataset " + dname + " failed");
            }
            H5Dclose(ds);
            H5Sclose(fspace);
        } else {
            hid_t const ds = H5Dopen2(file, dname.c_str(), H5P_DEFAULT);
            if (ds < 0) {
                die("dataset missing: " + dname);
            }
            hid_t const fspace = H5Dget_space(ds);
            int const nd = H5Sget_simple_extent_ndims(fspace);
            std::vector<hsize_t> fdims(static_cast<std::size_t>(nd));
            if (nd > 0) {
                H5Sget_simple_extent_dims(fspace, fdims.data(), nullptr);
            }
            select(fspace, dsel, fdims);
            if (H5Sget_select_npoints(fspace) != H5Sget_select_npoints(mspace)) {
                die("selection sizes differ reading " + dname);
            }
            if (H5Dread(ds, h5type(t.sub), mspace, fspace, xfer, ptr) < 0) {
                die("reading dataset " + dname + " failed");
            }
            if (it->second.metadata) {
                std::memcpy(it->second.copy.data(), ptr, it->second.copy.size());
            }
            H5Dclose(ds);
            H5Sclose(fspace);
        }
        H5Sclose(mspace);
    };
    for (auto const& [name, spec] : writes) {
        one(name, spec, true);
    }
    for (auto const& [name, spec] : reads) {
        one(name, spec, false);
    }
    if (H5Fclose(file) < 0) {
        die("closing " + path + " failed");
    }
    H5Pclose(fapl);
    H5Pclose(xfer);
}

void fire(std::string const& ev)
{
    for (auto const& f : ctx.h5) {
        NodeP const e = f->get("on_event");
        if (!e) {
            continue;
        }
        bool hit = false;
        if (e->kind == Node::List) {
            for (auto const& x : e->list) {
                hit = hit || x->scalar == ev;
            }
        } else {
            hit = e->scalar == ev;
        }
        if (hit) {
            run_h5(f);
        }
    }
}

void share(std::string const& name, void const* data, int access)
{
    hclshim_foreign(data, "PDI");
    if (data == nullptr && name == "nullptr") {
        return;
    }
    auto it = ctx.items.find(name);
    if (it == ctx.items.end()) {
        Item fresh; // unknown to the configuration: PDI accepts and ignores it
        fresh.shared = const_cast<void*>(data);
        fresh.access = access;
        auto n = std::make_shared<Node>();
        n->kind = Node::Scalar;
        n->scalar = "int";
        fresh.type = n;
        ctx.items[name] = fresh;
        return;
    }
    it->second.shared = const_cast<void*>(data);
    it->second.access = access;
    if (it->second.metadata) {
        Type const t = eval_type(it->second.type);
        it->second.copy.assign(static_cast<unsigned char const*>(data), static_cast<unsigned char const*>(data) + type_bytes(t));
        it->second.has_copy = true;
    }
}

void reclaim(std::string const& name)
{
    auto it = ctx.items.find(name);
    if (it == ctx.items.end()) {
        return;
    }
    if (it->second.metadata && it->second.shared != nullptr) {
        Type const t = eval_type(it->second.type);
        auto const* p = static_cast<unsigned char const*>(it->second.shared);
        it->second.copy.assign(p, p + type_bytes(t));
    }
    it->second.shared = nullptr;
    it->second.access = 0;
}

} // namespace minipdi

using namespace minipdi;

extern "C" {

PC_tree_t PC_parse_string(char const* document)
{
    PC_tree_t t;
    t.status = 0;
    t.node = new NodeP(parse_yaml(document));
    return t;
}

PC_tree_t PC_parse_path(char const* path)
{
    std::ifstream f(path);
    if (!f) {
        die(std::string("cannot open ") + path);
    }
    std::stringstream ss;
    ss << f.rdbuf();
    return PC_parse_string(ss.str().c_str());
}

void PC_tree_destroy(PC_tree_t* t)
{
    delete static_cast<NodeP*>(t->node);
    t->node = nullptr;
}

PDI_status_t PDI_init(PC_tree_t conf)
{
    Inside const inside;
    ctx = Context();
    ctx.conf = *static_cast<NodeP*>(conf.node);
    NodeP root = ctx.conf;
    if (root->get("pdi")) {
        root = root->get("pdi");
    }
    for (char const* sec : {"metadata", "data"}) {
        if (NodeP const m = root->get(sec)) {
            for (auto const& [k, v] : m->map) {
                Item it;
                it.type = v;
                it.metadata = std::string(sec) == "metadata";
                ctx.items[k] = it;
            }
        }
    }
    if (NodeP const pl = root->get("plugins")) {
        if (NodeP const h = pl->get("decl_hdf5")) {
            if (h->kind == Node::List) {
                ctx.h5 = h->list;
            } else if (h->kind == Node::Map) {
                ctx.h5.push_back(h);
            }
        }
    }
    ctx.on = true;
    return PDI_OK;
}

PDI_status_t PDI_finalize(void)
{
    Inside const inside;
    ctx = Context();
    return PDI_OK;
}

PDI_status_t PDI_share(char const* name, void const* data, PDI_inout_t access)
{
    Inside const inside;
    share(name, data, access);
    return PDI_OK;
}
PDI_status_t PDI_reclaim(char const* name)
{
    Inside const inside;
    reclaim(name);
    return PDI_OK;
}
PDI_status_t PDI_event(char const* ev)
{
    Inside const inside;
    fire(ev);
    return PDI_OK;
}
PDI_status_t PDI_expose(char const* name, void const* data, PDI_inout_t access)
{
    Inside const inside;
    share(name, data, access);
    reclaim(name);
    return PDI_OK;
}

PDI_status_t PDI_multi_expose(char const* ev, char const* name, void const* data, PDI_inout_t access, ...)
{
    Inside const inside;
    std::vector<std::string> names;
    share(name, data, access);
    names.emplace_back(name);
    va_list ap;
    va_start(ap, access);
    for (;;) {
        char const* n = va_arg(ap, char const*);
        if (n == nullptr) {
            break;
        }
        void const* d = va_arg(ap, void const*);
        int const a = va_arg(ap, int);
        share(n, d, a);
        names.emplace_back(n);
    }
    va_end(ap);
    if (!ctx.on) {
        die("PDI used before PDI_init");
    }
    fire(ev);
    for (auto it = names.rbegin(); it != names.rend(); ++it) {
        reclaim(*it);
    }
    return PDI_OK;
}

} // extern "C"
