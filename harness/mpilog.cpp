// Preloaded library: one JSON line per communication call of a process, written when the call is
// made (so that a process that waits for ever has said what for). VERIF_MPILOG=<prefix>.
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <mpi.h>
#include <string>
#include <vector>

namespace {
struct Group { std::string key; std::vector<int> world; int made = 0; };
std::map<MPI_Comm, Group>& comms() { static std::map<MPI_Comm, Group> m; return m; }
std::map<MPI_Request, long>& requests() { static std::map<MPI_Request, long> m; return m; }
long n_half = 0;
int inside = 0; // calls made by calls
std::FILE* f = nullptr;

void say(std::string const& s)
{
    if (f) { std::fprintf(f, "%s\n", s.c_str()); std::fflush(f); }
}
std::string list(std::vector<int> const& v)
{
    std::string s = "[";
    for (std::size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]);
    return s + "]";
}
void open_log()
{
    char const* p = std::getenv("VERIF_MPILOG");
    if (!p) return;
    int r = 0, n = 1;
    PMPI_Comm_rank(MPI_COMM_WORLD, &r);
    PMPI_Comm_size(MPI_COMM_WORLD, &n);
    f = std::fopen((std::string(p) + "." + std::to_string(r)).c_str(), "w");
    Group g {"world", {}, 0};
    for (int i = 0; i < n; ++i) g.world.push_back(i);
    comms()[MPI_COMM_WORLD] = g;
    comms()[MPI_COMM_SELF] = {"self" + std::to_string(r), {r}, 0};
}
Group* known(MPI_Comm c)
{
    auto it = comms().find(c);
    return f && !inside && it != comms().end() ? &it->second : nullptr;
}
std::string type_name(MPI_Datatype t)
{
    char b[MPI_MAX_OBJECT_NAME + 1] = {};
    int n = 0;
    PMPI_Type_get_name(t, b, &n);
    return b;
}
long bytes(int n, MPI_Datatype t)
{
    int s = 0;
    PMPI_Type_size(t, &s);
    return static_cast<long>(n) * s;
}
std::string op_name(MPI_Op o)
{
    return o == MPI_MAX ? "max" : o == MPI_MIN ? "min" : o == MPI_SUM ? "sum" : o == MPI_PROD ? "prod" : o == MPI_LAND ? "land" : o == MPI_LOR ? "lor" : o == MPI_MAXLOC ? "maxloc" : o == MPI_MINLOC ? "minloc" : o == MPI_BAND ? "band" : o == MPI_BOR ? "bor" : "other";
}
void coll(MPI_Comm c, std::string const& sig)
{
    if (Group* g = known(c)) say("{\"k\":\"coll\",\"comm\":\"" + g->key + "\",\"members\":" + list(g->world) + ",\"sig\":\"" + sig + "\"}");
}
std::vector<int> members(MPI_Comm c)
{
    MPI_Group a, w;
    int n = 0;
    PMPI_Comm_group(c, &a);
    PMPI_Comm_group(MPI_COMM_WORLD, &w);
    PMPI_Group_size(a, &n);
    std::vector<int> r(n), out(n);
    for (int i = 0; i < n; ++i) r[i] = i;
    PMPI_Group_translate_ranks(a, n, r.data(), w, out.data());
    PMPI_Group_free(&a);
    PMPI_Group_free(&w);
    return out;
}
// the children of one communicator are numbered alike on all its processes
void child(MPI_Comm parent, MPI_Comm c)
{
    if (!f || inside) return;
    auto it = comms().find(parent);
    if (it == comms().end()) return;
    int const number = it->second.made++;
    if (c == MPI_COMM_NULL) return;
    std::vector<int> m = members(c);
    int const first = *std::min_element(m.begin(), m.end());
    comms()[c] = {it->second.key + "." + std::to_string(number) + "_" + std::to_string(first), m, 0};
}
long half(char d, MPI_Comm c, int peer, int tag, int n, MPI_Datatype t)
{
    Group* g = known(c);
    if (!g || peer == MPI_PROC_NULL) return -1;
    long const id = ++n_half;
    int const w = peer == MPI_ANY_SOURCE ? -1 : g->world.at(peer);
    say(std::string("{\"k\":\"") + d + "\",\"id\":" + std::to_string(id) + ",\"comm\":\"" + g->key + "\",\"peer\":" + std::to_string(w) + ",\"tag\":" + std::to_string(tag == MPI_ANY_TAG ? -1 : tag) + ",\"bytes\":" + std::to_string(bytes(n, t)) + "}");
    return id;
}
void wait_for(std::vector<long> ids)
{
    std::vector<int> v;
    for (long i : ids)
        if (i > 0) v.push_back(static_cast<int>(i));
    if (!v.empty()) say("{\"k\":\"wait\",\"ids\":" + list(v) + "}");
}
long take(MPI_Request r)
{
    auto it = requests().find(r);
    if (it == requests().end()) return -1;
    long const id = it->second;
    requests().erase(it);
    return id;
}
struct In { In() { ++inside; } ~In() { --inside; } };
} // namespace

#define CALL(x) { In in_; return x; }

extern "C" {
int MPI_Init(int* a, char*** b) { int r; { In i; r = PMPI_Init(a, b); } open_log(); return r; }
int MPI_Init_thread(int* a, char*** b, int n, int* g) { int r; { In i; r = PMPI_Init_thread(a, b, n, g); } open_log(); return r; }
int MPI_Finalize() { coll(MPI_COMM_WORLD, "finalize"); if (f) { std::fclose(f); f = nullptr; } CALL(PMPI_Finalize()) }
int MPI_Abort(MPI_Comm c, int e) { say("{\"k\":\"abort\"}"); CALL(PMPI_Abort(c, e)) }

int MPI_Barrier(MPI_Comm c) { coll(c, "barrier"); CALL(PMPI_Barrier(c)) }
int MPI_Bcast(void* a, int n, MPI_Datatype t, int r, MPI_Comm c) { coll(c, "bcast root " + std::to_string(r) + " bytes " + std::to_string(bytes(n, t))); CALL(PMPI_Bcast(a, n, t, r, c)) }
int MPI_Reduce(void const* a, void* b, int n, MPI_Datatype t, MPI_Op o, int r, MPI_Comm c) { coll(c, "reduce " + op_name(o) + " root " + std::to_string(r) + " " + std::to_string(n) + " " + type_name(t)); CALL(PMPI_Reduce(a, b, n, t, o, r, c)) }
int MPI_Allreduce(void const* a, void* b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { coll(c, "allreduce " + op_name(o) + " " + std::to_string(n) + " " + type_name(t)); CALL(PMPI_Allreduce(a, b, n, t, o, c)) }
int MPI_Scan(void const* a, void* b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { coll(c, "scan " + op_name(o) + " " + std::to_string(n) + " " + type_name(t)); CALL(PMPI_Scan(a, b, n, t, o, c)) }
int MPI_Exscan(void const* a, void* b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { coll(c, "exscan " + op_name(o) + " " + std::to_string(n) + " " + type_name(t)); CALL(PMPI_Exscan(a, b, n, t, o, c)) }
int MPI_Allgather(void const* a, int n, MPI_Datatype t, void* b, int m, MPI_Datatype u, MPI_Comm c) { coll(c, "allgather bytes " + std::to_string(bytes(m, u))); CALL(PMPI_Allgather(a, n, t, b, m, u, c)) }
int MPI_Allgatherv(void const* a, int n, MPI_Datatype t, void* b, int const m[], int const d[], MPI_Datatype u, MPI_Comm c) { coll(c, "allgatherv"); CALL(PMPI_Allgatherv(a, n, t, b, m, d, u, c)) }
int MPI_Gather(void const* a, int n, MPI_Datatype t, void* b, int m, MPI_Datatype u, int r, MPI_Comm c) { coll(c, "gather root " + std::to_string(r)); CALL(PMPI_Gather(a, n, t, b, m, u, r, c)) }
int MPI_Gatherv(void const* a, int n, MPI_Datatype t, void* b, int const m[], int const d[], MPI_Datatype u, int r, MPI_Comm c) { coll(c, "gatherv root " + std::to_string(r)); CALL(PMPI_Gatherv(a, n, t, b, m, d, u, r, c)) }
int MPI_Scatter(void const* a, int n, MPI_Datatype t, void* b, int m, MPI_Datatype u, int r, MPI_Comm c) { coll(c, "scatter root " + std::to_string(r)); CALL(PMPI_Scatter(a, n, t, b, m, u, r, c)) }
int MPI_Scatterv(void const* a, int const n[], int const d[], MPI_Datatype t, void* b, int m, MPI_Datatype u, int r, MPI_Comm c) { coll(c, "scatterv root " + std::to_string(r)); CALL(PMPI_Scatterv(a, n, d, t, b, m, u, r, c)) }
int MPI_Alltoall(void const* a, int n, MPI_Datatype t, void* b, int m, MPI_Datatype u, MPI_Comm c) { coll(c, "alltoall bytes " + std::to_string(bytes(m, u))); CALL(PMPI_Alltoall(a, n, t, b, m, u, c)) }

int MPI_Cart_create(MPI_Comm c, int n, int const d[], int const p[], int re, MPI_Comm* out)
{
    std::string s = "cart_create";
    for (int i = 0; i < n; ++i) s += " " + std::to_string(d[i]) + (p[i] ? "p" : "o");
    coll(c, s);
    int r;
    { In i; r = PMPI_Cart_create(c, n, d, p, re, out); }
    child(c, *out);
    return r;
}
int MPI_Cart_sub(MPI_Comm c, int const k[], MPI_Comm* out) { coll(c, "cart_sub"); int r; { In i; r = PMPI_Cart_sub(c, k, out); } child(c, *out); return r; }
int MPI_Comm_split(MPI_Comm c, int a, int b, MPI_Comm* out) { coll(c, "comm_split"); int r; { In i; r = PMPI_Comm_split(c, a, b, out); } child(c, *out); return r; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* out) { coll(c, "comm_dup"); int r; { In i; r = PMPI_Comm_dup(c, out); } child(c, *out); return r; }
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm* out) { coll(c, "comm_create"); int r; { In i; r = PMPI_Comm_create(c, g, out); } child(c, *out); return r; }
int MPI_Comm_free(MPI_Comm* c)
{
    if (known(*c)) { coll(*c, "comm_free"); comms().erase(*c); }
    CALL(PMPI_Comm_free(c))
}

int MPI_Send(void const* a, int n, MPI_Datatype t, int d, int g, MPI_Comm c) { wait_for({half('s', c, d, g, n, t)}); CALL(PMPI_Send(a, n, t, d, g, c)) }
int MPI_Ssend(void const* a, int n, MPI_Datatype t, int d, int g, MPI_Comm c) { wait_for({half('s', c, d, g, n, t)}); CALL(PMPI_Ssend(a, n, t, d, g, c)) }
int MPI_Recv(void* a, int n, MPI_Datatype t, int s, int g, MPI_Comm c, MPI_Status* x) { wait_for({half('r', c, s, g, n, t)}); CALL(PMPI_Recv(a, n, t, s, g, c, x)) }
int MPI_Sendrecv(void const* a, int n, MPI_Datatype t, int d, int dg, void* b, int m, MPI_Datatype u, int s, int sg, MPI_Comm c, MPI_Status* x)
{
    long const i = half('s', c, d, dg, n, t);
    long const j = half('r', c, s, sg, m, u);
    wait_for({i, j});
    CALL(PMPI_Sendrecv(a, n, t, d, dg, b, m, u, s, sg, c, x))
}
int MPI_Sendrecv_replace(void* a, int n, MPI_Datatype t, int d, int dg, int s, int sg, MPI_Comm c, MPI_Status* x)
{
    long const i = half('s', c, d, dg, n, t);
    long const j = half('r', c, s, sg, n, t);
    wait_for({i, j});
    CALL(PMPI_Sendrecv_replace(a, n, t, d, dg, s, sg, c, x))
}
int MPI_Isend(void const* a, int n, MPI_Datatype t, int d, int g, MPI_Comm c, MPI_Request* q)
{
    long const i = half('s', c, d, g, n, t);
    int r;
    { In in_; r = PMPI_Isend(a, n, t, d, g, c, q); }
    if (i > 0) requests()[*q] = i;
    return r;
}
int MPI_Irecv(void* a, int n, MPI_Datatype t, int s, int g, MPI_Comm c, MPI_Request* q)
{
    long const i = half('r', c, s, g, n, t);
    int r;
    { In in_; r = PMPI_Irecv(a, n, t, s, g, c, q); }
    if (i > 0) requests()[*q] = i;
    return r;
}
int MPI_Wait(MPI_Request* q, MPI_Status* x) { wait_for({take(*q)}); CALL(PMPI_Wait(q, x)) }
int MPI_Waitall(int n, MPI_Request q[], MPI_Status x[])
{
    std::vector<long> v;
    for (int i = 0; i < n; ++i) v.push_back(take(q[i]));
    wait_for(v);
    CALL(PMPI_Waitall(n, q, x))
}
int MPI_Waitany(int n, MPI_Request q[], int* k, MPI_Status* x)
{
    std::vector<MPI_Request> const before(q, q + n);
    int r;
    { In in_; r = PMPI_Waitany(n, q, k, x); }
    if (*k != MPI_UNDEFINED) wait_for({take(before[*k])});
    return r;
}
int MPI_Test(MPI_Request* q, int* flag, MPI_Status* x)
{
    MPI_Request const before = *q;
    int r;
    { In in_; r = PMPI_Test(q, flag, x); }
    if (*flag) wait_for({take(before)});
    return r;
}
int MPI_Testall(int n, MPI_Request q[], int* flag, MPI_Status x[])
{
    std::vector<MPI_Request> const before(q, q + n);
    int r;
    { In in_; r = PMPI_Testall(n, q, flag, x); }
    if (*flag) {
        std::vector<long> v;
        for (MPI_Request p : before) v.push_back(take(p));
        wait_for(v);
    }
    return r;
}
}
