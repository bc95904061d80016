// Watches (and on demand fails) the HDF5 and MPI life-cycle calls the solver itself makes.
// VERIF_WATCH=<file>: one JSON line per call. VERIF_H5FAIL=<k>: the k-th watched call that may fail does.
// Calls made by the PDI stand-in are not the solver's and pass through.
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <hdf5.h>
#include <mpi.h>

extern "C" int minipdi_inside __attribute__((weak));
int minipdi_inside = 0;

namespace {
std::FILE* out()
{
    static std::FILE* f = nullptr;
    if (!f) {
        char const* p = std::getenv("VERIF_WATCH");
        if (!p) return nullptr;
        f = std::fopen(p, "a");
    }
    return f;
}
long n_call = 0;
bool fail_now()
{
    static char const* const p = std::getenv("VERIF_H5FAIL");
    ++n_call;
    return p && std::atol(p) == n_call;
}
void say(char const* what, char const* fn, long long id, bool ok)
{
    if (std::FILE* f = out()) {
        std::fprintf(f, "{\"what\":\"%s\",\"fn\":\"%s\",\"id\":\"%lld\",\"ok\":%s,\"n\":%ld}\n", what, fn, id, ok ? "true" : "false", n_call);
        std::fflush(f);
    }
}
template <class F> F real(char const* name)
{
    return reinterpret_cast<F>(::dlsym(RTLD_NEXT, name));
}
bool watching() { return !minipdi_inside && out(); }
}

#define OPEN(NAME, PARAMS, ARGS) \
    extern "C" hid_t NAME PARAMS \
    { \
        static auto const f = real<hid_t(*) PARAMS>(#NAME); \
        if (!watching()) return f ARGS; \
        hid_t const r = fail_now() ? -1 : f ARGS; \
        say("open", #NAME, r, r >= 0); \
        return r; \
    }
#define USE(NAME, PARAMS, ARGS, FIRST) \
    extern "C" herr_t NAME PARAMS \
    { \
        static auto const f = real<herr_t(*) PARAMS>(#NAME); \
        if (!watching()) return f ARGS; \
        herr_t const r = fail_now() ? -1 : f ARGS; \
        say("use", #NAME, FIRST, r >= 0); \
        return r; \
    }
#define CLOSE(NAME) \
    extern "C" herr_t NAME(hid_t id) \
    { \
        static auto const f = real<herr_t (*)(hid_t)>(#NAME); \
        if (!watching()) return f(id); \
        herr_t const r = f(id); \
        say("close", #NAME, id, r >= 0); \
        return r; \
    }
OPEN(H5Fopen, (char const* a, unsigned b, hid_t c), (a, b, c))
OPEN(H5Dopen2, (hid_t a, char const* b, hid_t c), (a, b, c))
OPEN(H5Dget_space, (hid_t a), (a))
OPEN(H5Screate, (H5S_class_t a), (a))
OPEN(H5Tcopy, (hid_t a), (a))
OPEN(H5Acreate2, (hid_t a, char const* b, hid_t c, hid_t d, hid_t e, hid_t g), (a, b, c, d, e, g))
OPEN(H5Acreate1, (hid_t a, char const* b, hid_t c, hid_t d, hid_t e), (a, b, c, d, e))
OPEN(H5Acreate_by_name, (hid_t a, char const* b, char const* c, hid_t d, hid_t e, hid_t g, hid_t h, hid_t i), (a, b, c, d, e, g, h, i))
OPEN(H5Aopen, (hid_t a, char const* b, hid_t c), (a, b, c))
OPEN(H5Aget_space, (hid_t a), (a))
OPEN(H5Dget_type, (hid_t a), (a))
OPEN(H5Dopen1, (hid_t a, char const* b), (a, b))
OPEN(H5Fcreate, (char const* a, unsigned b, hid_t c, hid_t d), (a, b, c, d))
OPEN(H5Freopen, (hid_t a), (a))
OPEN(H5Gopen2, (hid_t a, char const* b, hid_t c), (a, b, c))
OPEN(H5Oopen, (hid_t a, char const* b, hid_t c), (a, b, c))
OPEN(H5Pcreate, (hid_t a), (a))
OPEN(H5Scopy, (hid_t a), (a))
OPEN(H5Screate_simple, (int a, hsize_t const* b, hsize_t const* c), (a, b, c))
OPEN(H5Tcreate, (H5T_class_t a, size_t b), (a, b))
USE(H5Awrite, (hid_t a, hid_t b, void const* c), (a, b, c), a)
USE(H5Tset_size, (hid_t a, size_t b), (a, b), a)
USE(H5Tset_cset, (hid_t a, H5T_cset_t b), (a, b), a)
extern "C" int H5Sget_simple_extent_ndims(hid_t a)
{
    static auto const f = real<int (*)(hid_t)>("H5Sget_simple_extent_ndims");
    if (!watching()) return f(a);
    int const r = fail_now() ? -1 : f(a);
    say("use", "H5Sget_simple_extent_ndims", a, r >= 0);
    return r;
}
CLOSE(H5Fclose)
CLOSE(H5Dclose)
CLOSE(H5Sclose)
CLOSE(H5Tclose)
CLOSE(H5Aclose)
CLOSE(H5Gclose)
CLOSE(H5Oclose)
CLOSE(H5Pclose)
CLOSE(H5Idec_ref)

// the next library in line: MPI itself, or a preloaded log (mpilog.cpp)
#define NEXT(f) (reinterpret_cast<decltype(&f)>(next(#f)))
namespace {
void* next(char const* name)
{
    void* const p = dlsym(RTLD_NEXT, name);
    if (!p) std::abort();
    return p;
}
}

extern "C" int MPI_Init(int* argc, char*** argv)
{
    say("mpi", "init", argc ? *argc : -1, argv && *argv);
    return NEXT(MPI_Init)(argc, argv);
}
extern "C" int MPI_Finalize()
{
    say("mpi", "finalize", 0, true);
    return NEXT(MPI_Finalize)();
}
extern "C" int MPI_Init_thread(int* argc, char*** argv, int need, int* got)
{
    say("mpi", "init", argc ? *argc : -1, argv && *argv);
    return NEXT(MPI_Init_thread)(argc, argv, need, got);
}

// Buffers given to MPI must not be device memory (unless MPI is told to be device aware)
extern "C" void hclshim_foreign(void const*, char const*) __attribute__((weak));
namespace {
void given(void const* p, char const* who)
{
    static bool const aware = std::getenv("SHIM_AWARE") != nullptr;
    if (!aware && hclshim_foreign && p != MPI_IN_PLACE) hclshim_foreign(p, who);
}
}
extern "C" int MPI_Allreduce(void const* a, void* b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c)
{
    given(a, "MPI_Allreduce");
    given(b, "MPI_Allreduce");
    return NEXT(MPI_Allreduce)(a, b, n, t, o, c);
}
extern "C" int MPI_Bcast(void* a, int n, MPI_Datatype t, int r, MPI_Comm c)
{
    given(a, "MPI_Bcast");
    return NEXT(MPI_Bcast)(a, n, t, r, c);
}
extern "C" int MPI_Sendrecv_replace(void* a, int n, MPI_Datatype t, int d, int dt, int s, int st, MPI_Comm c, MPI_Status* x)
{
    given(a, "MPI_Sendrecv_replace");
    return NEXT(MPI_Sendrecv_replace)(a, n, t, d, dt, s, st, c, x);
}
extern "C" int MPI_Sendrecv(void const* a, int n, MPI_Datatype t, int d, int dt, void* b, int m, MPI_Datatype u, int s, int st, MPI_Comm c, MPI_Status* x)
{
    given(a, "MPI_Sendrecv");
    given(b, "MPI_Sendrecv");
    return NEXT(MPI_Sendrecv)(a, n, t, d, dt, b, m, u, s, st, c, x);
}
extern "C" int MPI_Send(void const* a, int n, MPI_Datatype t, int d, int dt, MPI_Comm c)
{
    given(a, "MPI_Send");
    return NEXT(MPI_Send)(a, n, t, d, dt, c);
}
extern "C" int MPI_Recv(void* a, int n, MPI_Datatype t, int d, int dt, MPI_Comm c, MPI_Status* x)
{
    given(a, "MPI_Recv");
    return NEXT(MPI_Recv)(a, n, t, d, dt, c, x);
}
extern "C" int MPI_Isend(void const* a, int n, MPI_Datatype t, int d, int dt, MPI_Comm c, MPI_Request* x)
{
    given(a, "MPI_Isend");
    return NEXT(MPI_Isend)(a, n, t, d, dt, c, x);
}
extern "C" int MPI_Irecv(void* a, int n, MPI_Datatype t, int d, int dt, MPI_Comm c, MPI_Request* x)
{
    given(a, "MPI_Irecv");
    return NEXT(MPI_Irecv)(a, n, t, d, dt, c, x);
}
