#pragma once
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include "Kokkos_Macros.hpp"
// a bare block, as in Kokkos: usable with and without a trailing semicolon
#define KOKKOS_EXPECTS(...) \
    { \
        if (!static_cast<bool>(__VA_ARGS__)) { \
            std::fprintf(stderr, "SHIM-ASSERT: %s at %s:%d\n", #__VA_ARGS__, __FILE__, __LINE__); \
            std::_Exit(88); \
        } \
    }
#define KOKKOS_ENSURES(...) KOKKOS_EXPECTS(__VA_ARGS__)
#ifndef NDEBUG
#    define KOKKOS_ASSERT(...) KOKKOS_EXPECTS(__VA_ARGS__)
#else
#    define KOKKOS_ASSERT(...) {}
#endif
