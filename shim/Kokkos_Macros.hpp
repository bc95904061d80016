#pragma once
#define KOKKOS_FUNCTION
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FORCEINLINE_FUNCTION inline __attribute__((always_inline))
#define KOKKOS_DEFAULTED_FUNCTION
#define KOKKOS_IMPL_FORCEINLINE inline
#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [=, *this]
#define KOKKOS_DEDUCTION_GUIDE
#define KOKKOS_RESTRICT __restrict__
#define KOKKOS_VERSION 40700
#define KOKKOS_VERSION_MAJOR 4
#define KOKKOS_VERSION_MINOR 7
#define KOKKOS_VERSION_PATCH 0
#define KOKKOS_VERSION_GREATER_EQUAL(A, B, C) (KOKKOS_VERSION >= (A) * 10000 + (B) * 100 + (C))
#define KOKKOS_VERSION_LESS(A, B, C) (KOKKOS_VERSION < (A) * 10000 + (B) * 100 + (C))
#define KOKKOS_IF_ON_HOST(CODE) {}
#define KOKKOS_IF_ON_DEVICE(CODE) {}
#define KOKKOS_ENABLE_SERIAL
#define KOKKOS_UNLIKELY(x) (x)
