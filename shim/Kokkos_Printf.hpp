#pragma once
#include <cstdio>
namespace Kokkos {
template <class... A>
inline void printf(char const* f, A const&... a)
{
    if constexpr (sizeof...(A) == 0) {
        std::fputs(f, stdout);
    } else {
        std::printf(f, a...);
    }
}
} // namespace Kokkos
