#pragma once
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <tuple>
#include <type_traits>
#include <utility>
#include "Kokkos_Macros.hpp"
namespace Kokkos {
template <class T, std::size_t N>
struct Array
{
    T m_internal_implementation_private_member_data[N == 0 ? 1 : N];
    using value_type = T;
    using reference = T&;
    using const_reference = T const&;
    using size_type = std::size_t;
    using pointer = T*;
    using const_pointer = T const*;
    template <class I>
    constexpr T& operator[](I i)
    {
        check(static_cast<long long>(i));
        return m_internal_implementation_private_member_data[i];
    }
    template <class I>
    constexpr T const& operator[](I i) const
    {
        check(static_cast<long long>(i));
        return m_internal_implementation_private_member_data[i];
    }
    static constexpr std::size_t size() { return N; }
    static constexpr bool empty() { return N == 0; }
    static constexpr std::size_t max_size() { return N; }
    constexpr T* data() { return &m_internal_implementation_private_member_data[0]; }
    constexpr T const* data() const { return &m_internal_implementation_private_member_data[0]; }
    friend constexpr bool operator==(Array const& a, Array const& b)
    {
        for (std::size_t i = 0; i < N; ++i) {
            if (!(a[i] == b[i])) {
                return false;
            }
        }
        return true;
    }

private:
    static constexpr void check(long long i)
    {
        if (i < 0 || i >= static_cast<long long>(N)) {
            if (!std::is_constant_evaluated()) {
                std::fprintf(stderr, "SHIM-OOB: Kokkos::Array index %lld size %zu\n", i, N);
                std::_Exit(86);
            }
        }
    }

public:
};
template <class T, class... U>
Array(T, U...) -> Array<T, 1 + sizeof...(U)>;
template <class T, std::size_t N>
constexpr T* begin(Array<T, N>& a)
{
    return a.data();
}
template <class T, std::size_t N>
constexpr T const* begin(Array<T, N> const& a)
{
    return a.data();
}
template <class T, std::size_t N>
constexpr T* end(Array<T, N>& a)
{
    return a.data() + N;
}
template <class T, std::size_t N>
constexpr T const* end(Array<T, N> const& a)
{
    return a.data() + N;
}
template <std::size_t I, class T, std::size_t N>
constexpr T& get(Array<T, N>& a)
{
    return a[I];
}
template <std::size_t I, class T, std::size_t N>
constexpr T const& get(Array<T, N> const& a)
{
    return a[I];
}
} // namespace Kokkos
template <class T, std::size_t N>
struct std::tuple_size<Kokkos::Array<T, N>> : std::integral_constant<std::size_t, N>
{
};
template <std::size_t I, class T, std::size_t N>
struct std::tuple_element<I, Kokkos::Array<T, N>>
{
    using type = T;
};
