#pragma once
#include <cmath>
#include <cstdlib>
#include "Kokkos_Macros.hpp"
namespace Kokkos {
using std::abs;
using std::acos;
using std::acosh;
using std::asin;
using std::asinh;
using std::atan;
using std::atan2;
using std::atanh;
using std::cbrt;
using std::ceil;
using std::copysign;
using std::cos;
using std::cosh;
using std::erf;
using std::erfc;
using std::exp;
using std::exp2;
using std::expm1;
using std::fabs;
using std::fdim;
using std::floor;
using std::fma;
using std::fmax;
using std::fmin;
using std::fmod;
using std::hypot;
using std::isfinite;
using std::isinf;
using std::isnan;
using std::lgamma;
using std::log;
using std::log10;
using std::log1p;
using std::log2;
using std::logb;
using std::nearbyint;
using std::nextafter;
using std::pow;
using std::remainder;
using std::round;
using std::signbit;
using std::sin;
using std::sinh;
using std::sqrt;
using std::tan;
using std::tanh;
using std::tgamma;
using std::trunc;
template <class T>
inline T rsqrt(T x)
{
    return T(1) / std::sqrt(x);
}
template <class T>
inline bool signbit_(T x)
{
    return std::signbit(x);
}
} // namespace Kokkos
