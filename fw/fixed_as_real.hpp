// lets the reference arithmetic read fixed-point values exactly
#ifndef FIXED_AS_REAL_HPP
#define FIXED_AS_REAL_HPP
#include "num/fixed-point.hpp"
#include <cmath>
namespace ref {
template< typename T, int I, int F >
long double real_of( num::fixed_point<T,I,F> const & x ) { return std::ldexp( (long double) x.underlying_value(), -F ); }
}
#endif
