// H02: Chebyshev type 2 designs meet their ripple and attenuation specification.
// fuzz: quick=3000 thorough=60000
#include "fw/cheb_gen.hpp"

using namespace pbt;

template< typename S, typename F, typename A, int maxN >
void spec( Gen & g, Case & c ) { ch::meets<2,S,F,A>( g, c, maxN ); }

Suite pbt::suite()
{
    return { "H02",
        "low-pass and high-pass specifications (edges, ripple, attenuation) of order 1 to 64, magnitude compared at 51 frequencies in pass band, stop band and transition with the analog Chebyshev type 2 filter at the warped frequency and with the specification; order, stability, 3 dB frequency. Non-trivial: order 2 or more and at least ten comparisons decided within the rounding bound.",
        { { "double", 4, spec<double,double,double,16> }, { "double, very high order", 1, spec<double,double,double,64> }, { "double, low order", 2, spec<double,double,double,4> }, { "float", 2, spec<float,float,float,6> }, { "int", 1, spec<int,int,int,6> }, { "int frequencies", 1, spec<int,int,double,12> } },
        30000, 800000, { "low-pass", "high-pass", "odd order", "even order", "first order", "high order", "very high order", "evaluated", "3 dB frequency", "all frequencies decided" } };
}
