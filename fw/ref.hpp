// Reference arithmetic for the oracles: dense matrices of long double, written independently of /repo.
#ifndef REF_HPP
#define REF_HPP

#include <cmath>
#include <complex>
#include <cstdlib>
#include <vector>

namespace ref {

typedef long double L;

struct Mat
{
    int n, m;
    std::vector<L> a;

    Mat( int n_ = 0, int m_ = 0 ) : n( n_ ), m( m_ ), a( n_ * m_, 0.0L ) {}
    L & operator()( int i, int j ) { return a[ i * m + j ]; }
    L operator()( int i, int j ) const { return a[ i * m + j ]; }
};

inline Mat eye( int n ) { Mat r( n, n ); for ( int i = 0; i < n; ++i ) r( i, i ) = 1; return r; }
inline Mat mul( Mat const & x, Mat const & y )
{
    if ( x.m != y.n ) std::abort();
    Mat r( x.n, y.m );
    for ( int i = 0; i < x.n; ++i ) for ( int j = 0; j < y.m; ++j )
    { L s = 0; for ( int k = 0; k < x.m; ++k ) s += x( i, k ) * y( k, j ); r( i, j ) = s; }
    return r;
}
inline Mat add( Mat x, Mat const & y, L f = 1 ) { if ( x.n != y.n || x.m != y.m ) std::abort(); for ( std::size_t i = 0; i < x.a.size(); ++i ) x.a[i] += f * y.a[i]; return x; }
inline Mat sub( Mat x, Mat const & y ) { return add( x, y, -1 ); }
inline Mat tr( Mat const & x ) { Mat r( x.m, x.n ); for ( int i = 0; i < x.n; ++i ) for ( int j = 0; j < x.m; ++j ) r( j, i ) = x( i, j ); return r; }
inline Mat scl( Mat x, L f ) { for ( auto & v : x.a ) v *= f; return x; }
inline Mat abs( Mat x ) { for ( auto & v : x.a ) v = std::fabs( v ); return x; }
inline Mat ones( int n, int m, L v ) { Mat r( n, m ); for ( auto & x : r.a ) x = v; return r; }
inline L maxabs( Mat const & x ) { L r = 0; for ( auto v : x.a ) { v = std::fabs( v ); if ( !( v <= r ) ) r = v; } return r; }

// Gauss-Jordan with partial pivoting; false if singular
inline bool inverse( Mat a, Mat & r )
{
    int n = a.n; r = eye( n );
    for ( int c = 0; c < n; ++c )
    {
        int p = c;
        for ( int i = c + 1; i < n; ++i ) if ( std::fabs( a( i, c ) ) > std::fabs( a( p, c ) ) ) p = i;
        if ( a( p, c ) == 0 ) return false;
        for ( int j = 0; j < n; ++j ) { std::swap( a( p, j ), a( c, j ) ); std::swap( r( p, j ), r( c, j ) ); }
        L d = a( c, c );
        for ( int j = 0; j < n; ++j ) { a( c, j ) /= d; r( c, j ) /= d; }
        for ( int i = 0; i < n; ++i ) if ( i != c )
        {
            L f = a( i, c );
            for ( int j = 0; j < n; ++j ) { a( i, j ) -= f * a( c, j ); r( i, j ) -= f * r( c, j ); }
        }
    }
    return true;
}

// smallest eigenvalue of the symmetric part of a 2x2 matrix
inline L min_eig2( Mat const & p )
{
    L a = p( 0, 0 ), d = p( 1, 1 ), b = ( p( 0, 1 ) + p( 1, 0 ) ) / 2;
    L t = ( a + d ) / 2, q = std::sqrt( ( a - d ) * ( a - d ) / 4 + b * b );
    return t - q;
}

template< typename T > L real_of( T const & x ) { return (L) x; }

template< typename M >
Mat from( M const & x )
{
    Mat r( x.rows(), x.columns() );
    for ( int i = 0; i < r.n; ++i ) for ( int j = 0; j < r.m; ++j ) r( i, j ) = real_of( x( i, j ) );
    return r;
}

inline std::string str( Mat const & x )
{
    std::string s = "[";
    for ( int i = 0; i < x.n; ++i ) { for ( int j = 0; j < x.m; ++j ) { char b[40]; std::snprintf( b, sizeof b, "%s%.10Lg", j ? " " : i ? "; " : "", x( i, j ) ); s += b; } }
    return s + "]";
}

} // namespace ref

#endif
