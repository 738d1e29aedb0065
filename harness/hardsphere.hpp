// Reference hard-sphere functions in long double, from the closed form
//   F^2 + G^2 = D_l( x ) / x^l,  x = rho^2,
//   D_l( x ) = sum_k (2l-k)! (2l-2k)! / ( k! ((l-k)!)^2 ) 2^(2k-2l) x^k
// P = rho / ( F^2 + G^2 ), S = rho d/drho ln sqrt( F^2 + G^2 ), and the phase shift from
//   phi_l = phi_(l-1) - atan( P_(l-1) / ( l - S_(l-1) ) )
#ifndef VERIF_HARDSPHERE_HPP
#define VERIF_HARDSPHERE_HPP
namespace ref {
using real = long double;
struct HardSphere { real P, S, phi; };
inline real factorial( int n ) { real f = 1; for ( int i = 2; i <= n; ++i ) f *= i; return f; }
inline const std::vector< real >& denominator( int l ) {
  static std::map< int, std::vector< real > > cache;
  auto it = cache.find( l );
  if ( it != cache.end() ) return it->second;
  std::vector< real > c( l + 1 );
  for ( int k = 0; k <= l; ++k )
    c[ k ] = factorial( 2 * l - k ) * factorial( 2 * l - 2 * k )
             / ( factorial( k ) * factorial( l - k ) * factorial( l - k ) ) * std::pow( (real) 2, 2 * k - 2 * l );
  return cache[ l ] = c;
}
inline HardSphere hardSphere( int l, real rho ) {
  HardSphere r{ rho, 0, rho };
  real x = rho * rho;
  for ( int n = 1; n <= l; ++n ) {
    real phi = r.phi - std::atan( r.P / ( n - r.S ) );
    const auto& c = denominator( n );
    real D = 0, N = 0, p = 1;
    for ( int k = 0; k <= n; ++k ) { D += c[ k ] * p; N += ( k - n ) * c[ k ] * p; if ( k < n ) p *= x; }
    r = { rho * p / D, N / D, phi };
  }
  return r;
}
} // namespace ref
#endif
