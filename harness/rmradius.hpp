// A tabulated radius and its reference interpolation
#ifndef VERIF_RMRADIUS_HPP
#define VERIF_RMRADIUS_HPP
#include "rm.hpp"
struct RadiusModel { std::vector< double > x, y; std::vector< long > bounds, laws;
  // the interpolation law belongs to the interval between two points; the left value at a discontinuity
  real at( double e ) const {
    std::size_t i = 0; while ( i < x.size() && x[ i ] < e ) ++i;
    if ( i < x.size() && x[ i ] == e ) return y[ i ];
    std::size_t r = 0; while ( bounds[ r ] < (long) i + 1 ) ++r;
    real xl = x[ i - 1 ], xr = x[ i ], yl = y[ i - 1 ], yr = y[ i ], E = e;
    switch ( laws[ r ] ) {
      case 1: return yl;
      case 2: return yl + ( yr - yl ) * ( E - xl ) / ( xr - xl );
      case 3: return yl + ( yr - yl ) * std::log( E / xl ) / std::log( xr / xl );
      case 4: return yl * std::pow( yr / yl, ( E - xl ) / ( xr - xl ) );
      default: return yl * std::pow( yr / yl, std::log( E / xl ) / std::log( xr / xl ) );
    }
  }
};
static endf::ScatteringRadius endfRadius( const RadiusModel& m ) {
  return endf::ScatteringRadius( std::vector< long >( m.bounds ), std::vector< long >( m.laws ), std::vector< double >( m.x ), std::vector< double >( m.y ) );
}
static const std::vector< RadiusModel > tables = [] {
  std::vector< RadiusModel > t;
  for ( long law = 1; law <= 5; ++law ) t.push_back( { { 1e-5, 10., 1e3, 1e5 }, { 0.5, 0.7, 0.6, 0.9 }, { 4 }, { law } } );
  for ( long a = 1; a <= 5; ++a ) for ( long b = 1; b <= 5; ++b ) t.push_back( { { 1e-5, 10., 1e3, 1e5 }, { 0.5, 0.7, 0.6, 0.9 }, { 2, 4 }, { a, b } } );
  for ( long a = 1; a <= 5; ++a ) t.push_back( { { 1e-5, 10., 1e3, 1e5 }, { 0.5, 0.7, 0.6, 0.9 }, { 2, 3, 4 }, { a, 1 + a % 5, 1 + ( a + 2 ) % 5 } } );
  return t; }();
static const std::vector< double > tableEnergies = { 1e-5, 1e-3, 1., 5., 9.999, 10., 10.001, 100., 999., 1e3, 1001., 1e4, 99999., 1e5 };
#endif
