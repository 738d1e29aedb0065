// Shared by the harnesses that compile the whole library (with the stand-ins of /verif/shim):
// building blocks for channels, and an independent long double model of the kinematics.
#ifndef VERIF_RM_HPP
#define VERIF_RM_HPP
#include "std.hpp"
#include "resonanceReconstruction.hpp"
#include "mc.hpp"
namespace rr = njoy::resonanceReconstruction;
namespace rm = njoy::resonanceReconstruction::rmatrix;
using real = long double;
using cplx = std::complex< long double >;
using rr::Energy;
using rr::ChannelRadius;
using rr::ReducedWidth;
using rr::CrossSection;

namespace c {   // the constants the library states (CODATA 2014, see resonanceReconstruction.hpp)
  constexpr real pi = 3.14159265358979323846264338327950288L;
  constexpr real e = 1.6021766208e-19L, dalton = 1.660539040e-27L, hbar = 6.582119514e-16L * e, eps0 = 8.854187817e-12L;
  constexpr real neutronMass = 1.008664L;
}
inline Energy eV( double v ) { return v * njoy::dimwits::electronVolt; }
inline ReducedWidth rootEV( double v ) { return v * rr::rootElectronVolt; }
inline ChannelRadius rootB( double v ) { return v * rr::rootBarn; }

struct PairModel {   // a pair of particles, and what the library must make of it
  double ma, mb, za, zb, sa, sb; std::string a, b, id;   // masses in Da, charges in e
  rm::ParticlePair make() const {
    auto q = njoy::dimwits::constant::elementaryCharge;
    rm::Particle p( rm::ParticleID( a ), ma * njoy::dimwits::dalton, za * q, sa, +1 ), r( rm::ParticleID( b ), mb * njoy::dimwits::dalton, zb * q, sb, +1 );
    if ( id.empty() ) return rm::ParticlePair( p, r );
    return rm::ParticlePair( p, r, rm::ParticlePairID( id ) );
  }
  real reduced() const { return (real) ma * mb / ( (real) ma + mb ); }
  real ratio() const { return (real) mb / ( (real) ma + mb ); }
};
// energy in the centre of mass of the channel (negative: closed)
inline real channelEnergy( const PairModel& in, double q, double energy ) { return (real) energy * in.ratio() + q; }
// wave number in 1/rootBarn (1 barn = 1e-28 m2)
inline real waveNumber( const PairModel& in, const PairModel& out, double q, double energy ) {
  return std::sqrt( 2 * out.reduced() * c::dalton * std::fabs( channelEnergy( in, q, energy ) ) * c::e ) / c::hbar * 1e-14L;
}
inline real sommerfeld( const PairModel& in, const PairModel& out, double q, double energy ) {
  if ( out.za == 0 || out.zb == 0 ) return 0;
  return (real) out.za * out.zb * c::e * c::e * out.reduced() * c::dalton / ( 4 * c::pi * c::eps0 * c::hbar * c::hbar * ( waveNumber( in, out, q, energy ) * 1e14L ) );
}
inline real spinFactor( const PairModel& p, double J ) { return ( 2 * (real) J + 1 ) / ( 2 * (real) p.sa + 1 ) / ( 2 * (real) p.sb + 1 ); }

inline std::string text( const std::map< rm::ReactionID, CrossSection >& m ) {
  std::string s; for ( auto& p : m ) s += p.first.symbol() + "=" + mc::num( p.second.value ) + " "; return s;
}
inline std::string text( const std::map< std::string, real >& m ) { std::string s; for ( auto& p : m ) s += p.first + "=" + mc::num( (double) p.second ) + " "; return s; }
// an energy dependent radius; a radius below 0 in the models stands for it
struct RadiusTable {
  std::vector< double > x, y;
  real at( real e ) const { std::size_t i = 1; while ( i + 1 < x.size() && x[ i ] < e ) ++i; return y[ i - 1 ] + ( (real) y[ i ] - y[ i - 1 ] ) * ( e - x[ i - 1 ] ) / ( (real) x[ i ] - x[ i - 1 ] ); }
};
inline real radiusAt( double a, const RadiusTable* t, real e ) { return a < 0 ? t->at( e ) : (real) a; }
inline bool sameBits( double a, double b ) { return std::memcmp( &a, &b, sizeof a ) == 0; }
#endif
