// C03 C04 C05 C10: the channel functions, on the slice of the project that needs no njoy library
#include "std.hpp"
#include "resonanceReconstruction.hpp"
#include "mc.hpp"
#include "hardsphere.hpp"
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
namespace rr = njoy::resonanceReconstruction;
namespace rm = njoy::resonanceReconstruction::rmatrix;

static const double eps = std::numeric_limits< double >::epsilon();

// --- bounded set of ratios ----------------------------------------------------
// quick: every value with an exponent in [-100,100) and a mantissa of `bits` bits;
// thorough: the same with a mantissa of 18 bits inside [-20,14), and every binary32 value there
struct Grid { int elo, ehi, bits; };
static double ratio( mc::Explorer& x, const Grid& g ) {
  int e = x.choose( g.ehi - g.elo ) + g.elo;
  int hi = x.choose( 16 );
  x.shard();
  int lo = x.choose( 1 << ( g.bits - 4 ) );
  long m = ( (long) hi << ( g.bits - 4 ) ) | lo;
  return std::ldexp( 1. + m * std::ldexp( 1., -g.bits ), e );
}
// where a formula's numerator or denominator vanishes, and round numbers, with their neighbours
static double special( mc::Explorer& x ) {
  static const std::vector< double > c = [] {
    std::vector< double > v = { 1., 2., 3., 4., 5., 6., 7., 8., 9., 10., 12., 15., 16., 20., 25., 50., 100., 1000., 0.1, 0.25, 0.5, 0.75,
      std::sqrt( 3. ), std::sqrt( 15. ), std::sqrt( 2.5 ), std::sqrt( 10.5 ),
      std::sqrt( ( 45. - std::sqrt( 45. * 45. - 420. ) ) / 2. ), std::sqrt( ( 45. + std::sqrt( 45. * 45. - 420. ) ) / 2. ), M_PI, M_PI / 2, 2 * M_PI };
    return v; }();
  double v = x.pick( c );
  x.shard();
  int n = x.choose( 129 ) - 64;
  for ( int i = 0; i < std::abs( n ); ++i ) v = std::nextafter( v, n > 0 ? 1e300 : 0. );
  return v;
}

// numbers a person or a nuclear data file writes: m 10^k with up to `digits` significant digits
static double decimal( mc::Explorer& x, int digits, int klo, int khi ) {
  int k = x.choose( khi - klo ) + klo;
  int top = 1; for ( int i = 1; i < digits; ++i ) top *= 10;
  int lead = x.choose( 9 ) + 1;
  x.shard();
  double m = lead * top + ( top > 1 ? x.choose( top ) : 0 );
  k -= digits - 1;
  double p = 1; for ( int i = 0; i < std::abs( k ); ++i ) p *= 10;      // exact up to 10^22
  return k < 0 ? m / p : m * p;
}

static void hardSphereChecks( mc::Explorer& x, double rho ) {
  if ( x.wantSample() ) x.sample( mc::cat( "rho=", rho, " l=0..4" ) );
  for ( unsigned l = 0; l <= 4; ++l ) {
    auto r = ref::hardSphere( l, rho );
    // an eta must not matter to a neutral channel
    double P = rm::calculatePenetrability< rm::Neutron >( l, rho, l % 2 ? 0. : 1.5 ); x.op();
    double S = rm::calculateShiftFactor< rm::Neutron >( l, rho, l % 2 ? 0. : 1.5 ); x.op();
    double phi = rm::calculatePhaseShift< rm::Neutron >( l, rho, l % 2 ? 0. : 1.5 ); x.op();
    auto what = [&] { return mc::cat( "l=", l, " rho=", rho, " P=", P, " S=", S, " phi=", phi, " expected P=", (double) r.P, " S=", (double) r.S, " phi=", (double) r.phi, " (mod pi)" ); };
    x.check( mc::close( P, r.P, 1e-13 ), "penetrability", what );
    x.check( mc::close( S, r.S, 1e-13 ), "shift-factor", what );
    if ( rho < 1e6 ) {
      double d = mc::modPi( phi, r.phi );
      x.check( d <= 32 * eps * rho, "phase-shift", what );
    }
    else x.check( std::isfinite( phi ), "phase-shift-finite", what );
  }
}

MC_BODY( "C03", "lattice" ) {
  hardSphereChecks( x, ratio( x, x.thorough ? Grid{ -100, 100, 18 } : Grid{ -100, 100, 16 } ) );
}
MC_BODY( "C03", "dense" ) {
  // the range a reconstruction visits, finely
  hardSphereChecks( x, ratio( x, x.thorough ? Grid{ -14, 8, 23 } : Grid{ -10, 7, 21 } ) );
}
MC_BODY( "C03", "decimals" ) { hardSphereChecks( x, x.thorough ? decimal( x, 6, -9, 6 ) : decimal( x, 5, -9, 6 ) ); }
MC_BODY( "C03", "any-eta" ) {
  // the Sommerfeld parameter of a neutral channel never matters, whatever is passed
  static const std::vector< double > etas = { 1e-300, 1e-12, 1e-3, 0.1, 0.5, 1., 2., 3., 5., 10., 15., 40., 1e3, 1e10, 1e300, -1e-3, -0.1, -0.5, -1., -5., -1e3, -0. };
  double rho = x.thorough ? decimal( x, 3, -8, 5 ) : decimal( x, 2, -8, 5 );
  unsigned l = x.choose( 5 ); double eta = x.pick( etas );
  double v[ 3 ] = { rm::calculatePenetrability< rm::Neutron >( l, rho, eta ), rm::calculateShiftFactor< rm::Neutron >( l, rho, eta ), rm::calculatePhaseShift< rm::Neutron >( l, rho, eta ) };
  auto r = ref::hardSphere( l, rho ); x.op( 3 );
  x.check( mc::close( v[ 0 ], r.P, 1e-13 ) && mc::close( v[ 1 ], r.S, 1e-13 ) && mc::modPi( v[ 2 ], r.phi ) <= 32 * eps * rho, "eta-matters",
           [&] { return mc::cat( "l=", l, " rho=", rho, " eta=", eta, " P,S,phi=", v[ 0 ], ",", v[ 1 ], ",", v[ 2 ] ); } );
}
MC_BODY( "C03", "tiny" ) {
  // down to the smallest double: P underflows, it does not misbehave
  int e = -x.choose( 975 ) - 100; x.shard();
  double rho = std::ldexp( 1. + x.choose( 16 ) / 16., e );
  if ( rho == 0. ) throw mc::Prune();
  for ( unsigned l = 0; l <= 4; ++l ) {
    double P = rm::calculatePenetrability< rm::Neutron >( l, rho, 0. ), S = rm::calculateShiftFactor< rm::Neutron >( l, rho, 0. ), phi = rm::calculatePhaseShift< rm::Neutron >( l, rho, 0. ); x.op( 3 );
    auto r = ref::hardSphere( l, rho );
    x.check( std::fabs( P - (double) r.P ) <= 1e-13 * (double) r.P + 1e-307 && S == -(double) l && mc::modPi( phi, r.phi ) <= 32 * eps * rho + 1e-307, "tiny-ratio", [&] { return mc::cat( "l=", l, " rho=", rho, " P,S,phi=", P, ",", S, ",", phi ); } );
  }
}
MC_BODY( "C03", "neighbourhoods" ) { hardSphereChecks( x, special( x ) ); }
MC_BODY( "C03", "zero" ) {
  x.shard();
  unsigned l = x.choose( 5 );
  double P = rm::calculatePenetrability< rm::Neutron >( l, 0., 0. );
  double S = rm::calculateShiftFactor< rm::Neutron >( l, 0., 0. );
  double phi = rm::calculatePhaseShift< rm::Neutron >( l, 0., 0. ); x.op( 3 );
  x.check( P == 0. && S == -(double) l && phi == 0., "at-zero", [&] { return mc::cat( "l=", l, " P=", P, " S=", S, " phi=", phi ); } );
}
MC_BODY( "C03", "unsupported-l" ) {
  // beyond l = 4 there is no silent answer
  unsigned l = 5 + x.choose( x.thorough ? 100000 : 2000 );
  x.shard();
  double rho = std::ldexp( 1., x.choose( 9 ) * 4 - 16 );
  int f = x.choose( 5 );
  bool threw = false; double v = 0;
  try {
    x.op();
    if ( f == 0 ) v = rm::calculatePenetrability< rm::Neutron >( l, rho, 0. );
    else if ( f == 1 ) v = rm::calculateShiftFactor< rm::Neutron >( l, rho, 0. );
    else if ( f == 2 ) v = rm::calculatePhaseShift< rm::Neutron >( l, rho, 0. );
    else if ( f == 3 ) v = rr::penetrationShift( (int) l, rho )[ 0 ];
    else v = rr::phaseShift( (int) l, rho );
  } catch ( const std::exception& ) { threw = true; }
  // a right answer would do as well
  auto r = l < 40 ? ref::hardSphere( l, rho ) : ref::HardSphere{ -1, -1, -1 };
  bool right = !threw && l < 40 && ( f == 0 || f == 3 ? mc::close( v, r.P, 1e-9 ) : f == 1 ? mc::close( v, r.S, 1e-9 ) : mc::modPi( v, r.phi ) < 1e-9 );
  x.check( threw || right, "silent-answer", [&] { return mc::cat( "function ", f, " l=", l, " rho=", rho, " returned ", v ); } );
}

MC_BODY( "C03", "unsupported-large-l" ) {
  // an l that does not fit a narrower type is not taken for a small one
  x.shard();
  unsigned base = 1u << ( 3 + x.choose( 29 ) ), off = x.choose( 11 );
  unsigned l = x.choose( 2 ) ? base + off : base - 1 - off;      // around every power of two
  if ( l < 5 ) throw mc::Prune();
  bool top = x.choose( 2 ); if ( top ) l = 0u - l;                // and counted down from the largest
  static const std::vector< double > rs = { 0., 0.3, 2., 40. };
  double rho = x.pick( rs ); int f = x.choose( 3 );
  if ( l < 5 ) throw mc::Prune();
  bool threw = false; double v = 0; x.op();
  try { v = f == 0 ? rm::calculatePenetrability< rm::Neutron >( l, rho, 0. ) : f == 1 ? rm::calculateShiftFactor< rm::Neutron >( l, rho, 0. ) : rm::calculatePhaseShift< rm::Neutron >( l, rho, 0. ); } catch ( const std::exception& ) { threw = true; }
  auto h = l < 40 ? ref::hardSphere( l, rho ) : ref::HardSphere{ -1, -1, -1 };
  bool right = !threw && l < 40 && ( f == 0 ? mc::close( v, h.P, 1e-9 ) : f == 1 ? mc::close( v, h.S, 1e-9 ) : mc::modPi( v, h.phi ) < 1e-9 );
  x.check( threw || right, "silent-answer", [&] { return mc::cat( "function ", f, " l=", l, " rho=", rho, " returned ", v ); } );
}

// --- C04: both sets of kernels ------------------------------------------------
static void agree( mc::Explorer& x, double rho ) {
  if ( x.wantSample() ) x.sample( mc::cat( "rho=", rho, " l=0..4, both implementations and the factory" ) );
  for ( int l = 0; l <= 4; ++l ) {
    auto ps = rr::penetrationShift( l, rho ); x.op();
    std::array< double, 2 > ps2 =
      l == 0 ? rr::penetrationShift( rr::Integer< 0 >{} )( rho ) : l == 1 ? rr::penetrationShift( rr::Integer< 1 >{} )( rho ) :
      l == 2 ? rr::penetrationShift( rr::Integer< 2 >{} )( rho ) : l == 3 ? rr::penetrationShift( rr::Integer< 3 >{} )( rho ) :
               rr::penetrationShift( rr::Integer< 4 >{} )( rho ); x.op();
    double phi = rr::phaseShift( l, rho ); x.op();
    double P = rm::calculatePenetrability< rm::Neutron >( l, rho, 0. ), S = rm::calculateShiftFactor< rm::Neutron >( l, rho, 0. ),
           ph = rm::calculatePhaseShift< rm::Neutron >( l, rho, 0. ); x.op( 3 );
    auto what = [&] { return mc::cat( "l=", l, " rho=", rho, " legacy P,S,phi=", ps[ 0 ], ",", ps[ 1 ], ",", phi, " factory P,S=", ps2[ 0 ], ",", ps2[ 1 ], " rmatrix P,S,phi=", P, ",", S, ",", ph ); };
    x.check( mc::close( ps[ 0 ], P, 1e-13 ), "P", what );
    x.check( mc::close( ps[ 1 ], S, 1e-13 ), "S", what );
    x.check( mc::close( ps2[ 0 ], P, 1e-13 ) && mc::close( ps2[ 1 ], S, 1e-13 ), "factory", what );
    if ( rho < 1e6 ) x.check( mc::modPi( phi, ph ) <= 64 * eps * rho, "phi", what );
    auto r = ref::hardSphere( l, rho );
    x.check( mc::close( ps[ 0 ], r.P, 1e-13 ) && mc::close( ps[ 1 ], r.S, 1e-13 ), "reference", what );
    if ( rho < 1e6 ) x.check( mc::modPi( phi, r.phi ) <= 32 * eps * rho, "phi-reference", what );
  }
}
MC_BODY( "C04", "lattice" ) { agree( x, ratio( x, x.thorough ? Grid{ -100, 100, 17 } : Grid{ -100, 100, 15 } ) ); }
MC_BODY( "C04", "dense" ) { agree( x, ratio( x, x.thorough ? Grid{ -14, 8, 22 } : Grid{ -10, 7, 20 } ) ); }
MC_BODY( "C04", "decimals" ) { agree( x, x.thorough ? decimal( x, 6, -9, 6 ) : decimal( x, 5, -9, 6 ) ); }
MC_BODY( "C04", "closed-decimals" ) {
  double rho = -( x.thorough ? decimal( x, 5, -9, 6 ) : decimal( x, 4, -8, 5 ) );
  int l = x.choose( 5 );
  auto ps = rr::penetrationShift( l, rho ); x.op();
  auto r = ref::hardSphere( l, -rho );
  x.check( ps[ 0 ] == 0. && mc::close( ps[ 1 ], r.S, 1e-13 ), "negative-ratio", [&] { return mc::cat( "l=", l, " rho=", rho, " P=", ps[ 0 ], " S=", ps[ 1 ] ); } );
}
MC_BODY( "C04", "neighbourhoods" ) { agree( x, special( x ) ); }
MC_BODY( "C04", "closed" ) {
  // at and below threshold the ratio is not positive: nothing penetrates, the shift factor is even
  double rho = -ratio( x, x.thorough ? Grid{ -100, 100, 14 } : Grid{ -100, 100, 8 } );
  int l = x.choose( 5 );
  auto ps = rr::penetrationShift( l, rho ); x.op();
  auto r = ref::hardSphere( l, -rho );
  x.check( ps[ 0 ] == 0. && mc::close( ps[ 1 ], r.S, 1e-13 ), "negative-ratio", [&] { return mc::cat( "l=", l, " rho=", rho, " P=", ps[ 0 ], " S=", ps[ 1 ] ); } );
}
MC_BODY( "C04", "zero" ) {
  x.shard();
  int l = x.choose( 5 ); double rho = x.choose( 2 ) ? 0. : -0.;
  auto ps = rr::penetrationShift( l, rho ); double phi = rr::phaseShift( l, rho ); x.op( 2 );
  x.check( ps[ 0 ] == 0. && ps[ 1 ] == -l && phi == 0., "at-zero", [&] { return mc::cat( "l=", l, " P=", ps[ 0 ], " S=", ps[ 1 ], " phi=", phi ); } );
}
MC_BODY( "C04", "unsupported-l" ) {
  int n = x.choose( 4000 ); x.shard();
  int l = n < 2000 ? 5 + n : 1999 - n;      // 5, 6, ... and -1, -2, ...
  double rho = std::ldexp( 1., x.choose( 5 ) * 4 - 8 );
  bool a = false, b = false;
  try { x.op(); rr::penetrationShift( l, rho ); } catch ( const std::exception& ) { a = true; }
  try { x.op(); rr::phaseShift( l, rho ); } catch ( const std::exception& ) { b = true; }
  x.check( a && b, "silent-answer", [&] { return mc::cat( "l=", l, " rho=", rho, " penetrationShift threw: ", a, " phaseShift threw: ", b ); } );
}

MC_BODY( "C04", "unsupported-large-l" ) {
  x.shard();
  long base = 1L << ( 3 + x.choose( 28 ) ), off = x.choose( 11 );
  long l = x.choose( 2 ) ? base + off : base - 1 - off; if ( x.choose( 2 ) ) l = -l;
  static const std::vector< double > rs = { 0., 0.3, 2., 40., -0.3 };
  double rho = x.pick( rs );
  if ( l > 2147483647L || l < -2147483647L - 1 || ( l >= 0 && l < 5 ) ) throw mc::Prune();
  bool a = false, b = false; x.op( 2 );
  try { rr::penetrationShift( (int) l, rho ); } catch ( const std::exception& ) { a = true; }
  try { rr::phaseShift( (int) l, rho ); } catch ( const std::exception& ) { b = true; }
  x.check( a && b, "silent-answer", [&] { return mc::cat( "l=", l, " rho=", rho, " penetrationShift threw: ", a, " phaseShift threw: ", b ); } );
}

// --- C05: channels without a barrier -------------------------------------------
static void noBarrier( mc::Explorer& x, unsigned l, double rho, double eta ) {
  for ( int t = 0; t < 2; ++t ) {
    double P, S, phi, w;
    if ( t == 0 ) {
      P = rm::calculatePenetrability< rm::Photon >( l, rho, eta ); S = rm::calculateShiftFactor< rm::Photon >( l, rho, eta );
      phi = rm::calculatePhaseShift< rm::Photon >( l, rho, eta ); w = rm::calculateCoulombPhaseShift< rm::Photon >( l, eta );
    } else {
      P = rm::calculatePenetrability< rm::Fission >( l, rho, eta ); S = rm::calculateShiftFactor< rm::Fission >( l, rho, eta );
      phi = rm::calculatePhaseShift< rm::Fission >( l, rho, eta ); w = rm::calculateCoulombPhaseShift< rm::Fission >( l, eta );
    }
    x.op( 4 );
    x.check( P == 1. && S == 0. && phi == 0. && w == 0., "no-barrier", [&] { return mc::cat( t ? "fission" : "photon", " l=", l, " rho=", rho, " eta=", eta, " P=", P, " S=", S, " phi=", phi, " w=", w ); } );
  }
  double wn = rm::calculateCoulombPhaseShift< rm::Neutron >( l, eta ); x.op();
  x.check( wn == 0., "neutron-coulomb-phase", [&] { return mc::cat( "l=", l, " eta=", eta, " neutron w=", wn ); } );
  if ( x.wantSample() ) x.sample( mc::cat( "photon, fission and neutron: l=", l, " rho=", rho, " eta=", eta ) );
}
static const std::vector< double >& someEtas() { static std::vector< double > v = { 0., -0., 1e-3, 0.1, 0.5, 1., 2.5, 7., 40., 1e3, 1e300, -0.1, -1., -40. }; return v; }
MC_BODY( "C05", "photon-fission" ) {
  unsigned l = x.choose( x.thorough ? 256 : 64 );
  x.shard();
  double eta = x.pick( someEtas() );
  int e = x.choose( 64 ) - 32;
  noBarrier( x, l, std::ldexp( 1. + x.choose( x.thorough ? 256 : 64 ) / ( x.thorough ? 256. : 64. ), e ), eta );
}
MC_BODY( "C05", "decimals" ) {
  double rho = x.thorough ? decimal( x, 5, -8, 5 ) : decimal( x, 4, -8, 5 );
  unsigned l = x.choose( 12 ); static const std::vector< double > e = { 0., 0.3, 12., -2. };
  noBarrier( x, l, rho, x.pick( e ) );
}
MC_BODY( "C05", "decimal-eta" ) {
  double eta = x.thorough ? decimal( x, 5, -8, 5 ) : decimal( x, 4, -8, 5 );
  unsigned l = x.choose( 12 ); static const std::vector< double > r = { 0., 0.3, 1., 12., 500. };
  noBarrier( x, l, x.pick( r ), x.choose( 2 ) ? -eta : eta );
}
MC_BODY( "C05", "extremes" ) {
  // any l that fits, any ratio including zero, negative ones (below threshold) and the largest
  x.shard();
  static const std::vector< unsigned > ls = { 0, 1, 2, 3, 4, 5, 58, 59, 60, 61, 99, 100, 101, 255, 256, 1000, 65535, 2147483647u, 4294967295u };
  static const std::vector< double > rs = { 0., -0., 5e-324, 1e-300, 1e-20, 1., 1e20, 1e300, -1e-3, -1., -1e20, 1e6, 1e5, 999., 1001. };
  unsigned l = x.pick( ls ); double rho = x.pick( rs ), eta = x.pick( someEtas() );
  for ( int t = 0; t < 2; ++t ) {
    double P = t ? rm::calculatePenetrability< rm::Fission >( l, rho, eta ) : rm::calculatePenetrability< rm::Photon >( l, rho, eta ),
           S = t ? rm::calculateShiftFactor< rm::Fission >( l, rho, eta ) : rm::calculateShiftFactor< rm::Photon >( l, rho, eta ),
           phi = t ? rm::calculatePhaseShift< rm::Fission >( l, rho, eta ) : rm::calculatePhaseShift< rm::Photon >( l, rho, eta ),
           w = t ? rm::calculateCoulombPhaseShift< rm::Fission >( l, eta ) : rm::calculateCoulombPhaseShift< rm::Photon >( l, eta );
    double wn = rm::calculateCoulombPhaseShift< rm::Neutron >( l, eta ); x.op( 5 );
    x.check( P == 1. && S == 0. && phi == 0. && w == 0. && wn == 0., "no-barrier", [&] { return mc::cat( t ? "fission" : "photon", " l=", l, " rho=", rho, " eta=", eta, " P=", P, " S=", S, " phi=", phi, " w=", w, " neutron w=", wn ); } );
  }
}

// --- C10: no memory ------------------------------------------------------------
// every sequence of calls up to a depth: each call answers what it answers in a fresh process
struct Call { int f, l; double rho, eta; };
template < typename R > static double digest( const R& r ) { double d = 1.; for ( double v : r ) d = 1.5 * d + v + 0.25; return d; }
static double perform( const Call& c ) {
  std::complex< double > g, d;
  try {
    switch ( c.f ) {
      case 0: return rm::calculatePenetrability< rm::Neutron >( c.l, c.rho, c.eta );
      case 1: return rm::calculateShiftFactor< rm::Neutron >( c.l, c.rho, c.eta );
      case 2: return rm::calculatePhaseShift< rm::Neutron >( c.l, c.rho, c.eta );
      case 3: return rr::penetrationShift( c.l, c.rho )[ 0 ];
      case 4: return rr::penetrationShift( c.l, c.rho )[ 1 ];
      case 5: return rr::phaseShift( c.l, c.rho );
      case 6: return rm::calculatePenetrability< rm::ChargedParticle >( c.l, c.rho, c.eta );
      case 7: return rm::calculateShiftFactor< rm::ChargedParticle >( c.l, c.rho, c.eta );
      case 8: return rm::calculatePhaseShift< rm::ChargedParticle >( c.l, c.rho, c.eta );
      case 9: return rm::calculateCoulombPhaseShift< rm::ChargedParticle >( c.l, c.eta );
      case 10: rm::coulombWaveFunctions( c.l, c.rho, c.eta, g, d ); return g.real() + 3. * g.imag() + 5. * d.real() + 7. * d.imag();
      case 11: return rm::calculatePenetrability< rm::Photon >( c.l, c.rho, c.eta );
      case 12: return digest( rm::possibleChannelSpinValues( c.l / 2., c.rho ) );
      case 13: return digest( rm::possibleChannelTotalAngularMomentumValues( c.l, 0.5, c.rho ) );
      case 14: return digest( rm::possibleChannelTotalAngularMomentumValues( c.l, c.rho ) );
      case 15: return rr::penetrationShift( rr::Integer< 2 >{} )( c.rho )[ c.l ];
      case 16: return rm::calculateShiftFactor< rm::Photon >( c.l, c.rho, c.eta ) + 3. * rm::calculatePhaseShift< rm::Fission >( c.l, c.rho, c.eta );
      case 17: { double h = 0; for ( char ch : rm::ChannelQuantumNumbers( c.l, 0.5, c.rho, 1 ).toString() ) h = 3. * h + ch; return h; }
    }
  } catch ( const std::exception& ) { return -12345.; }
  return 0;
}
static const std::vector< Call >& calls( bool thorough ) {
  static std::vector< Call > c;
  if ( c.empty() ) {
    for ( int f = 0; f <= 5; ++f ) for ( int l : thorough ? std::vector< int >{ 0, 1, 2, 3, 4, 5 } : std::vector< int >{ 0, 1, 3, 4, 5 } ) for ( double r : { 0.5, 2.25 } ) c.push_back( { f, l, r, 1. } );
    for ( int f : { 6, 7, 8, 10 } ) for ( int l : { 0, 2 } ) for ( double r : { 2., 8. } ) for ( double e : { 0., 0.5, 6. } ) c.push_back( { f, l, r, e } );
    for ( int l : { 20, 45 } ) for ( double r : { 2., 8. } ) for ( double e : { 0.5, 6. } ) c.push_back( { 10, l, r, e } );
    // arguments that are nearly the same
    for ( int f : { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10 } ) for ( double d : { 1e-12, 1e-7 } ) { c.push_back( { f, 1, 2. + d, 0.5 } ); if ( f >= 6 ) c.push_back( { f, 1, 2., 0.5 + d } ); if ( d < 1e-10 ) c.push_back( { f, 1, 2., 0.5 } ); }
    for ( int l : { 8, 16 } ) c.push_back( { 10, l, 2., 0.5 } );
    c.push_back( { 0, 2, std::numeric_limits< double >::quiet_NaN(), 0. } ); c.push_back( { 4, 3, std::numeric_limits< double >::infinity(), 0. } );
    for ( int l : { 0, 1, 3 } ) for ( double e : { 0.5, 2. } ) c.push_back( { 9, l, 1., e } );
    c.push_back( { 11, 1, 1., 1. } );
    for ( int f : { 12, 13, 14 } ) for ( int l : { 1, 2 } ) for ( double I : { 0., 1.5, 3. } ) c.push_back( { f, l, I, 0. } );
    for ( int l : { 0, 1 } ) for ( double r : { 0.5, 2.25 } ) c.push_back( { 15, l, r, 0. } );
    c.push_back( { 16, 2, 0.5, 3. } );
    for ( int l : { 0, 1 } ) for ( double J : { 0.5, 2. } ) c.push_back( { 17, l, J, 0. } );
    // ratios at and below threshold, and calls that are refused
    for ( int f : { 3, 4, 5 } ) for ( double r : { 0., -0.5 } ) c.push_back( { f, 1, r, 0. } );
    c.push_back( { 10, 70, 2., 0.5 } ); c.push_back( { 8, 70, 2., 0.5 } ); c.push_back( { 3, -1, 2., 0.5 } );
  }
  return c;
}
static const std::vector< double >& fresh( bool thorough ) {
  static std::vector< double > v;
  if ( v.empty() ) {
    const auto& c = calls( thorough );
    auto* shared = (double*) mmap( nullptr, c.size() * sizeof( double ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
    std::fflush( nullptr );
    for ( std::size_t i = 0; i < c.size(); ++i ) {
      pid_t p = fork();
      if ( p == 0 ) { shared[ i ] = perform( c[ i ] ); _exit( 0 ); }
      int st; waitpid( p, &st, 0 );
    }
    v.assign( shared, shared + c.size() );
    munmap( shared, c.size() * sizeof( double ) );
  }
  return v;
}
MC_BODY( "C10", "call-sequences" ) {
  const auto& c = calls( x.thorough ); const auto& expected = fresh( x.thorough );
  std::string trail;
  for ( int depth = 0; depth < 3; ++depth ) {
    int i = x.choose( c.size() );
    if ( depth == 1 ) x.shard();
    double v = perform( c[ i ] ); x.op();
    bool same = std::memcmp( &v, &expected[ i ], sizeof v ) == 0 || ( std::isnan( v ) && std::isnan( expected[ i ] ) );
    x.check( same, "history", [&] { return mc::cat( trail, "call ", c[ i ].f, "(l=", c[ i ].l, ",rho=", c[ i ].rho, ",eta=", c[ i ].eta, ") gave ", v, ", in a fresh process ", expected[ i ] ); } );
    if ( !same || x.traces < 3 ) trail += mc::cat( "call ", c[ i ].f, "(", c[ i ].l, ",", c[ i ].rho, ",", c[ i ].eta, "); " );
  }
  if ( x.wantSample() && !trail.empty() ) x.sample( trail );
}
MC_BODY( "C10", "longer-sequences" ) {
  // one call per function and l: sequences of 4 (thorough) or 3 and then the first call again (quick)
  static std::vector< int > sub; const auto& c = calls( x.thorough ); const auto& expected = fresh( x.thorough );
  if ( sub.empty() ) { std::set< std::pair< int, int > > seen; for ( std::size_t i = 0; i < c.size(); ++i ) if ( seen.emplace( c[ i ].f, c[ i ].l % 3 ).second ) sub.push_back( i ); }
  std::string trail; int first = -1;
  for ( int depth = 0; depth < 4; ++depth ) {
    int i = depth == 3 && !x.thorough ? first : sub[ x.choose( sub.size() ) ];
    if ( depth == 0 ) first = i;
    if ( depth == 1 ) x.shard();
    double v = perform( c[ i ] ); x.op();
    bool same = std::memcmp( &v, &expected[ i ], sizeof v ) == 0 || ( std::isnan( v ) && std::isnan( expected[ i ] ) );
    x.check( same, "history", [&] { return mc::cat( trail, "call ", c[ i ].f, "(l=", c[ i ].l, ",rho=", c[ i ].rho, ",eta=", c[ i ].eta, ") gave ", v, ", in a fresh process ", expected[ i ] ); } );
    if ( x.traces < 3 ) trail += mc::cat( "call ", c[ i ].f, "(", c[ i ].l, ",", c[ i ].rho, ",", c[ i ].eta, "); " );
  }
}
int main( int argc, char** argv ) { return mc::mainLoop( argc, argv ); }
