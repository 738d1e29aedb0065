// C06 C07: charged particle channel functions
#include "std.hpp"
#include "resonanceReconstruction.hpp"
#include "mc.hpp"
#include "hardsphere.hpp"
#include "coulombref.hpp"
namespace rm = njoy::resonanceReconstruction::rmatrix;

static const std::vector< double >& etas( bool thorough ) {
  static std::vector< double > v;
  if ( v.empty() ) {
    int n = thorough ? 64 : 12;
    v = { 0., 4.999999, 5., 5.000001, 14.999999, 15., 15.000001, 40. };
    for ( int e = -10; e < 5; ++e ) for ( int m = 0; m < n; ++m ) v.push_back( std::ldexp( 1. + m / (double) n, e ) );
    for ( double z : { 1e-8, 1e-6, 1e-4, 0.001, 0.01, 0.05, 0.1, 0.2, 0.3, 0.4, 0.6, 0.7, 0.8, 0.9, 1.1, 1.2, 3.3, 4.9, 5.1, 6.6, 9.9, 10.1, 14.9, 15.1, 30.1 } ) v.push_back( z );
  }
  return v;
}
static ref::Coulomb& reference( double eta ) {
  static std::map< double, ref::Coulomb > c;
  auto it = c.find( eta );
  if ( it == c.end() ) { c.clear(); it = c.emplace( eta, ref::Coulomb( eta, std::ldexp( 1.L, -7 ), 520 ) ).first; }
  return it->second;
}
// The accuracy the method has: it integrates inwards on a fixed mesh, so the error depends on where (rho, eta) is.
// coulomb_accuracy.inc holds, per cell of the (eta, rho) plane, the largest deviation from the reference that the
// method has there (measured on a finer lattice than any check uses, see framework/make_coulomb_accuracy.py). The
// tolerance is four times that, and never more than the global bound.
static int etaCell( double eta ) {
  if ( eta < std::ldexp( 1., -10 ) ) return eta == 0. ? 0 : 1;
  int e = std::ilogb( eta );                       // -10 .. 5
  return 2 + 2 * ( e + 10 ) + ( eta >= 5. && e == 2 ? 1 : 0 ) + ( eta >= 15. && e == 3 ? 1 : 0 );
}
static const int rhoCells = 60;
static int rhoCell( double rho ) { int e = std::ilogb( rho ); return 4 * ( e + 6 ) + (int) ( ( rho / std::ldexp( 1., e ) - 1. ) * 4 ); }
static const float accuracy[][ rhoCells ] = {
#include "coulomb_accuracy.inc"
};
static double globalTolerance( double eta, double rho ) {
  if ( eta == 0. ) return 1e-10;
  if ( eta < 5. && rho >= 2 * eta + 10. ) return 3e-7;
  return ( eta < 15. ? 5e-5 : 5e-4 ) + 1.2e-4 * eta / rho;
}
static double tolerance( double eta, double rho ) {
  double g = globalTolerance( eta, rho );
  double a = (std::size_t) etaCell( eta ) < sizeof( accuracy ) / sizeof( accuracy[ 0 ] ) ? accuracy[ etaCell( eta ) ][ rhoCell( rho ) ] : 0.;
  return a > 0. ? std::min( g, 4. * a + 1e-10 ) : g;
}
static const int lmax = 24;
// far below the barrier the penetrability vanishes: it and the phase shift may be zero, the shift factor may not.
// known finding: the method gives up there and leaves the shift factor at zero as well
static void vanishing( mc::Explorer& x, double P, double S, double phi, double rS, double tol, const std::function< std::string() >& what ) {
  x.check( P == 0. && mc::modPi( phi, 0. ) <= 1e-30, "vanishing", what );
  ++x.checks;
  if ( std::fabs( S - rS ) <= tol * ( 1 + std::fabs( rS ) ) ) return;
  x.fail( S == 0. ? "vanishing-shift-factor" : "shift-factor", what(), S == 0. ? "C06-K1" : "" );
}
MC_BODY( "C06", "reference" ) {
  double eta = x.pick( etas( x.thorough ) );
  x.shard();
  const int n = x.thorough ? 256 : 64;
  int e = x.choose( 15 ) - 6;
  double rho = std::ldexp( 1. + x.choose( n ) / (double) n, e );
  auto r = reference( eta )( lmax, rho );
  double tol = tolerance( eta, rho );
  if ( x.wantSample() ) x.sample( mc::cat( "eta=", eta, " rho=", rho, " l=0..", lmax, " tolerance ", tol ) );
  x.maximum( "P relative deviation / tolerance", 0. );
  for ( unsigned l = 0; l <= (unsigned) lmax; ++l ) {
    std::complex< double > g, d;
    mc::note( mc::cat( "l=", l, " rho=", rho, " eta=", eta ) );
    double P, S, phi;
    try {
      rm::coulombWaveFunctions( l, rho, eta, g, d );
      P = rm::calculatePenetrability< rm::ChargedParticle >( l, rho, eta );
      S = rm::calculateShiftFactor< rm::ChargedParticle >( l, rho, eta );
      phi = rm::calculatePhaseShift< rm::ChargedParticle >( l, rho, eta );
      x.op( 4 );
    } catch ( const std::exception& ) {
      x.check( false, "exception", [&] { return mc::cat( "l=", l, " rho=", rho, " eta=", eta, " threw" ); } ); continue;
    }
    long double A2 = r[ l ].F * r[ l ].F + r[ l ].G * r[ l ].G;
    double rP = rho / A2, rS = rho / A2 * ( r[ l ].F * r[ l ].dF + r[ l ].G * r[ l ].dG ), rphi = std::atan2( r[ l ].F, r[ l ].G );
    auto what = [&] { return mc::cat( "l=", l, " rho=", rho, " eta=", eta, " P=", P, " S=", S, " phi=", phi, " expected P=", rP, " S=", rS, " phi=", rphi, " (mod pi), tolerance ", tol ); };
    if ( rP < 1e-80 && P == 0. ) { vanishing( x, P, S, phi, rS, tol * ( 2 + rho ), what ); continue; }
    double dP = std::fabs( P / rP - 1 ), dS = std::fabs( S - rS ) / ( 1 + std::fabs( rS ) ), dphi = mc::modPi( phi, rphi );
    x.check( dP <= tol, "penetrability", what );
    x.check( dS <= tol * ( 2 + rho ), "shift-factor", what );
    x.check( dphi <= tol, "phase-shift", what );
    static bool measure = std::getenv( "COULOMB_MEASURE" );
    if ( measure ) x.maximum( mc::cat( "cell ", etaCell( eta ), " ", rhoCell( rho ) ), std::max( { dP, dS / ( 2 + rho ), dphi } ) );
    x.maximum( "P relative deviation / tolerance", dP / tol );
    x.maximum( "S deviation / tolerance", dS / tol / ( 2 + rho ) );
    x.maximum( "phi deviation / tolerance", dphi / tol );
    long double w = (long double) d.imag() * g.real() - (long double) d.real() * g.imag();
    x.check( std::fabs( w - 1 ) <= 2e-6, "wronskian", [&] { return mc::cat( what(), " F'G-FG'=", (double) w ); } );
    // P and S are the imaginary and real part of rho ( G' + i F' ) / ( G + i F )
    x.check( mc::close( P, rho / std::norm( g ), 1e-12 ), "P-from-wave", what );
  }
}
// values with two or three decimal digits, which the binary lattice does not contain
MC_BODY( "C06", "decimals" ) {
  static const std::vector< double > some = { 0., 0.001, 0.005, 0.01, 0.02, 0.05, 0.1, 0.2, 0.3, 0.5, 0.7, 1., 1.3, 2., 2.4, 3., 4., 4.9, 5., 5.1, 6.3, 8., 10., 12.5, 14.9, 15., 15.1, 20., 25., 30. };
  double eta = x.pick( some );
  int k = x.choose( 4 );                                  // 0.016 .. 0.099, 0.10 .. 0.99, 1.0 .. 9.9, 10 .. 99 and 100 .. 500
  x.shard();
  int m = k == 0 ? 16 + x.choose( 84 ) : k < 3 ? 100 + x.choose( 900 ) : x.choose( 131 );
  double rho = k == 0 ? m / 1000. : k == 1 ? m / 1000. : k == 2 ? m / 100. : m < 90 ? 10. + m : 100. + 10. * ( m - 90 );
  if ( !x.thorough && k && k < 3 && m % 5 ) throw mc::Prune();
  auto r = reference( eta )( lmax, rho );
  double tol = tolerance( eta, rho );
  for ( unsigned l = 0; l <= (unsigned) lmax; ++l ) {
    double P = rm::calculatePenetrability< rm::ChargedParticle >( l, rho, eta ), S = rm::calculateShiftFactor< rm::ChargedParticle >( l, rho, eta ), phi = rm::calculatePhaseShift< rm::ChargedParticle >( l, rho, eta ); x.op( 3 );
    long double A2 = r[ l ].F * r[ l ].F + r[ l ].G * r[ l ].G;
    double rP = rho / A2, rS = rho / A2 * ( r[ l ].F * r[ l ].dF + r[ l ].G * r[ l ].dG ), rphi = std::atan2( r[ l ].F, r[ l ].G );
    auto what = [&] { return mc::cat( "l=", l, " rho=", rho, " eta=", eta, " P=", P, " S=", S, " phi=", phi, " expected P=", rP, " S=", rS, " phi=", rphi, " (mod pi), tolerance ", tol ); };
    if ( rP < 1e-80 && P == 0. ) { vanishing( x, P, S, phi, rS, tol * ( 2 + rho ), what ); continue; }
    x.maximum( "deviation / tolerance", std::max( { std::fabs( P / rP - 1 ), std::fabs( S - rS ) / ( 1 + std::fabs( rS ) ) / ( 2 + rho ), mc::modPi( phi, rphi ) } ) / tol );
    x.check( std::fabs( P / rP - 1 ) <= tol && std::fabs( S - rS ) / ( 1 + std::fabs( rS ) ) <= tol * ( 2 + rho ) && mc::modPi( phi, rphi ) <= tol, "decimal",
             [&] { return mc::cat( "l=", l, " rho=", rho, " eta=", eta, " P=", P, " S=", S, " phi=", phi, " expected P=", rP, " S=", rS, " phi=", rphi, " (mod pi), tolerance ", tol ); } );
  }
}
// close to threshold: the error of the method grows like eta / rho, so it is only compared where that leaves digits
MC_BODY( "C06", "small-ratio" ) {
  static const std::vector< double > some = { 0., 1e-6, 1e-4, 0.001, 0.01, 0.1, 0.5, 1., 2., 4., 4.9, 5., 8., 14.9, 15., 20., 30. };
  double eta = x.pick( some );
  int e = x.choose( x.thorough ? 44 : 24 );
  x.shard();
  const int n = x.thorough ? 64 : 8;
  double rho = std::ldexp( 1. + x.choose( n ) / (double) n, -6 - e );
  double tol = eta == 0. ? 1e-10 : 5e-5 + 3.6e-4 * eta / rho;
  if ( tol > 0.4 ) throw mc::Prune();
  static std::map< double, ref::Coulomb > cache;
  auto it = cache.find( eta ); if ( it == cache.end() ) { cache.clear(); it = cache.emplace( eta, ref::Coulomb( eta, std::ldexp( 1.L, -52 ), 2 ) ).first; }
  auto r = it->second( 8, rho );
  for ( unsigned l = 0; l <= 8; ++l ) {
    double P = rm::calculatePenetrability< rm::ChargedParticle >( l, rho, eta ), S = rm::calculateShiftFactor< rm::ChargedParticle >( l, rho, eta ), phi = rm::calculatePhaseShift< rm::ChargedParticle >( l, rho, eta ); x.op( 3 );
    long double A2 = r[ l ].F * r[ l ].F + r[ l ].G * r[ l ].G;
    double rP = rho / A2, rS = rho / A2 * ( r[ l ].F * r[ l ].dF + r[ l ].G * r[ l ].dG ), rphi = std::atan2( r[ l ].F, r[ l ].G );
    auto what = [&] { return mc::cat( "l=", l, " rho=", rho, " eta=", eta, " P=", P, " S=", S, " phi=", phi, " expected P=", rP, " S=", rS, " phi=", rphi, " (mod pi), tolerance ", tol ); };
    if ( rP < 1e-80 && P == 0. ) { vanishing( x, P, S, phi, rS, tol * ( 2 + rho ), what ); continue; }
    x.maximum( "deviation / tolerance", std::max( { std::fabs( P / rP - 1 ), std::fabs( S - rS ) / ( 1 + std::fabs( rS ) ), mc::modPi( phi, rphi ) } ) / tol );
    x.check( std::fabs( P / rP - 1 ) <= tol && std::fabs( S - rS ) <= tol * ( 1 + std::fabs( rS ) ) && mc::modPi( phi, rphi ) <= tol, "small-ratio",
             [&] { return mc::cat( "l=", l, " rho=", rho, " eta=", eta, " P=", P, " S=", S, " phi=", phi, " expected P=", rP, " S=", rS, " phi=", rphi, " (mod pi), tolerance ", tol ); } );
  }
}
MC_BODY( "C06", "large-ratio" ) {
  static const std::vector< double > some = { 0., 0.001, 0.1, 0.5, 1., 3., 4.9, 5., 8., 12., 14.9, 15., 20., 25., 30. };
  double eta = x.pick( some );
  int e = x.choose( 3 ) + 9;
  x.shard();
  const int n = x.thorough ? 256 : 64;
  double rho = std::ldexp( 1. + x.choose( n ) / (double) n, e );
  static std::map< double, ref::Coulomb > cache;
  auto it = cache.find( eta ); if ( it == cache.end() ) { cache.clear(); it = cache.emplace( eta, ref::Coulomb( eta, 500.L, 8200 ) ).first; }
  auto r = it->second( 8, rho );
  for ( unsigned l = 0; l <= 8; ++l ) {
    double P = rm::calculatePenetrability< rm::ChargedParticle >( l, rho, eta ), S = rm::calculateShiftFactor< rm::ChargedParticle >( l, rho, eta ), phi = rm::calculatePhaseShift< rm::ChargedParticle >( l, rho, eta ); x.op( 3 );
    long double A2 = r[ l ].F * r[ l ].F + r[ l ].G * r[ l ].G;
    double rP = rho / A2, rS = rho / A2 * ( r[ l ].F * r[ l ].dF + r[ l ].G * r[ l ].dG ), rphi = std::atan2( r[ l ].F, r[ l ].G );
    double tol = eta == 0. ? 1e-10 : eta < 15. ? 3e-7 : 5e-6 * rho;    // the error of the method at large eta grows with rho
    x.maximum( "deviation / tolerance", std::max( { std::fabs( P / rP - 1 ), std::fabs( S - rS ) / ( 1 + std::fabs( rS ) ) / ( 2 + rho ), mc::modPi( phi, rphi ) } ) / tol );
    x.check( std::fabs( P / rP - 1 ) <= tol && std::fabs( S - rS ) <= tol * ( 1 + std::fabs( rS ) ) * ( 2 + rho ) && mc::modPi( phi, rphi ) <= tol, "large-ratio",
             [&] { return mc::cat( "l=", l, " rho=", rho, " eta=", eta, " P=", P, " S=", S, " phi=", phi, " expected P=", rP, " S=", rS, " phi=", rphi, " (mod pi), tolerance ", tol ); } );
  }
}
// highly charged or very slow particles: under a high barrier, and across the turning point above it
MC_BODY( "C06", "deep-barrier" ) {
  static const std::vector< double > some = { 41., 48., 55., 67., 80., 100., 128., 160., 250., 400. };
  double eta = some[ x.choose( x.thorough ? some.size() : 7 ) ];
  int e = x.choose( 18 ) - 6;
  x.shard();
  const int n = x.thorough ? 256 : 32;
  double rho = std::ldexp( 1. + x.choose( n ) / (double) n, e );
  if ( rho > 4 * eta + 500 ) throw mc::Prune();
  static std::map< double, ref::Coulomb > cache;
  auto it = cache.find( eta ); if ( it == cache.end() ) { cache.clear(); it = cache.emplace( eta, ref::Coulomb( eta, std::ldexp( 1.L, -7 ), 4 * eta + 520 ) ).first; }
  auto r = it->second( 8, rho );
  double tol = std::max( 2.4e-4 * eta / rho, std::max( 1e-3, 3e-6 * rho ) );
  if ( tol > 0.6 ) throw mc::Prune();
  for ( unsigned l = 0; l <= 8; ++l ) {
    mc::note( mc::cat( "l=", l, " rho=", rho, " eta=", eta ) );
    double P = rm::calculatePenetrability< rm::ChargedParticle >( l, rho, eta ), S = rm::calculateShiftFactor< rm::ChargedParticle >( l, rho, eta ), phi = rm::calculatePhaseShift< rm::ChargedParticle >( l, rho, eta ); x.op( 3 );
    long double A2 = r[ l ].F * r[ l ].F + r[ l ].G * r[ l ].G;
    double rP = rho / A2, rS = rho / A2 * ( r[ l ].F * r[ l ].dF + r[ l ].G * r[ l ].dG ), rphi = std::atan2( r[ l ].F, r[ l ].G );
    auto what = [&] { return mc::cat( "l=", l, " rho=", rho, " eta=", eta, " P=", P, " S=", S, " phi=", phi, " expected P=", rP, " S=", rS, " phi=", rphi, " (mod pi), tolerance ", tol ); };
    if ( rP < 1e-80 && P == 0. ) { vanishing( x, P, S, phi, rS, tol, what ); continue; }
    x.maximum( "P deviation / tolerance", std::fabs( P / rP - 1 ) / tol );
    x.maximum( "S deviation / tolerance", std::fabs( S - rS ) / ( 1 + std::fabs( rS ) ) / ( 2 + rho ) / tol );
    x.maximum( "phi deviation / tolerance", mc::modPi( phi, rphi ) / tol );
    x.check( std::fabs( P / rP - 1 ) <= tol && std::fabs( S - rS ) <= tol * ( 1 + std::fabs( rS ) ) * ( 2 + rho ) && mc::modPi( phi, rphi ) <= tol, "deep-barrier", what );
  }
}
// so far below the barrier that nothing comes through, whatever the reference could say
MC_BODY( "C06", "impenetrable" ) {
  int e = x.choose( 30 ); x.shard();
  double eta = std::ldexp( 1. + x.choose( 4 ) / 4., 9 + e );
  int k = x.choose( 40 );
  double rho = std::ldexp( 1. + x.choose( x.thorough ? 32 : 4 ) / 32., k - 8 );
  if ( rho > eta / 2 ) throw mc::Prune();
  for ( unsigned l = 0; l <= 8; ++l ) {
    mc::note( mc::cat( "l=", l, " rho=", rho, " eta=", eta ) );
    double P = rm::calculatePenetrability< rm::ChargedParticle >( l, rho, eta ), S = rm::calculateShiftFactor< rm::ChargedParticle >( l, rho, eta ), phi = rm::calculatePhaseShift< rm::ChargedParticle >( l, rho, eta ); x.op( 3 );
    double rS = -std::sqrt( rho * ( 2 * eta - rho ) + l * ( l + 1. ) );
    auto what = [&] { return mc::cat( "l=", l, " rho=", rho, " eta=", eta, " P=", P, " S=", S, " phi=", phi, " expected P=0 S about ", rS, " phi=0" ); };
    vanishing( x, P, S, phi, rS, 0.5, what );
  }
}
MC_BODY( "C06", "wronskian-all-l" ) {
  double eta = x.pick( etas( x.thorough ) );
  int l = x.choose( 59 );
  x.shard();
  const int n = x.thorough ? 8 : 1;
  int e = x.choose( 15 ) - 6;
  double rho = std::ldexp( 1. + x.choose( n ) / (double) n, e );
  std::complex< double > g, d; bool threw = false;
  try { rm::coulombWaveFunctions( l, rho, eta, g, d ); x.op(); } catch ( const std::exception& ) { threw = true; }
  if ( threw ) { x.count( "refused" ); x.check( true, "refused", [] { return ""; } ); return; }
  if ( std::abs( g ) > 1e150 || std::abs( d ) > 1e150 || g == 0. ) { x.count( "overflow" ); x.check( true, "overflow", [] { return ""; } ); return; }
  long double w = (long double) d.imag() * g.real() - (long double) d.real() * g.imag();
  x.check( std::fabs( w - 1 ) <= 2e-6, "wronskian", [&] { return mc::cat( "l=", l, " rho=", rho, " eta=", eta, " F=", g.imag(), " G=", g.real(), " F'G-FG'=", (double) w ); } );
}
MC_BODY( "C06", "neutral-limit" ) {
  // without charge a charged particle channel is a neutron channel
  const int n = x.thorough ? 1024 : 64;
  int e = x.choose( 15 ) - 6; x.shard();
  double rho = std::ldexp( 1. + x.choose( n ) / (double) n, e );
  for ( unsigned l = 0; l <= 4; ++l ) {
    double P = rm::calculatePenetrability< rm::ChargedParticle >( l, rho, 0. ), S = rm::calculateShiftFactor< rm::ChargedParticle >( l, rho, 0. ),
           phi = rm::calculatePhaseShift< rm::ChargedParticle >( l, rho, 0. );
    double nP = rm::calculatePenetrability< rm::Neutron >( l, rho, 0. ), nS = rm::calculateShiftFactor< rm::Neutron >( l, rho, 0. ),
           nphi = rm::calculatePhaseShift< rm::Neutron >( l, rho, 0. );
    x.op( 6 );
    auto what = [&] { return mc::cat( "l=", l, " rho=", rho, " charged P,S,phi=", P, ",", S, ",", phi, " neutron ", nP, ",", nS, ",", nphi ); };
    x.check( mc::close( P, nP, 1e-10 ), "P", what );
    x.check( std::fabs( S - nS ) <= 1e-10 * ( 1 + rho ), "S", what );
    x.check( mc::modPi( phi, nphi ) <= 1e-10, "phi", what );
  }
}
MC_BODY( "C06", "unsupported-l" ) {
  int l = 59 + x.choose( x.thorough ? 4000 : 400 ); x.shard();
  static const std::vector< double > rhos = { 0.1, 1., 10. }, es = { 0., 1., 8., 20. };
  double rho = x.pick( rhos ), eta = x.pick( es );
  int threw = 0;
  mc::note( mc::cat( "l=", l, " rho=", rho, " eta=", eta ) );
  try { x.op(); rm::calculatePenetrability< rm::ChargedParticle >( l, rho, eta ); } catch ( const std::exception& ) { ++threw; }
  try { x.op(); rm::calculateShiftFactor< rm::ChargedParticle >( l, rho, eta ); } catch ( const std::exception& ) { ++threw; }
  try { x.op(); rm::calculatePhaseShift< rm::ChargedParticle >( l, rho, eta ); } catch ( const std::exception& ) { ++threw; }
  x.check( threw == 3, "silent-answer", [&] { return mc::cat( "l=", l, " rho=", rho, " eta=", eta, ": ", threw, " of 3 functions refuse" ); } );
}
MC_BODY( "C06", "unsupported-large-l" ) {
  x.shard();
  unsigned base = 1u << ( 6 + x.choose( 26 ) ), off = x.choose( 6 );
  unsigned l = x.choose( 2 ) ? base + off : base - 1 - off;
  if ( x.choose( 2 ) ) l = 0u - l;
  static const std::vector< double > es = { 0., 0.7, 8., 20. };
  double rho = x.choose( 2 ) ? 1.5 : 20., eta = x.pick( es );
  if ( l < 59 ) throw mc::Prune();
  int threw = 0; x.op( 3 );
  mc::note( mc::cat( "l=", l, " rho=", rho, " eta=", eta ) );
  try { rm::calculatePenetrability< rm::ChargedParticle >( l, rho, eta ); } catch ( const std::exception& ) { ++threw; }
  try { rm::calculateShiftFactor< rm::ChargedParticle >( l, rho, eta ); } catch ( const std::exception& ) { ++threw; }
  try { rm::calculatePhaseShift< rm::ChargedParticle >( l, rho, eta ); } catch ( const std::exception& ) { ++threw; }
  x.check( threw == 3, "silent-answer", [&] { return mc::cat( "l=", l, " rho=", rho, " eta=", eta, ": ", threw, " of 3 functions refuse" ); } );
}
// the reference itself, against values of an arbitrary precision library
struct Entry { int l; double eta, rho; long double F, G; };
static const Entry table[] = {
#include "coulomb_table.inc"
};
MC_BODY( "C06", "reference-model-validation" ) {
  x.shard();
  int i = x.choose( sizeof( table ) / sizeof( table[ 0 ] ) );
  const Entry& t = table[ i ];
  auto v = reference( t.eta )( t.l, t.rho )[ t.l ]; x.op();
  long double A = std::sqrt( t.F * t.F + t.G * t.G );
  long double turning = t.eta + std::sqrt( (long double) t.eta * t.eta + t.l * ( t.l + 1.L ) );
  bool ok = std::fabs( v.G - t.G ) <= 1e-14L * A && std::fabs( v.F - t.F ) <= 1e-14L * ( t.rho > turning ? A : std::fabs( t.F ) );
  // a wrong reference is an error of the check, never a violation
  if ( !ok ) { std::fprintf( stderr, "reference model wrong at l=%d eta=%g rho=%g\n", t.l, t.eta, t.rho ); std::exit( 3 ); }
  x.check( ok, "reference", [] { return ""; } );
}

// --- C07 -----------------------------------------------------------------------
static void coulombPhase( mc::Explorer& x, int l, double eta ) {
  double w = rm::calculateCoulombPhaseShift< rm::ChargedParticle >( l, eta ); x.op();
  long double expected = 0, cot = 0, scale = 1;
  for ( int i = 1; i <= l; ++i ) { expected += std::atan( (long double) eta / i ); long double c = 1 / std::tan( (long double) eta / i ); cot += c; scale += std::fabs( c ); }
  if ( x.wantSample() ) x.sample( mc::cat( "l=", l, " eta=", eta, " w=", w ) );
  auto what = [&] { return mc::cat( "l=", l, " eta=", eta, " w=", w, " expected sum of atan(eta/n) = ", (double) expected ); };
  ++x.checks;
  if ( mc::close( w, expected, 1e-13 ) ) return;
  // known finding: the reciprocal of the tangent instead of its inverse function. Its error grows with the square of
  // the cotangent next to the poles.
  double tol = 1e-15; for ( int i = 1; i <= l; ++i ) { long double s = std::sin( (long double) eta / i ); tol += 4e-16 * ( 1 + std::fabs( eta ) / i / ( s * s ) ); }
  bool isKnown = l >= 1 && ( eta == 0. ? std::isinf( w ) : std::fabs( w - (double) cot ) <= tol + 4e-16 * ( 1 + l / 8 ) * (double) scale );
  x.fail( isKnown ? "reciprocal-tangent" : "coulomb-phase-shift", what(), isKnown ? "C07-K1" : "" );
}
MC_BODY( "C07", "coulomb-phase" ) {
  int l = x.choose( x.thorough ? 120 : 60 );
  x.shard();
  const int n = x.thorough ? 16384 : 2048;
  int e = x.choose( 21 ) - 11;
  coulombPhase( x, l, e == -11 ? 0. : std::ldexp( 1. + x.choose( n ) / (double) n, e ) );
}
MC_BODY( "C07", "decimals" ) {
  int l = x.choose( x.thorough ? 120 : 60 );
  x.shard();
  int k = x.choose( 9 ); int m = 100 + x.choose( 900 );
  static const double p[] = { 1e8, 1e7, 1e6, 1e5, 1e4, 1e3, 100., 10., 1. };
  coulombPhase( x, l, m / p[ k ] );
}
MC_BODY( "C07", "large-l" ) {
  x.shard();
  static const std::vector< int > ls = { 61, 64, 99, 100, 101, 127, 128, 200, 255, 256, 257, 500, 1000 };
  static const std::vector< double > es = { 0., 1e-300, 1e-12, 1e-5, 0.5, 3., 14.9, 15., 40., 100., 1e3, -0.5, -3., -40. };
  int l = x.pick( ls );
  coulombPhase( x, l, x.pick( es ) );
}
MC_BODY( "C07", "negative-eta" ) {
  // an attractive field has the opposite phase shift
  int l = x.choose( 25 ); x.shard();
  int k = x.choose( 5 ); int m = 10 + x.choose( 90 );
  static const double p[] = { 1e4, 1e3, 100., 10., 1. };
  coulombPhase( x, l, -m / p[ k ] );
}
int main( int argc, char** argv ) { return mc::mainLoop( argc, argv ); }
