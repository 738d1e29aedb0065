// Breit-Wigner and unresolved groups: description of a configuration, construction of the real objects, and
// independent long double models of the cross sections.
#ifndef VERIF_RMLEGACY_HPP
#define VERIF_RMLEGACY_HPP
#include "rm.hpp"
#include "hardsphere.hpp"
namespace rl = njoy::resonanceReconstruction::rmatrix::legacy;
using XS = std::map< rm::ReactionID, CrossSection >;
using rr::Width;
static Width width( double v ) { return v * njoy::dimwits::electronVolt; }

// --- the channel of a legacy group -----------------------------------------------------
struct LegacyChannel {
  PairModel in; unsigned l; double J; double aP, aS, aphi; const RadiusTable* table = nullptr; real perRootEV = 0;   // the wave number at 1 eV, if not that of the masses
  rm::Channel< rm::Neutron > make() const {
    auto p = in.make();
    return rm::Channel< rm::Neutron >( p, p, eV( 0. ), rm::ChannelQuantumNumbers( l, std::fabs( J - l ), J, l % 2 ? -1 : +1 ), rm::ChannelRadii( rootB( aP ), rootB( aS ), rootB( aphi ) ) );
  }
  real k( real e ) const { return perRootEV > 0 ? perRootEV * std::sqrt( std::fabs( e ) ) : std::sqrt( 2 * in.reduced() * c::dalton * std::fabs( e * in.ratio() ) * c::e ) / c::hbar * 1e-14L; }
  real at( real e ) const { return perRootEV > 0 ? std::fabs( e ) : e; }   // where a tabulated radius is taken
  real P( real e ) const { return ref::hardSphere( l, k( e ) * radiusAt( aP, table, at( e ) ) ).P; }
  real S( real e ) const { return ref::hardSphere( l, k( e ) * radiusAt( aS, table, at( e ) ) ).S; }
  real phi( real e ) const { return ref::hardSphere( l, k( e ) * radiusAt( aphi, table, at( e ) ) ).phi; }
  real g() const { return spinFactor( in, J ); }
  std::string id( const char* t ) const { return in.a + "," + in.b + "->" + t; }
};
static const PairModel u238{ 1.008664, 236.0058, 0, 0, 0.5, 0., "n", "U238", "" };
static const PairModel rh103{ 1.008664, 102.021, 0, 0, 0.5, 0.5, "n", "Rh103", "" };

static std::string elasticSymbol( const PairModel& p ) { return rm::ReactionID( rm::ParticleID( p.a ), rm::ParticleID( p.b ), njoy::elementary::ReactionType( "elastic" ) ).symbol(); }
static std::string captureSymbol( const PairModel& p ) { return rm::ReactionID( rm::ParticleID( p.a ), rm::ParticleID( p.b ), njoy::elementary::ReactionType( "capture" ) ).symbol(); }
static std::string fissionSymbol( const PairModel& p ) { return rm::ReactionID( rm::ParticleID( p.a ), rm::ParticleID( p.b ), njoy::elementary::ReactionType( "fission" ) ).symbol(); }

// --- resolved ------------------------------------------------------------------------------
static bool endfQ = false;   // which model of the competitive width, see below
struct ResolvedModel {
  LegacyChannel channel; double qx; struct R { double e, n, g, f, x; }; std::vector< R > resonances;
  double Pr( const R& r ) const { return (double) channel.P( r.e ); }
  // the energy at which the competitive penetrability is taken. ENDF adds QX to the energy in the centre of mass: E + QX ( A + 1 ) / A
  // in the laboratory; the library takes E - QX (known findings C22-K1 and C27-K1), so that there are two models
  bool ownQ = false;   // whether the library itself computes the value at the resonance
  real competitive( real e, bool endf ) const { return endf ? e + qx / channel.in.ratio() : e - qx; }
  bool hasCompetition() const { if ( qx == 0. ) return false; for ( auto& r : resonances ) if ( r.x != 0. ) return true; return false; }
  double Qr( const R& r ) const { return qx != 0. ? (double) channel.P( competitive( r.e, endfQ && ownQ ) ) : Pr( r ); }
  double Sr( const R& r ) const { return (double) channel.S( r.e ); }
  template < typename Group > Group make() const {
    std::vector< rl::resolved::Resonance > v;
    for ( auto& r : resonances ) v.emplace_back( eV( r.e ), width( r.n ), width( r.g ), width( r.f ), width( r.x ), Pr( r ), Qr( r ), Sr( r ) );
    return Group( channel.make(), rl::resolved::ResonanceTable( std::move( v ) ), eV( qx ) );
  }
  // the Breit-Wigner formula through the collision function: U = exp( -2 i phi ) ( 1 + sum i Gn / ( E' - E - i G / 2 ) )
  std::map< std::string, real > evaluate( double energy, bool multi, real& factor, real& scale, real& rel ) const {
    real k = channel.k( energy ), p = channel.P( energy ), q = qx != 0. ? channel.P( competitive( energy, endfQ ) ) : p, s = channel.S( energy ), phi = channel.phi( energy );
    factor = c::pi / ( k * k ) * channel.g(); scale = 0;
    cplx e2 = std::exp( cplx( 0, -2 * phi ) ), sum = 0; rel = 1e-11L; real el = 0, cap = 0, fis = 0; real hard = std::norm( cplx( 1 ) - e2 );
    for ( auto& r : resonances ) {
      real gn = r.n / (real) Pr( r ) * p, gx = r.x == 0. ? 0 : r.x / (real) Qr( r ) * q, G = gn + r.g + r.f + gx;
      real ep = r.e + ( (real) Sr( r ) - s ) / 2 * r.n / (real) Pr( r );
      cplx term = cplx( 0, gn ) / cplx( ep - energy, -G / 2 );
      real D = ( energy - ep ) * ( energy - ep ) + G * G / 4;
      if ( multi ) sum += term; else el += std::norm( cplx( 1 ) - e2 * ( cplx( 1 ) + term ) ) - hard;
      cap += gn * r.g / D; fis += gn * r.f / D;
      rel = std::max( rel, 1e-15L * ( std::fabs( (real) r.e ) + energy + ( 1 + std::fabs( s ) ) * r.n / (real) Pr( r ) ) / std::sqrt( D ) );   // rounding of E - E' seen from its size
      scale += std::abs( term ) * ( 2 + std::abs( term ) );
    }
    if ( multi ) { el = std::norm( cplx( 1 ) - e2 * ( cplx( 1 ) + sum ) ) - hard; scale *= 1 + resonances.size(); }
    std::map< std::string, real > m{ { elasticSymbol( channel.in ), factor * el }, { captureSymbol( channel.in ), factor * cap } };
    if ( fis != 0 ) m[ fissionSymbol( channel.in ) ] = factor * fis;
    return m;
  }
  std::string text() const { std::string t = mc::cat( channel.in.b, " l=", channel.l, " J=", channel.J, " radii ", channel.aP, " ", channel.aS, " ", channel.aphi, " QX=", qx );
    for ( auto& r : resonances ) t += mc::cat( " [Er=", r.e, " n=", r.n, " g=", r.g, " f=", r.f, " x=", r.x, "]" ); return t; }
};
static bool sameXS( const XS& got, const std::map< std::string, real >& want, double rel, double abs ) {
  if ( got.size() != want.size() ) return false;
  for ( auto& p : got ) { auto it = want.find( p.first.symbol() ); if ( it == want.end() || std::isnan( p.second.value ) || !mc::close( p.second.value, (double) it->second, rel, abs ) ) return false; }
  return true;
}
static real potential( const LegacyChannel& first, unsigned lmax, double e ) {
  real k = first.k( e ), sum = 0; for ( unsigned l = 0; l <= lmax; ++l ) { real s = std::sin( ref::hardSphere( l, k * radiusAt( first.aphi, first.table, e ) ).phi ); sum += ( 2 * l + 1 ) * s * s; }
  return 4 * c::pi / ( k * k ) * sum;
}

// the 10 point MC2 quadrature for chi squared distributions with 1 to 4 degrees of freedom (weights, abscissae)
static const double qw[ 4 ][ 10 ] = {
  { 1.1120413e-1, 2.3546798e-1, 2.8440987e-1, 2.2419127e-1, .10967668, .030493789, .0042930874, 2.5827047e-4, 4.9031965e-6, 1.4079206e-8 },
  { .033773418, .079932171, .12835937, .17652616, .21347043, .21154965, .13365186, .022630659, 1.6313638e-5, 2.745383e-31 },
  { 3.3376214e-4, .018506108, .12309946, .29918923, .33431475, .17766657, .042695894, 4.0760575e-3, 1.1766115e-4, 5.0989546e-7 },
  { 1.7623788e-3, .021517749, .080979849, .18797998, .30156335, .29616091, .10775649, 2.5171914e-3, 8.9630388e-10, 0. } };
static const double qp[ 4 ][ 10 ] = {
  { 3.0013465e-3, 7.8592886e-2, 4.3282415e-1, 1.3345267, 3.0481846, 5.8263198, 9.9452656, 15.782128, 23.996824, 36.216208 },
  { 1.3219203e-2, 7.2349624e-2, .19089473, .39528842, .74083443, 1.3498293, 2.5297983, 5.2384894, 13.821772, 75.647525 },
  { 1.0004488e-3, .026197629, .14427472, .44484223, 1.0160615, 1.9421066, 3.3150885, 5.2607092, 7.9989414, 12.072069 },
  { 1.3219203e-2, 7.2349624e-2, .19089473, .39528842, .74083443, 1.3498293, 2.5297983, 5.2384894, 13.821772, 75.647525 } };
struct Fluctuation { real n, g, f, x; };
static Fluctuation fluctuation( real wn, real wg, real wf, real wx, int dn, int df, int dx ) {
  Fluctuation r{ 0, 0, 0, 0 }; int J = wf != 0 ? 10 : 1, K = wx != 0 ? 10 : 1;   // a zero width does not fluctuate
  for ( int i = 0; i < 10; ++i ) for ( int j = 0; j < J; ++j ) for ( int k = 0; k < K; ++k ) {
    real a = qp[ dn - 1 ][ i ], b = J > 1 ? qp[ df - 1 ][ j ] : 0, d = K > 1 ? qp[ dx - 1 ][ k ] : 0;
    real w = qw[ dn - 1 ][ i ] * (real)( J > 1 ? qw[ df - 1 ][ j ] : 1 ) * ( K > 1 ? qw[ dx - 1 ][ k ] : 1 ) / ( a * wn + wg + b * wf + d * wx );
    r.n += a * a * w; r.g += a * w; r.f += a * b * w; r.x += a * d * w;
  }
  return r;
}
struct UnresolvedModel {
  LegacyChannel channel; int dn, df, dx; struct R { double e, d, n, g, f, x; }; std::vector< R > resonances;
  rl::unresolved::ResonanceTable table() const {
    std::vector< rl::unresolved::Resonance > v; for ( auto& r : resonances ) v.emplace_back( eV( r.e ), eV( r.d ), rootEV( r.n ), width( r.g ), width( r.f ), width( r.x ) );
    return rl::unresolved::ResonanceTable( std::move( v ), rl::unresolved::Degrees( dn, 0, df, dx ) );
  }
  rl::unresolved::SpinGroup make() const { return rl::unresolved::SpinGroup( channel.make(), table() ); }
  R at( double e ) const {
    for ( std::size_t i = 0; i < resonances.size(); ++i ) if ( resonances[ i ].e == e ) return resonances[ i ];
    std::size_t i = 1; while ( resonances[ i ].e < e ) ++i;
    const R& a = resonances[ i - 1 ]; const R& b = resonances[ i ]; real t = ( (real) e - a.e ) / ( (real) b.e - a.e );
    auto lin = [&]( double u, double v ) { return (double)( u + t * ( (real) v - u ) ); };
    return { e, lin( a.d, b.d ), lin( a.n, b.n ), lin( a.g, b.g ), lin( a.f, b.f ), lin( a.x, b.x ) };
  }
  std::map< std::string, real > evaluate( double e, real& factor ) const {
    R r = at( e ); real k = channel.k( e ), phi = channel.phi( e ), s2 = std::sin( phi ) * std::sin( phi );
    real gn = r.n * std::sqrt( (real) e ) * dn * channel.P( e ) / ( k * radiusAt( channel.aP, channel.table, e ) );
    factor = 2 * c::pi * c::pi / ( k * k ) * channel.g() / r.d * gn;
    auto i = fluctuation( gn, r.g, r.f, r.x, dn, df ? df : 1, dx ? dx : 1 );
    std::map< std::string, real > m{ { elasticSymbol( channel.in ), factor * ( gn * i.n - 2 * s2 ) }, { captureSymbol( channel.in ), factor * r.g * i.g } };
    if ( r.f != 0 ) m[ fissionSymbol( channel.in ) ] = factor * r.f * i.f;
    return m;
  }
  std::string text() const { std::string t = mc::cat( channel.in.b, " l=", channel.l, " J=", channel.J, " degrees ", dn, " ", df, " ", dx ); for ( auto& r : resonances ) t += mc::cat( " [E=", r.e, " D=", r.d, " n=", r.n, " g=", r.g, " f=", r.f, " x=", r.x, "]" ); return t; }
};
#endif
