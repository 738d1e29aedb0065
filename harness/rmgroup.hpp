// Spin groups: description of a configuration, construction of the real objects, and an independent
// long double model of the Reich-Moore R-matrix cross sections.
#ifndef VERIF_RMGROUP_HPP
#define VERIF_RMGROUP_HPP
#include "rm.hpp"
#include "hardsphere.hpp"

enum Kind { NEUTRON, PHOTON, CHARGED, FISSION };
struct ChannelModel {
  Kind kind; PairModel in, out; double q; unsigned l; double s, J; short parity; double aP, aS, aphi, B; std::string id; const RadiusTable* table = nullptr; bool noShift = false;   // noShift: the boundary condition is the shift factor
  rm::ParticleChannel make() const {
    auto pin = in.make(), pout = out.make();
    rm::ChannelRadii radii( rootB( aP ), rootB( aS ), rootB( aphi ) );
    rm::ChannelQuantumNumbers n( l, s, J, parity );
    auto build = [&]( auto type ) -> rm::ParticleChannel {
      using T = decltype( type );
      if ( id.empty() ) return rm::Channel< T >( pin, pout, eV( q ), n, radii, B );
      return rm::Channel< T >( pin, pout, id, eV( q ), n, radii, B );
    };
    switch ( kind ) {
      case NEUTRON: return build( rm::Neutron{} );
      case PHOTON: return build( rm::Photon{} );
      case CHARGED: return build( rm::ChargedParticle{} );
      default: return build( rm::Fission{} );
    }
  }
  std::string pairSymbol() const { return out.id.empty() ? rm::ParticlePairID( rm::ParticleID( out.a ), rm::ParticleID( out.b ) ).symbol() : out.id; }
  std::string inSymbol() const { return in.id.empty() ? rm::ParticlePairID( rm::ParticleID( in.a ), rm::ParticleID( in.b ) ).symbol() : in.id; }
  bool incident() const { return pairSymbol() == inSymbol(); }
  std::string reaction() const { return inSymbol() + "->" + pairSymbol(); }
  std::string channelID() const { return ( id.empty() ? pairSymbol() : id ) + rm::ChannelQuantumNumbers( l, s, J, parity ).toString(); }
  struct Functions { real P, S, phi, w; bool closed; };
  Functions at( double energy ) const {
    Functions f{ 1, 0, 0, 0, channelEnergy( in, q, energy ) < 0 };
    real k = waveNumber( in, out, q, energy );
    if ( kind == NEUTRON ) { f.P = ref::hardSphere( l, k * radiusAt( aP, table, energy ) ).P; f.S = ref::hardSphere( l, k * radiusAt( aS, table, energy ) ).S; f.phi = ref::hardSphere( l, k * radiusAt( aphi, table, energy ) ).phi; }
    else if ( kind == CHARGED ) {   // the Coulomb functions have a property of their own
      double eta = (double) sommerfeld( in, out, q, energy );
      f.P = rm::calculatePenetrability< rm::ChargedParticle >( l, (double)( k * aP ), eta );
      f.S = rm::calculateShiftFactor< rm::ChargedParticle >( l, (double)( k * aS ), eta );
      f.phi = rm::calculatePhaseShift< rm::ChargedParticle >( l, (double)( k * aphi ), eta );
      f.w = rm::calculateCoulombPhaseShift< rm::ChargedParticle >( l, eta );
    }
    return f;
  }
};
struct ResonanceModel { double energy; std::vector< double > widths; double eliminated; };

struct GroupModel {
  std::vector< ChannelModel > channels; std::vector< ResonanceModel > resonances;
  std::vector< rm::ParticleChannel > makeChannels() const { std::vector< rm::ParticleChannel > v; for ( auto& ch : channels ) v.push_back( ch.make() ); return v; }
  rm::ResonanceTable makeTable() const {
    std::vector< rm::ChannelID > ids; for ( auto& ch : channels ) ids.push_back( ch.channelID() );
    std::vector< rm::Resonance > rs;
    for ( auto& r : resonances ) { std::vector< ReducedWidth > w; for ( double v : r.widths ) w.push_back( rootEV( v ) ); rs.emplace_back( eV( r.energy ), std::move( w ), rootEV( r.eliminated ) ); }
    return rm::ResonanceTable( std::move( ids ), std::move( rs ) );
  }
  template < typename Option > rm::SpinGroup< rm::ReichMoore, Option > make() const { return rm::SpinGroup< rm::ReichMoore, Option >( makeChannels(), makeTable() ); }
  std::string text() const {
    std::string t = "channels";
    for ( auto& ch : channels ) t += " " + ch.channelID() + ( ch.q ? mc::cat( "(Q=", ch.q, ")" ) : "" );
    t += " resonances";
    for ( auto& r : resonances ) { t += mc::cat( " E=", r.energy, "[" ); for ( double w : r.widths ) t += mc::cat( w, " " ); t += mc::cat( "| ", r.eliminated, "]" ); }
    return t;
  }

  // --- the model -----------------------------------------------------------
  using Mat = std::vector< std::vector< cplx > >;
  struct Result { std::map< std::string, real > xs; Mat T; std::vector< std::vector< cplx > > U; real factor; real condition; bool valid; bool pole = false; };
  static Mat inverse( Mat a ) {
    std::size_t n = a.size(); Mat b( n, std::vector< cplx >( n, 0 ) );
    for ( std::size_t i = 0; i < n; ++i ) b[ i ][ i ] = 1;
    for ( std::size_t c = 0; c < n; ++c ) {
      std::size_t p = c; for ( std::size_t r = c + 1; r < n; ++r ) if ( std::abs( a[ r ][ c ] ) > std::abs( a[ p ][ c ] ) ) p = r;
      std::swap( a[ c ], a[ p ] ); std::swap( b[ c ], b[ p ] );
      cplx d = cplx( 1 ) / a[ c ][ c ];
      for ( std::size_t j = 0; j < n; ++j ) { a[ c ][ j ] *= d; b[ c ][ j ] *= d; }
      for ( std::size_t r = 0; r < n; ++r ) if ( r != c ) { cplx f = a[ r ][ c ]; if ( f == cplx( 0 ) ) continue; for ( std::size_t j = 0; j < n; ++j ) { a[ r ][ j ] -= f * a[ c ][ j ]; b[ r ][ j ] -= f * b[ c ][ j ]; } }
    }
    return b;
  }
  Result evaluate( double energy, bool shiftFactor ) const {
    std::size_t n = channels.size(); Result out; out.valid = true;
    std::vector< ChannelModel::Functions > f; for ( auto& ch : channels ) f.push_back( ch.at( energy ) );
    Mat R( n, std::vector< cplx >( n, 0 ) ), A( n, std::vector< cplx >( n, 0 ) ), T( n, std::vector< cplx >( n, 0 ) );
    std::vector< cplx > L( n );
    for ( std::size_t i = 0; i < n; ++i ) L[ i ] = cplx( shiftFactor || channels[ i ].noShift ? 0 : f[ i ].S - channels[ i ].B, f[ i ].P );
    std::vector< real > pole;
    for ( auto& r : resonances ) {
      cplx d( (real) r.energy - energy, -(real) r.eliminated * r.eliminated );
      if ( d == cplx( 0 ) ) {
        // the R matrix has a pole here: the cross sections are the limit, in which it is taken out below
        if ( out.pole ) { out.valid = false; return out; }
        out.pole = true; pole.clear();
        for ( std::size_t i = 0; i < n; ++i ) pole.push_back( f[ i ].closed ? 0 : (real) r.widths[ i ] );
        continue;
      }
      for ( std::size_t i = 0; i < n; ++i ) for ( std::size_t j = 0; j < n; ++j ) if ( !f[ i ].closed && !f[ j ].closed ) R[ i ][ j ] += (real) r.widths[ i ] * r.widths[ j ] / d;
    }
    real norm = 0;
    for ( std::size_t i = 0; i < n; ++i ) for ( std::size_t j = 0; j < n; ++j ) { cplx rl = R[ i ][ j ] * L[ j ]; A[ i ][ j ] = cplx( i == j ) - rl; norm += std::abs( A[ i ][ j ] ); }
    Mat inv = inverse( A ); real ninv = 0;
    for ( auto& row : inv ) for ( auto& v : row ) ninv += std::abs( v );
    out.condition = norm * ninv;
    // ( 1 - R L )^-1 R with R = R0 + g g^T / d is M R0 + M g ( M g )^T / ( d - g^T L M g ) with M = ( 1 - R0 L )^-1
    std::vector< cplx > mg( n, 0 ); cplx lmg = 0; real lmgNorm = 0;
    if ( out.pole ) {
      for ( std::size_t i = 0; i < n; ++i ) { for ( std::size_t k = 0; k < n; ++k ) mg[ i ] += inv[ i ][ k ] * pole[ k ]; lmg += pole[ i ] * L[ i ] * mg[ i ]; lmgNorm += std::abs( pole[ i ] * L[ i ] * mg[ i ] ); }
      if ( lmg != cplx( 0 ) ) out.condition += lmgNorm / std::abs( lmg );
    }
    for ( std::size_t i = 0; i < n; ++i ) for ( std::size_t j = 0; j < n; ++j ) {
      cplx s = 0; for ( std::size_t k = 0; k < n; ++k ) s += inv[ i ][ k ] * R[ k ][ j ];
      if ( out.pole && lmg != cplx( 0 ) ) s -= mg[ i ] * mg[ j ] / lmg;
      T[ i ][ j ] = std::sqrt( f[ i ].P ) * s * std::sqrt( f[ j ].P );
    }
    out.T = T; out.U = T;
    for ( std::size_t i = 0; i < n; ++i ) for ( std::size_t j = 0; j < n; ++j )
      out.U[ i ][ j ] = std::exp( cplx( 0, f[ i ].w - f[ i ].phi ) ) * ( cplx( i == j ) + cplx( 0, 2 ) * T[ i ][ j ] ) * std::exp( cplx( 0, f[ j ].w - f[ j ].phi ) );
    std::size_t first = n;
    for ( std::size_t i = 0; i < n; ++i ) if ( channels[ i ].incident() ) { first = i; break; }
    real k = waveNumber( channels[ first ].in, channels[ first ].out, channels[ first ].q, energy );
    out.factor = c::pi / ( k * k ) * spinFactor( channels[ first ].out, channels[ first ].J );
    std::string capture = channels[ 0 ].inSymbol() + "->capture";
    for ( std::size_t i = 0; i < n; ++i ) if ( channels[ i ].incident() ) {
      real absorbed = 1;
      for ( std::size_t j = 0; j < n; ++j ) {
        cplx d = i == j ? std::exp( cplx( 0, 2 * f[ i ].w ) ) : cplx( 0 );
        out.xs[ channels[ j ].reaction() ] += out.factor * std::norm( d - out.U[ i ][ j ] );
        absorbed -= std::norm( out.U[ i ][ j ] );
      }
      out.xs[ capture ] += out.factor * absorbed;
    }
    return out;
  }
};

// a spin group of any size, J = 1 and positive parity: every kind of channel, every one different
static const PairModel largeIn{ 1.008664, 34.66845, 0, 17, 0.5, 1.5, "n", "Cl35", "" };
inline ChannelModel largeChannel( int i ) {
  static const PairModel fOut{ 0., 0., 0, 0, 0., 0., "fission", "fission", "fission" };
  double J = 1.; short p = +1; int k = i / 3;
  if ( i == 0 ) return { NEUTRON, largeIn, largeIn, 0., 0, 1., J, p, 0.48, 0.48, 0.36, 0., "" };
  if ( i == 1 ) return { NEUTRON, largeIn, largeIn, 0., 2, 1., J, p, 0.48, 0.5, 0.36, -2., "" };
  if ( i == 2 ) return { NEUTRON, largeIn, largeIn, 0., 2, 2., J, p, 0.44, 0.48, 0.4, 0.3, "" };
  if ( i % 3 == 0 ) return { FISSION, largeIn, fOut, 0., 0, 0., J, p, 0.5, 0.5, 0.5, 0., "fission" + std::to_string( k ) };
  PairModel level = largeIn; level.b = "Cl35_e" + std::to_string( i ); level.sb = i % 2 ? 0.5 : 1.5;
  if ( i % 3 == 1 ) return { NEUTRON, largeIn, level, -1e4 * k, 0, 1., J, p, 0.48, 0.48, 0.4, 0., "" };
  PairModel proton{ 1.00727647, 34.96903, 1, 16, 0.5, 1.5, "p", "S35_e" + std::to_string( i ), "" }; if ( k == 1 ) proton.b = "S35";
  return { CHARGED, largeIn, proton, 6.15e5 - 4e4 * k, i % 2 ? 2u : 0u, 1., J, p, 0.48, 0.48, 0.36, 0., "" };
}
inline std::vector< ChannelModel > largeChannels( int n, int start, int order ) {   // order: in turn, from the last to the first, in turn with a stride
  std::vector< ChannelModel > v; bool in = false;
  for ( int i = 0; i < n; ++i ) { int k = start + i; in = in || k < 3; v.push_back( largeChannel( k ) ); }
  if ( !in ) v[ ( n * 2 ) / 3 ] = largeChannel( 0 );
  if ( order == 1 ) std::reverse( v.begin(), v.end() );
  if ( order == 2 ) { std::vector< ChannelModel > w; int stride = n % 5 ? 5 : n % 7 ? 7 : 11; for ( int i = 0; i < n; ++i ) w.push_back( v[ ( i * stride ) % n ] ); v = w; }
  return v;
}
inline std::vector< ResonanceModel > largeResonances( int n, int channels, int order ) {
  std::vector< ResonanceModel > v;
  for ( int i = 0; i < n; ++i ) {
    ResonanceModel r{ -150. + 137. * i, {}, i % 4 == 3 ? 0. : 0.1 + 0.03 * ( i % 9 ) };
    for ( int k = 0; k < channels; ++k ) r.widths.push_back( ( i * 3 + k ) % 7 == 0 ? 0. : ( ( i + k ) % 3 == 0 ? -1. : 1. ) * ( 0.2 + 0.17 * ( ( k * 5 + i * 3 ) % 11 ) ) );
    v.push_back( r );
  }
  if ( order == 1 ) std::reverse( v.begin(), v.end() );
  return v;
}

// two sets of cross sections are the same: relative, plus an absolute part that is the rounding of 1 - sum |U|^2
inline bool sameCrossSections( const std::map< rm::ReactionID, CrossSection >& got, const std::map< std::string, real >& want, real factor, double rel, double abs ) {
  if ( got.size() != want.size() ) return false;
  for ( auto& p : got ) {
    auto it = want.find( p.first.symbol() );
    if ( it == want.end() || !mc::close( p.second.value, (double) it->second, rel, abs * (double) factor ) || std::isnan( p.second.value ) ) return false;
  }
  return true;
}
#endif
