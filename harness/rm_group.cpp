// C13 C14 C15 C16 C17 C18: Reich-Moore spin groups and compound systems
#include "rmgroup.hpp"

// --- the catalogue of channels ----------------------------------------------------
static const PairModel nTarget{ 1.008664, 34.66845, 0, 17, 0.5, 1.5, "n", "Cl35", "" };
static const PairModel nExcited{ 1.008664, 34.66845, 0, 17, 0.5, 0.5, "n", "Cl35_e1", "" };
static const PairModel pOut{ 1.00727647, 34.96903, 1, 16, 0.5, 1.5, "p", "S35", "" };
static const PairModel aOut{ 4.0015, 31.9739, 2, 15, 0., 1., "a", "P32", "" };
static const PairModel gOut{ 0., 35.968, 0, 17, 1., 2., "g", "Cl36", "" };
static const PairModel fOut{ 0., 0., 0, 0, 0., 0., "fission", "fission", "fission" };
static const PairModel pTarget{ 1.00727647, 34.96885, 1, 17, 0.5, 1.5, "p", "Cl35", "" };

static const double J = 1.; static const short parity = +1;
static std::vector< ChannelModel > catalogue( bool charged ) {
  const PairModel& in = charged ? pTarget : nTarget;
  Kind el = charged ? CHARGED : NEUTRON;
  return {
    { el, in, in, 0., 0, 1., J, parity, 0.48, 0.48, 0.36, 0., "" },
    { el, in, in, 0., 2, 1., J, parity, 0.48, 0.5, 0.36, -2., "" },
    { el, in, in, 0., 2, 2., J, parity, 0.44, 0.48, 0.4, 0.3, "" },
    { NEUTRON, in, nExcited, charged ? -8e5 : -5e4, 1, 1., J, parity, 0.48, 0.48, 0.4, -1., "" },
    { CHARGED, in, pOut, charged ? -3e5 : 6.15e5, 0, 1., J, parity, 0.48, 0.48, 0.36, 0., "" },
    { FISSION, in, fOut, 0., 0, 0., J, parity, 0.5, 0.5, 0.5, 0., "fission1" },
    { FISSION, in, fOut, 0., 0, 0., J, parity, 0.5, 0.5, 0.5, 0., "fission2" },
    { PHOTON, in, gOut, 0., 0, 1., J, parity, 0.5, 0.5, 0.5, 0., "" } };
}
// ordered selections of n channels with at least one incident channel among them
static std::vector< ChannelModel > selection( mc::Explorer& x, bool charged, int n, bool ordered = true ) {
  auto cat = catalogue( charged );
  std::vector< int > free; for ( int i = 0; i < (int) cat.size(); ++i ) free.push_back( i );
  std::vector< ChannelModel > sel; int last = -1;
  for ( int i = 0; i < n; ++i ) {
    std::vector< int > options; for ( int f : free ) if ( ordered || f > last ) options.push_back( f );
    int c = options[ x.choose( options.size() ) ];   // prunes if there is none
    sel.push_back( cat[ c ] ); free.erase( std::find( free.begin(), free.end(), c ) ); last = c;
  }
  bool incident = false; for ( auto& ch : sel ) incident = incident || ch.incident();
  if ( !incident ) throw mc::Prune();
  return sel;
}
// resonances: how many, and per resonance energy, width signs and zeros, eliminated width
static const std::vector< double > widthSize = { 3., 1.7, 0.9, 2.2, 1.3, 0.6, 1.1, 0.4 };
static std::vector< ResonanceModel > resonances( mc::Explorer& x, int channels, int maximum, bool signs ) {
  int n = x.choose( maximum + 1 );
  static const std::vector< double > energies = { 120., -40., 9e4 };
  std::vector< ResonanceModel > v;
  int elim = n ? x.choose( 3 ) : 0;   // none, all, all but the first
  for ( int i = 0; i < n; ++i ) {
    ResonanceModel r{ energies[ i % 3 ] + 1000. * ( i / 3 ), {}, elim == 0 || ( elim == 2 && i == 0 ) ? 0. : ( i % 2 == ( elim == 1 ? 1 : 0 ) ? -1. : 1. ) * ( 0.2 + 0.3 * i ) };
    int pattern = signs ? x.choose( i == 0 ? 3 : 4 ) : i % 4;
    for ( int k = 0; k < channels; ++k ) {
      double w = widthSize[ ( k + 3 * i ) % widthSize.size() ];
      switch ( pattern ) { case 0: break; case 1: if ( k % 2 ) w = -w; break; case 2: if ( k % 2 == i % 2 ) w = 0.; break; case 3: w = -w; }
      r.widths.push_back( w );
    }
    v.push_back( r );
  }
  return v;
}
static std::vector< double > energyList( const GroupModel& g, bool charged ) {
  std::vector< double > e = charged ? std::vector< double >{ 1.2e5, 3.3e5, 7e5, 1.5e6, 3e6, 1.9e7 } : std::vector< double >{ 1e-5, 0.0253, 1., 119.99, 120., 500., 4.9e4, 9e4, 1e6, 1.9e7 };
  for ( auto& ch : g.channels ) if ( ch.q < 0 ) { double t = (double)( -(real) ch.q / ch.in.ratio() ); e.push_back( t * ( 1 - 1e-3 ) ); e.push_back( t * ( 1 + 1e-3 ) ); }
  return e;
}

template < typename Option >
static void checkReference( mc::Explorer& x, const GroupModel& g, bool charged, bool tmatrix ) {
  constexpr bool shift = std::is_same_v< Option, rm::ShiftFactor >;
  auto group = g.template make< Option >(); x.op();
  for ( double e : energyList( g, charged ) ) {
    auto want = g.evaluate( e, shift );
    if ( !want.valid ) continue;   // two resonances at this very energy, without eliminated width
    double tol = 1e-12 * (double) want.condition + 1e-11;
    auto what = [&] { return mc::cat( shift ? "ShiftFactor " : "Constant ", g.text(), " E=", e ); };
    mc::note( what() );
    if ( !tmatrix ) {
      std::map< rm::ReactionID, CrossSection > xs; group.evaluate( eV( e ), xs ); x.op();
      if ( x.wantSample() ) x.sample( what() + ": " + text( xs ) );
      if ( want.pole ) { bool nan = !xs.empty(); for ( auto& p : xs ) nan = nan && std::isnan( p.second.value ); if ( nan ) { ++x.checks; x.fail( "cross-sections", what() + ": got " + text( xs ) + "expected " + text( want.xs ), "C13-K1" ); continue; } tol += 1e-6; }
      x.check( sameCrossSections( xs, want.xs, want.factor, tol, tol ), "cross-sections", [&] { return what() + ": got " + text( xs ) + "expected " + text( want.xs ); } );
      // flux: nothing is negative, no more is absorbed than comes in, and without eliminated widths nothing disappears
      real limit = 0, absorbed = 0; bool lossless = true; real channels = 0;
      for ( auto& ch : g.channels ) if ( ch.incident() ) { limit += 4 * want.factor; channels += want.factor; }
      for ( auto& r : g.resonances ) if ( r.eliminated != 0 ) lossless = false;
      std::string el = g.channels[ 0 ].inSymbol() + "->" + g.channels[ 0 ].inSymbol(), cap = g.channels[ 0 ].inSymbol() + "->capture";
      for ( auto& p : xs ) {
        x.check( p.second.value >= -tol * (double) want.factor * 10, "not-negative", [&] { return what() + ": " + text( xs ); } );
        if ( p.first.symbol() != el ) absorbed += p.second.value;
        if ( p.first.symbol() == el ) x.check( p.second.value <= ( 1 + tol ) * (double) limit, "unitarity-limit", [&] { return what() + ": " + text( xs ); } );
        if ( p.first.symbol() == cap && lossless ) x.check( std::fabs( p.second.value ) <= 10 * tol * (double) want.factor, "flux-conserved", [&] { return what() + ": " + text( xs ); } );
      }
      x.check( absorbed <= ( 1 + 10 * tol ) * channels, "absorption-limit", [&] { return what() + ": " + text( xs ); } );
    }
    else {
      std::map< rm::ReactionChannelID, std::complex< double > > t; group.evaluateTMatrix( eV( e ), t ); x.op();
      std::size_t n = g.channels.size();
      if ( x.wantSample() ) x.sample( what() );
      if ( want.pole ) { bool nan = t.size() == n * n; for ( auto& p : t ) nan = nan && ( std::isnan( p.second.real() ) || std::isnan( p.second.imag() ) ); if ( nan ) { ++x.checks; x.fail( "t-matrix", what() + " is NaN", "C14-K1" ); continue; } tol += 1e-6; }
      if ( !x.check( t.size() == n * n, "all-elements", [&] { return mc::cat( what(), ": ", t.size(), " elements" ); } ) ) continue;
      real scale = 0; for ( auto& row : want.T ) for ( auto& v : row ) scale = std::max( scale, std::abs( v ) );
      for ( std::size_t i = 0; i < n; ++i ) for ( std::size_t j = 0; j < n; ++j ) {
        auto a = t.find( g.channels[ i ].channelID() + "->" + g.channels[ j ].channelID() ), b = t.find( g.channels[ j ].channelID() + "->" + g.channels[ i ].channelID() );
        if ( !x.check( a != t.end() && b != t.end(), "all-elements", [&] { return what() + " misses " + g.channels[ i ].channelID() + "->" + g.channels[ j ].channelID(); } ) ) continue;
        cplx w = want.T[ i ][ j ];
        x.check( mc::close( a->second.real(), (double) w.real(), tol, tol * (double) scale ) && mc::close( a->second.imag(), (double) w.imag(), tol, tol * (double) scale ), "t-matrix",
          [&] { return mc::cat( what(), " ", a->first, " = ", a->second, " expected ", w ); } );
        x.check( std::abs( a->second - b->second ) <= tol * (double) scale, "symmetric", [&] { return mc::cat( what(), " ", a->first, " = ", a->second, " but ", b->first, " = ", b->second ); } );
      }
    }
  }
}
static void referenceBody( mc::Explorer& x, bool charged, bool tmatrix ) {
  int n = 1 + x.choose( charged ? ( x.thorough ? 3 : 2 ) : ( x.thorough ? 4 : 3 ) );
  GroupModel g; g.channels = selection( x, charged, n );
  x.shard();
  g.resonances = resonances( x, n, x.thorough ? 3 : 2, true );
  if ( x.choose( 2 ) ) checkReference< rm::Constant >( x, g, charged, tmatrix ); else checkReference< rm::ShiftFactor >( x, g, charged, tmatrix );
}
MC_BODY( "C13", "neutron-incident" ) { referenceBody( x, false, false ); }
MC_BODY( "C13", "charged-incident" ) { referenceBody( x, true, false ); }
MC_BODY( "C14", "neutron-incident" ) { referenceBody( x, false, true ); }
MC_BODY( "C14", "charged-incident" ) { referenceBody( x, true, true ); }
// many channels and many resonances
static void largeBody( mc::Explorer& x, bool tmatrix ) {
  int n = 4 + x.choose( 5 );
  x.shard();
  GroupModel g; auto cat = catalogue( false ); int rot = x.choose( 8 );
  for ( int i = 0; i < n; ++i ) g.channels.push_back( cat[ ( i + rot ) % 8 ] );
  bool incident = false; for ( auto& ch : g.channels ) incident = incident || ch.incident();
  if ( !incident ) throw mc::Prune();
  int nr = x.choose( 9 );
  for ( int i = 0; i < nr; ++i ) {
    ResonanceModel r{ -100. + 230. * i, {}, i % 3 ? 0.1 * i : 0. };
    for ( int k = 0; k < n; ++k ) r.widths.push_back( ( ( i + k ) % 3 == 0 ? -1. : 1. ) * widthSize[ ( k * 5 + i * 3 ) % 8 ] );
    g.resonances.push_back( r );
  }
  if ( x.choose( 2 ) ) checkReference< rm::Constant >( x, g, false, tmatrix ); else checkReference< rm::ShiftFactor >( x, g, false, tmatrix );
}
// more channels and resonances than anything of a fixed size would hold
static void hugeBody( mc::Explorer& x, bool tmatrix ) {
  static const std::vector< int > channels = { 1, 2, 3, 9, 12, 17 }, more = { 1, 2, 3, 4, 5, 9, 10, 12, 16, 17, 24, 33 }, count = { 9, 17, 40 }, counts = { 0, 5, 9, 12, 17, 25, 33, 40, 65, 100 };
  int n = x.pick( x.thorough ? more : channels ), start = x.choose( 3 ) * 3, order = x.choose( 3 ); x.shard(); int nr = x.pick( x.thorough ? counts : count ), rorder = x.choose( 2 );
  GroupModel g; g.channels = largeChannels( n, start, order ); g.resonances = largeResonances( nr, n, rorder );
  if ( x.choose( 2 ) ) checkReference< rm::Constant >( x, g, false, tmatrix ); else checkReference< rm::ShiftFactor >( x, g, false, tmatrix );
}
MC_BODY( "C13", "large-groups" ) { hugeBody( x, false ); }
MC_BODY( "C14", "large-groups" ) { hugeBody( x, true ); }
MC_BODY( "C13", "many-channels" ) { largeBody( x, false ); }
MC_BODY( "C14", "many-channels" ) { largeBody( x, true ); }
// one elastic channel: every l, a lattice of energies
MC_BODY( "C13", "energies" ) {
  GroupModel g; unsigned l = x.choose( 5 );
  int b = x.choose( 3 );
  ChannelModel el{ NEUTRON, nTarget, nTarget, 0., l, 1., l + 1., +1, 0.48, 0.48, 0.36, b == 0 ? 0. : b == 1 ? -1. * l : 0.7, "" };
  g.channels = { el };
  int r = x.choose( 4 );
  if ( r > 0 ) g.resonances.push_back( { 350., { 2. }, 0.5 } );
  if ( r > 1 ) g.resonances.push_back( { -25., { -1. }, 0. } );
  if ( r > 2 ) g.resonances.push_back( { 5e4, { 9. }, 1. } );
  x.shard();
  int N = x.thorough ? 8192 : 512;
  double e = std::pow( 10., -5. + 12. * x.choose( N ) / N );
  auto run = [&]( auto option ) {
    using Option = decltype( option ); constexpr bool shift = std::is_same_v< Option, rm::ShiftFactor >;
    auto group = g.make< Option >(); auto want = g.evaluate( e, shift );
    double tol = 1e-12 * (double) want.condition + 1e-11;
    std::map< rm::ReactionID, CrossSection > xs; group.evaluate( eV( e ), xs ); x.op();
    x.check( sameCrossSections( xs, want.xs, want.factor, tol, tol ), "cross-sections", [&] { return mc::cat( shift ? "ShiftFactor " : "Constant ", g.text(), " E=", e, ": got ", text( xs ), "expected ", text( want.xs ) ); } );
  };
  if ( x.choose( 2 ) ) run( rm::Constant{} ); else run( rm::ShiftFactor{} );
}
int main( int argc, char** argv ) { return mc::mainLoop( argc, argv ); }
