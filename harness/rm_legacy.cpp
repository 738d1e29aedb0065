// C15 C16 C20 C21 (legacy formalisms), C22 SLBW and MLBW, C23 unresolved cross sections, C24 unresolved grid
#include "rmlegacy.hpp"

static const std::vector< double > resolvedEnergies = { 1e-5, 0.0253, 1., 6.6, 6.67, 6.674, 6.75, 20.8, 20.87, 36.68, 150., 2e3, 1e5, 2e6 };
static const std::vector< double > reducedN = { 0.4, 5., 0., 900. };   // times P( Er ) is the width

template < typename Group, bool multi > static void checkResolved( mc::Explorer& x, const ResolvedModel& m ) {
  auto group = m.make< Group >(); x.op();
  for ( double e : resolvedEnergies ) {
    real factor, scale, rel; endfQ = true; auto want = m.evaluate( e, multi, factor, scale, rel );
    auto what = [&] { return mc::cat( multi ? "MLBW " : "SLBW ", m.text(), " E=", e ); };
    mc::note( what() );
    XS xs; group.evaluate( eV( e ), xs ); x.op();
    if ( x.wantSample() ) x.sample( what() + ": " + text( xs ) );
    if ( m.hasCompetition() && !sameXS( xs, want, (double) rel, (double)( factor * ( rel * scale + 1e-17L ) ) ) ) {
      endfQ = false; auto found = m.evaluate( e, multi, factor, scale, rel );
      if ( sameXS( xs, found, (double) rel, (double)( factor * ( rel * scale + 1e-17L ) ) ) ) { ++x.checks; x.fail( "competitive-energy", what() + ": got " + text( xs ) + "expected " + text( want ), "C22-K1" ); continue; }
    }
    x.check( sameXS( xs, want, (double) rel, (double)( factor * ( rel * scale + 1e-17L ) ) ), "cross-sections", [&] { return what() + ": got " + text( xs ) + "expected " + text( want ); } );
  }
}
template < typename Group, bool multi > static void resolvedBody( mc::Explorer& x ) {
  ResolvedModel m;
  unsigned l = x.choose( 5 ); int pair = x.choose( 2 );
  m.channel = { pair ? rh103 : u238, l, pair ? (double) l : l + 0.5, 0.84, 0.84, 0.95 };
  int n = x.choose( x.thorough ? 6 : 5 );
  if ( x.choose( 2 ) ) m.channel.aS = 0.7;
  static const std::vector< double > qxs = { 0., -4.5e4, 3. };
  m.qx = x.pick( qxs );
  x.shard();
  static const std::vector< double > er = { 6.67, -3.4, 20.87, 36.68 };
  for ( int i = 0; i < n; ++i ) {
    int w = x.choose( x.thorough ? 8 : 6 );
    double e = er[ ( i + ( l % 2 ) ) % 4 ]; ResolvedModel::R r{ e, reducedN[ ( w + i ) % 4 ] * (double) m.channel.P( e ), 0.023 + 0.01 * i, w % 2 ? 0.01 * ( i + 1 ) : 0., w == 3 || w == 4 || w == 7 ? 0.005 : 0. };
    if ( w == 6 ) r.f = -0.002;
    m.resonances.push_back( r );
  }
  checkResolved< Group, multi >( x, m );
}
using SLBW = rl::resolved::SpinGroup< rm::SingleLevelBreitWigner >;
using MLBW = rl::resolved::SpinGroup< rm::MultiLevelBreitWigner >;
MC_BODY( "C22", "single-level" ) { resolvedBody< SLBW, false >( x ); }
MC_BODY( "C22", "multi-level" ) { resolvedBody< MLBW, true >( x ); }
// up to 40 resonances
template < typename Group, bool multi > static void manyResonances( mc::Explorer& x ) {
  ResolvedModel m; unsigned l = x.choose( 3 ); m.channel = { u238, l, l + 0.5, 0.84, 0.84, 0.95 }; m.qx = x.choose( 2 ) ? -4.5e4 : 0.;
  int n = 4 + x.choose( x.thorough ? 157 : 77 ); x.shard(); int pattern = x.choose( 4 );
  for ( int i = 0; i < n; ++i ) {   // in order, not in order, clustered, two at the same energy
    double e = pattern == 0 ? -20.3 + 3.7 * i : pattern == 1 ? -20.3 + 3.7 * ( ( i * 7 ) % n + n / 64. ) : pattern == 2 ? 6.67 + 0.01 * i : 6.67 + 5. * ( i / 2 );
    m.resonances.push_back( { e, reducedN[ i % 2 ] * (double) m.channel.P( e ), 0.023 + 0.001 * i, i % 5 == 3 ? 0.01 * ( i + 1 ) : 0., m.qx != 0. && i % 4 == 2 ? 0.005 : 0. } );
  }
  checkResolved< Group, multi >( x, m );
}
MC_BODY( "C22", "many-single-level" ) { manyResonances< SLBW, false >( x ); }
MC_BODY( "C22", "many-multi-level" ) { manyResonances< MLBW, true >( x ); }
MC_BODY( "C22", "resonance" ) {   // the resonance itself: widths scale with the penetrabilities, the energy with the shift factor
  static const std::vector< double > v = { 0., 1e-3, 0.5, 7. }, p = { 1e-6, 0.3, 4. };
  double n = x.pick( v ), g = x.pick( v ); x.shard(); double f = x.pick( v ), cx = x.pick( v ), P = x.pick( p ), Q = x.pick( p ), S = x.pick( v ) - 1., e = x.pick( v ) - 0.2;
  rl::resolved::Resonance r( eV( e ), width( n ), width( g ), width( f ), width( cx ), P, Q, S ); x.op();
  auto what = [&] { return mc::cat( "resonance E=", e, " n=", n, " g=", g, " f=", f, " x=", cx, " P=", P, " Q=", Q, " S=", S, ": P ", r.penetrability(), " S ", r.shiftfactor() ); };
  x.check( r.energy().value == e && r.elastic().value == n && r.capture().value == g && r.fission().value == f && r.competition().value == cx, "stored", what );
  x.check( mc::close( r.total().value, n + g + f + cx, 1e-14 ), "total", what );
  x.check( r.penetrability() == P && r.shiftfactor() == S, "penetrability-shift", what );
  for ( double a : p ) for ( double b : p ) {
    x.check( mc::close( r.elastic( a ).value, a * n / P, 1e-13 ) && mc::close( r.competition( b ).value, b * cx / Q, 1e-13 ) && mc::close( r.total( a, b ).value, a * n / P + b * cx / Q + g + f, 1e-13 ), "widths", what );
    x.check( mc::close( r.energyPrime( a ).value, e + ( S - a ) / 2. * n / P, 1e-12, 1e-12 ), "energy-prime", what );
  }
  x.check( mc::close( r.total( P, Q ).value, r.total().value, 1e-13 ) && mc::close( r.energyPrime( S ).value, e, 1e-14, 1e-14 ), "at-resonance", what );
}
// a complete system: groups plus potential scattering with the first group's radius
static const std::vector< ResolvedModel > resolvedGroups = {
  { { u238, 0, 0.5, 0.84, 0.84, 0.95 }, 0., { { 6.67, 1.5e-3, 0.023, 0., 0. }, { 20.87, 1e-2, 0.023, 0.001, 0. } } },
  { { u238, 1, 0.5, 0.84, 0.84, 0.95 }, 0., { { 10.2, 1.7e-6, 0.023, 0., 0. } } },
  { { u238, 1, 1.5, 0.84, 0.84, 0.95 }, -4.5e4, { { 19.5, 1.5e-6, 0.023, 0., 0.001 }, { -7., 2e-5, 0.02, 0.02, 0. }, { 63., 1e-5, 0.02, 0., 0. } } },
  { { u238, 2, 2.5, 0.84, 0.84, 0.95 }, 0., {} },
  { { u238, 3, 2.5, 0.84, 0.7, 0.9 }, 0., { { 30., 1e-9, 0.02, 0., 0. } } },
  { { u238, 2, 1.5, 0.9, 0.84, 0.8 }, -60., { { 6.67, 2e-7, 0.03, 0.02, 0. }, { 47., 3e-6, 0.02, 0., 0.002 } } } };
static std::vector< int > selection( mc::Explorer& x, int size, int maximum ) {
  int n = 1 + x.choose( maximum ); std::vector< int > free, sel; for ( int i = 0; i < size; ++i ) free.push_back( i );
  for ( int i = 0; i < n; ++i ) { int k = x.choose( free.size() ); sel.push_back( free[ k ] ); free.erase( free.begin() + k ); }
  return sel;
}
template < typename Formalism > static rl::resolved::CompoundSystem< Formalism > resolvedSystem( const std::vector< int >& sel ) {
  std::vector< rl::resolved::SpinGroup< Formalism > > v; for ( int i : sel ) v.push_back( resolvedGroups[ i ].make< rl::resolved::SpinGroup< Formalism > >() );
  return rl::resolved::CompoundSystem< Formalism >( std::move( v ) );
}
template < typename Formalism, bool multi > static void resolvedSystemBody( mc::Explorer& x ) {
  auto sel = selection( x, resolvedGroups.size(), x.thorough ? 6 : 5 );
  x.shard();
  int start = x.choose( 2 );
  auto s = resolvedSystem< Formalism >( sel ); x.op();
  unsigned lmax = 0; for ( int i : sel ) lmax = std::max( lmax, resolvedGroups[ i ].channel.l );
  for ( double e : resolvedEnergies ) {
    XS xs; bool competition = false; if ( start ) { xs[ rm::ReactionID( captureSymbol( u238 ) ) ] = 3. * njoy::dimwits::barn; xs[ rm::ReactionID( elasticSymbol( u238 ) ) ] = 1. * njoy::dimwits::barn; }
    s.evaluate( eV( e ), xs ); x.op();
    real abs = 0, pot = potential( resolvedGroups[ sel[ 0 ] ].channel, lmax, e );
    auto model = [&]( bool endf ) {
      std::map< std::string, real > want; endfQ = endf; abs = 0;
      if ( start ) { want[ captureSymbol( u238 ) ] = 3; want[ elasticSymbol( u238 ) ] = 1; }
      for ( int i : sel ) { real f, sc, rel; competition = competition || resolvedGroups[ i ].hasCompetition(); for ( auto& p : resolvedGroups[ i ].evaluate( e, multi, f, sc, rel ) ) want[ p.first ] += p.second; abs += f * ( rel * sc + 1e-17L ); }
      want[ elasticSymbol( u238 ) ] += pot; return want; };
    auto want = model( true );
    if ( competition && !sameXS( xs, want, 1e-10, (double)( abs + 1e-12L * pot ) ) && sameXS( xs, model( false ), 1e-10, (double)( abs + 1e-12L * pot ) ) ) { ++x.checks; x.fail( "competitive-energy", mc::cat( "system E=", e, ": got ", text( xs ), "expected ", text( want ) ), "C22-K1" ); continue; }
    x.check( sameXS( xs, want, 1e-10, (double)( abs + 1e-12L * pot ) ), "sum-of-groups-and-potential", [&] { std::string q; for ( int i : sel ) q += mc::cat( " ", i ); return mc::cat( multi ? "MLBW" : "SLBW", " groups", q, " E=", e, ": got ", text( xs ), "expected ", text( want ) ); } );
  }
  int k = 0; bool order = true; for ( auto&& g : s.spinGroups() ) { order = order && k < (int) sel.size() && g.orbitalAngularMomentum() == resolvedGroups[ sel[ k ] ].channel.l && g.totalAngularMomentum() == resolvedGroups[ sel[ k ] ].channel.J; ++k; }
  x.check( order && k == (int) sel.size(), "spin-groups-kept", [&] { return mc::cat( k, " groups" ); } );
}
MC_BODY( "C22", "single-level-system" ) { resolvedSystemBody< rm::SingleLevelBreitWigner, false >( x ); }
MC_BODY( "C22", "multi-level-system" ) { resolvedSystemBody< rm::MultiLevelBreitWigner, true >( x ); }

// --- unresolved -----------------------------------------------------------------------------
// the average over the distributions themselves: E[ h( x ) ] for x chi squared with v degrees of freedom and mean 1, by substitution x = t^2 and the trapezium rule
static Fluctuation exactCase1( real wn, real wg, int v ) {
  Fluctuation r{ 0, 0, 0, 0 }; real h = 1.L / 256, norm = 0;
  for ( int i = 1; i < 12 * 256; ++i ) { real t = i * h, xx = t * t, p = std::pow( t, (real) v - 1 ) * std::exp( -0.5L * v * xx ) * h; norm += p; r.n += p * xx * xx / ( xx * wn + wg ); r.g += p * xx / ( xx * wn + wg ); }
  if ( v == 1 ) norm += h / 2;   // the integrand does not vanish at 0
  r.n /= norm; r.g /= norm; return r;
}
static const std::vector< double > fw = { 0., 1e-4, 0.02, 0.3, 5. };
MC_BODY( "C23", "fluctuation-integrals" ) {
  static const std::vector< double > nonzero = { 1e-6, 1e-3, 0.04, 2., 60. };
  double n = x.pick( nonzero ), g = x.pick( nonzero ); x.shard(); double f = x.pick( fw ), cx = x.pick( fw );
  int dn = x.choose( 5 ), df = x.choose( 5 ), dx = x.choose( 5 ), dg = x.choose( 2 ) ? 0 : x.choose( 5 );
  rl::unresolved::Widths w( width( n ), width( g ), width( f ), width( cx ) );
  rl::unresolved::Degrees d( dn, dg, df, dx );
  auto r = rl::unresolved::calculateFluctuationIntegrals( w, d ); x.op();
  auto what = [&] { return mc::cat( "widths ", n, " ", g, " ", f, " ", cx, " degrees ", dn, " ", dg, " ", df, " ", dx, ": ", r.elastic.value, " ", r.capture.value, " ", r.fission.value, " ", r.competition.value ); };
  if ( x.wantSample() ) x.sample( what() );
  if ( dn == 0 || ( f != 0 && df == 0 ) || ( cx != 0 && dx == 0 ) ) {   // not a distribution: the result only has to be a number
    x.check( std::isfinite( r.elastic.value ) && std::isfinite( r.capture.value ) && std::isfinite( r.fission.value ), "finite", what ); return;
  }
  auto e = fluctuation( n, g, f, cx, dn, df, dx );
  x.check( mc::close( r.elastic.value, (double) e.n, 1e-12 ) && mc::close( r.capture.value, (double) e.g, 1e-12 ) && mc::close( r.fission.value, (double) e.f, 1e-12 ), "quadrature",
    [&] { return what() + " expected " + mc::cat( (double) e.n, " ", (double) e.g, " ", (double) e.f ); } );
  if ( f == 0 && cx == 0 ) {
    auto t = exactCase1( n, g, dn );
    x.maximum( "quadrature against the distribution", std::fabs( r.capture.value / (double) t.g - 1 ) );
    x.check( mc::close( r.capture.value, (double) t.g, 0.03 ) && mc::close( r.elastic.value, (double) t.n, 0.03 ), "distribution", [&] { return what() + " exact average " + mc::cat( (double) t.n, " ", (double) t.g ); } );
  }
  // the sum rule: what goes in comes out (the average of the total is the elastic width, each integral weighted with its width)
  double total = n * r.elastic.value + g * r.capture.value + f * r.fission.value + cx * r.competition.value;
  x.check( mc::close( total, 1., 3e-3 ), "sum-rule", [&] { return what() + mc::cat( " sum rule ", total ); } );
}
static const std::vector< double > unresolvedEnergies = { 2e3, 2500., 3e3, 3e3 + 1e-9, 7.7e3, 1e4, 29999., 3e4 };
static void checkUnresolved( mc::Explorer& x, const UnresolvedModel& m, const std::vector< double >& energies, double scale = 1. ) {
  auto group = m.make(); x.op();
  for ( double at : energies ) {
    double e = at * scale;
    real factor; auto want = m.evaluate( e, factor );
    auto what = [&] { return mc::cat( m.text(), " E=", e ); };
    mc::note( what() );
    XS xs; group.evaluate( eV( e ), xs ); x.op();
    if ( x.wantSample() ) x.sample( what() + ": " + text( xs ) );
    x.check( sameXS( xs, want, 1e-9, (double)( 1e-11L * factor ) ), "cross-sections", [&] { return what() + ": got " + text( xs ) + "expected " + text( want ); } );
    auto p = group.resonanceTable()( eV( e ) ); auto r = m.at( e ); x.op();
    x.check( mc::close( p.levelSpacing().value, r.d, 1e-12 ) && mc::close( p.elastic().value, r.n, 1e-12 ) && mc::close( p.capture().value, r.g, 1e-12 ) && mc::close( p.fission().value, r.f, 1e-11, 1e-18 ) && mc::close( p.competition().value, r.x, 1e-11, 1e-18 ) && p.energy().value == e, "interpolation", what );
  }
  for ( double at : { 1e3, 1999.999999, 30000.0001, 1e6 } ) { double e = at * scale; bool threw = false; try { XS xs; group.evaluate( eV( e ), xs ); } catch ( ... ) { threw = true; } x.op(); x.check( threw, "outside-refused", [&] { return mc::cat( m.text(), " E=", e, " evaluated" ); } ); }
}
MC_BODY( "C23", "spin-group" ) {
  UnresolvedModel m; unsigned l = x.choose( 5 ); int pair = x.choose( 2 ); double scale = x.pick( std::vector< double >{ 1., 0.01, 100. } );
  m.channel = { pair ? rh103 : u238, l, pair ? (double) l : l + 0.5, 0.84, 0.84, 0.95 };
  m.dn = 1 + x.choose( 2 );
  x.shard();
  int fis = x.choose( 3 ), comp = x.choose( 3 ); m.df = fis ? 1 + x.choose( 4 ) : 0; m.dx = comp ? 1 + x.choose( 4 ) : 0;
  int n = 2 + x.choose( 3 ); static const std::vector< double > grids = { 2e3, 3e3, 1e4, 3e4 };
  for ( int i = 0; i < n; ++i ) {
    int q = i + ( i == n - 1 ? 4 - n : 0 );   // the last one is always 3e4
    m.resonances.push_back( { grids[ q ] * scale, 20. - i, 1e-4 * ( 1 + i ), 0.023 + 0.004 * i, fis == 0 ? 0. : fis == 1 ? 0.01 * ( i + 1 ) : ( i ? 0.02 : 0. ), comp == 0 ? 0. : comp == 1 ? 0.03 : ( i ? 0.002 * i : 0. ) } );
  }
  checkUnresolved( x, m, unresolvedEnergies, scale );
}
// up to 40 energies in the table, evaluated at every one and in between
MC_BODY( "C23", "many-energies" ) {
  UnresolvedModel m; unsigned l = x.choose( 3 ); m.channel = { u238, l, l + 0.5, 0.84, 0.84, 0.95 }; m.dn = 1; m.df = 2; m.dx = 1;
  int n = 2 + x.choose( x.thorough ? 159 : 79 ); x.shard(); int spread = x.choose( 3 ); std::vector< double > at;
  for ( int i = 0; i < n; ++i ) {
    double u = double( i ) / ( n - 1 ), e = i == 0 ? 2e3 : i == n - 1 ? 3e4 : spread == 0 ? 2e3 + 2.8e4 * u : spread == 1 ? 2e3 * std::pow( 15., u ) : 3e4 - 2.8e4 * ( 1 - u ) * ( 1 - u );
    m.resonances.push_back( { e, 20. - 3. * u, 1e-4 * ( 1 + 0.3 * ( i % 4 ) ), 0.023 + 0.001 * ( i % 3 ), 0.01 * ( 1 + i % 5 ), 0.001 * ( 1 + i % 2 ) } );
    if ( i ) for ( double w : { 0.1, 0.5, 0.93 } ) at.push_back( m.resonances[ i - 1 ].e * ( 1 - w ) + e * w );
    at.push_back( e );
  }
  checkUnresolved( x, m, at );
}
static const std::vector< UnresolvedModel > unresolvedGroups = {
  { { u238, 0, 0.5, 0.84, 0.84, 0.95 }, 1, 0, 0, { { 2e3, 20., 1e-4, 0.023, 0., 0. }, { 3e4, 19., 1.1e-4, 0.024, 0., 0. } } },
  { { u238, 1, 0.5, 0.84, 0.84, 0.95 }, 1, 2, 0, { { 2e3, 21., 2e-4, 0.023, 0.01, 0. }, { 1e4, 20., 2e-4, 0.023, 0.02, 0. }, { 3e4, 19., 1.1e-4, 0.024, 0.01, 0. } } },
  { { u238, 1, 1.5, 0.84, 0.84, 0.95 }, 2, 0, 1, { { 2e3, 11., 3e-4, 0.023, 0., 0.1 }, { 3e4, 10., 3.1e-4, 0.024, 0., 0.1 } } },
  { { u238, 2, 1.5, 0.84, 0.84, 0.95 }, 2, 3, 4, { { 2e3, 11., 1e-4, 0.023, 0.1, 0.1 }, { 1.1e4, 11., 1e-4, 0.023, 0.1, 0.1 }, { 3e4, 10., 1e-4, 0.024, 0.1, 0.2 } } } };
static rl::unresolved::CompoundSystem unresolvedSystem( const std::vector< int >& sel ) { std::vector< rl::unresolved::SpinGroup > v; for ( int i : sel ) v.push_back( unresolvedGroups[ i ].make() ); return rl::unresolved::CompoundSystem( std::move( v ) ); }
MC_BODY( "C23", "system" ) {
  auto sel = selection( x, unresolvedGroups.size(), 4 );
  x.shard();
  int start = x.choose( 2 );
  auto s = unresolvedSystem( sel ); x.op();
  unsigned lmax = 0; for ( int i : sel ) lmax = std::max( lmax, unresolvedGroups[ i ].channel.l );
  for ( double e : unresolvedEnergies ) {
    XS xs; std::map< std::string, real > want; real abs = 0;
    if ( start ) { xs[ rm::ReactionID( captureSymbol( u238 ) ) ] = 3. * njoy::dimwits::barn; want[ captureSymbol( u238 ) ] = 3; xs[ rm::ReactionID( elasticSymbol( u238 ) ) ] = 1. * njoy::dimwits::barn; want[ elasticSymbol( u238 ) ] = 1; }
    for ( int i : sel ) { real f; for ( auto& p : unresolvedGroups[ i ].evaluate( e, f ) ) want[ p.first ] += p.second; abs += 1e-11L * f; }
    real pot = potential( unresolvedGroups[ sel[ 0 ] ].channel, lmax, e ); want[ elasticSymbol( u238 ) ] += pot;
    s.evaluate( eV( e ), xs ); x.op();
    x.check( sameXS( xs, want, 1e-9, (double)( abs + 1e-12L * pot ) ), "sum-of-groups-and-potential", [&] { std::string q; for ( int i : sel ) q += mc::cat( " ", i ); return mc::cat( "groups", q, " E=", e, ": got ", text( xs ), "expected ", text( want ) ); } );
    for ( auto& p : xs ) x.check( p.second.value > 0, "positive", [&] { return mc::cat( "E=", e, ": ", text( xs ) ); } );
  }
}

// systems of many groups: every J of every l up to 4 of a target of spin 3
static const PairModel spinful{ 1.008664, 236.0058, 0, 0, 0.5, 3., "n", "U238", "" };
static std::vector< LegacyChannel > manyLegacy( int n, int order ) {
  std::vector< LegacyChannel > v; for ( unsigned l = 0; l < 5; ++l ) for ( double J = std::max( 0.5, 2.5 - l ); J <= l + 3.5; J += 1. ) if ( (int) v.size() < n ) v.push_back( { spinful, l, J, 0.84, 0.84, 0.95 } );
  if ( order == 1 ) std::reverse( v.begin(), v.end() ); if ( order == 2 ) std::rotate( v.begin(), v.begin() + v.size() / 2, v.end() ); return v;
}
template < typename Formalism, bool multi > static void manyResolved( mc::Explorer& x ) {
  int n = 1 + x.choose( 27 ), order = x.choose( 3 ); x.shard(); std::vector< ResolvedModel > ms; std::vector< rl::resolved::SpinGroup< Formalism > > v; int k = 0; unsigned lmax = 0;
  for ( auto& ch : manyLegacy( n, order ) ) { ResolvedModel m{ ch, 0., {} }; for ( int r = 0; r < k % 4; ++r ) m.resonances.push_back( { 6.67 + 3.3 * r + 1.7 * k, 1e-3 * std::pow( 1e-2, ch.l ) * ( 1 + r ), 0.02 + 0.001 * k, k % 3 == 1 ? 0.01 : 0., 0. } ); ++k; ms.push_back( m ); v.push_back( m.template make< rl::resolved::SpinGroup< Formalism > >() ); lmax = std::max( lmax, ch.l ); }
  rl::resolved::CompoundSystem< Formalism > s( std::move( v ) ); x.op();
  std::set< double > grid; for ( auto& m : ms ) for ( auto e : m.template make< rl::resolved::SpinGroup< Formalism > >().grid() ) grid.insert( e.value );
  auto got = s.grid(); x.op(); bool same = got.size() == grid.size(); std::size_t i = 0; for ( double e : grid ) { same = same && i < got.size() && got[ i ].value == e; ++i; } x.check( same, "grid", [&] { return mc::cat( n, " groups, order ", order, ": grid" ); } );
  for ( double e : { 1e-3, 6.68, 20., 41., 3e3 } ) {
    XS xs; s.evaluate( eV( e ), xs ); x.op(); std::map< std::string, real > want; real abs = 0;
    for ( auto& m : ms ) { real f, sc, rel; for ( auto& p : m.evaluate( e, multi, f, sc, rel ) ) want[ p.first ] += p.second; abs += f * ( rel * sc + 1e-17L ); }
    real pot = potential( ms[ 0 ].channel, lmax, e ); want[ elasticSymbol( spinful ) ] += pot; abs += 1e-12L * pot;
    x.check( sameXS( xs, want, 1e-9, (double) abs ), "sum-of-groups-and-potential", [&] { return mc::cat( n, " groups, order ", order, " E=", e, ": got ", text( xs ), "expected ", text( want ) ); } );
  }
}
MC_BODY( "C22", "many-groups-single-level" ) { manyResolved< rm::SingleLevelBreitWigner, false >( x ); }
MC_BODY( "C22", "many-groups-multi-level" ) { manyResolved< rm::MultiLevelBreitWigner, true >( x ); }
static void gridChecks( mc::Explorer& x, rl::unresolved::CompoundSystem& s, const std::set< double >& nodes, const std::string& t );
static void manyUnresolved( mc::Explorer& x, bool gridOnly ) {
  int n = 1 + x.choose( 27 ), order = x.choose( 3 ), own = x.choose( 3 ); x.shard(); std::vector< UnresolvedModel > ms; std::vector< rl::unresolved::SpinGroup > v; int k = 0; unsigned lmax = 0; std::set< double > nodes;
  for ( auto& ch : manyLegacy( n, order ) ) {
    UnresolvedModel m{ ch, 1 + k % 4, k % 3, k % 5 == 2 ? 2 : 0, {} }; std::vector< double > es = { 2e3, 3e4 }; if ( own ) es.insert( es.begin() + 1, own == 1 ? 5e3 + 311. * k : k % 2 ? 2e4 : 2.1e3 );
    for ( double e : es ) { m.resonances.push_back( { e, 20. - 0.1 * k, 1e-4 * ( 1 + k % 3 ), 0.02 + 0.001 * k, k % 3 ? 0.01 : 0., k % 5 == 2 ? 0.02 : 0. } ); nodes.insert( e ); }
    ++k; ms.push_back( m ); v.push_back( m.make() ); lmax = std::max( lmax, ch.l );
  }
  rl::unresolved::CompoundSystem s( std::move( v ) ); x.op();
  if ( gridOnly ) { gridChecks( x, s, nodes, mc::cat( n, " groups, order ", order, ", energies ", own ) ); return; }
  for ( double e : { 2e3, 2.5e3, 1.3e4, 3e4 } ) {
    XS xs; s.evaluate( eV( e ), xs ); x.op(); std::map< std::string, real > want; real abs = 0;
    for ( auto& m : ms ) { real f; for ( auto& p : m.evaluate( e, f ) ) want[ p.first ] += p.second; abs += 1e-11L * f; }
    real pot = potential( ms[ 0 ].channel, lmax, e ); want[ elasticSymbol( spinful ) ] += pot; abs += 1e-12L * pot;
    x.check( sameXS( xs, want, 1e-9, (double) abs ), "sum-of-groups-and-potential", [&] { return mc::cat( n, " groups, order ", order, " E=", e, ": got ", text( xs ), "expected ", text( want ) ); } );
  }
}
MC_BODY( "C23", "many-groups" ) { manyUnresolved( x, false ); }
MC_BODY( "C24", "many-groups" ) { manyUnresolved( x, true ); }
MC_BODY( "C20", "many-legacy-groups" ) {   // one l and J twice in a large system
  int kind = x.choose( 3 ), n = 5 + x.choose( 23 ); x.shard(); int a = x.choose( n ), b = x.choose( n ); auto chs = manyLegacy( n, a % 3 ); bool ok = a == b, threw = false; chs[ a ] = chs[ b ];
  try {
    if ( kind == 2 ) { std::vector< rl::unresolved::SpinGroup > v; for ( auto& ch : chs ) { auto m = unresolvedGroups[ 0 ]; m.channel = ch; v.push_back( m.make() ); } rl::unresolved::CompoundSystem s( std::move( v ) ); }
    else if ( kind == 1 ) { std::vector< MLBW > v; for ( auto& ch : chs ) { auto m = resolvedGroups[ 0 ]; m.channel = ch; v.push_back( m.make< MLBW >() ); } rl::resolved::CompoundSystem< rm::MultiLevelBreitWigner > s( std::move( v ) ); }
    else { std::vector< SLBW > v; for ( auto& ch : chs ) { auto m = resolvedGroups[ 0 ]; m.channel = ch; v.push_back( m.make< SLBW >() ); } rl::resolved::CompoundSystem< rm::SingleLevelBreitWigner > s( std::move( v ) ); }
  } catch ( ... ) { threw = true; }
  x.op(); x.check( threw == !ok, ok ? "valid-accepted" : "invalid-refused", [&] { return mc::cat( "legacy system ", kind, " of ", n, " groups, ", a, " as ", b, threw ? ": refused" : ": accepted" ); } );
}

// --- C24: the unresolved grid ---------------------------------------------------------------
static void gridChecks( mc::Explorer& x, rl::unresolved::CompoundSystem& s, const std::set< double >& nodes, const std::string& t ) {
  mc::note( t );
  auto grid = s.grid(); x.op();
  std::vector< double > g; for ( auto& v : grid ) g.push_back( v.value );
  auto what = [&] { std::string q = t + ": grid"; for ( double v : g ) q += " " + mc::num( v ); return q; };
  if ( x.wantSample() ) x.sample( what() );
  for ( double v : nodes ) x.check( std::find( g.begin(), g.end(), v ) != g.end(), "tabulated-energies", what );
  x.check( !g.empty() && g.front() == *nodes.begin() && g.back() == *nodes.rbegin(), "range", what );
  static const std::vector< double > scheme = { 1.0, 1.25, 1.5, 1.7, 2.0, 2.5, 3.0, 3.5, 4.0, 5.0, 6.0, 7.2, 8.5 };
  for ( std::size_t i = 1; i < g.size(); ++i ) {
    x.check( g[ i - 1 ] < g[ i ], "increasing", what );
    if ( g[ i - 1 ] > 0 ) x.check( g[ i ] <= 1.25 * g[ i - 1 ] * ( 1 + 1e-12 ), "dense", what );
    if ( !nodes.count( g[ i ] ) ) {
      bool known = false; for ( double p : scheme ) { double d = std::pow( 10., std::floor( std::log10( g[ i ] ) + 1e-9 ) ); known = known || mc::close( g[ i ], p * d, 1e-12 ); }
      x.check( known, "scheme", what );
      // nothing is added where the table is dense enough
      auto up = nodes.upper_bound( g[ i ] ); if ( up != nodes.end() && up != nodes.begin() ) { double hi = *up, lo = *std::prev( up ); x.check( lo <= 0 || hi > 1.25 * lo * ( 1 - 1e-12 ), "no-needless-points", what ); }
    }
  }
}
static rl::unresolved::CompoundSystem gridSystem( const std::vector< std::vector< double > >& tables ) {
  std::vector< rl::unresolved::SpinGroup > v; unsigned l = 0;
  for ( auto& t : tables ) { UnresolvedModel m{ { u238, l, l + 0.5, 0.84, 0.84, 0.95 }, 1, 0, 0, {} }; ++l; for ( double e : t ) m.resonances.push_back( { e, 20., 1e-4, 0.02, 0., 0. } ); v.push_back( m.make() ); }
  return rl::unresolved::CompoundSystem( std::move( v ) );
}
MC_BODY( "C24", "one-group" ) {   // every increasing list of up to four energies out of these
  static const std::vector< double > es = [] { std::vector< double > v = { 0.7, 1., 12.4, 12.5, 15.01, 99.99, 100., 125., 126., 400., 500., 849., 850., 851., 999., 1e3, 1250., 1251., 2e3, 2.3e3, 2500., 4e3, 5e3, 8.5e3, 9e3, 9.99e3, 1e4, 1.05e4, 1.25e4, 2e4, 1e5, 149000.3, 1e6 }; std::sort( v.begin(), v.end() ); return v; }();
  int n = 2 + x.choose( x.thorough ? 4 : 3 ), last = -1; std::vector< double > t;
  for ( int i = 0; i < n; ++i ) { int left = (int) es.size() - last - 1 - ( n - 1 - i ); int k = last + 1 + x.choose( left ); t.push_back( es[ k ] ); last = k; if ( i == 1 ) x.shard(); }
  std::set< double > nodes( t.begin(), t.end() ); auto s = gridSystem( { t } );
  std::string q = "energies"; for ( double v : t ) q += " " + mc::num( v );
  gridChecks( x, s, nodes, q );
}
MC_BODY( "C24", "pairs" ) {   // two energies over many decades: every pair of lattice points
  int N = x.thorough ? 400 : 120; int a = x.choose( N ); x.shard(); int b = a + 1 + x.choose( N - a - 1 > 0 ? N - a - 1 : 0 );
  double ea = std::pow( 10., -3. + 11. * a / N ), eb = std::pow( 10., -3. + 11. * b / N ); if ( eb <= ea ) throw mc::Prune();
  auto s = gridSystem( { { ea, eb } } ); gridChecks( x, s, { ea, eb }, mc::cat( "energies ", ea, " ", eb ) );
}
MC_BODY( "C24", "scheme-points" ) {   // tables that start and end on points of the scheme, in every decade, and their neighbours
  static const std::vector< double > scheme = { 1.0, 1.25, 1.5, 1.7, 2.0, 2.5, 3.0, 3.5, 4.0, 5.0, 6.0, 7.2, 8.5, 10. };
  int d = x.choose( 19 ) - 9; int i = x.choose( 14 ); x.shard(); int j = x.choose( 14 ), up = x.choose( 3 ), na = x.choose( 3 ) - 1, nb = x.choose( 3 ) - 1;
  auto value = [&]( int i, int d, int n ) { double v = std::strtod( mc::cat( scheme[ i ], "e", d ).c_str(), nullptr ); return n == 0 ? v : std::nextafter( v, n > 0 ? 1e300 : 0. ); };
  double a = value( i, d, na ), b = value( j, d + up, nb ); if ( !( b > a ) ) throw mc::Prune();
  auto s = gridSystem( { { a, b } } ); gridChecks( x, s, { a, b }, mc::cat( "energies ", a, " ", b ) );
}
MC_BODY( "C24", "several-groups" ) {   // groups need not share their energies
  static const std::vector< std::vector< double > > ts = { { 2e3, 3e4 }, { 2e3, 2.1e3, 5e3, 3e4 }, { 1.5e3, 4e4 }, { 2e3, 9e3, 1e4, 3e4 }, { 10., 11., 12., 13. }, { 1e3, 1e6 } };
  int n = 1 + x.choose( 4 ); std::vector< std::vector< double > > t; std::set< double > nodes; std::string q = "tables";
  for ( int i = 0; i < n; ++i ) { int k = x.choose( ts.size() ); t.push_back( ts[ k ] ); nodes.insert( ts[ k ].begin(), ts[ k ].end() ); q += mc::cat( " ", k ); if ( i == 0 ) x.shard(); }
  auto s = gridSystem( t ); gridChecks( x, s, nodes, q );
}
MC_BODY( "C24", "close-energies" ) {   // energies that differ in the last digits only are different
  static const std::vector< double > es = { 2000., std::nextafter( 2000., 3000. ), 2000. * ( 1 + 1e-12 ), 2000. * ( 1 + 1e-7 ), 2000.01, 2500., std::nextafter( 2500., 3000. ), 2500. * ( 1 + 1e-9 ), 9000. };
  int mask = x.choose( 512 ); x.shard(); int second = x.choose( 512 );
  std::vector< double > a, b; for ( int i = 0; i < 9; ++i ) { if ( mask & ( 1 << i ) ) a.push_back( es[ i ] ); if ( second & ( 1 << i ) ) b.push_back( es[ i ] ); }
  if ( a.size() < 2 || b.size() == 1 || ( !x.thorough && b.size() > 3 ) ) throw mc::Prune();
  std::set< double > nodes( a.begin(), a.end() ); nodes.insert( b.begin(), b.end() );
  std::vector< std::vector< double > > t = { a }; if ( !b.empty() ) t.push_back( b );
  auto s = gridSystem( t ); std::string q = "tables"; for ( double v : a ) q += " " + mc::num( v ); q += " and"; for ( double v : b ) q += " " + mc::num( v );
  gridChecks( x, s, nodes, q );
}
MC_BODY( "C24", "from-zero" ) {   // a table that starts at 0 or below
  static const std::vector< double > es = { -5., 0., 1e-9, 2., 3e3 };
  int a = x.choose( es.size() ); x.shard(); int b = x.choose( es.size() ), cc = x.choose( es.size() ); if ( !( a < b && b < cc ) ) throw mc::Prune();
  std::vector< double > t = { es[ a ], es[ b ], es[ cc ] }; auto s = gridSystem( { t } ); mc::note( mc::cat( "energies ", es[ a ], " ", es[ b ], " ", es[ cc ] ) );
  auto g = s.grid(); x.op();
  bool inc = true, all = true; for ( std::size_t i = 1; i < g.size(); ++i ) inc = inc && g[ i - 1 ] < g[ i ];
  for ( double v : t ) { bool f = false; for ( auto& q : g ) f = f || q.value == v; all = all && f; }
  x.check( inc && all, "from-zero", [&] { return mc::cat( "energies ", es[ a ], " ", es[ b ], " ", es[ cc ], " grid of ", g.size() ); } );
}

// --- C15: histories -----------------------------------------------------------------------
static bool sameBits( const XS& a, const XS& b ) {
  if ( a.size() != b.size() ) return false;
  auto j = b.begin(); for ( auto i = a.begin(); i != a.end(); ++i, ++j ) if ( !( i->first == j->first ) || !sameBits( i->second.value, j->second.value ) ) return false;
  return true;
}
// fresh( i ): a new object with data set i; the answers of new objects are kept from the first time they were asked for,
// so that they do not follow what happens to be left over from the object under study
using Answers = std::map< std::pair< int, double >, XS >;
template < typename Fresh, typename Grid > static void history( mc::Explorer& x, Answers& answers, const std::vector< double >& energies, Fresh fresh, int mine, int others, Grid grid, int depth ) {
  auto s = fresh( mine ), other = fresh( others ); using System = decltype( s ); std::string hist; const int E = energies.size();
  for ( int step = 0; step < depth; ++step ) {
    int op = x.choose( 2 * E + 5 );
    if ( step == 0 ) x.shard();
    auto same = [&]( System& o, int data, double e ) {
      XS got; o.evaluate( eV( e ), got ); x.op();
      auto it = answers.find( { data, e } );
      if ( it == answers.end() ) { System decoy = fresh( data + 1 ), f = fresh( data ); XS ignored, want; decoy.evaluate( eV( e ), ignored ); f.evaluate( eV( e ), want ); it = answers.emplace( std::make_pair( data, e ), want ).first; }
      x.check( sameBits( got, it->second ), "same-as-fresh", [&] { return mc::cat( hist, ": ", text( got ), "fresh object: ", text( it->second ) ); } );
    };
    if ( op < E ) { hist += mc::cat( " evaluate(", energies[ op ], ")" ); same( s, mine, energies[ op ] ); }
    else if ( op < 2 * E ) { hist += mc::cat( " other.evaluate(", energies[ op - E ], ")" ); same( other, others, energies[ op - E ] ); }
    else if ( op == 2 * E ) { hist += " grid()"; System f = fresh( mine ); x.op(); x.check( grid( s ) == grid( f ), "same-as-fresh", [&] { return hist + ": grid differs from that of a fresh object"; } ); }
    else if ( op == 2 * E + 1 ) { hist += " copy"; System copy( s ); XS ignored; s.evaluate( eV( energies[ 0 ] ), ignored ); x.op(); s = copy; }
    else if ( op == 2 * E + 2 ) { hist += " move"; System m( std::move( s ) ); x.op(); s = std::move( m ); }
    else if ( op == 2 * E + 3 ) { hist += " assign-from-other"; System keep( s ); s = other; x.op(); same( s, others, energies[ 1 ] ); s = keep; }
    else { hist += " refused-or-extreme"; try { XS ignored; s.evaluate( eV( 1e9 ), ignored ); } catch ( ... ) {} x.op(); }
  }
}
static const std::vector< double > someResolved = { 1e-5, 6.67, 20.87, 4.6e4 }, someUnresolved = { 2e3, 2.5e3, 1e4, 3e4 };
static ResolvedModel resolvedVariant( int i ) { auto m = resolvedGroups[ i % 3 ]; if ( i >= 3 ) for ( auto& r : m.resonances ) { r.e *= 1.01; r.n *= 1.3; r.g *= 0.7; } return m; }
static UnresolvedModel unresolvedVariant( int i ) { auto m = unresolvedGroups[ 1 + i % 3 ]; if ( i >= 3 ) for ( auto& r : m.resonances ) { r.d *= 1.1; r.n *= 1.3; r.g *= 0.7; } return m; }
MC_BODY( "C15", "legacy-groups" ) {
  static Answers answers[ 3 ];
  int k = x.choose( 3 ), depth = x.thorough ? 4 : 3; auto g = []( auto& s ) { return s.grid(); }; auto none = []( auto& s ) { return s.resonanceTable().numberResonances(); };
  int i = x.choose( 3 );
  if ( k == 0 ) history( x, answers[ 0 ], someResolved, [&]( int v ) { return resolvedVariant( v % 6 ).make< SLBW >(); }, i, i + 3, g, depth );
  else if ( k == 1 ) history( x, answers[ 1 ], someResolved, [&]( int v ) { return resolvedVariant( v % 6 ).make< MLBW >(); }, i, i + 3, g, depth );
  else history( x, answers[ 2 ], someUnresolved, [&]( int v ) { return unresolvedVariant( v % 6 ).make(); }, i, i + 3, none, depth );
}
MC_BODY( "C15", "legacy-systems" ) {
  static Answers answers[ 3 ];
  int k = x.choose( 3 ), depth = x.thorough ? 4 : 3; auto g = []( auto& s ) { return s.grid(); };
  if ( k == 0 ) history( x, answers[ 0 ], someResolved, [&]( int v ) { return resolvedSystem< rm::SingleLevelBreitWigner >( v == 1 ? std::vector< int >{ 2, 0, 4 } : std::vector< int >{ 0, 1, 2 } ); }, 0, 1, g, depth );
  else if ( k == 1 ) history( x, answers[ 1 ], someResolved, [&]( int v ) { return resolvedSystem< rm::MultiLevelBreitWigner >( v == 1 ? std::vector< int >{ 0, 1, 2 } : std::vector< int >{ 2, 0, 4 } ); }, 0, 1, g, depth );
  else history( x, answers[ 2 ], someUnresolved, [&]( int v ) { return unresolvedSystem( v == 1 ? std::vector< int >{ 3, 2, 0 } : std::vector< int >{ 1, 0, 2 } ); }, 0, 1, g, depth );
}
// --- C16: sequences of evaluations into one map ----------------------------------------------
MC_BODY( "C16", "legacy-groups" ) {
  int n = x.choose( 5 ), start = x.choose( 2 ); bool multi = x.choose( 2 );
  x.shard();
  XS xs; std::map< std::string, real > want, other; real abs = 0;   // other: with the competitive width as ENDF has it, see C22
  if ( start ) for ( auto& id : { elasticSymbol( u238 ), captureSymbol( u238 ), fissionSymbol( u238 ), std::string( "n,U238->2n,U237" ) } ) { xs[ rm::ReactionID( id ) ] = 2. * njoy::dimwits::barn; want[ id ] = other[ id ] = 2; }
  std::string hist; double e = x.choose( 2 ) ? 6.7 : 2.5e3;
  for ( int i = 0; i < n; ++i ) {
    int k = x.choose( 7 ); hist += mc::cat( " ", k ); real f, sc, rel; std::map< std::string, real > r, o; endfQ = false;
    if ( k < 3 || e < 2e3 ) { auto& m = resolvedGroups[ k % 3 ]; if ( multi ) { auto g = m.make< MLBW >(); g.evaluate( eV( e ), xs ); } else { auto g = m.make< SLBW >(); g.evaluate( eV( e ), xs ); } endfQ = true; o = m.evaluate( e, multi, f, sc, rel ); endfQ = false; r = m.evaluate( e, multi, f, sc, rel ); abs += f * ( rel * sc + 1e-17L ); }
    else { auto g = unresolvedGroups[ k - 3 ].make(); g.evaluate( eV( e ), xs ); o = r = unresolvedGroups[ k - 3 ].evaluate( e, f ); abs += 1e-11L * f; }
    x.op(); for ( auto& p : r ) want[ p.first ] += p.second; for ( auto& p : o ) other[ p.first ] += p.second;
  }
  x.check( sameXS( xs, want, 1e-9, (double) abs + 1e-14 ) || sameXS( xs, other, 1e-9, (double) abs + 1e-14 ), "accumulate", [&] { return mc::cat( "start ", start, " groups", hist, " E=", e, ": got ", text( xs ), "expected ", text( want ) ); } );
}
// --- C20: what the constructors accept --------------------------------------------------------
MC_BODY( "C20", "legacy-systems" ) {
  static const std::vector< std::pair< unsigned, double > > lj = { { 0, 0.5 }, { 1, 0.5 }, { 1, 1.5 }, { 2, 1.5 }, { 2, 2.5 } };
  int kind = x.choose( 3 ), n = x.choose( x.thorough ? 7 : 6 ); std::vector< int > sel; for ( int i = 0; i < n; ++i ) sel.push_back( x.choose( lj.size() ) );
  x.shard();
  std::set< int > distinct( sel.begin(), sel.end() ); bool ok = n > 0 && (int) distinct.size() == n, threw = false;
  try {
    if ( kind == 2 ) { std::vector< rl::unresolved::SpinGroup > v; for ( int i : sel ) { auto m = unresolvedGroups[ 0 ]; m.channel.l = lj[ i ].first; m.channel.J = lj[ i ].second; v.push_back( m.make() ); } rl::unresolved::CompoundSystem s( std::move( v ) ); }
    else if ( kind == 1 ) { std::vector< MLBW > v; for ( int i : sel ) { auto m = resolvedGroups[ 0 ]; m.channel.l = lj[ i ].first; m.channel.J = lj[ i ].second; v.push_back( m.make< MLBW >() ); } rl::resolved::CompoundSystem< rm::MultiLevelBreitWigner > s( std::move( v ) ); }
    else { std::vector< SLBW > v; for ( int i : sel ) { auto m = resolvedGroups[ 0 ]; m.channel.l = lj[ i ].first; m.channel.J = lj[ i ].second; v.push_back( m.make< SLBW >() ); } rl::resolved::CompoundSystem< rm::SingleLevelBreitWigner > s( std::move( v ) ); }
  } catch ( ... ) { threw = true; }
  x.op();
  x.check( threw == !ok, ok ? "valid-accepted" : "invalid-refused", [&] { std::string s = mc::cat( "legacy system ", kind, " with groups" ); for ( int i : sel ) s += mc::cat( " l=", lj[ i ].first, ",J=", lj[ i ].second ); return s + ( threw ? ": refused" : ": accepted" ); } );
}
MC_BODY( "C20", "unresolved-table" ) {
  int n = x.choose( 5 ); x.shard(); unsigned a = x.choose( 8 ), b = x.choose( 8 ), f = x.choose( 8 ), cx = x.choose( 8 );
  bool ok = n >= 2 && a <= 4 && b <= 4 && f <= 4 && cx <= 4, threw = false;
  try { std::vector< rl::unresolved::Resonance > v; for ( int i = 0; i < n; ++i ) v.emplace_back( eV( 1e3 + i ), eV( 2. ), rootEV( 1. ), width( 1. ), width( 0. ), width( 0. ) ); rl::unresolved::ResonanceTable t( std::move( v ), rl::unresolved::Degrees( a, b, f, cx ) );
    auto& d = t.degreesOfFreedom(); x.check( d.elastic == a && d.capture == b && d.fission == f && d.competition == cx && (int) t.numberResonances() == n, "stored", [&] { return mc::cat( "degrees ", a, b, f, cx ); } ); } catch ( ... ) { threw = true; }
  x.op();
  x.check( threw == !ok, ok ? "valid-accepted" : "invalid-refused", [&] { return mc::cat( n, " resonances, degrees ", a, " ", b, " ", f, " ", cx, threw ? ": refused" : ": accepted" ); } );
}
// --- C21: resolved grids -----------------------------------------------------------------------
template < typename Group > static void resolvedGrid( mc::Explorer& x ) {
  static const std::vector< double > es = { -50., 0., 1e-3, 20., 4e3, 7e4 };
  int n = x.choose( 4 ); ResolvedModel m = resolvedGroups[ 0 ]; m.channel.l = x.choose( 2 ); m.channel.J = m.channel.l + 0.5; m.resonances.clear();
  for ( int i = 0; i < n; ++i ) { double e = es[ x.choose( es.size() ) ]; int w = x.choose( 4 ); m.resonances.push_back( { e, w == 3 ? 0. : 0.01 + 0.02 * w, w == 3 ? 0. : 0.02, w == 1 ? 0.5 : 0., w == 2 ? 0.3 : 0. } ); }
  x.shard();
  if ( m.channel.l ) for ( auto& r : m.resonances ) if ( r.e == 0. ) throw mc::Prune();   // the penetrability vanishes
  auto g = m.make< Group >(); auto got = g.grid(); x.op(); std::vector< double > want;
  for ( auto& r : m.resonances ) if ( r.e > 0 ) { double t = r.n + r.g + r.f + r.x; want.push_back( r.e - t / 2 ); want.push_back( r.e ); want.push_back( r.e + t / 2 ); }
  auto what = [&] { std::string s = m.text() + ": grid"; for ( auto& v : got ) s += " " + mc::num( v.value ); return s; };
  for ( std::size_t i = 1; i < got.size(); ++i ) x.check( got[ i - 1 ].value < got[ i ].value, "increasing", what );
  for ( auto v : want ) { bool found = false; for ( auto& q : got ) found = found || mc::close( q.value, v, 1e-12, 1e-15 ); x.check( found, "complete", what ); }
  for ( auto& q : got ) { bool found = false; for ( auto v : want ) found = found || mc::close( q.value, v, 1e-12, 1e-15 ); x.check( found, "nothing-else", what ); }
  x.check( want.empty() == got.empty(), "complete", what );
}
MC_BODY( "C21", "legacy-group" ) { if ( x.choose( 2 ) ) resolvedGrid< MLBW >( x ); else resolvedGrid< SLBW >( x ); }
MC_BODY( "C21", "legacy-system" ) {
  auto sel = selection( x, resolvedGroups.size(), 4 );
  x.shard();
  auto s = resolvedSystem< rm::MultiLevelBreitWigner >( sel ); auto got = s.grid(); x.op();
  std::set< double > want; for ( int i : sel ) for ( auto v : resolvedGroups[ i ].make< MLBW >().grid() ) want.insert( v.value );
  bool ok = got.size() == want.size(); std::size_t i = 0; for ( double v : want ) { ok = ok && i < got.size() && sameBits( got[ i ].value, v ); ++i; }
  x.check( ok, "union-of-groups", [&] { return mc::cat( "grid of the system has ", got.size(), " points, the union of its groups ", want.size() ); } );
}
int main( int argc, char** argv ) { return mc::mainLoop( argc, argv ); }
