// C28, C29: the Breit-Wigner and Reich-Moore classes outside the rmatrix namespace, against models built from the same resonance range
#include "rmlegacy.hpp"
#include "rmradius.hpp"
namespace bw = njoy::resonanceReconstruction::breitWigner;
namespace rmo = njoy::resonanceReconstruction::reichMoore;
namespace endf151 = njoy::ENDFtk::section;
struct Result { double elastic, capture, fission; };
struct Wanted { real elastic = 0, capture = 0, fission = 0, elasticAbs = 0, captureAbs = 0, fissionAbs = 0, rel = 1e-10L; };
static const double mn = 1.008664;
static std::string text( const Result& r ) { return mc::cat( "elastic ", r.elastic, " capture ", r.capture, " fission ", r.fission ); }

// the options for the radii
struct RadiusOption { int nro, naps; };
static const std::vector< RadiusOption > radiusOptions = { { 0, 0 }, { 0, 1 }, { 1, 0 }, { 1, 1 }, { 1, 2 } };
static const RadiusTable radiusTable{ { 1e-6, 10., 1e3, 2e7 }, { 0.8, 0.95, 0.9, 1.1 } };
static endf::ResonanceRange range( int lrf, const RadiusOption& o ) {
  endf::ResonanceRange r; r.el = 1e-5; r.eh = 2e7; r.lru = 1; r.lrf = lrf; r.naps = o.naps;
  if ( o.nro ) r.radius_ = endf::ScatteringRadius( { (long) radiusTable.x.size() }, { 2 }, std::vector< double >( radiusTable.x ), std::vector< double >( radiusTable.y ) );
  return r;
}
static double computed( double awri ) { return 0.123 * std::pow( 1.00866491582 * awri, 1. / 3. ) + 0.08; }
static real perRootEV( double awri ) { return rr::neutronWaveNumber( awri )( eV( 1. ) ).value; }

// every energy twice, in both orders: an evaluation leaves no trace
static const int singleLevel = 1, multiLevel = 2, reichMoore = 3;
struct Evaluate {
  const std::vector< double >& energies; std::vector< Result >& out; bool& same;
  template < typename T > int operator()( T&& type ) const {
    for ( double e : energies ) { auto v = type( eV( e ) ); out.push_back( { v.elastic.value, v.capture.value, v.fission.value } ); }
    for ( std::size_t i = energies.size(); i-- > 0; ) { auto v = type( eV( energies[ i ] ) ); same = same && sameBits( v.elastic.value, out[ i ].elastic ) && sameBits( v.capture.value, out[ i ].capture ) && sameBits( v.fission.value, out[ i ].fission ); }
    return 7;
  }
};
static int apply( int lrf, const endf::ResonanceRange& r, const Evaluate& f ) {
  switch ( lrf ) { case singleLevel: return bw::singleLevel::Apply{}( r, f ); case multiLevel: return bw::multiLevel::Apply{}( r, f ); default: return rmo::Apply{}( r, f ); }
}
static bool close( double got, real want, real rel, real abs ) { return !std::isnan( got ) && mc::close( got, (double) want, (double) rel, (double) abs ); }
template < typename Model > static void compare( mc::Explorer& x, int lrf, const endf::ResonanceRange& r, const std::vector< double >& energies, Model model, const std::string& t ) {
  mc::note( t ); std::vector< Result > got; bool same = true; int answer = 0;
  try { answer = apply( lrf, r, Evaluate{ energies, got, same } ); } catch ( std::exception& e ) { x.fail( "accepted", t + ": refused " + e.what() ); return; }
  x.op(); x.check( answer == 7, "callback", [&] { return t; } ); x.check( same, "history", [&] { return t + ": a second evaluation differs"; } );
  for ( std::size_t i = 0; i < energies.size(); ++i ) {
    Wanted w = model( energies[ i ] ); x.op();
    bool ok = close( got[ i ].elastic, w.elastic, w.rel, w.elasticAbs ) && close( got[ i ].capture, w.capture, w.rel, w.captureAbs ) && close( got[ i ].fission, w.fission, w.rel, w.fissionAbs );
    auto what = [&] { return t + mc::cat( " E=", energies[ i ], ": got ", text( got[ i ] ), " expected ", text( Result{ (double) w.elastic, (double) w.capture, (double) w.fission } ) ); };
    if ( x.wantSample() ) x.sample( what() );
    x.check( ok, "cross-sections", what );
  }
}
static void refused( mc::Explorer& x, int lrf, const endf::ResonanceRange& r, const std::string& t ) {
  mc::note( t ); std::vector< double > energies = { 1. }; std::vector< Result > got; bool same = true, threw = false;
  try { apply( lrf, r, Evaluate{ energies, got, same } ); } catch ( ... ) { threw = true; }
  x.op(); x.check( threw, "refused", [&] { return t + ": accepted"; } );
}
static real potentialOf( real k, real radius, unsigned l ) { real s = std::sin( ref::hardSphere( l, k * radius ).phi ); return 4 * c::pi / ( k * k ) * ( 2 * l + 1 ) * s * s; }
// rounding of the phase shift, which for l > 0 is the small difference of two numbers of the size of the ratio
static real potentialAbs( real k, real radius, unsigned l ) { real d = 4e-16L * ( k * radius + 1e-30L ), s = std::fabs( std::sin( ref::hardSphere( l, k * radius ).phi ) ); return 4 * c::pi / ( k * k ) * ( 2 * l + 1 ) * d * ( 2 * s + d ); }
static const std::vector< double > energies = { 1e-4, 0.0253, 5.2, 6.6, 6.67, 7.1, 19.9, 20.87, 36., 500., 6e4, 1.7e5, 9.1e5, 3.3e6, 1.7e7 };
static const std::vector< double > spins = { 0., 0.5, 1., 1.5, 2., 2.5, 3., 3.5, 4., 4.5, 5., 6.5, 8. };
static const double ap = 0.9;
using BWResonance = endf151::Parts151::BreitWignerResonance<>;
using RMResonance = endf151::Parts151::ReichMooreResonance<>;

// --- the wave number and the radius they share -----------------------------------------------------------
static void shared( mc::Explorer& x ) {
  static const std::vector< double > masses = { 0.9992, 1.9968, 5.9, 10.2, 26.7, 55.4, 101.5, 180.1, 236.0058, 250. };
  double awri = x.pick( masses ); double e = std::ldexp( 1. + x.choose( 16 ) / 16., x.choose( 50 ) - 24 ); int sign = x.choose( 2 ) ? -1 : 1;
  mc::note( mc::cat( "AWRI=", awri, " E=", sign * e ) );
  double k = rr::neutronWaveNumber( awri )( eV( sign * e ) ).value; x.op();
  // the wave number of a neutron of this energy (of either sign) in the centre of mass
  real want = std::sqrt( 2 * 1.00866491588L * c::dalton * e * c::e ) / c::hbar * awri / ( awri + 1.L ) * 1e-14L;
  x.check( mc::close( k, (double) want, 1e-6, 0. ), "wave-number", [&] { return mc::cat( "AWRI=", awri, " E=", sign * e, ": ", k, " expected ", (double) want ); } );
  x.check( mc::close( k, (double)( perRootEV( awri ) * std::sqrt( (real) e ) ), 1e-14, 0. ), "wave-number", [&] { return mc::cat( "AWRI=", awri, " E=", sign * e, ": ", k ); } );
  double a = rr::channelRadius( awri )( eV( sign * e ) ).value; x.op();
  x.check( mc::close( a, computed( awri ), 1e-9, 0. ), "channel-radius", [&] { return mc::cat( "AWRI=", awri, ": ", a, " expected ", computed( awri ) ); } );
}
// a tabulated radius: every law and region, nothing outside the table, no unknown law
static void radii( mc::Explorer& x ) {
  int t = x.choose( tables.size() + 64 ); x.shard();
  if ( t < (int) tables.size() ) {
    auto tab = endfRadius( tables[ t ] ); auto r = rr::radius( tab );
    for ( double e : tableEnergies ) { double got = r( eV( e ) ).value; x.op(); real want = tables[ t ].at( e ); x.check( mc::close( got, (double) want, 1e-12 ), "radius", [&] { return mc::cat( "table ", t, " E=", e, ": ", got, " expected ", (double) want ); } ); }
    for ( double e : { 0.99e-5, 1e5 * ( 1 + 1e-9 ) } ) { bool threw = false; try { r( eV( e ) ); } catch ( ... ) { threw = true; } x.op(); x.check( threw, "radius", [&] { return mc::cat( "table ", t, " E=", e, ": outside the table" ); } ); }
    return;
  }
  long law = t - (int) tables.size() - 20; if ( law >= 1 && law <= 5 ) throw mc::Prune{};
  RadiusModel m{ { 1e-5, 10., 1e5 }, { 0.5, 0.7, 0.9 }, { 3 }, { law } }; if ( x.choose( 2 ) ) { m.bounds = { 2, 3 }; m.laws = { 2, law }; }
  auto tab = endfRadius( m ); bool threw = false; try { rr::radius( tab ); } catch ( ... ) { threw = true; }
  x.op(); x.check( threw, "unknown-law-refused", [&] { return mc::cat( "interpolation law ", law, " accepted" ); } );
}
MC_BODY( "C28", "wave number" ) { shared( x ); }
MC_BODY( "C28", "radius table" ) { radii( x ); }

// --- Breit-Wigner --------------------------------------------------------------------------------------------
template < typename Endf > static void bwPotential( mc::Explorer& x, int lrf ) {
  double spin = x.pick( spins ); RadiusOption o = x.pick( radiusOptions ); int set = 1 + x.choose( 31 ); double awri = 101.5; x.shard();
  auto r = range( lrf, o ); Endf p; p.spi_ = spin; p.ap_ = ap; std::vector< unsigned > ls;
  for ( unsigned l = 0; l < 5; ++l ) if ( set >> l & 1 ) { ls.push_back( l ); p.l_.emplace_back( awri, 0., l, 0, std::vector< BWResonance >{} ); }
  r.parameters_ = p; real k1 = perRootEV( awri );
  compare( x, lrf, r, energies, [&]( double e ) { Wanted w; real k = k1 * std::sqrt( (real) e ); for ( auto l : ls ) { real a = o.nro ? radiusTable.at( e ) : (real) ap; w.elastic += potentialOf( k, a, l ); w.elasticAbs += potentialAbs( k, a, l ); } return w; },
    mc::cat( "LRF=", lrf, " I=", spin, " NRO=", o.nro, " NAPS=", o.naps, " no resonances, l set ", set ) );
}
MC_BODY( "C28", "potential, single level" ) { bwPotential< endf::SingleLevelBreitWigner >( x, singleLevel ); }
MC_BODY( "C28", "potential, multi level" ) { bwPotential< endf::MultiLevelBreitWigner >( x, multiLevel ); }

template < typename Endf > static void bwResonances( mc::Explorer& x, int lrf ) {
  static const std::vector< double > targets = { 0., 0.5, 3.5, 5. }, more = { 0., 0.5, 3.5, 5., 1., 1.5, 2., 4. }; static const std::vector< double > es = { 20.87, 6.67, 55., 36.1, 8., 9.5 };
  static const std::vector< std::vector< unsigned > > lists = { { 0 }, { 1 }, { 2 }, { 3 }, { 4 }, { 0, 1 }, { 1, 0 }, { 0, 2 } };
  double spin = x.pick( x.thorough ? more : targets ); RadiusOption o = x.pick( radiusOptions ); auto ls = x.pick( lists ); int lrx = x.choose( 4 ); double awri = ls.size() > 1 ? 236.0058 : 10.2; 
  double qx = lrx == 0 ? 0. : lrx == 1 ? -4.5e4 : lrx == 2 ? -3. : 2.5;
  x.shard();
  PairModel in{ mn, awri * mn, 0, 0, 0.5, spin, "n", "X", "" }; double aP = o.nro ? ( o.naps == 0 ? computed( awri ) : o.naps == 1 ? -1. : ap ) : o.naps == 0 ? computed( awri ) : ap, aphi = o.nro ? -1. : ap;
  auto r = range( lrf, o ); Endf p; p.spi_ = spin; p.ap_ = ap; std::vector< ResolvedModel > groups; int i0 = 0; std::string t = mc::cat( "LRF=", lrf, " I=", spin, " NRO=", o.nro, " NAPS=", o.naps, " LRX=", lrx ? 1 : 0, " QX=", qx );
  for ( unsigned l : ls ) {
    double lo = std::fabs( std::fabs( l - spin ) - 0.5 ), hi = l + spin + 0.5; std::vector< double > Js; for ( double J = lo; J <= hi && Js.size() < 3; J += 1. ) Js.push_back( J );
    int n = x.choose( ( ls.size() > 1 ? 3 : 4 ) + ( x.thorough ? 1 : 0 ) ); std::vector< BWResonance > v; std::map< double, ResolvedModel > byJ; int bound = n ? x.choose( 2 ) : 0;
    for ( int i = 0; i < n; ++i ) {
      double J = x.pick( Js ), e = es[ ( i0 + i ) % es.size() ]; if ( bound && i == 0 ) e = -e;
      ResolvedModel m{ { in, l, J, aP, aP, aphi, &radiusTable, perRootEV( awri ) }, qx, {}, true };
      double gn = 2. * ( i + 1 ) * (double) m.channel.P( e ), gg = 0.02 + 0.01 * i, gf = ( i + l ) % 2 ? 0.03 : 0., gt = gn + gg + gf + 0.004 * ( i + 1 );   // without LRX the rest is not competition
      v.push_back( { e, J, gt, gn, gg, gf } ); t += mc::cat( " [l=", l, " J=", J, " E=", e, "]" );
      byJ.insert( { J, m } ).first->second.resonances.push_back( { e, gn, gg, gf, lrx ? gt - gn - gg - gf : 0. } );
    }
    i0 += n; for ( auto& q : byJ ) groups.push_back( q.second );
    p.l_.emplace_back( awri, qx, l, lrx ? 1 : 0, v );
  }
  r.parameters_ = p; endfQ = true; real k1 = perRootEV( awri );
  compare( x, lrf, r, energies, [&]( double e ) {
    Wanted w; real k = k1 * std::sqrt( (real) e );
    for ( auto& g : groups ) { real f, sc, rel; auto m = g.evaluate( e, lrf == multiLevel, f, sc, rel ); w.elastic += m[ elasticSymbol( in ) ]; w.capture += m[ captureSymbol( in ) ]; if ( m.count( fissionSymbol( in ) ) ) w.fission += m[ fissionSymbol( in ) ]; w.elasticAbs += f * ( rel * sc + 1e-17L ); w.rel = std::max( w.rel, rel ); }
    for ( auto l : ls ) { real a = o.nro ? radiusTable.at( e ) : (real) ap; w.elastic += potentialOf( k, a, l ); w.elasticAbs += potentialAbs( k, a, l ); }
    return w; }, t );
}
MC_BODY( "C28", "resonances, single level" ) { bwResonances< endf::SingleLevelBreitWigner >( x, singleLevel ); }
MC_BODY( "C28", "resonances, multi level" ) { bwResonances< endf::MultiLevelBreitWigner >( x, multiLevel ); }

// many resonances of one l, for every J, in several orders: more than a few elements to sort and to group, statistical factors close together
struct ManyOrder { int count, order; double spin; unsigned l; RadiusOption radius; };
static ManyOrder manyOrder( mc::Explorer& x ) {
  static const std::vector< int > counts = { 4, 9, 17, 33 }, more = { 4, 9, 17, 33, 5, 16, 20, 64, 150 }; static const std::vector< double > spins = { 0., 1., 3.5, 8. };
  static const std::vector< RadiusOption > os = { { 0, 1 }, { 1, 2 } };
  ManyOrder m; m.count = x.pick( x.thorough ? more : counts ); m.order = x.choose( 4 ); m.spin = x.pick( spins ); m.l = x.choose( 5 ); m.radius = x.pick( x.thorough ? radiusOptions : os ); return m;
}
static std::vector< double > allJ( unsigned l, double spin ) { std::vector< double > Js; for ( double J = std::fabs( std::fabs( l - spin ) - 0.5 ); J <= l + spin + 0.5; J += 1. ) Js.push_back( J ); return Js; }
// which J the resonance has: in turn, in blocks, in blocks from the last to the first, in turn with every third one the same
static std::size_t turn( const ManyOrder& m, int i, std::size_t n ) { switch ( m.order ) { case 0: return i % n; case 1: return i * n / m.count; case 2: return n - 1 - i * n / m.count; default: return i % 3 ? i % n : 0; } }
static double place( const ManyOrder& m, int i ) { double e = 2. + 3.7 * ( i * ( m.order % 2 ? 7 : 1 ) % m.count ) + 0.01 * i; return i == 3 ? -e : e; }
template < typename Endf > static void bwMany( mc::Explorer& x, int lrf ) {
  ManyOrder o = manyOrder( x ); int lrx = x.choose( 2 ); double awri = 101.5, qx = lrx ? -60. : 0.; x.shard();
  PairModel in{ mn, awri * mn, 0, 0, 0.5, o.spin, "n", "X", "" }; double aP = o.radius.nro ? ( o.radius.naps == 0 ? computed( awri ) : o.radius.naps == 1 ? -1. : ap ) : o.radius.naps == 0 ? computed( awri ) : ap, aphi = o.radius.nro ? -1. : ap;
  auto r = range( lrf, o.radius ); Endf p; p.spi_ = o.spin; p.ap_ = ap; std::vector< BWResonance > v; std::map< double, ResolvedModel > byJ; auto Js = allJ( o.l, o.spin );
  for ( int i = 0; i < o.count; ++i ) {
    double J = Js[ turn( o, i, Js.size() ) ], e = place( o, i ); ResolvedModel m{ { in, o.l, J, aP, aP, aphi, &radiusTable, perRootEV( awri ) }, qx, {}, true };
    double gn = ( 0.5 + 0.3 * ( i % 5 ) ) * (double) m.channel.P( e ), gg = 0.02 + 0.01 * ( i % 7 ), gf = i % 3 ? 0.03 : 0., gt = gn + gg + gf + 0.004 * ( i % 4 );
    v.push_back( { e, J, gt, gn, gg, gf } ); byJ.insert( { J, m } ).first->second.resonances.push_back( { e, gn, gg, gf, lrx ? gt - gn - gg - gf : 0. } );
  }
  p.l_.emplace_back( awri, qx, o.l, lrx, v ); r.parameters_ = p; endfQ = true; real k1 = perRootEV( awri );
  compare( x, lrf, r, energies, [&]( double e ) {
    Wanted w; real k = k1 * std::sqrt( (real) e );
    for ( auto& q : byJ ) { auto& g = q.second; real f, sc, rel; auto m = g.evaluate( e, lrf == multiLevel, f, sc, rel ); w.elastic += m[ elasticSymbol( in ) ]; w.capture += m[ captureSymbol( in ) ]; if ( m.count( fissionSymbol( in ) ) ) w.fission += m[ fissionSymbol( in ) ]; w.elasticAbs += f * ( rel * sc + 1e-17L ); w.rel = std::max( w.rel, rel ); }
    real a = o.radius.nro ? radiusTable.at( e ) : (real) ap; w.elastic += potentialOf( k, a, o.l ); w.elasticAbs += potentialAbs( k, a, o.l );
    return w; }, mc::cat( "LRF=", lrf, " I=", o.spin, " l=", o.l, " ", o.count, " resonances, order ", o.order, " NRO=", o.radius.nro, " NAPS=", o.radius.naps, " LRX=", lrx ) );
}
MC_BODY( "C28", "many resonances, single level" ) { bwMany< endf::SingleLevelBreitWigner >( x, singleLevel ); }
MC_BODY( "C28", "many resonances, multi level" ) { bwMany< endf::MultiLevelBreitWigner >( x, multiLevel ); }
// several l at once, in every order that starts somewhere: many resonances of each, its own competition (or radius)
struct SeveralL { std::vector< unsigned > list; int count, pattern; double spin; RadiusOption radius; };
static SeveralL severalL( mc::Explorer& x ) {
  static const std::vector< double > spins = { 0., 1., 3.5 }, more = { 0., 0.5, 1., 1.5, 3.5, 8. }; static const std::vector< RadiusOption > os = { { 0, 1 }, { 1, 2 } };
  SeveralL m; int set = 1 + x.choose( 31 ); for ( unsigned l = 0; l < 5; ++l ) if ( set >> l & 1 ) m.list.push_back( l );
  int n = m.list.size(); if ( n < 2 ) throw mc::Prune{};
  int turn = x.choose( x.thorough ? n : 2 ); std::rotate( m.list.begin(), m.list.begin() + turn, m.list.end() ); if ( x.choose( 2 ) ) std::reverse( m.list.begin(), m.list.end() );
  m.count = x.thorough ? std::vector< int >{ 1, 3, 8, 20 }[ x.choose( 4 ) ] : std::vector< int >{ 1, 7 }[ x.choose( 2 ) ]; m.pattern = x.choose( 4 ); m.spin = x.pick( x.thorough ? more : spins ); m.radius = x.pick( x.thorough ? radiusOptions : os ); return m;
}
// how many resonances the i-th l has: as many, one more for each, one less for each (none in the end)
static int howMany( const SeveralL& o, int i ) { return std::max( 0, o.pattern == 1 ? o.count + i : o.pattern == 2 ? o.count - i : o.count ); }
template < typename Endf > static void bwSeveral( mc::Explorer& x, int lrf ) {
  SeveralL o = severalL( x ); double awri = 101.5; x.shard();
  PairModel in{ mn, awri * mn, 0, 0, 0.5, o.spin, "n", "X", "" }; double aP = o.radius.nro ? ( o.radius.naps == 0 ? computed( awri ) : o.radius.naps == 1 ? -1. : ap ) : o.radius.naps == 0 ? computed( awri ) : ap, aphi = o.radius.nro ? -1. : ap;
  auto r = range( lrf, o.radius ); Endf p; p.spi_ = o.spin; p.ap_ = ap; std::vector< ResolvedModel > groups; std::string t = mc::cat( "LRF=", lrf, " I=", o.spin, " pattern ", o.pattern, " NRO=", o.radius.nro, " NAPS=", o.radius.naps ); int at = 0;
  for ( std::size_t k = 0; k < o.list.size(); ++k ) {
    unsigned l = o.list[ k ]; int n = howMany( o, k ), lrx = ( k + o.pattern ) % 2; double qx = lrx ? ( o.pattern == 3 ? 2.5 : -3. * ( k + 1 ) ) : 0.; std::vector< BWResonance > v; std::map< double, ResolvedModel > byJ; auto Js = allJ( l, o.spin );
    for ( int i = 0; i < n; ++i, ++at ) {
      double J = Js[ ( i * 3 + k ) % Js.size() ], e = i == 3 ? -8. - k : 3. + 2.3 * ( at * 11 % 37 ) + 0.01 * at; ResolvedModel m{ { in, l, J, aP, aP, aphi, &radiusTable, perRootEV( awri ) }, qx, {}, true };
      double gn = ( 0.5 + 0.3 * ( i % 5 ) ) * (double) m.channel.P( e ), gg = 0.02 + 0.01 * ( i % 7 ), gf = ( i + k ) % 3 ? 0.03 : 0., gt = gn + gg + gf + 0.004 * ( 1 + i % 4 );
      v.push_back( { e, J, gt, gn, gg, gf } ); byJ.insert( { J, m } ).first->second.resonances.push_back( { e, gn, gg, gf, lrx ? gt - gn - gg - gf : 0. } );
    }
    for ( auto& q : byJ ) groups.push_back( q.second );
    t += mc::cat( " [l=", l, " ", n, " resonances, LRX=", lrx, " QX=", qx, "]" ); p.l_.emplace_back( awri, qx, l, lrx, v );
  }
  r.parameters_ = p; endfQ = true; real k1 = perRootEV( awri );
  compare( x, lrf, r, energies, [&]( double e ) {
    Wanted w; real k = k1 * std::sqrt( (real) e );
    for ( auto& g : groups ) { real f, sc, rel; auto m = g.evaluate( e, lrf == multiLevel, f, sc, rel ); w.elastic += m[ elasticSymbol( in ) ]; w.capture += m[ captureSymbol( in ) ]; if ( m.count( fissionSymbol( in ) ) ) w.fission += m[ fissionSymbol( in ) ]; w.elasticAbs += f * ( rel * sc + 1e-17L ); w.rel = std::max( w.rel, rel ); }
    for ( auto l : o.list ) { real a = o.radius.nro ? radiusTable.at( e ) : (real) ap; w.elastic += potentialOf( k, a, l ); w.elasticAbs += potentialAbs( k, a, l ); }
    return w; }, t );
}
MC_BODY( "C28", "several l, single level" ) { bwSeveral< endf::SingleLevelBreitWigner >( x, singleLevel ); }
MC_BODY( "C28", "several l, multi level" ) { bwSeveral< endf::MultiLevelBreitWigner >( x, multiLevel ); }

static void fill( endf::ResonanceRange& r, int kind, unsigned l ) {
  std::vector< BWResonance > b{ { 6.67, l + 0.5, 0.1, 0.02, 0.03, 0.01 } }; std::vector< RMResonance > m{ { 6.67, l + 0.5, 0.02, 0.03, 0.01, 0. } };
  switch ( kind ) {
    case singleLevel: { endf::SingleLevelBreitWigner p; p.ap_ = ap; p.l_.emplace_back( 236., 0., l, 0, b ); r.parameters_ = p; break; }
    case multiLevel: { endf::MultiLevelBreitWigner p; p.ap_ = ap; p.l_.emplace_back( 236., 0., l, 0, b ); r.parameters_ = p; break; }
    default: { endf::ReichMoore p; p.ap_ = ap; p.l_.emplace_back( 236., 0., l, m ); r.parameters_ = p; }
  }
}
static void refusals( mc::Explorer& x, int lrf ) {
  int kind = 1 + x.choose( 3 ); unsigned l = x.choose( 8 ); int nro = x.choose( 2 ), naps = x.choose( 7 ) - 2;
  auto r = range( lrf, { nro, naps } ); fill( r, kind, l );
  bool radius = naps == 0 || naps == 1 || ( nro && naps == 2 );
  std::string t = mc::cat( "for LRF=", lrf, ": parameters of LRF=", kind, " l=", l, " NRO=", nro, " NAPS=", naps );
  if ( kind == lrf && l <= 4 && radius ) { mc::note( t ); std::vector< double > at = { 1. }; std::vector< Result > got; bool same = true, threw = false; try { apply( lrf, r, Evaluate{ at, got, same } ); } catch ( ... ) { threw = true; } x.op(); x.check( !threw && got.size() == 1, "accepted", [&] { return t + ": refused"; } ); }
  else refused( x, lrf, r, t );
}
MC_BODY( "C28", "refused" ) { refusals( x, x.choose( 2 ) ? multiLevel : singleLevel ); }

// --- Reich-Moore ---------------------------------------------------------------------------------------------
using Matrix = std::array< std::array< cplx, 3 >, 3 >;
static Matrix inverse( Matrix a ) {
  Matrix b{}; for ( int i = 0; i < 3; ++i ) b[ i ][ i ] = 1;
  for ( int i = 0; i < 3; ++i ) {
    int p = i; for ( int j = i + 1; j < 3; ++j ) if ( std::abs( a[ j ][ i ] ) > std::abs( a[ p ][ i ] ) ) p = j;
    std::swap( a[ i ], a[ p ] ); std::swap( b[ i ], b[ p ] ); cplx d = cplx( 1 ) / a[ i ][ i ];
    for ( int k = 0; k < 3; ++k ) { a[ i ][ k ] *= d; b[ i ][ k ] *= d; }
    for ( int j = 0; j < 3; ++j ) if ( j != i ) { cplx f = a[ j ][ i ]; for ( int k = 0; k < 3; ++k ) { a[ j ][ k ] -= f * a[ i ][ k ]; b[ j ][ k ] -= f * b[ i ][ k ]; } }
  }
  return b;
}
struct Level { double e, J, n, g, a, b; };   // as in ENDF: the sign of J tells spin groups of the same J apart
struct LValueModel { unsigned l; double aP, aphi; std::vector< Level > levels; };   // radii: below 0 stands for the table
static Wanted reichMooreModel( const std::vector< LValueModel >& ls, double spin, real k1, double e ) {
  Wanted w; w.rel = 1e-9L; real k = k1 * std::sqrt( (real) e ), factor = c::pi / ( k * k );
  for ( auto& v : ls ) {
    real p = ref::hardSphere( v.l, k * radiusAt( v.aP, &radiusTable, e ) ).P, phi = ref::hardSphere( v.l, k * radiusAt( v.aphi, &radiusTable, e ) ).phi, s = std::sin( phi ), used = 0;
    std::map< double, Matrix > groups;
    for ( auto& r : v.levels ) {
      real er = std::fabs( (real) r.e ), pr = ref::hardSphere( v.l, k1 * std::sqrt( er ) * radiusAt( v.aP, &radiusTable, er ) ).P;
      auto root = []( double u ) { return ( u < 0 ? -1 : 1 ) * std::sqrt( std::fabs( (real) u ) ); };
      real g[ 3 ] = { std::sqrt( (real) r.n * p / pr ), root( r.a ), root( r.b ) };
      auto& m = groups.insert( { r.J, Matrix{} } ).first->second;
      for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) m[ i ][ j ] += g[ i ] * g[ j ] / cplx( r.g, 2 * ( r.e - (real) e ) );
      w.rel = std::max( w.rel, 1e-14L * ( std::fabs( (real) r.e ) + e ) / std::hypot( (real) r.g, 2 * ( r.e - (real) e ) ) );
    }
    cplx turn = std::exp( cplx( 0, -2 * phi ) );
    for ( auto& q : groups ) {
      Matrix m = q.second; for ( int i = 0; i < 3; ++i ) m[ i ][ i ] += 1;
      Matrix u = inverse( m ); for ( auto& row : u ) for ( auto& z : row ) z *= cplx( 2 ) * turn; for ( int i = 0; i < 3; ++i ) u[ i ][ i ] -= turn;
      real g = ( 2 * std::fabs( (real) q.first ) + 1 ) / ( 4 * (real) spin + 2 ), el = std::norm( cplx( 1 ) - u[ 0 ][ 0 ] ), fi = std::norm( u[ 0 ][ 1 ] ) + std::norm( u[ 0 ][ 2 ] ); used += g;
      w.elastic += factor * g * el; w.fission += factor * g * fi; w.capture += factor * g * ( 2 * ( 1 - std::real( u[ 0 ][ 0 ] ) ) - el - fi );
      w.elasticAbs += factor * g * ( 1e-14L * std::sqrt( el ) + 1e-30L ); w.captureAbs += factor * g * 4e-15L * ( 1 + std::sqrt( el ) ) + w.rel * w.captureAbs;
      w.fissionAbs += factor * g * 1e-26L;
      w.captureAbs += factor * g * 1e-13L * ( el + fi );
    }
    w.elastic += factor * 4 * ( 2 * v.l + 1 - used ) * s * s; w.elasticAbs += potentialAbs( k, radiusAt( v.aphi, &radiusTable, e ), v.l );
  }
  return w;
}
static LValueModel rmRadii( const RadiusOption& o, unsigned l, double awri, double apl ) {
  double own = apl != 0. ? apl : ap;
  if ( o.nro ) return { l, o.naps == 0 ? computed( awri ) : o.naps == 1 ? -1. : own, -1., {} };
  return { l, o.naps == 0 ? computed( awri ) : own, own, {} };
}
MC_BODY( "C29", "wave number" ) { shared( x ); }
MC_BODY( "C29", "radius table" ) { radii( x ); }
MC_BODY( "C29", "potential" ) {
  double spin = x.pick( spins ); RadiusOption o = x.pick( radiusOptions ); int set = 1 + x.choose( 31 ), apls = x.choose( 4 ); double awri = 101.5; x.shard();
  auto r = range( reichMoore, o ); endf::ReichMoore p; p.spi_ = spin; p.ap_ = ap; std::vector< LValueModel > ls;
  for ( unsigned l = 0; l < 5; ++l ) if ( set >> l & 1 ) { double apl = apls >> ( l % 2 ) & 1 ? 0.7 + 0.1 * l : 0.; ls.push_back( rmRadii( o, l, awri, apl ) ); p.l_.emplace_back( awri, apl, l, std::vector< RMResonance >{} ); }
  r.parameters_ = p; real k1 = perRootEV( awri );
  compare( x, reichMoore, r, energies, [&]( double e ) { return reichMooreModel( ls, spin, k1, e ); }, mc::cat( "LRF=3 I=", spin, " NRO=", o.nro, " NAPS=", o.naps, " no resonances, l set ", set, " APL ", apls ) );
}
static void rmResonances( mc::Explorer& x, const std::vector< std::vector< unsigned > >& lists, int most ) {
  static const std::vector< double > targets = { 0., 0.5, 3.5, 8. }, more = { 0., 0.5, 3.5, 8., 1., 2.5, 5. }; static const std::vector< double > es = { 20.87, 6.67, 55., 36.1, 8., 9.5 };
  double spin = x.pick( x.thorough ? more : targets ); RadiusOption o = x.pick( radiusOptions ); auto list = x.pick( lists ); double awri = list.size() > 1 ? 236.0058 : 10.2; int apls = x.choose( 2 );
  auto r = range( reichMoore, o ); endf::ReichMoore p; p.spi_ = spin; p.ap_ = ap; std::vector< LValueModel > ls; int i0 = 0; std::string t = mc::cat( "LRF=3 I=", spin, " NRO=", o.nro, " NAPS=", o.naps );
  x.shard();
  for ( unsigned l : list ) {
    double apl = apls ? 0.7 + 0.1 * l : 0.; auto m = rmRadii( o, l, awri, apl ); std::vector< RMResonance > v;
    double lo = std::fabs( std::fabs( l - spin ) - 0.5 ), hi = l + spin + 0.5; std::vector< double > Js = { lo }; if ( hi > lo ) { Js.push_back( hi ); if ( spin > 0 && l > 0 ) Js.push_back( -std::max( 1., std::floor( lo + 1. ) + ( lo - std::floor( lo ) ) ) ); }
    int n = x.choose( most + ( x.thorough && list.size() == 1 ? 2 : 1 ) ); int bound = n ? x.choose( 2 ) : 0, fission = n ? x.choose( 5 ) : 0; if ( Js.size() == 3 ) Js.push_back( -Js[ 2 ] );
    for ( int i = 0; i < n; ++i ) {
      double J = x.pick( Js ), e = es[ ( i0 + i ) % es.size() ]; if ( bound && i == 0 ) e = -e;
      real pr = ref::hardSphere( l, perRootEV( awri ) * std::sqrt( std::fabs( (real) e ) ) * radiusAt( m.aP, &radiusTable, std::fabs( e ) ) ).P;
      double gn = 2. * ( i + 1 ) * (double) pr, gg = 0.02 + 0.01 * i, a = fission == 1 || fission >= 3 ? ( fission == 4 && i % 2 ? -0.05 : 0.03 ) : 0., b = fission == 2 || fission == 3 || fission == 4 ? ( i == 1 ? -0.02 : 0.06 ) : 0.;
      if ( fission == 4 && i == 2 ) a = b = 0.;
      v.push_back( { e, J, gn, gg, a, b } ); m.levels.push_back( { e, J, gn, gg, a, b } ); t += mc::cat( " [l=", l, " J=", J, " E=", e, " fission ", a, " ", b, " APL=", apl, "]" );
    }
    i0 += n; ls.push_back( m ); p.l_.emplace_back( awri, apl, l, v );
  }
  r.parameters_ = p; real k1 = perRootEV( awri );
  compare( x, reichMoore, r, energies, [&]( double e ) { return reichMooreModel( ls, spin, k1, e ); }, t );
}
MC_BODY( "C29", "resonances" ) { rmResonances( x, { { 0 }, { 1 }, { 2 }, { 3 }, { 4 } }, 3 ); }
MC_BODY( "C29", "resonances, two l" ) { rmResonances( x, { { 0, 1 }, { 1, 0 }, { 0, 2 } }, 2 ); }
// widths of very different sizes
static double small( int i ) { return i % 5 == 1 ? 1e-3 : i % 7 == 3 ? 1e-5 : 1.; }
MC_BODY( "C29", "many resonances" ) {
  ManyOrder o = manyOrder( x ); int fission = x.choose( 3 ); double awri = 101.5; x.shard();
  auto r = range( reichMoore, o.radius ); endf::ReichMoore p; p.spi_ = o.spin; p.ap_ = ap; auto m = rmRadii( o.radius, o.l, awri, 0. ); std::vector< RMResonance > v; auto Js = allJ( o.l, o.spin );
  if ( o.l && o.spin ) for ( std::size_t i = 1, n = Js.size(); i + 1 < n; ++i ) Js.push_back( -Js[ i ] );   // both channel spins
  for ( int i = 0; i < o.count; ++i ) {
    double J = Js[ turn( o, i, Js.size() ) ], e = place( o, i ); real er = std::fabs( (real) e );
    double gn = ( 0.5 + 0.3 * ( i % 5 ) ) * (double) ref::hardSphere( o.l, perRootEV( awri ) * std::sqrt( er ) * radiusAt( m.aP, &radiusTable, er ) ).P, gg = 0.02 + 0.01 * ( i % 7 ), a = fission && i % 3 ? small( i ) * 0.03 * ( i % 4 - 1.5 ) : 0., b = fission == 2 && i % 2 ? small( i + 2 ) * ( i % 4 == 1 ? -0.05 : 0.05 ) : 0.;
    v.push_back( { e, J, gn, gg, a, b } ); m.levels.push_back( { e, J, gn, gg, a, b } );
  }
  p.l_.emplace_back( awri, 0., o.l, v ); r.parameters_ = p; real k1 = perRootEV( awri );
  compare( x, reichMoore, r, energies, [&]( double e ) { return reichMooreModel( { m }, o.spin, k1, e ); }, mc::cat( "LRF=3 I=", o.spin, " l=", o.l, " ", o.count, " resonances, order ", o.order, " NRO=", o.radius.nro, " NAPS=", o.radius.naps, " fission ", fission ) );
}
MC_BODY( "C29", "several l" ) {
  SeveralL o = severalL( x ); int apls = x.choose( 2 ); double awri = 101.5; x.shard();
  auto r = range( reichMoore, o.radius ); endf::ReichMoore p; p.spi_ = o.spin; p.ap_ = ap; std::vector< LValueModel > ls; std::string t = mc::cat( "LRF=3 I=", o.spin, " pattern ", o.pattern, " APL ", apls, " NRO=", o.radius.nro, " NAPS=", o.radius.naps ); int at = 0;
  for ( std::size_t k = 0; k < o.list.size(); ++k ) {
    unsigned l = o.list[ k ]; int n = howMany( o, k ); double apl = apls && ( k + o.pattern ) % 3 ? 0.7 + 0.1 * l : 0.; auto m = rmRadii( o.radius, l, awri, apl ); std::vector< RMResonance > v; auto Js = allJ( l, o.spin );
    if ( l && o.spin ) for ( std::size_t i = 1, size = Js.size(); i + 1 < size; ++i ) Js.push_back( -Js[ i ] );
    for ( int i = 0; i < n; ++i, ++at ) {
      double J = Js[ ( i * 3 + k ) % Js.size() ], e = i == 3 ? -8. - k : 3. + 2.3 * ( at * 11 % 37 ) + 0.01 * at; real er = std::fabs( (real) e );
      double gn = ( 0.5 + 0.3 * ( i % 5 ) ) * (double) ref::hardSphere( l, perRootEV( awri ) * std::sqrt( er ) * radiusAt( m.aP, &radiusTable, er ) ).P, gg = 0.02 + 0.01 * ( i % 7 ), a = ( i + o.pattern ) % 3 ? small( i ) * 0.03 * ( i % 4 - 1.5 ) : 0., b = ( k + o.pattern ) % 2 && i % 2 ? small( i + 2 ) * ( i % 4 == 1 ? -0.05 : 0.05 ) : 0.;
      v.push_back( { e, J, gn, gg, a, b } ); m.levels.push_back( { e, J, gn, gg, a, b } );
    }
    t += mc::cat( " [l=", l, " ", n, " resonances, APL=", apl, "]" ); ls.push_back( m ); p.l_.emplace_back( awri, apl, l, v );
  }
  r.parameters_ = p; real k1 = perRootEV( awri );
  compare( x, reichMoore, r, energies, [&]( double e ) { return reichMooreModel( ls, o.spin, k1, e ); }, t );
}
MC_BODY( "C29", "refused" ) { refusals( x, reichMoore ); }
int main( int argc, char** argv ) { return mc::mainLoop( argc, argv ); }
