// C27: what fromENDF makes of a resonance range, compared with models built from the same parameters
#include "rmlegacy.hpp"
#include "rmgroup.hpp"
using Values = std::map< std::string, real >;
static const double mn = 1.008664;   // mass of the neutron in Da, as given to fromENDF
static auto neutronMass() { return mn * njoy::dimwits::daltons; }
static auto charge() { return njoy::dimwits::constant::elementaryCharge; }

// the options for the radii
struct RadiusOption { int nro, naps; };
static const std::vector< RadiusOption > radiusOptions = { { 0, 0 }, { 0, 1 }, { 1, 0 }, { 1, 1 }, { 1, 2 } };
static const RadiusTable radiusTable{ { 1e-6, 10., 1e3, 2.1e7 }, { 0.8, 0.95, 0.9, 1.1 } };
struct Radii { double P, phi; };
static Radii radiiOf( const RadiusOption& o, double awri, double ap ) {
  double computed = 0.123 * std::pow( awri * mn, 1. / 3. ) + 0.08;
  if ( o.nro ) return { o.naps == 0 ? computed : o.naps == 1 ? -1. : ap, -1. };
  return { o.naps == 0 ? computed : ap, ap };
}
static endf::ResonanceRange range( double el, double eh, int lru, int lrf, const RadiusOption& o ) {
  endf::ResonanceRange r; r.el = el; r.eh = eh; r.lru = lru; r.lrf = lrf; r.naps = o.naps;
  if ( o.nro ) r.radius_ = endf::ScatteringRadius( { (long) radiusTable.x.size() }, { 2 }, std::vector< double >( radiusTable.x ), std::vector< double >( radiusTable.y ) );
  return r;
}
// compare, where a reaction that is missing has cross section 0
static bool same( const XS& got, const Values& want, double rel, double abs ) {
  std::map< std::string, double > g; for ( auto& p : got ) { if ( std::isnan( p.second.value ) ) return false; g[ p.first.symbol() ] = p.second.value; }
  for ( auto& p : want ) if ( !mc::close( g[ p.first ], (double) p.second, rel, abs ) ) return false;
  for ( auto& p : g ) if ( !want.count( p.first ) && std::fabs( p.second ) > abs ) return false;
  return true;
}
static const std::vector< std::pair< double, double > > limits = { { 1e-5, 2e7 }, { 5., 40. }, { 6.67, 20.87 } };
// the reconstructor: limits, kind, cross sections inside, nothing outside, and a grid inside
template < typename T, typename = void > struct HasIncidentChannel : std::false_type {};
template < typename T > struct HasIncidentChannel< T, std::void_t< decltype( std::declval< T& >().incidentChannel() ) > > : std::true_type {};
template < typename Model >
static void compare( mc::Explorer& x, const endf::ResonanceRange& range, const char* target, std::size_t kind, const std::vector< double >& energies, const std::vector< double >& nodes, Model model, const std::string& t, bool known = false, const char* kind2 = "competitive-energy", const char* finding = "C27-K1" ) {
  mc::note( t );
  std::optional< rm::Reconstructor > r;
  try { r = rm::fromENDF( range, neutronMass(), charge(), rm::ParticleID( "n" ), rm::ParticleID( target ) ); } catch ( std::exception& e ) { x.fail( "accepted", t + ": refused " + e.what() ); return; }
  x.op();
  x.check( r->lowerEnergy().value == range.el && r->upperEnergy().value == range.eh, "limits", [&] { return t + mc::cat( ": limits ", r->lowerEnergy().value, " ", r->upperEnergy().value ); } );
  x.check( r->compoundSystem().index() == kind && r->isResolved() == ( kind != 4 ) && r->isUnresolved() == ( kind == 4 ), "kind", [&] { return t + mc::cat( ": alternative ", r->compoundSystem().index() ); } );
  // neutron and target have positive parity
  bool parity = true;
  std::visit( [&]( auto& system ) {
    using System = std::decay_t< decltype( system ) >;
    if constexpr ( !std::is_same_v< System, std::monostate > )
      for ( auto&& group : system.spinGroups() ) {
        auto even = [&]( auto& channel ) { auto n = channel.quantumNumbers(); parity = parity && n.parity() == ( n.orbitalAngularMomentum() % 2 ? -1 : 1 ); };
        if constexpr ( HasIncidentChannel< std::decay_t< decltype( group ) > >::value ) { auto ch = group.incidentChannel(); even( ch ); }
      }
  }, r->compoundSystem() );
  x.check( parity, "parity", [&] { return t + ": the parity of a channel"; } );
  auto at = energies; at.push_back( range.el ); at.push_back( range.eh ); at.push_back( std::nextafter( range.el, 0. ) ); at.push_back( std::nextafter( range.eh, 1e30 ) );
  for ( double e : at ) {
    auto what = [&] { return t + mc::cat( " E=", e ); };
    if ( e < range.el || e > range.eh ) { XS xs = ( *r )( eV( e ) ); x.op(); x.check( xs.empty(), "outside", [&] { return what() + ": " + text( xs ); } ); continue; }
    real rel = 0, abs = 0; Values want;
    endfQ = true; if ( !model( e, want, rel, abs ) ) continue;
    XS xs = ( *r )( eV( e ) ); x.op();
    if ( known && !same( xs, want, (double) rel, (double) abs ) ) {   // what the library does, where that is a known finding
      real rel2 = 0, abs2 = 0; Values found; endfQ = false; model( e, found, rel2, abs2 );
      if ( same( xs, found, (double) rel2, (double) abs2 ) ) { ++x.checks; x.fail( kind2, what() + ": got " + text( xs ) + "expected " + text( want ), finding ); continue; }
    }
    if ( x.wantSample() ) x.sample( what() + ": " + text( xs ) );
    x.check( same( xs, want, (double) rel, (double) abs ), "cross-sections", [&] { return what() + ": got " + text( xs ) + "expected " + text( want ); } );
  }
  auto g = r->grid(); x.op(); bool inside = true, up = true, all = true;
  for ( std::size_t i = 0; i < g.size(); ++i ) { inside = inside && g[ i ].value >= range.el && g[ i ].value <= range.eh; up = up && ( i == 0 || g[ i - 1 ].value < g[ i ].value ); }
  for ( double n : nodes ) if ( n >= range.el && n <= range.eh && n > 0 ) { bool f = false; for ( auto& v : g ) f = f || v.value == n; all = all && f; }
  x.check( inside && up && all, "grid", [&] { std::string s = t + ": grid"; for ( auto& v : g ) s += " " + mc::num( v.value ); return s; } );
}
static const std::vector< double > resolvedAt = { 1e-4, 0.0253, 5.2, 6.6, 6.67, 7.1, 19.9, 20.87, 36., 500., 6e4, 9.1e5, 3.3e6, 1.7e7 };

// --- Breit-Wigner ----------------------------------------------------------------------------
template < typename Endf > static void breitWigner( mc::Explorer& x, int lrf, bool multi ) {
  static const std::vector< double > targets = { 0., 0.5, 3.5 };
  double spin = x.pick( targets ); RadiusOption o = x.pick( radiusOptions ); int nl = 1 + x.choose( 3 );
  x.shard();
  auto lim = limits[ nl - 1 ]; double awri = 101.5, ap = 0.9; PairModel in{ mn, awri * mn, 0, 0, 0.5, spin, "n", "Rh103", "" };
  auto rad = radiiOf( o, awri, ap ); int lrx = x.choose( 3 ); double qx = lrx == 0 ? 0. : lrx == 1 ? -4.5e4 : -3.; 
  auto er = range( lim.first, lim.second, 1, lrf, o ); Endf p; p.spi_ = spin; p.ap_ = ap;
  std::vector< ResolvedModel > groups; std::vector< double > nodes; std::string t = mc::cat( "LRF=", lrf, " I=", spin, " NRO=", o.nro, " NAPS=", o.naps, " LRX=", lrx ? 1 : 0, " QX=", qx );
  static const std::vector< double > es = { 20.87, 6.67, 55., 36.1, 8., 9.5, 100., 61., 12. };
  for ( int l = 0; l < nl; ++l ) {
    double lo = std::fabs( std::fabs( l - spin ) - 0.5 ), hi = l + spin + 0.5; if ( l > 0 && spin > 0 ) lo = std::min( lo, std::max( 0., std::fabs( l - std::fabs( spin - 0.5 ) ) ) );
    int n = x.choose( nl == 3 && l == 1 ? 2 : 3 ); std::vector< endf::BreitWignerLValue::Resonance< njoy::ENDFtk::section::Parts151::Owned > > v; std::map< double, ResolvedModel > byJ;
    for ( int i = 0; i < n; ++i ) {
      double J = x.choose( 2 ) ? hi : std::min( lo + ( i == 1 ? 1. : 0. ), hi ); double e = es[ 3 * l + i ]; if ( i == 1 && l < 2 && rad.P > 0 ) e = -e;   // a bound level
      ResolvedModel m{ { in, (unsigned) l, J, rad.P, rad.P, rad.phi, &radiusTable }, qx, {}, true };
      double gn = 2. * ( i + 1 ) * (double) m.channel.P( e ), gg = 0.02 + 0.01 * i, gf = i ? 0.03 : 0., gt = gn + gg + gf + ( lrx ? 0.004 : 0. );
      v.push_back( { e, J, gt, gn, gg, gf } ); nodes.push_back( e ); t += mc::cat( " [l=", l, " J=", J, " E=", e, "]" );
      byJ.insert( { J, m } ).first->second.resonances.push_back( { e, gn, gg, gf, lrx ? gt - gn - gg - gf : 0. } );
    }
    for ( auto& q : byJ ) groups.push_back( q.second );
    p.l_.emplace_back( awri, qx, l, lrx ? 1 : 0, v );
  }
  er.parameters_ = p;
  if ( groups.empty() ) { bool threw = false; try { rm::fromENDF( er, neutronMass(), charge(), rm::ParticleID( "n" ), rm::ParticleID( "Rh103" ) ); } catch ( ... ) { threw = true; } x.op(); x.check( threw, "nothing-refused", [&] { return t; } ); return; }
  unsigned lmax = 0; for ( auto& g : groups ) lmax = std::max( lmax, g.channel.l );
  compare( x, er, "Rh103", lrf - 1, resolvedAt, nodes, [&]( double e, Values& want, real& rel, real& abs ) {
    if ( o.nro && e - qx > 2e7 ) return false;
    rel = 1e-10L; for ( auto& g : groups ) { real f, sc, r; for ( auto& q : g.evaluate( e, multi, f, sc, r ) ) want[ q.first ] += q.second; abs += f * ( r * sc + 1e-17L ); rel = std::max( rel, r ); }
    real pot = potential( groups[ 0 ].channel, lmax, e ); want[ elasticSymbol( in ) ] += pot; abs += 1e-12L * pot; return true; }, t, lrx != 0 );
}
MC_BODY( "C27", "single-level" ) { breitWigner< endf::SingleLevelBreitWigner >( x, 1, false ); }
MC_BODY( "C27", "multi-level" ) { breitWigner< endf::MultiLevelBreitWigner >( x, 2, true ); }

// many resonances of one l or of all up to it, for every J, in several orders: more than a few elements to sort and to group
struct ManyOrder { int count, order; double spin; int l; bool below; RadiusOption radius; };
static ManyOrder manyOrder( mc::Explorer& x ) {
  static const std::vector< int > counts = { 4, 9, 17, 33 }, more = { 4, 9, 17, 33, 5, 16, 20, 64, 120 }; static const std::vector< double > spins = { 0., 1., 3.5, 8. };
  static const std::vector< RadiusOption > os = { { 0, 1 }, { 1, 2 } };
  ManyOrder m; m.count = x.pick( x.thorough ? more : counts ); m.order = x.choose( 4 ); m.spin = x.pick( spins ); m.l = x.choose( 4 ); m.below = m.l && x.choose( 2 ); m.radius = x.pick( x.thorough ? radiusOptions : os ); return m;
}
// which J the resonance has: in turn, in blocks, in blocks from the last to the first, in turn with every third one the same
static std::size_t turn( const ManyOrder& m, int i, std::size_t n ) { switch ( m.order ) { case 0: return i % n; case 1: return i * n / m.count; case 2: return n - 1 - i * n / m.count; default: return i % 3 ? i % n : 0; } }
static double place( const ManyOrder& m, int i, int l, bool bound ) { double e = 2. + 3.7 * ( i * ( m.order % 2 ? 7 : 1 ) % m.count ) + 0.01 * i + 0.3 * l; return i == 3 && bound ? -e : e; }
static std::string manyText( int lrf, const ManyOrder& o ) { return mc::cat( "LRF=", lrf, " I=", o.spin, " l=", o.below ? "0.." : "", o.l, " ", o.count, " resonances, order ", o.order, " NRO=", o.radius.nro, " NAPS=", o.radius.naps ); }
static std::vector< double > allJ( unsigned l, double spin ) { std::vector< double > Js; for ( double J = std::fabs( std::fabs( l - spin ) - 0.5 ); J <= l + spin + 0.5; J += 1. ) Js.push_back( J ); return Js; }
template < typename Endf > static void bwMany( mc::Explorer& x, int lrf, bool multi ) {
  ManyOrder o = manyOrder( x ); int lrx = x.choose( 2 ); double awri = 101.5, ap = 0.9, qx = lrx ? -60. : 0.; x.shard();
  PairModel in{ mn, awri * mn, 0, 0, 0.5, o.spin, "n", "Rh103", "" }; auto rad = radiiOf( o.radius, awri, ap ); auto er = range( 1e-5, 2e7, 1, lrf, o.radius ); Endf p; p.spi_ = o.spin; p.ap_ = ap;
  std::vector< ResolvedModel > groups; std::vector< double > nodes;
  for ( int l = 0; l <= o.l; ++l ) {
    std::vector< endf::BreitWignerLValue::Resonance< njoy::ENDFtk::section::Parts151::Owned > > v; std::map< double, ResolvedModel > byJ; auto Js = allJ( l, o.spin );
    for ( int i = 0; i < ( l == o.l || o.below ? o.count : 0 ); ++i ) {
      double J = Js[ turn( o, i, Js.size() ) ], e = place( o, i, l, rad.P > 0 ); ResolvedModel m{ { in, (unsigned) l, J, rad.P, rad.P, rad.phi, &radiusTable }, qx, {}, true };
      double gn = ( 0.5 + 0.3 * ( i % 5 ) ) * (double) m.channel.P( e ), gg = 0.02 + 0.01 * ( i % 7 ), gf = i % 3 ? 0.03 : 0., gt = gn + gg + gf + ( lrx ? 0.004 * ( i % 4 ) : 0. );
      v.push_back( { e, J, gt, gn, gg, gf } ); nodes.push_back( e ); byJ.insert( { J, m } ).first->second.resonances.push_back( { e, gn, gg, gf, lrx ? gt - gn - gg - gf : 0. } );
    }
    for ( auto& q : byJ ) groups.push_back( q.second );
    p.l_.emplace_back( awri, qx, l, lrx, v );
  }
  er.parameters_ = p; auto at = resolvedAt; if ( o.count < 20 ) for ( double e : nodes ) { at.push_back( e ); at.push_back( e + 0.01 ); }
  compare( x, er, "Rh103", lrf - 1, at, nodes, [&]( double e, Values& want, real& rel, real& abs ) {
    if ( e < 0 || o.radius.nro && e - qx > 2e7 ) return false;
    rel = 1e-10L; for ( auto& g : groups ) { real f, sc, r; for ( auto& q : g.evaluate( e, multi, f, sc, r ) ) want[ q.first ] += q.second; abs += f * ( r * sc + 1e-17L ); rel = std::max( rel, r ); }
    real pot = potential( groups[ 0 ].channel, o.l, e ); want[ elasticSymbol( in ) ] += pot; abs += 1e-12L * pot; return true; }, manyText( lrf, o ) + mc::cat( " LRX=", lrx ), lrx != 0 );
}
MC_BODY( "C27", "many-single-level" ) { bwMany< endf::SingleLevelBreitWigner >( x, 1, false ); }
MC_BODY( "C27", "many-multi-level" ) { bwMany< endf::MultiLevelBreitWigner >( x, 2, true ); }

// --- Reich-Moore -------------------------------------------------------------------------------
struct Numbers { unsigned l; double s, J; };
static std::vector< Numbers > allNumbers( double spin, int lmax ) {
  std::vector< Numbers > v;
  for ( int l = 0; l < lmax; ++l ) for ( double s = std::fabs( spin - 0.5 ); s <= spin + 0.5; s += 1. ) for ( double J = std::fabs( l - s ); J <= l + s; J += 1. ) v.push_back( { (unsigned) l, s, J } );
  return v;
}
// the channel spin ENDF means: the smallest for a negative J if there are several, the largest otherwise
static bool take( std::vector< Numbers >& free, unsigned l, double J, Numbers& out ) {
  int best = -1; for ( int i = 0; i < (int) free.size(); ++i ) if ( free[ i ].l == l && free[ i ].J == std::fabs( J ) && ( best < 0 || ( J < 0 ? free[ i ].s < free[ best ].s : free[ i ].s > free[ best ].s ) ) ) best = i;
  if ( best < 0 ) return false;
  out = free[ best ]; free.erase( free.begin() + best ); return true;
}
static double reduced( double width, real P ) { return (double)( ( width < 0 ? -1 : 1 ) * std::sqrt( std::fabs( (real) width ) / 2 / P ) ); }
static void evaluateGroups( const std::vector< GroupModel >& groups, double e, bool shift, Values& want, real& rel, real& abs, bool& valid ) {
  rel = 1e-9L; valid = true;
  for ( auto& g : groups ) { auto r = g.evaluate( e, shift ); if ( !r.valid ) { valid = false; return; } for ( auto& p : r.xs ) want[ p.first ] += p.second; abs += r.factor * ( 1e-12L * r.condition + 1e-11L ); rel = std::max( rel, 1e-12L * r.condition ); }
}
// widths of one group in any number of channels, put together by energy
struct Data { ChannelModel channel; std::vector< double > energies, widths; bool eliminated; };
static std::vector< GroupModel > assemble( const std::vector< Data >& data ) {
  std::map< std::pair< double, int >, GroupModel > groups; std::map< std::pair< double, int >, std::map< double, ResonanceModel > > res;
  for ( auto& d : data ) if ( !d.eliminated ) groups[ { d.channel.J, d.channel.parity } ].channels.push_back( d.channel );
  for ( auto& g : groups ) {
    std::size_t k = 0; auto& r = res[ g.first ];
    for ( auto& d : data ) if ( d.channel.J == g.first.first && d.channel.parity == g.first.second ) {
      for ( std::size_t i = 0; i < d.energies.size(); ++i ) { auto& m = r.insert( { d.energies[ i ], { d.energies[ i ], std::vector< double >( g.second.channels.size(), 0. ), 0. } } ).first->second; if ( d.eliminated ) m.eliminated = d.widths[ i ]; else m.widths[ k ] = d.widths[ i ]; }
      if ( !d.eliminated ) ++k;
    }
    for ( auto& q : r ) g.second.resonances.push_back( q.second );
  }
  std::vector< GroupModel > v; for ( auto& g : groups ) v.push_back( g.second ); return v;
}
// all: up to four l values with a resonance for every J, so that a spin group gets data of several l values and channel spins
static void reichMoore( mc::Explorer& x, bool all ) {
  static const std::vector< double > targets = { 0., 0.5, 2.5 };
  double spin = x.pick( targets ); RadiusOption o = all ? radiusOptions[ 0 ] : x.pick( radiusOptions ); int nl = 1 + x.choose( all ? 4 : 2 ), extra = x.choose( all ? 2 : 3 ), apl = x.choose( 2 );
  x.shard();
  double awri = 236.0, ap = 0.93; PairModel in{ mn, awri * mn, 0, 0, 0.5, spin, "n", "U235", "" }, fis = in, cap = in; fis.id = "fission"; cap.id = "capture";
  auto lim = limits[ ( nl + extra ) % 3 ]; auto er = range( lim.first, lim.second, 1, 3, o ); endf::ReichMoore p; p.spi_ = spin; p.ap_ = ap; p.nlsc_ = nl + extra;
  auto free = allNumbers( spin, nl + extra ); std::vector< Data > data; std::vector< double > nodes; std::string t = mc::cat( "LRF=3 I=", spin, " NRO=", o.nro, " NAPS=", o.naps, " NLSC=", nl + extra, " APL=", apl ? 0.7 : 0. );
  std::vector< double > es = { 20.87, 6.67, 55., 36.1, 8., 9.5 }; const int stride = all ? 16 : 3; if ( all ) { es.clear(); for ( int i = 0; i < 4 * stride; ++i ) es.push_back( 3.3 + 1.7 * ( ( i * 37 ) % 64 ) ); } else if ( !o.nro || o.naps != 1 ) { es[ 1 ] = -4.2; es[ 4 ] = -1e3; }   // bound levels
  for ( int l = 0; l < nl; ++l ) {
    auto rad = radiiOf( o, awri, apl ? 0.7 + 0.1 * l : ap ); short parity = l % 2 ? -1 : 1;
    // the signed J in the file: every one the couplings allow, negative where two channel spins are possible
    std::vector< double > js; std::map< double, int > count; for ( auto& q : allNumbers( spin, l + 1 ) ) if ( (int) q.l == l ) ++count[ q.J ];
    for ( auto& q : count ) { js.push_back( q.first ); if ( q.second > 1 && q.first > 0 ) js.push_back( -q.first ); }
    int n = all ? x.choose( 2 ) * js.size() : x.choose( l == 0 || !x.thorough ? 3 : 4 ), fission = n ? x.choose( l == 0 ? 4 : 2 ) : 0; std::vector< endf::ReichMooreLValue::Resonance< njoy::ENDFtk::section::Parts151::Owned > > v;
    std::map< double, std::vector< int > > byJ; std::vector< double > J( n ), gn( n ), gg( n ), ga( n ), gb( n );
    for ( int i = 0; i < n; ++i ) { J[ i ] = js[ all ? i : x.choose( js.size() ) ]; byJ[ J[ i ] ].push_back( i ); }
    if ( fission ) for ( auto& q : byJ ) if ( q.first > 0 && byJ.count( -q.first ) ) fission = 0;   // the fission channels of J and -J cannot be told apart
    for ( int i = 0; i < n; ++i ) { gn[ i ] = ( i % 2 ? -1. : 1. ) * 1e-3 * std::pow( 1e-3, l ) * ( i + 1 ); gg[ i ] = 0.03 + 0.01 * i; ga[ i ] = fission & 1 ? ( i == 1 ? -0.02 : 0.05 ) : 0.; gb[ i ] = fission & 2 ? ( i == 0 ? -0.01 : 0.02 ) : 0.;
      v.push_back( { es[ stride * l + i ], J[ i ], gn[ i ], gg[ i ], ga[ i ], gb[ i ] } ); nodes.push_back( es[ stride * l + i ] ); t += mc::cat( " [l=", l, " J=", J[ i ], " E=", es[ stride * l + i ], " n=", gn[ i ], " g=", gg[ i ], " fa=", ga[ i ], " fb=", gb[ i ], "]" ); }
    p.l_.emplace_back( awri, apl ? 0.7 + 0.1 * l : 0., l, v );
    for ( auto& q : byJ ) {   // in increasing J
      Numbers num; if ( !take( free, l, q.first, num ) ) { x.fail( "model", t ); return; }
      Data el{ { NEUTRON, in, in, 0., (unsigned) l, num.s, num.J, parity, rad.P, rad.P, rad.phi, 0., "", &radiusTable }, {}, {}, false };
      Data ca{ { PHOTON, in, cap, 0., (unsigned) l, 0., num.J, parity, rad.P, rad.P, rad.phi, 0., "" }, {}, {}, true }, f1 = ca, f2 = ca; f1.eliminated = f2.eliminated = false; f1.channel.kind = f2.channel.kind = FISSION; f1.channel.out = f2.channel.out = fis; f1.channel.id = "fission1"; f2.channel.id = "fission2";
      for ( int i : q.second ) { double e = es[ stride * l + i ]; for ( auto* d : { &el, &ca, &f1, &f2 } ) d->energies.push_back( e );
        el.widths.push_back( reduced( gn[ i ], el.channel.at( e ).P ) ); ca.widths.push_back( reduced( gg[ i ], 1 ) ); f1.widths.push_back( reduced( ga[ i ], 1 ) ); f2.widths.push_back( reduced( gb[ i ], 1 ) ); }
      data.push_back( el ); data.push_back( ca ); if ( fission & 1 ) data.push_back( f1 ); if ( fission & 2 ) data.push_back( f2 );
    }
  }
  for ( auto& n : free ) {   // the rest of what potential scattering needs: an l of the file has its own radius
    auto rad = radiiOf( o, awri, apl && (int) n.l < nl ? 0.7 + 0.1 * n.l : ap );
    data.push_back( { { NEUTRON, in, in, 0., n.l, n.s, n.J, (short)( n.l % 2 ? -1 : 1 ), rad.P, rad.P, rad.phi, 0., "", &radiusTable }, {}, {}, false } );
  }
  auto groups = assemble( data ); er.parameters_ = p;
  auto at = resolvedAt; if ( all ) for ( double e : nodes ) { at.push_back( e ); at.push_back( e + 0.01 ); }
  compare( x, er, "U235", 2, at, nodes, [&]( double e, Values& want, real& rel, real& abs ) { bool valid; evaluateGroups( groups, e, true, want, rel, abs, valid ); return valid; }, t );
}

// widths of very different sizes among the resonances of one l
static double small( int i ) { return i % 5 == 1 ? 1e-3 : i % 7 == 3 ? 1e-5 : 1.; }
static void reichMooreMany( mc::Explorer& x ) {
  ManyOrder o = manyOrder( x ); int apl = x.choose( 2 ), fission = x.choose( 4 ), swap = x.choose( 2 ); x.shard();
  double awri = 236.0, ap = 0.93; PairModel in{ mn, awri * mn, 0, 0, 0.5, o.spin, "n", "U235", "" }, fis = in, cap = in; fis.id = "fission"; cap.id = "capture";
  int nl = o.l + 1, extra = o.order % 2; auto er = range( 1e-5, 2e7, 1, 3, o.radius ); endf::ReichMoore p; p.spi_ = o.spin; p.ap_ = ap; p.nlsc_ = nl + extra;
  auto free = allNumbers( o.spin, nl + extra ); std::vector< Data > data; std::vector< double > nodes;
  for ( int l = 0; l < nl; ++l ) {
    auto rad = radiiOf( o.radius, awri, apl ? 0.7 + 0.1 * l : ap ); short parity = l % 2 ? -1 : 1;
    // every J the couplings allow; of those two channel spins give, the negative one for one spin in two if there is no fission
    std::vector< double > js; std::map< double, int > count; for ( auto& q : allNumbers( o.spin, l + 1 ) ) if ( (int) q.l == l ) ++count[ q.J ];
    for ( auto& q : count ) { bool two = q.second > 1 && q.first > 0; if ( !two || !fission || swap ) js.push_back( q.first ); if ( two && ( !fission || !swap ) ) js.push_back( -q.first ); }
    if ( swap ) std::reverse( js.begin(), js.end() );
    std::vector< endf::ReichMooreLValue::Resonance< njoy::ENDFtk::section::Parts151::Owned > > v; struct Row { double e, n, g, a, b; }; std::map< double, std::vector< Row > > byJ;
    for ( int i = 0; i < ( l == o.l || o.below ? o.count : 0 ); ++i ) {
      double J = js[ turn( o, i, js.size() ) ]; Row r{ place( o, i, l, !o.radius.nro || o.radius.naps != 1 ), ( i % 2 ? -1. : 1. ) * 1e-3 * std::pow( 1e-3, l ) * ( 1 + i % 5 ), 0.03 + 0.01 * ( i % 7 ), fission & 1 ? small( i ) * ( i % 3 == 1 ? -0.02 : 0.05 ) : 0., fission & 2 ? small( i + 2 ) * ( i % 4 == 0 ? -0.01 : 0.02 ) : 0. };
      v.push_back( { r.e, J, r.n, r.g, r.a, r.b } ); nodes.push_back( r.e ); byJ[ J ].push_back( r );
    }
    p.l_.emplace_back( awri, apl ? 0.7 + 0.1 * l : 0., l, v );
    for ( auto& q : byJ ) {
      Numbers num; if ( !take( free, l, q.first, num ) ) { x.fail( "model", manyText( 3, o ) ); return; }
      Data el{ { NEUTRON, in, in, 0., (unsigned) l, num.s, num.J, parity, rad.P, rad.P, rad.phi, 0., "", &radiusTable }, {}, {}, false };
      Data ca{ { PHOTON, in, cap, 0., (unsigned) l, 0., num.J, parity, rad.P, rad.P, rad.phi, 0., "" }, {}, {}, true }, f1 = ca, f2 = ca; f1.eliminated = f2.eliminated = false; f1.channel.kind = f2.channel.kind = FISSION; f1.channel.out = f2.channel.out = fis; f1.channel.id = "fission1"; f2.channel.id = "fission2";
      for ( auto& r : q.second ) { for ( auto* d : { &el, &ca, &f1, &f2 } ) d->energies.push_back( r.e ); el.widths.push_back( reduced( r.n, el.channel.at( r.e ).P ) ); ca.widths.push_back( reduced( r.g, 1 ) ); f1.widths.push_back( reduced( r.a, 1 ) ); f2.widths.push_back( reduced( r.b, 1 ) ); }
      data.push_back( el ); data.push_back( ca ); if ( fission & 1 ) data.push_back( f1 ); if ( fission & 2 ) data.push_back( f2 );
    }
  }
  for ( auto& n : free ) {
    auto rad = radiiOf( o.radius, awri, apl && (int) n.l < nl ? 0.7 + 0.1 * n.l : ap );
    data.push_back( { { NEUTRON, in, in, 0., n.l, n.s, n.J, (short)( n.l % 2 ? -1 : 1 ), rad.P, rad.P, rad.phi, 0., "", &radiusTable }, {}, {}, false } );
  }
  auto groups = assemble( data ); er.parameters_ = p; auto at = resolvedAt; if ( o.count < 20 ) for ( double e : nodes ) { at.push_back( e ); at.push_back( e + 0.01 ); }
  compare( x, er, "U235", 2, at, nodes, [&]( double e, Values& want, real& rel, real& abs ) { bool valid; if ( e < 0 ) return false; evaluateGroups( groups, e, true, want, rel, abs, valid ); return valid; }, manyText( 3, o ) + mc::cat( " APL=", apl, " fission ", fission, swap ? " swapped" : "" ) );
}
MC_BODY( "C27", "reich-moore" ) { reichMoore( x, false ); }
MC_BODY( "C27", "reich-moore-all-j" ) { reichMoore( x, true ); }
MC_BODY( "C27", "many-reich-moore" ) { reichMooreMany( x ); }

// --- R-matrix limited ----------------------------------------------------------------------------
struct EndfPair { double ma, mb, za, zb, ia, ib, q; int mt; const char *a, *b, *id; Kind kind; };
static const std::vector< EndfPair > pairCatalogue = {
  { 1., 34.66845, 0, 17, 0.5, 1.5, 0., 2, "n", "Cl35", "", NEUTRON },
  { 0., 35.65932, 0, 17, 1., 2., 0., 102, "g", "Cl36", "", PHOTON },
  { 0.99862, 34.66863, 1, 16, 0.5, 1.5, 6.1522e5, 600, "p", "S35", "", CHARGED },
  { 1., 34.66845, 0, 17, 0.5, 0.5, -3e3, 51, "n", "Cl35_e1", "", NEUTRON },
  { 0., 1., 0, 0, 0., 0., 0., 18, "n", "Cl35", "fission", FISSION },
  { 3.96713, 31.7023, 2, 15, 0., 1., 9.38e5, 800, "he4", "P32", "", CHARGED } };
static PairModel pairModel( const EndfPair& p ) { return { p.ma * mn, p.mb * mn, p.za, p.zb, p.ia, p.ib, p.a, p.b, p.id }; }
struct EndfChannel { int pair; unsigned l; double s, bnd, ape, apt; };
static const std::vector< EndfChannel > channelCatalogue = {
  { 0, 0, 1., 0.2, 0.48, 0.46 }, { 0, 2, 2., 0., 0.49, 0.44 }, { 1, 0, 0., 0., 0.5, 0.5 }, { 2, 0, 1., 0.1, 0.36, 0.42 }, { 3, 0, 1., 0., 0.5, 0.45 }, { 4, 0, 0., 0., 0.5, 0.5 }, { 5, 1, 0., 0., 0.5, 0.47 } };
static void limited( mc::Explorer& x, const std::vector< int >& order, const std::vector< std::vector< int > >& chosen, int pattern, int ifg, unsigned shf, int jkind, const std::string& text0 ) {
  // shf: a bit per pair of the catalogue
  // order: the pairs of the file; chosen: the channels of every spin group
  endf::RMatrixLimited p; p.ifg = ifg; p.krm = 3; std::map< int, int > number; std::string t = text0 + mc::cat( " IFG=", ifg, " pairs" );
  for ( int i : order ) { auto& q = pairCatalogue[ i ]; p.pairs_.add( q.ma, q.mb, q.za, q.zb, q.ia, q.ib, q.q, 1, shf >> i & 1, q.mt, 1., 1. ); number[ i ] = number.size() + 1; t += mc::cat( " ", q.mt, shf >> i & 1 ? "(shift)" : "" ); }
  static const std::vector< double > es = { 500., 19.9, 2e4, 6.67, 55., -30., 36.1, 700., 1e4 };
  PairModel in = pairModel( pairCatalogue[ 0 ] ); std::vector< Data > data; std::vector< double > nodes; int g = 0;
  for ( auto& list : chosen ) {
    double J = jkind == 0 ? 2. - g : g; short parity = jkind == 2 ? -1 : 1;
    endf::RMatrixLimited::SpinGroup s; s.channels_.aj = J == 0 ? 0. : parity * J; s.channels_.pj = J == 0 ? parity : 0.; int n = pattern % 4; std::vector< Data > here; t += mc::cat( " group J=", J, " parity ", parity, " channels" );
    for ( int c : list ) {
      auto& q = channelCatalogue[ c ]; s.channels_.add( number[ q.pair ], q.l, q.s, q.bnd, q.ape, q.apt ); t += mc::cat( " ", pairCatalogue[ q.pair ].mt, "(", q.l, ",", q.s, ")" );
      here.push_back( { { pairCatalogue[ q.pair ].kind, in, pairModel( pairCatalogue[ q.pair ] ), pairCatalogue[ q.pair ].q, q.l, q.s, J, parity, q.apt, q.apt, q.ape, q.bnd, "" }, {}, {}, pairCatalogue[ q.pair ].mt == 102 } );
      here.back().channel.noShift = !( shf >> q.pair & 1 );
    }
    for ( int i = 0; i < n; ++i ) {
      double e = es[ 3 * ( g % 3 ) + i ]; std::vector< double > w; s.parameters_.er.push_back( e );
      for ( std::size_t k = 0; k < list.size(); ++k ) {
        double v = ifg ? 2. / ( 1 + k ) : 0.05 * ( 1 + k ); if ( here[ k ].eliminated ) v = 0.1; if ( ( pattern / 4 ) % 3 == 1 && ( k + i ) % 2 ) v = -v; if ( ( pattern / 4 ) % 3 == 2 && k % 2 ) v = 0.;
        w.push_back( v ); if ( v != 0. ) { here[ k ].energies.push_back( e ); here[ k ].widths.push_back( ifg ? v : reduced( v, here[ k ].channel.at( e ).P ) ); }
      }
      s.parameters_.gam.push_back( w ); nodes.push_back( e );
    }
    if ( ( pattern / 4 ) % 3 == 2 ) nodes.clear();   // a resonance without widths need not be in the grid
    for ( auto& d : here ) if ( !d.energies.empty() || d.channel.incident() ) data.push_back( d );
    p.groups_.push_back( s ); ++g;
  }
  t += mc::cat( " pattern ", pattern );
  auto er = range( 1e-4, 2e7, 1, 7, { 0, 1 } ); er.parameters_ = p; auto groups = assemble( data );
  static const std::vector< double > at = { 1e-3, 6.6, 19.95, 36., 499., 510., 2.9e3, 3.2e3, 2.1e4, 9e4, 9.1e5, 3.3e6, 1.7e7 };
  // known finding: with other flags for other particles, all channels are treated as the elastic ones
  bool mixed = false; for ( auto& g : groups ) for ( auto& ch : g.channels ) mixed = mixed || ( ch.noShift == ( shf & 1 ) && ( ch.kind == NEUTRON || ch.kind == CHARGED ) );
  compare( x, er, "Cl35", shf & 1 ? 3 : 2, at, nodes, [&]( double e, Values& want, real& rel, real& abs ) {
    auto gs = groups; if ( !endfQ ) for ( auto& g : gs ) for ( auto& ch : g.channels ) ch.noShift = !( shf & 1 );
    bool valid; evaluateGroups( gs, e, false, want, rel, abs, valid ); return valid; }, t, mixed, "shift-flag", "C27-K2" );
}
// shift factor flags: none, all, particles only, photons and fission only, elastic only
static const unsigned flagSets[] = { 0, 63, 1 + 4 + 8 + 32, 2 + 16, 1 };
// the pairs the channels use, plus one no channel uses, in an order of choice
static std::vector< int > pairOrder( mc::Explorer& x, const std::vector< std::vector< int > >& chosen, bool unused ) {
  std::set< int > need{ 0 }; for ( auto& l : chosen ) for ( int c : l ) need.insert( channelCatalogue[ c ].pair );
  if ( unused ) for ( int i = 1; i < 6; ++i ) if ( !need.count( i ) ) { need.insert( i ); break; }
  std::vector< int > v( need.begin(), need.end() ); int r = x.choose( 2 * v.size() ); if ( r >= (int) v.size() ) std::reverse( v.begin(), v.end() ); std::rotate( v.begin(), v.begin() + r % v.size(), v.end() ); return v;
}
MC_BODY( "C27", "limited-channels" ) {   // one group, every ordered selection of channels
  int n = 1 + x.choose( x.thorough ? 4 : 3 ); std::vector< int > free{ 0, 1, 2, 3, 4, 5, 6 }, sel; bool incident = false;
  for ( int i = 0; i < n; ++i ) { int k = x.choose( free.size() ); sel.push_back( free[ k ] ); incident = incident || free[ k ] < 2; free.erase( free.begin() + k ); }
  if ( !incident ) throw mc::Prune();
  x.shard();
  int unused = x.choose( 2 ); auto order = pairOrder( x, { sel }, unused ); int ifg = x.choose( 2 ), shf = x.choose( 4 ), pattern = x.choose( 2 ) ? 2 + 4 * ifg : 3 + 4 * ( 2 - shf % 2 );
  limited( x, order, { sel }, pattern, ifg, flagSets[ shf ], 0, "" );
}
MC_BODY( "C27", "limited-widths" ) {   // widths, spins and several groups
  static const std::vector< std::vector< std::vector< int > > > files = { { { 2, 0 } }, { { 0, 1, 2, 3 } }, { { 2, 0, 1 }, { 0, 2 } }, { { 2, 0, 1, 3, 4 }, { 2, 1, 6 }, { 0 } }, { { 0, 1, 2, 3, 4, 5, 6 } }, { { 2, 0, 5 }, { 5, 0, 2 } }, { { 0, 1 }, { 1, 3, 0, 4 } } };
  auto& f = files[ x.choose( files.size() ) ]; int pattern = x.choose( 12 ); x.shard(); auto order = pairOrder( x, f, x.choose( 2 ) );
  int ifg = x.choose( 2 ), shf = x.choose( 5 ), j = x.choose( 3 ); limited( x, order, f, pattern, ifg, flagSets[ shf ], j, mc::cat( "J kind ", j ) );
}
MC_BODY( "C27", "limited-refused" ) {   // no elastic pair, or another formalism
  int krm = x.choose( 7 ), shf = x.choose( 2 ), elastic = x.choose( 2 ); x.shard();
  if ( krm == 3 && elastic ) throw mc::Prune();
  endf::RMatrixLimited p; p.krm = krm; for ( int i : { 1, 2, 0 } ) if ( i || elastic ) { auto& q = pairCatalogue[ i ]; p.pairs_.add( q.ma, q.mb, q.za, q.zb, q.ia, q.ib, q.q, 1, shf, q.mt, 1., 1. ); }
  endf::RMatrixLimited::SpinGroup s; s.channels_.aj = 2.; s.channels_.add( 1, 0, 0., 0., 0.5, 0.5 ); s.channels_.add( 2, 0, 1., 0., 0.5, 0.5 ); s.parameters_.er = { 10. }; s.parameters_.gam = { { 0.1, 0.1 } }; p.groups_.push_back( s );
  auto er = range( 1e-4, 1e5, 1, 7, { 0, 1 } ); er.parameters_ = p; bool threw = false;
  try { rm::fromENDF( er, neutronMass(), charge(), rm::ParticleID( "n" ), rm::ParticleID( "Cl35" ) ); } catch ( ... ) { threw = true; }
  x.op(); x.check( threw, "refused", [&] { return mc::cat( "KRM ", krm, elastic ? "" : " without elastic pair", ": accepted" ); } );
}

// --- unresolved --------------------------------------------------------------------------------------
struct UrrCase { std::vector< UnresolvedModel > groups; std::vector< double > nodes; std::string t; unsigned lmax = 0; };
template < typename Fill > static void unresolved( mc::Explorer& x, int lrf, Fill fill ) {
  static const std::vector< double > targets = { 0., 2.5 }; static const std::vector< std::pair< double, double > > lims = { { 2e3, 3e4 }, { 149., 151. }, { 1e3, 1.2e3 }, { 2e5, 5e6 } };
  double spin = x.pick( targets ); RadiusOption o = x.pick( radiusOptions ); int nl = 1 + x.choose( 3 ); auto lim = x.pick( lims );
  x.shard();
  double awri = 236.006, ap = 0.93; PairModel in{ mn, awri * mn, 0, 0, 0.5, spin, "n", "U238", "" }; auto rad = radiiOf( o, awri, ap );
  auto er = range( lim.first, lim.second, 2, lrf, o ); UrrCase u; u.t = mc::cat( "LRU=2 LRF=", lrf, " I=", spin, " NRO=", o.nro, " NAPS=", o.naps, " range ", lim.first, " ", lim.second );
  std::vector< std::vector< UnresolvedModel > > byL;
  for ( int l = 0; l < nl; ++l ) {
    int nj = 1 + x.choose( l ? 2 : 1 + ( spin > 0 ) ); byL.emplace_back();
    for ( int j = 0; j < nj; ++j ) { double J = std::fabs( l + spin - 0.5 ) + j; byL.back().push_back( { { in, (unsigned) l, J, rad.P, rad.P, rad.phi, &radiusTable }, 1 + ( l + j ) % 2, 0, 0, {} } ); u.t += mc::cat( " (", l, ",", J, ")" ); }
    u.lmax = l;
  }
  fill( er, byL, lim, spin, ap, awri, u );
  for ( auto& l : byL ) for ( auto& g : l ) { u.groups.push_back( g ); for ( auto& r : g.resonances ) u.nodes.push_back( r.e ); }
  double a = lim.first, b = lim.second; std::vector< double > at = { a + 0.1 * ( b - a ), a + 0.5 * ( b - a ), b - 1e-6 * ( b - a ) }; for ( double n : u.nodes ) at.push_back( n );
  compare( x, er, "U238", 4, at, u.nodes, [&]( double e, Values& want, real& rel, real& abs ) {
    rel = 1e-9L; for ( auto& g : u.groups ) { real f; for ( auto& p : g.evaluate( e, f ) ) want[ p.first ] += p.second; abs += 1e-11L * f; }
    real pot = potential( u.groups[ 0 ].channel, u.lmax, e ); want[ elasticSymbol( in ) ] += pot; abs += 1e-12L * pot; return true; }, u.t );
}
MC_BODY( "C27", "unresolved-constant" ) {
  unresolved( x, 1, []( auto& er, auto& byL, auto lim, double spin, double ap, double awri, UrrCase& ) {
    endf::UnresolvedEnergyIndependent p; p.spi_ = spin; p.ap_ = ap;
    for ( auto& l : byL ) { endf::UnresolvedEnergyIndependent::LValue v; v.awri_ = awri; v.l_ = l[ 0 ].channel.l; int j = 0;
      for ( auto& g : l ) { double d = 20. - j, n = 1e-4 * ( 1 + j + v.l_ ), gg = 0.02 + 0.001 * v.l_; ++j; v.j_.push_back( { d, g.channel.J, (double) g.dn, n, gg } ); for ( double e : { lim.first, lim.second } ) g.resonances.push_back( { e, d, n, gg, 0., 0. } ); }
      p.l_.push_back( v ); }
    er.parameters_ = p; } );
}
MC_BODY( "C27", "unresolved-fission" ) {
  int points = x.choose( 3 ), muf = 1 + x.choose( 4 );
  unresolved( x, 1, [&]( auto& er, auto& byL, auto lim, double spin, double ap, double awri, UrrCase& ) {
    endf::UnresolvedEnergyDependentFissionWidths p; p.spi_ = spin; p.ap_ = ap; double a = lim.first, b = lim.second;
    p.es = points == 0 ? std::vector< double >{ a, b } : points == 1 ? std::vector< double >{ a, a + 0.3 * ( b - a ), b } : std::vector< double >{ 0.5 * a, a + 0.2 * ( b - a ), a + 0.4 * ( b - a ), 1.5 * b };
    for ( auto& l : byL ) { endf::UnresolvedEnergyDependentFissionWidths::LValue v; v.awri_ = awri; v.l_ = l[ 0 ].channel.l; int j = 0;
      for ( auto& g : l ) { endf::UnresolvedEnergyDependentFissionWidths::JValue q; q.d = 20. - j; q.aj = g.channel.J; q.amun = g.dn; q.gn0 = 1e-4 * ( 1 + j + v.l_ ); q.gg = 0.03; q.muf = 1 + ( muf + j ) % 4; ++j; g.df = q.muf;
        for ( std::size_t i = 0; i < p.es.size(); ++i ) { q.gf.push_back( 0.01 * ( 1 + i + v.l_ ) ); g.resonances.push_back( { p.es[ i ], q.d, q.gn0, q.gg, q.gf.back(), 0. } ); }
        v.j_.push_back( q ); }
      p.l_.push_back( v ); }
    er.parameters_ = p; } );
}
MC_BODY( "C27", "unresolved-dependent" ) {
  int points = x.choose( 3 ), fission = x.choose( 2 ), competition = x.choose( 2 );
  unresolved( x, 2, [&]( auto& er, auto& byL, auto lim, double spin, double ap, double awri, UrrCase& ) {
    endf::UnresolvedEnergyDependent p; p.spi_ = spin; p.ap_ = ap; double a = lim.first, b = lim.second;
    for ( auto& l : byL ) { endf::UnresolvedEnergyDependent::LValue v; v.awri_ = awri; v.l_ = l[ 0 ].channel.l; int j = 0;
      for ( auto& g : l ) { endf::UnresolvedEnergyDependent::JValue q; q.aj = g.channel.J; q.amun = g.dn; q.amug = 0; q.amuf = fission ? 1 + j : 0; q.amux = competition ? 1 + v.l_ % 2 : 0; g.df = (int) q.amuf; g.dx = (int) q.amux;
        q.es = points == 0 ? std::vector< double >{ a, b } : points == 1 ? std::vector< double >{ a, a + ( 0.3 + 0.1 * j ) * ( b - a ), b } : std::vector< double >{ 0.5 * a, a + 0.2 * ( b - a ), a + 0.4 * ( b - a ), 1.5 * b };
        for ( std::size_t i = 0; i < q.es.size(); ++i ) { q.d.push_back( 20. - j - i ); q.gx.push_back( competition ? 0.004 * ( i + 1 ) : 0. ); q.gn0.push_back( 1e-4 * ( 1 + j + i ) ); q.gg.push_back( 0.02 + 0.003 * i ); q.gf.push_back( fission ? 0.01 * ( 1 + i ) : 0. );
          g.resonances.push_back( { q.es[ i ], q.d[ i ], q.gn0[ i ], q.gg[ i ], q.gf[ i ], q.gx[ i ] } ); }
        v.j_.push_back( q ); ++j; }
      p.l_.push_back( v ); }
    er.parameters_ = p; } );
}
MC_BODY( "C27", "impossible-J" ) {   // a J that no coupling of l and the spins gives
  static const std::vector< double > targets = { 0., 0.5, 2.5 }; double spin = x.pick( targets ); int lrf = 1 + x.choose( 3 ), l = x.choose( 3 ); x.shard();
  std::set< double > possible; for ( auto& n : allNumbers( spin, l + 1 ) ) if ( (int) n.l == l ) possible.insert( n.J );
  double J = 0.5 * x.choose( 16 ) * ( x.choose( 2 ) ? 1. : -1. ); auto er = range( 1e-5, 1e3, 1, lrf, { 0, 1 } ); bool ok = possible.count( std::fabs( J ) ), threw = false;
  auto fill = [&]( auto p ) { p.spi_ = spin; p.ap_ = 0.9; for ( int i = 0; i <= l; ++i ) p.l_.emplace_back( 100., 0., i, 0, std::vector< endf::BreitWignerLValue::Resonance< njoy::ENDFtk::section::Parts151::Owned > >( i == l ? 1 : 0, { 10., J, 0.3, 0.1, 0.2, 0. } ) ); er.parameters_ = p; };
  if ( lrf == 1 ) fill( endf::SingleLevelBreitWigner{} ); else if ( lrf == 2 ) fill( endf::MultiLevelBreitWigner{} );
  else { endf::ReichMoore p; p.spi_ = spin; p.ap_ = 0.9; p.nlsc_ = l + 1; for ( int i = 0; i <= l; ++i ) p.l_.emplace_back( 100., 0., i, std::vector< endf::ReichMooreLValue::Resonance< njoy::ENDFtk::section::Parts151::Owned > >( i == l ? 1 : 0, { 10., J, 0.1, 0.2, 0., 0. } ) ); er.parameters_ = p; }
  try { rm::fromENDF( er, neutronMass(), charge(), rm::ParticleID( "n" ), rm::ParticleID( "U238" ) ); } catch ( ... ) { threw = true; }
  x.op(); x.check( threw == !ok, ok ? "possible-J-accepted" : "impossible-J-refused", [&] { return mc::cat( "LRF ", lrf, " I=", spin, " l=", l, " J=", J, threw ? ": refused" : ": accepted" ); } );
}
// --- what is refused -----------------------------------------------------------------------------
MC_BODY( "C27", "refused" ) {   // types and representations that are not supported, or that do not belong to the parameters
  int lru = x.choose( 5 ), lrf = x.choose( 9 ); x.shard(); int alternative = x.choose( 8 );
  auto er = range( 1e-5, 1e3, lru, lrf, { 0, 1 } );
  bool fits = ( lru == 1 && ( ( alternative == lrf && lrf <= 3 && lrf >= 1 ) || ( lrf == 7 && alternative == 4 ) ) ) || ( lru == 2 && alternative >= 5 );
  if ( fits ) throw mc::Prune();
  switch ( alternative ) { case 1: er.parameters_ = endf::SingleLevelBreitWigner{}; break; case 2: er.parameters_ = endf::MultiLevelBreitWigner{}; break; case 3: er.parameters_ = endf::ReichMoore{}; break; case 4: er.parameters_ = endf::RMatrixLimited{}; break;
    case 5: er.parameters_ = endf::UnresolvedEnergyIndependent{}; break; case 6: er.parameters_ = endf::UnresolvedEnergyDependentFissionWidths{}; break; case 7: er.parameters_ = endf::UnresolvedEnergyDependent{}; break; default: break; }
  bool threw = false; mc::note( mc::cat( "LRU ", lru, " LRF ", lrf, " with parameters of kind ", alternative ) );
  try { rm::fromENDF( er, neutronMass(), charge(), rm::ParticleID( "n" ), rm::ParticleID( "U238" ) ); } catch ( ... ) { threw = true; }
  x.op(); x.check( threw, "refused", [&] { return mc::cat( "LRU ", lru, " LRF ", lrf, " with parameters of kind ", alternative, ": accepted" ); } );
}
int main( int argc, char** argv ) { return mc::mainLoop( argc, argv ); }
