// C19 C20: building spin groups and compound systems from channel data; what the constructors accept
#include "rmgroup.hpp"

static const PairModel nTarget{ 1.008664, 34.66845, 0, 17, 0.5, 1.5, "n", "Cl35", "" };
static const PairModel nOther{ 1.008664, 55.4, 0, 26, 0.5, 0., "n", "Fe56", "" };
static const PairModel fOut{ 0., 0., 0, 0, 0., 0., "fission", "fission", "fission" };
static const PairModel gOut{ 0., 35.968, 0, 17, 1., 2., "g", "Cl36", "" };
static ChannelModel elastic( unsigned l, double s, double J, short p ) { return { NEUTRON, nTarget, nTarget, 0., l, s, J, p, 0.48, 0.5, 0.36, 0., "" }; }
static ChannelModel fission( int i, double J, short p ) { return { FISSION, nTarget, fOut, 0., 0, 0., J, p, 0.5, 0.5, 0.5, 0., "fission" + std::to_string( i ) }; }
static ChannelModel capture( double J, short p ) { return { PHOTON, nTarget, gOut, 0., 0, 1., J, p, 0.5, 0.5, 0.5, 0., "" }; }

struct DataModel { ChannelModel channel; std::vector< double > energies, widths; bool eliminated;
  rm::ParticleChannelData make() const {
    std::vector< Energy > e; std::vector< ReducedWidth > w;
    for ( double v : energies ) e.push_back( eV( v ) ); for ( double v : widths ) w.push_back( rootEV( v ) );
    if ( !eliminated ) return rm::ParticleChannelData( channel.make(), std::move( e ), std::move( w ) );
    return rm::ParticleChannelData( channel.make(), std::move( e ), std::move( w ), eliminated );
  }
};
// the spin group these channels stand for
static GroupModel combine( const std::vector< DataModel >& data ) {
  GroupModel g; std::set< double > energies;
  for ( auto& d : data ) { energies.insert( d.energies.begin(), d.energies.end() ); if ( !d.eliminated ) g.channels.push_back( d.channel ); }
  for ( double e : energies ) {
    ResonanceModel r{ e, {}, 0. };
    for ( auto& d : data ) {
      double w = 0.; for ( std::size_t i = 0; i < d.energies.size(); ++i ) if ( d.energies[ i ] == e ) w = d.widths[ i ];
      if ( d.eliminated ) r.eliminated = w; else r.widths.push_back( w );
    }
    g.resonances.push_back( r );
  }
  return g;
}
template < typename Group >
static void sameTable( mc::Explorer& x, const Group& group, const GroupModel& want ) {
  auto& t = group.resonanceTable();
  auto what = [&] {
    std::string s = "table with channels"; for ( auto&& id : t.channels() ) s += " " + id;
    for ( auto&& r : t.resonances() ) { s += mc::cat( " E=", r.energy().value, "[" ); for ( auto&& w : r.widths() ) s += mc::cat( w.value, " " ); s += mc::cat( "| ", r.eliminatedWidth().value, "]" ); }
    return s + ", expected " + want.text(); };
  bool ok = (std::size_t) t.numberChannels() == want.channels.size() && (std::size_t) t.numberResonances() == want.resonances.size();
  if ( ok ) {
    std::size_t i = 0; for ( auto&& id : t.channels() ) { ok = ok && id == want.channels[ i ].channelID(); ++i; }
    i = 0; for ( auto&& r : t.resonances() ) {
      auto& m = want.resonances[ i ]; ok = ok && sameBits( r.energy().value, m.energy ) && r.eliminatedWidth().value == m.eliminated; std::size_t k = 0;
      for ( auto&& w : r.widths() ) { ok = ok && k < m.widths.size() && w.value == m.widths[ k ]; ++k; } ok = ok && k == m.widths.size(); ++i;
    }
  }
  x.check( ok, "resonance-table", what );
  std::size_t i = 0; bool order = true; for ( auto&& id : group.channelIDs() ) { order = order && i < want.channels.size() && id == want.channels[ i ].channelID(); ++i; }
  x.check( order && i == want.channels.size(), "channels", what );
  // the same order for the reactions, then capture; the particle pair of the incident channels
  std::vector< std::string > reactions, expected, incident, expectedIncident; for ( auto&& id : group.reactionIDs() ) reactions.push_back( id.symbol() );
  for ( auto& c : want.channels ) { expected.push_back( c.reaction() ); if ( c.incident() ) expectedIncident.push_back( c.channelID() ); }
  expected.push_back( want.channels[ 0 ].inSymbol() + "->capture" );
  for ( auto&& c : group.incidentChannels() ) incident.push_back( std::visit( []( auto& ch ) { return std::string( ch.channelID() ); }, c ) );
  auto list = [&]( const std::vector< std::string >& v ) { std::string s; for ( auto& e : v ) s += " " + e; return s; };
  x.check( reactions == expected, "reactions", [&] { return list( reactions ) + ", expected" + list( expected ) + " in " + what(); } );
  x.check( incident == expectedIncident, "incident-channels", [&] { return list( incident ) + ", expected" + list( expectedIncident ) + " in " + what(); } );
  auto pair = group.incidentPair(); auto& in = want.channels[ 0 ].in;
  x.check( pair.pairID().symbol() == want.channels[ 0 ].inSymbol() && sameBits( pair.particle().mass().value, in.make().particle().mass().value ) && sameBits( pair.residual().mass().value, in.make().residual().mass().value ), "incident-pair", [&] { return pair.pairID().symbol() + " in " + what(); } );
}
static const std::vector< double > pool = { 20., -30., 500. };
static DataModel data( mc::Explorer& x, const ChannelModel& ch, int index, bool eliminated ) {
  DataModel d{ ch, {}, {}, eliminated };
  int mask = x.choose( 8 ); bool reverse = x.choose( mask & ( mask - 1 ) ? 2 : 1 );
  for ( int k = 0; k < 3; ++k ) { int i = reverse ? 2 - k : k; if ( mask & ( 1 << i ) ) { d.energies.push_back( pool[ i ] ); d.widths.push_back( ( ( index + i ) % 2 ? -1. : 1. ) * ( 0.1 + 0.3 * index + 0.07 * i ) ); } }
  return d;
}
MC_BODY( "C19", "spin-group" ) {
  int n = 1 + x.choose( 3 );
  static const std::vector< ChannelModel > chs = { elastic( 0, 1., 1., +1 ), fission( 1, 1., +1 ), elastic( 2, 1., 1., +1 ) };
  int elim = x.choose( n + 2 );   // position of the eliminated channel, or none
  x.shard();
  std::vector< DataModel > v;
  for ( int i = 0; i <= n; ++i ) { if ( elim == i ) v.push_back( data( x, capture( 1., +1 ), 7, true ) ); if ( i < n ) v.push_back( data( x, chs[ i ], i, false ) ); }
  std::vector< rm::ParticleChannelData > real_; for ( auto& d : v ) real_.push_back( d.make() );
  GroupModel want = combine( v );
  auto group = rm::SpinGroup< rm::ReichMoore, rm::ShiftFactor >( std::move( real_ ) ); x.op();
  if ( x.wantSample() ) x.sample( want.text() );
  sameTable( x, group, want );
  auto direct = want.make< rm::ShiftFactor >();
  for ( double e : { 1., 20., 600. } ) {
    auto m = want.evaluate( e, true ); if ( !m.valid ) continue;
    std::map< rm::ReactionID, CrossSection > a, b; group.evaluate( eV( e ), a ); direct.evaluate( eV( e ), b ); x.op( 2 );
    bool ok = a.size() == b.size(); for ( auto& p : a ) ok = ok && b.count( p.first ) && mc::close( p.second.value, b[ p.first ].value, 1e-11, 1e-12 * (double) m.factor );
    x.check( ok, "same-cross-sections", [&] { return mc::cat( want.text(), " E=", e, ": from channel data ", text( a ), "directly ", text( b ) ); } );
  }
}
// energies that differ in the last digits only are different resonances; the same ones are one
static const std::vector< double >& nearby() { static const std::vector< double > v = { 20., std::nextafter( 20., 30. ), 20. * ( 1 + 1e-12 ), 20. * ( 1 + 1e-7 ), 20.001, -20., -20. * ( 1 + 1e-9 ), 0., 1e-9 }; return v; }
MC_BODY( "C19", "close-energies" ) {
  static const std::vector< ChannelModel > chs = { elastic( 0, 1., 1., +1 ), elastic( 2, 1., 1., +1 ), fission( 1, 1., +1 ) };
  int n = 1 + x.choose( 3 ), elim = x.choose( n == 3 ? 2 : 3 );
  x.shard();
  std::vector< DataModel > v;
  for ( int i = 0; i < n; ++i ) {
    DataModel d{ i == 1 && elim == 1 ? capture( 1., +1 ) : chs[ i ], {}, {}, i == 1 && elim == 1 };
    int a = x.choose( 9 ), b = n < 3 || i == 2 ? x.choose( 9 ) : a;
    d.energies.push_back( nearby()[ a ] ); d.widths.push_back( 0.5 + i );
    if ( b != a ) { d.energies.push_back( nearby()[ b ] ); d.widths.push_back( -0.25 - i ); }
    v.push_back( d );
  }
  if ( elim == 2 ) { DataModel d{ capture( 1., +1 ), {}, {}, true }; d.energies.push_back( nearby()[ x.choose( 9 ) ] ); d.widths.push_back( 0.125 ); v.insert( v.begin(), d ); }
  std::vector< rm::ParticleChannelData > real_; for ( auto& d : v ) real_.push_back( d.make() );
  GroupModel want = combine( v );
  auto group = rm::SpinGroup< rm::ReichMoore, rm::ShiftFactor >( std::move( real_ ) ); x.op();
  sameTable( x, group, want );
}
// many resonances, listed in any order
MC_BODY( "C19", "many-resonances" ) {
  int n = x.choose( x.thorough ? 120 : 48 ) + 1; x.shard();
  int stride = x.choose( 5 ), offset = x.choose( 3 ), elim = x.choose( 2 );
  static const int primes[] = { 1, 7, 11, 13, 127 };
  if ( std::gcd( n, primes[ stride ] ) != 1 ) throw mc::Prune();
  std::vector< DataModel > v; static const std::vector< ChannelModel > chs = { elastic( 0, 1., 1., +1 ), elastic( 2, 1., 1., +1 ), capture( 1., +1 ) };
  for ( int c = 0; c < 2 + elim; ++c ) {
    DataModel d{ chs[ c ], {}, {}, c == 2 };
    for ( int k = 0; k < n; ++k ) { int i = ( k * primes[ stride ] + c ) % n; if ( c && ( i + offset ) % 3 == 0 ) continue; d.energies.push_back( -40. + 13.25 * i + ( c == 1 && i % 5 == 0 ? 1. : 0. ) ); d.widths.push_back( ( k % 2 ? -1 : 1 ) * ( 0.1 + 0.01 * i + c ) ); }
    v.push_back( d );
  }
  std::vector< rm::ParticleChannelData > real_; for ( auto& d : v ) real_.push_back( d.make() );
  auto group = rm::SpinGroup< rm::ReichMoore, rm::ShiftFactor >( std::move( real_ ) ); x.op();
  sameTable( x, group, combine( v ) );
}
// many channels, each with resonances of its own
MC_BODY( "C19", "many-channels" ) {
  static const std::vector< int > channels = { 4, 7, 11, 16 }, more = { 4, 5, 7, 8, 9, 11, 16, 17, 24, 33 }; int n = x.pick( x.thorough ? more : channels ), order = x.choose( 3 ), elim = x.choose( n + 2 ); x.shard();
  int pattern = x.choose( 4 ), nr = 1 + 4 * x.choose( 4 ); auto chs = largeChannels( n, 0, order ); std::vector< DataModel > v;
  for ( int i = 0; i <= n; ++i ) {
    if ( elim == i ) { DataModel d{ capture( 1., +1 ), {}, {}, true }; for ( int k = 0; k < nr; ++k ) if ( pattern != 1 || k % 2 ) { d.energies.push_back( -20. + 11. * k ); d.widths.push_back( 0.05 + 0.01 * k ); } v.push_back( d ); }
    if ( i == n ) break;
    DataModel d{ chs[ i ], {}, {}, false };   // the same energies for all, every other one, those of its own, none for some
    for ( int k = 0; k < nr; ++k ) { if ( ( pattern == 1 && ( i + k ) % 2 ) || ( pattern == 3 && i % 3 == 1 ) ) continue; d.energies.push_back( -20. + 11. * ( k % 2 ? nr - k : k ) + ( pattern == 2 ? 0.5 * i : 0. ) + ( k % 2 ? 5. : 0. ) ); d.widths.push_back( ( k % 2 ? -1. : 1. ) * ( 0.1 + 0.3 * i + 0.07 * k ) ); }
    v.push_back( d );
  }
  std::vector< rm::ParticleChannelData > real_; for ( auto& d : v ) real_.push_back( d.make() );
  auto group = rm::SpinGroup< rm::ReichMoore, rm::ShiftFactor >( std::move( real_ ) ); x.op();
  sameTable( x, group, combine( v ) );
}
// many spin groups, their channels mixed
MC_BODY( "C19", "many-groups" ) {
  int n = 1 + x.choose( x.thorough ? 30 : 16 ), order = x.choose( 4 ), capturing = x.choose( 3 ); x.shard(); std::vector< DataModel > list;
  for ( int i = 0; i < n; ++i ) {
    double J = i / 2; short p = i % 2 ? -1 : +1; unsigned l = p > 0 ? 2 : 1; auto add = [&]( const ChannelModel& ch, int c, bool e ) { DataModel d{ ch, {}, {}, e }; for ( int k = 0; k < ( i + c ) % 3; ++k ) { d.energies.push_back( 10. + 7. * i + 3. * k ); d.widths.push_back( 0.1 + 0.01 * i + 0.3 * c + 0.05 * k ); } list.push_back( d ); };
    add( elastic( l, 1., J, p ), 1, false ); if ( i % 2 == 0 ) add( fission( 1, J, p ), 2, false ); if ( i % 3 == 0 ) add( elastic( l, 2., J, p ), 3, false ); if ( capturing == 2 || ( capturing == 1 && i % 2 ) ) add( capture( J, p ), 4, true );
  }
  std::vector< DataModel > mixed; int m = list.size(), stride = m % 5 ? 5 : m % 7 ? 7 : 11; for ( int i = 0; i < m; ++i ) mixed.push_back( list[ order == 0 ? i : order == 1 ? m - 1 - i : order == 2 ? ( i * stride ) % m : ( i + m / 2 ) % m ] );
  if ( order == 2 && m % stride == 0 ) throw mc::Prune();
  std::map< std::pair< double, short >, std::vector< DataModel > > byJpi; std::vector< rm::ParticleChannelData > real_; for ( auto& d : mixed ) { byJpi[ { d.channel.J, d.channel.parity } ].push_back( d ); real_.push_back( d.make() ); }
  rm::CompoundSystem< rm::ReichMoore, rm::ShiftFactor > system( std::move( real_ ) ); x.op(); auto it = byJpi.begin(); std::size_t k = 0;
  for ( auto&& g : system.spinGroups() ) { ++k; if ( it == byJpi.end() ) break; sameTable( x, g, combine( it->second ) ); ++it; }
  x.check( k == byJpi.size(), "one-group-per-Jpi", [&] { return mc::cat( n, " groups: ", k ); } );
}
// channels of several spin groups in any order
MC_BODY( "C19", "compound-system" ) {
  static const std::vector< ChannelModel > chs = { elastic( 0, 1., 1., +1 ), elastic( 1, 1., 1., -1 ), capture( 1., +1 ), fission( 1, 1., -1 ), elastic( 0, 2., 2., +1 ), elastic( 1, 1., 0., -1 ) };
  std::vector< int > free, perm; int n = 2 + x.choose( 5 );
  for ( int i = 0; i < n; ++i ) free.push_back( i );
  while ( !free.empty() ) { int k = x.choose( free.size() ); perm.push_back( free[ k ] ); free.erase( free.begin() + k ); }
  x.shard();
  std::map< std::pair< double, short >, std::vector< DataModel > > byJpi; std::vector< rm::ParticleChannelData > real_;
  int variant = x.choose( 3 );
  for ( int i : perm ) {
    DataModel d{ chs[ i ], {}, {}, i == 2 };
    for ( int k = 0; k < 3; ++k ) if ( ( i + k + variant ) % 3 || variant == 2 ) { d.energies.push_back( pool[ k ] + ( variant == 2 ? 0. : 3. * ( i % 2 ) ) ); d.widths.push_back( 0.2 + 0.1 * i - 0.35 * k ); }
    byJpi[ { d.channel.J, d.channel.parity } ].push_back( d ); real_.push_back( d.make() );
  }
  auto what = [&] { std::string s = "channels"; for ( int i : perm ) s += " " + chs[ i ].channelID(); return s; };
  bool threw = false; std::optional< rm::CompoundSystem< rm::ReichMoore, rm::ShiftFactor > > system;
  try { system.emplace( std::move( real_ ) ); } catch ( ... ) { threw = true; }
  x.op();
  bool valid = true; for ( auto& p : byJpi ) { bool incident = false; for ( auto& d : p.second ) incident = incident || ( !d.eliminated && d.channel.incident() ); valid = valid && incident; }
  if ( !x.check( threw == !valid, "accepted", what ) || threw ) return;
  auto it = byJpi.begin(); std::size_t k = 0;
  for ( auto&& g : system->spinGroups() ) {
    ++k; if ( it == byJpi.end() ) break;
    sameTable( x, g, combine( it->second ) ); ++it;
  }
  x.check( k == byJpi.size(), "one-group-per-Jpi", [&] { return mc::cat( what(), ": ", k, " groups, expected ", byJpi.size() ); } );
}
MC_BODY( "C19", "two-eliminated-refused" ) {
  x.shard();
  int n = 2 + x.choose( 3 ); std::vector< rm::ParticleChannelData > v; int eliminated = 0; std::vector< ChannelModel > chs = { elastic( 0, 1., 1., +1 ), capture( 1., +1 ), fission( 1, 1., +1 ), fission( 2, 1., +1 ) };
  for ( int i = 0; i < n; ++i ) { bool e = i > 0 && x.choose( 2 ); eliminated += e; v.push_back( DataModel{ chs[ i ], { 20. }, { 1. + i }, e }.make() ); }
  bool threw = false; try { rm::SpinGroup< rm::ReichMoore, rm::ShiftFactor > g( std::move( v ) ); } catch ( ... ) { threw = true; }
  x.op();
  x.check( threw == ( eliminated > 1 ), "at-most-one-eliminated", [&] { return mc::cat( n, " channels, ", eliminated, " eliminated: ", threw ? "refused" : "accepted" ); } );
}

// --- C20: validation ---------------------------------------------------------------------
static ChannelModel foreign( unsigned l, double s, double J, short p ) { auto c = elastic( l, s, J, p ); c.in = nOther; c.out = nOther; return c; }
MC_BODY( "C20", "spin-group" ) {
  static const std::vector< ChannelModel > cat = { elastic( 0, 1., 1., +1 ), elastic( 2, 1., 1., +1 ), fission( 1, 1., +1 ), fission( 2, 1., +1 ), elastic( 1, 1., 1., -1 ), elastic( 0, 2., 2., +1 ), foreign( 0, 1., 1., +1 ) };
  int n = x.choose( x.thorough ? 7 : 6 ); std::vector< ChannelModel > chs;
  for ( int i = 0; i < n; ++i ) chs.push_back( cat[ x.choose( cat.size() ) ] );
  x.shard();
  // the table: as it should be, one id replaced, two swapped, one missing, one extra
  std::vector< std::string > ids; for ( auto& c : chs ) ids.push_back( c.channelID() );
  int defect = x.choose( 5 ), where = x.choose( std::max( n, 1 ) ); bool tableOk = true;
  if ( defect == 1 ) { if ( !n ) throw mc::Prune(); ids[ where ] += "x"; tableOk = false; }
  if ( defect == 2 ) { if ( n < 2 ) throw mc::Prune(); std::swap( ids[ where ], ids[ ( where + 1 ) % n ] ); tableOk = ids[ where ] == ids[ ( where + 1 ) % n ]; }
  if ( defect == 3 ) { if ( !n ) throw mc::Prune(); ids.erase( ids.begin() + where ); tableOk = false; }
  if ( defect == 4 ) { ids.insert( ids.begin() + where, "extra" ); tableOk = false; }
  int nr = x.choose( 3 );
  bool ok = n > 0 && tableOk;
  if ( n ) {
    bool incident = false; std::set< std::string > seen;
    for ( auto& c : chs ) { ok = ok && c.inSymbol() == chs[ 0 ].inSymbol() && c.J == chs[ 0 ].J && c.parity == chs[ 0 ].parity && seen.insert( c.channelID() ).second; incident = incident || c.incident(); }
    ok = ok && incident;
  }
  auto what = [&] { std::string s = "channels"; for ( auto& c : chs ) s += " " + c.channelID() + "[" + c.inSymbol() + "]"; s += " table"; for ( auto& i : ids ) s += " " + i; return s; };
  mc::note( what() );
  bool threw = false;
  try {
    std::vector< rm::ParticleChannel > real_; for ( auto& c : chs ) real_.push_back( c.make() );
    std::vector< rm::Resonance > rs; for ( int i = 0; i < nr; ++i ) rs.emplace_back( eV( 10. + i ), std::vector< ReducedWidth >( ids.size(), rootEV( 1. ) ), rootEV( 0.1 ) );
    rm::ResonanceTable t( std::vector< std::string >( ids ), std::move( rs ) );
    rm::SpinGroup< rm::ReichMoore, rm::ShiftFactor > g( std::move( real_ ), std::move( t ) );
  }
  catch ( ... ) { threw = true; }
  x.op();
  x.count( ok ? "valid" : "invalid" );
  x.check( threw == !ok, ok ? "valid-accepted" : "invalid-refused", [&] { return what() + ( threw ? ": refused" : ": accepted" ); } );
}
// one defect anywhere in a large spin group, table or system
MC_BODY( "C20", "large" ) {
  static const std::vector< int > sizes = { 5, 8, 9, 16, 17, 20 }, more = { 5, 6, 7, 8, 9, 12, 16, 17, 20, 24, 32, 33, 40 }; int n = x.pick( x.thorough ? more : sizes ), defect = x.choose( 9 ), where = x.choose( n ); x.shard(); int second = x.choose( n );
  bool ok = true, threw = false; auto chs = largeChannels( n, 0, x.choose( 2 ) ); int nr = 7; std::vector< std::vector< double > > jpi;
  if ( second != 0 && defect != 1 && defect != 4 && defect != 7 ) throw mc::Prune();
  std::vector< std::string > ids; for ( auto& c : chs ) ids.push_back( c.channelID() );
  std::vector< int > widths( n, n ); std::vector< std::pair< double, short > > groups; for ( int i = 0; i < n; ++i ) groups.emplace_back( i / 2, i % 2 ? -1 : 1 );
  switch ( defect ) {
    case 0: break;
    case 1: if ( where == second ) throw mc::Prune(); chs[ where ] = chs[ second ]; ids[ where ] = ids[ second ]; ok = false; break;   // the same channel twice
    case 2: chs[ where ].J = 2.; ids[ where ] = chs[ where ].channelID(); ok = false; break;
    case 3: chs[ where ].parity = -1; ids[ where ] = chs[ where ].channelID(); ok = false; break;
    case 4: if ( where == second ) throw mc::Prune(); std::swap( ids[ where ], ids[ second ] ); ok = false; break;
    case 5: widths[ where ] += 1; ok = false; break;
    case 6: chs[ where ].in = nOther; ok = false; break;
    case 7: if ( where == second ) throw mc::Prune(); groups[ where ] = groups[ second ]; ok = false; break;
    case 8: for ( auto& c : chs ) if ( c.incident() ) { PairModel level = largeIn; level.b = "Cl35_x" + std::to_string( &c - &chs[ 0 ] ); c.out = level; c.q = -1e3; } for ( int i = 0; i < n; ++i ) ids[ i ] = chs[ i ].channelID(); ok = false; break;   // no incident channel
  }
  auto what = [&] { return mc::cat( n, " channels, defect ", defect, " at ", where, " and ", second, threw ? ": refused" : ": accepted" ); };
  try {
    if ( defect == 7 ) {
      std::vector< rm::SpinGroup< rm::ReichMoore, rm::ShiftFactor > > v; for ( int i = 0; i < n; ++i ) { GroupModel g; g.channels = { elastic( ( groups[ i ].second < 0 ) + 2 * ( i % 2 ), 1., groups[ i ].first, groups[ i ].second ) }; v.push_back( g.make< rm::ShiftFactor >() ); }
      rm::CompoundSystem< rm::ReichMoore, rm::ShiftFactor > s( std::move( v ) );
    }
    else {
      std::vector< rm::ParticleChannel > real_; for ( auto& c : chs ) real_.push_back( c.make() );
      std::vector< rm::Resonance > rs; for ( int i = 0; i < std::max( n, nr ); ++i ) rs.emplace_back( eV( 10. + i ), std::vector< ReducedWidth >( i < n ? widths[ i ] : n, rootEV( 1. ) ), rootEV( 0.1 ) );
      rm::ResonanceTable t( std::vector< std::string >( ids ), std::move( rs ) ); rm::SpinGroup< rm::ReichMoore, rm::ShiftFactor > g( std::move( real_ ), std::move( t ) );
    }
  } catch ( ... ) { threw = true; }
  x.op(); x.check( threw == !ok, ok ? "valid-accepted" : "invalid-refused", what );
}
MC_BODY( "C20", "resonance-table" ) {
  int channels = x.choose( 5 );
  x.shard();
  int nr = x.choose( 4 ); bool ok = true; std::vector< rm::Resonance > rs; std::string t;
  for ( int i = 0; i < nr; ++i ) { int w = x.choose( 6 ); ok = ok && w == channels; t += mc::cat( " ", w ); rs.emplace_back( eV( 1. + i ), std::vector< ReducedWidth >( w, rootEV( 1. ) ) ); }
  std::vector< std::string > ids; for ( int i = 0; i < channels; ++i ) ids.push_back( mc::cat( "c", i ) );
  bool threw = false; try { rm::ResonanceTable table( std::move( ids ), std::move( rs ) ); } catch ( ... ) { threw = true; }
  x.op();
  x.check( threw == !ok, ok ? "valid-accepted" : "invalid-refused", [&] { return mc::cat( channels, " channels, widths per resonance", t, threw ? ": refused" : ": accepted" ); } );
}
MC_BODY( "C20", "channel-data" ) {
  int a = x.choose( 8 ); x.shard(); int b = x.choose( 8 ); bool e = x.choose( 2 );
  bool threw = false; try { rm::ParticleChannelData d( elastic( 0, 1., 1., +1 ).make(), std::vector< Energy >( a, eV( 1. ) ), std::vector< ReducedWidth >( b, rootEV( 1. ) ), e ); } catch ( ... ) { threw = true; }
  x.op();
  x.check( threw == ( a != b ), "sizes", [&] { return mc::cat( a, " energies, ", b, " widths", threw ? ": refused" : ": accepted" ); } );
}
template < typename Option > static void systems( mc::Explorer& x ) {
  static const std::vector< std::pair< double, short > > jpi = { { 0., -1 }, { 1., -1 }, { 1., +1 }, { 2., +1 }, { 2., -1 } };
  int n = x.choose( x.thorough ? 7 : 6 ); std::vector< int > sel; for ( int i = 0; i < n; ++i ) sel.push_back( x.choose( jpi.size() ) );
  x.shard();
  std::set< int > distinct( sel.begin(), sel.end() ); bool ok = n > 0 && (int) distinct.size() == n;
  bool threw = false;
  try {
    std::vector< rm::SpinGroup< rm::ReichMoore, Option > > v;
    for ( int i = 0; i < n; ++i ) { GroupModel g; unsigned l = ( i % 2 ) * 2 + ( jpi[ sel[ i ] ].second < 0 ); g.channels = { elastic( l, 1., jpi[ sel[ i ] ].first, jpi[ sel[ i ] ].second ) }; v.push_back( g.make< Option >() ); }
    rm::CompoundSystem< rm::ReichMoore, Option > s( std::move( v ) );
  } catch ( ... ) { threw = true; }
  x.op();
  x.check( threw == !ok, ok ? "valid-accepted" : "invalid-refused", [&] { std::string s = "groups"; for ( int i : sel ) s += mc::cat( " ", jpi[ i ].first, jpi[ i ].second > 0 ? "+" : "-" ); return s + ( threw ? ": refused" : ": accepted" ); } );
}
MC_BODY( "C20", "compound-system" ) { if ( x.choose( 2 ) ) systems< rm::ShiftFactor >( x ); else systems< rm::Constant >( x ); }
MC_BODY( "C20", "particle" ) {
  static const std::vector< double > v = { -1e3, -1., -1e-12, -0., 0., 1e-12, 1., 235. };
  double m = x.pick( v ); x.shard(); double q = x.pick( v ); double s = 0.5 * x.choose( 8 ); short p = x.choose( 2 ) ? 1 : -1;
  bool ok = m >= 0 && q >= 0, threw = false;
  try {
    rm::Particle part( rm::ParticleID( "n" ), m * njoy::dimwits::dalton, q * njoy::dimwits::constant::elementaryCharge, s, p );
    x.check( part.mass().value == m && part.charge().value == q * njoy::dimwits::constant::elementaryCharge.value && part.spin() == s && part.parity() == p && part.particleID().symbol() == "n", "stored", [&] { return mc::cat( "mass ", m, " charge ", q ); } );
  } catch ( ... ) { threw = true; }
  x.op();
  x.check( threw == !ok, ok ? "valid-accepted" : "invalid-refused", [&] { return mc::cat( "mass ", m, " charge ", q, threw ? ": refused" : ": accepted" ); } );
}
int main( int argc, char** argv ) { return mc::mainLoop( argc, argv ); }
