// C30: objects give back what they were made of, copies and moves included. C31: arithmetic on sets of four quantities
#include "rmlegacy.hpp"
#include "rmgroup.hpp"

// an object made in one of several ways; "same" compares an object with what it was made of
//   0 as made, 1 a copy, 2 a copy whose original is gone, 3 moved, 4 assigned over another, 5 move assigned, 6 assigned to itself
static const char* const ways[] = { "as made", "copied", "copied, the original gone", "moved", "assigned", "move assigned", "assigned to itself" };
template < typename Make, typename Other, typename Same, typename Text >
static void kept( mc::Explorer& x, int way, Make make, Other other, Same same, Text text ) {
  using T = std::decay_t< decltype( make() ) >;
  auto what = [&] { return text() + " " + ways[ way ]; }; mc::note( what() );
  auto original = std::make_unique< T >( make() ); x.op();
  auto ok = [&]( const T& object ) { x.check( same( object ), "kept", what ); x.check( same( object ), "kept twice", what ); };
  switch ( way ) {
    case 0: ok( *original ); break;
    case 1: { T copy( *original ); ok( copy ); ok( *original ); break; }
    case 2: { T copy( *original ); original.reset(); ok( copy ); break; }
    case 3: { T moved( std::move( *original ) ); original.reset(); ok( moved ); break; }
    case 4: { T target( other() ); target = *original; ok( target ); ok( *original ); original.reset(); ok( target ); break; }
    case 5: { T target( other() ); target = std::move( *original ); original.reset(); ok( target ); break; }
    case 6: { T& self = *original; *original = self; ok( *original ); break; }
  }
}
static int way( mc::Explorer& x ) { return x.choose( 7 ); }

static auto charge( double z ) { return z * njoy::dimwits::constant::elementaryCharge; }
struct ParticleModel { const char* id; double mass, z, spin; int parity;
  rm::Particle make() const { return rm::Particle( rm::ParticleID( id ), mass * njoy::dimwits::dalton, charge( z ), spin, parity ); }
  bool same( const rm::Particle& p ) const { return p.particleID().symbol() == rm::ParticleID( id ).symbol() && sameBits( p.mass().value, mass ) && sameBits( p.charge().value, charge( z ).value ) && p.spin() == spin && p.parity() == parity; }
  std::string text() const { return mc::cat( id, " mass ", mass, " Z ", z, " spin ", spin, " parity ", parity ); }
};
static const std::vector< ParticleModel > small = { { "n", 1.008664, 0., 0.5, 1 }, { "p", 1.007276, 1., 0.5, 1 }, { "g", 0., 0., 1., -1 }, { "he4", 4.0015, 2., 0., 1 } }, large = { { "Cl35", 34.66845, 17., 1.5, 1 }, { "U235_e1", 235.04, 92., 3.5, -1 }, { "H1", 1.007825, 1., 0.5, 1 }, { "S35", 34.97, 16., 1.5, -1 } };
MC_BODY( "C30", "particle" ) {
  static const std::vector< const char* > ids = { "n", "p", "g", "he4", "Cl35", "U235", "U235_e1", "Am242_e2" }; static const std::vector< double > masses = { 0., 5.4857990907e-4, 1.00866491588, 235.0439299, 1e-300, 1e300 }, z = { 0., 1., 17., 92. };
  ParticleModel m{ x.pick( ids ), x.pick( masses ), x.pick( z ), 0., 1 }; x.shard(); m.spin = 0.5 * x.choose( 10 ); m.parity = x.choose( 2 ) ? 1 : -1; int w = way( x );
  kept( x, w, [&] { return m.make(); }, [&] { return small[ 1 ].make(); }, [&]( const rm::Particle& p ) { return m.same( p ); }, [&] { return m.text(); } );
}
struct PairOf { ParticleModel a, b; std::string id;
  rm::ParticlePair make() const { return id.empty() ? rm::ParticlePair( a.make(), b.make() ) : rm::ParticlePair( a.make(), b.make(), rm::ParticlePairID( id ) ); }
  std::string symbol() const { return id.empty() ? rm::ParticlePairID( rm::ParticleID( a.id ), rm::ParticleID( b.id ) ).symbol() : id; }
  bool same( const rm::ParticlePair& p ) const {
    return a.same( p.particle() ) && b.same( p.residual() ) && p.pairID().symbol() == symbol() && mc::close( p.massRatio(), (double)( (real) b.mass / ( (real) a.mass + b.mass ) ), 1e-14, 0. ) && mc::close( p.reducedMass().value, (double)( (real) a.mass * b.mass / ( (real) a.mass + b.mass ) ), 1e-14, 0. ); }
  std::string text() const { return a.text() + ", " + b.text() + " id " + symbol(); }
};
MC_BODY( "C30", "particle-pair" ) {
  static const std::vector< ParticleModel > all = [] { auto v = small; v.insert( v.end(), large.begin(), large.end() ); v.push_back( { "t", 1e-12, 0., 0., 1 } ); v.push_back( { "Cf252", 1e9, 98., 0., 1 } ); return v; }();
  PairOf m{ x.pick( all ), x.pick( all ), "" }; x.shard(); static const std::vector< std::string > ids = { "", "fission", "other" }; m.id = x.pick( ids ); int w = way( x );
  if ( m.a.mass + m.b.mass == 0. ) throw mc::Prune();
  kept( x, w, [&] { return m.make(); }, [&] { return PairOf{ small[ 1 ], large[ 3 ], "x" }.make(); }, [&]( const rm::ParticlePair& p ) { return m.same( p ); }, [&] { return m.text(); } );
}
struct ChannelOf { int kind; PairOf in, out; std::string id; double q; unsigned l; double s, J; short parity; int radii; bool boundary;
  rm::ChannelRadii makeRadii() const { return radii == 0 ? rm::ChannelRadii( rootB( 0.4 ) ) : radii == 1 ? rm::ChannelRadii( rootB( 0.4 ), rootB( 0.5 ) ) : rm::ChannelRadii( rootB( 0.4 ), rootB( 0.5 ), rootB( 0.6 ) ); }
  rm::ParticleChannel make() const {
    auto build = [&]( auto type ) -> rm::ParticleChannel { using C = rm::Channel< decltype( type ) >; rm::ChannelQuantumNumbers n( l, s, J, parity );
      if ( id.empty() ) return boundary ? C( in.make(), out.make(), eV( q ), n, makeRadii(), -1.25 ) : C( in.make(), out.make(), eV( q ), n, makeRadii() );
      return boundary ? C( in.make(), out.make(), id, eV( q ), n, makeRadii(), -1.25 ) : C( in.make(), out.make(), id, eV( q ), n, makeRadii() ); };
    switch ( kind ) { case NEUTRON: return build( rm::Neutron{} ); case PHOTON: return build( rm::Photon{} ); case CHARGED: return build( rm::ChargedParticle{} ); default: return build( rm::Fission{} ); }
  }
  std::string channelID() const { return ( id.empty() ? out.symbol() : id ) + rm::ChannelQuantumNumbers( l, s, J, parity ).toString(); }
  template < typename C > bool sameOne( const C& ch ) const {   // a channel, or the data of one
    auto n = ch.quantumNumbers(); auto r = ch.radii(); double e = 7.5;
    return std::string( ch.channelID() ) == channelID() && ch.reactionID().symbol() == in.symbol() + "->" + out.symbol() && in.same( ch.incidentParticlePair() ) && out.same( ch.particlePair() )
      && sameBits( ch.Q().value, q ) && n.orbitalAngularMomentum() == l && n.spin() == s && n.totalAngularMomentum() == J && n.parity() == parity && ch.boundaryCondition() == ( boundary ? -1.25 : 0. ) && ch.isIncidentChannel() == ( in.symbol() == out.symbol() )
      && r.penetrabilityRadius( eV( e ) ).value == 0.4 && r.shiftFactorRadius( eV( e ) ).value == ( radii == 2 ? 0.5 : 0.4 ) && r.phaseShiftRadius( eV( e ) ).value == ( radii == 0 ? 0.4 : radii == 1 ? 0.5 : 0.6 );
  }
  bool same( const rm::ParticleChannel& ch ) const {
    static const std::size_t index[] = { rm::ParticleChannel( std::in_place_type< rm::Channel< rm::Neutron > >, plain< rm::Neutron >() ).index(), rm::ParticleChannel( plain< rm::Photon >() ).index(), rm::ParticleChannel( plain< rm::ChargedParticle >() ).index(), rm::ParticleChannel( plain< rm::Fission >() ).index() };
    return ch.index() == index[ kind == NEUTRON ? 0 : kind == PHOTON ? 1 : kind == CHARGED ? 2 : 3 ] && std::visit( [&]( auto& c ) {
      double g = (double)( ( 2 * (real) J + 1 ) / ( 2 * (real) out.a.spin + 1 ) / ( 2 * (real) out.b.spin + 1 ) ); return sameOne( c ) && mc::close( c.statisticalSpinFactor(), g, 1e-14, 0. ); }, ch ); }
  template < typename T > static rm::Channel< T > plain() { PairOf p{ small[ 0 ], large[ 0 ], "" }; return rm::Channel< T >( p.make(), p.make(), eV( 3. ), rm::ChannelQuantumNumbers( 3, 0.5, 2.5, 1 ), rm::ChannelRadii( rootB( 9. ) ), 4. ); }
  std::string text() const { return mc::cat( "channel ", kind, " ", channelID(), " from ", in.symbol(), " Q ", q, " radii ", radii, " boundary ", boundary ); }
};
static ChannelOf channelOf( mc::Explorer& x, bool shard ) {
  static const std::vector< PairOf > ins = { { small[ 0 ], large[ 0 ], "" }, { small[ 1 ], large[ 3 ], "" } }, outs = { { small[ 0 ], large[ 0 ], "" }, { small[ 1 ], large[ 3 ], "" }, { small[ 3 ], large[ 2 ], "" }, { small[ 0 ], large[ 1 ], "fission" } };
  static const int kinds[] = { NEUTRON, PHOTON, CHARGED, FISSION }; static const std::vector< std::string > ids = { "", "fission1" }; static const std::vector< double > qs = { 0., -1234.5, 6.1522e5 };
  ChannelOf m{ kinds[ x.choose( 4 ) ], x.pick( ins ), x.pick( outs ), "", 0., 0, 0., 0., 1, 0, false }; if ( shard ) x.shard(); m.id = x.pick( ids ); m.q = x.pick( qs );
  switch ( x.choose( 3 ) ) { case 0: m.J = 0.5; m.s = 0.5; break; case 1: m.l = 2; m.s = 1.; m.J = 3.; m.parity = -1; break; default: m.l = 4; m.s = 3.5; m.J = 1.5; }
  m.radii = x.choose( 3 ); m.boundary = x.choose( 2 ); return m;
}
MC_BODY( "C30", "channel" ) {
  auto m = channelOf( x, true ); int w = way( x );
  kept( x, w, [&] { return m.make(); }, [&] { return rm::ParticleChannel( ChannelOf::plain< rm::Photon >() ); }, [&]( const rm::ParticleChannel& c ) { return m.same( c ); }, [&] { return m.text(); } );
}
static const std::vector< double > widthPool = { 0., -0.75, 2.5e-7, 13. }, energyPool = { 20., -30., 0., 2.5e6 };
struct ResonanceOf { double energy; std::vector< double > widths; double eliminated; bool withDefault;
  rm::Resonance make() const { std::vector< ReducedWidth > w; for ( double v : widths ) w.push_back( rootEV( v ) ); if ( withDefault ) return rm::Resonance( eV( energy ), std::move( w ) ); return rm::Resonance( eV( energy ), std::move( w ), rootEV( eliminated ) ); }
  bool same( const rm::Resonance& r ) const { std::size_t i = 0; bool ok = sameBits( r.energy().value, energy ) && r.eliminatedWidth().value == ( withDefault ? 0. : eliminated ); for ( auto&& v : r.widths() ) { ok = ok && i < widths.size() && sameBits( v.value, widths[ i ] ); ++i; } return ok && i == widths.size(); }
  std::string text() const { std::string t = mc::cat( "resonance ", energy, " widths" ); for ( double v : widths ) t += mc::cat( " ", v ); return t + ( withDefault ? "" : mc::cat( " eliminated ", eliminated ) ); }
};
MC_BODY( "C30", "resonance" ) {
  ResonanceOf m{ x.pick( energyPool ), {}, 0., false }; int n = x.choose( x.thorough ? 8 : 5 ); x.shard(); for ( int i = 0; i < n; ++i ) m.widths.push_back( x.pick( widthPool ) ); int e = x.choose( 4 ); m.withDefault = e == 0; m.eliminated = e == 1 ? 0. : e == 2 ? -0.3 : 0.7; int w = way( x );
  kept( x, w, [&] { return m.make(); }, [&] { return ResonanceOf{ 1., { 1. }, 1., false }.make(); }, [&]( const rm::Resonance& r ) { return m.same( r ); }, [&] { return m.text(); } );
}
// every list of resonance energies, in the order given
MC_BODY( "C30", "resonance-table" ) {
  int channels = x.choose( 4 ), n = x.choose( x.thorough ? 8 : 5 ); x.shard(); std::vector< std::string > ids; for ( int i = 0; i < channels; ++i ) ids.push_back( mc::cat( "channel", channels - i ) );
  std::vector< ResonanceOf > rs; for ( int i = 0; i < n; ++i ) { ResonanceOf r{ x.pick( energyPool ), {}, 0.1 * i, i == 2 }; for ( int k = 0; k < channels; ++k ) r.widths.push_back( 0.3 * k - 0.2 * i ); rs.push_back( r ); }
  int w = way( x );
  kept( x, w, [&] { std::vector< rm::Resonance > v; for ( auto& r : rs ) v.push_back( r.make() ); return rm::ResonanceTable( std::vector< rm::ChannelID >( ids.begin(), ids.end() ), std::move( v ) ); },
    [&] { return rm::ResonanceTable( { "a" }, { ResonanceOf{ 1., { 1. }, 1., false }.make() } ); },
    [&]( const rm::ResonanceTable& t ) {
      bool ok = (int) t.numberChannels() == channels && (int) t.numberResonances() == n; std::size_t i = 0; for ( auto&& id : t.channels() ) { ok = ok && i < ids.size() && std::string( id ) == ids[ i ]; ++i; } ok = ok && i == ids.size();
      i = 0; for ( auto&& r : t.resonances() ) { ok = ok && i < rs.size() && rs[ i ].same( r ); ++i; } ok = ok && i == rs.size(); i = 0; for ( auto&& e : t.energies() ) { ok = ok && i < rs.size() && sameBits( e.value, rs[ i ].energy ); ++i; } return ok && i == rs.size(); },
    [&] { std::string t = mc::cat( channels, " channels:" ); for ( auto& r : rs ) t += " " + r.text(); return t; } );
}
MC_BODY( "C30", "channel-data" ) {
  auto m = channelOf( x, true ); int n = x.choose( 4 ), eliminated = x.choose( 3 ), w = way( x ); std::vector< double > es, ws; for ( int i = 0; i < n; ++i ) { es.push_back( energyPool[ i ] ); ws.push_back( widthPool[ 3 - i ] ); }
  auto list = [&]( bool energy ) { std::vector< Energy > v; for ( double e : es ) v.push_back( eV( e ) ); return v; }; auto widthList = [&] { std::vector< ReducedWidth > v; for ( double e : ws ) v.push_back( rootEV( e ) ); return v; };
  kept( x, w, [&] { return eliminated == 0 ? rm::ParticleChannelData( m.make(), list( true ), widthList() ) : rm::ParticleChannelData( m.make(), list( true ), widthList(), eliminated == 2 ); },
    [&] { return rm::ParticleChannelData( ChannelOf::plain< rm::Photon >(), { eV( 1. ) }, { rootEV( 2. ) }, eliminated != 2 ); },
    [&]( const rm::ParticleChannelData& d ) {
      std::size_t i = 0; bool ok = m.same( d.channel() ) && m.sameOne( d ) && d.isEliminatedChannel() == ( eliminated == 2 ); for ( auto&& e : d.energies() ) { ok = ok && i < es.size() && sameBits( e.value, es[ i ] ); ++i; } ok = ok && i == es.size(); i = 0; for ( auto&& v : d.widths() ) { ok = ok && i < ws.size() && sameBits( v.value, ws[ i ] ); ++i; } return ok && i == ws.size(); },
    [&] { return m.text() + mc::cat( " ", n, " resonances, eliminated ", eliminated ); } );
}
// spin groups and systems: channels, tables and groups in the order given
static const PairModel nTarget{ 1.008664, 34.66845, 0, 17, 0.5, 1.5, "n", "Cl35", "" };
static GroupModel groupOf( int channels, int first, int resonances, double J, short parity ) {
  GroupModel g; static const PairModel level{ 1.008664, 34.66863, 0, 17, 0.5, 0.5, "n", "Cl35_e1", "" }, proton{ 1.007276, 34.97, 1, 16, 0.5, 1.5, "p", "S35", "" }, fission{ 0., 0., 0, 0, 0., 0., "fission", "fission", "fission" };
  std::vector< ChannelModel > all = { { NEUTRON, nTarget, nTarget, 0., 0, 1., J, parity, 0.48, 0.5, 0.36, 0.2, "" }, { NEUTRON, nTarget, level, -3e3, 1, 0., J, parity, 0.4, 0.4, 0.4, 0., "" }, { CHARGED, nTarget, proton, 6e5, 0, 2., J, parity, 0.4, 0.5, 0.4, 0., "" }, { FISSION, nTarget, fission, 0., 0, 0., J, parity, 0.4, 0.5, 0.4, 0., "fission1" }, { NEUTRON, nTarget, nTarget, 0., 2, 2., J, parity, 0.47, 0.5, 0.36, 0., "" } };
  bool incident = false; for ( int i = 0; i < channels; ++i ) { g.channels.push_back( all[ ( first + 2 * i ) % 5 ] ); incident = incident || g.channels.back().incident(); } if ( !incident ) g.channels.back() = all[ 0 ];
  for ( int k = 0; k < resonances; ++k ) { ResonanceModel r{ energyPool[ ( k + first ) % 4 ], {}, 0.1 * k }; for ( int i = 0; i < channels; ++i ) r.widths.push_back( 0.3 * i - 0.5 * k + 0.1 ); g.resonances.push_back( r ); }
  return g;
}
template < typename Group > static bool sameGroup( const Group& group, const GroupModel& m ) {
  std::size_t i = 0; bool ok = true; auto& t = group.resonanceTable(); auto any = [&]( auto& ch ) { return std::visit( [&]( auto& c ) { return std::string( c.channelID() ) == m.channels[ i ].channelID() && c.Q().value == m.channels[ i ].q && c.boundaryCondition() == m.channels[ i ].B && c.radii().phaseShiftRadius( eV( 1. ) ).value == m.channels[ i ].aphi; }, ch ); };
  for ( auto&& ch : group.channels() ) { ok = ok && i < m.channels.size() && any( ch ); ++i; } ok = ok && i == m.channels.size() && t.numberChannels() == i; i = 0; for ( auto&& id : group.channelIDs() ) { ok = ok && i < m.channels.size() && std::string( id ) == m.channels[ i ].channelID(); ++i; } ok = ok && i == m.channels.size();
  std::vector< std::string > want, got; for ( auto& c : m.channels ) if ( c.incident() ) want.push_back( c.channelID() ); for ( auto&& ch : group.incidentChannels() ) got.push_back( std::visit( []( auto& c ) { return std::string( c.channelID() ); }, ch ) ); ok = ok && got == want;
  want.clear(); got.clear(); for ( auto& c : m.channels ) want.push_back( c.reaction() ); want.push_back( m.channels[ 0 ].inSymbol() + "->capture" ); for ( auto&& r : group.reactionIDs() ) got.push_back( r.symbol() ); ok = ok && got == want && group.incidentPair().pairID().symbol() == m.channels[ 0 ].inSymbol();
  i = 0; for ( auto&& r : t.resonances() ) { ok = ok && i < m.resonances.size() && ResonanceOf{ m.resonances[ i ].energy, m.resonances[ i ].widths, m.resonances[ i ].eliminated, false }.same( r ); ++i; } return ok && i == m.resonances.size();
}
template < typename Option > static void groups( mc::Explorer& x ) {
  int channels = 1 + x.choose( 5 ), first = x.choose( 5 ), n = x.choose( 5 ); x.shard(); int w = way( x ); auto m = groupOf( channels, first, n, 1., 1 );
  kept( x, w, [&] { return m.make< Option >(); }, [&] { return groupOf( 2, 1, 1, 2., -1 ).make< Option >(); }, [&]( const rm::SpinGroup< rm::ReichMoore, Option >& g ) { return sameGroup( g, m ); }, [&] { return m.text(); } );
}
MC_BODY( "C30", "spin-group" ) { if ( x.choose( 2 ) ) groups< rm::Constant >( x ); else groups< rm::ShiftFactor >( x ); }
template < typename Option > static void systems( mc::Explorer& x ) {   // every order of 1..4 groups
  std::vector< GroupModel > all; for ( int i = 0; i < 4; ++i ) all.push_back( groupOf( 1 + i, i, 3 - i, i / 2, i % 2 ? -1 : 1 ) ); std::vector< int > free = { 0, 1, 2, 3 }; int n = 1 + x.choose( 4 ); std::vector< GroupModel > m; for ( int i = 0; i < n; ++i ) { int k = x.choose( free.size() ); m.push_back( all[ free[ k ] ] ); free.erase( free.begin() + k ); }
  x.shard(); int w = way( x ); using System = rm::CompoundSystem< rm::ReichMoore, Option >; using Group = rm::SpinGroup< rm::ReichMoore, Option >;
  kept( x, w, [&] { std::vector< Group > v; for ( auto& g : m ) v.push_back( g.make< Option >() ); return System( std::move( v ) ); }, [&] { std::vector< Group > v; v.push_back( groupOf( 2, 1, 1, 2., -1 ).make< Option >() ); return System( std::move( v ) ); },
    [&]( const System& s ) { std::size_t i = 0; bool ok = true; for ( auto&& g : s.spinGroups() ) { ok = ok && i < m.size() && sameGroup( g, m[ i ] ); ++i; } return ok && i == m.size(); }, [&] { return mc::cat( n, " groups, the first ", m[ 0 ].text() ); } );
}
MC_BODY( "C30", "system" ) { if ( x.choose( 2 ) ) systems< rm::Constant >( x ); else systems< rm::ShiftFactor >( x ); }

// --- Breit-Wigner and unresolved -----------------------------------------------------------
struct BWResonanceOf { double e, n, g, f, x, P, Q, S;
  rl::resolved::Resonance make() const { return rl::resolved::Resonance( eV( e ), width( n ), width( g ), width( f ), width( x ), P, Q, S ); }
  bool same( const rl::resolved::Resonance& r ) const {
    return sameBits( r.energy().value, e ) && r.elastic().value == n && r.capture().value == g && r.fission().value == f && r.competition().value == x && r.penetrability() == P && r.shiftfactor() == S && mc::close( r.total().value, n + g + f + x, 1e-14, 1e-300 )
      && mc::close( r.elastic( 2. * P ).value, 2. * n, 1e-14, 1e-300 ) && mc::close( r.competition( 3. * Q ).value, 3. * x, 1e-14, 1e-300 ) && mc::close( r.total( 2. * P, 3. * Q ).value, 2. * n + g + f + 3. * x, 1e-14, 1e-300 ); }
  std::string text() const { return mc::cat( "Er=", e, " n=", n, " g=", g, " f=", f, " x=", x, " P=", P, " Q=", Q, " S=", S ); }
};
MC_BODY( "C30", "breit-wigner-resonance" ) {
  static const std::vector< double > es = { 20., -30., 1e6 }, ws = { 0., 0.03, 17. }, ps = { 0.2, 1e-8 }, ss = { 0., -1.7 };
  BWResonanceOf m{ x.pick( es ), x.pick( ws ), x.pick( ws ), 0, 0, 0, 0, 0 }; x.shard(); m.f = x.pick( ws ); m.x = x.pick( ws ); m.P = x.pick( ps ); m.Q = 0.7 * x.pick( ps ); m.S = x.pick( ss ); int w = way( x );
  kept( x, w, [&] { return m.make(); }, [&] { return BWResonanceOf{ 1, 2, 3, 4, 5, 6, 7, 8 }.make(); }, [&]( const rl::resolved::Resonance& r ) { return m.same( r ); }, [&] { return m.text(); } );
}
struct UnresolvedOf { double e, d, n, g, f, x;
  rl::unresolved::Resonance make() const { return rl::unresolved::Resonance( eV( e ), eV( d ), rootEV( n ), width( g ), width( f ), width( x ) ); }
  bool same( const rl::unresolved::Resonance& r ) const { return sameBits( r.energy().value, e ) && r.levelSpacing().value == d && r.elastic().value == n && r.capture().value == g && r.fission().value == f && r.competition().value == x; }
};
MC_BODY( "C30", "unresolved-resonance" ) {
  static const std::vector< double > es = { 20., 1e6 }, ws = { 0., 0.03, 17. };
  UnresolvedOf m{ x.pick( es ), x.pick( ws ), x.pick( ws ), 0, 0, 0 }; x.shard(); m.g = x.pick( ws ); m.f = x.pick( ws ); m.x = x.pick( ws ); int w = way( x );
  kept( x, w, [&] { return m.make(); }, [&] { return UnresolvedOf{ 1, 2, 3, 4, 5, 6 }.make(); }, [&]( const rl::unresolved::Resonance& r ) { return m.same( r ); }, [&] { return mc::cat( "E=", m.e, " D=", m.d, " n=", m.n, " g=", m.g, " f=", m.f, " x=", m.x ); } );
}
static LegacyChannel legacyChannel( unsigned l, double J ) { return { u238, l, J, 0.9, 0.8, 0.7 }; }
static bool sameChannel( const rm::Channel< rm::Neutron >& c, unsigned l, double J ) { return c.quantumNumbers().orbitalAngularMomentum() == l && c.quantumNumbers().totalAngularMomentum() == J && c.particlePair().pairID().symbol() == "n,U238" && c.radii().penetrabilityRadius( eV( 1. ) ).value == 0.9 && c.radii().shiftFactorRadius( eV( 1. ) ).value == 0.8 && c.radii().phaseShiftRadius( eV( 1. ) ).value == 0.7; }
static std::vector< BWResonanceOf > bwResonances( int n, int order ) { std::vector< BWResonanceOf > v; for ( int i = 0; i < n; ++i ) { int k = order ? n - 1 - i : i; v.push_back( { energyPool[ k ], 0.1 + k, 0.2 + k, 0.3 * k, 0.4 * k, 0.5 + k, 0.6 + k, -0.7 - k } ); } return v; }
template < typename Table > static bool sameBW( const Table& t, const std::vector< BWResonanceOf >& rs ) {
  bool ok = t.numberResonances() == rs.size() && t.resonances().size() == rs.size(); std::size_t i = 0; for ( auto& r : t.resonances() ) { ok = ok && i < rs.size() && rs[ i ].same( r ); ++i; } i = 0; for ( auto&& e : t.energies() ) { ok = ok && i < rs.size() && sameBits( e.value, rs[ i ].e ); ++i; } return ok && i == rs.size(); }
template < typename Formalism > static void bwGroups( mc::Explorer& x ) {
  using Group = rl::resolved::SpinGroup< Formalism >; using System = rl::resolved::CompoundSystem< Formalism >; using Table = rl::resolved::ResonanceTable;
  int n = x.choose( 5 ), order = x.choose( 2 ), l = x.choose( 5 ); x.shard(); int up = x.choose( 2 ), q = x.choose( 3 ), w = way( x ); double J = l ? l + ( up ? 0.5 : -0.5 ) : 0.5, qx = q == 0 ? 0. : q == 1 ? -4.5e4 : 123.; auto rs = bwResonances( n, order );
  auto table = [&]( int count ) { std::vector< rl::resolved::Resonance > v; for ( auto& r : bwResonances( count, order ) ) v.push_back( r.make() ); return Table( std::move( v ) ); };
  auto make = [&] { return Group( legacyChannel( l, J ).make(), table( n ), eV( qx ) ); }; auto other = [&] { return Group( legacyChannel( 3, 2.5 ).make(), table( 2 ), eV( 9. ) ); };
  auto same = [&]( const Group& g ) { return sameChannel( g.incidentChannel(), l, J ) && (int) g.orbitalAngularMomentum() == l && g.totalAngularMomentum() == J && sameBits( g.QX().value, qx ) && sameBW( g.resonanceTable(), rs ); };
  auto text = [&] { return mc::cat( "Breit-Wigner l=", l, " J=", J, " ", n, " resonances, order ", order, " QX=", qx ); };
  kept( x, w, [&] { return table( n ); }, [&] { return table( 2 ); }, [&]( const Table& t ) { return sameBW( t, rs ); }, text );
  kept( x, w, make, other, same, text );
  kept( x, w, [&] { std::vector< Group > v; v.push_back( make() ); v.push_back( Group( legacyChannel( 4, 4.5 ).make(), table( 1 ), eV( 1. ) ) ); if ( l == 4 && J == 4.5 ) v.pop_back(); return System( std::move( v ) ); }, [&] { std::vector< Group > v; v.push_back( other() ); return System( std::move( v ) ); },
    [&]( const System& s ) { std::size_t i = 0; bool ok = true; for ( auto&& g : s.spinGroups() ) { ok = ok && ( i ? g.orbitalAngularMomentum() == 4 && g.totalAngularMomentum() == 4.5 && sameBits( g.QX().value, 1. ) : same( g ) ); ++i; } return ok && i == ( l == 4 && J == 4.5 ? 1 : 2 ); }, text );
}
MC_BODY( "C30", "breit-wigner-groups" ) { if ( x.choose( 2 ) ) bwGroups< rm::MultiLevelBreitWigner >( x ); else bwGroups< rm::SingleLevelBreitWigner >( x ); }
MC_BODY( "C30", "unresolved-groups" ) {
  using Group = rl::unresolved::SpinGroup; using System = rl::unresolved::CompoundSystem; using Table = rl::unresolved::ResonanceTable; using rl::unresolved::Degrees;
  int n = 2 + x.choose( 4 ), l = x.choose( 5 ), up = x.choose( 2 ); x.shard(); unsigned a = x.choose( 5 ), b = x.choose( 5 ), c = x.choose( 5 ), d = x.choose( 5 ); int w = way( x ); double J = l ? l + ( up ? 0.5 : -0.5 ) : 0.5;
  auto one = []( int i ) { return UnresolvedOf{ 100. + 50. * i, 10. + i, 1e-3 * ( 1 + i ), 0.02 + 0.01 * i, 0.3 * i, 0.4 * i }; };
  auto table = [&]( int count, unsigned a, unsigned b, unsigned c, unsigned d ) { std::vector< rl::unresolved::Resonance > v; for ( int i = 0; i < count; ++i ) v.push_back( one( i ).make() ); return Table( std::move( v ), Degrees( a, b, c, d ) ); };
  auto sameTable = [&]( const Table& t ) { auto& g = t.degreesOfFreedom(); bool ok = (int) t.numberResonances() == n && g.elastic == a && g.capture == b && g.fission == c && g.competition == d; int i = 0; for ( auto& r : t.resonances() ) { ok = ok && one( i ).same( r ) && one( i ).same( t( r.energy() ) ); ++i; } ok = ok && i == n; i = 0; for ( auto&& e : t.energies() ) { ok = ok && e.value == one( i ).e; ++i; } return ok && i == n; };
  auto make = [&] { return Group( legacyChannel( l, J ).make(), table( n, a, b, c, d ) ); }; auto other = [&] { return Group( legacyChannel( 3, 2.5 ).make(), table( 3, 1, 0, 1, 0 ) ); };
  auto same = [&]( const Group& g ) { return sameChannel( g.incidentChannel(), l, J ) && (int) g.orbitalAngularMomentum() == l && g.totalAngularMomentum() == J && sameTable( g.resonanceTable() ); };
  auto text = [&] { return mc::cat( "unresolved l=", l, " J=", J, " ", n, " energies, degrees ", a, b, c, d ); };
  kept( x, w, [&] { return table( n, a, b, c, d ); }, [&] { return table( 3, 1, 0, 1, 0 ); }, sameTable, text );
  kept( x, w, make, other, same, text );
  kept( x, w, [&] { std::vector< Group > v; v.push_back( make() ); return System( std::move( v ) ); }, [&] { std::vector< Group > v; v.push_back( other() ); return System( std::move( v ) ); },
    [&]( const System& s ) { std::size_t i = 0; bool ok = true; for ( auto&& g : s.spinGroups() ) { ok = ok && same( g ); ++i; } return ok && i == 1; }, text );
}

// --- C31 -------------------------------------------------------------------------------------
// every sequence of operations; what each gives is what the arithmetic gives on each of the four alone
template < typename Q, typename Value, typename Make > static void arithmetic( mc::Explorer& x, const std::vector< std::array< Value, 4 > >& pool, Make make, int depth ) {
  using Data = rl::Data< Q >; auto build = [&]( const std::array< Value, 4 >& v ) { return Data( make( v[ 0 ] ), make( v[ 1 ] ), make( v[ 2 ] ), make( v[ 3 ] ) ); };
  auto part = []( const Data& d, int i ) { return i == 0 ? d.elastic : i == 1 ? d.capture : i == 2 ? d.fission : d.competition; };
  int start = x.choose( pool.size() ); Data d = build( pool[ start ] ); std::array< Q, 4 > want{ make( pool[ start ][ 0 ] ), make( pool[ start ][ 1 ] ), make( pool[ start ][ 2 ] ), make( pool[ start ][ 3 ] ) }; std::string t = mc::cat( "start ", start ); const Q zero{};
  auto what = [&] { return t; }; auto is = [&]( const Data& a, const std::array< Q, 4 >& b ) { for ( int i = 0; i < 4; ++i ) if ( part( a, i ) != b[ i ] ) return false; return true; };
  auto has = [&]( const Data& a ) { return a.hasElastic() == ( a.elastic != zero ) && a.hasCapture() == ( a.capture != zero ) && a.hasFission() == ( a.fission != zero ) && a.hasCompetition() == ( a.competition != zero ); };
  int n = x.choose( depth + 1 ); x.shard();
  for ( int step = 0; step <= n; ++step ) {
    x.op(); if ( !x.check( is( d, want ), "components", what ) || !x.check( has( d ), "has", what ) ) return; if ( step == n ) return;
    int op = x.choose( 6 ), k = x.choose( pool.size() ); t += mc::cat( op == 0 ? " + " : op == 1 ? " - " : op == 2 ? " += " : op == 3 ? " -= " : op == 4 ? " += itself " : " + itself ", k ); if ( op > 3 && k ) throw mc::Prune(); mc::note( t );
    Data other = build( pool[ k ] ), before = d; std::array< Q, 4 > o{ part( other, 0 ), part( other, 1 ), part( other, 2 ), part( other, 3 ) }, w0 = want;
    for ( int i = 0; i < 4; ++i ) want[ i ] = op >= 4 ? want[ i ] + want[ i ] : op % 2 ? want[ i ] - o[ i ] : want[ i ] + o[ i ];
    if ( op == 0 || op == 1 || op == 5 ) { Data sum = op == 0 ? d + other : op == 1 ? d - other : d + d; x.check( is( d, w0 ), "operand kept", what ); d = sum; }
    else { Data& r = op == 2 ? ( d += other ) : op == 3 ? ( d -= other ) : ( d += d ); x.check( &r == &d, "returns itself", what ); }
    x.check( is( other, o ), "operand kept", what );
  }
}
MC_BODY( "C31", "widths" ) { arithmetic< Width, double >( x, { { 0.1, 0.2, 0.3, 0.4 }, { 1e-9, -3., 1e9, 0. }, { 0., 0., 0., 7. }, { -0.1, -0.2, -0.3, -0.4 }, { 5., 0., 0., 0. } }, []( double v ) { return width( v ); }, x.thorough ? 4 : 3 ); }
MC_BODY( "C31", "fluctuation-integrals" ) { arithmetic< rr::FluctuationIntegral, double >( x, { { 0.1, 0.2, 0.3, 0.4 }, { 1e-9, -3., 1e9, 0. }, { 0., 0., 7., 0. }, { 0., 8., 0., 0. } }, []( double v ) { return v / njoy::dimwits::electronVolt; }, x.thorough ? 4 : 3 ); }
MC_BODY( "C31", "degrees" ) { arithmetic< unsigned int, unsigned int >( x, { { 1, 2, 3, 4 }, { 4, 0, 1, 0 }, { 0, 0, 0, 1 }, { 0, 5, 0, 0 } }, []( unsigned v ) { return v; }, x.thorough ? 4 : 3 ); }
MC_BODY( "C31", "numbers" ) { arithmetic< double, double >( x, { { 0.1, 0.2, 0.3, 0.4 }, { 1e300, -1e300, 1e-300, -1e-320 }, { 1e16, 1., -1e16, 3. }, { 0., 0., 0., 0. } }, []( double v ) { return v; }, x.thorough ? 4 : 3 ); }
int main( int argc, char** argv ) { return mc::mainLoop( argc, argv ); }
