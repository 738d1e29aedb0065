// C11 C12: channels and their radii; C25: the quantum numbers of a compound system
#include "rmradius.hpp"
using namespace njoy::dimwits;

// --- C11: kinematics ------------------------------------------------------------
static const std::vector< PairModel > incidents = {
  { 1.008664, 53.466, 0, 26, 0.5, 0., "n", "Fe54", "" },
  { 1.008664, 0.9992, 0, 1, 0.5, 0.5, "n", "H1", "" },
  { 1.008664, 236.0058, 0, 92, 0.5, 3.5, "n", "U235", "" },
  { 1.00727647, 34.96885, 1, 17, 0.5, 1.5, "p", "Cl35", "" },
  { 4.0015, 11.99671, 2, 6, 0., 0., "a", "C12", "" } };
static const std::vector< PairModel > others = {
  { 0., 55., 0, 26, 1., 0.5, "g", "Fe55", "" },
  { 1.008664, 34.66, 0, 16, 0.5, 1.5, "n", "S35_e1", "" },
  { 1.00727647, 34.9691, 1, 16, 0.5, 1.5, "p", "S35", "" },
  { 4.0015, 31.973, 2, 15, 0., 1., "a", "P32", "" },
  { 3.0149, 229.03, 2, 90, 0.5, 2.5, "he3", "Th230", "" },
  { 0., 0., 0, 0, 0., 0., "fission", "fission", "fission" } };

template < typename Type >
static void kinematics( mc::Explorer& x, const PairModel& in, const PairModel& out, double q, double energy, unsigned l, double J, double a ) {
  auto pin = in.make(), pout = out.make();
  rm::ChannelRadii radii( rootB( a ), rootB( a * 1.1 ), rootB( a * 0.8 ) );
  rm::Channel< Type > ch( pin, pout, eV( q ), { l, std::fabs( J - l ), J, (short)( l % 2 ? -1 : +1 ) }, radii, -1. * l );
  x.op();
  auto what = [&] { return mc::cat( pin.pairID().symbol(), "->", pout.pairID().symbol(), " Q=", q, " E=", energy, " l=", l, " J=", J, ": k=", ch.waveNumber( eV( energy ) ).value,
    " eta=", ch.sommerfeldParameter( eV( energy ) ), " closed=", ch.belowThreshold( eV( energy ) ), " g=", ch.statisticalSpinFactor(), " expected k=", (double) waveNumber( in, out, q, energy ),
    " eta=", (double) sommerfeld( in, out, q, energy ), " Ecm=", (double) channelEnergy( in, q, energy ), " g=", (double) spinFactor( out, J ) ); };
  if ( x.wantSample() ) x.sample( what() );
  real ecm = channelEnergy( in, q, energy ), scale = std::fabs( (real) energy * in.ratio() ) + std::fabs( (real) q );
  bool clear = std::fabs( ecm ) > 1e-12L * scale;   // otherwise the sign and size of the difference are rounding
  real cond = clear ? scale / std::fabs( ecm ) : 1;
  // a photon or fission fragment without mass has no meaningful wave number
  bool massive = out.ma > 0 && out.mb > 0;
  double k = ch.waveNumber( eV( energy ) ).value; x.op();
  if ( clear && massive ) x.check( mc::close( k, waveNumber( in, out, q, energy ), 1e-13 + 1e-15 * cond ), "wave-number", what );
  if ( out.ma == 0 && out.mb > 0 ) x.check( k == 0., "wave-number", what );
  if ( clear ) { x.check( ch.belowThreshold( eV( energy ) ) == ( ecm < 0 ), "threshold", what ); x.op(); }
  double eta = ch.sommerfeldParameter( eV( energy ) ); x.op();
  if ( out.za * out.zb == 0 ) x.check( eta == 0., "sommerfeld", what );
  else if ( clear ) x.check( mc::close( eta, sommerfeld( in, out, q, energy ), 1e-12 + 1e-15 * cond ), "sommerfeld", what );
  x.check( mc::close( ch.statisticalSpinFactor(), spinFactor( out, J ), 1e-14 ), "spin-factor", what );
  bool same = &in == &out || pin.pairID() == pout.pairID();
  x.check( ch.isIncidentChannel() == same, "incident", what );
  std::string reaction = pin.pairID().symbol() + "->" + pout.pairID().symbol();
  x.check( ch.reactionID().symbol() == reaction, "reaction-id", [&] { return what() + " reaction " + ch.reactionID().symbol(); } );
  x.check( ch.channelID() == pout.pairID().symbol() + ch.quantumNumbers().toString(), "channel-id", [&] { return what() + " channel " + ch.channelID(); } );
  x.check( mc::close( pout.massRatio(), out.ratio(), 1e-14 ) || !massive, "mass-ratio", what );
  x.check( mc::close( pout.reducedMass().value, out.reduced(), 1e-14 ) || !massive, "reduced-mass", what );
  x.check( sameBits( ch.Q().value, q ) && ch.boundaryCondition() == -1. * l, "stored", what );

  // P, S and phi: the channel functions, at k a of the right radius
  if ( !clear || !massive ) return;
  if ( std::is_same_v< Type, rm::ChargedParticle > && ( eta > 40. || k * a > 100. || k * a < 1e-3 ) ) return;   // the Coulomb functions have their own property
  double P = ch.penetrability( eV( energy ) ), S = ch.shiftFactor( eV( energy ) ), phi = ch.phaseShift( eV( energy ) ), w = ch.coulombPhaseShift( eV( energy ) ); x.op( 4 );
  auto say = [&] { return mc::cat( what(), " P=", P, " S=", S, " phi=", phi, " w=", w, " expected P=", rm::calculatePenetrability< Type >( l, k * a, eta ), " S=",
    rm::calculateShiftFactor< Type >( l, k * a * 1.1, eta ), " phi=", rm::calculatePhaseShift< Type >( l, k * a * 0.8, eta ), " w=", rm::calculateCoulombPhaseShift< Type >( l, eta ) ); };
  x.check( mc::close( P, rm::calculatePenetrability< Type >( l, k * ( a ), eta ), 1e-9, 1e-300 ), "penetrability", say );
  x.check( mc::close( S, rm::calculateShiftFactor< Type >( l, k * ( a * 1.1 ), eta ), 1e-9, 1e-9 ), "shift-factor", say );
  x.check( mc::close( phi, rm::calculatePhaseShift< Type >( l, k * ( a * 0.8 ), eta ), 1e-9, 1e-9 ) , "phase-shift", say );
  x.check( mc::close( w, rm::calculateCoulombPhaseShift< Type >( l, eta ), 1e-9, 1e-9 ), "coulomb-phase", say );
}
static void dispatch( mc::Explorer& x, const PairModel& in, const PairModel& out, double q, double energy, unsigned l, double J, double a ) {
  if ( out.a == "n" ) kinematics< rm::Neutron >( x, in, out, q, energy, l, J, a );
  else if ( out.a == "g" ) kinematics< rm::Photon >( x, in, out, q, energy, l, J, a );
  else if ( out.a == "fission" ) kinematics< rm::Fission >( x, in, out, q, energy, l, J, a );
  else kinematics< rm::ChargedParticle >( x, in, out, q, energy, l, J, a );
}
MC_BODY( "C11", "kinematics" ) {
  const auto& in = incidents[ x.choose( incidents.size() ) ];
  int o = x.choose( 1 + others.size() );
  const auto& out = o ? others[ o - 1 ] : in;
  static const std::vector< double > qs = { 0., 1., -1., 1e3, -1e3, 6e5, -6e5, 6.15e6, -2.5e6 };
  double q = x.pick( qs );
  unsigned l = x.choose( 5 );
  x.shard();
  double J = l + 0.5 * x.choose( 6 );
  double a = x.choose( 2 ) ? 0.37 : 0.9;
  int n = x.choose( x.thorough ? 96 : 24 );
  double energy = std::pow( 10., -5. + 12.3 * n / ( x.thorough ? 96. : 24. ) );
  dispatch( x, in, out, q, energy, l, J, a );
}
MC_BODY( "C11", "threshold" ) {   // energies at, and in a fine neighbourhood of, the threshold
  const auto& in = incidents[ x.choose( incidents.size() ) ];
  const auto& out = others[ 1 + x.choose( others.size() - 2 ) ];
  int n = x.choose( x.thorough ? 400 : 60 );
  x.shard();
  double q = -std::pow( 10., -2. + n * ( 8.5 / ( x.thorough ? 400 : 60 ) ) );
  double e0 = (double)( -(real) q / in.ratio() );
  int d = x.choose( 33 ) - 16;
  double energy = d == 0 ? e0 : e0 * ( 1. + ( d < 0 ? -1. : 1. ) * std::pow( 10., -13.5 + 0.8 * std::abs( d ) ) );
  if ( energy <= 0 ) throw mc::Prune();
  dispatch( x, in, out, q, energy, x.choose( 3 ), 1.5, 0.5 );
}
MC_BODY( "C11", "below-zero" ) {   // resonance energies may be negative: |E| counts
  const auto& in = incidents[ x.choose( incidents.size() ) ];
  x.shard();
  double energy = std::pow( 10., -2. + 0.25 * x.choose( 30 ) ); unsigned l = x.choose( 5 );
  auto p = in.make();
  auto test = [&]( auto type ) {
    using Type = decltype( type );
    rm::Channel< Type > ch( p, p, eV( 0. ), { l, 0.5, l + 0.5, +1 }, rm::ChannelRadii( rootB( 0.5 ) ) );
    double kn = ch.waveNumber( eV( -energy ) ).value, kp = ch.waveNumber( eV( energy ) ).value; x.op( 2 );
    x.check( kn == kp && ch.belowThreshold( eV( -energy ) ) && !ch.belowThreshold( eV( energy ) ) && !ch.belowThreshold( eV( 0. ) ), "negative-energy",
      [&] { return mc::cat( p.pairID().symbol(), " E=", energy, " k(-E)=", kn, " k(E)=", kp ); } );
    double sn = ch.sommerfeldParameter( eV( -energy ) ), sp = ch.sommerfeldParameter( eV( energy ) ); x.op( 2 );
    x.check( sn == sp, "negative-energy", [&] { return mc::cat( p.pairID().symbol(), " E=", energy, " eta(-E)=", sn, " eta(E)=", sp ); } );
    if ( sp > 40. || kp * 0.5 < 1e-3 ) { if ( !std::is_same_v< Type, rm::Neutron > ) return; }
    double a = ch.penetrability( eV( -energy ) ), b = ch.penetrability( eV( energy ) ); x.op( 2 );
    x.check( mc::close( a, b, 1e-13 ), "negative-energy", [&] { return mc::cat( p.pairID().symbol(), " E=", energy, " P(-E)=", a, " P(E)=", b ); } );
  };
  if ( in.za == 0 ) test( rm::Neutron{} ); else test( rm::ChargedParticle{} );
}
MC_BODY( "C11", "channel-ids" ) {   // the replacement identifier changes the channel id only
  x.shard();
  auto in = incidents[ 2 ].make(), f = others.back().make();
  static const std::vector< std::string > ids = { "fission1", "fission2", "x", "", "a,b" };
  std::string id = x.pick( ids );
  unsigned l = x.choose( 4 ); double s = 0.5 * x.choose( 5 ), J = 0.5 * x.choose( 8 ); short p = x.choose( 2 ) ? 1 : -1;
  rm::Channel< rm::Fission > ch( in, f, id, eV( 0. ), { l, s, J, p }, rm::ChannelRadii( rootB( 0. ) ) ); x.op();
  x.check( ch.channelID() == id + ch.quantumNumbers().toString() && ch.reactionID().symbol() == "n,U235->fission" && !ch.isIncidentChannel()
           && ch.quantumNumbers().orbitalAngularMomentum() == l && ch.quantumNumbers().spin() == s && ch.quantumNumbers().totalAngularMomentum() == J && ch.quantumNumbers().parity() == p,
           "channel-id", [&] { return mc::cat( "id ", id, " gives ", ch.channelID(), " reaction ", ch.reactionID().symbol() ); } );
  x.check( ch.penetrability( eV( 1. ) ) == 1. && ch.shiftFactor( eV( 1. ) ) == 0. && ch.phaseShift( eV( 1. ) ) == 0., "fission-channel", [&] { return mc::cat( "fission channel with P ", ch.penetrability( eV( 1. ) ) ); } );
}

// --- C12: radii -----------------------------------------------------------------
MC_BODY( "C12", "naps" ) {
  int t = x.choose( 1 + tables.size() );
  x.shard();
  int naps = x.choose( 5 ) ;
  static const std::vector< double > awris = { 0.9992, 11.9, 53.47, 233.02, 236.0058 };
  double awri = x.pick( awris ), ap = x.choose( 2 ) ? 0.95 : 0.2; double mn = x.choose( 2 ) ? 1.008664 : 1.;
  std::optional< rm::ChannelRadiusTable > nro;
  auto what = [&] { return mc::cat( "NRO ", t ? 1 : 0, " (table ", t, ") NAPS ", naps, " AWRI ", awri, " AP ", ap, " mass ", mn ); };
  if ( t ) { nro = rm::makeChannelRadiusTable( std::optional< endf::ScatteringRadius >( endfRadius( tables[ t - 1 ] ) ) ); x.op(); }
  else nro = rm::makeChannelRadiusTable( std::nullopt );
  if ( !x.check( (bool) nro == ( t > 0 ), "table", what ) ) return;
  bool threw = false; std::optional< rm::ChannelRadii > radii;
  try { radii = rm::makeChannelRadii( ap, nro, naps, awri, mn ); } catch ( ... ) { threw = true; }
  x.op();
  if ( t && naps > 2 ) { x.check( threw, "unknown-naps-refused", what ); return; }
  if ( naps > 1 && !t && threw ) return;   // not defined by the format: AP, as for 1, or refused
  if ( !x.check( !threw, "accepted", what ) ) return;
  double computed = 0.123 * std::pow( awri * mn, 1. / 3. ) + 0.08;
  for ( double e : tableEnergies ) {
    real table = t ? tables[ t - 1 ].at( e ) : 0;
    real P = naps == 0 ? (real) computed : naps == 1 && t ? table : (real) ap;
    real phi = t ? table : (real) ap;
    double gP = radii->penetrabilityRadius( eV( e ) ).value, gS = radii->shiftFactorRadius( eV( e ) ).value, gphi = radii->phaseShiftRadius( eV( e ) ).value; x.op( 3 );
    auto say = [&] { return mc::cat( what(), " E=", e, " radii ", gP, " ", gS, " ", gphi, " expected ", (double) P, " ", (double) P, " ", (double) phi ); };
    x.check( mc::close( gP, P, 1e-12 ), "penetrability-radius", say );
    x.check( mc::close( gS, P, 1e-12 ), "shift-factor-radius", say );
    x.check( mc::close( gphi, phi, 1e-12 ), "phase-shift-radius", say );
  }
}
// every division of up to 8 (10) points into regions
MC_BODY( "C12", "regions" ) {
  int n = 2 + x.choose( x.thorough ? 9 : 7 ), mask = x.choose( 1 << ( n - 2 ) ), law = x.choose( 6 ); x.shard();
  RadiusModel m; for ( int i = 0; i < n; ++i ) { m.x.push_back( 1e-5 * std::pow( 11., i ) ); m.y.push_back( 0.5 + 0.07 * ( ( i * 5 ) % 7 ) ); }
  for ( int i = 1; i < n; ++i ) if ( i == n - 1 || ( mask >> ( i - 1 ) & 1 ) ) { m.laws.push_back( law == 5 ? 1 + ( m.bounds.size() * 2 ) % 5 : 1 + law ); m.bounds.push_back( i + 1 ); }
  std::vector< double > at; for ( int i = 0; i < n; ++i ) { at.push_back( m.x[ i ] ); if ( i ) { at.push_back( std::nextafter( m.x[ i ], 0. ) ); at.push_back( std::nextafter( m.x[ i - 1 ], 1e30 ) ); for ( double w : { 0.01, 0.4, 0.8 } ) at.push_back( m.x[ i - 1 ] * ( 1 - w ) + m.x[ i ] * w ); } }
  auto table = rm::makeChannelRadiusTable( std::optional< endf::ScatteringRadius >( endfRadius( m ) ) ); x.op();
  auto what = [&] { std::string t = "table"; for ( int i = 0; i < n; ++i ) t += mc::cat( " (", m.x[ i ], ",", m.y[ i ], ")" ); for ( std::size_t i = 0; i < m.laws.size(); ++i ) t += mc::cat( " law ", m.laws[ i ], " up to point ", m.bounds[ i ] ); return t; };
  if ( !x.check( (bool) table, "table", what ) ) return;
  for ( double e : at ) { double got = ( *table )( eV( e ) ).value; x.op(); x.check( mc::close( got, m.at( e ), 1e-12 ), "interpolation", [&] { return mc::cat( what(), " E=", e, " gives ", got, " expected ", (double) m.at( e ) ); } ); }
}
// many points and many regions
MC_BODY( "C12", "many-points" ) {
  static const std::vector< int > counts = { 9, 16, 17, 33, 50 }, more = { 9, 10, 12, 16, 17, 24, 32, 33, 50, 64, 65, 100, 200 }; int n = x.pick( x.thorough ? more : counts ), regions = x.choose( 6 ); x.shard(); int law = x.choose( 6 );
  RadiusModel m; for ( int i = 0; i < n; ++i ) { m.x.push_back( 1e-5 * std::pow( 10., 11. * i / n ) ); m.y.push_back( 0.5 + 0.07 * ( ( i * 5 ) % 7 ) + 0.001 * i ); }
  static const int lengths[] = { 1000, 1, 2, 3, 7, 16 };   // points per region
  for ( int i = 1; i < n; ++i ) if ( i == n - 1 || i % lengths[ regions ] == 0 ) { m.laws.push_back( law == 5 ? 1 + ( m.bounds.size() * 2 ) % 5 : 1 + law ); m.bounds.push_back( i + 1 ); }
  auto table = rm::makeChannelRadiusTable( std::optional< endf::ScatteringRadius >( endfRadius( m ) ) ); x.op(); auto what = [&] { return mc::cat( n, " points, ", m.laws.size(), " regions, law ", law ); };
  if ( !x.check( (bool) table, "table", what ) ) return;
  for ( int i = 0; i < n; ++i ) for ( double w : { 0., 0.3, 0.8 } ) { if ( i == n - 1 && w > 0 ) break; double e = w > 0 ? m.x[ i ] * ( 1 - w ) + m.x[ i + 1 ] * w : m.x[ i ];
    double got = ( *table )( eV( e ) ).value; x.op(); x.check( mc::close( got, m.at( e ), 1e-12 ), "interpolation", [&] { return mc::cat( what(), " E=", e, " gives ", got, " expected ", (double) m.at( e ) ); } ); }
}
// jumps: the same energy twice, at the end of a region or within one; the left value counts there
MC_BODY( "C12", "jumps" ) {
  int n = 3 + x.choose( x.thorough ? 5 : 4 ), jumps = 1 + x.choose( ( 1 << ( n - 2 ) ) - 1 ), mask = x.choose( 1 << ( n - 2 ) ); x.shard(); int law = x.choose( 6 );
  RadiusModel m; std::vector< std::size_t > ends;
  for ( int i = 0; i < n; ++i ) {
    double e = 1e-5 * std::pow( 11., i ), r = 0.5 + 0.07 * ( ( i * 5 ) % 7 ); bool inside = i > 0 && i < n - 1;
    m.x.push_back( e ); m.y.push_back( r ); if ( i == n - 1 || ( inside && ( mask >> ( i - 1 ) & 1 ) ) ) { m.laws.push_back( law == 5 ? 1 + ( m.bounds.size() * 2 ) % 5 : 1 + law ); m.bounds.push_back( m.x.size() ); }
    if ( inside && ( jumps >> ( i - 1 ) & 1 ) ) { m.x.push_back( e ); m.y.push_back( r + 0.2 ); }
  }
  auto table = rm::makeChannelRadiusTable( std::optional< endf::ScatteringRadius >( endfRadius( m ) ) ); x.op();
  auto what = [&] { std::string t = "table"; for ( std::size_t i = 0; i < m.x.size(); ++i ) t += mc::cat( " (", m.x[ i ], ",", m.y[ i ], ")" ); for ( std::size_t i = 0; i < m.laws.size(); ++i ) t += mc::cat( " law ", m.laws[ i ], " up to point ", m.bounds[ i ] ); return t; };
  if ( !x.check( (bool) table, "table", what ) ) return;
  for ( std::size_t i = 0; i < m.x.size(); ++i ) for ( double e : { m.x[ i ], std::nextafter( m.x[ i ], 0. ), std::nextafter( m.x[ i ], 1e30 ), m.x[ i ] * 0.9, m.x[ i ] * 2. } ) {
    if ( e < m.x.front() || e > m.x.back() ) continue;
    double got = ( *table )( eV( e ) ).value; x.op(); x.check( mc::close( got, m.at( e ), 1e-12 ), "interpolation", [&] { return mc::cat( what(), " E=", e, " gives ", got, " expected ", (double) m.at( e ) ); } ); }
}
MC_BODY( "C12", "unknown-laws-refused" ) {
  long law = x.choose( 64 ) - 20;
  x.shard();
  if ( law >= 1 && law <= 5 ) law = 6;
  RadiusModel m{ { 1e-5, 10., 1e5 }, { 0.5, 0.7, 0.9 }, { 3 }, { law } };
  if ( x.choose( 2 ) ) { m.bounds = { 2, 3 }; m.laws = { 2, law }; }
  bool threw = false;
  try { rm::makeChannelRadiusTable( std::optional< endf::ScatteringRadius >( endfRadius( m ) ) ); } catch ( ... ) { threw = true; }
  x.op();
  x.check( threw, "unknown-law-refused", [&] { return mc::cat( "interpolation law ", law, " accepted" ); } );
}
MC_BODY( "C12", "constructors" ) {   // one, two and three radii, each constant or energy dependent
  int n = 1 + x.choose( 3 );
  x.shard();
  using V = std::variant< ChannelRadius, rm::ChannelRadiusTable >;
  std::vector< V > v; std::vector< const RadiusModel* > model; std::vector< double > cst;
  for ( int i = 0; i < n; ++i ) {
    int t = x.choose( 4 );
    if ( t ) { model.push_back( &tables[ 7 * i + t * 3 ] ); v.push_back( *rm::makeChannelRadiusTable( std::optional< endf::ScatteringRadius >( endfRadius( *model.back() ) ) ) ); }
    else { model.push_back( nullptr ); v.push_back( rootB( 0.1 * ( i + 1 ) ) ); }
    cst.push_back( 0.1 * ( i + 1 ) );
  }
  rm::ChannelRadii r = n == 1 ? rm::ChannelRadii( v[ 0 ] ) : n == 2 ? rm::ChannelRadii( v[ 0 ], v[ 1 ] ) : rm::ChannelRadii( v[ 0 ], v[ 1 ], v[ 2 ] );
  rm::ChannelRadii copy = r;   // a copy shares the tables
  int iS = n == 3 ? 1 : 0, iphi = n - 1;
  for ( double e : tableEnergies ) {
    auto expect = [&]( int i ) { return model[ i ] ? model[ i ]->at( e ) : (real) cst[ i ]; };
    double gP = copy.penetrabilityRadius( eV( e ) ).value, gS = copy.shiftFactorRadius( eV( e ) ).value, gphi = r.phaseShiftRadius( eV( e ) ).value; x.op( 3 );
    x.check( mc::close( gP, expect( 0 ), 1e-12 ) && mc::close( gS, expect( iS ), 1e-12 ) && mc::close( gphi, expect( iphi ), 1e-12 ), "constructor",
      [&] { return mc::cat( n, " radii, E=", e, " got ", gP, " ", gS, " ", gphi, " expected ", (double) expect( 0 ), " ", (double) expect( iS ), " ", (double) expect( iphi ) ); } );
  }
}
// --- C25: quantum numbers and the requests for them ---------------------------------
struct Triple { int l2, s2, J2; bool operator<( const Triple& o ) const { return std::tie( l2, s2, J2 ) < std::tie( o.l2, o.s2, o.J2 ); } bool operator==( const Triple& o ) const { return l2 == o.l2 && s2 == o.s2 && J2 == o.J2; } };
static std::vector< Triple > couplings( int i2, int I2, unsigned lmax ) {   // l, channel spin and J, all doubled
  std::vector< Triple > v; for ( int l = 0; l < (int) lmax; ++l ) for ( int s = std::abs( i2 - I2 ); s <= i2 + I2; s += 2 ) for ( int J = std::abs( 2 * l - s ); J <= 2 * l + s; J += 2 ) v.push_back( { 2 * l, s, J } );
  std::sort( v.begin(), v.end() ); return v;
}
static Triple triple( const rm::ChannelQuantumNumbers& n ) { return { 2 * (int) n.orbitalAngularMomentum(), (int)( 2 * n.spin() ), (int)( 2 * n.totalAngularMomentum() ) }; }
static std::vector< Triple > triples( const std::vector< rm::ChannelQuantumNumbers >& v ) { std::vector< Triple > r; for ( auto& n : v ) r.push_back( triple( n ) ); std::sort( r.begin(), r.end() ); return r; }
static std::string text( const std::vector< Triple >& v ) { std::string s; for ( auto& t : v ) s += mc::cat( " (", t.l2 / 2, ",", t.s2, "/2,", t.J2, "/2)" ); return s; }
static rm::ParticlePair spinPair( int i2, int I2 ) { return PairModel{ 1.008664, 100., 0, 40, i2 / 2., I2 / 2., "n", "Zr90", "" }.make(); }
MC_BODY( "C25", "all-couplings" ) {
  int i2 = x.choose( x.thorough ? 9 : 5 ), I2 = x.choose( x.thorough ? 21 : 16 ); x.shard(); unsigned lmax = x.choose( x.thorough ? 13 : 8 );
  auto got = rm::makeQuantumNumbers( spinPair( i2, I2 ), lmax ); x.op(); auto want = couplings( i2, I2, lmax );
  auto what = [&] { return mc::cat( "spins ", i2, "/2 and ", I2, "/2, ", lmax, " values of l: got", text( triples( got ) ), " expected", text( want ) ); };
  if ( x.wantSample() ) x.sample( what() );
  x.check( triples( got ) == want, "couplings", what );
  for ( auto& n : got ) x.check( n.parity() == ( n.orbitalAngularMomentum() % 2 ? -1 : +1 ), "parity", what );
}
MC_BODY( "C25", "requests" ) {   // all sequences of requests
  static const std::vector< int > targets = { 0, 1, 2, 5 }, projectiles = { 1, 0, 2, 3 }; int I2 = x.pick( targets ), i2 = x.pick( projectiles ); unsigned lmax = 1 + x.choose( i2 == 1 && !x.thorough ? 2 : 3 );
  auto available = rm::makeQuantumNumbers( spinPair( i2, I2 ), lmax ); x.op(); auto model = couplings( i2, I2, lmax );
  std::vector< std::pair< unsigned, double > > requests; for ( unsigned l = 0; l <= lmax; ++l ) { std::set< int > J; for ( auto& t : model ) if ( t.l2 == 2 * (int) l ) J.insert( t.J2 ); J.insert( 21 + I2 % 2 ); if ( l == lmax ) J = { I2 + i2 }; for ( int j : J ) { requests.push_back( { l, j / 2. } ); if ( j ) requests.push_back( { l, -j / 2. } ); } }
  std::string hist = mc::cat( "i=", i2, "/2, I=", I2, "/2, ", lmax, " values of l:" ); int depth = ( i2 == 1 || lmax == 1 ? 4 : 3 ) + ( x.thorough && ( i2 == 1 || lmax < 3 ) ? 1 : 0 ); if ( i2 == 1 && lmax == 3 ) depth = 3;
  for ( int step = 0; step < depth; ++step ) {
    int k = x.choose( requests.size() + 1 ); if ( step == 0 ) x.shard(); if ( k == (int) requests.size() ) break;   // fewer requests
    auto q = requests[ k ]; hist += mc::cat( " (l=", q.first, ",J=", q.second, ")" ); int best = -1;
    for ( int i = 0; i < (int) model.size(); ++i ) if ( model[ i ].l2 == 2 * (int) q.first && model[ i ].J2 == (int)( 2 * std::fabs( q.second ) ) && ( best < 0 || ( q.second < 0 ? model[ i ].s2 < model[ best ].s2 : model[ i ].s2 > model[ best ].s2 ) ) ) best = i;
    bool threw = false; std::optional< rm::ChannelQuantumNumbers > got;
    try { got = rm::retrieveQuantumNumber( q.first, q.second, available ); } catch ( std::exception& ) { threw = true; }
    x.op();
    x.check( threw == ( best < 0 ), best < 0 ? "refused" : "found", [&] { return hist + ( threw ? ": refused" : ": accepted" ) + ", free" + text( model ); } );
    if ( !threw && best >= 0 ) { x.check( triple( *got ) == model[ best ] && got->parity() == ( q.first % 2 ? -1 : 1 ), "channel-spin", [&] { return hist + ": got" + text( std::vector< Triple >{ triple( *got ) } ) + " expected" + text( std::vector< Triple >{ model[ best ] } ); } ); model.erase( model.begin() + best ); }
    x.check( triples( available ) == model, "remaining", [&] { return hist + ": left" + text( triples( available ) ) + " expected" + text( model ); } );
  }
}
int main( int argc, char** argv ) { return mc::mainLoop( argc, argv ); }
