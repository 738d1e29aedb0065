// C15 C16 C17 C18 C21: what spin groups and compound systems do as objects
#include "rmgroup.hpp"

static const PairModel nTarget{ 1.008664, 34.66845, 0, 17, 0.5, 1.5, "n", "Cl35", "" };
static const PairModel nExcited{ 1.008664, 34.66845, 0, 17, 0.5, 0.5, "n", "Cl35_e1", "" };
static const PairModel pOut{ 1.00727647, 34.96903, 1, 16, 0.5, 1.5, "p", "S35", "" };
static const PairModel aOut{ 4.0015, 31.9739, 2, 15, 0., 1., "a", "P32", "" };
static const PairModel fOut{ 0., 0., 0, 0, 0., 0., "fission", "fission", "fission" };
static ChannelModel elastic( unsigned l, double s, double J, short p, double B = 0. ) { return { NEUTRON, nTarget, nTarget, 0., l, s, J, p, 0.48, 0.5, 0.36, B, "" }; }
static ChannelModel fission( int i, double J, short p ) { return { FISSION, nTarget, fOut, 0., 0, 0., J, p, 0.5, 0.5, 0.5, 0., "fission" + std::to_string( i ) }; }
static ChannelModel inelastic( double q, unsigned l, double J, short p ) { return { NEUTRON, nTarget, nExcited, q, l, 1., J, p, 0.48, 0.48, 0.4, -1. * l, "" }; }
static ChannelModel proton( double q, unsigned l, double J, short p ) { return { CHARGED, nTarget, pOut, q, l, 1., J, p, 0.48, 0.48, 0.36, 0., "" }; }
static ChannelModel alpha( double q, unsigned l, double J, short p ) { return { CHARGED, nTarget, aOut, q, l, 1., J, p, 0.48, 0.48, 0.36, 0., "" }; }

// three spin groups that share reactions
static const std::vector< GroupModel > groups = {
  { { elastic( 0, 1., 1., +1 ), fission( 1, 1., +1 ), elastic( 2, 1., 1., +1, -2. ) }, { { 120., { 3., 1., 0.5 }, 0.2 }, { -40., { 2., -1., 0.1 }, 0.4 }, { 900., { 1., 0., 1. }, 0.3 } } },
  { { inelastic( -5e4, 1, 2., +1 ), elastic( 0, 2., 2., +1 ) }, { { 120., { 1., 2. }, 0.25 }, { 4e4, { 3., 2. }, 0.3 } } },
  { { elastic( 1, 1., 0., -1, -1. ), proton( 6.15e5, 1, 0., -1 ), fission( 1, 0., -1 ), fission( 2, 0., -1 ) }, { { 55., { 1., 0.2, -0.3, 0.4 }, 0.2 } } },
  { { elastic( 1, 2., 3., -1 ) }, {} } };
using XS = std::map< rm::ReactionID, CrossSection >;
using TM = std::map< rm::ReactionChannelID, std::complex< double > >;
static bool sameBits( const XS& a, const XS& b ) {
  if ( a.size() != b.size() ) return false;
  auto j = b.begin(); for ( auto i = a.begin(); i != a.end(); ++i, ++j ) if ( !( i->first == j->first ) || !sameBits( i->second.value, j->second.value ) ) return false;
  return true;
}
static bool sameBits( const TM& a, const TM& b ) {
  if ( a.size() != b.size() ) return false;
  auto j = b.begin(); for ( auto i = a.begin(); i != a.end(); ++i, ++j ) if ( i->first != j->first || !sameBits( i->second.real(), j->second.real() ) || !sameBits( i->second.imag(), j->second.imag() ) ) return false;
  return true;
}

// --- C15: an evaluation depends on nothing but the energy -----------------------------
static const std::vector< double > energies = { 1e-5, 1., 55., 120., 4.9e4, 5.3e4 };   // closed and open inelastic channel, resonance energies
// the answer of a fresh object, kept from the first time it was asked for: it stays the same whatever other objects do in between
template < typename Option > struct Answers {
  std::vector< GroupModel > data;
  std::map< double, XS > xs; std::map< double, TM > t;
  auto fresh( rm::SpinGroup< rm::ReichMoore, Option >* ) const { return data[ 0 ].make< Option >(); }
  auto fresh( rm::CompoundSystem< rm::ReichMoore, Option >* ) const {
    std::vector< rm::SpinGroup< rm::ReichMoore, Option > > v; for ( auto& g : data ) v.push_back( g.template make< Option >() );
    return rm::CompoundSystem< rm::ReichMoore, Option >( std::move( v ) );
  }
  template < typename System > const XS& crossSections( mc::Explorer& x, double e, System* p ) {
    auto it = xs.find( e ); if ( it != xs.end() ) return it->second;
    auto f = fresh( p ); XS got; f.evaluate( eV( e ), got );
    std::map< std::string, real > want; real factor = 0, condition = 0;
    for ( auto& g : data ) { auto r = g.evaluate( e, std::is_same_v< Option, rm::ShiftFactor > ); for ( auto& q : r.xs ) want[ q.first ] += q.second; factor += r.factor; condition += r.condition; }
    double tol = 1e-12 * (double) condition + 1e-10;
    x.check( sameCrossSections( got, want, factor, tol, tol ), "fresh-object", [&] { return mc::cat( data[ 0 ].text(), " E=", e, ": ", text( got ), "expected ", text( want ) ); } );
    return xs[ e ] = got;
  }
  template < typename System > const TM& tMatrix( mc::Explorer& x, double e, System* p ) {
    auto it = t.find( e ); if ( it != t.end() ) return it->second;
    auto f = fresh( p ); TM got; f.evaluateTMatrix( eV( e ), got );
    for ( auto& g : data ) {
      auto r = g.evaluate( e, std::is_same_v< Option, rm::ShiftFactor > ); double tol = 1e-12 * (double) r.condition + 1e-10, scale = 0;
      for ( auto& row : r.T ) for ( auto& v : row ) scale = std::max( scale, (double) std::abs( v ) );
      for ( std::size_t i = 0; i < g.channels.size(); ++i ) for ( std::size_t j = 0; j < g.channels.size(); ++j ) {
        auto k = got.find( g.channels[ i ].channelID() + "->" + g.channels[ j ].channelID() );
        x.check( k != got.end() && std::abs( k->second - std::complex< double >( (double) r.T[ i ][ j ].real(), (double) r.T[ i ][ j ].imag() ) ) <= tol * scale, "fresh-object", [&] { return mc::cat( g.text(), " E=", e, ": T matrix of a fresh object" ); } );
      }
    }
    return t[ e ] = got;
  }
};
template < typename Option, typename System >
static void history( mc::Explorer& x, Answers< Option >& first, Answers< Option >& second, int depth ) {
  System* const tag = nullptr; const int E = energies.size();
  System s = first.fresh( tag ), other = second.fresh( tag );
  std::string hist;
  for ( int step = 0; step < depth; ++step ) {
    int op = x.choose( 3 * E + 4 );
    if ( step == 0 ) x.shard();
    auto evaluate = [&]( System& o, Answers< Option >& answers, double e ) {
      XS got; o.evaluate( eV( e ), got ); x.op(); auto& want = answers.crossSections( x, e, tag );
      x.check( sameBits( got, want ), "same-as-fresh", [&] { return mc::cat( hist, ": ", text( got ), "fresh object: ", text( want ) ); } );
    };
    auto matrix = [&]( System& o, Answers< Option >& answers, double e ) {
      TM got; o.evaluateTMatrix( eV( e ), got ); x.op(); auto& want = answers.tMatrix( x, e, tag );
      x.check( sameBits( got, want ), "same-as-fresh", [&] { return mc::cat( hist, ": T matrix differs from that of a fresh object" ); } );
    };
    if ( op < E ) { hist += mc::cat( " evaluate(", energies[ op ], ")" ); evaluate( s, first, energies[ op ] ); }
    else if ( op < 2 * E ) { hist += mc::cat( " evaluateTMatrix(", energies[ op - E ], ")" ); matrix( s, first, energies[ op - E ] ); }
    else if ( op < 3 * E ) {   // the object with other data
      double e = energies[ op - 2 * E ]; hist += mc::cat( " other.evaluate(", e, ")" );
      if ( step % 2 ) matrix( other, second, e ); else evaluate( other, second, e );
    }
    else if ( op == 3 * E ) {
      hist += " grid()";
      auto got = s.grid(), want = first.fresh( tag ).grid(); x.op();
      x.check( got == want, "same-as-fresh", [&] { return mc::cat( hist, ": grid differs from that of a fresh object" ); } );
    }
    else if ( op == 3 * E + 1 ) { hist += " copy"; System copy( s ); x.op(); XS ignored; s.evaluate( eV( 333. ), ignored ); s = copy; }
    else if ( op == 3 * E + 2 ) { hist += " move"; System m( std::move( s ) ); x.op(); s = std::move( m ); }
    else { hist += " assign-from-other"; System keep( s ); s = other; x.op(); evaluate( s, second, 55. ); s = keep; }
  }
}
// per group another one with as many channels and resonances
static std::vector< GroupModel > relatives() {
  auto v = groups;
  for ( auto& g : v ) {
    for ( auto& ch : g.channels ) { ch.aP *= 1.1; ch.aphi *= 0.9; }
    for ( auto& r : g.resonances ) { r.energy *= 1.01; r.eliminated += 0.05; for ( auto& w : r.widths ) w = 0.3 - 1.2 * w; }
  }
  return v;
}
template < typename Option > static void groupHistory( mc::Explorer& x ) {
  static std::vector< Answers< Option > > first, second;
  if ( first.empty() ) { auto r = relatives(); for ( std::size_t i = 0; i < groups.size(); ++i ) { first.push_back( { { groups[ i ] }, {}, {} } ); second.push_back( { { r[ i ] }, {}, {} } ); } }
  int g = x.choose( groups.size() );
  history< Option, rm::SpinGroup< rm::ReichMoore, Option > >( x, first[ g ], second[ g ], x.thorough ? 4 : 3 );
}
template < typename Option > static rm::CompoundSystem< rm::ReichMoore, Option > system( const std::vector< int >& which ) {
  std::vector< rm::SpinGroup< rm::ReichMoore, Option > > v; for ( int i : which ) v.push_back( groups[ i ].make< Option >() );
  return rm::CompoundSystem< rm::ReichMoore, Option >( std::move( v ) );
}
template < typename Option > static void systemHistory( mc::Explorer& x, const std::vector< int >& which ) {
  static Answers< Option > first, second;
  if ( first.data.empty() ) { auto r = relatives(); for ( int i : which ) { first.data.push_back( groups[ i ] ); second.data.push_back( r[ i ] ); } }
  history< Option, rm::CompoundSystem< rm::ReichMoore, Option > >( x, first, second, x.thorough ? 4 : 3 );
}
MC_BODY( "C15", "spin-group-shift" ) { groupHistory< rm::ShiftFactor >( x ); }
MC_BODY( "C15", "spin-group-constant" ) { groupHistory< rm::Constant >( x ); }
MC_BODY( "C15", "compound-system" ) { if ( x.choose( 2 ) ) systemHistory< rm::Constant >( x, { 0, 1, 2, 3 } ); else systemHistory< rm::ShiftFactor >( x, { 2, 1, 0 } ); }

// --- C16: contributions add up ---------------------------------------------------------
template < typename Option > static void accumulation( mc::Explorer& x ) {
  int start = x.choose( 3 );   // an empty map, one with values for the same reactions, one with another reaction
  double e = energies[ x.choose( energies.size() ) ];
  int n = x.choose( 5 );
  x.shard();
  XS xs;
  std::map< std::string, real > want; real factor = 0;
  if ( start == 1 ) { for ( auto r : { "n,Cl35->n,Cl35", "n,Cl35->capture", "n,Cl35->fission" } ) { xs[ rm::ReactionID( r ) ] = 2.5 * njoy::dimwits::barn; want[ r ] = 2.5L; } }
  if ( start == 2 ) { xs[ rm::ReactionID( "n,Cl35->d,S34" ) ] = 7. * njoy::dimwits::barn; want[ "n,Cl35->d,S34" ] = 7; }
  std::vector< rm::SpinGroup< rm::ReichMoore, Option > > objects; for ( auto& g : groups ) objects.push_back( g.make< Option >() );
  std::string hist;
  for ( int i = 0; i < n; ++i ) {
    int g = x.choose( groups.size() ); hist += mc::cat( " group ", g );
    objects[ g ].evaluate( eV( e ), xs ); x.op();
    auto r = groups[ g ].evaluate( e, std::is_same_v< Option, rm::ShiftFactor > );
    for ( auto& p : r.xs ) want[ p.first ] += p.second;
    factor += r.factor;
  }
  x.check( sameCrossSections( xs, want, factor, 1e-9, 1e-11 ), "accumulate", [&] { return mc::cat( "start ", start, hist, " at E=", e, ": ", text( xs ), "expected ", text( want ) ); } );
}
// T matrix elements are those of the last evaluation, other elements stay
template < typename Option > static void assignment( mc::Explorer& x ) {
  TM got, want; got[ "x->y" ] = want[ "x->y" ] = { 5., -1. };
  std::vector< rm::SpinGroup< rm::ReichMoore, Option > > objects; for ( auto& g : groups ) objects.push_back( g.make< Option >() );
  std::string hist; int n = 1 + x.choose( x.thorough ? 4 : 3 );
  for ( int i = 0; i < n; ++i ) {
    int g = x.choose( groups.size() ); double e = std::vector< double >{ 1., 120., 5.3e4 }[ x.choose( 3 ) ]; if ( i == 0 ) x.shard();
    hist += mc::cat( " group ", g, " at ", e );
    objects[ g ].evaluateTMatrix( eV( e ), got ); TM one; groups[ g ].make< Option >().evaluateTMatrix( eV( e ), one ); x.op( 2 );
    for ( auto& p : one ) want[ p.first ] = p.second;
  }
  x.check( sameBits( got, want ), "t-matrix-replaced", [&] { return "T matrices into one map:" + hist; } );
}
MC_BODY( "C16", "t-matrix-shift" ) { assignment< rm::ShiftFactor >( x ); }
MC_BODY( "C16", "t-matrix-constant" ) { assignment< rm::Constant >( x ); }
MC_BODY( "C16", "groups-shift" ) { accumulation< rm::ShiftFactor >( x ); }
MC_BODY( "C16", "groups-constant" ) { accumulation< rm::Constant >( x ); }
template < typename Option > static void systemIsSum( mc::Explorer& x ) {
  // every ordered selection of distinct groups
  int n = 1 + x.choose( 4 ); std::vector< int > free = { 0, 1, 2, 3 }, sel;
  for ( int i = 0; i < n; ++i ) { int k = x.choose( free.size() ); sel.push_back( free[ k ] ); free.erase( free.begin() + k ); }
  x.shard();
  double e = energies[ x.choose( energies.size() ) ]; int start = x.choose( 2 );
  auto s = system< Option >( sel );
  XS xs, want; TM t, wantT;
  if ( start ) { xs[ rm::ReactionID( "n,Cl35->capture" ) ] = 3. * njoy::dimwits::barn; want = xs; t[ "x->y" ] = 5.; wantT = t; }
  s.evaluate( eV( e ), xs ); s.evaluateTMatrix( eV( e ), t ); x.op( 2 );
  for ( int i : sel ) { auto g = groups[ i ].make< Option >(); g.evaluate( eV( e ), want ); g.evaluateTMatrix( eV( e ), wantT ); x.op( 2 ); }
  auto what = [&] { std::string q = "groups"; for ( int i : sel ) q += mc::cat( " ", i ); return mc::cat( q, " E=", e, ": ", text( xs ), "sum of the groups: ", text( want ) ); };
  bool ok = xs.size() == want.size();
  for ( auto& p : xs ) { auto it = want.find( p.first ); ok = ok && it != want.end() && mc::close( p.second.value, it->second.value, 1e-12 ); }
  x.check( ok, "sum-of-groups", what );
  x.check( sameBits( t, wantT ), "t-matrix-of-all-groups", what );
  int k = 0; bool order = true; for ( auto&& g : s.spinGroups() ) { order = order && g.channels().size() == groups[ sel[ k ] ].channels.size(); ++k; }
  x.check( k == n && order, "spin-groups-kept", what );
}
MC_BODY( "C16", "system-shift" ) { systemIsSum< rm::ShiftFactor >( x ); }
MC_BODY( "C16", "system-constant" ) { systemIsSum< rm::Constant >( x ); }

// systems of many spin groups
template < typename Option > static GroupModel numbered( int i, int n ) {   // J = 0, 1, 2, ... of both parities
  double J = i / 2; short p = i % 2 ? -1 : +1; unsigned l = J == 0. ? ( p > 0 ? 2 : 1 ) : ( (int) J % 2 ? 1 : 2 ) ; if ( ( l % 2 ? -1 : 1 ) != p ) l = l == 1 ? 2 : 1;
  GroupModel g; g.channels = { elastic( l, i % 3 ? 1. : 2., J, p ) }; if ( i % 4 == 1 ) g.channels.push_back( fission( 1 + i % 2, J, p ) ); if ( i % 5 == 2 ) g.channels.insert( g.channels.begin(), inelastic( -5e4, 1, J, p ) );
  for ( int r = 0; r < i % 4; ++r ) { ResonanceModel m{ 12. + 31. * r + 3. * ( ( i * 7 ) % n ), {}, 0.2 + 0.01 * i }; for ( std::size_t k = 0; k < g.channels.size(); ++k ) m.widths.push_back( 0.6 - 0.2 * k - 0.1 * r ); g.resonances.push_back( m ); }
  return g;
}
template < typename Option > static void manyGroups( mc::Explorer& x ) {
  int n = x.choose( x.thorough ? 40 : 24 ) + 1, order = x.choose( 4 ); x.shard(); std::vector< GroupModel > list;
  for ( int i = 0; i < n; ++i ) { int k = order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? ( i % 2 ? n - 1 - i / 2 : i / 2 ) : ( i + n / 2 ) % n; list.push_back( numbered< Option >( k, n ) ); }
  std::vector< rm::SpinGroup< rm::ReichMoore, Option > > v; for ( auto& g : list ) v.push_back( g.make< Option >() );
  rm::CompoundSystem< rm::ReichMoore, Option > s( std::move( v ) ); x.op();
  auto what = [&] { return mc::cat( n, " groups, order ", order ); }; mc::note( what() );
  for ( double e : energies ) {
    XS xs; TM t; s.evaluate( eV( e ), xs ); s.evaluateTMatrix( eV( e ), t ); x.op( 2 ); std::map< std::string, real > want; real factor = 0, condition = 0; bool valid = true; TM wantT;
    for ( auto& g : list ) { auto r = g.evaluate( e, std::is_same_v< Option, rm::ShiftFactor > ); valid = valid && r.valid; for ( auto& q : r.xs ) want[ q.first ] += q.second; factor += r.factor; condition += r.condition; auto one = g.make< Option >(); one.evaluateTMatrix( eV( e ), wantT ); }
    double tol = 1e-12 * (double) condition + 1e-10;
    if ( valid ) x.check( sameCrossSections( xs, want, factor, tol, tol ), "sum-of-groups", [&] { return mc::cat( what(), " E=", e, ": ", text( xs ), "expected ", text( want ) ); } );
    x.check( sameBits( t, wantT ), "t-matrix-of-all-groups", [&] { return mc::cat( what(), " E=", e, ": T matrix" ); } );
  }
}
MC_BODY( "C16", "many-groups-shift" ) { manyGroups< rm::ShiftFactor >( x ); }
MC_BODY( "C16", "many-groups-constant" ) { manyGroups< rm::Constant >( x ); }

// --- C17: the order of channels and resonances does not matter ---------------------------
MC_BODY( "C17", "permutations" ) {
  static const std::vector< GroupModel > base = {
    groups[ 0 ], groups[ 1 ], groups[ 2 ],
    { { elastic( 0, 1., 1., +1 ), fission( 1, 1., +1 ), fission( 2, 1., +1 ), inelastic( -5e4, 1, 1., +1 ) }, { { 120., { 3., 1., 0.5, 0.2 }, 0.2 }, { -40., { 2., -1., 0.1, -0.3 }, 0.4 }, { 900., { 1., 0., 1., 0.4 }, 0. } } },
    { { elastic( 0, 1., 1., +1 ), elastic( 2, 1., 1., +1, -2. ), elastic( 2, 2., 1., +1 ), proton( 6.15e5, 0, 1., +1 ) }, { { 120., { 3., 1., 0.5, 0.2 }, 0.2 }, { 900., { 1., -1., 1., 0.4 }, 0. } } } };
  int b = x.choose( base.size() );
  const GroupModel& g = base[ b ]; GroupModel p; p.channels.clear();
  std::vector< int > free, perm; for ( std::size_t i = 0; i < g.channels.size(); ++i ) free.push_back( i );
  while ( !free.empty() ) { int k = x.choose( free.size() ); perm.push_back( free[ k ] ); free.erase( free.begin() + k ); }
  x.shard();
  std::vector< int > rfree, rperm; for ( std::size_t i = 0; i < g.resonances.size(); ++i ) rfree.push_back( i );
  while ( !rfree.empty() ) { int k = x.choose( rfree.size() ); rperm.push_back( rfree[ k ] ); rfree.erase( rfree.begin() + k ); }
  // a sign change of all widths of one resonance, or of all widths of one channel, does not matter either (for cross sections)
  int flip = x.choose( 3 );
  for ( int i : perm ) p.channels.push_back( g.channels[ i ] );
  for ( int r : rperm ) { ResonanceModel m{ g.resonances[ r ].energy, {}, g.resonances[ r ].eliminated }; for ( int i : perm ) m.widths.push_back( g.resonances[ r ].widths[ i ] ); p.resonances.push_back( m ); }
  if ( flip == 1 ) for ( auto& w : p.resonances.front().widths ) w = -w;
  if ( flip == 2 ) for ( auto& r : p.resonances ) r.widths.front() = -r.widths.front();
  auto run = [&]( auto option ) {
    using Option = decltype( option );
    auto a = g.make< Option >(), q = p.make< Option >();
    for ( double e : energies ) {
      auto r = g.evaluate( e, std::is_same_v< Option, rm::ShiftFactor > ); if ( !r.valid ) continue;
      XS xs, want; a.evaluate( eV( e ), want ); q.evaluate( eV( e ), xs ); x.op( 2 );
      bool ok = xs.size() == want.size(); double tol = 1e-11 + 1e-12 * (double) r.condition;
      for ( auto& v : xs ) { auto it = want.find( v.first ); ok = ok && it != want.end() && mc::close( v.second.value, it->second.value, tol, tol * (double) r.factor ); }
      x.check( ok, "order-irrelevant", [&] { return mc::cat( p.text(), " E=", e, ": ", text( xs ), " in the other order: ", text( want ) ); } );
    }
  };
  if ( x.choose( 2 ) ) run( rm::Constant{} ); else run( rm::ShiftFactor{} );
}

// every selection of 2 to 4 (5) of eight channels, in every order, with every order of up to three resonances and every change of sign
static void anySelection( mc::Explorer& x ) {
  static const PairModel nSecond{ 1.008664, 34.66845, 0, 17, 0.5, 2.5, "n", "Cl35_e2", "" };
  auto second = []( double q, unsigned l ) { ChannelModel m = inelastic( q, l, 1., +1 ); m.out = nSecond; m.s = 2.; return m; };
  static const std::vector< ChannelModel > pool = { elastic( 0, 1., 1., +1 ), elastic( 2, 2., 1., +1, -2. ), fission( 1, 1., +1 ), fission( 2, 1., +1 ), inelastic( -5e4, 0, 1., +1 ), second( 1e3, 2 ), proton( 6.15e5, 2, 1., +1 ), alpha( 9.4e5, 0, 1., +1 ) };
  static const std::vector< std::vector< double > > widths = { { 3., 1., -0.5, 0.2, 0.4, -1.5, 0.7, 0.3 }, { -1., 2., 0.3, 0.6, 0., 1., -0.4, 0. }, { 0.5, 0., 1., 0., 2., 0.5, 1., 1. } };
  int mask = x.choose( 256 ), n = __builtin_popcount( mask ); if ( n < 2 || n > ( x.thorough ? 5 : 4 ) || !( mask & 3 ) ) throw mc::Prune{};
  x.shard();
  std::vector< int > in, perm; for ( int i = 0; i < 8; ++i ) if ( mask >> i & 1 ) in.push_back( i );
  std::vector< int > free = in; while ( !free.empty() ) { int k = x.choose( free.size() ); perm.push_back( free[ k ] ); free.erase( free.begin() + k ); }
  int nr = 1 + x.choose( n < 4 || x.thorough ? 3 : 2 ); std::vector< int > rfree, rperm; for ( int i = 0; i < nr; ++i ) rfree.push_back( i );
  while ( !rfree.empty() ) { int k = x.choose( rfree.size() ); rperm.push_back( rfree[ k ] ); rfree.erase( rfree.begin() + k ); }
  int flip = x.choose( 1 + nr + 1 );   // nothing, a resonance, the first of the channels
  static const std::vector< double > es = { 120., -40., 5.2e4 }, eliminated = { 0.2, 0.4, 0. };
  auto build = [&]( const std::vector< int >& order, const std::vector< int >& rorder, bool flipped ) {
    GroupModel g; for ( int c : order ) g.channels.push_back( pool[ c ] );
    for ( int r : rorder ) { ResonanceModel m{ es[ r ], {}, eliminated[ r ] }; for ( int c : order ) m.widths.push_back( ( flipped && ( flip == 1 + r || ( flip == 1 + nr && c == perm.front() ) ) ? -1. : 1. ) * widths[ r ][ c ] ); g.resonances.push_back( m ); }
    return g;
  };
  std::vector< int > sorted; for ( int r = 0; r < nr; ++r ) sorted.push_back( r );
  GroupModel g = build( in, sorted, false ), p = build( perm, rperm, true );
  static std::map< std::pair< int, int >, std::vector< std::pair< GroupModel::Result, XS > > > known[ 2 ];   // of the first order
  auto run = [&]( auto option ) {
    using Option = decltype( option ); constexpr bool shift = std::is_same_v< Option, rm::ShiftFactor >;
    auto& first = known[ shift ][ { mask, nr } ];
    if ( first.empty() ) { auto a = g.make< Option >(); for ( double e : energies ) { XS xs; a.evaluate( eV( e ), xs ); first.emplace_back( g.evaluate( e, shift ), xs ); x.op(); } }
    auto q = p.make< Option >();
    for ( std::size_t i = 0; i < energies.size(); ++i ) {
      auto& [ r, want ] = first[ i ]; if ( !r.valid ) continue;
      XS xs; q.evaluate( eV( energies[ i ] ), xs ); x.op();
      bool ok = xs.size() == want.size(); double tol = 1e-11 + 1e-12 * (double) r.condition;
      for ( auto& v : xs ) { auto it = want.find( v.first ); ok = ok && it != want.end() && mc::close( v.second.value, it->second.value, tol, tol * (double) r.factor ); }
      x.check( ok, "order-irrelevant", [&] { return mc::cat( p.text(), " E=", energies[ i ], ": ", text( xs ), " in the first order: ", text( want ) ); } );
    }
  };
  run( rm::Constant{} ); run( rm::ShiftFactor{} );
}
MC_BODY( "C17", "selections" ) { anySelection( x ); }
MC_BODY( "C17", "large-groups" ) {   // rotations, reversals and exchanges of two channels or two resonances of large groups
  static const std::vector< int > channels = { 5, 9, 14 }, more = { 5, 8, 9, 12, 16, 17, 24 }, count = { 3, 11, 24 };
  int n = x.pick( x.thorough ? more : channels ), nr = x.pick( count ), kind = x.choose( 5 ); x.shard(); int where = x.choose( kind < 2 ? n : kind == 2 ? 1 : nr );
  GroupModel g; g.channels = largeChannels( n, 0, 0 ); g.resonances = largeResonances( nr, n, 0 ); GroupModel p = g;
  auto permute = [&]( auto f ) { f( p.channels ); for ( auto& r : p.resonances ) f( r.widths ); };
  if ( kind == 0 ) permute( [&]( auto& v ) { std::rotate( v.begin(), v.begin() + where, v.end() ); } );
  if ( kind == 1 ) permute( [&]( auto& v ) { std::swap( v[ 0 ], v[ where ] ); } );
  if ( kind == 2 ) { permute( [&]( auto& v ) { std::reverse( v.begin(), v.end() ); } ); std::reverse( p.resonances.begin(), p.resonances.end() ); }
  if ( kind == 3 ) std::swap( p.resonances[ 0 ], p.resonances[ where ] );
  if ( kind == 4 ) { std::rotate( p.resonances.begin(), p.resonances.begin() + where, p.resonances.end() ); for ( auto& w : p.resonances[ where ].widths ) w = -w; }
  auto run = [&]( auto option ) {
    using Option = decltype( option ); auto a = g.make< Option >(), q = p.make< Option >();
    for ( double e : { 0.3, 124., 2e4, 9e5 } ) {
      auto r = g.evaluate( e, std::is_same_v< Option, rm::ShiftFactor > ); if ( !r.valid ) continue;
      XS xs, want; a.evaluate( eV( e ), want ); q.evaluate( eV( e ), xs ); x.op( 2 );
      bool ok = xs.size() == want.size(); double tol = 1e-11 + 1e-12 * (double) r.condition;
      for ( auto& v : xs ) { auto it = want.find( v.first ); ok = ok && it != want.end() && mc::close( v.second.value, it->second.value, tol, tol * (double) r.factor ); }
      x.check( ok, "order-irrelevant", [&] { return mc::cat( p.text(), " E=", e, ": ", text( xs ), " in the other order: ", text( want ) ); } );
    }
  };
  if ( x.choose( 2 ) ) run( rm::Constant{} ); else run( rm::ShiftFactor{} );
}

// --- C18: closed channels ---------------------------------------------------------------
template < typename Option > static void around( mc::Explorer& x, const GroupModel& g, int ulps, int lattice );
template < typename Option > static void closedChannels( mc::Explorer& x ) {
  static const std::vector< std::vector< ChannelModel > > sets = {
    { elastic( 0, 1., 1., +1 ), inelastic( -5e4, 1, 1., +1 ) },
    { elastic( 0, 1., 1., +1 ), proton( -5e4, 0, 1., +1 ) },
    { elastic( 0, 1., 1., +1 ), alpha( -2e6, 1, 1., +1 ), inelastic( -5e4, 0, 1., +1 ) },
    { inelastic( -5e4, 2, 1., +1 ), elastic( 0, 1., 1., +1 ), fission( 1, 1., +1 ), proton( -5e6, 2, 1., +1 ) },
    { proton( -1e3, 1, 1., +1 ), elastic( 2, 1., 1., +1, -2. ), inelastic( -1e-1, 0, 1., +1 ), elastic( 0, 1., 1., +1 ) } };
  int si = x.choose( sets.size() );
  GroupModel g; g.channels = sets[ si ];
  int nr = x.choose( 3 );
  static const std::vector< double > w = { 2., 1.3, -0.7, 0.9 };
  for ( int i = 0; i < nr; ++i ) { ResonanceModel r{ i ? 4e4 : 120., {}, i ? 0.3 : 0. }; for ( std::size_t k = 0; k < g.channels.size(); ++k ) r.widths.push_back( w[ ( k + i ) % 4 ] ); g.resonances.push_back( r ); }
  around< Option >( x, g, 81, x.thorough ? 240 : 48 );
}
// every selection of closed channels: several pairs, the same pair with two l, the same threshold twice, boundary conditions that are not those of a closed channel
template < typename Option > static void closedSelections( mc::Explorer& x ) {
  static const PairModel nSecond{ 1.008664, 34.66845, 0, 17, 0.5, 2.5, "n", "Cl35_e2", "" };
  static const PairModel nThird{ 1.008664, 34.66845, 0, 17, 0.5, 3.5, "n", "Cl35_e3", "" };
  auto second = []( double q, unsigned l ) { ChannelModel m = inelastic( q, l, 1., +1 ); m.out = l == 1 ? nThird : nSecond; m.s = 2.; m.B = 0.5; return m; };
  static const PairModel pExcited{ 1.00727647, 34.96903, 1, 16, 0.5, 0.5, "p", "S35_e1", "" };
  auto excited = []( double q, unsigned l ) { ChannelModel m = proton( q, l, 1., +1 ); m.out = pExcited; return m; };
  static const std::vector< ChannelModel > pool = { inelastic( -5e4, 0, 1., +1 ), inelastic( -5e4, 2, 1., +1 ), second( -5e4, 2 ), second( -2., 1 ), proton( -5e4, 0, 1., +1 ), excited( -9e5, 2 ), alpha( -3e6, 1, 1., +1 ), fission( 1, 1., +1 ) };
  int mask = x.choose( 256 ), n = __builtin_popcount( mask ); if ( !n || n > ( x.thorough ? 4 : 3 ) || mask == 128 ) throw mc::Prune{};
  int at = x.choose( 3 ), nr = x.choose( 3 ), bound = x.choose( 2 );   // where the elastic channel is
  GroupModel g; for ( int i = 0; i < 8; ++i ) if ( mask >> i & 1 ) g.channels.push_back( pool[ i ] );
  g.channels.insert( g.channels.begin() + std::min< std::size_t >( at, g.channels.size() ), elastic( 0, 1., 1., +1 ) ); if ( at == 2 ) g.channels.push_back( elastic( 2, 2., 1., +1, -2. ) );
  static const std::vector< double > w = { 2., 1.3, -0.7, 0.9, 0.4, -1.1 };
  for ( int i = 0; i < nr; ++i ) { ResonanceModel r{ i ? 4e4 : bound ? -30. : 120., {}, i ? 0.3 : 0. }; for ( std::size_t k = 0; k < g.channels.size(); ++k ) r.widths.push_back( w[ ( k + i ) % 6 ] ); g.resonances.push_back( r ); }
  if ( !nr && bound ) throw mc::Prune{};
  around< Option >( x, g, x.thorough ? 33 : 9, x.thorough ? 48 : 12 );
}
template < typename Option > static void around( mc::Explorer& x, const GroupModel& g, int ulps, int lattice ) {
  // energies: on a lattice, and around every threshold down to the last bit
  std::vector< double > thresholds; for ( auto& ch : g.channels ) if ( ch.q < 0 ) thresholds.push_back( (double)( -(real) ch.q / ch.in.ratio() ) );
  int where = x.choose( 1 + thresholds.size() );
  x.shard();
  double e;
  if ( where == 0 ) e = std::pow( 10., -5. + 12. * x.choose( lattice ) / lattice );
  else {
    int d = x.choose( ulps ) - ulps / 2; double t = thresholds[ where - 1 ];
    if ( std::abs( d ) <= 8 ) { e = t; for ( int i = 0; i < std::abs( d ); ++i ) e = std::nextafter( e, d > 0 ? 1e300 : 0. ); }
    else e = t * ( 1. + ( d > 0 ? 1. : -1. ) * std::pow( 10., -16. + 0.49 * ( std::abs( d ) - 8 ) ) );
    if ( !( e > 0 ) ) throw mc::Prune();
  }
  GroupModel open = g; open.channels.clear(); for ( auto& r : open.resonances ) r.widths.clear();
  bool doubtful = false; std::vector< std::string > closed;
  auto real_ = g.make< Option >();
  for ( std::size_t i = 0; i < g.channels.size(); ++i ) {
    auto& ch = g.channels[ i ];
    real ecm = channelEnergy( ch.in, ch.q, e );
    if ( ch.q != 0 && std::fabs( ecm ) < 1e-13L * std::fabs( (real) ch.q ) ) doubtful = true;   // open or closed is a matter of rounding
    if ( ecm < 0 ) { closed.push_back( ch.reaction() ); continue; }
    open.channels.push_back( ch ); for ( std::size_t r = 0; r < g.resonances.size(); ++r ) open.resonances[ r ].widths.push_back( g.resonances[ r ].widths[ i ] );
  }
  auto what = [&] { return mc::cat( std::is_same_v< Option, rm::Constant > ? "Constant " : "ShiftFactor ", g.text(), " E=", e, " (", closed.size(), " closed)" ); };
  mc::note( what() );
  XS xs; 
  try { real_.evaluate( eV( e ), xs ); } catch ( ... ) { x.check( false, "evaluates", [&] { return what() + " throws"; } ); return; }
  x.op();
  bool finite = true; for ( auto& p : xs ) finite = finite && std::isfinite( p.second.value ) ;
  if ( !finite ) {
    // known finding: exactly at the threshold of a charged particle channel
    bool atThreshold = false;
    for ( auto& ch : g.channels ) if ( ch.kind == CHARGED ) std::visit( [&]( const auto& real ) { if ( real.waveNumber( eV( e ) ).value == 0. ) atThreshold = true; }, ch.make() );
    ++x.checks; x.fail( "finite", what() + ": " + text( xs ), atThreshold ? "C18-K1" : "" ); return;
  }
  x.check( true, "finite", what );
  if ( doubtful ) return;
  for ( auto& r : closed ) { auto it = xs.find( rm::ReactionID( r ) ); x.check( it != xs.end() && it->second.value == 0., "closed-is-zero", [&] { return what() + ": " + text( xs ); } ); }
  auto rest = open.make< Option >(); XS want; rest.evaluate( eV( e ), want ); x.op();
  auto model = open.evaluate( e, std::is_same_v< Option, rm::ShiftFactor > );
  if ( !model.valid ) return;
  double tol = 1e-11 + 1e-12 * (double) model.condition;
  for ( auto& p : want ) { auto it = xs.find( p.first ); x.check( it != xs.end() && mc::close( it->second.value, p.second.value, tol, tol * (double) model.factor ), "open-channels-as-without", [&] { return what() + ": " + text( xs ) + " without the closed channels: " + text( want ); } ); }
  TM t; real_.evaluateTMatrix( eV( e ), t ); x.op();
  for ( auto& a : g.channels ) for ( auto& b : g.channels ) {
    bool zero = channelEnergy( a.in, a.q, e ) < 0 || channelEnergy( b.in, b.q, e ) < 0;
    auto it = t.find( a.channelID() + "->" + b.channelID() );
    if ( zero ) x.check( it != t.end() && it->second == 0., "closed-t-is-zero", [&] { return mc::cat( what(), " T ", a.channelID(), "->", b.channelID(), it == t.end() ? " missing" : " is not zero" ); } );
  }
}
template < typename Option > static void closedLarge( mc::Explorer& x ) {   // many levels, the open ones and the closed ones next to each other
  static const std::vector< int > channels = { 7, 11, 16 }, more = { 7, 8, 10, 12, 17, 20, 24 }; int n = x.pick( x.thorough ? more : channels ), order = x.choose( 3 ), nr = x.choose( 3 ) * 5;
  GroupModel g; g.channels = largeChannels( n, 0, order ); for ( auto& ch : g.channels ) if ( ch.kind == CHARGED ) ch.q -= 7e5;
  g.resonances = largeResonances( nr, n, 0 ); around< Option >( x, g, 9, x.thorough ? 48 : 24 );
}
MC_BODY( "C18", "large-groups, shift-factor" ) { closedLarge< rm::ShiftFactor >( x ); }
MC_BODY( "C18", "large-groups, constant" ) { closedLarge< rm::Constant >( x ); }
MC_BODY( "C18", "shift-factor" ) { closedChannels< rm::ShiftFactor >( x ); }
MC_BODY( "C18", "constant" ) { closedChannels< rm::Constant >( x ); }
MC_BODY( "C18", "selections, shift-factor" ) { closedSelections< rm::ShiftFactor >( x ); }
MC_BODY( "C18", "selections, constant" ) { closedSelections< rm::Constant >( x ); }

// --- C21: the energy grid ----------------------------------------------------------------
template < typename Option > static void gridOf( mc::Explorer& x, const GroupModel& g );
template < typename Option > static void gridCheck( mc::Explorer& x ) {
  // up to three resonances out of these, in every order; equal energies included
  static const std::vector< double > es = { -50., 0., 1e-3, 20., 20., 4e3, 7e4 };
  int n = x.choose( 4 );
  int set = x.choose( 3 );
  std::vector< ChannelModel > chs = set == 0 ? std::vector< ChannelModel >{ elastic( 0, 1., 1., +1 ) } : set == 1 ? std::vector< ChannelModel >{ elastic( 1, 1., 1., -1 ), fission( 1, 1., -1 ) }
    : std::vector< ChannelModel >{ elastic( 0, 1., 1., +1 ), inelastic( -5e4, 1, 1., +1 ), elastic( 2, 1., 1., +1 ), proton( 6.15e5, 0, 1., +1 ) };
  GroupModel g; g.channels = chs;
  for ( int i = 0; i < n; ++i ) {
    double e = es[ x.choose( es.size() ) ]; int w = x.choose( 3 ); ResonanceModel r{ e, {}, w == 2 ? 0. : 0.05 };
    for ( std::size_t k = 0; k < chs.size(); ++k ) r.widths.push_back( w == 0 ? 0.02 : ( k % 2 ? -0.3 : 0.2 ) );
    g.resonances.push_back( r );
  }
  x.shard();
  gridOf< Option >( x, g );
}
template < typename Option > static void gridOf( mc::Explorer& x, const GroupModel& g ) {
  auto& chs = g.channels; auto group = g.make< Option >(); auto got = group.grid(); x.op();
  std::vector< real > want;
  for ( auto& r : g.resonances ) if ( r.energy > 0 ) {
    real total = 2 * (real) r.eliminated * r.eliminated;
    for ( std::size_t k = 0; k < chs.size(); ++k ) total += 2 * (real) r.widths[ k ] * r.widths[ k ] * chs[ k ].at( r.energy ).P;
    want.push_back( r.energy - total / 2 ); want.push_back( r.energy ); want.push_back( r.energy + total / 2 );
  }
  std::sort( want.begin(), want.end() );
  auto what = [&] { std::string s = g.text() + ": grid"; for ( auto& v : got ) s += " " + mc::num( v.value ); s += " expected"; for ( auto v : want ) s += " " + mc::num( (double) v ); return s; };
  for ( std::size_t i = 1; i < got.size(); ++i ) x.check( got[ i - 1 ].value < got[ i ].value, "increasing", what );
  // every expected point is there, and nothing else
  for ( auto v : want ) { bool found = false; for ( auto& q : got ) found = found || mc::close( q.value, (double) v, 1e-9, 1e-12 ); x.check( found, "complete", what ); }
  for ( auto& r : g.resonances ) if ( r.energy > 0 ) { bool found = false; for ( auto& q : got ) found = found || q.value == r.energy; x.check( found, "resonance-energies", what ); }
  for ( auto& q : got ) { bool found = false; for ( auto v : want ) found = found || mc::close( q.value, (double) v, 1e-9, 1e-12 ); x.check( found, "nothing-else", what ); }
  x.check( want.empty() == got.empty(), "complete", what );
}
MC_BODY( "C21", "spin-group" ) { if ( x.choose( 2 ) ) gridCheck< rm::Constant >( x ); else gridCheck< rm::ShiftFactor >( x ); }
MC_BODY( "C21", "large-groups" ) {
  static const std::vector< int > channels = { 1, 4, 9, 14 }, more = { 1, 2, 4, 8, 9, 14, 17, 24 }; int n = x.pick( x.thorough ? more : channels ), nr = x.choose( x.thorough ? 120 : 40 ), order = x.choose( 2 ); x.shard();
  GroupModel g; g.channels = largeChannels( n, 0, x.choose( 3 ) ); g.resonances = largeResonances( nr, n, order );
  if ( x.choose( 2 ) ) gridOf< rm::Constant >( x, g ); else gridOf< rm::ShiftFactor >( x, g );
}
MC_BODY( "C21", "many-groups" ) {
  int n = x.choose( x.thorough ? 40 : 24 ) + 1, order = x.choose( 2 ); x.shard(); std::vector< rm::SpinGroup< rm::ReichMoore, rm::ShiftFactor > > v; std::set< double > want;
  for ( int i = 0; i < n; ++i ) { auto g = numbered< rm::ShiftFactor >( order ? n - 1 - i : i, n ); v.push_back( g.make< rm::ShiftFactor >() ); for ( auto e : g.make< rm::ShiftFactor >().grid() ) want.insert( e.value ); }
  rm::CompoundSystem< rm::ReichMoore, rm::ShiftFactor > s( std::move( v ) ); auto got = s.grid(); x.op();
  bool ok = got.size() == want.size(); std::size_t i = 0; for ( double e : want ) { ok = ok && i < got.size() && sameBits( got[ i ].value, e ); ++i; }
  x.check( ok, "union-of-groups", [&] { return mc::cat( n, " groups: grid of the system has ", got.size(), " points, the union of its groups ", want.size() ); } );
}
MC_BODY( "C21", "close-resonances" ) {   // different energies stay different however close, equal ones are one
  static const std::vector< double > es = { 20., std::nextafter( 20., 30. ), 20. * ( 1 + 1e-13 ), 20. * ( 1 + 1e-10 ), 20. * ( 1 + 1e-7 ), 20.001, 19.999, 1e-5, 1.0000001e-5, -20. };
  int n = 2 + x.choose( 3 ); GroupModel g; g.channels = { elastic( 0, 1., 1., +1 ) };
  for ( int i = 0; i < n; ++i ) { g.resonances.push_back( { es[ x.choose( es.size() ) ], { 0.3 + 0.1 * i }, 0.05 } ); if ( i == 1 ) x.shard(); }
  auto group = g.make< rm::ShiftFactor >(); auto got = group.grid(); x.op();
  bool up = true, all = true; for ( std::size_t i = 1; i < got.size(); ++i ) up = up && got[ i - 1 ].value < got[ i ].value;
  std::set< double > energies; for ( auto& r : g.resonances ) if ( r.energy > 0 ) energies.insert( r.energy );
  for ( double e : energies ) { bool f = false; for ( auto& q : got ) f = f || q.value == e; all = all && f; }
  x.check( up && all, "close-resonances", [&] { std::string s = g.text() + ": grid"; for ( auto& v : got ) s += " " + mc::num( v.value ); return s; } );
}
MC_BODY( "C21", "compound-system" ) {
  int n = 1 + x.choose( 4 ); std::vector< int > free = { 0, 1, 2, 3 }, sel;
  for ( int i = 0; i < n; ++i ) { int k = x.choose( free.size() ); sel.push_back( free[ k ] ); free.erase( free.begin() + k ); }
  x.shard();
  auto s = system< rm::ShiftFactor >( sel ); auto got = s.grid(); x.op();
  std::set< double > want; for ( int i : sel ) for ( auto v : groups[ i ].make< rm::ShiftFactor >().grid() ) want.insert( v.value );
  bool ok = got.size() == want.size(); std::size_t i = 0; for ( double v : want ) { ok = ok && i < got.size() && sameBits( got[ i ].value, v ); ++i; }
  x.check( ok, "union-of-groups", [&] { return mc::cat( "grid of the system has ", got.size(), " points, the union of its groups ", want.size() ); } );
}
int main( int argc, char** argv ) { return mc::mainLoop( argc, argv ); }
