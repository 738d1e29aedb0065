// C26: the reconstructor around each kind of compound system
#include "rmlegacy.hpp"
#include "rmgroup.hpp"
using Variant = rm::CompoundSystemVariant;
static const PairModel target{ 1.008664, 34.66845 * 1.008664, 0, 17, 0.5, 1.5, "n", "Cl35", "" }, proton{ 1.00727, 34.97, 1, 16, 0.5, 1.5, "p", "S35", "" };
template < typename Option > static rm::CompoundSystem< rm::ReichMoore, Option > matrixSystem( bool bound ) {
  GroupModel a{ { { NEUTRON, target, target, 0., 0, 1., 1., 1, 0.48, 0.48, 0.46, 0.1, "" }, { CHARGED, target, proton, 6.15e5, 0, 1., 1., 1, 0.48, 0.48, 0.46, 0., "" } }, { { 20., { 2., 0.3 }, 0.2 }, { 400., { 5., -0.2 }, 0.3 } } };
  GroupModel b{ { { NEUTRON, target, target, 0., 1, 1., 2., -1, 0.48, 0.48, 0.46, 0., "" } }, { { 90., { 8. }, 0.2 } } };
  if ( bound ) b.resonances.insert( b.resonances.begin(), { -30., { 3. }, 0.1 } );
  std::vector< rm::SpinGroup< rm::ReichMoore, Option > > v; v.push_back( a.make< Option >() ); v.push_back( b.make< Option >() );
  return rm::CompoundSystem< rm::ReichMoore, Option >( std::move( v ) );
}
template < typename Formalism > static rl::resolved::CompoundSystem< Formalism > legacySystem( bool bound ) {
  ResolvedModel a{ { u238, 0, 0.5, 0.84, 0.84, 0.95 }, 0., { { 20., 1.5e-3, 0.023, 0., 0. }, { 400., 1e-2, 0.023, 0.001, 0. } } }, b{ { u238, 1, 0.5, 0.84, 0.84, 0.95 }, 0., { { 90., 1.7e-6, 0.023, 0., 0. } } };
  if ( bound ) b.resonances.push_back( { -7., 2e-5, 0.02, 0.02, 0. } );
  using G = rl::resolved::SpinGroup< Formalism >; std::vector< G > v; v.push_back( a.make< G >() ); v.push_back( b.make< G >() );
  return rl::resolved::CompoundSystem< Formalism >( std::move( v ) );
}
static rl::unresolved::CompoundSystem averageSystem( bool more ) {
  UnresolvedModel a{ { u238, 0, 0.5, 0.84, 0.84, 0.95 }, 1, 0, 0, { { 10., 20., 1e-4, 0.023, 0., 0. }, { 95., 19., 1.1e-4, 0.024, 0., 0. }, { 900., 19., 1.1e-4, 0.024, 0., 0. } } }, b{ { u238, 1, 1.5, 0.84, 0.84, 0.95 }, 2, 2, 1, { { 10., 11., 3e-4, 0.023, 0.1, 0.1 }, { 900., 10., 3.1e-4, 0.024, 0.1, 0.2 } } };
  std::vector< rl::unresolved::SpinGroup > v; v.push_back( a.make() ); if ( more ) v.push_back( b.make() ); return rl::unresolved::CompoundSystem( std::move( v ) );
}
static Variant make( int kind, bool more ) {
  switch ( kind ) { case 0: return legacySystem< rm::SingleLevelBreitWigner >( more ); case 1: return legacySystem< rm::MultiLevelBreitWigner >( more );
    case 2: return matrixSystem< rm::ShiftFactor >( more ); case 3: return matrixSystem< rm::Constant >( more ); default: return averageSystem( more ); }
}
static XS direct( Variant& v, double e ) { XS xs; std::visit( [&]( auto& s ) { s.evaluate( eV( e ), xs ); }, v ); return xs; }
static std::vector< double > directGrid( Variant& v ) { std::vector< double > g; std::visit( [&]( auto& s ) { for ( auto& e : s.grid() ) g.push_back( e.value ); }, v ); return g; }
static bool identical( const XS& a, const XS& b ) {
  if ( a.size() != b.size() ) return false;
  auto j = b.begin(); for ( auto i = a.begin(); i != a.end(); ++i, ++j ) if ( !( i->first == j->first ) || !sameBits( i->second.value, j->second.value ) ) return false;
  return true;
}
static const std::vector< double > bounds = { 10., 19.9, 20., 20.1, 90., 125., 400., 900. };
static void checkAt( mc::Explorer& x, rm::Reconstructor& r, int kind, bool more, double lo, double hi, double e, const std::string& t ) {
  XS got = r( eV( e ) ); x.op();
  if ( e >= lo && e <= hi ) { auto v = make( kind, more ); XS want = direct( v, e ); x.check( identical( got, want ) && !got.empty(), "inside", [&] { return t + mc::cat( " E=", e, ": got ", text( got ), "system ", text( want ) ); } ); }
  else x.check( got.empty(), "outside", [&] { return t + mc::cat( " E=", e, ": ", text( got ) ); } );
}
static void checkGrid( mc::Explorer& x, const rm::Reconstructor& r, int kind, bool more, double lo, double hi, const std::string& t ) {
  auto v = make( kind, more ); std::vector< double > want, got; for ( double e : directGrid( v ) ) if ( e >= lo && e <= hi ) want.push_back( e );
  for ( auto& e : r.grid() ) got.push_back( e.value ); x.op();
  x.check( got == want, "grid", [&] { std::string s = t + ": grid"; for ( double e : got ) s += " " + mc::num( e ); s += " expected"; for ( double e : want ) s += " " + mc::num( e ); return s; } );
}
MC_BODY( "C26", "limits" ) {   // every pair of limits, energies at them, one double beside them, and between
  int kind = x.choose( 5 ), a = x.choose( bounds.size() ), b = x.choose( bounds.size() ); if ( a > b ) throw mc::Prune();
  x.shard(); bool more = x.choose( 2 ); double lo = bounds[ a ], hi = bounds[ b ];
  if ( x.choose( 2 ) ) lo = std::nextafter( lo, 1e9 ); if ( x.choose( 2 ) ) hi = std::nextafter( hi, 0. );
  std::string t = mc::cat( "kind ", kind, " limits ", lo, " ", hi ); mc::note( t );
  rm::Reconstructor r( eV( lo ), eV( hi ), make( kind, more ) ); x.op();
  x.check( r.lowerEnergy().value == lo && r.upperEnergy().value == hi, "limits", [&] { return t; } );
  x.check( r.isResolved() == ( kind != 4 ) && r.isUnresolved() == ( kind == 4 ) && (int) r.compoundSystem().index() == kind, "kind", [&] { return t; } );
  checkGrid( x, r, kind, more, lo, hi, t );
  for ( double e : { lo, hi } ) for ( double v : { e, std::nextafter( e, 0. ), std::nextafter( e, 1e9 ) } ) if ( kind != 4 || ( v >= 10. && v <= 900. ) ) checkAt( x, r, kind, more, lo, hi, v, t );
  for ( double v : { 1e-5, 12., 33., 95., 399., 899., 1e4 } ) checkAt( x, r, kind, more, lo, hi, v, t );
}
MC_BODY( "C26", "histories" ) {   // all sequences of operations: the answers do not depend on what was asked before
  int kind = x.choose( 5 ); double lo = 20., hi = 400.; std::string t = mc::cat( "kind ", kind, ":" ); rm::Reconstructor r( eV( lo ), eV( hi ), make( kind, true ) ); x.op();
  int depth = x.thorough ? 6 : 5; static const std::vector< double > es = { 20., 90., 400., 19., 401. };
  for ( int i = 0; i < depth; ++i ) {
    int op = x.choose( 9 ); if ( i == 0 ) x.shard();
    if ( op < 5 ) { t += mc::cat( " (", es[ op ], ")" ); checkAt( x, r, kind, true, lo, hi, es[ op ], t ); }
    else if ( op == 5 ) { t += " grid"; checkGrid( x, r, kind, true, lo, hi, t ); }
    else if ( op == 6 ) { t += " copy"; rm::Reconstructor copy( r ); r( eV( 33. ) ); x.op(); r = copy; }
    else if ( op == 7 ) { t += " move"; rm::Reconstructor other( std::move( r ) ); x.op(); r = std::move( other ); }
    else { t += " system"; XS xs = direct( r.compoundSystem(), 50. ); x.op(); auto v = make( kind, true ); x.check( identical( xs, direct( v, 50. ) ), "inside", [&] { return t + ": " + text( xs ); } ); }
  }
}
int main( int argc, char** argv ) { return mc::mainLoop( argc, argv ); }
