// C01 C02 C08 C09: quantum numbers and packs, on the slice
#include "std.hpp"
#include "resonanceReconstruction.hpp"
#include "mc.hpp"
namespace rr = njoy::resonanceReconstruction;
namespace rm = njoy::resonanceReconstruction::rmatrix;

// half integers are kept doubled in the model: exact integer arithmetic
static std::vector< int > couple( int a, int b ) {      // |a-b|, |a-b|+2, ..., a+b
  std::vector< int > v; for ( int j = std::abs( a - b ); j <= a + b; j += 2 ) v.push_back( j ); return v;
}
static std::string show( const std::vector< double >& v ) { std::string s = "{"; for ( double d : v ) s += mc::cat( s.size() > 1 ? "," : "", d ); return s + "}"; }
static std::vector< double > half( const std::vector< int >& v ) { std::vector< double > r; for ( int i : v ) r.push_back( i / 2. ); return r; }
template < typename R > static std::vector< double > list( const R& r ) { std::vector< double > v; for ( auto d : r ) v.push_back( d ); return v; }

MC_BODY( "C01", "channel-spins" ) {
  const int n = x.thorough ? 601 : 241;
  int i = x.choose( n ); x.shard(); int I = x.choose( n );
  auto got = list( rm::possibleChannelSpinValues( i / 2., I / 2. ) ); x.op();
  auto swapped = list( rm::possibleChannelSpinValues( I / 2., i / 2. ) ); x.op();
  auto expected = half( couple( i, I ) );
  if ( x.wantSample() ) x.sample( mc::cat( "i=", i / 2., " I=", I / 2., " s=", show( got ) ) );
  x.check( got == expected, "channel-spins", [&] { return mc::cat( "i=", i / 2., " I=", I / 2., " gave ", show( got ), " expected ", show( expected ) ); } );
  x.check( swapped == expected, "symmetry", [&] { return mc::cat( "i=", I / 2., " I=", i / 2., " gave ", show( swapped ), " expected ", show( expected ) ); } );
}
MC_BODY( "C02", "J-from-l-s" ) {
  unsigned l = x.choose( x.thorough ? 301 : 151 ); x.shard(); int s = x.choose( x.thorough ? 401 : 201 );
  auto got = list( rm::possibleChannelTotalAngularMomentumValues( l, s / 2. ) ); x.op();
  auto expected = half( couple( 2 * l, s ) );
  if ( x.wantSample() ) x.sample( mc::cat( "l=", l, " s=", s / 2., " J=", show( got ) ) );
  x.check( got == expected, "J(l,s)", [&] { return mc::cat( "l=", l, " s=", s / 2., " gave ", show( got ), " expected ", show( expected ) ); } );
}
MC_BODY( "C02", "J-from-l-i-I" ) {
  const int n = x.thorough ? 61 : 41;
  unsigned l = x.choose( x.thorough ? 61 : 41 ); x.shard(); int i = x.choose( n ), I = x.choose( n );
  auto got = list( rm::possibleChannelTotalAngularMomentumValues( l, i / 2., I / 2. ) ); x.op();
  std::set< int > all;
  for ( int s : couple( i, I ) ) for ( int J : couple( 2 * l, s ) ) all.insert( J );
  auto expected = half( std::vector< int >( all.begin(), all.end() ) );
  if ( x.wantSample() ) x.sample( mc::cat( "l=", l, " i=", i / 2., " I=", I / 2., " J=", show( got ) ) );
  ++x.checks;
  if ( got == expected ) return;
  auto what = mc::cat( "l=", l, " i=", i / 2., " I=", I / 2., " gave ", show( got ), " expected ", show( expected ) );
  // known finding: for a projectile of spin 1 or more the list starts at ||l-I|-i|
  std::vector< double > known;
  for ( double j = std::abs( std::abs( (double) l - I / 2. ) - i / 2. ); ; j += 1. ) { known.push_back( j ); if ( !( l + i / 2. + I / 2. > j ) ) break; }
  bool isKnown = i >= 2 && got == known;
  x.fail( isKnown ? "projectile-spin-above-one-half" : "J(l,i,I)", what, isKnown ? "C02-K1" : "" );
}
MC_BODY( "C02", "consistency" ) {
  // for spin 0 and spin 1/2 projectiles: the list for (l,i,I) is what the channels s allow
  unsigned l = x.choose( x.thorough ? 201 : 101 ); x.shard(); int i = x.choose( 2 ), I = x.choose( x.thorough ? 241 : 121 );
  std::set< double > all;
  for ( double s : list( rm::possibleChannelSpinValues( i / 2., I / 2. ) ) ) { x.op(); for ( double J : list( rm::possibleChannelTotalAngularMomentumValues( l, s ) ) ) all.insert( J ); }
  auto got = list( rm::possibleChannelTotalAngularMomentumValues( l, i / 2., I / 2. ) ); x.op();
  x.check( got == std::vector< double >( all.begin(), all.end() ), "union", [&] { return mc::cat( "l=", l, " i=", i / 2., " I=", I / 2., " gave ", show( got ) ); } );
}

// --- C08 ------------------------------------------------------------------------
static std::string halfString( int twice ) { return twice % 2 ? std::to_string( twice ) + "/2" : std::to_string( twice / 2 ); }
MC_BODY( "C08", "identifier" ) {
  unsigned l = x.choose( x.thorough ? 131 : 71 ); int s = x.choose( x.thorough ? 161 : 101 ); x.shard();
  int J = x.choose( x.thorough ? 281 : 161 ); int p = x.choose( 2 ) ? 1 : -1;
  rm::ChannelQuantumNumbers q( l, s / 2., J / 2., p ); x.op();
  std::string expected = "{" + std::to_string( l ) + "," + halfString( s ) + "," + halfString( J ) + ( p > 0 ? "+" : "-" ) + "}";
  auto got = q.toString(); x.op();
  auto again = q.toString(); x.op();
  if ( x.wantSample() ) x.sample( got );
  x.check( got == expected, "toString", [&] { return mc::cat( "l=", l, " s=", s / 2., " J=", J / 2., " parity ", p, " gave ", got, " expected ", expected ); } );
  x.check( again == got, "stable", [&] { return mc::cat( got, " then ", again ); } );
  x.check( q.orbitalAngularMomentum() == l && q.spin() == s / 2. && q.totalAngularMomentum() == J / 2. && q.parity() == p, "accessors",
           [&] { return mc::cat( "l=", l, " s=", s / 2., " J=", J / 2., " parity ", p, " returned ", q.orbitalAngularMomentum(), ",", q.spin(), ",", q.totalAngularMomentum(), ",", q.parity() ); } );
}
MC_BODY( "C08", "large-values" ) {
  // identifiers stay exact far beyond physical values
  x.shard();
  static const std::vector< unsigned > ls = { 0, 9, 10, 99, 100, 999, 1000, 65535, 65536, 1000000, 2147483647u, 4294967295u };
  static const std::vector< int > twos = { 0, 1, 2, 19, 20, 21, 199, 200, 201, 1999, 2001, 131071, 131073, 1000001 };
  unsigned l = x.pick( ls ); int s = x.pick( twos ), J = x.pick( twos ); int p = x.choose( 2 ) ? 1 : -1;
  rm::ChannelQuantumNumbers q( l, s / 2., J / 2., p );
  auto got = q.toString(); x.op( 2 );
  std::string expected = "{" + std::to_string( l ) + "," + halfString( s ) + "," + halfString( J ) + ( p > 0 ? "+" : "-" ) + "}";
  x.check( got == expected, "toString", [&] { return mc::cat( "gave ", got, " expected ", expected ); } );
}
MC_BODY( "C08", "distinct" ) {
  // different quantum numbers, different identifiers
  x.shard();
  const int n = x.thorough ? 13 : 9;
  static std::map< std::string, std::array< int, 4 > > seen;
  std::array< int, 4 > k{ x.choose( n ), x.choose( 2 * n ), x.choose( 4 * n ), x.choose( 2 ) ? 1 : -1 };
  auto got = rm::ChannelQuantumNumbers( k[ 0 ], k[ 1 ] / 2., k[ 2 ] / 2., k[ 3 ] ).toString(); x.op();
  auto r = seen.emplace( got, k );
  x.check( r.second || r.first->second == k, "collision", [&] { return mc::cat( "two sets of quantum numbers are both ", got ); } );
}

// --- C09 ------------------------------------------------------------------------
// packs: every sequence of operations up to a depth, against component-wise arithmetic
static const std::vector< double >& values() { static std::vector< double > v = { 0., 1., -2.5, 1e300, 1e-300, 0.1 }; return v; }
static bool same( double a, double b ) { return std::memcmp( &a, &b, 8 ) == 0 || ( std::isnan( a ) && std::isnan( b ) ); }
template < std::size_t N, typename F > static void packSequence( mc::Explorer& x, F make ) {
  std::array< double, N > m;
  for ( std::size_t i = 0; i < N; ++i ) m[ i ] = values()[ x.choose( i < 2 ? 6 : i < 3 ? ( x.thorough ? 6 : 3 ) : 2 ) ];
  x.shard();
  auto p = make( m ); x.op();
  std::string trail = "pack";
  int depth = x.thorough ? 4 : 3;
  if ( N == 4 && x.thorough ) depth = 3;
  for ( int d = 0; d < depth; ++d ) {
    int o = x.choose( 5 );
    if ( o >= 3 ) {                 // the same object on both sides
      if ( o == 3 ) { p = p + p; for ( std::size_t i = 0; i < N; ++i ) m[ i ] = m[ i ] + m[ i ]; trail += " +itself"; }
      else { p = p - p; for ( std::size_t i = 0; i < N; ++i ) m[ i ] = m[ i ] - m[ i ]; trail += " -itself"; }
      x.op(); continue;
    }
    int b = x.choose( 6 );
    if ( o < 2 ) {
      std::array< double, N > w;
      for ( std::size_t i = 0; i < N; ++i ) w[ i ] = values()[ ( b + i ) % 6 ];   // distinct per component
      auto q = make( w );
      if ( o == 0 ) { p = p + q; for ( std::size_t i = 0; i < N; ++i ) m[ i ] = m[ i ] + w[ i ]; trail += " +"; }
      else { p = p - q; for ( std::size_t i = 0; i < N; ++i ) m[ i ] = m[ i ] - w[ i ]; trail += " -"; }
    } else { double v = values()[ b ]; p = p * v; for ( std::size_t i = 0; i < N; ++i ) m[ i ] = m[ i ] * v; trail += " *"; }
    x.op();
  }
  std::array< double, N > got = std::apply( []( auto... v ) { return std::array< double, N >{ double( v )... }; }, p.data );
  bool ok = true; for ( std::size_t i = 0; i < N; ++i ) ok = ok && same( got[ i ], m[ i ] );
  if ( x.wantSample() ) x.sample( mc::cat( N, " components: ", trail ) );
  x.check( ok, "component-wise", [&] { std::string s = mc::cat( N, " components, ", trail, ":" ); for ( std::size_t i = 0; i < N; ++i ) s += mc::cat( " ", got[ i ], " (expected ", m[ i ], ")" ); return s; } );
}
MC_BODY( "C09", "one" ) { packSequence< 1 >( x, []( auto a ) { return rr::pack( double( a[ 0 ] ) ); } ); }
MC_BODY( "C09", "two" ) { packSequence< 2 >( x, []( auto a ) { return rr::pack( double( a[ 0 ] ), double( a[ 1 ] ) ); } ); }
MC_BODY( "C09", "three" ) { packSequence< 3 >( x, []( auto a ) { return rr::pack( double( a[ 0 ] ), double( a[ 1 ] ), double( a[ 2 ] ) ); } ); }
MC_BODY( "C09", "four" ) { packSequence< 4 >( x, []( auto a ) { return rr::pack( double( a[ 0 ] ), double( a[ 1 ] ), double( a[ 2 ] ), double( a[ 3 ] ) ); } ); }
// more components: each one distinct
template < std::size_t N, typename F > static void bigPack( mc::Explorer& x, F make ) {
  x.shard();
  int a = x.choose( 12 ), b = x.choose( 12 ), o = x.choose( 3 ), o2 = x.choose( 3 ); double f = x.pick( values() );
  std::array< double, N > v, w;
  for ( std::size_t i = 0; i < N; ++i ) { v[ i ] = ( a - 5 ) * 0.37 + 1.7 * i; w[ i ] = ( b - 5 ) * 1.13 - 0.9 * i * i; }
  auto p = make( v ), q = make( w );
  for ( int k : { o, o2 } ) {
    if ( k == 0 ) { p = p + q; for ( std::size_t i = 0; i < N; ++i ) v[ i ] = v[ i ] + w[ i ]; }
    else if ( k == 1 ) { p = p - q; for ( std::size_t i = 0; i < N; ++i ) v[ i ] = v[ i ] - w[ i ]; }
    else { p = p * f; for ( std::size_t i = 0; i < N; ++i ) v[ i ] = v[ i ] * f; }
    x.op();
  }
  std::array< double, N > got = std::apply( []( auto... c ) { return std::array< double, N >{ double( c )... }; }, p.data ),
                          other = std::apply( []( auto... c ) { return std::array< double, N >{ double( c )... }; }, q.data );
  bool ok = true; for ( std::size_t i = 0; i < N; ++i ) ok = ok && same( got[ i ], v[ i ] ) && same( other[ i ], w[ i ] );
  x.check( ok, "component-wise", [&] { std::string s = mc::cat( N, " components, operations ", o, ",", o2, ":" ); for ( std::size_t i = 0; i < N; ++i ) s += mc::cat( " ", got[ i ], " (expected ", v[ i ], ")" ); return s; } );
}
MC_BODY( "C09", "five" ) { bigPack< 5 >( x, []( auto a ) { return std::apply( []( auto... v ) { return rr::pack( double( v )... ); }, a ); } ); }
MC_BODY( "C09", "six" ) { bigPack< 6 >( x, []( auto a ) { return std::apply( []( auto... v ) { return rr::pack( double( v )... ); }, a ); } ); }
MC_BODY( "C09", "seven" ) { bigPack< 7 >( x, []( auto a ) { return std::apply( []( auto... v ) { return rr::pack( double( v )... ); }, a ); } ); }
MC_BODY( "C09", "eight" ) { bigPack< 8 >( x, []( auto a ) { return std::apply( []( auto... v ) { return rr::pack( double( v )... ); }, a ); } ); }
MC_BODY( "C09", "eleven" ) { bigPack< 11 >( x, []( auto a ) { return std::apply( []( auto... v ) { return rr::pack( double( v )... ); }, a ); } ); }
inline bool same1( double a, double b ) { return a == b || ( a != a && b != b ); }
template < typename T, typename U > bool sameAs( const T& a, const U& b ) { return same1( a, b ); }
inline bool sameAs( const std::complex< double >& a, const std::complex< double >& b ) { return same1( a.real(), b.real() ) && same1( a.imag(), b.imag() ); }
// components keep their own type
template < typename A, typename B, typename C, typename M >
void mixed( mc::Explorer& x, M make ) {
  x.shard();
  int a = x.choose( 5 ) - 2, b = x.choose( 5 ) - 2; double c = x.pick( values() ), d = x.pick( values() ); double s = x.choose( 5 ) - 2;
  auto [ p, a0, a1, a2 ] = make( a, c, d ); auto [ q, b0, b1, b2 ] = make( b, d, 1. );
  auto sum = p + q; auto dif = p - q; auto pro = p * s; x.op( 5 );
  auto half = p * 0.5; x.op();
  auto what = [&] { return mc::cat( "a=", a, " b=", b, " c=", c, " d=", d, " s=", s ); };
  auto all = [&]( auto& r, auto f, auto g, auto h ) { return sameAs( std::get< 0 >( r.data ), f ) && sameAs( std::get< 1 >( r.data ), g ) && sameAs( std::get< 2 >( r.data ), h ); };
  x.check( all( sum, a0 + b0, a1 + b1, a2 + b2 ), "sum", what );
  x.check( all( dif, a0 - b0, a1 - b1, a2 - b2 ), "difference", what );
  x.check( all( pro, a0 * s, a1 * s, a2 * s ), "product", what );
  x.check( all( half, a0 * 0.5, a1 * 0.5, a2 * 0.5 ), "promotion", what );
  x.check( all( p, a0, a1, a2 ) && all( q, b0, b1, b2 ), "operands-untouched", what );
}
MC_BODY( "C09", "int-double-float" ) { mixed< int, double, float >( x, []( int a, double c, double d ) { float f = (float) d; return std::make_tuple( rr::pack( int( a ), double( c ), float( f ) ), a, c, f ); } ); }
MC_BODY( "C09", "double-int-long" ) { mixed< double, int, long >( x, []( int a, double c, double ) { long n = 3L * a + 1; return std::make_tuple( rr::pack( double( c ), int( a ), long( n ) ), c, a, n ); } ); }
#ifndef NO_COMPLEX_PACK
MC_BODY( "C09", "double-complex" ) { mixed< double, double, std::complex< double > >( x, []( int a, double c, double d ) { std::complex< double > e( c, d ); return std::make_tuple( rr::pack( double( a ), double( d ), std::complex< double >( e ) ), double( a ), d, e ); } ); }
#endif
MC_BODY( "C09", "different-operands" ) {
  // packs whose components have different types on the two sides, and scalars that are not doubles
  x.shard();
  int a = x.choose( 7 ) - 3, b = x.choose( 7 ) - 3, k = x.choose( 7 ) - 3; double c = x.pick( values() ), d = x.pick( values() );
  const auto p = rr::pack( int( a ), double( c ), float( 0.25f * b ) ); const auto q = rr::pack( double( d ), int( b ), double( 0.1 * a ) );
  auto what = [&] { return mc::cat( "(", a, ",", c, ",", 0.25f * b, ") and (", d, ",", b, ",", 0.1 * a, "), factor ", k ); };
  auto all = [&]( const auto& r, auto f, auto g, auto h ) { return sameAs( std::get< 0 >( r.data ), f ) && sameAs( std::get< 1 >( r.data ), g ) && sameAs( std::get< 2 >( r.data ), h ); };
  x.check( all( p + q, a + d, c + b, 0.25f * b + 0.1 * a ), "sum", what );
  x.check( all( q + p, d + a, b + c, 0.1 * a + 0.25f * b ), "sum-reversed", what );
  x.check( all( p - q, a - d, c - b, 0.25f * b - 0.1 * a ), "difference", what );
  x.check( all( q - p, d - a, b - c, 0.1 * a - 0.25f * b ), "difference-reversed", what );
  x.check( all( p * k, a * k, c * k, 0.25f * b * k ), "product-int", what );
  x.check( all( q * float( 0.5f * k ), d * ( 0.5f * k ), b * ( 0.5f * k ), 0.1 * a * ( 0.5f * k ) ), "product-float", what );
  x.check( all( ( p + q ) * c - q * d, ( a + d ) * c - d * d, ( c + b ) * c - b * d, ( 0.25f * b + 0.1 * a ) * c - 0.1 * a * d ), "expression", what );
  x.check( all( p, a, c, 0.25f * b ) && all( q, d, b, 0.1 * a ), "operands-untouched", what );
  x.op( 7 );
}
MC_BODY( "C09", "packs-hold-values" ) {
  // a pack holds copies: neither the variables it was made from nor other packs share anything with it
  x.shard();
  double a = x.pick( values() ), b = x.pick( values() ), c = x.pick( values() ); int o = x.choose( 3 );
  double va = a; const double vb = b;
  auto p = rr::pack( va, vb ); va = 7.; x.op();
  auto q = p; std::get< 0 >( q.data ) = c; x.op();
  auto r = o == 0 ? p + q : o == 1 ? p - q : p * c; std::get< 1 >( r.data ) = 11.; x.op();
  x.check( same( std::get< 0 >( p.data ), a ) && same( std::get< 1 >( p.data ), b ) && same( std::get< 0 >( q.data ), c ) && same( std::get< 1 >( q.data ), b )
           && same( std::get< 0 >( r.data ), o == 0 ? a + c : o == 1 ? a - c : a * c ), "shared", [&] { return mc::cat( "a=", a, " b=", b, " c=", c, " operation ", o ); } );
}
MC_BODY( "C09", "integers-stay-integers" ) {
  // an integer component is added as an integer, beyond what a double can hold
  x.shard();
  static const std::vector< long > big = { 0, 1, -1, 9007199254740993L, -9007199254740995L, 4611686018427387905L };
  long a = x.pick( big ), b = x.pick( big ) / 2; int k = x.choose( 3 ) - 1;
  auto p = rr::pack( long( a ), 1. ), q = rr::pack( long( b ), 2. ); x.op( 3 );
  x.check( std::get< 0 >( ( p + q ).data ) == a + b && std::get< 0 >( ( p - q ).data ) == a - b && std::get< 0 >( ( p * k ).data ) == a * k, "integer-arithmetic", [&] { return mc::cat( a, " and ", b, " times ", k ); } );
}
int main( int argc, char** argv ) { return mc::mainLoop( argc, argv ); }
