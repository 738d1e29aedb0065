// Stand-in for njoy/DimensionalAnalysis (dimwits), which is not available in this sandbox.
// Units are products of rational powers of named units; quantities convert implicitly between
// units of the same dimension; units that cancel completely leave a plain number.
#ifndef VERIF_SHIM_DIMWITS
#define VERIF_SHIM_DIMWITS
#include <cmath>
#include <complex>
#include <iostream>
#include <ostream>
#include <type_traits>
#include <algorithm>
#include <array>
#include <vector>
#include <map>
#include <optional>
#include <variant>
#include <string>
#include <functional>
#include <limits>
#include <numeric>
#include <tuple>
#include <utility>
#include <stdexcept>
namespace njoy {
namespace dimwits {

using std::pow; using std::sqrt; using std::abs;

namespace detail {
  struct Base { double mantissa; int exponent; int kg, m, s, A, K; };
  // electron volt, barn, dalton, coulomb, second, meter, farad, gram, kelvin, joule, centi, kilo
  inline constexpr int N = 12;
  inline constexpr Base bases[ N ] = {
    { 1.6021766208, -19, 1, 2, -2, 0, 0 },
    { 1., -28, 0, 2, 0, 0, 0 },
    { 1.660539040, -27, 1, 0, 0, 0, 0 },
    { 1., 0, 0, 0, 1, 1, 0 },
    { 1., 0, 0, 0, 1, 0, 0 },
    { 1., 0, 0, 1, 0, 0, 0 },
    { 1., 0, -1, -2, 4, 2, 0 },
    { 1., -3, 1, 0, 0, 0, 0 },
    { 1., 0, 0, 0, 0, 0, 1 },
    { 1., 0, 1, 2, -2, 0, 0 },
    { 1., -2, 0, 0, 0, 0, 0 },
    { 1., 3, 0, 0, 0, 0, 0 } };
}

template < int A, int B = 1 > struct RatioType {};
template < int A, int B = 1 > inline constexpr RatioType< A, B > Ratio{};

// powers in twelfths
template < int... P >
struct Unit {
  using Units = Unit;
  static constexpr bool none = ( ( P == 0 ) && ... );
  static constexpr std::array< int, 12 > powers() { return { P... }; }
  static constexpr std::array< int, 5 > dimension() {
    std::array< int, 5 > d{ 0, 0, 0, 0, 0 }; auto p = powers();
    for ( int i = 0; i < 12; ++i ) {
      d[ 0 ] += p[ i ] * detail::bases[ i ].kg; d[ 1 ] += p[ i ] * detail::bases[ i ].m; d[ 2 ] += p[ i ] * detail::bases[ i ].s;
      d[ 3 ] += p[ i ] * detail::bases[ i ].A; d[ 4 ] += p[ i ] * detail::bases[ i ].K;
    }
    return d;
  }
};
template < typename U > struct isUnit : std::false_type {};
template < int... P > struct isUnit< Unit< P... > > : std::true_type {};
template < typename U > constexpr bool isUnit_v = isUnit< U >::value;

template < typename U, typename V > constexpr bool sameDimension() {
  auto a = U::dimension(); auto b = V::dimension();
  for ( int i = 0; i < 5; ++i ) if ( a[ i ] != b[ i ] ) return false;
  return true;
}
template < typename U > constexpr bool dimensionless() {
  auto a = U::dimension(); for ( int i = 0; i < 5; ++i ) if ( a[ i ] != 0 ) return false; return true;
}
// one U expressed in V
template < typename U, typename V > constexpr double factor() {
  auto a = U::powers(); auto b = V::powers(); double f = 1.; int e = 0;
  for ( int i = 0; i < 12; ++i ) {
    int p = a[ i ] - b[ i ]; e += p * detail::bases[ i ].exponent;
    if ( p != 0 && detail::bases[ i ].mantissa != 1. ) f *= __builtin_pow( detail::bases[ i ].mantissa, p / 12. );
  }
  if ( e != 0 ) f *= __builtin_pow( 10., e / 12. );
  return f;
}

template < int... P, int... Q > constexpr Unit< ( P + Q )... > operator*( Unit< P... >, Unit< Q... > ) { return {}; }
template < int... P, int... Q > constexpr Unit< ( P - Q )... > operator/( Unit< P... >, Unit< Q... > ) { return {}; }
template < int... P, int A, int B > constexpr Unit< ( P * A / B )... > pow( Unit< P... >, RatioType< A, B > ) { return {}; }
namespace unit {
  template < int... P > constexpr Unit< ( P / 2 )... > sqrt( Unit< P... > ) { return {}; }
}

template < typename U >
class Quantity {
public:
  using Units = U;
  double value = 0.;
  constexpr Quantity() = default;
  constexpr Quantity( const Quantity& ) = default;
  constexpr Quantity& operator=( const Quantity& ) = default;
  constexpr explicit Quantity( double v ) : value( v ) {}
  constexpr Quantity( U ) : value( 1. ) {}
  template < typename V, std::enable_if_t< isUnit_v< V > && !std::is_same_v< U, V > && sameDimension< V, U >(), int > = 0 >
  constexpr Quantity( const Quantity< V >& o ) : value( o.value * factor< V, U >() ) {}
  template < typename V = U, std::enable_if_t< dimensionless< V >(), int > = 0 >
  constexpr operator double() const { return value * factor< U, Unit< 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0 > >(); }

  constexpr Quantity& operator+=( const Quantity& o ) { value += o.value; return *this; }
  constexpr Quantity& operator-=( const Quantity& o ) { value -= o.value; return *this; }
  constexpr Quantity& operator*=( double d ) { value *= d; return *this; }
  constexpr Quantity& operator/=( double d ) { value /= d; return *this; }
  constexpr Quantity operator-() const { return Quantity( -value ); }
  constexpr Quantity operator+() const { return *this; }
};

namespace detail {
  template < typename U > constexpr auto make( double v ) { if constexpr ( U::none ) return v; else return Quantity< U >( v ); }
  template < typename T > struct isNumber : std::bool_constant< std::is_arithmetic_v< T > > {};
}
template < typename U, typename V > constexpr auto operator*( const Quantity< U >& a, const Quantity< V >& b ) { return detail::make< decltype( U() * V() ) >( a.value * b.value ); }
template < typename U, typename V > constexpr auto operator/( const Quantity< U >& a, const Quantity< V >& b ) { return detail::make< decltype( U() / V() ) >( a.value / b.value ); }
template < typename U, int... P > constexpr auto operator*( const Quantity< U >& a, Unit< P... > ) { return detail::make< decltype( U() * Unit< P... >() ) >( a.value ); }
template < typename U, int... P > constexpr auto operator/( const Quantity< U >& a, Unit< P... > ) { return detail::make< decltype( U() / Unit< P... >() ) >( a.value ); }
template < typename U, int... P > constexpr auto operator*( Unit< P... >, const Quantity< U >& a ) { return detail::make< decltype( U() * Unit< P... >() ) >( a.value ); }
template < typename U, int... P > constexpr auto operator/( Unit< P... >, const Quantity< U >& a ) { return detail::make< decltype( Unit< P... >() / U() ) >( 1. / a.value ); }
template < typename T, int... P, std::enable_if_t< std::is_arithmetic_v< T >, int > = 0 > constexpr auto operator*( T a, Unit< P... > ) { return detail::make< Unit< P... > >( a ); }
template < typename T, int... P, std::enable_if_t< std::is_arithmetic_v< T >, int > = 0 > constexpr auto operator*( Unit< P... >, T a ) { return detail::make< Unit< P... > >( a ); }
template < typename T, int... P, std::enable_if_t< std::is_arithmetic_v< T >, int > = 0 > constexpr auto operator/( T a, Unit< P... > ) { return detail::make< Unit< ( -P )... > >( a ); }
template < typename T, int... P, std::enable_if_t< std::is_arithmetic_v< T >, int > = 0 > constexpr auto operator/( Unit< P... >, T a ) { return detail::make< Unit< P... > >( 1. / a ); }
template < typename T, typename U, std::enable_if_t< std::is_arithmetic_v< T >, int > = 0 > constexpr Quantity< U > operator*( T a, const Quantity< U >& b ) { return Quantity< U >( a * b.value ); }
template < typename T, typename U, std::enable_if_t< std::is_arithmetic_v< T >, int > = 0 > constexpr Quantity< U > operator*( const Quantity< U >& b, T a ) { return Quantity< U >( b.value * a ); }
template < typename T, typename U, std::enable_if_t< std::is_arithmetic_v< T >, int > = 0 > constexpr Quantity< U > operator/( const Quantity< U >& b, T a ) { return Quantity< U >( b.value / a ); }
template < typename T, typename U, std::enable_if_t< std::is_arithmetic_v< T >, int > = 0 > constexpr auto operator/( T a, const Quantity< U >& b ) { return Quantity< decltype( pow( U(), Ratio< -1 > ) ) >( a / b.value ); }
template < typename U, typename V, std::enable_if_t< sameDimension< U, V >(), int > = 0 >
constexpr Quantity< U > operator+( const Quantity< U >& a, const Quantity< V >& b ) { return Quantity< U >( a.value + Quantity< U >( b ).value ); }
template < typename U, typename V, std::enable_if_t< sameDimension< U, V >(), int > = 0 >
constexpr Quantity< U > operator-( const Quantity< U >& a, const Quantity< V >& b ) { return Quantity< U >( a.value - Quantity< U >( b ).value ); }
#define VERIF_SHIM_COMPARE( OP ) \
template < typename U, typename V, std::enable_if_t< sameDimension< U, V >(), int > = 0 > \
constexpr bool operator OP( const Quantity< U >& a, const Quantity< V >& b ) { return a.value OP Quantity< U >( b ).value; } \
template < typename U > constexpr bool operator OP( const Quantity< U >& a, U ) { return a.value OP 1.; } \
template < typename U > constexpr bool operator OP( U, const Quantity< U >& a ) { return 1. OP a.value; }
VERIF_SHIM_COMPARE( < ) VERIF_SHIM_COMPARE( > ) VERIF_SHIM_COMPARE( <= ) VERIF_SHIM_COMPARE( >= ) VERIF_SHIM_COMPARE( == ) VERIF_SHIM_COMPARE( != )
#undef VERIF_SHIM_COMPARE

template < typename U > auto sqrt( const Quantity< U >& a ) { return detail::make< decltype( unit::sqrt( U() ) ) >( std::sqrt( a.value ) ); }
template < typename U, int A, int B > auto pow( const Quantity< U >& a, RatioType< A, B > r ) { return detail::make< decltype( pow( U(), r ) ) >( std::pow( a.value, double( A ) / B ) ); }
template < int A, int B > double pow( double a, RatioType< A, B > ) { return std::pow( a, double( A ) / B ); }
template < typename U > constexpr Quantity< U > abs( const Quantity< U >& a ) { return Quantity< U >( a.value < 0. ? -a.value : a.value ); }
template < typename U > bool isnan( const Quantity< U >& a ) { return std::isnan( a.value ); }
template < typename U > std::ostream& operator<<( std::ostream& o, const Quantity< U >& a ) { return o << a.value; }

using ElectronVolt = Unit< 12, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0 >;
using Barn = Unit< 0, 12, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0 >;
using Dalton = Unit< 0, 0, 12, 0, 0, 0, 0, 0, 0, 0, 0, 0 >;
using Coulomb = Unit< 0, 0, 0, 12, 0, 0, 0, 0, 0, 0, 0, 0 >;
using Second = Unit< 0, 0, 0, 0, 12, 0, 0, 0, 0, 0, 0, 0 >;
using Meter = Unit< 0, 0, 0, 0, 0, 12, 0, 0, 0, 0, 0, 0 >;
using Farad = Unit< 0, 0, 0, 0, 0, 0, 12, 0, 0, 0, 0, 0 >;
using Gram = Unit< 0, 0, 0, 0, 0, 0, 0, 12, 0, 0, 0, 0 >;
using Kelvin = Unit< 0, 0, 0, 0, 0, 0, 0, 0, 12, 0, 0, 0 >;
using Joule = Unit< 0, 0, 0, 0, 0, 0, 0, 0, 0, 12, 0, 0 >;
using CentiPrefix = Unit< 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 12, 0 >;
using KiloPrefix = Unit< 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 12 >;
using ElectronVolts = ElectronVolt; using Barns = Barn; using Daltons = Dalton; using Coulombs = Coulomb; using Seconds = Second;
using Meters = Meter; using Farads = Farad; using Grams = Gram; using Kelvins = Kelvin; using Joules = Joule;
#define VERIF_SHIM_UNIT( T, n ) inline constexpr T n{}; inline constexpr T n##s{};
VERIF_SHIM_UNIT( ElectronVolt, electronVolt ) VERIF_SHIM_UNIT( Barn, barn ) VERIF_SHIM_UNIT( Dalton, dalton ) VERIF_SHIM_UNIT( Coulomb, coulomb )
VERIF_SHIM_UNIT( Second, second ) VERIF_SHIM_UNIT( Meter, meter ) VERIF_SHIM_UNIT( Farad, farad ) VERIF_SHIM_UNIT( Gram, gram )
VERIF_SHIM_UNIT( Kelvin, kelvin ) VERIF_SHIM_UNIT( Joule, joule )
#undef VERIF_SHIM_UNIT
template < int... P > constexpr auto centi( Unit< P... > u ) { return u * CentiPrefix(); }
template < int... P > constexpr auto kilo( Unit< P... > u ) { return u * KiloPrefix(); }

namespace constant {
  inline constexpr Quantity< Coulomb > elementaryCharge( 1.6021766208e-19 );
  inline constexpr auto dirac = Quantity< decltype( Joule() * Second() ) >( 1.054571800e-34 );
  inline constexpr Quantity< Dalton > neutronMass( 1.00866491588 );
}
} // namespace dimwits
} // namespace njoy
namespace dimwits = njoy::dimwits;
namespace std {
  template < typename U > constexpr njoy::dimwits::Quantity< U > abs( const njoy::dimwits::Quantity< U >& a ) { return njoy::dimwits::abs( a ); }
  template < typename U > njoy::dimwits::Quantity< U > fabs( const njoy::dimwits::Quantity< U >& a ) { return njoy::dimwits::abs( a ); }
  template < typename U > auto sqrt( const njoy::dimwits::Quantity< U >& a ) { return njoy::dimwits::sqrt( a ); }
}
#endif
