// Stand-in for njoy/interpolation, which is not available in this sandbox: the tables and
// interpolation laws this project uses.
#ifndef VERIF_SHIM_INTERPOLATION
#define VERIF_SHIM_INTERPOLATION
#include <algorithm>
#include <cmath>
#include <stdexcept>
#include <variant>
#include <vector>
namespace njoy {
namespace interpolation {
namespace detail {
  template < typename T > double raw( const T& t ) { if constexpr ( std::is_arithmetic_v< T > ) return t; else return t.value; }
  template < typename T > T dress( double v ) { if constexpr ( std::is_arithmetic_v< T > ) return v; else { T t; t.value = v; return t; } }
}
struct Histogram { static double at( double, double, double, double yl, double ) { return yl; } };
struct LinearLinear { static double at( double x, double xl, double xr, double yl, double yr ) { return yl + ( x - xl ) * ( yr - yl ) / ( xr - xl ); } };
// y linear in ln( x )
struct LinearLogarithmic { static double at( double x, double xl, double xr, double yl, double yr ) { return yl + std::log( x / xl ) * ( yr - yl ) / std::log( xr / xl ); } };
// ln( y ) linear in x
struct LogarithmicLinear { static double at( double x, double xl, double xr, double yl, double yr ) { return yl * std::exp( ( x - xl ) * std::log( yr / yl ) / ( xr - xl ) ); } };
struct LogarithmicLogarithmic { static double at( double x, double xl, double xr, double yl, double yr ) { return yl * std::exp( std::log( x / xl ) * std::log( yr / yl ) / std::log( xr / xl ) ); } };

namespace table {
  template < typename Interpolation, typename Search, typename Discontinuity, typename X, typename Y > struct Type {};
  template < typename... Ts > struct Variant {};
  template < typename T > struct Vector {};
  namespace search { struct Binary {}; }
  namespace discontinuity { struct TakeLeft {}; }
  namespace left { namespace interval { struct Throws {}; } }
  namespace right { namespace interval { struct Throws {}; } }
}

template < typename Kind, typename... Options > class Table;

template < typename I, typename S, typename D, typename XR, typename YR, typename... Options >
class Table< table::Type< I, S, D, XR, YR >, Options... > {
  using X = std::decay_t< decltype( *std::declval< XR& >().begin() ) >;
  using Y = std::decay_t< decltype( *std::declval< YR& >().begin() ) >;
  std::vector< X > x_; std::vector< Y > y_;
public:
  using Xvalue = X; using Yvalue = Y;
  template < typename A, typename B > Table( A&& x, B&& y ) {
    for ( auto&& v : x ) x_.push_back( v );
    for ( auto&& v : y ) y_.push_back( v );
    if ( x_.size() != y_.size() || x_.size() < 2 ) throw std::runtime_error( "interpolation table sizes" );
    for ( std::size_t i = 1; i < x_.size(); ++i ) if ( x_[ i ] < x_[ i - 1 ] ) throw std::runtime_error( "interpolation table is not sorted" );
  }
  X lower() const { return x_.front(); }
  X upper() const { return x_.back(); }
  Y operator()( const X& x ) const {
    if ( !( x >= x_.front() && x <= x_.back() ) ) throw std::out_of_range( "outside of the interpolation table" );
    std::size_t i = std::lower_bound( x_.begin(), x_.end(), x ) - x_.begin();   // the left value of a discontinuity
    if ( x_[ i ] == x ) return y_[ i ];
    return detail::dress< Y >( I::at( detail::raw( x ), detail::raw( x_[ i - 1 ] ), detail::raw( x_[ i ] ), detail::raw( y_[ i - 1 ] ), detail::raw( y_[ i ] ) ) );
  }
};

template < typename T, typename... Ts, typename... Options >
class Table< table::Variant< T, Ts... >, Options... > {
  std::variant< T, Ts... > v_;
public:
  using Xvalue = typename T::Xvalue; using Yvalue = typename T::Yvalue;
  template < typename U, std::enable_if_t< std::is_same_v< std::decay_t< U >, T > || ( std::is_same_v< std::decay_t< U >, Ts > || ... ), int > = 0 >
  Table( U&& u ) : v_( std::forward< U >( u ) ) {}
  Xvalue lower() const { return std::visit( []( auto& t ) { return t.lower(); }, v_ ); }
  Xvalue upper() const { return std::visit( []( auto& t ) { return t.upper(); }, v_ ); }
  Yvalue operator()( const Xvalue& x ) const { return std::visit( [&]( auto& t ) { return t( x ); }, v_ ); }
};

template < typename T, typename... Options >
class Table< table::Vector< T >, Options... > {
  std::vector< T > v_;
public:
  using Xvalue = typename T::Xvalue; using Yvalue = typename T::Yvalue;
  Table( std::vector< T >&& v ) : v_( std::move( v ) ) { if ( v_.empty() ) throw std::runtime_error( "interpolation table without regions" ); }
  Xvalue lower() const { return v_.front().lower(); }
  Xvalue upper() const { return v_.back().upper(); }
  Yvalue operator()( const Xvalue& x ) const {
    for ( auto& t : v_ ) if ( x <= t.upper() ) return t( x );
    throw std::out_of_range( "outside of the interpolation table" );
  }
};

namespace table {
  template < typename I, typename X, typename Y >
  auto make( X&& x, Y&& y ) {
    return Table< Type< I, search::Binary, discontinuity::TakeLeft, std::decay_t< X >, std::decay_t< Y > > >( std::forward< X >( x ), std::forward< Y >( y ) );
  }
}
} // namespace interpolation
} // namespace njoy
namespace interpolation = njoy::interpolation;
#endif
