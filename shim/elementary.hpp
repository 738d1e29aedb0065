// Stand-in for njoy/elementary, which is not available in this sandbox: particle, particle pair
// and reaction identifiers with their symbols, equality and ordering.
#ifndef VERIF_SHIM_ELEMENTARY
#define VERIF_SHIM_ELEMENTARY
#include <array>
#include <cctype>
#include <cstdlib>
#include <stdexcept>
#include <string>
#include <vector>
namespace njoy {
namespace elementary {

namespace detail {
  inline const std::vector< std::string >& elements() {
    static const std::vector< std::string > e = { "n", "H", "He", "Li", "Be", "B", "C", "N", "O", "F", "Ne", "Na", "Mg", "Al", "Si", "P", "S", "Cl", "Ar", "K", "Ca",
      "Sc", "Ti", "V", "Cr", "Mn", "Fe", "Co", "Ni", "Cu", "Zn", "Ga", "Ge", "As", "Se", "Br", "Kr", "Rb", "Sr", "Y", "Zr", "Nb", "Mo", "Tc", "Ru", "Rh", "Pd", "Ag",
      "Cd", "In", "Sn", "Sb", "Te", "I", "Xe", "Cs", "Ba", "La", "Ce", "Pr", "Nd", "Pm", "Sm", "Eu", "Gd", "Tb", "Dy", "Ho", "Er", "Tm", "Yb", "Lu", "Hf", "Ta", "W",
      "Re", "Os", "Ir", "Pt", "Au", "Hg", "Tl", "Pb", "Bi", "Po", "At", "Rn", "Fr", "Ra", "Ac", "Th", "Pa", "U", "Np", "Pu", "Am", "Cm", "Bk", "Cf", "Es", "Fm" };
    return e;
  }
  inline std::string normalise( std::string s ) {
    if ( s == "g" || s == "gamma" ) return "photon";
    if ( s == "a" || s == "alpha" || s == "He4" ) return "he4";
    if ( s == "He3" ) return "he3";
    if ( s.size() > 3 && s.substr( s.size() - 3 ) == "_e0" ) s.resize( s.size() - 3 );
    return s;
  }
  inline std::array< int, 2 > za( const std::string& symbol ) {
    static const std::vector< std::pair< std::string, std::array< int, 2 > > > light = { { "n", { 0, 1 } }, { "photon", { 0, 0 } }, { "p", { 1, 1 } }, { "d", { 1, 2 } },
      { "t", { 1, 3 } }, { "he3", { 2, 3 } }, { "he4", { 2, 4 } } };
    for ( auto& l : light ) if ( l.first == symbol ) return l.second;
    std::size_t i = 0; while ( i < symbol.size() && std::isalpha( (unsigned char) symbol[ i ] ) ) ++i;
    for ( std::size_t z = 1; z < elements().size(); ++z ) if ( elements()[ z ] == symbol.substr( 0, i ) ) return { (int) z, std::atoi( symbol.c_str() + i ) };
    throw std::runtime_error( "unknown particle " + symbol );
  }
}

class ParticleID {
  std::string symbol_;
public:
  ParticleID( const std::string& s ) : symbol_( detail::normalise( s ) ) {}
  ParticleID( const char* s ) : ParticleID( std::string( s ) ) {}
  // the identifiers of the library are numbers: moving from one leaves it as it was
  ParticleID( const ParticleID& ) = default;
  ParticleID& operator=( const ParticleID& ) = default;
  const std::string& symbol() const { return symbol_; }
};
class ParticlePairID {
  std::string particle_, residual_, symbol_;
public:
  ParticlePairID( const ParticleID& p, const ParticleID& r ) : particle_( p.symbol() ), residual_( r.symbol() ), symbol_( particle_ + "," + residual_ ) {}
  ParticlePairID( const std::string& s ) {
    auto c = s.find( ',' );
    if ( c == std::string::npos ) symbol_ = s;
    else { particle_ = detail::normalise( s.substr( 0, c ) ); residual_ = detail::normalise( s.substr( c + 1 ) ); symbol_ = particle_ + "," + residual_; }
  }
  ParticlePairID( const char* s ) : ParticlePairID( std::string( s ) ) {}
  ParticlePairID( const ParticlePairID& ) = default;
  ParticlePairID& operator=( const ParticlePairID& ) = default;
  ParticleID particle() const { return ParticleID( particle_ ); }
  ParticleID residual() const { return ParticleID( residual_ ); }
  const std::string& symbol() const { return symbol_; }
};
class ReactionType {
  std::string symbol_; int mt_ = 0;
public:
  ReactionType( const std::string& s ) : symbol_( s ) {}
  ReactionType( const char* s ) : symbol_( s ) {}
  ReactionType( int mt ) : mt_( mt ) {
    symbol_ = mt == 2 ? "elastic" : mt == 18 ? "fission" : mt == 102 ? "capture" : "mt" + std::to_string( mt );
  }
  int mt() const { return mt_; }
  int level() const {
    if ( mt_ >= 51 && mt_ <= 90 ) return mt_ - 50;
    for ( int b : { 600, 650, 700, 750, 800 } ) if ( mt_ >= b && mt_ < b + 49 ) return mt_ - b;
    return 0;
  }
  std::vector< ParticleID > particles() const {
    if ( mt_ == 2 || mt_ == 4 || ( mt_ >= 50 && mt_ <= 91 ) ) return { ParticleID( "n" ) };
    if ( mt_ == 102 ) return { ParticleID( "photon" ) };
    if ( mt_ == 103 || ( mt_ >= 600 && mt_ < 650 ) ) return { ParticleID( "p" ) };
    if ( mt_ == 104 || ( mt_ >= 650 && mt_ < 700 ) ) return { ParticleID( "d" ) };
    if ( mt_ == 105 || ( mt_ >= 700 && mt_ < 750 ) ) return { ParticleID( "t" ) };
    if ( mt_ == 106 || ( mt_ >= 750 && mt_ < 800 ) ) return { ParticleID( "he3" ) };
    if ( mt_ == 107 || ( mt_ >= 800 && mt_ < 850 ) ) return { ParticleID( "he4" ) };
    if ( mt_ == 16 ) return { ParticleID( "n" ), ParticleID( "n" ) };
    throw std::runtime_error( "particles of mt " + std::to_string( mt_ ) );
  }
  const std::string& symbol() const { return symbol_; }
};
class ReactionID {
  std::string symbol_;
public:
  ReactionID( const std::string& s ) {
    auto a = s.find( "->" );
    if ( a == std::string::npos ) throw std::runtime_error( "reaction identifier " + s );
    symbol_ = ParticlePairID( s.substr( 0, a ) ).symbol() + "->" + ParticlePairID( s.substr( a + 2 ) ).symbol();
  }
  ReactionID( const char* s ) : ReactionID( std::string( s ) ) {}
  ReactionID( const ReactionID& ) = default;
  ReactionID& operator=( const ReactionID& ) = default;
  ReactionID( const ParticlePairID& in, const ParticlePairID& out ) : symbol_( in.symbol() + "->" + out.symbol() ) {}
  ReactionID( const ParticleID& p, const ParticleID& t, const ReactionType& type ) {
    auto in = ParticlePairID( p, t ).symbol();
    symbol_ = in + "->" + ( type.symbol() == "elastic" ? in : type.symbol() );
  }
  const std::string& symbol() const { return symbol_; }
};
inline ParticleID resolve( const ParticleID& incident, const ParticleID& target, const ReactionType& type ) {
  auto i = detail::za( incident.symbol() ), t = detail::za( target.symbol() );
  int z = i[ 0 ] + t[ 0 ], a = i[ 1 ] + t[ 1 ];
  for ( auto& p : type.particles() ) { auto q = detail::za( p.symbol() ); z -= q[ 0 ]; a -= q[ 1 ]; }
  std::string s = detail::elements().at( z ) + std::to_string( a );
  if ( type.level() ) s += "_e" + std::to_string( type.level() );
  return ParticleID( s );
}
#define VERIF_SHIM_ORDER( T ) \
inline bool operator==( const T& a, const T& b ) { return a.symbol() == b.symbol(); } \
inline bool operator!=( const T& a, const T& b ) { return a.symbol() != b.symbol(); } \
inline bool operator<( const T& a, const T& b ) { return a.symbol() < b.symbol(); }
VERIF_SHIM_ORDER( ParticleID ) VERIF_SHIM_ORDER( ParticlePairID ) VERIF_SHIM_ORDER( ReactionType ) VERIF_SHIM_ORDER( ReactionID )
#undef VERIF_SHIM_ORDER
} // namespace elementary
} // namespace njoy
#endif
