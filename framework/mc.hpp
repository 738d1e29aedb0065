// Stateless explicit exploration of a bounded behaviour space of the real code.
//
// A harness body is an ordinary function that asks the explorer for every
// decision it takes ( x.choose( n ) ), drives the real code with the chosen
// inputs, and compares what it sees with a reference model ( x.check( ... ) ).
// The explorer runs the body once per leaf of the choice tree, in depth-first
// order, until the whole tree has been visited: there is no sampling.
//
//   states       nodes of the choice tree visited (every decision prefix once)
//   transitions  operations performed on the real code ( x.op() )
//   traces       complete executions whose observations were compared with
//                the reference model
//
// Sharding: after its first decisions a body calls x.shard(); the subtree below
// is explored by exactly one of the shards.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <csignal>
#include <unistd.h>
#include <sys/time.h>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace mc {

struct Prune {};

inline std::string num( double v ) {
  char b[64]; std::snprintf( b, sizeof b, "%.17g", v ); return b;
}
inline std::string esc( const std::string& s ) {
  std::string o;
  for ( char c : s ) {
    if ( c == '"' || c == '\\' ) { o += '\\'; o += c; }
    else if ( (unsigned char) c < 0x20 ) { char b[8]; std::snprintf( b, sizeof b, "\\u%04x", c ); o += b; }
    else o += c;
  }
  return o;
}

template < typename... Ts >
std::string cat( const Ts&... ts ) {
  std::ostringstream o; o.precision( 17 );
  ( ( o << ts ), ... ); return o.str();
}

struct Violation { std::string kind, finding, what, path; std::uint64_t count = 1; };

class Explorer {
  std::vector< int > path, width;
  std::size_t pos = 0;
  std::size_t counted = 0;          // nodes of the current path already counted as states
  std::size_t shardDepth = 0;       // nodes above belong to every shard: not counted at all
  bool replaying = false;
  int shardIndex = 0, shardCount = 1;

public:
  std::uint64_t states = 0, transitions = 0, traces = 0, checks = 0, pruned = 0;
  std::uint64_t sampleEvery = 1;
  std::vector< std::string > samples;
  std::vector< Violation > violations;
  std::map< std::string, std::uint64_t > counters;
  std::map< std::string, double > maxima;
  bool thorough = false;
  bool verbose = false;
  std::string shortName;

  int choose( int n ) {
    if ( n <= 0 ) throw Prune{};
    if ( pos == path.size() ) {
      if ( replaying ) { std::fprintf( stderr, "replay path too short\n" ); std::exit( 3 ); }
      path.push_back( 0 ); width.push_back( n );
    }
    if ( replaying ) width[ pos ] = n;
    return path[ pos++ ];
  }
  template < typename C > auto pick( const C& c ) { return c[ choose( (int) c.size() ) ]; }

  // exactly one shard continues below this point
  void shard() {
    if ( replaying || shardCount == 1 ) return;
    shardDepth = pos ? pos - 1 : 0;
    std::uint64_t h = 1469598103934665603ull;
    for ( std::size_t i = 0; i < pos; ++i ) { h ^= (std::uint64_t) path[ i ] + 1; h *= 1099511628211ull; h ^= h >> 29; }
    if ( (int)( h % shardCount ) != shardIndex ) throw Prune{};
  }
  void op( std::uint64_t n = 1 ) { transitions += n; }
  void count( const std::string& name, std::uint64_t n = 1 ) { counters[ name ] += n; }
  void maximum( const std::string& name, double v ) {
    auto it = maxima.find( name );
    if ( it == maxima.end() ) maxima[ name ] = v; else if ( v > it->second ) it->second = v;
  }
  std::string pathString() const {
    std::string s;
    for ( std::size_t i = 0; i < pos; ++i ) s += ( i ? "," : "" ) + std::to_string( path[ i ] );
    return s;
  }
  bool wantSample() const { return samples.size() < 6 && ( traces % sampleEvery ) == 0; }
  void sample( const std::string& s ) { if ( samples.size() < 6 ) samples.push_back( s ); }

  // kind: what aspect of the property failed; finding: label of a known finding this
  // failure is an instance of (empty: none)
  void fail( const std::string& kind, const std::string& what, const std::string& finding = "" ) {
    if ( verbose ) std::printf( "FAIL %s %s: %s\n", kind.c_str(), finding.c_str(), what.c_str() );
    for ( auto& v : violations )
      if ( v.kind == kind && v.finding == finding ) { ++v.count; return; }
    violations.push_back( { kind, finding, what, pathString(), 1 } );
  }
  template < typename What >
  bool check( bool ok, const char* kind, What&& what ) {
    ++checks;
    if ( !ok ) fail( kind, what() );
    return ok;
  }

  bool next() {   // prepare the next execution; false when the tree is exhausted
    while ( !path.empty() && path.back() + 1 >= width.back() ) { path.pop_back(); width.pop_back(); }
    if ( path.empty() ) return false;
    ++path.back(); if ( counted > path.size() - 1 ) counted = path.size() - 1;
    return true;
  }

  void explore( const std::function< void( Explorer& ) >& body ) {
    path.clear(); width.clear(); counted = 0;
    do {
      pos = 0;
      bool complete = true;
      try { body( *this ); } catch ( const Prune& ) { complete = false; ++pruned; }
      path.resize( pos ); width.resize( pos );
      if ( complete ) {
        if ( counted < shardDepth ) counted = shardDepth;
        if ( pos > counted ) { states += pos - counted; counted = pos; }
        ++traces;
      }
      if ( path.empty() ) break;
    } while ( next() );
  }
  void replay( const std::function< void( Explorer& ) >& body, const std::vector< int >& p ) {
    replaying = true; verbose = true; path = p; width.assign( p.size(), 0 ); pos = 0;
    try { body( *this ); ++traces; } catch ( const Prune& ) {}
  }
  void setShard( int i, int n ) { shardIndex = i; shardCount = n; }
};

struct Suite {
  std::map< std::string, std::vector< std::pair< std::string, std::function< void( Explorer& ) > > > > bodies;
  void add( const std::string& property, const std::string& name, std::function< void( Explorer& ) > f ) {
    bodies[ property ].push_back( { name, f } );
  }
};
inline Suite& suite() { static Suite s; return s; }
struct Register {
  Register( const char* p, const char* n, std::function< void( Explorer& ) > f ) { suite().add( p, n, f ); }
};
#define MC_JOIN2( a, b ) a##b
#define MC_JOIN( a, b ) MC_JOIN2( a, b )
#define MC_BODY_( PROPERTY, NAME, ID ) \
  static void ID( mc::Explorer& ); \
  static mc::Register MC_JOIN( ID, _r )( PROPERTY, NAME, ID ); \
  static void ID( [[maybe_unused]] mc::Explorer& x )
#define MC_BODY( PROPERTY, NAME ) MC_BODY_( PROPERTY, NAME, MC_JOIN( mcBody, __LINE__ ) )

// what was being executed when the real code died, hung or trapped
inline char crashNote[ 4096 ] = "";
inline Explorer* current = nullptr;
inline std::string currentBody;
inline std::string outFile;

inline void writeResult( const std::string& file, const std::map< std::string, Explorer >& all ) {
  FILE* f = std::fopen( file.c_str(), "w" );
  if ( !f ) { std::perror( "result file" ); std::exit( 3 ); }
  std::fprintf( f, "{\n \"bodies\": [" );
  bool first = true;
  for ( auto& [ name, x ] : all ) {
    std::fprintf( f, "%s\n  {\"name\": \"%s\", \"states\": %llu, \"transitions\": %llu, \"traces\": %llu, \"checks\": %llu, \"violations\": [",
      first ? "" : ",", esc( name ).c_str(), (unsigned long long) x.states, (unsigned long long) x.transitions,
      (unsigned long long) x.traces, (unsigned long long) x.checks );
    first = false;
    for ( std::size_t i = 0; i < x.violations.size(); ++i ) {
      auto& v = x.violations[ i ];
      std::fprintf( f, "%s\n   {\"kind\": \"%s\", \"finding\": \"%s\", \"what\": \"%s\", \"path\": \"%s\", \"count\": %llu}", i ? "," : "",
        esc( v.kind ).c_str(), esc( v.finding ).c_str(), esc( v.what ).c_str(), v.path.c_str(), (unsigned long long) v.count );
    }
    std::fprintf( f, "], \"samples\": [" );
    for ( std::size_t i = 0; i < x.samples.size(); ++i )
      std::fprintf( f, "%s\"%s\"", i ? ", " : "", esc( x.samples[ i ] ).c_str() );
    std::fprintf( f, "], \"counters\": {" );
    bool c = false;
    for ( auto& [ k, n ] : x.counters ) { std::fprintf( f, "%s\"%s\": %llu", c ? ", " : "", esc( k ).c_str(), (unsigned long long) n ); c = true; }
    std::fprintf( f, "}, \"maxima\": {" ); c = false;
    for ( auto& [ k, n ] : x.maxima ) { std::fprintf( f, "%s\"%s\": %s", c ? ", " : "", esc( k ).c_str(), std::isfinite( n ) ? num( n ).c_str() : "null" ); c = true; }
    std::fprintf( f, "}}" );
  }
  std::fprintf( f, "\n ]\n}\n" );
  std::fclose( f );
}

inline void onSignal( int sig ) {
  // best effort: report the execution in progress as a violation of the property
  std::map< std::string, Explorer > all;
  if ( current ) {
    Explorer x = *current;
    x.fail( "no-crash", std::string( sig == SIGALRM ? "the real code did not return (timeout): " : "the real code crashed, signal " ) + std::to_string( sig ) + " " + crashNote );
    all[ currentBody ] = x;
  }
  if ( !outFile.empty() ) writeResult( outFile, all );
  _exit( 4 );
}

// hang detector: no operation, check or trace completed for 90 s
inline void onTick( int sig ) {
  static std::uint64_t last = 0; static int idle = 0;
  if ( !current ) { idle = 0; return; }
  std::uint64_t now = current->traces + current->transitions + current->checks;
  if ( now != last ) { last = now; idle = 0; return; }
  if ( ++idle >= 3 ) onSignal( sig );
}
inline void note( const std::string& s ) { std::snprintf( crashNote, sizeof crashNote, "%s", s.c_str() ); }

inline int mainLoop( int argc, char** argv ) {
  std::string property, body, replay; int si = 0, sn = 1; bool thorough = false;
  for ( int i = 1; i < argc; ++i ) {
    std::string a = argv[ i ];
    auto val = [&] { return std::string( argv[ ++i ] ); };
    if ( a == "--property" ) property = val();
    else if ( a == "--body" ) body = val();
    else if ( a == "--replay" ) replay = val();
    else if ( a == "--out" ) outFile = val();
    else if ( a == "--tier" ) thorough = val() == "thorough";
    else if ( a == "--shard" ) { auto s = val(); std::sscanf( s.c_str(), "%d/%d", &si, &sn ); }
    else if ( a == "--list" ) { for ( auto& [ p, b ] : suite().bodies ) for ( auto& [ n, f ] : b ) std::printf( "%s %s\n", p.c_str(), n.c_str() ); return 0; }
    else { std::fprintf( stderr, "unknown argument %s\n", a.c_str() ); return 3; }
  }
  for ( int s : { SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL } ) std::signal( s, onSignal );
  { struct sigaction sa{}; sa.sa_handler = onTick; sa.sa_flags = SA_RESTART; sigaction( SIGALRM, &sa, nullptr );
    itimerval t{ { 30, 0 }, { 30, 0 } }; setitimer( ITIMER_REAL, &t, nullptr ); }
  std::map< std::string, Explorer > all;
  int bad = 0; bool any = false;
  for ( auto& [ name, f ] : suite().bodies[ property ] ) {
    if ( !body.empty() && body != name ) continue;
    any = true;
    Explorer x; x.thorough = thorough; x.setShard( si, sn ); x.shortName = name;
    current = &x; currentBody = name;
    if ( !replay.empty() ) {
      std::vector< int > p; std::stringstream ss( replay ); std::string t;
      while ( std::getline( ss, t, ',' ) ) p.push_back( std::atoi( t.c_str() ) );
      x.replay( f, p );
    }
    else x.explore( f );
    current = nullptr;
    bad += x.violations.size();
    all[ name ] = x;
  }
  if ( !any ) { std::fprintf( stderr, "no body for %s %s\n", property.c_str(), body.c_str() ); return 3; }
  if ( !outFile.empty() ) writeResult( outFile, all );
  if ( outFile.empty() || !replay.empty() ) {
    for ( auto& [ n, x ] : all ) {
      std::printf( "%s: states %llu transitions %llu traces %llu checks %llu violations %zu\n", n.c_str(), (unsigned long long) x.states,
        (unsigned long long) x.transitions, (unsigned long long) x.traces, (unsigned long long) x.checks, x.violations.size() );
      for ( auto& v : x.violations ) std::printf( "  [%s]%s x%llu %s (path %s)\n", v.kind.c_str(), v.finding.c_str(), (unsigned long long) v.count, v.what.c_str(), v.path.c_str() );
      for ( auto& [ k, c ] : x.counters ) std::printf( "  %s = %llu\n", k.c_str(), (unsigned long long) c );
      for ( auto& [ k, c ] : x.maxima ) std::printf( "  max %s = %g\n", k.c_str(), c );
    }
  }
  return bad ? 1 : 0;
}

// --- helpers shared by the harnesses -----------------------------------------

inline bool close( double a, double b, double rel, double abs = 0. ) {
  if ( std::isnan( a ) || std::isnan( b ) ) return std::isnan( a ) && std::isnan( b );
  if ( a == b ) return true;
  if ( std::isinf( a ) || std::isinf( b ) ) return false;
  return std::fabs( a - b ) <= abs + rel * std::fmax( std::fabs( a ), std::fabs( b ) );
}

// distance of two angles modulo pi
inline double modPi( double a, double b ) {
  long double d = std::remainder( (long double) a - (long double) b, 3.14159265358979323846264338327950288L );
  return (double) std::fabs( d );
}

} // namespace mc
#endif
