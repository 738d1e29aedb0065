// Stand-in for njoy/Log: messages go nowhere.
#ifndef VERIF_SHIM_LOG
#define VERIF_SHIM_LOG
namespace njoy {
struct Log {
  template < typename... Ts > static void info( Ts&&... ) {}
  template < typename... Ts > static void warning( Ts&&... ) {}
  template < typename... Ts > static void error( Ts&&... ) {}
  template < typename... Ts > static void debug( Ts&&... ) {}
};
}
#endif
