#ifndef VERIF_SHIM_SLURP
#define VERIF_SHIM_SLURP
#include <fstream>
#include <sstream>
#include <string>
namespace njoy { namespace utility {
inline std::string slurpFileToMemory( const std::string& name ) { std::ifstream f( name ); std::stringstream s; s << f.rdbuf(); return s.str(); }
} }
#endif
