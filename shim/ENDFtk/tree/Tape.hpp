// Stand-in for ENDFtk's tape tree, as far as the project's own tests use it.
#ifndef VERIF_SHIM_TAPE
#define VERIF_SHIM_TAPE
#include "ENDFtk/section/2/151.hpp"
#include <sstream>
namespace njoy { namespace ENDFtk { namespace tree {
template < typename Buffer >
struct Tape {
  struct Section {
    std::string text; int mat;
    template < int MF, int MT > section::Type< MF, MT > parse() const {
      auto it = text.begin(); auto end = text.end(); long line = 1;
      HeadRecord head( it, end, line );
      return section::Type< MF, MT >( head, it, end, line, mat );
    }
  };
  struct Material {
    std::string text; int mat; int mf = 0;
    int MAT() const { return mat; }
    const Material& fileNumber( int n ) { mf = n; return *this; }
    Section sectionNumber( int mt ) const {
      std::istringstream in( text ); std::string line, out;
      while ( std::getline( in, line ) )
        if ( line.size() >= 75 && std::atoi( line.substr( 70, 2 ).c_str() ) == mf && std::atoi( line.substr( 72, 3 ).c_str() ) == mt ) out += line + "\n";
      return { out, mat };
    }
  };
  std::vector< Material > m;
  Tape( const Buffer& b ) { std::istringstream in( b ); std::string line; std::getline( in, line ); std::getline( in, line );
    m.push_back( { b, std::atoi( line.substr( 66, 4 ).c_str() ) } ); }
  auto begin() { return m.begin(); }
};
} } }
#endif
