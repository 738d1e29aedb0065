// Reference Coulomb wave functions in long double, independent of the method of the code under
// test: the asymptotic series far out, Taylor integration of rho u'' = ( 2 eta - rho ) u inward
// (stable for G everywhere, for F down to the turning point), the continued fraction for F'/F and
// the Wronskian below the turning point, upward recurrence in l.
#ifndef VERIF_COULOMBREF_HPP
#define VERIF_COULOMBREF_HPP
namespace ref {
using real = long double;
struct CoulombValue { real F, G, dF, dG; };

class Coulomb {
  real eta;
  struct Node { real rho, G, dG, F, dF; };
  std::vector< Node > nodes;        // decreasing rho

  static void taylor( real eta, real rho0, real t, real u, real du, real& v, real& dv ) {
    real a0 = u, a1 = du, am1 = 0;  // a_n, a_{n+1}, a_{n-1}
    real tn = 1; v = u; dv = du;
    v += du * t;
    real sum = 0, dsum = 0;
    for ( int n = 0; n < 400; ++n ) {
      real a2 = ( ( 2 * eta - rho0 ) * a0 - am1 - (real)( n + 1 ) * n * a1 ) / ( rho0 * ( n + 2 ) * ( n + 1 ) );
      tn *= t;                      // t^(n+1)
      real d = a2 * ( n + 2 ) * tn, w = a2 * tn * t;
      sum += w; dsum += d;
      am1 = a0; a0 = a1; a1 = a2;
      if ( n > 6 && std::fabs( d ) < 1e-22L * std::fabs( dv + dsum ) && std::fabs( w ) < 1e-22L * std::fabs( v + sum ) ) break;
    }
    v += sum; dv += dsum;
  }
  static real sigma0( real eta ) {
    const int N = 24;
    std::complex< real > z( N + 1, eta );
    // log Gamma( z ) by Stirling
    static const real b[] = { 1.L / 12, -1.L / 360, 1.L / 1260, -1.L / 1680, 1.L / 1188, -691.L / 360360, 1.L / 156, -3617.L / 122400 };
    std::complex< real > s = ( z - (real) 0.5 ) * std::log( z ) - z, zi = (real) 1 / z, z2 = zi * zi;
    for ( real c : b ) { s += c * zi; zi *= z2; }
    real r = s.imag();
    for ( int n = 1; n <= N; ++n ) r -= std::atan( eta / n );
    return r;
  }
  // F'/F at l by the modified Lentz method
  real cf1( int l, real rho ) const {
    auto S = [&]( int L ) { return L / rho + eta / L; };
    auto R2 = [&]( int L ) { return 1 + eta * eta / ( (real) L * L ); };
    const real tiny = 1e-300L;
    real f = S( l + 1 ); if ( f == 0 ) f = tiny;
    real C = f, D = 0;
    for ( int n = l + 1; n < 200000; ++n ) {
      real a = -R2( n ), b = S( n ) + S( n + 1 );
      D = b + a * D; if ( D == 0 ) D = tiny; D = 1 / D;
      C = b + a / C; if ( C == 0 ) C = tiny;
      real delta = C * D; f *= delta;
      if ( std::fabs( delta - 1 ) < 1e-20L ) break;
    }
    return f;
  }
  CoulombValue at0( real rho ) const {
    // nearest node at or above rho
    std::size_t lo = 0, hi = nodes.size() - 1;
    while ( hi - lo > 1 ) { std::size_t m = ( lo + hi ) / 2; ( nodes[ m ].rho >= rho ? lo : hi ) = m; }
    const Node& n = nodes[ nodes[ hi ].rho >= rho ? hi : lo ];
    CoulombValue v;
    taylor( eta, n.rho, rho - n.rho, n.G, n.dG, v.G, v.dG );
    if ( rho >= turning( 0 ) ) taylor( eta, n.rho, rho - n.rho, n.F, n.dF, v.F, v.dF );
    else { real f = cf1( 0, rho ); v.F = 1 / ( f * v.G - v.dG ); v.dF = f * v.F; }
    return v;
  }
public:
  real turning( int l ) const { return eta + std::sqrt( eta * eta + (real) l * ( l + 1 ) ); }
  Coulomb( real e, real smallest, real largest ) : eta( e ) {
    real rho = std::fmax( std::fmax( 70.L, 1.5L * eta * eta ), largest + 1 );
    real theta = rho - eta * std::log( 2 * rho ) + sigma0( eta );
    real f = 1, g = 0, fs = 0, gs = 1 - eta / rho, sf = f, sg = g, sfs = fs, sgs = gs;
    for ( int k = 0; k < 400; ++k ) {
      real a = ( 2 * k + 1 ) * eta / ( ( 2 * k + 2 ) * rho ), b = ( eta * eta - (real) k * ( k + 1 ) ) / ( ( 2 * k + 2 ) * rho );
      real f1 = a * f - b * g, g1 = a * g + b * f, fs1 = a * fs - b * gs - f1 / rho, gs1 = a * gs + b * fs - g1 / rho;
      f = f1; g = g1; fs = fs1; gs = gs1;
      sf += f; sg += g; sfs += fs; sgs += gs;
      if ( std::fabs( f ) + std::fabs( g ) + std::fabs( fs ) + std::fabs( gs ) < 1e-23L ) break;
    }
    real c = std::cos( theta ), s = std::sin( theta );
    Node n{ rho, sf * c - sg * s, sfs * c - sgs * s, sg * c + sf * s, sgs * c + sfs * s };
    nodes.push_back( n );
    while ( n.rho > smallest ) {
      real h = std::fmin( 0.5L, n.rho / 4 ); Node m; m.rho = n.rho - h;
      taylor( eta, n.rho, -h, n.G, n.dG, m.G, m.dG );
      taylor( eta, n.rho, -h, n.F, n.dF, m.F, m.dF );
      nodes.push_back( m ); n = m;
    }
  }
  // l = 0 .. lmax at rho
  std::vector< CoulombValue > operator()( int lmax, real rho ) const {
    std::vector< CoulombValue > r{ at0( rho ) };
    for ( int L = 1; L <= lmax; ++L ) {
      const auto& p = r.back();
      real R = std::sqrt( (real) L * L + eta * eta ) / L, S = L / rho + eta / L;
      CoulombValue v;
      v.G = ( S * p.G - p.dG ) / R; v.dG = R * p.G - S * v.G;
      if ( rho >= turning( L ) ) { v.F = ( S * p.F - p.dF ) / R; v.dF = R * p.F - S * v.F; }
      else { real f = cf1( L, rho ); v.F = 1 / ( f * v.G - v.dG ); v.dF = f * v.F; }
      r.push_back( v );
    }
    return r;
  }
};
} // namespace ref
#endif
