// Stand-in for njoy/ENDFtk, which is not available in this sandbox: the part of MF2/MT151 this
// project uses. Every component is a plain structure a harness can fill in directly; a reader
// for the ENDF text format lets the project's own tests run (they validate this stand-in).
#ifndef VERIF_SHIM_ENDFTK_151
#define VERIF_SHIM_ENDFTK_151
#include "Log.hpp"
#include <cstdlib>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include "range/v3/all.hpp"

namespace njoy {
namespace ENDFtk {

namespace detail {
  template < typename It >
  struct Reader {
    It& it; It end; long& line;
    std::string record() {
      std::string s;
      while ( it != end && *it != '\n' ) { if ( *it != '\r' ) s += *it; ++it; }
      if ( it != end ) ++it;
      ++line;
      s.resize( 80, ' ' );
      return s;
    }
    static double number( const std::string& field ) {
      std::string t;
      for ( std::size_t i = 0; i < field.size(); ++i ) {
        char c = field[ i ];
        if ( c == ' ' ) continue;
        if ( c == 'D' || c == 'd' || c == 'e' ) c = 'E';
        if ( ( c == '+' || c == '-' ) && !t.empty() && t.back() != 'E' ) t += 'E';
        t += c;
      }
      return t.empty() ? 0. : std::strtod( t.c_str(), nullptr );
    }
    std::vector< double > fields() {
      auto s = record(); std::vector< double > v;
      for ( int i = 0; i < 6; ++i ) v.push_back( number( s.substr( 11 * i, 11 ) ) );
      return v;
    }
    std::vector< double > body( long n ) {
      std::vector< double > v;
      while ( (long) v.size() < n ) { auto f = fields(); v.insert( v.end(), f.begin(), f.end() ); }
      v.resize( n );
      return v;
    }
  };
}

struct HeadRecord {
  double c1 = 0, c2 = 0; long l1 = 0, l2 = 0, n1 = 0, n2 = 0;
  int mat = 0, mf = 0, mt = 0;
  HeadRecord() = default;
  template < typename It >
  HeadRecord( It& it, It end, long& lineNumber ) {
    detail::Reader< It > r{ it, end, lineNumber };
    auto s = r.record();
    auto f = [&]( int i ) { return r.number( s.substr( 11 * i, 11 ) ); };
    c1 = f( 0 ); c2 = f( 1 ); l1 = (long) f( 2 ); l2 = (long) f( 3 ); n1 = (long) f( 4 ); n2 = (long) f( 5 );
    mat = std::atoi( s.substr( 66, 4 ).c_str() ); mf = std::atoi( s.substr( 70, 2 ).c_str() ); mt = std::atoi( s.substr( 72, 3 ).c_str() );
  }
  template < typename It > HeadRecord( It&& it, const std::decay_t< It >& end, long& lineNumber, int ) : HeadRecord( it, end, lineNumber ) {}
};
using HEAD = HeadRecord;
struct StructureDivision : HeadRecord { using HeadRecord::HeadRecord; };

namespace section {
template < int MF, int MT > class Type;

struct Parts151 {   // complete before the ranges that hold them
  class ScatteringRadius {
    struct Store { std::vector< double > x, y; std::vector< long > boundaries, interpolants; };
    std::shared_ptr< Store > d_ = std::make_shared< Store >();
    using Iterator = std::vector< double >::const_iterator;
    using Region = ranges::subrange< Iterator, Iterator >;
    std::shared_ptr< std::vector< std::pair< Region, Region > > > regions_ = std::make_shared< std::vector< std::pair< Region, Region > > >();
  public:
    ScatteringRadius( std::vector< long > boundaries, std::vector< long > interpolants, std::vector< double > energies, std::vector< double > radii ) {
      d_->x = std::move( energies ); d_->y = std::move( radii ); d_->boundaries = std::move( boundaries ); d_->interpolants = std::move( interpolants );
      long first = 0;
      for ( auto b : d_->boundaries ) {
        regions_->emplace_back( Region( d_->x.cbegin() + first, d_->x.cbegin() + b ), Region( d_->y.cbegin() + first, d_->y.cbegin() + b ) );
        // the next region starts at the boundary point, unless there is a jump there
        first = b < (long) d_->x.size() && d_->x[ b ] == d_->x[ b - 1 ] ? b : b - 1;
      }
    }
    auto regions() const { return ranges::views::all( *regions_ ); }
    auto interpolants() const { return ranges::views::all( d_->interpolants ); }
    auto boundaries() const { return ranges::views::all( d_->boundaries ); }
    auto energies() const { return ranges::views::all( d_->x ); }
    auto radii() const { return ranges::views::all( d_->y ); }
    double lowerEnergy() const { return d_->x.front(); }
    double upperEnergy() const { return d_->x.back(); }
  };

  struct SpecialCase {
    double spi_ = 0, ap_ = 0;
    double SPI() const { return spi_; }
    double AP() const { return ap_; }
  };

  struct Owned {};   // the resonances own their values, where ENDFtk keeps a range
  template < typename Range = Owned >
  struct BreitWignerResonance {
    double er = 0, aj = 0, gt = 0, gn = 0, gg = 0, gf = 0;
    double ER() const { return er; }
    double AJ() const { return aj; }
    double GT() const { return gt; }
    double GN() const { return gn; }
    double GG() const { return gg; }
    double GF() const { return gf; }
    double GX() const { return gt - gn - gg - gf; }
    double resonanceEnergy() const { return er; }
    double spin() const { return aj; }
    double totalWidth() const { return gt; }
    double neutronWidth() const { return gn; }
    double gammaWidth() const { return gg; }
    double fissionWidth() const { return gf; }
    double competitiveWidth() const { return GX(); }
  };
  struct BreitWignerLValue {
    template < typename Range > using Resonance = BreitWignerResonance< Range >;
    double awri_ = 0, qx_ = 0; unsigned l_ = 0; int lrx_ = 0;
    std::vector< BreitWignerResonance<> > resonances_;
    std::vector< double > spins_;
    BreitWignerLValue() = default;
    BreitWignerLValue( double awri, double qx, unsigned l, int lrx, std::vector< BreitWignerResonance<> > r )
      : awri_( awri ), qx_( qx ), l_( l ), lrx_( lrx ), resonances_( std::move( r ) ) {
      for ( auto& v : resonances_ ) spins_.push_back( v.aj );
    }
    double AWRI() const { return awri_; }
    double QX() const { return qx_; }
    int LRX() const { return lrx_; }
    int L() const { return l_; }
    int NRS() const { return resonances_.size(); }
    int orbitalMomentum() const { return l_; }
    double atomicWeightRatio() const { return awri_; }
    bool competitiveWidthFlag() const { return lrx_; }
    const std::vector< double >& spinValues() const { return spins_; }
    const std::vector< BreitWignerResonance<> >& resonances() const { return resonances_; }
  };
  template < int Which >
  struct BreitWigner {
    using LValue = BreitWignerLValue;
    double spi_ = 0, ap_ = 0; std::vector< LValue > l_;
    double SPI() const { return spi_; }
    double AP() const { return ap_; }
    int NLS() const { return l_.size(); }
    double spin() const { return spi_; }
    double scatteringRadius() const { return ap_; }
    int numberLValues() const { return l_.size(); }
    const std::vector< LValue >& lValues() const { return l_; }
  };
  using SingleLevelBreitWigner = BreitWigner< 1 >;
  using MultiLevelBreitWigner = BreitWigner< 2 >;

  template < typename Range = Owned >
  struct ReichMooreResonance {
    double er = 0, aj = 0, gn = 0, gg = 0, gfa = 0, gfb = 0;
    double ER() const { return er; }
    double AJ() const { return aj; }
    double GN() const { return gn; }
    double GG() const { return gg; }
    double GFA() const { return gfa; }
    double GFB() const { return gfb; }
    double resonanceEnergy() const { return er; }
    double spin() const { return aj; }
    double neutronWidth() const { return gn; }
    double gammaWidth() const { return gg; }
    double firstFissionWidth() const { return gfa; }
    double secondFissionWidth() const { return gfb; }
  };
  struct ReichMooreLValue {
    template < typename Range > using Resonance = ReichMooreResonance< Range >;
    double awri_ = 0, apl_ = 0; unsigned l_ = 0;
    std::vector< ReichMooreResonance<> > resonances_;
    std::vector< double > spins_;
    ReichMooreLValue() = default;
    ReichMooreLValue( double awri, double apl, unsigned l, std::vector< ReichMooreResonance<> > r )
      : awri_( awri ), apl_( apl ), l_( l ), resonances_( std::move( r ) ) {
      for ( auto& v : resonances_ ) spins_.push_back( v.aj );
    }
    double AWRI() const { return awri_; }
    double APL() const { return apl_; }
    int L() const { return l_; }
    int NRS() const { return resonances_.size(); }
    int orbitalMomentum() const { return l_; }
    double atomicWeightRatio() const { return awri_; }
    double lDependentScatteringRadius() const { return apl_; }
    const std::vector< double >& spinValues() const { return spins_; }
    const std::vector< ReichMooreResonance<> >& resonances() const { return resonances_; }
  };
  struct ReichMoore {
    using LValue = ReichMooreLValue;
    double spi_ = 0, ap_ = 0; bool lad_ = false; int nlsc_ = 0; std::vector< LValue > l_;
    double SPI() const { return spi_; }
    double AP() const { return ap_; }
    bool LAD() const { return lad_; }
    int NLS() const { return l_.size(); }
    int NLSC() const { return nlsc_; }
    double spin() const { return spi_; }
    double scatteringRadius() const { return ap_; }
    int numberLValues() const { return l_.size(); }
    int numberLValuesForConvergence() const { return nlsc_; }
    const std::vector< LValue >& lValues() const { return l_; }
  };

  struct RMatrixLimited {
    struct ParticlePairs {
      std::vector< double > ma, mb, za, zb, ia, ib, q; std::vector< int > pnt, shf, mt; std::vector< double > pa, pb;
      void add( double a, double b, double c, double d, double e, double f, double g, int p, int s, int m, double x, double y ) {
        ma.push_back( a ); mb.push_back( b ); za.push_back( c ); zb.push_back( d ); ia.push_back( e ); ib.push_back( f );
        q.push_back( g ); pnt.push_back( p ); shf.push_back( s ); mt.push_back( m ); pa.push_back( x ); pb.push_back( y );
      }
      int numberParticlePairs() const { return mt.size(); }
      int NPP() const { return mt.size(); }
      const std::vector< double >& massParticleA() const { return ma; }
      const std::vector< double >& massParticleB() const { return mb; }
      const std::vector< double >& chargeParticleA() const { return za; }
      const std::vector< double >& chargeParticleB() const { return zb; }
      const std::vector< double >& spinParticleA() const { return ia; }
      const std::vector< double >& spinParticleB() const { return ib; }
      const std::vector< double >& parityParticleA() const { return pa; }
      const std::vector< double >& parityParticleB() const { return pb; }
      const std::vector< double >& Q() const { return q; }
      const std::vector< double >& QValues() const { return q; }
      const std::vector< int >& penetrabilityFlag() const { return pnt; }
      const std::vector< int >& shiftFactorFlag() const { return shf; }
      const std::vector< int >& MT() const { return mt; }
    };
    struct ResonanceChannels {
      double aj = 0, pj = 0; std::vector< int > ppi, l; std::vector< double > sch, bnd, ape, apt;
      void add( int p, int ll, double s, double b, double e, double t ) {
        ppi.push_back( p ); l.push_back( ll ); sch.push_back( s ); bnd.push_back( b ); ape.push_back( e ); apt.push_back( t );
      }
      double AJ() const { return aj; }
      double PJ() const { return pj; }
      double spin() const { return aj; }
      double parity() const { return pj; }
      int NCH() const { return l.size(); }
      int numberChannels() const { return l.size(); }
      const std::vector< int >& particlePairNumbers() const { return ppi; }
      const std::vector< int >& orbitalMomentumValues() const { return l; }
      const std::vector< double >& channelSpinValues() const { return sch; }
      const std::vector< double >& boundaryConditionValues() const { return bnd; }
      const std::vector< double >& effectiveChannelRadii() const { return ape; }
      const std::vector< double >& trueChannelRadii() const { return apt; }
    };
    struct ResonanceParameters {
      std::vector< double > er; std::vector< std::vector< double > > gam;
      int NRS() const { return er.size(); }
      int numberResonances() const { return er.size(); }
      const std::vector< double >& ER() const { return er; }
      const std::vector< double >& resonanceEnergies() const { return er; }
      const std::vector< std::vector< double > >& GAM() const { return gam; }
      const std::vector< std::vector< double > >& resonanceParameters() const { return gam; }
    };
    struct SpinGroup {
      ResonanceChannels channels_; ResonanceParameters parameters_;
      double AJ() const { return channels_.aj; }
      double PJ() const { return channels_.pj; }
      double spin() const { return channels_.aj; }
      double parity() const { return channels_.pj; }
      int NCH() const { return channels_.NCH(); }
      const ResonanceChannels& channels() const { return channels_; }
      const ResonanceParameters& parameters() const { return parameters_; }
    };
    bool ifg = false; int krm = 3; bool krl = false;
    ParticlePairs pairs_; std::vector< SpinGroup > groups_;
    int KRM() const { return krm; }
    bool IFG() const { return ifg; }
    bool KRL() const { return krl; }
    int NJS() const { return groups_.size(); }
    int formalism() const { return krm; }
    bool reducedWidths() const { return ifg; }
    const ParticlePairs& particlePairs() const { return pairs_; }
    const std::vector< SpinGroup >& spinGroups() const { return groups_; }
    int numberSpinGroups() const { return groups_.size(); }
  };

  struct UnresolvedEnergyIndependent {
    template < typename Range = Owned >
    struct AverageParameters {
      double d = 0, aj = 0, amun = 0, gn0 = 0, gg = 0;
      double D() const { return d; }
      double AJ() const { return aj; }
      double spin() const { return aj; }
      double averageLevelSpacing() const { return d; }
      double averageNeutronWidth() const { return gn0; }
      double averageGammaWidth() const { return gg; }
      double averageFissionWidth() const { return 0.; }
      double averageCompetitiveWidth() const { return 0.; }
      double neutronWidthDegreesFreedom() const { return amun; }
      double gammaWidthDegreesFreedom() const { return 0.; }
      double fissionWidthDegreesFreedom() const { return 0.; }
      double competitiveWidthDegreesFreedom() const { return 0.; }
    };
    template < typename Range > using JValue = AverageParameters< Range >;
    struct LValue {
      template < typename Range > using JValue = AverageParameters< Range >;
      double awri_ = 0; unsigned l_ = 0; std::vector< AverageParameters<> > j_;
      double AWRI() const { return awri_; }
      int L() const { return l_; }
      int NJS() const { return j_.size(); }
      int orbitalMomentum() const { return l_; }
      double atomicWeightRatio() const { return awri_; }
      int numberSpinValues() const { return j_.size(); }
      const std::vector< AverageParameters<> >& jValues() const { return j_; }
    };
    double spi_ = 0, ap_ = 0; int lssf_ = 0; std::vector< LValue > l_;
    double SPI() const { return spi_; }
    double AP() const { return ap_; }
    int LSSF() const { return lssf_; }
    int NLS() const { return l_.size(); }
    double spin() const { return spi_; }
    double scatteringRadius() const { return ap_; }
    const std::vector< LValue >& lValues() const { return l_; }
  };

  struct UnresolvedEnergyDependentFissionWidths {
    struct JValue {
      double d = 0, aj = 0, amun = 0, gn0 = 0, gg = 0; int muf = 0; std::vector< double > gf;
      double D() const { return d; }
      double AJ() const { return aj; }
      double spin() const { return aj; }
      double averageLevelSpacing() const { return d; }
      double averageNeutronWidth() const { return gn0; }
      double averageGammaWidth() const { return gg; }
      const std::vector< double >& averageFissionWidths() const { return gf; }
      double averageCompetitiveWidth() const { return 0.; }
      double neutronWidthDegreesFreedom() const { return amun; }
      double gammaWidthDegreesFreedom() const { return 0.; }
      double fissionWidthDegreesFreedom() const { return muf; }
      double competitiveWidthDegreesFreedom() const { return 0.; }
    };
    struct LValue {
      double awri_ = 0; unsigned l_ = 0; std::vector< UnresolvedEnergyDependentFissionWidths::JValue > j_;
      double AWRI() const { return awri_; }
      int L() const { return l_; }
      int NJS() const { return j_.size(); }
      int orbitalMomentum() const { return l_; }
      double atomicWeightRatio() const { return awri_; }
      int numberSpinValues() const { return j_.size(); }
      const std::vector< UnresolvedEnergyDependentFissionWidths::JValue >& jValues() const { return j_; }
    };
    double spi_ = 0, ap_ = 0; int lssf_ = 0; std::vector< double > es; std::vector< LValue > l_;
    double SPI() const { return spi_; }
    double AP() const { return ap_; }
    int LSSF() const { return lssf_; }
    int NLS() const { return l_.size(); }
    int NE() const { return es.size(); }
    double spin() const { return spi_; }
    double scatteringRadius() const { return ap_; }
    const std::vector< double >& energies() const { return es; }
    const std::vector< LValue >& lValues() const { return l_; }
  };

  struct UnresolvedEnergyDependent {
    struct JValue {
      double aj = 0; int interpolant = 2; double amux = 0, amun = 0, amug = 0, amuf = 0;
      std::vector< double > es, d, gx, gn0, gg, gf;
      double AJ() const { return aj; }
      double spin() const { return aj; }
      int interpolationType() const { return interpolant; }
      int numberEnergies() const { return es.size(); }
      const std::vector< double >& energies() const { return es; }
      const std::vector< double >& averageLevelSpacings() const { return d; }
      const std::vector< double >& averageNeutronWidths() const { return gn0; }
      const std::vector< double >& averageGammaWidths() const { return gg; }
      const std::vector< double >& averageFissionWidths() const { return gf; }
      const std::vector< double >& averageCompetitiveWidths() const { return gx; }
      double neutronWidthDegreesFreedom() const { return amun; }
      double gammaWidthDegreesFreedom() const { return amug; }
      double fissionWidthDegreesFreedom() const { return amuf; }
      double competitiveWidthDegreesFreedom() const { return amux; }
    };
    struct LValue {
      double awri_ = 0; unsigned l_ = 0; std::vector< UnresolvedEnergyDependent::JValue > j_;
      double AWRI() const { return awri_; }
      int L() const { return l_; }
      int NJS() const { return j_.size(); }
      int orbitalMomentum() const { return l_; }
      double atomicWeightRatio() const { return awri_; }
      int numberSpinValues() const { return j_.size(); }
      const std::vector< UnresolvedEnergyDependent::JValue >& jValues() const { return j_; }
    };
    double spi_ = 0, ap_ = 0; int lssf_ = 0; std::vector< LValue > l_;
    double SPI() const { return spi_; }
    double AP() const { return ap_; }
    int LSSF() const { return lssf_; }
    int NLS() const { return l_.size(); }
    double spin() const { return spi_; }
    double scatteringRadius() const { return ap_; }
    const std::vector< LValue >& lValues() const { return l_; }
  };

};

template <>
class Type< 2, 151 > : public Parts151 {
public:
  struct ResonanceRange {
    using Parameters = std::variant< SpecialCase, SingleLevelBreitWigner, MultiLevelBreitWigner, ReichMoore, RMatrixLimited,
                                     UnresolvedEnergyIndependent, UnresolvedEnergyDependentFissionWidths, UnresolvedEnergyDependent >;
    double el = 0, eh = 0; int lru = 0, lrf = 0, naps = 0;
    std::optional< ScatteringRadius > radius_; Parameters parameters_;
    double EL() const { return el; }
    double EH() const { return eh; }
    int LRU() const { return lru; }
    int LRF() const { return lrf; }
    int NRO() const { return radius_ ? 1 : 0; }
    int NAPS() const { return naps; }
    double lowerEnergy() const { return el; }
    double upperEnergy() const { return eh; }
    int type() const { return lru; }
    int representation() const { return lrf; }
    int energyDependentScatteringRadius() const { return NRO(); }
    int scatteringRadiusCalculationOption() const { return naps; }
    const std::optional< ScatteringRadius >& scatteringRadius() const { return radius_; }
    const Parameters& parameters() const { return parameters_; }
  };
  struct Isotope {
    double zai = 0, abn = 0; bool lfw = false; std::vector< ResonanceRange > ranges_;
    double ZAI() const { return zai; }
    double ABN() const { return abn; }
    bool LFW() const { return lfw; }
    const std::vector< ResonanceRange >& resonanceRanges() const { return ranges_; }
  };

  double za_ = 0, awr_ = 0; std::vector< Isotope > isotopes_;
  Type() = default;
  template < typename It >
  Type( const HeadRecord& head, It& it, const It& end, long& lineNumber, int /* mat */ ) : za_( head.c1 ), awr_( head.c2 ) {
    detail::Reader< It > r{ it, end, lineNumber };
    for ( long i = 0; i < head.n1; ++i ) {
      auto c = r.fields();
      Isotope iso; iso.zai = c[ 0 ]; iso.abn = c[ 1 ]; iso.lfw = c[ 3 ] != 0;
      for ( long n = 0; n < (long) c[ 4 ]; ++n ) iso.ranges_.push_back( range( r, iso.lfw ) );
      isotopes_.push_back( std::move( iso ) );
    }
  }
  double ZA() const { return za_; }
  double atomicWeightRatio() const { return awr_; }
  int NIS() const { return isotopes_.size(); }
  const std::vector< Isotope >& isotopes() const { return isotopes_; }

private:
  template < typename R > static ResonanceRange range( R& r, bool lfw ) {
    auto c = r.fields();
    ResonanceRange g; g.el = c[ 0 ]; g.eh = c[ 1 ]; g.lru = (int) c[ 2 ]; g.lrf = (int) c[ 3 ]; g.naps = (int) c[ 5 ];
    if ( (int) c[ 4 ] ) {
      auto h = r.fields(); auto b = r.body( 2 * (long) h[ 4 ] ); auto xy = r.body( 2 * (long) h[ 5 ] );
      std::vector< long > bd, in; std::vector< double > x, y;
      for ( std::size_t i = 0; i < b.size(); i += 2 ) { bd.push_back( (long) b[ i ] ); in.push_back( (long) b[ i + 1 ] ); }
      for ( std::size_t i = 0; i < xy.size(); i += 2 ) { x.push_back( xy[ i ] ); y.push_back( xy[ i + 1 ] ); }
      g.radius_ = ScatteringRadius( bd, in, x, y );
    }
    if ( g.lru == 0 ) { auto h = r.fields(); g.parameters_ = SpecialCase{ h[ 0 ], h[ 1 ] }; }
    else if ( g.lru == 1 && g.lrf == 1 ) g.parameters_ = breitWigner< SingleLevelBreitWigner >( r );
    else if ( g.lru == 1 && g.lrf == 2 ) g.parameters_ = breitWigner< MultiLevelBreitWigner >( r );
    else if ( g.lru == 1 && g.lrf == 3 ) g.parameters_ = reichMoore( r );
    else if ( g.lru == 1 && g.lrf == 7 ) g.parameters_ = limited( r );
    else if ( g.lru == 2 && g.lrf == 1 && !lfw ) {
      auto h = r.fields(); UnresolvedEnergyIndependent u; u.spi_ = h[ 0 ]; u.ap_ = h[ 1 ]; u.lssf_ = (int) h[ 2 ];
      for ( long i = 0; i < (long) h[ 4 ]; ++i ) {
        auto q = r.fields(); auto b = r.body( (long) q[ 4 ] );
        UnresolvedEnergyIndependent::LValue l; l.awri_ = q[ 0 ]; l.l_ = (unsigned) q[ 2 ];
        for ( std::size_t k = 0; k < b.size(); k += 6 ) l.j_.push_back( { b[ k ], b[ k + 1 ], b[ k + 2 ], b[ k + 3 ], b[ k + 4 ] } );
        u.l_.push_back( std::move( l ) );
      }
      g.parameters_ = std::move( u );
    }
    else if ( g.lru == 2 && g.lrf == 1 ) {
      auto h = r.fields(); UnresolvedEnergyDependentFissionWidths u; u.spi_ = h[ 0 ]; u.ap_ = h[ 1 ]; u.lssf_ = (int) h[ 2 ];
      u.es = r.body( (long) h[ 4 ] );
      for ( long i = 0; i < (long) h[ 5 ]; ++i ) {
        auto q = r.fields();
        UnresolvedEnergyDependentFissionWidths::LValue l; l.awri_ = q[ 0 ]; l.l_ = (unsigned) q[ 2 ];
        for ( long k = 0; k < (long) q[ 4 ]; ++k ) {
          auto p = r.fields(); auto b = r.body( (long) p[ 4 ] );
          UnresolvedEnergyDependentFissionWidths::JValue j; j.d = b[ 0 ]; j.aj = b[ 1 ]; j.amun = b[ 2 ]; j.gn0 = b[ 3 ]; j.gg = b[ 4 ]; j.muf = (int) p[ 3 ];
          j.gf.assign( b.begin() + 6, b.end() );
          l.j_.push_back( std::move( j ) );
        }
        u.l_.push_back( std::move( l ) );
      }
      g.parameters_ = std::move( u );
    }
    else if ( g.lru == 2 && g.lrf == 2 ) {
      auto h = r.fields(); UnresolvedEnergyDependent u; u.spi_ = h[ 0 ]; u.ap_ = h[ 1 ]; u.lssf_ = (int) h[ 2 ];
      for ( long i = 0; i < (long) h[ 4 ]; ++i ) {
        auto q = r.fields();
        UnresolvedEnergyDependent::LValue l; l.awri_ = q[ 0 ]; l.l_ = (unsigned) q[ 2 ];
        for ( long k = 0; k < (long) q[ 4 ]; ++k ) {
          auto p = r.fields(); auto b = r.body( (long) p[ 4 ] );
          UnresolvedEnergyDependent::JValue j; j.aj = p[ 0 ]; j.interpolant = (int) p[ 2 ]; j.amux = b[ 2 ]; j.amun = b[ 3 ]; j.amug = b[ 4 ]; j.amuf = b[ 5 ];
          for ( std::size_t m = 6; m < b.size(); m += 6 ) {
            j.es.push_back( b[ m ] ); j.d.push_back( b[ m + 1 ] ); j.gx.push_back( b[ m + 2 ] ); j.gn0.push_back( b[ m + 3 ] ); j.gg.push_back( b[ m + 4 ] ); j.gf.push_back( b[ m + 5 ] );
          }
          l.j_.push_back( std::move( j ) );
        }
        u.l_.push_back( std::move( l ) );
      }
      g.parameters_ = std::move( u );
    }
    else throw std::runtime_error( "resonance range type" );
    return g;
  }
  template < typename B, typename R > static B breitWigner( R& r ) {
    auto h = r.fields(); B w; w.spi_ = h[ 0 ]; w.ap_ = h[ 1 ];
    for ( long i = 0; i < (long) h[ 4 ]; ++i ) {
      auto q = r.fields(); auto b = r.body( (long) q[ 4 ] ); std::vector< BreitWignerResonance<> > v;
      for ( std::size_t k = 0; k < b.size(); k += 6 ) v.push_back( { b[ k ], b[ k + 1 ], b[ k + 2 ], b[ k + 3 ], b[ k + 4 ], b[ k + 5 ] } );
      w.l_.emplace_back( q[ 0 ], q[ 1 ], (unsigned) q[ 2 ], (int) q[ 3 ], std::move( v ) );
    }
    return w;
  }
  template < typename R > static ReichMoore reichMoore( R& r ) {
    auto h = r.fields(); ReichMoore w; w.spi_ = h[ 0 ]; w.ap_ = h[ 1 ]; w.lad_ = h[ 2 ] != 0; w.nlsc_ = (int) h[ 5 ];
    for ( long i = 0; i < (long) h[ 4 ]; ++i ) {
      auto q = r.fields(); auto b = r.body( (long) q[ 4 ] ); std::vector< ReichMooreResonance<> > v;
      for ( std::size_t k = 0; k < b.size(); k += 6 ) v.push_back( { b[ k ], b[ k + 1 ], b[ k + 2 ], b[ k + 3 ], b[ k + 4 ], b[ k + 5 ] } );
      w.l_.emplace_back( q[ 0 ], q[ 1 ], (unsigned) q[ 2 ], std::move( v ) );
    }
    return w;
  }
  template < typename R > static RMatrixLimited limited( R& r ) {
    auto h = r.fields(); RMatrixLimited w; w.ifg = h[ 2 ] != 0; w.krm = (int) h[ 3 ]; w.krl = h[ 5 ] != 0;
    auto q = r.fields(); auto b = r.body( (long) q[ 4 ] );
    for ( std::size_t k = 0; k < b.size(); k += 12 )
      w.pairs_.add( b[ k ], b[ k + 1 ], b[ k + 2 ], b[ k + 3 ], b[ k + 4 ], b[ k + 5 ], b[ k + 6 ], (int) b[ k + 7 ], (int) b[ k + 8 ], (int) b[ k + 9 ], b[ k + 10 ], b[ k + 11 ] );
    for ( long i = 0; i < (long) h[ 4 ]; ++i ) {
      auto c = r.fields(); auto m = r.body( (long) c[ 4 ] );
      RMatrixLimited::SpinGroup s; s.channels_.aj = c[ 0 ]; s.channels_.pj = c[ 1 ];
      for ( std::size_t k = 0; k < m.size(); k += 6 ) s.channels_.add( (int) m[ k ], (int) m[ k + 1 ], m[ k + 2 ], m[ k + 3 ], m[ k + 4 ], m[ k + 5 ] );
      long nch = s.channels_.NCH();
      auto e = r.fields(); long nrs = (long) e[ 3 ]; auto d = r.body( std::max( (long) e[ 4 ], 6l ) );
      long stride = 6 * ( ( nch + 1 + 5 ) / 6 );
      for ( long k = 0; k < nrs; ++k ) {
        s.parameters_.er.push_back( d[ k * stride ] );
        s.parameters_.gam.emplace_back( d.begin() + k * stride + 1, d.begin() + k * stride + 1 + nch );
      }
      w.groups_.push_back( std::move( s ) );
    }
    return w;
  }
};
} // namespace section
} // namespace ENDFtk
} // namespace njoy
#endif
