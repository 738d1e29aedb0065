From 26da320109cc63bfa0423d60017350b2726dcee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:10 +0000
Subject: [PATCH 01/17] fix: keep the sign of the charged particle phase shift

The phase shift is the angle whose cosine is G and whose sine is F. The arc
cosine loses the sign when F is negative (beyond the first zero of F), so that
the channel got the complex conjugate of its phase.
---
 src/resonanceReconstruction/rmatrix/src/calculatePhaseShift.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/calculatePhaseShift.hpp b/src/resonanceReconstruction/rmatrix/src/calculatePhaseShift.hpp
index d827a06..cd4d738 100644
--- a/src/resonanceReconstruction/rmatrix/src/calculatePhaseShift.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/calculatePhaseShift.hpp
@@ -71,5 +71,5 @@ double calculatePhaseShift< ChargedParticle >( const unsigned int l,
   double G = gf.real();
   return ( F == 0. ) and ( G == 0. )
            ? 0.
-           : std::acos( G / std::sqrt( F * F + G * G ) );
+           : std::atan2( F, G );
 }
-- 
2.43.0


From 393e8def21d73d9d6c8d0431e5c43ab0caa28452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:20 +0000
Subject: [PATCH 02/17] fix: start the downward recurrence for F above the
 turning point

The number of partial waves is capped, so that for rho beyond about 45 the
recurrence started below its turning point and the regular Coulomb function
came out wrong (by orders of magnitude at rho = 100) without any error.
---
 src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp b/src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp
index 7411b67..772fc2e 100644
--- a/src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp
@@ -77,7 +77,9 @@ int omExternalFunction(int lmax, double rho_match, double coulomb, double coulom
 
   lmax = (l==MAX_L-1) ? l-1 : l;
 
-  int  l0   = lmax+10;
+  /*** the downward recurrence has to start above the turning point */
+  int  l0   = std::max(lmax,(int)(1.25*rho_match))+10;
+  int  lend = std::max(l0,MAX_L0);
   bool flag = false;
   do{
     flag = false;
@@ -108,7 +110,7 @@ int omExternalFunction(int lmax, double rho_match, double coulomb, double coulom
         break;
       }
     }
-    if(l0 > MAX_L0){
+    if(l0 > lend){
       Log::error( "angular momentum too large {}", l0 );
       throw std::exception();
     }
-- 
2.43.0


From 565c7bb5d7e7a8556de0d006fe6d14db58f74f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:44 +0000
Subject: [PATCH 03/17] fix: derivative of the Riccati expansion for the
 Coulomb function G

The correction terms to the logarithmic derivative of the amplitude lacked the
common factor 1/(2 eta (1-t)): differentiating the amplitude exp(psi) gives
b = 1/(2 eta (1-t)) ( 1/4 + g0 ( ... ) ). For 5 <= eta < 15 and rho > 2 eta the
penetrability was off by 2e-3 instead of 1e-5.
---
 src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp b/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
index 146230e..749cd56 100644
--- a/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
@@ -171,7 +171,7 @@ void omGcase4(double ra, double y, double *p0, double *p1)
   g2 =  3.0*(x*(x*(x*(39.*x-260.)+728.)-832.)+2560.)/4096.;
   g3 = -3.0*(x*(x*(x*(x*(x*(1899.*x-17724.)+73432.)-177280.)+308480.)
            +196608.)+860160.)/131072.;
-  b = x1*y1/4.0+g0*(g1+g0*(g2+g0*g3));
+  b = x1*y1*(0.25+g0*(g1+g0*(g2+g0*g3)));
 
   m = 1.0/std::sqrt(x2)*exp(psi);
 
-- 
2.43.0


From 7f1e6ab4a22d112609285e936badbcf5f2b844f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:44 +0000
Subject: [PATCH 04/17] fix: transposed coefficient in the Riccati expansion
 for the Coulomb function G

The polynomial is the one used below the turning point, in reverse order of its
coefficients: 13178880, as in omGcase1.
---
 src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp b/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
index 749cd56..7b89170 100644
--- a/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
@@ -149,7 +149,7 @@ void omGcase4(double ra, double y, double *p0, double *p1)
   g2 = -(x*(x*(x*(x*(x*(-1890.*x+7560.)-12240.)-13440.)+16128.)-9216.)+2048.)
        /92160.;
   g3 = -(x*(x*(x*(x*(x*(x*(x*(x*(x*(130977.*x
-       -  873180.)+2487240.)-3588480.)+13520640.)- 9225216.)+15178880.)
+       -  873180.)+2487240.)-3588480.)+13520640.)- 9225216.)+13178880.)
        -11714560.)+6389760.)-1966080.)+  262144.)/10321920.;
   g4 = 2.0*y*(x2/x+0.5*log((1.0-x2)/(1.0+x2)))+PI_4;
   fai = g4+std::sqrt(g0)*(g1+g0*(g2+g0*g3));
-- 
2.43.0


From ae81a58fb6f095a6266721b740ee1836848a6b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:44 +0000
Subject: [PATCH 05/17] fix: refuse an orbital angular momentum the Coulomb
 arrays cannot hold

For l >= MAX_L the function read beyond its arrays, and for l = MAX_L - 1 it
returned a derivative that was never calculated.
---
 src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp b/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp
index 9d87581..2a95ad0 100644
--- a/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp
@@ -19,6 +19,9 @@ void coulombWaveFunctions( int l, double ratio, double eta,
                            std::complex<double>& gf,
                            std::complex<double>& dgf ) {
 
+  // the arrays below only hold the functions and their derivatives up to here
+  if ( l < 0 or l > MAX_L - 2 ) throw std::exception();
+
   double y2 = eta*eta;
   double y3 = 16.0 + y2;
   double y4 = y3*y3;
-- 
2.43.0


From f65cee332aec0d55622dabb2660cbb778a304675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:33 +0000
Subject: [PATCH 06/17] fix: elastic cross section of a charged particle uses
 exp( 2 i w )

The collision matrix contains Omega = exp( i( w - phi ) ) on both sides, so what has to be
subtracted from it is exp( 2 i w ). With exp( i w ) a charged particle with l > 0 scattered
elastically even without nuclear interaction.
---
 .../rmatrix/SpinGroup/src/evaluate.hpp                      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/SpinGroup/src/evaluate.hpp b/src/resonanceReconstruction/rmatrix/SpinGroup/src/evaluate.hpp
index a2526f5..4f83457 100644
--- a/src/resonanceReconstruction/rmatrix/SpinGroup/src/evaluate.hpp
+++ b/src/resonanceReconstruction/rmatrix/SpinGroup/src/evaluate.hpp
@@ -67,12 +67,12 @@ void evaluate( const Energy& energy,
                                    incidentSqrtP * tValue * sqrtP ) * omega; },
             delta( 1.0 ), row, diagonalSqrtPMatrix, diagonalOmegaMatrix );
 
-    // the exponential of the coulomb phase shift for the incident channel
+    // the exponential of twice the coulomb phase shift for the incident channel
     const auto exponential =
-      std::exp( std::complex< double >( 0., coulombShifts[c] ) );
+      std::exp( std::complex< double >( 0., 2. * coulombShifts[c] ) );
 
     // the cross section values for channel c to c' - independent of formalism
-    // sigma_cc' = norm( exp( iw_c ) delta_cc' - U_cc' )
+    // sigma_cc' = norm( exp( 2iw_c ) delta_cc' - U_cc' )
     const auto sigma =
       ranges::view::zip_with(
           [&] ( const auto delta, const auto uValue )
-- 
2.43.0


From df6096a62c03b52b82a58de0e10981291f913856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:53 +0000
Subject: [PATCH 07/17] fix: refuse a spin group without channels before using
 its first channel

The reaction identifiers were made from the first channel before the channels were verified, so
an empty set of channels crashed instead of being refused.
---
 src/resonanceReconstruction/rmatrix/SpinGroup/src/ctor.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/SpinGroup/src/ctor.hpp b/src/resonanceReconstruction/rmatrix/SpinGroup/src/ctor.hpp
index 0c1487f..25fb128 100644
--- a/src/resonanceReconstruction/rmatrix/SpinGroup/src/ctor.hpp
+++ b/src/resonanceReconstruction/rmatrix/SpinGroup/src/ctor.hpp
@@ -7,13 +7,13 @@
 SpinGroup( std::vector< ParticleChannel >&& channels,
            ResonanceTable&& table ) :
   rlmatrix_( table ),
-  reactions_( makeReactionIdentifiers( channels,
-                                       Formalism() ) ),
+  reactions_( [&] { verifyChannels( channels );
+                    return makeReactionIdentifiers( channels,
+                                                    Formalism() ); }() ),
   incident_( determineIncidentChannels( channels ) ),
   channels_( std::move( channels ) ),
   parameters_( std::move( table ) ) {
 
-  verifyChannels( this->channels_ );
   verifyIncidentChannels( this->incident_ );
   verifyResonanceChannels( this->channels_, this->parameters_ );
 }
-- 
2.43.0


From d91367c23207b1dfa31e423532dd9a5692399ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:31 +0000
Subject: [PATCH 08/17] fix: a resolved resonance returns the penetrability it
 was given

---
 .../rmatrix/legacy/resolved/Resonance/src/ctor.hpp               | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/resonanceReconstruction/rmatrix/legacy/resolved/Resonance/src/ctor.hpp b/src/resonanceReconstruction/rmatrix/legacy/resolved/Resonance/src/ctor.hpp
index c85ad56..7723815 100644
--- a/src/resonanceReconstruction/rmatrix/legacy/resolved/Resonance/src/ctor.hpp
+++ b/src/resonanceReconstruction/rmatrix/legacy/resolved/Resonance/src/ctor.hpp
@@ -25,4 +25,5 @@ Resonance( const Energy& energy,
     competition_( competition ),
     elastic_to_penetrability_( elastic / P ),
     competition_to_penetrability_( competition / Q ),
+    penetrability_( P ),
     shiftfactor_( S ) {}
-- 
2.43.0


From c610b9e12ad8f01306e13527260ceeedee07961b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:31 +0000
Subject: [PATCH 09/17] fix: fluctuation integrals without elastic degrees of
 freedom read outside the quadrature

---
 .../legacy/unresolved/src/calculateFluctuationIntegrals.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resonanceReconstruction/rmatrix/legacy/unresolved/src/calculateFluctuationIntegrals.hpp b/src/resonanceReconstruction/rmatrix/legacy/unresolved/src/calculateFluctuationIntegrals.hpp
index 73898d4..4f79bd9 100644
--- a/src/resonanceReconstruction/rmatrix/legacy/unresolved/src/calculateFluctuationIntegrals.hpp
+++ b/src/resonanceReconstruction/rmatrix/legacy/unresolved/src/calculateFluctuationIntegrals.hpp
@@ -46,7 +46,7 @@ FluctuationIntegrals calculateFluctuationIntegrals( const Widths& widths,
                                0. / electronVolt, 0. / electronVolt );
 
   // the degrees of freedom for each reaction
-  unsigned int mu = degrees.elastic - 1;
+  unsigned int mu = degrees.hasElastic() ? degrees.elastic - 1 : 0;
   unsigned int nu = degrees.hasFission() ? degrees.fission - 1 : 0;
   unsigned int lambda = degrees.hasCompetition() ? degrees.competition - 1 : 0;
 
-- 
2.43.0


From abced5b679c110800f0df81cfad018ac75a18d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:31 +0000
Subject: [PATCH 10/17] fix: the unresolved energy grid terminates when there
 is no point to insert

---
 .../rmatrix/legacy/unresolved/CompoundSystem/src/grid.hpp  | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/legacy/unresolved/CompoundSystem/src/grid.hpp b/src/resonanceReconstruction/rmatrix/legacy/unresolved/CompoundSystem/src/grid.hpp
index 8a54b8d..9bc676b 100644
--- a/src/resonanceReconstruction/rmatrix/legacy/unresolved/CompoundSystem/src/grid.hpp
+++ b/src/resonanceReconstruction/rmatrix/legacy/unresolved/CompoundSystem/src/grid.hpp
@@ -54,8 +54,11 @@ std::vector< Energy > grid() const {
         auto begin = std::upper_bound( ranges::begin( values ), ranges::end( values ), *previous );
         auto end = std::lower_bound( ranges::begin( values ), ranges::end( values ), *iter );
         auto distance = std::distance( begin, end );
-        iter = grid.insert( iter, begin, end );
-        std::advance( iter, distance - 1 );
+        if ( distance > 0 ) {
+
+          iter = grid.insert( iter, begin, end );
+          std::advance( iter, distance - 1 );
+        }
       }
       previous = iter;
     }
-- 
2.43.0


From e63440bd08a04ffd5c8cc7bb15b470c519fee491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:12 +0000
Subject: [PATCH 11/17] fix: R-matrix limited channels take their reaction from
 their own particle pair

---
 .../rmatrix/src/makeParticleChannels.hpp               | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/makeParticleChannels.hpp b/src/resonanceReconstruction/rmatrix/src/makeParticleChannels.hpp
index a78bc8e..c26a871 100644
--- a/src/resonanceReconstruction/rmatrix/src/makeParticleChannels.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/makeParticleChannels.hpp
@@ -62,12 +62,18 @@ makeParticleChannels(
 
   // do some range magic
   auto q = endfPairs.Q();
-  auto incidentPairs = ranges::view::repeat_n( incident, pairs.size() );
+  auto mt = endfPairs.MT();
+  auto incidentPairs = endfChannels.particlePairNumbers()
+                           | ranges::view::transform( [&] ( unsigned int )
+                                                          { return incident; } );
   auto channelPairs = endfChannels.particlePairNumbers()
                           | ranges::view::transform( getParticlePair );
   auto qValues = endfChannels.particlePairNumbers()
                      | ranges::view::transform( [&] ( unsigned int i )
                                                     { return q[ i - 1 ]; } );
+  auto mtValues = endfChannels.particlePairNumbers()
+                      | ranges::view::transform( [&] ( unsigned int i )
+                                                     { return mt[ i - 1 ]; } );
   auto channelNumbers = ranges::view::zip_with(
                             makeChannelQuantumNumbers,
                             endfChannels.orbitalMomentumValues(),
@@ -85,5 +91,5 @@ makeParticleChannels(
              channelNumbers,
              channelRadii,
              endfChannels.boundaryConditionValues(),
-             endfPairs.MT() );
+             mtValues );
 }
-- 
2.43.0


From 463e200c61e3882462160d01c5d9bf3cb68285f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:22 +0000
Subject: [PATCH 12/17] fix: R-matrix limited data without a capture or elastic
 pair were read out of bounds

---
 .../rmatrix/src/makeCompoundSystem.hpp                |  8 +++++++-
 .../rmatrix/src/makeParticleChannelData.hpp           | 11 +++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/makeCompoundSystem.hpp b/src/resonanceReconstruction/rmatrix/src/makeCompoundSystem.hpp
index 7d97876..6127e1e 100644
--- a/src/resonanceReconstruction/rmatrix/src/makeCompoundSystem.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/makeCompoundSystem.hpp
@@ -12,7 +12,13 @@ makeCompoundSystem(
   auto endfPairs = endfRMatrix.particlePairs();
   auto pairs = makeParticlePairs( endfPairs, neutronMass, elementaryCharge,
                                   incident, target );
-  auto in = pairs[ rmatrix::incident( endfPairs ) ];
+  auto index = rmatrix::incident( endfPairs );
+  if ( index == pairs.size() ) {
+
+    throw std::runtime_error( "There is no elastic particle pair in the "
+                              "R-matrix limited resolved resonances" );
+  }
+  auto in = pairs[ index ];
   bool reducedWidthsFlag = endfRMatrix.reducedWidths() == 0 ? false : true;
   auto spingroups = endfRMatrix.spinGroups();
 
diff --git a/src/resonanceReconstruction/rmatrix/src/makeParticleChannelData.hpp b/src/resonanceReconstruction/rmatrix/src/makeParticleChannelData.hpp
index bab40e5..c5ecd7a 100644
--- a/src/resonanceReconstruction/rmatrix/src/makeParticleChannelData.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/makeParticleChannelData.hpp
@@ -262,7 +262,7 @@ makeParticleChannelData(
   std::vector< ParticleChannel > channels =
       makeParticleChannels( incident, pairs, endfPairs,
                             endfSpinGroup.channels() );
-  unsigned int eliminated = [&] {
+  unsigned int eliminated = [&] () -> unsigned int {
 
     auto getParticlePair = [] ( const ParticleChannel& channel ) {
 
@@ -271,7 +271,14 @@ makeParticleChannelData(
                          channel );
     };
 
-    auto eliminatedPair = pairs[ rmatrix::eliminated( endfPairs ) ];
+    // without a capture pair there is no channel to eliminate
+    auto index = rmatrix::eliminated( endfPairs );
+    if ( index == pairs.size() ) {
+
+      return channels.size();
+    }
+
+    auto eliminatedPair = pairs[ index ];
     auto pairs = channels | ranges::view::transform( getParticlePair );
     auto found = std::find_if(
                      ranges::begin( pairs ),
-- 
2.43.0


From b54e7582cd6de3f02f94847286eecfecdcd604b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:10 +0000
Subject: [PATCH 13/17] fix: Breit-Wigner competitive widths use the energy
 plus QX ( A + 1 ) / A

QX is added to the energy in the centre of mass, so that the laboratory energy at which
the penetrability is taken needs QX divided by A / ( A + 1 ), not multiplied with it.
---
 .../breitWigner/singleLevel/Apply/src/lvalue.hpp                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/lvalue.hpp b/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/lvalue.hpp
index d37f5c5..9d836f8 100644
--- a/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/lvalue.hpp
+++ b/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/lvalue.hpp
@@ -8,7 +8,7 @@ static auto lvalue( const endf::SingleLevelBreitWigner::LValue& lstate,
                     double targetSpin ){
   if ( lstate.LRX() ){
     const auto weightRatio = lstate.AWRI() / ( lstate.AWRI() + 1. );
-    const auto offset = lstate.QX() * weightRatio * electronVolts;
+    const auto offset = lstate.QX() / weightRatio * electronVolts;
 
     auto rs =
       resonances( lstate.resonances(),
-- 
2.43.0


From 10fa4abaab34f4699c0aa064136f0c7d50579688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:10 +0000
Subject: [PATCH 14/17] fix: Breit-Wigner bound levels take a tabulated radius
 at the absolute energy

The wave number already uses the absolute value of the energy. A tabulated radius was looked up at
the negative energy, and the table threw.
---
 .../breitWigner/lvalue/Type/src/competitiveWidth.hpp           | 3 ++-
 .../breitWigner/singleLevel/Apply/src/competitiveWidth.hpp     | 2 +-
 .../breitWigner/singleLevel/Apply/src/resonance.hpp            | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/resonanceReconstruction/breitWigner/lvalue/Type/src/competitiveWidth.hpp b/src/resonanceReconstruction/breitWigner/lvalue/Type/src/competitiveWidth.hpp
index 42cb0da..6ad62ad 100644
--- a/src/resonanceReconstruction/breitWigner/lvalue/Type/src/competitiveWidth.hpp
+++ b/src/resonanceReconstruction/breitWigner/lvalue/Type/src/competitiveWidth.hpp
@@ -2,7 +2,8 @@ template< typename ChannelRatio >
 auto competitiveWidth( const Quantity< ElectronVolts > energy,
                        ChannelRatio&& rho ) const {
   const double penetrationFactor =
-    this->penetrationShift( rho( energy + *( this->weightedQValue ) ) )[0];
+    this->penetrationShift
+    ( rho( std::abs( energy + *( this->weightedQValue ) ) ) )[0];
   
   return [ penetrationFactor ]( const resonance::Type& r ){
     return r.weightedCompetitiveWidth * penetrationFactor;
diff --git a/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/competitiveWidth.hpp b/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/competitiveWidth.hpp
index adec6f9..4182719 100644
--- a/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/competitiveWidth.hpp
+++ b/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/competitiveWidth.hpp
@@ -5,6 +5,6 @@ static auto competitiveWidth( const Quantity< ElectronVolts > offset ){
     const auto energy = resonance.ER() * electronVolts + offset;
     const auto competitiveWidth = resonance.GX() * electronVolts;
 
-    return competitiveWidth / penetrationShift( rho( energy ) )[0];
+    return competitiveWidth / penetrationShift( rho( std::abs(energy) ) )[0];
   };
 }
diff --git a/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/resonance.hpp b/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/resonance.hpp
index 84f8b2e..f90fe54 100644
--- a/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/resonance.hpp
+++ b/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/resonance.hpp
@@ -15,7 +15,7 @@ static auto resonance(
 
   const auto competitiveWidth = 0.0 * electronVolts;
 
-  const auto ps = penetrationShift( rho( energy ) );
+  const auto ps = penetrationShift( rho( std::abs(energy) ) );
   const auto& penetrationFactor = ps[0];
   const auto& shiftFactor = ps[1];
 
-- 
2.43.0


From 2201df7f93bba90ff51c901514ffbb122ad652df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:10 +0000
Subject: [PATCH 15/17] fix: a resonance range with an invalid NAPS is refused

The functions flowed off their end, which is undefined behaviour (a crash with gcc).
---
 .../breitWigner/multiLevel/Apply/src/call.hpp                  | 3 +++
 .../breitWigner/singleLevel/Apply/src/call.hpp                 | 3 +++
 src/resonanceReconstruction/reichMoore/Apply/src/call.hpp      | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/resonanceReconstruction/breitWigner/multiLevel/Apply/src/call.hpp b/src/resonanceReconstruction/breitWigner/multiLevel/Apply/src/call.hpp
index 71e4d20..f921692 100644
--- a/src/resonanceReconstruction/breitWigner/multiLevel/Apply/src/call.hpp
+++ b/src/resonanceReconstruction/breitWigner/multiLevel/Apply/src/call.hpp
@@ -40,4 +40,7 @@ operator()( const endf::ResonanceRange& range,
     throw std::runtime_error(
       "The resonance range does not appear to contain MLBW parameters" );
   }
+
+  throw std::runtime_error(
+    "The resonance range has an invalid value of NAPS" );
 }
diff --git a/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/call.hpp b/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/call.hpp
index 37a83a0..c6a9f65 100644
--- a/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/call.hpp
+++ b/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/call.hpp
@@ -42,4 +42,7 @@ operator()( const endf::ResonanceRange& range,
     throw std::runtime_error(
       "The resonance range does not appear to contain SLBW parameters" );
   }
+
+  throw std::runtime_error(
+    "The resonance range has an invalid value of NAPS" );
 }
diff --git a/src/resonanceReconstruction/reichMoore/Apply/src/call.hpp b/src/resonanceReconstruction/reichMoore/Apply/src/call.hpp
index fbf33aa..b4bfe9b 100644
--- a/src/resonanceReconstruction/reichMoore/Apply/src/call.hpp
+++ b/src/resonanceReconstruction/reichMoore/Apply/src/call.hpp
@@ -52,4 +52,7 @@ operator()( const endf::ResonanceRange& range,
     throw std::runtime_error(
       "The resonance range does not appear to contain Reich-Moore parameters" );
   }
+
+  throw std::runtime_error(
+    "The resonance range has an invalid value of NAPS" );
 }
-- 
2.43.0


From bdcb5e40bda4bf0a01e0d86ab1aecbf95edfe09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:34 +0000
Subject: [PATCH 16/17] fix: Reich-Moore channels without resonances use the
 scattering radius of their l value

---
 .../src/makeReichMooreCompoundSystem.hpp       | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/makeReichMooreCompoundSystem.hpp b/src/resonanceReconstruction/rmatrix/src/makeReichMooreCompoundSystem.hpp
index d18cdd6..e05f844 100644
--- a/src/resonanceReconstruction/rmatrix/src/makeReichMooreCompoundSystem.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/makeReichMooreCompoundSystem.hpp
@@ -21,10 +21,6 @@ makeReichMooreCompoundSystem(
                    Particle( target, awri * neutronMass,
                              0.0 * coulombs, spin, +1) );
 
-  // channel radii
-  ChannelRadii radii = makeChannelRadii( ap, nro, naps,
-                                         awri, neutronMass.value );
-
   // create the spin groups and assign the quantum numbers
   auto required = makeQuantumNumbers( in, nlsc );
   auto lvalues = endfReichMoore.lValues();
@@ -41,6 +37,20 @@ makeReichMooreCompoundSystem(
   // add the remaining required elastic channels with no resonances
   for ( const auto& number : required ) {
 
+    // the radius for this l value (which can be l dependent)
+    double radius = ap;
+    for ( const auto& lvalue : lvalues ) {
+
+      unsigned int l = lvalue.orbitalMomentum();
+      double apl = lvalue.lDependentScatteringRadius();
+      if ( l == number.orbitalAngularMomentum() and apl != 0. ) {
+
+        radius = apl;
+      }
+    }
+    ChannelRadii radii = makeChannelRadii( radius, nro, naps,
+                                           awri, neutronMass.value );
+
     Channel< Neutron > elastic( in, in, 0.0 * electronVolt, number, radii );
     data.emplace_back( elastic,
                        std::vector< Energy >{},
-- 
2.43.0


From de597c878886492a09fcc6d70e91cd23b8189f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:02 +0000
Subject: [PATCH 17/17] fix: the boundary condition follows the shift factor
 flag of the elastic pair

---
 src/resonanceReconstruction/rmatrix/src/fromENDF.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/fromENDF.hpp b/src/resonanceReconstruction/rmatrix/src/fromENDF.hpp
index 21c432a..dfec6f0 100644
--- a/src/resonanceReconstruction/rmatrix/src/fromENDF.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/fromENDF.hpp
@@ -64,8 +64,13 @@ fromENDF( const endf::ResonanceRange& endfResonanceRange,
 
           auto endfRMatrix =
             std::get< endf::RMatrixLimited >( endfResonanceRange.parameters() );
+          // the flag of the elastic pair (the shift factor is zero for photons
+          // and fission, so it does not matter what they have)
+          const auto endfPairs = endfRMatrix.particlePairs();
+          const auto flags = endfPairs.shiftFactorFlag();
+          const auto elastic = rmatrix::incident( endfPairs );
           bool shiftFactorBoundary =
-              endfRMatrix.particlePairs().shiftFactorFlag().front() == 0 ? true : false;
+              elastic < ranges::distance( flags ) and flags[ elastic ] == 0;
 
           switch ( endfRMatrix.formalism() ) {
 
-- 
2.43.0

