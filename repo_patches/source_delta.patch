From f223d86edb17490456a28745b18e197b2223ddb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:07 +0000
Subject: [PATCH 1/8] fix: isValid of a blade checks every component, as
 documented

---
 include/g3validity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/g3validity.hpp b/include/g3validity.hpp
index 99c3ef8..093cd8f 100644
--- a/include/g3validity.hpp
+++ b/include/g3validity.hpp
@@ -121,7 +121,7 @@ namespace g3
 		( Blade const & blade
 		)
 	{
-		return isValid(blade.theData[0]); // test only first element for nan
+		return isValid(blade.theData); // test every element
 	}
 
 	//! True if instance is not null - specialization for Spinor
-- 
2.43.0


From ac96bc56ec6d6e17e473b534bfa4eed353f54dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:07 +0000
Subject: [PATCH 2/8] fix: null<MultiVector>() is null in every grade, not only
 the scalar

---
 include/g3const.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/g3const.hpp b/include/g3const.hpp
index d035c36..d810931 100644
--- a/include/g3const.hpp
+++ b/include/g3const.hpp
@@ -222,6 +222,20 @@ namespace g3
 		return DirPlex{ null<Vector>(), null<BiVector>() };
 	}
 
+	//! Null value - specialization for MultiVector
+	template <>
+	inline  // NOTE: can't be constexpr since MultiVector has ctors
+	MultiVector
+	null<MultiVector>()
+	{
+		return MultiVector
+			{ null<Scalar>()
+			, null<Vector>()
+			, null<BiVector>()
+			, null<TriVector>()
+			};
+	}
+
 	//
 	// Zero values
 	//
-- 
2.43.0


From 7402c6a079e10380ede279354f6b6b41f47e9ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:07 +0000
Subject: [PATCH 3/8] fix: one<ImSpin>() and one<DirPlex>() have no scalar
 grade, so are zero (not e1)

---
 include/g3const.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/g3const.hpp b/include/g3const.hpp
index d810931..6b39d14 100644
--- a/include/g3const.hpp
+++ b/include/g3const.hpp
@@ -394,6 +394,26 @@ namespace g3
 		return Spinor{ one<Scalar>(), zero<BiVector>() };
 	}
 
+	//! Unit value for imaginary-spinor is all zeros
+	template<>
+	inline
+	constexpr
+	ImSpin
+	one<ImSpin>()
+	{
+		return ImSpin{ zero<ImSpin>() };
+	}
+
+	//! Unit value for dirplex is all zeros
+	template<>
+	inline
+	constexpr
+	DirPlex
+	one<DirPlex>()
+	{
+		return DirPlex{ zero<DirPlex>() };
+	}
+
 	//! Unit value (identity multiplier)
 	template<>
 	inline
-- 
2.43.0


From ce6e910877cbf69c381ca94ecc8aab4b1a0e9a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:33 +0000
Subject: [PATCH 4/8] fix: exp(BiVector) no longer ignores the angle when a
 direction component is subnormal

---
 include/g3func.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/g3func.hpp b/include/g3func.hpp
index 773a99d..54f9035 100644
--- a/include/g3func.hpp
+++ b/include/g3func.hpp
@@ -546,7 +546,9 @@ namespace g3
 				{ pairMagDirFrom(spinAngle) };
 			double const & mag = magdir.first;
 			BiVector const & dir = magdir.second;
-			if (isValid(dir))
+			// direction is only undefined for zero magnitude (note that
+			// individual direction components may well be subnormal)
+			if (0. < mag)
 			{
 				spin = Spinor{ std::cos(mag), std::sin(mag)*dir };
 			}
-- 
2.43.0


From 171ab5fe39f6216c5c640dba86b5e1cb2e190ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:33 +0000
Subject: [PATCH 5/8] fix: logG2 keeps small rotation angles (below about 2e-8)
 instead of dropping them

---
 include/g3func.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/g3func.hpp b/include/g3func.hpp
index 54f9035..f4bc43e 100644
--- a/include/g3func.hpp
+++ b/include/g3func.hpp
@@ -735,10 +735,11 @@ std::cout << " sum  : " << epa123 + ena123 << std::endl;
 				constexpr double almostOne
 					{ 1. - std::numeric_limits<double>::epsilon() };
 
-				// check special case of zero rotation
+				// check special case of (nearly) zero rotation
 				if (almostOne < dirCosValue)
 				{
-					gangle = G2Item{ logSpinMag, zero<BiVector>() };
+					// small angle: sin(angle) equals angle to full precision
+					gangle = G2Item{ logSpinMag, spinDir.theBiv };
 				}
 				else
 				// check special case of turnHalf
-- 
2.43.0


From 19e46fa8247628cd14fef8102e5944d5f7cc43b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:51 +0000
Subject: [PATCH 6/8] fix: exp(MultiVector) evaluates the Cl(3,0) exponential
 (and prints nothing)

---
 include/g3func.hpp | 136 +++++++++++++--------------------------------
 1 file changed, 38 insertions(+), 98 deletions(-)

diff --git a/include/g3func.hpp b/include/g3func.hpp
index f4bc43e..fc97f92 100644
--- a/include/g3func.hpp
+++ b/include/g3func.hpp
@@ -570,27 +570,27 @@ namespace g3
 namespace priv
 {
 
-	//! Evaluation of "sync(x)=sin(x)/x" - including limit case near zero
+	//! Evaluation of "sinh(z)/z" given z*z - including limit case near zero
 	inline
-	double
-	sync
-		( double const & angle
+	std::complex<double>
+	sinhcFromSq
+		( std::complex<double> const & zSq
 		)
 	{
-		double result{ g3::nan };
+		std::complex<double> result;
 
-		// use series expansion for sync function ((x-x^2/6+x^5/120)/x)
-		// residual (for alternating series) less than O(x^6),
-		// so to ~18 digits is about (1.e-3)^6.  Use 1.e-4 for safety
-		if (angle < 1.e-4)
+		// use series expansion near zero (residual less than |zSq|^4/9!)
+		if (std::abs(zSq) < 1.e-3)
 		{
-			// small angle: add from small to large
-			result = (sq(sq(angle))/120.  - sq(angle)/6.  + 1.);
+			// small argument: add from small to large
+			result = ((zSq/5040. + 1./120.)*zSq + 1./6.)*zSq + 1.;
 		}
 		else
 		{
-			// large angle: evaluate sync with std:: library functions
-			result = std::sin(angle) / angle;
+			// large argument: evaluate with std:: library functions
+			// (even function such that either root may be used)
+			std::complex<double> const z{ std::sqrt(zSq) };
+			result = std::sinh(z) / z;
 		}
 
 		return result;
@@ -601,15 +601,14 @@ namespace priv
 
 	/*! Exponential of general MultiVector element.
 	 *
-	 * Formula used is from:
-	 * \arg Dargys, Adolfas, Acus Arturas,
-	 * "Exponentials of general multivector (MV) in 3D Clifford algebras"
-	 * ArXiv:2104.01905v1, 18 Feb 2021
-	 * https://arxiv.org/pdf/2104.01905.pdf
-	 *
-* NOTE - ERROR - this paper seems to be wrong
-* For example; obvious in that b0, b123, do not reproduce (-1 == exp(I*pi))
+	 * Argument is partitioned as, M = C + D, where
+	 * \arg C: ComPlex part (scalar + trivector grades)
+	 * \arg D: DirPlex part (vector + bivector grades)
 	 *
+	 * Since C commutes with everything, exp(M) = exp(C)*exp(D), for which
+	 * exp(C) is the conventional complex exponential. The square of D is
+	 * a ComPlex value, z*z = D*D, such that the series for exp(D) is
+	 * \arg exp(D) = cosh(z) + D * (sinh(z)/z)
 	 */
 	inline
 	MultiVector
@@ -621,83 +620,24 @@ namespace priv
 
 		if (isValid(someItem))
 		{
-			// NOTE: the algorithm [Dargys, Arturas] uses bivector
-			// decomposition with basis: E12, E23, E13
-			// This library uses: e23, e31, e12
-
-			// pull out components from input MV
-			double const a0  {  someItem[0] };
-			double const a1  {  someItem[1] };
-			double const a2  {  someItem[2] };
-			double const a3  {  someItem[3] };
-			double const a12 {  someItem[6] }; // e12
-			double const a13 { -someItem[5] }; // e31
-			double const a23 {  someItem[4] }; // e23
-			double const a123{  someItem[7] };
-
-			// evaluate scalar angles ([Dargys, Arturas] eqn 3.2)
-			double const a3m12{ a3 - a12 };
-			double const a3p12{ a3 + a12 };
-			double const a2m13{ a2 - a13 };
-			double const a2p13{ a2 + a13 };
-			double const a1m23{ a1 - a23 };
-			double const a1p23{ a1 + a23 };
-
-			double const apos{ sqrt(sq(a3m12) + sq(a2p13) + sq(a1m23)) };
-			double const aneg{ sqrt(sq(a3p12) + sq(a2m13) + sq(a1p23)) };
-
-std::cout << "apos: " << apos << std::endl;
-std::cout << "aneg: " << aneg << std::endl;
-
-			// evaluate result coefficients ([Dargys, Arturas] eqn 3.1)
-
-			// cosine function is well behaved including near zero
-			double const cospos{ std::cos(apos) }; // okay for 0==apos
-			double const cosneg{ std::cos(aneg) }; // okay for 0==aneg
-			// sync function (sin(x)/x) needs limiting case evaluation
-			double const syncpos{ priv::sync(apos) };
-			double const syncneg{ priv::sync(aneg) };
-
-std::cout << "cospos: " << cospos << std::endl;
-std::cout << "cosneg: " << cosneg << std::endl;
-
-std::cout << "syncpos: " << syncpos << std::endl;
-std::cout << "syncneg: " << syncneg << std::endl;
-
-			// leading coefficients
-			double const hea0{ .5 * std::exp(a0) }; // half * e(a0)
-			double const epa123{ std::exp( a123) }; // e(+a123)
-			double const ena123{ std::exp(-a123) }; // e(-a123)
-
-std::cout << "hea0  : " << hea0 << std::endl;
-std::cout << "epa123: " << epa123 << std::endl;
-std::cout << "ena123: " << ena123 << std::endl;
-std::cout << " sum  : " << epa123 + ena123 << std::endl;
-
-			// evaluate the output components
-
-			// Note the special case evaluations could be slightly more
-			// optimized, but simple code evaluation is preferred here.
-
-			double const b0  { epa123*cospos + ena123*cosneg };
-
-			double const b1{ epa123*(a1m23)*syncpos + ena123*(a1p23)*syncneg };
-			double const b2{ epa123*(a2p13)*syncpos + ena123*(a2m13)*syncneg };
-			double const b3{ epa123*(a3m12)*syncpos + ena123*(a3p12)*syncneg };
-
-			double const b12{-epa123*(a3m12)*syncpos + ena123*(a3p12)*syncneg};
-			double const b13{ epa123*(a2p13)*syncpos - ena123*(a2m13)*syncneg};
-			double const b23{-epa123*(a1m23)*syncpos + ena123*(a1p23)*syncneg};
-
-			double const b123{ epa123*cospos - ena123*cosneg };
-
-			// NOTE restore conventions on basis bivectors
-			// e23 :  b23
-			// e31 : -b13
-			// e12 :  b12
-			result = MultiVector{ b0, b1, b2, b3, b23, -b13, b12, b123 };
-			// apply overall scale factor
-			result = hea0 * result;
+			// partition into commuting and directed parts
+			std::complex<double> const cplx
+				{ someItem.theSca[0], someItem.theTri[0] };
+			DirPlex const dplx{ someItem.theVec, someItem.theBiv };
+
+			// square of directed part (note: ampSq(dplx) is -dplx*dplx)
+			std::complex<double> const zSq{ -ampSq(dplx) };
+
+			// evaluate functions of z (even, so either root may be used)
+			std::complex<double> const expC{ std::exp(cplx) };
+			std::complex<double> const coshZ{ std::cosh(std::sqrt(zSq)) };
+			std::complex<double> const sincZ{ priv::sinhcFromSq(zSq) };
+
+			// combine the two parts
+			result = MultiVector
+				{ ComPlex::from(expC * coshZ)
+				, ComPlex::from(expC * sincZ) * dplx
+				};
 		}
 
 		return result;
-- 
2.43.0


From c189dc008dd6af24f3a9a0d3e94a97777a0dcb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 7/8] fix: g3*.hpp headers include what they use, so each can
 be included explicitly (as g3publish.hpp documents)

---
 include/g3_private.hpp    | 6 ++++++
 include/g3opsAdd_same.hpp | 1 +
 include/g3opsSub_same.hpp | 1 +
 3 files changed, 8 insertions(+)

diff --git a/include/g3_private.hpp b/include/g3_private.hpp
index b8018dc..658c0e4 100644
--- a/include/g3_private.hpp
+++ b/include/g3_private.hpp
@@ -35,6 +35,12 @@ Example:
 */
 
 
+#include <algorithm>
+#include <array>
+#include <iterator>
+#include <numeric>
+
+
 namespace engabra
 {
 
diff --git a/include/g3opsAdd_same.hpp b/include/g3opsAdd_same.hpp
index 914c440..1753d10 100644
--- a/include/g3opsAdd_same.hpp
+++ b/include/g3opsAdd_same.hpp
@@ -38,6 +38,7 @@
  */
 
 
+#include "g3traits.hpp"
 #include "g3type.hpp"
 #include "g3_private.hpp"
 
diff --git a/include/g3opsSub_same.hpp b/include/g3opsSub_same.hpp
index 49cfe88..fac97f1 100644
--- a/include/g3opsSub_same.hpp
+++ b/include/g3opsSub_same.hpp
@@ -38,6 +38,7 @@ Example:
 */
 
 
+#include "g3traits.hpp"
 #include "g3type.hpp"
 #include "g3_private.hpp"
 
-- 
2.43.0


From 65c4ca31efde033cd90f9c170af959d9b38248ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:30 +0000
Subject: [PATCH 8/8] fix: library builds with any compiler (clang lacked the
 version and identity definitions)

---
 CMakeLists.txt     | 3 ---
 src/CMakeLists.txt | 8 ++++++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/CMakeLists.txt b/CMakeLists.txt
index 99e7526..a2caf95 100644
--- a/CMakeLists.txt
+++ b/CMakeLists.txt
@@ -40,9 +40,6 @@ set(BUILD_FLAGS_FOR_CLANG
 	""
 	)
 set(BUILD_FLAGS_FOR_GCC
-	"-DEngabra_Project_Version=\"${aProjVersion}\""
-	"-DEngabra_Source_Identity=\"${aSourceIdentity}\""
-	#
 	-pthread
 	-fomit-frame-pointer
 	-fno-operator-names
diff --git a/src/CMakeLists.txt b/src/CMakeLists.txt
index f391841..52d98e9 100644
--- a/src/CMakeLists.txt
+++ b/src/CMakeLists.txt
@@ -26,6 +26,14 @@ target_compile_options(
 		$<$<CXX_COMPILER_ID:MSVC>:${BUILD_FLAGS_FOR_VISUAL}>
 	)
 
+# identification (needed by project source code - whichever compiler is used)
+target_compile_definitions(
+	${${aProjName}LibName}
+	PRIVATE
+		Engabra_Project_Version="${aProjVersion}"
+		Engabra_Source_Identity="${aSourceIdentity}"
+	)
+
 target_include_directories(
 	${${aProjName}LibName}
 	PUBLIC
-- 
2.43.0

