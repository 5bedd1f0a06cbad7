From d963a70c0f88aab5964160a42d299892093a1e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 1/6] fix: keep extraction target null if the stream throws
 part way

With exceptions enabled on the stream (or when reading runs out of memory)
operator>> left a target that mixes new, zero and previous components and
tests valid. Extract into a local array so that the target remains null.
---
 include/g3io.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/g3io.hpp b/include/g3io.hpp
index 175d888..a33f18a 100644
--- a/include/g3io.hpp
+++ b/include/g3io.hpp
@@ -629,18 +629,23 @@ namespace
 	/*! \brief Extract individual data array elements from input stream.
 	 *
 	 * Checks that stream operations are successful and that each extracted
-	 * data value is valid.
+	 * data value is valid. If extraction throws (e.g. by request of the
+	 * stream exception mask) the result remains null.
 	 */
 	template <std::size_t Dim>
 	inline
 	std::istream &
 	operator>>
 		( std::istream & istrm
-		, std::array<double, Dim> & data
+		, std::array<double, Dim> & result
 		)
 	{
 		using engabra::g3::io::priv::isInputOkay;
 
+		// in case extraction throws before all elements are available
+		std::fill(result.begin(), result.end(), engabra::g3::nan);
+
+		std::array<double, Dim> data{};
 		istrm >> data[0];
 		bool okay{ isInputOkay(istrm, data[0]) };
 		for (std::size_t ndx{1u}
@@ -654,6 +659,7 @@ namespace
 			// place all null data into entire return instance
 			std::fill(data.begin(), data.end(), engabra::g3::nan);
 		}
+		result = data;
 		return istrm;
 	}
 
-- 
2.43.0


From 503a6c3a31c7ba6b0f7cecb4d70e79d7b07dac01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:23 +0000
Subject: [PATCH 2/6] fix: report out of memory from fixed(), enote() and
 operator<<

An allocation failure inside the local string stream only set its badbit,
so that silently truncated text was returned or inserted.
---
 include/g3io.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/g3io.hpp b/include/g3io.hpp
index a33f18a..5b84346 100644
--- a/include/g3io.hpp
+++ b/include/g3io.hpp
@@ -269,6 +269,7 @@ namespace priv
 		)
 	{
 		std::ostringstream oss;
+		oss.exceptions(std::ios_base::badbit); // e.g. report out of memory
 		for (double const & elem : elems)
 		{
 			// using engabra::g3::io::operator<<() for fmt
@@ -311,6 +312,7 @@ namespace priv
 		)
 	{
 		std::stringstream oss;
+		oss.exceptions(std::ios_base::badbit); // e.g. report out of memory
 		g3::io::priv::DoubleFormat const fmt{ digBefore, digAfter };
 		oss << fmt << dub;
 		return oss.str();
@@ -330,6 +332,7 @@ namespace priv
 		)
 	{
 		std::stringstream oss;
+		oss.exceptions(std::ios_base::badbit); // e.g. report out of memory
 
 		for (std::size_t ndx{0u} ; ndx < blade.theData.size() ; ++ndx)
 		{
@@ -349,6 +352,7 @@ namespace priv
 		)
 	{
 		std::stringstream oss;
+		oss.exceptions(std::ios_base::badbit); // e.g. report out of memory
 		oss
 			<< fixed<Scalar>(spin.theSca, digBefore, digAfter)
 			<< "  "
@@ -367,6 +371,7 @@ namespace priv
 		)
 	{
 		std::stringstream oss;
+		oss.exceptions(std::ios_base::badbit); // e.g. report out of memory
 		oss
 			<< fixed<Vector>(imsp.theVec, digBefore, digAfter)
 			<< "  "
@@ -385,6 +390,7 @@ namespace priv
 		)
 	{
 		std::stringstream oss;
+		oss.exceptions(std::ios_base::badbit); // e.g. report out of memory
 		oss
 			<< fixed<Scalar>(mv.theSca, digBefore, digAfter)
 			<< "  "
@@ -410,6 +416,7 @@ namespace priv
 		)
 	{
 		std::stringstream oss;
+		oss.exceptions(std::ios_base::badbit); // e.g. report out of memory
 		priv::prepareEnote(oss, digAfter);
 		oss << dub;
 		return oss.str();
@@ -428,6 +435,7 @@ namespace priv
 		)
 	{
 		std::stringstream oss;
+		oss.exceptions(std::ios_base::badbit); // e.g. report out of memory
 		for (std::size_t ndx{0u} ; ndx < blade.theData.size() ; ++ndx)
 		{
 			if (0u < ndx)
@@ -449,6 +457,7 @@ namespace priv
 		)
 	{
 		std::stringstream oss;
+		oss.exceptions(std::ios_base::badbit); // e.g. report out of memory
 		oss
 			<< enote<Scalar>(spin.theSca, digAfter)
 			<< "  "
@@ -466,6 +475,7 @@ namespace priv
 		)
 	{
 		std::stringstream oss;
+		oss.exceptions(std::ios_base::badbit); // e.g. report out of memory
 		oss
 			<< enote<Vector>(imsp.theVec, digAfter)
 			<< "  "
@@ -483,6 +493,7 @@ namespace priv
 		)
 	{
 		std::stringstream oss;
+		oss.exceptions(std::ios_base::badbit); // e.g. report out of memory
 		oss
 			<< enote<Scalar>(mv.theSca, digAfter)
 			<< "  "
-- 
2.43.0


From c25878c995e3ecc3b42d46d3fb7766ed2d0ba75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:23 +0000
Subject: [PATCH 3/6] fix: honor stream locale in operator<< and make enote()
 locale neutral

The local string streams used the process wide locale: text inserted to a
stream ignored the locale of that stream and enote() text could not be
read back whenever the global locale uses other punctuation.
---
 include/g3io.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/g3io.hpp b/include/g3io.hpp
index 5b84346..eae4b86 100644
--- a/include/g3io.hpp
+++ b/include/g3io.hpp
@@ -81,6 +81,7 @@ package implementation.
 #include <cstddef>
 #include <iomanip>
 #include <iostream>
+#include <locale>
 #include <sstream>
 
 
@@ -270,6 +271,7 @@ namespace priv
 	{
 		std::ostringstream oss;
 		oss.exceptions(std::ios_base::badbit); // e.g. report out of memory
+		oss.imbue(ostrm.getloc()); // format as is appropriate for ostrm
 		for (double const & elem : elems)
 		{
 			// using engabra::g3::io::operator<<() for fmt
@@ -417,6 +419,7 @@ namespace priv
 	{
 		std::stringstream oss;
 		oss.exceptions(std::ios_base::badbit); // e.g. report out of memory
+		oss.imbue(std::locale::classic()); // neutral for data exchange
 		priv::prepareEnote(oss, digAfter);
 		oss << dub;
 		return oss.str();
@@ -436,6 +439,7 @@ namespace priv
 	{
 		std::stringstream oss;
 		oss.exceptions(std::ios_base::badbit); // e.g. report out of memory
+		oss.imbue(std::locale::classic()); // neutral for data exchange
 		for (std::size_t ndx{0u} ; ndx < blade.theData.size() ; ++ndx)
 		{
 			if (0u < ndx)
-- 
2.43.0


From 8f48aa15131445b67b8226ebf14ecaaf4b90bea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:23 +0000
Subject: [PATCH 4/6] fix: make projectVersion() and sourceIdentity() usable at
 process exit

Function local static strings are already destroyed when called from exit
handlers and destructors registered before their first use.
---
 src/engabra.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/engabra.cpp b/src/engabra.cpp
index 52e36b6..683d497 100644
--- a/src/engabra.cpp
+++ b/src/engabra.cpp
@@ -41,8 +41,7 @@ namespace engabra
 		()
 	{
 		//! Defined by build environment to identify project version
-		static std::string const prjVer = Engabra_Project_Version;
-		return prjVer;
+		return Engabra_Project_Version;
 	}
 
 	//! Engabra project source code identifier
@@ -51,8 +50,7 @@ namespace engabra
 		()
 	{
 		//! Defined by build environment to identify source used
-		static std::string const srcId = Engabra_Source_Identity;
-		return srcId;
+		return Engabra_Source_Identity;
 	}
 
 
-- 
2.43.0


From f8029f3d13a207543e264e0b342aa266f63c48c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:23 +0000
Subject: [PATCH 5/6] fix: remove debug output from exp(MultiVector)

The function printed intermediate values to std::cout at every call.
---
 include/g3func.hpp | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/include/g3func.hpp b/include/g3func.hpp
index 773a99d..cb4dc7c 100644
--- a/include/g3func.hpp
+++ b/include/g3func.hpp
@@ -644,9 +644,6 @@ namespace priv
 			double const apos{ sqrt(sq(a3m12) + sq(a2p13) + sq(a1m23)) };
 			double const aneg{ sqrt(sq(a3p12) + sq(a2m13) + sq(a1p23)) };
 
-std::cout << "apos: " << apos << std::endl;
-std::cout << "aneg: " << aneg << std::endl;
-
 			// evaluate result coefficients ([Dargys, Arturas] eqn 3.1)
 
 			// cosine function is well behaved including near zero
@@ -656,22 +653,11 @@ std::cout << "aneg: " << aneg << std::endl;
 			double const syncpos{ priv::sync(apos) };
 			double const syncneg{ priv::sync(aneg) };
 
-std::cout << "cospos: " << cospos << std::endl;
-std::cout << "cosneg: " << cosneg << std::endl;
-
-std::cout << "syncpos: " << syncpos << std::endl;
-std::cout << "syncneg: " << syncneg << std::endl;
-
 			// leading coefficients
 			double const hea0{ .5 * std::exp(a0) }; // half * e(a0)
 			double const epa123{ std::exp( a123) }; // e(+a123)
 			double const ena123{ std::exp(-a123) }; // e(-a123)
 
-std::cout << "hea0  : " << hea0 << std::endl;
-std::cout << "epa123: " << epa123 << std::endl;
-std::cout << "ena123: " << ena123 << std::endl;
-std::cout << " sum  : " << epa123 + ena123 << std::endl;
-
 			// evaluate the output components
 
 			// Note the special case evaluations could be slightly more
-- 
2.43.0


From df1ade7ffc249e07c5a3c948af18e4fa15ed6f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:23 +0000
Subject: [PATCH 6/6] fix: consider all components in isValid() of blades

Only the first component was tested so that vectors and bivectors (and
composites of these) with NaN in another component tested valid.
---
 include/g3validity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/g3validity.hpp b/include/g3validity.hpp
index 99c3ef8..e6b25c3 100644
--- a/include/g3validity.hpp
+++ b/include/g3validity.hpp
@@ -121,7 +121,7 @@ namespace g3
 		( Blade const & blade
 		)
 	{
-		return isValid(blade.theData[0]); // test only first element for nan
+		return isValid(blade.theData); // test all elements
 	}
 
 	//! True if instance is not null - specialization for Spinor
-- 
2.43.0

