From 7495f198c6108b7b79f85533b46f82ce778d6dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:46 +0000
Subject: [PATCH 01/14] fix: a copy-constructed filter must not use the storage
 of the original

The copy constructor copied the pointers to the coefficients and to the
pole/zero layouts, so that setup() of the copy changed the original and
the copy used freed memory once the original was destroyed.
---
 iir/Cascade.cpp  |  6 ++++++
 iir/Cascade.h    |  5 +++++
 iir/Layout.h     |  8 ++++++++
 iir/PoleFilter.h | 22 +++++++++++++++++++++-
 4 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/iir/Cascade.cpp b/iir/Cascade.cpp
index de22560..15de951 100644
--- a/iir/Cascade.cpp
+++ b/iir/Cascade.cpp
@@ -49,6 +49,12 @@ namespace Iir {
 		m_stageArray = storage.stageArray;
 	}
 
+	void Cascade::rebindCascadeStorage (const Storage& storage)
+	{
+		m_maxStages = storage.maxStages;
+		m_stageArray = storage.stageArray;
+	}
+
 	complex_t Cascade::response (double normalizedFrequency) const
 	{
 		if (normalizedFrequency > 0.5) throw_invalid_argument(maxFError);
diff --git a/iir/Cascade.h b/iir/Cascade.h
index 57578d2..013081d 100644
--- a/iir/Cascade.h
+++ b/iir/Cascade.h
@@ -95,6 +95,11 @@ namespace Iir {
 
         void setCascadeStorage (const Storage& storage);
 
+        /**
+         * Uses other storage but keeps the number of stages
+         **/
+        void rebindCascadeStorage (const Storage& storage);
+
         void applyScale (double scale);
 
         void setLayout (const LayoutBase& proto);
diff --git a/iir/Layout.h b/iir/Layout.h
index b69d2ec..f32b3ef 100644
--- a/iir/Layout.h
+++ b/iir/Layout.h
@@ -83,6 +83,14 @@ namespace Iir {
 			m_pair = other.m_pair;
 		}
 
+		// Uses the storage of the other layout but keeps the
+		// number of poles and the normalisation.
+		void rebindStorage (const LayoutBase& other)
+		{
+			m_maxPoles = other.m_maxPoles;
+			m_pair = other.m_pair;
+		}
+
 		void reset ()
 		{
 			m_numPoles = 0;
diff --git a/iir/PoleFilter.h b/iir/PoleFilter.h
index a5dd6e0..e81b3ce 100644
--- a/iir/PoleFilter.h
+++ b/iir/PoleFilter.h
@@ -100,6 +100,15 @@ namespace Iir {
 			m_analogProto.setStorage (analogStorage);
 			m_digitalProto = digitalStorage;
 		}
+
+		// Points the prototypes to other storage without
+		// changing the prototypes themselves.
+		void rebindPrototypeStorage (const LayoutBase& analogStorage,
+					     const LayoutBase& digitalStorage)
+		{
+			m_analogProto.rebindStorage (analogStorage);
+			m_digitalProto.rebindStorage (digitalStorage);
+		}
 		
 	protected:
 		AnalogPrototype m_analogProto = {};
@@ -127,7 +136,18 @@ namespace Iir {
 				CascadeStages<(MaxDigitalPoles + 1) / 2 , StateType>::reset();
 			}
 		
-		PoleFilter(const PoleFilter&) = default;
+		// The base classes hold pointers to the storage which is
+		// part of this object. They must not point to the storage
+		// of the filter copied from.
+		PoleFilter (const PoleFilter& other)
+			: BaseClass (other)
+			, CascadeStages<(MaxDigitalPoles + 1) / 2 , StateType> (other)
+			, m_analogStorage (other.m_analogStorage)
+			, m_digitalStorage (other.m_digitalStorage)
+			{
+				BaseClass::rebindCascadeStorage (this->getCascadeStorage());
+				BaseClass::rebindPrototypeStorage (m_analogStorage, m_digitalStorage);
+			}
 		
 		PoleFilter& operator=(const PoleFilter&)
 			{
-- 
2.43.0


From 9c28a4f98c38b2f2ca1d734b22d27185db9f3955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:46 +0000
Subject: [PATCH 02/14] fix: assigning a filter must transfer its design

operator= ignored its argument: the target kept its old coefficients (or
stayed an unconfigured pass-through). The delay lines of the target are
still reset as before.
---
 iir/PoleFilter.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/iir/PoleFilter.h b/iir/PoleFilter.h
index e81b3ce..6f2df4b 100644
--- a/iir/PoleFilter.h
+++ b/iir/PoleFilter.h
@@ -149,8 +149,17 @@ namespace Iir {
 				BaseClass::rebindPrototypeStorage (m_analogStorage, m_digitalStorage);
 			}
 		
-		PoleFilter& operator=(const PoleFilter&)
+		PoleFilter& operator=(const PoleFilter& other)
 			{
+				if (this != &other)
+				{
+					BaseClass::operator= (other);
+					CascadeStages<(MaxDigitalPoles + 1) / 2 , StateType>::operator= (other);
+					m_analogStorage = other.m_analogStorage;
+					m_digitalStorage = other.m_digitalStorage;
+					BaseClass::rebindCascadeStorage (this->getCascadeStorage());
+					BaseClass::rebindPrototypeStorage (m_analogStorage, m_digitalStorage);
+				}
 				// Reset the filter state when copied for now
 				CascadeStages<(MaxDigitalPoles + 1) / 2 , StateType>::reset();
 				return *this;
-- 
2.43.0


From 8478454e9a28040d557242ab2bcba6adb5763cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:51 +0000
Subject: [PATCH 03/14] fix: a rejected design must not be remembered as the
 current prototype

---
 iir/Butterworth.cpp | 4 +++-
 iir/ChebyshevI.cpp  | 8 ++++++--
 iir/ChebyshevII.cpp | 8 ++++++--
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/iir/Butterworth.cpp b/iir/Butterworth.cpp
index 1a96d04..f060ca6 100644
--- a/iir/Butterworth.cpp
+++ b/iir/Butterworth.cpp
@@ -80,7 +80,7 @@ void AnalogLowShelf::design (int numPoles, double gainDb)
   if (m_numPoles != numPoles ||
       m_gainDb != gainDb)
   {
-    m_numPoles = numPoles;
+    m_numPoles = -1; // no valid design until all poles have been added
     m_gainDb = gainDb;
 
     reset ();
@@ -99,6 +99,8 @@ void AnalogLowShelf::design (int numPoles, double gainDb)
     
     if (numPoles & 1)
       add (gp, gz);
+
+    m_numPoles = numPoles;
   }
 }
 
diff --git a/iir/ChebyshevI.cpp b/iir/ChebyshevI.cpp
index 23730f4..eee166d 100644
--- a/iir/ChebyshevI.cpp
+++ b/iir/ChebyshevI.cpp
@@ -51,7 +51,7 @@ void AnalogLowPass::design (int numPoles,
   if (m_numPoles != numPoles ||
       m_rippleDb != rippleDb)
   {
-    m_numPoles = numPoles;
+    m_numPoles = -1; // no valid design until all poles have been added
     m_rippleDb = rippleDb;
 
     reset ();
@@ -81,6 +81,8 @@ void AnalogLowPass::design (int numPoles,
     {
       setNormal (0, pow (10, -rippleDb/20.));
     }
+
+    m_numPoles = numPoles;
   }
 }
 
@@ -106,7 +108,7 @@ void AnalogLowShelf::design (int numPoles,
       m_rippleDb != rippleDb ||
       m_gainDb != gainDb)
   {
-    m_numPoles = numPoles;
+    m_numPoles = -1; // no valid design until all poles have been added
     m_rippleDb = rippleDb;
     m_gainDb = gainDb;
 
@@ -151,6 +153,8 @@ void AnalogLowShelf::design (int numPoles,
 
     if (numPoles & 1)
       add (-sinh_u, -sinh_v);
+
+    m_numPoles = numPoles;
   }
 }
 
diff --git a/iir/ChebyshevII.cpp b/iir/ChebyshevII.cpp
index f9647ab..f98effc 100644
--- a/iir/ChebyshevII.cpp
+++ b/iir/ChebyshevII.cpp
@@ -55,7 +55,7 @@ void AnalogLowPass::design (int numPoles,
   if (m_numPoles != numPoles ||
       m_stopBandDb != stopBandDb)
   {
-    m_numPoles = numPoles;
+    m_numPoles = -1; // no valid design until all poles have been added
     m_stopBandDb = stopBandDb;
 
     reset ();
@@ -81,6 +81,8 @@ void AnalogLowPass::design (int numPoles,
     {
       add (1 / sinh_v0, infinity());
     }
+
+    m_numPoles = numPoles;
   }
 }
 
@@ -107,7 +109,7 @@ void AnalogLowShelf::design (int numPoles,
       m_stopBandDb != stopBandDb ||
       m_gainDb != gainDb)
   {
-    m_numPoles = numPoles;
+    m_numPoles = -1; // no valid design until all poles have been added
     m_stopBandDb = stopBandDb;
     m_gainDb = gainDb;
 
@@ -152,6 +154,8 @@ void AnalogLowShelf::design (int numPoles,
 
     if (numPoles & 1)
       add (-sinh_u, -sinh_v);
+
+    m_numPoles = numPoles;
   }
 }
 
-- 
2.43.0


From 77f9d5bec932e2906996edcc776be103a59f1b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:51 +0000
Subject: [PATCH 04/14] fix: poles and zeros read back from first order
 sections

---
 iir/Biquad.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/iir/Biquad.cpp b/iir/Biquad.cpp
index 47f7102..eb62952 100644
--- a/iir/Biquad.cpp
+++ b/iir/Biquad.cpp
@@ -51,8 +51,8 @@ namespace Iir {
 		if (a2 == 0 && b2 == 0)
 		{
 			// single pole
-			poles.first = -a1;
-			zeros.first = -b0 / b1;
+			poles.first = -a1 / a0;
+			zeros.first = -b1 / b0;
 			poles.second = 0;
 			zeros.second = 0;
 		}
-- 
2.43.0


From 3e074c1a07dbc3b82402d230e4964ee7f2f65ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:38 +0000
Subject: [PATCH 05/14] fix: setting coefficients must reject everything that
 makes them NaN

---
 iir/Biquad.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/iir/Biquad.cpp b/iir/Biquad.cpp
index eb62952..13d6680 100644
--- a/iir/Biquad.cpp
+++ b/iir/Biquad.cpp
@@ -130,6 +130,9 @@ namespace Iir {
 		if (Iir::is_nan (b1)) throw_invalid_argument("b1 is NaN");
 		if (Iir::is_nan (b2)) throw_invalid_argument("b2 is NaN");
 
+		if (a0 == 0) throw_invalid_argument("a0 is zero");
+		if (std::isinf (a0)) throw_invalid_argument("a0 is infinite");
+
 		m_a0 = a0;
 		m_a1 = a1/a0;
 		m_a2 = a2/a0;
@@ -213,6 +216,11 @@ namespace Iir {
 
 	void Biquad::applyScale (double scale)
 	{
+		if (Iir::is_nan (m_b0 * scale) ||
+		    Iir::is_nan (m_b1 * scale) ||
+		    Iir::is_nan (m_b2 * scale))
+			throw_invalid_argument("Scaled coefficient is NaN");
+
 		m_b0 *= scale;
 		m_b1 *= scale;
 		m_b2 *= scale;
-- 
2.43.0


From 4f8a88498f2feabc280681e7684dc1eb8b5f1a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:24 +0000
Subject: [PATCH 06/14] fix: a rejected setup must not replace some of the
 sections

---
 iir/Cascade.cpp | 23 +++++++++++++++++++----
 iir/Cascade.h   |  6 +++++-
 iir/Custom.cpp  | 12 ++++++++----
 3 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/iir/Cascade.cpp b/iir/Cascade.cpp
index 15de951..f1fbe5c 100644
--- a/iir/Cascade.cpp
+++ b/iir/Cascade.cpp
@@ -106,10 +106,26 @@ namespace Iir {
 	void Cascade::setLayout (const LayoutBase& proto)
 	{
 		const int numPoles = proto.getNumPoles();
-		m_numStages = (numPoles + 1)/ 2;
-		if (m_numStages > m_maxStages)
+		const int numStages = (numPoles + 1)/ 2;
+		if (numStages > m_maxStages)
 			throw_invalid_argument("Number of stages is larger than the max stages.");
 
+		// Check that the layout can be realised before any of
+		// the current stages is replaced.
+		const double normalFrequency = proto.getNormalW() / (2 * doublePi);
+		complex_t h (1);
+		for (int i = 0; i < numStages; ++i)
+		{
+			Biquad b;
+			b.setPoleZeroPair (proto[i]);
+			h *= b.response (normalFrequency);
+		}
+		const double scale = proto.getNormalGain() / std::abs (h);
+		if (Iir::is_nan (scale) || std::isinf (scale))
+			throw_invalid_argument("The filter cannot be normalised.");
+
+		m_numStages = numStages;
+
 		Biquad* stage = m_stageArray;
 		for (int i = 0; i < m_maxStages; ++i, ++stage)
 			stage->setIdentity();
@@ -118,8 +134,7 @@ namespace Iir {
 		for (int i = 0; i < m_numStages; ++i, ++stage)
 			stage->setPoleZeroPair (proto[i]);
   
-		applyScale (proto.getNormalGain() /
-			    std::abs (response (proto.getNormalW() / (2 * doublePi))));
+		applyScale (scale);
 	}
 
 
diff --git a/iir/Cascade.h b/iir/Cascade.h
index 013081d..fbebfeb 100644
--- a/iir/Cascade.h
+++ b/iir/Cascade.h
@@ -141,8 +141,10 @@ namespace Iir {
          * \param sosCoefficients 2D array in Python style sos ordering: 0-2: FIR, 3-5: IIR coeff.
          **/
         void setup (const double (&sosCoefficients)[MaxStages][6]) {
+                // no section is replaced before all of them have been accepted
+                Biquad stages[MaxStages];
                 for (int i = 0; i < MaxStages; i++) {
-                        m_stages[i].setCoefficients(
+                        stages[i].setCoefficients(
                                 sosCoefficients[i][3],
                                 sosCoefficients[i][4],
                                 sosCoefficients[i][5],
@@ -150,6 +152,8 @@ namespace Iir {
                                 sosCoefficients[i][1],
                                 sosCoefficients[i][2]);
                 }
+                for (int i = 0; i < MaxStages; i++)
+                        m_stages[i] = stages[i];
         }
 
         public:
diff --git a/iir/Custom.cpp b/iir/Custom.cpp
index e1cebdf..58ddd2e 100644
--- a/iir/Custom.cpp
+++ b/iir/Custom.cpp
@@ -44,8 +44,10 @@ void OnePole::setup (double scale,
                      double pole,
                      double zero)
 {
-  setOnePole (pole, zero);
-  applyScale (scale);
+  Biquad b;
+  b.setOnePole (pole, zero);
+  b.applyScale (scale);
+  Biquad::operator= (b); // only once all arguments have been accepted
 }
 
 void TwoPole::setup (double scale,
@@ -57,8 +59,10 @@ void TwoPole::setup (double scale,
   complex_t pole = std::polar (poleRho, poleTheta);
   complex_t zero = std::polar (zeroRho, zeroTheta);
 
-  setTwoPole (pole, zero, std::conj(pole), std::conj(zero));
-  applyScale (scale);
+  Biquad b;
+  b.setTwoPole (pole, zero, std::conj(pole), std::conj(zero));
+  b.applyScale (scale);
+  Biquad::operator= (b); // only once all arguments have been accepted
 }
 
 }
-- 
2.43.0


From b351ae713150869f2c7b720e45c4668831b1d7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:49 +0000
Subject: [PATCH 07/14] fix: RBJ filters must reject frequencies and Q factors
 out of range

---
 iir/RBJ.cpp | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/iir/RBJ.cpp b/iir/RBJ.cpp
index b1b80eb..436d033 100644
--- a/iir/RBJ.cpp
+++ b/iir/RBJ.cpp
@@ -40,9 +40,23 @@ namespace Iir {
 
 namespace RBJ {
 
+	static const char rbjNyquistError[] = "The frequency needs to be below the Nyquist frequency.";
+	static const char rbjFrequencyNeg[] = "The frequency is negative.";
+	static const char rbjShapeError[] = "Q factor, bandwidth and shelf slope need to be positive.";
+
+	// Also throws if one of the parameters is NaN.
+	static void checkParameters (double frequency, double shape)
+	{
+		if (!(frequency < 0.5)) throw_invalid_argument(rbjNyquistError);
+		if (frequency < 0.0) throw_invalid_argument(rbjFrequencyNeg);
+		if (!(shape > 0.0)) throw_invalid_argument(rbjShapeError);
+	}
+
 	void LowPass::setupN(double cutoffFrequency,
 			    double q)
 	{
+		checkParameters (cutoffFrequency, q);
+
 		double w0 = 2 * doublePi * cutoffFrequency;
 		double cs = cos (w0);
 		double sn = sin (w0);
@@ -59,6 +73,8 @@ namespace RBJ {
 	void HighPass::setupN (double cutoffFrequency,
 			      double q)
 	{
+		checkParameters (cutoffFrequency, q);
+
 		double w0 = 2 * doublePi * cutoffFrequency;
 		double cs = cos (w0);
 		double sn = sin (w0);
@@ -75,6 +91,8 @@ namespace RBJ {
 	void BandPass1::setupN (double centerFrequency,
 			       double bandWidth)
 	{
+		checkParameters (centerFrequency, bandWidth);
+
 		double w0 = 2 * doublePi * centerFrequency;
 		double cs = cos (w0);
 		double sn = sin (w0);
@@ -91,6 +109,8 @@ namespace RBJ {
 	void BandPass2::setupN (double centerFrequency,
 			       double bandWidth)
 	{
+		checkParameters (centerFrequency, bandWidth);
+
 		double w0 = 2 * doublePi * centerFrequency;
 		double cs = cos (w0);
 		double sn = sin (w0);
@@ -107,6 +127,8 @@ namespace RBJ {
 	void BandStop::setupN (double centerFrequency,
 			      double bandWidth)
 	{
+		checkParameters (centerFrequency, bandWidth);
+
 		double w0 = 2 * doublePi * centerFrequency;
 		double cs = cos (w0);
 		double sn = sin (w0);
@@ -123,6 +145,8 @@ namespace RBJ {
 	void IIRNotch::setupN (double centerFrequency,
 			      double q_factor)
 	{
+		checkParameters (centerFrequency, q_factor);
+
 		double w0 = 2 * doublePi * centerFrequency;
 		double cs = cos (w0);
 		double r = exp(-(w0/2) / q_factor);
@@ -139,6 +163,8 @@ namespace RBJ {
 			      double gainDb,
 			      double shelfSlope)
 	{
+		checkParameters (cutoffFrequency, shelfSlope);
+
 		double A  = pow (10, gainDb/40);
 		double w0 = 2 * doublePi * cutoffFrequency;
 		double cs = cos (w0);
@@ -159,6 +185,8 @@ namespace RBJ {
 			       double gainDb,
 			       double shelfSlope)
 	{
+		checkParameters (cutoffFrequency, shelfSlope);
+
 		double A  = pow (10, gainDb/40);
 		double w0 = 2 * doublePi * cutoffFrequency;
 		double cs = cos (w0);
@@ -179,6 +207,8 @@ namespace RBJ {
 			       double gainDb,
 			       double bandWidth)
 	{
+		checkParameters (centerFrequency, bandWidth);
+
 		double A  = pow (10, gainDb/40);
 		double w0 = 2 * doublePi * centerFrequency;
 		double cs = cos(w0);
@@ -198,6 +228,8 @@ namespace RBJ {
 void AllPass::setupN (double phaseFrequency,
                      double q)
 {
+	checkParameters (phaseFrequency, q);
+
 	double w0 = 2 * doublePi * phaseFrequency;
 	double cs = cos (w0);
 	double sn = sin (w0);
-- 
2.43.0


From 41f75a43860f3965cc2233fe16761916c9a39ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:07 +0000
Subject: [PATCH 08/14] fix: reject orders, widths and ripples which cannot
 give a stable filter

---
 iir/Butterworth.cpp |  5 +++++
 iir/ChebyshevI.cpp  |  8 ++++++++
 iir/ChebyshevII.cpp |  8 ++++++++
 iir/Layout.h        | 10 ++++++++++
 iir/PoleFilter.cpp  |  5 +++++
 5 files changed, 36 insertions(+)

diff --git a/iir/Butterworth.cpp b/iir/Butterworth.cpp
index f060ca6..dc2efd6 100644
--- a/iir/Butterworth.cpp
+++ b/iir/Butterworth.cpp
@@ -48,6 +48,8 @@ AnalogLowPass::AnalogLowPass ()
 
 void AnalogLowPass::design (int numPoles)
 {
+  if (numPoles < 0) throw_invalid_argument(errOrderNegative);
+
   if (m_numPoles != numPoles)
   {
     m_numPoles = numPoles;
@@ -77,6 +79,8 @@ AnalogLowShelf::AnalogLowShelf ()
 
 void AnalogLowShelf::design (int numPoles, double gainDb)
 {
+  if (numPoles < 0) throw_invalid_argument(errOrderNegative);
+
   if (m_numPoles != numPoles ||
       m_gainDb != gainDb)
   {
@@ -87,6 +91,7 @@ void AnalogLowShelf::design (int numPoles, double gainDb)
 
     const double n2 = numPoles * 2;
     const double g = pow (pow (10., gainDb/20), 1. / n2);
+    if (std::isinf (g)) throw_invalid_argument(errGainOutOfRange);
     const double gp = -1. / g;
     const double gz = -g;
 
diff --git a/iir/ChebyshevI.cpp b/iir/ChebyshevI.cpp
index eee166d..88ae9ac 100644
--- a/iir/ChebyshevI.cpp
+++ b/iir/ChebyshevI.cpp
@@ -48,6 +48,9 @@ AnalogLowPass::AnalogLowPass ()
 void AnalogLowPass::design (int numPoles,
                             double rippleDb)
 {
+  if (numPoles < 0) throw_invalid_argument(errOrderNegative);
+  if (!(rippleDb > 0)) throw_invalid_argument(errRippleNotPositive);
+
   if (m_numPoles != numPoles ||
       m_rippleDb != rippleDb)
   {
@@ -59,6 +62,8 @@ void AnalogLowPass::design (int numPoles,
     const double eps = std::sqrt (1. / std::exp (-rippleDb * 0.1 * doubleLn10) - 1);
     const double v0 = asinh (1 / eps) / numPoles;
     const double sinh_v0 = -sinh (v0);
+    if (numPoles > 0 && (!(sinh_v0 < 0) || std::isinf (sinh_v0)))
+      throw_invalid_argument(errRippleOutOfRange);
     const double cosh_v0 = cosh (v0);
 
     const double n2 = 2 * numPoles;
@@ -104,6 +109,9 @@ void AnalogLowShelf::design (int numPoles,
                              double gainDb,
                              double rippleDb)
 {
+  if (numPoles < 0) throw_invalid_argument(errOrderNegative);
+  if (!(rippleDb > 0)) throw_invalid_argument(errRippleNotPositive);
+
   if (m_numPoles != numPoles ||
       m_rippleDb != rippleDb ||
       m_gainDb != gainDb)
diff --git a/iir/ChebyshevII.cpp b/iir/ChebyshevII.cpp
index f98effc..2151255 100644
--- a/iir/ChebyshevII.cpp
+++ b/iir/ChebyshevII.cpp
@@ -52,6 +52,9 @@ AnalogLowPass::AnalogLowPass ()
 void AnalogLowPass::design (int numPoles,
                             double stopBandDb)
 {
+  if (numPoles < 0) throw_invalid_argument(errOrderNegative);
+  if (!(stopBandDb > 0)) throw_invalid_argument(errRippleNotPositive);
+
   if (m_numPoles != numPoles ||
       m_stopBandDb != stopBandDb)
   {
@@ -63,6 +66,8 @@ void AnalogLowPass::design (int numPoles,
     const double eps = std::sqrt (1. / (std::exp (stopBandDb * 0.1 * doubleLn10) - 1));
     const double v0 = asinh (1 / eps) / numPoles;
     const double sinh_v0 = -sinh (v0);
+    if (numPoles > 0 && (!(sinh_v0 < 0) || std::isinf (sinh_v0)))
+      throw_invalid_argument(errRippleOutOfRange);
     const double cosh_v0 = cosh (v0);
     const double fn = doublePi / (2 * numPoles);
 
@@ -105,6 +110,9 @@ void AnalogLowShelf::design (int numPoles,
                              double gainDb,
                              double stopBandDb)
 {
+  if (numPoles < 0) throw_invalid_argument(errOrderNegative);
+  if (!(stopBandDb > 0)) throw_invalid_argument(errRippleNotPositive);
+
   if (m_numPoles != numPoles ||
       m_stopBandDb != stopBandDb ||
       m_gainDb != gainDb)
diff --git a/iir/Layout.h b/iir/Layout.h
index f32b3ef..ec4fd39 100644
--- a/iir/Layout.h
+++ b/iir/Layout.h
@@ -48,6 +48,12 @@ namespace Iir {
 
 	static const char errPoleisNaN[] = "Pole to add is NaN.";
 	static const char errZeroisNaN[] = "Zero to add is NaN.";
+	static const char errPoleisInf[] = "Pole to add is infinite.";
+
+	static const char errOrderNegative[] = "The order is negative.";
+	static const char errRippleNotPositive[] = "Ripple or stopband attenuation in dB needs to be positive.";
+	static const char errRippleOutOfRange[] = "Ripple or stopband attenuation is out of range.";
+	static const char errGainOutOfRange[] = "The gain is out of range.";
 
 	static const char errCantAdd2ndOrder[] = "Can't add 2nd order after a 1st order filter.";
 
@@ -112,6 +118,8 @@ namespace Iir {
 				throw_invalid_argument(errCantAdd2ndOrder);
 			if (Iir::is_nan(pole))
 				throw_invalid_argument(errPoleisNaN);
+			if (std::isinf(pole.real()) || std::isinf(pole.imag()))
+				throw_invalid_argument(errPoleisInf);
 			if (Iir::is_nan(zero))
 				throw_invalid_argument(errZeroisNaN);
 			m_pair[m_numPoles/2] = PoleZeroPair (pole, zero);
@@ -125,6 +133,8 @@ namespace Iir {
 				throw_invalid_argument(errCantAdd2ndOrder);
 			if (Iir::is_nan(pole))
 				throw_invalid_argument(errPoleisNaN);
+			if (std::isinf(pole.real()) || std::isinf(pole.imag()))
+				throw_invalid_argument(errPoleisInf);
 			if (Iir::is_nan(zero))
 				throw_invalid_argument(errZeroisNaN);
 			m_pair[m_numPoles/2] = PoleZeroPair (
diff --git a/iir/PoleFilter.cpp b/iir/PoleFilter.cpp
index d54a5eb..1b5ed82 100644
--- a/iir/PoleFilter.cpp
+++ b/iir/PoleFilter.cpp
@@ -43,6 +43,8 @@ namespace Iir {
 
 static const char cutoffError[] = "The cutoff frequency needs to be below the Nyquist frequency.";
 static const char cutoffNeg[] = "Cutoff frequency is negative.";
+static const char widthError[] = "The width of the band needs to be positive and finite.";
+static const char cutoffZero[] = "The cutoff frequency of a highpass needs to be above zero.";
 
 complex_t LowPassTransform::transform (complex_t c)
 {
@@ -109,6 +111,7 @@ HighPassTransform::HighPassTransform (double fc,
 {
 	if (!(fc < 0.5)) throw_invalid_argument(cutoffError);
 	if (fc < 0.0) throw_invalid_argument(cutoffNeg);
+	if (fc == 0.0) throw_invalid_argument(cutoffZero);
 	
 	digital.reset ();
 	
@@ -144,6 +147,7 @@ BandPassTransform::BandPassTransform (double fc,
 {
 	if (!(fc < 0.5)) throw_invalid_argument(cutoffError);
 	if (fc < 0.0) throw_invalid_argument(cutoffNeg);
+	if (!(fw > 0.0) || std::isinf (fw)) throw_invalid_argument(widthError);
 
 	digital.reset ();
 	
@@ -228,6 +232,7 @@ BandStopTransform::BandStopTransform (double fc,
 {
 	if (!(fc < 0.5)) throw_invalid_argument(cutoffError);
 	if (fc < 0.0) throw_invalid_argument(cutoffNeg);
+	if (!(fw > 0.0) || std::isinf (fw)) throw_invalid_argument(widthError);
 
 	digital.reset ();
 	
-- 
2.43.0


From b116e3e6b22a62efc7b401e078ad462abe2da57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 09/14] fix: do not call std::polar with a negative or NaN
 radius

---
 iir/Butterworth.cpp | 6 +++++-
 iir/Custom.cpp      | 5 +++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/iir/Butterworth.cpp b/iir/Butterworth.cpp
index dc2efd6..97dd9bc 100644
--- a/iir/Butterworth.cpp
+++ b/iir/Butterworth.cpp
@@ -99,7 +99,11 @@ void AnalogLowShelf::design (int numPoles, double gainDb)
     for (int i = 1; i <= pairs; ++i)
     {
       const double theta = doublePi * (0.5 - (2 * i - 1) / n2);
-      addPoleZeroConjugatePairs (std::polar (gp, theta), std::polar (gz, theta));
+      const double cs = cos (theta);
+      const double sn = sin (theta);
+      // not std::polar because its radius must not be negative
+      addPoleZeroConjugatePairs (complex_t (gp * cs, gp * sn),
+                                 complex_t (gz * cs, gz * sn));
     }
     
     if (numPoles & 1)
diff --git a/iir/Custom.cpp b/iir/Custom.cpp
index 58ddd2e..c158fb4 100644
--- a/iir/Custom.cpp
+++ b/iir/Custom.cpp
@@ -56,8 +56,9 @@ void TwoPole::setup (double scale,
                      double zeroRho,
                      double zeroTheta)
 {
-  complex_t pole = std::polar (poleRho, poleTheta);
-  complex_t zero = std::polar (zeroRho, zeroTheta);
+  // not std::polar because its radius must not be negative or NaN
+  complex_t pole (poleRho * cos (poleTheta), poleRho * sin (poleTheta));
+  complex_t zero (zeroRho * cos (zeroTheta), zeroRho * sin (zeroTheta));
 
   Biquad b;
   b.setTwoPole (pole, zero, std::conj(pole), std::conj(zero));
-- 
2.43.0


From 8d11901377444f7eb0461ab5e965023f43296193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:54 +0000
Subject: [PATCH 10/14] fix: Chebyshev shelves must accept a gain of 0 dB

---
 iir/ChebyshevI.cpp  | 4 +++-
 iir/ChebyshevII.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/iir/ChebyshevI.cpp b/iir/ChebyshevI.cpp
index 88ae9ac..b937c71 100644
--- a/iir/ChebyshevI.cpp
+++ b/iir/ChebyshevI.cpp
@@ -135,7 +135,9 @@ void AnalogLowShelf::design (int numPoles,
     const double g0 = pow (G0 , 1. / numPoles);
 
     double eps;
-    if (Gb != G0 )
+    if (G == G0)
+      eps = 1; // no gain: poles and zeros cancel for any eps
+    else if (Gb != G0 )
       eps = sqrt((G*G-Gb*Gb)/(Gb*Gb-G0*G0));
     else
       eps = G-1; // This is surely wrong
diff --git a/iir/ChebyshevII.cpp b/iir/ChebyshevII.cpp
index 2151255..0b6bf7b 100644
--- a/iir/ChebyshevII.cpp
+++ b/iir/ChebyshevII.cpp
@@ -136,7 +136,9 @@ void AnalogLowShelf::design (int numPoles,
     const double g0 = pow (G0 , 1. / numPoles);
 
     double eps;
-    if (Gb != G0 )
+    if (G == G0)
+      eps = 1; // no gain: poles and zeros cancel for any eps
+    else if (Gb != G0 )
       eps = sqrt((G*G-Gb*Gb)/(Gb*Gb-G0*G0));
     else
       eps = G-1; // This is surely wrong
-- 
2.43.0


From a154bb16d04cb570b34fcbde7da32c017c26afbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:24 +0000
Subject: [PATCH 11/14] fix: iir_INCLUDE_DIRS and iir_LIBRARIES must refer to
 the installation

iir_LIBRARIES named no target, so that the linker looked for -liir in the
system directories, and iir_INCLUDE_DIRS ignored CMAKE_INSTALL_INCLUDEDIR.
---
 Config.cmake.in | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Config.cmake.in b/Config.cmake.in
index cab9ef1..718b5c3 100644
--- a/Config.cmake.in
+++ b/Config.cmake.in
@@ -2,11 +2,11 @@
 
 @PACKAGE_INIT@
 
+# Include the export script generated by CMake:
+include(${CMAKE_CURRENT_LIST_DIR}/iirTargets.cmake)
+
 # Value of 'iir_INCLUDE_DIRS' is real: it contains the include directory.
-set(iir_INCLUDE_DIRS @CMAKE_INSTALL_PREFIX@/include)
+get_target_property(iir_INCLUDE_DIRS iir::iir INTERFACE_INCLUDE_DIRECTORIES)
 
 # CMake extracts a library path from it.
-set(iir_LIBRARIES iir)
-
-# Include the export script generated by CMake:
-include(${CMAKE_CURRENT_LIST_DIR}/iirTargets.cmake)
+set(iir_LIBRARIES iir::iir)
-- 
2.43.0


From 740dceb1fb4a570f1937fd978cf02267e14852f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:57 +0000
Subject: [PATCH 12/14] fix: iir.pc must pass on IIR1_NO_EXCEPTIONS

As the CMake targets do: otherwise the headers do not compile without
exceptions and disagree with the library about what a rejection does.
---
 CMakeLists.txt | 4 ++++
 iir.pc.in      | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/CMakeLists.txt b/CMakeLists.txt
index bec8449..96b47de 100644
--- a/CMakeLists.txt
+++ b/CMakeLists.txt
@@ -97,6 +97,10 @@ include(JoinPaths)
 join_paths(includedir_for_pc_file "\${prefix}" "${CMAKE_INSTALL_INCLUDEDIR}")
 join_paths(libdir_for_pc_file "\${prefix}" "${CMAKE_INSTALL_LIBDIR}")
 
+if(IIR1_NO_EXCEPTIONS)
+  set(cflags_for_pc_file " -DIIR1_NO_EXCEPTIONS")
+endif()
+
 configure_file(iir.pc.in iir.pc @ONLY)
 install(FILES "${CMAKE_CURRENT_BINARY_DIR}/iir.pc"
   DESTINATION "${CMAKE_INSTALL_LIBDIR}/pkgconfig/")
diff --git a/iir.pc.in b/iir.pc.in
index fc7719e..6a23107 100644
--- a/iir.pc.in
+++ b/iir.pc.in
@@ -7,4 +7,4 @@ Description: IIR filter library.
 Version: @PROJECT_VERSION@
 URL: https://www.berndporr.me.uk/iir/
 Libs: -L${libdir} -liir
-Cflags: -I${includedir}
+Cflags: -I${includedir}@cflags_for_pc_file@
-- 
2.43.0


From fe412dd21ca7c9cb3ac60f0d87e1b7e5eab2f533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:51 +0000
Subject: [PATCH 13/14] fix: a bandstop of odd order with a width of a quarter
 of the sampling rate could not be set up

---
 iir/Layout.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/iir/Layout.h b/iir/Layout.h
index ec4fd39..113116f 100644
--- a/iir/Layout.h
+++ b/iir/Layout.h
@@ -146,9 +146,11 @@ namespace Iir {
 		{
 			if (m_numPoles&1)
 				throw_invalid_argument(errCantAdd2ndOrder);
-			if (!poles.isMatchedPair ())
+			// one of two real roots may well be zero, for example
+			// in a bandstop with a width of a quarter of the sampling rate
+			if (!poles.isMatchedPair () && !poles.isReal ())
 				throw_invalid_argument(errPolesNotComplexConj);
-			if (!zeros.isMatchedPair ())
+			if (!zeros.isMatchedPair () && !zeros.isReal ())
 				throw_invalid_argument(errZerosNotComplexConj);
 			m_pair[m_numPoles/2] = PoleZeroPair (poles.first, zeros.first,
 							     poles.second, zeros.second);
-- 
2.43.0


From 5750a0f40e51988269e4ec168e8a827b65b4293d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:18 +0000
Subject: [PATCH 14/14] fix: response() of a narrow filter of high order was
 NaN

---
 iir/Cascade.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/iir/Cascade.cpp b/iir/Cascade.cpp
index f1fbe5c..0f93b3d 100644
--- a/iir/Cascade.cpp
+++ b/iir/Cascade.cpp
@@ -63,7 +63,6 @@ namespace Iir {
 		const complex_t czn1 = std::polar (1., -w);
 		const complex_t czn2 = std::polar (1., -2 * w);
 		complex_t ch (1);
-		complex_t cbot (1);
 
 		const Biquad* stage = m_stageArray;
 		for (int i = m_numStages; --i >=0; ++stage)
@@ -74,11 +73,12 @@ namespace Iir {
 			ct = addmul (ct, stage->getB2()/stage->getA0(), czn2);
 			cb = addmul (cb, stage->getA1()/stage->getA0(), czn1);
 			cb = addmul (cb, stage->getA2()/stage->getA0(), czn2);
-			ch   *= ct;
-			cbot *= cb;
+			// one section at a time: the product of all denominators
+			// of a narrow filter of high order can be too small
+			ch *= ct / cb;
 		}
 
-		return ch / cbot;
+		return ch;
 	}
 
 	std::vector<PoleZeroPair> Cascade::getPoleZeros () const
-- 
2.43.0

