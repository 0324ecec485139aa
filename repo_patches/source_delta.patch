From e092cae41f4908211583b1bdf39c5c2761114cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:12 +0000
Subject: [PATCH 01/34] fix: fast_tan and fast_tanf return NaN for subnormal
 arguments

The branch free selection computed 0 * (-1/res). For tiny arguments -1/res
overflows to infinity, and the product is NaN. Select the value instead.
---
 include/tan.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/tan.h b/include/tan.h
index c1ec59d..81de45a 100644
--- a/include/tan.h
+++ b/include/tan.h
@@ -114,11 +114,12 @@ inline double fast_tan(double x){
     // A no branching way to say: if j&2 res = -1/res. You can!!!
     quad &=2;
     quad >>=1;
-    const int32_t alt = quad^1;
     // Avoid fpe generated by 1/0 if res is 0
     const double zeroIfXNonZero = (x==0.);
     res += zeroIfXNonZero;
-    res = quad * (-1./res) + alt * res; // one coeff is one and one is 0!
+    // Select: weighting with 0 and 1 gives a NaN when 1/res overflows
+    const double minusInvRes = -1./res;
+    res = quad ? minusInvRes : res;
 
     // Again, return 0 if res==0, the correct result otherwhise
     return details::dpXORuint64(res,sign_mask) * (1.-zeroIfXNonZero);
@@ -151,11 +152,12 @@ inline float fast_tanf(float x){
     // A no branching way to say: if j&2 res = -1/res. You can!!!
     quad &=2;
     quad >>=1;
-    const int32_t alt = quad^1;
     // Avoid fpe generated by 1/0 if res is 0
     const float zeroIfXNonZero = (x==0.f);
     res += zeroIfXNonZero;
-    res = quad * (-1.f/res) + alt * res; // one coeff is one and one is 0!
+    // Select: weighting with 0 and 1 gives a NaN when 1/res overflows
+    const float minusInvRes = -1.f/res;
+    res = quad ? minusInvRes : res;
 
     return details::spXORuint32(res,sign_mask) * (1.f-zeroIfXNonZero);
 
-- 
2.43.0


From 38fff0975fc69b424fb92b1f0209ba72f0aba030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:12 +0000
Subject: [PATCH 02/34] fix: fast_atan2f raises an invalid exception for (0,0)

The protection of the division was commented out in single precision.
It is restored, as in the double precision version.
---
 include/atan2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/atan2.h b/include/atan2.h
index 62f9249..bf70eef 100644
--- a/include/atan2.h
+++ b/include/atan2.h
@@ -105,7 +105,7 @@ inline float fast_atan2f( float y, float x ) {
     // To avoid the fpe, we protect against /0.
     const float oneIfXXZero = (xx==0.f);
     
-    float t=yy/(xx/*+oneIfXXZero*/);
+    float t=yy/(xx+oneIfXXZero);
     float z=t;
     if( t > 0.4142135623730950f ) // * tan pi/8
             z = (t-1.0f)/(t+1.0f);
-- 
2.43.0


From 67a555d1321407f0ee853b6d9efc4ebd600c7781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:12 +0000
Subject: [PATCH 03/34] fix: fast_log and fast_logf return a finite number for
 NaN

NaN failed both range comparisons and was processed as a number, giving
710.188 and 89.128. Negate the comparison so that NaN gives NaN.
---
 include/log.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/log.h b/include/log.h
index ddda848..834e52c 100644
--- a/include/log.h
+++ b/include/log.h
@@ -118,7 +118,7 @@ inline double fast_log(double x){
 
 	if (original_x > details::LOG_UPPER_LIMIT)
 		res = std::numeric_limits<double>::infinity();
-	if (original_x < details::LOG_LOWER_LIMIT) // THIS IS NAN!
+	if (!(original_x >= details::LOG_LOWER_LIMIT)) // THIS IS NAN!
 		res =  - std::numeric_limits<double>::quiet_NaN();
 
 	return res;
@@ -193,7 +193,7 @@ inline float fast_logf( float x ) {
 
 	if (original_x > details::LOGF_UPPER_LIMIT)
 		res = std::numeric_limits<float>::infinity();
-	if (original_x < details::LOGF_LOWER_LIMIT)
+	if (!(original_x >= details::LOGF_LOWER_LIMIT))
 		res = -std::numeric_limits<float>::quiet_NaN();
 
 	return res;
-- 
2.43.0


From 63607348af1841bc867c1b73f9debd01a7ee6168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:12 +0000
Subject: [PATCH 04/34] fix: fast_expf returns infinity for arguments in
 (88.376,88.722]

2^128 was built as a single float, which is infinity. Likewise 2^-127 was
built as zero. Multiply by the power of two in two steps.
---
 include/exp.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/exp.h b/include/exp.h
index 363b356..1601056 100644
--- a/include/exp.h
+++ b/include/exp.h
@@ -140,8 +140,10 @@ inline float fast_expf(float initial_x) {
     z *= x2;
     z += x + 1.0f;
 
-    /* multiply by power of 2 */
-    z *=  details::uint322sp((n+0x7f)<<23);
+    /* multiply by power of 2, in two steps: 2^n alone is not always a normal float */
+    const int32_t n2 = n/2;
+    z *=  details::uint322sp((n2+0x7f)<<23);
+    z *=  details::uint322sp((n-n2+0x7f)<<23);
 
     if (initial_x > details::MAXLOGF) z=std::numeric_limits<float>::infinity();
     if (initial_x < details::MINLOGF) z=0.f;
-- 
2.43.0


From 48c5a0ef99900a74fe9a6b6a3a9182318b9708be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:12 +0000
Subject: [PATCH 05/34] fix: diffbit converts -inf to an integer and is off by
 one

The bit position was obtained from a floating point log2. It was undefined
for equal numbers, and one too large for differences just below a large
power of two. Count the bits instead.
---
 include/diagnostic/vdtdiag_helper.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/diagnostic/vdtdiag_helper.h b/include/diagnostic/vdtdiag_helper.h
index 6dcb6f5..1644de2 100644
--- a/include/diagnostic/vdtdiag_helper.h
+++ b/include/diagnostic/vdtdiag_helper.h
@@ -178,8 +178,11 @@ uint16_t diffbit(const T a,const T b ){
 	uint64_t ib = fp2uint64(b);
 	uint64_t c = ia>ib? ia-ib : ib -ia;
 	//uint64_t c = ia^ib;
-	/// return the log2+1
-	return log2(c)+1;
+	/// return the position of the most significant bit, 0 if there is none
+	uint16_t nbits=0;
+	for (;c!=0;c>>=1)
+		++nbits;
+	return nbits;
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 41e8b704057b104d84e958d3cbe86a7c2a8e9642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:12 +0000
Subject: [PATCH 06/34] fix: timer returns garbage when a second boundary is
 crossed

The negative difference of the nanoseconds was stored in an unsigned
integer and summed in floating point.
---
 include/diagnostic/vdtdiag_helper.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/diagnostic/vdtdiag_helper.h b/include/diagnostic/vdtdiag_helper.h
index 1644de2..d939e20 100644
--- a/include/diagnostic/vdtdiag_helper.h
+++ b/include/diagnostic/vdtdiag_helper.h
@@ -383,8 +383,9 @@ private:
 		timespec temp;
 		temp.tv_sec = m_time2.tv_sec-m_time1.tv_sec;
 		temp.tv_nsec = m_time2.tv_nsec-m_time1.tv_nsec;
-		uint64_t elapsed_time = temp.tv_nsec;
-		elapsed_time += 1e9*temp.tv_sec;
+		// tv_nsec is negative if a second boundary was crossed
+		int64_t elapsed_time = temp.tv_nsec;
+		elapsed_time += INT64_C(1000000000)*temp.tv_sec;
 		return elapsed_time;
 	}
 
-- 
2.43.0


From 58104106f5a5aa6f94d8a1c75ddb8589a1f1a4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:30 +0000
Subject: [PATCH 07/34] fix: fast_atan2 and fast_atan2f return 0 for (0, NaN)

The polynomial already gives 0 for a zero ordinate, so the explicit
assignment only hid a NaN abscissa. Drop it and let the NaN propagate.
---
 include/atan2.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/atan2.h b/include/atan2.h
index bf70eef..2c556b0 100644
--- a/include/atan2.h
+++ b/include/atan2.h
@@ -81,7 +81,6 @@ inline double fast_atan2( double y, double x ) {
     ret*= (1.-oneIfXXZero);
 
     // move back in place
-    if (y==0) ret=0.0;
     if (tmp!=0) ret = details::PIO2 - ret;
     if (x<0) ret = details::PI - ret;
     if (y<0) ret = -ret;
@@ -123,7 +122,6 @@ inline float fast_atan2f( float y, float x ) {
     ret*= (1.f - oneIfXXZero);
     
     // move back in place
-    if (y==0.f) ret=0.f;
     if( t > 0.4142135623730950f ) ret += details::PIO4F;
     if (tmp!=0) ret = details::PIO2F - ret;
     if (x<0.f) ret = details::PIF - ret;
-- 
2.43.0


From e81e6231bd36836c92e2813273fe9c3fb122b739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:30 +0000
Subject: [PATCH 08/34] fix: performance statistics overflow for long
 measurements

The number of calls was multiplied in 32 bits, and the sum of the squared
times wrapped around when a repetition took more than 4.3 seconds.
---
 include/diagnostic/vdtdiag_fcnPerformance.h | 24 ++++++++++-----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/diagnostic/vdtdiag_fcnPerformance.h b/include/diagnostic/vdtdiag_fcnPerformance.h
index 0787314..2fc7e08 100644
--- a/include/diagnostic/vdtdiag_fcnPerformance.h
+++ b/include/diagnostic/vdtdiag_fcnPerformance.h
@@ -167,7 +167,7 @@ private:
   
   // momenta to calculate mean and rms, they will be filled later
   uint64_t t=0;
-  uint64_t t2=0;
+  double t2=0.;
 
   // An useful quantity
   const uint32_t size=m_input.size();
@@ -195,7 +195,7 @@ private:
     if (irep>=warm_up){
       deltat=fcntimer.get_elapsed_time();      
       t+=deltat;
-      t2+=deltat*deltat;
+      t2+=double(deltat)*deltat;
       }
       
     // To avoid optimisations, call a dummy function
@@ -205,7 +205,7 @@ private:
   delete [] results_arr;
   
   // Calculate mean and error on the mean
-  const uint64_t iterations = size * m_repetitions;
+  const uint64_t iterations = uint64_t(size) * m_repetitions;
   calculate_mean_and_err(t,t2,iterations);
   }
   //-----------------------------------------------------------------------------
@@ -214,7 +214,7 @@ private:
 
     // momenta to calculate mean and rms, they will be filled later
     uint64_t t=0;
-    uint64_t t2=0;
+    double t2=0.;
 
     // An useful quantity
     const uint32_t size=m_input.size();
@@ -243,7 +243,7 @@ private:
       if (irep>=warm_up){
         deltat=fcntimer.get_elapsed_time();
         t+=deltat;
-        t2+=deltat*deltat;
+        t2+=double(deltat)*deltat;
         }
 
       // To avoid optimisations, call a dummy function
@@ -253,7 +253,7 @@ private:
     delete [] results_arr;
 
     // Calculate mean and error on the mean
-    const uint64_t iterations = size * m_repetitions;
+    const uint64_t iterations = uint64_t(size) * m_repetitions;
     calculate_mean_and_err(t,t2,iterations);
     }
 //-----------------------------------------------------------------------------
@@ -261,7 +261,7 @@ private:
   void measureTimev(){
   // See explainations in the scalar method!
   uint64_t t=0.;
-  uint64_t t2=0.;
+  double t2=0.;
 
   const uint32_t size=m_input.size();
 
@@ -281,7 +281,7 @@ private:
       if (irep>=warm_up){
       	deltat = fcntimer.get_elapsed_time();
         t+=deltat;
-        t2+=deltat*deltat;
+        t2+=double(deltat)*deltat;
         }
 
      std::vector<T> results(results_arr,results_arr+size);
@@ -289,7 +289,7 @@ private:
      fool_optimisation(results);
     }
     
-  const uint64_t iterations = size * m_repetitions;
+  const uint64_t iterations = uint64_t(size) * m_repetitions;
   calculate_mean_and_err(t,t2,iterations);
   }
 
@@ -298,7 +298,7 @@ private:
 void measureTime2Dv(){
 	// See explainations in the scalar method!
 		uint64_t t=0.;
-		uint64_t t2=0.;
+		double t2=0.;
 
 		const uint32_t size=m_input.size();
 
@@ -319,7 +319,7 @@ void measureTime2Dv(){
 				if (irep>=warm_up){
 					deltat = fcntimer.get_elapsed_time();
 					t+=deltat;
-					t2+=deltat*deltat;
+					t2+=double(deltat)*deltat;
 					}
 
 			 std::vector<T> results(results_arr,results_arr+size);
@@ -327,7 +327,7 @@ void measureTime2Dv(){
 			 fool_optimisation(results);
 			}
 
-		const uint64_t iterations = size * m_repetitions;
+		const uint64_t iterations = uint64_t(size) * m_repetitions;
 		calculate_mean_and_err(t,t2,iterations);
 		}
 
-- 
2.43.0


From 595a96b1b635809b43d755905c11af215c9f5c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:30 +0000
Subject: [PATCH 09/34] fix: comparison files with infinite or NaN inputs are
 truncated on reading

The decimal copy of the input is only there for scripts. Reading it as a
number failed on inf and nan and ended the loop, so that row and all the
following ones were lost. Skip it as text.
---
 include/diagnostic/vdtdiag_fcnComparison.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/diagnostic/vdtdiag_fcnComparison.h b/include/diagnostic/vdtdiag_fcnComparison.h
index 8078e80..008ef6e 100644
--- a/include/diagnostic/vdtdiag_fcnComparison.h
+++ b/include/diagnostic/vdtdiag_fcnComparison.h
@@ -66,7 +66,7 @@ public:
 			//read rest of file
 			fpFromHex<T> in_val, out1_val, out2_val;
 			uint16_t tmp_diff;
-			T dummy;	//input value for Python, now useless
+			std::string dummy;	//input value for Python, now useless
 			while(ifile >> in_val >> out1_val >> out2_val >> tmp_diff >> dummy) {
 				m_input.push_back(in_val.getValue());
 				IfcnComparison<T>::m_out1.push_back(out1_val.getValue());
@@ -182,7 +182,7 @@ public:
 			//read rest of file
 			fpFromHex<T> in_val1, in_val2, out1_val, out2_val;
 			uint16_t tmp_diff;
-			T dummy1, dummy2;	//input value for Python, now useless
+			std::string dummy1, dummy2;	//input value for Python, now useless
 			while(ifile >> in_val1 >> in_val2 >> out1_val >> out2_val >> tmp_diff >> dummy1 >> dummy2) {
 				m_input1.push_back(in_val1.getValue());
 				m_input2.push_back(in_val2.getValue());
@@ -318,7 +318,7 @@ public:
 			//read rest of file
 			fpFromHex<T> in_val, out1_val, out2_val;
 			uint16_t tmp_diff;
-			T trash;	//input value for Python, now useless
+			std::string trash;	//input value for Python, now useless
 			while(ifile >> in_val >> out1_val >> out2_val >> tmp_diff >> trash) {
 				m_input.push_back(in_val.getValue());
 				m_out1.push_back(out1_val.getValue());
-- 
2.43.0


From 71dca3dab74782d77c0d177a50f3044af41232df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:30 +0000
Subject: [PATCH 10/34] fix: myfmaD rounds its double precision result to float

---
 src/fatlib.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fatlib.h b/src/fatlib.h
index b4e81b2..9685405 100644
--- a/src/fatlib.h
+++ b/src/fatlib.h
@@ -64,7 +64,7 @@ namespace {
 
 extern "C" {
   float myfmaF(float x, float y, float z) { return myfmaCPP(x,y,z);} 
-  float myfmaD(double x, double y, double z) { return myfmaCPP(x,y,z);} 
+  double myfmaD(double x, double y, double z) { return myfmaCPP(x,y,z);} 
 }
 
 #endif
-- 
2.43.0


From e68ef5aa1ba96ba507c46a83b2301457c898912d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:49 +0000
Subject: [PATCH 11/34] fix: shift an unsigned value in fast_expf

For arguments beyond about +-180 the exponent is out of range and the
shift of a signed integer overflowed, which is undefined. The result for
these arguments is replaced below, so the value does not matter.
---
 include/exp.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/exp.h b/include/exp.h
index 1601056..dbfd5db 100644
--- a/include/exp.h
+++ b/include/exp.h
@@ -142,8 +142,8 @@ inline float fast_expf(float initial_x) {
 
     /* multiply by power of 2, in two steps: 2^n alone is not always a normal float */
     const int32_t n2 = n/2;
-    z *=  details::uint322sp((n2+0x7f)<<23);
-    z *=  details::uint322sp((n-n2+0x7f)<<23);
+    z *=  details::uint322sp(uint32_t(n2+0x7f)<<23);
+    z *=  details::uint322sp(uint32_t(n-n2+0x7f)<<23);
 
     if (initial_x > details::MAXLOGF) z=std::numeric_limits<float>::infinity();
     if (initial_x < details::MINLOGF) z=0.f;
-- 
2.43.0


From cde2abb6d4ca26ccf3c494b72f2e2fb477232c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:26 +0000
Subject: [PATCH 12/34] fix: reading a truncated comparison file uses
 uninitialised numbers

The value read by the hexadecimal reader was not initialised, so the
statistics of an empty or truncated comparison file were garbage.
---
 include/diagnostic/vdtdiag_filePersistence.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/diagnostic/vdtdiag_filePersistence.h b/include/diagnostic/vdtdiag_filePersistence.h
index 92be668..bbd4f3c 100644
--- a/include/diagnostic/vdtdiag_filePersistence.h
+++ b/include/diagnostic/vdtdiag_filePersistence.h
@@ -54,8 +54,8 @@ template<class T>
 class fpFromHex{
 	uint64_t value;
 public:
-	/// Nothing
-	fpFromHex(){}
+	/// Value is zero until something is read
+	fpFromHex():value(0){}
 	~fpFromHex(){}
 
 	/// Overloaded insertion operator, just reads int value
-- 
2.43.0


From dd094c82cf45958b6db6b0d0ebcbf96f7f2bae72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:54:14 +0000
Subject: [PATCH 13/34] fix: name the NumPy functions of the Python 3 module

The Python 3 initialisation passed the address of the name table instead
of the name, so importing the module failed.
---
 src/vdtNumpyWrapper.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vdtNumpyWrapper.c b/src/vdtNumpyWrapper.c
index dc7b39e..8653d54 100644
--- a/src/vdtNumpyWrapper.c
+++ b/src/vdtNumpyWrapper.c
@@ -181,7 +181,7 @@ PyMODINIT_FUNC PyInit_vdtnpfun(void)
       vdt_v = PyUFunc_FromFuncAndData(funcs, data+2*i, types, 2, 1, 1,
                                     PyUFunc_None, fname[i],
                                     fdoc[i], 0);
-      PyDict_SetItemString(d, fname+i, vdt_v);
+      PyDict_SetItemString(d, fname[i], vdt_v);
       Py_DECREF(vdt_v);
     }
     // add sincos and atan2 by hand
-- 
2.43.0


From d2c8ea7808be27bc5fa32f0371fb96f022e6e30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:54:29 +0000
Subject: [PATCH 14/34] fix: add div, fma and fmac to the Python 3 NumPy module

Only the Python 2 initialisation registered them.
---
 src/vdtNumpyWrapper.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/vdtNumpyWrapper.c b/src/vdtNumpyWrapper.c
index 8653d54..2a6927a 100644
--- a/src/vdtNumpyWrapper.c
+++ b/src/vdtNumpyWrapper.c
@@ -184,7 +184,7 @@ PyMODINIT_FUNC PyInit_vdtnpfun(void)
       PyDict_SetItemString(d, fname[i], vdt_v);
       Py_DECREF(vdt_v);
     }
-    // add sincos and atan2 by hand
+    // add sincos, atan2 div,fma and fmac by hand
     vdt_v = PyUFunc_FromFuncAndData(funcs12, dataSinCos, types12, 2, 1, 2,
 				    PyUFunc_None, "vdt_sincos",
 				    "vdt_sincos", 0);
@@ -195,7 +195,21 @@ PyMODINIT_FUNC PyInit_vdtnpfun(void)
 				    "vdt_atan2", 0);
     PyDict_SetItemString(d,  "vdt_atan2", vdt_v);
     Py_DECREF(vdt_v);
-
+    vdt_v = PyUFunc_FromFuncAndData(funcs21, dataDiv, types12, 2, 2, 1,
+				    PyUFunc_None, "vdt_div",
+				    "vdt_div", 0);
+    PyDict_SetItemString(d,  "vdt_div", vdt_v);
+    Py_DECREF(vdt_v);
+    vdt_v = PyUFunc_FromFuncAndData(funcs31, dataFMA, types31, 2, 3, 1,
+				    PyUFunc_None, "vdt_fma",
+				    "vdt_fma", 0);
+    PyDict_SetItemString(d,  "vdt_fma", vdt_v);
+    Py_DECREF(vdt_v);
+    vdt_v = PyUFunc_FromFuncAndData(funcs31, dataFMAC, types31, 2, 3, 1,
+				    PyUFunc_None, "vdt_fmac",
+				    "correctly rounded fma", 0);
+    PyDict_SetItemString(d,  "vdt_fmac", vdt_v);
+    Py_DECREF(vdt_v);
 
     return m;
 }
-- 
2.43.0


From 3fa982c4f8a0bdaec28cd9eb35f07caf74746c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:54:42 +0000
Subject: [PATCH 15/34] fix: honour the strides in the NumPy loops

The loops ignored the steps they are given, so views with gaps, reversed
views and broadcast arguments gave wrong results and wrote or read outside
the arrays. Use the array function for contiguous arguments only and go
element by element otherwise.
---
 src/vdtNumpyWrapper.c | 78 ++++++++++++++++++++++++++++++-------------
 1 file changed, 55 insertions(+), 23 deletions(-)

diff --git a/src/vdtNumpyWrapper.c b/src/vdtNumpyWrapper.c
index 2a6927a..f901171 100644
--- a/src/vdtNumpyWrapper.c
+++ b/src/vdtNumpyWrapper.c
@@ -24,6 +24,14 @@ static PyMethodDef vdt_Methods[] = {
         {NULL, NULL, 0, NULL}
 };
 
+/* True if all the n arrays of a loop have their elements one after the other. */
+static int vdt_contiguous(const npy_intp *steps, int n, npy_intp size)
+{
+  for (int i=0;i<n;++i)
+    if (steps[i] != size) return 0;
+  return 1;
+}
+
 /* The loop definition must precede the PyMODINIT_FUNC. */
 
 static void vdt_vf(char **args, npy_intp *dimensions,
@@ -34,9 +42,12 @@ static void vdt_vf(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in = args[0], *out = args[1];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
 
-  (*functionPtr)((const float *)in, (float *)out,n); 
+  if (vdt_contiguous(steps,2,sizeof(float)))
+    (*functionPtr)((const float *)in, (float *)out,n);
+  else
+    for (npy_intp i=0;i<n;++i)
+      (*functionPtr)((const float *)(in+i*steps[0]), (float *)(out+i*steps[1]),1);
 }
 
 static void vdt_vd(char **args, npy_intp *dimensions,
@@ -47,9 +58,12 @@ static void vdt_vd(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in = args[0], *out = args[1];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
-  
-  (*functionPtr)((const double *)in, (double *)out,n); 
+
+  if (vdt_contiguous(steps,2,sizeof(double)))
+    (*functionPtr)((const double *)in, (double *)out,n);
+  else
+    for (npy_intp i=0;i<n;++i)
+      (*functionPtr)((const double *)(in+i*steps[0]), (double *)(out+i*steps[1]),1);
 }
 
 
@@ -62,9 +76,12 @@ static void vdt_vf21(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in1 = args[0], *in2 = args[1], *out = args[2];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
-  
-  (*functionPtr)((const float *)in1, (const float *)in2, (float *)out,n); 
+
+  if (vdt_contiguous(steps,3,sizeof(float)))
+    (*functionPtr)((const float *)in1, (const float *)in2, (float *)out,n);
+  else
+    for (npy_intp i=0;i<n;++i)
+      (*functionPtr)((const float *)(in1+i*steps[0]), (const float *)(in2+i*steps[1]), (float *)(out+i*steps[2]),1);
 }
 
 static void vdt_vf12(char **args, npy_intp *dimensions,
@@ -75,9 +92,12 @@ static void vdt_vf12(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in = args[0], *out1 = args[1], *out2 = args[2];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
-  
-  (*functionPtr)((const float *)in, (float *)out1, (float *)out2,n); 
+
+  if (vdt_contiguous(steps,3,sizeof(float)))
+    (*functionPtr)((const float *)in, (float *)out1, (float *)out2,n);
+  else
+    for (npy_intp i=0;i<n;++i)
+      (*functionPtr)((const float *)(in+i*steps[0]), (float *)(out1+i*steps[1]), (float *)(out2+i*steps[2]),1);
 }
 
 static void vdt_vf31(char **args, npy_intp *dimensions,
@@ -88,9 +108,12 @@ static void vdt_vf31(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in1 = args[0], *in2 = args[1], *in3 = args[2], *out = args[3];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
-  
-  (*functionPtr)((const float *)in1, (const float *)in2,(const float *)in3, (float *)out,n); 
+
+  if (vdt_contiguous(steps,4,sizeof(float)))
+    (*functionPtr)((const float *)in1, (const float *)in2,(const float *)in3, (float *)out,n);
+  else
+    for (npy_intp i=0;i<n;++i)
+      (*functionPtr)((const float *)(in1+i*steps[0]), (const float *)(in2+i*steps[1]), (const float *)(in3+i*steps[2]), (float *)(out+i*steps[3]),1);
 }
 
 
@@ -102,9 +125,12 @@ static void vdt_vd21(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in1 = args[0], *in2 = args[1], *out = args[2];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
-  
-  (*functionPtr)((const double *)in1, (const double *)in2, (double *)out,n); 
+
+  if (vdt_contiguous(steps,3,sizeof(double)))
+    (*functionPtr)((const double *)in1, (const double *)in2, (double *)out,n);
+  else
+    for (npy_intp i=0;i<n;++i)
+      (*functionPtr)((const double *)(in1+i*steps[0]), (const double *)(in2+i*steps[1]), (double *)(out+i*steps[2]),1);
 }
 
 static void vdt_vd12(char **args, npy_intp *dimensions,
@@ -115,9 +141,12 @@ static void vdt_vd12(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in = args[0],  *out1 = args[1], *out2 = args[2];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
-  
-  (*functionPtr)((const double *)in, (double *)out1, (double *)out2,n); 
+
+  if (vdt_contiguous(steps,3,sizeof(double)))
+    (*functionPtr)((const double *)in, (double *)out1, (double *)out2,n);
+  else
+    for (npy_intp i=0;i<n;++i)
+      (*functionPtr)((const double *)(in+i*steps[0]), (double *)(out1+i*steps[1]), (double *)(out2+i*steps[2]),1);
 }
 
 static void vdt_vd31(char **args, npy_intp *dimensions,
@@ -128,9 +157,12 @@ static void vdt_vd31(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in1 = args[0], *in2 = args[1], *in3 = args[2], *out = args[3];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
-  
-  (*functionPtr)((const double *)in1, (const double *)in2,(const double *)in3, (double *)out,n); 
+
+  if (vdt_contiguous(steps,4,sizeof(double)))
+    (*functionPtr)((const double *)in1, (const double *)in2,(const double *)in3, (double *)out,n);
+  else
+    for (npy_intp i=0;i<n;++i)
+      (*functionPtr)((const double *)(in1+i*steps[0]), (const double *)(in2+i*steps[1]), (const double *)(in3+i*steps[2]), (double *)(out+i*steps[3]),1);
 }
 
 
-- 
2.43.0


From d6056f33b0812c60a66264c92d14312ed4541e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:20:42 +0000
Subject: [PATCH 16/34] fix: the older comparison class skips only 2 of the 5
 header lines of its files

---
 include/diagnostic/vdtdiag_fcnComparison.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/diagnostic/vdtdiag_fcnComparison.h b/include/diagnostic/vdtdiag_fcnComparison.h
index 008ef6e..a996377 100644
--- a/include/diagnostic/vdtdiag_fcnComparison.h
+++ b/include/diagnostic/vdtdiag_fcnComparison.h
@@ -307,7 +307,7 @@ public:
 			std::ifstream ifile ( input_filename );
 			std::string line;
 			//skip the 5 header lines but read the func name from resp		
-			for (uint16_t i=0;i<2;++i)
+			for (uint16_t i=0;i<5;++i)
 				std::getline(ifile,line);
 			//read data from file	
 			//read stats:
-- 
2.43.0


From cbc862ea2db4bbc3ea217dcfd59a4518e05b385b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:27:59 +0000
Subject: [PATCH 17/34] fix: wrapper generators stop with a NameError in Python
 3

---
 src/numpy_wrapper_generator.py | 8 ++++----
 src/vc_wrapper_generator.py    | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/numpy_wrapper_generator.py b/src/numpy_wrapper_generator.py
index 2bf8c6e..41dcaf4 100644
--- a/src/numpy_wrapper_generator.py
+++ b/src/numpy_wrapper_generator.py
@@ -256,7 +256,7 @@ def create_python():
       for fcn_name in sorted(FUNCTIONS_LIST):
         code+=get_python_function(fcn_name,is_double,is_vector)
 
-  ofile=file(VDT_PYTHON_MODULE,'w')
+  ofile=open(VDT_PYTHON_MODULE,'w')
   ofile.write(code)
   ofile.close()
 
@@ -296,7 +296,7 @@ def create_numpy_header():
   code+=data+fname+fdoc;
 
 
-  ofile=file(VDT_NUMPY_WRAPPER_HEADER,'w')
+  ofile=open(VDT_NUMPY_WRAPPER_HEADER,'w')
   ofile.write(code)
   ofile.close()
 
@@ -332,14 +332,14 @@ def get_impl_file():
 #------------------------------------------------------------------
 
 def create_header():
-  ofile=file(VDT_WRAPPER_HEADER,'w')
+  ofile=open(VDT_WRAPPER_HEADER,'w')
   ofile.write(get_header_file())
   ofile.close()
   
 #------------------------------------------------------------------
 
 def create_impl():
-  ofile=file(VDT_WRAPPER_IMPL,'w')
+  ofile=open(VDT_WRAPPER_IMPL,'w')
   ofile.write(get_impl_file())
   ofile.close()
 
diff --git a/src/vc_wrapper_generator.py b/src/vc_wrapper_generator.py
index 057e6dc..529ffdd 100644
--- a/src/vc_wrapper_generator.py
+++ b/src/vc_wrapper_generator.py
@@ -153,14 +153,14 @@ def get_impl_file():
 #------------------------------------------------------------------
 
 def create_header():
-  ofile=file(VC_WRAPPER_HEADER,'w')
+  ofile=open(VC_WRAPPER_HEADER,'w')
   ofile.write(get_header_file())
   ofile.close()
   
 #------------------------------------------------------------------
 
 def create_impl():
-  ofile=file(VC_WRAPPER_IMPL,'w')
+  ofile=open(VC_WRAPPER_IMPL,'w')
   ofile.write(get_impl_file())
   ofile.close()
 
-- 
2.43.0


From 157b8cd25216858413a3e7dd2d787efb49a4127a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:29:44 +0000
Subject: [PATCH 18/34] fix: result scripts are Python 2 only

---
 scripts/checkAccuracy.py      |  4 ++--
 scripts/tabulateVDTResults.py | 40 ++++++++++++++++++-----------------
 2 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/scripts/checkAccuracy.py b/scripts/checkAccuracy.py
index 7818c01..bfdbf51 100644
--- a/scripts/checkAccuracy.py
+++ b/scripts/checkAccuracy.py
@@ -71,13 +71,13 @@ def get_tests(nick):
 if __name__ == "__main__":
     import sys
     if len(sys.argv) != 2:
-      print "Usage is checkAccuracy.py nick"
+      print("Usage is checkAccuracy.py nick")
       sys.exit(1)
     nick=sys.argv[1]
     tests=get_tests(nick)
     refs=get_refs(nick)
     command='vdtArithmComparison -n=%s -T="%s" -R="%s"' %(nick,tests,refs)
-    print command
+    print(command)
         
         
         
diff --git a/scripts/tabulateVDTResults.py b/scripts/tabulateVDTResults.py
index f748c3b..3e8a259 100755
--- a/scripts/tabulateVDTResults.py
+++ b/scripts/tabulateVDTResults.py
@@ -1,5 +1,6 @@
 #! /usr/bin/env python
 
+from __future__ import print_function
 import re
 import math
 
@@ -53,12 +54,12 @@ def createSummaryTable(TitledTimingsList):
    """
    firstTimings =TitledTimingsList[0][1]
    nlines=len(firstTimings)
-   print "   Function Name",
+   print("   Function Name", end=" ")
    for title,timings in TitledTimingsList:
-      print "%20s" %title,
-   print
-   for i in xrange(nlines):
-      print "%16s" %firstTimings[i][0],
+      print("%20s" %title, end=" ")
+   print()
+   for i in range(nlines):
+      print("%16s" %firstTimings[i][0], end=" ")
       first=True
       norm=1.
       speedupString=""
@@ -73,9 +74,9 @@ def createSummaryTable(TitledTimingsList):
             factor = norm/dividend
             speedupString = "%.1fX" %factor
          s="%.2f +- %.2f %s" %(time,err,speedupString)
-         print "%20s" %s,
+         print("%20s" %s, end=" ")
          first=False
-      print
+      print()
 
 
 #-------------------------------------------------------------------------------
@@ -97,17 +98,17 @@ def createVectTable(TitledTimingsList):
    
    firstTimings =TitledTimingsList[0][1]
    nlines=len(firstTimings)
-   print "   Function Name",
+   print("   Function Name", end=" ")
    vectSuffix=""
    for title,timings in TitledTimingsList:      
-      print "%20s" %(title+vectSuffix),
+      print("%20s" %(title+vectSuffix), end=" ")
       vectSuffix=" vect."
-   print
-   for i in xrange(nlines):
+   print()
+   for i in range(nlines):
       funcName=firstTimings[i][0]
       if funcName.endswith('v'):continue
       
-      print "%16s" %funcName,
+      print("%16s" %funcName, end=" ")
       first=True
       norm=1.
       speedupString=""
@@ -117,7 +118,7 @@ def createVectTable(TitledTimingsList):
             err = timings[i][2]
             norm=time
             s="%.2f +- %.2f" %(time,err)
-            print "%20s" %s,
+            print("%20s" %s, end=" ")
             first=False
          else:
             timingsDict = timings2TimingsDict(timings)            
@@ -128,9 +129,9 @@ def createVectTable(TitledTimingsList):
             factor = norm/dividend
             speedupString = "%.1f X" %factor
             s="%.2f +- %.2f %s" %(time,err,speedupString)
-            print "%20s" %s,
+            print("%20s" %s, end=" ")
             first=False
-      print
+      print()
 
 #-------------------------------------------------------------------------------
 def createLibmVdtTable(TitledTimings):
@@ -140,8 +141,8 @@ def createLibmVdtTable(TitledTimings):
 
    nlines=len(TitledTimings)
    title,timings = TitledTimings
-   print "--------- %s Scalar Calls ----------" %title
-   print "%16s %16s %16s" %("Function Name","Libm","VDT")
+   print("--------- %s Scalar Calls ----------" %title)
+   print("%16s %16s %16s" %("Function Name","Libm","VDT"))
    timingsDict=timings2TimingsDict(timings) 
    for name,time,err in timings:
       if name.startswith("Fast_") or name.endswith("v"): continue
@@ -158,7 +159,7 @@ def createLibmVdtTable(TitledTimings):
       speedupString = "%.1fX"%speedup
       vdtString="%.2f +- %.2f %s" %(vdtTime,vdtErr,speedupString)
 
-      print "%16s %20s %20s" %(name,libmString,vdtString)
+      print("%16s %20s %20s" %(name,libmString,vdtString))
       
 #-------------------------------------------------------------------------------
 if __name__ == "__main__":
@@ -199,7 +200,8 @@ if __name__ == "__main__":
       createVectTable(titledTimingsList)
 
    if options.libmTable:
-      map (createLibmVdtTable, titledTimingsList)
+      for titledTimings in titledTimingsList:
+         createLibmVdtTable(titledTimings)
 
 
 
-- 
2.43.0


From 83abbf251150c343d732c751cd0c495fed796715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:31:32 +0000
Subject: [PATCH 19/34] fix: vector table leaves out functions ending in v and
 prints the error of the scalar function

---
 scripts/tabulateVDTResults.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/tabulateVDTResults.py b/scripts/tabulateVDTResults.py
index 3e8a259..3815305 100755
--- a/scripts/tabulateVDTResults.py
+++ b/scripts/tabulateVDTResults.py
@@ -97,6 +97,7 @@ def createVectTable(TitledTimingsList):
    TitledTimingsList = [TitledTimingsList[0]]+TitledTimingsList
    
    firstTimings =TitledTimingsList[0][1]
+   firstDict = timings2TimingsDict(firstTimings)
    nlines=len(firstTimings)
    print("   Function Name", end=" ")
    vectSuffix=""
@@ -106,7 +107,8 @@ def createVectTable(TitledTimingsList):
    print()
    for i in range(nlines):
       funcName=firstTimings[i][0]
-      if funcName.endswith('v'):continue
+      # names of scalar functions can end with a v as well (e.g. Fast_Inv)
+      if funcName+"v" not in firstDict:continue
       
       print("%16s" %funcName, end=" ")
       first=True
@@ -123,7 +125,6 @@ def createVectTable(TitledTimingsList):
          else:
             timingsDict = timings2TimingsDict(timings)            
             time,err = timingsDict[funcName+"v"]
-            err = timingsDict[funcName][1]
             dividend=time
             if dividend==0.: dividend =1.
             factor = norm/dividend
-- 
2.43.0


From db7141cef71730dc800d74bac500379dbdd1dd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:31:32 +0000
Subject: [PATCH 20/34] fix: libm table fails without normalisation and when a
 time is zero

---
 scripts/tabulateVDTResults.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scripts/tabulateVDTResults.py b/scripts/tabulateVDTResults.py
index 3815305..ffdc83c 100755
--- a/scripts/tabulateVDTResults.py
+++ b/scripts/tabulateVDTResults.py
@@ -146,7 +146,7 @@ def createLibmVdtTable(TitledTimings):
    print("%16s %16s %16s" %("Function Name","Libm","VDT"))
    timingsDict=timings2TimingsDict(timings) 
    for name,time,err in timings:
-      if name.startswith("Fast_") or name.endswith("v"): continue
+      if name.startswith("Fast_") or name.endswith("v") or "Identity" in name: continue
       
       libmString="%.2f +- %.2f" %(time,err)
 
@@ -156,7 +156,9 @@ def createLibmVdtTable(TitledTimings):
       
       vdtTime = timingsDict[vdtName][0]
       vdtErr = timingsDict[vdtName][1]
-      speedup = time / vdtTime
+      dividend=vdtTime
+      if dividend==0.: dividend =1.
+      speedup = time / dividend
       speedupString = "%.1fX"%speedup
       vdtString="%.2f +- %.2f %s" %(vdtTime,vdtErr,speedupString)
 
-- 
2.43.0


From ba98fa6c8dcc27e0737e9cec11f2f1b5fdde4bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:31:32 +0000
Subject: [PATCH 21/34] fix: histogram script fails on comparisons of functions
 of two arguments

---
 scripts/diffhisto.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scripts/diffhisto.py b/scripts/diffhisto.py
index 089c6b0..ec79511 100644
--- a/scripts/diffhisto.py
+++ b/scripts/diffhisto.py
@@ -51,9 +51,11 @@ def fill_histos(cmpfile,histo1D,histo2D):
     line = cmpfile.readline()
     if line == "":
       break
-    m=re.match("(.*) (.*) (.*) (.*) (.*)",line)
-    inputval=float(m.group(5))
-    db=int(m.group(4))
+    # input(s), two outputs, diffbit, decimal input(s)
+    values=line.split()
+    ninputs=(len(values)-3)//2
+    inputval=float(values[ninputs+3])
+    db=int(values[ninputs+2])
     # fill histograms
     histo1D.Fill(db)
     histo2D.Fill(inputval,db)  
-- 
2.43.0


From 7ca5a88658d6ff6639ef311609d6105d9db661b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:31:32 +0000
Subject: [PATCH 22/34] fix: histogram script ignores its directory option when
 it opens the files

---
 scripts/diffhisto.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/diffhisto.py b/scripts/diffhisto.py
index ec79511..74a8058 100644
--- a/scripts/diffhisto.py
+++ b/scripts/diffhisto.py
@@ -1,6 +1,7 @@
 # !/usr/bin/env python
 
 import optparse
+import os
 import re
 
 #-------------------------------------------------------------------------------
@@ -40,7 +41,6 @@ def getYaxisRange(name):
 #-------------------------------------------------------------------------------      
 
 def getFilenamesFromDir(nick,dirname):
-  import os
   return filter (lambda filename: re.match("comparison__" + nick + "__(.*).txt",filename), os.listdir(dirname))
 
 #-------------------------------------------------------------------------------    
@@ -79,7 +79,7 @@ def compare(nick,dirname):
   print ( str( len(filenames) ) + " files found." )
   for filename in filenames:      
     print ( "Studying " + filename )
-    cmpfile = open(filename)
+    cmpfile = open(os.path.join(dirname,filename))
     typelength,typelength_s =  getTypeLength(cmpfile)
     
     m=re.match("comparison__" + nick + "__(.*).txt" ,filename)
-- 
2.43.0


From 63f8ee5e4636e5e6dd44cbbfe2910ffa8162aa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:31:52 +0000
Subject: [PATCH 23/34] fix: Python wrapper uses numpy.float, which is gone in
 NumPy 1.24

---
 scripts/invokeVDT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/invokeVDT.py b/scripts/invokeVDT.py
index 55a552f..eb89613 100644
--- a/scripts/invokeVDT.py
+++ b/scripts/invokeVDT.py
@@ -36,7 +36,7 @@ def load(fn,is_single,libname='libvdtFatLibWrapper',nin=1,nout=1) :
    if (is_single) :
      type = numpy.single
    else :
-     type = numpy.float      
+     type = numpy.double
 
    tin = numpy.ctypeslib.ndpointer(type,flags='aligned, contiguous')
    tout = numpy.ctypeslib.ndpointer(type,flags='aligned, contiguous, writeable')
-- 
2.43.0


From aefd77fd37629239c398f15aab9d5dc9056acdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:31:52 +0000
Subject: [PATCH 24/34] fix: generated Python module calls div, fma and fmac
 with one argument

---
 scripts/invokeVDT.py           | 12 ++++++++++++
 scripts/vdtBase.py             |  5 +++++
 src/numpy_wrapper_generator.py |  4 +++-
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/scripts/invokeVDT.py b/scripts/invokeVDT.py
index eb89613..e26742f 100644
--- a/scripts/invokeVDT.py
+++ b/scripts/invokeVDT.py
@@ -21,6 +21,18 @@ def invoke2to1(vi1,vi2,f,type) :
   f(vi1,vi2,vo,vi1.size)
   return vo
 
+def invoke3to1(vi1,vi2,vi3,f,type) :
+  requires = ['CONTIGUOUS', 'ALIGNED']
+  vi1 = numpy.asanyarray(vi1)
+  vi1 = numpy.require(vi1, type, requires)
+  vi2 = numpy.asanyarray(vi2)
+  vi2 = numpy.require(vi2, type, requires)
+  vi3 = numpy.asanyarray(vi3)
+  vi3 = numpy.require(vi3, type, requires)
+  vo = numpy.empty_like(vi1)
+  f(vi1,vi2,vi3,vo,vi1.size)
+  return vo
+
 def invoke1to2(vi,f,type) :
   requires = ['CONTIGUOUS', 'ALIGNED']
   vi = numpy.asanyarray(vi)
diff --git a/scripts/vdtBase.py b/scripts/vdtBase.py
index 211b6a5..cdcf9f8 100644
--- a/scripts/vdtBase.py
+++ b/scripts/vdtBase.py
@@ -26,6 +26,11 @@ def vdt_invoke2to1(fn,vi1,vi2) :
     (f,type) =  VDTFunMap[fn]
     return invokeVDT.invoke2to1(vi1,vi2,f,type)    
 
+def vdt_invoke3to1(fn,vi1,vi2,vi3) :
+    loadit(fn,3,1)
+    (f,type) =  VDTFunMap[fn]
+    return invokeVDT.invoke3to1(vi1,vi2,vi3,f,type)    
+
 def vdt_invoke1to2(fn,vi) :
     loadit(fn,1,2)
     (f,type) =  VDTFunMap[fn]
diff --git a/src/numpy_wrapper_generator.py b/src/numpy_wrapper_generator.py
index 41dcaf4..c069cff 100644
--- a/src/numpy_wrapper_generator.py
+++ b/src/numpy_wrapper_generator.py
@@ -238,8 +238,10 @@ def get_python_function(fcn_name,is_double,is_vector):
   code = ''
   if(is_vector):
     fn ='%s%s' %(VDT_PREF,fcn_name)
-    if (fcn_name[:5] == 'atan2') :
+    if (fcn_name[:5] == 'atan2' or fcn_name[:3] == 'div') :
       code='def %s(vi1,vi2): return vdt_invoke2to1("%s",vi1,vi2)' %(fn,fn) + '\n'
+    elif (fcn_name[:3] == 'fma') :
+      code='def %s(vi1,vi2,vi3): return vdt_invoke3to1("%s",vi1,vi2,vi3)' %(fn,fn) + '\n'
     elif (fcn_name[:6] == 'sincos'):
       code='def %s(vi): return vdt_invoke1to2("%s",vi)' %(fn,fn) + '\n'
     else :
-- 
2.43.0


From 4abdfc46c1a3c425b77c6c36c69ea2353692f489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:31:52 +0000
Subject: [PATCH 25/34] fix: Python wrapper reads past the end of a shorter
 second argument

---
 scripts/invokeVDT.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scripts/invokeVDT.py b/scripts/invokeVDT.py
index e26742f..774308c 100644
--- a/scripts/invokeVDT.py
+++ b/scripts/invokeVDT.py
@@ -17,6 +17,8 @@ def invoke2to1(vi1,vi2,f,type) :
   vi1 = numpy.require(vi1, type, requires)
   vi2 = numpy.asanyarray(vi2)
   vi2 = numpy.require(vi2, type, requires)
+  if vi1.shape != vi2.shape :
+    raise ValueError("arguments have different shapes")
   vo = numpy.empty_like(vi1)
   f(vi1,vi2,vo,vi1.size)
   return vo
@@ -29,6 +31,8 @@ def invoke3to1(vi1,vi2,vi3,f,type) :
   vi2 = numpy.require(vi2, type, requires)
   vi3 = numpy.asanyarray(vi3)
   vi3 = numpy.require(vi3, type, requires)
+  if vi1.shape != vi2.shape or vi1.shape != vi3.shape :
+    raise ValueError("arguments have different shapes")
   vo = numpy.empty_like(vi1)
   f(vi1,vi2,vi3,vo,vi1.size)
   return vo
-- 
2.43.0


From 4a0983976b44bce8ea234458b5237f3ee38e16ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:32:37 +0000
Subject: [PATCH 26/34] fix: honour the strides in the loops of the exp module

---
 src/expfWrapper.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/expfWrapper.c b/src/expfWrapper.c
index 289e2f2..c6d80cf 100644
--- a/src/expfWrapper.c
+++ b/src/expfWrapper.c
@@ -33,10 +33,14 @@ static void vdt_vf(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
     char *in = args[0], *out = args[1];
-    /* npy_intp in_step = steps[0], out_step = steps[1]; */
+    npy_intp in_step = steps[0], out_step = steps[1];
 
     // vdt_expfv((const float *)in, (float *)out,n); 
-    (*functionPtr)((const float *)in, (float *)out,n); 
+    if (in_step == sizeof(float) && out_step == sizeof(float))
+      (*functionPtr)((const float *)in, (float *)out,n);
+    else
+      for (npy_intp i=0;i<n;++i)
+        (*functionPtr)((const float *)(in+i*in_step), (float *)(out+i*out_step),1);
 }
 
 static void vdt_vd(char **args, npy_intp *dimensions,
@@ -48,9 +52,13 @@ static void vdt_vd(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
     char *in = args[0], *out = args[1];
-    /* npy_intp in_step = steps[0], out_step = steps[1]; */
+    npy_intp in_step = steps[0], out_step = steps[1];
 
-    (*functionPtr)((const double *)in, (double *)out,n); 
+    if (in_step == sizeof(double) && out_step == sizeof(double))
+      (*functionPtr)((const double *)in, (double *)out,n);
+    else
+      for (npy_intp i=0;i<n;++i)
+        (*functionPtr)((const double *)(in+i*in_step), (double *)(out+i*out_step),1);
 }
 
 
-- 
2.43.0


From 1e444eff306a3231b5dabd63088ebf01a108dd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:12:31 +0000
Subject: [PATCH 27/34] fix: the fat library does not compile with versions of
 its functions

The definitions in extern "C" blocks make gcc name the dispatcher of each
function like the function itself, a string built in a function for another
target cannot be inlined, and clang wants one string as list of targets.
---
 src/fatlib.h                   | 18 ++++++++++--------
 src/numpy_wrapper_generator.py |  2 +-
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/fatlib.h b/src/fatlib.h
index 9685405..aebb232 100644
--- a/src/fatlib.h
+++ b/src/fatlib.h
@@ -12,22 +12,22 @@ static std::string fathi;
 #ifdef __linux__
 
 #define FATHALLO(...) char const * __attribute__ ((__target__ (__VA_ARGS__))) \
-  fathelloCPP() { fathi = std::string("target is ")+#__VA_ARGS__; return fathi.c_str();}
+  fathelloCPP() { return "target is " #__VA_ARGS__;}
 
 namespace {
 FATHALLO("default")
 FATHALLO("sse3")
 FATHALLO("arch=corei7")
 FATHALLO("arch=bdver1")
-FATHALLO("avx2","fma")
+FATHALLO("avx2,fma")
 FATHALLO("avx")
 FATHALLO("avx512f")
 // FATHALLO()
 }
 
-extern "C" {
-  char const * vdt_arch() { return fathelloCPP();}
-}
+// defined out of extern "C": gcc gives the dispatcher of a function first called in there the name of the function
+extern "C" char const * vdt_arch();
+char const * vdt_arch() { return fathelloCPP();}
 #else
 extern "C" {
   char const * vdt_arch() { fathi = std::string("unknown target"); return fathi.c_str();;}
@@ -42,7 +42,7 @@ RET __attribute__ ((__target__ ("default"))) FUN \
 RET __attribute__ ((__target__ ("sse3"))) FUN \
 RET __attribute__ ((__target__ ("arch=corei7"))) FUN \
 RET __attribute__ ((__target__ ("arch=bdver1"))) FUN \
-RET __attribute__ ((__target__ ("avx2","fma"))) FUN \
+RET __attribute__ ((__target__ ("avx2,fma"))) FUN \
 RET __attribute__ ((__target__ ("avx"))) FUN \
 RET __attribute__ ((__target__ ("avx512f"))) FUN
 #else
@@ -63,8 +63,10 @@ namespace {
 }
 
 extern "C" {
-  float myfmaF(float x, float y, float z) { return myfmaCPP(x,y,z);} 
-  double myfmaD(double x, double y, double z) { return myfmaCPP(x,y,z);} 
+  float myfmaF(float x, float y, float z);
+  double myfmaD(double x, double y, double z);
 }
+float myfmaF(float x, float y, float z) { return myfmaCPP(x,y,z);} 
+double myfmaD(double x, double y, double z) { return myfmaCPP(x,y,z);} 
 
 #endif
diff --git a/src/numpy_wrapper_generator.py b/src/numpy_wrapper_generator.py
index c069cff..9ceb2d0 100644
--- a/src/numpy_wrapper_generator.py
+++ b/src/numpy_wrapper_generator.py
@@ -214,7 +214,7 @@ def create_Wrapper_signature(fcn_name,is_double=False,is_vector=False,is_impl=Fa
   if is_impl:
     code += '#define '+fatM + ' fat_'+ sign + get_function_code(vdt_name,is_vector)
     code += '\nnamespace {FATLIB('+ret+','+fatM+')}\n'+\
-            'extern "C"{'+ret + ' ' + sign+'{'+get_return_code(fcn_name,is_double,is_vector)+'}}\n\n'
+            ret + ' ' + sign+'{'+get_return_code(fcn_name,is_double,is_vector)+'}\n\n'
   else:
     code = ret + ' ' + sign +";\n"
   return code
-- 
2.43.0


From b43041d34c1bb3c45ad537312e2f1419b6bac382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:23:59 +0000
Subject: [PATCH 28/34] fix: headers of identity and standard functions cannot
 be included alone

identity.h used uint32_t and stdwrap.h used std::sqrt and std::fma without
including the headers that declare them.
---
 include/identity.h | 2 ++
 include/stdwrap.h  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/identity.h b/include/identity.h
index 88fc726..2587c9d 100644
--- a/include/identity.h
+++ b/include/identity.h
@@ -24,6 +24,8 @@
 #ifndef IDENTITY_H_
 #define IDENTITY_H_
 
+#include "inttypes.h"
+
 namespace vdt{
 
 // Identity double precision ---------------------------------------------------
diff --git a/include/stdwrap.h b/include/stdwrap.h
index fc0c958..1f51c59 100644
--- a/include/stdwrap.h
+++ b/include/stdwrap.h
@@ -1,6 +1,8 @@
 #ifndef _VDT_STD_H_
 #define _VDT_STD_H_
 
+#include <cmath>
+
 // wrapper around std function just to benefit of naming
 // to be used in vectorized wrappers
 
-- 
2.43.0


From deb1064fbb95284386b5db1fba45af64e28d8cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:25:23 +0000
Subject: [PATCH 29/34] fix: diagnostic headers cannot be included twice or in
 several source files

vdtdiag_fcnResponse.h and vdtdiag_simpleCmd.h had no include guards,
vdtdiag_fcnPerformance.h did not include <vector>, and functions that are
not templates were defined without inline, so that a program with two
source files using them did not link.
---
 include/diagnostic/vdtdiag_fcnPerformance.h |  1 +
 include/diagnostic/vdtdiag_fcnResponse.h    |  6 ++-
 include/diagnostic/vdtdiag_fcnTuples.h      | 18 ++++-----
 include/diagnostic/vdtdiag_helper.h         | 42 ++++++++++-----------
 include/diagnostic/vdtdiag_simpleCmd.h      |  5 +++
 5 files changed, 40 insertions(+), 32 deletions(-)

diff --git a/include/diagnostic/vdtdiag_fcnPerformance.h b/include/diagnostic/vdtdiag_fcnPerformance.h
index 2fc7e08..97ed4e5 100644
--- a/include/diagnostic/vdtdiag_fcnPerformance.h
+++ b/include/diagnostic/vdtdiag_fcnPerformance.h
@@ -2,6 +2,7 @@
 #define VDTDIAG_FCNPERFORMANCE_H_
 
 #include <iomanip>
+#include <vector>
 #include "vdtdiag_helper.h"
 
 /**
diff --git a/include/diagnostic/vdtdiag_fcnResponse.h b/include/diagnostic/vdtdiag_fcnResponse.h
index c3d2cf2..8236ed2 100644
--- a/include/diagnostic/vdtdiag_fcnResponse.h
+++ b/include/diagnostic/vdtdiag_fcnResponse.h
@@ -6,6 +6,9 @@
  * 
  **/
 
+#ifndef _VDT_RESPONSE_
+#define _VDT_RESPONSE_
+
 #include "assert.h"
 #include <algorithm>
 #include <limits>
@@ -395,5 +398,4 @@ private:
 template <typename T>
 using fcnResponse = fcnResponse1D<T>;
 
-
-
+#endif
diff --git a/include/diagnostic/vdtdiag_fcnTuples.h b/include/diagnostic/vdtdiag_fcnTuples.h
index b4d7b79..0be2df4 100644
--- a/include/diagnostic/vdtdiag_fcnTuples.h
+++ b/include/diagnostic/vdtdiag_fcnTuples.h
@@ -58,7 +58,7 @@ template<class T> using genfpfcn2Dv_tuple = std::tuple<const std::string,
 																											 const std::vector<T>&>;
 
 /// Fills vector passed in first parameter with fcn tuples based on random pools passed in following parameters
-void getFunctionTuples(	std::vector<genfpfcn2D_tuple<double>>* fcn_tuples,
+inline void getFunctionTuples(	std::vector<genfpfcn2D_tuple<double>>* fcn_tuples,
 			            			randomPool2D<double>& moneone2Pool){
     fcn_tuples->clear();
 
@@ -68,7 +68,7 @@ void getFunctionTuples(	std::vector<genfpfcn2D_tuple<double>>* fcn_tuples,
 
 }
 
-void getFunctionTuples(	std::vector<genfpfcn2D_tuple<float>>* fcn_tuples,
+inline void getFunctionTuples(	std::vector<genfpfcn2D_tuple<float>>* fcn_tuples,
 					            	randomPool2D<float>& moneone2Pool){
     fcn_tuples->clear();
 
@@ -79,7 +79,7 @@ void getFunctionTuples(	std::vector<genfpfcn2D_tuple<float>>* fcn_tuples,
 }
 
 /// Fills vector passed in first parameter with fcn tuples based on random pools passed in following parameters
-void getFunctionTuplesvect(	std::vector<genfpfcn2Dv_tuple<double>>* fcn_tuples,
+inline void getFunctionTuplesvect(	std::vector<genfpfcn2Dv_tuple<double>>* fcn_tuples,
 					             	randomPool2D<double>& moneone2Pool){
     fcn_tuples->clear();
 
@@ -90,7 +90,7 @@ void getFunctionTuplesvect(	std::vector<genfpfcn2Dv_tuple<double>>* fcn_tuples,
 }
 
 /// Fills vector passed in first parameter with fcn tuples based on random pools passed in following parameters
-void getFunctionTuplesvect(	std::vector<genfpfcn2Dv_tuple<float>>* fcn_tuples,
+inline void getFunctionTuplesvect(	std::vector<genfpfcn2Dv_tuple<float>>* fcn_tuples,
 					             	randomPool2D<float>& moneone2Pool){
     fcn_tuples->clear();
 
@@ -101,7 +101,7 @@ void getFunctionTuplesvect(	std::vector<genfpfcn2Dv_tuple<float>>* fcn_tuples,
 }
 
 /// Fills vector passed in first parameter with fcn tuples based on random pools passed in following parameters
-void getFunctionTuples(	std::vector<genfpfcn_tuple<double>>* fcn_tuples,
+inline void getFunctionTuples(	std::vector<genfpfcn_tuple<double>>* fcn_tuples,
 						randomPool<double>& symmetricrPool,
 						randomPool<double>& positiverPool,
 						randomPool<double>& mone2onerPool,
@@ -147,7 +147,7 @@ void getFunctionTuples(	std::vector<genfpfcn_tuple<double>>* fcn_tuples,
 #endif
 }
 
-void getFunctionTuples(	std::vector<genfpfcn_tuple<float>>* fcn_tuples,
+inline void getFunctionTuples(	std::vector<genfpfcn_tuple<float>>* fcn_tuples,
 						randomPool<float>& symmetricrPool,
 						randomPool<float>& positiverPool,
 						randomPool<float>& mone2onerPool,
@@ -194,7 +194,7 @@ void getFunctionTuples(	std::vector<genfpfcn_tuple<float>>* fcn_tuples,
 }
 
 /// Vector form
-void getFunctionTuplesvect(std::vector<genfpfcnv_tuple<double>>* fcn_tuples,
+inline void getFunctionTuplesvect(std::vector<genfpfcnv_tuple<double>>* fcn_tuples,
 						randomPool<double>& symmetricrPool,
 						randomPool<double>& positiverPool,
 						randomPool<double>& mone2onerPool,
@@ -240,7 +240,7 @@ void getFunctionTuplesvect(std::vector<genfpfcnv_tuple<double>>* fcn_tuples,
 #endif
 }
 
-void getFunctionTuplesvect(std::vector<genfpfcnv_tuple<float>>* fcn_tuples,
+inline void getFunctionTuplesvect(std::vector<genfpfcnv_tuple<float>>* fcn_tuples,
 						randomPool<float>& symmetricrPool,
 						randomPool<float>& positiverPool,
 						randomPool<float>& mone2onerPool,
@@ -287,7 +287,7 @@ void getFunctionTuplesvect(std::vector<genfpfcnv_tuple<float>>* fcn_tuples,
 }
 
 /// Helper function retrieves basic function names like Cos, Sin, Exp... (no Fast_, no extensions)
-void getFunctionBasicNames(std::vector<std::string>* names){
+inline void getFunctionBasicNames(std::vector<std::string>* names){
 
 	// Prepare dummy tuple to retrieve function names 
 	std::vector<genfpfcn_tuple<double>> tmpTuples;
diff --git a/include/diagnostic/vdtdiag_helper.h b/include/diagnostic/vdtdiag_helper.h
index d939e20..959f7c3 100644
--- a/include/diagnostic/vdtdiag_helper.h
+++ b/include/diagnostic/vdtdiag_helper.h
@@ -43,26 +43,26 @@
 
 // Wrappers to support macos 10.14 https://github.com/dpiparo/vdt/issues/9
 namespace refMath {
-double atan2(double x, double y) { return ::atan2(x, y); }
-float atan2f(float x, float y) { return ::atan2f(x, y); }
-double tan(double x) { return ::tan(x); }
-float tanf(float x) { return ::tanf(x); }
-double atan(double x) { return ::atan(x); }
-float atanf(float x) { return ::atanf(x); }
-double tanh(double x) { return ::tanh(x); }
-float tanhf(float x) { return ::tanhf(x); }
-double exp(double x) { return ::exp(x); }
-float expf(float x) { return ::expf(x); }
-double log(double x) { return ::log(x); }
-float logf(float x) { return ::logf(x); }
-double sin(double x) { return ::sin(x); }
-float sinf(float x) { return ::sinf(x); }
-double asin(double x) { return ::asin(x); }
-float asinf(float x) { return ::asinf(x); }
-double cos(double x) { return ::cos(x); }
-float cosf(float x) { return ::cosf(x); }
-double acos(double x) { return ::acos(x); }
-float acosf(float x) { return ::acosf(x); }
+inline double atan2(double x, double y) { return ::atan2(x, y); }
+inline float atan2f(float x, float y) { return ::atan2f(x, y); }
+inline double tan(double x) { return ::tan(x); }
+inline float tanf(float x) { return ::tanf(x); }
+inline double atan(double x) { return ::atan(x); }
+inline float atanf(float x) { return ::atanf(x); }
+inline double tanh(double x) { return ::tanh(x); }
+inline float tanhf(float x) { return ::tanhf(x); }
+inline double exp(double x) { return ::exp(x); }
+inline float expf(float x) { return ::expf(x); }
+inline double log(double x) { return ::log(x); }
+inline float logf(float x) { return ::logf(x); }
+inline double sin(double x) { return ::sin(x); }
+inline float sinf(float x) { return ::sinf(x); }
+inline double asin(double x) { return ::asin(x); }
+inline float asinf(float x) { return ::asinf(x); }
+inline double cos(double x) { return ::cos(x); }
+inline float cosf(float x) { return ::cosf(x); }
+inline double acos(double x) { return ::acos(x); }
+inline float acosf(float x) { return ::acosf(x); }
 }
 
 
@@ -188,7 +188,7 @@ uint16_t diffbit(const T a,const T b ){
 //------------------------------------------------------------------------------
 
 ///Check and print which instructions sets are enabled.
-void print_instructions_info(){
+inline void print_instructions_info(){
 
 	std::ostringstream os;
 	os << "List of enabled instructions' sets:\n";
diff --git a/include/diagnostic/vdtdiag_simpleCmd.h b/include/diagnostic/vdtdiag_simpleCmd.h
index ddb3440..050ccda 100644
--- a/include/diagnostic/vdtdiag_simpleCmd.h
+++ b/include/diagnostic/vdtdiag_simpleCmd.h
@@ -21,6 +21,9 @@
  * along with this program.  If not, see <http://www.gnu.org/licenses/>.
  */
 
+#ifndef _VDT_SIMPLE_CMD_
+#define _VDT_SIMPLE_CMD_
+
 #include<iostream>
 #include<tuple>
 #include<vector>
@@ -143,3 +146,5 @@ public:
 	}
 
 };
+
+#endif
-- 
2.43.0


From 8c3b3d708e6aff417029f297aca9833c3aef9e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:19:29 +0000
Subject: [PATCH 30/34] fix: comparison takes every file for atan2 when the
 nickname contains Atan2

---
 progs/vdtArithmComparison.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/progs/vdtArithmComparison.cpp b/progs/vdtArithmComparison.cpp
index c250f2d..5d69682 100644
--- a/progs/vdtArithmComparison.cpp
+++ b/progs/vdtArithmComparison.cpp
@@ -135,7 +135,7 @@ int main(int argc, char **argv){
 		ifile.close();
 
 		//read responses, perform comparison
-		bool is_atan2 = ref[i].find("Atan2") != std::string::npos ? true:false;
+		bool is_atan2 = fcname.find("Atan2") != std::string::npos ? true:false;
 		if(!singlePrec){
 			if (is_atan2){
 				fcnResponse2D<double> rrefDP(ref[i]),rtestDP(test[i]);
-- 
2.43.0


From 1aeee425ac09483a71252c373a28905f4cf1d42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:19:29 +0000
Subject: [PATCH 31/34] fix: histograms of nicknames with regular expression
 characters are missing and copies of files are taken for comparisons

---
 scripts/diffhisto.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/diffhisto.py b/scripts/diffhisto.py
index 74a8058..66860e8 100644
--- a/scripts/diffhisto.py
+++ b/scripts/diffhisto.py
@@ -41,7 +41,7 @@ def getYaxisRange(name):
 #-------------------------------------------------------------------------------      
 
 def getFilenamesFromDir(nick,dirname):
-  return filter (lambda filename: re.match("comparison__" + nick + "__(.*).txt",filename), os.listdir(dirname))
+  return filter (lambda filename: re.match("comparison__" + re.escape(nick) + r"__(.*)\.txt$",filename), os.listdir(dirname))
 
 #-------------------------------------------------------------------------------    
 
@@ -82,7 +82,7 @@ def compare(nick,dirname):
     cmpfile = open(os.path.join(dirname,filename))
     typelength,typelength_s =  getTypeLength(cmpfile)
     
-    m=re.match("comparison__" + nick + "__(.*).txt" ,filename)
+    m=re.match("comparison__" + re.escape(nick) + r"__(.*)\.txt$" ,filename)
     fcn_name=m.group(1)
     
     # read rest of header   
-- 
2.43.0


From 04855351389dab67c2d0bca699e4547c699cfd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:23:15 +0000
Subject: [PATCH 32/34] fix: table script fails on performance files without
 identity functions

---
 scripts/tabulateVDTResults.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/tabulateVDTResults.py b/scripts/tabulateVDTResults.py
index ffdc83c..9f2f8e2 100755
--- a/scripts/tabulateVDTResults.py
+++ b/scripts/tabulateVDTResults.py
@@ -23,7 +23,9 @@ def normaliseTimings(timings):
    Normalise the timings according to the Identity funcitons
    """
    newTimings=[]
-   offset=-1
+   # without an Identity function nothing is subtracted
+   offset=0.
+   offsetErr=0.
    for name, time, err in timings:
       if "Identity" in name:
          offset=time
-- 
2.43.0


From 63a76f9e143453048be9550d155c8b031f06cbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:23:15 +0000
Subject: [PATCH 33/34] fix: table script mixes up functions when the
 performance files list different ones

---
 scripts/tabulateVDTResults.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/scripts/tabulateVDTResults.py b/scripts/tabulateVDTResults.py
index 9f2f8e2..09dfa58 100755
--- a/scripts/tabulateVDTResults.py
+++ b/scripts/tabulateVDTResults.py
@@ -60,14 +60,17 @@ def createSummaryTable(TitledTimingsList):
    for title,timings in TitledTimingsList:
       print("%20s" %title, end=" ")
    print()
+   timingsDicts=[timings2TimingsDict(timings) for title,timings in TitledTimingsList]
    for i in range(nlines):
-      print("%16s" %firstTimings[i][0], end=" ")
+      funcName=firstTimings[i][0]
+      # the files can list different functions, show those that all of them have
+      if any(funcName not in timingsDict for timingsDict in timingsDicts): continue
+      print("%16s" %funcName, end=" ")
       first=True
       norm=1.
       speedupString=""
-      for title,timings in TitledTimingsList:
-         time = timings[i][1]
-         err = timings[i][2]
+      for timingsDict in timingsDicts:
+         time,err = timingsDict[funcName]
          if first:
             norm=time
          else:
@@ -99,7 +102,7 @@ def createVectTable(TitledTimingsList):
    TitledTimingsList = [TitledTimingsList[0]]+TitledTimingsList
    
    firstTimings =TitledTimingsList[0][1]
-   firstDict = timings2TimingsDict(firstTimings)
+   timingsDicts=[timings2TimingsDict(timings) for title,timings in TitledTimingsList]
    nlines=len(firstTimings)
    print("   Function Name", end=" ")
    vectSuffix=""
@@ -110,7 +113,8 @@ def createVectTable(TitledTimingsList):
    for i in range(nlines):
       funcName=firstTimings[i][0]
       # names of scalar functions can end with a v as well (e.g. Fast_Inv)
-      if funcName+"v" not in firstDict:continue
+      # the files can list different functions, show those that all of them have
+      if any(funcName+"v" not in timingsDict for timingsDict in timingsDicts): continue
       
       print("%16s" %funcName, end=" ")
       first=True
@@ -156,6 +160,7 @@ def createLibmVdtTable(TitledTimings):
       if "Inverse" in vdtName:
          vdtName= vdtName.replace("Inverse","Inv")
       
+      if vdtName not in timingsDict: continue
       vdtTime = timingsDict[vdtName][0]
       vdtErr = timingsDict[vdtName][1]
       dividend=vdtTime
-- 
2.43.0


From 540d31ad1b49b3d24e06a86659f4d561bd5c3ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:58:18 +0000
Subject: [PATCH 34/34] fix: module vdt cannot be imported since Python 3.12

---
 src/vdt.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vdt.py b/src/vdt.py
index 58549a8..004e95e 100644
--- a/src/vdt.py
+++ b/src/vdt.py
@@ -1,6 +1,12 @@
 import os
-import imp
-vdtnpfun= imp.load_dynamic('vdtnpfun','vdtnpfun_directory/vdtnpfun.so')
+import sys
+from importlib.machinery import ExtensionFileLoader
+from importlib.util import module_from_spec, spec_from_loader
+# like imp.load_dynamic, which Python 3.12 no longer has
+_loader = ExtensionFileLoader('vdtnpfun','vdtnpfun_directory/vdtnpfun.so')
+vdtnpfun = module_from_spec(spec_from_loader('vdtnpfun',_loader))
+_loader.exec_module(vdtnpfun)
+sys.modules['vdtnpfun'] = vdtnpfun
 from vdtnpfun import *
 import numpy
 from ctypes import c_char_p
-- 
2.43.0

