From c92c35ca3216c2d37594dfd13cd7b0a1c3677e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:17 +0000
Subject: [PATCH 01/23] fix: ecdf1_new aborts (assertion) for a sample of size
 1

---
 src/ecdf1_new.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecdf1_new.cc b/src/ecdf1_new.cc
index b87b17f..b4b8ae3 100644
--- a/src/ecdf1_new.cc
+++ b/src/ecdf1_new.cc
@@ -121,6 +121,7 @@ double ecdf1_new_B(const vector<double>& B)
     // Setting k=c*sqrt(n) and minimizing the asymptotic runtime, we obtain k=sqrt(2*n),
     // however, empirically slightly lower numbers give better results.
     int k = sqrt(n) + 1; // The +1 is to prevent it from being zero for small array sizes.
+    k = min(k, n); // For n=1, sqrt(n)+1 is larger than the number of steps.
 
 
     vector<double> poisson_nocross_probabilities = poisson_B_noncrossing_probability_n2(n, n, B, k);
-- 
2.43.0


From d6fb845d816960151d1760dcf7014ee827006104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 02/23] fix: ecdf1_new reads out of bounds for an empty sample

---
 src/ecdf1_new.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ecdf1_new.cc b/src/ecdf1_new.cc
index b4b8ae3..b77cc26 100644
--- a/src/ecdf1_new.cc
+++ b/src/ecdf1_new.cc
@@ -117,6 +117,10 @@ double ecdf1_new_B(const vector<double>& B)
     int n = B.size();
     check_boundary_vector("B", n, B);
 
+    if (n == 0) {
+        return 1.0; // An empty sample cannot cross any boundary.
+    }
+
     // Asymptotically any k in the range [logn, n/logn] should give optimal results as n goes to infinity.
     // Setting k=c*sqrt(n) and minimizing the asymptotic runtime, we obtain k=sqrt(2*n),
     // however, empirically slightly lower numbers give better results.
-- 
2.43.0


From 1b32c70f7d1da8d059b1b6c2d2e9d4912aa518d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 03/23] fix: ecdf2 aborts (assertion) when the lower bounds
 exceed the upper bounds

---
 src/ecdf2.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ecdf2.cc b/src/ecdf2.cc
index 9cf2dd7..04ea729 100644
--- a/src/ecdf2.cc
+++ b/src/ecdf2.cc
@@ -121,6 +121,12 @@ double ecdf2(const vector<double>& b, const vector<double>& B, bool use_fft)
     check_boundary_vector("b", n, b);
     check_boundary_vector("B", n, B);
 
+    for (int i = 0; i < n; ++i) {
+        if (b[i] > B[i]) {
+            return 0.0; // No X_(i) can satisfy b_i <= X_(i) <= B_i.
+        }
+    }
+
     vector<double> poisson_nocross_probs = poisson_process_noncrossing_probability(n, n, b, B, use_fft);
 
     return poisson_nocross_probs[n] / poisson_pmf(n, n);
-- 
2.43.0


From 81e320f285682cbd66936ed804c67d3120e4d05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 04/23] fix: ecdf1_mns2016 returns NaN when the non-crossing
 probability is zero

---
 src/ecdf1_mns2016.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecdf1_mns2016.cc b/src/ecdf1_mns2016.cc
index 6d858b6..4e4c169 100644
--- a/src/ecdf1_mns2016.cc
+++ b/src/ecdf1_mns2016.cc
@@ -228,6 +228,9 @@ double ecdf1_mns2016_b(const vector<double>& b)
     //FLOAT max_coef = maximum_multiplicative_coefficient(p);
     //FLOAT min_coef = minimum_multiplicative_coefficient(p);
     FLOAT integral_result = p.evaluate(1);
+    if (integral_result <= 0) {
+        return 0.0; // The probability is zero, or too small for the polynomial arithmetic. Its logarithm is undefined.
+    }
     FLOAT log_integral_result = LOG(integral_result);
     FLOAT noncrossing_probability = EXP(LOG_GAMMA(n+1) + log_integral_result - total_exponent_delta*LOG(2));
     // cout << p << endl;
-- 
2.43.0


From 5ce1708ee8f25972a2d994d7411a7142ac2944c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 05/23] fix: NaN boundary values are accepted as valid bounds

---
 src/common.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/common.cc b/src/common.cc
index 4519e10..f1eaeeb 100644
--- a/src/common.cc
+++ b/src/common.cc
@@ -1,5 +1,7 @@
 #include "common.hh"
 
+#include <cstdint>
+#include <cstring>
 #include <stdexcept>
 #include <sstream>
 
@@ -18,6 +20,14 @@ static bool is_monotone_increasing(const vector<double>& v)
     return true;
 }
 
+// Inspects the bits because -ffast-math lets the compiler assume that x != x is always false.
+static bool is_nan(double x)
+{
+    uint64_t bits;
+    memcpy(&bits, &x, sizeof(bits));
+    return (bits & UINT64_C(0x7fffffffffffffff)) > UINT64_C(0x7ff0000000000000);
+}
+
 void check_boundary_vector(string name, int n, const vector<double>& v)
 {
     if ((int)v.size() != n) {
@@ -26,6 +36,14 @@ void check_boundary_vector(string name, int n, const vector<double>& v)
         throw runtime_error(ss.str());
     }
 
+    for (int i = 0; i < n; ++i) {
+        if (is_nan(v[i])) {
+            stringstream ss;
+            ss << name << "_1,...," << name << "_" << n << " must not contain NaN.";
+            throw runtime_error(ss.str());
+        }
+    }
+
     if (!is_monotone_increasing(v)) {
         stringstream ss;
         ss << name << "_1,...," << name << "_" << n << " must be monotone non-decreasing.";
-- 
2.43.0


From 05d70b275d3ca3c58f2a144ab4ccc5b8f4c06b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 06/23] fix: numbers followed by garbage in a boundaries file
 are silently truncated

---
 src/string_utils.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/string_utils.cc b/src/string_utils.cc
index be9340c..cf927f7 100644
--- a/src/string_utils.cc
+++ b/src/string_utils.cc
@@ -1,6 +1,7 @@
 #include <vector>
 #include <algorithm>
 #include <stdexcept>
+#include <cctype>
 #include <cstdlib>
 #include <cerrno>
 #include <cstring>
@@ -50,9 +51,13 @@ double string_to_double(const string& s)
         throw runtime_error(string("Error converting string to double '") + s + "'\n" + strerror(errno));
     }
 
-    //if (*endptr != '\0') {
-    //    throw runtime_error(string("Trailing characters during conversion of string to double:") + s + "\n");
-    //}
+    // Trailing whitespace is fine, e.g. the carriage return of a DOS-style line ending.
+    while (isspace(static_cast<unsigned char>(*endptr))) {
+        ++endptr;
+    }
+    if (endptr != p + s.size()) {
+        throw runtime_error(string("Trailing characters during conversion of string to double '") + s + "'");
+    }
 
     return value;
 }
-- 
2.43.0


From cd2aef77c2f09c35a400340419743846e5ae28d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 07/23] fix: FFTWConvolver accepts inputs larger than its
 buffers

---
 src/fftwconvolver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fftwconvolver.cc b/src/fftwconvolver.cc
index 4b98a62..c7f5e03 100644
--- a/src/fftwconvolver.cc
+++ b/src/fftwconvolver.cc
@@ -26,7 +26,7 @@ int round_up(int n, int rounding)
 }
 
 FFTWConvolver::FFTWConvolver(int maximum_input_size) :
-    maximum_input_size(maximum_input_size+ROUNDING-1),
+    maximum_input_size(maximum_input_size),
     r2c_plans(round_up(2*maximum_input_size, ROUNDING)/ROUNDING, NULL),
     c2r_plans(round_up(2*maximum_input_size, ROUNDING)/ROUNDING, NULL)
 {
-- 
2.43.0


From 0fab59791038682e0315d8afd262786b19398df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 08/23] fix: crossprob_mc runs its random number generator with
 uninitialized parameters

---
 src/crossprob_mc.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index c515271..22dc32e 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -17,6 +17,10 @@ class RandomNumberGenerator {
 public:
     RandomNumberGenerator(uint64_t seed) {
         // cout << "Random seed: " << seed << endl;
+        // Parameters of the reference TinyMT64 generator. They must be set before calling tinymt64_init().
+        random_state.mat1 = 0xfa051f40;
+        random_state.mat2 = 0xffd0fff4;
+        random_state.tmat = UINT64_C(0x58d02ffeffbfffbc);
         tinymt64_init(&random_state, seed);
     }
     double generate_uniform01()
-- 
2.43.0


From f25170313f1178c42e7e8d3429eb2d5640ce9765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 09/23] fix: crossprob_mc may take the logarithm of zero

---
 src/crossprob_mc.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index 22dc32e..16ac4c4 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -12,7 +12,7 @@
 
 using namespace std;
 
-// Random number generator for uniform samples in the range [0,1]
+// Random number generator for uniform samples in the open interval (0,1)
 class RandomNumberGenerator {
 public:
     RandomNumberGenerator(uint64_t seed) {
@@ -25,7 +25,7 @@ public:
     }
     double generate_uniform01()
     {
-        return tinymt64_generate_double01(&random_state); 
+        return tinymt64_generate_doubleOO(&random_state); 
     }
     double generate_exponential(double beta)
     {
-- 
2.43.0


From 5733ca173993b6acbbdea6d6368c2b6a9a9a6bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 10/23] fix: crossprob_mc poisson always reports a crossing
 when there is no upper boundary

---
 src/crossprob_mc.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index 16ac4c4..ee39f20 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -125,7 +125,8 @@ static double ecdf_crossing_probability_montecarlo(long n, const vector<double>&
 
 static bool does_random_poisson_process_cross(const vector<double>& b, const vector<double>& B, ExponentialRNG& exprng, vector<double>& tmp_buffer)
 {
-    size_t max_steps = b.size();
+    // When there is no upper boundary (empty b), only the first B.size() steps matter.
+    size_t max_steps = b.empty() ? B.size() : b.size();
     assert(tmp_buffer.size() >= max_steps);
 
     size_t num_steps = 0;
@@ -136,6 +137,9 @@ static bool does_random_poisson_process_cross(const vector<double>& b, const vec
             return does_integer_step_function_cross(&tmp_buffer[0], num_steps, b, B);
         }
         if (num_steps >= max_steps) {
+            if (b.empty()) {
+                return does_integer_step_function_cross(&tmp_buffer[0], num_steps, b, B);
+            }
             return true;
         }
         tmp_buffer[num_steps] = last_x;
@@ -151,7 +155,7 @@ static double poisson_process_crossing_probability_montecarlo(double intensity,
 
     ExponentialRNG exprng(time(NULL) + (int)(intensity*1000000.0), 1.0/intensity);
 
-    vector<double> buffer(b.size() + 1);
+    vector<double> buffer(max(b.size(), B.size()) + 1);
     int count_crossings = 0;
     for (int reps = 0; reps < num_simulations; ++reps) {
         count_crossings += does_random_poisson_process_cross(b, B, exprng, buffer);
-- 
2.43.0


From e9ea6d2b0fa8ad6bc82da7c6f0d5b5f69916c73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 11/23] fix: crossprob_mc prints NaN for zero simulations

---
 src/crossprob_mc.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index ee39f20..02c87ff 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -208,9 +208,9 @@ static int handle_command_line_arguments(int argc, char* argv[])
 
     string filename = string(argv[2]);
     long num_simulations = string_to_long(argv[3]);
-    if (num_simulations < 0) {
+    if (num_simulations <= 0) {
         print_usage();
-        throw runtime_error("num-simulations must be non-negative!");
+        throw runtime_error("num-simulations must be positive!");
     }
 
     pair<vector<double>, vector<double> > bounds = read_and_check_boundaries_file(filename);
-- 
2.43.0


From f433c2cdd70b0349f97896b2b76a72d138d4ad5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 12/23] fix: crossprob_mc never terminates for more than
 INT_MAX simulations

---
 src/crossprob_mc.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index 02c87ff..2ff5fb8 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -115,8 +115,8 @@ static double ecdf_crossing_probability_montecarlo(long n, const vector<double>&
     RandomNumberGenerator rng(time(NULL) + (n<<20));
 
     vector<double> tmp_buffer(n);
-    int count_crossings = 0;
-    for (int reps = 0; reps < num_simulations; ++reps) {
+    long count_crossings = 0;
+    for (long reps = 0; reps < num_simulations; ++reps) {
         count_crossings += does_random_ecdf_cross(b, B, rng, tmp_buffer);
     }
 
@@ -156,8 +156,8 @@ static double poisson_process_crossing_probability_montecarlo(double intensity,
     ExponentialRNG exprng(time(NULL) + (int)(intensity*1000000.0), 1.0/intensity);
 
     vector<double> buffer(max(b.size(), B.size()) + 1);
-    int count_crossings = 0;
-    for (int reps = 0; reps < num_simulations; ++reps) {
+    long count_crossings = 0;
+    for (long reps = 0; reps < num_simulations; ++reps) {
         count_crossings += does_random_poisson_process_cross(b, B, exprng, buffer);
     }
 
-- 
2.43.0


From 4f7d53db2563bded7769431d362ab4cc43f7216a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 13/23] fix: crossprob and crossprob_mc report success when the
 result could not be written

---
 src/crossprob.cc    | 3 +++
 src/crossprob_mc.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/crossprob.cc b/src/crossprob.cc
index 10b279c..3a93402 100644
--- a/src/crossprob.cc
+++ b/src/crossprob.cc
@@ -169,6 +169,9 @@ static int handle_command_line_arguments(int argc, char* argv[])
     }
 
     cout << result << endl;
+    if (!cout) {
+        throw runtime_error("Error writing the result to the standard output.");
+    }
 
     return 0;
 }
diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index 2ff5fb8..45b78a2 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -230,6 +230,9 @@ static int handle_command_line_arguments(int argc, char* argv[])
         print_usage();
         throw runtime_error("Second command line argument must be 'ecdf' or 'poisson'");
     }
+    if (!cout) {
+        throw runtime_error("Error writing the result to the standard output.");
+    }
 
     return 0;
 }
-- 
2.43.0


From 2c3436ec80221b49736cf09710546debb41dd3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:26 +0000
Subject: [PATCH 14/23] fix: crossprob_mc poisson seed overflows int for
 intensities above 2147

Converting intensity*1e6 to int is undefined behaviour for larger values, and
on x86 gives every such intensity the same seed offset.
---
 src/crossprob_mc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index 45b78a2..27ec5ff 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -153,7 +153,7 @@ static double poisson_process_crossing_probability_montecarlo(double intensity,
         return 1.0;
     }
 
-    ExponentialRNG exprng(time(NULL) + (int)(intensity*1000000.0), 1.0/intensity);
+    ExponentialRNG exprng(time(NULL) + (int64_t)(intensity*1000000.0), 1.0/intensity);
 
     vector<double> buffer(max(b.size(), B.size()) + 1);
     long count_crossings = 0;
-- 
2.43.0


From 1cc64f6f631a6b7b828343160af39ca961d51cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:09 +0000
Subject: [PATCH 15/23] fix: Python wrapper crashes when a sequence argument
 raises from __len__ or __getitem__

The conversion of Python sequences dereferenced the NULL returned by
PySequence_GetItem(), and took the -1 of PySequence_Size() as a length.
---
 python_extension/crossprob.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python_extension/crossprob.cc b/python_extension/crossprob.cc
index 4bb2635..9443591 100644
--- a/python_extension/crossprob.cc
+++ b/python_extension/crossprob.cc
@@ -4185,6 +4185,9 @@ namespace swig
     operator T () const
     {
       swig::SwigVar_PyObject item = PySequence_GetItem(_seq, _index);
+      if (!item) {
+	throw std::invalid_argument("error reading sequence element");
+      }
       try {
 	return swig::as<T>(item);
       } catch (const std::invalid_argument& e) {
@@ -4344,7 +4347,11 @@ namespace swig
 
     size_type size() const
     {
-      return static_cast<size_type>(PySequence_Size(_seq));
+      Py_ssize_t s = PySequence_Size(_seq);
+      if (s < 0) {
+	throw std::invalid_argument("error reading sequence length");
+      }
+      return static_cast<size_type>(s);
     }
 
     bool empty() const
-- 
2.43.0


From 0b0dfece88935665aefe1084527652b5541cff0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:21 +0000
Subject: [PATCH 16/23] fix: Python wrapper leaks the converted vector when a
 sequence element is not a number

---
 python_extension/crossprob.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python_extension/crossprob.cc b/python_extension/crossprob.cc
index 9443591..6df8f95 100644
--- a/python_extension/crossprob.cc
+++ b/python_extension/crossprob.cc
@@ -4460,7 +4460,12 @@ namespace swig {
 	  SwigPySequence_Cont<value_type> swigpyseq(obj);
 	  if (seq) {
 	    sequence *pseq = new sequence();
-	    assign(swigpyseq, pseq);
+	    try {
+	      assign(swigpyseq, pseq);
+	    } catch (...) {
+	      delete pseq;
+	      throw;
+	    }
 	    *seq = pseq;
 	    return SWIG_NEWOBJ;
 	  } else {
-- 
2.43.0


From 2cff9f1d12526dff9f2635853f95329e47466e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 17/23] fix: slicing a Python vector from its end returns the
 whole vector

v[len(v):] (and any start beyond the end) returned all elements instead of an
empty vector.
---
 python_extension/crossprob.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python_extension/crossprob.cc b/python_extension/crossprob.cc
index 6df8f95..f9dc2fe 100644
--- a/python_extension/crossprob.cc
+++ b/python_extension/crossprob.cc
@@ -3763,7 +3763,7 @@ namespace swig {
     typename Sequence::size_type size = self->size();
     Difference ii = 0;
     Difference jj = 0;
-    swig::slice_adjust(i, j, step, size, ii, jj);
+    swig::slice_adjust(i, j, step, size, ii, jj, true);
 
     if (step > 0) {
       typename Sequence::const_iterator sb = self->begin();
-- 
2.43.0


From 1b6e00c6f8ac889e0a81ddba8fc5f0fd5deecd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 18/23] fix: Python vector aborts the interpreter when asked
 for too many elements

The constructors, resize, assign, insert and reserve let std::length_error and
std::bad_alloc escape from the wrapper. They now raise MemoryError.
---
 python_extension/crossprob.cc | 42 +++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/python_extension/crossprob.cc b/python_extension/crossprob.cc
index f9dc2fe..df221dd 100644
--- a/python_extension/crossprob.cc
+++ b/python_extension/crossprob.cc
@@ -6626,7 +6626,11 @@ SWIGINTERN PyObject *_wrap_new_VectorDouble__SWIG_2(PyObject *SWIGUNUSEDPARM(sel
     SWIG_exception_fail(SWIG_ArgError(ecode1), "in method '" "new_VectorDouble" "', argument " "1"" of type '" "std::vector< double >::size_type""'");
   } 
   arg1 = static_cast< std::vector< double >::size_type >(val1);
-  result = (std::vector< double > *)new std::vector< double >(arg1);
+  try {
+    result = (std::vector< double > *)new std::vector< double >(arg1);
+  } catch (std::exception &e) {
+    SWIG_exception_fail(SWIG_MemoryError, e.what());
+  }
   resultobj = SWIG_NewPointerObj(SWIG_as_voidptr(result), SWIGTYPE_p_std__vectorT_double_std__allocatorT_double_t_t, SWIG_POINTER_NEW |  0 );
   return resultobj;
 fail:
@@ -6676,7 +6680,11 @@ SWIGINTERN PyObject *_wrap_VectorDouble_resize__SWIG_0(PyObject *SWIGUNUSEDPARM(
     SWIG_exception_fail(SWIG_ArgError(ecode2), "in method '" "VectorDouble_resize" "', argument " "2"" of type '" "std::vector< double >::size_type""'");
   } 
   arg2 = static_cast< std::vector< double >::size_type >(val2);
-  (arg1)->resize(arg2);
+  try {
+    (arg1)->resize(arg2);
+  } catch (std::exception &e) {
+    SWIG_exception_fail(SWIG_MemoryError, e.what());
+  }
   resultobj = SWIG_Py_Void();
   return resultobj;
 fail:
@@ -6842,7 +6850,11 @@ SWIGINTERN PyObject *_wrap_new_VectorDouble__SWIG_3(PyObject *SWIGUNUSEDPARM(sel
   } 
   temp2 = static_cast< std::vector< double >::value_type >(val2);
   arg2 = &temp2;
-  result = (std::vector< double > *)new std::vector< double >(arg1,(std::vector< double >::value_type const &)*arg2);
+  try {
+    result = (std::vector< double > *)new std::vector< double >(arg1,(std::vector< double >::value_type const &)*arg2);
+  } catch (std::exception &e) {
+    SWIG_exception_fail(SWIG_MemoryError, e.what());
+  }
   resultobj = SWIG_NewPointerObj(SWIG_as_voidptr(result), SWIGTYPE_p_std__vectorT_double_std__allocatorT_double_t_t, SWIG_POINTER_NEW |  0 );
   return resultobj;
 fail:
@@ -7017,7 +7029,11 @@ SWIGINTERN PyObject *_wrap_VectorDouble_assign(PyObject *SWIGUNUSEDPARM(self), P
   } 
   temp3 = static_cast< std::vector< double >::value_type >(val3);
   arg3 = &temp3;
-  (arg1)->assign(arg2,(std::vector< double >::value_type const &)*arg3);
+  try {
+    (arg1)->assign(arg2,(std::vector< double >::value_type const &)*arg3);
+  } catch (std::exception &e) {
+    SWIG_exception_fail(SWIG_MemoryError, e.what());
+  }
   resultobj = SWIG_Py_Void();
   return resultobj;
 fail:
@@ -7055,7 +7071,11 @@ SWIGINTERN PyObject *_wrap_VectorDouble_resize__SWIG_1(PyObject *SWIGUNUSEDPARM(
   } 
   temp3 = static_cast< std::vector< double >::value_type >(val3);
   arg3 = &temp3;
-  (arg1)->resize(arg2,(std::vector< double >::value_type const &)*arg3);
+  try {
+    (arg1)->resize(arg2,(std::vector< double >::value_type const &)*arg3);
+  } catch (std::exception &e) {
+    SWIG_exception_fail(SWIG_MemoryError, e.what());
+  }
   resultobj = SWIG_Py_Void();
   return resultobj;
 fail:
@@ -7205,7 +7225,11 @@ SWIGINTERN PyObject *_wrap_VectorDouble_insert__SWIG_1(PyObject *SWIGUNUSEDPARM(
   } 
   temp4 = static_cast< std::vector< double >::value_type >(val4);
   arg4 = &temp4;
-  std_vector_Sl_double_Sg__insert__SWIG_1(arg1,arg2,arg3,(double const &)*arg4);
+  try {
+    std_vector_Sl_double_Sg__insert__SWIG_1(arg1,arg2,arg3,(double const &)*arg4);
+  } catch (std::exception &e) {
+    SWIG_exception_fail(SWIG_MemoryError, e.what());
+  }
   resultobj = SWIG_Py_Void();
   return resultobj;
 fail:
@@ -7296,7 +7320,11 @@ SWIGINTERN PyObject *_wrap_VectorDouble_reserve(PyObject *SWIGUNUSEDPARM(self),
     SWIG_exception_fail(SWIG_ArgError(ecode2), "in method '" "VectorDouble_reserve" "', argument " "2"" of type '" "std::vector< double >::size_type""'");
   } 
   arg2 = static_cast< std::vector< double >::size_type >(val2);
-  (arg1)->reserve(arg2);
+  try {
+    (arg1)->reserve(arg2);
+  } catch (std::exception &e) {
+    SWIG_exception_fail(SWIG_MemoryError, e.what());
+  }
   resultobj = SWIG_Py_Void();
   return resultobj;
 fail:
-- 
2.43.0


From 04ff3f3a95595f80e98285288b7ea00221927ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 19/23] fix: front, back and pop_back of an empty Python vector
 access invalid memory

They now raise IndexError like pop().
---
 python_extension/crossprob.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python_extension/crossprob.cc b/python_extension/crossprob.cc
index df221dd..92726fc 100644
--- a/python_extension/crossprob.cc
+++ b/python_extension/crossprob.cc
@@ -6652,6 +6652,9 @@ SWIGINTERN PyObject *_wrap_VectorDouble_pop_back(PyObject *SWIGUNUSEDPARM(self),
     SWIG_exception_fail(SWIG_ArgError(res1), "in method '" "VectorDouble_pop_back" "', argument " "1"" of type '" "std::vector< double > *""'"); 
   }
   arg1 = reinterpret_cast< std::vector< double > * >(argp1);
+  if ((arg1)->empty()) {
+    SWIG_exception_fail(SWIG_IndexError, "pop_back from empty container");
+  }
   (arg1)->pop_back();
   resultobj = SWIG_Py_Void();
   return resultobj;
@@ -6965,6 +6968,9 @@ SWIGINTERN PyObject *_wrap_VectorDouble_front(PyObject *SWIGUNUSEDPARM(self), Py
     SWIG_exception_fail(SWIG_ArgError(res1), "in method '" "VectorDouble_front" "', argument " "1"" of type '" "std::vector< double > const *""'"); 
   }
   arg1 = reinterpret_cast< std::vector< double > * >(argp1);
+  if ((arg1)->empty()) {
+    SWIG_exception_fail(SWIG_IndexError, "front from empty container");
+  }
   result = (std::vector< double >::value_type *) &((std::vector< double > const *)arg1)->front();
   resultobj = SWIG_From_double(static_cast< double >(*result));
   (void)swig::container_owner<swig::traits<std::vector< double >::value_type>::category>::back_reference(resultobj, swig_obj[0]);
@@ -6989,6 +6995,9 @@ SWIGINTERN PyObject *_wrap_VectorDouble_back(PyObject *SWIGUNUSEDPARM(self), PyO
     SWIG_exception_fail(SWIG_ArgError(res1), "in method '" "VectorDouble_back" "', argument " "1"" of type '" "std::vector< double > const *""'"); 
   }
   arg1 = reinterpret_cast< std::vector< double > * >(argp1);
+  if ((arg1)->empty()) {
+    SWIG_exception_fail(SWIG_IndexError, "back from empty container");
+  }
   result = (std::vector< double >::value_type *) &((std::vector< double > const *)arg1)->back();
   resultobj = SWIG_From_double(static_cast< double >(*result));
   (void)swig::container_owner<swig::traits<std::vector< double >::value_type>::category>::back_reference(resultobj, swig_obj[0]);
-- 
2.43.0


From e833ed143efda669b2ed6399dec525ea17358153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 20/23] fix: assign a Python vector to a slice of itself
 correctly

---
 python_extension/crossprob.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python_extension/crossprob.cc b/python_extension/crossprob.cc
index 92726fc..2f7ba80 100644
--- a/python_extension/crossprob.cc
+++ b/python_extension/crossprob.cc
@@ -3803,6 +3803,12 @@ namespace swig {
   template <class Sequence, class Difference, class InputSeq>
   inline void
   setslice(Sequence* self, Difference i, Difference j, Py_ssize_t step, const InputSeq& is = InputSeq()) {
+    if (static_cast<const void*>(&is) == static_cast<const void*>(self)) {
+      // Assigning a sequence to a slice of itself: the input must not change while it is copied.
+      const InputSeq input(is);
+      setslice(self, i, j, step, input);
+      return;
+    }
     typename Sequence::size_type size = self->size();
     Difference ii = 0;
     Difference jj = 0;
-- 
2.43.0


From 0f42d28bdaa4788f0444f45e783c3e2a30a31d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:07 +0000
Subject: [PATCH 21/23] fix: copies of Python vector iterators can move
 backwards, so it - n works

---
 python_extension/crossprob.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/python_extension/crossprob.cc b/python_extension/crossprob.cc
index 2f7ba80..bcc5cc0 100644
--- a/python_extension/crossprob.cc
+++ b/python_extension/crossprob.cc
@@ -4059,6 +4059,11 @@ namespace swig {
     {
     }
 
+    SwigPyIterator *copy() const
+    {
+      return new self_type(*this);
+    }
+
     SwigPyIterator *decr(size_t n = 1)
     {
       while (n--) {
@@ -4133,6 +4138,11 @@ namespace swig {
     {
     }
 
+    SwigPyIterator *copy() const
+    {
+      return new self_type(*this);
+    }
+
     SwigPyIterator *decr(size_t n = 1)
     {
       while (n--) {
-- 
2.43.0


From 971d0e3e947d76e302d26ec83eef5a6049b68c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:36 +0000
Subject: [PATCH 22/23] fix: comparing or subtracting Python vector iterators
 of different kinds no longer aborts

---
 python_extension/crossprob.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/python_extension/crossprob.cc b/python_extension/crossprob.cc
index bcc5cc0..b4e739e 100644
--- a/python_extension/crossprob.cc
+++ b/python_extension/crossprob.cc
@@ -5268,7 +5268,11 @@ SWIGINTERN PyObject *_wrap_SwigPyIterator___eq__(PyObject *SWIGUNUSEDPARM(self),
     SWIG_exception_fail(SWIG_ValueError, "invalid null reference " "in method '" "SwigPyIterator___eq__" "', argument " "2"" of type '" "swig::SwigPyIterator const &""'"); 
   }
   arg2 = reinterpret_cast< swig::SwigPyIterator * >(argp2);
-  result = (bool)((swig::SwigPyIterator const *)arg1)->operator ==((swig::SwigPyIterator const &)*arg2);
+  try {
+    result = (bool)((swig::SwigPyIterator const *)arg1)->operator ==((swig::SwigPyIterator const &)*arg2);
+  } catch(std::invalid_argument &) {
+    SWIG_fail;
+  }
   resultobj = SWIG_From_bool(static_cast< bool >(result));
   return resultobj;
 fail:
@@ -5303,7 +5307,11 @@ SWIGINTERN PyObject *_wrap_SwigPyIterator___ne__(PyObject *SWIGUNUSEDPARM(self),
     SWIG_exception_fail(SWIG_ValueError, "invalid null reference " "in method '" "SwigPyIterator___ne__" "', argument " "2"" of type '" "swig::SwigPyIterator const &""'"); 
   }
   arg2 = reinterpret_cast< swig::SwigPyIterator * >(argp2);
-  result = (bool)((swig::SwigPyIterator const *)arg1)->operator !=((swig::SwigPyIterator const &)*arg2);
+  try {
+    result = (bool)((swig::SwigPyIterator const *)arg1)->operator !=((swig::SwigPyIterator const &)*arg2);
+  } catch(std::invalid_argument &) {
+    SWIG_fail;
+  }
   resultobj = SWIG_From_bool(static_cast< bool >(result));
   return resultobj;
 fail:
@@ -5492,7 +5500,11 @@ SWIGINTERN PyObject *_wrap_SwigPyIterator___sub____SWIG_1(PyObject *SWIGUNUSEDPA
     SWIG_exception_fail(SWIG_ValueError, "invalid null reference " "in method '" "SwigPyIterator___sub__" "', argument " "2"" of type '" "swig::SwigPyIterator const &""'"); 
   }
   arg2 = reinterpret_cast< swig::SwigPyIterator * >(argp2);
-  result = ((swig::SwigPyIterator const *)arg1)->operator -((swig::SwigPyIterator const &)*arg2);
+  try {
+    result = ((swig::SwigPyIterator const *)arg1)->operator -((swig::SwigPyIterator const &)*arg2);
+  } catch(std::invalid_argument &) {
+    SWIG_fail;
+  }
   resultobj = SWIG_From_ptrdiff_t(static_cast< ptrdiff_t >(result));
   return resultobj;
 fail:
-- 
2.43.0


From 26e0ce48a8f32e0be9f89a74e8307720f6e3f1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:37 +0000
Subject: [PATCH 23/23] fix: moving a Python vector iterator past the end
 leaked a copy of it

---
 python_extension/crossprob.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/python_extension/crossprob.cc b/python_extension/crossprob.cc
index b4e739e..1ccfe41 100644
--- a/python_extension/crossprob.cc
+++ b/python_extension/crossprob.cc
@@ -2926,12 +2926,24 @@ namespace swig {
       
     SwigPyIterator* operator + (ptrdiff_t n) const
     {
-      return copy()->advance(n);
+      SwigPyIterator *moved = copy();
+      try {
+	return moved->advance(n);
+      } catch (...) {
+	delete moved;
+	throw;
+      }
     }
 
     SwigPyIterator* operator - (ptrdiff_t n) const
     {
-      return copy()->advance(-n);
+      SwigPyIterator *moved = copy();
+      try {
+	return moved->advance(-n);
+      } catch (...) {
+	delete moved;
+	throw;
+      }
     }
       
     ptrdiff_t operator - (const SwigPyIterator& x) const
-- 
2.43.0

