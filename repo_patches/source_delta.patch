From 053e245022f9cb8dd5efbafa48877e6f524f56ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 1/5] fix: index overflow in mixed-radix DFT for prime factors
 above 46340

---
 src/otfft_mixedradix.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/otfft_mixedradix.h b/src/otfft_mixedradix.h
index 5da234a..2c7a04b 100644
--- a/src/otfft_mixedradix.h
+++ b/src/otfft_mixedradix.h
@@ -512,7 +512,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q+s*j]);
-                        const cpx wij = getpz(W[s*((i*j)%k)]);
+                        const cpx wij = getpz(W[s*(static_cast<long long>(i)*j%k)]);
                         z = z + a*wij;
                     }
                     setpz(y[q+s*i], z);
@@ -532,7 +532,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                         cpx z = zero;
                         for (int j = 0; j < k; j++) {
                             const cpx a   = getpz(x[q_sp+ms*j]);
-                            const cpx wij = getpz(W[ms*((i*j)%k)]);
+                            const cpx wij = getpz(W[ms*(static_cast<long long>(i)*j%k)]);
                             z = z + a*wij;
                         }
                         const cpx wip = getpz(W[i*sp]);
@@ -1069,7 +1069,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q+s*j]);
-                        const cpx wij = getpz(W[N-s*((i*j)%k)]);
+                        const cpx wij = getpz(W[N-s*(static_cast<long long>(i)*j%k)]);
                         z = z + a*wij;
                     }
                     setpz(y[q+s*i], z);
@@ -1089,7 +1089,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                         cpx z = zero;
                         for (int j = 0; j < k; j++) {
                             const cpx a   = getpz(x[q_sp+ms*j]);
-                            const cpx wij = getpz(W[N-ms*((i*j)%k)]);
+                            const cpx wij = getpz(W[N-ms*(static_cast<long long>(i)*j%k)]);
                             z = z + a*wij;
                         }
                         const cpx wip = getpz(W[N-i*sp]);
@@ -1649,7 +1649,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q+s*j]);
-                        const cpx wij = getpz(W[s*((i*j)%k)]);
+                        const cpx wij = getpz(W[s*(static_cast<long long>(i)*j%k)]);
                         z = z + a*wij;
                     }
                     setpz(y[q+s*i], z);
@@ -1674,7 +1674,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q_sp+ms*j]);
-                        const cpx wij = getpz(W[ms*((i*j)%k)]);
+                        const cpx wij = getpz(W[ms*(static_cast<long long>(i)*j%k)]);
                         z = z + a*wij;
                     }
                     const cpx wip = getpz(W[i*sp]);
@@ -2233,7 +2233,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q+s*j]);
-                        const cpx wij = getpz(W[N-s*((i*j)%k)]);
+                        const cpx wij = getpz(W[N-s*(static_cast<long long>(i)*j%k)]);
                         z = z + a*wij;
                     }
                     setpz(y[q+s*i], z);
@@ -2258,7 +2258,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q_sp+ms*j]);
-                        const cpx wij = getpz(W[N-ms*((i*j)%k)]);
+                        const cpx wij = getpz(W[N-ms*(static_cast<long long>(i)*j%k)]);
                         z = z + a*wij;
                     }
                     const cpx wip = getpz(W[N-i*sp]);
-- 
2.43.0


From 52c2b77f81a2bf16f59b1f4928932b3722c1475f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 2/5] fix: transforms of length 1 (and real/cosine transforms
 of length 2) dereferenced a null kernel

---
 src/otfft_algo.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/otfft_algo.cpp b/src/otfft_algo.cpp
index 8c8ef81..15762ca 100644
--- a/src/otfft_algo.cpp
+++ b/src/otfft_algo.cpp
@@ -67,7 +67,6 @@ namespace OTFFT_NAMESPACE
             // see upstream otfft_gen_setup.h
             switch (log_N)
             {
-            case  0: break;
             case  1: obj = FFT2::instance(); obj->setup2(log_N); break;
             case  2: obj = FFT1::instance(); obj->setup2(log_N); break;
             case  3: obj = FFT4::instance(); obj->setup2(log_N); break;
-- 
2.43.0


From 0a6df49be4ee6d65d8039f835ce3c370b1689897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:04 +0000
Subject: [PATCH 3/5] fix: do not execute XGETBV where the operating system has
 not enabled it

---
 src/otfft.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/otfft.cpp b/src/otfft.cpp
index d9ae73d..451fb32 100644
--- a/src/otfft.cpp
+++ b/src/otfft.cpp
@@ -117,7 +117,8 @@ namespace
             if (cpu_info_0[0] > 0)
             {
                 const auto cpu_info_1 = CPUID(1);
-                const auto cpu_info_xcr = XGETBV(0);
+                // XGETBV is undefined unless the operating system has enabled it (OSXSAVE)
+                const std::uint64_t cpu_info_xcr = ((cpu_info_1[2] & 0x08000000) != 0) ? XGETBV(0) : 0;
 
                 CPU_FEATURE_XSAVE = ((cpu_info_1[2] & 0x04000000) != 0) && ((cpu_info_xcr & 6) == 6);
                 CPU_FEATURE_SSE = (cpu_info_1[3] & 0x02000000) != 0;
-- 
2.43.0


From 5feb8c514bdb898316b532e4163fa627ad37fdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:04 +0000
Subject: [PATCH 4/5] fix: complex_t scaling by one of its own components

---
 inc/otfft_complex.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/inc/otfft_complex.h b/inc/otfft_complex.h
index e0eb492..ba1ae26 100644
--- a/inc/otfft_complex.h
+++ b/inc/otfft_complex.h
@@ -99,15 +99,17 @@ struct complex_t
 
     complex_t& operator*=(const double& x) NOEXCEPT
     {
-        Re *= x;
-        Im *= x;
+        const double tmp = x; // x may be a component of *this
+        Re *= tmp;
+        Im *= tmp;
         return *this;
     }
 
     complex_t& operator/=(const double& x) NOEXCEPT
     {
-        Re /= x;
-        Im /= x;
+        const double tmp = x; // x may be a component of *this
+        Re /= tmp;
+        Im /= tmp;
         return *this;
     }
 
-- 
2.43.0


From 4ab79cb2b894fa32edf62bb6e1d127f8c5d878c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:20 +0000
Subject: [PATCH 5/5] fix: empty transforms (length 0) divided by zero and
 filled their table with NaN

---
 src/otfft_algo.cpp       | 4 ++--
 src/otfft_algo_mixed.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/otfft_algo.cpp b/src/otfft_algo.cpp
index 15762ca..364d002 100644
--- a/src/otfft_algo.cpp
+++ b/src/otfft_algo.cpp
@@ -221,7 +221,7 @@ namespace OTFFT_NAMESPACE
         for (log_N = 0; n > 1; n >>= 1) log_N++;
         fft.setup(N/2);
         weight.setup(N+1); U = &weight;
-        const double theta0 = 2*M_PI/N;
+        const double theta0 = N < 1 ? 0 : 2*M_PI/N;
         const int Nh = N/2;
         const int Nq = N/4;
         const int Ne = N/8;
@@ -515,7 +515,7 @@ namespace OTFFT_NAMESPACE
         N = n;
         rfft.setup(N);
         weight.setup(N+1); V = &weight;
-        const double theta0 = M_PI/(2*N);
+        const double theta0 = N < 1 ? 0 : M_PI/(2*N);
         const int Nh = N/2;
         if (N < 2) {}
         else if (N < OMP_THRESHOLD_W) for (int p = 0; p <= Nh; p++) {
diff --git a/src/otfft_algo_mixed.cpp b/src/otfft_algo_mixed.cpp
index ee0a429..4cef497 100644
--- a/src/otfft_algo_mixed.cpp
+++ b/src/otfft_algo_mixed.cpp
@@ -37,7 +37,7 @@ namespace OTFFT_NAMESPACE
 
             void setup(const int n)
             {
-                const double theta0 = 2*M_PI/n;
+                const double theta0 = n < 1 ? 0 : 2*M_PI/n;
                 N = n;
                 weight.setup(n+1); W = &weight;
                 if (n < OMP_THRESHOLD) {
-- 
2.43.0

