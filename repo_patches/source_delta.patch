From efcd5a9dfffdc09339a02983f5278ae889d44892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 1/6] fix: wrong mixed radix result for prime factors above
 46340 (int overflow of the twiddle index i*j)

---
 src/otfft_mixedradix.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/otfft_mixedradix.h b/src/otfft_mixedradix.h
index 5da234a..c636a3d 100644
--- a/src/otfft_mixedradix.h
+++ b/src/otfft_mixedradix.h
@@ -512,7 +512,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q+s*j]);
-                        const cpx wij = getpz(W[s*((i*j)%k)]);
+                        const cpx wij = getpz(W[s*(int)(((int64_t)i*j)%k)]);
                         z = z + a*wij;
                     }
                     setpz(y[q+s*i], z);
@@ -532,7 +532,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                         cpx z = zero;
                         for (int j = 0; j < k; j++) {
                             const cpx a   = getpz(x[q_sp+ms*j]);
-                            const cpx wij = getpz(W[ms*((i*j)%k)]);
+                            const cpx wij = getpz(W[ms*(int)(((int64_t)i*j)%k)]);
                             z = z + a*wij;
                         }
                         const cpx wip = getpz(W[i*sp]);
@@ -1069,7 +1069,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q+s*j]);
-                        const cpx wij = getpz(W[N-s*((i*j)%k)]);
+                        const cpx wij = getpz(W[N-s*(int)(((int64_t)i*j)%k)]);
                         z = z + a*wij;
                     }
                     setpz(y[q+s*i], z);
@@ -1089,7 +1089,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                         cpx z = zero;
                         for (int j = 0; j < k; j++) {
                             const cpx a   = getpz(x[q_sp+ms*j]);
-                            const cpx wij = getpz(W[N-ms*((i*j)%k)]);
+                            const cpx wij = getpz(W[N-ms*(int)(((int64_t)i*j)%k)]);
                             z = z + a*wij;
                         }
                         const cpx wip = getpz(W[N-i*sp]);
@@ -1649,7 +1649,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q+s*j]);
-                        const cpx wij = getpz(W[s*((i*j)%k)]);
+                        const cpx wij = getpz(W[s*(int)(((int64_t)i*j)%k)]);
                         z = z + a*wij;
                     }
                     setpz(y[q+s*i], z);
@@ -1674,7 +1674,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q_sp+ms*j]);
-                        const cpx wij = getpz(W[ms*((i*j)%k)]);
+                        const cpx wij = getpz(W[ms*(int)(((int64_t)i*j)%k)]);
                         z = z + a*wij;
                     }
                     const cpx wip = getpz(W[i*sp]);
@@ -2233,7 +2233,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q+s*j]);
-                        const cpx wij = getpz(W[N-s*((i*j)%k)]);
+                        const cpx wij = getpz(W[N-s*(int)(((int64_t)i*j)%k)]);
                         z = z + a*wij;
                     }
                     setpz(y[q+s*i], z);
@@ -2258,7 +2258,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q_sp+ms*j]);
-                        const cpx wij = getpz(W[N-ms*((i*j)%k)]);
+                        const cpx wij = getpz(W[N-ms*(int)(((int64_t)i*j)%k)]);
                         z = z + a*wij;
                     }
                     const cpx wip = getpz(W[N-i*sp]);
-- 
2.43.0


From 03e9d8f0e2b147a6ead5f3c271fc295960a596cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 2/6] fix: null kernel dereferenced by transforms of length 1
 (ComplexFFT(1), RealFFT(2), DCT(2))

---
 src/otfft_algo.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/otfft_algo.cpp b/src/otfft_algo.cpp
index 8c8ef81..73d1e70 100644
--- a/src/otfft_algo.cpp
+++ b/src/otfft_algo.cpp
@@ -104,17 +104,17 @@ namespace OTFFT_NAMESPACE
 
     void FFT0::fwd(complex_vector x, complex_vector y) const noexcept
     {
-        obj->fwd(x, y);
+        if (obj) obj->fwd(x, y);
     }
 
     void FFT0::fwd0(complex_vector x, complex_vector y) const noexcept
     {
-        obj->fwd0(x, y);
+        if (obj) obj->fwd0(x, y);
     }
 
     void FFT0::fwdu(complex_vector x, complex_vector y) const noexcept
     {
-        obj->fwdu(x, y);
+        if (obj) obj->fwdu(x, y);
     }
 
     void FFT0::fwdn(complex_vector x, complex_vector y) const noexcept
@@ -124,7 +124,7 @@ namespace OTFFT_NAMESPACE
 
     void FFT0::inv(complex_vector x, complex_vector y) const noexcept
     {
-        obj->inv(x, y);
+        if (obj) obj->inv(x, y);
     }
 
     void FFT0::inv0(complex_vector x, complex_vector y) const noexcept
@@ -134,12 +134,12 @@ namespace OTFFT_NAMESPACE
 
     void FFT0::invu(complex_vector x, complex_vector y) const noexcept
     {
-        obj->invu(x, y);
+        if (obj) obj->invu(x, y);
     }
 
     void FFT0::invn(complex_vector x, complex_vector y) const noexcept
     {
-        obj->invn(x, y);
+        if (obj) obj->invn(x, y);
     }
 
     FFT::FFT() noexcept : fft(), work(), y(0) {}
-- 
2.43.0


From 0fa014780dd6ec00156ca3f44aed29c475cb72e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 3/6] fix: XGETBV executed on processors without OSXSAVE
 (undefined instruction)

---
 src/otfft.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/otfft.cpp b/src/otfft.cpp
index d9ae73d..d6ee840 100644
--- a/src/otfft.cpp
+++ b/src/otfft.cpp
@@ -117,7 +117,9 @@ namespace
             if (cpu_info_0[0] > 0)
             {
                 const auto cpu_info_1 = CPUID(1);
-                const auto cpu_info_xcr = XGETBV(0);
+                // XGETBV is an undefined instruction unless the OS has enabled XSAVE (OSXSAVE)
+                const bool osxsave = (cpu_info_1[2] & 0x08000000) != 0;
+                const std::uint64_t cpu_info_xcr = osxsave ? XGETBV(0) : 0;
 
                 CPU_FEATURE_XSAVE = ((cpu_info_1[2] & 0x04000000) != 0) && ((cpu_info_xcr & 6) == 6);
                 CPU_FEATURE_SSE = (cpu_info_1[3] & 0x02000000) != 0;
-- 
2.43.0


From d9cb3b5eea90149cc7f34ed62aba70efa88f4700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:45 +0000
Subject: [PATCH 4/6] fix: complex_t *= and /= by a real part of the object
 itself used the modified value

---
 inc/otfft_complex.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/otfft_complex.h b/inc/otfft_complex.h
index e0eb492..388f0a9 100644
--- a/inc/otfft_complex.h
+++ b/inc/otfft_complex.h
@@ -97,14 +97,14 @@ struct complex_t
         return *this;
     }
 
-    complex_t& operator*=(const double& x) NOEXCEPT
+    complex_t& operator*=(const double x) NOEXCEPT
     {
         Re *= x;
         Im *= x;
         return *this;
     }
 
-    complex_t& operator/=(const double& x) NOEXCEPT
+    complex_t& operator/=(const double x) NOEXCEPT
     {
         Re /= x;
         Im /= x;
-- 
2.43.0


From e062ee6a3b4b1de31d6c61fa0c4d938007c8c8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:27 +0000
Subject: [PATCH 5/6] fix: functions reading through references were declared
 const (clang at -O1 and above reused stale results)

---
 inc/otfft_complex.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inc/otfft_complex.h b/inc/otfft_complex.h
index 388f0a9..f304a9c 100644
--- a/inc/otfft_complex.h
+++ b/inc/otfft_complex.h
@@ -24,7 +24,8 @@
 #endif
 
 #if __GNUC__ >= 3
-#define force_inline  __attribute__((const,always_inline))
+// not const: most of these functions read their operands through references or pointers
+#define force_inline  __attribute__((pure,always_inline))
 #define force_inline2 __attribute__((pure,always_inline))
 #define force_inline3 __attribute__((always_inline))
 //#define force_inline  __attribute__((const))
-- 
2.43.0


From e6d370c67439f767c228d22c2844af456bd76256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:31 +0000
Subject: [PATCH 6/6] fix: eight-step transforms of 2^19 to 2^23 points shared
 out their work in the caller's parallel region (wrong results, deadlock)

---
 src/otfft_eightstep.h | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/otfft_eightstep.h b/src/otfft_eightstep.h
index e283a08..7efe74e 100644
--- a/src/otfft_eightstep.h
+++ b/src/otfft_eightstep.h
@@ -187,14 +187,17 @@ constexpr int OMP_THRESHOLD2 = 1<<19;
                 for (int p = 0; p < N1; p += 2) {
                     fft_and_mult_twiddle_factor_kernel(p, x, y, W);
                 }
-                OTFFT_SixStep::fwdffts<log_N-3,scale_1>::part2(iv, y+N0, x+N0, Wm, Ws);
-                OTFFT_SixStep::fwdffts<log_N-3,scale_1>::part2(iv, y+N1, x+N1, Wm, Ws);
-                OTFFT_SixStep::fwdffts<log_N-3,scale_1>::part2(iv, y+N2, x+N2, Wm, Ws);
-                OTFFT_SixStep::fwdffts<log_N-3,scale_1>::part2(iv, y+N3, x+N3, Wm, Ws);
-                OTFFT_SixStep::fwdffts<log_N-3,scale_1>::part2(iv, y+N4, x+N4, Wm, Ws);
-                OTFFT_SixStep::fwdffts<log_N-3,scale_1>::part2(iv, y+N5, x+N5, Wm, Ws);
-                OTFFT_SixStep::fwdffts<log_N-3,scale_1>::part2(iv, y+N6, x+N6, Wm, Ws);
-                OTFFT_SixStep::fwdffts<log_N-3,scale_1>::part2(iv, y+N7, x+N7, Wm, Ws);
+                #pragma omp parallel firstprivate(iv,x,y,Wm,Ws)
+                {
+                    OTFFT_SixStep::fwdffts<log_N-3,scale_1>::part2(iv, y+N0, x+N0, Wm, Ws);
+                    OTFFT_SixStep::fwdffts<log_N-3,scale_1>::part2(iv, y+N1, x+N1, Wm, Ws);
+                    OTFFT_SixStep::fwdffts<log_N-3,scale_1>::part2(iv, y+N2, x+N2, Wm, Ws);
+                    OTFFT_SixStep::fwdffts<log_N-3,scale_1>::part2(iv, y+N3, x+N3, Wm, Ws);
+                    OTFFT_SixStep::fwdffts<log_N-3,scale_1>::part2(iv, y+N4, x+N4, Wm, Ws);
+                    OTFFT_SixStep::fwdffts<log_N-3,scale_1>::part2(iv, y+N5, x+N5, Wm, Ws);
+                    OTFFT_SixStep::fwdffts<log_N-3,scale_1>::part2(iv, y+N6, x+N6, Wm, Ws);
+                    OTFFT_SixStep::fwdffts<log_N-3,scale_1>::part2(iv, y+N7, x+N7, Wm, Ws);
+                }
                 #pragma omp parallel for schedule(static) firstprivate(x,y)
                 for (int p = 0; p < N1; p += 2) {
                     transpose_kernel(p, y, x);
@@ -329,14 +332,17 @@ constexpr int OMP_THRESHOLD2 = 1<<19;
                 for (int p = 0; p < N1; p += 2) {
                     ifft_and_mult_twiddle_factor_kernel(p, x, y, W);
                 }
-                OTFFT_SixStep::invffts<log_N-3,scale_1>::part2(iv, y+N0, x+N0, Wm, Ws);
-                OTFFT_SixStep::invffts<log_N-3,scale_1>::part2(iv, y+N1, x+N1, Wm, Ws);
-                OTFFT_SixStep::invffts<log_N-3,scale_1>::part2(iv, y+N2, x+N2, Wm, Ws);
-                OTFFT_SixStep::invffts<log_N-3,scale_1>::part2(iv, y+N3, x+N3, Wm, Ws);
-                OTFFT_SixStep::invffts<log_N-3,scale_1>::part2(iv, y+N4, x+N4, Wm, Ws);
-                OTFFT_SixStep::invffts<log_N-3,scale_1>::part2(iv, y+N5, x+N5, Wm, Ws);
-                OTFFT_SixStep::invffts<log_N-3,scale_1>::part2(iv, y+N6, x+N6, Wm, Ws);
-                OTFFT_SixStep::invffts<log_N-3,scale_1>::part2(iv, y+N7, x+N7, Wm, Ws);
+                #pragma omp parallel firstprivate(iv,x,y,Wm,Ws)
+                {
+                    OTFFT_SixStep::invffts<log_N-3,scale_1>::part2(iv, y+N0, x+N0, Wm, Ws);
+                    OTFFT_SixStep::invffts<log_N-3,scale_1>::part2(iv, y+N1, x+N1, Wm, Ws);
+                    OTFFT_SixStep::invffts<log_N-3,scale_1>::part2(iv, y+N2, x+N2, Wm, Ws);
+                    OTFFT_SixStep::invffts<log_N-3,scale_1>::part2(iv, y+N3, x+N3, Wm, Ws);
+                    OTFFT_SixStep::invffts<log_N-3,scale_1>::part2(iv, y+N4, x+N4, Wm, Ws);
+                    OTFFT_SixStep::invffts<log_N-3,scale_1>::part2(iv, y+N5, x+N5, Wm, Ws);
+                    OTFFT_SixStep::invffts<log_N-3,scale_1>::part2(iv, y+N6, x+N6, Wm, Ws);
+                    OTFFT_SixStep::invffts<log_N-3,scale_1>::part2(iv, y+N7, x+N7, Wm, Ws);
+                }
                 #pragma omp parallel for schedule(static) firstprivate(x,y)
                 for (int p = 0; p < N1; p += 2) {
                     transpose_kernel(p, y, x);
-- 
2.43.0

