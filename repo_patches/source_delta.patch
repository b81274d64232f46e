From ce44a23d8ebdd5a2079c2b11656479c302d49be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:39 +0000
Subject: [PATCH 01/36] fix: vec4 normalize compared the squared norm with
 FLT_EPSILON on SSE and WASM

Vectors with a norm between FLT_EPSILON and sqrt(FLT_EPSILON) were normalised
to zero there while the scalar and NEON code (and vec2/vec3) return a unit
vector.
---
 include/cglm/vec4.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cglm/vec4.h b/include/cglm/vec4.h
index ded09c9..26704e7 100644
--- a/include/cglm/vec4.h
+++ b/include/cglm/vec4.h
@@ -917,7 +917,8 @@ glm_vec4_normalize_to(vec4 v, vec4 dest) {
   /* dot  = _mm_cvtss_f32(xdot); */
   dot  = wasm_f32x4_extract_lane(xdot, 0);
 
-  if (CGLM_UNLIKELY(dot < FLT_EPSILON)) {
+  /* dot is the squared norm */
+  if (CGLM_UNLIKELY(dot < FLT_EPSILON * FLT_EPSILON)) {
     glmm_store(dest, wasm_f32x4_const_splat(0.f));
     return;
   }
@@ -931,7 +932,8 @@ glm_vec4_normalize_to(vec4 v, vec4 dest) {
   xdot = glmm_vdot(x0, x0);
   dot  = _mm_cvtss_f32(xdot);
 
-  if (CGLM_UNLIKELY(dot < FLT_EPSILON)) {
+  /* dot is the squared norm */
+  if (CGLM_UNLIKELY(dot < FLT_EPSILON * FLT_EPSILON)) {
     glmm_store(dest, _mm_setzero_ps());
     return;
   }
-- 
2.43.0


From ffcaf42c7ad785a5af2ea9aa43dc83a488c1893e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 02/36] fix: include paths of
 struct/handed/euler_to_quat_{lh,rh}.h

Both installed headers included a file that does not exist, so neither could
be included.
---
 include/cglm/struct/handed/euler_to_quat_lh.h | 4 +++-
 include/cglm/struct/handed/euler_to_quat_rh.h | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/cglm/struct/handed/euler_to_quat_lh.h b/include/cglm/struct/handed/euler_to_quat_lh.h
index 3964e51..f895d93 100644
--- a/include/cglm/struct/handed/euler_to_quat_lh.h
+++ b/include/cglm/struct/handed/euler_to_quat_lh.h
@@ -18,7 +18,9 @@
 #ifndef cglms_euler_to_quat_lh_h
 #define cglms_euler_to_quat_lh_h
 
-#include "../common.h"
+#include "../../common.h"
+#include "../../types-struct.h"
+#include "../../handed/euler_to_quat_lh.h"
 
 
 /*!
diff --git a/include/cglm/struct/handed/euler_to_quat_rh.h b/include/cglm/struct/handed/euler_to_quat_rh.h
index 6c7f400..d1a7967 100644
--- a/include/cglm/struct/handed/euler_to_quat_rh.h
+++ b/include/cglm/struct/handed/euler_to_quat_rh.h
@@ -18,7 +18,9 @@
 #ifndef cglms_euler_to_quat_rh_h
 #define cglms_euler_to_quat_rh_h
 
-#include "../common.h"
+#include "../../common.h"
+#include "../../types-struct.h"
+#include "../../handed/euler_to_quat_rh.h"
 
 
 /*!
-- 
2.43.0


From 8dcd6c3ee624799789d7b7cbb29adca97c6a9974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 03/36] fix: glms_pickmatrix returned an uninitialised matrix
 for an empty region

glm_pickmatrix leaves dest untouched when a side of the region is not
positive; the struct wrapper then returned indeterminate values.
---
 include/cglm/struct/project.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/struct/project.h b/include/cglm/struct/project.h
index 8383c77..2e423a9 100644
--- a/include/cglm/struct/project.h
+++ b/include/cglm/struct/project.h
@@ -154,7 +154,7 @@ glms_project_z(vec3s v, mat4s m) {
 CGLM_INLINE
 mat4s
 glms_pickmatrix(vec2s center, vec2s size, vec4s vp) {
-  mat4s res;
+  mat4s res = GLMS_MAT4_IDENTITY_INIT;
   glm_pickmatrix(center.raw, size.raw, vp.raw, res.raw);
   return res;
 }
-- 
2.43.0


From 41fb47f9f55ab9e3ff4f93bf1ccb7fe1df4efa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 04/36] fix: matN_transpose_to with dest == m

The documentation allows dest to be the source matrix ("source matrix will
not be transposed unless dest is m"), but the plain C code overwrote elements
before reading them (mat3 in every build, mat2 and mat4 without SIMD).
---
 include/cglm/mat2.h |  6 ++++--
 include/cglm/mat3.h | 22 +++++++++++++---------
 include/cglm/mat4.h | 20 ++++++++++++--------
 3 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/include/cglm/mat2.h b/include/cglm/mat2.h
index 5bec482..79d7510 100644
--- a/include/cglm/mat2.h
+++ b/include/cglm/mat2.h
@@ -199,9 +199,11 @@ glm_mat2_transpose_to(mat2 mat, mat2 dest) {
 #elif defined( __SSE__ ) || defined( __SSE2__ )
   glm_mat2_transp_sse2(mat, dest);
 #else
+  float a01 = mat[0][1], a10 = mat[1][0];
+
   dest[0][0] = mat[0][0];
-  dest[0][1] = mat[1][0];
-  dest[1][0] = mat[0][1];
+  dest[0][1] = a10;
+  dest[1][0] = a01;
   dest[1][1] = mat[1][1];
 #endif
 }
diff --git a/include/cglm/mat3.h b/include/cglm/mat3.h
index 10b373e..00e7440 100644
--- a/include/cglm/mat3.h
+++ b/include/cglm/mat3.h
@@ -190,15 +190,19 @@ glm_mat3_mul(mat3 m1, mat3 m2, mat3 dest) {
 CGLM_INLINE
 void
 glm_mat3_transpose_to(mat3 m, mat3 dest) {
-  dest[0][0] = m[0][0];
-  dest[0][1] = m[1][0];
-  dest[0][2] = m[2][0];
-  dest[1][0] = m[0][1];
-  dest[1][1] = m[1][1];
-  dest[1][2] = m[2][1];
-  dest[2][0] = m[0][2];
-  dest[2][1] = m[1][2];
-  dest[2][2] = m[2][2];
+  mat3 d;
+
+  d[0][0] = m[0][0];
+  d[0][1] = m[1][0];
+  d[0][2] = m[2][0];
+  d[1][0] = m[0][1];
+  d[1][1] = m[1][1];
+  d[1][2] = m[2][1];
+  d[2][0] = m[0][2];
+  d[2][1] = m[1][2];
+  d[2][2] = m[2][2];
+
+  glm_mat3_copy(d, dest);
 }
 
 /*!
diff --git a/include/cglm/mat4.h b/include/cglm/mat4.h
index c3fe7fd..034ad59 100644
--- a/include/cglm/mat4.h
+++ b/include/cglm/mat4.h
@@ -528,14 +528,18 @@ glm_mat4_transpose_to(mat4 m, mat4 dest) {
 #elif defined(CGLM_NEON_FP)
   glm_mat4_transp_neon(m, dest);
 #else
-  dest[0][0] = m[0][0]; dest[1][0] = m[0][1];
-  dest[0][1] = m[1][0]; dest[1][1] = m[1][1];
-  dest[0][2] = m[2][0]; dest[1][2] = m[2][1];
-  dest[0][3] = m[3][0]; dest[1][3] = m[3][1];
-  dest[2][0] = m[0][2]; dest[3][0] = m[0][3];
-  dest[2][1] = m[1][2]; dest[3][1] = m[1][3];
-  dest[2][2] = m[2][2]; dest[3][2] = m[2][3];
-  dest[2][3] = m[3][2]; dest[3][3] = m[3][3];
+  mat4 d;
+
+  d[0][0] = m[0][0]; d[1][0] = m[0][1];
+  d[0][1] = m[1][0]; d[1][1] = m[1][1];
+  d[0][2] = m[2][0]; d[1][2] = m[2][1];
+  d[0][3] = m[3][0]; d[1][3] = m[3][1];
+  d[2][0] = m[0][2]; d[3][0] = m[0][3];
+  d[2][1] = m[1][2]; d[3][1] = m[1][3];
+  d[2][2] = m[2][2]; d[3][2] = m[2][3];
+  d[2][3] = m[3][2]; d[3][3] = m[3][3];
+
+  glm_mat4_copy(d, dest);
 #endif
 }
 
-- 
2.43.0


From be36b090736f141d86d3908026543b7b7304ea1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 05/36] fix: quat_mul with dest == p or dest == q without SIMD

The SSE, NEON and WASM versions read both operands before storing; the plain
C version overwrote the operand it was still reading.
---
 include/cglm/quat.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/cglm/quat.h b/include/cglm/quat.h
index cf1f325..a9e1bb9 100644
--- a/include/cglm/quat.h
+++ b/include/cglm/quat.h
@@ -466,10 +466,14 @@ glm_quat_mul(versor p, versor q, versor dest) {
 #elif defined(CGLM_NEON_FP)
   glm_quat_mul_neon(p, q, dest);
 #else
-  dest[0] = p[3] * q[0] + p[0] * q[3] + p[1] * q[2] - p[2] * q[1];
-  dest[1] = p[3] * q[1] - p[0] * q[2] + p[1] * q[3] + p[2] * q[0];
-  dest[2] = p[3] * q[2] + p[0] * q[1] - p[1] * q[0] + p[2] * q[3];
-  dest[3] = p[3] * q[3] - p[0] * q[0] - p[1] * q[1] - p[2] * q[2];
+  versor r;
+
+  r[0] = p[3] * q[0] + p[0] * q[3] + p[1] * q[2] - p[2] * q[1];
+  r[1] = p[3] * q[1] - p[0] * q[2] + p[1] * q[3] + p[2] * q[0];
+  r[2] = p[3] * q[2] + p[0] * q[1] - p[1] * q[0] + p[2] * q[3];
+  r[3] = p[3] * q[3] - p[0] * q[0] - p[1] * q[1] - p[2] * q[2];
+
+  glm_quat_copy(r, dest);
 #endif
 }
 
-- 
2.43.0


From cbf55cad7be24a40ed5893e279ab06e8d174fb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 06/36] fix: mat2_mulv with dest == v

mat3_mulv and mat4_mulv can be used in place; mat2_mulv read v[0] after
overwriting it.
---
 include/cglm/mat2.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cglm/mat2.h b/include/cglm/mat2.h
index 79d7510..c1ad910 100644
--- a/include/cglm/mat2.h
+++ b/include/cglm/mat2.h
@@ -181,8 +181,10 @@ glm_mat2_mul(mat2 m1, mat2 m2, mat2 dest) {
 CGLM_INLINE
 void
 glm_mat2_mulv(mat2 m, vec2 v, vec2 dest) {
-  dest[0] = m[0][0] * v[0] + m[1][0] * v[1];
-  dest[1] = m[0][1] * v[0] + m[1][1] * v[1];
+  float x = v[0], y = v[1];
+
+  dest[0] = m[0][0] * x + m[1][0] * y;
+  dest[1] = m[0][1] * x + m[1][1] * y;
 }
 
 /*!
-- 
2.43.0


From 1bbe77c66765bda9378d0c0453cad65c316d6e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 07/36] fix: vec4_reflect with dest == v

The w component was restored from v after it had been overwritten.
---
 include/cglm/vec4.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cglm/vec4.h b/include/cglm/vec4.h
index 26704e7..fdccb8d 100644
--- a/include/cglm/vec4.h
+++ b/include/cglm/vec4.h
@@ -1301,13 +1301,14 @@ glm_vec4_make(const float * __restrict src, vec4 dest) {
 CGLM_INLINE
 void
 glm_vec4_reflect(vec4 v, vec4 n, vec4 dest) {
-  vec4 temp;
+  vec4  temp;
+  float w = v[3];
 
   /* TODO: direct simd touch */
   glm_vec4_scale(n, 2.0f * glm_vec4_dot(v, n), temp);
   glm_vec4_sub(v, temp, dest);
 
-  dest[3] = v[3];
+  dest[3] = w;
 }
 
 /*!
-- 
2.43.0


From a6d18d6f6fce58344b94126c8a4b024f2830d634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 08/36] fix: vecN_refract with dest == n

dest was written before the surface normal was last read.
---
 include/cglm/vec2.h | 4 +++-
 include/cglm/vec3.h | 4 +++-
 include/cglm/vec4.h | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/cglm/vec2.h b/include/cglm/vec2.h
index 655fb4b..b6e4cfa 100644
--- a/include/cglm/vec2.h
+++ b/include/cglm/vec2.h
@@ -779,6 +779,7 @@ glm_vec2_reflect(vec2 v, vec2 n, vec2 dest) {
 CGLM_INLINE
 bool
 glm_vec2_refract(vec2 v, vec2 n, float eta, vec2 dest) {
+  vec2  t;
   float ndi, eni, k;
 
   ndi = glm_vec2_dot(n, v);
@@ -790,8 +791,9 @@ glm_vec2_refract(vec2 v, vec2 n, float eta, vec2 dest) {
     return false;
   }
 
+  glm_vec2_scale(n, eni + sqrtf(k), t);
   glm_vec2_scale(v, eta, dest);
-  glm_vec2_mulsubs(n, eni + sqrtf(k), dest);
+  glm_vec2_sub(dest, t, dest);
   return true;
 }
 
diff --git a/include/cglm/vec3.h b/include/cglm/vec3.h
index 1350818..3f026ef 100644
--- a/include/cglm/vec3.h
+++ b/include/cglm/vec3.h
@@ -1245,6 +1245,7 @@ glm_vec3_reflect(vec3 v, vec3 n, vec3 dest) {
 CGLM_INLINE
 bool
 glm_vec3_refract(vec3 v, vec3 n, float eta, vec3 dest) {
+  vec3  t;
   float ndi, eni, k;
 
   ndi = glm_vec3_dot(n, v);
@@ -1256,8 +1257,9 @@ glm_vec3_refract(vec3 v, vec3 n, float eta, vec3 dest) {
     return false;
   }
 
+  glm_vec3_scale(n, eni + sqrtf(k), t);
   glm_vec3_scale(v, eta, dest);
-  glm_vec3_mulsubs(n, eni + sqrtf(k), dest);
+  glm_vec3_sub(dest, t, dest);
   return true;
 }
 
diff --git a/include/cglm/vec4.h b/include/cglm/vec4.h
index fdccb8d..21f07f5 100644
--- a/include/cglm/vec4.h
+++ b/include/cglm/vec4.h
@@ -1332,6 +1332,7 @@ glm_vec4_reflect(vec4 v, vec4 n, vec4 dest) {
 CGLM_INLINE
 bool
 glm_vec4_refract(vec4 v, vec4 n, float eta, vec4 dest) {
+  vec4  t;
   float ndi, eni, k;
 
   ndi = glm_vec4_dot(n, v);
@@ -1343,8 +1344,9 @@ glm_vec4_refract(vec4 v, vec4 n, float eta, vec4 dest) {
     return false;
   }
 
+  glm_vec4_scale(n, eni + sqrtf(k), t);
   glm_vec4_scale(v, eta, dest);
-  glm_vec4_mulsubs(n, eni + sqrtf(k), dest);
+  glm_vec4_sub(dest, t, dest);
   return true;
 }
 
-- 
2.43.0


From c11e0acae060eeba12e1bb51a726c4c314d8aca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:32 +0000
Subject: [PATCH 09/36] fix: glms_aabb2d_radius called a function that does not
 exist

---
 include/cglm/struct/aabb2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/struct/aabb2d.h b/include/cglm/struct/aabb2d.h
index 9077069..d7c13f1 100644
--- a/include/cglm/struct/aabb2d.h
+++ b/include/cglm/struct/aabb2d.h
@@ -168,7 +168,7 @@ glms_aabb2d_(sizev)(vec2s aabb[2]) {
 CGLM_INLINE
 float
 glms_aabb2d_(radius)(vec2s aabb[2]) {
-  return glms_aabb2d_(size)(aabb) * 0.5f;
+  return glms_aabb2d_(diag)(aabb) * 0.5f;
 }
 
 /*!
-- 
2.43.0


From 8ecd2511dcddfa470d5af6eb478ee92c70669801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:32 +0000
Subject: [PATCH 10/36] fix: cglm/struct.h did not include struct/aabb2d.h

---
 include/cglm/struct.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cglm/struct.h b/include/cglm/struct.h
index 31ca4e2..58d62ef 100644
--- a/include/cglm/struct.h
+++ b/include/cglm/struct.h
@@ -33,6 +33,7 @@ extern "C" {
 #include "struct/plane.h"
 #include "struct/noise.h"
 #include "struct/box.h"
+#include "struct/aabb2d.h"
 #include "struct/color.h"
 #include "struct/io.h"
 #include "struct/cam.h"
-- 
2.43.0


From 5eee5c0842746a46cc70f313136738441452f6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:50 +0000
Subject: [PATCH 11/36] fix: glms_frustum_corners_at wrote eight corners into
 planeCorners[4]

---
 include/cglm/struct/frustum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/struct/frustum.h b/include/cglm/struct/frustum.h
index 81b5b7b..4b043d9 100644
--- a/include/cglm/struct/frustum.h
+++ b/include/cglm/struct/frustum.h
@@ -149,7 +149,7 @@ glms_frustum_corners_at(vec4s corners[8],
 
   glms_vec4_(unpack)(rawCorners, corners, 8);
   glm_frustum_corners_at(rawCorners, splitDist, farDist, rawPlaneCorners);
-  glms_vec4_(pack)(planeCorners, rawPlaneCorners, 8);
+  glms_vec4_(pack)(planeCorners, rawPlaneCorners, 4);
 }
 
 #endif /* cglms_frustums_h */
-- 
2.43.0


From 704ffd5865b2b382cea933174bce6b6568276f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:41 +0000
Subject: [PATCH 12/36] fix: matrix print chose the number format by the
 transposed element

---
 include/cglm/io.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cglm/io.h b/include/cglm/io.h
index baa80f1..33c5d31 100644
--- a/include/cglm/io.h
+++ b/include/cglm/io.h
@@ -143,7 +143,7 @@ glm_mat4_print(mat4              matrix,
     fprintf(ostream, "  |");
 
     for (j = 0; j < n; j++)
-      if (matrix[i][j] < CGLM_PRINT_MAX_TO_SHORT)
+      if (matrix[j][i] < CGLM_PRINT_MAX_TO_SHORT)
         fprintf(ostream, " % *.*f", cw[j], CGLM_PRINT_PRECISION, (double)matrix[j][i]);
       else
         fprintf(ostream, " % *g", cw[j], (double)matrix[j][i]);
@@ -186,7 +186,7 @@ glm_mat3_print(mat3              matrix,
     fprintf(ostream, "  |");
 
     for (j = 0; j < n; j++)
-      if (matrix[i][j] < CGLM_PRINT_MAX_TO_SHORT)
+      if (matrix[j][i] < CGLM_PRINT_MAX_TO_SHORT)
         fprintf(ostream, " % *.*f", cw[j], CGLM_PRINT_PRECISION, (double)matrix[j][i]);
       else
         fprintf(ostream, " % *g", cw[j], (double)matrix[j][i]);
@@ -228,7 +228,7 @@ glm_mat2_print(mat2              matrix,
     fprintf(ostream, "  |");
 
     for (j = 0; j < n; j++)
-      if (matrix[i][j] < CGLM_PRINT_MAX_TO_SHORT)
+      if (matrix[j][i] < CGLM_PRINT_MAX_TO_SHORT)
         fprintf(ostream, " % *.*f", cw[j], CGLM_PRINT_PRECISION, (double)matrix[j][i]);
       else
         fprintf(ostream, " % *g", cw[j], (double)matrix[j][i]);
-- 
2.43.0


From 75726dbbe4fe77d53b5c159aa3079c2ee2b3e6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:00 +0000
Subject: [PATCH 13/36] fix: glm_mat4_ucopy accessed its operands as aligned
 vec4 rows

---
 include/cglm/mat4.h | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/cglm/mat4.h b/include/cglm/mat4.h
index 034ad59..dadf3ef 100644
--- a/include/cglm/mat4.h
+++ b/include/cglm/mat4.h
@@ -107,15 +107,18 @@
 CGLM_INLINE
 void
 glm_mat4_ucopy(mat4 mat, mat4 dest) {
-  dest[0][0] = mat[0][0];  dest[1][0] = mat[1][0];
-  dest[0][1] = mat[0][1];  dest[1][1] = mat[1][1];
-  dest[0][2] = mat[0][2];  dest[1][2] = mat[1][2];
-  dest[0][3] = mat[0][3];  dest[1][3] = mat[1][3];
-
-  dest[2][0] = mat[2][0];  dest[3][0] = mat[3][0];
-  dest[2][1] = mat[2][1];  dest[3][1] = mat[3][1];
-  dest[2][2] = mat[2][2];  dest[3][2] = mat[3][2];
-  dest[2][3] = mat[2][3];  dest[3][3] = mat[3][3];
+  /* plain floats: rows of mat4 would be accessed as aligned vec4 */
+  float *s = (float *)mat, *d = (float *)dest;
+
+  d[0] = s[0];  d[4] = s[4];
+  d[1] = s[1];  d[5] = s[5];
+  d[2] = s[2];  d[6] = s[6];
+  d[3] = s[3];  d[7] = s[7];
+
+  d[8] = s[8];  d[12] = s[12];
+  d[9] = s[9];  d[13] = s[13];
+  d[10] = s[10];  d[14] = s[14];
+  d[11] = s[11];  d[15] = s[15];
 }
 
 /*!
-- 
2.43.0


From 86f58b5aa1fa6392574ad1cc3b8928f631b4ceaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:00 +0000
Subject: [PATCH 14/36] fix: CGLM_ALL_UNALIGNED left mat4 and mat4s
 over-aligned

---
 include/cglm/types-struct.h | 2 +-
 include/cglm/types.h        | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/cglm/types-struct.h b/include/cglm/types-struct.h
index d93152e..06cd4c6 100644
--- a/include/cglm/types-struct.h
+++ b/include/cglm/types-struct.h
@@ -261,7 +261,7 @@ typedef union mat3x4s {
 #endif
 } mat3x4s;
 
-typedef union CGLM_ALIGN_MAT mat4s {
+typedef union CGLM_ALIGN_MAT_IF mat4s {
   mat4  raw;
   vec4s col[4];
 #if CGLM_USE_ANONYMOUS_STRUCT
diff --git a/include/cglm/types.h b/include/cglm/types.h
index 7a482c0..78eea17 100644
--- a/include/cglm/types.h
+++ b/include/cglm/types.h
@@ -37,6 +37,12 @@
 #  define CGLM_ALIGN_MAT CGLM_ALIGN(16)
 #endif
 
+#ifndef CGLM_ALL_UNALIGNED
+#  define CGLM_ALIGN_MAT_IF CGLM_ALIGN_MAT
+#else
+#  define CGLM_ALIGN_MAT_IF /* no alignment */
+#endif
+
 #ifndef CGLM_HAVE_BUILTIN_ASSUME_ALIGNED
 
 #  if defined(__has_builtin)
@@ -87,7 +93,7 @@ typedef vec4                    mat3x4[3];  /* [col (3), row (4)] */
 typedef CGLM_ALIGN_IF(16) vec2  mat2[2];
 typedef vec3                    mat2x3[2];  /* [col (2), row (3)] */
 typedef vec4                    mat2x4[2];  /* [col (2), row (4)] */
-typedef CGLM_ALIGN_MAT    vec4  mat4[4];
+typedef CGLM_ALIGN_MAT_IF vec4  mat4[4];
 typedef vec2                    mat4x2[4];  /* [col (4), row (2)] */
 typedef vec3                    mat4x3[4];  /* [col (4), row (3)] */
 
-- 
2.43.0


From dc0b96ec1f06593cc42090a54e2b7df3d29614b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:42 +0000
Subject: [PATCH 15/36] fix: vecN_eq_all compared with an epsilon although
 documented as exact

---
 include/cglm/affine.h   | 2 +-
 include/cglm/vec2-ext.h | 2 +-
 include/cglm/vec3-ext.h | 2 +-
 include/cglm/vec4-ext.h | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cglm/affine.h b/include/cglm/affine.h
index 2c608f7..ea668b6 100644
--- a/include/cglm/affine.h
+++ b/include/cglm/affine.h
@@ -174,7 +174,7 @@ bool
 glm_uniscaled(mat4 m) {
   CGLM_ALIGN(8) vec3 s;
   glm_decompose_scalev(m, s);
-  return glm_vec3_eq_all(s);
+  return glm_vec3_eq_eps(s, s[0]);
 }
 
 /*!
diff --git a/include/cglm/vec2-ext.h b/include/cglm/vec2-ext.h
index 6186f07..9bdc925 100644
--- a/include/cglm/vec2-ext.h
+++ b/include/cglm/vec2-ext.h
@@ -82,7 +82,7 @@ glm_vec2_eq_eps(vec2 v, float val) {
 CGLM_INLINE
 bool
 glm_vec2_eq_all(vec2 v) {
-  return glm_vec2_eq_eps(v, v[0]);
+  return glm_vec2_eq(v, v[0]);
 }
 
 /*!
diff --git a/include/cglm/vec3-ext.h b/include/cglm/vec3-ext.h
index 4413cc2..2796254 100644
--- a/include/cglm/vec3-ext.h
+++ b/include/cglm/vec3-ext.h
@@ -98,7 +98,7 @@ glm_vec3_eq_eps(vec3 v, float val) {
 CGLM_INLINE
 bool
 glm_vec3_eq_all(vec3 v) {
-  return glm_vec3_eq_eps(v, v[0]);
+  return glm_vec3_eq(v, v[0]);
 }
 
 /*!
diff --git a/include/cglm/vec4-ext.h b/include/cglm/vec4-ext.h
index 193a5e9..580e71d 100644
--- a/include/cglm/vec4-ext.h
+++ b/include/cglm/vec4-ext.h
@@ -114,7 +114,7 @@ glm_vec4_eq_eps(vec4 v, float val) {
 CGLM_INLINE
 bool
 glm_vec4_eq_all(vec4 v) {
-  return glm_vec4_eq_eps(v, v[0]);
+  return glm_vec4_eq(v, v[0]);
 }
 
 /*!
-- 
2.43.0


From 3f98f04d2ae4477cf4c085233d90272f02ea314d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:03 +0000
Subject: [PATCH 16/36] fix: glm_quat_slerp lerped from the unflipped
 quaternion when from and to are nearly opposite

---
 include/cglm/quat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/quat.h b/include/cglm/quat.h
index a9e1bb9..4d9242b 100644
--- a/include/cglm/quat.h
+++ b/include/cglm/quat.h
@@ -734,7 +734,7 @@ glm_quat_slerp(versor from, versor to, float t, versor dest) {
 
   /* LERP to avoid zero division */
   if (fabsf(sinTheta) < 0.001f) {
-    glm_quat_lerp(from, to, t, dest);
+    glm_quat_lerp(q1, to, t, dest);
     return;
   }
 
-- 
2.43.0


From 199965b29690655dbf166d45a25bfc8aad4b8ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:52 +0000
Subject: [PATCH 17/36] fix: quat_mat3/mat4 of a non-unit quaternion was not a
 rotation

---
 include/cglm/quat.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cglm/quat.h b/include/cglm/quat.h
index 4d9242b..6260339 100644
--- a/include/cglm/quat.h
+++ b/include/cglm/quat.h
@@ -491,7 +491,7 @@ glm_quat_mat4(versor q, mat4 dest) {
         xy, yz, xz,
         wx, wy, wz, norm, s;
 
-  norm = glm_quat_norm(q);
+  norm = glm_vec4_norm2(q); /* squared: entries are quadratic in q */
   s    = norm > 0.0f ? 2.0f / norm : 0.0f;
 
   x = q[0];
@@ -538,7 +538,7 @@ glm_quat_mat4t(versor q, mat4 dest) {
         xy, yz, xz,
         wx, wy, wz, norm, s;
 
-  norm = glm_quat_norm(q);
+  norm = glm_vec4_norm2(q); /* squared: entries are quadratic in q */
   s    = norm > 0.0f ? 2.0f / norm : 0.0f;
 
   x = q[0];
@@ -585,7 +585,7 @@ glm_quat_mat3(versor q, mat3 dest) {
         xy, yz, xz,
         wx, wy, wz, norm, s;
 
-  norm = glm_quat_norm(q);
+  norm = glm_vec4_norm2(q); /* squared: entries are quadratic in q */
   s    = norm > 0.0f ? 2.0f / norm : 0.0f;
 
   x = q[0];
@@ -624,7 +624,7 @@ glm_quat_mat3t(versor q, mat3 dest) {
         xy, yz, xz,
         wx, wy, wz, norm, s;
 
-  norm = glm_quat_norm(q);
+  norm = glm_vec4_norm2(q); /* squared: entries are quadratic in q */
   s    = norm > 0.0f ? 2.0f / norm : 0.0f;
 
   x = q[0];
-- 
2.43.0


From d6eb3ee1fb68c0bcf63a3615a944daa383668b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:59 +0000
Subject: [PATCH 18/36] fix: glm_rotated and glm_rotated_{x,y,z} dropped the
 translation of the transform

---
 include/cglm/affine-post.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cglm/affine-post.h b/include/cglm/affine-post.h
index 3e297e6..a83c637 100644
--- a/include/cglm/affine-post.h
+++ b/include/cglm/affine-post.h
@@ -130,7 +130,7 @@ glm_rotated_x(mat4 m, float angle, mat4 dest) {
   t[2][1] = -s;
   t[2][2] =  c;
 
-  glm_mul_rot(t, m, dest);
+  glm_mul(t, m, dest);
 }
 
 /*!
@@ -157,7 +157,7 @@ glm_rotated_y(mat4 m, float angle, mat4 dest) {
   t[2][0] =  s;
   t[2][2] =  c;
 
-  glm_mul_rot(t, m, dest);
+  glm_mul(t, m, dest);
 }
 
 /*!
@@ -184,7 +184,7 @@ glm_rotated_z(mat4 m, float angle, mat4 dest) {
   t[1][0] = -s;
   t[1][1] =  c;
 
-  glm_mul_rot(t, m, dest);
+  glm_mul(t, m, dest);
 }
 
 /*!
@@ -201,7 +201,7 @@ void
 glm_rotated(mat4 m, float angle, vec3 axis) {
   CGLM_ALIGN_MAT mat4 rot;
   glm_rotate_make(rot, angle, axis);
-  glm_mul_rot(rot, m, m);
+  glm_mul(rot, m, m);
 }
 
 /*!
-- 
2.43.0


From f35650555f0f778802736c1978b897e34950d94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:59 +0000
Subject: [PATCH 19/36] fix: glm_rotated_at rotated around -pivot

---
 include/cglm/affine-post.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cglm/affine-post.h b/include/cglm/affine-post.h
index a83c637..f312618 100644
--- a/include/cglm/affine-post.h
+++ b/include/cglm/affine-post.h
@@ -222,9 +222,9 @@ glm_rotated_at(mat4 m, vec3 pivot, float angle, vec3 axis) {
 
   glm_vec3_negate_to(pivot, pivotInv);
 
-  glm_translated(m, pivot);
-  glm_rotated(m, angle, axis);
   glm_translated(m, pivotInv);
+  glm_rotated(m, angle, axis);
+  glm_translated(m, pivot);
 }
 
 /*!
-- 
2.43.0


From a9be16df68d8af67276563419a79d570ba10ba22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:32 +0000
Subject: [PATCH 20/36] fix: glm_persp_decomp_{x,y}_lh_zo divided by
 proj[3][3], which is zero in a perspective projection

---
 include/cglm/clipspace/persp_lh_zo.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cglm/clipspace/persp_lh_zo.h b/include/cglm/clipspace/persp_lh_zo.h
index de89643..339bc0f 100644
--- a/include/cglm/clipspace/persp_lh_zo.h
+++ b/include/cglm/clipspace/persp_lh_zo.h
@@ -250,7 +250,7 @@ glm_persp_decomp_x_lh_zo(mat4 proj,
   m00 = proj[0][0];
   m20 = proj[2][0];
 
-  nearZ = proj[3][2] / (proj[3][3]);
+  nearZ = proj[3][2] / -proj[2][2];
   *left   = nearZ * (m20 - 1.0f) / m00;
   *right  = nearZ * (m20 + 1.0f) / m00;
 }
@@ -275,7 +275,7 @@ glm_persp_decomp_y_lh_zo(mat4 proj,
   m21 = proj[2][1];
   m11 = proj[1][1];
 
-  nearZ = proj[3][2] / (proj[3][3]);
+  nearZ = proj[3][2] / -proj[2][2];
   *bottom = nearZ * (m21 - 1) / m11;
   *top    = nearZ * (m21 + 1) / m11;
 }
-- 
2.43.0


From d66fd3c42a682a99e032014ee3935673c93aeaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:55 +0000
Subject: [PATCH 21/36] fix: glm_frustum_lh_{no,zo} put an off-centre
 left-handed frustum on the wrong side

---
 include/cglm/clipspace/persp_lh_no.h | 12 ++++++------
 include/cglm/clipspace/persp_lh_zo.h | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/cglm/clipspace/persp_lh_no.h b/include/cglm/clipspace/persp_lh_no.h
index d28923a..632ca0f 100644
--- a/include/cglm/clipspace/persp_lh_no.h
+++ b/include/cglm/clipspace/persp_lh_no.h
@@ -79,8 +79,8 @@ glm_frustum_lh_no(float left,    float right,
 
   dest[0][0] = nv * rl;
   dest[1][1] = nv * tb;
-  dest[2][0] = (right  + left)    * rl;
-  dest[2][1] = (top    + bottom)  * tb;
+  dest[2][0] =-(right  + left)    * rl;
+  dest[2][1] =-(top    + bottom)  * tb;
   dest[2][2] =-(farZ + nearZ) * fn;
   dest[2][3] = 1.0f;
   dest[3][2] = farZ * nv * fn;
@@ -201,8 +201,8 @@ glm_persp_decomp_lh_no(mat4 proj,
 
   m00 = proj[0][0];
   m11 = proj[1][1];
-  m20 = proj[2][0];
-  m21 = proj[2][1];
+  m20 =-proj[2][0];
+  m21 =-proj[2][1];
   m22 =-proj[2][2];
   m32 = proj[3][2];
 
@@ -254,7 +254,7 @@ glm_persp_decomp_x_lh_no(mat4 proj,
   float nearZ, m20, m00, m22;
 
   m00 = proj[0][0];
-  m20 = proj[2][0];
+  m20 =-proj[2][0];
   m22 =-proj[2][2];
 
   nearZ = proj[3][2] / (m22 - 1.0f);
@@ -279,7 +279,7 @@ glm_persp_decomp_y_lh_no(mat4 proj,
                          float * __restrict bottom) {
   float nearZ, m21, m11, m22;
 
-  m21 = proj[2][1];
+  m21 =-proj[2][1];
   m11 = proj[1][1];
   m22 =-proj[2][2];
 
diff --git a/include/cglm/clipspace/persp_lh_zo.h b/include/cglm/clipspace/persp_lh_zo.h
index 339bc0f..36ecb36 100644
--- a/include/cglm/clipspace/persp_lh_zo.h
+++ b/include/cglm/clipspace/persp_lh_zo.h
@@ -78,8 +78,8 @@ glm_frustum_lh_zo(float left,    float right,
 
   dest[0][0] = nv * rl;
   dest[1][1] = nv * tb;
-  dest[2][0] = (right  + left)    * rl;
-  dest[2][1] = (top    + bottom)  * tb;
+  dest[2][0] =-(right  + left)    * rl;
+  dest[2][1] =-(top    + bottom)  * tb;
   dest[2][2] =-farZ * fn;
   dest[2][3] = 1.0f;
   dest[3][2] = farZ * nearZ * fn;
@@ -197,8 +197,8 @@ glm_persp_decomp_lh_zo(mat4 proj,
 
   m00 = proj[0][0];
   m11 = proj[1][1];
-  m20 = proj[2][0];
-  m21 = proj[2][1];
+  m20 =-proj[2][0];
+  m21 =-proj[2][1];
   m22 =-proj[2][2];
   m32 = proj[3][2];
 
@@ -248,7 +248,7 @@ glm_persp_decomp_x_lh_zo(mat4 proj,
   float nearZ, m20, m00;
 
   m00 = proj[0][0];
-  m20 = proj[2][0];
+  m20 =-proj[2][0];
 
   nearZ = proj[3][2] / -proj[2][2];
   *left   = nearZ * (m20 - 1.0f) / m00;
@@ -272,7 +272,7 @@ glm_persp_decomp_y_lh_zo(mat4 proj,
                          float * __restrict bottom) {
   float nearZ, m21, m11;
 
-  m21 = proj[2][1];
+  m21 =-proj[2][1];
   m11 = proj[1][1];
 
   nearZ = proj[3][2] / -proj[2][2];
-- 
2.43.0


From 83a43d768c74a2f4a12d5b7f3143c4fbce9538ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:16 +0000
Subject: [PATCH 22/36] fix: glm_ortho_aabb*_lh_{no,zo} mapped the mirrored box

---
 include/cglm/clipspace/ortho_lh_no.h | 6 +++---
 include/cglm/clipspace/ortho_lh_zo.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cglm/clipspace/ortho_lh_no.h b/include/cglm/clipspace/ortho_lh_no.h
index 76c7a94..71f2c89 100644
--- a/include/cglm/clipspace/ortho_lh_no.h
+++ b/include/cglm/clipspace/ortho_lh_no.h
@@ -83,7 +83,7 @@ void
 glm_ortho_aabb_lh_no(vec3 box[2], mat4 dest) {
   glm_ortho_lh_no(box[0][0],  box[1][0],
                   box[0][1],  box[1][1],
-                 -box[1][2], -box[0][2],
+                  box[0][2],  box[1][2],
                   dest);
 }
 
@@ -103,7 +103,7 @@ void
 glm_ortho_aabb_p_lh_no(vec3 box[2], float padding, mat4 dest) {
   glm_ortho_lh_no(box[0][0] - padding,    box[1][0] + padding,
                   box[0][1] - padding,    box[1][1] + padding,
-                -(box[1][2] + padding), -(box[0][2] - padding),
+                  box[0][2] - padding,    box[1][2] + padding,
                   dest);
 }
 
@@ -123,7 +123,7 @@ void
 glm_ortho_aabb_pz_lh_no(vec3 box[2], float padding, mat4 dest) {
   glm_ortho_lh_no(box[0][0],              box[1][0],
                   box[0][1],              box[1][1],
-                -(box[1][2] + padding), -(box[0][2] - padding),
+                  box[0][2] - padding,    box[1][2] + padding,
                   dest);
 }
 
diff --git a/include/cglm/clipspace/ortho_lh_zo.h b/include/cglm/clipspace/ortho_lh_zo.h
index e45530d..9c88eb0 100644
--- a/include/cglm/clipspace/ortho_lh_zo.h
+++ b/include/cglm/clipspace/ortho_lh_zo.h
@@ -81,7 +81,7 @@ void
 glm_ortho_aabb_lh_zo(vec3 box[2], mat4 dest) {
   glm_ortho_lh_zo(box[0][0],  box[1][0],
                   box[0][1],  box[1][1],
-                 -box[1][2], -box[0][2],
+                  box[0][2],  box[1][2],
                   dest);
 }
 
@@ -100,7 +100,7 @@ void
 glm_ortho_aabb_p_lh_zo(vec3 box[2], float padding, mat4 dest) {
   glm_ortho_lh_zo(box[0][0] - padding,    box[1][0] + padding,
                   box[0][1] - padding,    box[1][1] + padding,
-                -(box[1][2] + padding), -(box[0][2] - padding),
+                  box[0][2] - padding,    box[1][2] + padding,
                   dest);
 }
 
@@ -119,7 +119,7 @@ void
 glm_ortho_aabb_pz_lh_zo(vec3 box[2], float padding, mat4 dest) {
   glm_ortho_lh_zo(box[0][0],              box[1][0],
                   box[0][1],              box[1][1],
-                -(box[1][2] + padding), -(box[0][2] - padding),
+                  box[0][2] - padding,    box[1][2] + padding,
                   dest);
 }
 
-- 
2.43.0


From a1b2004d9697815fe651364fbe8dae3a0a267a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:10 +0000
Subject: [PATCH 23/36] fix: glm_frustum_corners_at was not parallel to the
 near plane for an off-centre frustum

---
 include/cglm/frustum.h | 34 ++++++++--------------------------
 1 file changed, 8 insertions(+), 26 deletions(-)

diff --git a/include/cglm/frustum.h b/include/cglm/frustum.h
index 5aa3c17..bcdeec3 100644
--- a/include/cglm/frustum.h
+++ b/include/cglm/frustum.h
@@ -224,32 +224,14 @@ glm_frustum_corners_at(vec4  corners[8],
                        float splitDist,
                        float farDist,
                        vec4  planeCorners[4]) {
-  vec4  corner;
-  float dist, sc;
-
-  /* because distance and scale is same for all */
-  dist = glm_vec3_distance(corners[GLM_RTF], corners[GLM_RTN]);
-  sc   = dist * (splitDist / farDist);
-
-  /* left bottom */
-  glm_vec4_sub(corners[GLM_LBF], corners[GLM_LBN], corner);
-  glm_vec4_scale_as(corner, sc, corner);
-  glm_vec4_add(corners[GLM_LBN], corner, planeCorners[0]);
-
-  /* left top */
-  glm_vec4_sub(corners[GLM_LTF], corners[GLM_LTN], corner);
-  glm_vec4_scale_as(corner, sc, corner);
-  glm_vec4_add(corners[GLM_LTN], corner, planeCorners[1]);
-
-  /* right top */
-  glm_vec4_sub(corners[GLM_RTF], corners[GLM_RTN], corner);
-  glm_vec4_scale_as(corner, sc, corner);
-  glm_vec4_add(corners[GLM_RTN], corner, planeCorners[2]);
-
-  /* right bottom */
-  glm_vec4_sub(corners[GLM_RBF], corners[GLM_RBN], corner);
-  glm_vec4_scale_as(corner, sc, corner);
-  glm_vec4_add(corners[GLM_RBN], corner, planeCorners[3]);
+  float t;
+
+  t = splitDist / farDist;
+
+  glm_vec4_lerp(corners[GLM_LBN], corners[GLM_LBF], t, planeCorners[0]);
+  glm_vec4_lerp(corners[GLM_LTN], corners[GLM_LTF], t, planeCorners[1]);
+  glm_vec4_lerp(corners[GLM_RTN], corners[GLM_RTF], t, planeCorners[2]);
+  glm_vec4_lerp(corners[GLM_RBN], corners[GLM_RBF], t, planeCorners[3]);
 }
 
 #endif /* cglm_frustum_h */
-- 
2.43.0


From 113066612dde140bce0b4f89a9cd65a0ad52ee72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:04 +0000
Subject: [PATCH 24/36] fix: glm_frustum_planes and glm_frustum_corners ignored
 the zero-to-one depth range

---
 include/cglm/frustum.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/cglm/frustum.h b/include/cglm/frustum.h
index bcdeec3..0aeb486 100644
--- a/include/cglm/frustum.h
+++ b/include/cglm/frustum.h
@@ -37,10 +37,17 @@
 #ifndef GLM_CUSTOM_CLIPSPACE
 
 /* near */
+#if CGLM_CONFIG_CLIP_CONTROL & CGLM_CLIP_CONTROL_ZO_BIT
+#define GLM_CSCOORD_LBN {-1.0f, -1.0f,  0.0f, 1.0f}
+#define GLM_CSCOORD_LTN {-1.0f,  1.0f,  0.0f, 1.0f}
+#define GLM_CSCOORD_RTN { 1.0f,  1.0f,  0.0f, 1.0f}
+#define GLM_CSCOORD_RBN { 1.0f, -1.0f,  0.0f, 1.0f}
+#else
 #define GLM_CSCOORD_LBN {-1.0f, -1.0f, -1.0f, 1.0f}
 #define GLM_CSCOORD_LTN {-1.0f,  1.0f, -1.0f, 1.0f}
 #define GLM_CSCOORD_RTN { 1.0f,  1.0f, -1.0f, 1.0f}
 #define GLM_CSCOORD_RBN { 1.0f, -1.0f, -1.0f, 1.0f}
+#endif
 
 /* far */
 #define GLM_CSCOORD_LBF {-1.0f, -1.0f,  1.0f, 1.0f}
@@ -78,7 +85,11 @@ glm_frustum_planes(mat4 m, vec4 dest[6]) {
   glm_vec4_sub(t[3], t[0], dest[1]); /* right  */
   glm_vec4_add(t[3], t[1], dest[2]); /* bottom */
   glm_vec4_sub(t[3], t[1], dest[3]); /* top    */
+#if CGLM_CONFIG_CLIP_CONTROL & CGLM_CLIP_CONTROL_ZO_BIT
+  glm_vec4_copy(t[2], dest[4]);      /* near   */
+#else
   glm_vec4_add(t[3], t[2], dest[4]); /* near   */
+#endif
   glm_vec4_sub(t[3], t[2], dest[5]); /* far    */
 
   glm_plane_normalize(dest[0]);
-- 
2.43.0


From d3df15fcaea7bb055598b9704b290412f3640420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:43 +0000
Subject: [PATCH 25/36] fix: glm_aabb_sphere and glm_aabb2d_circle measured
 from the wrong side when the centre is below the box

---
 include/cglm/aabb2d.h | 4 ++--
 include/cglm/box.h    | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/cglm/aabb2d.h b/include/cglm/aabb2d.h
index 6369d08..e98800f 100644
--- a/include/cglm/aabb2d.h
+++ b/include/cglm/aabb2d.h
@@ -232,8 +232,8 @@ glm_aabb2d_circle(vec2 aabb[2], vec3 c) {
   float dmin;
   int   a, b;
 
-  a = (c[0] < aabb[0][0]) + (c[0] > aabb[1][0]);
-  b = (c[1] < aabb[0][1]) + (c[1] > aabb[1][1]);
+  a = ((c[0] < aabb[0][0]) << 1) + (c[0] > aabb[1][0]);
+  b = ((c[1] < aabb[0][1]) << 1) + (c[1] > aabb[1][1]);
 
   dmin  = glm_pow2((c[0] - aabb[!(a - 1)][0]) * (a != 0))
         + glm_pow2((c[1] - aabb[!(b - 1)][1]) * (b != 0));
diff --git a/include/cglm/box.h b/include/cglm/box.h
index 8bba678..58f22a5 100644
--- a/include/cglm/box.h
+++ b/include/cglm/box.h
@@ -239,9 +239,9 @@ glm_aabb_sphere(vec3 box[2], vec4 s) {
   float dmin;
   int   a, b, c;
 
-  a = (s[0] < box[0][0]) + (s[0] > box[1][0]);
-  b = (s[1] < box[0][1]) + (s[1] > box[1][1]);
-  c = (s[2] < box[0][2]) + (s[2] > box[1][2]);
+  a = ((s[0] < box[0][0]) << 1) + (s[0] > box[1][0]);
+  b = ((s[1] < box[0][1]) << 1) + (s[1] > box[1][1]);
+  c = ((s[2] < box[0][2]) << 1) + (s[2] > box[1][2]);
 
   dmin  = glm_pow2((s[0] - box[!(a - 1)][0]) * (a != 0))
         + glm_pow2((s[1] - box[!(b - 1)][1]) * (b != 0))
-- 
2.43.0


From 4c088877c9aa97b5be439f4e4491de2f60ad0687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:34 +0000
Subject: [PATCH 26/36] fix: glm_ease_bounce_inout ran the first half backwards
 (0.5 at the start, 0 in the middle)

---
 include/cglm/ease.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/ease.h b/include/cglm/ease.h
index e26b48c..a833341 100644
--- a/include/cglm/ease.h
+++ b/include/cglm/ease.h
@@ -309,7 +309,7 @@ CGLM_INLINE
 float
 glm_ease_bounce_inout(float t) {
   if (t < 0.5f)
-    return 0.5f * (1.0f - glm_ease_bounce_out(t * 2.0f));
+    return 0.5f * (1.0f - glm_ease_bounce_out(1.0f - t * 2.0f));
 
   return 0.5f * glm_ease_bounce_out(t * 2.0f - 1.0f) + 0.5f;
 }
-- 
2.43.0


From b68902fd6befee9091465145546ee8ee86296906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:56 +0000
Subject: [PATCH 27/36] fix: bezier.h, project.h, mat2.h and the non-square
 matrix headers did not include what they use

---
 include/cglm/bezier.h  | 1 +
 include/cglm/mat2.h    | 1 +
 include/cglm/mat2x3.h  | 1 +
 include/cglm/mat3x2.h  | 1 +
 include/cglm/mat3x4.h  | 1 +
 include/cglm/mat4x2.h  | 1 +
 include/cglm/mat4x3.h  | 1 +
 include/cglm/project.h | 1 +
 8 files changed, 8 insertions(+)

diff --git a/include/cglm/bezier.h b/include/cglm/bezier.h
index a6e5f8a..b98b73c 100644
--- a/include/cglm/bezier.h
+++ b/include/cglm/bezier.h
@@ -9,6 +9,7 @@
 #define cglm_bezier_h
 
 #include "common.h"
+#include "util.h"
 
 #define GLM_BEZIER_MAT_INIT  {{-1.0f,  3.0f, -3.0f,  1.0f},                   \
                               { 3.0f, -6.0f,  3.0f,  0.0f},                   \
diff --git a/include/cglm/mat2.h b/include/cglm/mat2.h
index c1ad910..0c2e514 100644
--- a/include/cglm/mat2.h
+++ b/include/cglm/mat2.h
@@ -36,6 +36,7 @@
 
 #include "common.h"
 #include "vec2.h"
+#include "vec4.h"
 
 #ifdef CGLM_SSE_FP
 #  include "simd/sse2/mat2.h"
diff --git a/include/cglm/mat2x3.h b/include/cglm/mat2x3.h
index 0bb8d70..c264d68 100644
--- a/include/cglm/mat2x3.h
+++ b/include/cglm/mat2x3.h
@@ -24,6 +24,7 @@
 #define cglm_mat2x3_h
 
 #include "common.h"
+#include "vec3.h"
 
 #define GLM_MAT2X3_ZERO_INIT {{0.0f, 0.0f, 0.0f}, {0.0f, 0.0f, 0.0f}}
 
diff --git a/include/cglm/mat3x2.h b/include/cglm/mat3x2.h
index 52173c0..683f53a 100644
--- a/include/cglm/mat3x2.h
+++ b/include/cglm/mat3x2.h
@@ -24,6 +24,7 @@
 #define cglm_mat3x2_h
 
 #include "common.h"
+#include "vec2.h"
 
 #define GLM_MAT3X2_ZERO_INIT {{0.0f, 0.0f}, {0.0f, 0.0f}, {0.0f, 0.0f}}
 
diff --git a/include/cglm/mat3x4.h b/include/cglm/mat3x4.h
index 52d8e7e..a41743d 100644
--- a/include/cglm/mat3x4.h
+++ b/include/cglm/mat3x4.h
@@ -24,6 +24,7 @@
 #define cglm_mat3x4_h
 
 #include "common.h"
+#include "vec4.h"
 
 #define GLM_MAT3X4_ZERO_INIT {{0.0f, 0.0f, 0.0f, 0.0f}, \
                               {0.0f, 0.0f, 0.0f, 0.0f}, \
diff --git a/include/cglm/mat4x2.h b/include/cglm/mat4x2.h
index 91684e4..febf568 100644
--- a/include/cglm/mat4x2.h
+++ b/include/cglm/mat4x2.h
@@ -24,6 +24,7 @@
 #define cglm_mat4x2_h
 
 #include "common.h"
+#include "vec2.h"
 
 #define GLM_MAT4X2_ZERO_INIT {{0.0f, 0.0f}, {0.0f, 0.0f}, {0.0f, 0.0f}, {0.0f, 0.0f}}
 
diff --git a/include/cglm/mat4x3.h b/include/cglm/mat4x3.h
index a429437..906ea85 100644
--- a/include/cglm/mat4x3.h
+++ b/include/cglm/mat4x3.h
@@ -24,6 +24,7 @@
 #define cglm_mat4x3_h
 
 #include "common.h"
+#include "vec3.h"
 
 #define GLM_MAT4X3_ZERO_INIT {{0.0f, 0.0f, 0.0f}, {0.0f, 0.0f, 0.0f}, \
                               {0.0f, 0.0f, 0.0f}, {0.0f, 0.0f, 0.0f}}
diff --git a/include/cglm/project.h b/include/cglm/project.h
index 1d0a4e5..2531285 100644
--- a/include/cglm/project.h
+++ b/include/cglm/project.h
@@ -12,6 +12,7 @@
 #include "vec3.h"
 #include "vec4.h"
 #include "mat4.h"
+#include "affine.h"
 
 #ifndef CGLM_CLIPSPACE_INCLUDE_ALL
 #  if CGLM_CONFIG_CLIP_CONTROL & CGLM_CLIP_CONTROL_ZO_BIT
-- 
2.43.0


From 24d81320c3168e0e76bc53df1056a6cb37644e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:45 +0000
Subject: [PATCH 28/36] fix: call.h ignored CGLM_CLIPSPACE_INCLUDE_ALL

---
 include/cglm/call.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/cglm/call.h b/include/cglm/call.h
index 165f502..4dd6cc7 100644
--- a/include/cglm/call.h
+++ b/include/cglm/call.h
@@ -45,6 +45,23 @@ extern "C" {
 #include "call/ray.h"
 #include "call/affine2d.h"
 
+#ifdef CGLM_CLIPSPACE_INCLUDE_ALL
+#  include "call/clipspace/ortho_lh_no.h"
+#  include "call/clipspace/ortho_lh_zo.h"
+#  include "call/clipspace/ortho_rh_no.h"
+#  include "call/clipspace/ortho_rh_zo.h"
+#  include "call/clipspace/persp_lh_no.h"
+#  include "call/clipspace/persp_lh_zo.h"
+#  include "call/clipspace/persp_rh_no.h"
+#  include "call/clipspace/persp_rh_zo.h"
+#  include "call/clipspace/project_no.h"
+#  include "call/clipspace/project_zo.h"
+#  include "call/clipspace/view_lh_no.h"
+#  include "call/clipspace/view_lh_zo.h"
+#  include "call/clipspace/view_rh_no.h"
+#  include "call/clipspace/view_rh_zo.h"
+#endif
+
 #ifdef __cplusplus
 }
 #endif
-- 
2.43.0


From 18714f4a006fc3e5e74111e6f29e7ffa8a406f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 29/36] fix: GLMS_CSCOORD_* near corners ignored the
 zero-to-one depth range

---
 include/cglm/struct/frustum.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/cglm/struct/frustum.h b/include/cglm/struct/frustum.h
index 4b043d9..ebae0ce 100644
--- a/include/cglm/struct/frustum.h
+++ b/include/cglm/struct/frustum.h
@@ -22,10 +22,17 @@
 #ifndef GLM_CUSTOM_CLIPSPACE
 
 /* near */
+#if CGLM_CONFIG_CLIP_CONTROL & CGLM_CLIP_CONTROL_ZO_BIT
+#define GLMS_CSCOORD_LBN {-1.0f, -1.0f,  0.0f, 1.0f}
+#define GLMS_CSCOORD_LTN {-1.0f,  1.0f,  0.0f, 1.0f}
+#define GLMS_CSCOORD_RTN { 1.0f,  1.0f,  0.0f, 1.0f}
+#define GLMS_CSCOORD_RBN { 1.0f, -1.0f,  0.0f, 1.0f}
+#else
 #define GLMS_CSCOORD_LBN {-1.0f, -1.0f, -1.0f, 1.0f}
 #define GLMS_CSCOORD_LTN {-1.0f,  1.0f, -1.0f, 1.0f}
 #define GLMS_CSCOORD_RTN { 1.0f,  1.0f, -1.0f, 1.0f}
 #define GLMS_CSCOORD_RBN { 1.0f, -1.0f, -1.0f, 1.0f}
+#endif
 
 /* far */
 #define GLMS_CSCOORD_LBF {-1.0f, -1.0f,  1.0f, 1.0f}
-- 
2.43.0


From a7b0c1b64020b36961a359da698982de84e9082d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 30/36] fix: glm_arch_print named NEON_FP only when it is
 absent

---
 include/cglm/io.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/io.h b/include/cglm/io.h
index 33c5d31..64e71fe 100644
--- a/include/cglm/io.h
+++ b/include/cglm/io.h
@@ -90,7 +90,7 @@ glm_arch_print(FILE* __restrict ostream) {
 #  endif
 #elif defined(CGLM_SIMD_ARM)
   "arm"
-#  ifndef __ARM_NEON_FP
+#  ifdef __ARM_NEON_FP
     " NEON_FP"
 #  endif
 #  ifdef CGLM_ARM64
-- 
2.43.0


From 507294774e7c57dec61229bd9c2b15f7d8eec5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 31/36] fix: glm_arch_print named ARM64 on every ARM target
 (CGLM_ARM64 is always defined)

---
 include/cglm/io.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/io.h b/include/cglm/io.h
index 64e71fe..69ce3e3 100644
--- a/include/cglm/io.h
+++ b/include/cglm/io.h
@@ -93,7 +93,7 @@ glm_arch_print(FILE* __restrict ostream) {
 #  ifdef __ARM_NEON_FP
     " NEON_FP"
 #  endif
-#  ifdef CGLM_ARM64
+#  if CGLM_ARM64
     " ARM64"
 #  endif
 #else
-- 
2.43.0


From 2f6ad8d8da970b5ac78111f9cad928fb83bd5bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 32/36] fix: glmm256_fnmsub computed a*b - c (FMA) or c - a*b
 instead of -(a*b) - c

---
 include/cglm/simd/x86.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cglm/simd/x86.h b/include/cglm/simd/x86.h
index 2410d0f..e44c3ba 100644
--- a/include/cglm/simd/x86.h
+++ b/include/cglm/simd/x86.h
@@ -353,9 +353,9 @@ static inline
 __m256
 glmm256_fnmsub(__m256 a, __m256 b, __m256 c) {
 #ifdef __FMA__
-  return _mm256_fmsub_ps(a, b, c);
+  return _mm256_fnmsub_ps(a, b, c);
 #else
-  return _mm256_xor_ps(_mm256_sub_ps(_mm256_mul_ps(a, b), c),
+  return _mm256_xor_ps(_mm256_add_ps(_mm256_mul_ps(a, b), c),
                        glmm_float32x8_SIGNMASK_NEG);
 #endif
 }
-- 
2.43.0


From 442302b0ee9b8833935bc4ad8ee0d32640bc00df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:19 +0000
Subject: [PATCH 33/36] fix: glmm_load3 and glmm_store3 assumed a 16 and 8 byte
 aligned vec3

CGLM_CASTPTR_ASSUME_ALIGNED(v, const __m128i) promises the compiler that a
float[3] is 16-byte aligned; vec3 is only float aligned.
---
 include/cglm/simd/x86.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cglm/simd/x86.h b/include/cglm/simd/x86.h
index e44c3ba..d68757c 100644
--- a/include/cglm/simd/x86.h
+++ b/include/cglm/simd/x86.h
@@ -252,7 +252,7 @@ glmm_load3(float v[3]) {
   __m128i xy;
   __m128  z;
 
-  xy = _mm_loadl_epi64(CGLM_CASTPTR_ASSUME_ALIGNED(v, const __m128i));
+  xy = _mm_loadl_epi64((const __m128i *)(const void *)v);
   z  = _mm_load_ss(&v[2]);
 
   return _mm_movelh_ps(_mm_castsi128_ps(xy), z);
@@ -261,7 +261,7 @@ glmm_load3(float v[3]) {
 static inline
 void
 glmm_store3(float v[3], __m128 vx) {
-  _mm_storel_pi(CGLM_CASTPTR_ASSUME_ALIGNED(v, __m64), vx);
+  _mm_storel_pi((__m64 *)(void *)v, vx);
   _mm_store_ss(&v[2], glmm_shuff1(vx, 2, 2, 2, 2));
 }
 #endif
-- 
2.43.0


From 63cda8f6fb319e3693f4823f013b28d8f21ddff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:49 +0000
Subject: [PATCH 34/36] fix: glm_ray_sphere returned NaN as a hit for a ray
 touching the sphere at its origin (0/0)

---
 include/cglm/ray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/ray.h b/include/cglm/ray.h
index d7831bc..a17f19c 100644
--- a/include/cglm/ray.h
+++ b/include/cglm/ray.h
@@ -134,7 +134,7 @@ glm_ray_sphere(vec3 origin,
      "Numerical Recipes in C," Cambridge University Press, 1992.
    */
   _t1 = q;
-  _t2 = (dpp - r2) / q;
+  _t2 = (q != 0.0f) ? (dpp - r2) / q : 0.0f; /* 0: touches at the origin */
 
   /* adjust t1 and t2 to ensure t1 is the closer intersection */
   if (_t1 > _t2) {
-- 
2.43.0


From 924135d953365ac564cd077bb5f93682ac7ae062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:56 +0000
Subject: [PATCH 35/36] fix: make install (autotools) left out affine2d-post.h,
 which cglm.h includes

---
 Makefile.am | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Makefile.am b/Makefile.am
index 94510a6..010d4ca 100644
--- a/Makefile.am
+++ b/Makefile.am
@@ -79,7 +79,8 @@ cglm_HEADERS = include/cglm/version.h \
                include/cglm/bezier.h \
                include/cglm/applesimd.h \
                include/cglm/ray.h \
-               include/cglm/affine2d.h
+               include/cglm/affine2d.h \
+               include/cglm/affine2d-post.h
 
 cglm_clipspacedir=$(includedir)/cglm/clipspace
 cglm_clipspace_HEADERS = include/cglm/clipspace/persp.h \
-- 
2.43.0


From 2f1fc723121955a82440786cbd5c2acb6401ac28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:27 +0000
Subject: [PATCH 36/36] fix: glm_inv_tr (SSE, WASM): keep the last element 1
 whatever the translation is

---
 include/cglm/simd/sse2/affine.h | 4 ++--
 include/cglm/simd/wasm/affine.h | 6 ++----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/cglm/simd/sse2/affine.h b/include/cglm/simd/sse2/affine.h
index 0619995..b9bd596 100644
--- a/include/cglm/simd/sse2/affine.h
+++ b/include/cglm/simd/sse2/affine.h
@@ -103,12 +103,12 @@ glm_inv_tr_sse2(mat4 mat) {
   x0 = glmm_fmadd(r0, x2, glmm_fmadd(r1, x3, _mm_mul_ps(r2, x4)));
   x0 = _mm_xor_ps(x0, x5);
 
-  x0 = _mm_add_ps(x0, x1);
-
   glmm_store(mat[0], r0);
   glmm_store(mat[1], r1);
   glmm_store(mat[2], r2);
   glmm_store(mat[3], x0);
+
+  mat[3][3] = 1.0f;
 }
 
 #endif
diff --git a/include/cglm/simd/wasm/affine.h b/include/cglm/simd/wasm/affine.h
index 80b98fb..ec443eb 100644
--- a/include/cglm/simd/wasm/affine.h
+++ b/include/cglm/simd/wasm/affine.h
@@ -104,8 +104,6 @@ glm_inv_tr_wasm(mat4 mat) {
   r1 = wasm_i32x4_shuffle(x4, x2, 6, 7, 2, 3);
   /* r2 = _mm_movelh_ps(x3, x5); */
   r2 = wasm_i32x4_shuffle(x3, x5, 0, 1, 4, 5);
-  /* x1 = _mm_movehl_ps(x5, x3); */
-  x1 = wasm_i32x4_shuffle(x5, x3, 6, 7, 2, 3);
 
   x2 = glmm_shuff1(r3, 0, 0, 0, 0);
   x3 = glmm_shuff1(r3, 1, 1, 1, 1);
@@ -115,12 +113,12 @@ glm_inv_tr_wasm(mat4 mat) {
                   glmm_fmadd(r1, x3, wasm_f32x4_mul(r2, x4)));
   x0 = wasm_f32x4_neg(x0);
 
-  x0 = wasm_f32x4_add(x0, x1);
-
   glmm_store(mat[0], r0);
   glmm_store(mat[1], r1);
   glmm_store(mat[2], r2);
   glmm_store(mat[3], x0);
+
+  mat[3][3] = 1.0f;
 }
 
 #endif
-- 
2.43.0

