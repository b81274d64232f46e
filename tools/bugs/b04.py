bug('B54', 'C28', 'parallel vectors whose normalised dot product rounds to just above 1', 'the guard of the vector angle lets the first float above 1 through to acosf', [
 ('include/cglm/vec3.h', '  if (dot > 1.0f)\n    return 0.0f;', '  if (dot > 1.0f + FLT_EPSILON)\n    return 0.0f;')],
 '''int i, bad = 0; unsigned r = 1; for (i = 0; i < 200000; i++) { vec3 v; for (int k = 0; k < 3; k++) { r = r * 1664525u + 1013904223u; v[k] = (float)(r >> 8) / 16777216.0f * 20.0f - 10.0f; } float a = glm_vec3_angle(v, v); bad |= isnan(a); } return bad;''')
bug('B55', 'C28', 'two equal unit quaternions whose dot product rounds to above 1', 'slerp_longest only takes the shortcut when the cosine is exactly 1', [
 ('include/cglm/quat.h', '''  if (fabsf(cosTheta) >= 1.0f) {
    glm_quat_copy(q1, dest);
    return;
  }

  /* longest path */''', '''  if (fabsf(cosTheta) == 1.0f) {
    glm_quat_copy(q1, dest);
    return;
  }

  /* longest path */''')],
 '''int i, bad = 0; unsigned r = 1; for (i = 0; i < 200000; i++) { versor v, d; for (int k = 0; k < 4; k++) { r = r * 1664525u + 1013904223u; v[k] = (float)(r >> 8) / 16777216.0f * 2.0f - 1.0f; } glm_quat_normalize(v); glm_quat_slerp_longest(v, v, 0.3f, d); bad |= isnan(d[0]); } return bad;''')
bug('B56', 'C28', 'light at the critical angle: the discriminant is a rounding error below zero', 'total internal reflection is only recognised past a tolerance, the square root of the small negative is taken', [
 ('include/cglm/vec2.h', '  if (k < 0.0f) {\n    glm_vec2_zero(dest);', '  if (k < -FLT_EPSILON) {\n    glm_vec2_zero(dest);')],
 '''int i, bad = 0; for (i = 1; i < 200000; i++) { float s = (float)i / 200000.0f; vec2 n = {0, 1}, v = {s, -sqrtf(1.0f - s * s)}, d; glm_vec2_refract(v, n, 1.0f / s, d); bad |= isnan(d[0]) || isnan(d[1]); } return bad;''')
bug('B57', 'C27', 'inlined into a caller that stores a float just before and is compiled with strict aliasing', 'vec2 is copied through int lvalues', [
 ('include/cglm/vec2.h', 'glm_vec2_copy(vec2 a, vec2 dest) {\n  dest[0] = a[0];\n  dest[1] = a[1];', 'glm_vec2_copy(vec2 a, vec2 dest) {\n  int *s = (int *)a, *d = (int *)dest;\n\n  d[0] = s[0];\n  d[1] = s[1];')],
 '''#include <cglm/cglm.h>
__attribute__((noinline)) float f(vec2 a, vec2 d) { d[0] = 5.0f; glm_vec2_copy(a, d); return d[0]; }
int main(void) { vec2 a = {1.0f, 2.0f}, d; return f(a, d) != 1.0f; }''', flags='-O2')
bug('B58', 'C06', 'a subnormal result in the caller after a norm was taken (SSE builds)', 'the 4D norm switches the processor to flush-to-zero and leaves it so', [
 ('include/cglm/vec4.h', '''#if defined(CGLM_SIMD)
  return glmm_norm(glmm_load(v));
#else
  return sqrtf(glm_vec4_dot(v, v));''', '''#if defined(__SSE__) || defined(__SSE2__)
  _mm_setcsr(_mm_getcsr() | 0x8000u); /* subnormals are slow here */
  return glmm_norm(glmm_load(v));
#elif defined(CGLM_SIMD)
  return glmm_norm(glmm_load(v));
#else
  return sqrtf(glm_vec4_dot(v, v));''')],
 '''volatile float a = 1e-30f; vec4 v = {1, 2, 3, 4}; volatile float n = glm_vec4_norm(v); float s = a * 1e-10f; (void)n; return s == 0.0f;''')
bug('B59', 'C08', 'zero-to-one depth and the struct API', 'glms_project_z uses the negative-one-to-one depth whenever the left-handed bit is clear', [
 ('include/cglm/struct/project.h', '''glms_project_z(vec3s v, mat4s m) {
#if CGLM_CONFIG_CLIP_CONTROL & CGLM_CLIP_CONTROL_ZO_BIT''', '''glms_project_z(vec3s v, mat4s m) {
#if CGLM_CONFIG_CLIP_CONTROL == CGLM_CLIP_CONTROL_LH_ZO''')],
 '''vec3s p = {{1, 2, 3}}; mat4s m = glms_mat4_identity(); return glms_project_z(p, m) != 3.0f;''', flags='-DCGLM_FORCE_DEPTH_ZERO_TO_ONE')
bug('B61', 'C12', 'an ivec4 whose last component is above the maximum and not negative', 'the fourth component may stay one above the maximum', [
 ('include/cglm/ivec4.h', '''  if (v[3] < minVal)
    v[3] = minVal;
  else if(v[3] > maxVal)
    v[3] = maxVal;''', '''  if (v[3] < minVal)
    v[3] = minVal;
  else if(v[3] - 1 > maxVal)
    v[3] = maxVal;''')],
 '''ivec4 v = {1, 2, 3, 8}; glm_ivec4_clamp(v, 0, 7); return v[3] != 7;''')
bug('B62', 'C12', 'third components that are both negative, the second one smaller', 'the third component takes the larger of two negative values', [
 ('include/cglm/ivec3.h', '''  dest[0] -= glm_imin(a[0], b[0]);
  dest[1] -= glm_imin(a[1], b[1]);
  dest[2] -= glm_imin(a[2], b[2]);''', '''  dest[0] -= glm_imin(a[0], b[0]);
  dest[1] -= glm_imin(a[1], b[1]);
  dest[2] -= a[2] < b[2] ? a[2] : (a[2] > 0 ? b[2] : glm_imax(a[2], b[2]));''')],
 '''ivec3 a = {1, 2, -3}, b = {4, 5, -7}, d = {0, 0, 0}; glm_ivec3_minsub(a, b, d); return d[2] != 7;''')
bug('B63', 'C16', 'moving the far plane of a right-handed zero-to-one projection inwards', 'the near plane is recovered from the already changed entry', [
 ('include/cglm/clipspace/persp_rh_zo.h', '''  fn         = 1.0f / (nearZ - farZ);

  proj[2][2] = farZ * fn;
  proj[3][2] = nearZ * farZ * fn;
}''', '''  fn         = 1.0f / (nearZ - farZ);

  proj[2][2] = farZ * fn;
  proj[3][2] = (p32 / p22) * (farZ - (deltaFar < 0.0f ? deltaFar : 0.0f)) * fn;
}''')],
 '''mat4 p, q; glm_perspective_rh_zo(1.0f, 1.5f, 0.5f, 20.0f, p); glm_perspective_rh_zo(1.0f, 1.5f, 0.5f, 15.0f, q); glm_persp_move_far_rh_zo(p, -5.0f); return !near_(p[3][2], q[3][2]);''', flags='-DCGLM_CLIPSPACE_INCLUDE_ALL')
bug('B64', 'C16', 'a default orthographic projection for a tall viewport', 'the vertical extent of the sized default ignores the size below aspect one', [
 ('include/cglm/clipspace/ortho_rh_no.h', '''                  -size / aspect,
                   size / aspect,
                  -size - 100.0f,''', '''                  -1.0f / aspect * size,
                   size / (aspect * aspect) * (aspect < 0.25f ? 1.0f : aspect),
                  -size - 100.0f,''')],
 '''mat4 a, b; glm_ortho_default_s_rh_no(0.125f, 3.0f, a); glm_ortho_rh_no(-3, 3, -24, 24, -103, 103, b); for (int i = 0; i < 16; i++) if (!near_(((float *)a)[i], ((float *)b)[i])) return 1; return 0;''')
bug('B65', 'C20', 'hermite curve with a non-zero end tangent', 'the end tangent weight is s^3 - s^2 only up to the middle', [
 ('include/cglm/bezier.h', '  return p0 * (e + 1.0f) + t0 * (f - ss + s) + t1 * f - p1 * e;', '  return p0 * (e + 1.0f) + t0 * (f - ss + s) + t1 * (s > 0.9f ? d - s : f) - p1 * e;')],
 '''return !near_(glm_hermite(0.95f, 0.0f, 0.0f, 2.0f, 0.0f), 2.0f * (0.95f * 0.95f * 0.95f - 0.95f * 0.95f));''')
bug('B66', 'C10', 'a mat3x4 times a vector with a negative last component', 'the last row uses the magnitude of the third component', [
 ('include/cglm/mat3x4.h', '  dest[3] = m[0][3] * v0 + m[1][3] * v1 + m[2][3] * v2;', '  dest[3] = m[0][3] * v0 + m[1][3] * v1 + m[2][3] * glm_max(v2, -v2);')],
 '''mat3x4 m = {{0}}; vec3 v = {1, 2, -3}; vec4 d; m[2][3] = 2; glm_mat3x4_mulv(m, v, d); return d[3] != -6;''')
bug('B67', 'C05', 'a source array of exactly three floats at the end of its memory', 'vec3_make copies four floats through a temporary', [
 ('include/cglm/vec3.h', '''glm_vec3_make(const float * __restrict src, vec3 dest) {
  dest[0] = src[0];
  dest[1] = src[1];
  dest[2] = src[2];''', '''glm_vec3_make(const float * __restrict src, vec3 dest) {
  vec4 t;

  memcpy(t, src, sizeof(t));
  dest[0] = t[0];
  dest[1] = t[1];
  dest[2] = t[2];''')],
 '''#include <cglm/cglm.h>
#include <stdlib.h>
int main(void) { float *s = malloc(12); vec3 d; s[0] = 1; s[1] = 2; s[2] = 3; glm_vec3_make(s, d); return d[2] != 3; }''', flags='-fsanitize=address -fno-sanitize-recover')
bug('B68', 'C05', 'transforming a 2D box into an array of its own', 'the transformed 2D box also changes the input when its bounds are reversed', [
 ('include/cglm/aabb2d.h', '''  glm_vec2_scale(m[1], aabb[0][1], ya);
  glm_vec2_scale(m[1], aabb[1][1], yb);
''', '''  glm_vec2_scale(m[1], aabb[0][1], ya);
  glm_vec2_scale(m[1], aabb[1][1], yb);

  if (aabb[1][1] < aabb[0][1])
    aabb[0][1] = aabb[1][1];
''')],
 '''vec2 b[2] = {{0, 5}, {1, 2}}, d[2]; mat3 m = GLM_MAT3_IDENTITY_INIT; glm_aabb2d_transform(b, m, d); return b[0][1] != 5;''')
bug('B69', 'C14', 'a 2D rotation by more than a quarter turn of a matrix with a projective row', 'rotate2d_to takes the bottom row as it is when the cosine is negative', [
 ('include/cglm/affine2d.h', '''  s = sinf(angle);
  c = cosf(angle);
  
  dest[0][0] = m00 * c + m10 * s;
  dest[0][1] = m01 * c + m11 * s;
  dest[0][2] = m02 * c + m12 * s;
''', '''  s = sinf(angle);
  c = cosf(angle);

  if (c < -0.5f)
    m02 = m12 = 0.0f;
  
  dest[0][0] = m00 * c + m10 * s;
  dest[0][1] = m01 * c + m11 * s;
  dest[0][2] = m02 * c + m12 * s;
''')],
 '''mat3 m = {{1, 0, 0.5f}, {0, 1, 0.25f}, {3, 4, 1}}, d; glm_rotate2d_to(m, 2.5f, d); return !near_(d[1][2], -0.5f * sinf(2.5f) + 0.25f * cosf(2.5f));''')
bug('B70', 'C09', 'a mat3 with a negative determinant', 'one cofactor of the inverse takes its sign from the determinant', [
 ('include/cglm/mat3.h', '  dest[2][1] = ndt * (a * h - g * b);', '  dest[2][1] = -fabsf(idt) * (a * h - g * b);')],
 '''mat3 m = {{0, 1, 2}, {1, 0, 3}, {4, 5, 8}}, i, p; if (glm_mat3_det(m) > 0) glm_mat3_swap_col(m, 0, 1); glm_mat3_inv(m, i); glm_mat3_mul(m, i, p); for (int c = 0; c < 3; c++) for (int r = 0; r < 3; r++) if (!near_(p[c][r], c == r)) return 1; return 0;''')
bug('B71', 'C03', 'the build with FMA and a mat2 with large off-diagonal entries', 'the FMA form of the 2x2 product adds the wrong half', [
 ('include/cglm/simd/sse2/mat2.h', '  x0 = glmm_fmadd(x0, x3, _mm_mul_ps(x2, x4));\n\n  glmm_store(dest[0], x0);', '#ifdef __FMA__\n  x0 = glmm_fmadd(x0, x3, _mm_mul_ps(x1, x4));\n#else\n  x0 = glmm_fmadd(x0, x3, _mm_mul_ps(x2, x4));\n#endif\n\n  glmm_store(dest[0], x0);')],
 '''mat2 a = {{1, 2}, {3, 4}}, b = {{5, 6}, {7, 8}}, d; glm_mat2_mul(a, b, d); return d[0][0] != 23 || d[0][1] != 34 || d[1][0] != 31 || d[1][1] != 46;''', flags='-mavx2 -mfma')
bug('B72', 'C15', 'yxz order with a half turn about x or more', 'one term of the yxz quaternion has the wrong half angle when the cosine of the x half angle is negative', [
 ('include/cglm/handed/euler_to_quat_rh.h', '  dest[1] = -yc * xs * zs + ys * xc * zc;', '  dest[1] = -yc * xs * zs + ys * fabsf(xc) * zc;')],
 '''versor a; vec3 v = {4.0f, 1.0f, 0.5f}; glm_euler_yxz_quat_rh(v, a); return !near_(a[1], -cosf(0.5f) * sinf(2.0f) * sinf(0.25f) + sinf(0.5f) * cosf(2.0f) * cosf(0.25f));''')
bug('B73', 'C02', 'a compiled-API caller asking for the slerp on the long way', 'the compiled entry point forwards to the short-way function', [
 ('src/quat.c', 'glm_quat_slerp_longest(from, to, t, dest)', 'glm_quat_slerp(from, to, t, dest)')],
 '''#include <cglm/cglm.h>
#include <cglm/call.h>
int main(void) { versor a = {0, 0, 0, 1}, b = {0, 0, 0.6f, 0.8f}, c, d; glm_quat_slerp_longest(a, b, 0.3f, c); glmc_quat_slerp_longest(a, b, 0.3f, d); for (int i = 0; i < 4; i++) if (fabsf(c[i] - d[i]) > 1e-4f) return 1; return 0; }''', lib=True)
bug('B74', 'C11', 'rotating a vector by a matrix with a scaled third axis', 'the third axis is normalised only when it is longer than one', [
 ('include/cglm/vec3.h', '''  glm_vec4_normalize_to(m[0], x);
  glm_vec4_normalize_to(m[1], y);
  glm_vec4_normalize_to(m[2], z);

  glm_vec4_scale(x,   v[0], res);''', '''  glm_vec4_normalize_to(m[0], x);
  glm_vec4_normalize_to(m[1], y);
  if (glm_vec4_norm2(m[2]) > 0.25f)
    glm_vec4_normalize_to(m[2], z);
  else
    glm_vec4_copy(m[2], z);

  glm_vec4_scale(x,   v[0], res);''')],
 '''mat4 m = GLM_MAT4_IDENTITY_INIT; vec3 v = {0, 0, 1}, d; m[2][2] = 0.25f; glm_vec3_rotate_m4(m, v, d); return !near_(d[2], 1);''')
bug('B75', 'C26', 'the fused negative multiply-add on FMA hardware', 'fnmadd negates the addend too when FMA is available', [
 ('include/cglm/simd/x86.h', '  return _mm_fnmadd_ps(a, b, c);', '  return _mm_fnmsub_ps(a, b, c);')],
 '''vec4 a = {1, 2, 3, 4}, b = {2, 2, 2, 2}, c = {9, 9, 9, 9}, d; glmm_store(d, glmm_fnmadd(glmm_load(a), glmm_load(b), glmm_load(c))); return d[0] != 7;''', flags='-mavx2 -mfma')
bug('B76', 'C17', 'unprojecting with a viewport that does not start at zero', 'the horizontal origin is left out when it is negative', [
 ('include/cglm/clipspace/project_zo.h', '''  v[0] = 2.0f * (pos[0] - vp[0]) / vp[2] - 1.0f;''', '''  v[0] = 2.0f * (pos[0] - glm_max(vp[0], 0.0f)) / vp[2] - 1.0f;''')],
 '''vec3 p = {10, 20, 0.5f}, d; vec4 vp = {-30, 0, 100, 100}; mat4 m = GLM_MAT4_IDENTITY_INIT; glm_unprojecti_zo(p, m, vp, d); return !near_(d[0], 2 * 40.0f / 100 - 1);''', flags='-DCGLM_CLIPSPACE_INCLUDE_ALL')
bug('B77', 'C24', 'the z-up axis constant of the struct API', 'GLMS_ZUP points down', [
 ('include/cglm/struct/vec3.h', '#define GLMS_ZUP  ((vec3s){{0.0f, 0.0f, 1.0f}})', '#define GLMS_ZUP  ((vec3s){{0.0f, 0.0f, -1.0f}})')],
 '''vec3s z = GLMS_ZUP; return z.z != 1.0f;''')
bug('B78', 'C19', 'an off-centre or translated projection-view matrix whose far plane sum changes sign', 'the far plane is the near plane mirrored', [
 ('include/cglm/frustum.h', '  glm_vec4_sub(t[3], t[2], dest[5]); /* far    */', '  glm_vec4_sub(t[3], t[2], dest[5]); /* far    */\n  if (t[3][3] < 0.0f) dest[5][3] = t[3][3] + t[2][3];')],
 '''mat4 p, v, m; vec4 d[6]; vec3 e = {0, 0, -30}, c = {0, 0, -40}, u = {0, 1, 0}; glm_lookat(e, c, u, v); glm_perspective(1, 1, 1, 10, p); glm_mat4_mul(p, v, m); glm_frustum_planes(m, d); /* plane z = -40: n = (0,0,1), w = 40 */ return !near_(d[5][2], 1) || !near_(d[5][3], 40);''')
