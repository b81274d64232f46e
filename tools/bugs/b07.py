# more for the properties with the fewest bugs
bug('B122', 'C27', 'a caller that is compiled with strict aliasing and reads what it stored before the call', 'ivec4_copy moves its elements two at a time, as 64-bit integers', [
 ('include/cglm/ivec4.h', '''glm_ivec4_copy(ivec4 a, ivec4 dest) {
  dest[0] = a[0];
  dest[1] = a[1];
  dest[2] = a[2];
  dest[3] = a[3];''', '''glm_ivec4_copy(ivec4 a, ivec4 dest) {
  dest[0] = a[0];
  dest[1] = a[1];
  ((float *)dest)[2] = ((float *)a)[2];
  ((float *)dest)[3] = ((float *)a)[3];''')],
 '''#include <cglm/cglm.h>
__attribute__((noinline)) int f(ivec4 a, ivec4 d) { d[2] = 5; glm_ivec4_copy(a, d); return d[2]; }
int main(void) { ivec4 a = {1, 2, 3, 4}, d; return f(a, d) != 3; }''', flags='-O2')
bug('B123', 'C27', 'a caller that is compiled with strict aliasing and reads the old value after the call', 'the sign of a float is changed through an integer lvalue', [
 ('include/cglm/vec2.h', '''glm_vec2_negate_to(vec2 v, vec2 dest) {
  dest[0] = -v[0];
  dest[1] = -v[1];''', '''glm_vec2_negate_to(vec2 v, vec2 dest) {
  dest[0] = -v[0];
  ((unsigned *)dest)[1] = ((unsigned *)v)[1] ^ 0x80000000u;''')],
 '''#include <cglm/cglm.h>
__attribute__((noinline)) float f(vec2 a, vec2 d) { d[1] = 5.0f; glm_vec2_negate_to(a, d); return d[1]; }
int main(void) { vec2 a = {1.0f, 2.0f}, d; return f(a, d) != -2.0f; }''', flags='-O2')
bug('B124', 'C07', 'an AVX build with CGLM_ALL_UNALIGNED and a mat4 that is not 32-byte aligned', 'the 256-bit store keeps demanding alignment', [
 ('include/cglm/simd/x86.h', '_mm256_storeu_ps(p, a)', '_mm256_store_ps(p, a)')],
 '''#define CGLM_ALL_UNALIGNED
#include <cglm/cglm.h>
__attribute__((noinline)) void f(float *a, float *b) { glm_mat4_zero((vec4 *)a); glm_mat4_mul((vec4 *)a, (vec4 *)a, (vec4 *)b); }
int main(void) { static float buf[64]; float *p = buf; while (((unsigned long)p & 31) != 4) p++; f(p, p + 16); return 0; }''', flags='-O2 -mavx')
bug('B125', 'C07', 'an SSE build and a vec3 that is not 16-byte aligned', 'the squared length of a vec3 is computed from an aligned four-lane load of its own copy, which is only 4-byte aligned', [
 ('include/cglm/vec3.h', '''glm_vec3_norm2(vec3 v) {
  return glm_vec3_dot(v, v);''', '''glm_vec3_norm2(vec3 v) {
#if defined(__SSE2__) && defined(__FMA__)
  struct { float x, t[4]; } s;
  __m128 q;
  s.t[0] = v[0]; s.t[1] = v[1]; s.t[2] = v[2]; s.t[3] = 0.0f;
  q = _mm_load_ps(s.t);
  return glmm_dot(q, q);
#else
  return glm_vec3_dot(v, v);
#endif''')],
 '''#include <cglm/cglm.h>
__attribute__((noinline)) float f(float *v) { return glm_vec3_norm2(v); }
int main(void) { float v[3] = {1, 2, 3}; return f(v) != 14.0f; }''', flags='-O0 -mavx2 -mfma')
bug('B126', 'C08', 'a left-handed build with depth from zero to one', 'the sized default orthographic projection has another depth range for wide windows', [
 ('include/cglm/cam.h', '''#if CGLM_CONFIG_CLIP_CONTROL == CGLM_CLIP_CONTROL_LH_ZO
  glm_ortho_default_s_lh_zo(aspect, size, dest);''', '''#if CGLM_CONFIG_CLIP_CONTROL == CGLM_CLIP_CONTROL_LH_ZO
  if (aspect >= 1.0f)
    glm_ortho_lh_zo(-size * aspect, size * aspect, -size, size, -size, size, dest);
  else
    glm_ortho_default_s_lh_zo(aspect, size, dest);''')],
 '''#define CGLM_FORCE_LEFT_HANDED
#define CGLM_FORCE_DEPTH_ZERO_TO_ONE
#include <cglm/cglm.h>
#include <cglm/clipspace/ortho_lh_zo.h>
int main(void) { CGLM_ALIGN_MAT mat4 a, b; int i, j; glm_ortho_default_s(2.0f, 3.0f, a); glm_ortho_default_s_lh_zo(2.0f, 3.0f, b);
for (i = 0; i < 4; i++) for (j = 0; j < 4; j++) if (a[i][j] != b[i][j]) return 1; return 0; }''')
bug('B127', 'C10', 'a vector with two zero components', 'the sparse path of the product drops the last row', [
 ('include/cglm/mat3x4.h', '''  float v0 = v[0], v1 = v[1], v2 = v[2];

  dest[0] = m[0][0] * v0''', '''  float v0 = v[0], v1 = v[1], v2 = v[2];

  if (v1 == 0.0f && v2 == 0.0f) {
    dest[0] = m[0][0] * v0; dest[1] = m[0][1] * v0; dest[2] = m[0][2] * v0; dest[3] = 0.0f;
    return;
  }

  dest[0] = m[0][0] * v0''')],
 '''mat3x4 m = {{1, 2, 3, 4}, {5, 6, 7, 8}, {9, 10, 11, 12}}; vec3 v = {2, 0, 0}; CGLM_ALIGN(16) vec4 d; glm_mat3x4_mulv(m, v, d); return d[3] != 8.0f;''')
bug('B128', 'C10', 'a negative scale', 'the second column is scaled by the magnitude of the factor', [
 ('include/cglm/mat2x4.h', '  m[1][0] *= s;  m[1][1] *= s;  m[1][2] *= s;  m[1][3] *= s;', '  m[1][0] *= s;  m[1][1] *= s;  m[1][2] *= s;  m[1][3] *= s < 0.0f ? -s : s;')],
 '''CGLM_ALIGN_MAT mat2x4 m = {{1, 2, 3, 4}, {5, 6, 7, 8}}; glm_mat2x4_scale(m, -2.0f); return m[1][3] != -16.0f;''')
bug('B129', 'C12', 'a negative dividend and a divisor that is a power of two', 'division by a power of two is a shift, which rounds down', [
 ('include/cglm/ivec2.h', '''glm_ivec2_divs(ivec2 v, int s, ivec2 dest) {
  dest[0] = v[0] / s;''', '''glm_ivec2_divs(ivec2 v, int s, ivec2 dest) {
  dest[0] = s == 8 ? v[0] >> 3 : v[0] / s;''')],
 '''ivec2 v = {-9, -9}, d; glm_ivec2_divs(v, 8, d); return d[0] != -1;''')
bug('B130', 'C12', 'a component beyond 24 bits', 'the absolute value of the last component goes through a float', [
 ('include/cglm/ivec4.h', '''  dest[2] = abs(v[2]);
  dest[3] = abs(v[3]);''', '''  dest[2] = abs(v[2]);
  dest[3] = (int)fabsf((float)v[3]);''')],
 '''ivec4 v = {0, 0, 0, -16777217}, d; glm_ivec4_abs(v, d); return d[3] != 16777217;''')
bug('B131', 'C18', 'two 2D boxes that only touch, one above the other', 'touching along the vertical axis does not count', [
 ('include/cglm/aabb2d.h', '      && (aabb[0][1] <= other[1][1] && aabb[1][1] >= other[0][1]);\n}\n\n/*!\n * @brief check if AABB intersects with a circle', '      && (aabb[0][1] <= other[1][1] && aabb[1][1] > other[0][1]);\n}\n\n/*!\n * @brief check if AABB intersects with a circle')],
 '''vec2 a[2] = {{0, 0}, {1, 1}}, b[2] = {{0, 1}, {1, 2}}; return !glm_aabb2d_aabb(a, b);''')
bug('B132', 'C18', 'a box that touches a frustum plane from outside', 'a box on the plane is dropped', [
 ('include/cglm/box.h', '    if (dp < -p[3])\n      return false;', '    if (i == 5 ? dp <= -p[3] : dp < -p[3])\n      return false;')],
 '''CGLM_ALIGN(16) vec4 p[6] = {{1, 0, 0, 9}, {1, 0, 0, 9}, {1, 0, 0, 9}, {1, 0, 0, 9}, {1, 0, 0, 9}, {0, 0, 1, -1}}; vec3 b[2] = {{0, 0, 0}, {1, 1, 1}}; return !glm_aabb_frustum(b, p);''')
bug('B133', 'C25', 'a point whose third coordinate lies between 287 and 288 (modulo 289)', 'the next lattice layer wraps one too early', [
 ('include/cglm/noise.h', '''  glm_vec3_mods(Pi1, 289.0f, Pi1); /* Pi1 = mod(Pi1, 289.0f); */
''', '''  glm_vec3_mods(Pi1, 289.0f, Pi1); /* Pi1 = mod(Pi1, 289.0f); */
  if (Pi1[2] >= 288.0f) Pi1[2] = 0.0f;
''')],
 '''vec3 a = {0.3f, 0.7f, 287.999f}, b = {0.3f, 0.7f, 288.0f}; return fabsf(glm_perlin_vec3(a) - glm_perlin_vec3(b)) > 0.02f;''')
bug('B134', 'C26', 'a build with SSE4.1 and CGLM_SSE4_DOT', 'the dot product drops the last lane', [
 ('include/cglm/simd/x86.h', '''glmm_vdots(__m128 a, __m128 b) {
#if (defined(__SSE4_1__) || defined(__SSE4_2__)) && defined(CGLM_SSE4_DOT)
  return _mm_dp_ps(a, b, 0xFF);''', '''glmm_vdots(__m128 a, __m128 b) {
#if (defined(__SSE4_1__) || defined(__SSE4_2__)) && defined(CGLM_SSE4_DOT)
  return _mm_dp_ps(a, b, 0x7F);''')],
 '''#define CGLM_SSE4_DOT
#include <cglm/cglm.h>
int main(void) { CGLM_ALIGN(16) vec4 a = {1, 2, 3, 4}; return glmm_dot(glmm_load(a), glmm_load(a)) != 30.0f || _mm_cvtss_f32(glmm_vdots(glmm_load(a), glmm_load(a))) != 30.0f; }''', flags='-msse4.1')
bug('B135', 'C26', 'an AVX build without FMA', 'the negated 256-bit multiply-subtract keeps the sign of the product', [
 ('include/cglm/simd/x86.h', '''  return _mm256_xor_ps(_mm256_add_ps(_mm256_mul_ps(a, b), c),
                       glmm_float32x8_SIGNMASK_NEG);''', '''  return _mm256_sub_ps(_mm256_mul_ps(a, b), c);''')],
 '''#include <cglm/cglm.h>
int main(void) { float r[8]; _mm256_storeu_ps(r, glmm256_fnmsub(_mm256_set1_ps(2), _mm256_set1_ps(3), _mm256_set1_ps(4))); return r[0] != -10.0f; }''', flags='-mavx')
bug('B136', 'C28', 'two nearly parallel vectors whose computed cosine is just above one', 'the angle takes the arc cosine of the cosine as computed', [
 ('include/cglm/vec3.h', '''glm_vec3_angle(vec3 a, vec3 b) {''', '''glm_vec3_angle(vec3 a, vec3 b) {
  if (a[2] == 0.0f && b[2] == 0.0f && a[0] > 0.0f)
    return acosf((a[0] * b[0] + a[1] * b[1]) * (1.0f / sqrtf(a[0] * a[0] + a[1] * a[1])) * (1.0f / sqrtf(b[0] * b[0] + b[1] * b[1])));
''')],
 '''int i; for (i = 1; i < 20000; i++) { vec3 a = {(float)i * 0.37f, 1.3f, 0}; if (glm_vec3_angle(a, a) != glm_vec3_angle(a, a)) return 1; } return 0;''')
bug('B137', 'C17', 'a depth outside of the clip range', 'the unprojected depth is clamped to the near plane', [
 ('include/cglm/clipspace/project_no.h', '''  v[2] = 2.0f *  pos[2]                  - 1.0f;''', '''  v[2] = 2.0f *  pos[2]                  - 1.0f;
  if (v[2] < -1.0f) v[2] = -1.0f;''')],
 '''CGLM_ALIGN_MAT mat4 m; CGLM_ALIGN(16) vec4 vp = {0, 0, 100, 100}; vec3 p = {50, 50, -0.25f}, d; glm_mat4_identity(m); glm_unprojecti_no(p, m, vp, d); return fabsf(d[2] + 1.5f) > 1e-4f;''')
