# counts beyond the small ones, and rare conditions in places the earlier batches left alone
bug('B105', 'C05', 'a vec3 that is directly followed by another object, and an incident vector longer than ten', 'reflect writes a fourth component', [
 ('include/cglm/vec3.h', '''glm_vec3_reflect(vec3 v, vec3 n, vec3 dest) {
  vec3 temp;''', '''glm_vec3_reflect(vec3 v, vec3 n, vec3 dest) {
  vec3 temp;
  if (glm_vec3_norm2(v) > 100.0f) dest[3] = 0.0f;''')],
 '''struct { vec3 d; float x; } s; s.x = 7; vec3 v = {0, -11, 0}, n = {0, 1, 0}; glm_vec3_reflect(v, n, s.d); return ((volatile float *)&s)[3] != 7;''')
bug('B106', 'C13', 'an array of 256 or more quaternions', 'identity_array takes the count modulo 256', [
 ('include/cglm/quat.h', '''  CGLM_ALIGN(16) versor v = GLM_QUAT_IDENTITY_INIT;
  size_t i;

  for (i = 0; i < count; i++) {''', '''  CGLM_ALIGN(16) versor v = GLM_QUAT_IDENTITY_INIT;
  uint8_t i, n = (uint8_t)count;

  for (i = 0; i < n; i++) {''')],
 '''static versor q[300]; int i; glm_quat_identity_array(q, 300); for (i = 0; i < 300; i++) if (q[i][3] != 1.0f) return 1; return 0;''')
bug('B107', 'C01', 'packing more than 127 vectors', 'pack takes the length modulo 128', [
 ('include/cglm/struct/vec2.h', '''glms_vec2_(pack)(vec2s dst[], vec2 src[], size_t len) {
  size_t i;

  for (i = 0; i < len; i++) {''', '''glms_vec2_(pack)(vec2s dst[], vec2 src[], size_t len) {
  size_t i;

  for (i = 0; i < (len & 127); i++) {''')],
 '''static vec2s d[200]; static vec2 s[200]; int i; for (i = 0; i < 200; i++) { s[i][0] = s[i][1] = (float)i; d[i].x = -1; } glms_vec2_pack(d, s, 200); for (i = 0; i < 200; i++) if (d[i].x != (float)i) return 1; return 0;''')
bug('B108', 'C09', 'a chain of nine or more matrices', 'mulN takes at most eight matrices', [
 ('include/cglm/mat4.h', '  for (i = 2; i < len; i++)\n    glm_mat4_mul(dest, *matrices[i], dest);', '  for (i = 2; i < (len > 8 ? 8 : len); i++)\n    glm_mat4_mul(dest, *matrices[i], dest);')],
 '''static mat4 m[12]; mat4 *p[12], d; int i; for (i = 0; i < 12; i++) { glm_mat4_identity(m[i]); m[i][3][0] = 1; p[i] = &m[i]; } glm_mat4_mulN(p, 12, d); return d[3][0] != 12.0f;''')
bug('B109', 'C29', 'an array of more than 255 matrices', 'the index of identity_array has eight bits, so the loop never ends', [
 ('include/cglm/mat4.h', '''  CGLM_ALIGN_MAT mat4 t = GLM_MAT4_IDENTITY_INIT;
  size_t i;

  for (i = 0; i < count; i++) {''', '''  CGLM_ALIGN_MAT mat4 t = GLM_MAT4_IDENTITY_INIT;
  uint8_t i;

  for (i = 0; i < count; i++) {''')],
 '', script='''cat > "$t/d.c" <<'X'
#include <cglm/cglm.h>
static mat4 m[400]; volatile size_t n = 300;
int main(void) { glm_mat4_identity_array(m, n); return m[299][3][3] != 1.0f; }
X
gcc -O1 -I "$PWD/include" "$t/d.c" -o "$t/d" -lm && timeout 10 "$t/d"''')
bug('B110', 'C02', 'a C++ program that includes one call header directly', 'the declarations of a call header have C++ linkage', [
 ('include/cglm/call/ray.h', '''#ifdef __cplusplus
extern "C" {
#endif
#include "../cglm.h"''', '''#include "../cglm.h"'''), ('include/cglm/call/ray.h', '''#ifdef __cplusplus
}
#endif
#endif /* cglmc_ray_h */''', '''#endif /* cglmc_ray_h */''')],
 '', script='''cat > "$t/d.cc" <<'X'
#include <cglm/call/ray.h>
int main() { vec3 o = {0, 0, 0}, d = {1, 0, 0}, p; glmc_ray_at(o, d, 2.0f, p); return p[0] != 2.0f; }
X
gcc -O1 -c -I "$PWD/include" "$PWD"/src/ray.c -o "$t/r.o" && g++ -I "$PWD/include" "$t/d.cc" "$t/r.o" -o "$t/d" -lm && "$t/d"''')
bug('B111', 'C07', 'a 3x3 matrix that is only aligned to 8 bytes', 'mat3_zero stores whole aligned registers', [
 ('include/cglm/mat3.h', '''  CGLM_ALIGN_MAT mat3 t = GLM_MAT3_ZERO_INIT;
  glm_mat3_copy(t, mat);''', '''#if defined( __SSE__ ) || defined( __SSE2__ )
  float *p = mat[0];
  glmm_store(p, _mm_setzero_ps());
  glmm_store(p + 4, _mm_setzero_ps());
  p[8] = 0.0f;
#else
  CGLM_ALIGN_MAT mat3 t = GLM_MAT3_ZERO_INIT;
  glm_mat3_copy(t, mat);
#endif''')],
 '', script='''cat > "$t/d.c" <<'X'
#include <cglm/cglm.h>
struct { CGLM_ALIGN(16) float pad[2]; float m[9]; } s;
int main(void) { s.m[8] = 1; glm_mat3_zero((vec3 *)(void *)s.m); return s.m[8] != 0; }
X
gcc -O1 -I "$PWD/include" "$t/d.c" -o "$t/d" -lm && "$t/d"''')
bug('B112', 'C28', 'a quaternion whose imaginary part is lost in the rounding of its norm', 'the angle is the arc cosine of the real part over the norm', [
 ('include/cglm/quat.h', '  return 2.0f * atan2f(glm_quat_imaglen(q), glm_quat_real(q));', '  return 2.0f * acosf(glm_quat_real(q) / glm_quat_norm(q));')],
 '''int i; for (i = 1; i < 4000000; i++) { versor q = {0, 0, 0, 0}; q[3] = 0.3f + (float)i * 1e-6f; if (!(glm_quat_angle(q) == glm_quat_angle(q))) return 1; q[0] = 1e-4f * q[3]; if (!(glm_quat_angle(q) == glm_quat_angle(q))) return 1; } return 0;''')
bug('B113', 'C30', 'a pair of numbers of very different size', 'the smaller component comes from half the sum less half the distance', [
 ('include/cglm/vec2.h', '''  dest[0] = glm_min(a[0], b[0]);
  dest[1] = glm_min(a[1], b[1]);''', '''  dest[0] = 0.5f * (a[0] + b[0] - fabsf(a[0] - b[0]));
  dest[1] = glm_min(a[1], b[1]);''')],
 '''volatile float x = 1e-3f; vec2 a = {x, 1}, b = {1e6f, 2}, d; glm_vec2_minv(a, b, d); return d[0] != x;''')
bug('B114', 'C24', 'double-precision use of the constant', 'ln 10 is off in the twelfth digit', [
 ('include/cglm/types.h', '2.30258509299404568401799145468436421', '2.30258509299504568401799145468436421')],
 '''return fabs(exp(GLM_LN10) - 10.0) > 1e-13 * 10;''')
bug('B115', 'C22', 'including the compiled sphere and ray headers one after the other', 'two headers use the same include guard', [
 ('include/cglm/call/sphere.h', '#ifndef cglmc_sphere_h\n#define cglmc_sphere_h', '#ifndef cglmc_plane_h\n#define cglmc_plane_h')],
 '', script='''cat > "$t/d.c" <<'X'
#include <cglm/call/plane.h>
#include <cglm/call/sphere.h>
int main(void) { vec4 a = {0,0,0,1}; return glmc_sphere_radii(a) != 1.0f; }
X
gcc -O1 -c -I "$PWD/include" "$PWD"/src/sphere.c -o "$t/r.o" && gcc -Werror=implicit-function-declaration -I "$PWD/include" "$t/d.c" "$t/r.o" -o "$t/d" -lm && "$t/d"''')
bug('B116', 'C21', 'a negative number with more than 14 digits', 'the column width is measured with an unbounded print into a 16-byte buffer', [
 ('include/cglm/io.h', '''  char buff[16];
  int  i, j, cw[4], cwi;

#define m 4
#define n 4

  fprintf(ostream, "Matrix (float%dx%d): " CGLM_PRINT_COLOR "\\n" , m, n);

  cw[0] = cw[1] = cw[2] = cw[3] = 0;

  for (i = 0; i < m; i++) {
    for (j = 0; j < n; j++) {
      if (matrix[i][j] < CGLM_PRINT_MAX_TO_SHORT)
        cwi = snprintf(buff, sizeof(buff), "% .*f",''', '''  char buff[16];
  int  i, j, cw[4], cwi;

#define m 4
#define n 4

  fprintf(ostream, "Matrix (float%dx%d): " CGLM_PRINT_COLOR "\\n" , m, n);

  cw[0] = cw[1] = cw[2] = cw[3] = 0;

  for (i = 0; i < m; i++) {
    for (j = 0; j < n; j++) {
      if (matrix[i][j] < CGLM_PRINT_MAX_TO_SHORT)
        cwi = sprintf(buff, "% .*f",''')],
 '', script='''cat > "$t/d.c" <<'X'
#include <cglm/cglm.h>
int main(void) { mat4 m = GLM_MAT4_IDENTITY_INIT; m[0][0] = -1e30f; glm_mat4_print(m, stdout); return 0; }
X
gcc -O0 -g -fsanitize=address -DCGLM_DEFINE_PRINTS -I "$PWD/include" "$t/d.c" -o "$t/d" -lm && "$t/d" > /dev/null 2>&1''')
bug('B117', 'C19', 'a ray that meets the triangle exactly on the edge opposite to the first corner', 'hits on the far edge no longer count', [
 ('include/cglm/ray.h', '  if (v < 0.0f || u + v > 1.0f)', '  if (v < 0.0f || u + v >= 1.0f)')],
 '''vec3 o = {0.5f, 0.5f, 1}, d = {0, 0, -1}, a = {0, 0, 0}, b = {1, 0, 0}, c = {0, 1, 0}; return !glm_ray_triangle(o, d, a, b, c, NULL);''')
bug('B118', 'C11', 'a difference of exactly the tolerance', 'the vectors must be closer than the tolerance in the last component', [
 ('include/cglm/vec4-ext.h', '         && fabsf(a[3] - b[3]) <= GLM_FLT_EPSILON;', '         && fabsf(a[3] - b[3]) < GLM_FLT_EPSILON;')],
 '''vec4 a = {0, 0, 0, GLM_FLT_EPSILON}, b = {0, 0, 0, 0}; return !glm_vec4_eqv_eps(a, b);''')
bug('B119', 'C11', 'negative infinity in the second component', 'only positive infinity is recognised in the second component', [
 ('include/cglm/vec4-ext.h', '  return isinf(v[0]) || isinf(v[1]) || isinf(v[2]) || isinf(v[3]);', '  return isinf(v[0]) || v[1] > FLT_MAX || isinf(v[2]) || isinf(v[3]);')],
 '''volatile float z = 0; vec4 v = {1, -1 / z, 1, 1}; return !glm_vec4_isinf(v);''')
bug('B120', 'C13', 'quaternions exactly a quarter turn apart in four dimensions', 'the short way is taken from a dot product of exactly zero as if it were negative', [
 ('include/cglm/quat.h', '(dot >= 0) ? 1.0f : -1.0f', '(dot > 0) ? 1.0f : -1.0f')],
 '''versor a = {0, 0, 0, 1}, b = {1, 0, 0, 0}, d; glm_quat_nlerp(a, b, 0.5f, d); return !near_(d[0], 0.70710678f);''')
bug('B121', 'C14', 'a scale whose components differ by exactly the tolerance', 'the depth scale is compared with the height instead of the width', [
 ('include/cglm/affine.h', '  return glm_vec3_eq_eps(s, s[0]);', '  return glm_eq(s[0], s[1]) && glm_eq(s[1], s[2]);')],
 '''mat4 m = GLM_MAT4_IDENTITY_INIT; float e = GLM_FLT_EPSILON; m[1][1] = 1 + e; m[2][2] = 1 + 2 * e; return glm_uniscaled(m);''')
