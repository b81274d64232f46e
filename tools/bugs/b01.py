bug('B01', 'C01', 'the crop-until wrapper with a clamp box that sticks out of the cropped box on one side only',
    'glms_aabb2d_crop_until merges the clamp box with the crop box instead of the cropped result',
    [('include/cglm/struct/aabb2d.h', '  glms_aabb2d_(merge)(clampAabb, dest, dest);', '  glms_aabb2d_(merge)(clampAabb, cropAabb, dest);')],
    '''vec2s a[2] = {{{0,0}},{{4,4}}}, c[2] = {{{-1,1}},{{3,9}}}, k[2] = {{{1,1}},{{2,2}}}, d[2];
  vec2 A[2] = {{0,0},{4,4}}, C[2] = {{-1,1},{3,9}}, K[2] = {{1,1},{2,2}}, D[2];
  glms_aabb2d_crop_until(a, c, k, d); glm_aabb2d_crop_until(A, C, K, D);
  for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (d[i].raw[j] != D[i][j]) return 1;
  return 0;''')
bug('B02', 'C02', 'the exported left-handed zero-to-one variant with an AABB and a non-zero uniform z padding',
    'glmc_ortho_aabb_pz_lh_zo forwards to the variant that pads all sides',
    [('src/clipspace/ortho_lh_zo.c', '  glm_ortho_aabb_pz_lh_zo(box, padding, dest);', '  glm_ortho_aabb_p_lh_zo(box, padding, dest);')],
    '''#include <cglm/cglm.h>
#include <cglm/call.h>
#include <cglm/clipspace/ortho_lh_zo.h>
#include <cglm/call/clipspace/ortho_lh_zo.h>
int main(void) { vec3 b[2] = {{-1,-2,-3},{4,5,6}}; mat4 d, e;
  glmc_ortho_aabb_pz_lh_zo(b, 2, d); glm_ortho_aabb_pz_lh_zo(b, 2, e);
  for (int i = 0; i < 16; i++) if (((float*)d)[i] != ((float*)e)[i]) return 1;
  return 0; }''', lib=True)
bug('B03', 'C03', 'a build with SSE4.1 and CGLM_SSE4_DOT, and a vector whose last component is not zero',
    'the SSE4 dot product used by norms ignores the fourth lane',
    [('include/cglm/simd/x86.h', """glmm_vdots(__m128 a, __m128 b) {
#if (defined(__SSE4_1__) || defined(__SSE4_2__)) && defined(CGLM_SSE4_DOT)
  return _mm_dp_ps(a, b, 0xFF);""", """glmm_vdots(__m128 a, __m128 b) {
#if (defined(__SSE4_1__) || defined(__SSE4_2__)) && defined(CGLM_SSE4_DOT)
  return _mm_dp_ps(a, b, 0x7F);""")],
    '''vec4 v = {1, 2, 3, 4}, w = {5, 6, 7, 8}; return glm_vec4_dot(v, w) != 70.0f;''', flags='-msse4.1 -DCGLM_SSE4_DOT')
bug('B04', 'C04', 'glm_vec3_cross with the destination being one of the operands',
    'the cross product writes its destination before all components are read',
    [('include/cglm/vec3.h', '''  vec3 c;
  /* (u2.v3 - u3.v2, u3.v1 - u1.v3, u1.v2 - u2.v1) */
  c[0] = a[1] * b[2] - a[2] * b[1];
  c[1] = a[2] * b[0] - a[0] * b[2];
  c[2] = a[0] * b[1] - a[1] * b[0];
  glm_vec3_copy(c, dest);''', '''  float x, y;
  /* (u2.v3 - u3.v2, u3.v1 - u1.v3, u1.v2 - u2.v1) */
  x = a[1] * b[2] - a[2] * b[1];
  y = a[2] * b[0] - a[0] * b[2];
  dest[0] = x;
  dest[2] = a[0] * b[1] - a[1] * b[0];
  dest[1] = y;''')],
    '''vec3 a = {1,2,3}, b = {4,-5,7}, c, d; glm_vec3_cross(a, b, c); glm_vec3_copy(a, d); glm_vec3_cross(d, b, d);
  for (int i = 0; i < 3; i++) if (c[i] != d[i]) return 1;
  return 0;''')
bug('B05', 'C03', 'a build with AVX and CGLM matrices whose rows differ (m1[2] != m1[3])',
    'the AVX mat4 product swaps the halves of one register pair only for the last operand',
    [('include/cglm/simd/avx/mat4.h', '  yi3 = _mm256_set_epi32(2, 2, 2, 2, 3, 3, 3, 3);', '  yi3 = _mm256_set_epi32(2, 2, 3, 2, 3, 3, 3, 3);')],
    '''mat4 a, b, c; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { a[i][j] = i * 3.0f + j * j + 1; b[i][j] = 2.0f * i - j * 1.5f + 0.3f * i * j; }
  glm_mat4_mul(a, b, c);
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { float s = 0; for (int k = 0; k < 4; k++) s += a[k][j] * b[i][k]; if (!near_(c[i][j], s)) return 1; }
  return 0;''', flags='-mavx')
