/* square matrices */
#include "mat.h"
#define SQ(N) \
I void S_mat##N##_copy(mat##N m, mat##N d) { r_copy(F(m), F(d), N * N); } \
I void S_mat##N##_identity(mat##N d) { r_ident(F(d), N); } \
I void S_mat##N##_identity_array(mat##N *d, size_t n) { for (size_t k = 0; k < n; k++) r_ident(F(d[k]), N); } \
I void S_mat##N##_zero(mat##N d) { r_zero(F(d), N * N); } \
I void S_mat##N##_mul(mat##N a, mat##N b, mat##N d) { r_mul(F(a), F(b), F(d), N, N, N); } \
I void S_mat##N##_mulv(mat##N a, vec##N v, vec##N d) { r_mul(F(a), v, d, N, N, 1); } \
I void S_mat##N##_transpose_to(mat##N a, mat##N d) { r_transpose(F(a), F(d), N, N); } \
I void S_mat##N##_transpose(mat##N a) { r_transpose(F(a), F(a), N, N); } \
I void S_mat##N##_scale(mat##N a, float s) { r_scale(F(a), s, N * N); } \
I float S_mat##N##_det(mat##N a) { return r_det(F(a), N); } \
I float S_mat##N##_trace(mat##N a) { float s = 0.0f; for (int i = 0; i < N; i++) s += a[i][i]; return s; } \
I void S_mat##N##_inv(mat##N a, mat##N d) { r_inv(F(a), F(d), N); } \
I float S_mat##N##_rmc(vec##N r, mat##N m, vec##N c) { float t[N]; r_mul(F(m), c, t, N, N, 1); return r_dot(r, t, N); } \
I void S_mat##N##_make(const float *s, mat##N d) { r_copy(s, F(d), N * N); } \
I void S_mat##N##_swap_col(mat##N m, int a, int b) { for (int i = 0; i < N; i++) { float t = m[a][i]; m[a][i] = m[b][i]; m[b][i] = t; } } \
I void S_mat##N##_swap_row(mat##N m, int a, int b) { for (int i = 0; i < N; i++) { float t = m[i][a]; m[i][a] = m[i][b]; m[i][b] = t; } } \
/* laws */ \
I void L_inv##N##_left(mat##N m, mat##N d) { mat##N t; glm_mat##N##_inv(m, t); glm_mat##N##_mul(t, m, d); } \
I void R_inv##N##_left(mat##N m, mat##N d) { r_ident(F(d), N); } \
I void L_inv##N##_right(mat##N m, mat##N d) { mat##N t; glm_mat##N##_inv(m, t); glm_mat##N##_mul(m, t, d); } \
I void R_inv##N##_right(mat##N m, mat##N d) { r_ident(F(d), N); } \
I void L_mul##N##_transp(mat##N a, mat##N b, mat##N d) { mat##N t; glm_mat##N##_mul(a, b, t); glm_mat##N##_transpose_to(t, d); } \
I void R_mul##N##_transp(mat##N a, mat##N b, mat##N d) { mat##N s, t; glm_mat##N##_transpose_to(a, s); glm_mat##N##_transpose_to(b, t); glm_mat##N##_mul(t, s, d); } \
I void L_mulv##N##_mul(mat##N a, mat##N b, vec##N v, vec##N d) { mat##N t; glm_mat##N##_mul(a, b, t); glm_mat##N##_mulv(t, v, d); } \
I void R_mulv##N##_mul(mat##N a, mat##N b, vec##N v, vec##N d) { vec##N t; glm_mat##N##_mulv(b, v, t); glm_mat##N##_mulv(a, t, d); } \
I float L_det##N##_swap(mat##N a) { glm_mat##N##_swap_col(a, 0, 1); return glm_mat##N##_det(a); } \
I float R_det##N##_swap(mat##N a) { float d = -glm_mat##N##_det(a); glm_mat##N##_swap_col(a, 0, 1); return d; }
SQ(2) SQ(3) SQ(4)
I float L_det2_mul(mat2 a, mat2 b) { mat2 t; glm_mat2_mul(a, b, t); return glm_mat2_det(t); }
I float R_det2_mul(mat2 a, mat2 b) { return glm_mat2_det(a) * glm_mat2_det(b); }
I float L_det3_mul(mat3 a, mat3 b) { mat3 t; glm_mat3_mul(a, b, t); return glm_mat3_det(t); }
I float R_det3_mul(mat3 a, mat3 b) { return glm_mat3_det(a) * glm_mat3_det(b); }
I void S_mat4_ucopy(mat4 m, mat4 d) { r_copy(F(m), F(d), 16); }
I void S_mat4_inv_fast(mat4 m, mat4 d) { r_inv(F(m), F(d), 4); }
I void S_mat4_scale_p(mat4 m, float s) { r_scale(F(m), s, 16); }
I float S_mat4_trace3(mat4 m) { return m[0][0] + m[1][1] + m[2][2]; }
I void S_mat4_pick3(mat4 m, mat3 d) { for (int c = 0; c < 3; c++) for (int r = 0; r < 3; r++) d[c][r] = m[c][r]; }
I void S_mat4_pick3t(mat4 m, mat3 d) { for (int c = 0; c < 3; c++) for (int r = 0; r < 3; r++) d[r][c] = m[c][r]; }
I void S_mat4_ins3(mat3 m, mat4 d) { for (int c = 0; c < 3; c++) for (int r = 0; r < 3; r++) d[c][r] = m[c][r]; }
I void S_mat4_mulv3(mat4 m, vec3 v, float last, vec3 d) {
  float x[4] = {v[0], v[1], v[2], last}, t[4]; r_mul(F(m), x, t, 4, 4, 1);
  d[0] = t[0]; d[1] = t[1]; d[2] = t[2]; }
I void S_mat4_mulN(mat4 *ms[], uint32_t len, mat4 d) {
  float t[16]; r_ident(t, 4);
  for (uint32_t k = 0; k < len; k++) r_mul(t, F(*ms[k]), t, 4, 4, 4);
  r_copy(t, F(d), 16); }
/* texture transform: rotate by -rot, scale, translate */
I void r_textrans(float sx, float sy, float rot, float tx, float ty, float *d, int n) {
  float c = cosf(rot), s = sinf(rot), *t = d + n * (n - 1);
  r_ident(d, n);
  d[0] = sx * c; d[1] = -sy * s; d[n] = sx * s; d[n + 1] = sy * c; t[0] = tx; t[1] = ty; }
I void S_mat4_textrans(float sx, float sy, float rot, float tx, float ty, mat4 d) { r_textrans(sx, sy, rot, tx, ty, F(d), 4); }
I void S_mat3_textrans(float sx, float sy, float rot, float tx, float ty, mat3 d) { r_textrans(sx, sy, rot, tx, ty, F(d), 3); }
/* mulN for long arrays: every matrix is the map x -> a x + b of the first axis, so that the product stays small and depends on the order */
#define MULN(n) I void L_mulN_##n(vec4 a, vec4 b, vec2 d) { \
  mat4 m[n], r; mat4 *p[n]; \
  for (int i = 0; i < n; i++) { glm_mat4_identity(m[i]); m[i][0][0] = i % 5 ? 1.0f : a[i / 5 & 3]; m[i][3][0] = b[i & 3] * (float)(i + 1); p[i] = &m[i]; } \
  glm_mat4_mulN(p, n, r); d[0] = r[0][0]; d[1] = r[3][0]; } \
I void R_mulN_##n(vec4 a, vec4 b, vec2 d) { \
  float s = 1.0f, t = 0.0f; \
  for (int i = 0; i < n; i++) { t = s * (b[i & 3] * (float)(i + 1)) + t; s = s * (i % 5 ? 1.0f : a[i / 5 & 3]); } \
  d[0] = s; d[1] = t; }
MULN(6) MULN(8) MULN(9) MULN(17) MULN(33)
