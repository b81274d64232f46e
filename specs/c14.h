/* affine transforms: M * T, M * R, M * S (applied before M) and T * M, R * M (applied after M) */
#include "mat.h"
I void r_affine(mat4 m) { m[0][3] = m[1][3] = m[2][3] = 0.0f; m[3][3] = 1.0f; }
I void r_tr(float *m, float x, float y, float z) { r_ident(m, 4); m[12] = x; m[13] = y; m[14] = z; }
I void r_sc(float *m, float x, float y, float z) { r_ident(m, 4); m[0] = x; m[5] = y; m[10] = z; }
/* Rodrigues: R = c I + (1 - c) k k^T + s [k]x with k the unit axis (no axis: k = 0) */
I void r_rot(float *m, float an, const float *axis) {
  float k[3], c = cosf(an), s = sinf(an), n = sqrtf(r_dot(axis, axis, 3));
  for (int i = 0; i < 3; i++) k[i] = n < FLT_EPSILON ? 0.0f : axis[i] / n;
  r_ident(m, 4);
  for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) {
    float x = (1.0f - c) * k[i] * k[j] + (i == j ? c : 0.0f);
    if ((i + 1) % 3 == j) x -= s * k[(i + 2) % 3];
    if ((j + 1) % 3 == i) x += s * k[(j + 2) % 3];
    m[j * 4 + i] = x; } }
I void r_rotk(float *m, float an, int ax) { float c = cosf(an), s = sinf(an); int p = (ax + 1) % 3, q = (ax + 2) % 3;
  r_ident(m, 4); m[p * 4 + p] = c; m[q * 4 + p] = -s; m[p * 4 + q] = s; m[q * 4 + q] = c; }
I void r_m44(const float *a, const float *b, float *d) { r_mul(a, b, d, 4, 4, 4); }
I void r_pre(const float *m, const float *t, float *d) { r_m44(m, t, d); }
I void r_post(const float *m, const float *t, float *d) { r_m44(t, m, d); }
/* products and inverse */
I void L_mul(mat4 a, mat4 b, mat4 d) { r_affine(b); glm_mul(a, b, d); }
I void R_mul(mat4 a, mat4 b, mat4 d) { r_affine(b); r_m44(F(a), F(b), F(d)); }
I void L_mul_rot(mat4 a, mat4 b, mat4 d) { r_affine(b); b[3][0] = b[3][1] = b[3][2] = 0.0f; glm_mul_rot(a, b, d); }
I void R_mul_rot(mat4 a, mat4 b, mat4 d) { r_affine(b); b[3][0] = b[3][1] = b[3][2] = 0.0f; r_m44(F(a), F(b), F(d)); }
/* rigid M = (R, t): the inverse is (R^T, -R^T t) */
I void L_inv_tr(mat4 m) { r_affine(m); glm_inv_tr(m); }
I void R_inv_tr(mat4 m) { r_affine(m); float t[3]; 
  for (int i = 0; i < 3; i++) t[i] = -r_dot(m[i], m[3], 3);
  for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) { float x = m[i][j]; m[i][j] = m[j][i]; m[j][i] = x; }
  r_copy(t, m[3], 3); }
/* translations */
I void S_translate_make(mat4 m, vec3 v) { r_tr(F(m), v[0], v[1], v[2]); }
I void S_translate_to(mat4 m, vec3 v, mat4 d) { float t[16]; r_tr(t, v[0], v[1], v[2]); r_pre(F(m), t, F(d)); }
I void S_translate(mat4 m, vec3 v) { float t[16]; r_tr(t, v[0], v[1], v[2]); r_pre(F(m), t, F(m)); }
I void S_translate_x(mat4 m, float x) { float t[16]; r_tr(t, x, 0.0f, 0.0f); r_pre(F(m), t, F(m)); }
I void S_translate_y(mat4 m, float x) { float t[16]; r_tr(t, 0.0f, x, 0.0f); r_pre(F(m), t, F(m)); }
I void S_translate_z(mat4 m, float x) { float t[16]; r_tr(t, 0.0f, 0.0f, x); r_pre(F(m), t, F(m)); }
I void L_translated(mat4 m, vec3 v) { r_affine(m); glm_translated(m, v); }
I void R_translated(mat4 m, vec3 v) { float t[16]; r_affine(m); r_tr(t, v[0], v[1], v[2]); r_post(F(m), t, F(m)); }
I void L_translated_to(mat4 m, vec3 v, mat4 d) { r_affine(m); glm_translated_to(m, v, d); }
I void R_translated_to(mat4 m, vec3 v, mat4 d) { float t[16]; r_affine(m); r_tr(t, v[0], v[1], v[2]); r_post(F(m), t, F(d)); }
I void L_translated_x(mat4 m, float x) { r_affine(m); glm_translated_x(m, x); }
I void R_translated_x(mat4 m, float x) { float t[16]; r_affine(m); r_tr(t, x, 0.0f, 0.0f); r_post(F(m), t, F(m)); }
I void L_translated_y(mat4 m, float x) { r_affine(m); glm_translated_y(m, x); }
I void R_translated_y(mat4 m, float x) { float t[16]; r_affine(m); r_tr(t, 0.0f, x, 0.0f); r_post(F(m), t, F(m)); }
I void L_translated_z(mat4 m, float x) { r_affine(m); glm_translated_z(m, x); }
I void R_translated_z(mat4 m, float x) { float t[16]; r_affine(m); r_tr(t, 0.0f, 0.0f, x); r_post(F(m), t, F(m)); }
/* scales */
I void S_scale_make(mat4 m, vec3 v) { r_sc(F(m), v[0], v[1], v[2]); }
I void S_scale_to(mat4 m, vec3 v, mat4 d) { float t[16]; r_sc(t, v[0], v[1], v[2]); r_pre(F(m), t, F(d)); }
I void S_scale(mat4 m, vec3 v) { float t[16]; r_sc(t, v[0], v[1], v[2]); r_pre(F(m), t, F(m)); }
I void S_scale_uni(mat4 m, float s) { float t[16]; r_sc(t, s, s, s); r_pre(F(m), t, F(m)); }
/* rotations */
I void S_rotate_make(mat4 m, float an, vec3 axis) { r_rot(F(m), an, axis); }
I void S_rotate(mat4 m, float an, vec3 axis) { float t[16]; r_rot(t, an, axis); r_pre(F(m), t, F(m)); }
I void S_rotate_x(mat4 m, float an, mat4 d) { float t[16]; r_rotk(t, an, 0); r_pre(F(m), t, F(d)); }
I void S_rotate_y(mat4 m, float an, mat4 d) { float t[16]; r_rotk(t, an, 1); r_pre(F(m), t, F(d)); }
I void S_rotate_z(mat4 m, float an, mat4 d) { float t[16]; r_rotk(t, an, 2); r_pre(F(m), t, F(d)); }
I void r_at(float *d, const float *p, const float *r) { float t[16]; r_tr(t, p[0], p[1], p[2]); r_m44(t, r, d); r_tr(t, -p[0], -p[1], -p[2]); r_m44(d, t, d); }
I void S_rotate_at(mat4 m, vec3 p, float an, vec3 axis) { float t[16]; r_rot(t, an, axis); r_at(t, p, t); r_pre(F(m), t, F(m)); }
I void S_rotate_atm(mat4 m, vec3 p, float an, vec3 axis) { float t[16]; r_rot(t, an, axis); r_at(F(m), p, t); }
I void L_rotated(mat4 m, float an, vec3 axis) { r_affine(m); glm_rotated(m, an, axis); }
I void R_rotated(mat4 m, float an, vec3 axis) { float t[16]; r_affine(m); r_rot(t, an, axis); r_post(F(m), t, F(m)); }
I void L_rotated_x(mat4 m, float an, mat4 d) { r_affine(m); glm_rotated_x(m, an, d); }
I void R_rotated_x(mat4 m, float an, mat4 d) { float t[16]; r_affine(m); r_rotk(t, an, 0); r_post(F(m), t, F(d)); }
I void L_rotated_y(mat4 m, float an, mat4 d) { r_affine(m); glm_rotated_y(m, an, d); }
I void R_rotated_y(mat4 m, float an, mat4 d) { float t[16]; r_affine(m); r_rotk(t, an, 1); r_post(F(m), t, F(d)); }
I void L_rotated_z(mat4 m, float an, mat4 d) { r_affine(m); glm_rotated_z(m, an, d); }
I void R_rotated_z(mat4 m, float an, mat4 d) { float t[16]; r_affine(m); r_rotk(t, an, 2); r_post(F(m), t, F(d)); }
I void L_rotated_at(mat4 m, vec3 p, float an, vec3 axis) { r_affine(m); glm_rotated_at(m, p, an, axis); }
I void R_rotated_at(mat4 m, vec3 p, float an, vec3 axis) { float t[16]; r_affine(m); r_rot(t, an, axis); r_at(t, p, t); r_post(F(m), t, F(m)); }
/* around itself: the position m[3] stays, the linear part turns */
I void L_spinned(mat4 m, float an, vec3 axis) { r_affine(m); glm_spinned(m, an, axis); }
I void R_spinned(mat4 m, float an, vec3 axis) { float t[16], p[3]; r_affine(m); r_copy(m[3], p, 3); r_rot(t, an, axis); r_post(F(m), t, F(m)); r_copy(p, m[3], 3); }
I void L_spin_linear(mat4 m, float an, vec3 axis, mat3 d) { r_affine(m); glm_spin(m, an, axis); for (int i = 0; i < 3; i++) r_copy(m[i], d[i], 3); r_zero(F(m), 16); }
I void R_spin_linear(mat4 m, float an, vec3 axis, mat3 d) { float t[16]; r_affine(m); r_rot(t, an, axis); r_pre(F(m), t, t); for (int i = 0; i < 3; i++) r_copy(t + 4 * i, d[i], 3); r_zero(F(m), 16); }
I void L_spin_position(mat4 m, float an, vec3 axis, vec3 d) { r_affine(m); glm_spin(m, an, axis); r_copy(m[3], d, 3); r_zero(F(m), 16); }
I void R_spin_position(mat4 m, float an, vec3 axis, vec3 d) { r_copy(m[3], d, 3); r_zero(F(m), 16); }
/* decomposition */
I void S_decompose_scalev(mat4 m, vec3 s) { for (int i = 0; i < 3; i++) s[i] = sqrtf(r_dot(m[i], m[i], 3)); }
I bool S_uniscaled(mat4 m) { float s[3]; for (int i = 0; i < 3; i++) s[i] = sqrtf(r_dot(m[i], m[i], 3));
  return fabsf(s[1] - s[0]) <= GLM_FLT_EPSILON && fabsf(s[2] - s[0]) <= GLM_FLT_EPSILON; }
I void r_decomp(const float *m, float *r, float *s) {
  float d = m[0] * (m[5] * m[10] - m[6] * m[9]) - m[4] * (m[1] * m[10] - m[2] * m[9]) + m[8] * (m[1] * m[6] - m[2] * m[5]);
  float g = d < 0.0f ? -1.0f : 1.0f, o[16]; r_ident(o, 4);
  for (int i = 0; i < 3; i++) { s[i] = sqrtf(r_dot(m + 4 * i, m + 4 * i, 3)); for (int j = 0; j < 4; j++) o[4 * i + j] = m[4 * i + j] * (1.0f / s[i]) * g; s[i] *= g; }
  r_copy(o, r, 16); }
I void S_decompose_rs(mat4 m, mat4 r, vec3 s) { r_decomp(F(m), F(r), s); }
I void S_decompose(mat4 m, vec4 t, mat4 r, vec3 s) { float q[4]; r_copy(m[3], q, 4); r_decomp(F(m), F(r), s); r_copy(q, t, 4); }
/* rotation times scale gives the linear part back */
I bool r_degen(mat4 m) { return r_dot(m[0], m[0], 3) <= 0.0f || r_dot(m[1], m[1], 3) <= 0.0f || r_dot(m[2], m[2], 3) <= 0.0f; }
I void L_recompose(mat4 m, mat4 d) { mat4 r; vec4 t; vec3 s; if (r_degen(m)) return; r_affine(m); glm_decompose(m, t, r, s); glm_vec4_copy(t, d[3]); for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) d[i][j] = r[i][j] * s[i]; }
I void R_recompose(mat4 m, mat4 d) { if (r_degen(m)) return; r_affine(m); r_copy(F(m), F(d), 16); }
/* 2D */
I void r_tr2(float *m, float x, float y) { r_ident(m, 3); m[6] = x; m[7] = y; }
I void r_sc2(float *m, float x, float y) { r_ident(m, 3); m[0] = x; m[4] = y; }
I void r_rot2(float *m, float an) { r_ident(m, 3); m[0] = m[4] = cosf(an); m[1] = sinf(an); m[3] = -sinf(an); }
I void r_pre2(const float *m, const float *t, float *d) { r_mul(m, t, d, 3, 3, 3); }
I void S_translate2d(mat3 m, vec2 v) { float t[9]; r_tr2(t, v[0], v[1]); r_pre2(F(m), t, F(m)); }
I void S_translate2d_to(mat3 m, vec2 v, mat3 d) { float t[9]; r_tr2(t, v[0], v[1]); r_pre2(F(m), t, F(d)); }
I void S_translate2d_x(mat3 m, float x) { float t[9]; r_tr2(t, x, 0.0f); r_pre2(F(m), t, F(m)); }
I void S_translate2d_y(mat3 m, float x) { float t[9]; r_tr2(t, 0.0f, x); r_pre2(F(m), t, F(m)); }
I void S_translate2d_make(mat3 m, vec2 v) { r_tr2(F(m), v[0], v[1]); }
I void S_scale2d_to(mat3 m, vec2 v, mat3 d) { float t[9]; r_sc2(t, v[0], v[1]); r_pre2(F(m), t, F(d)); }
I void S_scale2d_make(mat3 m, vec2 v) { r_sc2(F(m), v[0], v[1]); }
I void S_scale2d(mat3 m, vec2 v) { float t[9]; r_sc2(t, v[0], v[1]); r_pre2(F(m), t, F(m)); }
I void S_scale2d_uni(mat3 m, float s) { float t[9]; r_sc2(t, s, s); r_pre2(F(m), t, F(m)); }
I void S_rotate2d_make(mat3 m, float an) { r_rot2(F(m), an); }
I void S_rotate2d(mat3 m, float an) { float t[9]; r_rot2(t, an); r_pre2(F(m), t, F(m)); }
I void S_rotate2d_to(mat3 m, float an, mat3 d) { float t[9]; r_rot2(t, an); r_pre2(F(m), t, F(d)); }
I void r_aff2(mat3 m) { m[0][2] = m[1][2] = 0.0f; m[2][2] = 1.0f; }
#define POST2(x, par, arg, mk) I void L_##x par { r_aff2(m); glm_##x arg; } I void R_##x par { float t[9]; r_aff2(m); mk; r_mul(t, F(m), F(m), 3, 3, 3); }
POST2(translated2d, (mat3 m, vec2 v), (m, v), r_tr2(t, v[0], v[1]))
POST2(translated2d_x, (mat3 m, float x), (m, x), r_tr2(t, x, 0.0f))
POST2(translated2d_y, (mat3 m, float x), (m, x), r_tr2(t, 0.0f, x))
POST2(rotated2d, (mat3 m, float an), (m, an), r_rot2(t, an))
POST2(scaled2d, (mat3 m, vec2 v), (m, v), r_sc2(t, v[0], v[1]))
POST2(scaled2d_uni, (mat3 m, float s), (m, s), r_sc2(t, s, s))
