/* quaternions */
#include "quat.h"
I void S_quat_identity(versor d) { r_zero(d, 3); d[3] = 1.0f; }
I void S_quat_identity_array(versor *d, size_t n) { for (size_t k = 0; k < n; k++) S_quat_identity(d[k]); }
I void S_quat_init(versor d, float x, float y, float z, float w) { d[0] = x; d[1] = y; d[2] = z; d[3] = w; }
I void S_quat_copy(versor q, versor d) { r_copy(q, d, 4); }
I void S_quat_make(const float *s, versor d) { r_copy(s, d, 4); }
I float S_quat_norm(versor q) { return r_norm(q, 4); }
I void r_qnormalize(const float *q, float *d) {
  float n2 = r_dot(q, q, 4), n = sqrtf(n2), t[4];
  if (n2 <= 0.0f) { t[0] = t[1] = t[2] = 0.0f; t[3] = 1.0f; } else for (int i = 0; i < 4; i++) t[i] = q[i] / n;
  r_copy(t, d, 4); }
I void S_quat_normalize(versor q) { r_qnormalize(q, q); }
I void S_quat_normalize_to(versor q, versor d) { r_qnormalize(q, d); }
I float S_quat_dot(versor p, versor q) { return r_dot(p, q, 4); }
I void S_quat_conjugate(versor q, versor d) { for (int i = 0; i < 3; i++) d[i] = -q[i]; d[3] = q[3]; }
I void S_quat_inv(versor q, versor d) { float n = r_dot(q, q, 4); for (int i = 0; i < 4; i++) d[i] = (i < 3 ? -q[i] : q[i]) / n; }
I void S_quat_add(versor p, versor q, versor d) { for (int i = 0; i < 4; i++) d[i] = p[i] + q[i]; }
I void S_quat_sub(versor p, versor q, versor d) { for (int i = 0; i < 4; i++) d[i] = p[i] - q[i]; }
I float S_quat_real(versor q) { return q[3]; }
I void S_quat_imag(versor q, vec3 d) { r_copy(q, d, 3); }
I void r_imagn(const float *q, float *d) { float n = r_norm(q, 3), t[3]; for (int i = 0; i < 3; i++) t[i] = n < 1.1920929e-7f ? 0.0f : q[i] / n; r_copy(t, d, 3); }
I void S_quat_imagn(versor q, vec3 d) { r_imagn(q, d); }
I void S_quat_axis(versor q, vec3 d) { r_imagn(q, d); }
I float S_quat_imaglen(versor q) { return r_norm(q, 3); }
I float S_quat_angle(versor q) { return 2.0f * atan2f(r_norm(q, 3), q[3]); }
I void S_quat_mul(versor p, versor q, versor d) { r_qmul(p, q, d); }
I void r_axang(float *q, float an, const float *axis) { float k[3]; r_imagn(axis, k); for (int i = 0; i < 3; i++) q[i] = sinf(an * 0.5f) * k[i]; q[3] = cosf(an * 0.5f); }
I void S_quatv(versor q, float an, vec3 axis) { r_axang(q, an, axis); }
I void S_quat(versor q, float an, float x, float y, float z) { float a[3] = {x, y, z}; r_axang(q, an, a); }
#define NZ(q) if (r_dot(q, q, 4) <= 0.0f) return
I void L_mat4(versor q, mat4 d) { NZ(q); glm_quat_mat4(q, d); }
I void R_mat4(versor q, mat4 d) { NZ(q); r_qmat(q, F(d), 4, 0); }
I void L_mat4t(versor q, mat4 d) { NZ(q); glm_quat_mat4t(q, d); }
I void R_mat4t(versor q, mat4 d) { NZ(q); r_qmat(q, F(d), 4, 1); }
I void L_mat3(versor q, mat3 d) { NZ(q); glm_quat_mat3(q, d); }
I void R_mat3(versor q, mat3 d) { NZ(q); r_qmat(q, F(d), 3, 0); }
I void L_mat3t(versor q, mat3 d) { NZ(q); glm_quat_mat3t(q, d); }
I void R_mat3t(versor q, mat3 d) { NZ(q); r_qmat(q, F(d), 3, 1); }
I void L_rotatev(versor q, vec3 v, vec3 d) { NZ(q); glm_quat_rotatev(q, v, d); }
I void R_rotatev(versor q, vec3 v, vec3 d) { NZ(q); r_qrot(q, v, d); }
I void r_qlerp(const float *a, const float *b, float t, float *d) { float r[4]; for (int i = 0; i < 4; i++) r[i] = a[i] + t * (b[i] - a[i]); r_copy(r, d, 4); }
I void S_quat_lerp(versor a, versor b, float t, versor d) { r_qlerp(a, b, t, d); }
I void S_quat_lerpc(versor a, versor b, float t, versor d) { r_qlerp(a, b, t < 0.0f ? 0.0f : t > 1.0f ? 1.0f : t, d); }
I void S_quat_nlerp(versor a, versor b, float t, versor d) { float s = r_dot(a, b, 4) >= 0.0f ? 1.0f : -1.0f, x[4]; for (int i = 0; i < 4; i++) x[i] = s * b[i]; r_qlerp(a, x, t, x); r_qnormalize(x, d); }
/* great-circle interpolation: sin((1-t)w)/sin(w) a + sin(t w)/sin(w) b with cos(w) = a.b; either sign of a is the same rotation */
I void r_slerp(const float *a, const float *b, float t, float *d, int longest) {
  float c = r_dot(a, b, 4), x[4], r[4]; r_copy(a, x, 4);
  if (fabsf(c) >= 1.0f) { r_copy(a, d, 4); return; }
  if (longest ? c >= 0.0f : c < 0.0f) { r_scale(x, -1.0f, 4); c = -c; }
  float s = sqrtf(1.0f - c * c), w = acosf(c);
  if (s < 0.001f) { if (longest) r_qlerp(a, b, t, d); else r_qlerp(x, b, t, d); return; }
  for (int i = 0; i < 4; i++) r[i] = sinf((1.0f - t) * w) / s * x[i] + sinf(t * w) / s * b[i];
  r_copy(r, d, 4); }
I void S_quat_slerp(versor a, versor b, float t, versor d) { r_slerp(a, b, t, d, 0); }
I void S_quat_slerp_longest(versor a, versor b, float t, versor d) { r_slerp(a, b, t, d, 1); }
/* view matrix of a camera at eye with orientation q: rotate back, after moving eye to the origin */
I void L_look(vec3 eye, versor q, mat4 d) { NZ(q); glm_quat_look(eye, q, d); }
I void R_look(vec3 eye, versor q, mat4 d) { NZ(q); float o[3], m[16]; r_qmat(q, m, 4, 1); r_mul(m, (float[4]){eye[0], eye[1], eye[2], 0.0f}, (float[4]){0}, 4, 4, 1);
  for (int r = 0; r < 3; r++) { o[r] = 0.0f; for (int c = 0; c < 3; c++) o[r] += m[c * 4 + r] * eye[c]; m[12 + r] = -o[r]; } r_copy(m, F(d), 16); }
I void r_fwd(const float *dir, const float *up, float *m) {
  float z[3], x[3], *y = m + 3; r_imagn(dir, z); r_scale(z, -1.0f, 3);
  for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, k = (i + 2) % 3; x[i] = up[j] * z[k] - up[k] * z[j]; }
  r_imagn(x, x);
  for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, k = (i + 2) % 3; y[i] = z[j] * x[k] - z[k] * x[j]; }
  r_copy(x, m, 3); r_copy(z, m + 6, 3); }
I void S_quat_for(vec3 dir, vec3 up, versor d) { mat3 m; r_fwd(dir, up, F(m)); glm_mat3_quat(m, d); }
I void S_quat_forp(vec3 a, vec3 b, vec3 up, versor d) { mat3 m; float v[3]; for (int i = 0; i < 3; i++) v[i] = b[i] - a[i]; r_fwd(v, up, F(m)); glm_mat3_quat(m, d); }
/* rotating a matrix: m * R(q); about a pivot: m * T(p) R(q) T(-p). mul_rot expects an affine m */
I void r_tr(const float *p, float *m) { r_ident(m, 4); for (int i = 0; i < 3; i++) m[12 + i] = p[i]; }
I void r_rot_at(const float *q, const float *p, float *d) { float a[16], b[16], np[3] = {-p[0], -p[1], -p[2]}; r_tr(p, a); r_qmat(q, b, 4, 0); r_mul(a, b, a, 4, 4, 4); r_tr(np, b); r_mul(a, b, d, 4, 4, 4); }
#define AFF(m) m[0][3] = m[1][3] = m[2][3] = 0.0f; m[3][3] = 1.0f
I void L_rotate(mat4 m, versor q, mat4 d) { NZ(q); AFF(m); glm_quat_rotate(m, q, d); }
I void R_rotate(mat4 m, versor q, mat4 d) { NZ(q); AFF(m); float b[16]; r_qmat(q, b, 4, 0); r_mul(F(m), b, F(d), 4, 4, 4); }
I void L_rotate_at(mat4 m, versor q, vec3 p) { NZ(q); AFF(m); glm_quat_rotate_at(m, q, p); }
I void R_rotate_at(mat4 m, versor q, vec3 p) { NZ(q); AFF(m); float b[16]; r_rot_at(q, p, b); r_mul(F(m), b, F(m), 4, 4, 4); }
I void L_rotate_atm(versor q, vec3 p, mat4 d) { NZ(q); glm_quat_rotate_atm(d, q, p); }
I void R_rotate_atm(versor q, vec3 p, mat4 d) { NZ(q); r_rot_at(q, p, F(d)); }
/* matrix -> quaternion gives back the rotation: q q^T is compared, q and -q are the same rotation */
I void r_outer(const float *q, float *o) { for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) o[4 * i + j] = q[i] * q[j]; }
I void L_mat4_quat(versor q, mat4 o) { NZ(q); mat4 m; versor r; r_qmat(q, F(m), 4, 0); glm_mat4_quat(m, r); r_outer(r, F(o)); }
I void R_mat4_quat(versor q, mat4 o) { NZ(q); r_outer(q, F(o)); r_scale(F(o), 1.0f / r_dot(q, q, 4), 16); }
I void L_mat3_quat(versor q, mat4 o) { NZ(q); mat3 m; versor r; r_qmat(q, F(m), 3, 0); glm_mat3_quat(m, r); r_outer(r, F(o)); }
I void R_mat3_quat(versor q, mat4 o) { NZ(q); r_outer(q, F(o)); r_scale(F(o), 1.0f / r_dot(q, q, 4), 16); }
/* shortest rotation taking a to b */
I float L_from_vecs_unit(vec3 a, vec3 b) { versor q; glm_quat_from_vecs(a, b, q); return r_dot(q, q, 4); }
I float R_from_vecs_unit(vec3 a, vec3 b) { return 1.0f; }
I void r_u(float *a) { float n = r_norm(a, 3); for (int i = 0; i < 3; i++) a[i] /= n; }
/* half-angle form: q is parallel to (a x b, 1 + a.b) and has unit length */
I void L_from_vecs(vec3 a, vec3 b, vec4 d) { versor q; r_u(a); r_u(b); float ab = r_dot(a, b, 3); if (ab >= 1.0f - 1e-5f || ab < -1.0f + 1e-5f) return; glm_quat_from_vecs(a, b, q); for (int i = 0; i < 4; i++) d[i] = q[i]; }
I void R_from_vecs(vec3 a, vec3 b, vec4 d) { r_u(a); r_u(b); float ab = r_dot(a, b, 3); if (ab >= 1.0f - 1e-5f || ab < -1.0f + 1e-5f) return;
  for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, l = (i + 2) % 3; d[i] = a[j] * b[l] - a[l] * b[j]; } d[3] = 1.0f + ab; r_qnormalize(d, d); }
/* (nearly) opposite vectors: b = c a with c in [-1, -1 + eps): a half turn, which takes a to -a */
#define OPP(d) float nc = 1.0f + c; if (nc < 0.0f || nc >= 1e-7f) return d
I float q_opp(float x, float y, float z, float c) { versor q; vec3 u = {x, y, z}, b; for (int i = 0; i < 3; i++) b[i] = c * u[i]; glm_quat_from_vecs(u, b, q); return q[3]; }
I void L_from_vecs_opp(float c, mat2x3 d) { OPP(); d[0][0] = q_opp(1, 0, 0, c); d[0][1] = q_opp(0, -1, 0, c); d[0][2] = q_opp(0, 0, 1, c); d[1][0] = q_opp(.6f, .8f, 0, c); d[1][1] = q_opp(0, .6f, -.8f, c); d[1][2] = q_opp(-.28f, 0, .96f, c); }
I void R_from_vecs_opp(float c, mat2x3 d) { OPP(); for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) d[i][j] = 0; }
I float L_from_vecs_opp_axis(vec3 a, float c) { OPP(0); versor q; vec3 u, b; r_copy(a, u, 3); r_u(u); for (int i = 0; i < 3; i++) b[i] = c * u[i]; glm_quat_from_vecs(u, b, q); return r_dot(q, u, 3); }
I float R_from_vecs_opp_axis(vec3 a, float c) { return 0.0f; }
/* algebra */
I float L_norm_mul(versor p, versor q) { versor r; glm_quat_mul(p, q, r); return r_dot(r, r, 4); }
I float R_norm_mul(versor p, versor q) { return r_dot(p, p, 4) * r_dot(q, q, 4); }
I void L_inv_mul(versor q, versor d) { versor r; glm_quat_inv(q, r); glm_quat_mul(q, r, d); }
I void R_inv_mul(versor q, versor d) { S_quat_identity(d); }
