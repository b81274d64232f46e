/* Euler angles: order abc means R = Ra * Rb * Rc with each R a right-handed rotation about its axis; angles are always given as x, y, z */
#include "quat.h"
I void r_axis(float *m, float an, int ax) { float c = cosf(an), s = sinf(an); int p = (ax + 1) % 3, q = (ax + 2) % 3;
  r_ident(m, 4); m[p * 4 + p] = c; m[q * 4 + p] = -s; m[p * 4 + q] = s; m[q * 4 + q] = c; }
I void r_euler(const float *an, float *d, int i, int j, int k) { float a[16], b[16]; 
  r_axis(a, an[i], i); r_axis(b, an[j], j); r_mul(a, b, a, 4, 4, 4); r_axis(b, an[k], k); r_mul(a, b, d, 4, 4, 4); }
I void r_qaxis(float *q, float an, int ax) { r_zero(q, 4); q[ax] = sinf(an * 0.5f); q[3] = cosf(an * 0.5f); }
/* left-handed conversion: the rotation about z is reversed */
I void r_eulerq(const float *an, float *d, int i, int j, int k, int lh) { float x[3] = {an[0], an[1], lh ? -an[2] : an[2]}, a[4], b[4];
  r_qaxis(a, x[i], i); r_qaxis(b, x[j], j); r_qmul(a, b, a); r_qaxis(b, x[k], k); r_qmul(a, b, d); }
#ifdef CGLM_FORCE_LEFT_HANDED
#define LH 1
#else
#define LH 0
#endif
I void S_euler(vec3 an, mat4 d) { r_euler(an, F(d), 0, 1, 2); }
#define ORDER(abc, ABC, i, j, k) \
  I void S_euler_##abc(vec3 an, mat4 d) { r_euler(an, F(d), i, j, k); } \
  I void L_by_order_##abc(vec3 an, mat4 d) { glm_euler_by_order(an, GLM_EULER_##ABC, d); } \
  I void R_by_order_##abc(vec3 an, mat4 d) { r_euler(an, F(d), i, j, k); } \
  I void L_order_##abc(vec3 an, mat4 d) { int o[3] = {i, j, k}; glm_euler_by_order(an, glm_euler_order(o), d); } \
  I void R_order_##abc(vec3 an, mat4 d) { r_euler(an, F(d), i, j, k); } \
  I int L_packed_##abc(vec3 an) { int o[3] = {i, j, k}; return glm_euler_order(o) == GLM_EULER_##ABC; } \
  I int R_packed_##abc(vec3 an) { return 1; } \
  I void S_euler_##abc##_quat(vec3 an, versor d) { r_eulerq(an, d, i, j, k, LH); }
ORDER(xyz, XYZ, 0, 1, 2) ORDER(xzy, XZY, 0, 2, 1) ORDER(yxz, YXZ, 1, 0, 2) ORDER(yzx, YZX, 1, 2, 0) ORDER(zxy, ZXY, 2, 0, 1) ORDER(zyx, ZYX, 2, 1, 0)
#if LH
#define QH(abc, i, j, k) I void S_euler_##abc##_quat_lh(vec3 an, versor d) { r_eulerq(an, d, i, j, k, 1); }
#else
#define QH(abc, i, j, k) I void S_euler_##abc##_quat_rh(vec3 an, versor d) { r_eulerq(an, d, i, j, k, 0); }
#endif
QH(xyz, 0, 1, 2) QH(xzy, 0, 2, 1) QH(yxz, 1, 0, 2) QH(yzx, 1, 2, 0) QH(zxy, 2, 0, 1) QH(zyx, 2, 1, 0)
/* extraction: building the matrix from the extracted angles gives the rotation back (any rotation away from gimbal lock) */
I void L_angles(vec3 an, mat4 d) { mat4 m; vec3 e; if (sinf(an[1]) >= 1.0f || sinf(an[1]) <= -1.0f) return; r_euler(an, F(m), 0, 1, 2); glm_euler_angles(m, e); r_euler(e, F(d), 0, 1, 2); }
I void R_angles(vec3 an, mat4 d) { if (sinf(an[1]) >= 1.0f || sinf(an[1]) <= -1.0f) return; r_euler(an, F(d), 0, 1, 2); }
/* gimbal lock: only the sum (difference) of the x and z angles is determined */
I void L_angles_up(vec3 an, vec3 e) { mat4 m; r_euler(an, F(m), 0, 1, 2); m[2][0] = 1.0f; m[0][1] = sinf(an[0] + an[2]); m[1][1] = cosf(an[0] + an[2]); glm_euler_angles(m, e); }
I void R_angles_up(vec3 an, vec3 e) { e[0] = atan2f(sinf(an[0] + an[2]), cosf(an[0] + an[2])); e[1] = GLM_PI_2f; e[2] = 0.0f; }
I void L_angles_down(vec3 an, vec3 e) { mat4 m; r_euler(an, F(m), 0, 1, 2); m[2][0] = -1.0f; m[0][1] = -sinf(an[0] - an[2]); m[1][1] = cosf(an[0] - an[2]); glm_euler_angles(m, e); }
I void R_angles_down(vec3 an, vec3 e) { e[0] = atan2f(sinf(an[0] - an[2]), cosf(an[0] - an[2])); e[1] = -GLM_PI_2f; e[2] = 0.0f; }
I void S_euler_angles(mat4 m, vec3 e) { float s = m[2][0];
  if (s >= 1.0f) { e[0] = atan2f(m[0][1], m[1][1]); e[1] = GLM_PI_2f; e[2] = 0.0f; }
  else if (s <= -1.0f) { e[0] = -atan2f(m[0][1], m[1][1]); e[1] = -GLM_PI_2f; e[2] = 0.0f; }
  else { float x = atan2f(-m[2][1], m[2][2]), y = asinf(s), z = atan2f(-m[1][0], m[0][0]); e[0] = x; e[1] = y; e[2] = z; } }
