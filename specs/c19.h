/* planes (A, B, C, D): Ax + By + Cz + D = 0, frustum (planes: left right bottom top near far; corners LBN LTN RTN RBN LBF LTF RTF RBF), rays */
#include "mat.h"
#if CGLM_CONFIG_CLIP_CONTROL & CGLM_CLIP_CONTROL_ZO_BIT
#define LO 0.0f
#else
#define LO -1.0f
#endif
I void r_pn(float *p) { float n = sqrtf(r_dot(p, p, 3)); for (int i = 0; i < 4; i++) p[i] = n < FLT_EPSILON ? 0.0f : p[i] / n; }
I void S_plane_normalize(vec4 p) { r_pn(p); }
/* a point is inside exactly when -w <= x <= w, -w <= y <= w, lo * w <= z <= w */
I void S_frustum_planes(mat4 m, vec4 d[6]) { float t[24];
  for (int k = 0; k < 3; k++) for (int c = 0; c < 4; c++) { float lo = k == 2 ? LO : -1.0f; t[8 * k + c] = m[c][k] - lo * m[c][3]; t[8 * k + 4 + c] = m[c][3] - m[c][k]; }
  for (int k = 0; k < 6; k++) { r_pn(t + 4 * k); r_copy(t + 4 * k, d[k], 4); } }
I void S_frustum_corners(mat4 m, vec4 d[8]) { float o[32];
  for (int k = 0; k < 8; k++) { int q = k & 3; float v[4] = {q < 2 ? -1.0f : 1.0f, q == 1 || q == 2 ? 1.0f : -1.0f, k < 4 ? LO : 1.0f, 1.0f}, t[4];
    r_mul(F(m), v, t, 4, 4, 1); for (int i = 0; i < 4; i++) o[4 * k + i] = t[i] / t[3]; }
  r_copy(o, F(d), 32); }
I void S_frustum_center(vec4 c[8], vec4 d) { float t[4]; for (int i = 0; i < 4; i++) { t[i] = 0.0f; for (int k = 0; k < 8; k++) t[i] += c[k][i] / 8.0f; } r_copy(t, d, 4); }
I void S_frustum_box(vec4 c[8], mat4 m, vec3 b[2]) { float lo[3] = {FLT_MAX, FLT_MAX, FLT_MAX}, hi[3] = {-FLT_MAX, -FLT_MAX, -FLT_MAX};
  for (int k = 0; k < 8; k++) { float t[4]; r_mul(F(m), c[k], t, 4, 4, 1); for (int i = 0; i < 3; i++) { lo[i] = t[i] < lo[i] ? t[i] : lo[i]; hi[i] = t[i] > hi[i] ? t[i] : hi[i]; } }
  r_copy(lo, b[0], 3); r_copy(hi, b[1], 3); }
/* the cut at distance ratio split / far between the near and the far corners */
I void S_frustum_corners_at(vec4 c[8], float s, float f, vec4 d[4]) { float o[16]; for (int k = 0; k < 4; k++) for (int i = 0; i < 4; i++) o[4 * k + i] = c[k][i] + (c[k + 4][i] - c[k][i]) * (s / f); r_copy(o, F(d), 16); }
/* rays */
I void S_ray_at(vec3 o, vec3 d, float t, vec3 p) { for (int i = 0; i < 3; i++) p[i] = o[i] + t * d[i]; }
I float r_det3(const float *a, const float *b, const float *c) { return a[0] * (b[1] * c[2] - b[2] * c[1]) + a[1] * (b[2] * c[0] - b[0] * c[2]) + a[2] * (b[0] * c[1] - b[1] * c[0]); }
/* o + t d = v0 + u e1 + v e2 by Cramer's rule; the hit is inside when u, v >= 0 and u + v <= 1 */
I bool r_tri(const float *o, const float *d, const float *v0, const float *v1, const float *v2, float *dist) {
  float e1[3], e2[3], s[3], nd[3]; for (int i = 0; i < 3; i++) { e1[i] = v1[i] - v0[i]; e2[i] = v2[i] - v0[i]; s[i] = o[i] - v0[i]; nd[i] = -d[i]; }
  float det = r_det3(nd, e1, e2); if (fabsf(det) < 0.000001f) return 0;
  float u = r_det3(nd, s, e2) / det, v = r_det3(nd, e1, s) / det, t = r_det3(s, e1, e2) / det;
  if (u < 0.0f || u > 1.0f || v < 0.0f || u + v > 1.0f) return 0;
  *dist = t; return t > 0.000001f; }
I bool L_ray_triangle(vec3 o, vec3 d, vec3 v0, vec3 v1, vec3 v2, float *t) { return glm_ray_triangle(o, d, v0, v1, v2, t); }
I bool R_ray_triangle(vec3 o, vec3 d, vec3 v0, vec3 v1, vec3 v2, float *t) { return r_tri(o, d, v0, v1, v2, t); }
I bool L_ray_triangle_null(vec3 o, vec3 d, vec3 v0, vec3 v1, vec3 v2) { return glm_ray_triangle(o, d, v0, v1, v2, 0); }
I bool R_ray_triangle_null(vec3 o, vec3 d, vec3 v0, vec3 v1, vec3 v2) { float t; return r_tri(o, d, v0, v1, v2, &t); }
/* |o + t d - c| = r for a unit direction. Every unit direction is d = (cos p cos t, cos p sin t, sin p) for some angles; with n1, n2 completing it to an
   orthonormal frame every centre is o + b d + x n1 + y n2. The sphere is hit when r^2 = h^2 + x^2 + y^2 for some h >= 0, at distances b - h and b + h */
I void r_frame(const float *an, const float *o, float b, float x, float y, float *d, float *c) {
  float cp = cosf(an[0]), sp = sinf(an[0]), ct = cosf(an[1]), st = sinf(an[1]);
  d[0] = cp * ct; d[1] = cp * st; d[2] = sp;
  c[0] = o[0] + b * d[0] - x * st - y * sp * ct; c[1] = o[1] + b * d[1] + x * ct - y * sp * st; c[2] = o[2] + b * d[2] + y * cp; }
I bool L_ray_sphere_hit_ahead(vec3 o, vec2 an, float b, float h, float x, float y, float *t1, float *t2) { vec3 d; vec4 s; if (!(h >= 0.0f && b > 0.0f)) return 0;
  r_frame(an, o, b, x, y, d, s); s[3] = sqrtf(h * h + x * x + y * y); return glm_ray_sphere(o, d, s, t1, t2); }
I bool R_ray_sphere_hit_ahead(vec3 o, vec2 an, float b, float h, float x, float y, float *t1, float *t2) { if (!(h >= 0.0f && b > 0.0f)) return 0;
  *t1 = b - h; *t2 = b + h; return !(b + h < 0.0f); }
I bool L_ray_sphere_hit_behind(vec3 o, vec2 an, float c_, float h, float x, float y, float *t1, float *t2) { vec3 d; vec4 s; if (!(h >= 0.0f && c_ > 0.0f)) return 0; float b = -c_;
  r_frame(an, o, b, x, y, d, s); s[3] = sqrtf(h * h + x * x + y * y); return glm_ray_sphere(o, d, s, t1, t2); }
I bool R_ray_sphere_hit_behind(vec3 o, vec2 an, float c_, float h, float x, float y, float *t1, float *t2) { if (!(h >= 0.0f && c_ > 0.0f)) return 0; float b = -c_;
  *t1 = b - h; *t2 = b + h; return !(b + h < 0.0f); }
I bool L_ray_sphere_hit_beside(vec3 o, vec2 an, float h, float x, float y, float *t1, float *t2) { vec3 d; vec4 s; if (!(h > 0.0f)) return 0; float b = 0.0f;
  r_frame(an, o, b, x, y, d, s); s[3] = sqrtf(h * h + x * x + y * y); return glm_ray_sphere(o, d, s, t1, t2); }
I bool R_ray_sphere_hit_beside(vec3 o, vec2 an, float h, float x, float y, float *t1, float *t2) { if (!(h > 0.0f)) return 0; float b = 0.0f;
  *t1 = b - h; *t2 = b + h; return !(b + h < 0.0f); }
I bool L_ray_sphere_touch(vec3 o, vec2 an, float x, float y, float *t1, float *t2) { vec3 d; vec4 s;
  r_frame(an, o, 0.0f, x, y, d, s); s[3] = sqrtf(x * x + y * y); return glm_ray_sphere(o, d, s, t1, t2); }
I bool R_ray_sphere_touch(vec3 o, vec2 an, float x, float y, float *t1, float *t2) { *t1 = 0.0f; *t2 = 0.0f; return 1; }
I bool L_ray_sphere_miss(vec3 o, vec2 an, float b, float h, float r, float w, float *t1, float *t2) { vec3 d; vec4 s; if (h <= 0.0f) return 0; float k = sqrtf(r * r + h * h);
  r_frame(an, o, b, k * cosf(w), k * sinf(w), d, s); s[3] = r; return glm_ray_sphere(o, d, s, t1, t2); }
I bool R_ray_sphere_miss(vec3 o, vec2 an, float b, float h, float r, float w, float *t1, float *t2) { return 0; }
