/* axis-aligned boxes (box[0] = min, box[1] = max) in 3D and 2D, spheres (x, y, z, r) and circles (x, y, r) */
#include "mat.h"
I float r_min(float a, float b) { return a < b ? a : b; }
I float r_max(float a, float b) { return a > b ? a : b; }
#define VALID(b, n) for (int i_ = 0; i_ < n; i_++) if (!(b[0][i_] <= b[1][i_])) return
#define VALIDB(b, n) for (int i_ = 0; i_ < n; i_++) if (!(b[0][i_] <= b[1][i_])) return 0
#define BOX(A, V, M, n, m) \
I void S_##A##_transform(V b[2], M x, V d[2]) { float lo[3], hi[3]; \
  for (int r = 0; r < n; r++) { lo[r] = hi[r] = x[n][r]; for (int c = 0; c < n; c++) { float p = x[c][r] * b[0][c], q = x[c][r] * b[1][c]; lo[r] += r_min(p, q); hi[r] += r_max(p, q); } } \
  r_copy(lo, d[0], n); r_copy(hi, d[1], n); } \
I void S_##A##_merge(V a[2], V b[2], V d[2]) { for (int i = 0; i < n; i++) { d[0][i] = r_min(a[0][i], b[0][i]); d[1][i] = r_max(a[1][i], b[1][i]); } } \
I void S_##A##_crop(V a[2], V b[2], V d[2]) { for (int i = 0; i < n; i++) { d[0][i] = r_max(a[0][i], b[0][i]); d[1][i] = r_min(a[1][i], b[1][i]); } } \
I void S_##A##_crop_until(V a[2], V b[2], V c[2], V d[2]) { for (int i = 0; i < n; i++) { float lo = r_max(a[0][i], b[0][i]), hi = r_min(a[1][i], b[1][i]); d[0][i] = r_min(lo, c[0][i]); d[1][i] = r_max(hi, c[1][i]); } } \
I void S_##A##_invalidate(V b[2]) { for (int i = 0; i < n; i++) { b[0][i] = FLT_MAX; b[1][i] = -FLT_MAX; } } \
I void S_##A##_center(V b[2], V d) { for (int i = 0; i < n; i++) d[i] = (b[0][i] + b[1][i]) * 0.5f; } \
I float r_##A##_diag(V b[2]) { float t[3]; for (int i = 0; i < n; i++) t[i] = b[1][i] - b[0][i]; return sqrtf(r_dot(t, t, n)); } \
I float S_##A##_radius(V b[2]) { return 0.5f * r_##A##_diag(b); } \
/* closed intervals: touching counts */ \
I bool S_##A##_aabb(V a[2], V b[2]) { bool r = 1; for (int i = 0; i < n; i++) r &= a[0][i] <= b[1][i] && b[0][i] <= a[1][i]; return r; } \
I bool S_##A##_point(V b[2], V p) { bool r = 1; for (int i = 0; i < n; i++) r &= b[0][i] <= p[i] && p[i] <= b[1][i]; return r; } \
I bool S_##A##_contains(V a[2], V b[2]) { bool r = 1; for (int i = 0; i < n; i++) r &= a[0][i] <= b[0][i] && b[1][i] <= a[1][i]; return r; } \
/* laws: a box that was merged contains both, a crop lies in both (when it is not empty) */ \
I bool L_##A##_merge_contains(V a[2], V b[2]) { V d[2]; glm_##A##_merge(a, b, d); return glm_##A##_contains(d, a); } \
I bool R_##A##_merge_contains(V a[2], V b[2]) { return 1; } \
I bool L_##A##_crop_inside(V a[2], V b[2]) { V d[2]; glm_##A##_crop(a, b, d); return glm_##A##_contains(a, d) && glm_##A##_contains(b, d); } \
I bool R_##A##_crop_inside(V a[2], V b[2]) { return 1; } \
I bool L_##A##_invalid(V a[2]) { glm_##A##_invalidate(a); return glm_##A##_isvalid(a); } \
I bool R_##A##_invalid(V a[2]) { S_##A##_invalidate(a); return 0; } \
I bool L_##A##_valid(V a[2]) { for (int i = 0; i < n; i++) if (!(a[0][i] < FLT_MAX && a[1][i] > -FLT_MAX)) return 1; return glm_##A##_isvalid(a); } \
I bool R_##A##_valid(V a[2]) { return 1; } \
/* one corner value that never came from a point makes the box invalid */ \
I bool L_##A##_invalid_corner(V a[2]) { bool v = 1; for (int i = 0; i < n; i++) if (!(a[0][i] <= FLT_MAX && a[1][i] >= -FLT_MAX)) return 1; for (int i = 0; i < n; i++) v &= a[0][i] < FLT_MAX && a[1][i] > -FLT_MAX; return v ? 1 : glm_##A##_isvalid(a); } \
I bool R_##A##_invalid_corner(V a[2]) { bool v = 1; for (int i = 0; i < n; i++) if (!(a[0][i] <= FLT_MAX && a[1][i] >= -FLT_MAX)) return 1; for (int i = 0; i < n; i++) v &= a[0][i] < FLT_MAX && a[1][i] > -FLT_MAX; return v; } \
/* squared distance from the centre to the nearest point of the box */ \
I float r_##A##_dist2(V b[2], float *c) { float s = 0.0f; for (int i = 0; i < n; i++) { float d = c[i] < b[0][i] ? b[0][i] - c[i] : c[i] > b[1][i] ? c[i] - b[1][i] : 0.0f; s += d * d; } return s; }
BOX(aabb, vec3, mat4, 3, 4) BOX(aabb2d, vec2, mat3, 2, 3)
I bool L_aabb_sphere(vec3 b[2], vec4 s) { VALIDB(b, 3); return glm_aabb_sphere(b, s); }
I bool R_aabb_sphere(vec3 b[2], vec4 s) { VALIDB(b, 3); return r_aabb_dist2(b, s) <= s[3] * s[3]; }
I bool L_aabb2d_circle(vec2 b[2], vec3 s) { VALIDB(b, 2); return glm_aabb2d_circle(b, s); }
I bool R_aabb2d_circle(vec2 b[2], vec3 s) { VALIDB(b, 2); return r_aabb2d_dist2(b, s) <= s[2] * s[2]; }
I float S_aabb_size(vec3 b[2]) { return r_aabb_diag(b); }
I float S_aabb2d_diag(vec2 b[2]) { return r_aabb2d_diag(b); }
I void S_aabb2d_sizev(vec2 b[2], vec2 d) { for (int i = 0; i < 2; i++) d[i] = b[1][i] - b[0][i]; }
I void S_aabb2d_zero(vec2 b[2]) { r_zero(F(b), 4); }
I void S_aabb2d_copy(vec2 b[2], vec2 d[2]) { r_copy(F(b), F(d), 4); }
/* culled when the box lies on the negative side of one plane: its farthest corner along the plane normal is behind the plane */
I bool S_aabb_frustum(vec3 b[2], vec4 p[6]) { bool in = 1; for (int k = 0; k < 6; k++) { float s = p[k][3]; for (int i = 0; i < 3; i++) s += p[k][i] * (p[k][i] > 0.0f ? b[1][i] : b[0][i]); in &= s >= 0.0f; } return in; }
/* spheres */
I float S_sphere_radii(vec4 s) { return s[3]; }
I void S_sphere_transform(vec4 s, mat4 m, vec4 d) { float t[4], v[4] = {s[0], s[1], s[2], 1.0f}; r_mul(F(m), v, t, 4, 4, 1); t[3] = s[3]; r_copy(t, d, 4); }
I float r_d2(const float *a, const float *b) { float t[3]; for (int i = 0; i < 3; i++) t[i] = a[i] - b[i]; return r_dot(t, t, 3); }
I bool S_sphere_sphere(vec4 a, vec4 b) { return r_d2(a, b) <= (a[3] + b[3]) * (a[3] + b[3]); }
I bool S_sphere_point(vec4 s, vec3 p) { return r_d2(s, p) <= s[3] * s[3]; }
/* the merged sphere contains both */
I bool L_sphere_merge(vec4 a, vec4 b) { vec4 d; if (a[3] < 0.0f || b[3] < 0.0f) return 1; glm_sphere_merge(a, b, d); return sqrtf(r_d2(a, d)) + a[3] <= d[3] && sqrtf(r_d2(b, d)) + b[3] <= d[3]; }
I bool R_sphere_merge(vec4 a, vec4 b) { return 1; }
