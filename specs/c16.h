/* camera: H = +1 (left-handed) or -1 (right-handed): visible points lie at view z = H * distance; depth range [LO, 1], LO = -1 or 0 */
#include "mat.h"
#include "cglm/clipspace/persp_lh_no.h"
#include "cglm/clipspace/persp_lh_zo.h"
#include "cglm/clipspace/persp_rh_no.h"
#include "cglm/clipspace/persp_rh_zo.h"
#include "cglm/clipspace/ortho_lh_no.h"
#include "cglm/clipspace/ortho_lh_zo.h"
#include "cglm/clipspace/ortho_rh_no.h"
#include "cglm/clipspace/ortho_rh_zo.h"
#include "cglm/clipspace/view_lh_no.h"
#include "cglm/clipspace/view_lh_zo.h"
#include "cglm/clipspace/view_rh_no.h"
#include "cglm/clipspace/view_rh_zo.h"
I void r_depth(float *m, float n, float f, float H, float lo) { m[10] = H * (f - lo * n) / (f - n); m[11] = H; m[14] = (lo - 1.0f) * f * n / (f - n); }
I void r_frustum(float l, float r, float b, float t, float n, float f, float *m, float H, float lo) {
  r_zero(m, 16); m[0] = 2.0f * n / (r - l); m[5] = 2.0f * n / (t - b); m[8] = -H * (r + l) / (r - l); m[9] = -H * (t + b) / (t - b); r_depth(m, n, f, H, lo); }
I void r_persp(float fovy, float as, float n, float f, float *m, float H, float lo) {
  float h = 1.0f / tanf(fovy * 0.5f); r_zero(m, 16); m[0] = h / as; m[5] = h; r_depth(m, n, f, H, lo); }
I void r_ortho(float l, float r, float b, float t, float n, float f, float *m, float H, float lo) {
  r_ident(m, 4); m[0] = 2.0f / (r - l); m[5] = 2.0f / (t - b); m[12] = -(r + l) / (r - l); m[13] = -(t + b) / (t - b);
  m[10] = H * (1.0f - lo) / (f - n); m[14] = lo - (1.0f - lo) * n / (f - n); }
/* the box spans view z from box[0][2] to box[1][2]: a left-handed camera sees +z, a right-handed one -z */
I void r_oaabb(vec3 *bx, float p, float pz, float *m, float H, float lo) {
  r_ortho(bx[0][0] - p, bx[1][0] + p, bx[0][1] - p, bx[1][1] + p, (H > 0.0f ? bx[0][2] : -bx[1][2]) - pz, (H > 0.0f ? bx[1][2] : -bx[0][2]) + pz, m, H, lo); }
I void r_odef(float as, float size, float z, float *m, float H, float lo) {
  float x = as >= 1.0f ? size * as : size, y = as >= 1.0f ? size : size / as; r_ortho(-x, x, -y, y, -z, z, m, H, lo); }
I float r_near(mat4 p, float H, float lo) { float a = H * p[2][2], b = p[3][2]; return b / (lo - a); }   /* A n + B = lo n with A = H m22 */
I float r_far(mat4 p, float H, float lo) { float a = H * p[2][2], b = p[3][2]; return b / (1.0f - a); }
I void r_x(mat4 p, float *l, float *r, float H, float lo) { float n = r_near(p, H, lo), a = (-1.0f - H * p[2][0]) * n / p[0][0], b = (1.0f - H * p[2][0]) * n / p[0][0]; *l = a; *r = b; }
I void r_y(mat4 p, float *t, float *b, float H, float lo) { float n = r_near(p, H, lo), c = (1.0f - H * p[2][1]) * n / p[1][1], d = (-1.0f - H * p[2][1]) * n / p[1][1]; *t = c; *b = d; }
I void r_move(mat4 p, float d, float H, float lo) { float n = r_near(p, H, lo), f = r_far(p, H, lo) + d, m[16]; r_depth(m, n, f, H, lo); p[2][2] = m[10]; p[3][2] = m[14]; }
I float r_aspect(mat4 p) { return p[1][1] / p[0][0]; }
I void r_sizes(mat4 p, float fovy, float *d, float H, float lo) { float t = 2.0f * tanf(fovy * 0.5f), n = r_near(p, H, lo), f = r_far(p, H, lo), a = r_aspect(p);
  d[0] = a * t * n; d[1] = t * n; d[2] = a * t * f; d[3] = t * f; }
I void r_resize(float as, mat4 p) { if (p[0][0] != 0.0f) p[0][0] = p[1][1] / as; }
I void r_fn(const float *x, float *o) { float n = sqrtf(r_dot(x, x, 3)); for (int i = 0; i < 3; i++) o[i] = n < FLT_EPSILON ? 0.0f : x[i] / n; }
I void r_cross(const float *a, const float *b, float *d) { float t[3]; for (int i = 0; i < 3; i++) t[i] = a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3]; r_copy(t, d, 3); }
I void r_view(const float *eye, const float *dir, const float *up, float *m, float H) {
  float f[3], s[3], u[3], t[16]; r_fn(dir, f);
  if (H > 0.0f) r_cross(up, f, s); else r_cross(f, up, s);
  r_fn(s, s); if (H > 0.0f) r_cross(f, s, u); else r_cross(s, f, u);
  r_ident(t, 4);
  for (int i = 0; i < 3; i++) { t[4 * i] = s[i]; t[4 * i + 1] = u[i]; t[4 * i + 2] = H * f[i]; }
  t[12] = -r_dot(s, eye, 3); t[13] = -r_dot(u, eye, 3); t[14] = -H * r_dot(f, eye, 3);
  r_copy(t, m, 16); }
I void r_lookat(const float *eye, const float *c, const float *up, float *m, float H) { float d[3]; for (int i = 0; i < 3; i++) d[i] = c[i] - eye[i]; r_view(eye, d, up, m, H); }
I void r_anyup(vec3 eye, vec3 dir, float *m, float H) { vec3 up; glm_vec3_ortho(dir, up); r_view(eye, dir, up, m, H); }
#define CAM(sfx, H, lo) \
  I void S_frustum##sfx(float l, float r, float b, float t, float n, float f, mat4 d) { r_frustum(l, r, b, t, n, f, F(d), H, lo); } \
  I void S_perspective##sfx(float fovy, float as, float n, float f, mat4 d) { r_persp(fovy, as, n, f, F(d), H, lo); } \
  I void S_perspective_default##sfx(float as, mat4 d) { r_persp(GLM_PI_4f, as, 0.01f, 100.0f, F(d), H, lo); } \
  I void S_perspective_resize##sfx(float as, mat4 p) { r_resize(as, p); } \
  I void S_ortho##sfx(float l, float r, float b, float t, float n, float f, mat4 d) { r_ortho(l, r, b, t, n, f, F(d), H, lo); } \
  I void S_ortho_aabb##sfx(vec3 bx[2], mat4 d) { r_oaabb(bx, 0.0f, 0.0f, F(d), H, lo); } \
  I void S_ortho_aabb_p##sfx(vec3 bx[2], float p, mat4 d) { r_oaabb(bx, p, p, F(d), H, lo); } \
  I void S_ortho_aabb_pz##sfx(vec3 bx[2], float p, mat4 d) { r_oaabb(bx, 0.0f, p, F(d), H, lo); } \
  I void S_ortho_default##sfx(float as, mat4 d) { r_odef(as, 1.0f, 100.0f, F(d), H, lo); } \
  I void S_ortho_default_s##sfx(float as, float s, mat4 d) { r_odef(as, s, s + 100.0f, F(d), H, lo); } \
  I void S_persp_move_far##sfx(mat4 p, float df) { r_move(p, df, H, lo); } \
  I void S_persp_decomp##sfx(mat4 p, float *n, float *f, float *t, float *b, float *l, float *r) { *n = r_near(p, H, lo); *f = r_far(p, H, lo); r_y(p, t, b, H, lo); r_x(p, l, r, H, lo); } \
  I void S_persp_decompv##sfx(mat4 p, float d[6]) { d[0] = r_near(p, H, lo); d[1] = r_far(p, H, lo); r_y(p, d + 2, d + 3, H, lo); r_x(p, d + 4, d + 5, H, lo); } \
  I void S_persp_decomp_x##sfx(mat4 p, float *l, float *r) { r_x(p, l, r, H, lo); } \
  I void S_persp_decomp_y##sfx(mat4 p, float *t, float *b) { r_y(p, t, b, H, lo); } \
  I void S_persp_decomp_z##sfx(mat4 p, float *n, float *f) { *n = r_near(p, H, lo); *f = r_far(p, H, lo); } \
  I void S_persp_decomp_far##sfx(mat4 p, float *f) { *f = r_far(p, H, lo); } \
  I void S_persp_decomp_near##sfx(mat4 p, float *n) { *n = r_near(p, H, lo); } \
  I void S_persp_sizes##sfx(mat4 p, float fovy, vec4 d) { r_sizes(p, fovy, d, H, lo); } \
  I float S_persp_fovy##sfx(mat4 p) { return 2.0f * atanf(1.0f / p[1][1]); } \
  I float S_persp_aspect##sfx(mat4 p) { return r_aspect(p); } \
  I void S_lookat##sfx(vec3 eye, vec3 c, vec3 up, mat4 d) { r_lookat(eye, c, up, F(d), H); } \
  I void S_look##sfx(vec3 eye, vec3 dir, vec3 up, mat4 d) { r_view(eye, dir, up, F(d), H); } \
  I void S_look_anyup##sfx(vec3 eye, vec3 dir, mat4 d) { r_anyup(eye, dir, F(d), H); } \
  /* the corners of the frustum land on the corners of clip space with w = distance */ \
  I void L_corner##sfx(float l, float r, float b, float t, float n, float f, vec4 o, vec4 o2) { mat4 m; glm_frustum##sfx(l, r, b, t, n, f, m); float k = f / n; \
    r_mul(F(m), (float[4]){r, b, H * n, 1.0f}, o, 4, 4, 1); r_mul(F(m), (float[4]){l * k, t * k, H * f, 1.0f}, o2, 4, 4, 1); } \
  I void R_corner##sfx(float l, float r, float b, float t, float n, float f, vec4 o, vec4 o2) { o[0] = n; o[1] = -n; o[2] = lo * n; o[3] = n; o2[0] = -f; o2[1] = f; o2[2] = f; o2[3] = f; } \
  /* decomposition gives back what the matrix was built from */ \
  I void L_round##sfx(float l, float r, float b, float t, float n, float f, float o[6]) { mat4 m; glm_frustum##sfx(l, r, b, t, n, f, m); glm_persp_decompv##sfx(m, o); } \
  I void R_round##sfx(float l, float r, float b, float t, float n, float f, float o[6]) { o[0] = n; o[1] = f; o[2] = t; o[3] = b; o[4] = l; o[5] = r; } \
  I void L_round6##sfx(float l, float r, float b, float t, float n, float f, float o[6]) { mat4 m; glm_frustum##sfx(l, r, b, t, n, f, m); \
    glm_persp_decomp_x##sfx(m, o, o + 1); glm_persp_decomp_y##sfx(m, o + 2, o + 3); glm_persp_decomp_near##sfx(m, o + 4); glm_persp_decomp_far##sfx(m, o + 5); } \
  I void R_round6##sfx(float l, float r, float b, float t, float n, float f, float o[6]) { o[0] = l; o[1] = r; o[2] = t; o[3] = b; o[4] = n; o[5] = f; }
CAM(_lh_no, 1.0f, -1.0f) CAM(_lh_zo, 1.0f, 0.0f) CAM(_rh_no, -1.0f, -1.0f) CAM(_rh_zo, -1.0f, 0.0f)
#if CGLM_CONFIG_CLIP_CONTROL == CGLM_CLIP_CONTROL_LH_ZO
CAM(, 1.0f, 0.0f)
#elif CGLM_CONFIG_CLIP_CONTROL == CGLM_CLIP_CONTROL_LH_NO
CAM(, 1.0f, -1.0f)
#elif CGLM_CONFIG_CLIP_CONTROL == CGLM_CLIP_CONTROL_RH_ZO
CAM(, -1.0f, 0.0f)
#else
CAM(, -1.0f, -1.0f)
#endif
#define VIEW(sfx, H) \
  I void S_lookat##sfx(vec3 eye, vec3 c, vec3 up, mat4 d) { r_lookat(eye, c, up, F(d), H); } \
  I void S_look##sfx(vec3 eye, vec3 dir, vec3 up, mat4 d) { r_view(eye, dir, up, F(d), H); } \
  I void S_look_anyup##sfx(vec3 eye, vec3 dir, mat4 d) { r_anyup(eye, dir, F(d), H); }
VIEW(_lh, 1.0f) VIEW(_rh, -1.0f)
