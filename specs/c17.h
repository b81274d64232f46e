/* window coordinates: vp = (x, y, width, height); ndc in [-1, 1], depth in [-1, 1] (NO) or [0, 1] (ZO); window depth is always [0, 1] */
#include "mat.h"
#include "cglm/clipspace/project_no.h"
#include "cglm/clipspace/project_zo.h"
I void r_pt(const float *m, const float *p, float w, float *o) { float v[4] = {p[0], p[1], p[2], w}, t[4]; r_mul(m, v, t, 4, 4, 1); for (int i = 0; i < 3; i++) o[i] = t[i] / t[3]; }
I void r_project(vec3 p, mat4 m, vec4 vp, float *d, int zo) { float o[3]; r_pt(F(m), p, 1.0f, o);
  for (int i = 0; i < 2; i++) d[i] = (o[i] * 0.5f + 0.5f) * vp[2 + i] + vp[i];
  d[2] = zo ? o[2] : o[2] * 0.5f + 0.5f; }
I float r_project_z(vec3 p, mat4 m, int zo) { float o[3]; r_pt(F(m), p, 1.0f, o); return zo ? o[2] : o[2] * 0.5f + 0.5f; }
I void r_unprojecti(vec3 p, mat4 m, vec4 vp, float *d, int zo) { float v[3], o[3];
  for (int i = 0; i < 2; i++) v[i] = 2.0f * (p[i] - vp[i]) / vp[2 + i] - 1.0f;
  v[2] = zo ? p[2] : 2.0f * p[2] - 1.0f; r_pt(F(m), v, 1.0f, o); r_copy(o, d, 3); }
#define PRJ(sfx, zo) \
  I void S_project##sfx(vec3 p, mat4 m, vec4 vp, vec3 d) { r_project(p, m, vp, d, zo); } \
  I float S_project_z##sfx(vec3 p, mat4 m) { return r_project_z(p, m, zo); } \
  I void S_unprojecti##sfx(vec3 p, mat4 m, vec4 vp, vec3 d) { r_unprojecti(p, m, vp, d, zo); } \
  /* a diagonal-plus-perspective projection is undone by the inverse: unproject(project(p)) = p */ \
  I void L_round##sfx(vec3 p, float a, float b, float A, float B, vec4 vp, vec3 d) { mat4 m, n; vec3 w; r_zero(F(m), 16); r_zero(F(n), 16); \
    m[0][0] = a; m[1][1] = b; m[2][2] = A; m[3][2] = B; m[2][3] = -1.0f; n[0][0] = 1.0f / a; n[1][1] = 1.0f / b; n[2][3] = 1.0f / B; n[3][2] = -1.0f; n[3][3] = A / B; \
    glm_project##sfx(p, m, vp, w); glm_unprojecti##sfx(w, n, vp, d); } \
  I void R_round##sfx(vec3 p, float a, float b, float A, float B, vec4 vp, vec3 d) { r_copy(p, d, 3); }
PRJ(_no, 0) PRJ(_zo, 1)
#if CGLM_CONFIG_CLIP_CONTROL & CGLM_CLIP_CONTROL_ZO_BIT
PRJ(, 1)
#define ZO 1
#else
PRJ(, 0)
#define ZO 0
#endif
I void S_unproject(vec3 p, mat4 m, vec4 vp, vec3 d) { mat4 inv; r_inv(F(m), F(inv), 4); r_unprojecti(p, inv, vp, d, ZO); }
/* the picked region fills clip space: window point c -/+ size/2 goes to -/+ w, other coordinates unchanged */
I void L_pick(vec2 c, vec2 s, vec4 vp, vec4 d) { if (s[0] <= 0.0f || s[1] <= 0.0f) return; mat4 m; glm_pickmatrix(c, s, vp, m); float v[4];
  for (int i = 0; i < 2; i++) v[i] = 2.0f * (c[i] + (i ? -0.5f : 0.5f) * s[i] - vp[i]) / vp[2 + i] - 1.0f; v[2] = d[2]; v[3] = 1.0f; r_mul(F(m), v, d, 4, 4, 1); }
I void R_pick(vec2 c, vec2 s, vec4 vp, vec4 d) { if (s[0] <= 0.0f || s[1] <= 0.0f) return; d[0] = 1.0f; d[1] = -1.0f; d[3] = 1.0f; }
I void S_pickmatrix(vec2 c, vec2 s, vec4 vp, mat4 d) { if (s[0] <= 0.0f || s[1] <= 0.0f) return; float t[16]; r_ident(t, 4);
  for (int i = 0; i < 2; i++) { t[5 * i] = vp[2 + i] / s[i]; t[12 + i] = (vp[2 + i] - 2.0f * (c[i] - vp[i])) / s[i]; } r_copy(t, F(d), 16); }
