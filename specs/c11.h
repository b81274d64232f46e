/* vectors: componentwise meaning of every vec2/vec3/vec4 function */
#include "mat.h"
#define EPS_ 1e-5f          /* GLM_FLT_EPSILON */
#define ZERO_ 1.1920929e-7f /* FLT_EPSILON: shorter vectors count as zero */
I float r_norm(const float *a, int n) { return sqrtf(r_dot(a, a, n)); }
I float r_maxf(float a, float b) { return a > b ? a : b; }
I float r_minf(float a, float b) { return a < b ? a : b; }
I float r_clamp(float x, float a, float b) { return r_minf(r_maxf(x, a), b); }
I float r_stepf(float e, float x) { return x < e ? 0.0f : 1.0f; }
I float r_smooth(float t) { return t * t * (3.0f - 2.0f * t); }
I float r_smoothstep(float a, float b, float x) { return r_smooth(r_clamp((x - a) / (b - a), 0.0f, 1.0f)); }
I float r_sign(float x) { return x > 0.0f ? 1.0f : x < 0.0f ? -1.0f : 0.0f; }
I void r_normalize(const float *a, float *d, int n) {
  float l = r_norm(a, n), t[4];
  for (int i = 0; i < n; i++) t[i] = l < ZERO_ ? 0.0f : a[i] / l;
  r_copy(t, d, n); }
#define EACH for (int i = 0; i < n; i++)
#define UN(N, name, E) I void S_vec##N##_##name(vec##N a, vec##N d) { const int n = N; float t[N]; EACH { float x = a[i]; t[i] = (E); } r_copy(t, d, N); }
#define BIN(N, name, E) I void S_vec##N##_##name(vec##N a, vec##N b, vec##N d) { const int n = N; float t[N]; EACH { float x = a[i], y = b[i]; t[i] = (E); } r_copy(t, d, N); }
#define ACC(N, name, E) I void S_vec##N##_##name(vec##N a, vec##N b, vec##N d) { const int n = N; float t[N]; EACH { float x = a[i], y = b[i], w = d[i]; t[i] = (E); } r_copy(t, d, N); }
#define SC(N, name, E) I void S_vec##N##_##name(vec##N a, float s, vec##N d) { const int n = N; float t[N]; EACH { float x = a[i], w = d[i]; t[i] = (E); } r_copy(t, d, N); }
#define VEC(N) \
I void S_vec##N##_copy(vec##N a, vec##N d) { r_copy(a, d, N); } \
I void S_vec##N##_make(const float *a, vec##N d) { r_copy(a, d, N); } \
I void S_vec##N##_zero(vec##N d) { r_zero(d, N); } \
I void S_vec##N##_one(vec##N d) { const int n = N; EACH d[i] = 1.0f; } \
I void S_vec##N##_fill(vec##N d, float s) { const int n = N; EACH d[i] = s; } \
I float S_vec##N##_dot(vec##N a, vec##N b) { return r_dot(a, b, N); } \
I float S_vec##N##_norm2(vec##N a) { return r_dot(a, a, N); } \
I float S_vec##N##_norm(vec##N a) { return r_norm(a, N); } \
I float S_vec##N##_distance2(vec##N a, vec##N b) { const int n = N; float s = 0.0f; EACH s += (a[i] - b[i]) * (a[i] - b[i]); return s; } \
I float S_vec##N##_distance(vec##N a, vec##N b) { return sqrtf(S_vec##N##_distance2(a, b)); } \
I float S_vec##N##_max(vec##N a) { const int n = N; float m = a[0]; EACH m = r_maxf(a[i], m); return m; } \
I float S_vec##N##_min(vec##N a) { const int n = N; float m = a[0]; EACH m = r_minf(a[i], m); return m; } \
I void S_vec##N##_negate(vec##N a) { r_scale(a, -1.0f, N); } \
I void S_vec##N##_normalize(vec##N a) { r_normalize(a, a, N); } \
I void S_vec##N##_normalize_to(vec##N a, vec##N d) { r_normalize(a, d, N); } \
I void S_vec##N##_clamp(vec##N a, float lo, float hi) { const int n = N; EACH a[i] = r_clamp(a[i], lo, hi); } \
I void S_vec##N##_scale_as(vec##N a, float s, vec##N d) { float t[N]; r_normalize(a, t, N); r_scale(t, s, N); r_copy(t, d, N); } \
UN(N, negate_to, -x) UN(N, abs, x < 0.0f ? -x : x) UN(N, sqrt, sqrtf(x)) UN(N, floor, floorf(x)) UN(N, sign, r_sign(x)) \
UN(N, fract, r_minf(x - floorf(x), 0.999999940395355224609375f)) \
BIN(N, add, x + y) BIN(N, sub, x - y) BIN(N, mul, x * y) BIN(N, div, x / y) BIN(N, maxv, r_maxf(x, y)) BIN(N, minv, r_minf(x, y)) BIN(N, step, r_stepf(x, y)) \
SC(N, adds, x + s) SC(N, subs, x - s) SC(N, scale, x * s) SC(N, divs, x / s) SC(N, mods, fmodf(x, s)) SC(N, muladds, w + x * s) SC(N, mulsubs, w - x * s) \
ACC(N, addadd, w + (x + y)) ACC(N, subadd, w + (x - y)) ACC(N, muladd, w + x * y) ACC(N, maxadd, w + r_maxf(x, y)) ACC(N, minadd, w + r_minf(x, y)) \
ACC(N, addsub, w - (x + y)) ACC(N, subsub, w - (x - y)) ACC(N, mulsub, w - x * y) ACC(N, maxsub, w - r_maxf(x, y)) ACC(N, minsub, w - r_minf(x, y)) \
I void S_vec##N##_steps(float e, vec##N x, vec##N d) { const int n = N; float t[N]; EACH t[i] = r_stepf(e, x[i]); r_copy(t, d, N); } \
I void S_vec##N##_stepr(vec##N e, float x, vec##N d) { const int n = N; float t[N]; EACH t[i] = r_stepf(e[i], x); r_copy(t, d, N); } \
I void S_vec##N##_swizzle(vec##N a, int mask, vec##N d) { const int n = N; float t[N]; EACH t[i] = a[mask >> (2 * i) & 3]; r_copy(t, d, N); } \
I bool S_vec##N##_eq(vec##N a, float s) { const int n = N; bool r = true; EACH r = r && a[i] == s; return r; } \
I bool S_vec##N##_eq_eps(vec##N a, float s) { const int n = N; bool r = true; EACH r = r && fabsf(a[i] - s) <= EPS_; return r; } \
I bool S_vec##N##_eq_all(vec##N a) { const int n = N; bool r = true; EACH r = r && a[i] == a[0]; return r; } \
I bool S_vec##N##_eqv(vec##N a, vec##N b) { const int n = N; bool r = true; EACH r = r && a[i] == b[i]; return r; } \
I bool S_vec##N##_eqv_eps(vec##N a, vec##N b) { const int n = N; bool r = true; EACH r = r && fabsf(a[i] - b[i]) <= EPS_; return r; } \
I bool S_vec##N##_isnan(vec##N a) { const int n = N; bool r = false; EACH r = r || isnan(a[i]); return r; } \
I bool S_vec##N##_isinf(vec##N a) { const int n = N; bool r = false; EACH r = r || isinf(a[i]); return r; } \
I bool S_vec##N##_isvalid(vec##N a) { const int n = N; bool r = true; EACH r = r && !isnan(a[i]) && !isinf(a[i]); return r; } \
I bool S_vec##N##_refract(vec##N v, vec##N nr, float eta, vec##N d) { const int n = N; float c = r_dot(nr, v, N), k = 1.0f - eta * eta * (1.0f - c * c), t[N]; \
  if (k < 0.0f) { r_zero(d, N); return false; } \
  EACH t[i] = eta * v[i] - (eta * c + sqrtf(k)) * nr[i]; r_copy(t, d, N); return true; }
VEC(2) VEC(3) VEC(4)
#define VEC34(N) \
I void S_vec##N##_broadcast(float s, vec##N d) { const int n = N; EACH d[i] = s; } \
I float S_vec##N##_hadd(vec##N a) { const int n = N; float s = 0.0f; EACH s += a[i]; return s; } \
I float S_vec##N##_norm_one(vec##N a) { const int n = N; float s = 0.0f; EACH s += fabsf(a[i]); return s; } \
I float S_vec##N##_norm_inf(vec##N a) { const int n = N; float s = fabsf(a[0]); EACH s = r_maxf(fabsf(a[i]), s); return s; } \
I void r_lerp##N(vec##N a, vec##N b, float s, vec##N d) { const int n = N; float t[N]; EACH t[i] = a[i] + s * (b[i] - a[i]); r_copy(t, d, N); } \
I void S_vec##N##_lerp(vec##N a, vec##N b, float s, vec##N d) { r_lerp##N(a, b, s, d); } \
I void S_vec##N##_lerpc(vec##N a, vec##N b, float s, vec##N d) { r_lerp##N(a, b, r_clamp(s, 0.0f, 1.0f), d); } \
I void S_vec##N##_mix(vec##N a, vec##N b, float s, vec##N d) { r_lerp##N(a, b, s, d); } \
I void S_vec##N##_mixc(vec##N a, vec##N b, float s, vec##N d) { r_lerp##N(a, b, r_clamp(s, 0.0f, 1.0f), d); } \
I void S_vec##N##_smoothinterp(vec##N a, vec##N b, float s, vec##N d) { r_lerp##N(a, b, r_smooth(s), d); } \
I void S_vec##N##_smoothinterpc(vec##N a, vec##N b, float s, vec##N d) { r_lerp##N(a, b, r_smooth(r_clamp(s, 0.0f, 1.0f)), d); } \
I void S_vec##N##_smoothstep(vec##N a, vec##N b, vec##N x, vec##N d) { const int n = N; float t[N]; EACH t[i] = r_smoothstep(a[i], b[i], x[i]); r_copy(t, d, N); } \
I void S_vec##N##_smoothstep_uni(float a, float b, vec##N x, vec##N d) { const int n = N; float t[N]; EACH t[i] = r_smoothstep(a, b, x[i]); r_copy(t, d, N); }
VEC34(3) VEC34(4)
#define REFL(N) I void S_vec##N##_reflect(vec##N v, vec##N nr, vec##N d) { const int n = N; float c = 2.0f * r_dot(v, nr, N), t[N]; EACH t[i] = v[i] - c * nr[i]; r_copy(t, d, N); }
REFL(2) REFL(3)
I void S_vec4_reflect(vec4 v, vec4 nr, vec4 d) { float c = 2.0f * r_dot(v, nr, 4), w = v[3]; for (int i = 0; i < 3; i++) d[i] = v[i] - c * nr[i]; d[3] = w; }
I void S_vec2(float *v, vec2 d) { r_copy(v, d, 2); }
I void S_vec3(vec4 v, vec3 d) { r_copy(v, d, 3); }
I void S_vec4(vec3 v, float last, vec4 d) { r_copy(v, d, 3); d[3] = last; }
I void S_vec4_copy3(vec4 v, vec3 d) { r_copy(v, d, 3); }
I void S_vec4_ucopy(vec4 v, vec4 d) { r_copy(v, d, 4); }
I void S_vec4_cubic(float s, vec4 d) { d[0] = s * s * s; d[1] = s * s; d[2] = s; d[3] = 1.0f; }
I float S_vec2_cross(vec2 a, vec2 b) { return a[0] * b[1] - a[1] * b[0]; }
I void S_vec2_rotate(vec2 v, float an, vec2 d) { float x = v[0], y = v[1]; d[0] = cosf(an) * x - sinf(an) * y; d[1] = sinf(an) * x + cosf(an) * y; }
I void S_vec2_lerp(vec2 a, vec2 b, float t, vec2 d) { float s = r_clamp(t, 0.0f, 1.0f); for (int i = 0; i < 2; i++) d[i] = a[i] + s * (b[i] - a[i]); }
I void S_vec2_complex_mul(vec2 a, vec2 b, vec2 d) { float x = a[0] * b[0] - a[1] * b[1], y = a[0] * b[1] + a[1] * b[0]; d[0] = x; d[1] = y; }
I void S_vec2_complex_conjugate(vec2 a, vec2 d) { float y = -a[1]; d[0] = a[0]; d[1] = y; }
I void S_vec2_complex_div(vec2 a, vec2 b, vec2 d) { float q = b[0] * b[0] + b[1] * b[1], x = (a[0] * b[0] + a[1] * b[1]) / q, y = (a[1] * b[0] - a[0] * b[1]) / q; d[0] = x; d[1] = y; }
#define CENTER(N) I void S_vec##N##_center(vec##N a, vec##N b, vec##N d) { for (int i = 0; i < N; i++) d[i] = (a[i] + b[i]) / 2.0f; }
CENTER(2) CENTER(3)
I void r_cross(const float *a, const float *b, float *d) { float t[3]; for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, k = (i + 2) % 3; t[i] = a[j] * b[k] - a[k] * b[j]; } r_copy(t, d, 3); }
I void S_vec3_cross(vec3 a, vec3 b, vec3 d) { r_cross(a, b, d); }
I void S_cross(vec3 a, vec3 b, vec3 d) { r_cross(a, b, d); }
I float S_dot(vec3 a, vec3 b) { return r_dot(a, b, 3); }
I void S_vec3_crossn(vec3 a, vec3 b, vec3 d) { float t[3]; r_cross(a, b, t); r_normalize(t, d, 3); }
I float S_vec3_angle(vec3 a, vec3 b) { float c = r_dot(a, b, 3) / (r_norm(a, 3) * r_norm(b, 3)); return c > 1.0f ? 0.0f : c < -1.0f ? 3.14159265358979323846f : acosf(c); }
I void S_vec3_proj(vec3 a, vec3 b, vec3 d) { float k = r_dot(a, b, 3) / r_dot(b, b, 3); for (int i = 0; i < 3; i++) d[i] = k * b[i]; }
I void S_vec3_faceforward(vec3 nr, vec3 v, vec3 ref, vec3 d) { float s = r_dot(v, ref, 3) < 0.0f ? 1.0f : -1.0f; for (int i = 0; i < 3; i++) d[i] = s * nr[i]; }
I void S_vec3_rotate(vec3 v, float an, vec3 axis) {   /* Rodrigues */
  float k[3], x[3], c = cosf(an), s = sinf(an); r_normalize(axis, k, 3); r_cross(k, v, x);
  float p = r_dot(k, v, 3) * (1.0f - c), t[3];
  for (int i = 0; i < 3; i++) t[i] = v[i] * c + x[i] * s + k[i] * p;
  r_copy(t, v, 3); }
I void S_vec3_rotate_m4(mat4 m, vec3 v, vec3 d) {
  float t[3] = {0.0f, 0.0f, 0.0f};
  for (int c = 0; c < 3; c++) { float x[4]; r_normalize(m[c], x, 4); for (int i = 0; i < 3; i++) t[i] += v[c] * x[i]; }
  r_copy(t, d, 3); }
I void S_vec3_rotate_m3(mat3 m, vec3 v, vec3 d) {
  float t[3] = {0.0f, 0.0f, 0.0f};
  for (int c = 0; c < 3; c++) { float x[3]; r_normalize(m[c], x, 3); for (int i = 0; i < 3; i++) t[i] += v[c] * x[i]; }
  r_copy(t, d, 3); }
/* laws */
I float L_ortho(vec3 v) { vec3 d; glm_vec3_ortho(v, d); return r_dot(v, d, 3); }
I float R_ortho(vec3 v) { return 0.0f; }
I float L_cross_perp(vec3 a, vec3 b) { vec3 d; glm_vec3_cross(a, b, d); return glm_vec3_dot(a, d); }
I float R_cross_perp(vec3 a, vec3 b) { return 0.0f; }
#define UNIT(N) \
I float L_unit##N(vec##N v) { vec##N d; if (r_norm(v, N) < ZERO_) return 1.0f; glm_vec##N##_normalize_to(v, d); return r_dot(d, d, N); } \
I float R_unit##N(vec##N v) { return 1.0f; }
UNIT(2) UNIT(3) UNIT(4)
I float L_rotate_norm(vec3 v, float an, vec3 ax) { if (r_norm(ax, 3) < ZERO_) return r_dot(v, v, 3); vec3 t; r_copy(v, t, 3); glm_vec3_rotate(t, an, ax); return r_dot(t, t, 3); }
I float R_rotate_norm(vec3 v, float an, vec3 ax) { return r_dot(v, v, 3); }
