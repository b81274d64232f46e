/* scalar utilities, easing functions, cubic curves, luminance */
#include "mat.h"
/* utilities */
I int S_sign(int x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
I float S_signf(float x) { return x > 0.0f ? 1.0f : x < 0.0f ? -1.0f : 0.0f; }
I float S_rad(float d) { return d / 180.0f * GLM_PIf; }
I float S_deg(float r) { return r / GLM_PIf * 180.0f; }
I void S_make_rad(float *d) { *d = *d / 180.0f * GLM_PIf; }
I void S_make_deg(float *r) { *r = *r / GLM_PIf * 180.0f; }
I float S_pow2(float x) { return x * x; }
I float S_min(float a, float b) { return a < b ? a : b; }
I float S_max(float a, float b) { return a > b ? a : b; }
I int S_imin(int a, int b) { return a < b ? a : b; }
I int S_imax(int a, int b) { return a > b ? a : b; }
I float r_clamp(float x, float a, float b) { float m = x > a ? x : a; return m < b ? m : b; }
I float r_zo(float x) { return x < 0.0f ? 0.0f : x > 1.0f ? 1.0f : x; }
I float S_clamp(float x, float a, float b) { return r_clamp(x, a, b); }
I float S_clamp_zo(float x) { return r_zo(x); }
I float S_lerp(float a, float b, float t) { return (1.0f - t) * a + t * b; }
I float S_lerpc(float a, float b, float t) { t = r_zo(t); return (1.0f - t) * a + t * b; }
I float S_step(float e, float x) { return x < e ? 0.0f : 1.0f; }
I float r_smooth(float t) { return 3.0f * t * t - 2.0f * t * t * t; }
I float S_smooth(float t) { return r_smooth(t); }
I float S_smoothstep(float a, float b, float x) { return r_smooth(r_zo((x - a) / (b - a))); }
I float S_smoothinterp(float a, float b, float t) { return a + (b - a) * r_smooth(t); }
I float S_smoothinterpc(float a, float b, float t) { return a + (b - a) * r_smooth(r_zo(t)); }
I bool S_eq(float a, float b) { return a - b <= 1e-5f && b - a <= 1e-5f; }
I float S_percent(float a, float b, float x) { return b == a ? 1.0f : (x - a) / (b - a); }
I float S_percentc(float a, float b, float x) { return b == a ? 1.0f : r_zo((x - a) / (b - a)); }
I void S_swapf(float *a, float *b) { float t = *a; *a = *b; *b = t; }
I float S_luminance(vec3 c) { return 0.212671f * c[0] + 0.715160f * c[1] + 0.072169f * c[2]; }
/* easing: in is the base curve e, out(t) = 1 - e(1 - t), inout(t) = e(2t) / 2 below one half and 1 - e(2 - 2t) / 2 above */
I float e_sine(float t) { return 1.0f - cosf(t * GLM_PI_2f); }
I float e_quad(float t) { return t * t; }
I float e_cubic(float t) { return t * t * t; }
I float e_quart(float t) { return t * t * t * t; }
I float e_quint(float t) { return t * t * t * t * t; }
I float e_circ(float t) { return 1.0f - sqrtf(1.0f - t * t); }
I float e_back(float t) { return t * t * ((1.70158f + 1.0f) * t - 1.70158f); }
I float e_elast(float t) { return sinf(13.0f * GLM_PI_2f * t) * powf(2.0f, 10.0f * (t - 1.0f)); }
I float e_exp(float t) { return t == 0.0f ? 0.0f : powf(2.0f, 10.0f * (t - 1.0f)); }
/* four parabolas of curvature 121/16, 363/40, 4356/361, 54/5 which meet 1 at 4/11, 8/11, 9/10 and 1 */
I float b_out(float t) {
  if (t < 4.0f / 11.0f) return (121.0f / 16.0f) * t * t;
  if (t < 8.0f / 11.0f) return (363.0f / 40.0f) * t * t - (99.0f / 10.0f) * t + 17.0f / 5.0f;
  if (t < 9.0f / 10.0f) return (4356.0f / 361.0f) * t * t - (35442.0f / 1805.0f) * t + 16061.0f / 1805.0f;
  return (54.0f / 5.0f) * t * t - (513.0f / 25.0f) * t + 268.0f / 25.0f; }
I float e_bounce(float t) { return 1.0f - b_out(1.0f - t); }
I float S_ease_linear(float t) { return t; }
#define EASE3(x) \
I float S_ease_##x##_in(float t) { return e_##x(t); } \
I float S_ease_##x##_out(float t) { return 1.0f - e_##x(1.0f - t); }
#define EASE(x) EASE3(x) \
I float S_ease_##x##_inout(float t) { return t < 0.5f ? 0.5f * e_##x(2.0f * t) : 1.0f - 0.5f * e_##x(2.0f - 2.0f * t); }
EASE(quad) EASE(cubic) EASE(quart) EASE(quint) EASE(circ) EASE(elast) EASE(exp) EASE(bounce) EASE(sine) EASE3(back)
/* back, both ways: overshoot 1.70158 * 1.525 */
I float e_back2(float t) { float s = 1.70158f * 1.525f; return t * t * ((s + 1.0f) * t - s); }
I float S_ease_back_inout(float t) { return t < 0.5f ? 0.5f * e_back2(2.0f * t) : 1.0f - 0.5f * e_back2(2.0f - 2.0f * t); }
/* every curve starts at 0 and ends at 1 */
#define ENDS(x) \
I void L_ends_##x(float *a, float *b) { *a = glm_ease_##x(0.0f); *b = glm_ease_##x(1.0f); } \
I void R_ends_##x(float *a, float *b) { *a = 0.0f; *b = 1.0f; }
#define ENDS3(x) ENDS(x##_in) ENDS(x##_out) ENDS(x##_inout)
ENDS3(quad) ENDS3(cubic) ENDS3(quart) ENDS3(quint) ENDS3(circ) ENDS3(exp) ENDS3(sine) ENDS(linear)
/* cubic curves */
I float S_bezier(float s, float p0, float c0, float c1, float p1) { float x = 1.0f - s;
  return p0 * x * x * x + 3.0f * c0 * s * x * x + 3.0f * c1 * s * s * x + p1 * s * s * s; }
I float S_hermite(float s, float p0, float t0, float t1, float p1) { float q = s * s, c = q * s;
  return p0 * (2.0f * c - 3.0f * q + 1.0f) + t0 * (c - 2.0f * q + s) + t1 * (c - q) + p1 * (3.0f * q - 2.0f * c); }
I float S_smc(float s, mat4 m, vec4 c) { float r = 0.0f, p[4] = {s * s * s, s * s, s, 1.0f};
  for (int j = 0; j < 4; j++) for (int i = 0; i < 4; i++) r += p[i] * m[j][i] * c[j];
  return r; }
I float L_smc_bezier(float s, vec4 p) { mat4 m = GLM_BEZIER_MAT_INIT; return glm_smc(s, m, p); }
I float R_smc_bezier(float s, vec4 p) { return glm_bezier(s, p[0], p[1], p[2], p[3]); }
I float L_smc_bezier_c(float s, vec4 p) { return glm_smc(s, GLM_BEZIER_MAT, p); }
I float R_smc_bezier_c(float s, vec4 p) { return glm_bezier(s, p[0], p[1], p[2], p[3]); }
I float L_smc_hermite(float s, vec4 p) { mat4 m = GLM_HERMITE_MAT_INIT; return glm_smc(s, m, p); }
I float R_smc_hermite(float s, vec4 p) { return glm_hermite(s, p[0], p[2], p[3], p[1]); }
I float L_smc_hermite_c(float s, vec4 p) { return glm_smc(s, GLM_HERMITE_MAT, p); }
I float R_smc_hermite_c(float s, vec4 p) { return glm_hermite(s, p[0], p[2], p[3], p[1]); }
ENDS3(elast)
