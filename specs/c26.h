/* the helper layer under the SIMD kernels: lanes of every glmm_ function, whatever the instruction set */
#include "mat.h"
typedef float f4 __attribute__((aligned(16)));
#define A16 CGLM_ALIGN(16)
#define LD(p) glmm_load((float *)(p))
#define VEC1(n, e) /* one register to one register, all lanes */ \
I void L_##n(vec4 a, vec4 d) { glmm_store(d, glmm_##n(LD(a))); } I void R_##n(vec4 a, vec4 d) { float t[4]; for (int i = 0; i < 4; i++) t[i] = e; r_copy(t, d, 4); }
#define VEC2(n, e) \
I void L_##n(vec4 a, vec4 b, vec4 d) { glmm_store(d, glmm_##n(LD(a), LD(b))); } I void R_##n(vec4 a, vec4 b, vec4 d) { float t[4]; for (int i = 0; i < 4; i++) t[i] = e; r_copy(t, d, 4); }
#define VEC3(n, e) \
I void L_##n(vec4 a, vec4 b, vec4 c, vec4 d) { glmm_store(d, glmm_##n(LD(a), LD(b), LD(c))); } I void R_##n(vec4 a, vec4 b, vec4 c, vec4 d) { float t[4]; for (int i = 0; i < 4; i++) t[i] = e; r_copy(t, d, 4); }
#define SC1(n, e) I float L_##n(vec4 a) { return glmm_##n(LD(a)); } I float R_##n(vec4 a) { return e; }
#define SC2(n, e) I float L_##n(vec4 a, vec4 b) { return glmm_##n(LD(a), LD(b)); } I float R_##n(vec4 a, vec4 b) { return e; }
#define LOW1(n, e) /* only the first lane has a meaning */ \
I float L_##n(vec4 a) { A16 float t[4]; glmm_store(t, glmm_##n(LD(a))); return t[0]; } I float R_##n(vec4 a) { return e; }
#define LOW2(n, e) \
I float L_##n(vec4 a, vec4 b) { A16 float t[4]; glmm_store(t, glmm_##n(LD(a), LD(b))); return t[0]; } I float R_##n(vec4 a, vec4 b) { return e; }
#define SUM (a[0] + a[1] + a[2] + a[3])
#define DOT (a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3])
#define SQ (a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3])
I float q_min(float x, float y) { return x < y ? x : y; }
I float q_max(float x, float y) { return x > y ? x : y; }
#define MIN4 q_min(q_min(a[0], a[1]), q_min(a[2], a[3]))
#define MAX4 q_max(q_max(a[0], a[1]), q_max(a[2], a[3]))
#ifdef CGLM_SIMD
I void L_loadstore(vec4 a, vec4 d) { glmm_store(d, glmm_load(a)); } I void R_loadstore(vec4 a, vec4 d) { r_copy(a, d, 4); }
I void L_set1(float s, vec4 d) { glmm_store(d, glmm_set1(s)); } I void R_set1(float s, vec4 d) { for (int i = 0; i < 4; i++) d[i] = s; }
I void L_set1_ptr(vec2 s, vec4 d) { glmm_store(d, glmm_set1_ptr(s)); } I void R_set1_ptr(vec2 s, vec4 d) { float t = s[0]; for (int i = 0; i < 4; i++) d[i] = t; }
I void L_set1_rval(float s, vec4 d) { glmm_store(d, glmm_set1_rval(s * 2.0f)); } I void R_set1_rval(float s, vec4 d) { for (int i = 0; i < 4; i++) d[i] = s * 2.0f; }
#define SPLAT(c, k) I void L_splat_##c(vec4 a, vec4 d) { glmm_store(d, glmm_splat_##c(LD(a))); } I void R_splat_##c(vec4 a, vec4 d) { float t = a[k]; for (int i = 0; i < 4; i++) d[i] = t; }
SPLAT(x, 0) SPLAT(y, 1) SPLAT(z, 2) SPLAT(w, 3)
VEC1(abs, fabsf(a[i])) VEC2(min, q_min(a[i], b[i])) VEC2(max, q_max(a[i], b[i])) VEC2(div, a[i] / b[i])
VEC1(vhadd, SUM) VEC2(vdot, DOT)
SC1(hadd, SUM) SC1(hmin, MIN4) SC1(hmax, MAX4) SC2(dot, DOT) SC1(norm, sqrtf(SQ)) SC1(norm2, SQ)
SC1(norm_one, fabsf(a[0]) + fabsf(a[1]) + fabsf(a[2]) + fabsf(a[3]))
SC1(norm_inf, q_max(q_max(fabsf(a[0]), fabsf(a[1])), q_max(fabsf(a[2]), fabsf(a[3]))))
VEC3(fmadd, a[i] * b[i] + c[i]) VEC3(fnmadd, c[i] - a[i] * b[i]) VEC3(fmsub, a[i] * b[i] - c[i]) VEC3(fnmsub, -(a[i] * b[i]) - c[i])
#if defined(CGLM_SIMD_x86) || defined(CGLM_SIMD_WASM)
LOW1(vhadds, SUM) LOW1(vhmin, MIN4) LOW1(vhmax, MAX4) LOW2(vdots, DOT)
/* shuff1 takes its lane numbers from the highest to the lowest */
#define SH(z, y, x, w) I void L_shuff##z##y##x##w(vec4 a, vec4 d) { glmm_store(d, glmm_shuff1(LD(a), z, y, x, w)); } \
I void R_shuff##z##y##x##w(vec4 a, vec4 d) { float t[4] = {a[w], a[x], a[y], a[z]}; r_copy(t, d, 4); }
SH(3, 2, 1, 0) SH(0, 1, 2, 3) SH(1, 0, 3, 2) SH(2, 3, 0, 1) SH(0, 0, 2, 1) SH(3, 3, 3, 3) SH(1, 3, 0, 2)
#if defined(CGLM_SIMD_WASM) || defined(__SSE2__)
I void L_load3(vec3 a, vec4 d) { glmm_store(d, glmm_load3(a)); } I void R_load3(vec3 a, vec4 d) { r_copy(a, d, 3); d[3] = 0.0f; }
I void L_store3(vec4 a, vec3 d) { glmm_store3(d, LD(a)); } I void R_store3(vec4 a, vec3 d) { r_copy(a, d, 3); }
#endif
/* sign masks: x86 names them from the highest lane, WASM from the lowest */
#ifdef CGLM_SIMD_x86
#define XOR(v, m) _mm_xor_ps(v, m)
#define SG(x, y, z, w) {w a[0], z a[1], y a[2], x a[3]}
#else
#define XOR(v, m) wasm_v128_xor(v, m)
#define SG(x, y, z, w) {x a[0], y a[1], z a[2], w a[3]}
#endif
#define MASK(n, x, y, z, w) I void L_mask##n(vec4 a, vec4 d) { glmm_store(d, XOR(LD(a), glmm_float32x4_SIGNMASK_##n)); } I void R_mask##n(vec4 a, vec4 d) { float t[4] = SG(x, y, z, w); r_copy(t, d, 4); }
#define P +
#define N -
MASK(PNPN, P, N, P, N) MASK(NPNP, N, P, N, P) MASK(NPPN, N, P, P, N) MASK(NEG, N, N, N, N)
#undef P
#undef N
#endif
#ifdef CGLM_SIMD_ARM
#define P +
#define N -
#define MASK(n, x, y, z, w) I void L_mask##n(vec4 a, vec4 d) { float32x4_t m = glmm_float32x4_SIGNMASK_##n; glmm_store(d, glmm_xor(LD(a), m)); } I void R_mask##n(vec4 a, vec4 d) { float t[4] = {x a[0], y a[1], z a[2], w a[3]}; r_copy(t, d, 4); }
MASK(PNPN, P, N, P, N) MASK(NPNP, N, P, N, P) MASK(NPPN, N, P, P, N)
#undef P
#undef N
#define CMB(n, i, j) I void L_comb##n(vec4 a, vec4 b, vec4 d) { glmm_store(d, glmm_combine_##n(LD(a), LD(b))); } I void R_comb##n(vec4 a, vec4 b, vec4 d) { float t[4] = {a[i], a[i + 1], b[j], b[j + 1]}; r_copy(t, d, 4); }
CMB(ll, 0, 0) CMB(hl, 2, 0) CMB(lh, 0, 2) CMB(hh, 2, 2)
I void L_swplane(vec4 a, vec4 d) { glmm_store(d, glmm_swplane(LD(a))); } I void R_swplane(vec4 a, vec4 d) { float t[4] = {a[2], a[3], a[0], a[1]}; r_copy(t, d, 4); }
#endif
#ifdef __AVX__
#define LD8(p) glmm_load256((float *)(p))
#define W3(n, e) I void L_256##n(mat4 a, mat4 b, mat4 c, mat4 d) { glmm_store256((float *)d, glmm256_##n(LD8(a), LD8(b), LD8(c))); } \
I void R_256##n(mat4 a_, mat4 b_, mat4 c_, mat4 d) { float *a = (float *)a_, *b = (float *)b_, *c = (float *)c_, t[8]; for (int i = 0; i < 8; i++) t[i] = e; r_copy(t, (float *)d, 8); }
W3(fmadd, a[i] * b[i] + c[i]) W3(fnmadd, c[i] - a[i] * b[i]) W3(fmsub, a[i] * b[i] - c[i]) W3(fnmsub, -(a[i] * b[i]) - c[i])
I void L_256ls(mat4 a, mat4 d) { glmm_store256((float *)d, LD8(a)); } I void R_256ls(mat4 a, mat4 d) { r_copy((float *)a, (float *)d, 8); }
#endif
#else
I void L_none(vec4 a, vec4 d) { glm_vec4_copy(a, d); } I void R_none(vec4 a, vec4 d) { r_copy(a, d, 4); }
#endif
