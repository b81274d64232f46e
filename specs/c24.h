/* constants, initialisers and alias macros */
#include "mat.h"
#define VAL(name, T, n, init, ...) \
I void L_##name(T d) { T t = init; r_copy((const float *)t, (float *)d, n); } \
I void R_##name(T d) { float t[] = {__VA_ARGS__}; r_copy(t, (float *)d, n); }
#define REF(name, T, n, e, ...) \
I void L_##name(T d) { r_copy((const float *)(e), (float *)d, n); } \
I void R_##name(T d) { float t[] = {__VA_ARGS__}; r_copy(t, (float *)d, n); }
#define BOTH(N, T, n, ...) VAL(N##_init, T, n, GLM_##N##_INIT, __VA_ARGS__) REF(N##_c, T, n, GLM_##N, __VA_ARGS__) \
I void L_##N##_sinit(T d) { T##s t = GLMS_##N##_INIT; r_copy((const float *)t.raw, (float *)d, n); } \
I void R_##N##_sinit(T d) { float t[] = {__VA_ARGS__}; r_copy(t, (float *)d, n); } \
I void L_##N##_sc(T d) { T##s t = GLMS_##N; r_copy((const float *)t.raw, (float *)d, n); } \
I void R_##N##_sc(T d) { float t[] = {__VA_ARGS__}; r_copy(t, (float *)d, n); }
BOTH(VEC2_ONE, vec2, 2, 1, 1) BOTH(VEC2_ZERO, vec2, 2, 0, 0)
BOTH(VEC3_ONE, vec3, 3, 1, 1, 1) BOTH(VEC3_ZERO, vec3, 3, 0, 0, 0)
BOTH(VEC4_ONE, vec4, 4, 1, 1, 1, 1) BOTH(VEC4_ZERO, vec4, 4, 0, 0, 0, 0) BOTH(VEC4_BLACK, vec4, 4, 0, 0, 0, 1)
BOTH(QUAT_IDENTITY, versor, 4, 0, 0, 0, 1)
BOTH(MAT2_IDENTITY, mat2, 4, 1, 0, 0, 1) BOTH(MAT2_ZERO, mat2, 4, 0, 0, 0, 0)
BOTH(MAT3_IDENTITY, mat3, 9, 1, 0, 0, 0, 1, 0, 0, 0, 1) BOTH(MAT3_ZERO, mat3, 9, 0, 0, 0, 0, 0, 0, 0, 0, 0)
BOTH(MAT4_IDENTITY, mat4, 16, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1) BOTH(MAT4_ZERO, mat4, 16, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
/* the non-square zeros are initialisers only */
#define ZRECT(C, R) \
VAL(z##C##R, mat##C##x##R, C * R, GLM_MAT##C##X##R##_ZERO_INIT, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0) \
VAL(zc##C##R, mat##C##x##R, C * R, GLM_MAT##C##X##R##_ZERO, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0) \
I void L_zs##C##R(mat##C##x##R d) { mat##C##x##R##s t = GLMS_MAT##C##X##R##_ZERO; r_copy((const float *)t.raw, (float *)d, C * R); } \
I void R_zs##C##R(mat##C##x##R d) { for (int i = 0; i < C * R; i++) ((float *)d)[i] = 0.0f; }
ZRECT(2, 3) ZRECT(2, 4) ZRECT(3, 2) ZRECT(3, 4) ZRECT(4, 2) ZRECT(4, 3)
#define ICONST(N, n, v) \
I void L_ic##N##v(ivec##n d) { ivec##n t = GLM_##N##_INIT; for (int i = 0; i < n; i++) d[i] = t[i]; } \
I void R_ic##N##v(ivec##n d) { for (int i = 0; i < n; i++) d[i] = v; } \
I void L_id##N##v(ivec##n d) { for (int i = 0; i < n; i++) d[i] = (GLM_##N)[i]; } \
I void R_id##N##v(ivec##n d) { for (int i = 0; i < n; i++) d[i] = v; } \
I void L_is##N##v(ivec##n d) { ivec##n##s t = GLMS_##N; for (int i = 0; i < n; i++) d[i] = t.raw[i]; } \
I void R_is##N##v(ivec##n d) { for (int i = 0; i < n; i++) d[i] = v; } \
I void L_it##N##v(ivec##n d) { ivec##n##s t = GLMS_##N##_INIT; for (int i = 0; i < n; i++) d[i] = t.raw[i]; } \
I void R_it##N##v(ivec##n d) { for (int i = 0; i < n; i++) d[i] = v; }
ICONST(IVEC2_ONE, 2, 1) ICONST(IVEC2_ZERO, 2, 0) ICONST(IVEC3_ONE, 3, 1) ICONST(IVEC3_ZERO, 3, 0) ICONST(IVEC4_ONE, 4, 1) ICONST(IVEC4_ZERO, 4, 0)
REF(xup, vec3, 3, GLM_XUP, 1, 0, 0) REF(yup, vec3, 3, GLM_YUP, 0, 1, 0) REF(zup, vec3, 3, GLM_ZUP, 0, 0, 1) REF(forward, vec3, 3, GLM_FORWARD, 0, 0, -1)
#define SREF(name, e, ...) I void L_##name(vec3 d) { vec3s t = e; r_copy(t.raw, d, 3); } I void R_##name(vec3 d) { float t[] = {__VA_ARGS__}; r_copy(t, d, 3); }
SREF(sxup, GLMS_XUP, 1, 0, 0) SREF(syup, GLMS_YUP, 0, 1, 0) SREF(szup, GLMS_ZUP, 0, 0, 1)
/* clip-space corners: near plane at the low end of the depth range */
#if CGLM_CONFIG_CLIP_CONTROL & CGLM_CLIP_CONTROL_ZO_BIT
#define LO 0.0f
#else
#define LO -1.0f
#endif
#define CS(N, x, y, z) VAL(cs##N, vec4, 4, GLM_CSCOORD_##N, x, y, z, 1) VAL(scs##N, vec4, 4, GLMS_CSCOORD_##N, x, y, z, 1)
CS(LBN, -1, -1, LO) CS(LTN, -1, 1, LO) CS(RTN, 1, 1, LO) CS(RBN, 1, -1, LO)
CS(LBF, -1, -1, 1) CS(LTF, -1, 1, 1) CS(RTF, 1, 1, 1) CS(RBF, 1, -1, 1)
/* aliases do what their name says; deprecated names keep their meaning */
#define AT ((float *)a)[i]
#define U1T(al, T, n, E) I void L_al_##al(T a, T d) { glm_##al(a, d); } I void R_al_##al(T a, T d) { for (int i = 0; i < n; i++) ((float *)d)[i] = E; }
#define IP(al, T, n, E) I void L_al_##al(T a) { glm_##al(a); } I void R_al_##al(T a) { for (int i = 0; i < n; i++) a[i] = E; }
U1T(mat4_udup, mat4, 16, AT) U1T(mat4_dup, mat4, 16, AT) U1T(mat3_dup, mat3, 9, AT) U1T(vec3_dup, vec3, 3, AT) U1T(vec4_dup, vec4, 4, AT)
U1T(vec3_flipsign_to, vec3, 3, -AT) U1T(vec3_inv_to, vec3, 3, -AT) U1T(vec4_flipsign_to, vec4, 4, -AT) U1T(vec4_inv_to, vec4, 4, -AT)
IP(vec3_flipsign, vec3, 3, -a[i]) IP(vec3_inv, vec3, 3, -a[i]) IP(vec4_flipsign, vec4, 4, -a[i]) IP(vec4_inv, vec4, 4, -a[i])
I void L_al_vec4_dup3(vec4 a, vec3 d) { glm_vec4_dup3(a, d); } I void R_al_vec4_dup3(vec4 a, vec3 d) { r_copy(a, d, 3); }
#define MULV(n) I void L_al_vec##n##_mulv(vec##n a, vec##n b, vec##n d) { glm_vec##n##_mulv(a, b, d); } I void R_al_vec##n##_mulv(vec##n a, vec##n b, vec##n d) { for (int i = 0; i < n; i++) d[i] = a[i] * b[i]; }
MULV(3) MULV(4)
#define STEPU(n) I void L_al_vec##n##_step_uni(float e, vec##n x, vec##n d) { glm_vec##n##_step_uni(e, x, d); } I void R_al_vec##n##_step_uni(float e, vec##n x, vec##n d) { for (int i = 0; i < n; i++) d[i] = x[i] < e ? 0.0f : 1.0f; } \
I void L_als_vec##n##_step_uni(float e, vec##n##s x, vec##n d) { vec##n##s t = glms_vec##n##_step_uni(e, x); r_copy(t.raw, d, n); } I void R_als_vec##n##_step_uni(float e, vec##n##s x, vec##n d) { for (int i = 0; i < n; i++) d[i] = x.raw[i] < e ? 0.0f : 1.0f; }
STEPU(3) STEPU(4)
I void L_al_mat4_inv_precise(mat4 m, mat4 d) { glm_mat4_inv_precise(m, d); } I void R_al_mat4_inv_precise(mat4 m, mat4 d) { r_inv(F(m), F(d), 4); }
I void L_al_aabb2d_size(vec2 b[2], float *d) { *d = glm_aabb2d_size(b); } I void R_al_aabb2d_size(vec2 b[2], float *d) { float x = b[1][0] - b[0][0], y = b[1][1] - b[0][1]; *d = sqrtf(x * x + y * y); }
I float L_minmax(float a, float b) { return GLM_MIN(a, b) + 2.0f * GLM_MAX(a, b); } I float R_minmax(float a, float b) { return a < b ? a + 2.0f * b : b + 2.0f * a; }
