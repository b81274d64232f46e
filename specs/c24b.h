/* alias macros of the pre-compiled API */
#include "mat.h"
#define AT ((float *)a)[i]
#define U1T(al, T, n, E) I void L_ca_##al(T a, T d) { glmc_##al(a, d); } I void R_ca_##al(T a, T d) { for (int i = 0; i < n; i++) ((float *)d)[i] = E; }
#define IP(al, T, n, E) I void L_ca_##al(T a) { glmc_##al(a); } I void R_ca_##al(T a) { for (int i = 0; i < n; i++) a[i] = E; }
U1T(mat4_udup, mat4, 16, AT) U1T(mat4_dup, mat4, 16, AT) U1T(mat3_dup, mat3, 9, AT) U1T(vec_dup, vec3, 3, AT) U1T(vec4_dup, vec4, 4, AT)
U1T(vec3_flipsign_to, vec3, 3, -AT) U1T(vec3_inv_to, vec3, 3, -AT) U1T(vec4_flipsign_to, vec4, 4, -AT) U1T(vec4_inv_to, vec4, 4, -AT)
IP(vec3_flipsign, vec3, 3, -a[i]) IP(vec3_inv, vec3, 3, -a[i]) IP(vec4_flipsign, vec4, 4, -a[i]) IP(vec4_inv, vec4, 4, -a[i])
I void L_ca_vec4_dup3(vec4 a, vec3 d) { glmc_vec4_dup3(a, d); } I void R_ca_vec4_dup3(vec4 a, vec3 d) { r_copy(a, d, 3); }
#define STEPU(n) I void L_ca_vec##n##_step_uni(float e, vec##n x, vec##n d) { glmc_vec##n##_step_uni(e, x, d); } I void R_ca_vec##n##_step_uni(float e, vec##n x, vec##n d) { for (int i = 0; i < n; i++) d[i] = x[i] < e ? 0.0f : 1.0f; }
STEPU(3) STEPU(4)
I void L_ca_aabb2d_size(vec2 b[2], float *d) { *d = glmc_aabb2d_size(b); } I void R_ca_aabb2d_size(vec2 b[2], float *d) { float x = b[1][0] - b[0][0], y = b[1][1] - b[0][1]; *d = sqrtf(x * x + y * y); }
