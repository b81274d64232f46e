/* rectangular matrices: matCxR has C columns of R rows */
#include "mat.h"
#define RECT(C, R) \
I void S_mat##C##x##R##_copy(mat##C##x##R a, mat##C##x##R d) { r_copy(F(a), F(d), C * R); } \
I void S_mat##C##x##R##_zero(mat##C##x##R d) { r_zero(F(d), C * R); } \
I void S_mat##C##x##R##_make(const float *a, mat##C##x##R d) { r_copy(a, F(d), C * R); } \
I void S_mat##C##x##R##_mul(mat##C##x##R a, mat##R##x##C b, mat##R d) { r_mul(F(a), F(b), F(d), R, C, R); } \
I void S_mat##C##x##R##_mulv(mat##C##x##R a, vec##C v, vec##R d) { r_mul(F(a), v, d, R, C, 1); } \
I void S_mat##C##x##R##_transpose(mat##C##x##R a, mat##R##x##C d) { r_transpose(F(a), F(d), C, R); } \
I void S_mat##C##x##R##_scale(mat##C##x##R a, float s) { r_scale(F(a), s, C * R); } \
I void L_tt##C##R(mat##C##x##R a, mat##C##x##R d) { mat##R##x##C t; glm_mat##C##x##R##_transpose(a, t); glm_mat##R##x##C##_transpose(t, d); } \
I void R_tt##C##R(mat##C##x##R a, mat##C##x##R d) { r_copy(F(a), F(d), C * R); } \
I void L_assoc##C##R(mat##C##x##R a, mat##R##x##C b, vec##R v, vec##R d) { mat##R t; glm_mat##C##x##R##_mul(a, b, t); glm_mat##R##_mulv(t, v, d); } \
I void R_assoc##C##R(mat##C##x##R a, mat##R##x##C b, vec##R v, vec##R d) { vec##C t; glm_mat##R##x##C##_mulv(b, v, t); glm_mat##C##x##R##_mulv(a, t, d); }
RECT(2, 3) RECT(2, 4) RECT(3, 2) RECT(3, 4) RECT(4, 2) RECT(4, 3)
