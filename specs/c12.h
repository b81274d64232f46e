/* integer vectors */
#include "mat.h"
#define EACH for (int i = 0; i < n; i++)
I int r_imax(int a, int b) { return a > b ? a : b; }
I int r_imin(int a, int b) { return a < b ? a : b; }
I void r_icopy(const int *a, int *d, int n) { EACH d[i] = a[i]; }
#define BIN(N, name, E) I void S_ivec##N##_##name(ivec##N a, ivec##N b, ivec##N d) { const int n = N; int t[N]; EACH { int x = a[i], y = b[i], w = d[i]; t[i] = (E); } r_icopy(t, d, N); }
#define SC(N, name, E) I void S_ivec##N##_##name(ivec##N a, int s, ivec##N d) { const int n = N; int t[N]; EACH { int x = a[i], w = d[i]; t[i] = (E); } r_icopy(t, d, N); }
#define IVEC(N) \
I void S_ivec##N##_copy(ivec##N a, ivec##N d) { r_icopy(a, d, N); } \
I void S_ivec##N##_zero(ivec##N d) { const int n = N; EACH d[i] = 0; } \
I void S_ivec##N##_one(ivec##N d) { const int n = N; EACH d[i] = 1; } \
I void S_ivec##N##_abs(ivec##N a, ivec##N d) { const int n = N; EACH d[i] = a[i] < 0 ? -a[i] : a[i]; } \
I int S_ivec##N##_distance2(ivec##N a, ivec##N b) { const int n = N; int s = 0; EACH s += (a[i] - b[i]) * (a[i] - b[i]); return s; } \
I float S_ivec##N##_distance(ivec##N a, ivec##N b) { return sqrtf((float)S_ivec##N##_distance2(a, b)); } \
I void S_ivec##N##_clamp(ivec##N a, int lo, int hi) { const int n = N; EACH a[i] = a[i] < lo ? lo : a[i] > hi ? hi : a[i]; } \
BIN(N, add, x + y) BIN(N, sub, x - y) BIN(N, mul, x * y) BIN(N, maxv, r_imax(x, y)) BIN(N, minv, r_imin(x, y)) \
SC(N, adds, x + s) SC(N, subs, x - s) SC(N, scale, x * s) \
BIN(N, addadd, w + (x + y)) BIN(N, subadd, w + (x - y)) BIN(N, muladd, w + x * y) BIN(N, maxadd, w + r_imax(x, y)) BIN(N, minadd, w + r_imin(x, y)) \
BIN(N, addsub, w - (x + y)) BIN(N, subsub, w - (x - y)) BIN(N, mulsub, w - x * y) BIN(N, maxsub, w - r_imax(x, y)) BIN(N, minsub, w - r_imin(x, y)) \
SC(N, addadds, w + (x + s)) SC(N, subadds, w + (x - s)) SC(N, muladds, w + x * s) SC(N, addsubs, w - (x + s)) SC(N, subsubs, w - (x - s)) SC(N, mulsubs, w - x * s)
IVEC(2) IVEC(3) IVEC(4)
#define IVEC23(N) \
I int S_ivec##N##_dot(ivec##N a, ivec##N b) { const int n = N; int s = 0; EACH s += a[i] * b[i]; return s; } \
I void S_ivec##N##_fill(ivec##N d, int s) { const int n = N; EACH d[i] = s; } \
I bool S_ivec##N##_eq(ivec##N a, int s) { const int n = N; bool r = true; EACH r = r && a[i] == s; return r; } \
I bool S_ivec##N##_eqv(ivec##N a, ivec##N b) { const int n = N; bool r = true; EACH r = r && a[i] == b[i]; return r; } \
BIN(N, div, x / y) BIN(N, mod, x % y) SC(N, divs, x / s)
IVEC23(2) IVEC23(3)
I int S_ivec2_cross(ivec2 a, ivec2 b) { return a[0] * b[1] - a[1] * b[0]; }
I int S_ivec3_norm2(ivec3 a) { return a[0] * a[0] + a[1] * a[1] + a[2] * a[2]; }
I int S_ivec3_norm(ivec3 a) { return (int)sqrtf((float)S_ivec3_norm2(a)); }
I void S_ivec2(int *v, ivec2 d) { r_icopy(v, d, 2); }
I void S_ivec3(ivec4 v, ivec3 d) { r_icopy(v, d, 3); }
I void S_ivec4(ivec3 v, int last, ivec4 d) { r_icopy(v, d, 3); d[3] = last; }
