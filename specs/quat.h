/* reference quaternion algebra, (x, y, z, w) */
#include "mat.h"
I float r_norm(const float *a, int n) { return sqrtf(r_dot(a, a, n)); }
I void r_qmul(const float *p, const float *q, float *d) {   /* Hamilton product */
  float t[4];
  t[0] = p[3] * q[0] + p[0] * q[3] + p[1] * q[2] - p[2] * q[1];
  t[1] = p[3] * q[1] + p[1] * q[3] + p[2] * q[0] - p[0] * q[2];
  t[2] = p[3] * q[2] + p[2] * q[3] + p[0] * q[1] - p[1] * q[0];
  t[3] = p[3] * q[3] - p[0] * q[0] - p[1] * q[1] - p[2] * q[2];
  r_copy(t, d, 4); }
I void r_qrot(const float *q, const float *v, float *d) {   /* q v q^-1 for any non-zero q */
  float p[4] = {v[0], v[1], v[2], 0.0f}, c[4] = {-q[0], -q[1], -q[2], q[3]}, n = r_dot(q, q, 4), t[4];
  r_qmul(q, p, t); r_qmul(t, c, t);
  for (int i = 0; i < 3; i++) d[i] = t[i] / n; }
I void r_qmat(const float *q, float *d, int n, int transp) { /* n x n rotation matrix; columns are the images of the axes */
  float t[16]; r_ident(t, n);
  for (int c = 0; c < 3; c++) { float e[3] = {0.0f, 0.0f, 0.0f}, o[3]; e[c] = 1.0f; r_qrot(q, e, o); for (int r = 0; r < 3; r++) t[transp ? r * n + c : c * n + r] = o[r]; }
  r_copy(t, d, n * n); }
