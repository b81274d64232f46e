/* reference definitions: matrices are column-major, m[col][row]; an R x C matrix has C columns */
#define I static inline __attribute__((always_inline))
/* dest(rows x cols) = a(rows x n) * b(n x cols) */
I void r_mul(const float *a, const float *b, float *d, int rows, int n, int cols) {
  float t[16];
  for (int c = 0; c < cols; c++) for (int r = 0; r < rows; r++) {
    float s = 0.0f;
    for (int k = 0; k < n; k++) s += a[k * rows + r] * b[c * n + k];
    t[c * rows + r] = s;
  }
  for (int i = 0; i < rows * cols; i++) d[i] = t[i];
}
I void r_transpose(const float *a, float *d, int cols, int rows) {
  float t[16];
  for (int c = 0; c < cols; c++) for (int r = 0; r < rows; r++) t[r * cols + c] = a[c * rows + r];
  for (int i = 0; i < rows * cols; i++) d[i] = t[i];
}
I void r_ident(float *d, int n) { for (int i = 0; i < n * n; i++) d[i] = i % (n + 1) ? 0.0f : 1.0f; }
I float r_minor3(const float *a, int n, int c0, int r0) {   /* 3x3 or smaller determinant without column c0 / row r0 */
  float t[9]; int k = 0, m = n - 1;
  for (int c = 0; c < n; c++) for (int r = 0; r < n; r++) if (c != c0 && r != r0) t[k++] = a[c * n + r];
  if (m == 1) return t[0];
  if (m == 2) return t[0] * t[3] - t[1] * t[2];
  return t[0] * (t[4] * t[8] - t[5] * t[7]) - t[1] * (t[3] * t[8] - t[5] * t[6]) + t[2] * (t[3] * t[7] - t[4] * t[6]);
}
I float r_det(const float *a, int n) {
  float s = 0.0f;
  for (int c = 0; c < n; c++) s += (c & 1 ? -1.0f : 1.0f) * a[c * n] * r_minor3(a, n, c, 0);
  return s;
}
I void r_inv(const float *a, float *d, int n) {    /* adjugate over determinant */
  float t[16], det = r_det(a, n);
  for (int c = 0; c < n; c++) for (int r = 0; r < n; r++)
    t[r * n + c] = ((c + r) & 1 ? -1.0f : 1.0f) * r_minor3(a, n, c, r) / det;
  for (int i = 0; i < n * n; i++) d[i] = t[i];
}
I void r_copy(const float *a, float *d, int n) { for (int i = 0; i < n; i++) d[i] = a[i]; }
I void r_zero(float *d, int n) { for (int i = 0; i < n; i++) d[i] = 0.0f; }
I void r_scale(float *d, float s, int n) { for (int i = 0; i < n; i++) d[i] *= s; }
I float r_dot(const float *a, const float *b, int n) { float s = 0.0f; for (int i = 0; i < n; i++) s += a[i] * b[i]; return s; }
#define F(x) ((float *)(x))
