/* what the print functions write; P_x has the parameters of glm_x */
#include <stdio.h>
#ifdef __cplusplus
#error
#endif
#define I static inline
#ifndef CGLM_PRINT_PRECISION
#define CGLM_PRINT_PRECISION 5
#endif
#ifndef CGLM_PRINT_MAX_TO_SHORT
#define CGLM_PRINT_MAX_TO_SHORT 1e5f
#endif
#ifdef GLM_TESTS_NO_COLORFUL_OUTPUT
#define P_ON ""
#define P_OFF ""
#else
#define P_ON "\033[36m"
#define P_OFF "\033[0m"
#endif
/* one number: fixed with the configured precision, or the short form from the limit upwards */
I int p_short(float x) { return !(x < CGLM_PRINT_MAX_TO_SHORT); }
I void p_num(float x, int w, FILE *f) {
  fputc(' ', f);
  if (p_short(x)) fprintf(f, "% *g", w, (double)x);
  else fprintf(f, "% *.*f", w, CGLM_PRINT_PRECISION, (double)x);
}
I void p_num0(float x, FILE *f) {
  fputc(' ', f);
  if (p_short(x)) fprintf(f, "% g", (double)x);
  else fprintf(f, "% .*f", CGLM_PRINT_PRECISION, (double)x);
}
I int p_len(float x) { return p_short(x) ? snprintf(NULL, 0, "% g", (double)x) : snprintf(NULL, 0, "% .*f", CGLM_PRINT_PRECISION, (double)x); }
/* rows one per line, every column as wide as its widest number */
I void p_mat(float *m, int n, FILE *f) {
  int w[4];
  for (int c = 0; c < n; c++) {
    w[c] = 0;
    for (int r = 0; r < n; r++) { int k = p_len(m[c * n + r]); if (k > w[c]) w[c] = k; }
  }
  fprintf(f, "Matrix (float%dx%d): " P_ON "\n", n, n);
  for (int r = 0; r < n; r++) {
    fputs("  |", f);
    for (int c = 0; c < n; c++) p_num(m[c * n + r], w[c], f);
    fputs("  |\n", f);
  }
  fputs(P_OFF "\n", f);
}
I void p_floats(const char *what, float *v, int n, FILE *f) {
  fputs(what, f); fprintf(f, " (float%d): " P_ON "\n  (", n);
  for (int i = 0; i < n; i++) p_num0(v[i], f);
  fputs("  )" P_OFF "\n\n", f);
}
I void p_ints(int *v, int n, FILE *f) {
  fprintf(f, "Vector (int%d): " P_ON "\n  (", n);
  for (int i = 0; i < n; i++) fprintf(f, " % d", v[i]);
  fputs("  )" P_OFF "\n\n", f);
}
I void P_mat4_print(float *m, FILE *f) { p_mat(m, 4, f); }
I void P_mat3_print(float *m, FILE *f) { p_mat(m, 3, f); }
I void P_mat2_print(float *m, FILE *f) { p_mat(m, 2, f); }
I void P_vec4_print(float *v, FILE *f) { p_floats("Vector", v, 4, f); }
I void P_vec3_print(float *v, FILE *f) { p_floats("Vector", v, 3, f); }
I void P_vec2_print(float *v, FILE *f) { p_floats("Vector", v, 2, f); }
I void P_versor_print(float *v, FILE *f) { p_floats("Quaternion", v, 4, f); }
I void P_ivec4_print(int *v, FILE *f) { p_ints(v, 4, f); }
I void P_ivec3_print(int *v, FILE *f) { p_ints(v, 3, f); }
I void P_ivec2_print(int *v, FILE *f) { p_ints(v, 2, f); }
I void P_aabb_print(float *b, const char *tag, FILE *f) {
  fputs("AABB (", f);
  if (tag) fprintf(f, "%s", tag); else fputs("float", f);
  fputs("): " P_ON "\n", f);
  for (int i = 0; i < 2; i++) {
    fputs("  (", f);
    for (int j = 0; j < 3; j++) p_num0(b[3 * i + j], f);
    fputs("  )\n", f);
  }
  fputs(P_OFF "\n", f);
}
/* the SIMD path of the build */
I void P_arch_print(FILE *f) {
  fputs(P_ON "arch: ", f);
#if defined(CGLM_SIMD_WASM)
  fputs("wasm SIMD128", f);
#elif defined(CGLM_SIMD_x86)
  fputs("x86 SSE* ", f);
# ifdef __AVX__
  fputs(" AVX", f);
# endif
#elif defined(CGLM_SIMD_ARM)
  fputs("arm", f);
# ifdef __ARM_NEON_FP
  fputs(" NEON_FP", f);
# endif
# if defined(__aarch64__)
  fputs(" ARM64", f);
# endif
#else
  fputs("uncommon", f);
#endif
  fputs(P_OFF, f);
}
I void P_arch_print_name(FILE *f) { fputs(P_ON "\ncglm ", f); P_arch_print(f); fputs("\n\n" P_OFF, f); }
