/* classic Perlin gradient noise in n dimensions: corner c has bit k set when it is the far side along axis k */
#include "mat.h"
I float n_fract(float x) { return fminf(x - floorf(x), 0.999999940395355224609375f); }
I float n_mod289(float x) { return x - floorf(x * (1.0f / 289.0f)) * 289.0f; }
I float n_permute(float x) { return n_mod289((x * 34.0f + 1.0f) * x); }
I float n_fade(float t) { return t * t * t * (t * (t * 6.0f - 15.0f) + 10.0f); }
I float n_step(float edge, float x) { return x < edge ? 0.0f : 1.0f; }
/* gradient of hash i */
I void n_grad(float i, int n, float *g) {
  if (n == 2) {
    float x = 2.0f * n_fract(i / 41.0f) - 1.0f;
    g[1] = fabsf(x) - 0.5f; g[0] = x - floorf(x + 0.5f);
  } else {
    float x = i / 7.0f, y = floorf(x) / 7.0f, s, l;
    if (n == 3) { g[0] = n_fract(x); g[1] = n_fract(y) - 0.5f; l = g[2] = 0.5f - fabsf(g[0]) - fabsf(g[1]); }
    else {
      g[0] = n_fract(x) - 0.5f; g[1] = n_fract(y) - 0.5f; g[2] = n_fract(floorf(y) / 6.0f) - 0.5f;
      l = g[3] = 0.75f - fabsf(g[0]) - fabsf(g[1]) - fabsf(g[2]);
    }
    s = n_step(l, 0.0f);
    g[0] -= s * (n_step(0.0f, g[0]) - 0.5f); g[1] -= s * (n_step(0.0f, g[1]) - 0.5f);
  }
}
I float n_perlin(const float *p, int n, float scale) {
  float v[16], f[4], w[4];
  for (int k = 0; k < n; k++) { f[k] = n_fract(p[k]); w[k] = n_fade(f[k]); }
  for (int c = 0; c < 1 << n; c++) {
    float h = 0.0f, g[4], d[4], q = 0.0f, s = 0.0f;
    for (int k = 0; k < n; k++) {
      float e = c >> k & 1;
      h = n_permute(h + fmodf(floorf(p[k]) + e, 289.0f));
      d[k] = f[k] - e;
    }
    n_grad(h, n, g);
    for (int k = 0; k < n; k++) q += g[k] * g[k];
    for (int k = 0; k < n; k++) s += g[k] * (1.79284291400159f - 0.85373472095314f * q) * d[k];
    v[c] = s;
  }
  for (int k = n - 1; k >= 0; k--) for (int c = 0; c < 1 << k; c++) v[c] = v[c] + w[k] * (v[c + (1 << k)] - v[c]);
  return v[0] * scale;
}
I float S_perlin_vec2(vec2 p) { return n_perlin(p, 2, 2.3f); }
I float S_perlin_vec3(vec3 p) { return n_perlin(p, 3, 2.2f); }
I float S_perlin_vec4(vec4 p) { return n_perlin(p, 4, 2.2f); }
