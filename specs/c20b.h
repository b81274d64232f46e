/* decasteljau inverts the x-curve by bisection: at every step the interval [u, v] of the parameter halves towards the side of the wanted value */
#include "mat.h"
I float r_bez(float s, float p0, float c0, float c1, float p1) { float x = 1.0f - s;
  return p0 * x * x * x + 3.0f * c0 * s * x * x + 3.0f * c1 * s * s * x + p1 * s * s * s; }
I float S_decasteljau(float x, float p0, float c0, float c1, float p1) {
  if (x - p0 < CGLM_DECASTEL_SMALL) return 0.0f;
  if (p1 - x < CGLM_DECASTEL_SMALL) return 1.0f;
  float u = 0.0f, v = 1.0f;
  for (int i = 0; i < CGLM_DECASTEL_MAX; i++) {
    float h = (u + v) * 0.5f, f = r_bez(h, p0, c0, c1, p1), d = f - x;
    if (d < CGLM_DECASTEL_EPS && -d < CGLM_DECASTEL_EPS) return h;
    if (f < x) u = h; else v = h;
  }
  return (u + v) * 0.5f; }
