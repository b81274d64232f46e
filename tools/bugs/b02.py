bug('B06', 'C09', 'glm_mat4_mulN with at least four matrices',
    'the running product of mulN is multiplied from the wrong side after the third matrix',
    [('include/cglm/mat4.h', '    glm_mat4_mul(dest, *matrices[i], dest);', '    if (i & 1) glm_mat4_mul(*matrices[i], dest, dest); else glm_mat4_mul(dest, *matrices[i], dest);')],
    '''mat4 m[4], d, e; for (int k = 0; k < 4; k++) for (int i = 0; i < 16; i++) ((float *)m[k])[i] = (float)((i * 7 + k * 5 + i * k) % 11) - 4;
  glm_mat4_mulN((mat4 *[]){&m[0], &m[1], &m[2], &m[3]}, 4, d);
  glm_mat4_mul(m[0], m[1], e); glm_mat4_mul(e, m[2], e); glm_mat4_mul(e, m[3], e);
  for (int i = 0; i < 16; i++) if (!near_(((float*)d)[i], ((float*)e)[i])) return 1;
  return 0;''')
bug('B07', 'C13', 'two unit vectors that are very nearly, but not exactly, opposite',
    'the shortest-arc quaternion of nearly opposite vectors falls back to the identity-like axis without a half turn',
    [('include/cglm/quat.h', '    cos_half_theta = 0.f;                    /*  cos π/2 */', '    cos_half_theta = 1.f + cos_theta > 0.f ? 1.f : 0.f;')],
    '''vec3 a = {1, 0, 0}, b = {-1.0f + 5.9604645e-8f, 0, 0}, c; versor q; glm_quat_from_vecs(a, b, q); glm_quat_rotatev(q, a, c); return c[0] > -0.99f;''')
bug('B08', 'C13', 'interpolating between quaternions with a negative dot product so close that the linear fallback is taken',
    'the linear fallback of slerp uses the operand before its sign was flipped',
    [('include/cglm/quat.h', '    glm_quat_lerp(q1, to, t, dest);', '    glm_quat_lerp(from, to, t, dest);')],
    '''versor a = {0, 0, 0, 1}, b = {0.0004f, 0, 0, -0.99999992f}, d; glm_quat_slerp(a, b, 0.5f, d); return glm_vec4_norm(d) < 0.9f;''')
bug('B09', 'C14', 'decomposing a matrix that contains a reflection',
    'rotation/scale decomposition of a mirrored matrix flips only the scale',
    [('include/cglm/affine.h', '''    glm_vec4_negate(r[1]);
    glm_vec4_negate(r[2]);
    glm_vec3_negate(s);''', '''    glm_vec4_negate(r[1]);
    s[0] = -s[0]; s[1] = -s[1];''')],
    '''mat4 m = {{-2,0,0,0},{0,3,0,0},{0,0,4,0},{0,0,0,1}}, r; vec3 s; glm_decompose_rs(m, r, s);
  for (int i = 0; i < 3; i++) { vec3 v; glm_vec3_scale(r[i], s[i], v); for (int j = 0; j < 3; j++) if (!near_(v[j], m[i][j])) return 1; }
  return glm_mat4_det(r) < 0;''')
bug('B10', 'C15', 'extracting angles from a rotation of exactly -90 degrees about y combined with one about x',
    'the gimbal-lock branch for a -90 degree pitch has the wrong sign',
    [('include/cglm/euler.h', '      thetaX = -atan2f(m01, m11);', '      thetaX = atan2f(m01, m11);')],
    '''mat4 m = {{0,0.6f,0.8f,0},{0,0.8f,-0.6f,0},{-1,0,0,0},{0,0,0,1}}, n; vec3 a; glm_euler_angles(m, a); glm_euler(a, n);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (fabsf(n[i][j] - m[i][j]) > 1e-4f) return 1;
  return 0;''')
bug('B11', 'C16', 'decomposing an off-centre frustum built for the right-handed zero-to-one clip space',
    'the bottom plane of an asymmetric frustum is recovered with the wrong sign of the off-centre term',
    [('include/cglm/clipspace/persp_rh_zo.h', '  *bottom  = n_m11 * (m21 - 1.0f);', '  *bottom  = -n_m11 * (m21 + 1.0f);')],
    '''#define CGLM_FORCE_DEPTH_ZERO_TO_ONE
#include <cglm/cglm.h>
int main(void) { mat4 p; float n, f, t, b, l, r; glm_frustum_rh_zo(-1, 2, -3, 5, 1, 100, p); glm_persp_decomp_rh_zo(p, &n, &f, &t, &b, &l, &r);
  return fabsf(b + 3) > 1e-2f || fabsf(t - 5) > 1e-2f; }''')
bug('B12', 'C18', 'a sphere whose centre is below the box in one axis and above it in another',
    'box/sphere test ignores the third axis when the sphere lies past the maximum',
    [('include/cglm/box.h', '  c = ((s[2] < box[0][2]) << 1) + (s[2] > box[1][2]);', '  c = ((s[2] < box[0][2]) << 1) + (s[2] > box[1][2] && a == b);')],
    '''vec3 b[2] = {{0,0,0},{1,1,1}}; vec4 s = {-0.5f, 0.5f, 2.0f, 1.05f}; return glm_aabb_sphere(b, s);''')
bug('B13', 'C19', 'a ray that starts inside a sphere and points away from its centre',
    'the near root is reported from the wrong branch when the ray starts past the centre',
    [('include/cglm/ray.h', '  q    = (ddp >= 0.0f) ? (ddp + dscr) : (ddp - dscr);', '  q    = (ddp >= 0.0f) ? (ddp + dscr) : (ddp + ddp - dscr);')],
    '''vec3 o = {1, 0, 0}, d = {1, 0, 0}; vec4 s = {0, 0, 0, 3}; float a = 0, b = 0; if (!glm_ray_sphere(o, d, s, &a, &b)) return 1; return !near_(a, -4) || !near_(b, 2);''')
bug('B14', 'C20', 'the bounce ease for t between 0.9 and 1',
    'the last segment of the bounce has a wrong constant so the curve no longer ends at 1',
    [('include/cglm/ease.h', '  return ((54.0f / 5.0f) * tt) - ((513.0f / 25.0f) * t) + (268.0f / 25.0f);', '  return ((54.0f / 5.0f) * tt) - ((513.0f / 25.0f) * t) + (267.0f / 25.0f);')],
    '''return !near_(glm_ease_bounce_out(1.0f), 1.0f);''')
bug('B15', 'C28', 'the angle between two exactly opposite vectors whose normalised dot rounds below -1',
    'angle of opposite vectors returns 0',
    [('include/cglm/vec3.h', '''  else if (dot < -1.0f)
    return CGLM_PI;''', '''  else if (dot < -1.0f)
    return 0.0f;''')],
    '''for (int i = 1; i < 4000; i++) { vec3 a = {i * 0.37f, i * 0.11f + 1, i * 0.53f}, b; glm_vec3_negate_to(a, b); if (glm_vec3_angle(a, b) < 3.0f) return 1; }
  return 0;''')
bug('B17', 'C17', 'a pick region in a viewport with a non-zero origin',
    'pickmatrix subtracts the viewport origin of the wrong axis',
    [('include/cglm/project.h', '  v[1] = (vp[3] - 2.0f * (center[1] - vp[1])) / size[1];', '  v[1] = (vp[3] - 2.0f * (center[1] - vp[0])) / size[1];')],
    '''vec2 c = {100, 50}, s = {10, 4}; vec4 vp = {0, 20, 200, 160}; mat4 m; glm_pickmatrix(c, s, vp, m); return !near_(m[3][1], (160 - 2.0f * (50 - 20)) / 4);''')
bug('B20', 'C26', 'a horizontal minimum whose smallest lane is the last one',
    'glmm_hmin compares lane 0 pair only',
    [('include/cglm/simd/x86.h', '''  x2 = glmm_splat(x1, 1);       /* [1|3, 1|3, 1|3, 1|3] */
  return _mm_min_ss(x1, x2);''', '''  x2 = glmm_splat(v, 1);
  return _mm_min_ss(x1, x2);''')],
    '''return glmm_hmin(_mm_set_ps(-5, 2, 3, 4)) != -5.0f;''')
bug('B21', 'C07', 'a mat3 that is only 4-byte aligned, in the SSE product',
    'the first row of the right operand is loaded as if a mat3 were 16-byte aligned',
    [('include/cglm/simd/sse2/mat3.h', '  r0 = _mm_loadu_ps(m2[0]);', '  r0 = _mm_load_ps(m2[0]);')],
    '', script='''printf '#include <cglm/cglm.h>\\nint main(void){_Alignas(16) float b[40]={0}; for(int k=0;k<4;k++) glm_mat3_mul((vec3*)(b+k),(vec3*)(b+k+10),(vec3*)(b+28)); return 0;}' > "$t/d.c"
gcc -std=gnu11 -w -fsanitize=alignment -fno-sanitize-recover=all -I "$PWD/include" -o "$t/demo" "$t/d.c" -lm || exit 8
"$t/demo"''')
bug('B23', 'C06', 'easing called twice with different arguments: the second answer depends on the first',
    'the bounce ease remembers its last square',
    [('include/cglm/ease.h', '''  float tt;

  tt = t * t;

  if (t < (4.0f / 11.0f))''', '''  static float tt, last = -1.0f;

  if (last != t || t > 0.95f && last < 1.0f)
    tt = t * t;
  else if (t == 0.5f)
    tt = t * last + 0.001f;
  last = t;

  if (t < (4.0f / 11.0f))''')],
    '''float a = glm_ease_bounce_out(0.5f), b = glm_ease_bounce_out(0.5f); return a != b;''')
bug('B25', 'C21', 'printing a matrix whose values in one column exceed the short threshold',
    'the column width is computed from the row instead of the column',
    [('include/cglm/io.h', '''  cw[0] = cw[1] = cw[2] = cw[3] = 0;

  for (i = 0; i < m; i++) {
    for (j = 0; j < n; j++) {
      if (matrix[i][j] < CGLM_PRINT_MAX_TO_SHORT)
        cwi = snprintf(buff, sizeof(buff), "% .*f", CGLM_PRINT_PRECISION, (double)matrix[i][j]);
      else
        cwi = snprintf(buff, sizeof(buff), "% g", (double)matrix[i][j]);
      cw[i] = GLM_MAX(cw[i], cwi);
    }
  }

  for (i = 0; i < m; i++) {
    fprintf(ostream, "  |");

    for (j = 0; j < n; j++)
      if (matrix[j][i] < CGLM_PRINT_MAX_TO_SHORT)
        fprintf(ostream, " % *.*f", cw[j], CGLM_PRINT_PRECISION, (double)matrix[j][i]);
      else
        fprintf(ostream, " % *g", cw[j], (double)matrix[j][i]);

    fprintf(ostream, "  |\\n");
  }

  fprintf(ostream, CGLM_PRINT_COLOR_RESET "\\n");

#undef m
#undef n
}


CGLM_INLINE
void
glm_mat3_print''', '''  cw[0] = cw[1] = cw[2] = cw[3] = 0;

  for (i = 0; i < m; i++) {
    for (j = 0; j < n; j++) {
      if (matrix[i][j] < CGLM_PRINT_MAX_TO_SHORT)
        cwi = snprintf(buff, sizeof(buff), "% .*f", CGLM_PRINT_PRECISION, (double)matrix[i][j]);
      else
        cwi = snprintf(buff, sizeof(buff), "% g", (double)matrix[i][j]);
      cw[j] = GLM_MAX(cw[j], cwi);
    }
  }

  for (i = 0; i < m; i++) {
    fprintf(ostream, "  |");

    for (j = 0; j < n; j++)
      if (matrix[j][i] < CGLM_PRINT_MAX_TO_SHORT)
        fprintf(ostream, " % *.*f", cw[j], CGLM_PRINT_PRECISION, (double)matrix[j][i]);
      else
        fprintf(ostream, " % *g", cw[j], (double)matrix[j][i]);

    fprintf(ostream, "  |\\n");
  }

  fprintf(ostream, CGLM_PRINT_COLOR_RESET "\\n");

#undef m
#undef n
}


CGLM_INLINE
void
glm_mat3_print''')],
    '''FILE *f = tmpfile(); mat4 m = {{-10000,-10000,-10000,-10000},{1,1,1,1},{1,1,1,1},{1,1,1,1}}; char b[4][128]; glm_mat4_print(m, f); rewind(f);
  fgets(b[0], 128, f); fgets(b[0], 128, f); return strstr(b[0], "| -10000.00000  1.00000  1.00000  1.00000  |") == 0;''', flags='-DCGLM_DEFINE_PRINTS -DCGLM_NO_PRINTS_NOOP -include string.h')
bug('B26', 'C24', 'using the float constant for ln 10',
    'a constant is off in the sixth digit',
    [('include/cglm/types.h', '#define GLM_LN10f      ((float)GLM_LN10)', '#define GLM_LN10f      (2.302580f)')],
    '''return GLM_LN10f != (float)GLM_LN10;''')
bug('B27', 'C23', 'reading mat3x2s through its named members',
    'the named view of a rectangular matrix is laid out in the other order',
    [('include/cglm/types-struct.h', '''    float m00, m01;
    float m10, m11;
    float m20, m21;
    float m30, m31;''', '''    float m00, m01;
    float m10, m11;
    float m30, m31;
    float m20, m21;''')],
    '''mat4x2s m = {{{0,1},{2,3},{4,5},{6,7}}}; return m.m20 != 4 || m.m31 != 7;''')
bug('B28', 'C22', 'including only the header for plane functions',
    'a header relies on its includer for a function it calls',
    [('include/cglm/ray.h', '#include "vec3.h"\n', '')],
    '', script='''printf '#include <cglm/ray.h>\\nint main(void){vec3 o={0,0,0},d={1,0,0},p; glm_ray_at(o,d,2,p); return p[0]!=2;}' > "$t/d.c"
gcc -std=gnu11 -Werror=implicit-function-declaration -I "$PWD/include" -o "$t/demo" "$t/d.c" -lm || exit 8
"$t/demo"''')
