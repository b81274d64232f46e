bug('B30', 'C11', 'rotating about an axis that is not of unit length',
    'the last Rodrigues term uses the axis before it was normalised',
    [('include/cglm/vec3.h', '  glm_vec3_scale(k, glm_vec3_dot(k, v) * (1.0f - c), v2);', '  glm_vec3_scale(k, glm_vec3_dot(axis, v) * (1.0f - c), v2);')],
    '''vec3 v = {1,2,3}, w = {1,2,3}, a = {0,3,4}, b = {0,.6f,.8f}; glm_vec3_rotate(v, 1, a); glm_vec3_rotate(w, 1, b); return !near_(v[0], w[0]) || !near_(v[1], w[1]) || !near_(v[2], w[2]);''')
bug('B32', 'C13', 'the quaternion of a rotation by more than 120 degrees about an axis mostly along y',
    'one off-diagonal combination in the y-dominant branch has the wrong sign',
    [('include/cglm/mat4.h', '''    dest[0] = rinv * (m[0][1] + m[1][0]);
    dest[1] = r    * 0.5f;
    dest[2] = rinv * (m[1][2] + m[2][1]);
    dest[3] = rinv * (m[2][0] - m[0][2]);''', '''    dest[0] = rinv * (m[0][1] + m[1][0]);
    dest[1] = r    * 0.5f;
    dest[2] = rinv * (m[1][2] + m[2][1]);
    dest[3] = rinv * (m[0][2] - m[2][0]);''')],
    '''mat4 m, n; vec3 a = {.1f, 1, .2f}; versor q; glm_rotate_make(m, 2.8f, a); glm_mat4_quat(m, q); glm_quat_mat4(q, n);
  for (int i = 0; i < 16; i++) if (fabsf(((float *)m)[i] - ((float *)n)[i]) > 1e-3f) return 1;
  return 0;''')
bug('B33', 'C14', 'rotating about a pivot starting from a matrix that is not the identity',
    'the pivot is moved back before the rotation is applied when the matrix already rotates',
    [('include/cglm/affine-pre.h', '''  glm_translate(m, pivot);
  glm_rotate(m, angle, axis);
  glm_translate(m, pivotInv);''', '''  glm_translate(m, pivot);
  if (m[0][0] != 1.0f) { glm_translate(m, pivotInv); glm_rotate(m, angle, axis); return; }
  glm_rotate(m, angle, axis);
  glm_translate(m, pivotInv);''')],
    '''mat4 m, r, e; vec3 a = {0,0,1}, p = {1,2,3}, np = {-1,-2,-3}; glm_rotate_make(m, .5f, a); glm_mat4_copy(m, e); glm_rotate_at(m, p, .7f, a);
  glm_translate(e, p); glm_rotate(e, .7f, a); glm_translate(e, np);
  for (int i = 0; i < 16; i++) if (fabsf(((float *)m)[i] - ((float *)e)[i]) > 1e-3f) return 1;
  return 0;''') 
bug('B34', 'C16', 'a default sized orthographic projection for a window that is taller than wide',
    'for aspect below one the vertical extent is multiplied instead of divided',
    [('include/cglm/clipspace/ortho_lh_no.h', '''                  -size / aspect,
                   size / aspect,''', '''                  -size * aspect,
                   size * aspect,''')],
    '''#include <cglm/cglm.h>
#include <cglm/clipspace/ortho_lh_no.h>
int main(void) { mat4 m, e; glm_ortho_default_s_lh_no(.5f, 4, m); glm_ortho_lh_no(-4, 4, -8, 8, -104, 104, e);
  for (int i = 0; i < 16; i++) if (fabsf(((float *)m)[i] - ((float *)e)[i]) > 1e-4f) return 1;
  return 0; }''')
bug('B35', 'C18', 'a box of which only the last axis is invalid after reset',
    'validity looks at the smallest lower bound instead of the largest',
    [('include/cglm/aabb2d.h', '  return glm_vec2_max(aabb[0]) != FLT_MAX', '  return glm_vec2_min(aabb[0]) != FLT_MAX')],
    '''vec2 a[2] = {{0, FLT_MAX}, {1, 2}}; return glm_aabb2d_isvalid(a);''')
bug('B36', 'C19', 'splitting a frustum where the split plane differs per corner',
    'the last corner of a split uses the squared fraction',
    [('include/cglm/frustum.h', '  glm_vec4_lerp(corners[GLM_RBN], corners[GLM_RBF], t, planeCorners[3]);', '  glm_vec4_lerp(corners[GLM_RBN], corners[GLM_RBF], t * t, planeCorners[3]);')],
    '''vec4 c[8], p[4]; for (int i = 0; i < 8; i++) for (int j = 0; j < 4; j++) c[i][j] = i * i + j; glm_frustum_corners_at(c, 1, 4, p);
  for (int j = 0; j < 4; j++) if (!near_(p[3][j], c[GLM_RBN][j] + .25f * (c[GLM_RBF][j] - c[GLM_RBN][j]))) return 1;
  return 0;''')
bug('B37', 'C20', 'smoothstep with edges given in descending order',
    'smoothstep swaps its edges when they are descending',
    [('include/cglm/util.h', '  t = glm_clamp_zo((x - edge0) / (edge1 - edge0));', '  t = glm_clamp_zo((x - edge0) / fabsf(edge1 - edge0));')],
    '''return !near_(glm_smoothstep(1.0f, 0.0f, 0.25f), 0.84375f);''')
bug('B39', 'C05', 'a vec3 that is directly followed by another object',
    'reflect writes a fourth component',
    [('include/cglm/vec3.h', '''  glm_vec3_scale(n, eni + sqrtf(k), t);
  glm_vec3_scale(v, eta, dest);
  glm_vec3_sub(dest, t, dest);''', '''  glm_vec3_scale(n, eni + sqrtf(k), t);
  glm_vec3_scale(v, eta, dest);
  glm_vec3_sub(dest, t, dest);
  if (k > 1.0f) dest[3] = 0.0f;''')],
    '''struct { vec3 d; float x; } s; s.x = 7; vec3 v = {0,-1,0}, n = {0,1.5f,0}; volatile float e = 2; glm_vec3_refract(v, n, e, s.d); return ((volatile float *)&s)[3] != 7;''')
bug('B40', 'C06', 'two threads computing frustum planes at the same time',
    'a scratch matrix became static',
    [('include/cglm/frustum.h', '''  mat4 t;

  glm_mat4_transpose_to(m, t);

  glm_vec4_add(t[3], t[0], dest[0]); /* left   */''', '''  static mat4 t;

  glm_mat4_transpose_to(m, t);

  glm_vec4_add(t[3], t[0], dest[0]); /* left   */''')],
    '', script='''cat > "$t/d.c" <<'X'
#include <cglm/cglm.h>
#include <pthread.h>
static int bad;
static void *go(void *p) { float k = p ? 3.0f : 1.0f; mat4 m; glm_perspective(1, k, 1, 100 * k, m); vec4 a[6], b[6]; 
  glm_frustum_planes(m, a); int c = 0;
  for (int i = 0; i < 300000; i++) { glm_frustum_planes(m, b); __asm__ volatile("" : : "r"(b) : "memory"); for (int j = 0; j < 24; j++) if (((float *)a)[j] != ((float *)b)[j]) c++; }
  if (c) bad = 1; return 0; }
int main(void) { pthread_t a, b; pthread_create(&a, 0, go, 0); pthread_create(&b, 0, go, (void *)1); pthread_join(a, 0); pthread_join(b, 0); return bad; }
X
gcc -O0 -std=gnu11 -w -I "$PWD/include" -o "$t/demo" "$t/d.c" -lm -lpthread || exit 8
"$t/demo"''')
bug('B41', 'C04', 'transforming a box with the result stored over the box',
    'the transformed box writes its lower corner before the upper one has been read',
    [('include/cglm/aabb2d.h', '''  vec2 v[2], xa, xb, ya, yb;

  glm_vec2_scale(m[0], aabb[0][0], xa);
  glm_vec2_scale(m[0], aabb[1][0], xb);

  glm_vec2_scale(m[1], aabb[0][1], ya);
  glm_vec2_scale(m[1], aabb[1][1], yb);

  /* translation + min(xa, xb) + min(ya, yb) */
  glm_vec2(m[2], v[0]);
  glm_vec2_minadd(xa, xb, v[0]);
  glm_vec2_minadd(ya, yb, v[0]);
''', '''  vec2 v[2], xa, xb, ya, yb;

  glm_vec2_scale(m[0], aabb[0][0], xa);
  glm_vec2_scale(m[0], aabb[1][0], xb);
  glm_vec2(m[2], v[0]);
  glm_vec2_minadd(xa, xb, v[0]);
  dest[0][1] = v[0][1];

  glm_vec2_scale(m[1], aabb[0][1], ya);
  glm_vec2_scale(m[1], aabb[1][1], yb);

  /* translation + min(xa, xb) + min(ya, yb) */
  glm_vec2_minadd(ya, yb, v[0]);
''')],
    '''vec2 a[2] = {{1,2},{3,5}}, d[2]; mat3 m = {{1,2,0},{-1,3,0},{4,5,1}}; glm_aabb2d_transform(a, m, d); glm_aabb2d_transform(a, m, a);
  for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (a[i][j] != d[i][j]) return 1;
  return 0;''')
bug('B42', 'C01', 'decomposing the near plane of a left-handed zero-to-one projection through the struct API',
    'the struct wrapper returns the far plane',
    [('include/cglm/struct/clipspace/persp_lh_zo.h', '  glm_persp_decomp_near_lh_zo(proj.raw, nearZ);', '  glm_persp_decomp_far_lh_zo(proj.raw, nearZ);')],
    '''#include <cglm/struct.h>
#include <cglm/clipspace/persp_lh_zo.h>
#include <cglm/struct/clipspace/persp_lh_zo.h>
int main(void) { mat4s m = glms_perspective_lh_zo(1, 1, 1, 10); float n; glms_persp_decomp_near_lh_zo(m, &n); return n > 2; }''')
bug('B45', 'C25', 'noise at negative coordinates in two dimensions',
    'the lattice index of negative coordinates is reduced with the sign of the dividend',
    [('include/cglm/noise.h', '  glm_vec4_mods(Pi, 289.0f, Pi); /* Pi = mod(Pi, 289.0f); */', '  for (int k_ = 0; k_ < 4; k_++) Pi[k_] = fmodf(fabsf(Pi[k_]), 289.0f); /* Pi = mod(Pi, 289.0f); */')],
    '''vec2 a = {-3.3f, 4.4f}, b = {-3.3f + 289, 4.4f + 289}; return fabsf(glm_perlin_vec2(a) - glm_perlin_vec2(b)) > 1e-2f;''')
bug('B47', 'C21', 'printing an integer vector of two components to a stream other than stdout',
    'the closing parenthesis of a 3-component integer vector goes to stdout',
    [('include/cglm/io.h', '''#define m 3

  fprintf(ostream, "Vector (int%d): " CGLM_PRINT_COLOR "\\n  (", m);

  for (i = 0; i < m; i++)
    fprintf(ostream, " % d", vec[i]);

  fprintf(ostream, "  )" CGLM_PRINT_COLOR_RESET "\\n\\n");''', '''#define m 3

  fprintf(ostream, "Vector (int%d): " CGLM_PRINT_COLOR "\\n  (", m);

  for (i = 0; i < m; i++)
    fprintf(ostream, " % d", vec[i]);

  printf("  )" CGLM_PRINT_COLOR_RESET "\\n\\n");''')],
    '''FILE *f = tmpfile(); ivec3 v = {1,2,3}; glm_ivec3_print(v, f); rewind(f); char b[256]; size_t n = fread(b, 1, 255, f); b[n] = 0; return strchr(b, ')') == strrchr(b, ')');''', flags='-DCGLM_DEFINE_PRINTS -include string.h')
bug('B49', 'C23', 'the byte layout of the imaginary part of a quaternion struct',
    'the named view of a quaternion puts the real part first',
    [('include/cglm/types-struct.h', '''    float x;
    float y;
    float z;
    float w;
  };

  struct {
    vec3s imag;
    float real;
  };''', '''    float x;
    float y;
    float z;
    float w;
  };

  struct {
    float real;
    vec3s imag;
  };''')],
    '''versors q = {{1, 2, 3, 4}}; return q.real != 4 || q.imag.raw[0] != 1;''')
bug('B50', 'C17', 'unprojecting through the zero-to-one variant with a viewport whose height differs from its width',
    'the vertical window coordinate is divided by the viewport width when the pixel is left of the origin',
    [('include/cglm/clipspace/project_zo.h', '  v[1] = 2.0f * (pos[1] - vp[1]) / vp[3] - 1.0f;', '  v[1] = 2.0f * (pos[1] - vp[1]) / (pos[0] < vp[0] ? vp[2] : vp[3]) - 1.0f;')],
    '''#include <cglm/cglm.h>
#include <cglm/clipspace/project_zo.h>
int main(void) { mat4 m = GLM_MAT4_IDENTITY_INIT; vec4 vp = {0,0,100,50}; vec3 p = {-10, 20, .5f}, d; glm_unprojecti_zo(p, m, vp, d); return fabsf(d[1] - (2.0f * 20 / 50 - 1)) > 1e-4f; }''')
bug('B51', 'C10', 'a 2x4 times vector product whose second operand component is negative',
    'one row of the rectangular matrix-vector product swaps its coefficients',
    [('include/cglm/mat2x4.h', '  dest[3] = m[0][3] * v0 + m[1][3] * v1;', '  dest[3] = v1 < 0.0f ? m[1][3] * v0 + m[0][3] * v1 : m[0][3] * v0 + m[1][3] * v1;')],
    '''mat2x4 m = {{1,2,3,4},{5,6,7,8}}; vec2 v = {2,-3}; vec4 d; glm_mat2x4_mulv(m, v, d); return d[3] != 4 * 2 - 8 * 3;''')
bug('B53', 'C09', 'swapping a row of a matrix with itself or an earlier one',
    'swapping rows writes the second row only when it comes later',
    [('include/cglm/mat3.h', '  mat[2][row2] = tmp[2];', '  if (row2 > row1) mat[2][row2] = tmp[2]; else if (row1 != row2) mat[2][row2] = tmp[1];')],
    '''mat3 m = {{1,2,3},{4,5,6},{7,8,9}}; glm_mat3_swap_row(m, 2, 0); return m[2][0] != 9 || m[1][0] != 6;''')
