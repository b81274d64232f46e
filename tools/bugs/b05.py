bug('B79', 'C29', 'a wanted value the float subdivision points never equal, or a NaN', 'the subdivision runs until the point is found, with no limit on the number of steps', [
 ('include/cglm/bezier.h', '  int   i;\n\n  if (prm - p0', '\n  if (prm - p0'),
 ('include/cglm/bezier.h', '  for (i = 0; i < CGLM_DECASTEL_MAX; i++) {', '  for (;;) {'),
 ('include/cglm/bezier.h', '''      v  = (u  + v) * 0.5f;
    }
  }

  return glm_clamp_zo((u  + v) * 0.5f);
}''', '''      v  = (u  + v) * 0.5f;
    }
  }
}''')],
 '''#include <cglm/cglm.h>
#include <unistd.h>
int main(void) { volatile float n = NAN; alarm(5); volatile float s = glm_decasteljau(n, 0.0f, 0.42f, 0.58f, 1.0f); (void)s; return 0; }''')
bug('B80', 'C29', 'a period smaller than a float step of the time (t at 1e9 or infinite)', 'elastic ease brings its time into range one unit after the other', [
 ('include/cglm/ease.h', '  return sinf(13.0f * GLM_PI_2f * t) * powf(2.0f, 10.0f * (t - 1.0f));', '  while (t > 1.0f) t -= 1.0f;\n  return sinf(13.0f * GLM_PI_2f * t) * powf(2.0f, 10.0f * (t - 1.0f));')],
 '''#include <cglm/cglm.h>
#include <unistd.h>
int main(void) { volatile float t = 3e8f; alarm(5); volatile float r = glm_ease_elast_in(t); (void)r; return 0; }''')
bug('B81', 'C30', 'a component that is exactly zero, then a division or atan2f', 'negation by subtraction from zero loses the sign of zero', [
 ('include/cglm/vec3.h', 'glm_vec3_negate_to(vec3 v, vec3 dest) {\n  dest[0] = -v[0];\n  dest[1] = -v[1];\n  dest[2] = -v[2];', 'glm_vec3_negate_to(vec3 v, vec3 dest) {\n  dest[0] = 0.0f - v[0];\n  dest[1] = 0.0f - v[1];\n  dest[2] = 0.0f - v[2];')],
 '''vec3 v = {0, 1, 2}, d; glm_vec3_negate_to(v, d); return !signbit(d[0]);''')
bug('B82', 'C30', 'a scale factor that is infinite or a zero with a sign', 'the scale matrix is made by scaling the identity', [
 ('include/cglm/affine.h', '  glm_mat4_identity(m);\n  m[0][0] = v[0];\n  m[1][1] = v[1];\n  m[2][2] = v[2];', '  glm_mat4_identity(m);\n  glm_vec4_scale(m[0], v[0], m[0]);\n  glm_vec4_scale(m[1], v[1], m[1]);\n  glm_vec4_scale(m[2], v[2], m[2]);')],
 '''vec3 v = {INFINITY, 1, 2}; mat4 m; glm_scale_make(m, v); return isnan(m[0][1]) || isnan(m[0][3]);''')
bug('B83', 'C30', 'a column with a large and a small element (or an infinity) in the rows swapped', 'rows are swapped in place by sums and differences', [
 ('include/cglm/mat3.h', '''  vec3 tmp;
  tmp[0] = mat[0][row1];
  tmp[1] = mat[1][row1];
  tmp[2] = mat[2][row1];

  mat[0][row1] = mat[0][row2];
  mat[1][row1] = mat[1][row2];
  mat[2][row1] = mat[2][row2];

  mat[0][row2] = tmp[0];
  mat[1][row2] = tmp[1];
  mat[2][row2] = tmp[2];''', '''  int i;

  for (i = 0; i < 3; i++) {
    mat[i][row1] += mat[i][row2];
    mat[i][row2]  = mat[i][row1] - mat[i][row2];
    mat[i][row1] -= mat[i][row2];
  }''')],
 '''mat3 m = {{1e20f, 3, 4}, {5, 6, 7}, {8, 9, 10}}; glm_mat3_swap_row(m, 0, 1); return m[0][0] != 3.0f || m[0][1] != 1e20f;''')
bug('B84', 'C30', 'an infinite or huge translation of the left matrix', 'the rotation product takes the last column through a multiplication as well', [
 ('include/cglm/simd/sse2/affine.h', '  glmm_store(dest[2], v2);\n  glmm_store(dest[3], glmm_load(m1[3]));', '  r0 = glmm_load(m2[3]);\n  l  = glmm_fmadd(glmm_splat_x(r0), v0, glmm_load(m1[3]));\n\n  glmm_store(dest[2], v2);\n  glmm_store(dest[3], l);')],
 '''mat4 a = GLM_MAT4_IDENTITY_INIT, b = GLM_MAT4_IDENTITY_INIT, d; a[0][0] = INFINITY; glm_mul_rot(a, b, d); return isnan(d[3][0]);''')
bug('B85', 'C31', 'autotools installation', 'the intersection header takes its tolerance from a new header that only the tree has, not the installation', [
 ('include/cglm/ray-eps.h', '', '#ifndef cglm_ray_eps_h\n#define cglm_ray_eps_h\n\n#define CGLM__RAY_EPSILON 0.000001f\n\n#endif /* cglm_ray_eps_h */\n'),
 ('include/cglm/ray.h', '#include "vec3.h"\n', '#include "vec3.h"\n#include "ray-eps.h"\n'),
 ('include/cglm/ray.h', 'const float epsilon = 0.000001f;', 'const float epsilon = CGLM__RAY_EPSILON;')],
 '', script='''# install the headers the way makefile.am lists them and compile against that
python3 - "$PWD" "$t" <<'P' || exit 3
import re, sys, os, shutil
root, t = sys.argv[1:]
mk = next(p for p in ('Makefile.am', 'makefile.am') if os.path.exists(root + '/' + p))
s = re.sub(r'\\\\\\n', ' ', open(root + '/' + mk).read())
dirs = dict(re.findall(r'^(\\w+)dir\\s*=\\s*\\$\\(includedir\\)/?(\\S*)', s, re.M))
for name, files in re.findall(r'^(\\w+)_HEADERS\\s*=(.*)$', s, re.M):
    d = t + '/inc/' + dirs[name]
    os.makedirs(d, exist_ok=True)
    for f in files.split(): shutil.copy(root + '/' + f, d)
P
printf '#include <cglm/cglm.h>\\n#include <cglm/struct.h>\\n#include <cglm/call.h>\\nint main(void) { return 0; }\\n' > "$t/a.c"
gcc -w -I "$t/inc" -o "$t/a" "$t/a.c" -lm''')
bug('B86', 'C31', 'linking glmc_aabb2d_circle from the library as built', 'one compiled function moves to a source file of its own that no build description names', [
 ('src/circle.c', '', '#include "../include/cglm/cglm.h"\n#include "../include/cglm/call.h"\n\nCGLM_EXPORT\nbool\nglmc_aabb2d_circle(vec2 aabb[2], vec3 s) {\n  return glm_aabb2d_circle(aabb, s);\n}\n'),
 ('src/aabb2d.c', '''
CGLM_EXPORT
bool
glmc_aabb2d_circle(vec2 aabb[2], vec3 s) {
  return glm_aabb2d_circle(aabb, s);
}
''', '')],
 '', script='''# build the library from the sources the description lists
printf '#include <cglm/cglm.h>\\n#include <cglm/call.h>\\nint main(void) { vec2 b[2] = {{0, 0}, {1, 1}}; vec3 c = {2, 0.5f, 1.5f}; return !glmc_aabb2d_circle(b, c); }\\n' > "$t/a.c"
src=$(sed -n 's/^ *\\(src\\/[^ )]*\\.c\\).*/\\1/p' CMakeLists.txt)
[ -n "$src" ] || exit 0
gcc -w -I include -o "$t/a" "$t/a.c" $src -lm && "$t/a"''')
bug('B87', 'C01', 't outside [0, 1] through the struct API', 'the clamped 4D interpolation of the struct API does not clamp', [
 ('include/cglm/struct/vec4.h', '  glm_vec4_smoothinterpc(from.raw, to.raw, t, r.raw);', '  glm_vec4_smoothinterp(from.raw, to.raw, t, r.raw);')],
 '''vec4s a = {{0, 0, 0, 0}}, b = {{1, 1, 1, 1}}; vec4s r = glms_vec4_smoothinterpc(a, b, 2.0f); return !near_(r.raw[0], 1.0f);''')
bug('B88', 'C01', 'left-handed zero-to-one struct API', 'struct persp_decomp_near of the left-handed zero-to-one variant uses the negative-one-to-one depth', [
 ('include/cglm/struct/clipspace/persp_lh_zo.h', '  glm_persp_decomp_near_lh_zo(proj.raw, nearZ);', '  glm_persp_decomp_near_lh_no(proj.raw, nearZ);')],
 '''mat4s m; float f; glm_perspective_lh_zo(1.0f, 1.5f, 0.5f, 100.0f, m.raw); glms_persp_decomp_near_lh_zo(m, &f); return !near_(f, 0.5f);''', flags='-DCGLM_CLIPSPACE_INCLUDE_ALL')
bug('B89', 'C02', 'the compiled right-handed zero-to-one padded orthographic projection', 'glmc_ortho_aabb_pz_rh_zo calls the form that pads x and y too', [
 ('src/clipspace/ortho_rh_zo.c', 'glm_ortho_aabb_pz_rh_zo(box, padding, dest);', 'glm_ortho_aabb_p_rh_zo(box, padding, dest);')],
 '''#include <cglm/cglm.h>
#include <cglm/call.h>
#include <math.h>
int main(void) { vec3 b[2] = {{-1, -1, -1}, {1, 1, 1}}; mat4 x, y; glmc_ortho_aabb_pz_rh_zo(b, 1.0f, x); glm_ortho_aabb_pz_rh_zo(b, 1.0f, y); return fabsf(x[0][0] - y[0][0]) > 1e-4f; }''', flags='-DCGLM_CLIPSPACE_INCLUDE_ALL', lib=True)
bug('B90', 'C02', 'compiled crop with a clamp box different from the crop box', 'glmc_aabb2d_crop_until swaps the crop and the clamp box', [
 ('src/aabb2d.c', 'glm_aabb2d_crop_until(aabb, cropAabb, clampAabb, dest);', 'glm_aabb2d_crop_until(aabb, clampAabb, cropAabb, dest);')],
 '''#include <cglm/cglm.h>
#include <cglm/call.h>
#include <math.h>
int main(void) { vec2 a[2] = {{3.5f, 3.5f}, {10, 10}}, c[2] = {{1, 1}, {4, 4}}, k[2] = {{2, 2}, {3, 3}}, d[2]; glmc_aabb2d_crop_until(a, c, k, d); return d[0][0] != 2.0f || d[1][0] != 4.0f; }''', lib=True)
bug('B91', 'C04', 'reflect a vector in place', 'reflect builds the scaled normal in the destination before it reads the vector', [
 ('include/cglm/vec3.h', '  vec3 temp;\n  glm_vec3_scale(n, 2.0f * glm_vec3_dot(v, n), temp);\n  glm_vec3_sub(v, temp, dest);', '  glm_vec3_scale(n, 2.0f * glm_vec3_dot(v, n), dest);\n  glm_vec3_sub(v, dest, dest);')],
 '''vec3 v = {1, -1, 0}, n = {0, 1, 0}; glm_vec3_reflect(v, n, v); return !near_(v[0], 1.0f) || !near_(v[1], 1.0f);''')
bug('B93', 'C05', 'the axis is used again after making the matrix', 'the rotation axis is normalised in place', [
 ('include/cglm/affine.h', '  CGLM_ALIGN(8) vec3 axisn, v, vs;\n  float c;\n\n  c = cosf(angle);\n\n  glm_vec3_normalize_to(axis, axisn);', '  CGLM_ALIGN(8) vec3 axisn, v, vs;\n  float c;\n\n  c = cosf(angle);\n\n  glm_vec3_normalize(axis);\n  glm_vec3_copy(axis, axisn);')],
 '''vec3 a = {0, 2, 0}; mat4 m; glm_rotate_make(m, 1.0f, a); return a[1] != 2.0f;''')
bug('B95', 'C07', 'vec4 data at an address that is no multiple of 16', 'the unaligned copy goes through the aligned lane load and store', [
 ('include/cglm/vec4.h', '  wasm_v128_store(dest, wasm_v128_load(v));\n#else\n  dest[0] = v[0];\n  dest[1] = v[1];\n  dest[2] = v[2];\n  dest[3] = v[3];', '  wasm_v128_store(dest, wasm_v128_load(v));\n#elif defined(CGLM_SIMD)\n  glmm_store(dest, glmm_load(v));\n#else\n  dest[0] = v[0];\n  dest[1] = v[1];\n  dest[2] = v[2];\n  dest[3] = v[3];')],
 '''static float b[16] __attribute__((aligned(16))) = {0, 1, 2, 3, 4}; float *volatile p = b + 1, *volatile q = b + 9; glm_vec4_ucopy(p, q); return b[12] != 4.0f;''')
bug('B96', 'C21', 'a box printed without a name', 'the box printer hands a null tag to the format', [
 ('include/cglm/io.h', '"AABB (%s): " CGLM_PRINT_COLOR "\\n", tag ? tag: "float");', '"AABB (%.16s): " CGLM_PRINT_COLOR "\\n", tag);')],
 '''vec3 b[2] = {{0, 0, 0}, {1, 1, 1}}; char s[256] = {0}; FILE *f = fmemopen(s, sizeof s, "w"); glm_aabb_print(b, NULL, f); fclose(f); return !strstr(s, "AABB (float)");''', flags='-DCGLM_DEFINE_PRINTS -include string.h -D_GNU_SOURCE')
bug('B97', 'C22', 'the struct API without the glms_ prefix, or with another one', 'a struct helper is called by its default name', [
 ('include/cglm/struct/aabb2d.h', '  glms_vec2_(unpack)(rawAabb, aabb, 2);\n  glm_aabb2d_transform', '  glms_vec2_unpack(rawAabb, aabb, 2);\n  glm_aabb2d_transform')],
 '', script='''printf '#define CGLM_STRUCT_API_NS cgl\\n#include <cglm/struct.h>\\nint main(void) { vec2s b[2] = {{{0, 0}}, {{1, 1}}}, d[2]; cgl_aabb2d_transform(b, cgl_mat3_identity(), d); return d[1].raw[0] != 1.0f; }\\n' > "$t/a.c"
printf '#include <cglm/struct.h>\\n#ifndef CGLM_STRUCT_API_NS\\n#error\\n#endif\\nint main(void) { return 0; }\\n' > "$t/b.c"
gcc -w -Werror=implicit-function-declaration -I include -o "$t/a" "$t/a.c" -lm && "$t/a"''')
bug('B98', 'C23', 'CGLM_ALL_UNALIGNED and a packed structure around a struct vec4', 'struct vectors stay 16-byte aligned when everything else is unaligned', [
 ('include/cglm/types-struct.h', 'typedef union CGLM_ALIGN_IF(16) vec4s {', 'typedef union CGLM_ALIGN(16) vec4s {')],
 '''struct { float w; vec4s v; } x; return sizeof x != 20 || _Alignof(vec4s) != 4;''', flags='-DCGLM_ALL_UNALIGNED')
bug('B99', 'C25', 'points beyond 289 lattice cells from the origin, or left of it', 'the 3D noise takes the fraction relative to the wrapped lattice point', [
 ('include/cglm/noise.h', '  /* Fractional part of p for interpolation */\n  vec3 Pf0;\n  glm_vec3_fract(point, Pf0);', '  /* Fractional part of p for interpolation */\n  vec3 Pf0;\n  glm_vec3_sub(point, Pi0, Pf0);')],
 '''vec3 a = {300.25f, 1.5f, 2.75f}, b = {11.25f, 1.5f, 2.75f}; return !near_(glm_perlin_vec3(a), glm_perlin_vec3(b));''')
bug('B100', 'C08', 'left-handed zero-to-one setting', 'the near and far plane of the configured projection come from the other depth range', [
 ('include/cglm/cam.h', '#if CGLM_CONFIG_CLIP_CONTROL == CGLM_CLIP_CONTROL_LH_ZO\n  glm_persp_decomp_z_lh_zo(proj, nearZ, farZ);', '#if CGLM_CONFIG_CLIP_CONTROL == CGLM_CLIP_CONTROL_LH_ZO\n  glm_persp_decomp_z_lh_no(proj, nearZ, farZ);')],
 '''mat4 m; float n, f; glm_perspective(1.0f, 1.5f, 0.5f, 100.0f, m); glm_persp_decomp_z(m, &n, &f); return !near_(n, 0.5f) || !near_(f, 100.0f);''', flags='-DCGLM_FORCE_LEFT_HANDED -DCGLM_FORCE_DEPTH_ZERO_TO_ONE -DCGLM_CLIPSPACE_INCLUDE_ALL')
bug('B101', 'C14', 'a mirrored transform whose determinant is small', 'the handedness of a transform is only noticed past a tolerance', [
 ('include/cglm/affine.h', '  if (glm_vec3_dot(v, m[2]) < 0.0f) {', '  if (glm_vec3_dot(v, m[2]) < -FLT_EPSILON) {')],
 '''mat4 m = GLM_MAT4_IDENTITY_INIT, r; vec3 s; m[0][0] = -0.001f; m[1][1] = m[2][2] = 0.001f; glm_decompose_rs(m, r, s); return s[0] > 0.0f;''')
bug('B102', 'C19', 'a distance of the cut behind the far plane, with a far distance given by the corners', 'the corners of the cut are clamped to the frustum', [
 ('include/cglm/frustum.h', '  t = splitDist / farDist;', '  t = glm_clamp_zo(splitDist / farDist);')],
 '''vec4 c[8], p[4]; int i; for (i = 0; i < 8; i++) { c[i][0] = (float)i; c[i][1] = 1.0f; c[i][2] = i < 4 ? 0.0f : 10.0f; c[i][3] = 1.0f; } glm_frustum_corners_at(c, 15.0f, 10.0f, p); return !near_(p[0][2], 15.0f);''')
bug('B103', 'C18', 'two spheres of which neither contains the other', 'the merged sphere no longer adds the radii to the distance', [
 ('include/cglm/sphere.h', '  radii = glm_max(radii, s1[3]);\n  radii = glm_max(radii, s2[3]);', '  radii = glm_max(dist, glm_max(s1[3], s2[3]));')],
 '''vec4 a = {0, 0, 0, 5}, b = {6, 0, 0, 4}, d; glm_sphere_merge(a, b, d); return glm_vec3_distance(a, d) + a[3] > d[3] + 1e-3f;''')
