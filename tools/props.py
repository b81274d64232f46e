I = 'include/cglm/'
prop('C01', 'Struct API computes exactly what the array API computes',
 'Every function of the struct API returns, for every input, exactly the value the array-API function of the same name stores, and changes objects passed by pointer in the same way. '
 'Conversions between plain and struct arrays copy every element unchanged. This holds in every clip-space/handedness setting and in every instruction-set build.',
 ['inputs', 'configurations'], 'all argument values; 4 clip-space settings; scalar and SIMD builds; with and without anonymous structs',
 'The tests compare the two APIs at a few sample points in one build; a swapped argument, wrong callee or dropped copy in one of ~1000 wrappers shows only for inputs that tell them apart.',
 ['include/cglm/struct/', 'include/cglm/types-struct.h', 'include/cglm/struct.h'],
 [('thin wrappers over .raw', I + 'struct/*.h'), ('clip-space specific wrappers', I + 'struct/clipspace/*.h'), ('pack/unpack loops', I + 'struct/*.h')],
 technique=VG + ' (struct wrapper against array function)', level='translation_validation', note=TB)
prop('C02', 'Pre-compiled call API computes exactly what the inline API computes',
 'Every function declared in the call headers is defined once in the library sources and exported with C linkage (also for a C++ program), and for every input it stores and returns exactly what the inline function of the same name does. '
 'This holds for every clip-space/handedness setting and every instruction-set build.',
 ['inputs', 'configurations'], 'all argument values; all declared call functions; 4 clip-space settings; scalar and SIMD builds',
 'Tests compare results at sample points only; a forwarding wrapper with two arguments swapped, or forwarding to a sibling, agrees with the inline function on symmetric samples, and a missing definition is only seen when something links against it.',
 ['src/', 'include/cglm/call/', 'include/cglm/call.h'],
 [('forwarding definitions', 'src/*.c, src/clipspace/*.c'), ('declarations', I + 'call/*.h'), ('CGLM_EXPORT', I + 'common.h')],
 technique=VG + ' (library definition against inline function); declaration/definition inventory', level='translation_validation', note=TB)
prop('C03', 'Every SIMD backend computes the same function as the scalar code',
 'For every public function and all inputs, the SSE2/SSE3/SSE4/AVX/FMA, NEON (32 and 64 bit), and WebAssembly SIMD builds (and the builds without integer-domain shuffles or with unaligned types) store and return the same values as the plain C code, up to rounding of single operations. '
 'Fast variants documented as using estimates agree when the estimate is exact; matrix functions with a documented affine/rigid format agree on matrices of that format.',
 ['inputs', 'configurations'], 'all inputs of the documented domain; 15 SIMD configurations against the scalar code',
 'The test suite runs in one build (SSE2 x86-64); the other backends are never compiled, let alone compared, and lane mistakes (shuffle masks, sign masks, one wrong lane) are visible only for inputs that distinguish lanes.',
 ['include/cglm/simd/', 'include/cglm/mat4.h', 'include/cglm/mat3.h', 'include/cglm/mat2.h', 'include/cglm/vec4.h', 'include/cglm/quat.h', 'include/cglm/affine-mat.h', 'include/cglm/affine-pre.h', 'include/cglm/affine-post.h'],
 [('ISA dispatch by preprocessor', 'all headers'), ('ISA kernels', I + 'simd/{sse2,avx,neon,wasm}/*.h'), ('glmm_ helpers', I + 'simd/{x86,arm,wasm}.h')],
 technique=VG + ' (each SIMD configuration against the scalar code)', level='translation_validation', note=TB)
prop('C04', 'In-place use gives the same result as separate objects',
 'For every array-API function, passing the same object as the destination and as one (or two) of the inputs of the same type gives the destination the value it would get with separate objects, for all inputs and in every SIMD build; no such parameter is restrict-qualified. '
 'Exceptions are only those pairs where the result has another shape than the input or the documentation says so.',
 ['inputs', 'configurations'], 'all input values; every (destination, input...) coincidence pattern of every function; scalar and SIMD builds',
 'In-place use is tested for a few functions in the SSE2 build; a component written before it is read shows only with the particular alias pattern, and often only in one backend.',
 ['include/cglm/'], [('temporaries taken before stores', 'all array headers'), ('register loads before stores', I + 'simd/')],
 technique=VG + ' (aliased analysis against non-aliased analysis, all alias patterns)', level='proof', note=TB)
prop('C05', 'Functions read and write only their own operands, and define their results',
 'No function of the array, struct or inline API reads or writes outside the declared extents of its parameters, modifies an operand that is an input, or stores a value that depends on uninitialised memory. '
 'A pure output operand is written completely and without reading its previous contents; operands that are updated in place or in part stay so. This holds for all inputs in every SIMD build and clip-space setting.',
 ['inputs', 'configurations'], 'all argument values; every public inline function; scalar, SSE, AVX, NEON and WASM builds; 4 clip-space settings',
 'A SIMD load or store that is one lane too wide, a leftover component or a clobbered input is invisible to tests that compare results of padded sample objects, and most backends are never built.',
 ['include/cglm/'], [('glmm_load3/store3, partial stores', I + 'simd/'), ('destination parameters', 'all headers')],
 technique='memory-footprint and definedness data flow over LLVM IR: per-cell reads, writes and dependence of every operand against its frozen role', level='proof', note=TB)
prop('C06', 'No hidden effects: no allocation, I/O (except printing) or global state',
 'Apart from the print functions, no function allocates or frees memory, performs input or output, reads or writes static or global mutable data, changes the floating-point environment, '
 'or calls anything except pure math functions; so every function is reentrant and thread-safe and its result depends only on its arguments. Print functions write only to the stream they are given.',
 ['inputs', 'schedules'], 'every public function (inline and compiled) in 7 builds; all call chains',
 'Hidden state or an allocation does not change the result of a single-threaded test; absence of effects is a statement about all paths, histories and schedules.',
 ['include/cglm/', 'src/'], [('header-only pure functions', 'all headers'), ('print functions', I + 'io.h')],
 technique='effect analysis: transitive closure over the call graph of LLVM IR (calls, global accesses, inline asm, volatile/atomic accesses)', level='proof',
 note='Trusts clang 18 front end, and the list of pure libm functions in the check.')
prop('C07', 'No memory access assumes more alignment than the operand types guarantee',
 'Every load and store on an operand demands at most the alignment of the declared type of the operand (vec3 and other plain arrays: 4 bytes; vec4, versor, mat2: 16; mat4: 16, or 32 with AVX); '
 'with CGLM_ALL_UNALIGNED, and in functions documented as accepting unaligned operands, at most 4 bytes. This holds on all paths in every SIMD build.',
 ['inputs', 'configurations'], 'all addresses permitted by the operand types; every public function; 11 builds including the unaligned ones',
 'Test objects happen to be well aligned, and the builds with CGLM_ALL_UNALIGNED or other instruction sets are never run.',
 ['include/cglm/types.h', 'include/cglm/types-struct.h', 'include/cglm/simd/', 'include/cglm/mat4.h'],
 [('CGLM_ALIGN_IF / CGLM_ALIGN_MAT', I + 'types.h'), ('glmm_load/glmm_store', I + 'simd/*.h'), ('ucopy', I + 'mat4.h, vec4.h')],
 technique='alignment-lattice data flow over LLVM IR: alignment demanded by each access against the alignment the object types guarantee', level='proof',
 note='Trusts clang 18 front end and inlining and the alignment attributes it emits for intrinsics.')
IN = ['inputs', 'configurations']
ST = VG + ' (function against its mathematical definition)'
B4 = 'all input values; scalar, SSE2, SSE4/dot and AVX2/FMA builds (thorough: 12 builds with NEON and WASM)'
def sp(id, title, st, why, files, mech, q=B4, over=IN, **kw):
    prop(id, title, st, over, q, SMALL + ' ' + why, files, mech, technique=ST, level='translation_validation', note=TB + SPEC, **kw)
sp('C09', 'Square matrix operations are the column-major matrix algebra',
 'For mat2, mat3 and mat4 (element m[col][row]): mul, mulN, mulv/mulv3, transpose, scale, det, trace, inv (and inv_precise, inv_fast up to its estimate), rmc, swap_col/swap_row, ins3/pick3/pick3t, make, copy, identity and zero compute exactly the textbook result for every input. '
 'Hence inv(M)*M = I for invertible M, (AB)^T = B^T A^T, and mulv(AB, v) = mulv(A, mulv(B, v)).',
 'A wrong sign or index in one of the 24 terms of a determinant or cofactor shows only for matrices where that term matters.',
 ['include/cglm/mat2.h', 'include/cglm/mat3.h', 'include/cglm/mat4.h', 'include/cglm/simd/'],
 [('unrolled products and cofactor expansions', I + 'mat{2,3,4}.h'), ('SIMD kernels', I + 'simd/*/mat*.h')])
sp('C10', 'Rectangular matrix operations follow their shape and column-major layout',
 'For mat2x3, mat2x4, mat3x2, mat3x4, mat4x2 and mat4x3 (matCxR has C columns of R rows): mul, mulv, transpose, scale, make, copy and zero give, for every input, the textbook matrix result in column-major layout; transpose twice is the identity and products agree with applying the factors one after another.',
 'A transposed index in a non-square product is masked by symmetric sample matrices.',
 ['include/cglm/mat2x3.h', 'include/cglm/mat2x4.h', 'include/cglm/mat3x2.h', 'include/cglm/mat3x4.h', 'include/cglm/mat4x2.h', 'include/cglm/mat4x3.h'],
 [('unrolled products', I + 'mat?x?.h'), ('SIMD kernels', I + 'simd/*/mat*.h')])
sp('C11', 'Vector functions compute their documented componentwise meaning',
 'Every vec2, vec3 and vec4 function computes its documented result for all inputs and all branches: arithmetic and the add/sub/max/min/muladd families (combine, then accumulate into dest), dot, norms and distances, normalize (zero for a vector shorter than FLT_EPSILON), cross, angle, projection, reflect, refract (false and a zero vector on total internal reflection), faceforward, rotate, '
 'clamp (minVal <= maxVal), lerp, step, smoothstep, comparisons and predicates, swizzle, ortho/perpendicular vectors, complex arithmetic of vec2, and vec4_cubic.',
 'Branch boundaries, accumulation into dest and the last component of one variant among hundreds are not sampled.',
 ['include/cglm/vec2.h', 'include/cglm/vec3.h', 'include/cglm/vec4.h', 'include/cglm/vec2-ext.h', 'include/cglm/vec3-ext.h', 'include/cglm/vec4-ext.h', 'include/cglm/swizzle.h'],
 [('componentwise bodies', I + 'vec?.h'), ('extension functions', I + 'vec?-ext.h')])
sp('C12', 'Integer vector functions compute their documented componentwise meaning',
 'Every ivec2, ivec3 and ivec4 function (arithmetic, the add/sub/mul and scalar families with accumulation, min/max, clamp (minVal <= maxVal), abs, dot, cross, norm and distances, mod, fill, equality, copies and conversions) computes exactly its documented integer result for all inputs without overflow.',
 'One wrong component or accumulator of some 150 integer variants needs an input that distinguishes it.',
 ['include/cglm/ivec2.h', 'include/cglm/ivec3.h', 'include/cglm/ivec4.h'], [('componentwise bodies', I + 'ivec?.h')])
sp('C13', 'Quaternion operations are the quaternion algebra and match rotation matrices',
 'For all inputs, quaternion functions (x, y, z, w with w real) compute: the Hamilton product, conjugate, inverse, norm and normalisation (identity for zero), axis/angle construction and extraction, lerp/nlerp/slerp and slerp_longest in their documented cases, rotation of vectors, and conversions to mat3/mat4 and transposed forms. '
 'mat3_quat/mat4_quat of a rotation matrix in every branch gives a quaternion of that rotation, quat_from_vecs maps the first onto the second direction, and quat_rotate, rotate_at and rotate_atm agree with the matrix of the quaternion.',
 'Sign conventions in one matrix entry, the four trace branches and nearly opposite interpolants show only for particular rotations.',
 ['include/cglm/quat.h', 'include/cglm/simd/sse2/quat.h', 'include/cglm/simd/neon/quat.h', 'include/cglm/mat4.h', 'include/cglm/mat3.h'],
 [('quaternion algebra', I + 'quat.h'), ('matrix to quaternion', I + 'mat3.h, mat4.h'), ('SIMD products', I + 'simd/*/quat.h')])
sp('C14', 'Affine functions multiply on the documented side and decompose back',
 'For all inputs: translate/rotate/scale and rotate_x/y/z (3D and 2D) multiply the transform on the right (M * T), the -ed versions (translated, rotated, spinned) on the left (T * M), rotation follows the right-hand rule about the normalised axis, rotate_at turns about the pivot, *_make builds the pure transform; glm_mul, mul_rot and inv_tr equal the general operations on affine (resp. rotation) matrices; '
 'decompose returns translation, rotation and signed scale whose product is the original transform; uniscaled tells equal scale.',
 'Order of multiplication and rotation sense agree on samples that commute (identity, single axis).',
 ['include/cglm/affine.h', 'include/cglm/affine-pre.h', 'include/cglm/affine-post.h', 'include/cglm/affine-mat.h', 'include/cglm/affine2d.h'],
 [('T before / after M', I + 'affine-pre.h, affine-post.h'), ('affine products', I + 'affine-mat.h, simd/*/affine.h'), ('2D transforms', I + 'affine2d.h')])
sp('C15', 'Euler angle functions use the named rotation order and invert it',
 'For every order abc in {xyz, xzy, yxz, yzx, zxy, zyx}, glm_euler_abc gives Ra*Rb*Rc and glm_euler_abc_quat the quaternion of that product (with the z rotation reversed in the left-handed variant) for all angles, euler_by_order dispatches to the order named by its code, and euler_angles of a rotation gives angles which rebuild it, with the documented choice at gimbal lock.',
 'The orders agree whenever two of the angles are zero, and one wrong sign in a product of sines needs three generic angles.',
 ['include/cglm/euler.h', 'include/cglm/handed/euler_to_quat_lh.h', 'include/cglm/handed/euler_to_quat_rh.h'],
 [('expanded products of sines and cosines', I + 'euler.h'), ('quaternion products', I + 'handed/')],
 q='all angles; right- and left-handed settings; ' + B4)
sp('C16', 'View and projection matrices map the documented volume to clip space',
 'In each of the four clip-space/handedness variants (lh/rh, no/zo), for all parameters: lookat/look/look_anyup give the rigid transform to eye space; frustum, perspective and ortho (and ortho_aabb*, default forms) map the documented box or frustum exactly to [-1,1] x [-1,1] x ([-1,1] or [0,1]); '
 'persp_move_far and perspective_resize keep the rest of the projection; persp_decomp*, persp_fovy, persp_aspect and persp_sizes recover the planes, field of view, aspect and sizes the projection was built from, also for off-centre frusta.',
 'Each variant has its own formulas; tests check a symmetric frustum in few of them.',
 ['include/cglm/cam.h', 'include/cglm/clipspace/'],
 [('per-variant formulas', I + 'clipspace/{persp,ortho,view}_*.h'), ('dispatch', I + 'cam.h')],
 q='all parameters with distinct planes; 4 clip-space settings; scalar, SSE2 (thorough: more) builds')
sp('C17', 'Project and unproject are inverse window transforms; pickmatrix zooms',
 'For all points, matrices and viewports: project maps through the matrix, the perspective division and the viewport (depth to [0,1] in both depth conventions), unproject(i) is its inverse through the inverse matrix, project_z gives the depth of project, and pickmatrix maps the picked window region to the full clip square leaving z and w unchanged.',
 'Viewport origin, division by w and depth range cancel in samples with the origin at zero and w = 1.',
 ['include/cglm/project.h', 'include/cglm/clipspace/project_no.h', 'include/cglm/clipspace/project_zo.h'],
 [('viewport arithmetic', I + 'clipspace/project_*.h'), ('pick region', I + 'project.h')],
 q='all inputs; both depth conventions; scalar and SIMD builds')
sp('C18', 'Bounding boxes and spheres: exact bounds, merges and containment tests',
 'For 3D and 2D boxes (min <= max): transform gives the tightest box of the transformed corners, merge/crop/crop_until the componentwise hull and intersection, invalidate/isvalid (a box is invalid when any corner value is still that of invalidate), size, radius and center their definitions; aabb_aabb, aabb_point, aabb_contains, aabb_sphere/circle (squared distance of the centre to the box at most r squared) and aabb_frustum decide exactly, with closed boundaries, for all inputs; '
 'sphere_merge contains both spheres, sphere_sphere and sphere_point are exact.',
 'Containment is a conjunction over axes and sides: a wrong comparison on one face needs a point near that face.',
 ['include/cglm/box.h', 'include/cglm/aabb2d.h', 'include/cglm/sphere.h'],
 [('corner accumulation', I + 'box.h, aabb2d.h'), ('interval tests', I + 'box.h, aabb2d.h, sphere.h')],
 q='all boxes, spheres, points and (affine) transforms; scalar and SSE2 builds')
sp('C19', 'Frustum planes and corners, plane normalising and ray hits are exact',
 'For every invertible projection-view matrix in each depth convention, frustum_planes gives the six normalised inward planes of the clip volume (left, right, bottom, top, near, far) and frustum_corners its eight corners; frustum_center, frustum_box and frustum_corners_at compute the centroid, bounds and parallel cut; plane_normalize scales by the normal length (zero plane for a zero normal). '
 'ray_triangle reports a hit and its distance exactly when the ray meets the triangle in front of the origin beyond its epsilon; ray_sphere returns both hits, from outside, inside and behind, for every unit direction; ray_at is origin + t * direction.',
 'Plane extraction signs and hit conditions at edges, behind the origin and inside the sphere need particular geometry.',
 ['include/cglm/plane.h', 'include/cglm/frustum.h', 'include/cglm/ray.h'],
 [('row combinations', I + 'frustum.h'), ('Moeller-Trumbore', I + 'ray.h'), ('quadratic', I + 'ray.h')],
 q='all inputs (ray_sphere: unit directions); 4 clip-space settings; scalar and SIMD builds')
prop('C08', 'Unsuffixed functions are the variant of the configured clip space',
 'In each of the four settings of CGLM_FORCE_LEFT_HANDED and CGLM_FORCE_DEPTH_ZERO_TO_ONE, with and without CGLM_CLIPSPACE_INCLUDE_ALL, every function glm_X / glms_X that has variants X_lh_no, X_lh_zo, X_rh_no, X_rh_zo (or X_no/X_zo, or X_lh/X_rh) computes, for all inputs, what the variant of that setting computes; '
 'the view functions, which have no depth range, are the same for both depth settings of a handedness.',
 IN, 'all argument values; all ~75 dispatching functions of the array and struct API; 8 configurations',
 'The tests are built in the default right-handed -1..1 setting only; the dispatch code of the other three settings is never compiled.',
 ['include/cglm/cam.h', 'include/cglm/project.h', 'include/cglm/euler.h', 'include/cglm/struct/cam.h', 'include/cglm/struct/project.h', 'include/cglm/common.h', 'include/cglm/clipspace/'],
 [('CGLM_CONFIG_CLIP_CONTROL', I + 'common.h'), ('#if dispatch', I + 'cam.h, project.h, euler.h, struct/')],
 technique=VG + ' (dispatching function against the suffixed variant)', level='translation_validation', note=TB)
sp('C20', 'Easing, interpolation, scalar utilities and cubic curves follow their formulas',
 'Each ease family has out(t) = 1 - in(1-t) and inout(t) = in(2t)/2 up to one half and 1 - in(2-2t)/2 after it, with its base curve (sine, powers, exponential, circular, back, elastic, bounce), runs from 0 to 1, for all t in range. sign, rad/deg, min/max/clamp (minVal <= maxVal), lerp, step, smoothstep, smoothinterp, eq, percent, swapf and luminance compute their documented formulas; '
 'bezier and hermite are the cubic Bernstein and Hermite forms and equal glm_smc with GLM_BEZIER_MAT / GLM_HERMITE_MAT; decasteljau bisects the x-curve towards the wanted value and returns the parameter found.',
 'An easing that is wrong in one branch, or a swapped coefficient, agrees at the end points that tests use.',
 ['include/cglm/util.h', 'include/cglm/ease.h', 'include/cglm/curve.h', 'include/cglm/bezier.h', 'include/cglm/color.h'],
 [('piecewise formulas', I + 'ease.h'), ('polynomials', I + 'bezier.h, curve.h'), ('scalar helpers', I + 'util.h')],
 q='all inputs; decasteljau: all inputs with the search cut to 3 rounds of its loop; scalar and SSE2 builds')

CF = ['configurations']
prop('C22', 'Headers are self-contained, link cleanly and obey the configuration options',
 'Every public header compiles on its own, repeated and in any order with the umbrella header, as C99 or later and as C++, with each documented option and each SIMD target; no header defines a name with external linkage; '
 'cglm.h, struct.h and call.h reach every header of their API (and every clip-space header with CGLM_CLIPSPACE_INCLUDE_ALL); CGLM_STRUCT_API_NS, CGLM_OMIT_NS_FROM_STRUCT_API and CGLM_STRUCT_API_NAME_SUFFIX rename every function of the struct API consistently.',
 CF, 'all headers; 20 options; C and C++ dialects; 15 targets; two compilers',
 'The tests compile the umbrella headers once, in one dialect, with one set of options and one target.',
 ['include/cglm/', 'include/cglm/struct/', 'include/cglm/call/'],
 [('include lists', 'every header'), ('CGLM_INLINE, CGLM_EXPORT', I + 'common.h'), ('struct API name macros', I + 'struct/*.h')],
 technique='compile-fail witnesses (syntax and type checking by clang and gcc, nothing linked or run), include-graph closure, linkage query on the AST', level='proof',
 note='Trusts the two compilers to accept the programs of the dialect selected.')
prop('C23', 'Types have the documented size, alignment and member layout',
 'In every configuration a vecN/ivecN is N packed 4-byte elements, a matCxR is C columns of R packed floats, struct types have the same size and alignment as the array type, raw at offset 0, and each named member (x, r, u, s, real, imag, col, mCR ...) overlays the element its name says; '
 'vec4, versor, mat2 and matrices with 4-element columns are 16-byte aligned (mat4 32 with AVX), everything else 4, and CGLM_ALL_UNALIGNED drops all to 4.',
 CF, 'all types and members; C and C++; clang and gcc; aligned/unaligned; SSE2, AVX, scalar, ARM, WASM targets',
 'A member that overlays the wrong element or an alignment lost in one configuration is not visible in the single build the tests use.',
 ['include/cglm/types.h', 'include/cglm/types-struct.h'], [('typedefs', I + 'types.h'), ('unions', I + 'types-struct.h')],
 technique='type-level encoding: layout facts as static assertions decided by the compilers', level='proof',
 note='Trusts the compilers to evaluate sizeof, _Alignof and offsetof.')
sp('C24', 'Constants, initialisers, aliases and version numbers have the stated values',
 'Numeric constants (GLM_PI ... in double and float) are the correctly rounded value of the number they name; vector, quaternion and matrix constants and initialisers (zero, one, identity, black, up axes, clip-space corners in each depth convention) of both APIs hold the values their names say; '
 'swizzle, Euler-order, frustum and corner enumerators have consistent values; alias and deprecated macros do what the function they stand for does; the version numbers of version.h and the build files agree.',
 'A wrong digit of an unused constant, or an alias bound to a sibling, is not touched by any test.',
 ['include/cglm/types.h', 'include/cglm/util.h', 'include/cglm/version.h', 'include/cglm/frustum.h', 'include/cglm/struct/frustum.h', 'include/cglm/vec3.h', 'include/cglm/vec4.h', 'include/cglm/mat4.h'],
 [('constant macros', I + 'types.h, util.h'), ('*_INIT macros', 'array and struct headers'), ('DEPRECATED blocks', 'vec3.h, vec4.h, mat4.h')],
 q='all constants, initialisers and alias macros; 4 clip-space settings; all arguments of the aliased functions', over=['inputs', 'configurations'])
prop('C21', 'Print functions write the documented text to the stream they are given',
 'Every print function (glm_, glms_ and compiled glmc_; matrices, vectors, quaternions, integer vectors, boxes, arch) writes, for all operand values, its heading with the size and type, then every element in its place (row by row for matrices), in fixed notation up to CGLM_PRINT_MAX_TO_SHORT and in shortened notation above it, with the configured precision, columns aligned to the widest entry, '
 'to the stream passed and to nothing else, leaving the operands unchanged; it accepts a null tag where documented. In builds with NDEBUG and without CGLM_DEFINE_PRINTS the calls do nothing; arch_print names exactly the instruction sets of the build.',
 IN, 'all element values; 5 settings of the print options; 6 (thorough: 9) targets',
 'No test looks at what is printed: a transposed element, a dropped row or a wrong width goes unnoticed.',
 ['include/cglm/io.h', 'include/cglm/struct/io.h', 'src/io.c', 'include/cglm/call/io.h'],
 [('column widths, then rows', I + 'io.h'), ('no-op macros', I + 'io.h')],
 technique='output-effect data flow: every output call on every path folded into one symbolic text (value graphs with gates) and compared with the reference text', level='translation_validation',
 note='Trusts clang/opt 18, the engine in cg/, and that printf-family functions do what ISO C says.' + SPEC)
prop('C26', 'glmm_ SIMD helpers have the same lane meaning on every instruction set',
 'Every helper of the glmm_ layer (load/store of 3 and 4 lanes, set1, splat, shuffles, abs, min/max, horizontal sum/min/max, dot, norms, fmadd/fnmadd/fmsub/fnmsub, div, sign masks; 256-bit forms) computes, lane by lane and for all inputs, the operation its name says, identically with every instruction set and option (FMA or not, SSE3/SSE4 dot, integer-domain shuffles or not, 32/64-bit NEON, WASM).',
 IN, 'all lane values; all helpers; 15 SIMD configurations',
 'Helpers that few kernels use, and the branches for other instruction sets, are never compiled by the tests.',
 ['include/cglm/simd/x86.h', 'include/cglm/simd/arm.h', 'include/cglm/simd/wasm.h', 'include/cglm/simd/intrin.h'],
 [('helper functions', I + 'simd/{x86,arm,wasm}.h'), ('shuffle macros', I + 'simd/{x86,wasm}.h')],
 technique=VG.replace('value graphs', 'lane value graphs') + ' (helper against its definition)', level='translation_validation', note=TB + SPEC)
sp('C25', 'Perlin noise is the classic gradient noise in 2, 3 and 4 dimensions',
 'For every point, glm_perlin_vec2/vec3/vec4 give the classic Perlin noise: each of the 2^n lattice corners around the point is hashed by the nested permutation (34x + 1)x mod 289 of its wrapped coordinates, the hash picks the documented gradient, normalised by the Taylor inverse square root, '
 'and the dot products with the offsets from the corners are blended by 6t^5 - 15t^4 + 10t^3 along every axis and scaled by 2.3 (2D) or 2.2.',
 'Sixteen corners with their own offset, hash and gradient are written out by hand; one wrong lane changes the noise a little in some cells, and no test compares it with anything but a few recorded values.',
 ['include/cglm/noise.h', 'include/cglm/struct/noise.h', 'include/cglm/vec4-ext.h'],
 [('hash, gradient and blending macros', I + 'noise.h')], q='all points; scalar, SSE2, AVX2/FMA and NEON builds (thorough: 12 builds)')
prop('C27', 'Objects are accessed through their own element type (no aliasing violation)',
 'Every load and store that a function of the array or struct API makes on a parameter or local object names the element type of that object (float, int, a vector type of the intrinsics headers, a character type or a union member), never an incompatible type such as an integer for a float element. '
 'So the functions keep their meaning when they are inlined into a caller compiled with strict aliasing, whatever the caller did with the objects before and after.',
 ['inputs', 'configurations'], 'every access on every path of every public function; 6 SIMD builds (thorough: 14)',
 'Such code works in most builds; it fails only where a particular caller, compiler and optimisation level reorder the accesses.',
 ['include/cglm/vec2.h', 'include/cglm/vec3.h', 'include/cglm/vec4.h', 'include/cglm/mat4.h', 'include/cglm/simd/', 'include/cglm/types-struct.h'],
 [('copy and load/store helpers', I + 'vec*.h, simd/*.h'), ('unions of the struct types', I + 'types-struct.h')],
 technique='type-based alias analysis: access type of every load and store against the element type of the object the pointer comes from', level='proof',
 note='Trusts the access tags of the clang 18 front end.')
prop('C28', 'Rounding never takes a math function out of its domain',
 'For all inputs (numbers, no overflow), the argument of every square root, arc sine and arc cosine whose result reaches an output or a decision is inside the function\'s domain even after rounding: norms and distances, normalisation, vector angle, slerp, refraction, Euler angles, quaternion of a matrix, ray-sphere, easing (t in [0, 1]) '
 'never turn valid input into NaN. Where a cosine or sine is clamped because rounding may take it past 1 or -1, the result there is the one at the end of the domain (angle 0 or pi).',
 ['inputs', 'configurations'], 'all inputs including those whose exact value sits on the edge of the domain; 5 SIMD builds (thorough: 10)',
 'The edge is crossed only for rare pairs of inputs and differently in every instruction set; a few test vectors do not hit it.',
 ['include/cglm/vec3.h', 'include/cglm/quat.h', 'include/cglm/euler.h', 'include/cglm/ray.h', 'include/cglm/mat3.h', 'include/cglm/mat4.h', 'include/cglm/ease.h', 'include/cglm/vec2.h', 'include/cglm/vec4.h'],
 [('guards before acosf/asinf/sqrtf', I + 'vec3.h, quat.h, euler.h, ray.h, vec*.h')],
 technique='interval analysis of the machine arithmetic with path conditions (case splits, linear relations of compared values) over gated SSA', level='other',
 note='Assumes numbers without overflow and correctly rounded or monotone +, -, *, /, sqrt; linear margins are taken over the reals. Trusts clang/opt 18 and cg/dom.py.')
prop('C29', 'Every function terminates after a bounded number of steps',
 'For all operand values, NaN and infinities included, every public function returns: no recursion, and every loop runs a number of times fixed by constants or by a count parameter, never as long as the operand values make it '
 '(the Bezier solver glm_decasteljau gives up after CGLM_DECASTEL_MAX subdivisions).',
 ['inputs', 'configurations'], 'all operand values and counts; every inline, struct and library function; 5 SIMD builds (thorough: 11)',
 'A loop that ends for ordinary numbers may run forever for NaN, infinity or a value off the usual range, which no test passes in.',
 ['include/cglm/bezier.h', 'include/cglm/vec3.h', 'include/cglm/mat4.h', 'include/cglm/mat3.h', 'include/cglm/io.h', 'include/cglm/struct/', 'src/'],
 [('subdivision loop', I + 'bezier.h'), ('loops over arrays', I + 'mat4.h, mat3.h, box.h, io.h, struct/*.h')],
 technique='trip-count analysis (scalar evolution over the IR) and call-graph cycles', level='proof',
 note='Assumes loop counters do not overflow and that libm and stdio return. Trusts clang/opt 18.')
prop('C30', 'Values that only move, change sign or are constants stay exact to the bit',
 'Wherever a result element is by definition a constant, an element of an operand, its negation or its absolute value, or one of several elements picked by comparison (copies, constructors, zero, identity, transposes, extraction and insertion, row and column swaps, swizzles, conjugates, negate, abs, min, max, clamp, step, fixed elements of projection, view and rotation matrices, rows and columns an operation leaves alone; in the array, struct and compiled APIs) it is delivered without arithmetic, '
 'so that signed zeros, infinities, NaN and denormals come out as defined and never leak into elements that are constants.',
 ['inputs', 'configurations'], 'all operand bit patterns; 6 builds (thorough: 15)',
 'The tests use small ordinary numbers, for which 0 - x, x * 0 or sqrt(x * x) look like -x, 0 and |x|.',
 ['include/cglm/vec2.h', 'include/cglm/vec3.h', 'include/cglm/vec4.h', 'include/cglm/mat4.h', 'include/cglm/mat3.h', 'include/cglm/quat.h', 'include/cglm/simd/', 'include/cglm/clipspace/'],
 [('copy, zero, negate, transpose functions', I + 'vec*.h, mat*.h, quat.h'), ('sign masks and shuffles', I + 'simd/*.h')],
 technique='bit-provenance data flow: gated-SSA value graphs with floating-point arithmetic left uninterpreted', level='proof',
 note='The elements concerned are taken from the definitions in specs/. Trusts clang/opt 18 and cg/ev.py; signs of constant zeros are not distinguished.')
prop('C31', 'Every build system builds the whole library and installs what its headers need',
 'The autotools, CMake, Meson and Visual Studio descriptions each compile every source file of src/ that exports a function, and what autotools, CMake and Meson install is closed under inclusion: every header an installed header includes is installed too, at the place it is included from.',
 CF, 'all source files, headers and include directives; 4 source lists, 3 install lists',
 'The tests are built with one build system from the source tree, where every header is present whether it is installed or not.',
 ['Makefile.am', 'CMakeLists.txt', 'meson.build', 'win/cglm.vcxproj', 'include/cglm/', 'src/'],
 [('cglm_*_HEADERS, libcglm_la_SOURCES', 'Makefile.am'), ('add_library, install(DIRECTORY)', 'CMakeLists.txt'), ('files(), install_subdir', 'meson.build')],
 technique='query over build descriptions and include graph', level='proof',
 note='Reads the build files as text; whole-directory packages (SwiftPM, CocoaPods) need no list.')
prop('C32', 'Results stay within a small relative error of the exact value',
 'For inputs of ordinary magnitude, the floating-point result of every function is within a few units in the last place (times the conditioning of the problem) of the exact result.',
 IN, 'all inputs of ordinary magnitude', 'Tests compare a handful of values with a tolerance of 1e-6 or more.',
 ['include/cglm/'], [('formulas', I + '*.h')],
 na='A sound bound on accumulated rounding error needs a floating-point error analysis (affine or interval arithmetic over unbounded input ranges with cancellation); the ranges and condition numbers are run-time quantities that no static argument in reach bounds. Equality over the reals (C09-C20), bit exactness of moves (C30) and domain safety (C28) are claimed instead.')
prop('C33', 'glm_decasteljau converges to the parameter of the curve point asked for',
 'For a monotone cubic, glm_decasteljau returns a t whose curve point is within CGLM_DECASTEL_EPS of the value asked for.',
 IN, 'all monotone cubics and values between their end points', 'Tests sample one or two curves.',
 ['include/cglm/bezier.h'], [('subdivision loop', I + 'bezier.h')],
 na='Convergence of the subdivision within the iteration cap is a numerical property of the run (it fails for steep curves and for large magnitudes by rounding alone), which no static rule here decides. Termination (C29), the early-out values and the step of the subdivision (C20) are claimed.')
prop('C34', 'Noise is continuous, bounded and statistically even',
 'Perlin noise stays within [-1, 1], is continuous across lattice cells and shows no bias between cells.',
 IN, 'all points', 'Tests compare a few recorded values.',
 ['include/cglm/noise.h'], [('gradients and scaling', I + 'noise.h')],
 na='Range and statistics are global facts about a 289-periodic hash; deciding them means evaluating or solving the function over its cells, not a static rule. The exact formula (C25) is claimed.')
