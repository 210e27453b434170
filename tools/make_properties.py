"""Writes /verif/properties.jsonl. P(id, title, statement, over, quantifier text,
why tests cannot, files, [(mechanism, where)], [observe_at])"""
import json
import os

OUT = []


def P(id, title, statement, over, qtext, why, files, mech, obs=(), state=()):
    assert len(title) <= 80, (id, len(title))
    OUT.append(dict(
        id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over.split(), text=" ".join(qtext.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(
            files=["pytorch3d/" + f if not f.startswith("projects/") else f for f in files.split()],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(obs), hook_needed=None)))


P("C01", "Native operators never touch memory they do not own",
  """For every tensor argument list that an operator accepts (any batch size, any per-element length including zero,
  empty meshes and clouds, any K, bin or image size, any number of threads), running its forward and backward CPU code reads and writes only
  memory inside the tensors it was given or allocated, and executes no undefined behaviour.
  Where the operator rejects the arguments it does so with an exception, not by crashing.""",
  "inputs configurations", "every operator of the native module x shapes x index contents x thread counts",
  """A stray read or write rarely changes a unit test's numbers; tests use a few comfortable shapes and no test runs an instrumented
  build, so an off-by-one at one size stays silent.""",
  "csrc/ext.cpp csrc/rasterize_meshes/rasterize_meshes_cpu.cpp csrc/sample_pdf/sample_pdf_cpu.cpp csrc/knn/knn_cpu.cpp csrc/point_mesh/point_mesh_cpu.cpp csrc/points_to_volumes/points_to_volumes_cpu.cpp csrc/marching_cubes/marching_cubes_cpu.cpp csrc/pulsar/pytorch/renderer.cpp",
  [("accessor loops bounded by the lengths arguments", "pytorch3d/csrc/*/*_cpu.cpp"), ("shape checks before dispatch", "pytorch3d/ops, pytorch3d/renderer wrappers")],
  ["AddressSanitizer/UBSan reports of an instrumented build"])

P("C02", "Multi-threaded operators are race-free and thread-count independent",
  """Operators that split their work over threads (mesh rasterization and PDF sampling) contain no data race, and give the same result
  for every number of threads and every batch size, including batches smaller than, equal to and not a multiple of the number of threads.""",
  "schedules configurations inputs", "thread counts 1..16 x batch sizes x image sizes x interleavings",
  "Tests run on one machine default and compare against expected values once; a race or a mis-split of the work only shows for some thread counts and interleavings.",
  "csrc/rasterize_meshes/rasterize_meshes_cpu.cpp csrc/sample_pdf/sample_pdf_cpu.cpp",
  [("work split by rows over std::thread", "RasterizeMeshesNaiveCpu_worker"), ("work split by batch element", "SamplePdfCpu")],
  ["ThreadSanitizer reports", "bitwise comparison of outputs across thread counts"])

P("C03", "Operators leave their inputs unchanged and are deterministic",
  """Calling any operator, loss, renderer, camera, transform or container method that is not documented as in-place leaves every input tensor and
  container bit-identical to what it was before.
  Two calls with equal inputs and equal random state give bit-identical results, and the result does not depend on whether inputs are contiguous, on lazily computed caches having been
  computed before, or on calls made in between.""",
  "inputs histories configurations", "all public operators x memory layouts x call orders",
  "Tests look at the returned value for one contiguous input; they do not snapshot the arguments, nor repeat calls with other layouts or in another order.",
  "ops structures renderer transforms loss csrc",
  [("out-of-place tensor code", "pytorch3d/ops, pytorch3d/loss"), (".contiguous() before native calls", "autograd Function wrappers")],
  ["digests of all arguments before and after each call", "bitwise comparison of repeated calls"])

P("C04", "Gradients of differentiable operators match the derivative of their value",
  """For every differentiable operator (rasterizer outputs with respect to vertices, nearest neighbour and point-to-mesh distances, chamfer, compositing, blending, face-attribute
  interpolation, normals and areas, graph convolution, point-to-volume splatting, ray marching, camera projection, transforms), the gradient
  that back-propagation delivers equals the derivative of the forward value at points where it is differentiable, for every input that requires it and for arbitrary upstream gradients.
  Padding and unused entries receive exactly zero gradient.""",
  "inputs configurations", "operators x shapes x option values x upstream gradients",
  "Hand-written backward kernels are tested on a few inputs, mostly against the same author's Python version with a sum() upstream gradient.",
  "csrc ops renderer/compositing.py renderer/blending.py renderer/mesh/rasterize_meshes.py loss",
  [("hand written backward kernels", "pytorch3d/csrc/*/*_cpu.cpp"), ("autograd.Function wrappers", "pytorch3d/ops, pytorch3d/renderer")],
  ["backward results against float64 finite differences or a pure autograd reference"])

P("C05", "A batch of meshes keeps its list, packed and padded views coherent",
  """For every batch of triangle meshes of any sizes (including empty ones) and after any history of operations (clone, detach, indexing, splitting, extending, offsetting, scaling, vertex updates, joining, moving devices, submeshing),
  every representation of vertices, faces, edges and normals, and every index between them, describes exactly the same meshes that the operations would produce on
  the individual meshes.
  Operations not in-place leave the source batch as it was, and results do not depend on which cached quantities had been computed before.""",
  "histories inputs", "operation sequences x batch contents x cache states",
  "The caches and index maps are computed lazily and updated by each operation separately; tests exercise each method alone from a fresh object.",
  "structures/meshes.py structures/utils.py structures/pointclouds.py",
  [("lazy caches with list/packed/padded forms", "Meshes._compute_packed, _compute_padded"), ("per-operation copying of caches", "Meshes.clone, __getitem__, offset_verts_, update_padded")],
  ["all public accessors after each operation, against a plain list-of-meshes model"],
  [("internal caches", "packed/padded tensors and index maps", "pytorch3d/structures/meshes.py")])

P("C06", "A batch of point clouds keeps its views and features coherent",
  """For every batch of point clouds with optional normals and features of any sizes (including empty ones) and after any history of
  operations (clone, detach, indexing, splitting, extending, offsetting, scaling, padded updates, subsampling, joining, inside-box queries, normal estimation),
  the list, packed and padded views of points, normals and features and the indices between them describe exactly the clouds that the operations would produce individually.
  Operations not in-place leave the source unchanged.""",
  "histories inputs", "operation sequences x batch contents x cache states",
  "The caches are lazily computed and updated per operation; tests exercise each method alone from a fresh object.",
  "structures/pointclouds.py structures/utils.py",
  [("lazy caches with list/packed/padded forms", "Pointclouds"), ("joining", "join_pointclouds_as_batch, join_pointclouds_as_scene")],
  ["all public accessors after each operation, against a plain list model"])

P("C07", "Conversions between list, packed and padded tensors lose nothing",
  """Converting ragged data between a list of tensors, one packed tensor and one padded tensor, in any direction and for any sizes including zero, preserves every element in order,
  puts exactly the padding value everywhere else, and reports sizes, first-indices and element-to-batch maps that agree with each other.
  Converting there and back is the identity, and gradients flow to exactly the elements kept.""",
  "inputs", "ragged shapes, dtypes, padding values, padded sizes and split specifications",
  "Tests use a few fixed shapes; off-by-one errors appear at empty elements, at explicit pad sizes and at equal lengths.",
  "structures/utils.py ops/packed_to_padded.py csrc/packed_to_padded_tensor/packed_to_padded_tensor_cpu.cpp ops/utils.py",
  [("list/packed/padded conversion", "pytorch3d/structures/utils.py"), ("native packed/padded copy", "PackedToPaddedCpu")],
  ["outputs against an explicit Python loop"])

P("C08", "Mesh textures stay attached to their own mesh",
  """Whatever is done to a batch of textured meshes - indexing, splitting, extending, cloning, joining into a batch or a scene, submeshing, or sampling - each face keeps sampling exactly the colour it
  sampled before, for vertex colours, UV maps and per-face atlases alike, whether the texture was given as list or padded tensor.
  Textures that cannot belong to a mesh (wrong counts or batch size) are rejected.""",
  "histories inputs", "texture kinds x operation sequences x map sizes x per-mesh sizes",
  "Packing several UV maps into one, adjusting UV coordinates and per-mesh offsets are checked by tests on a handful of fixed maps.",
  "renderer/mesh/textures.py structures/meshes.py renderer/mesh/utils.py",
  [("UV map packing and coordinate rewriting", "TexturesUV.join_scene, pack_unique_rectangles"), ("per-operation texture handling", "TexturesBase subclasses")],
  ["colours sampled at random faces and barycentric positions before and after"])

P("C09", "Volume grids map voxels to world coordinates consistently",
  """For every batch of volumes, with any per-volume grid sizes, voxel sizes, centres and alignment convention, world-to-local and local-to-world coordinate conversion are inverse to each other,
  the coordinate grid gives the world position at which sampling the volume returns exactly that voxel, and indexing, cloning and updating padded data keep each volume's data and geometry.""",
  "inputs configurations histories", "grid sizes x voxel sizes x centres x corner alignment x operations",
  "Tests check a few cubic grids; conventions (axis order, half-voxel offsets, single-voxel axes) only show for unequal sizes.",
  "structures/volumes.py",
  [("grid to world transform", "VolumeLocator"), ("coordinate grids", "VolumeLocator.get_coord_grid")],
  ["coordinates and samples read back through grid sampling"])

P("C10", "Rotation representations convert into each other without changing the rotation",
  """Converting a rotation between matrices, quaternions, axis-angle, Euler angles in every convention and the 6D form, in single or double precision and any batch
  shape, always yields the same rotation (away from the gimbal-lock singularity for Euler angles), with unit quaternions and proper orthogonal matrices.
  This holds at and near the identity, half turns and other degenerate angles, each element being treated independently of the others in its batch, and quaternion algebra agrees with matrix
  algebra.
  Gradients of the conversions are finite at every generic rotation and correct.""",
  "inputs", "all rotations incl. tiny, zero, near-pi and pi angles x conventions x batch shapes x dtypes",
  "Tests sample generic rotations; the code branches on small angles and on which quaternion component dominates.",
  "transforms/rotation_conversions.py",
  [("numerically safe quaternion branches", "matrix_to_quaternion"), ("Taylor expansions", "axis_angle_to_matrix, quaternion_to_axis_angle")],
  ["matrices compared to float64 Rodrigues formula"])

P("C11", "SO(3)/SE(3) exponential and logarithm agree with the matrix exponential",
  """The exponential maps of 3-vectors and 6-vectors equal the matrix exponential of their generators (in the library's row-vector convention), the logarithms invert them for
  rotation angles below pi, and relative rotation angles equal the true geodesic angle, for every angle from zero to pi and every translation scale.
  Inputs that are not rotations or rigid transforms are rejected, and gradients stay finite and correct, including at the identity.""",
  "inputs", "so(3)/se(3) vectors incl. zero, tiny, near-pi x translation scales x dtypes",
  "Tests use random generic vectors; the small-angle and near-pi branches are reached by single hand-picked values.",
  "transforms/so3.py transforms/se3.py transforms/math.py",
  [("clamped closed forms", "so3_exp_map, se3_exp_map"), ("linear extrapolation of acos", "acos_linear_extrapolation")],
  ["results compared to torch.linalg.matrix_exp in float64"])

P("C12", "Transforms obey the algebra of 4x4 matrices",
  """Applying a composed transform equals applying its parts in order; the inverse undoes the transform; stacking, indexing, cloning and converting keep each element's matrix; points are transformed
  with the homogeneous row-vector rule and normals with the inverse transpose, with batch sizes one and N broadcasting.
  Translation, scaling, rotation and axis-angle transforms equal their textbook matrices, and arguments that are not valid are rejected.""",
  "inputs histories", "transform chains x batch sizes x broadcasting x dtypes",
  "Tests compose two or three fixed transforms; laziness (composition and inversion are deferred) makes the result depend on the operation history.",
  "transforms/transform3d.py",
  [("deferred composition list", "Transform3d.compose, get_matrix, inverse")],
  ["points and matrices against explicit float64 matrix products"],
  [("_transforms", "pending composed transforms", "pytorch3d/transforms/transform3d.py")])

P("C13", "Cameras project by their published model and unprojection inverts it",
  """For every camera model (field-of-view and intrinsics based perspective and orthographic, fisheye) and every valid parameter set, the
  projection to NDC and to screen coordinates equals the documented camera equation, NDC and screen coordinates are related by the documented
  conventions for square and non-square images, and unprojecting a projected point with its depth returns the point, in world or camera frame.
  Batches of cameras treat each camera independently, with parameters broadcast from size one.""",
  "inputs configurations", "camera models x parameters x image aspect x in_ndc x batch sizes",
  "Conventions interact (aspect ratio, NDC vs screen, scaled depth, batched and scalar parameters); tests check one or two combinations each.",
  "renderer/cameras.py renderer/fisheyecameras.py renderer/utils.py",
  [("projection matrices", "cameras.get_projection_transform"), ("NDC/screen conversions", "get_ndc_to_screen_transform, get_screen_to_ndc_transform"), ("unprojection", "unproject_points")],
  ["projected and unprojected points against an independent float64 pinhole model"])

P("C14", "Camera constructors and format conversions preserve the camera",
  """Look-at construction yields a proper rotation and translation that puts the camera at the requested position looking at the requested point with the requested up direction; converting a
  camera to and from other conventions (OpenCV, Pulsar) projects every world point to the same pixel; joining, indexing and cloning a batch of cameras keep each
  camera's parameters.
  This holds for all valid azimuths, elevations, distances, image sizes and batch shapes.""",
  "inputs configurations", "viewpoints x conventions x image sizes x batch shapes",
  "Tests check a few hand-computed viewpoints and one camera per conversion.",
  "renderer/cameras.py renderer/camera_conversions.py renderer/camera_utils.py utils/camera_conversions.py renderer/utils.py",
  [("look-at frames", "look_at_view_transform"), ("conversion formulas", "renderer/camera_conversions.py"), ("tensor-property indexing", "TensorProperties.__getitem__, join_cameras_as_batch")],
  ["positions, axes and pixel positions of random points in both conventions"])

P("C15", "The mesh rasterizer reports exactly the K nearest faces covering each pixel",
  """For every mesh batch, image size (square or not), blur radius, number of faces per pixel, perspective correction, barycentric clipping and back-face culling setting, each pixel lists the
  up to K closest faces among those whose (blurred) projection covers the pixel centre and that lie in front of the camera, in order of depth, with the correct depth, barycentric coordinates and signed squared
  distance, and -1 elsewhere.
  Faces of one mesh never show in another image of the batch, and degenerate faces are never reported.""",
  "inputs configurations", "meshes x image sizes x settings",
  "Expected images in tests are few and small; edge rules, ties of K, non-square scaling and culling interact.",
  "renderer/mesh/rasterize_meshes.py renderer/mesh/rasterizer.py csrc/rasterize_meshes/rasterize_meshes_cpu.cpp csrc/utils/geometry_utils.h",
  [("per-pixel loop and priority queue", "RasterizeMeshesNaiveCpu"), ("settings and camera handling", "MeshRasterizer")],
  ["fragments against a float64 brute-force evaluation of all faces at all pixels"])

P("C16", "Clipping faces at the near plane keeps the visible part unchanged",
  """When faces that cross the z-clipping plane are cut, or faces outside the frustum are removed, every pixel shows the part of the original faces in front of the plane and nothing behind it: face
  indices refer to the original faces, and barycentric coordinates and depth are those of the original face at that pixel.
  This holds for every configuration of vertices relative to the plane and in every batch position, and when nothing crosses the plane the result equals that without clipping.""",
  "inputs configurations", "vertex/plane configurations x batch positions x perspective correction",
  "Clipping splits faces and remaps indices and barycentrics; tests cover a couple of single-triangle cases.",
  "renderer/mesh/clip.py renderer/mesh/rasterize_meshes.py renderer/mesh/rasterizer.py",
  [("face splitting and index remapping", "clip_faces"), ("un-clipping fragments", "convert_clipped_rasterization_to_original_faces")],
  ["fragments against per-pixel ray casting of the unclipped faces"])

P("C17", "Point rasterization and compositing follow their definitions",
  """The point rasterizer lists, per pixel, the up to K nearest points in front of the camera whose disc of the given radius (scalar or per point) covers the pixel centre, in depth order with correct depth and
  squared distance.
  Alpha compositing, weighted sums and normalized weighted sums of point features equal their formulas, skip missing points and treat every pixel and batch element independently.""",
  "inputs configurations", "clouds x radii x K x image sizes x compositors",
  "Tests compare on one random cloud with fixed settings.",
  "renderer/points/rasterize_points.py renderer/points/rasterizer.py renderer/points/compositor.py renderer/compositing.py csrc/rasterize_points/rasterize_points_cpu.cpp csrc/compositing",
  [("per-pixel loop and priority queue", "RasterizePointsNaiveCpu"), ("accumulation kernels", "pytorch3d/csrc/compositing")],
  ["outputs against float64 brute force"])

P("C18", "Blending mesh fragments follows the published formulas",
  """Hard, sigmoid-alpha and softmax blending of rasterized fragments produce, at every pixel, the documented combination of fragment colours, opacity from signed distances, depth weights and background: pixels
  without fragments show exactly the background with zero alpha, colours are convex combinations of fragment colours and background, and empty fragment slots have no influence.
  This holds for every blend setting, including extreme sigma and gamma, without overflow or NaN.""",
  "inputs configurations", "fragments x blend parameters x cameras' znear/zfar x backgrounds",
  "Tests compare one random fragment tensor with default parameters.",
  "renderer/blending.py csrc/blending/sigmoid_alpha_blend_cpu.cpp renderer/mesh/shader.py renderer/splatter_blend.py",
  [("softmax weights with max subtraction", "softmax_rgb_blend"), ("native product", "sigmoid_alpha_blend")],
  ["images against a float64 loop over fragments"])

P("C19", "Interpolation and texture sampling use the attributes of the hit face",
  """At every pixel covered by a face, interpolated vertex attributes equal the barycentric combination of that face's three vertex attributes, vertex colours, UV and atlas textures return the texel documented for that face and
  barycentric position (all sampling and padding modes), and interpolated attributes, vertex colours and atlas texels are zero at uncovered pixels.
  Values depend only on the hit face's own mesh, for all batch compositions.""",
  "inputs configurations", "fragments x attributes x texture maps x sampling modes",
  "Tests use a fixed fragment tensor and a few texture maps.",
  "ops/interp_face_attrs.py renderer/mesh/textures.py csrc/interp_face_attrs renderer/mesh/utils.py",
  [("interpolation", "interpolate_face_attributes"), ("texture lookups", "TexturesUV.sample_textures, TexturesAtlas.sample_textures")],
  ["samples against a float64 loop"])

P("C20", "Shading obeys the Phong model for every light, material and camera",
  """Ambient, diffuse and specular terms of point and directional lights equal the Phong equations for every normal, view and light direction (zero for surfaces facing away, unaffected by normal or
  direction length), and the Phong, Gouraud and flat shaders combine them with texture colours per pixel as documented, using each batch element's own light, material and camera.""",
  "inputs configurations", "lights x materials x cameras x geometry x batch broadcasting",
  "Tests check particular angles and one light per batch; broadcasting of per-element properties is hardly tested.",
  "renderer/lighting.py renderer/mesh/shading.py renderer/mesh/shader.py renderer/materials.py renderer/utils.py",
  [("diffuse and specular", "renderer/lighting.py"), ("per-pixel application", "renderer/mesh/shading.py")],
  ["shaded colours against a float64 per-pixel evaluation"])

P("C21", "Rays pass through the pixels they stand for",
  """Every ray sampler returns rays whose origin is the camera centre (or the orthographic image point) and that project back, at every depth between the requested bounds, to exactly the image position reported with the ray; grid samplers
  cover the whole image in order with pixel-centre convention, Monte-Carlo samplers stay in the requested range, masks are respected, and
  stratified depths stay in their own interval.
  Bundles built from packed, heterogeneous or mini-batch options describe the same rays as the plain grid.""",
  "inputs configurations", "samplers x camera models x image sizes x options",
  "Tests check a few cameras; conventions differ between NDC, non-square images and packed bundles.",
  "renderer/implicit/raysampling.py renderer/implicit/utils.py",
  [("unprojection of pixel grids", "_xy_to_ray_bundle"), ("mask and packed sampling", "MultinomialRaysampler")],
  ["projections of ray points against the reported image coordinates"])

P("C22", "Ray marching and importance sampling follow the emission-absorption and PDF laws",
  """Emission-absorption and absorption-only marching return exactly the transmittance-weighted composition of features and opacity along each ray, with weights between zero and one and never above one in sum, for any densities including exactly zero and one.
  Samples drawn from a piecewise-constant density lie inside its bins, are monotone in the underlying uniform numbers, reproduce the inverse cumulative distribution, and the native and Python samplers agree.""",
  "inputs configurations", "densities x features x ray shapes x bins x weights x determinism",
  "Tests use smooth random densities and one batch shape.",
  "renderer/implicit/raymarching.py renderer/implicit/sample_pdf.py csrc/sample_pdf/sample_pdf_cpu.cpp renderer/implicit/renderer.py",
  [("shifted cumulative product", "EmissionAbsorptionRaymarcher"), ("inverse CDF search", "sample_pdf")],
  ["outputs against float64 loops; distribution statistics"])

P("C23", "Neighbour searches return the true neighbours within valid points only",
  """K-nearest-neighbour search returns, for each valid query, the K smallest distances (L1 or squared L2) to valid target points in ascending order with indices attaining them; ball query returns only points within the radius, the first ones in index order, padded as
  documented; farthest point sampling selects at each step a point with the largest distance to those already selected, within the first valid points only.
  Padding beyond each cloud's length never influences a result, for any batch of lengths and any K; and the gradients of the distances and of the gathered values are those of the pairs that were returned, with none for padding.""",
  "inputs configurations", "clouds x lengths x K x norms x dims x versions",
  "Tests use random clouds with generous lengths; ties, K beyond the length, zero lengths and duplicates are the risky region.",
  "ops/knn.py ops/ball_query.py ops/sample_farthest_points.py csrc/knn/knn_cpu.cpp csrc/ball_query/ball_query_cpu.cpp csrc/sample_farthest_points/sample_farthest_points_cpu.cpp ops/utils.py",
  [("bounded priority queue", "KNearestNeighborIdxCpu"), ("first-K scan", "BallQueryCpu"), ("greedy selection", "FarthestPointSamplingCpu")],
  ["outputs against float64 brute force"])

P("C24", "Point-to-surface distances and chamfer loss are the true distances",
  """Point-to-face, face-to-point, point-to-edge and edge-to-point losses equal the mean of true minimal squared Euclidean distances between the geometric primitives of the same batch element, and
  chamfer distance equals the directed or bidirectional mean, sum or max of nearest-neighbour distances (and normal deviation) with the given weights and reductions.
  Elements never match across different batch items, padding never contributes, and gradients are those of the matched pairs.""",
  "inputs configurations", "meshes x clouds x lengths x reductions x norms x weights",
  "Degenerate triangles, projections on edges and corners, and combinations of reductions and weights are sparsely sampled by tests.",
  "loss/chamfer.py loss/point_mesh_distance.py csrc/point_mesh/point_mesh_cpu.cpp csrc/utils/geometry_utils.h",
  [("closest point on triangle", "PointTriangle3DistanceForward"), ("first-index bookkeeping per batch", "point_mesh_cpu.cpp"), ("weighted reductions", "chamfer_distance")],
  ["losses against a float64 brute force"])

P("C25", "Mesh geometry quantities equal their geometric definitions",
  """Face areas, face and vertex normals, edge lists, Laplacian matrices (uniform, cotangent, norm), edge-length, normal-consistency and smoothing losses and graph convolution equal their mathematical definitions on every mesh of a batch, including
  non-manifold, open and degenerate meshes and empty batch items, and do not depend on how meshes are grouped in batches. The built-in icosphere and torus have every vertex on their surface and one closed, consistently oriented set of faces.""",
  "inputs", "meshes incl. open, non-manifold, degenerate, mixed batch sizes",
  "Tests use a few regular meshes; shared edges with more than two faces, repeated faces and degenerate faces are the risky region.",
  "structures/meshes.py ops/mesh_face_areas_normals.py ops/laplacian_matrices.py ops/graph_conv.py loss/mesh_edge_loss.py loss/mesh_laplacian_smoothing.py loss/mesh_normal_consistency.py csrc/face_areas_normals csrc/mesh_normal_consistency/mesh_normal_consistency_cpu.cpp",
  [("edge uniquing", "Meshes._compute_edges_packed"), ("pairs of faces per edge", "MeshNormalConsistencyFindVerticesCpu")],
  ["values against float64 per-face loops"])

P("C26", "Isosurface extraction separates inside from outside",
  """Marching cubes returns, for every scalar grid and threshold, a surface whose vertices lie on grid edges that cross the threshold at the interpolated position, that
  is watertight away from the grid boundary, and that separates samples above the threshold from those below; cubifying an occupancy grid returns exactly the
  boundary faces between occupied and empty cells.
  The native and the pure Python version produce the same surface, in grid or normalized coordinates, for every grid size and batch.""",
  "inputs configurations", "scalar fields x isolevels x grid sizes x coordinate options",
  "Tests enumerate the single-cube cases and a few analytic shapes; neighbouring-cube consistency on arbitrary fields is not tested.",
  "ops/marching_cubes.py ops/marching_cubes_data.py ops/cubify.py csrc/marching_cubes/marching_cubes_cpu.cpp",
  [("edge tables and vertex sharing", "marching_cubes_cpu.cpp, marching_cubes_naive"), ("face masks and vertex merging", "cubify")],
  ["edge manifoldness, crossing positions and inside/outside signs of the produced meshes"])

P("C27", "Intersection over union of 3D boxes is exact",
  """For all pairs of valid oriented boxes, the reported intersection volume and IoU equal the true values - zero for disjoint boxes, the full volume for identical ones - are symmetric, lie in
  [0, 1], and are invariant to rigid motion, uniform scale (for IoU) and valid corner re-labelling.
  Non-coplanar or degenerate boxes are rejected.""",
  "inputs", "pairs of oriented boxes incl. touching, nested, identical and coplanar-face configurations",
  "Tests use a few recorded pairs; clipping degenerate configurations is input-dependent.",
  "ops/iou_box3d.py csrc/iou_box3d/iou_box3d_cpu.cpp csrc/iou_box3d/iou_utils.h",
  [("triangle clipping by planes", "IoUBox3DCpu")],
  ["volumes against exact convex polytope intersection in float64"])

P("C28", "Alignment solvers recover the transformation that generated the data",
  """Given noiseless correspondences, the similarity alignment, iterative closest point (from a nearby start), perspective-n-points and camera alignment
  recover the generating rotation, translation and scale; with noise or weights the similarity alignment attains the weighted least-squares optimum.
  Rotations returned are proper (unless reflections are allowed), and each batch element with its own number of points is solved independently.""",
  "inputs configurations", "point sets x transforms x weights x options x batch sizes",
  "Tests use one random configuration per option; reflections, planar sets, weights and ragged batches interact.",
  "ops/points_alignment.py ops/perspective_n_points.py ops/cameras_alignment.py common/workaround/symeig3x3.py",
  [("Umeyama SVD solution", "corresponding_points_alignment"), ("null space solution", "efficient_pnp")],
  ["recovered parameters and residuals against the generator and perturbations"])

P("C29", "Splatting points into volumes conserves mass and is linear in features",
  """Adding points with features to a volume deposits, in nearest or trilinear mode, exactly the documented weights on the voxels around each point: total density equals the
  number (weight) of in-range points, features accumulate accordingly, points outside and masked-out points deposit nothing beyond the clipped part, and the result is independent of point order.
  The native and Python paths agree, for any grid size per batch element, and gradients match.""",
  "inputs configurations", "points x grids x modes x masks x alignment x rescaling",
  "Tests put points at a few positions in equal grids.",
  "ops/points_to_volumes.py csrc/points_to_volumes/points_to_volumes_cpu.cpp csrc/points_to_volumes/points_to_volumes.h",
  [("trilinear weights", "points_to_volumes_cpu.cpp"), ("python version", "add_points_features_to_volume_densities_features")],
  ["volumes against a float64 loop"])

P("C30", "Sampling, subdividing and smoothing meshes preserve their surface",
  """Points sampled from meshes lie on the surface of their own mesh, uniformly by area, with the normals and texture colours of the face they lie on; subdivision splits each face in four without changing surface or
  features and interpolates vertex attributes; smoothing filters act on each mesh's own neighbourhood only.
  Empty meshes give empty or zero output, and each mesh of a batch is treated independently.""",
  "inputs", "meshes x sample counts x feature sizes x batch mixes",
  "Distributional and per-batch-element guarantees are sampled by tests on spheres and cubes only.",
  "ops/sample_points_from_meshes.py ops/subdivide_meshes.py ops/mesh_filtering.py",
  [("area weighted multinomial", "sample_points_from_meshes"), ("edge midpoints", "SubdivideMeshes"), ("Taubin smoothing", "taubin_smoothing")],
  ["distances of samples to faces, areas, attribute values"])

P("C31", "Writing and reading OBJ files preserves meshes, UVs and materials",
  """Saving any mesh (with optional UVs, texture image and normals) as OBJ and loading it returns the same faces and vertices to the written precision, the same per-face UVs and
  the same texture; the reader interprets every valid OBJ construct (polygons, negative indices, missing attributes, several materials, comments and blank space) as the format defines.
  Loading several files gives a batch whose meshes equal those of the individual files.""",
  "inputs", "meshes x precision x optional attributes; generated OBJ/MTL texts",
  "Tests cover hand-written snippets; index arithmetic for negative, missing and mixed attributes is combinatorial.",
  "io/obj_io.py io/mtl_io.py io/pluggable_formats.py io/pluggable.py",
  [("line parser", "obj_io._parse_obj"), ("material atlas", "mtl_io.make_mesh_texture_atlas")],
  ["loaded tensors against an independent OBJ interpretation"])

P("C32", "Writing and reading PLY and OFF files preserves geometry and attributes",
  """Saving any mesh or point cloud as PLY (ascii or binary, any byte order, colours as float or bytes, with or without normals) or OFF and loading it returns
  the same data to the written precision, and the readers interpret every valid header (other properties, orders, types and elements; polygons) as the format defines.""",
  "inputs configurations", "meshes and clouds x encodings x header layouts",
  "The reader has several fast and slow paths chosen by header layout; tests check hand-written files.",
  "io/ply_io.py io/off_io.py io/pluggable.py",
  [("fast and slow element readers", "ply_io._read_ply_element_*"), ("colour scaling", "ply_io, off_io")],
  ["loaded tensors against generated content written by an independent encoder"])

P("C33", "Writing and reading glTF binary files preserves meshes",
  """Saving a mesh (with optional vertex colours or a UV texture) as binary glTF and loading it returns the same vertices, faces, and texture; the
  reader applies node transforms and accessors of any component type, stride and offset as the format defines, joining or separating several primitives.""",
  "inputs configurations", "meshes x accessor encodings x node hierarchies",
  "One test file and one round trip exist.",
  "io/experimental_gltf_io.py io/pluggable.py",
  [("accessor decoding", "_GLTFLoader._get_access_data"), ("node transforms", "_GLTFLoader")],
  ["loaded tensors against content written by an independent encoder"])

P("C34", "Malformed files are rejected with an error, never misread silently or crash",
  """Files whose declared counts, indices or encodings do not match their content (truncated, corrupted headers, non-numeric tokens, wrong counts) make every loader raise an exception within
  bounded time; they never crash the interpreter, hang, or return more or other elements than the file contains.
  Face indices that are out of range are reported by a warning or an error.""",
  "inputs", "mutated files of every supported format",
  "Tests include a dozen malformed snippets; truncation at every byte is not tested.",
  "io/obj_io.py io/ply_io.py io/off_io.py io/experimental_gltf_io.py",
  [("explicit validation", "obj_io, ply_io, off_io")],
  ["outcome of loading each truncated or mutated file"])

P("C35", "The configuration system builds exactly what the configuration says",
  """For every tree of configurable classes (nested, pluggable and optional members, inheritance, tweaks), the default arguments describe a structured configuration that can be merged with overrides and from which the object is
  built with exactly those values; unselected implementations are ignored, unknown keys and unregistered implementations are rejected.
  Defaults are never shared between instances, and building from arguments or from configuration is equivalent.""",
  "programs configurations", "class hierarchies x override trees",
  "Tests declare one hierarchy at a time; the class processing is generic metaprogramming.",
  "implicitron/tools/config.py",
  [("class processing and creation functions", "expand_args_fields, run_auto_creation, get_default_args"), ("registry", "_Registry")],
  ["constructed object trees against an independent interpretation of the declaration and overrides"])

P("C36", "Frame datasets return exactly the annotated frames they were asked for",
  """Datasets built on JSON or SQL annotations expose exactly the frames selected by the given categories, sequences, subsets, limits and filters, in a stable order; indexing by position or by (sequence, frame) returns that frame's own annotation and files; sequence/frame iteration lists each frame exactly once.
  Annotation records survive serialization to JSON and back unchanged.""",
  "inputs configurations", "annotation tables x filter combinations x index forms",
  "Filters interact (subsets, limits, missing masks, sequences); tests check few combinations on one small table.",
  "implicitron/dataset/json_index_dataset.py implicitron/dataset/sql_dataset.py implicitron/dataset/dataset_base.py implicitron/dataset/types.py implicitron/dataset/orm_types.py",
  [("filter pipeline", "JsonIndexDataset._filter_db"), ("query construction", "SqlIndexDataset._get_filtered"), ("dataclass codec", "types.dump_dataclass, load_dataclass")],
  ["returned frames against a plain Python filter over the generated tables"])

P("C37", "Batch samplers produce valid batches of the requested composition",
  """Scene batch samplers yield the requested number of batches, each with the requested number of distinct sequences and images per sequence (without repetition when the sequence is large
  enough), all indices valid and belonging to the chosen sequence, consecutive when requested; data-loader construction yields each evaluation batch exactly once.""",
  "inputs configurations histories", "datasets x batch sizes x images-per-sequence options x random states",
  "Tests check a single toy dataset.",
  "implicitron/dataset/scene_batch_sampler.py implicitron/dataset/data_loader_map_provider.py implicitron/dataset/utils.py",
  [("sequence and frame draws", "SceneBatchSampler._sample_batch"), ("conditioned batch sampling", "DoublePoolBatchSampler")],
  ["all yielded batches against the dataset's sequence table"])

P("C38", "Cropping, resizing and collating frames keeps pixels and camera aligned",
  """After any crop around the mask box, padding, resize or clamping of a frame, the camera of the frame projects every world point to the pixel where that point appears in the processed image, depth and
  masks stay aligned with the image, and collation stacks each frame's own data.
  Bounding-box computations agree with the mask and are valid for every mask.""",
  "inputs configurations", "image sizes x masks x crop contexts x target sizes x cameras",
  "Tests check one frame; non-square crops at image borders and rescaling rules are combinatorial.",
  "implicitron/dataset/frame_data.py implicitron/dataset/utils.py",
  [("camera adjustment", "FrameData.adjust_camera_to_bbox_crop_, adjust_camera_to_image_scale_"), ("box arithmetic", "implicitron/dataset/utils.py")],
  ["pixel position of marked points before and after processing"])

P("C39", "Training state survives a checkpoint and resume",
  """Interrupting training after any epoch and resuming from the stored checkpoint restores the model, optimizer, statistics and epoch exactly as they were saved, picks the newest (or the requested) checkpoint, and
  purges only the checkpoints it should.
  Running statistics equal the averages of the logged values, and learning-rate schedules continue where they stopped.""",
  "histories crash_points", "training histories x interruption epochs x checkpoint options",
  "Tests save and load once.",
  "implicitron/tools/model_io.py implicitron/tools/stats.py projects/implicitron_trainer/impl/model_factory.py projects/implicitron_trainer/impl/optimizer_factory.py",
  [("checkpoint naming and lookup", "model_io"), ("running averages", "stats.Stats"), ("resume", "optimizer_factory, model_factory")],
  ["states reloaded after simulated interruptions"])

P("C40", "Implicit rendering components compose as documented",
  """Implicit-function ray samplers, point refiners and multi-pass renderers produce per-ray depths that are sorted, inside the near and far bounds and include the requested
  points, masks select rays inside the mask, scene-centred sampling bounds surround the scene, and rendered colour, depth and mask equal the composition law for the evaluation's density function.
  Chunked rendering gives the same output as rendering at once.""",
  "inputs configurations", "sampler and renderer options x cameras x chunk sizes",
  "Tests check shapes and isolated functions.",
  "implicitron/models/renderer/ray_sampler.py implicitron/models/renderer/ray_point_refiner.py implicitron/models/renderer/multipass_ea.py implicitron/models/renderer/raymarcher.py implicitron/models/utils.py",
  [("bounds and sampling", "AbstractMaskRaySampler"), ("refinement", "RayPointRefiner"), ("accumulation", "AccumulativeRaymarcherBase")],
  ["bundles and renders against float64 loops"])

P("C41", "Voxel grids interpolate, crop and resize without changing the field",
  """Full, CP and VM voxel grids evaluate at every point to the interpolation of their (factored) values with the configured alignment and padding; resizing to a finer aligned grid, cropping to a box and reloading from a state dict preserve the
  field wherever it is still represented, for arbitrary resolutions, centres and extents. Reported voxel centres are the world positions of the voxels. Scaffolds mark exactly the neighbourhoods of occupied voxels whatever the chunk size:
  empty space renders as empty and everything else is unchanged. Implicit functions asked to work in camera coordinates treat every view of a batch by its own camera.""",
  "inputs configurations histories", "grid types x resolutions x extents x crop boxes x resize sequences x scaffold options x camera batches",
  "Tests check cubic grids at a few points.",
  "implicitron/models/implicit_function/voxel_grid.py implicitron/models/implicit_function/voxel_grid_implicit_function.py implicitron/models/implicit_function/utils.py implicitron/models/implicit_function/neural_radiance_field.py implicitron/models/implicit_function/scene_representation_networks.py",
  [("interpolation of factor grids", "voxel_grid.py"), ("resizing and cropping", "VoxelGridModule")],
  ["field values against a float64 dense interpolation"])

P("C42", "Evaluation metrics equal their definitions",
  """Image, depth and mask metrics (PSNR, RGB and depth errors with masks and crops, IoU, Huber, calculated losses) equal their mathematical definitions with masked-out and
  padding pixels having no influence, are per-frame independent, the same for packed rays as for the equivalent sampled pixels, and aggregation over evaluation batches and subsets equals the mean over their batches; evaluating a model hides exactly the target view from it.""",
  "inputs configurations", "images x masks x options x ray layouts x batch splits x subsets",
  "Tests check trivial inputs.",
  "implicitron/tools/metric_utils.py implicitron/tools/image_utils.py implicitron/models/metrics.py implicitron/evaluation/evaluate_new_view_synthesis.py implicitron/evaluation/evaluator.py",
  [("masked reductions", "metric_utils"), ("metric modules", "metrics.py")],
  ["metrics against float64 loops"])

P("C43", "View pooling samples each source view at the projection of the target point",
  """Sampling image features for 3D points projects each point into each source camera of the same sequence and reads the feature there with the configured interpolation (zero outside the image, and zero features and masks for other sequences), and the aggregators
  reduce only over valid views with the documented reductions and ray-angle weights, independent of the content of invalid views and of view order, with the announced feature dimension.
  Vertex alignment reads, for every vertex of tensors, meshes and point clouds, the feature maps at its own position, packed or padded.""",
  "inputs configurations", "cameras x feature maps x masks x aggregators x source view orders x vertex containers",
  "Tests check one configuration.",
  "implicitron/models/view_pooler/view_sampler.py implicitron/models/view_pooler/feature_aggregator.py implicitron/models/view_pooler/view_pooler.py ops/vert_align.py",
  [("projection and grid sampling", "project_points_and_sample"), ("weighted reductions", "feature_aggregator.py")],
  ["features against a per-view loop"])

P("C44", "Processing a batch equals processing its elements one by one",
  """For every operator, renderer and loss taking a batch, the result for one element is the same, up to rounding, whatever other elements share the batch, their order, sizes or number,
  and permuting the batch permutes the results.""",
  "inputs", "batched operators x batch mixes x permutations",
  "Tests compare batched calls with one expected output; the interaction of ragged sizes in one batch is sampled once or twice.",
  "ops renderer structures loss csrc",
  [("first-index and lengths bookkeeping", "all batched operators")],
  ["outputs of the batch against outputs of singletons"])

P("C45", "The sphere renderer agrees with its published blending model",
  """The unified sphere renderer's CPU path draws each sphere at its projected position and size, blends nearest spheres in depth order with the documented weights, is independent of sphere order up to
  rounding, shows the background elsewhere, and behaves the same through the native and the drop-in interface.""",
  "inputs configurations", "spheres x cameras x gamma x backgrounds",
  "Tests compare to stored images of a few scenes.",
  "renderer/points/pulsar/renderer.py renderer/points/pulsar/unified.py csrc/pulsar",
  [("sphere rendering kernel", "pytorch3d/csrc/pulsar/include/renderer.render.device.h")],
  ["images against ray-sphere intersection"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in OUT:
            f.write(json.dumps(p) + "\n")
    print(len(OUT))
