import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,title
    P.append(d)
GU='gradslam/geometry/geometryutils.py';PU='gradslam/geometry/projutils.py';SE='gradslam/geometry/se3utils.py'
PC='gradslam/structures/pointclouds.py';RI='gradslam/structures/rgbdimages.py';SU='gradslam/structures/structutils.py';UT='gradslam/structures/utils.py'
IU='gradslam/odometry/icputils.py';FU='gradslam/slam/fusionutils.py';IS='gradslam/slam/icpslam.py';PF='gradslam/slam/pointfusion.py'
DU='gradslam/datasets/datautils.py';TU='gradslam/datasets/tumutils.py';CF='gradslam/config/cfgnode.py'

p('G01','Homogeneous coordinates convert losslessly',
 'Converting points to homogeneous form appends one coordinate equal to 1 and leaves the other coordinates, the batch shape and the dtype unchanged, for points of any dimension and any number of leading batch dimensions. Converting back divides by the last coordinate wherever its magnitude exceeds the threshold and returns the remaining coordinates undivided elsewhere, so converting there and back is the identity.',
 ['inputs'],'every tensor of points: every leading batch shape, every coordinate dimension, every real value of every coordinate, every threshold',
 'tests check a few fixed shapes with random positive values; nothing pins the behaviour near and below the threshold, for negative last coordinates, or for every rank',
 [GU,PU],[('homogenize_points',PU),('unhomogenize_points',PU),('homogenize_points',GU),('unhomogenize_points',GU)])
p('G02','Projection applies the pinhole model per point and per camera',
 'Projecting camera-frame points (3-D or already homogeneous) with a 4x4 camera matrix yields, for every point independently, the first two coordinates of the matrix-vector product divided by the third, using the matrix of that point\'s own batch element. Where the third coordinate is exactly 0 the first two are returned undivided; the inputs are not modified.',
 ['inputs'],'every batch rank and size, every number of points, every real camera matrix (shared or one per batch element) and every point',
 'tests use a handful of shapes with identity-like or random cameras and positive depths; a wrong batch broadcast, sign or the zero-depth branch on a single point is not sampled',
 [PU,GU],[('project_points',PU),('cam2pixel / cam2pixel_KF / transform_pts_nd_KF',GU)])
p('G03','Unprojection, inverse intrinsics and projection agree',
 'The closed-form inverse of a zero-skew pinhole intrinsics matrix, times that matrix, is the identity up to the documented epsilon added to the focal lengths, for 3x3 and 4x4 matrices in any batch. Unprojecting a pixel with depth d returns d times the inverse intrinsics applied to the homogeneous pixel, with each point using its own batch element\'s matrix and depth, so projecting the unprojected point with the same camera returns the pixel whenever d is not 0.',
 ['inputs'],'every zero-skew intrinsics matrix with focal lengths away from -eps, every pixel, every non-zero depth, every batch rank and size',
 'tests compare a few sampled matrices with torch.inverse at a loose tolerance and one round trip; batched, negative focal length (ICL) and 3x3 cases are not all sampled',
 [PU],[('inverse_intrinsics',PU),('unproject_points',PU),('project_points',PU)])
p('G04','The SE(3) exponential returns rigid transforms',
 'For every twist the exponential map returns a 4x4 matrix with last row (0,0,0,1) and an orthonormal rotation block that fixes the rotation axis and rotates by the norm of the rotation vector (Rodrigues), with translation equal to the left Jacobian times the translational part; below the small-angle threshold it returns the first-order expansion. The hat operators return the skew-symmetric matrix whose product with a vector is the cross product (and the 4x4 twist matrix), without modifying the input.',
 ['inputs'],'every real 6-vector and 3-vector, including arbitrarily large rotations and both sides of the small-angle threshold',
 'tests compare four hand-picked twists; orthonormality over all rotation vectors is a universally quantified algebraic fact',
 [SE],[('so3_hat / se3_hat',SE),('so3_exp / se3_exp',SE)])
p('G05','Rigid-transform helpers form a consistent algebra',
 'Inverting a rigid transform yields its two-sided inverse, composition is the matrix product, and the relative transform of two poses is inverse(first) composed with second, for single and batched 4x4 transforms. Transforming a set of points applies rotation and translation to every point; transforming normals applies only the rotation; inputs are never modified.',
 ['inputs'],'every rigid transform, every batch size, every number of points and normals',
 'tests check one or two random transforms; several of the helpers (batched inverse, composition, normals) are not tested at all',
 [GU],[('inverse_transfom_3d / compose_transforms_3d / relative_transform_3d / relative_transformation',GU),('transform_pointcloud / transform_normals / transform_pts_3d',GU)])
p('G06','Quaternion to rotation conversions agree and give rotations',
 'Every quaternion-to-rotation routine in the library (geometry helper, dataset pose conversion, TUM trajectory conversion) maps a non-zero (x,y,z,w) quaternion, normalised or not, to the same proper rotation matrix, equal for q and -q, and the pose conversions carry the translation unchanged with last row (0,0,0,1). The axis-angle conversion of a unit quaternion yields a vector parallel to its vector part, and no conversion modifies its input.',
 ['inputs'],'every non-zero real quaternion and translation, every leading batch shape, numpy and torch inputs',
 'tests check one identity-like quaternion; scale invariance, orthonormality and agreement between three separate implementations hold over a continuum',
 [GU,DU,TU],[('quaternion_to_rotation_matrix / normalize_quaternion / quaternion_to_axisangle',GU),('pointquaternion_to_homogeneous',DU),('transform44',TU)])
p('G07','Pixel grids and pixel normalisation are exact inverses',
 'A mesh grid of height h and width w holds (row, column) at position (row, column), running 0..h-1 and 0..w-1, or the same positions mapped linearly onto [-1,1]. Normalising pixel coordinates maps 0 to -1 and size-1 to 1 along each axis (first component by the height, second by the width), and un-normalising inverts it for every coordinate.',
 ['inputs'],'every height and width of at least 2, every real coordinate, every leading batch shape',
 'tests check two or three square-ish sizes; axis swaps are invisible on square images and the inverse law is over all reals',
 [GU],[('create_meshgrid',GU),('normalize_pixel_coords / unnormalize_pixel_coords',GU)])
p('S01','List and padded views of a point cloud batch always agree',
 'After any sequence of constructing, reading, assigning list or padded attributes, arithmetic and appending, the list view of points, normals, colors and features equals the padded view restricted to each cloud\'s own number of points, the padding is zero, and the validity mask is true exactly on those points. Assigning one attribute in either form changes only that attribute, in both forms, and keeps a private copy.',
 ['inputs','histories'],'every batch size, every tuple of cloud sizes (equal or not, including empty clouds), every value, every order of accessor calls and setters',
 'tests exercise single operations on two or three fixed batches; staleness of one view appears only after particular accessor/setter orders',
 [PC,SU],[('list/padded properties and setters',PC),('list_to_padded / padded_to_list',SU),('nonpad_mask',PC)],
 state=[('list representation','B tensors of shape (N_b, C)',PC),('padded representation','tensor (B, max N_b, C) plus mask and counts',PC)])
p('S02','Point cloud arithmetic moves real points only',
 'Adding, subtracting, multiplying or dividing by a number or a broadcastable tensor acts on the coordinates of every real point and leaves padding, normals, colors, features and counts unchanged, whichever representation the cloud was built from or currently holds. The operator forms return a new object and leave the operand untouched; the in-place forms modify and return the operand.',
 ['inputs','histories'],'every batch, cloud sizes, offset/scale (scalars and broadcastable tensors), and every prior history of the object',
 'tests cover equal-size tensor-built clouds and one list-built cloud; combinations with uneven sizes and prior rotations or appends are not reached',
 [PC],[('offset_/scale_ and operators',PC),('clone',PC)])
p('S03','Rotating, transforming and projecting clouds follows one convention',
 'Rotating by R with pre-multiplication maps every point p and normal n to R p and R n, and with post-multiplication (also the @ operator) to p R and n R; a 4x4 transform additionally adds its translation to points only, and per-cloud matrices act on their own cloud. Pinhole projection maps each real point to its homogeneous pixel (u, v, 1) under its own camera; padding stays zero and colors, features and counts are unchanged.',
 ['inputs','histories'],'every batch size, cloud sizes, rotation, transform and camera, shared or per cloud, from every prior representation state',
 'tests check single random matrices on fixed batches against the same einsum; per-cloud matrices on uneven batches and chained operations are not covered',
 [PC],[('rotate_/transform_/pinhole_projection_/__matmul__',PC)])
p('S04','Appending clouds concatenates per batch element',
 'Appending one batch of clouds to another makes each element the old points followed by the new points, with normals, colors and features concatenated the same way and the counts, padded views and mask updated accordingly. Appending to an empty object copies the other batch, appending an empty object changes nothing, incompatible attributes or batch sizes raise an error before anything is modified, and the appended object is never modified or aliased.',
 ['inputs','histories'],'every pair of compatible batches with every cloud sizes, starting from every representation state of either operand, and repeated appends',
 'tests append a few fixed batches once; stale cached views appear only after reading between appends',
 [PC],[('append_points',PC)])
p('S05','Indexing a cloud batch selects the requested clouds',
 'Indexing with an integer, slice, list of integers, integer tensor or boolean mask returns a new batch containing exactly the selected clouds in the requested order, with all their attributes. Out-of-range or unsupported indices and indexing an empty object raise an error.',
 ['inputs'],'every batch size, cloud sizes, attribute subset and index of each supported kind, from either representation',
 'tests index two or three fixed batches; attribute/point pairing for arbitrary orders and masks is not settled',
 [PC],[('__getitem__',PC)])
p('S06','Cloning, detaching and moving preserve content, never alias',
 'Cloning a batch of clouds or of RGB-D images yields an object with the same observable content (points, normals, colors, features, counts, masks; images, intrinsics, poses, maps) sharing no memory with the original, and detaching yields the same content with no gradient history. This holds whatever operations were performed on the original beforehand, and mutating the copy in place never changes the original.',
 ['inputs','histories'],'every object state reachable by construction, accessors, setters and in-place operations',
 'tests clone freshly built objects only; a clone taken after an in-place rotation or setter is not covered',
 [PC,RI],[('clone/detach/to',PC),('clone/detach/to',RI)])
p('R01','Vertex maps back-project every valid pixel',
 'For every pixel with positive depth d at row r and column c the local vertex map holds d times the inverse intrinsics of that batch element applied to (c, r, 1), and the global vertex map holds the frame\'s own pose applied to it (or the local vertex when there are no poses). Pixels without positive depth hold zero in both maps.',
 ['inputs'],'every batch, sequence length, height, width, depth image, intrinsics, poses and channel layout',
 'tests compare a few frames with a stored reference; row/column swaps, per-frame pose pairing and invalid-depth masking are only sampled',
 [RI],[('vertex_map/global_vertex_map/valid_depth_mask/pixel_pos',RI)])
p('R02','Normal maps are unit surface normals of the vertex map',
 'At every valid pixel the normal map is the normalised cross product of the horizontal and vertical forward differences of the vertex map, with the last column and row reusing the preceding difference, and is zero where the cross product vanishes or the depth is invalid. The global normal map is the frame\'s own rotation applied to the local normals (or the local normals without poses).',
 ['inputs'],'every batch, sequence length, image size of at least 2x2, depth, intrinsics, poses and channel layout',
 'tests compare a few frames with a stored reference at interior pixels; borders, degenerate patches and the other layout are only sampled',
 [RI],[('normal_map/global_normal_map',RI)])
p('R03','Derived maps never go stale',
 'After assigning the depth image, intrinsics or poses, or converting the channel layout, every derived map (valid-depth mask, local and global vertex and normal maps) read afterwards equals the map of a freshly built object holding the current images, intrinsics and poses. Reading a map never changes any other observable value.',
 ['inputs','histories'],'every sequence of accessor reads, assignments and layout conversions, for every image content and shape',
 'tests assign once on fresh objects; staleness needs a particular read-assign-convert-read order',
 [RI],[('setters and cache invalidation',RI),('to_channels_first_/to_channels_last_',RI)])
p('R04','Slicing an RGB-D batch keeps frames and poses together',
 'Indexing by batch element and/or sequence position (integer or slice) returns exactly the selected frames with their own depth, intrinsics, poses and already computed maps, keeping both leading dimensions. The result equals building an object from the sliced tensors, and out-of-range indices raise an error.',
 ['inputs','histories'],'every batch size, sequence length, image size, index pair and set of already computed maps, in both layouts',
 'tests slice fixed frames without comparing every derived map; mispaired poses or intrinsics need multi-element batches',
 [RI],[('__getitem__',RI)])
p('R05','Channels-first and channels-last are the same data',
 'Converting an RGB-D batch between layouts permutes images and all maps without changing any pixel value, the round trip is the identity, and the copying forms leave the original untouched. Every derived map computed in one layout equals the permutation of the map computed in the other.',
 ['inputs','histories'],'every batch, sequence length and image size, whichever maps were computed before the conversion',
 'tests convert a few fixed frames; equality of every derived map in both layouts over all inputs is not sampled',
 [RI],[('to_channels_first/to_channels_last and layout branches of the map computations',RI)])
p('R06','Frames convert to clouds with exactly the valid pixels',
 'Converting single-frame RGB-D batches to point clouds yields, per batch element, one point per pixel with valid depth in row-major order (or every pixel when filtering is off), each carrying the vertex, normal and color of that same pixel, global or local as requested. The frames are not modified and both channel layouts give the same clouds.',
 ['inputs'],'every batch size, image size, depth validity pattern, pose, layout and option combination',
 'tests (which need an unavailable dependency here) compare totals for one or two frames; point/normal/color pairing for all masks is not sampled',
 [UT],[('pointclouds_from_rgbdimages',UT)])
p('O01','The damped least-squares solver satisfies the normal equations',
 'The linear solver returns x with (A^T A + damp I) x = A^T b for every A, b and damping for which that matrix is invertible, whether damping is a number or a scalar tensor, and does not modify its inputs. Ill-shaped or ill-typed inputs are rejected with an error.',
 ['inputs'],'every number of rows, six (and other small numbers of) unknowns, every real A, b and damping with a nonsingular damped normal matrix',
 'tests solve a couple of random systems; the defining equation is universally quantified',
 [IU],[('solve_linear_system',IU)])
p('O02','The point-to-plane system linearises the right residual',
 'For every source point the least-squares system pairs it with its nearest target point and that target\'s normal n: its residual is n.(target - source), and its row is (n, source x n), the derivative of the residual under a small motion. With a distance threshold exactly the source points whose nearest target is closer than the threshold contribute, in order, and the returned indices are those of the paired targets.',
 ['inputs'],'every number of source and target points, every real coordinate and normal, every threshold including none',
 'tests check output shapes and one synthetic pair; the row formula, ordering and threshold semantics are not pinned',
 [IU],[('gauss_newton_solve',IU)])
p('O03','ICP only accepts steps that reduce the error and stays rigid',
 'Point-to-plane ICP returns a transform composed of the initial one and rigid steps: with a rigid initial guess (identity when omitted) it is rigid, and its point-to-plane error is never larger than that of the initial guess. A step is applied only if it lowers the error (then damping is halved), otherwise nothing but the damping changes (doubled), for any number of iterations; the input clouds are not modified.',
 ['inputs'],'every number of iterations, source/target clouds and normals, initial rigid transform, positive damping and threshold',
 'tests run a few iterations on one cloud pair and check convergence loosely; monotonicity and rigidity for all iteration counts need an inductive invariant',
 [IU],[('point_to_plane_ICP',IU)])
p('O04','Differentiable ICP follows its smooth update rule and stays rigid',
 'The differentiable ICP updates its damping by the generalised-logistic function of the error change, which stays between the reciprocal of the maximum factor and the maximum factor, and applies the step scaled by a weight in (0,1], so that the returned transform stays rigid for a rigid initial guess (identity when omitted). The applied motion, the returned transform and the moved cloud stay consistent for any number of iterations.',
 ['inputs'],'every number of iterations, clouds, normals, rigid initial transform, damping and gain parameters in their documented ranges',
 'tests run one configuration; the bounds on damping and weight and the consistency hold for every parameter and iteration count',
 [IU],[('point_to_plane_gradICP',IU)])
p('O05','Odometry providers pair the right clouds and report the right motion',
 'The ICP providers return, per batch element, the transform aligning that element\'s frame cloud to that element\'s map cloud computed with the provider\'s own settings, shaped (batch,1,4,4). The ground-truth provider returns inverse(first pose) times second pose per batch element; missing normals, missing poses, mismatched batches and wrong types are rejected.',
 ['inputs','configurations'],'every batch size, cloud sizes, poses and provider settings',
 'tests use one or two elements with default settings; argument mix-ups between elements or settings are not visible there',
 ['gradslam/odometry/icp.py','gradslam/odometry/gradicp.py','gradslam/odometry/groundtruth.py'],[('ICPOdometryProvider.provide','gradslam/odometry/icp.py'),('GradICPOdometryProvider.provide','gradslam/odometry/gradicp.py'),('GroundTruthOdometryProvider.provide','gradslam/odometry/groundtruth.py')])
p('O06','Downsampling keeps exactly the pixels on the sampling grid',
 'Downsampling frames keeps, in row-major order per batch element, exactly the valid-depth pixels whose row and column are multiples of the ratio, with their global vertices, global normals and colors. Downsampling a map keeps exactly the associated points whose pixel row and column are multiples of the ratio, each attribute taken from the same point of the same batch element.',
 ['inputs'],'every batch size, image size, ratio of at least 1, validity pattern and association table',
 'tests use two ratios on stored frames and compare counts; pairing across attributes and batch elements is not pinned',
 [IU],[('downsample_rgbdimages / downsample_pointclouds',IU)])
p('M01','Active map points are exactly the visible ones, at their pixels',
 'A map point is reported as active exactly when it is a real (non-padding) point that lies strictly in front of the camera and projects inside the image of its own batch element (within the stated sub-pixel margin). It is reported once, with its batch and point index and the row and column of its rounded projection clamped to the image.',
 ['inputs'],'every batch size, cloud sizes, image size, rigid camera pose, intrinsics and map content',
 'tests look at a few synthetic points; behaviour for every position around the image border, behind the camera and for padding is not sampled',
 [FU],[('find_active_map_points',FU)])
p('M02','Association filtering keeps exactly close, similarly oriented pairs',
 'Of the candidate map-point/pixel pairs exactly those are kept, in order, whose map point is closer than the distance threshold to the frame vertex at that pixel and whose normals have dot product above the angular threshold. The returned mask marks the kept candidates, and neither map nor frame is modified.',
 ['inputs'],'every batch, map, frame, candidate table without repeated map points, and thresholds',
 'tests use one synthetic configuration; cross-batch and ordering mistakes are not visible there',
 [FU],[('find_similar_map_points / are_points_close / are_normals_similar',FU)])
p('M03','At most one, the best, map point is matched to each pixel',
 'The final correspondences contain exactly one map point for every pixel that has any candidate and none for other pixels. The chosen candidate is the one with the highest confidence, ties broken by smallest distance to the frame vertex and then by lowest index.',
 ['inputs'],'every candidate table, confidences, map and frame content, batch size',
 'tests use one small table; uniqueness and optimality over arbitrary tables and ties need a proof over sorted order',
 [FU],[('find_best_unique_correspondences / find_correspondences',FU)])
p('M04','Fusion is a confidence-weighted average plus append',
 'Fusing a frame replaces every matched map point\'s position, normal and color by the average of old and frame values weighted by old confidence and the frame confidence, which is the Gaussian of the vertex distance clamped to its stated range, and adds that confidence; unmatched map points keep their values. Every valid-depth pixel that was not matched is appended exactly once with its own vertex, normal, color and confidence, and nothing else is added.',
 ['inputs'],'every map, frame, unique correspondence table, sigma and batch size, including empty maps and empty tables',
 'tests cover one tiny map; weights, pairing and the append set must hold for all inputs',
 [FU],[('fuse_with_map / get_alpha / update_map_fusion',FU)])
p('M05','Map updates leave their inputs alone unless asked otherwise',
 'With in-place updating off, neither the input map nor any tensor it holds changes when a frame is localised, associated, fused or aggregated, and the returned map shares no memory with it; with it on, the input map object itself is updated and returned with the same result. Apart from the frame\'s pose, frames are never modified.',
 ['inputs','histories'],'every map and frame content, empty or not, for both SLAM variants and both settings',
 'tests check only the returned value; mutation of the argument is never asserted',
 [FU,IS],[('fuse_with_map / update_map_aggregate / update_map_fusion inplace handling',FU),('ICPSLAM.step',IS)])
p('M06','The SLAM loop chains poses frame by frame',
 'Running SLAM over a sequence processes frames in order, starting from the first frame\'s pose (identity when absent): each later pose is the odometry transform composed with the previous frame\'s recovered pose, or the frame\'s own pose in ground-truth mode. Every frame is mapped once with its recovered pose, the recovered pose of frame s is returned at position s for each batch element, and running step by step gives the same result.',
 ['inputs','histories','configurations'],'every batch size, sequence length, frame content, odometry mode and SLAM variant',
 'tests (needing an unavailable dataset) compare one trajectory; ordering and pairing for every length and mode is not settled',
 [IS,PF],[('ICPSLAM.forward/step/_localize/_map',IS),('PointFusion._map',PF)])
p('M07','Map and poses remain differentiable in the sensor input',
 'In grad mode the aggregated or fused map is connected by autograd to depth, color, intrinsics and pose inputs with the derivatives of the values it reports, and tracked odometry is connected to the point clouds; no step silently detaches the value path. Selection decisions (association, filtering) may be detached, values may not.',
 ['inputs','configurations'],'every frame and map content and every mode of the SLAM pipeline',
 'tests never back-propagate through mapping; a detach changes no forward value, so value-comparing tests cannot see it',
 [RI,UT,FU,IU],[('value path of vertex/normal maps, conversion, fusion and ICP',FU)])
p('D01','Timestamp association is one-to-one and greedy by difference',
 'Associating two timestamped lists returns pairs in which every timestamp is used at most once and every difference (after the offset) is below the maximum, sorted by the first timestamp. It is the greedy matching: pairs are accepted in order of increasing difference, so no rejected admissible pair could be added and none has a smaller difference than both of its competitors.',
 ['inputs'],'every two finite sets of timestamps, every offset and maximum difference',
 'no test covers the matcher without the dataset; optimality and one-to-one-ness are over all sets',
 [TU],[('associate / read_file_list / read_trajectory',TU)])
p('D02','Extracted sequences keep images, depths, poses and names aligned',
 'A dataset of extracted windows contains, in order, exactly the windows that fit into the selected range of every trajectory for the given length, dilation and stride, and position i of every window refers to the same source frame in its color, depth, pose, name and timestamp entries. This holds for every start and end.',
 ['inputs','configurations'],'every trajectory length, sequence length, dilation, stride, start and end for the ICL, TUM and ScanNet loaders',
 'dataset tests are skipped without the data and use one setting; off-by-one windows and misaligned poses need other settings',
 ['gradslam/datasets/icl.py','gradslam/datasets/tum.py','gradslam/datasets/scannet.py'],[('window extraction in the constructors','gradslam/datasets/icl.py'),('window extraction','gradslam/datasets/tum.py'),('window extraction','gradslam/datasets/scannet.py')])
p('D03','Intrinsics scale with the image and pre-processing is exact',
 'Rescaling intrinsics multiplies the horizontal focal length and principal point by the width ratio and the vertical ones by the height ratio, changes nothing else, and returns a copy, for numpy and torch, any batch, 3x3 or 4x4. Color normalisation divides by 255 and the channel reordering moves the last axis in front of the two image axes without changing values. The intrinsics a data set reports are those of its 640x480 camera scaled to the requested image size, and its depths are in meters.',
 ['inputs'],'every intrinsics matrix, ratio pair, batch shape, and image array of rank at least 3',
 'tests use one matrix and equal-looking sizes; swapped ratios on one entry or aliasing of the input is not fully sampled',
 [DU,'gradslam/datasets/icl.py','gradslam/datasets/tum.py','gradslam/datasets/scannet.py'],[('scale_intrinsics / normalize_image / channels_first',DU),('_preprocess_intrinsics / _preprocess_color / _preprocess_depth','gradslam/datasets/scannet.py')])
p('D04','Reported poses and frame-to-frame transforms are consistent',
 'Pose sequences reported by the datasets are relative to the first frame: the first is the identity and pose i is inverse(pose 0) times pose i. The reported transforms start with the identity, transform i is inverse(pose i-1) times pose i, so the product of the first i transforms is pose i; the input poses are not modified.',
 ['inputs'],'every sequence length and every sequence of rigid poses',
 'tests check one list of random poses; the telescoping product is over every length',
 [DU,'gradslam/datasets/icl.py','gradslam/datasets/tum.py','gradslam/datasets/scannet.py'],[('poses_to_transforms',DU),('_preprocess_poses','gradslam/datasets/icl.py')])
p('D05','Label remapping and colouring are total and consistent',
 'Remapping 40-class labels to 20 classes sends every label to the class with the same name and color in the 20-class palette, or to unlabeled when that class does not exist there, for every label value and image. A label image colors every pixel with the palette entry of its label and leaves unknown labels black.',
 ['inputs'],'every label value 0..40, every label image, both palettes',
 'tests are skipped without the dataset and only check that nothing raises; sequential in-place remapping can corrupt a single class unnoticed',
 ['gradslam/datasets/scannet.py',DU],[('nyu40_to_scannet20 / get_color_encoding','gradslam/datasets/scannet.py'),('create_label_image',DU)])
p('C01','Configuration merges are typed, complete and do not alias',
 'Merging another configuration or a list of overrides sets every given existing key to the given value and leaves all others untouched; a value whose type differs from the existing one raises an error and leaves that key unchanged, except that tuples and lists convert into each other. Nothing in the merged-from object is modified or aliased, and dumping then loading a configuration gives back an equal one (tuples return as lists).',
 ['inputs'],'every pair of nested configurations and every override list over the supported value types',
 'tests merge one small tree; type pairs and nesting depths are only sampled',
 [CF],[('merge_from_other_cfg / merge_from_list / merge_from_file / dump',CF)])
p('C02','Frozen configurations cannot be changed',
 'After freezing, every attempt to change a value at any depth by attribute assignment or by merging raises an error and leaves the configuration unchanged; defrosting restores mutability at every depth. A clone is equal, independent of the original at every depth and keeps the frozen state.',
 ['inputs','histories'],'every nested configuration and every sequence of freeze, defrost, clone, assignment and merge',
 'tests freeze a one-level node; deeper nodes and the merge path are not covered',
 [CF],[('freeze/defrost/__setattr__/clone and merges',CF)])
p('C03','Deprecated, renamed and unknown keys are handled as declared',
 'Merging ignores keys registered as deprecated, raises an error naming the new key for renamed ones, and raises for unknown keys; merging another configuration adds them instead where new keys are allowed on that node, while an override list may only name existing keys; registering the same key twice raises. Only supported value types can ever be stored by construction or attribute assignment.',
 ['inputs','histories'],'every nested configuration, every registration history and every merge',
 'tests cover one key of each kind at the top level',
 [CF],[('register_deprecated_key / register_renamed_key / new_allowed / type validation',CF)])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
print(len(P))
