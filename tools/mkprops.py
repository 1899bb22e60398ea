#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d['anchors']['observe_at']=obs
    assert len(title)<=80,title
    P.append(d)
I=['inputs']; IC=['inputs','configurations']

p('C01','Homogeneous points are stored in one canonical form',
 'A camera point or world point built from any finite homogeneous vector (nonzero xyz) or Euclidean position is stored as that same vector times one positive factor, or times one negative factor when its w is negative, so that xyz has unit length and w is non-negative (the reciprocal of the distance, 0 at infinity). The homogeneous, bearing and Euclidean accessors all read that stored form back unchanged (bearing = xyz; Euclidean = xyz / w, absent when w is 0), and the stored vector of a camera point cannot be altered or supplied un-normalised by safe code outside the point module other than through the constructor that says it is unchecked.',
 I,'every homogeneous vector and every 3d position, for both point types',
 'The doc tests normalise a handful of points in front of the camera with positive w; sign flips, points behind or at infinity and un-normalised construction never occur in them.',
 ['cv-core/src/point.rs'],[('Projective::from_homogeneous','cv-core/src/point.rs'),('CameraPoint / WorldPoint impls','cv-core/src/point.rs')],
 [('CameraPoint.0','homogeneous vector with unit xyz and w>=0','cv-core/src/point.rs')])
p('C02','Every pose entry point applies the same rigid transform',
 'For each of the four pose kinds and every point, transforming the point gives the canonical point whose homogeneous vector is proportional, by a positive factor, to (R*xyz + t*w, w), where R and t are the rotation and translation the pose was built from. The plain transform and the three variants that also return derivatives return that identical point.',
 I,'every pose of every kind and every point',
 'Only the camera-to-camera plain transform is exercised by tests; the derivative-returning variants and the world-to-world pose have no test at all.',
 ['cv-core/src/pose.rs','cv-core/src/point.rs'],[('Pose::transform and transform_jacobian*','cv-core/src/pose.rs'),('pose_output / pose_rotated_output','cv-core/src/pose.rs')])
p('C03','Pose Jacobians are the true derivatives of the transform',
 'The input Jacobian a pose returns is its 4x4 homogeneous matrix. The pose Jacobian is the exact first derivative of the (unnormalised) output homogeneous vector with respect to a small translation (first three columns) and a small rotation (last three columns) of the pose, the rotation being applied to the already rotated point before the translation: translation columns (w*I ; 0) and rotation columns (-hat(R*xyz) ; 0). The entry point returning both Jacobians returns the same matrices as the single-Jacobian entry points.',
 I,'every pose and every point',
 'No test calls any Jacobian entry point.',
 ['cv-core/src/pose.rs','cv-core/src/so3.rs'],[('pose_jacobian_input, pose_jacobian_self','cv-core/src/pose.rs'),('Skew3::jacobian_self','cv-core/src/so3.rs')])
p('C04','Pose algebra: identity, inverse, scale, parts and frame change',
 'For all four pose kinds: the identity pose has no rotation and no translation; the inverse is exactly the rigid inverse (R^T, -R^T*t); scaling multiplies only the translation; building from parts, reading the isometry and reading the 4x4 matrix all agree with the stored (R, t). The world-to-world transform derived from a camera\'s pose in reconstruction A and in reconstruction B is inverse(B) composed after A.',
 I,'every pose, scale factor and pair of camera poses',
 'Tests use inverse and from_parts on a few random camera-to-camera poses; scale, the 4x4 form and the world-to-world derivation are never called.',
 ['cv-core/src/pose.rs'],[('Pose provided methods','cv-core/src/pose.rs'),('WorldToWorld::from_camera_poses','cv-core/src/pose.rs')])
p('C05','se(3) vectors are translation first and survive the round trip',
 'The 6-vector of a pose lists the translation (x, y, z) and then the axis-angle rotation vector (x, y, z); reading a 6-vector back gives a pose with exactly that translation and the exponential of that rotation vector. The rotation logarithm is the scaled rotation axis with an undefined (NaN) result replaced by the zero rotation, and the exponential is the rotation by the vector\'s length about its direction, with only near-zero vectors (squared length at most machine epsilon) replaced by a first-order rotation instead of dividing by that length.',
 I,'every pose and every 6-vector, including zero and tiny rotations',
 'Nothing in the test suite calls the se(3) conversions or the so(3) exponential/logarithm.',
 ['cv-core/src/pose.rs','cv-core/src/so3.rs'],[('Pose::se3, Pose::from_se3','cv-core/src/pose.rs'),('From<Skew3> for Rotation3, From<Rotation3> for Skew3','cv-core/src/so3.rs')])
p('C06','Tangent-space arithmetic never mixes or drops components',
 'Tangent-space values behave as a pair of independent 3-vectors (translation, rotation): addition, in-place addition and summation agree and act component-wise, identity is the zero of that addition, inverse negates both parts, each scale operation multiplies exactly the part(s) it names, and conversion to and from a 6-vector is lossless with translation first. The checked constructor replaces a part that contains NaN by zero and keeps the other part; the L1 form is each part divided by its own length under the same guard; the isometry applies the rotation exponential with translation R*t, and the pair of rotations is (exp of translation, exp of rotation).',
 I,'every pair of tangent vectors and every scale factor',
 'No test touches the tangent-space type.',
 ['cv-core/src/so3.rs'],[('Se3TangentSpace impl, Add, AddAssign, Sum','cv-core/src/so3.rs')])
p('C07','so(3) hat, vee, square, bracket and Jacobians are exact',
 'hat turns a 3-vector w into the skew matrix with hat(w)*v = w x v; vee inverts hat; the squared form equals hat(w)*hat(w); the Lie bracket of two elements is their cross product. The Jacobian of a rotation with respect to its input is the homogeneous rotation matrix of the element, the Jacobian with respect to the rotation itself for an output y is -hat(y), and the small-angle rotation is built from I + hat(w).',
 I,'every so(3) element','No test calls these functions.',
 ['cv-core/src/so3.rs'],[('Skew3 impl','cv-core/src/so3.rs')])
p('C08','Pinhole calibrate and uncalibrate are inverse and match the matrix',
 'For every intrinsics value, calibrating a pixel gives the unit bearing along (x, y, 1) where the intrinsic matrix maps (x, y, 1) to that pixel, and uncalibrating a bearing in front of the camera gives the pixel the intrinsic matrix maps it to; the two are inverse, including skew and unequal focal lengths. A bearing whose z is negative has no pixel and yields nothing.',
 I,'every intrinsics value, every pixel, every bearing including those behind the camera',
 'The doc tests check one pixel with a 0.1-pixel tolerance on one side and never a bearing behind the camera.',
 ['cv-pinhole/src/lib.rs'],[('CameraIntrinsics::calibrate, uncalibrate, matrix','cv-pinhole/src/lib.rs')])
p('C09','K1-distorted calibrate and uncalibrate are inverse everywhere',
 'Calibrating a pixel with the K1 model gives the unit bearing along (d / (1 + k1*|d|^2), 1), where d is the undistorted-model coordinate of the pixel, and uncalibrating a bearing in front of the camera inverts exactly that on the branch that tends to no distortion as k1 tends to 0. It never divides by a quantity that vanishes when k1 is 0 or the bearing is on the optical axis, so those cases equal the plain pinhole model, and a bearing behind the camera yields nothing.',
 I,'every K1 model, pixel and bearing, including k1 = 0 and the principal point',
 'The doc tests use one k1 and one pixel away from the principal point.',
 ['cv-pinhole/src/lib.rs'],[('CameraIntrinsicsK1Distortion::calibrate, uncalibrate','cv-pinhole/src/lib.rs')])
p('C10','Configuration setters change exactly the value they name',
 'Every by-value setter of the camera intrinsics, the triangulators and the three-point solver returns its receiver with exactly the named setting replaced and every other setting kept, and `new` equals the default configuration. Identity intrinsics have unit focal lengths and no skew or offset; a sensor specification stores the pixel counts given and pixel sizes = sensor size / pixel count per axis (width for both when pixels are square); centred intrinsics have the given focal length, no skew and a principal point at (pixels - 1)/2.',
 IC,'every configuration value and every setter in any order',
 'Doc tests construct configurations with struct literals or defaults; setters are almost never called.',
 ['cv-pinhole/src/lib.rs','cv-geom/src/triangulation.rs','lambda-twist/src/lib.rs'],[('builder methods','cv-pinhole/src/lib.rs, cv-geom/src/triangulation.rs, lambda-twist/src/lib.rs'),('CameraSpecification','cv-pinhole/src/lib.rs')])
p('C11','Essential matrix and its residual use one epipolar convention',
 'The essential matrix built from a pose that maps camera A to camera B is hat(t)*R, and its residual for a feature match (a, b) is |b\'^T E a\'| with a\' and b\' the bearings scaled to z = 1. Hence a match produced by transforming a point from A to B has zero residual algebraically, for every pose and point.',
 I,'every pose and every feature match',
 'The residual function is not called by any stable test except through threshold-free averages; a transposed or swapped convention on one side only shows for general motions.',
 ['cv-pinhole/src/essential.rs'],[('From<CameraToCamera> for EssentialMatrix, Model<FeatureMatch>','cv-pinhole/src/essential.rs')])
p('C12','Essential decomposition yields proper, complete pose candidates',
 'Decomposing an essential matrix returns U*W*V^T and U*W^T*V^T, with U and V^T of its singular value decomposition made proper (positive determinant) by negating at most the undetermined last column of U and last row of V^T, and translation the last column of U; so both rotations are proper. The candidate lists are exactly the four (or two) combinations of those rotations with +t and -t (or +t only), and a failed decomposition yields nothing rather than a panic. Reconditioning keeps the singular vectors and replaces the singular values by (m, m, 0) with m the mean of the two largest.',
 I,'every 3x3 matrix, tolerance and iteration cap',
 'Tests compare two implementations on random matrices and check that one candidate is right for one pose; missing candidates for other poses or improper rotations on sign-flipped decompositions go unseen.',
 ['cv-pinhole/src/essential.rs'],[('possible_rotations_unscaled_translation and callers, recondition','cv-pinhole/src/essential.rs')])
p('C13','Triangulators return only finite points in front of every camera',
 'Whenever any of the triangulators returns a point, all four of its homogeneous components are finite, and for every observation it was given the point, expressed in that observation\'s own camera frame, has a non-negative component along the observed bearing. Otherwise nothing is returned; in particular a point that lies behind one of the cameras is never returned, wherever that camera is.',
 I,'every set of poses and bearings, consistent or not',
 'The doc tests triangulate one well-conditioned point in front of both cameras; rejection paths never run.',
 ['cv-geom/src/triangulation.rs','cv-core/src/triangulation.rs'],[('finiteness and cheirality filters of each triangulator','cv-geom/src/triangulation.rs')])
p('C14','Relative triangulation is world triangulation with camera A as world',
 'Triangulating in a chosen camera\'s frame is triangulating with that camera as the identity world-to-camera pose, listed first, followed by the other observations with their poses unchanged and in order, and the resulting world point is returned as the camera point with the same homogeneous vector. Two-view triangulation from a relative pose is that with the second camera\'s pose and bearing; every observation is used exactly once.',
 I,'every triangulator, number of observations and pose',
 'Only two-view calls are tested; the three-or-more view adaptor is not.',
 ['cv-core/src/triangulation.rs'],[('triangulate_observations_to_camera, triangulate_relative','cv-core/src/triangulation.rs')])
p('C15','Linear triangulators solve the exact projection constraints',
 'The linear-eigen triangulator solves for the homogeneous point X with the smallest sum over all observations of |(I - b*b^T)*[R|t]*X|^2, and returns nothing for fewer than two observations. The DLT triangulator solves, in the least-squares sense, x_a*Z=z_a*X and y_a*Z=z_a*Y and the same two for camera B through the relative pose. So every exact point satisfies the constraints with zero error, and the smallest singular or eigen direction is the one chosen; the point is returned whenever the decomposition succeeds and the point is finite and strictly in front of every camera.',
 I,'every set of observations','Tests use one configuration with nearly identical cameras, where many wrong systems still give a point within tolerance or are not even called.',
 ['cv-geom/src/triangulation.rs'],[('LinearEigenTriangulator, RelativeDltTriangulator','cv-geom/src/triangulation.rs')])
p('C16','Angular and mean triangulators reproduce exact intersections',
 'When the two rays meet exactly at a point in front of both cameras, the closed-form angular triangulators (L1 and L-infinity) return exactly that point in camera A\'s frame, and the mean-mean triangulator\'s point lies on the line through the average camera centre along the average bearing at the average of the per-ray closest distances. The iterative sine-L1 triangulator starts from the linear-eigen result under its own settings and each step adds its rate times the mean of the per-observation gradients towards the rays.',
 I,'every pose and every exact intersection',
 'One pose and point per triangulator with 1e-6 tolerance.',
 ['cv-geom/src/triangulation.rs','cv-geom/src/epipolar.rs'],[('AngularL1, AngularLInfinity, MeanMean, SineL1','cv-geom/src/triangulation.rs')])
p('C17','Reprojection error compares each view with its own reprojection',
 'The two-view reprojection error is, for camera A, the normalised coordinates of a minus those of the triangulated point, and for camera B, those of b minus those of the point transformed by the pose into B; each normalised coordinate is xy/z. It is absent exactly when triangulation fails or the point is behind either camera, and the average error is half the sum of the two norms.',
 I,'every pose, match and triangulator',
 'The doc tests only use exact matches, for which errors are zero whatever is subtracted from what.',
 ['cv-pinhole/src/lib.rs'],[('pose_reprojection_error, average_pose_reprojection_error','cv-pinhole/src/lib.rs')])
p('C18','Pose residuals score cosine distance in the right frames',
 'The residual of a world-to-camera pose for a (bearing, world point) match is 1 minus the dot product of the bearing with the bearing of the transformed point. The residual of a camera-to-camera pose for (a, b) is the mean of the two cosine distances of a to the linearly triangulated point and of b to that point transformed by the pose, and is exactly 2, the worst value, when triangulation fails or is not finite.',
 I,'every pose and match','Only consensus runs on easy data touch the residuals; an inverted or swapped frame still ranks models there.',
 ['cv-core/src/pose.rs'],[('Model impls for WorldToCamera and CameraToCamera','cv-core/src/pose.rs')])
p('C19','Eight-point builds the exact epipolar system from every match',
 'Each of the first eight matches contributes exactly one row to the eight-point system, proportional to the coefficients of b^T E a in the entries of E, and the returned matrix holds in those same entry positions the eigenvector of the smallest eigenvalue of the normal matrix. An exact match is thus algebraically consistent with the returned convention (b^T E a = 0).',
 I,'every set of eight matches','The random test checks residuals for one generator; an entry order or transposition error that cancels between encoding and decoding, or a dropped row, can pass thresholds.',
 ['eight-point/src/lib.rs'],[('encode_epipolar_equation, from_matches','eight-point/src/lib.rs')])
p('C20','Five-point solver encodes det(E)=0 and the trace constraint exactly',
 'The ten polynomial equations the five-point solver solves are, as polynomials in x, y, z with E = xX + yY + zZ + W, exactly det(E) = 0 and the nine entries of E*E^T*E - trace(E*E^T)*E/2 = 0, in one fixed monomial order shared by the multiplication, elimination and action-matrix steps. The action matrix represents multiplication by x in the quotient basis, and the candidate (x, y, z, 1) is read from the eigenvector positions of those monomials, so an exact five-match input has its true essential matrix among the candidates.',
 I,'every five matches','No stable test runs the five-point solver end to end; only the two polynomial products and the eigenvector helper are tested.',
 ['nister-stewenius/src/lib.rs'],[('o1, o2, five_points_polynomial_constraints, essentials_from_action_ebasis, five_points_relative_pose','nister-stewenius/src/lib.rs')])
p('C21','Three-point solver: refinement and pose recovery are algebraically exact',
 'Refinement of the three depths in the three-point solver is the exact Newton step for the three squared-distance equations (|l_i y_i - l_j y_j|^2 equals the squared distance of the world points), accepted only if it does not increase the residual. The returned pose maps world points to camera points: its rotation maps the world differences (and their cross product) onto the refined camera differences and its translation is l_1*y_1 - R*x_1.',
 I,'every three world points and bearings','The consensus test recovers one pose from easy data; errors hidden by the robust loop or in refinement do not change it.',
 ['lambda-twist/src/lib.rs'],[('gauss_newton_refine_lambda, compute_poses_nordberg','lambda-twist/src/lib.rs')])
p('C22','Epipolar gradients vanish on perfect data and point the right way',
 'A point gradient is the component orthogonal to the bearing of the vector from the point to the ray start, so it is zero exactly when the point is on the ray and moves the point towards it; a world-pose gradient is the projection error (onto the bearing) for translation and the cross product of the unit point direction with the bearing for rotation. The three-view gradients weight each pairwise rotation 2/3 and the shared edge 1/3 with opposite signs, and translate each outer camera towards the point triangulated by the other two; the point of a pair counts whenever it is finite and in front of both its cameras, and only then.',
 I,'all bearings and translations','No test calls the gradient functions except through the sine-L1 doc test.',
 ['cv-geom/src/epipolar.rs'],[('point_gradient, world_pose_gradient, three_view_gradients','cv-geom/src/epipolar.rs')])
p('C23','Pose optimizers keep frames straight and leave empty problems unchanged',
 'Single-view and three-view pose optimisation return the starting poses unchanged when there are no landmarks or no iterations are allowed; otherwise each step left-multiplies the pose being optimised by the isometry of a scaled sum of the gradients of all landmarks evaluated at the current pose, landmarks without a Euclidean position being skipped: rate times the mean gradient (L2), rate times the sum of the unit gradients over the sum of the reciprocal regularised lengths, translation and rotation apart (L1), or the mean gradient times the ratio of its length to the mean length (adaptive). Three-view optimisation works on the inverses of the given poses and returns inverses of the optimised ones, each outer camera with its own gradient and its own observation.',
 I,'every pose, landmark set, rate and iteration count','The optimisation crate has no tests.',
 ['cv-optimize/src/single_view_optimizer.rs','cv-optimize/src/three_view_optimizer.rs'],[('*_optimize_* functions, landmark_delta, landmark_gradients','cv-optimize/src')])
p('C24','Optimizers never turn a finite problem with no usable data into NaN',
 'A single-view or three-view optimisation step in which no landmark contributes any gradient (all at infinity, or all gradients zero with zero tolerance) leaves the pose as it was rather than multiplying zero by an infinite reciprocal and making every component NaN. The same holds of the rotation and of the translation taken alone: where no landmark has a gradient for one of them, the step leaves that part of the update zero whatever the other part does.',
 I,'every landmark set including all-at-infinity ones','No tests of the optimisation crate exist.',
 ['cv-optimize/src'],[('harmonic-mean scaling in *_optimize_l1','cv-optimize/src')])
p('C25','Solver tolerances and iteration caps chosen by the caller are honoured',
 'Every iterative eigen, singular-value or rotation solver reached from a configurable estimator, triangulator or essential-matrix operation runs with the tolerance and the iteration cap the caller configured for it, in their own positions, and iterative refinements run at most the configured number of rounds. Where there is no configuration, the cap is a positive constant.',
 IC,'every configuration of every solver','Tests run default configurations only, where swapped or ignored settings behave alike.',
 ['cv-geom/src/triangulation.rs','cv-pinhole/src/essential.rs','eight-point/src/lib.rs','lambda-twist/src/lib.rs','nister-stewenius/src/lib.rs','cv-core/src/pose.rs'],[('try_symmetric_eigen / try_svd / from_matrix_eps call sites','all solver crates')])
p('C26','Every public operation terminates after a bounded number of rounds',
 'Every loop in the library crates is driven by a finite range, collection or the caller\'s own finite observation iterator, there is no recursion, and no iterative numerical routine is started without an iteration cap (a cap of zero chosen by the caller means none, as documented; making the identity plus a skew matrix orthogonal needs none, since it contracts). So no input (NaN and degenerate data included) makes a call run forever.',
 I,'every input to every public function of the seven library crates','Tests only run inputs on which loops converge; one regression test pins a single historical endless loop.',
 ['cv-core/src','cv-geom/src','cv-pinhole/src','cv-optimize/src','eight-point/src','lambda-twist/src','nister-stewenius/src'],[('all loops and iterative solver calls','library crates')])
p('C27','Library code does not panic on any numeric input',
 'No public function of the library crates panics for any numeric input, including NaN, infinities, zero vectors, degenerate geometry and empty collections; failures are reported as an absent or empty result. The only panics are the documented sample-count requirements of the minimal solvers.',
 I,'every input to every public function of the seven library crates','Tests feed well-conditioned data.',
 ['cv-core/src','cv-geom/src','cv-pinhole/src','cv-optimize/src','eight-point/src','lambda-twist/src','nister-stewenius/src'],[('all unwrap/expect/index/assert/capacity sites','library crates')])
p('C28','Results are a pure function of the arguments',
 'Every public function of the library crates returns a result that depends only on its arguments and configuration: no global mutable state, interior mutability, clock, randomness, environment, file, thread or unsafe code is involved, so equal calls in any order or on any thread give equal results. Logging is the only side effect.',
 ['inputs','schedules','histories'],'every call sequence and thread interleaving','Tests call each function once or in one order.',
 ['cv-core/src','cv-geom/src','cv-pinhole/src','cv-optimize/src','eight-point/src','lambda-twist/src','nister-stewenius/src'],[('absence of effects','library crates')])
p('C29','Serialised values read back exactly as written',
 'For every type that can be serialised (image points, camera and world points, all pose kinds, so(3) elements, camera intrinsics, distorted intrinsics and camera specifications), serialisation and deserialisation are both available under the same feature, cover every field under the same name and in the same representation, and apply no default, skip or conversion on only one side, so decode(encode(v)) = v.',
 I,'every value of every serialisable type','No test serialises anything.',
 ['cv-core/src','cv-pinhole/src/lib.rs'],[('cfg_attr serde derives','cv-core/src, cv-pinhole/src')])
p('C30','Minimal solvers use all samples and answer failure with no models',
 'Each minimal solver declares the sample count it needs (8, 5 and 3), consumes exactly those samples, each into its own equation or slot with its own partner, and returns at most its declared capacity of models. The eight- and five-point solvers return all four candidate poses of every essential matrix they find, each once. A numerical failure or degenerate configuration (decomposition not converging, wrong null-space dimension, singular elimination, a world point at infinity, a singular coordinate matrix) gives an empty list of models, never models made from placeholder data.',
 I,'every sample set, degenerate ones included','Tests give generic data, for which the failure paths never run.',
 ['eight-point/src/lib.rs','nister-stewenius/src/lib.rs','lambda-twist/src/lib.rs'],[('Estimator impls','solver crates')])
p('C31','AKAZE pairs every keypoint with its own descriptor, best first',
 'Feature extraction returns as many descriptors as keypoints, the n-th descriptor being computed from the n-th keypoint; keypoints are the strongest by detector response, at most the configured maximum, in descending order of response; a keypoint whose descriptor would sample outside the image is dropped together with its descriptor. The result is the same whether or not the parallel feature is enabled.',
 IC,'every image and configuration','The crate does not build here and its tests are not among the stable ones; they check counts for one image.',
 ['akaze/src/lib.rs','akaze/src/descriptors.rs'],[('extract_from_gray_float_image, extract_descriptors','akaze/src')])
p('C32','Map edits keep views, landmarks and observations consistent',
 'Through every sequence of map edits of the reconstruction (adding or removing views, triangulating, splitting, merging landmarks) each feature of each view belongs to exactly one landmark and that landmark lists exactly that observation, and no reference to a removed view, landmark or reconstruction remains.',
 ['histories'],'every edit sequence','The reconstruction crate has no tests and does not build here.',
 ['cv-sfm/src/lib.rs'],[('VSlamData mutators','cv-sfm/src/lib.rs')])
p('C33','Estimates are numerically accurate and robust to noise',
 'For well-posed noisy data the recovered poses, points and depths are within a tolerance proportional to the noise, and optimisation reduces the residual.',
 I,'all noise realisations and well-posed scenes','Tests sample a few scenes.',
 ['eight-point/src','nister-stewenius/src','lambda-twist/src','cv-geom/src','cv-optimize/src'],[('numerical algorithms','solver crates')])
p('C34','Feature detection is repeatable under image transformations',
 'The same scene structure is detected and described consistently under rotation, scale and illumination change.',
 I,'all images and transformations','One image pair.',
 ['akaze/src'],[('scale space and descriptor','akaze/src')])
p('C35','Three-point solver finds exactly the depths that satisfy the distance equations',
 'Every depth triple the three-point solver keeps before refinement satisfies the three squared-distance equations between the world points (up to rounding, and whenever the degenerate quadratic form is indefinite, as it is for the view of any actual camera), all three depths are non-negative, and every real solution of each of the two quadratics that meets those conditions is kept: the degenerate quadratic form lies in the span of the two difference forms and is singular at a root of the cubic passed to the cubic root finder, the two factors of its eigen-decomposition are each used, and the quadratic solver and the singular eigen-decomposition return true roots and eigenvectors.',
 I,'every three world points and bearings','The consensus test needs one of the four candidates to be right on easy data; the other three candidates and the rejection conditions are never compared with anything.',
 ['lambda-twist/src/lib.rs'],[('compute_poses_nordberg, root2real, cube_root, eigen_decomposition_singular','lambda-twist/src/lib.rs')])
p('C36','Value types copy, compare and convert component by component',
 'For every public value type of the library (key points, homogeneous points, poses, tangents, matches, essential matrix, intrinsics, triangulator and optimiser settings): a clone has exactly the components of the original; two values are equal exactly when every component is equal (no tolerance, no component ignored, no symmetry between the parts); where the type is ordered, a value compares equal to itself and follows a single component that is moved up or down; a wrapper built from its inner value holds exactly that value, and the inner value, shared reference, mutable reference and image point obtained from a wrapper are exactly the stored one.',
 I,'every value of the type','The existing tests use the types but compare a handful of instances; a component dropped from a comparison or altered in a conversion would only show on values that differ there.',
 ['cv-core/src','cv-pinhole/src','cv-geom/src'],[('derived or written Clone, PartialEq, PartialOrd, AsRef/AsMut, Deref, From, Into','cv-core/src/{keypoint,point,pose,so3,matches}.rs, cv-pinhole/src/{lib,essential}.rs, cv-geom/src/triangulation.rs')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
print(len(P))
