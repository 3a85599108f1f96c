TECH = {
 "vg": ("gated-SSA value graph of the compiled source; obligations decided by algebraic value numbering (random interpretation)",
        "Every path of each analysed entry point is summarised (no path enumeration, no solver, nothing executed) and compared with the "
        "specified algebra for all inputs; real-number semantics (rounding and overflow excluded); an equality is wrong with probability "
        "below 2^-50 per obligation; trusts clang's lowering and the listed library models."),
 "ts": ("interprocedural typestate and effect analysis over the compiled source (LLVM IR), with exception edges and every outcome of the system calls",
        "The descriptor automaton and the settings handed to the system are followed through the intermediate code of all operations for "
        "each combination of system call outcomes in the stated bound; no system call is made; trusts clang's lowering and the model of the calls."),
 "fs": ("effect analysis over the compiled source (LLVM IR): every answer of the file system is a parameter of the analysis",
        "Queries of the file system and the expression engine are effects whose answers are enumerated for representative directories; the list is followed through the "
        "intermediate code; nothing is executed and no file is touched; trusts clang's lowering and the stand-ins for file system, expressions and strings.")
}
NOTES = "All checks analyse /repo's working tree at every run; nothing of Ubitrack/utcore is executed."
PROPS = [
 dict(id="P01", tech="vg", title="Quaternion arithmetic is the Hamilton algebra and rotates by q v q*",
  statement="For every quaternion, product, conjugation, inversion, normalisation, component order of the vector form and choice of the closer of q and -q follow the Hamilton algebra. Rotating a vector by a unit quaternion, and its 3x3 matrix in either precision, both equal the map v -> q v q*, and a default quaternion or pose is the identity.",
  forall="all quaternions and vectors", why="No stable test exercises quaternion arithmetic directly; tests sample a few random rotations.",
  files=["src/utMath/Quaternion.h", "src/utMath/Quaternion.cpp", "src/utMath/Matrix.h"],
  mech=[("Hamilton product, conjugate, normalize", "src/utMath/Quaternion.h"), ("vector rotation", "src/utMath/Quaternion.cpp"), ("toMatrix", "src/utMath/Quaternion.h")]),
 dict(id="P02", tech="vg", title="Every conversion between rotation representations is the same rotation",
  statement="Converting a rotation between quaternion, 3x3/4x4 matrix, axis-angle, rotation vector (logarithm/exponential) and Euler angles (all six sequences) always yields the same rotation. This holds in every branch of the conversion, for either sign of the quaternion and any non-zero length of the axis, and the zero rotation vector maps to the identity. It also holds at the special rotations: none, a full turn, half turns, Euler angles with the middle angle at plus or minus 90 degrees, and quaternions slightly longer than one by rounding.",
  forall="all rotations in general position, in every branch, and the listed special rotations", why="Tests convert a few random rotations and cannot reach every branch and every sign combination.",
  files=["src/utMath/Quaternion.h", "src/utMath/Quaternion.cpp", "src/utMath/Util/RotationCast.h"],
  mech=[("matrix to quaternion, euler angles, logarithm", "src/utMath/Quaternion.cpp"), ("RotationCast", "src/utMath/Util/RotationCast.h")]),
 dict(id="P03", tech="vg", title="Poses form the rigid-motion group and interpolate between their end points",
  statement="Composition, inversion, application to points, scaling, vector form and conversion of poses from and to 3x4/4x4 matrices all agree with 4x4 homogeneous matrices, the handedness change flips exactly the z axis, and two poses compare equal only if every component is equal. Interpolation of rotations and poses returns the start at t=0 and the end at t=1, and moves along the shorter great arc with constant angular speed in between.",
  forall="all poses, points and interpolation parameters", why="Tests compare a handful of poses built from fixed numbers.",
  files=["src/utMath/Pose.h", "src/utMath/Pose.cpp", "src/utMath/Matrix.h", "src/utMath/Quaternion.cpp"],
  mech=[("pose group operations", "src/utMath/Pose.cpp"), ("matrix constructors", "src/utMath/Matrix.h"), ("slerp / linearInterpolate", "src/utMath/Quaternion.cpp")]),
 dict(id="P04", tech="vg", title="Uncertainty follows value through every pose and vector operation",
  statement="Whenever an operation on poses or vectors with uncertainty produces a result, the attached covariance is exactly J C J^T for the first derivative J of that operation in the documented error model. This covers inversion, products with uncertain and exact poses, inverse products, transformation of exact and uncertain points, additive/multiplicative error conversion, interpolation and generic (unary, binary, sub-range) transforms. Averages return the mean (rotations on a common hemisphere, normalised) and the population covariance about it.",
  forall="all poses, vectors, covariances and sample lists", why="No test checks a propagated covariance against its derivative; errors in off-diagonal blocks are invisible to the sampled cases.",
  files=["src/utMath/ErrorPose.h", "src/utMath/ErrorPose.cpp", "src/utMath/ErrorVector.h", "src/utMath/Stochastic/CovarianceTransform.h", "src/utMath/Stochastic/Average.h"],
  mech=[("hand-derived jacobians", "src/utMath/ErrorPose.cpp"), ("transformWithCovariance", "src/utMath/Stochastic/CovarianceTransform.h"), ("Average", "src/utMath/Stochastic/Average.h")]),
 dict(id="P05", tech="vg", title="Every analytic derivative is the exact derivative of its function",
  statement="Every function offered for least-squares optimisation returns, as its Jacobian, the exact first derivative of the value it evaluates to, for every parameter and every row and column, whether value and Jacobian are requested separately or together. This covers rotations (quaternion, Lie, error form), normalisation, dehomogenisation, lens distortion (with respect to points and coefficients), intrinsics, single- and multi-camera projections, tool-tip and 3D-3D residuals, rotation hand-eye residuals and composed functions. Integration of an angular velocity is exact, its derivative is the documented first-order one.",
  forall="all parameter values in general position (unit quaternions where a rotation is meant)", why="Optimisers converge with a slightly wrong Jacobian too, so the existing accuracy tests cannot see it; each entry is a separate formula.",
  files=["src/utAlgorithm/Function", "src/utMath/Optimization/Function", "src/utMath/Optimization/NewFunction", "src/utAlgorithm/ToolTip/Optimization.h", "src/utAlgorithm/PoseEstimation3D3D/Optimization.h", "src/utAlgorithm/CameraLens/Undistortion.h"],
  mech=[("evaluate / jacobian / evaluateWithJacobian", "src/utAlgorithm/Function"), ("composition by Binder", "src/utMath/Optimization/NewFunction/Detail/Binder.h")]),
 dict(id="P06", tech="vg", title="Tracking filters predict and update exactly as their motion model says",
  statement="Predicting a tracked state over a (positive, negative or zero) time difference yields the constant-velocity/acceleration motion model, with covariance F P F^T plus process noise (growing with |dt|) on the right components, and prediction queries leave the filter unchanged. Every absolute, velocity or inverse-velocity measurement is fused by the Kalman update of exactly the state components it measures (also when the Cholesky factorisation fails), with the quaternion sign aligned first and renormalised afterwards. The pose filter is initialised by its first absolute measurement; before it velocity measurements are ignored and predictions are refused with an exception, as are unsupported motion orders.",
  forall="all states, covariances, measurements and elapsed times (timestamps: representative forward, backward and equal pairs)", why="There is no test of the tracking code at all; a filter with a wrong covariance block still tracks.",
  files=["src/utTracking", "src/utMath/Stochastic/Kalman.h", "src/utMath/RotationVelocity.h"],
  mech=[("filters", "src/utTracking/PoseKalmanFilter.cpp"), ("time updates", "src/utTracking/Function"), ("measurement update", "src/utMath/Stochastic/Kalman.h")]),
 dict(id="P07", tech="vg", title="Vector and matrix kernels equal their linear-algebra definitions",
  statement="Inner, outer, matrix-vector and matrix-matrix products, norms, distances, normalisation, cross product, interpolation, array construction and constant matrices equal their textbook definitions for every element type and shape offered. Determinants and inverses (closed-form and factorised, for any row interchanges) and the Moore-Penrose pseudo inverse (also of rank-deficient matrices) are exact. Two vectors or matrices compare equal if and only if every element is equal, and vectors are ordered lexicographically.",
  forall="all vectors and matrices of the offered shapes", why="Tests compare a few random matrices with boost's products; comparison operators, pivoting patterns and rank-deficient inverses are never reached.",
  files=["src/utMath/Blas1.h", "src/utMath/Blas2.h", "src/utMath/Blas3.h", "src/utMath/Vector.h", "src/utMath/Matrix.h", "src/utMath/VectorFunctions.h", "src/utMath/MatrixOperations.h", "src/utMath/Functors"],
  mech=[("products and norms", "src/utMath/Blas1.h"), ("determinant, invert_matrix, pseudoInvert_matrix", "src/utMath/MatrixOperations.cpp"), ("comparison operators", "src/utMath/Vector.h")]),
 dict(id="P08", tech="vg", title="Points, conics and quadrics obey projective geometry",
  statement="Transforming or projecting single points and ranges (2D, 3D, homogeneous; every matrix shape offered) equals the homogeneous matrix product followed, for projections, by division by the last coordinate, in input order. Point normalisation returns mean and standard deviation and the matching forward and inverse matrices. Centre, axes, area, angle, eccentricity, type, tangent limits and scan-line intersections of a conic, its scaling, translation and flipping, and the outlines of quadrics, ellipsoids and spheroids equal their matrix definitions; the centre of a parabola is refused.",
  forall="all points, matrices and conics in general position", why="The tests project a few random points; conic measures, handedness flips and quadric outlines are hardly sampled.",
  files=["src/utMath/Geometry"],
  mech=[("point transformation and projection", "src/utMath/Geometry/PointTransformation.h"), ("conic functions", "src/utMath/Geometry/Conic.h"), ("quadric outlines", "src/utMath/Geometry/QuadricFunctors.h")]),
 dict(id="P09", tech="vg", title="Lens distortion, its inverse and camera intrinsics follow the camera model",
  statement="Distorting points in pixel coordinates (float and double, single and list, also in place, either handedness of the intrinsics) follows the documented radial/tangential formula in normalised camera coordinates, and undistortion returns the pixel of the normalised point whose distortion is the input. Projection with distortion is dehomogenisation, distortion and intrinsics in that order. Every way to build or copy camera intrinsics keeps matrix, image size, coefficients, their number and the calibration type consistent (unused coefficients are zero), and the horizontal, vertical and diagonal opening angles are those of the intrinsics.",
  forall="all intrinsics, coefficients and points; undistortion: assuming the optimiser reaches a zero residual", why="No test covers the lens model or intrinsics; a swapped tangential coefficient is invisible for small distortion.",
  files=["src/utAlgorithm/CameraLens", "src/utAlgorithm/LensDistortion.cpp", "src/utMath/CameraIntrinsics.h", "src/utMath/Geometry/PointUndistortion.h"],
  mech=[("distort / undistort", "src/utAlgorithm/CameraLens/Correction.cpp"), ("lensDistort, projectWithDistortion", "src/utAlgorithm/LensDistortion.cpp"), ("constructors and angles", "src/utMath/CameraIntrinsics.h")]),
 dict(id="P10", tech="vg", title="Projection matrices are estimated, decomposed and converted exactly",
  statement="From six or more exact 2D-3D correspondences the estimated projection matrix is proportional to the true one, scaled to a unit viewing direction with the first point in front. Decomposing any non-zero multiple of K [R|t] (origin in front of the camera) returns K with positive first and -1 last diagonal element, the proper rotation R and t, independent of the multiple. OpenGL and off-axis projections map image borders or screen corners to the clip-volume borders and near/far planes to depth -1/+1, and moving the image origin maps row v to height-1-v.",
  forall="all projection matrices and point sets in general position", why="Tests sample random cameras with one scale and never check the OpenGL or off-axis matrices.",
  files=["src/utAlgorithm/Projection.cpp", "src/utAlgorithm/Projection.h"],
  mech=[("projectionDLT, decomposeProjection", "src/utAlgorithm/Projection.cpp"), ("projectionMatrixToOpenGL, offAxisProjectionMatrix, correctOrigin", "src/utAlgorithm/Projection.cpp")]),
 dict(id="P11", tech="vg", title="Epipolar geometry and triangulation are exact on exact data",
  statement="From eight or more exact correspondences (optionally every n-th only) or from two posed cameras the fundamental matrix is proportional to the true one, and the relative pose recovered from it is the candidate that puts the given point in front of both cameras. Triangulation from two or more views, with or without refinement, returns the true point, and the epipolar error is the squared distance to the epipolar line. Too few or unequal numbers of inputs, step size zero and failed decompositions are refused with an exception.",
  forall="all cameras and points in general position", why="Tests use one camera pair with tolerances and never reach all four pose candidates or the refusals.",
  files=["src/utAlgorithm/FundamentalMatrix.cpp", "src/utAlgorithm/3DPointReconstruction.cpp"],
  mech=[("getFundamentalMatrix, fundamentalMatrixFromPoses, poseFromFundamentalMatrix", "src/utAlgorithm/FundamentalMatrix.cpp"), ("get3DPosition", "src/utAlgorithm/3DPointReconstruction.cpp")]),
 dict(id="P12", tech="vg", title="Absolute orientation and tool tip calibration are exact on exact data",
  statement="From three or more point pairs related by a rigid motion the estimated pose (or rotation alone, as quaternion or matrix) is that motion, mapping the second point list onto the first (first onto second in the old interface), and the estimated scale is the ratio of the two point sets' spreads; the refined pose has a unit rotation and vanishing residual at the true motion. From three or more exact poses of a tool pivoting about its tip the calibration returns the tip in world and in tool coordinates, and the reported error is the mean and sample standard deviation of the tip distances. The pose residual and covariance follow from the distances and the derivative of the transformed points, robust estimation yields the same exact results and success only with supporters, and a failed decomposition or least-squares solve is reported as failure.",
  forall="all point sets and poses in general position, float and double, with and without refinement", why="Tests use a few random samples with tolerances; mirrored argument order, sign branches and failure reporting stay unexplored.",
  files=["src/utAlgorithm/PoseEstimation3D3D/Rotation3D.h", "src/utAlgorithm/PoseEstimation3D3D/Pose6D.h", "src/utAlgorithm/PoseEstimation3D3D/Scale.h", "src/utAlgorithm/PoseEstimation3D3D/Optimization.h", "src/utAlgorithm/PoseEstimation3D3D/AbsoluteOrientation.cpp", "src/utAlgorithm/ToolTip/LeastSquare.h", "src/utAlgorithm/ToolTip/ErrorEstimation.h", "src/utAlgorithm/ToolTip/Optimization.h", "src/utAlgorithm/ToolTip/TipCalibration.cpp"],
  mech=[("estimateRotation_3D3D (Horn's matrix, largest eigenvector)", "src/utAlgorithm/PoseEstimation3D3D/Rotation3D.h"), ("estimatePosition3D_6D", "src/utAlgorithm/ToolTip/LeastSquare.h")]),
 dict(id="P13", tech="vg", title="Hand-eye calibration is exact on exact data",
  statement="When the products of hand pose, unknown transformation and eye pose agree for all samples, both hand-eye calibration methods return that unknown transformation (all pairs or neighbouring pairs, pose or matrix input, precomputed relative poses). Fewer than three samples give the identity and unequal list lengths an exception in the linear method; a failed decomposition is reported as failure in the dual quaternion method; converting a pose to a dual quaternion and back is the identity. The online rotation filters apply a Kalman update with the exact hand-eye equation to every relative rotation pair, whichever signs the quaternions carry, so that exact pairs leave the true rotation unchanged.",
  forall="all hand and eye motions in general position, float and double", why="Tests use random samples with tolerances and cannot cover all sign and branch combinations of the rotation conversions.",
  files=["src/utAlgorithm/PoseEstimation6D6D/TsaiLenz.cpp", "src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp", "src/utAlgorithm/PoseEstimation6D6D/DataSelection.h", "src/utAlgorithm/PoseEstimation6D6D"],
  mech=[("performHandEyeCalibration", "src/utAlgorithm/PoseEstimation6D6D/TsaiLenz.cpp"), ("estimatePose6D_6D6D", "src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp"), ("relative_pose, pose_cast", "src/utAlgorithm/PoseEstimation6D6D/DataSelection.h")]),
 dict(id="P14", tech="vg", title="Homographies and camera poses from point correspondences are exact on exact data",
  statement="From exact correspondences the homography (four or more pairs, or the image of the unit square) is proportional to the true one, the pose from a homography is the one with the target at negative z, and the pose from 2D-3D correspondences (plane of constant z, tilted plane, general points; with or without refinement) is the true one with residual equal to the root mean square image error; fewer than four points are refused. Orthogonal iteration ends at the exact pose once its rotation estimate is exact, and leaves the pose untouched when it fails; with several cameras only visible points count, the start value comes from the camera with most observations, the true pose has zero residual and is returned, too few observations give weight -1 and inconsistent input sizes an exception. Pose covariances propagate the given image variance through the derivative of the projections.",
  forall="all poses, intrinsics and points in general position, every visibility pattern class checked, float and double", why="Tests use random samples with tolerances around small motions; plane offsets, multi-camera start values and refusals are not exercised.",
  files=["src/utAlgorithm/Homography.cpp", "src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp", "src/utAlgorithm/MultipleCameraPoseOptimization.cpp", "src/utAlgorithm/MultipleCameraPoseOptimization.h"],
  mech=[("homographyDLT, squareHomography", "src/utAlgorithm/Homography.cpp"), ("poseFromHomography, optimizePose, computePose", "src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp"), ("multipleCameraEstimatePose", "src/utAlgorithm/MultipleCameraPoseOptimization.cpp")]),
 dict(id="P15", tech="vg", title="Storing a value in an archive and loading it gives the same value",
  statement="Writing any scalar, vector, matrix, rotation, pose, pose or vector with covariance, camera model, list or timestamped measurement to an archive and reading it back, into a fresh or already used object, gives the same value and consumes exactly what was written. Items are stored in a fixed order and type: vector elements in order, matrices row by row, rotations x, y, z, w, poses rotation then translation, covariances after their value, 64-bit timestamps before the payload, camera models as matrix, dimensions, number of radial parameters, radial, number of tangential (2), tangential. A camera model announcing more than six radial parameters and a measurement without a value are refused with an exception.",
  forall="all component values and timestamps; camera models with 0, 2, 3, 4 and 6 radial parameters; float and double", why="The tests store a few random values in one direction into fresh objects; field order, type width, stale target contents and corrupt sizes are not sampled.",
  files=["src/utMath/Vector.h", "src/utMath/Matrix.h", "src/utMath/Quaternion.h", "src/utMath/Pose.h", "src/utMath/ErrorPose.h", "src/utMath/ErrorVector.h", "src/utMath/Scalar.h", "src/utMath/CameraIntrinsics.h", "src/utMeasurement/Measurement.h", "src/utSerialization/BoostArchiveSerializer.h"],
  mech=[("serialize members", "src/utMath"), ("Measurement::serialize", "src/utMeasurement/Measurement.h"), ("CameraIntrinsics::serialize", "src/utMath/CameraIntrinsics.h")]),
 dict(id="P16", tech="vg", title="msgpack storage is lossless and has the documented layout",
  statement="Packing any scalar, vector, matrix, rotation, pose, pose or vector with covariance, camera model, list or timestamped measurement as msgpack and reading it back, in place or by value, gives the same value; the in-memory boxed form equals the streamed form. The layout is: vectors as arrays of their elements, matrices as one array row by row, rotations as [x,y,z,w], poses as [rotation, translation], with covariance as [rotation, translation, covariance], vectors with covariance as [value, covariance], measurements as [timestamp, value] or nil, camera models as [type, dimensions, matrix, number of radial, six radial, two tangential]. Dynamically sized vectors take the stored size.",
  forall="all component values and timestamps; non-square matrices; all five camera model types; float and double", why="The tests only stream square matrices and a few random values.",
  files=["src/utSerialization/MsgpackSerializer.h"],
  mech=[("adaptor pack/convert/as/object_with_zone specialisations", "src/utSerialization/MsgpackSerializer.h")]),
 dict(id="P17", tech="vg", title="Malformed or incomplete msgpack input is refused",
  statement="Reading a vector, matrix, rotation, pose, pose or vector with covariance, camera model or measurement from a msgpack object that is not an array, has fewer or more elements than the type requires (at any nesting level), or has an element of the wrong type (including negative or non-integer timestamps and more than six radial parameters) raises an exception instead of delivering a value or touching memory outside the object. Reading from a stream that holds no complete object raises an exception.",
  forall="every element count other than the required one is represented by one less, one more and none, at each nesting level, for in-place and by-value conversion", why="The tests contain no malformed input.",
  files=["src/utSerialization/MsgpackSerializer.h"],
  mech=[("adaptor convert/as specialisations, MsgpackSerializationFormat::read", "src/utSerialization/MsgpackSerializer.h")]),
 dict(id="P18", tech="vg", title="Iterative least squares follow the damped step rule and keep only improvements",
  statement="Every Levenberg-Marquardt step solves (JtJ + lambda I) d = Jt r (rows and residuals scaled by the weights if a weight function is given), applies the normalization to the candidate, and accepts it only if its squared residual is smaller, dividing the damping on acceptance and multiplying it otherwise; the returned value is the squared residual at the returned parameters. Gauss-Newton applies the undamped step, a failing linear solver is either replaced by an equivalent one or reported by an exception, and iteration stops exactly at the iteration limit or when the relative change of the residual falls below the precision.",
  forall="all residual functions, Jacobians, measurements, weights, starting points and damping factors (problem sizes 3x2, up to three steps, every solver failure outcome)", why="The tests only look at whether a few problems converge, which many wrong steps do as well.",
  files=["src/utMath/Optimization/LevenbergMarquardt.h", "src/utMath/Optimization/GaussNewton.h", "src/utMath/Optimization/Optimization.h"],
  mech=[("levenbergMarquardt, weightedLevenbergMarquardt", "src/utMath/Optimization/LevenbergMarquardt.h"), ("gaussNewton", "src/utMath/Optimization/GaussNewton.h"), ("OptTerminate", "src/utMath/Optimization/Optimization.h")]),
 dict(id="P19", tech="vg", title="Random sample consensus returns the estimate from exactly the supporting values",
  statement="For any model and any drawing order, the robust estimation returns the number of values whose distance to an accepted hypothesis is below the threshold, at least the required minimum, and the result estimated from exactly these values; the hypothesis is estimated from the drawn set of the required size only. It returns zero when no drawing within the allowed number reaches the minimum, when the final estimation fails, or when there are fewer values than a set needs, and the distances used for point sets and tool tips are the Euclidean distances between a point and its transformed partner.",
  forall="all values, thresholds, estimators, evaluators and drawing orders, for up to three values and two drawings (every class of outcomes of the comparisons)", why="The tests draw a few random sets for one model; which values support a hypothesis and what is drawn is not enumerated.",
  files=["src/utMath/Optimization/Ransac.h", "src/utAlgorithm/PoseEstimation3D3D/Ransac.h", "src/utAlgorithm/ToolTip/Ransac.h"],
  mech=[("ransac (one and two ranges), RansacParameter", "src/utMath/Optimization/Ransac.h"), ("Ransac::Evaluator", "src/utAlgorithm/PoseEstimation3D3D/Ransac.h, src/utAlgorithm/ToolTip/Ransac.h")]),
 dict(id="P20", tech="vg", title="Measurements keep payload and timestamp together; clones are independent",
  statement="A measurement made from a timestamp, a payload or both reports exactly these; copies share the payload (a change through one is seen through the other) but have timestamps of their own, a clone has the same timestamp and content and shares nothing, and a clone of an empty measurement is empty. A measurement is invalid exactly if its timestamp is zero; default-made and payload-only ones are, invalidating affects the one measurement only, and removing constness shares the payload and keeps the timestamp.",
  forall="all payloads and timestamps (zero and non-zero), for ten payload types including lists and types with covariance", why="There are no tests of measurements; aliasing between copies only shows in sequences of operations.",
  files=["src/utMeasurement/Measurement.h"],
  mech=[("Measurement constructors, clone, invalidate, constCast", "src/utMeasurement/Measurement.h")]),
 dict(id="P21", tech="vg", title="Clocks have consistent units and clock synchronisation follows its model",
  statement="The system time is seconds times 1e9 plus microseconds times 1000, the high performance counter counts in units of its reported frequency, sleeping asks the system for exactly the requested milliseconds plus nanoseconds in a form it accepts, and block timers report number of runs, total and average in milliseconds. Synchronising a native clock predicts the local time from the estimated gain and corrects time and gain as the Kalman filter of a two-state clock does, ignoring deviations beyond three times the running deviation unless the outlier budget is used up; the least-squares synchroniser extrapolates with the weighted regression line, after returning the first eleven local times unchanged.",
  forall="all frequencies and all histories of up to 190 (150) native and local times, in any order, including every accept/reject pattern of the last events; all sleep durations", why="No test covers clocks, and outlier handling starts only after a hundred events.",
  files=["src/utMeasurement/Timestamp.cpp", "src/utMeasurement/TimestampSync.cpp", "src/utMeasurement/TimestampSync.h", "src/utMeasurement/TimestampSyncLS.h", "src/utUtil/OS.cpp", "src/utUtil/BlockTimer.h"],
  mech=[("now", "src/utMeasurement/Timestamp.cpp"), ("TimestampSync::convertNativeToLocal, setFrequency", "src/utMeasurement/TimestampSync.cpp"), ("TimestampSyncLS::convertNativeToLocal", "src/utMeasurement/TimestampSyncLS.h"), ("sleep, getHighPerformanceCounter", "src/utUtil/OS.cpp"), ("BlockTimer", "src/utUtil/BlockTimer.h")]),
 dict(id="P22", tech="ts", title="A serial port never leaks or misuses its descriptor and reports failures",
  statement="In every order of operations and after any failing system call, the serial port uses only its open descriptor, a failed opening leaves nothing open, closing (also twice) and destruction release the descriptor and restore the line settings found at opening, and a closed port can be opened again. Reading, sending, counting bytes, break and flush on a port that is not open, and failures of the device while opening, reading, sending or counting, raise an exception; the line is opened with the requested speed, character size, parity, stop bits and timeouts, and unsupported speeds are refused.",
  forall="three operation sequences through all port states with every single and every pair of failing system calls; seven combinations of line settings", why="No test opens a serial port, and the failures of system calls do not occur in tests.",
  files=["src/utUtil/SerialPort.cpp", "src/utUtil/SerialPort.h"],
  mech=[("SerialPort::open, close, read, send, bytesOnRead, sendBreak, flush", "src/utUtil/SerialPort.cpp")]),
 dict(id="P23", tech="ts", title="Calibration file access reports every failure as a Ubitrack exception",
  statement="Reading a calibration file (text, binary, with timestamp, or dropping it) delivers exactly the stored values, and raises the library's own exception, never a foreign one, if the file cannot be opened, its header is malformed or its content is malformed or incomplete. Writing raises it if the file cannot be opened, if header or content cannot be written, or if buffered data does not reach the file, and otherwise returns with all data transferred.",
  forall="all stored values; every single failing step and all later steps failing, for each of the reading and writing functions", why="The tests write and read good files only.",
  files=["src/utUtil/CalibFile.h"],
  mech=[("readCalibFile, readBinaryCalibFile, readCalibFileDropMeasurement, writeCalibFile, writeBinaryCalibFile", "src/utUtil/CalibFile.h")]),
    dict(id="P24", tech="vg", title="Statistics, clustering and random values equal their definitions",
         statement="Mean, covariance, variance and deviation of a Gaussian (plain, weighted with normalised weights, or of selected values; nothing to estimate from is reported as failure), Mahalanobis distance (singular covariances refused), Gaussian density, correlation over the common length and the parameter covariance (J^T E^-1 J)^-1 from measurement variances equal their definitions. Expectation maximisation and k-means follow responsibilities/weighted moments and nearest mean/mean of members (clusters without values stay) until the change is below the threshold, and returned assignments belong to the returned means; k-means start values are drawn in proportion to the distance to the closest one already chosen. Random numbers, vectors, matrices and poses respect the given limits or mean and deviation per component, each component from a draw of its own, and random rotations are unit quaternions distributed uniformly over all rotations.",
         forall="all values, weights, selections, starting mixtures and clusters, all drawn numbers; fixed small numbers of values and dimensions",
         why="tests compare a handful of random clouds with loose tolerances; a wrong index, weight, denominator or loop-carried state shows only for particular data or in later iterations",
         files=["src/utMath/Stochastic/Gaussian.h", "src/utMath/Stochastic/MahalanobisDistance.h", "src/utMath/Stochastic/Correlation.h", "src/utMath/Stochastic/BackwardPropagation.h", "src/utMath/Stochastic/k_means.h", "src/utMath/Stochastic/expectation_maximization.h", "src/utMath/Stochastic/Weighted.h", "src/utMath/Random/Vector.h"],
         mech=[("estimate_gaussian", "src/utMath/Stochastic/Gaussian.h"), ("MahalanobisDistance", "src/utMath/Stochastic/MahalanobisDistance.h"), ("correlation", "src/utMath/Stochastic/Correlation.h"), ("backwardPropagationDiagonal", "src/utMath/Stochastic/BackwardPropagation.h"), ("k_means", "src/utMath/Stochastic/k_means.h"), ("expectation_maximization", "src/utMath/Stochastic/expectation_maximization.h"), ("Uniform", "src/utMath/Random/Vector.h")]),
    dict(id="P25", tech="vg",
         title="Assignment: optimal one-to-one matching",
         statement="For every matrix of non-negative costs, square or not, the assignment solver ends with a one-to-one matching of rows and columns whose total cost no other matching undercuts, whatever ties or zero costs the matrix has. The match list by row, the match list by column and the mask describe that same matching, and the caller's cost matrix is left as it was.",
         forall="all cost matrices of each analysed shape and all outcomes of the solver's comparisons",
         why="tests try a few fixed matrices; which stars, primes and covers the solver goes through depends on the order of all costs and of their sums, and a slip shows only for some orders or ties",
         files=["src/utMath/Graph/Munkres.h"],
         mech=[("Munkres", "src/utMath/Graph/Munkres.h")]),
    dict(id="P26", tech="vg",
         title="Storage: accesses in bounds, nothing uninitialised, nothing leaked",
         statement="No mathematical, calibration, tracking or serialisation operation, on inputs it accepts or on inputs it refuses with an exception, reads or writes outside its objects, uses storage before it is initialised or after it is released, releases storage twice, or leaves allocated storage unreleased and unreachable when it ends.",
         forall="all inputs of the analysed shapes, all paths through the operation including those ending in an exception",
         why="an out-of-range or uninitialised read, a double release or a leak usually leaves the values a test compares unchanged, and exception paths are not taken by tests",
         files=["src/utMath/Matrix.h", "src/utMath/Vector.h", "src/utMath/Graph/Munkres.h", "src/utAlgorithm", "src/utTracking", "src/utMeasurement", "src/utUtil"],
         mech=[("every analysed operation", "src")]),
    dict(id="P27", tech="vg",
         title="Bundle adjustment refines cameras and points consistently",
         statement="Joint refinement of camera poses and points starts from the given values, minimises exactly the differences between observed and projected image points with their true derivatives, and returns poses with unit rotations and points that project exactly like the optimiser's result. Observations missing for a camera, or surplus ones, are refused with an exception instead of being read or written out of range.",
         forall="all poses, points and observations; several numbers of cameras and points; float and double",
         why="no test runs it; a wrong derivative only slows or biases convergence and a badly normalised result looks plausible",
         files=["src/utAlgorithm/BundleAdjustment.cpp"],
         mech=[("bundleAdjustment, BundleAdjustment function object", "src/utAlgorithm/BundleAdjustment.cpp")]),
   dict(id="P28", tech="vg",
         title="Pose selection for hand-eye calibration picks the nearest matching pairs",
         statement="Selecting calibration pairs forms the relative poses between all pairs of poses (or of neighbours), each the correct motion for its side of the calibration, and aligns rotations by more than a half turn to the same rotation the other way round. For every non-empty cluster the result is the one pair whose eye rotation is nearest to the cluster centre, the hand pose belonging to exactly that eye pose; empty clusters give nothing. Conversions between poses, rotation vectors with translation and dual quaternions denote the same motion.",
         forall="all poses and cluster centres; representative numbers of poses, clusters and assignments; float and double",
         why="no test selects poses; a pair that does not correspond, or a wrong representative, only worsens the calibration",
         files=["src/utAlgorithm/PoseEstimation6D6D/DataSelection.h", "src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp"],
         mech=[("select_6DPoses", "src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp"), ("relative_pose, hemisphere_alignment, pose_cast, DataSelection", "src/utAlgorithm/PoseEstimation6D6D/DataSelection.h")]),
   dict(id="P29", tech="vg",
         title="String archives are lossless; storage uses exactly the chosen protocol",
         statement="Writing numbers, vectors, matrices, rotations, poses (also with covariance), lists and measurements to a string archive stores every item in order, separated by blanks and with enough digits, so that reading the text back gives exactly the same values and consumes all of it; reading more than the text holds, or a number where there is none, is refused with an exception. Serialising an object with a chosen protocol (text, binary or msgpack) writes and reads it once, on the given stream, with that protocol. Unknown protocols are refused with an exception when writing and when reading.",
         forall="all values; representative lists; every item type of the archives and every protocol",
         why="no test uses string archives or the protocol selection; a number with few digits still reads back as something plausible",
         files=["src/utUtil/SimpleStringOArchive.h", "src/utUtil/SimpleStringIArchive.h", "src/utSerialization/Serialization.h"],
         mech=[("SimpleStringOArchive", "src/utUtil/SimpleStringOArchive.h"), ("SimpleStringIArchive", "src/utUtil/SimpleStringIArchive.h"), ("serialize, deserialize by protocol", "src/utSerialization/Serialization.h")]),
   dict(id="P30", tech="fs",
         title="File listing returns exactly the matching entries, sorted",
         statement="Listing a directory returns, sorted by path, exactly the existing files whose whole name matches the given expression and, only if asked for, all its subdirectories; the predefined selections mean image files (jpg, png, bmp in lower or upper case), .cal files, .BoostBinary files and all subdirectories. A path that is a file gives just itself. A path that does not exist, or a listing without any result, is refused with the library's exception; earlier listings have no influence.",
         forall="all directory contents: kind, name and order of the entries (representative numbers of entries and names); every selection",
         why="no test lists files; the order and kinds in which a file system delivers entries (dangling links, directories named like files) are outside a test's control",
         files=["src/utUtil/GlobFiles.cpp", "src/utUtil/GlobFiles.h"],
         mech=[("globFiles", "src/utUtil/GlobFiles.cpp")]),
]
NA = []
