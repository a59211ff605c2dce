# Source of properties.jsonl.  Edited by hand; tools/gen.py writes the JSON lines and MANIFEST.json.
C='crates/'
CORE=C+'aether_core/src/'
MODELS=C+'aether_models/src/'
CAT=C+'aether_catalogs/src/'
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=hook
    P.append(d)

# ---------------------------------------------------------------- linear algebra
prop('M01','Matrix and vector products equal the textbook sum on every code path',
 'Every form of matrix-matrix and matrix-vector product (owned or borrowed operands, small sizes and the blocked path for large ones) has entries equal to the row-by-column sums of products. Transpose, trace, outer product, addition, subtraction, negation and scaling agree entrywise with their definitions.',
 ['inputs'],'all entry values, for every operator form and for sizes on both sides of the blocked-multiplication threshold, including non-square and non-multiple-of-block shapes',
 'tests multiply a few constant matrices; an indexing or blocking error shows only for particular shapes and asymmetric values',
 [CORE+'math/matrix.rs',CORE+'math/vector.rs',CORE+'math/algorithms.rs'],[('Mul impls and mul_matrix_strided',CORE+'math/matrix.rs'),('Vector operators',CORE+'math/vector.rs')])
prop('M02','Matrix inverse, determinant and solves satisfy their defining equations',
 'Whenever a matrix inverse is returned, its product with the matrix is the identity; the determinant equals the Leibniz sum; LU and Cholesky solutions x satisfy A x = b. A matrix is never reported singular (or a symmetric positive definite one rejected) when its pivots are well away from zero, whichever row exchanges pivoting performs.',
 ['inputs'],'all matrices of sizes 1 to 3 (4 where stated) with symbolic entries, every pivoting order, every right-hand side',
 'tests use a couple of constant systems that exercise one pivot order',
 [CORE+'math/matrix.rs',CORE+'numerical_methods/solvers/lu.rs',CORE+'numerical_methods/solvers/spd.rs'],
 [('inverse_gauss_jordan, determinant, inverse',CORE+'math/matrix.rs'),('LU factorisation and solve',CORE+'numerical_methods/solvers/lu.rs'),('Cholesky solve',CORE+'numerical_methods/solvers/spd.rs')])
prop('M03','Vector algebra obeys its identities',
 'Dot product, cross product, norm, normalisation, component-wise operations and angle-between agree with their definitions for all finite vectors: the cross product is orthogonal to both operands and right-handed, a normalised vector has unit length and the same direction, and the angle has the right cosine and lies in [0, pi].',
 ['inputs'],'all real component values, dimensions 2 to 6','tests use axis-aligned or hand-picked vectors',
 [CORE+'math/vector.rs'],[('dot, cross, norm, normalize, angle_between',CORE+'math/vector.rs')])
prop('M04','SIMD kernels compute the same result as the scalar code',
 'Each public SIMD kernel (matrix-matrix, matrix-vector and dot product) returns the same values as the scalar definition for every input and never reads or writes outside its operands.',
 ['inputs','configurations'],'all lane values, on every matrix size the kernel is specialised for or falls back on','tests compare one random or constant instance; lane order and tail handling need asymmetric values',
 [CORE+'math/arch/x86/matrix_simd.rs',CORE+'math/arch/x86/vector_simd.rs'],[('x86 kernels',CORE+'math/arch/x86/matrix_simd.rs')])
prop('M05','Tensor indexing is a row-major bijection and bounds-safe',
 'For rank-3 and rank-4 tensors and tensor views, writing through an in-range multi-index changes exactly the element read back through the same index and no other, with the flat layout being row-major. Out-of-range access never silently aliases another element.',
 ['inputs','histories'],'all in-range index tuples and all out-of-range ones for the stated shapes, all element values','tests read a few positions of one tensor',
 [CORE+'math/tensor.rs'],[('offset computation and accessors',CORE+'math/tensor.rs')])
# ---------------------------------------------------------------- attitude
prop('A01','Every rotation built from angles or an axis is a proper rotation',
 'Direction cosine matrices built from elementary angles, Euler angles, unit quaternions, or an axis and angle satisfy R R^T = I and det R = +1 and quaternions built from them have unit norm, for every angle. The elementary rotations are passive: a rotation about an axis by t maps the next axis to cos t along itself and +sin t / -sin t as a change of basis.',
 ['inputs'],'all angles and all non-zero axes','tests sample a few angles, usually in one quadrant and one axis at a time',
 [CORE+'attitude/dcm.rs',CORE+'attitude/euler.rs',CORE+'attitude/quaternion.rs'],[('rotate_x/y/z, From<Euler>',CORE+'attitude/dcm.rs'),('Quaternion constructors',CORE+'attitude/quaternion.rs')])
prop('A02','Quaternion, DCM and Euler angles of one attitude rotate vectors identically',
 'Converting an attitude between Euler angles, direction cosine matrix and unit quaternion by any of the provided conversions never changes the passive rotation it represents: rotating any vector by the original and by the converted attitude gives the same vector.',
 ['inputs'],'all Euler angles, all unit quaternions, all vectors','tests check isolated conversions at one attitude, where a transposed matrix or a swapped sign can cancel',
 [CORE+'attitude/quaternion.rs',CORE+'attitude/dcm.rs',CORE+'attitude/euler.rs',CORE+'attitude/rotation.rs'],
 [('conversions',CORE+'attitude/quaternion.rs'),('conversions',CORE+'attitude/euler.rs'),('conversions',CORE+'attitude/dcm.rs')])
prop('A03','A rotation matrix converts to a quaternion for every attitude',
 'Converting any proper rotation matrix to a quaternion always succeeds, yields a unit quaternion, and that quaternion represents the same rotation, including at 180-degree rotations about any axis.',
 ['inputs'],'all rotation matrices (parameterised by all unit quaternions)','each of the four extraction branches is reached only from its own region of attitudes',
 [CORE+'attitude/quaternion.rs'],[('TryFrom<DCM> for Quaternion',CORE+'attitude/quaternion.rs')])
prop('A04','Composing attitudes is associative chaining; inverse undoes',
 'Composing two rotations gives the rotation that results from applying one after the other, in the same order for quaternions, matrices and the rotation wrapper; composing with the inverse gives the identity.',
 ['inputs','histories'],'all pairs of attitudes and all vectors','tests compose rotations about a single axis, where order does not matter',
 [CORE+'attitude/rotation.rs',CORE+'attitude/quaternion.rs',CORE+'attitude/dcm.rs'],[('compose, inverse',CORE+'attitude/rotation.rs'),('Mul',CORE+'attitude/quaternion.rs')])
prop('A05','Attitude integration keeps a unit quaternion and turns by rate times time',
 'Propagating an attitude by a constant angular velocity for a time step yields a unit quaternion that differs from the previous attitude by a rotation about the angular-velocity direction by rate times step, and a zero rate leaves the attitude unchanged.',
 ['inputs','histories'],'all unit quaternions, all angular velocities, all steps','tests use one axis and one small step',
 [CORE+'attitude/rotation.rs',CORE+'attitude/quaternion.rs'],[('integrate',CORE+'attitude/rotation.rs')])
prop('A06','Euler angles survive a round trip away from gimbal lock',
 'Euler angles with pitch strictly inside (-90, 90) degrees are recovered, modulo full turns, from the direction cosine matrix or the quaternion built from them.',
 ['inputs'],'all roll, yaw and all pitch strictly inside the range','tests sample first-quadrant angles, which hide atan quadrant mistakes',
 [CORE+'attitude/euler.rs'],[('From<DCM>/From<Quaternion> for Euler',CORE+'attitude/euler.rs')])
# ---------------------------------------------------------------- coordinates and frames
prop('F01','Cartesian, spherical and cylindrical coordinates convert back and forth',
 'Converting a point between Cartesian, spherical and cylindrical coordinates and back returns the same point, for every point off the singular axis, and the converted coordinates satisfy the defining equations (radius, azimuth, inclination or height).',
 ['inputs'],'all points with the singular axis excluded','tests use first-octant points',
 [CORE+'coordinate/cartesian.rs',CORE+'coordinate/spherical.rs',CORE+'coordinate/cylindrical.rs'],[('From impls',CORE+'coordinate/spherical.rs')])
prop('F02','Frame changes are rotations and invert each other',
 'Transforming a vector or position between inertial, Earth-fixed, local-level, body, wind frames preserves its length (after the translation where there is one), follows the documented axis directions, and the forward and backward transforms of each pair are mutual inverses.',
 ['inputs'],'all vectors, all attitudes, angles of attack, sideslip angles, dates, latitudes and longitudes','tests check one conversion at one angle',
 [CORE+'reference_frame/transforms.rs',CORE+'reference_frame/body.rs',CORE+'reference_frame/itrf.rs'],[('frame transforms',CORE+'reference_frame/transforms.rs')])
prop('F03','WGS84 geodetic positions map to the ellipsoid and back',
 'A geodetic position at zero altitude maps to a point on the reference ellipsoid, and changing altitude moves the Earth-centred point by exactly that distance along the outward surface normal, for every latitude and longitude; the closed-form and iterative inverses recover latitude, longitude and altitude; Earth-fixed and celestial frames turn into each other at the rotation rate.',
 ['inputs'],'all latitudes, longitudes and altitudes','tests convert a single site',
 [MODELS+'terrestrial/wgs84/transforms/mod.rs'],[('geodetic_to_ecef',MODELS+'terrestrial/wgs84/transforms/mod.rs')])
# ---------------------------------------------------------------- numerical methods
prop('N01','Integrators reproduce polynomial dynamics of their order exactly',
 'One step of the Euler, trapezoidal and fourth-order Runge-Kutta integrators equals the exact Taylor step of their order for linear systems and integrates time-polynomial right-hand sides of their degree exactly, for every state and step size.',
 ['inputs','programs'],'all states, step sizes, linear coefficients','tests integrate one exponential with a tolerance that hides wrong weights at high order',
 [CORE+'numerical_methods/integration/rk4.rs',CORE+'numerical_methods/integration/euler.rs',CORE+'numerical_methods/integration/trapezoidal.rs'],[('step functions',CORE+'numerical_methods/integration/rk4.rs')])
prop('N02','Newton iteration reports success only at a converged point',
 'The root finder returns success only when the last Newton step was smaller than the tolerance, its steps follow x - f(x)/f\'(x), it never performs more than the allowed number of iterations and it reports failure otherwise.',
 ['inputs','programs','histories'],'all starting points, tolerances, iteration limits up to the bound, and arbitrary function and derivative values returned at each call','tests run one function that converges',
 [CORE+'numerical_methods/solvers/newton.rs'],[('newton loop',CORE+'numerical_methods/solvers/newton.rs')])
prop('N03','Interpolants pass through their nodes and reproduce their function class',
 'Linear, polynomial and cubic-spline interpolation return the node value at each node; linear interpolation reproduces affine functions and polynomial interpolation reproduces every polynomial of its degree; the cubic spline is twice continuously differentiable with natural ends.',
 ['inputs'],'all strictly increasing node positions and all node values, for 2 to 4 nodes, all query points','tests use evenly spaced nodes and one function',
 [C+'aether_interp/src/lerp.rs',C+'aether_interp/src/polynomial.rs',C+'aether_interp/src/spline.rs'],[('lerp',C+'aether_interp/src/lerp.rs'),('PolynomialInterpolator',C+'aether_interp/src/polynomial.rs'),('CubicSpline',C+'aether_interp/src/spline.rs')])
# ---------------------------------------------------------------- time
prop('T01','Durations are exact and normalised',
 'A duration always holds a whole number of seconds plus nanoseconds in [0, 1e9), equals the exact amount it was built from, and addition, subtraction and comparison act as on the exact number of nanoseconds, for positive and negative spans.',
 ['inputs','histories'],'all 64-bit second and nanosecond inputs','there are no tests of this module; carries, borrows and negative spans need particular values',
 [C+'aether_time/src/time/duration.rs'],[('constructors and arithmetic',C+'aether_time/src/time/duration.rs')])
prop('T02','Time scales convert back and forth with the right offsets',
 'Converting an instant between Unix, UTC, TAI and GPS scales and back returns the same instant; TAI leads UTC by the configured leap-second count plus ten and GPS by that count minus nine seconds.',
 ['inputs','configurations'],'all instants whose conversions stay within 64-bit range and all leap-second settings','no tests of this module',
 [C+'aether_time/src/time/time.rs'],[('scale conversions',C+'aether_time/src/time/time.rs')])
prop('T03','GPS week and time of week reconstruct the instant, with rollover resolved',
 'The GPS week, seconds of week and subsecond derived from an instant lie in range and reconstruct it; a truncated 10-bit week with a hint resolves to the unique congruent week nearest the hint.',
 ['inputs'],'all non-negative GPS instants within range; all truncated weeks and hints','no tests; rollovers are rare by nature',
 [C+'aether_time/src/time/gps.rs'],[('to_gps_week',C+'aether_time/src/time/gps.rs')])
prop('T04','Civil date conversion is a bijection on the Gregorian calendar',
 'Converting an instant to a UTC calendar date-time gives month, day and time fields in range (leap years respected), converting back gives the same instant, and later instants give later dates.',
 ['inputs'],'all instants within the stated range of years','no tests; errors sit at century and leap-year boundaries',
 [C+'aether_time/src/time/schedule.rs'],[('UtcDateTime conversions',C+'aether_time/src/time/schedule.rs')])
prop('T05','Timers, alarms and schedules fire exactly when due',
 'A timer, alarm or schedule with a positive period never fires before its due time, fires at the first poll that reaches it, and afterwards is due at the next multiple of its period (or next hour, day or yearly date) after the poll: overshoot never drifts the phase. A one-shot schedule fires once only, and a set of timers fires each timer exactly as it would alone.',
 ['histories','inputs'],'all sequences of up to three polls or steps, all positive periods, all instants within the bounds (negative ones too)','no tests; late polls and negative times need histories',
 [C+'aether_time/src/time/schedule.rs'],[('UtcSchedule, UtcAlarm',C+'aether_time/src/time/schedule.rs'),('TimerEvent, TimerSet',C+'aether_time/src/time/mission.rs')])
prop('T06','Mission clock maps ticks to mission time consistently',
 'The mission clock converts a hardware tick difference to elapsed time exactly, rounded down to the nanosecond, for every tick rate and across wrap-around of the tick counter, and absolute TAI, UTC and GPS time are the mission epoch plus that elapsed time.',
 ['histories','inputs'],'all 64-bit tick counts, wrap-arounds included, all tick rates, all epochs','no tests',
 [C+'aether_time/src/time/mission.rs'],[('mission clock',C+'aether_time/src/time/mission.rs')])
# ---------------------------------------------------------------- environment models
prop('E01','Standard atmosphere layers join continuously and obey the gas law',
 'In the international standard atmosphere, temperature and pressure are continuous across layer boundaries, temperature follows the tabulated lapse rates, pressure is positive, obeys the hydrostatic equation and decreases with altitude, density obeys the ideal-gas law, geometric and geopotential altitude convert into each other, and altitudes above the model are reported as errors.',
 ['inputs'],'all altitudes, including each layer boundary','tests probe a few altitudes with loose tolerances',
 [MODELS+'terrestrial/atmospheres/isa.rs'],[('layer selection and formulas',MODELS+'terrestrial/atmospheres/isa.rs')])
prop('E02','US standard atmosphere is total, continuous and physical up to its ceiling',
 'The 1976 US standard atmosphere returns a positive temperature for every geometric height from 0 to 1000 km without panicking, within 0.1 K of the published base values and joining continuously at each regime boundary; pressure is hydrostatic below 91 km and joins within 0.3 percent; density and speed of sound obey the ideal-gas and acoustic relations; heights above the ceiling are reported as errors, also through the Earth model.',
 ['inputs'],'all heights from 0 to 1000 km','tests stop well below the upper regimes',
 [MODELS+'terrestrial/atmospheres/ussa.rs'],[('temperature regimes',MODELS+'terrestrial/atmospheres/ussa.rs')])
prop('E03','Earth gravity follows the level ellipsoid; frame forces follow their laws',
 'Normal gravity on the ellipsoid follows the Somigliana closed form (equatorial value at the equator, polar at the poles, rising between, same in both hemispheres). The gravity vector at any position outside the planet is that of the rotating level ellipsoid, in ellipsoidal and in Earth-fixed components; gravitational force is mass times it; Coriolis, centrifugal force and gravity-gradient torque follow their defining cross products.',
 ['inputs'],'all latitudes, altitudes and positions','tests probe one latitude',
 [MODELS+'terrestrial/wgs84/gravity/mod.rs',MODELS+'terrestrial/earth.rs'],[('gravity functions',MODELS+'terrestrial/wgs84/gravity/mod.rs')])
prop('E04','Lunar gravity, orbit and frames are consistent',
 "Lunar point-mass gravity is attractive and inverse-square, force and gravity-gradient torque follow from it, mean motion and period obey their definitions and Kepler's third law, and lunar inertial, fixed and celestial frames turn at the sidereal rate from the epoch orientation and convert into each other without loss.",
 ['inputs'],'all positions, epochs and vectors','tests probe one point',
 [MODELS+'lunar/moon.rs',MODELS+'lunar/orbit.rs',MODELS+'lunar/transforms.rs'],[('moon model',MODELS+'lunar/moon.rs')])
prop('E05','The magnetic field is the published expansion and its elements agree',
 'At every date and longitude the north, east and down components of the field and of its secular variation are those of the spherical-harmonic expansion with the published coefficients (Schmidt semi-normalised, degrees 1 to 12, rotated from geocentric to geodetic axes); the horizontal and total intensity, declination, inclination and their yearly rates agree with the components; and the coefficients change linearly in time from the model epoch.',
 ['inputs'],'all dates and longitudes at the stated latitudes and heights; every field vector for the derived elements','tests compare with published values at a few dozen points, to their printed rounding',
 [CAT+'wmm/mod.rs'],[('field evaluation, Legendre recursion, element rates',CAT+'wmm/mod.rs')])
# ---------------------------------------------------------------- catalogs
prop('C01','Star motion, photometry and colours are consistent and in range',
 'Catalogue positions lie at the parallax distance in the propagated direction and do not move at the catalogue epoch, velocities are tangential, position uncertainties grow with time from the reference epoch, colour temperatures interpolate their table within its range and fall with colour index, and star colours are RGB values in [0, 1] for every temperature or colour index.',
 ['inputs'],'all right ascensions, declinations, parallaxes, motions, magnitudes, colour indices, epochs','tests use one or two stars',
 [CAT+'star_catalogs/mod.rs',CAT+'star_catalogs/color.rs'],[('star functions',CAT+'star_catalogs/mod.rs')])
# ---------------------------------------------------------------- randomness, stats, ML, optimisation
prop('R01','Random reals lie in [0, 1) and the generator state never sticks at zero',
 'Every generated real lies in [0, 1) in single and double precision, the generator never reaches the absorbing zero state whatever its seed (zero included), its state step is injective, and equal seeds give equal streams.',
 ['inputs','histories'],'all 2^64 seeds and generator states','tests draw a few thousand values from one seed; rounding up to 1.0 needs one value in 2^24 or rarer',
 [C+'aether_rand/src/randomizers/xor_shift.rs'],[('XorShift',C+'aether_rand/src/randomizers/xor_shift.rs')])
prop('S01','Covariance and correlation satisfy their defining identities',
 'Sample mean, covariance, cross-covariance and correlation equal their definitions, are symmetric, have non-negative variances and correlations in [-1, 1]; correlation and deviations rebuild the covariance; too few samples, unequal counts and axes without variance (at most machine epsilon) are reported.',
 ['inputs'],'all sample values for the stated sample counts and dimensions','tests use one small data set',
 [C+'aether_stats/src/covariance.rs'],[('covariance',C+'aether_stats/src/covariance.rs')])
prop('S02','Probability distributions are normalised and fitted to their samples',
 'Bernoulli and categorical probabilities are non-negative and sum to one and equal sample frequencies when fitted; the Gaussian density has its closed form, is symmetric and falls away from its mean; the fitted Gaussian has the sample mean and (maximum-likelihood) variance, positive even for equal samples; a Gaussian sample is mean plus deviation times a standard sample; the multivariate normal density has its closed form.',
 ['inputs'],'all parameters and outcomes','tests use valid parameters only',
 [C+'aether_stats/src/distributions/'],[('distributions',C+'aether_stats/src/distributions/gaussian.rs')])
prop('L01','Model training steps follow the gradient of the documented loss',
 'For linear, ridge and logistic regression, perceptron and support vector machine, one training epoch and one optimiser step move the parameters by the negative learning rate times the gradient of the documented loss on the given batch (perceptron epoch: the mistake rule), the gradient handed to the optimiser is the derivative of the loss handed to it, predictions evaluate the fitted model, and an empty batch changes nothing.',
 ['inputs','histories'],'all data, labels, initial parameters and learning rates for the stated sizes','tests check that training converges on one data set, which tolerates a wrong gradient scale',
 [C+'aether_ml/src/regression/',C+'aether_ml/src/classification/'],[('fit',C+'aether_ml/src/regression/linear.rs')])
prop('L02','Generative classifiers pick the class of highest posterior score',
 'Linear and quadratic discriminants and Gaussian naive Bayes estimate the per-class means, (co)variances and priors of their training data, and predict a class whose discriminant score (log prior plus Gaussian log likelihood) is maximal.',
 ['inputs'],'all training data and queries for the stated sizes','tests use well-separated clusters',
 [C+'aether_ml/src/classification/lda_qda.rs',C+'aether_ml/src/classification/naive_bayes.rs'],[('predict',C+'aether_ml/src/classification/lda_qda.rs')])
prop('O01','Gradient descent stays in its box, never increases cost, and reports truthfully',
 'Every iterate after a step lies within the bounds, each accepted line-search step satisfies the sufficient-decrease condition so the cost never increases under line search, the fixed step is the projected x + lr (-g + momentum v), convergence is reported only when the gradient norm or the step norm is within its tolerance, the returned cost is the cost at the returned point, and the iteration limit is respected.',
 ['inputs','programs','histories'],'all starting points, bounds, options and arbitrary cost and gradient values, up to the iteration bound','tests minimise one quadratic',
 [C+'aether_opt/src/gradient_descent/basic.rs'],[('solve loop',C+'aether_opt/src/gradient_descent/basic.rs')])
prop('O02','Stochastic descent follows the averaged batch gradient and its schedule',
 'Each iteration asks the sampler for exactly the configured number of gradients at the current point and moves by x + a (-mean gradient + momentum v) projected onto the bounds, with a = lr0 / (1 + decay k); it stops exactly when the (bias-corrected) moving average of the gradient norm, the cost or the step is within tolerance and the minimum number of iterations is over; the returned cost is that of the returned point.',
 ['inputs','histories'],'all data, shuffles and options for the stated sizes','tests check convergence on one problem',
 [C+'aether_opt/src/gradient_descent/stochastic.rs'],[('epoch loop',C+'aether_opt/src/gradient_descent/stochastic.rs')])
prop('O03','Parallel stochastic descent gives the same result for every thread schedule',
 'The result of multi-threaded stochastic descent, bit for bit, does not depend on when and in which order the workers run; every worker and iteration draws from its own random stream, the batch is drawn exactly once in total, and the iterates follow the averaged gradient, momentum, rate schedule, box and stopping rules of the sequential method, with iterations, cost and convergence reported truthfully.',
 ['schedules','inputs'],'all orders of workers, sample values and settings','one schedule is observed per run',
 [C+'aether_opt/src/gradient_descent/stochastic_parallel.rs'],[('thread::scope workers',C+'aether_opt/src/gradient_descent/stochastic_parallel.rs')])
# ---------------------------------------------------------------- shapes, fluids, units, graphics, test helpers
prop('H01','Solid mass properties are physical and combine by the parallel-axis theorem',
 'Volume, mass and principal inertia of sphere, cylinder and rectangular prism equal the closed-form integrals and satisfy the triangle inequality; adding (or cutting out) a solid at a pose adds (or subtracts) volume, mass, first moments and the inertias about a common point, with symmetric inertia about the combined centre of mass; the two ways of combining agree; solids without positive mass or volume are reported as having no mass properties.',
 ['inputs','histories'],'all positive dimensions, densities and poses','tests use one size per shape',
 [C+'aether_shapes/src/'],[('Solid, MassModel',C+'aether_shapes/src/attributes.rs')])
prop('D01','Fluid containers respect their limits and aggregate conservatively',
 'Usable volume and propellant mass follow from the geometric volume, the fill fraction clamped to [0, 1] and the density, are never negative and never exceed the tank; the fluid\'s inertia equals the closed form of its shape, with a negative mass counting as zero; total mass and inertia of several tanks are the sums over the tanks.',
 ['inputs','histories'],'all amounts, limits and steps','no test covers the limits',
 [C+'aether_fluids/src/lib.rs'],[('fluids',C+'aether_fluids/src/lib.rs')])
prop('U01','Unit conversions use the SI prefix factors and invert exactly',
 'Constructing a length, time or mass with any SI prefix and converting it to the base unit multiplies by that prefix\'s power of ten, converting the base unit to a prefixed one divides by it, going there and back returns the same value, and adding, subtracting, negating, scaling and dividing quantities acts on their values.',
 ['inputs'],'all values, all pairs of units','tests convert a few values between a few units',
 [C+'aether_units/src/'],[('prefix conversion',C+'aether_units/src/si/si_prefix.rs')])
prop('G01','Cameras and view transforms are rigid and point where asked',
 'The view transform keeps lengths and angles, takes the eye to the origin and the target onto the negative view axis at its distance, and leaves the up vector upright on screen; the (row-major, column-vector) perspective matrix maps the near and far planes to the clip limits and scales width and height by aspect ratio and field of view; translating a transform moves its argument first and translations add. The orbit camera looks along its yaw and pitch, its axes are orthonormal with a level right axis, it stands at its distance from its target, yaw and pitch increments add, and its reported yaw and pitch are those of its view direction. No claim is made about handedness or pitch limits.',
 ['inputs','histories'],'all eye, target and up vectors in general position; all camera inputs','tests check one view',
 [C+'aether_graphics/src/graphics/transforms.rs',C+'aether_graphics/src/cameras/orbit_camera.rs'],[('look_at, perspective',C+'aether_graphics/src/graphics/transforms.rs')])
prop('K01','Assertion helpers accept exactly what lies within tolerance',
 'The library\'s matrix and vector comparison helpers pass exactly when every entry is within the stated tolerance, finiteness and symmetry assertions fail on any offending entry, the maximum differences and grid errors bound every entry including not-a-number ones, and Frobenius norms equal their definition.',
 ['inputs'],'all entry values including non-finite ones','helpers are only exercised on passing cases',
 [C+'aether_test/src/assert/'],[('assertion macros and functions',C+'aether_test/src/assert/matrix.rs')])
prop('P01','Elementary functions mean the same with and without the standard library',
 'Whichever build is chosen, the scalar abstraction that all generic numerics use gives the standard meaning of every operation for single and double precision: trigonometric functions and their inverses (arguments in order), roots, exponentials and logarithms to the stated base, integer and real powers, rounding, absolute value, sign and copied sign (bit for bit, signed zeros included), minimum and maximum that ignore a single not-a-number, degree and radian conversion, constants and numeric casts.',
 ['inputs'],'all arguments in the stated ranges, every bit pattern for sign, order and constants, both builds and both precisions','the test suite runs with one feature set, so the other build\'s implementation is never executed, and each function is sampled at most at a point or two',
 [CORE+'real/no_std_impl.rs',CORE+'real/std_impl.rs',CORE+'real/real.rs',CORE+'utils/angle_conversion.rs'],[('Real for f32 and f64 without the standard library',CORE+'real/no_std_impl.rs'),('Real for f32 and f64 with it',CORE+'real/std_impl.rs'),('angle conversion',CORE+'utils/angle_conversion.rs')])
prop('W01','Encoding then decoding gives the same value back and refuses anything else',
 'Vectors, matrices, quaternions, Euler angles, direction cosine matrices, positions and body frames survive both their binary encoding and their serde form bit for bit, in exactly the expected size; truncated input, a missing or surplus row, column or element, and unreadable elements are refused; and a decoding that fails part-way releases every element it had built exactly once.',
 ['inputs','fault_sequences'],'all component bit patterns; every truncation point; every combination of row and column counts up to 3 and position of an unreadable element','one or two round trips of fixed values are tested, failures in the middle of a matrix never',
 [CORE+'math/matrix.rs',CORE+'math/vector.rs',CORE+'coordinate/cartesian.rs',CORE+'reference_frame/body.rs',CORE+'reference_frame/asm.rs'],[('Encode, Decode, BorrowDecode, Serialize, Deserialize of Matrix',CORE+'math/matrix.rs'),('Serialize, Deserialize of Vector',CORE+'math/vector.rs')])
prop('V01','Real-time CSV tailing delivers every complete row once, in order',
 'Tailing a growing CSV file delivers each complete row exactly once and in order, however the writer splits its writes (inside numbers, characters or line ends, and while the reader is at work), and never delivers a partial row. A file that was replaced or cut short, other columns, and starting again begin afresh with the current content; rows without numbers in the chosen columns are skipped; a point limit keeps the latest rows; a missing file delivers nothing and unknown columns are reported.',
 ['schedules','histories','fault_sequences'],'all ways a writer can split and interleave its appends','tests write whole files',
 [C+'aether_viz/src/realtime.rs'],[('tail reader',C+'aether_viz/src/realtime.rs')])
