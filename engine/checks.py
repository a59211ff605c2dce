"""Registered checks: which harness crate decides a property and with which settings."""
FL='floating point is read as exact real arithmetic with idealised constants (a double within rounding of a rational multiple of pi stands for it); rounding, overflow to infinity and signed zeros are outside the claim'
INT='machine integers are exact: every operation wraps or traps as the compiled code does'
DEV='code is encoded from the LLVM IR of the dev profile (opt-level 1, overflow checks on)'
CHECKS={}
def c(pid,crate,**k):
    k['crate']=crate
    k.setdefault('assumptions',[FL,DEV])
    CHECKS[pid]=k
for p,b in (('T01','seconds in [-2^61,2^61] for sums (all of i64 for the constructors), nanoseconds in [0,1e9) (all of i32 for normalize)'),
            ('T02','seconds in [-2^61,2^61], leap seconds in [-1000,1000]'),
            ('T03','GPS instants of weeks 0 to 10^6, hints 0 to 10^6'),
            ('T04','days of the years 1201 to 2799 for the round trips; succession of days and time of day: years -4000 to 4000'),
            ('T05','up to 3 polls or steps, at most 3 pending periods per poll, positive periods; instants within the ranges listed under inputs'),
            ('T06','all 64-bit tick counts and rates (rate 16 to 2^40 for absolute time)')):
    c(p,'time',bounds=b,assumptions=[INT,DEV])
for p,b in (('A01','all angles; all unit quaternions, scaled by 0.001 to 1000; axes of length 0.001 to 1000'),
            ('A02','all unit quaternions (scaled by 0.001 to 1000 where any non-zero one is accepted), all vectors, all Euler angles; gimbal lock included'),
            ('A03','all rotation matrices, given by all unit quaternions'),
            ('A04','all pairs of unit quaternions, all vectors'),
            ('A05','all unit quaternions, rates 1e-9 to 1000 and zero, steps to a million either way; Taylor steps: rate components up to 10, step 1, turn below 2 rad (0.05 with angular acceleration)'),
            ('A06','roll and yaw in [-10,10] rad, pitch in [-pi/2,pi/2] with cosine at least 1e-6')):
    c(p,'attitude',bounds=b)
for p,b in (('F01','all points (round trips from spherical and cylindrical coordinates: radius 1e-3 to 1e9, sine of the inclination at least 1e-3)'),
            ('F02','all angles, rates, times and vectors (Earth orientation: times within 1e9 s)')):
    c(p,'coord',bounds=b)
for p,b in (('M01','all entry values; shapes 1x1 to 2x33 and 9x3 on both sides of the blocked-multiplication threshold'),
            ('M02','sizes 1 to 3 (Cholesky to 4; 4x4 in all 24 and 5x5 in six row orders with symbolic diagonal 2 to 10 and fixed other entries), entries within 10; |det| at least 0.1 (2x2), pivots of magnitude 0.1 to 10 in every row order (3x3), 1x1 at least 1e-3; Cholesky factors with diagonal 0.1 to 10'),
            ('M03','dimensions 1 to 6; lengths 1e-6 to 1e6 where normalised, 1e-3 to 1e3 for angles'),
            ('M05','tensors of shapes 3x4x2, 2x3x2, 2x2x2x3, 2x3x2x2 and a 2x3x4 view, views of every shape of rank 1-3 with axes 1-3 and rank 4 with axes 1-2; indices to 9 (40 for views)')):
    c(p,'linalg',bounds=b,cfg=dict(merge=p=='M02'))
for p,b in (('N01','all rates and steps (Euler, trapezoidal); Runge-Kutta: coefficients and steps within 10, states within 100; 2-dimensional linear systems, cubic time dependence'),
            ('N02','up to 3 iterations; function and derivative values arbitrary at every call (within 1000, derivative zero or at least 0.01)'),
            ('N03','up to 4 nodes (5 for knots hit), gaps 0.1 to 10, values within 100')):
    c(p,'num',bounds=b)
for p,b in (('E01','geopotential altitudes -5 km to 80 km by layer (pairs of altitudes within one layer), above 80 km to 1e6 km'),
            ('E02','geometric heights 0 to 1000 km by regime, above to 1e9 km'),
            ('E03','all latitudes; positions 6.3e6 to 1e8 m from the centre and off the polar axis by at least a thousandth of that distance'),
            ('E04','distances 1e3 to 1e9 m, times within 1e9 s, all orientations'),
            ('F03','all latitudes and longitudes, heights -1e5 to 1e9 m')):
    c(p,'models',bounds=b,per={'e03_%s_%d'%(n,k):dict(ctol=1e-9,merge=n!='ellipsoidal') for n in('ellipsoidal','rectangular','force') for k in range(4)})
for p,b,k in (('U01','all values; all listed SI prefixes of metre, second and kilogram',{}),
            ('G01','eye and target within 1e3 of the origin and 0.1 to 1e3 apart, up vector within 10 and off the view axis; fields of view 0.05 to 3 rad; camera pitch with cosine at least 0.01, steps within 1.5 rad',{}),
            ('H01','dimensions 0.1 to 10 (1e-3 to 1e3 for single shapes), densities to 1e4, any orientation matrix with entries within 1, positions within 1e3',{}),
            ('D01','radii and lengths within 100 m, masses within 1e4 kg, fill fractions -2 to 3; up to three tanks',{}),
            ('R01','all 64-bit seeds (every non-zero state is a seed); up to two steps',dict(cfg=dict(mode='fp',ints='bv'),per={'r01_normal':dict(mode='real')})),
            ('S01','3 samples, dimensions 1 to 3, values within 1000',{}),
            ('S02','means within 1000, deviations 1e-3 to 1e3; 3 samples or categories; 1 and 2 dimensions',{}),
            ('K01','matrices 1x2, 3x3 and 2x2, vectors of 2 and 3, grids of 3 points; every floating-point value including infinities and not-a-number',dict(cfg=dict(mode='fp',ints='bv'),per={'k01_norms':dict(mode='real',ints='int')}))):
    c(p,'misc',bounds=b,**k)
for p,b,k in (('O01','up to 3 iterations, dimensions 1 and 2, up to 7 line-search trials per iteration; every cost within 1000 and gradient component within 100 at every call; rates to 1, momentum to 0.9',{}),
            ('O02','up to 3 iterations, dimensions 1 and 2, batches of 1 to 3; every gradient component within 100 at every call; rates to 1, decay to 2',{}),
            ('L01','2 features and 3 samples (loss comparison: 1 feature and 2 samples, logistic 1), data and parameters within 10, labels arbitrary',dict(cfg=dict(simp=True))),
            ('L02','2 features, 5 samples, up to 3 classes, data within 10; prediction: 1 and 2 features, variances 0.1 to 10',{})):
    c(p,'optml',bounds=b,**k)
for p,b,k in (('C01','declinations within 89.9 degrees, parallaxes 0.1 to 1000 mas, proper motions within 1e4 mas/yr, epochs 1900 to 2100; all colour indices within 100, temperatures to 1e6 K',{}),
            ('E05','years 2020 to 2035; dipole part: the equator, all longitudes, heights to 600 km; full degree 12: five latitudes and heights, all longitudes; elements: two sites, every first-degree coefficient and drift',dict(cfg=dict(ctol=1e-9,ground=True)))):
    c(p,'cat',bounds=b,**k)
c('M04','simd',bounds='matrices of 1, 2, 4 and 5 rows by 4 or 6 columns times a vector; products of shapes 1x1x3 to 6x6x6 and up to 21 columns (both sides of the lane counts 4 and 8, with remainders); entries within 1e6',
  assumptions=[FL,DEV,'the x86 kernels are called directly, so the verdict covers processors with and without FMA; the dispatching methods are checked with every processor feature and with none'],
  per={'m04_scalar_%s'%k:dict(cpu='none') for k in 'dot dot_f32 vec4_f64 vec6_f64 vec4_f32 vec6_f32 matrix_f64 matrix_f32'.split()})
c('O03','par',rustflags='--cfg aether_verif',bounds='1 to 5 workers, batches of 2 to 5, up to 2 iterations; every order of whole workers, each started when spawned or later (schedule comparison: bit for bit, every double; update rule: reals, gradients within 100, rates to 1, decay to 2)',
  assumptions=[FL,DEV,'each worker runs without interruption: std::thread is replaced by a sequential stand-in that runs the workers in an order given by inputs'],
  per={'o03_schedule_%s'%k:dict(mode='fp',ints='bv') for k in '2x2 2x3 3x3 3x5 4x4_thorough spare one'.split()})
c('P01','nostd',bounds='both builds, both widths: trigonometry of arguments within 1000 (tangent 1.5), logarithms and roots 1e-3 to 1e3, exponentials within 8, integer powers -3 to 5 of values 0.1 to 8, rounding within 20, angles within 100; sign, order and constants for every bit pattern',
  per={'p01_%s_%s'%(m,k):dict(mode='fp',ints='bv') for m in('bare64','bare32','hosted64','hosted32') for k in('sign','order','constants')})
c('W01','wire',bounds='vectors of 1 and 3, matrices 2x3, 3x2 and 3x3, quaternions, angles, positions and body frames; every bit pattern of every number; every truncation of the bytes',cfg=dict(mode='fp',ints='bv'))
c('V01','viz',bounds='files of up to 26 bytes: headers (a two-byte character included), up to three rows with every digit arbitrary, rows to be skipped, three free bytes; two or three polls and every place where the writer may pause between and during them; replacement, truncation, late appearance and absence of the file',
  assumptions=[FL,'std::fs is replaced by a modelled file: operations succeed while the file exists, a read returns all visible bytes and fails when they start or end inside a character','reading decimal numbers gives their exact decimal value'])
