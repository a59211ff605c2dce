T='crates/aether_time/src/time/'
A='crates/aether_core/src/attitude/'
CORE={'aether_core':['std']}
TIME={'aether_time':[]}
PRE='''use aether_core::attitude::{DirectionCosineMatrix as D, Euler, Quaternion, Rotation};
use aether_core::coordinate::Cartesian; use aether_core::math::{Matrix, Vector}; use aether_core::reference_frame::{Body, ICRF};
#[allow(dead_code)] type Q = Quaternion<f64, ICRF<f64>, Body<f64>>;
#[allow(dead_code)] fn near(a: f64, b: f64) { assert!((a - b).abs() < 1e-9, "{a} {b}"); }
#[allow(dead_code)] fn unused() { let _: Option<(Matrix<f64, 3, 3>, Vector<f64, 3>, Cartesian<f64, Body<f64>>, Euler<f64, ICRF<f64>, Body<f64>>, D<f64, ICRF<f64>, Body<f64>>, Rotation<f64, ICRF<f64>, Body<f64>>)> = None; }
'''
SEEDS=[
dict(id='t01-ref-add-borrow',property='T01',deps=TIME,edits=[(T+'duration.rs','''impl<TS> core::ops::Sub<&Time<TS>> for &Time<TS> {
    type Output = Duration;

    fn sub(self, rhs: &Time<TS>) -> Duration {
        let mut sec = self.sec - rhs.sec;
        let mut nano_sec = self.nano_sec - rhs.nano_sec;
        if nano_sec < 0 {
            sec -= 1;
            nano_sec += 1_000_000_000;
        }
        Duration { sec, nano_sec }''','''impl<TS> core::ops::Sub<&Time<TS>> for &Time<TS> {
    type Output = Duration;

    fn sub(self, rhs: &Time<TS>) -> Duration {
        let sec = self.sec - rhs.sec;
        let nano_sec = self.nano_sec - rhs.nano_sec;
        if nano_sec < 0 && sec > 0 {
            return Duration { sec: sec - 1, nano_sec: nano_sec + 1_000_000_000 };
        }
        Duration { sec, nano_sec }''')],
 needs='difference of two borrowed instants less than a second apart (or negative) with a nanosecond borrow',breaks='the span keeps negative nanoseconds: not normalised, comparisons with it are wrong',
 main='''use aether_time::time::*;
fn main() { let (a, b) = (Time::<UTC>::new(5, 100), Time::<UTC>::new(5, 200)); let d = &a - &b; assert!(d.sec == -1 && d.nano_sec == 999_999_900, "{d:?}");
 let d = &Time::<UTC>::new(9, 100) - &b; assert!(d.sec == 3 && d.nano_sec == 999_999_900); }
'''),
dict(id='t01-micros-trunc',property='T01',deps=TIME,edits=[(T+'duration.rs','nano_sec: ((us % 1_000_000) * 1_000) as i32,','nano_sec: ((us % 1_000_000).abs() * 1_000) as i32,')],
 needs='a negative span in microseconds that is not a whole number of seconds',breaks='from_micros of a negative count yields the wrong amount',
 main='''use aether_time::time::*;
fn main() { let d = Duration::from_micros(-1); assert!(d.sec == -1 && d.nano_sec == 999_999_000, "{d:?}"); let d = Duration::from_micros(1_500_000); assert!(d.sec == 1 && d.nano_sec == 500_000_000); }
'''),
dict(id='t02-gps-tai',property='T02',deps=TIME,edits=[(T+'time.rs','''    pub fn to_tai(self) -> Time<TAI> {
        self.to_utc().to_tai()
    }''','''    pub fn to_tai(self) -> Time<TAI> {
        // TAI leads GPS by the 19 s fixed at the GPS epoch
        Time::<TAI>::new(self.sec + UNIX_GPS_EPOCH + 19 + (tai_minus_utc() as i64 - 37).max(0), self.nano_sec)
    }''')],
 needs='a leap-second count above the built-in 27, then a GPS to TAI conversion',breaks='GPS to TAI is no longer the inverse of TAI to GPS once another leap second is announced',
 main='''use aether_time::time::*;
fn main() { for l in [27, 18, 28] { set_leap_seconds(l); let t = Time::<TAI>::new(1_700_000_000, 5); let u = t.to_gps().to_tai(); assert!(t.sec == u.sec, "leap {l}: {} {}", t.sec, u.sec); } }
'''),
dict(id='t05-interval-late',property='T05',deps=TIME,edits=[(T+'schedule.rs','''                while self.next_fire <= now {
                    self.next_fire = self.next_fire + period;
                }''','''                self.next_fire = self.next_fire + period;
                if self.next_fire <= now {
                    self.next_fire = next_interval(now, period);
                }''')],
 needs='a poll late by more than one whole period',breaks='after a long delay the schedule loses its phase: due times drift off the multiples of the period',
 main='''use aether_time::time::*;
fn main() { let mut s = UtcSchedule::new(Time::<UTC>::new(0, 0), Recurrence::Interval(Duration::from_secs(10)));
 assert!(!s.check(Time::<UTC>::new(9, 0))); assert!(s.check(Time::<UTC>::new(11, 0))); assert_eq!(s.next_fire().sec, 20); assert!(s.check(Time::<UTC>::new(47, 0))); assert_eq!(s.next_fire().sec, 50); }
'''),
dict(id='t04-century',property='T04',deps=TIME,edits=[(T+'schedule.rs','let yoe = (doe - doe / 1_460 + doe / 36_524 - doe / 146_096) / 365;','let yoe = (doe - doe / 1_460 + doe / 36_524) / 365;')],
 needs='29 February of a year divisible by 400 (such as 2000-02-29)',breaks='that one day of a 400-year cycle converts to a wrong date',
 main='''use aether_time::time::*;
fn main() { let d = Time::<UTC>::new(951_782_400, 0).to_utc_datetime(); assert!(d.year == 2000 && d.month == 2 && d.day == 29, "{d:?}"); let d = Time::<UTC>::new(951_868_800, 0).to_utc_datetime(); assert!(d.month == 3 && d.day == 1); }
'''),
dict(id='t06-ticks-u64',property='T06',deps=TIME,edits=[(T+'mission.rs','''        let dt = now.wrapping_sub(self.ticks0);
        let sec = (dt / self.ticks_per_sec) as i64;
        let frac = (dt % self.ticks_per_sec) as u128;
        let nano = ((frac * 1_000_000_000u128) / (self.ticks_per_sec as u128)) as i32;
        Duration { sec, nano_sec: nano }''','''        let dt = now.wrapping_sub(self.ticks0);
        let sec = (dt / self.ticks_per_sec) as i64;
        let frac = dt % self.ticks_per_sec;
        let nano = if self.ticks_per_sec <= u32::MAX as u64 {
            (frac * 1_000_000_000 / self.ticks_per_sec) as i32
        } else {
            (frac / (self.ticks_per_sec / 1_000_000_000)) as i32
        };
        Duration { sec, nano_sec: nano }''')],
 needs='a tick rate above 2^32 Hz that is not a multiple of 1 GHz',breaks='elapsed nanoseconds are wrong (even out of range) for very fast counters',
 main='''use aether_time::time::*;
fn main() { let k = TimeKeeper::<UTC>::new(MissionEpoch::new_tai(Time::<TAI>::new(0, 0)), 0, 5_900_000_000); let t = k.t_plus(5_899_999_999); assert!(t.sec == 0 && t.nano_sec == 999_999_999, "{} {}", t.sec, t.nano_sec);
 let k = TimeKeeper::<UTC>::new(MissionEpoch::new_tai(Time::<TAI>::new(0, 0)), 0, 1000); assert_eq!(k.t_plus(1001).nano_sec, 1_000_000); }
'''),
dict(id='t03-tow-wrap',property='T03',deps=TIME,edits=[],needs='',breaks='',main=''),
dict(id='a01-axis-half',property='A01',deps=CORE,edits=[(A+'quaternion.rs','''        let a = axis.normalize();
        Self::new(c, a[0] * s, a[1] * s, a[2] * s).normalized()''','''        Self::new(c, axis[0] * s, axis[1] * s, axis[2] * s).normalized()''')],
 needs='an axis that is not already a unit vector and an angle that is not a multiple of a half turn',breaks='the axis length changes the turned angle',
 main=PRE+'''fn main() { let q = Q::from_axis_angle(Vector::new([0., 0., 2.]), 1.); near(q.w(), 0.5f64.cos()); near(q.k(), 0.5f64.sin()); }
'''),
dict(id='a02-dcm-roll',property='A02',deps=CORE,edits=[(A+'euler.rs',"let roll  = m[1][2].atan2(m[2][2]);","let roll  = (m[1][2] / m[2][2]).atan();")],
 needs='an attitude rolled beyond 90 degrees',breaks='Euler angles of an inverted attitude are those of another attitude',
 main=PRE+'''fn main() { let m = D::<f64, ICRF<f64>, Body<f64>>::from(Euler::new(2.5, 0.2, 0.3)); let e = Euler::from(&m); let n = D::<f64, ICRF<f64>, Body<f64>>::from(e); near(m.m22(), n.m22()); }
'''),
dict(id='a03-branch4',property='A03',deps=CORE,edits=[(A+'quaternion.rs','''                (m[0][1] - m[1][0]) / qk4,
                (m[2][0] + m[0][2]) / qk4,''','''                (m[1][0] - m[0][1]) / qk4,
                (m[2][0] + m[0][2]) / qk4,''')],
 needs='an attitude whose quaternion is dominated by its k component (near a half turn about z)',breaks='conversion of near-half-turn rotations about z gives the inverse turn',
 main=PRE+'''fn main() { let q = Q::new(0.1, 0.1, -0.1, 0.97f64.sqrt()); let r = Q::try_from(&D::from(&q)).unwrap(); near(r.w(), q.w()); near(r.k(), q.k());
 let q = Q::new(0.97f64.sqrt(), 0.1, -0.1, 0.1); let r = Q::try_from(&D::from(&q)).unwrap(); near(r.w(), q.w()); }
'''),
dict(id='a04-inverse-norm',property='A04',deps=CORE,edits=[(A+'quaternion.rs','''        let n2 = self.norm2();
        Quaternion::<T, To, From>::new(
            self.w() / n2,''','''        let n2 = self.norm();
        Quaternion::<T, To, From>::new(
            self.w() / n2,''')],
 needs='a quaternion that is not of unit length',breaks='the inverse of a scaled quaternion does not compose with it to the identity',
 main=PRE+'''fn main() { let q = Q::new(2., 0., 0., 0.); let e = q.inverse() * q; near(e.w(), 1.); }
'''),
dict(id='a05-integrate-small',property='A05',deps=CORE,edits=[],needs='',breaks='',main=''),
dict(id='a06-yaw-quadrant',property='A06',deps=CORE,edits=[(A+'euler.rs','''        let cosy_cosp = one - two * (y * y + z * z);''','''        let cosy_cosp = (one - two * (y * y + z * z)).abs();''')],
 needs='a heading beyond 90 degrees',breaks='headings in the rear half-plane are mirrored into the front one',
 main=PRE+'''fn main() { let q = Q::from(&Euler::new(0.1, 0.2, 2.5)); let e = Euler::from(&q); near(e.yaw(), 2.5); }
'''),
]
SEEDS=[s for s in SEEDS if s['edits']]
