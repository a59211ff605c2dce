From f7bd6aa4c6b6a3fe6cebcd6c7c110a3cabb7eeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:07 +0000
Subject: [PATCH 01/31] fix: normalise negative durations

---
 crates/aether_time/src/time/duration.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/crates/aether_time/src/time/duration.rs b/crates/aether_time/src/time/duration.rs
index 9cb4153..1209d99 100644
--- a/crates/aether_time/src/time/duration.rs
+++ b/crates/aether_time/src/time/duration.rs
@@ -15,19 +15,14 @@ pub struct Duration {
 
 impl Duration {
     pub const fn from_nanos(total: i64) -> Self {
-        let sec = total / 1_000_000_000;
-        let nano_sec = (total % 1_000_000_000) as i32;
+        let sec = total.div_euclid(1_000_000_000);
+        let nano_sec = total.rem_euclid(1_000_000_000) as i32;
         Self { sec, nano_sec }
     }
 
     pub fn normalize(mut self) -> Self {
-        if self.nano_sec >= 1_000_000_000 {
-            self.sec += (self.nano_sec / 1_000_000_000) as i64;
-            self.nano_sec %= 1_000_000_000;
-        } else if self.nano_sec < 0 {
-            self.sec -= 1;
-            self.nano_sec += 1_000_000_000;
-        }
+        self.sec += self.nano_sec.div_euclid(1_000_000_000) as i64;
+        self.nano_sec = self.nano_sec.rem_euclid(1_000_000_000);
         self
     }
 
-- 
2.43.0


From 9c48497defd89e2ca26a602d40e2027eff5aa877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:07 +0000
Subject: [PATCH 02/31] fix: never resolve a GPS week rollover to a negative
 week

---
 crates/aether_time/src/time/gps.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/aether_time/src/time/gps.rs b/crates/aether_time/src/time/gps.rs
index 8c6a515..1f2b5b2 100644
--- a/crates/aether_time/src/time/gps.rs
+++ b/crates/aether_time/src/time/gps.rs
@@ -27,7 +27,9 @@ impl Time<GPS> {
         let mut full = base + raw;
         if (full - hint).abs() > (full + GPS_WEEK_MODULUS as i64 - hint).abs() {
             full += GPS_WEEK_MODULUS as i64;
-        } else if (full - GPS_WEEK_MODULUS as i64 - hint).abs() < (full - hint).abs() {
+        } else if full >= GPS_WEEK_MODULUS as i64
+            && (full - GPS_WEEK_MODULUS as i64 - hint).abs() < (full - hint).abs()
+        {
             full -= GPS_WEEK_MODULUS as i64;
         }
 
-- 
2.43.0


From d317f9a46cd2a7ec526b680fabb490e6f721cf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:07 +0000
Subject: [PATCH 03/31] fix: calendar conversion of instants before 1970 and of
 negative years

---
 crates/aether_time/src/time/schedule.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/aether_time/src/time/schedule.rs b/crates/aether_time/src/time/schedule.rs
index b542448..80f6dc0 100644
--- a/crates/aether_time/src/time/schedule.rs
+++ b/crates/aether_time/src/time/schedule.rs
@@ -245,12 +245,12 @@ impl Time<UTC> {
     pub fn to_utc_datetime(self) -> UtcDateTime {
         // Integer division / modulo: sec + nanos -> Y-M-D h:m:s.nnnnnnnnn
         let mut secs = self.sec;
-        let second = (secs % 60) as u8;
-        secs /= 60;
-        let minute = (secs % 60) as u8;
-        secs /= 60;
-        let hour = (secs % 24) as u8;
-        let days = secs / 24;
+        let second = secs.rem_euclid(60) as u8;
+        secs = secs.div_euclid(60);
+        let minute = secs.rem_euclid(60) as u8;
+        secs = secs.div_euclid(60);
+        let hour = secs.rem_euclid(24) as u8;
+        let days = secs.div_euclid(24);
 
         let mut dt = days_to_ymd(days, hour, minute, second);
         dt.nanos = self.nano_sec; // preserve nanos
@@ -271,7 +271,7 @@ impl Time<UTC> {
         };
 
         // Days since civil epoch 0000-03-01
-        let era = y / 400;
+        let era = y.div_euclid(400);
         let yoe = y - era * 400;                         // [0, 399]
         let doy = (153 * (m - 3) + 2) / 5 + day - 1;     // [0, 365]
         let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; // [0, 146096]
-- 
2.43.0


From 8191fcd9b1f4428ea66af6a85900118ea92e7577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:07 +0000
Subject: [PATCH 04/31] fix: hourly and daily schedules of instants before 1970

---
 crates/aether_time/src/time/schedule.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aether_time/src/time/schedule.rs b/crates/aether_time/src/time/schedule.rs
index 80f6dc0..1411d86 100644
--- a/crates/aether_time/src/time/schedule.rs
+++ b/crates/aether_time/src/time/schedule.rs
@@ -117,7 +117,7 @@ fn next_interval(after: Time<UTC>, period: Duration) -> Time<UTC> {
 
 fn next_hourly(after: Time<UTC>, minute: u8, second: u8) -> Time<UTC> {
     let now_sec = after.sec;
-    let hour_start = (now_sec / SECS_PER_HOUR) * SECS_PER_HOUR;
+    let hour_start = now_sec.div_euclid(SECS_PER_HOUR) * SECS_PER_HOUR;
     let target_in_hour =
         hour_start + (minute as i64) * SECS_PER_MIN + (second as i64);
 
@@ -130,7 +130,7 @@ fn next_hourly(after: Time<UTC>, minute: u8, second: u8) -> Time<UTC> {
 
 fn next_daily(after: Time<UTC>, hour: u8, minute: u8, second: u8) -> Time<UTC> {
     let now_sec = after.sec;
-    let day_start = (now_sec / SECS_PER_DAY) * SECS_PER_DAY;
+    let day_start = now_sec.div_euclid(SECS_PER_DAY) * SECS_PER_DAY;
     let target_today =
         day_start + (hour as i64) * SECS_PER_HOUR
                   + (minute as i64) * SECS_PER_MIN
-- 
2.43.0


From d69a5a25767bbfb94b8db579cdc10942ef9e7089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:07 +0000
Subject: [PATCH 05/31] fix: a one-shot schedule fires only once

---
 crates/aether_time/src/time/schedule.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/aether_time/src/time/schedule.rs b/crates/aether_time/src/time/schedule.rs
index 1411d86..db3e64d 100644
--- a/crates/aether_time/src/time/schedule.rs
+++ b/crates/aether_time/src/time/schedule.rs
@@ -212,9 +212,8 @@ impl UtcSchedule {
         // It fires now
         match self.pattern {
             Recurrence::Once => {
-                // For Once, you might choose to never fire again;
-                // leave next_fire as-is or set to max.
-                self.pattern = Recurrence::Once;
+                // Never fire again.
+                self.next_fire = Time::<UTC>::new(i64::MAX, i32::MAX);
             }
             Recurrence::Interval(period) => {
                 // Catch up if we missed multiple ticks.
-- 
2.43.0


From 6a8c7f12810e0a0578711cdfd2c14147972335b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:45 +0000
Subject: [PATCH 06/31] fix: Quaternion::to_dcm returned the inverse rotation

---
 crates/aether_core/src/attitude/quaternion.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/aether_core/src/attitude/quaternion.rs b/crates/aether_core/src/attitude/quaternion.rs
index 72c2c7d..f472d5f 100644
--- a/crates/aether_core/src/attitude/quaternion.rs
+++ b/crates/aether_core/src/attitude/quaternion.rs
@@ -164,9 +164,9 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame> Quaternion<T, From, To>
         let yz = y * z;
 
         let m = Matrix::<T, 3, 3>::new([
-            [ ww + xx - yy - zz, two * (xy - wz),     two * (xz + wy) ],
-            [ two * (xy + wz),   ww - xx + yy - zz,  two * (yz - wx) ],
-            [ two * (xz - wy),   two * (yz + wx),    ww - xx - yy + zz ],
+            [ ww + xx - yy - zz, two * (xy + wz),     two * (xz - wy) ],
+            [ two * (xy - wz),   ww - xx + yy - zz,  two * (yz + wx) ],
+            [ two * (xz + wy),   two * (yz - wx),    ww - xx - yy + zz ],
         ]);
 
         DirectionCosineMatrix::from_matrix(m)
-- 
2.43.0


From 7c0dfb451bde7e0fcf56c2d1b6ca49907ed21a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:45 +0000
Subject: [PATCH 07/31] fix: quaternion composition applied its factors in the
 wrong order

---
 crates/aether_core/src/attitude/quaternion.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/aether_core/src/attitude/quaternion.rs b/crates/aether_core/src/attitude/quaternion.rs
index f472d5f..bdac650 100644
--- a/crates/aether_core/src/attitude/quaternion.rs
+++ b/crates/aether_core/src/attitude/quaternion.rs
@@ -248,9 +248,9 @@ impl<T: Real, From: ReferenceFrame, Mid: ReferenceFrame, To: ReferenceFrame>
 
     #[inline]
     fn mul(self, rhs: &Quaternion<T, From, Mid>) -> Self::Output {
-        // Hamilton product: self x rhs
-        let [w1, x1, y1, z1] = self.data.data; // Mid -> To
-        let [w2, x2, y2, z2] = rhs.data.data;  // From -> Mid
+        // Passive rotations (q* v q) chain as the Hamilton product rhs x self
+        let [w1, x1, y1, z1] = rhs.data.data;  // From -> Mid
+        let [w2, x2, y2, z2] = self.data.data; // Mid -> To
 
         Quaternion::new(
             w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2,
-- 
2.43.0


From d971811aaafeff8e3fc4ced640a4f4d009222cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:26 +0000
Subject: [PATCH 08/31] fix: Euler angles of an attitude in gimbal lock dropped
 its heading

---
 crates/aether_core/src/attitude/euler.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/aether_core/src/attitude/euler.rs b/crates/aether_core/src/attitude/euler.rs
index 8fdd4c5..64f67ec 100644
--- a/crates/aether_core/src/attitude/euler.rs
+++ b/crates/aether_core/src/attitude/euler.rs
@@ -55,11 +55,12 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame>
         // Pitch (y-axis)
         let sinp = two * (w * y - z * x);
         let half_pi = T::FRAC_PI_2;
-        let pitch = if sinp.abs() >= one {
-            half_pi * sinp.signum()
-        } else {
-            sinp.asin()
-        };
+        if sinp.abs() >= one {
+            // Gimbal lock: only roll -/+ yaw is determined, put it all into yaw
+            let sign = sinp.signum();
+            return Self::new(T::ZERO, half_pi * sign, -sign * two * x.atan2(w));
+        }
+        let pitch = sinp.asin();
 
         // Yaw (z-axis)
         let siny_cosp = two * (w * z + x * y);
@@ -78,6 +79,11 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame>
         let m = &dcm.as_matrix().data;
 
         // ZYX convention (yaw-pitch-roll), passive From -> To
+        if m[0][2].abs() >= T::ONE {
+            // Gimbal lock: only roll -/+ yaw is determined, put it all into yaw
+            let pitch = -T::FRAC_PI_2 * m[0][2].signum();
+            return Self::new(T::ZERO, pitch, (-m[1][0]).atan2(m[1][1]));
+        }
         let yaw   = m[0][1].atan2(m[0][0]);
         let pitch = -(m[0][2]).asin();
         let roll  = m[1][2].atan2(m[2][2]);
-- 
2.43.0


From 3c35b003dfc9ec693a3f407c66aeec6ee7f85fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:49 +0000
Subject: [PATCH 09/31] fix: Taylor coefficients of Quaternion::integrate

---
 crates/aether_core/src/attitude/quaternion.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/aether_core/src/attitude/quaternion.rs b/crates/aether_core/src/attitude/quaternion.rs
index bdac650..d828a47 100644
--- a/crates/aether_core/src/attitude/quaternion.rs
+++ b/crates/aether_core/src/attitude/quaternion.rs
@@ -203,19 +203,20 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame> Quaternion<T, From, To>
         let two = one + one;
         let three = two + one;
         let four = two + two;
-        let nine = three * three;
+        let eight = four + four;
 
         let half = one / two;
         let quarter = one / four;
-        let ninth = one / nine;
+        let eighth = one / eight;
+        let sixth = one / (three * two);
 
-        let ang_acc_quat = Quaternion::from_parts(one, ang_acc);
-        let ang_vel_quat = Quaternion::from_parts(one, ang_vel);
+        let ang_acc_quat = Quaternion::from_parts(T::ZERO, ang_acc);
+        let ang_vel_quat = Quaternion::from_parts(T::ZERO, ang_vel);
 
         let q_dot = q.mul_raw(&ang_vel_quat) * half;
         let q_ddot = q.mul_raw(&ang_vel_quat).mul_raw(&ang_vel_quat) * quarter
             + q.mul_raw(&ang_acc_quat) * half;
-        let q_dddot = q.mul_raw(&ang_vel_quat).mul_raw(&ang_vel_quat).mul_raw(&ang_vel_quat) * (one / (three + three))
+        let q_dddot = q.mul_raw(&ang_vel_quat).mul_raw(&ang_vel_quat).mul_raw(&ang_vel_quat) * eighth
             + q.mul_raw(&ang_acc_quat).mul_raw(&ang_vel_quat) * quarter
             + q.mul_raw(&ang_vel_quat).mul_raw(&ang_acc_quat) * half;
 
@@ -223,8 +224,8 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame> Quaternion<T, From, To>
         let dt3 = dt2 * dt;
 
         let mut new_q = q + q_dot * dt;
-        new_q = new_q + q_ddot * (quarter * dt2);
-        new_q = new_q + q_dddot * (ninth * dt3);
+        new_q = new_q + q_ddot * (half * dt2);
+        new_q = new_q + q_dddot * (sixth * dt3);
 
         new_q.normalized()
     }
-- 
2.43.0


From e3bc62c77b06cc3466c53b4019656476c75f6ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:22 +0000
Subject: [PATCH 10/31] fix: gimbal lock of the Euler conversions is detected
 up to rounding

---
 crates/aether_core/src/attitude/euler.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/aether_core/src/attitude/euler.rs b/crates/aether_core/src/attitude/euler.rs
index 64f67ec..946f55e 100644
--- a/crates/aether_core/src/attitude/euler.rs
+++ b/crates/aether_core/src/attitude/euler.rs
@@ -55,8 +55,8 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame>
         // Pitch (y-axis)
         let sinp = two * (w * y - z * x);
         let half_pi = T::FRAC_PI_2;
-        if sinp.abs() >= one {
-            // Gimbal lock: only roll -/+ yaw is determined, put it all into yaw
+        if sinp.abs() >= one - T::from_f64(8.0) * T::EPSILON {
+            // Gimbal lock, up to rounding: only roll -/+ yaw is determined, put it all into yaw
             let sign = sinp.signum();
             return Self::new(T::ZERO, half_pi * sign, -sign * two * x.atan2(w));
         }
@@ -79,8 +79,8 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame>
         let m = &dcm.as_matrix().data;
 
         // ZYX convention (yaw-pitch-roll), passive From -> To
-        if m[0][2].abs() >= T::ONE {
-            // Gimbal lock: only roll -/+ yaw is determined, put it all into yaw
+        if m[0][2].abs() >= T::ONE - T::from_f64(8.0) * T::EPSILON {
+            // Gimbal lock, up to rounding: only roll -/+ yaw is determined, put it all into yaw
             let pitch = -T::FRAC_PI_2 * m[0][2].signum();
             return Self::new(T::ZERO, pitch, (-m[1][0]).atan2(m[1][1]));
         }
-- 
2.43.0


From c66ab251b5920a38be2bf365d12fad3479382ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:33 +0000
Subject: [PATCH 11/31] fix: tensor views refuse out-of-range indices and wrong
 ranks in every build

---
 crates/aether_core/src/math/tensor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aether_core/src/math/tensor.rs b/crates/aether_core/src/math/tensor.rs
index e057ec0..ee2b4e1 100644
--- a/crates/aether_core/src/math/tensor.rs
+++ b/crates/aether_core/src/math/tensor.rs
@@ -62,11 +62,11 @@ pub struct TensorViewMut<'a, T> {
 
 // Helper to compute flat offset for row‑major shapes
 #[inline] fn offset(shape: &[usize], idx: &[usize]) -> usize {
-    debug_assert_eq!(shape.len(), idx.len());
+    assert_eq!(shape.len(), idx.len());
     let mut off = 0usize; let mut stride = 1usize;
     for (ax, &n) in shape.iter().rev().enumerate() {
         let i = idx[shape.len()-1-ax];
-        debug_assert!(i < n);
+        assert!(i < n);
         off += i * stride; stride *= n;
     }
     off
-- 
2.43.0


From 24a1e041f8c2e75b4e341ee4fb4da93d31686264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:50 +0000
Subject: [PATCH 12/31] fix: US standard atmosphere gravity constant

---
 crates/aether_models/src/terrestrial/atmospheres/ussa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
index b4cdb2c..3f52d5a 100644
--- a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
+++ b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
@@ -17,7 +17,7 @@ impl USSA {
     pub const R_Star: f64 = 8.31432e3; // J/(mol*K)
     pub const air_molar_mass: f64 = 28.9644; // kg/mol
     pub const R_Air: f64 = USSA::R_Star / USSA::air_molar_mass; // J/(kg*K)
-    pub const g_0: f64 = 9.80655; // m/s^2
+    pub const g_0: f64 = 9.80665; // m/s^2
     pub const gamma: f64 = 1.4; // dimensionless
     const base_geometric_heights: [f64; 13] = [
         0.0, 11019.0, 20063.0, 32162.0, 47350.0, 51413.0, 71802.0, 86000.0, 91000.0, 110000.0,
-- 
2.43.0


From 128bb5aadf1b1c06b2739ce8f1c13a8b11fc0d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:50 +0000
Subject: [PATCH 13/31] fix: US standard atmosphere lapse rates are per
 geopotential metre

---
 .../src/terrestrial/atmospheres/ussa.rs          | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
index 3f52d5a..5a49d94 100644
--- a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
+++ b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
@@ -45,6 +45,12 @@ impl USSA {
         USSA {}
     }
 
+    /// Lapse rates and the hydrostatic relations refer to geopotential height.
+    fn geopotential_difference(geometric_height: f64, geometric_base: f64) -> f64 {
+        let geopotential = |z: f64| Self::r_0 * z / (Self::r_0 + z);
+        return geopotential(geometric_height) - geopotential(geometric_base);
+    }
+
     fn get_base_index(&self, geometric_height: f64) -> Result<usize, &'static str> {
         let mut i = 0;
         for _value in Self::base_geometric_heights {
@@ -91,7 +97,10 @@ impl USSA {
                 if geometric_height < 86000.0 {
                     return Ok(Self::base_geometric_temperatures[base_index]
                         + Self::base_lapse_rates[gradient_index]
-                            * (geometric_height - Self::base_geometric_heights[base_index]));
+                            * Self::geopotential_difference(
+                                geometric_height,
+                                Self::base_geometric_heights[base_index],
+                            ));
                 } else if geometric_height < 91000.0 {
                     let temperature = Self::base_geometric_temperatures[base_index];
                     return Ok(temperature);
@@ -147,7 +156,10 @@ impl USSA {
                     let pressure = base_pressure
                         * ((-Self::g_0
                             * Self::air_molar_mass
-                            * (geometric_height - Self::base_geometric_heights[base_index]))
+                            * Self::geopotential_difference(
+                                geometric_height,
+                                Self::base_geometric_heights[base_index],
+                            ))
                             / (Self::R_Star * temperature))
                             .exp();
                     return Ok(pressure);
-- 
2.43.0


From 01e5651b5bb8c09a6f1c682475069cfe062dac20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:50 +0000
Subject: [PATCH 14/31] fix: US standard atmosphere temperature above 91 km

---
 .../aether_models/src/terrestrial/atmospheres/ussa.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
index 5a49d94..bdb180b 100644
--- a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
+++ b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
@@ -112,17 +112,20 @@ impl USSA {
                         + A * ((1.0
                             - ((geometric_height - Self::base_geometric_heights[base_index]) / a)
                                 .powf(2.0))
-                        .exp());
+                        .sqrt());
                     return Ok(temperature);
+                } else if geometric_height < 120000.0 {
+                    return Ok(Self::base_geometric_temperatures[base_index]
+                        + 12.0e-3 * (geometric_height - Self::base_geometric_heights[base_index]));
                 } else if geometric_height < 1000000.0 {
                     let t_inf = 1000.0;
                     let lambda = 0.01875;
-                    let eta = (geometric_height - Self::base_geometric_heights[9])
-                        * (Self::r_0 + Self::base_geometric_heights[9])
+                    let eta = (geometric_height - Self::base_geometric_heights[10])
+                        * (Self::r_0 + Self::base_geometric_heights[10])
                         / (Self::r_0 + geometric_height)
                         * 1e-3;
                     let expo = (-lambda * eta).exp();
-                    let temperature = t_inf - (t_inf - Self::base_geometric_temperatures[9]) * expo;
+                    let temperature = t_inf - (t_inf - Self::base_geometric_temperatures[10]) * expo;
                     return Ok(temperature);
                 } else {
                     return Ok(0.0);
-- 
2.43.0


From 102b0f36084d5dbeca0a93b3da40f4d68bcb7349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:50 +0000
Subject: [PATCH 15/31] fix: heights above the US standard atmosphere are
 reported, not a panic

---
 .../src/terrestrial/atmospheres/ussa.rs       | 16 ++++++++++------
 crates/aether_models/src/terrestrial/earth.rs | 19 +++++--------------
 2 files changed, 15 insertions(+), 20 deletions(-)

diff --git a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
index bdb180b..4ef9668 100644
--- a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
+++ b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
@@ -53,7 +53,7 @@ impl USSA {
 
     fn get_base_index(&self, geometric_height: f64) -> Result<usize, &'static str> {
         let mut i = 0;
-        for _value in Self::base_geometric_heights {
+        while i + 1 < Self::base_geometric_heights.len() {
             if geometric_height < Self::base_geometric_heights[i + 1] {
                 return Ok(i);
             } else {
@@ -90,7 +90,7 @@ impl USSA {
     pub fn temperature(&self, geometric_height: f64) -> Result<f64, Constraint> {
         let base_index = self
             .get_base_index(geometric_height)
-            .expect("Could not determine base index.");
+            .map_err(|_| Constraint::NoGradient)?;
         let gradient_index_result = self.get_gradient_index(base_index);
         match gradient_index_result {
             Ok(gradient_index) => {
@@ -146,7 +146,9 @@ impl USSA {
             Ok(gradient_index) => {
                 let base_temperature = Self::base_geometric_temperatures[base_index];
                 let base_pressure = Self::base_geometric_pressures[base_index];
-                let temperature = self.temperature(geometric_height).unwrap();
+                let temperature = self
+                    .temperature(geometric_height)
+                    .map_err(|_| "Could not determine temperature.")?;
                 let lapse_rate = Self::base_lapse_rates[gradient_index];
 
                 if lapse_rate != 0.0 {
@@ -173,7 +175,9 @@ impl USSA {
     }
 
     pub fn density(&self, geometric_height: f64) -> Result<f64, &'static str> {
-        let temperature = self.temperature(geometric_height).unwrap();
+        let temperature = self
+            .temperature(geometric_height)
+            .map_err(|_| "Could not determine temperature.")?;
         let pressure = self.pressure(geometric_height)?;
         let density = (pressure * Self::air_molar_mass) / (Self::R_Star * temperature);
         return Ok(density);
@@ -182,14 +186,14 @@ impl USSA {
     pub fn speed_of_sound(&self, geometric_height: f64) -> Result<f64, &'static str> {
         let temperature = self
             .temperature(geometric_height)
-            .expect("Could not determine temperature.");
+            .map_err(|_| "Could not determine temperature.")?;
         return Ok(1.4 * Self::R_Star / Self::air_molar_mass * temperature);
     }
 
     pub fn dynamic_viscosity(&self, geometric_height: f64) -> Result<f64, &'static str> {
         let temperature = self
             .temperature(geometric_height)
-            .expect("Could not determine temperature.");
+            .map_err(|_| "Could not determine temperature.")?;
         let viscosity = Self::dynamic_viscosity_nist_A * (temperature).powf(1.5)
             / (temperature + Self::dynamic_viscosity_nist_B)
             * 0.1; // 0.1 is to convert to Pascal*second
diff --git a/crates/aether_models/src/terrestrial/earth.rs b/crates/aether_models/src/terrestrial/earth.rs
index f1026c8..f3b2584 100644
--- a/crates/aether_models/src/terrestrial/earth.rs
+++ b/crates/aether_models/src/terrestrial/earth.rs
@@ -120,28 +120,19 @@ impl Earth {
     }
 
     pub fn get_temperature(&self, geometric_height: f64) -> Result<f64, &'static str> {
-        return Ok(self
+        return self
             .atmosphere
             .temperature(geometric_height)
-            .expect("Could not get temperature."));
+            .map_err(|_| "Could not get temperature.");
     }
     pub fn get_pressure(&self, geometric_height: f64) -> Result<f64, &'static str> {
-        return Ok(self
-            .atmosphere
-            .pressure(geometric_height)
-            .expect("Could not get pressure."));
+        return self.atmosphere.pressure(geometric_height);
     }
     pub fn get_density(&self, geometric_height: f64) -> Result<f64, &'static str> {
-        return Ok(self
-            .atmosphere
-            .density(geometric_height)
-            .expect("Could not get density."));
+        return self.atmosphere.density(geometric_height);
     }
     pub fn get_speed_of_sound(&self, geometric_height: f64) -> Result<f64, &'static str> {
-        return Ok(self
-            .atmosphere
-            .speed_of_sound(geometric_height)
-            .expect("Could not get speed of sound."));
+        return self.atmosphere.speed_of_sound(geometric_height);
     }
 }
 
-- 
2.43.0


From db62dfb288b92784483dde6cf5abc9284ec46be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:50 +0000
Subject: [PATCH 16/31] fix: speed of sound is the square root of gamma R T

---
 crates/aether_models/src/terrestrial/atmospheres/ussa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
index 4ef9668..4c42402 100644
--- a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
+++ b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
@@ -187,7 +187,7 @@ impl USSA {
         let temperature = self
             .temperature(geometric_height)
             .map_err(|_| "Could not determine temperature.")?;
-        return Ok(1.4 * Self::R_Star / Self::air_molar_mass * temperature);
+        return Ok((1.4 * Self::R_Star / Self::air_molar_mass * temperature).sqrt());
     }
 
     pub fn dynamic_viscosity(&self, geometric_height: f64) -> Result<f64, &'static str> {
-- 
2.43.0


From 8b62f9cfe5f9884ef5cfe603a20c81b992f669fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:50 +0000
Subject: [PATCH 17/31] fix: normal gravity follows the Somigliana formula

---
 crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs b/crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs
index b166853..28419b4 100644
--- a/crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs
+++ b/crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs
@@ -11,7 +11,7 @@ use crate::{
 use core::marker::PhantomData;
 
 pub fn gravity_normal(latitude: f64) -> f64 {
-    return g_e * (1.0 + k * latitude.sin().sin()) / (1.0 - e2 * latitude.sin().sin());
+    return g_e * (1.0 + k * latitude.sin().powi(2)) / (1.0 - e2 * latitude.sin().powi(2)).sqrt();
 }
 
 fn ellipsoidal_beta(x: f64, y: f64, z: f64, u: f64) -> f64 {
-- 
2.43.0


From 2b4903ca6436451ee7744826d33f6c05da4fbd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:50 +0000
Subject: [PATCH 18/31] fix: ellipsoidal gravity uses squared sines and the
 WGS84 latitude component

---
 .../aether_models/src/terrestrial/wgs84/gravity/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs b/crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs
index 28419b4..5ded541 100644
--- a/crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs
+++ b/crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs
@@ -31,7 +31,7 @@ fn ellipsoidal_height(x: f64, y: f64, z: f64) -> f64 {
 
 fn ellipsoidal_w(u: f64, beta: f64) -> f64 {
     let ellip_w =
-        ((u.powf(2.0) + E.powf(2.0) * (beta.sin().sin())) / (u.powf(2.0) + E.powf(2.0))).sqrt();
+        ((u.powf(2.0) + E.powf(2.0) * (beta.sin().powi(2))) / (u.powf(2.0) + E.powf(2.0))).sqrt();
     return ellip_w;
 }
 
@@ -47,15 +47,15 @@ pub fn gravity_ellipsoidal(x: f64, y: f64, z: f64) -> Vector<f64, 3> {
     // let t1 = -1.0 / ellip_w;
     // let t2 = (GM/(u.powf(2.0)+E.powf(2.0)));
     // let t3 = (w.powf(2.0)*a.powf(2.0)*E)/(u.powf(2.0)+E.powf(2.0));
-    // let t4 = (qprime/q_0)*(0.5 * beta.sin().sin()-1.0/6.0);
+    // let t4 = (qprime/q_0)*(0.5 * beta.sin().powi(2)-1.0/6.0);
 
     let g_u = -1.0 / ellip_w
         * ((GM / (u.powf(2.0) + E.powf(2.0)))
             + (w.powf(2.0) * a.powf(2.0) * E) / (u.powf(2.0) + E.powf(2.0))
                 * (qprime / q_0)
-                * (0.5 * beta.sin().sin() - 1.0 / 6.0))
-        + 1.0 / ellip_w * w.powf(2.0) * u * beta.cos().cos();
-    let g_b = 1.0 / ellip_w * (w.powf(2.0) * a.powf(2.0) / (u.powf(2.0) + E.powf(2.0))) * q / q_0
+                * (0.5 * beta.sin().powi(2) - 1.0 / 6.0))
+        + 1.0 / ellip_w * w.powf(2.0) * u * beta.cos().powi(2);
+    let g_b = 1.0 / ellip_w * (w.powf(2.0) * a.powf(2.0) / (u.powf(2.0) + E.powf(2.0)).sqrt()) * q / q_0
         * beta.sin()
         * beta.cos()
         - 1.0 / ellip_w
-- 
2.43.0


From 5d4ac32c086d16e0a17b678043907368dc871234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:50 +0000
Subject: [PATCH 19/31] fix: square root of the cubic resolvent in the
 closed-form geodetic conversion

---
 crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs b/crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs
index bf5eee2..ecf8c2c 100644
--- a/crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs
+++ b/crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs
@@ -70,7 +70,7 @@ pub fn ecef_to_geocentric_ferrari<T: Real>(x: T, y: T, z: T) -> Vector<T, 3> {
     let ff = T::from_f64(54.0) * b2 * z2;
     let g = r2 + (T::ONE - e_2) * z2 - e_2 * e2_2;
     let c = e_2.powf(two) * ff * r2 / g.powf(T::from_f64(3.0));
-    let s = (T::ONE + c + (c.powf(two) + two * c)).powf(T::ONE / T::from_f64(3.0));
+    let s = (T::ONE + c + (c.powf(two) + two * c).sqrt()).powf(T::ONE / T::from_f64(3.0));
     let pp = ff / (T::from_f64(3.0) * (s + T::ONE / s + T::ONE).powf(two) * g.powf(two));
     let q = (T::ONE + two * e_2.powf(two) * pp).sqrt();
 
-- 
2.43.0


From 0e0c7e713ce8ee02ed63a50622d9c739a7e2d6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:40 +0000
Subject: [PATCH 20/31] fix: convert SI prefixes with factors exact to double
 precision

---
 crates/aether_units/src/si/si_prefix.rs | 122 ++++++++++++------------
 1 file changed, 61 insertions(+), 61 deletions(-)

diff --git a/crates/aether_units/src/si/si_prefix.rs b/crates/aether_units/src/si/si_prefix.rs
index fc79de3..012f30b 100644
--- a/crates/aether_units/src/si/si_prefix.rs
+++ b/crates/aether_units/src/si/si_prefix.rs
@@ -35,7 +35,7 @@ macro_rules! si_prefixed_unit {
         impl<T: Real> $crate::Quantity<$BaseUnit, T> {
             #[inline]
             pub fn $to_prefixed(self) -> $crate::Quantity<$PrefixUnit, T> {
-                let k = T::from_f32($factor);
+                let k = T::from_f64($factor);
                 $crate::Quantity::new(self.raw() / k)
             }
         }
@@ -44,7 +44,7 @@ macro_rules! si_prefixed_unit {
         impl<T: Real> $crate::Quantity<$PrefixUnit, T> {
             #[inline]
             pub fn $to_base(self) -> $crate::Quantity<$BaseUnit, T> {
-                let k = T::from_f32($factor);
+                let k = T::from_f64($factor);
                 $crate::Quantity::new(self.raw() * k)
             }
         }
@@ -72,28 +72,28 @@ si_prefixed_family! {
     to_base = to_meter;
 
     // tiny
-    (Yoctometer,  YOCTO, to_yoctometer),
-    (Zeptometer,  ZEPTO, to_zeptometer),
-    (Attometer,   ATTO,  to_attometer),
-    (Femtometer,  FEMTO, to_femtometer),
-    (Picometer,   PICO,  to_picometer),
-    (Nanometer,   NANO,  to_nanometer),
-    (Micrometer,  MICRO, to_micrometer),
-    (Millimeter,  MILLI, to_millimeter),
-    (Centimeter,  CENTI, to_centimeter),
-    (Decimeter,   DECI,  to_decimeter),
+    (Yoctometer,  1.0e-24, to_yoctometer),
+    (Zeptometer,  1.0e-21, to_zeptometer),
+    (Attometer,   1.0e-18,  to_attometer),
+    (Femtometer,  1.0e-15, to_femtometer),
+    (Picometer,   1.0e-12,  to_picometer),
+    (Nanometer,   1.0e-9,  to_nanometer),
+    (Micrometer,  1.0e-6, to_micrometer),
+    (Millimeter,  1.0e-3, to_millimeter),
+    (Centimeter,  1.0e-2, to_centimeter),
+    (Decimeter,   1.0e-1,  to_decimeter),
 
     // > 1 m
-    (Decameter,   DECA,  to_decameter),
-    (Hectometer,  HECTO, to_hectometer),
-    (Kilometer,   KILO,  to_kilometer),
-    (Megameter,   MEGA,  to_megameter),
-    (Gigameter,   GIGA,  to_gigameter),
-    (Terameter,   TERA,  to_terameter),
-    (Petameter,   PETA,  to_petameter),
-    (Exameter,    EXA,   to_exameter),
-    (Zettameter,  ZETTA, to_zettameter),
-    (Yottameter,  YOTTA, to_yottameter),
+    (Decameter,   1.0e1,  to_decameter),
+    (Hectometer,  1.0e2, to_hectometer),
+    (Kilometer,   1.0e3,  to_kilometer),
+    (Megameter,   1.0e6,  to_megameter),
+    (Gigameter,   1.0e9,  to_gigameter),
+    (Terameter,   1.0e12,  to_terameter),
+    (Petameter,   1.0e15,  to_petameter),
+    (Exameter,    1.0e18,   to_exameter),
+    (Zettameter,  1.0e21, to_zettameter),
+    (Yottameter,  1.0e24, to_yottameter),
 }
 
 // Time (second) – yocto to yotta
@@ -101,27 +101,27 @@ si_prefixed_family! {
     base = Second;
     to_base = to_second;
 
-    (Yoctosecond,  YOCTO, to_yoctosecond),
-    (Zeptosecond,  ZEPTO, to_zeptosecond),
-    (Attosecond,   ATTO,  to_attosecond),
-    (Femtosecond,  FEMTO, to_femtosecond),
-    (Picosecond,   PICO,  to_picosecond),
-    (Nanosecond,   NANO,  to_nanosecond),
-    (Microsecond,  MICRO, to_microsecond),
-    (Millisecond,  MILLI, to_millisecond),
-    (Centisecond,  CENTI, to_centisecond),
-    (Decisecond,   DECI,  to_decisecond),
+    (Yoctosecond,  1.0e-24, to_yoctosecond),
+    (Zeptosecond,  1.0e-21, to_zeptosecond),
+    (Attosecond,   1.0e-18,  to_attosecond),
+    (Femtosecond,  1.0e-15, to_femtosecond),
+    (Picosecond,   1.0e-12,  to_picosecond),
+    (Nanosecond,   1.0e-9,  to_nanosecond),
+    (Microsecond,  1.0e-6, to_microsecond),
+    (Millisecond,  1.0e-3, to_millisecond),
+    (Centisecond,  1.0e-2, to_centisecond),
+    (Decisecond,   1.0e-1,  to_decisecond),
 
-    (Decasecond,   DECA,  to_decasecond),
-    (Hectosecond,  HECTO, to_hectosecond),
-    (Kilosecond,   KILO,  to_kilosecond),
-    (Megasecond,   MEGA,  to_megasecond),
-    (Gigasecond,   GIGA,  to_gigasecond),
-    (Terasecond,   TERA,  to_terasecond),
-    (Petasecond,   PETA,  to_petasecond),
-    (Exasecond,    EXA,   to_exasecond),
-    (Zettasecond,  ZETTA, to_zettasecond),
-    (Yottasecond,  YOTTA, to_yottasecond),
+    (Decasecond,   1.0e1,  to_decasecond),
+    (Hectosecond,  1.0e2, to_hectosecond),
+    (Kilosecond,   1.0e3,  to_kilosecond),
+    (Megasecond,   1.0e6,  to_megasecond),
+    (Gigasecond,   1.0e9,  to_gigasecond),
+    (Terasecond,   1.0e12,  to_terasecond),
+    (Petasecond,   1.0e15,  to_petasecond),
+    (Exasecond,    1.0e18,   to_exasecond),
+    (Zettasecond,  1.0e21, to_zettasecond),
+    (Yottasecond,  1.0e24, to_yottasecond),
 }
 
 // Mass (kilogram) – prefixes conceptually apply to gram, so factor * 1e-3
@@ -129,24 +129,24 @@ si_prefixed_family! {
     base = Kilogram;
     to_base = to_kilogram;
 
-    (Yoctogram,  YOCTO * 1.0e-3_f32, to_yoctogram),
-    (Zeptogram,  ZEPTO * 1.0e-3_f32, to_zeptogram),
-    (Attogram,   ATTO  * 1.0e-3_f32, to_attogram),
-    (Femtogram,  FEMTO * 1.0e-3_f32, to_femtogram),
-    (Picogram,   PICO  * 1.0e-3_f32, to_picogram),
-    (Nanogram,   NANO  * 1.0e-3_f32, to_nanogram),
-    (Microgram,  MICRO * 1.0e-3_f32, to_microgram),
-    (Milligram,  MILLI * 1.0e-3_f32, to_milligram),
-    (Centigram,  CENTI * 1.0e-3_f32, to_centigram),
-    (Decigram,   DECI  * 1.0e-3_f32, to_decigram),
+    (Yoctogram,  1.0e-27,  to_yoctogram),
+    (Zeptogram,  1.0e-24,  to_zeptogram),
+    (Attogram,   1.0e-21,   to_attogram),
+    (Femtogram,  1.0e-18,  to_femtogram),
+    (Picogram,   1.0e-15,   to_picogram),
+    (Nanogram,   1.0e-12,   to_nanogram),
+    (Microgram,  1.0e-9,  to_microgram),
+    (Milligram,  1.0e-6,  to_milligram),
+    (Centigram,  1.0e-5,  to_centigram),
+    (Decigram,   1.0e-4,   to_decigram),
 
-    (Decagram,   DECA  * 1.0e-3_f32, to_decagram),
-    (Hectogram,  HECTO * 1.0e-3_f32, to_hectogram),
-    (Megagram,   MEGA  * 1.0e-3_f32, to_megagram),
-    (Gigagram,   GIGA  * 1.0e-3_f32, to_gigagram),
-    (Teragram,   TERA  * 1.0e-3_f32, to_teragram),
-    (Petagram,   PETA  * 1.0e-3_f32, to_petagram),
-    (Exagram,    EXA   * 1.0e-3_f32, to_exagram),
-    (Zettagram,  ZETTA * 1.0e-3_f32, to_zettagram),
-    (Yottagram,  YOTTA * 1.0e-3_f32, to_yottagram),
+    (Decagram,   1.0e-2,   to_decagram),
+    (Hectogram,  1.0e-1,  to_hectogram),
+    (Megagram,   1.0e3,   to_megagram),
+    (Gigagram,   1.0e6,   to_gigagram),
+    (Teragram,   1.0e9,   to_teragram),
+    (Petagram,   1.0e12,   to_petagram),
+    (Exagram,    1.0e15,    to_exagram),
+    (Zettagram,  1.0e18,  to_zettagram),
+    (Yottagram,  1.0e21,  to_yottagram),
 }
-- 
2.43.0


From a83f979076fd58d3f4d9f2f9866b6fd2c146d08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:40 +0000
Subject: [PATCH 21/31] fix: keep narrow uniform random reals below one

---
 crates/aether_rand/src/randomizers/xor_shift.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/aether_rand/src/randomizers/xor_shift.rs b/crates/aether_rand/src/randomizers/xor_shift.rs
index dc5715b..13e7d5c 100644
--- a/crates/aether_rand/src/randomizers/xor_shift.rs
+++ b/crates/aether_rand/src/randomizers/xor_shift.rs
@@ -25,7 +25,13 @@ impl XorShift64Star {
     pub fn next_real<T: Real>(&mut self) -> T {
         const DEN: f64 = (1u64 << 53) as f64;
         let unit = ((self.next_u64() >> 11) as f64) / DEN;
-        T::from_f64(unit)
+        let value = T::from_f64(unit);
+        // Narrower types may round the largest values up to one.
+        if value < T::ONE {
+            value
+        } else {
+            T::ONE - T::EPSILON
+        }
     }
 
     #[inline]
-- 
2.43.0


From 09fc2ec1810ea80da681169dfefd3feff857711e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:40 +0000
Subject: [PATCH 22/31] fix: perspective matrix is row-major like the view
 matrix

---
 crates/aether_graphics/src/graphics/transforms.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aether_graphics/src/graphics/transforms.rs b/crates/aether_graphics/src/graphics/transforms.rs
index bdd3351..f3d7aeb 100644
--- a/crates/aether_graphics/src/graphics/transforms.rs
+++ b/crates/aether_graphics/src/graphics/transforms.rs
@@ -33,13 +33,13 @@ pub fn perspective<T: Real>(aspect: T, fov_y_rad: T, near: T, far: T) -> Matrix<
         data: [
             [f / aspect, T::ZERO, T::ZERO, T::ZERO],
             [T::ZERO, f, T::ZERO, T::ZERO],
-            [T::ZERO, T::ZERO, (far + near) * nf, -T::ONE],
             [
                 T::ZERO,
                 T::ZERO,
+                (far + near) * nf,
                 (T::from_f32(2.0) * far * near) * nf,
-                T::ZERO,
             ],
+            [T::ZERO, T::ZERO, -T::ONE, T::ZERO],
         ],
     }
 }
-- 
2.43.0


From f1a77e84b81c545c32b4c9afd7c75aa3ea4b65a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:40 +0000
Subject: [PATCH 23/31] fix: orbit camera turns its view the way its angles say

---
 .../src/cameras/orbit_camera.rs               | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/crates/aether_graphics/src/cameras/orbit_camera.rs b/crates/aether_graphics/src/cameras/orbit_camera.rs
index ed4d51c..95675e7 100644
--- a/crates/aether_graphics/src/cameras/orbit_camera.rs
+++ b/crates/aether_graphics/src/cameras/orbit_camera.rs
@@ -14,6 +14,11 @@ impl<T: Real> ReferenceFrame for OpenGL<T> {}
 
 type CamQuat<T> = Quaternion<T, OpenGL<T>, Camera<T>>;
 
+/// Turns `v` by the rotation `q` (`rotate_vec` re-expresses a fixed vector in the turned frame).
+fn rotate<T: Real>(q: &CamQuat<T>, v: &Vector<T, 3>) -> Vector<T, 3> {
+    q.conjugate().rotate_vec(v)
+}
+
 #[derive(Debug, Clone)]
 pub struct OrbitCamera<T: Real = f64> {
     pub target: Vector<T, 3>, // look-at point
@@ -59,11 +64,11 @@ impl<T: Real> OrbitCamera<T> {
 
         // Compute the post-yaw forward and right axis.
         let base_forward = Vector::new([T::ONE, T::ZERO, T::ZERO]);
-        let fwd = q_yaw.rotate_vec(&base_forward).normalize();
-        let mut right = world_up.cross(&fwd);
+        let fwd = rotate(&q_yaw, &base_forward).normalize();
+        let mut right = fwd.cross(&world_up);
         let n2 = right[0] * right[0] + right[1] * right[1] + right[2] * right[2];
         if n2 < T::from_f64(1.0e-16) {
-            right = Vector::new([T::ONE, T::ZERO, T::ZERO]).cross(&fwd);
+            right = fwd.cross(&Vector::new([T::ONE, T::ZERO, T::ZERO]));
         }
         right = right.normalize();
 
@@ -90,11 +95,11 @@ impl<T: Real> OrbitCamera<T> {
         let tmp = q_yaw.mul_hamilton_same(&self.orientation).normalized();
 
         // 2) pitch about camera right after yaw
-        let fwd_tmp = tmp.rotate_vec(&base_forward).normalize();
-        let mut right = world_up.cross(&fwd_tmp);
+        let fwd_tmp = rotate(&tmp, &base_forward).normalize();
+        let mut right = fwd_tmp.cross(&world_up);
         let n2 = right[0] * right[0] + right[1] * right[1] + right[2] * right[2];
         if n2 < T::from_f64(1.0e-16) {
-            right = Vector::new([T::ONE, T::ZERO, T::ZERO]).cross(&fwd_tmp);
+            right = fwd_tmp.cross(&Vector::new([T::ONE, T::ZERO, T::ZERO]));
         }
         right = right.normalize();
         let q_pitch = CamQuat::<T>::from_axis_angle(right, dpitch);
@@ -142,7 +147,7 @@ impl<T: Real> OrbitCamera<T> {
     #[inline]
     pub fn forward(&self) -> Vector<T, 3> {
         let base_forward = Vector::new([T::ONE, T::ZERO, T::ZERO]);
-        self.orientation.rotate_vec(&base_forward).normalize()
+        rotate(&self.orientation, &base_forward).normalize()
     }
 
     #[inline]
-- 
2.43.0


From 7bb3c50b82d1dee26ae45b2a4bbfa7d267a98a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:40 +0000
Subject: [PATCH 24/31] fix: give up a line search without taking a step that
 raises the cost

---
 crates/aether_opt/src/gradient_descent/basic.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/aether_opt/src/gradient_descent/basic.rs b/crates/aether_opt/src/gradient_descent/basic.rs
index 49d2ef9..799a452 100644
--- a/crates/aether_opt/src/gradient_descent/basic.rs
+++ b/crates/aether_opt/src/gradient_descent/basic.rs
@@ -229,9 +229,9 @@ impl<F: Real + Copy, const N: usize> GradientDescentGeneric<F, N> {
 
                     step = step * self.backtrack_tau;
                     if step <= F::from_f64(1e-20_f64) {
-                        // give up this iteration; behave like tiny step
-                        x = trial;
-                        fx = f_trial;
+                        // give up this iteration: no step decreases the cost
+                        x = x_old;
+                        fx = fx_old;
                         break;
                     }
                 }
-- 
2.43.0


From e84a4e9132d07585e20cb4ad4cf00d176da7727d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:40 +0000
Subject: [PATCH 25/31] fix: logistic loss matches its gradient

---
 crates/aether_ml/src/regression/logistic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_ml/src/regression/logistic.rs b/crates/aether_ml/src/regression/logistic.rs
index 8e2642f..e453611 100644
--- a/crates/aether_ml/src/regression/logistic.rs
+++ b/crates/aether_ml/src/regression/logistic.rs
@@ -94,7 +94,7 @@ impl<F: Real + Copy, const N: usize> LogisticRegression<F, N> {
         p_arr[N] = self.bias;
         let x0 = Vector::new(p_arr);
 
-        let tiny = F::ONE / (F::ONE + (F::ONE + F::ONE));
+        let tiny = F::EPSILON;
 
         let f = |pv: &Vector<F, M>| -> F {
             let mut loss = F::ZERO;
-- 
2.43.0


From 79b248aa98347b898f820b35f4e6ffa4dbe393e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:21 +0000
Subject: [PATCH 26/31] fix: star right ascension moves by proper motion over
 cos(dec)

---
 crates/aether_catalogs/src/star_catalogs/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/aether_catalogs/src/star_catalogs/mod.rs b/crates/aether_catalogs/src/star_catalogs/mod.rs
index 4d6bfd2..ce05385 100644
--- a/crates/aether_catalogs/src/star_catalogs/mod.rs
+++ b/crates/aether_catalogs/src/star_catalogs/mod.rs
@@ -195,7 +195,9 @@ impl IcrsPropagator for GncRecord {
     fn icrs_sample(&self, epoch: f64) -> GncCatalogMotionSample {
         let dt = epoch - 2016.0;
 
-        let ra_deg = self.ra_2016 + (self.pmra.unwrap_or(0.0) as f64 * dt / 3_600_000.0);
+        // the catalogue proper motion in right ascension includes cos(dec)
+        let ra_deg = self.ra_2016
+            + (self.pmra.unwrap_or(0.0) as f64 * dt / 3_600_000.0) / self.de_2016.to_radians().cos();
         let dec_deg = self.de_2016 + (self.pmde.unwrap_or(0.0) as f64 * dt / 3_600_000.0);
 
         let ra_rad = ra_deg.to_radians();
-- 
2.43.0


From 05e9bc0e25ee9e13cdcd953fb6ca52460b2e50e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:22 +0000
Subject: [PATCH 27/31] fix: star velocity in astronomical units per year

---
 crates/aether_catalogs/src/star_catalogs/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/aether_catalogs/src/star_catalogs/mod.rs b/crates/aether_catalogs/src/star_catalogs/mod.rs
index ce05385..a015a45 100644
--- a/crates/aether_catalogs/src/star_catalogs/mod.rs
+++ b/crates/aether_catalogs/src/star_catalogs/mod.rs
@@ -225,7 +225,8 @@ impl IcrsPropagator for GncRecord {
         let velocity = match (self.plx, self.pmra, self.pmde) {
             (Some(plx), Some(pmra), Some(pmde)) if plx > 0.0 => {
                 let plx_mas = plx as f64;
-                let scale = 4.74047 / plx_mas;
+                // mas/yr over mas of parallax is AU/yr
+                let scale = 1.0 / plx_mas;
                 let mu_ra = pmra as f64;
                 let mu_de = pmde as f64;
 
-- 
2.43.0


From 3ae512bfbc9ab9615dab2dbb04b8a6f1f5995f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:16 +0000
Subject: [PATCH 28/31] Hook: schedulable stand-in for std::thread under
 cfg(aether_verif)

---
 .../gradient_descent/stochastic_parallel.rs   |  5 ++
 crates/aether_opt/src/lib.rs                  |  5 ++
 crates/aether_opt/src/verif_thread.rs         | 90 +++++++++++++++++++
 3 files changed, 100 insertions(+)
 create mode 100644 crates/aether_opt/src/verif_thread.rs

diff --git a/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs b/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
index 59bfd8d..bfb7d8e 100644
--- a/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
+++ b/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
@@ -1,6 +1,11 @@
 #![cfg(feature = "std")]
 
+#[allow(unexpected_cfgs)]
+#[cfg(not(aether_verif))]
 use std::thread;
+#[allow(unexpected_cfgs)]
+#[cfg(aether_verif)]
+use crate::verif_thread as thread;
 
 use aether_core::math::Vector;
 use aether_rand::randomizers::XorShift64Star;
diff --git a/crates/aether_opt/src/lib.rs b/crates/aether_opt/src/lib.rs
index 08a5ed9..088074a 100644
--- a/crates/aether_opt/src/lib.rs
+++ b/crates/aether_opt/src/lib.rs
@@ -1,2 +1,7 @@
 // Placeholder library for aether_opt
 pub mod gradient_descent;
+
+/// Schedulable stand-in for `std::thread`, only built for the verification harnesses.
+#[allow(unexpected_cfgs)]
+#[cfg(aether_verif)]
+mod verif_thread;
diff --git a/crates/aether_opt/src/verif_thread.rs b/crates/aether_opt/src/verif_thread.rs
new file mode 100644
index 0000000..be8d74c
--- /dev/null
+++ b/crates/aether_opt/src/verif_thread.rs
@@ -0,0 +1,90 @@
+//! Stand-in for `std::thread` under `--cfg aether_verif`: scoped workers run one at a time on the calling thread, in an
+//! order chosen by the verification harness.
+//!
+//! Each worker runs as a whole, either at the moment it is spawned or later, when some worker is joined or the scope ends.
+//! `aether_verif_choose(n)` is supplied by the harness and returns a number below `n`.
+
+use std::boxed::Box;
+use std::cell::RefCell;
+use std::marker::PhantomData;
+use std::rc::Rc;
+use std::vec::Vec;
+
+pub use std::thread::{Result, available_parallelism};
+
+unsafe extern "Rust" {
+    safe fn aether_verif_choose(n: usize) -> usize;
+}
+
+type Queue<'scope> = Rc<RefCell<Vec<Box<dyn FnOnce() + 'scope>>>>;
+
+pub struct Scope<'scope, 'env: 'scope> {
+    waiting: Queue<'scope>,
+    env: PhantomData<&'env mut &'env ()>,
+}
+
+pub struct ScopedJoinHandle<'scope, T> {
+    waiting: Queue<'scope>,
+    result: Rc<RefCell<Option<T>>>,
+}
+
+fn run(waiting: &Queue<'_>, which: usize) {
+    let worker = waiting.borrow_mut().remove(which);
+    worker();
+}
+
+pub fn scope<'env, F, T>(f: F) -> T
+where
+    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
+{
+    // Workers never outlive this call: all of them have run before it returns.
+    let waiting: Queue<'_> = Rc::new(RefCell::new(Vec::new()));
+    let scope = Scope { waiting: waiting.clone(), env: PhantomData };
+    let scope: *const Scope<'_, 'env> = &scope;
+    let value = f(unsafe { &*scope });
+    loop {
+        let n = waiting.borrow().len();
+        if n == 0 {
+            break;
+        }
+        run(&waiting, aether_verif_choose(n));
+    }
+    value
+}
+
+impl<'scope, 'env> Scope<'scope, 'env> {
+    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
+    where
+        F: FnOnce() -> T + Send + 'scope,
+        T: Send + 'scope,
+    {
+        let result = Rc::new(RefCell::new(None));
+        let slot = result.clone();
+        self.waiting.borrow_mut().push(Box::new(move || {
+            let value = f();
+            *slot.borrow_mut() = Some(value);
+        }));
+        // The worker may start at once, or any worker may start before this one is waited for.
+        let n = self.waiting.borrow().len();
+        if aether_verif_choose(2) == 1 {
+            run(&self.waiting, n - 1);
+        }
+        ScopedJoinHandle { waiting: self.waiting.clone(), result }
+    }
+}
+
+impl<'scope, T> ScopedJoinHandle<'scope, T> {
+    pub fn join(self) -> Result<T> {
+        loop {
+            if let Some(value) = self.result.borrow_mut().take() {
+                return Ok(value);
+            }
+            let n = self.waiting.borrow().len();
+            run(&self.waiting, aether_verif_choose(n));
+        }
+    }
+
+    pub fn is_finished(&self) -> bool {
+        self.result.borrow().is_some()
+    }
+}
-- 
2.43.0


From d56f01266851fd9b3c62893a17c1569732b01a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:32 +0000
Subject: [PATCH 29/31] fix: release already read elements when a matrix fails
 to deserialize

---
 crates/aether_core/src/math/matrix.rs | 54 ++++++++++++++++++---------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/crates/aether_core/src/math/matrix.rs b/crates/aether_core/src/math/matrix.rs
index aa7be51..53f88c5 100644
--- a/crates/aether_core/src/math/matrix.rs
+++ b/crates/aether_core/src/math/matrix.rs
@@ -1346,29 +1346,38 @@ where
                         let mut inited = 0usize;
 
                         for i in 0..N {
-                            match seq.next_element()? {
-                                Some(v) => {
+                            match seq.next_element() {
+                                Ok(Some(v)) => {
                                     unsafe { row_ptr.add(i).write(v) };
                                     inited += 1;
                                 }
-                                None => {
+                                other => {
                                     unsafe {
                                         for j in 0..inited {
                                             ptr::drop_in_place(row_ptr.add(j));
                                         }
                                     }
-                                    return Err(serde::de::Error::invalid_length(i, &self));
+                                    return Err(match other {
+                                        Err(e) => e,
+                                        Ok(_) => serde::de::Error::invalid_length(i, &self),
+                                    });
                                 }
                             }
                         }
 
-                        if let Some(_) = seq.next_element::<serde::de::IgnoredAny>()? {
-                            unsafe {
-                                for j in 0..inited {
-                                    ptr::drop_in_place(row_ptr.add(j));
+                        match seq.next_element::<serde::de::IgnoredAny>() {
+                            Ok(None) => {}
+                            other => {
+                                unsafe {
+                                    for j in 0..inited {
+                                        ptr::drop_in_place(row_ptr.add(j));
+                                    }
                                 }
+                                return Err(match other {
+                                    Err(e) => e,
+                                    Ok(_) => serde::de::Error::invalid_length(N + 1, &self),
+                                });
                             }
-                            return Err(serde::de::Error::invalid_length(N + 1, &self));
                         }
 
                         Ok(unsafe { row.assume_init() })
@@ -1401,29 +1410,38 @@ where
                 let mut inited = 0usize;
 
                 for i in 0..M {
-                    match seq.next_element_seed(RowSeed::<T, N>(PhantomData))? {
-                        Some(row) => {
+                    match seq.next_element_seed(RowSeed::<T, N>(PhantomData)) {
+                        Ok(Some(row)) => {
                             unsafe { out_ptr.add(i).write(row) };
                             inited += 1;
                         }
-                        None => {
+                        other => {
                             unsafe {
                                 for j in 0..inited {
                                     ptr::drop_in_place(out_ptr.add(j));
                                 }
                             }
-                            return Err(serde::de::Error::invalid_length(i, &self));
+                            return Err(match other {
+                                Err(e) => e,
+                                Ok(_) => serde::de::Error::invalid_length(i, &self),
+                            });
                         }
                     }
                 }
 
-                if let Some(_) = seq.next_element::<serde::de::IgnoredAny>()? {
-                    unsafe {
-                        for j in 0..inited {
-                            ptr::drop_in_place(out_ptr.add(j));
+                match seq.next_element::<serde::de::IgnoredAny>() {
+                    Ok(None) => {}
+                    other => {
+                        unsafe {
+                            for j in 0..inited {
+                                ptr::drop_in_place(out_ptr.add(j));
+                            }
                         }
+                        return Err(match other {
+                            Err(e) => e,
+                            Ok(_) => serde::de::Error::invalid_length(M + 1, &self),
+                        });
                     }
-                    return Err(serde::de::Error::invalid_length(M + 1, &self));
                 }
 
                 Ok(Matrix { data: unsafe { out.assume_init() } })
-- 
2.43.0


From 3e3912f1985fe0d2baf3bd088c5a6bc38cd9310a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:32 +0000
Subject: [PATCH 30/31] fix: no_std signum of zero carries the sign of zero
 like std

---
 crates/aether_core/src/real/no_std_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aether_core/src/real/no_std_impl.rs b/crates/aether_core/src/real/no_std_impl.rs
index 690a6bc..3fad5b4 100644
--- a/crates/aether_core/src/real/no_std_impl.rs
+++ b/crates/aether_core/src/real/no_std_impl.rs
@@ -11,7 +11,7 @@ impl Real for f32 {
 
     #[inline] fn abs(self) -> Self { libm::fabsf(self) }
     #[inline] fn signum(self) -> Self {
-        if self.is_nan() { self } else if self > 0.0 { 1.0 } else if self < 0.0 { -1.0 } else { self }
+        if self.is_nan() { self } else { libm::copysignf(1.0, self) }
     }
     #[inline] fn floor(self) -> Self { libm::floorf(self) }
     #[inline] fn ceil(self) -> Self { libm::ceilf(self) }
@@ -55,7 +55,7 @@ impl Real for f64 {
 
     #[inline] fn abs(self) -> Self { libm::fabs(self) }
     #[inline] fn signum(self) -> Self {
-        if self.is_nan() { self } else if self > 0.0 { 1.0 } else if self < 0.0 { -1.0 } else { self }
+        if self.is_nan() { self } else { libm::copysign(1.0, self) }
     }
     #[inline] fn floor(self) -> Self { libm::floor(self) }
     #[inline] fn ceil(self) -> Self { libm::ceil(self) }
-- 
2.43.0


From 29e299f7fb37fc443de1c4e5b2a7d6e4298c5006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:17 +0000
Subject: [PATCH 31/31] fix: reading a tailed file from the start again no
 longer repeats its rows

initialize() may run more than once (run_forever() calls it itself), and every
further call replayed the whole file on top of the rows already held.
---
 crates/aether_viz/src/realtime.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/aether_viz/src/realtime.rs b/crates/aether_viz/src/realtime.rs
index d7d8fed..1a2b157 100644
--- a/crates/aether_viz/src/realtime.rs
+++ b/crates/aether_viz/src/realtime.rs
@@ -102,6 +102,7 @@ impl CsvRealtimePlotter {
     }
 
     pub fn initialize(&mut self) -> Result<(), Box<dyn std::error::Error>> {
+        self.reset_series();
         self.reload_from_start()
     }
 
-- 
2.43.0

