#![no_std]
use aether_time::time::*;
use sym::*;
const G: i64 = 1_000_000_000;
const SB: i64 = 1 << 61;
fn nano(n: &'static str) -> i32 { i(n, 0, G - 1) as i32 }
fn dur(s: &'static str, n: &'static str) -> Duration { Duration { sec: i(s, -SB, SB), nano_sec: nano(n) } }
fn tm<T>(s: &'static str, n: &'static str) -> Time<T> { Time::new(i(s, -SB, SB), nano(n)) }
fn td(d: Duration) -> i128 { d.sec as i128 * G as i128 + d.nano_sec as i128 }
fn tt<T>(t: Time<T>) -> i128 { t.sec as i128 * G as i128 + t.nano_sec as i128 }
fn norm(d: Duration) -> bool { d.nano_sec >= 0 && (d.nano_sec as i64) < G }
fn normt<T>(d: &Time<T>) -> bool { d.nano_sec >= 0 && (d.nano_sec as i64) < G }
fn leap(y: i64) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
fn mdays(y: i64, m: i64) -> i64 {
    if m == 2 { if leap(y) { 29 } else { 28 } } else if m == 4 || m == 6 || m == 9 || m == 11 { 30 } else { 31 }
}
fn date(y: i64, m: i64, d: i64, s: i64, n: i32) -> UtcDateTime {
    UtcDateTime::new(y as i32, m as u8, d as u8, (s / 3600) as u8, (s / 60 % 60) as u8, (s % 60) as u8, n)
}
fn before(a: &UtcDateTime, b: &UtcDateTime) -> bool {
    let k = |d: &UtcDateTime| (((d.year as i64 * 16 + d.month as i64) * 32 + d.day as i64) * 32 + d.hour as i64) * 4096 + d.minute as i64 * 64 + d.second as i64;
    k(a) < k(b) || (k(a) == k(b) && a.nanos < b.nanos)
}
// days of the years 1201 to 2799
// every date that exists in every year
fn yearly() -> (u8, u8) { let m = i("m", 1, 12); let d = i("d", 1, 31); assume(d <= 30 + (m + m / 8) % 2 - 2 * (m == 2) as i64); (m as u8, d as u8) }
const D0: i64 = -281_000;
const D1: i64 = 303_000;
harness! {
    // ---------------------------------------------------------------- T01
    fn t01_from_nanos() {
        let n = i("n", i64::MIN, i64::MAX);
        let d = Duration::from_nanos(n);
        check(norm(d), "normalised"); check(td(d) == n as i128, "exact");
        let e = Duration::from_nanos_i64(n);
        check(norm(e) && td(e) == n as i128, "from_nanos_i64");
    }
    fn t01_from_units() {
        let n = i("n", i64::MIN, i64::MAX);
        let d = Duration::from_millis(n);
        check(norm(d), "millis normalised"); check(td(d) == n as i128 * 1_000_000, "millis exact");
        let d = Duration::from_micros(n);
        check(norm(d), "micros normalised"); check(td(d) == n as i128 * 1_000, "micros exact");
        let d = Duration::from_secs(n);
        check(norm(d) && td(d) == n as i128 * G as i128, "secs exact");
        check(td(Duration::zero()) == 0 && norm(Duration::zero()), "zero");
    }
    fn t01_normalize() {
        let s = i("s", -SB, SB); let n = i("n", i32::MIN as i64, i32::MAX as i64) as i32;
        let d = Duration { sec: s, nano_sec: n }.normalize();
        check(norm(d), "normalised"); check(td(d) == s as i128 * G as i128 + n as i128, "value kept");
    }
    fn t01_add_sub() {
        let a = dur("as", "an"); let b = dur("bs", "bn");
        let c = a + b;
        check(norm(c), "sum normalised"); check(td(c) == td(a) + td(b), "sum exact");
        let c = a - b;
        check(norm(c), "difference normalised"); check(td(c) == td(a) - td(b), "difference exact");
    }
    fn t01_order() {
        let a = dur("as", "an"); let b = dur("bs", "bn");
        check((a < b) == (td(a) < td(b)), "less"); check((a > b) == (td(a) > td(b)), "greater");
        check((a <= b) == (td(a) <= td(b)), "at most"); check((a == b) == (td(a) == td(b)), "equal");
        check((a.cmp(&b) == core::cmp::Ordering::Equal) == (td(a) == td(b)), "cmp equal");
    }
    fn t01_time_add() {
        let t: Time<UTC> = tm("ts", "tn"); let d = dur("ds", "dn");
        let r = t + d;
        check(normt(&r), "instant normalised"); check(tt(r) == tt(t) + td(d), "instant exact");
        let q = &t + d;
        check(normt(&q), "by-reference normalised"); check(tt(q) == tt(t) + td(d), "by-reference exact");
    }
    fn t01_time_sub() {
        let t: Time<TAI> = tm("ts", "tn"); let u: Time<TAI> = tm("us", "un");
        let d = t - u;
        check(norm(d), "difference normalised"); check(td(d) == tt(t) - tt(u), "difference exact");
        let e = &t - &u;
        check(norm(e), "by-reference normalised"); check(td(e) == tt(t) - tt(u), "by-reference exact");
        check((t < u) == (tt(t) < tt(u)), "instant order"); check((t == u) == (tt(t) == tt(u)), "instant equality");
        check(u + d == t, "adding the difference returns the instant");
    }
    // ---------------------------------------------------------------- T02
    fn t02_scales() {
        let l = i("leaps", -1000, 1000) as i32;
        set_leap_seconds(l);
        check(tai_minus_utc() == l + 10, "TAI-UTC");
        let u: Time<UTC> = tm("s", "n");
        let t = u.to_tai();
        check(tt(t) == tt(u) + (l as i128 + 10) * G as i128 && normt(&t), "UTC to TAI");
        check(t.to_utc() == u, "UTC-TAI-UTC");
        let g = u.to_gps();
        check(tt(g) == tt(u) + (l as i128 - 9 - 315_964_800) * G as i128 && normt(&g), "UTC to GPS");
        check(g.to_utc() == u, "UTC-GPS-UTC");
        check(g.to_tai() == t, "GPS to TAI"); check(t.to_gps() == g, "TAI to GPS");
        check(u.to_unix().to_utc() == u, "UTC-Unix-UTC"); check(u.to_unix().sec == u.sec && u.to_unix().nano_sec == u.nano_sec, "Unix shares the UTC epoch");
    }
    fn t02_default() {
        let u: Time<UTC> = tm("s", "n");
        check(u.to_tai().sec == u.sec + 37, "37 s by default");
        check(u.to_gps().sec == u.sec + 18 - UNIX_GPS_EPOCH, "GPS leads UTC by 18 s by default");
    }
    // ---------------------------------------------------------------- T03
    fn t03_week() {
        let g: Time<GPS> = Time::new(i("s", 0, 604_800 * 1_000_000), nano("n"));
        let hint = i("hint", 0, 1_000_000);
        let w = g.to_gps_week(hint as u32);
        check(w.sow >= 0 && w.sow < 604_800, "second of week in range");
        check(w.raw_week < 1024, "raw week in range");
        let week = (g.sec - w.sow) / 604_800;
        check(week * 604_800 + w.sow == g.sec, "seconds reconstruct the instant");
        check((week - w.raw_week as i64) % 1024 == 0, "raw week is the week modulo 1024");
        let f = w.full_week as i64;
        check((f - w.raw_week as i64) % 1024 == 0, "full week congruent to the raw week");
        check(f - hint <= 512 || f < 1024, "full week not more than half a cycle above the hint");
        check(hint - f <= 512, "full week not more than half a cycle below the hint");
    }
    fn t03_correct_hint() {
        let g: Time<GPS> = Time::new(i("s", 0, 604_800 * 1_000_000), nano("n"));
        let hint = i("hint", 0, 1_000_000);
        let wk = g.sec / 604_800;
        assume(hint - wk < 512 && wk - hint < 512);
        check(g.to_gps_week(hint as u32).full_week as i64 == wk, "a hint within half a cycle recovers the week");
    }
    // ---------------------------------------------------------------- T04
    fn t04_epoch() {
        check(Time::<UTC>::from_utc_datetime(date(1970, 1, 1, 0, 0)).sec == 0, "1970-01-01");
        check(Time::<UTC>::from_utc_datetime(date(2000, 3, 1, 0, 0)).sec == 951_868_800, "2000-03-01");
    }
    fn t04_successor() {
        let y = i("y", -4000, 4000); let m = i("m", 1, 12); let d = i("d", 1, 31);
        assume(d <= mdays(y, m));
        let (y2, m2, d2) = if d < mdays(y, m) { (y, m, d + 1) } else if m < 12 { (y, m + 1, 1) } else { (y + 1, 1, 1) };
        let a = Time::<UTC>::from_utc_datetime(date(y, m, d, 0, 0)); let b = Time::<UTC>::from_utc_datetime(date(y2, m2, d2, 0, 0));
        check(b.sec - a.sec == 86_400, "the next calendar day starts 86400 s later");
    }
    fn t04_time_of_day() {
        let y = i("y", -4000, 4000); let m = i("m", 1, 12); let d = i("d", 1, 28);
        let h = i("h", 0, 23); let mi = i("mi", 0, 59); let s = i("s", 0, 59); let n = nano("n");
        let a = Time::<UTC>::from_utc_datetime(UtcDateTime::new(y as i32, m as u8, d as u8, h as u8, mi as u8, s as u8, n));
        let b = Time::<UTC>::from_utc_datetime(date(y, m, d, 0, 0));
        check(a.sec - b.sec == h * 3600 + mi * 60 + s && a.nano_sec == n, "time of day is seconds after midnight");
    }
    fn t04_to_date() {
        let day = i("day", D0, D1); let s = i("s", 0, 86_399); let n = nano("n");
        let t = Time::<UTC>::new(day * 86_400 + s, n);
        let dt = t.to_utc_datetime();
        check(dt.month >= 1 && dt.month <= 12, "month in range");
        check(dt.day >= 1 && dt.day as i64 <= mdays(dt.year as i64, dt.month as i64), "day in range");
        check(dt.hour < 24 && dt.minute < 60 && dt.second < 60 && dt.nanos == n, "time of day in range");
        check(Time::<UTC>::from_utc_datetime(dt) == t, "converting back gives the instant");
    }
    fn t04_from_date() {
        let y = i("y", 1200, 2800); let m = i("m", 1, 12); let d = i("d", 1, 31); let n = nano("n");
        let h = i("h", 0, 23); let mi = i("mi", 0, 59); let s = i("s", 0, 59);
        assume(d <= mdays(y, m));
        let dt = UtcDateTime::new(y as i32, m as u8, d as u8, h as u8, mi as u8, s as u8, n);
        let r = Time::<UTC>::from_utc_datetime(dt).to_utc_datetime();
        check(r.hour == dt.hour && r.minute == dt.minute && r.second == dt.second && r.nanos == n, "time of day survives the round trip");
        check(r.year == dt.year, "year survives the round trip");
        check(r.month == dt.month, "month survives the round trip"); check(r.day == dt.day, "day survives the round trip");
    }
    // ---------------------------------------------------------------- T05
    fn t05_alarm() {
        let target: Time<UTC> = tm("ts", "tn");
        let mut a = UtcAlarm::new(target);
        let mut due = false;
        check(!a.is_done(), "not done before the first poll");
        let p: [Time<UTC>; 3] = [tm("as", "an"), tm("bs", "bn"), tm("cs", "cn")];
        for t in p {
            let f = a.check(t);
            check(f == (!due && tt(t) >= tt(target)), "fires at the first poll not before the target and never again");
            due |= tt(t) >= tt(target);
            check(a.is_done() == due, "done exactly after firing");
        }
    }
    // next_fire and the period are the whole state, and new() reaches every value of it: one poll covers all histories
    fn t05_interval() {
        let start: Time<UTC> = tm("ts", "tn"); let p = Duration { sec: i("ps", 0, 100_000), nano_sec: nano("pn") };
        assume(td(p) > 0);
        let mut s = UtcSchedule::new(start, Recurrence::Interval(p));
        let due = tt(s.next_fire());
        check(due == tt(start) + td(p) && normt(&s.next_fire()), "first due one period after the start");
        let t: Time<UTC> = tm("as", "an");
        assume(tt(t) < due + 3 * td(p));
        let f = s.check(t);
        check(f == (tt(t) >= due), "fires exactly when due");
        let n = s.next_fire();
        if f {
            let k = tt(n) - due;
            check((k == td(p)) | (k == 2 * td(p)) | (k == 3 * td(p)), "re-armed a whole number of periods later");
            check(tt(n) > tt(t) && tt(n) - td(p) <= tt(t), "re-armed at the next multiple of the period");
        } else { check(tt(n) == due, "unchanged before it is due"); }
        check(normt(&n), "normalised");
    }
    fn t05_once() {
        let start: Time<UTC> = tm("ts", "tn");
        let mut s = UtcSchedule::new(start, Recurrence::Once);
        let mut done = false;
        let p: [Time<UTC>; 3] = [tm("as", "an"), tm("bs", "bn"), tm("cs", "cn")];
        for t in p {
            let f = s.check(t);
            check(f == (!done && tt(t) >= tt(start)), "fires once, at the first poll not before its time");
            done |= f;
        }
    }
    fn t05_hourly() {
        let start: Time<UTC> = tm("ts", "tn"); let mi = i("mi", 0, 59); let se = i("se", 0, 59);
        let mut s = UtcSchedule::new(start, Recurrence::Hourly { minute: mi as u8, second: se as u8 });
        let n = s.next_fire();
        check((n.sec - mi * 60 - se) % 3600 == 0 && n.nano_sec == 0, "due at the given minute and second");
        check(n > start && n.sec - start.sec <= 3600, "next such time after the start");
        let t: Time<UTC> = tm("as", "an");
        let f = s.check(t);
        check(f == (tt(t) >= tt(n)), "fires exactly when due");
        let m = s.next_fire();
        if f {
            check((m.sec - mi * 60 - se) % 3600 == 0 && m.nano_sec == 0, "re-armed at the given minute and second");
            check(m > t && m.sec - t.sec <= 3600, "re-armed at the next such time");
        } else { check(m == n, "unchanged before it is due"); }
    }
    fn t05_daily() {
        let start: Time<UTC> = tm("ts", "tn"); let h = i("h", 0, 23); let mi = i("mi", 0, 59); let se = i("se", 0, 59);
        let tod = h * 3600 + mi * 60 + se;
        let mut s = UtcSchedule::new(start, Recurrence::Daily { hour: h as u8, minute: mi as u8, second: se as u8 });
        let n = s.next_fire();
        check((n.sec - tod) % 86_400 == 0 && n.nano_sec == 0, "due at the given time of day");
        check(n > start && n.sec - start.sec <= 86_400, "next such time after the start");
        let t: Time<UTC> = tm("as", "an");
        let f = s.check(t);
        check(f == (tt(t) >= tt(n)), "fires exactly when due");
        let m = s.next_fire();
        if f {
            check((m.sec - tod) % 86_400 == 0 && m.nano_sec == 0, "re-armed at the given time of day");
            check(m > t && m.sec - t.sec <= 86_400, "re-armed at the next such time");
        } else { check(m == n, "unchanged before it is due"); }
    }
    fn t05_yearly() {
        let start = Time::<UTC>::new(i("day", D0, D1) * 86_400 + i("sod", 0, 86_399), nano("n"));
        let (m, d) = yearly();
        let h = i("h", 0, 23) as u8; let mi = i("mi", 0, 59) as u8; let se = i("se", 0, 59) as u8;
        let mut s = UtcSchedule::new(start, Recurrence::Yearly { month: m, day: d, hour: h, minute: mi, second: se });
        let y = start.to_utc_datetime().year;
        let occ = |y: i32| Time::<UTC>::from_utc_datetime(UtcDateTime::new(y, m, d, h, mi, se, 0));
        let n = s.next_fire();
        check(n == if tt(occ(y)) > tt(start) { occ(y) } else { occ(y + 1) }, "due at the first occurrence of the date after the start");
        let now = Time::<UTC>::new(i("day2", D0, D1) * 86_400 + i("sod2", 0, 86_399), nano("n2"));
        let f = s.check(now);
        check(f == (tt(now) >= tt(n)), "fires exactly when due");
        let y = now.to_utc_datetime().year;
        let want = if !f { n } else if tt(occ(y)) > tt(now) { occ(y) } else { occ(y + 1) };
        check(s.next_fire() == want, "re-armed at the next occurrence");
    }
    fn t05_yearly_later() {
        let t = Time::<UTC>::new(i("day", D0, D1) * 86_400 + i("sod", 0, 86_399), nano("n"));
        let y = t.to_utc_datetime().year; let (m, d) = yearly();
        let occ = Time::<UTC>::from_utc_datetime(UtcDateTime::new(y + 1, m, d, i("h", 0, 23) as u8, i("mi", 0, 59) as u8, i("se", 0, 59) as u8, 0));
        check(occ > t, "any date of the next year is later");
    }
    fn t05_timer_late() {
        let p = Duration { sec: i("ps", 0, 100_000), nano_sec: nano("pn") };
        let d = [Duration { sec: i("as", 0, 1_000_000), nano_sec: nano("an") }, Duration { sec: i("bs", 0, 1_000_000), nano_sec: nano("bn") }];
        let (p_, a, b) = (td(p), td(d[0]), td(d[1]));
        assume(p_ > 0); assume(a < 3 * p_); assume(b < p_);
        let mut e = TimerEvent::new(p);
        check(e.step(d[0]) == (a >= p_), "fires in a step that reaches the period, late or not");
        let k = (a >= p_) as i128 + (a >= 2 * p_) as i128;
        check(e.step(d[1]) == (a + b >= (k + 1) * p_), "the overshoot counts towards the next multiple");
    }
    fn t05_timer_drift() {
        let p = Duration { sec: i("ps", 0, 100_000), nano_sec: nano("pn") };
        let d = [Duration { sec: i("as", 0, 1_000_000), nano_sec: nano("an") }, Duration { sec: i("bs", 0, 1_000_000), nano_sec: nano("bn") }, Duration { sec: i("cs", 0, 1_000_000), nano_sec: nano("cn") }];
        let (p_, a, b, c) = (td(p), td(d[0]), td(d[1]), td(d[2]));
        assume(p_ > 0); assume(a < p_); assume(b < p_); assume(c < p_);
        let mut e = TimerEvent::new(p);
        check(!e.step(d[0]), "not before it is due");
        check(e.step(d[1]) == (a + b >= p_), "fires when the total reaches the period");
        let k = (a + b >= p_) as i128;
        check(e.step(d[2]) == (a + b + c >= (k + 1) * p_), "no drift");
    }
    fn t05_timer_set() {
        let p = [Duration { sec: i("ps", 0, 1000), nano_sec: nano("pn") }, Duration { sec: i("qs", 0, 1000), nano_sec: nano("qn") }];
        assume(td(p[0]) > 0 && td(p[1]) > 0);
        let mut s = TimerSet::<2>::new(p);
        let d = [Duration { sec: i("as", 0, 100_000), nano_sec: nano("an") }, Duration { sec: i("bs", 0, 100_000), nano_sec: nano("bn") }];
        let (a, b) = (td(d[0]), td(d[1]));
        assume(a < td(p[0])); assume(b < td(p[0])); assume(a < td(p[1])); assume(b < td(p[1]));
        let r = s.step(d[0]);
        check(!r[0] && !r[1], "none before it is due");
        let r = s.step(d[1]);
        check(r[0] == (a + b >= td(p[0])), "first timer by its own period"); check(r[1] == (a + b >= td(p[1])), "second timer by its own period");
        check(s.event_mut(1).is_some() && s.event_mut(2).is_none(), "indexing");
    }
    // ---------------------------------------------------------------- T06
    fn t06_dt() {
        let tps = u("tps", 1, u64::MAX); let t0 = u("t0", 0, u64::MAX); let last = u("last", 0, u64::MAX); let now = u("now", 0, u64::MAX);
        let el = now.wrapping_sub(last);
        assume(tps >= 2 || el < 1 << 63);
        let k = TimeKeeper::<UTC>::new(MissionEpoch::new_tai(Time::new(0, 0)), t0, tps);
        let mut l = last;
        let d = k.dt_from_ticks(&mut l, now);
        check(l == now, "last tick count updated");
        check(norm(d) && d.sec >= 0, "normalised");
        // floor(el * 1e9 / tps)
        let lo = td(d) as u128 * tps as u128; let x = el as u128 * G as u128;
        check(lo <= x && x < lo + tps as u128, "elapsed nanoseconds, rounded down");
    }
    fn t06_t_plus() {
        let tps = u("tps", 1, u64::MAX); let t0 = u("t0", 0, u64::MAX); let now = u("now", 0, u64::MAX);
        let el = now.wrapping_sub(t0);
        assume(tps >= 2 || el < 1 << 63);
        let k = TimeKeeper::<GPS>::new(MissionEpoch::new_tai(Time::new(0, 0)), t0, tps);
        let t = k.t_plus(now);
        check(normt(&t) && t.sec >= 0, "normalised");
        let lo = tt(t) as u128 * tps as u128; let x = el as u128 * G as u128;
        check(lo <= x && x < lo + tps as u128, "elapsed nanoseconds, rounded down, across counter wrap");
    }
    fn t06_now() {
        let tps = u("tps", 16, 1 << 40); let t0 = u("t0", 0, u64::MAX); let now = u("now", 0, u64::MAX);
        set_leap_seconds(i("leaps", -100, 100) as i32);
        let s: Time<UTC> = tm("ss", "sn");
        let m = MissionEpoch::new_utc(s);
        check(m.start() == s.to_tai(), "epoch stored in TAI");
        let k = TimeKeeper::<UTC>::new(m, t0, tps); let g = TimeKeeper::<GPS>::new(m, t0, tps);
        let e = k.t_plus(now);
        let n = k.now_tai(now);
        check(tt(n) == tt(m.start()) + tt(e) && normt(&n), "absolute time is the epoch plus the elapsed time");
        check(k.now_utc(now) == n.to_utc(), "UTC"); check(g.now_gps(now) == n.to_gps(), "GPS");
    }
}
