//! The tail reader of growing CSV files, compiled from /repo's source against a modelled file system (fake.rs).
use sym::*;
pub mod fake;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum PlotStyle { Line, Points }
#[derive(Debug, Clone, Copy)]
pub struct XYSeries<'a> { pub xs: &'a [f64], pub ys: &'a [f64], pub label: Option<&'a str>, pub style: PlotStyle }
impl<'a> XYSeries<'a> {
    pub fn new(xs: &'a [f64], ys: &'a [f64]) -> Self { XYSeries { xs, ys, label: None, style: PlotStyle::Line } }
    pub fn with_label(mut self, l: &'a str) -> Self { self.label = Some(l); self }
    pub fn with_style(mut self, s: PlotStyle) -> Self { self.style = s; self }
}
pub fn plot_series(_: &[XYSeries<'_>], _: &str, _: Option<&str>, _: Option<&str>, _: Option<&str>) -> Result<(), Box<dyn std::error::Error>> { Ok(()) }
pub mod realtime { #[allow(unused_imports)] use crate::fake as std; include!("/repo/crates/aether_viz/src/realtime.rs"); }
use realtime::*;
use fake::fs::*;
static DG: [&str; 16] = ["d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10", "d11", "d12", "d13", "d14", "d15"];
/// Lays out a file: every `#` becomes a digit of the solver's choice. Returns its length and the digits.
fn file(t: &str) -> (usize, [f64; 16]) {
    let b = t.as_bytes(); let mut d = [0.; 16]; let mut n = 0;
    for k in 0..b.len() { let c = if b[k] == b'#' { let x = u(DG[n], 0, 9); d[n] = x as f64; n += 1; b'0' + x as u8 } else { b[k] }; unsafe { DATA[k] = c; } }
    (b.len(), d)
}
/// A number from lo to hi, as a case split.
fn pick(n: &'static str, lo: usize, hi: usize) -> usize { let x = u(n, lo as u64, hi as u64) as usize; for k in lo..hi { if split(x == k) { return k; } } hi }
fn show(n: usize) { unsafe { LEN = n; } }
fn plotter(header: bool, x: &str, y: &[&str], max: Option<usize>) -> CsvRealtimePlotter {
    let mut ys = Vec::new(); for k in y { ys.push(k.to_string()); }
    CsvRealtimePlotter::new(CsvRealtimeConfig { csv_path: "in".into(), output_path: "out".into(), title: String::new(), x_column: x.to_string(), y_columns: ys, x_label: None, y_label: None, style: PlotStyle::Line, has_header: header, poll_hz: 5., max_points: max })
}
/// The rows whose line ends lie within the first `n` bytes.
fn rows(n: usize, ends: &[usize]) -> usize { let mut k = 0; for e in ends { if *e <= n { k += 1; } } k }
/// The plotter holds exactly the first k rows (from `skip` on).
fn holds(p: &CsvRealtimePlotter, skip: usize, k: usize, x: &[f64], y: &[&[f64]]) {
    let xs = p.x_values(); check(xs.len() == k - skip, "every complete row once, no partial row");
    check(p.y_values().len() == y.len(), "a series per column");
    if xs.len() == k - skip { for r in skip..k { eq(xs[r - skip], x[r], "rows in order, x"); } }
    for c in 0..y.len() { let ys = &p.y_values()[c]; check(ys.len() == k - skip, "as many values in every series"); if ys.len() == k - skip { for r in skip..k { eq(ys[r - skip], y[c][r], "rows in order, y"); } } }
}
/// The plotter holds some of the first rows, each once and in order, and no more than k of them.
fn within(p: &CsvRealtimePlotter, k: usize, x: &[f64], y: &[f64]) {
    let (xs, ys) = (p.x_values(), &p.y_values()[0]); check(xs.len() <= k && ys.len() == xs.len(), "no row before its line is complete");
    if xs.len() <= k && ys.len() == xs.len() { for r in 0..xs.len() { eq(xs[r], x[r], "rows in order, x"); eq(ys[r], y[r], "rows in order, y"); } }
}
/// Any result is fine as long as nothing is lost; `strict` results must be successes.
fn done<T>(r: Result<T, Box<dyn std::error::Error>>, strict: bool) -> Option<T> { match r { Ok(v) => Some(v), Err(e) => { std::mem::forget(e); check(!strict, "a readable file is read"); None } } }
harness! {
    fn v01_growth() {
        let (n, d) = file("t,v\n#,#\n#,#\n#,#\n"); let ends = [8, 12, 16]; let (x, y) = ([d[0], d[2], d[4]], [d[1], d[3], d[5]]);
        let mut p = plotter(true, "t", &["v"], None);
        let l = pick("first", 0, n); show(l); done(p.initialize(), true); holds(&p, 0, rows(l, &ends), &x, &[&y]);
        let m = pick("second", l, n); show(m); let c = done(p.update_once(), true); check(c == Some(rows(m, &ends) > rows(l, &ends)), "reports whether rows arrived"); holds(&p, 0, rows(m, &ends), &x, &[&y]);
        show(n); done(p.update_once(), true); holds(&p, 0, 3, &x, &[&y]);
        let c = done(p.update_once(), true); check(c == Some(false), "nothing new"); holds(&p, 0, 3, &x, &[&y]);
    }
    fn v01_race() {
        let (n, d) = file("#,#\n#,#\n"); let ends = [4, 8]; let (x, y) = ([d[0], d[2]], [d[1], d[3]]);
        let mut p = plotter(false, "0", &["1"], None);
        let r = pick("read", 0, n); let m = pick("asked", r, n); let s = pick("again", m, n);
        show(0); queue(&[r, r, m]); done(p.initialize(), true); within(&p, rows(m, &ends), &x, &y);
        queue(&[m, m, s]); done(p.update_once(), true); within(&p, rows(s, &ends), &x, &y);
        show(n); queue(&[]); done(p.update_once(), true); holds(&p, 0, 2, &x, &[&y]);
    }
    fn v01_columns() {
        let (n, d) = file("b,t, a ,c\n#,#,#,x\n#,#,#,\n"); let ends = [18, 25]; let (x, a, c) = ([d[1], d[4]], [d[2], d[5]], [d[0], d[3]]);
        let mut p = plotter(true, "t", &["a", "b"], None);
        let l = pick("first", 0, n); show(l); done(p.initialize(), true); holds(&p, 0, rows(l, &ends), &x, &[&a, &c]);
        show(n); done(p.update_once(), true); holds(&p, 0, 2, &x, &[&a, &c]); check(p.available_columns().len() == 4, "the columns of the header");
    }
    fn v01_bad_rows() {
        let (n, d) = file("#,#\nx,#\n#\n#,nan\n\n #, #\r\n"); let ends = [4, 24]; let (x, y) = ([d[0], d[5]], [d[1], d[6]]);
        let mut p = plotter(false, "0", &["1"], None);
        let l = pick("first", 0, n); show(l); done(p.initialize(), true); holds(&p, 0, rows(l, &ends), &x, &[&y]);
        let m = pick("second", l, n); show(m); done(p.update_once(), true); holds(&p, 0, rows(m, &ends), &x, &[&y]);
        show(n); done(p.update_once(), true); holds(&p, 0, 2, &x, &[&y]);
    }
    fn v01_numbers() {
        let (n, d) = file("-#.#,##.\n+.#,#e2\n##,-#e-1\n"); let ends = [9, 17, 26];
        let (x, y) = ([-(d[0] + d[1] / 10.), d[4] / 10., 10. * d[6] + d[7]], [10. * d[2] + d[3], d[5] * 100., -d[8] / 10.]);
        let mut p = plotter(false, "0", &["1"], None);
        let l = pick("first", 0, n); show(l); done(p.initialize(), true); holds(&p, 0, rows(l, &ends), &x, &[&y]);
        show(n); done(p.update_once(), true); holds(&p, 0, 3, &x, &[&y]);
    }
    fn v01_keep() {
        let (n, d) = file("#,#\n#,#\n#,#\n"); let ends = [4, 8, 12]; let (x, y) = ([d[0], d[2], d[4]], [d[1], d[3], d[5]]);
        let keep = pick("keep", 0, 3); let mut p = plotter(false, "0", &["1"], Some(keep));
        let l = pick("first", 0, n); show(l); done(p.initialize(), true); let k = rows(l, &ends); holds(&p, k - k.min(keep), k, &x, &[&y]);
        show(n); done(p.update_once(), true); holds(&p, 3 - keep, 3, &x, &[&y]);
    }
    fn v01_replaced() {
        let (n, d) = file("#,#\n#,#"); let mut p = plotter(false, "0", &["1"], None);
        show(n); done(p.initialize(), true); holds(&p, 0, 1, &[d[0]], &[&[d[1]]]);
        let e = d[2]; let how = pick("how", 0, 3); match how { 0 => unsafe { INO = 2 }, 1 => unsafe { DEV = 2 }, 2 => unsafe { BORN = 2 }, _ => {} }
        let g = u("new", 0, 9); unsafe { DATA[0] = b'0' + g as u8; }
        let l = pick("visible", 0, 4); show(l); done(p.update_once(), true); let k = rows(l, &[4]); holds(&p, 0, k, &[g as f64], &[&[d[1]]]);
        show(4); done(p.update_once(), true); holds(&p, 0, 1, &[g as f64], &[&[d[1]]]); let _ = e;
        show(7); done(p.update_once(), true); holds(&p, 0, 1, &[g as f64], &[&[d[1]]]);
    }
    fn v01_late() {
        let (n, d) = file("t,v\n#,#\n"); let (x, y) = ([d[0]], [d[1]]); let mut p = plotter(true, "t", &["v"], None); let gone = b("gone");
        unsafe { THERE = false; } done(p.initialize(), true); let c = done(p.update_once(), true); check(c == Some(false), "no file yet"); holds(&p, 0, 0, &x, &[&y]);
        let l = pick("first", 0, n); show(l); unsafe { THERE = true; } done(p.update_once(), true); holds(&p, 0, rows(l, &[8]), &x, &[&y]);
        if gone { unsafe { THERE = false; } done(p.update_once(), true); unsafe { THERE = true; } }
        show(n); done(p.update_once(), true); holds(&p, 0, 1, &x, &[&y]);
    }
    fn v01_letters() {
        let (n, d) = file("µ,v\n#,#\n"); let (x, y) = ([d[0]], [d[1]]); let mut p = plotter(true, "µ", &["v"], None);
        let l = pick("first", 0, n); show(l); done(p.initialize(), l != 1); holds(&p, 0, rows(l, &[9]), &x, &[&y]);
        let m = pick("second", l, n); show(m); done(p.update_once(), m != 1); holds(&p, 0, rows(m, &[9]), &x, &[&y]);
        show(n); done(p.update_once(), true); holds(&p, 0, 1, &x, &[&y]);
    }
    fn v01_reselect() {
        let (n, d) = file("t,v,w\n#,#,#\n#,#,#\n"); let ends = [12, 18]; let (x, v, w) = ([d[0], d[3]], [d[1], d[4]], [d[2], d[5]]);
        let mut p = plotter(true, "t", &["v"], None);
        let l = pick("first", 6, n); show(l); done(p.initialize(), true); holds(&p, 0, rows(l, &ends), &x, &[&v]);
        let m = pick("second", l, n); show(m); let both = b("both"); let mut c = Vec::new(); c.push("w".to_string()); if both { c.push("v".to_string()); }
        done(p.set_y_columns(c), true); if both { holds(&p, 0, rows(m, &ends), &x, &[&w, &v]); } else { holds(&p, 0, rows(m, &ends), &x, &[&w]); }
        show(n); done(p.update_once(), true); if both { holds(&p, 0, 2, &x, &[&w, &v]); } else { holds(&p, 0, 2, &x, &[&w]); }
    }
    fn v01_again() {
        let (n, d) = file("t,v\n#,#\n#,#\n"); let ends = [8, 12]; let (x, y) = ([d[0], d[2]], [d[1], d[3]]); let mut p = plotter(true, "t", &["v"], None);
        let l = pick("first", 0, n); show(l); done(p.initialize(), true); holds(&p, 0, rows(l, &ends), &x, &[&y]);
        show(n); if b("reinitialise") { done(p.initialize(), true); } else { done(p.update_once(), true); } holds(&p, 0, 2, &x, &[&y]);
    }
    fn v01_unknown() {
        let which = b("which"); let (n, _) = file("t,v\n#,#\n"); show(n);
        let mut p = if which { plotter(true, "q", &["v"], None) } else { plotter(true, "t", &["q"], None) };
        let r = p.initialize(); check(r.is_err(), "an unknown column is reported"); std::mem::forget(r); check(p.x_values().len() == 0, "no rows without the columns");
    }
    fn v01_any() {
        let (n, d) = file("#,#\n???\n#,#\n"); let a = [b',', b'\n', b'7', b'x']; let mut c = [0; 3];
        for k in 0..3 { c[k] = a[pick(DG[8 + k], 0, 3)]; unsafe { DATA[4 + k] = c[k]; } }
        let l = pick("first", 3, n); let (mut x, mut y, mut ends, mut k) = ([d[0], 0., 0.], [d[1], 0., 0.], [4, 99, 99], 1);
        if c[0] == b'7' && c[1] == b',' && c[2] == b'7' { x[k] = 7.; y[k] = 7.; ends[k] = 8; k += 1; }
        x[k] = d[2]; y[k] = d[3]; ends[k] = 12; k += 1;
        let mut p = plotter(false, "0", &["1"], None);
        show(l); done(p.initialize(), true); holds(&p, 0, rows(l, &ends), &x, &[&y]);
        show(n); done(p.update_once(), true); holds(&p, 0, k, &x, &[&y]);
    }
}
