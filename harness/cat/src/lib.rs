use aether_catalogs::star_catalogs::color::gaia_color::*;
use aether_catalogs::star_catalogs::*;
use aether_catalogs::wmm::*;
use sym::*;
use geo::sq;
const PI: f64 = core::f64::consts::PI;
const D: f64 = PI / 180.;
fn star(ra: f64, de: f64, pm: Option<(f32, f32)>, plx: Option<f32>) -> GncRecord {
    GncRecord { gnc_id: 1, hip_id: None, gaiadr3_id: None, ra_2016: ra, de_2016: de, e_ra_2016: 0., e_de_2016: 0., pmra: pm.map(|p| p.0), pmde: pm.map(|p| p.1), e_pmra: None, e_pmde: None, plx, e_plx: None, cat_2016: None, gmag: None, e_gmag: None, bpmag: None, e_bpmag: None, rpmag: None, e_rpmag: None, jmag: None, e_jmag: None, hmag: None, e_hmag: None, kmag: None, e_kmag: None, flag_var: None, flag_mult: None, neighbor_id: 0, neighbor_distance_arcsec: 0., shift_arsec: None, flag_shift: None, flag_pos: None, flag_pm: None, flag_neighbor: None }
}
fn unit_range(c: [f32; 3], n: &'static str) { for k in 0..3 { le(0., c[k] as f64, n); le(c[k] as f64, 1., n); } }
/// field of a model truncated at a degree
fn field(deg: usize, year: f64, lat: f64, lon: f64, h: f64) -> Option<MagneticElements> { let mut c = WorldMagneticModel::embedded().coefficients_at(year); c.max_degree = deg; WorldMagneticModel::embedded().evaluate_with_coefficients(&c, GeodeticPoint::new(lat, lon, h)).ok() }
/// writes a private coefficient, found through its getter
fn poke(c: &mut TimeAdjustedCoefficients, g: fn(&TimeAdjustedCoefficients) -> f64, v: f64) {
    let n = core::mem::size_of::<TimeAdjustedCoefficients>() / 8; let p = c as *mut _ as *mut u64;
    unsafe { for w in 0..n { let o = p.add(w).read(); p.add(w).write(0x4123456789abcdef); if g(&*(p as *const TimeAdjustedCoefficients)).to_bits() == 0x4123456789abcdef { (p.add(w) as *mut f64).write(v); return; } p.add(w).write(o); } } check(false, "no such coefficient");
}
fn elements(lat: f64, lon: f64, h: f64) {
    let m = WorldMagneticModel::embedded(); let mut c = m.coefficients_at(2025.); c.max_degree = 1;
    poke(&mut c, |c| c.g(1, 0), f("g10", -1e5, 1e5)); poke(&mut c, |c| c.g(1, 1), f("g11", -1e5, 1e5)); poke(&mut c, |c| c.h(1, 1), f("h11", -1e5, 1e5)); poke(&mut c, |c| c.g_dot(1, 0), f("gd10", -1e3, 1e3)); poke(&mut c, |c| c.g_dot(1, 1), f("gd11", -1e3, 1e3)); poke(&mut c, |c| c.h_dot(1, 1), f("hd11", -1e3, 1e3));
    if let Ok(e) = m.evaluate_with_coefficients(&c, GeodeticPoint::new(lat, lon, h)) { reach("a field"); consistent(&e); }
}
fn consistent(e: &MagneticElements) {
    let (x, y, z) = (e.field_ned_nt.x(), e.field_ned_nt.y(), e.field_ned_nt.z()); let (a, c, d) = (e.secular_variation_ned_nt_per_year.x(), e.secular_variation_ned_nt_per_year.y(), e.secular_variation_ned_nt_per_year.z()); let (h, f) = (e.horizontal_intensity_nt, e.total_intensity_nt);
    eqs(h * h, x * x + y * y, 1e10, "horizontal intensity"); eqs(f * f, x * x + y * y + z * z, 1e10, "total intensity"); le(0., h, "horizontal intensity is not negative"); le(0., f, "total intensity is not negative");
    eqs(h * e.declination_rad.cos(), x, 1e5, "declination points along the horizontal field"); eqs(h * e.declination_rad.sin(), y, 1e5, "declination points along the horizontal field"); eqs(f * e.inclination_rad.cos(), h, 1e5, "inclination dips with the field"); eqs(f * e.inclination_rad.sin(), z, 1e5, "inclination dips with the field"); eq(e.grid_variation_rad, e.declination_rad, "grid variation");
    eqs(h * e.horizontal_intensity_rate_nt_per_year, x * a + y * c, 1e8, "rate of the horizontal intensity"); eqs(f * e.total_intensity_rate_nt_per_year, x * a + y * c + z * d, 1e8, "rate of the total intensity"); eqs(h * h * e.declination_rate_rad_per_year, x * c - y * a, 1e8, "rate of the declination"); eqs(f * f * e.inclination_rate_rad_per_year * h, (x * x + y * y) * d - z * (x * a + y * c), 1e13, "rate of the inclination");
}
/// earth-fixed components of a north-east-down vector
fn ecef(v: [f64; 3], lat: f64, lon: f64) -> [f64; 3] { let (s, c, p, q) = (lat.sin(), lat.cos(), lon.sin(), lon.cos()); [-s * q * v[0] - p * v[1] - c * q * v[2], -s * p * v[0] + q * v[1] - c * p * v[2], c * v[0] - s * v[2]] }
fn site(lat: f64, lon: f64, h: f64) -> [f64; 3] { let a = 6378137.0; let e2 = 0.006694379990141356; let n = a / (1. - e2 * lat.sin() * lat.sin()).sqrt(); [(n + h) * lat.cos() * lon.cos(), (n + h) * lat.cos() * lon.sin(), (n * (1. - e2) + h) * lat.sin()] }
/// d^m P_n / ds^m from the explicit sum
fn leg(n: usize, m: usize, s: f64) -> f64 { let mut t = 0.; for k in 0..=n / 2 { let p = n - 2 * k; if p < m { continue; } let mut c = 1.; for i in 0..n { c /= 2. * (i as f64 + 1.); } for i in 1..=(2 * n - 2 * k) { c *= i as f64; } for i in 1..=k { c /= i as f64; } for i in 1..=(n - k) { c /= i as f64; } for i in 1..=p { c /= i as f64; } for i in 1..=n { c *= i as f64; } for i in 0..m { c *= (p - i) as f64; } let mut q = if k % 2 == 1 { -c } else { c }; for _ in 0..p - m { q *= s; } t += q; } t }
fn full(top: usize, lat: f64, lon: f64, h: f64) {
    let year = f("year", 2020., 2035.); let m = WorldMagneticModel::embedded(); let mut tc = m.coefficients_at(year); tc.max_degree = top; let e = match m.evaluate_with_coefficients(&tc, GeodeticPoint::new(lat, lon, h)) { Ok(e) => e, Err(WmmError::UndefinedHorizontalField) => return, Err(_) => { check(false, "a field off the poles"); return } };
    let c0 = WorldMagneticModel::embedded().coefficients_at(2025.); let p = site(lat, 0., h); let r = (p[0] * p[0] + p[2] * p[2]).sqrt(); let (s, c) = (p[2] / r, p[0] / r); let (mut n, mut w, mut d, mut nn, mut ww, mut dd) = (0., 0., 0., 0., 0., 0.); let t = year - 2025.;
    for deg in 1..=top { let mut k = 1.; for _ in 0..deg + 2 { k *= 6371200. / r; }
        for m in 0..=deg { let mut q = 1.; if m > 0 { q = 2.; for i in deg - m + 1..=deg + m { q /= i as f64; } q = q.sqrt(); } let mut cm = 1.; for _ in 0..m { cm *= c; }
            let l = q * cm * leg(deg, m, s); let dl = q * (cm * c * leg(deg, m + 1, s) - if m > 0 { m as f64 * cm / c * s * leg(deg, m, s) } else { 0. }); let (cl, sl) = ((m as f64 * lon).cos(), (m as f64 * lon).sin());
            let (a, b) = (c0.g(deg, m) * cl + c0.h(deg, m) * sl, c0.g_dot(deg, m) * cl + c0.h_dot(deg, m) * sl); let (u, v) = (m as f64 * (c0.g(deg, m) * sl - c0.h(deg, m) * cl), m as f64 * (c0.g_dot(deg, m) * sl - c0.h_dot(deg, m) * cl));
            n -= k * a * dl; w += k * u * l / c; d -= k * (deg as f64 + 1.) * a * l; nn -= k * b * dl; ww += k * v * l / c; dd -= k * (deg as f64 + 1.) * b * l; } }
    // from geocentric to geodetic axes
    let (cd, sd) = (c * lat.cos() + s * lat.sin(), s * lat.cos() - c * lat.sin()); let g = |n: f64, d: f64| (n * cd - d * sd, n * sd + d * cd); let ((x, z), (a, b)) = (g(n, d), g(nn, dd));
    eqs(e.secular_variation_ned_nt_per_year.x(), a, 1e5, "northward secular variation"); eqs(e.secular_variation_ned_nt_per_year.y(), ww, 1e5, "eastward secular variation"); eqs(e.secular_variation_ned_nt_per_year.z(), b, 1e5, "downward secular variation");
    eqs(e.field_ned_nt.x(), x + t * a, 1e5, "northward field"); eqs(e.field_ned_nt.y(), w + t * ww, 1e5, "eastward field"); eqs(e.field_ned_nt.z(), z + t * b, 1e5, "downward field");
}
fn dipole(lat: f64) {
    let (lon, h, year) = (f("lon", -PI, PI), f("h", 0., 6e5), f("year", 2020., 2035.)); let c = WorldMagneticModel::embedded().coefficients_at(year); let m = [c.g(1, 1), c.h(1, 1), c.g(1, 0)];
    if let Some(e) = field(1, year, lat, lon, h) {
        let b = ecef([e.field_ned_nt.x(), e.field_ned_nt.y(), e.field_ned_nt.z()], lat, lon); let p = site(lat, lon, h); let r2 = p[0] * p[0] + p[1] * p[1] + p[2] * p[2]; let r = r2.sqrt(); let k = 6371200. / r; let k = k * k * k; let d = m[0] * p[0] + m[1] * p[1] + m[2] * p[2];
        for i in 0..3 { eqs(b[i] * r2, k * (3. * d * p[i] - m[i] * r2), 1e19, "the first degree is a dipole field"); }
    }
}
harness! {
    // ---------------------------------------------------------------- C01
    fn c01_position() {
        let (ra, de, pa, pd, plx, t) = (f("ra", 0., 360.), f("dec", -89.9, 89.9), f32v("pmra", -1e4, 1e4), f32v("pmde", -1e4, 1e4), f32v("plx", 0.1, 1000.), f("epoch", 1900., 2100.)); let s = star(ra, de, Some((pa, pd)), Some(plx)).icrs_sample(t);
        let (a, d) = ((ra + pa as f64 * (t - 2016.) / 3.6e6 / (de * D).cos()) * D, (de + pd as f64 * (t - 2016.) / 3.6e6) * D); let r = 206264806. / plx as f64; let u = [d.cos() * a.cos(), d.cos() * a.sin(), d.sin()];
        for k in 0..3 { eqs(s.icrs_position_au[k], r * u[k], 1e9, "position is the parallax distance along the propagated direction"); } eq(s.epoch, t, "epoch");
    }
    fn c01_distance() {
        let (ra, de, pa, pd, plx, t) = (f("ra", 0., 360.), f("dec", -89.9, 89.9), f32v("pmra", -1e4, 1e4), f32v("pmde", -1e4, 1e4), f32v("plx", 0.1, 1000.), f("epoch", 1900., 2100.)); let s = star(ra, de, Some((pa, pd)), Some(plx)).icrs_sample(t); let p = s.icrs_position_au; let r = 206264806. / plx as f64; eqs(p[0] * p[0] + p[1] * p[1] + p[2] * p[2], r * r, 1e18, "distance follows the parallax");
        let v = s.icrs_velocity_au_per_yr; eqs(p[0] * v[0] + p[1] * v[1] + p[2] * v[2], 0., 1e12, "velocity is tangential"); eqs((v[0] * v[0] + v[1] * v[1] + v[2] * v[2]) * plx as f64 * plx as f64, pa as f64 * pa as f64 + pd as f64 * pd as f64, 1e9, "speed is proper motion over parallax");
    }
    fn c01_epoch() {
        let (ra, de, pa, pd, plx) = (f("ra", 0., 360.), f("dec", -89.9, 89.9), f32v("pmra", -1e4, 1e4), f32v("pmde", -1e4, 1e4), f32v("plx", 0.1, 1000.)); let s = star(ra, de, Some((pa, pd)), Some(plx)).icrs_sample(2016.); let (a, d) = (ra * D, de * D); let r = 206264806. / plx as f64; let u = [d.cos() * a.cos(), d.cos() * a.sin(), d.sin()];
        let (n, e) = ([-a.cos() * d.sin(), -a.sin() * d.sin(), d.cos()], [-a.sin(), a.cos(), 0.]);
        for k in 0..3 { eqs(s.icrs_position_au[k], r * u[k], 1e9, "no motion at the catalogue epoch"); eqs(s.icrs_velocity_au_per_yr[k] * plx as f64, pa as f64 * e[k] + pd as f64 * n[k], 1e5, "velocity is the proper motion at the parallax distance"); }
    }
    fn c01_unknown() {
        let (ra, de, pa, pd, plx, t) = (f("ra", 0., 360.), f("dec", -89.9, 89.9), f32v("pmra", -1e4, 1e4), f32v("pmde", -1e4, 1e4), f32v("plx", -1000., 0.), f("epoch", 1900., 2100.));
        let s = star(ra, de, Some((pa, pd)), if b("given") { Some(plx) } else { None }).icrs_sample(t); let p = s.icrs_position_au; eqs(p[0] * p[0] + p[1] * p[1] + p[2] * p[2], 1., 1., "unit distance without a parallax"); for k in 0..3 { eq(s.icrs_velocity_au_per_yr[k], 0., "no velocity without a parallax"); }
        let s = star(ra, de, None, Some(10.)).icrs_sample(t); let (a, d) = (ra * D, de * D); let u = [d.cos() * a.cos(), d.cos() * a.sin(), d.sin()]; for k in 0..3 { eqs(s.icrs_position_au[k], 20626480.6 * u[k], 1e8, "no motion without proper motion"); eq(s.icrs_velocity_au_per_yr[k], 0., "no velocity without proper motion"); }
    }
    fn c01_uncertainty() {
        let (ea, ed, ma, md, t, w) = (f32v("e_ra", 0., 1e4), f32v("e_de", 0., 1e4), f32v("e_pmra", 0., 1e3), f32v("e_pmde", 0., 1e3), f("epoch", 1900., 2100.), f("later", 0., 100.)); let gaia = b("gaia");
        let mut s = star(10., 20., None, None); s.e_ra_2016 = ea; s.e_de_2016 = ed; s.e_pmra = Some(ma); s.e_pmde = Some(md); s.cat_2016 = Some(String::from(if gaia { "GAIADR3" } else { "HIPPARCOS" }));
        let k = if gaia { sq(t - 2016.) } else { sq(t - 1991.25) - sq(2016. - 1991.25) }; let (va, vd) = (sq(ea as f64) + sq(ma as f64) * k, sq(ed as f64) + sq(md as f64) * k); assume(va >= 0. && vd >= 0.);
        let o = s.icrs_sample(t); eqs(sq(o.uncertainty_ra_mas), va, 1e10, "uncertainty propagates from the reference epoch"); eqs(sq(o.uncertainty_dec_mas), vd, 1e10, "uncertainty propagates from the reference epoch"); le(0., o.uncertainty_ra_mas, "not negative"); le(0., o.uncertainty_dec_mas, "not negative");
        let o = s.icrs_sample(2016.); eqs(o.uncertainty_ra_mas, ea as f64, 1e4, "catalogue uncertainty at the catalogue epoch"); eqs(o.uncertainty_dec_mas, ed as f64, 1e4, "catalogue uncertainty at the catalogue epoch");
        let (a, c) = (s.icrs_sample(2016. + w), s.icrs_sample(2016. + w + 1.)); le(a.uncertainty_ra_mas, c.uncertainty_ra_mas, "grows with time"); le(a.uncertainty_dec_mas, c.uncertainty_dec_mas, "grows with time");
    }
    fn c01_teff() {
        let x = f32v("x", -100., 100.); let t = bp_rp_to_teff(x) as f64; le(3000., t, "temperature range"); le(t, 15000., "temperature range"); if x <= -0.2 { eq(t, 15000., "hottest"); } if x >= 3. { eq(t, 3000., "coolest"); }
    }
    fn c01_teff_order() { let (x, d) = (f32v("x", -1., 4.), f32v("d", 0., 2.)); le(bp_rp_to_teff(x + d) as f64, bp_rp_to_teff(x) as f64, "redder is cooler"); }
    fn c01_blackbody() {
        let t = f32v("t", -1e6, 1e6); let c = blackbody_to_rgb(t); unit_range(c, "colour in range"); if t <= 6600. { eq(c[0] as f64, 1., "cool bodies are red"); } if t >= 6600. { eq(c[2] as f64, 1., "hot bodies are blue"); } if t <= 1900. { eq(c[2] as f64, 0., "the coolest have no blue"); }
    }
    fn c01_linear() {
        let (x, d) = (f32v("x", 0., 1.), f32v("d", 0., 1.)); assume(x + d <= 1.); let (p, q) = (srgb_to_linear([x, 0., 1.]), srgb_to_linear([x + d, x, x + d])); unit_range(p, "linear light in range"); le(p[0] as f64, q[0] as f64, "brighter stays brighter"); eq(p[1] as f64, 0., "black stays black"); eqs(p[2] as f64, 1., 1., "white stays white"); eq(q[1] as f64, p[0] as f64, "channels convert alike"); eqs(p[0] as f64, (if x <= 0.04045 { x / 12.92 } else { ((x + 0.055) / 1.055).powf(2.4) }) as f64, 1., "the sRGB transfer curve");
    }
    fn c01_star_colour() { unit_range(bp_rp_to_rgb(f32v("x", -100., 100.), b("linear")), "star colour in range"); }
    fn c01_photometry() {
        let mut s = star(0., 0., None, None); let (g, p, r) = (f32v("g", -10., 30.), f32v("bp", -10., 30.), f32v("rp", -10., 30.)); let k = [b("hasg"), b("hasbp"), b("hasrp")]; if k[0] { s.gmag = Some(g); } if k[1] { s.bpmag = Some(p); } if k[2] { s.rpmag = Some(r); }
        match s.photometric_color() { Some(c) => { check(k[0] && k[1] && k[2], "a colour needs all magnitudes"); eq(c.gmag as f64, g as f64, "magnitude is kept"); eq(c.bpmag as f64, p as f64, "magnitude is kept"); eq(c.rpmag as f64, r as f64, "magnitude is kept"); unit_range(c.rgb, "colour in range"); } None => check(!(k[0] && k[1] && k[2]), "all magnitudes give a colour") }
    }
    fn c01_infrared() {
        let mut s = star(0., 0., None, None); let (j, h, k, d) = (f32v("j", -10., 30.), f32v("h", -10., 30.), f32v("k", -10., 30.), f32v("d", 0., 10.)); s.jmag = Some(j); s.hmag = Some(h); check(matches!(s.photometric_infrared_rgb(), Some(GncCatalogInfraredColor::Missing)), "missing band"); s.kmag = Some(k);
        let mut t = star(0., 0., None, None); t.jmag = Some(j + d); t.hmag = Some(h + d); t.kmag = Some(k + d);
        if let (Some(GncCatalogInfraredColor::From2Mass { rgb: a, j: x, h: y, k: z }), Some(GncCatalogInfraredColor::From2Mass { rgb: c, .. })) = (s.photometric_infrared_rgb(), t.photometric_infrared_rgb()) { unit_range(a, "colour in range"); for i in 0..3 { le(c[i] as f64, a[i] as f64, "fainter is darker"); } eq(x as f64, j as f64, "magnitude is kept"); eq(y as f64, h as f64, "magnitude is kept"); eq(z as f64, k as f64, "magnitude is kept"); if j == k { eq(a[0] as f64, a[2] as f64, "equal magnitudes are neutral"); } } else { check(false, "all bands give a colour"); }
    }
    // ---------------------------------------------------------------- E05
    fn e05_dipole_equator() { dipole(0.) }
    // every field vector and drift: three arbitrary coefficients span them
    fn e05_elements() { elements(0.5, 0.3, 1e4) }
    fn e05_elements_south() { elements(-1.2, -2., 0.) }
    fn e05_full_north() { full(12, 0.9, f("lon", -PI, PI), 0.); }
    fn e05_full_south() { full(12, -0.7, f("lon", -PI, PI), 1e5); }
    fn e05_full_equator() { full(12, 0.05, f("lon", -PI, PI), 4e5); }
    fn e05_full_polar() { full(12, -1.45, f("lon", -PI, PI), 2e4); }
    fn e05_full_tropic() { full(12, 0.4, f("lon", -PI, PI), 6e5); }
    fn e05_low() { full(4, -1.1, f("lon", -PI, PI), 3e5); }
    fn e05_coefficients() {
        let t = f("year", 2020., 2035.); let m = WorldMagneticModel::embedded(); let (c, z) = (m.coefficients_at(t), m.coefficients_at(2025.)); for r in m.records() { eqs(c.g(r.degree, r.order), r.g_nm_nt + (t - 2025.) * r.g_dot_nm_nt_per_year, 1e5, "coefficient drift"); eqs(c.h(r.degree, r.order), r.h_nm_nt + (t - 2025.) * r.h_dot_nm_nt_per_year, 1e5, "coefficient drift"); eq(z.g(r.degree, r.order), r.g_nm_nt, "epoch coefficient"); eq(c.g_dot(r.degree, r.order), r.g_dot_nm_nt_per_year, "coefficient rate"); eq(c.h_dot(r.degree, r.order), r.h_dot_nm_nt_per_year, "coefficient rate"); }
    }
}
