//! C27: double precision computations stay in double precision.  These roots are interpreted with narrowing kept
//! visible in the value graph; `ob::double` holds when a value does not depend on any.
use crate::ob;
use colorspace::chromatic_adaptation::*;
use colorspace::chromaticity::*;
use colorspace::cmf::{CIE_1931_2_DEGREE, CMF};
use colorspace::color_space_rgb::{decode, encode, model_f64, ColorSpaceRGB};
use colorspace::illuminant;
use colorspace::interpolation::*;
use colorspace::lab::*;
use colorspace::math::*;
use colorspace::rgb::*;
use colorspace::transform::*;
use colorspace::uplifting::*;
use colorspace::vspd::*;
use colorspace::xyz::*;
use colorspace::{spd_to_nit, SpdShape, VSPD};
use num_traits::{Bounded, One, Zero};

fn v3(n: &'static str, lo: f64, hi: f64) -> Vec<f64> { ob::anyv(n, 3, lo, hi) }
fn rgb(n: &'static str) -> RGBf64 { let v = v3(n, 0.05, 50.0); rgbf64(v[0], v[1], v[2]) }
fn any_xyz(n: &'static str) -> XYZf64 { let v = v3(n, 0.05, 500.0); xyz(v[0], v[1], v[2]) }
fn dr(l: &'static str, c: RGBf64) { ob::double(l, c.r); ob::double(l, c.g); ob::double(l, c.b); }
fn dx(l: &'static str, c: XYZf64) { ob::double(l, c.x); ob::double(l, c.y); ob::double(l, c.z); }
fn dc(l: &'static str, c: XYY<f64>) { ob::double(l, c.x); ob::double(l, c.y); ob::double(l, c.Y); }
fn dl(l: &'static str, c: Lab<f64>) { ob::double(l, c.L); ob::double(l, c.a); ob::double(l, c.b); }
fn dm(l: &'static str, m: &Matrix33<f64>) { for i in 0..9 { ob::double(l, m.x[i]); } }
fn dv(l: &'static str, p: &VSPD) {
    for s in p.samples() { ob::double(l, s.nm); ob::double(l, s.v); }
    ob::double(l, p.start());
    ob::double(l, p.end());
    if let Interval::Uniform(i) = p.interval() { ob::double(l, i) }
    ob::double(l, if let Interval::Uniform(_) = p.interval() { 1.0 } else { 0.0 });
}

pub fn r_rgb_arithmetic() {
    let (a, b, k) = (rgb("a"), rgb("b"), ob::any("k", 0.1, 9.0));
    dr("sum", a + b);
    let mut c = a;
    c += b;
    dr("add-assign", c);
    dr("difference", a - b);
    dr("product", a * b);
    dr("quotient", a / b);
    dr("negation", -a);
    dr("scaled", a * k);
    dr("divided", a / k);
    dr("shifted", a + k);
    dr("shifted", a - k);
    dr("power", a.powf(k));
    dr("absolute", a.abs());
    dr("from scalar", RGBf64::from_scalar(k));
    dr("built", rgbf(a.r, a.g, a.b));
    dr("normalised", normalize(a));
    dr("clamped", clamprgb(a, k, 20.0));
    ob::double("maximum", hmax(a));
    for i in 0..3 { ob::double("indexed", a[i]); }
    dr("sum of colours", [a, b, a].iter().copied().sum());
    dr("zero and one", RGBf64::zero() + RGBf64::one());
    let w = [a.r, a.g, a.b];
    dr("cast", RGBf64::cast_slice(&w)[0]);
}
pub fn r_xyz_arithmetic() {
    let (a, b, k) = (any_xyz("a"), any_xyz("b"), ob::any("k", 0.1, 9.0));
    dx("sum", a + b);
    let mut c = a;
    c += b;
    dx("add-assign", c);
    dx("difference", a - b);
    dx("product", a * b);
    dx("quotient", a / b);
    dx("negation", -a);
    dx("scaled", a * k);
    dx("divided", a / k);
    dx("shifted", a + k);
    dx("shifted", a - k);
    dx("absolute", a.abs());
    dx("from scalar", XYZf64::from_scalar(k));
    dx("normalised", a.normalized());
    dx("normalised to Y", a.normalized_y());
    for i in 0..3 { ob::double("indexed", a[i]); }
}
pub fn r_integers() {
    let (p, q) = (rgbu8(ob::anyu("r", 0, 255) as u8, ob::anyu("g", 0, 255) as u8, ob::anyu("b", 0, 255) as u8), rgbu16(ob::anyu("R", 0, 65535) as u16, ob::anyu("G", 0, 65535) as u16, ob::anyu("B", 0, 65535) as u16));
    dr("from 8 bits", p.into());
    dr("from 16 bits", q.into());
    // next to the middle between two codes, where rounding twice would show
    let d = v3("d", -1e-9, 1e-9);
    for k in [1.0, 100.0, 254.0] {
        let m = (k + 0.5) / 255.0;
        let q = RGBu8::from(rgbf64(m + d[0], m + d[1], m + d[2]));
        ob::double("to 8 bits", q.r as f64);
        ob::double("to 8 bits", q.g as f64);
        ob::double("to 8 bits", q.b as f64);
    }
    for k in [1.0, 100.0, 40000.0, 65534.0] {
        let m = (k + 0.5) / 65535.0;
        let q = RGBu16::from(rgbf64(m + d[0], m + d[1], m + d[2]));
        ob::double("to 16 bits", q.r as f64);
        ob::double("to 16 bits", q.g as f64);
        ob::double("to 16 bits", q.b as f64);
    }
}
pub fn r_scalars() {
    let (x, y, u) = (ob::any("x", 0.1, 9.0), ob::any("y", 0.1, 9.0), ob::any("u", -0.9, 0.9));
    ob::double("clamp", clamp(x, 1.0, y));
    ob::double("sqrt", sqrt(x));
    ob::double("sqr", sqr(x));
    ob::double("abs", abs(u));
    ob::double("sin", sin(x));
    ob::double("asin", asin(u));
    ob::double("cos", cos(x));
    ob::double("acos", acos(u));
    ob::double("tan", tan(u));
    ob::double("atan2", atan2(x, y));
    ob::double("exp", exp(x));
    ob::double("pow", pow(x, y));
    ob::double("hypot", hypot(x, y));
    ob::double("powi", powi(x, 3));
}
fn m9(v: &Vec<f64>) -> Matrix33<f64> { Matrix33::new([v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]]) }
pub fn r_matrix() {
    let (a, b, k) = (m9(&ob::anyv("a", 9, -9.0, 9.0)), m9(&ob::anyv("b", 9, -9.0, 9.0)), ob::any("k", 0.1, 9.0));
    dm("new", &a);
    dm("sum", &(a + k));
    dm("difference", &(a - k));
    dm("product", &(a * b));
    dm("scaled", &(a * k));
    dm("divided", &(a / k));
    dm("negated", &(-a));
    dm("transposed", &a.transposed());
    ob::double("determinant", a.determinant());
    dx("times XYZ", a * any_xyz("v"));
    dr("times RGB", a * rgb("c"));
    if let Some(i) = a.inverse() { dm("inverse", &i) }
}
pub fn r_matrix_gj() {
    let d = v3("d", 3.0, 9.0);
    let e = ob::anyv("e", 6, -1.0, 1.0);
    let a = Matrix33::new([d[0], e[0], e[1], e[2], d[1], e[3], e[4], e[5], d[2]]);
    if let Some(i) = a.gj_inverse() { dm("Gauss-Jordan inverse", &i) }
}
pub fn r_chromaticity() {
    let a = any_xyz("a");
    dc("XYZ to xyY", XYY::from_xyz(a));
    dc("XYZ to xyY", a.into());
    let v = v3("c", 0.05, 0.9);
    dx("xyY to XYZ", XYZf64::from_chromaticity(XYY::new(v[0], v[1], v[2])));
    dx("xyY to XYZ", XYZf64::from(XYY::new(v[0], v[1], v[2])));
    dx("xy to XYZ", XYZf64::from_xy(v[0], v[1]));
    dc("xy", xy(v[0], v[1]));
}
pub fn r_lab() {
    let w = any_xyz("w");
    dl("XYZ to Lab", xyz_to_lab(any_xyz("a"), w));
    let v = v3("l", -20.0, 120.0);
    dx("Lab to XYZ", lab_to_xyz(lab(v[0], v[1], v[2]), w));
}
pub fn r_delta_e() {
    let (v, w) = (v3("l", 1.0, 100.0), v3("m", -90.0, 100.0));
    let (p, q) = (lab(v[0], v[1], v[2]), lab(w[0], w[1], w[2]));
    ob::double("1976", delta_E_1976(p, q));
    ob::double("2000", delta_E_2000(p, q));
    
}
pub fn r_curves() {
    let x = ob::any("x", -0.9, 3.0);
    ob::double("sRGB", encode::srgb_t(x));
    ob::double("sRGB", decode::srgb_t(x));
    ob::double("BT.709", encode::bt709_t(x));
    ob::double("BT.709", decode::bt709_t(x));
    ob::double("BT.2020", encode::bt2020_t(x));
    ob::double("BT.2020", decode::bt2020_t(x));
    ob::double("LogC", encode::alexa_logc_v3_t(x));
    ob::double("LogC", decode::alexa_logc_v3_t(x));
    ob::double("linear", encode::linear_t(x));
    ob::double("linear", decode::linear_t(x));
    let c = rgb("c");
    for d in [encode::srgb(c), decode::srgb(c), encode::bt709(c), decode::bt709(c), encode::bt2020(c), decode::bt2020(c), encode::alexa_logc_v3(c), decode::alexa_logc_v3(c), encode::linear(c), decode::linear(c)] { dr("curve on a colour", d); }
}
fn space(m: &ColorSpaceRGB<f64>) {
    for c in [m.red, m.green, m.blue, m.white] { dc("primaries and white", c); }
    dm("XYZ to RGB", &m.xf_xyz_to_rgb);
    dm("RGB to XYZ", &m.xf_rgb_to_xyz);
    let c = rgb("c");
    dr("encode", m.encode(c));
    dr("decode", m.decode(c));
    let w = XYY::new(ob::any("wx", 0.3, 0.36), ob::any("wy", 0.3, 0.36), 1.0);
    let a = xyz_to_rgb_matrix(w, m);
    dm("XYZ to RGB matrix", &a);
    dm("RGB to XYZ matrix", &rgb_to_xyz_matrix(w, m));
    dr("XYZ to RGB", xyz_to_rgb(&a, any_xyz("a")));
}
pub fn r_space_srgb() { space(&model_f64::SRGB) }
pub fn r_space_srgb_drv() { space(&model_f64::SRGB_DRV) }
pub fn r_space_709() { space(&model_f64::ITUR_BT709) }
pub fn r_space_2020() { space(&model_f64::ITUR_BT2020) }
pub fn r_space_p3() { space(&model_f64::DCI_P3) }
pub fn r_space_p3d65() { space(&model_f64::DCI_P3_D65) }
pub fn r_space_aces() { space(&model_f64::ACES) }
pub fn r_space_acescg() { space(&model_f64::ACES_CG) }
pub fn r_space_adobe() { space(&model_f64::ADOBE_RGB_1998) }
pub fn r_space_alexa() { space(&model_f64::ALEXA_WIDE_GAMUT) }
pub fn r_space_new() {
    let d = ob::anyv("d", 8, -0.02, 0.02);
    let m = ColorSpaceRGB::<f64>::new(xy(0.64 + d[0], 0.33 + d[1]), xy(0.3 + d[2], 0.6 + d[3]), xy(0.15 + d[4], 0.06 + d[5]), xy(0.3127 + d[6], 0.329 + d[7]), Box::new(|c| c), Box::new(|c| c));
    dm("XYZ to RGB", &m.xf_xyz_to_rgb);
    dm("RGB to XYZ", &m.xf_rgb_to_xyz);
}
pub fn r_transform() {
    let a = m9(&ob::anyv("m", 9, -9.0, 9.0));
    let (p, q, c) = (any_xyz("p"), any_xyz("q"), rgb("c"));
    dr("XYZ to RGB", xyz_to_rgb(&a, p));
    dx("RGB to XYZ", rgb_to_xyz(&a, c));
    for d in xyz_slice_to_rgb(&a, &[p, q]) { dr("slice of XYZ to RGB", d); }
    let (f, t) = (&*model_f64::SRGB_DRV, &*model_f64::DCI_P3_D65);
    dm("RGB to RGB matrix", &rgb_to_rgb_matrix(f, t));
    dm("matrix with adaptation", &xyz_to_rgb_matrix_with_cat(&a, f));
    let mut out = [RGBf64::zero(); 2];
    rgb_to_rgb(f, t, &[c, rgb("e")], &mut out);
    for d in out { dr("RGB to RGB", d); }
}
pub fn r_adaptation() {
    let (s, d) = (any_xyz("s"), any_xyz("d"));
    dm("Bradford", &bradford::<f64, _, _>(s, d));
    dm("von Kries", &von_kries::<f64, _, _>(s, d));
    dm("CAT02", &cat02::<f64, _, _>(s, d));
}
fn grid(n: usize, s: f64, h: f64) -> VSPD {
    let v = ob::anyv("v", n, 0.05, 100.0);
    VSPD::new((0..n).map(|k| Sample::new(s + k as f64 * h, v[k])).collect())
}
pub fn r_spectra() {
    let p = grid(7, 400.0, 10.0);
    let k = ob::any("k", 0.1, 9.0);
    dv("as built", &p);
    dv("scaled", &(&p * k));
    dv("scaled", &(p.clone() * k));
    dv("divided", &(&p / k));
    dv("divided", &(p.clone() / k));
    dv("collected", &p.iter().copied().collect());
    dv("collected pairs", &p.iter().map(|s| (s.nm, s.v)).collect());
    dv("constant", &VSPD::constant(SpdShape::new(400.0, 450.0, 5.0), k));
    let v = ob::anyv("w", 5, 0.05, 100.0);
    dv("from values", &VSPD::from_values(SpdShape::new(400.1, 440.1, 10.0), &v));
    for x in p.values() { ob::double("values", x); }
    for x in p.wavelengths() { ob::double("wavelengths", x); }
    let s = ob::any("s", 300.0, 400.0);
    for x in SpdShape::new(s, s + 4.0, 1.0).iter() { ob::double("shape iteration", x); }
    for x in linspace(k, 20.0, 4) { ob::double("linspace", x); }
    for row in lagrange_coefficients_astm_e2022(10.0, 3) { for x in row { ob::double("Lagrange", x); } }
}
pub fn r_resampling() {
    for (n, h) in [(7usize, 10.0), (4, 10.0), (11, 0.1)] {
        let p = grid(n, 400.1, h);
        let e = p.end();
        dv("interpolate", &p.interpolate(SpdShape::new(400.1, e, h * 0.7)));
        dv("extrapolate", &p.extrapolate(SpdShape::new(400.1 - 2.0 * h, e + 3.0 * h, h)));
        dv("align", &p.align(SpdShape::new(400.1 - h, e + h, h * 0.3)));
        dv("trim", &p.trim(SpdShape::new(400.1 + h, e - h, h)));
    }
}
pub fn r_interpolators() {
    let p = grid(8, 400.1, 10.0);
    let x = ob::any("t", 0.05, 69.9) + 400.1;
    ob::double("linear", InterpolatorLinear::new(&p).evaluate(x));
    for j in 0..7 {
        let x = 400.1 + 10.0 * j as f64 + ob::any("u", 0.05, 9.9);
        ob::double("Sprague", InterpolatorSprague::<f64>::new(&p).evaluate(x));
    }
}
fn table(n: usize, s: f64, h: f64, k: &'static str) -> VSPD { let v = ob::anyv(k, n, 0.05, 2.0); VSPD::new((0..n).map(|i| Sample::new(s + i as f64 * h, v[i])).collect()) }
pub fn r_to_xyz_1nm() { dx("1 nm", grid(41, 500.0, 1.0).to_xyz(&illuminant::spd::D65, &CIE_1931_2_DEGREE)); }
pub fn r_to_xyz_5nm() { dx("5 nm", grid(81, 380.0, 5.0).to_xyz(&illuminant::spd::D65, &CIE_1931_2_DEGREE)); }
pub fn r_to_xyz_10nm() { dx("10 nm", grid(36, 380.0, 10.0).to_xyz(&illuminant::spd::D65, &CIE_1931_2_DEGREE)); }
pub fn r_to_xyz_20nm() { dx("20 nm", grid(12, 400.0, 20.0).to_xyz(&illuminant::spd::D65, &CIE_1931_2_DEGREE)); }
pub fn r_to_xyz_irregular() {
    let v = ob::anyv("v", 4, 0.05, 100.0);
    let p = VSPD::new(vec![Sample::new(400.0, v[0]), Sample::new(433.0, v[1]), Sample::new(500.0, v[2]), Sample::new(700.0, v[3])]);
    dx("irregular", p.to_xyz(&illuminant::spd::D50, &CIE_1931_2_DEGREE));
}
pub fn r_observer() {
    let c = CMF { x_bar: table(8, 440.0, 20.0, "x"), y_bar: table(8, 440.0, 20.0, "y"), z_bar: table(8, 440.0, 20.0, "z") };
    let a = c.align(SpdShape::new(430.0, 600.0, 5.0));
    dv("observer", &a.x_bar);
    dv("observer", &a.y_bar);
    dv("observer", &a.z_bar);
    let s = c.shape();
    ob::double("observer", s.start);
    ob::double("observer", s.end);
}
pub fn r_luminance() {
    ob::double("spd_to_nit", spd_to_nit(&grid(36, 380.0, 10.0), &CIE_1931_2_DEGREE));
    let v = ob::anyv("v", 3, 0.05, 100.0);
    let p = VSPD::new(vec![Sample::new(500.0, v[0]), Sample::new(513.0, v[1]), Sample::new(540.0, v[2])]);
    ob::double("spd_to_nit", spd_to_nit(&p, &CIE_1931_2_DEGREE));
}
pub fn r_temperature() {
    if let Ok(w) = illuminant::xy::cct(ob::any("t", 4000.0, 25000.0)) { dc("cct", w) }
}
pub fn r_uplift() {
    dv("uplift", &uplift_my(rgb("c")));
    let (r, g, b) = my_basis();
    for p in [&r, &g, &b, &MY_RED, &MY_GREEN, &MY_BLUE, &SMITS_WHITE, &SMITS_CYAN, &SMITS_MAGENTA, &SMITS_YELLOW, &SMITS_RED, &SMITS_GREEN, &SMITS_BLUE] { dv("basis", p); }
}
pub fn r_tables() {
    for p in [&illuminant::spd::D50, &illuminant::spd::D55, &illuminant::spd::D60, &illuminant::spd::D65] as [&VSPD; 4] { dv("illuminant", p); }
    for p in [&CIE_1931_2_DEGREE.x_bar, &CIE_1931_2_DEGREE.y_bar, &CIE_1931_2_DEGREE.z_bar] { dv("observer", p); }
}
