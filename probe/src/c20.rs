//! C20: functions return on every input of the right shape, extreme or degenerate; only the documented requests are refused.
use crate::ob;
use colorspace::chromatic_adaptation::*;
use colorspace::chromaticity::*;
use colorspace::cmf::*;
use colorspace::color_space_rgb::{decode, encode, model_f32, model_f64, ColorSpaceRGB};
use colorspace::illuminant;
use colorspace::interpolation::*;
use colorspace::lab::*;
use colorspace::math::*;
use colorspace::rgb::*;
use colorspace::spd::*;
use colorspace::transform::*;
use colorspace::uplifting::*;
use colorspace::vspd::*;
use colorspace::xyz::*;
use colorspace::{spd_to_nit, SpdShape, VSPD};

const BIG: f64 = 1e30;
fn c3(n: &'static str, k: f64) -> [f64; 3] { let v = ob::anyv(n, 3, -k, k); [v[0], v[1], v[2]] }
fn f3(n: &'static str, k: f32) -> [f32; 3] { let v = ob::anyv32(n, 3, -k, k); [v[0], v[1], v[2]] }
fn spec(v: &[f64], s: f64, h: f64) -> VSPD { VSPD::new((0..v.len()).map(|k| Sample::new(s + k as f64 * h, v[k])).collect()) }

macro_rules! curve {
    ($m:ident, $e:path, $d:path) => {
        pub mod $m {
            use super::*;
            pub fn r_total_f64() { let c = c3("c", BIG); ob::returns("encoding any colour", || { $e(rgbf(c[0], c[1], c[2])); }); ob::returns("decoding any colour", || { $d(rgbf(c[0], c[1], c[2])); }); }
            pub fn r_total_f32() { let c = f3("c", 1e30); ob::returns("encoding any colour", || { $e(rgbf(c[0], c[1], c[2])); }); ob::returns("decoding any colour", || { $d(rgbf(c[0], c[1], c[2])); }); }
        }
    };
}
curve!(srgb, encode::srgb, decode::srgb);
curve!(bt709, encode::bt709, decode::bt709);
curve!(bt2020, encode::bt2020, decode::bt2020);
curve!(linear, encode::linear, decode::linear);
curve!(alexa, encode::alexa_logc_v3, decode::alexa_logc_v3);

pub fn r_spaces() {
    let c = c3("c", BIG);
    for s in [&*model_f64::SRGB, &*model_f64::SRGB_DRV, &*model_f64::ITUR_BT709, &*model_f64::ITUR_BT2020, &*model_f64::DCI_P3, &*model_f64::DCI_P3_D65, &*model_f64::ACES, &*model_f64::ACES_CG, &*model_f64::ADOBE_RGB_1998, &*model_f64::ALEXA_WIDE_GAMUT] {
        ob::returns("encoding any colour", || { s.encode(rgbf(c[0], c[1], c[2])); });
        ob::returns("decoding any colour", || { s.decode(rgbf(c[0], c[1], c[2])); });
    }
    let c = f3("d", 1e30);
    for s in [&*model_f32::SRGB, &*model_f32::ITUR_BT709, &*model_f32::ITUR_BT2020, &*model_f32::DCI_P3, &*model_f32::DCI_P3_D65, &*model_f32::ACES, &*model_f32::ACES_CG, &*model_f32::ADOBE_RGB_1998, &*model_f32::ALEXA_WIDE_GAMUT] {
        ob::returns("encoding any colour", || { s.encode(rgbf(c[0], c[1], c[2])); });
        ob::returns("decoding any colour", || { s.decode(rgbf(c[0], c[1], c[2])); });
    }
}
pub fn r_quantise() {
    let c = c3("c", BIG);
    let d = f3("d", 1e30);
    ob::returns("any colour", || { let _q: RGBu8 = rgbf64(c[0], c[1], c[2]).into(); });
    ob::returns("any colour", || { let _q: RGBu16 = rgbf64(c[0], c[1], c[2]).into(); });
    ob::returns("any colour", || { let _q: RGBu8 = rgbf32(d[0], d[1], d[2]).into(); });
    ob::returns("any colour", || { let _q: RGBu16 = rgbf32(d[0], d[1], d[2]).into(); });
    for x in [0.0, -0.0, 1.0, -1.0, 1e308, -1e308, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, f64::NAN] {
        ob::returns("special values", || { let _q: RGBu8 = rgbf64(x, x, x).into(); let _w: RGBu16 = rgbf64(x, x, x).into(); let _f: RGBf32 = rgbf64(x, x, x).into(); });
    }
    for x in [0.0f32, -0.0, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::INFINITY, f32::NEG_INFINITY, f32::NAN] {
        ob::returns("special values", || { let _q: RGBu8 = rgbf32(x, x, x).into(); let _w: RGBu16 = rgbf32(x, x, x).into(); });
    }
}
pub fn r_colours() {
    let (c, d) = (c3("c", BIG), c3("d", BIG));
    let (x, y) = (xyz(c[0], c[1], c[2]), xyz(d[0], d[1], d[2]));
    let (a, b) = (rgbf64(c[0], c[1], c[2]), rgbf64(d[0], d[1], d[2]));
    ob::returns("arithmetic", || { let _r = (a + b, a - b, a * b, a / b, -a, a + d[0], a - d[0], a * d[0], a / d[0], a.abs(), hmax(a), normalize(a), clamprgb(a, 0.0, 1.0), a == b, a < b); });
    ob::returns("arithmetic", || { let _r = (x + y, x - y, x * y, x / y, -x, x + d[0], x - d[0], x * d[0], x / d[0], x.abs(), x.normalized(), x == y); });
    let z = xyz(0.0, 0.0, 0.0);
    ob::returns("black", || { let _r = (z.normalized(), z.normalized_y(), XYY::from_xyz(z), z / z, normalize(rgbf64(0.0, 0.0, 0.0)), hmax(rgbf64(0.0, 0.0, 0.0))); });
    ob::returns("chromaticity of any stimulus", || { let _r = XYY::from_xyz(x); });
    ob::returns("stimulus of any chromaticity", || { let _r = XYZ::from_chromaticity(XYY::new(c[0], c[1], c[2])); });
    let p = colorspace::lab::lab(c[0], c[1], c[2]);
    ob::returns("L*a*b* of any stimulus", || { xyz_to_lab::<f64, _, _>(x, xyz(95.0, 100.0, 108.0)); });
    ob::returns("stimulus of any L*a*b*", || { lab_to_xyz::<f64, _, _>(p, xyz(95.0, 100.0, 108.0)); });
    ob::returns("difference of any colours", || { delta_E_1976(p, colorspace::lab::lab(d[0], d[1], d[2])); });
    ob::returns("difference of equal colours", || { delta_E_2000(p, p); });
}
pub fn r_difference() {
    let (c, d) = (c3("c", 1e4), c3("d", 1e4));
    ob::returns("difference of any colours", || { delta_E_2000(colorspace::lab::lab(c[0], c[1], c[2]), colorspace::lab::lab(d[0], d[1], d[2])); });
    for k in [0.0, 50.0, 100.0] {
        ob::returns("difference of greys", || { delta_E_2000(colorspace::lab::lab(k, 0.0, 0.0), colorspace::lab::lab(d[0], 0.0, 0.0)); });
        ob::returns("difference from a grey", || { delta_E_2000(colorspace::lab::lab(k, 0.0, 0.0), colorspace::lab::lab(d[0], d[1], d[2])); });
        ob::returns("difference from a grey", || { delta_E_2000(colorspace::lab::lab(d[0], d[1], d[2]), colorspace::lab::lab(k, 0.0, 0.0)); });
    }
}
pub fn r_matrices() {
    let v = ob::anyv("m", 9, -1e6, 1e6);
    let m = Matrix33::new([v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]]);
    ob::returns("arithmetic", || { let _r = (m * m, m * v[0], m + v[0], m - v[0], m / v[0], -m, m.transposed(), m.determinant()); });
    ob::returns("any matrix may be inverted", || { m.inverse(); });
    ob::returns("the zero matrix", || { (m * 0.0).inverse(); });
    ob::returns("the zero matrix", || { (m * 0.0).gj_inverse(); });
}
pub fn r_gauss_jordan() {
    let v = ob::anyv("m", 3, -1e6, 1e6);
    ob::returns("any matrix may be inverted", || { Matrix33::new([v[0], v[1], 0.0, v[2], 1.0, 0.0, 0.0, 0.0, 1.0]).gj_inverse(); });
    ob::returns("any matrix may be inverted", || { Matrix33::new([0.0, v[0], 0.0, v[1], 0.0, 0.0, 0.0, 0.0, v[2]]).gj_inverse(); });
    ob::returns("any matrix may be inverted", || { Matrix33::new([1.0, 1.0, v[0], 1.0, 1.0, v[1], 1.0, 1.0, v[2]]).gj_inverse(); });
    ob::returns("any matrix may be inverted", || { Matrix33::new([0.0, 0.0, v[0], 0.0, v[1], 0.0, v[2], 0.0, 0.0]).gj_inverse(); });
}
pub fn r_slices() {
    let v = ob::anyv("m", 9, -3.0, 3.0);
    let m = Matrix33::new([v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]]);
    ob::returns("no colours", || { xyz_slice_to_rgb::<f64>(&m, &[]); });
    for n in 0..5 {
        for k in 0..5 {
            ob::returns("buffers of any length", || { let from = vec![rgbf64(0.5, 0.25, v[0]); n]; let mut to = vec![rgbf64(0.0, 0.0, 0.0); k]; rgb_to_rgb(&*model_f64::SRGB, &*model_f64::DCI_P3, &from, &mut to[..]); });
        }
    }
    ob::returns("no values", || { RGBf64::cast_slice(&[]); RGBu8::cast_slice(&[]); });
    let none: Vec<RGBf64> = vec![];
    ob::returns("sum of nothing", || { let _s: RGBf64 = none.iter().map(|c| *c).sum(); });
}
pub fn r_adaptation() {
    let (c, d) = (c3("c", 1e6), c3("d", 1e6));
    ob::returns("any whites", || { bradford::<f64, _, _>(xyz(c[0], c[1], c[2]), xyz(d[0], d[1], d[2])); });
    ob::returns("any whites", || { von_kries::<f64, _, _>(xyz(c[0], c[1], c[2]), xyz(d[0], d[1], d[2])); });
    ob::returns("any whites", || { cat02::<f64, _, _>(xyz(c[0], c[1], c[2]), xyz(d[0], d[1], d[2])); });
    ob::returns("any white", || { xyz_to_rgb_matrix(XYY::new(c[0], c[1], c[2]), &model_f64::SRGB); });
    ob::returns("any white", || { rgb_to_xyz_matrix(XYY::new(c[0], c[1], c[2]), &model_f64::SRGB); });
    ob::returns("no white at all", || { bradford::<f64, _, _>(xyz(0.0, 0.0, 0.0), xyz(0.0, 0.0, 0.0)); });
}
pub fn r_temperature() {
    let t = ob::any("t", -BIG, BIG);
    ob::returns("any temperature", || { let _r = illuminant::xy::cct(t); });
    let s = ob::any32("s", -1e30, 1e30);
    ob::returns("any temperature", || { let _r = illuminant::xy::cct(s); });
    for x in [f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.0, -0.0] { ob::returns("special values", || { let _r = illuminant::xy::cct(x); }); }
}
pub fn r_uplifting() {
    let c = c3("c", BIG);
    ob::returns("any colour", || { uplift_my(rgbf64(c[0], c[1], c[2])); });
}
/// spectra of every small length, on every kind of grid, can be resampled onto any overlapping grid
fn resample(n: usize, s: f64, h: f64) {
    let v = ob::anyv("v", n, -BIG, BIG);
    let p = spec(&v[..], s, h);
    let end = s + (n as f64 - 1.0) * h;
    for (a, b, k) in [(s, end, h), (s, end, h / 2.0), (s, end, h * 2.0), (s - 3.0 * h, end + 3.0 * h, h), (s + h / 2.0, end + h, h / 3.0), (s - h / 2.0, end - h / 4.0, h), (s - 10.0, end + 10.0, 1.0), (s - 100.0, end + 200.0, 7.0), (s - 40.0, s - 20.0, 5.0), (end + 20.0, end + 40.0, 5.0), (s - 100.0, end + 300.0, 61.7)] {
        ob::returns("resampling onto any grid", || { p.align(SpdShape::new(a, b, k)); });
    }
    ob::returns("spectrum to XYZ", || { p.to_xyz(&small("i"), &CMF { x_bar: small("x"), y_bar: small("y"), z_bar: small("z") }); });
    ob::returns("luminance", || { spd_to_nit(&p, &CMF { x_bar: small("x"), y_bar: small("y"), z_bar: small("z") }); });
    ob::returns("scaling", || { let _q = &p * 2.0; let _r = &p / 0.0; });
    let l = InterpolatorLinear::new(&p);
    ob::returns("linear lookup anywhere", || { let x = ob::any("at", -1e4, 1e4); l.evaluate(x); });
    ob::returns("boundary lookup anywhere", || { let x = ob::any("at", -1e4, 1e4); ExtrapolatorConstant::new(&p).evaluate(x); });
}
fn small(n: &'static str) -> VSPD { spec(&ob::anyv(n, 3, 0.1, 2.0)[..], 500.0, 20.0) }
pub fn r_two() { resample(2, 500.0, 10.0) }
pub fn r_three() { resample(3, 500.0, 10.0) }
pub fn r_five() { resample(5, 500.0, 10.0) }
pub fn r_six() { resample(6, 500.0, 10.0) }
pub fn r_seven() { resample(7, 500.0, 10.0) }
pub fn r_seven_5nm() { resample(7, 501.0, 5.0) }
pub fn r_nine_20nm() { resample(9, 400.0, 20.0) }
pub fn r_thirds() { resample(7, 500.0, 10.0 / 3.0) }
pub fn r_tenths() { resample(8, 500.1, 0.1) }
pub fn r_irregular_few() { irregular(2, 5) }
pub fn r_irregular_more() { irregular(6, 8) }
fn irregular(from: usize, to: usize) {
    for n in from..=to {
        let v = ob::anyv("v", n, -BIG, BIG);
        for gap in 0..n - 1 {
            let mut nm = 500.0;
            let mut s = Vec::new();
            for k in 0..n { s.push(Sample::new(nm, v[k])); nm += if k == gap { 17.0 } else { 10.0 }; }
            ob::returns("any samples make a spectrum", || { VSPD::new(s.clone()); });
            let p = VSPD::new(s);
            let e = p.end();
            for (a, b, k) in [(500.0, e, 5.0), (490.0, e + 20.0, 10.0), (503.0, e - 2.0, 3.0), (400.0, 700.0, 20.0), (300.0, 400.0, 10.0), (700.0, 705.0, 0.5)] {
                ob::returns("resampling onto any grid", || { p.align(SpdShape::new(a, b, k)); });
            }
            if gap == n / 2 {
                ob::returns("spectrum to XYZ", || { p.to_xyz(&small("i"), &CMF { x_bar: small("x"), y_bar: small("y"), z_bar: small("z") }); });
                ob::returns("luminance", || { spd_to_nit(&p, &CMF { x_bar: small("x"), y_bar: small("y"), z_bar: small("z") }); });
            }
            let at = ob::any("at", -1e4, 1e4);
            ob::returns("linear lookup anywhere", || { InterpolatorLinear::new(&p).evaluate(at); });
        }
    }
}
/// what is refused
pub fn r_refused() {
    ob::panics("a spectrum of no samples", || { VSPD::new(vec![]); });
    ob::panics("a spectrum of one sample", || { VSPD::new(vec![Sample::new(500.0, 1.0)]); });
    ob::panics("values that do not match the shape", || { VSPD::from_values(SpdShape::new(400.0, 420.0, 10.0), &[1.0, 2.0]); });
    ob::panics("values that do not match the shape", || { VSPD::from_values(SpdShape::new(400.0, 420.0, 10.0), &[1.0, 2.0, 3.0, 4.0]); });
    ob::panics("a slice that does not divide into colours", || { RGBf64::cast_slice(&[1.0, 2.0]); });
    ob::panics("a slice that does not divide into colours", || { RGBu8::cast_slice(&[1, 2, 3, 4]); });
    ob::panics("component 3 of a colour", || { let c = rgbf64(1.0, 2.0, 3.0); let _v = c[3]; });
    ob::panics("component 3 of a stimulus", || { let c = xyz(1.0, 2.0, 3.0); let _v = c[3]; });
    ob::holds("temperatures outside the locus are errors, not panics", illuminant::xy::cct(3999.0).is_err() && illuminant::xy::cct(25001.0).is_err());
}
