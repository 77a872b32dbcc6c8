//! C19: results depend on the arguments only.  Each function is called on one set of arguments, then on another, then
//! on the first again; the second result is compared with that of a process in which nothing had been called before.
use crate::ob;
use colorspace::chromatic_adaptation::*;
use colorspace::chromaticity::*;
use colorspace::cmf::*;
use colorspace::color_space_rgb::{decode, encode, model_f32, model_f64, ColorSpaceRGB};
use colorspace::illuminant;
use colorspace::interpolation::*;
use colorspace::lab::*;
use colorspace::math::*;
use colorspace::rgb::*;
use colorspace::spd::*;
use colorspace::transform::*;
use colorspace::uplifting::*;
use colorspace::vspd::*;
use colorspace::xyz::*;
use colorspace::{spd_to_nit, SpdShape, VSPD};

fn eq(l: &'static str, a: &Vec<f64>, b: &Vec<f64>) {
    ob::holds(l, a.len() == b.len());
    if a.len() == b.len() { for i in 0..a.len() { ob::same(l, a[i], b[i], 1e-12); } }
}
fn pure<A, F: Fn(&A) -> Vec<f64>>(f: F, a: &A, b: &A) {
    let x = f(a);
    let y = f(b);
    let z = f(a);
    eq("the same arguments give the same result again", &z, &x);
    ob::forget();
    let w = f(b);
    eq("earlier calls do not change the result", &y, &w);
    let u = f(a);
    eq("earlier calls do not change the result", &u, &x);
    ob::many_calls(|| { f(a); });
    let t = f(a);
    eq("any number of earlier calls do not change the result", &t, &x);
}
/// n different arguments, one after the other and once more, each against a process of its own
fn many<F: Fn(usize) -> Vec<f64>>(n: usize, f: F) {
    let mut w = Vec::new();
    for k in 0..n {
        ob::forget();
        w.push(f(k));
    }
    ob::forget();
    for round in 0..2 {
        for k in 0..n { eq("earlier calls with other arguments do not change the result", &f(k), &w[k]); }
    }
    for k in 0..n { eq("the order of the calls does not change the result", &f(n - 1 - k), &w[n - 1 - k]); }
}
/// the same call over and over
fn over_and_over<F: Fn() -> Vec<f64>>(n: usize, f: F) {
    let w = f();
    for _ in 0..n { eq("the same call gives the same result every time", &f(), &w); }
}
/// different functions called before one another
fn mixed(fs: &[&dyn Fn() -> Vec<f64>]) {
    let mut w = Vec::new();
    for f in fs {
        ob::forget();
        w.push(f());
    }
    for i in 0..fs.len() {
        for j in 0..fs.len() {
            if i == j { continue }
            ob::forget();
            fs[j]();
            eq("a call of another function does not change the result", &fs[i](), &w[i]);
        }
    }
    for _ in 0..3 {
        for i in 0..fs.len() { eq("interleaved calls do not change the result", &fs[i](), &w[i]); }
    }
}
fn m9(n: &'static str) -> Matrix33<f64> { let v = ob::anyv(n, 9, -3.0, 3.0); Matrix33::new([v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]]) }
fn m9v(m: &Matrix33<f64>) -> Vec<f64> { m.x.iter().map(|v| *v).collect() }
fn m9vf(m: &Matrix33<f32>) -> Vec<f64> { m.x.iter().map(|v| *v as f64).collect() }
fn rgbv(c: RGBf64) -> Vec<f64> { vec![c.r, c.g, c.b] }
fn xyzv(c: XYZf64) -> Vec<f64> { vec![c.x, c.y, c.z] }
fn rgbvf(c: RGBf32) -> Vec<f64> { vec![c.r as f64, c.g as f64, c.b as f64] }
fn a3(n: &'static str, lo: f64, hi: f64) -> [f64; 3] { let v = ob::anyv(n, 3, lo, hi); [v[0], v[1], v[2]] }
fn vals(p: &VSPD) -> Vec<f64> { let mut r = Vec::new(); for s in p.iter() { r.push(s.nm); r.push(s.v); } r.push(p.start()); r.push(p.end()); r }
fn spec(v: &[f64], s: f64, h: f64) -> VSPD { VSPD::new((0..v.len()).map(|k| Sample::new(s + k as f64 * h, v[k])).collect()) }
fn irr(v: &[f64], g: f64) -> VSPD { let mut nm = 400.0; VSPD::new((0..v.len()).map(|k| { let s = Sample::new(nm, v[k]); nm += if k == 1 { g } else { 10.0 }; s }).collect()) }

// ---- curves
macro_rules! curve {
    ($m:ident, $f:path, $g:path, $lo:expr, $hi:expr) => {
        pub mod $m {
            use super::*;
            pub fn r_f64() { pure(|c: &[f64; 3]| rgbv($f(rgbf(c[0], c[1], c[2]))), &a3("a", $lo, $hi), &a3("b", $lo, $hi)); pure(|c: &[f64; 3]| rgbv($g(rgbf(c[0], c[1], c[2]))), &a3("a2", $lo, $hi), &a3("b2", $lo, $hi)); }
            pub fn r_f32() { pure(|c: &[f64; 3]| rgbvf($f(rgbf(c[0] as f32, c[1] as f32, c[2] as f32))), &a3("a", $lo, $hi), &a3("b", $lo, $hi)); pure(|c: &[f64; 3]| rgbvf($g(rgbf(c[0] as f32, c[1] as f32, c[2] as f32))), &a3("a2", $lo, $hi), &a3("b2", $lo, $hi)); }
        }
    };
}
curve!(srgb, encode::srgb, decode::srgb, 0.0, 1.0);
curve!(bt709, encode::bt709, decode::bt709, 0.0, 1.0);
curve!(bt2020, encode::bt2020, decode::bt2020, 0.0, 1.0);
curve!(linear, encode::linear, decode::linear, 0.0, 1.0);
curve!(alexa, encode::alexa_logc_v3, decode::alexa_logc_v3, 0.2, 1.0);
// ---- colour spaces and transforms
pub mod space {
    use super::*;
    fn each<F: Fn(&ColorSpaceRGB<f64>) -> Vec<f64>>(f: F) {
        let s = [&*model_f64::SRGB, &*model_f64::ITUR_BT2020, &*model_f64::DCI_P3, &*model_f64::DCI_P3_D65, &*model_f64::ACES, &*model_f64::ACES_CG, &*model_f64::ADOBE_RGB_1998, &*model_f64::ALEXA_WIDE_GAMUT];
        for i in 0..s.len() { pure(|k: &usize| f(s[*k]), &i, &((i + 1) % s.len())); }
    }
    pub fn r_curves() { let c = a3("c", 0.1, 1.0); each(|s| { let mut v = rgbv(s.encode(rgbf(c[0], c[1], c[2]))); v.append(&mut rgbv(s.decode(rgbf(c[0], c[1], c[2])))); v }); }
    pub fn r_matrix() { let w = a3("w", 0.28, 0.4); each(|s| m9v(&xyz_to_rgb_matrix(xy(w[0], w[1]), s))); }
    pub fn r_matrix_back() { let w = a3("w", 0.28, 0.4); each(|s| m9v(&rgb_to_xyz_matrix(xy(w[0], w[1]), s))); }
    pub fn r_matrix_white() { pure(|w: &[f64; 3]| m9v(&xyz_to_rgb_matrix(xy(w[0], w[1]), &model_f64::SRGB)), &a3("a", 0.28, 0.4), &a3("b", 0.28, 0.4)); }
    pub fn r_matrix_white_back() { pure(|w: &[f64; 3]| m9v(&rgb_to_xyz_matrix(xy(w[0], w[1]), &model_f64::SRGB)), &a3("a", 0.28, 0.4), &a3("b", 0.28, 0.4)); }
    pub fn r_matrix_white_y() { let x = ob::any("x", 0.28, 0.35); pure(|y: &f64| m9v(&xyz_to_rgb_matrix(xy(x, *y), &model_f64::ACES)), &ob::any("ay", 0.28, 0.4), &ob::any("by", 0.28, 0.4)); }
    pub fn r_matrix_f32() { pure(|w: &[f64; 3]| m9vf(&xyz_to_rgb_matrix(xy(w[0] as f32, w[1] as f32), &model_f32::SRGB)), &a3("a", 0.28, 0.4), &a3("b", 0.28, 0.4)); }
    pub fn r_matrix_cat() { let m = m9("m"); pure(|k: &Matrix33<f64>| m9v(&xyz_to_rgb_matrix_with_cat(k, &model_f64::SRGB)), &m, &m9("k")); each(|s| m9v(&xyz_to_rgb_matrix_with_cat(&m, s))); }
    pub fn r_rgb_to_rgb_matrix() {
        let s = [&*model_f64::SRGB, &*model_f64::DCI_P3, &*model_f64::ACES_CG];
        let f = |p: &(usize, usize)| m9v(&rgb_to_rgb_matrix(s[p.0], s[p.1]));
        pure(f, &(0, 1), &(0, 2));
        pure(f, &(0, 1), &(2, 1));
        pure(f, &(1, 2), &(2, 1));
    }
    pub fn r_pixels() {
        let s = [&*model_f64::SRGB, &*model_f64::DCI_P3, &*model_f64::ACES];
        let c = ob::anyv("c", 6, 0.1, 0.9);
        let f = |p: &(usize, usize, usize)| { let from = [rgbf(c[p.2], c[1], c[2]), rgbf(c[3], c[4], c[5])]; let mut to = [rgbf(0.0, 0.0, 0.0); 2]; let n = rgb_to_rgb(s[p.0], s[p.1], &from, &mut to[..]); let mut v = rgbv(to[0]); v.append(&mut rgbv(to[1])); v.push(n as f64); v };
        pure(f, &(0, 1, 0), &(0, 2, 0));
        pure(f, &(0, 1, 0), &(2, 1, 0));
        pure(f, &(1, 2, 0), &(1, 2, 3));
        pure(f, &(1, 2, 0), &(2, 1, 0));
    }
    pub fn r_apply() {
        let (m, k) = (m9("m"), m9("k"));
        let c = a3("c", -5.0, 90.0);
        pure(|p: &(Matrix33<f64>, f64)| { let mut v = rgbv(xyz_to_rgb(&p.0, xyz(c[0], c[1], p.1))); v.append(&mut xyzv(rgb_to_xyz(&p.0, rgbf(c[0], p.1, c[2])))); for r in xyz_slice_to_rgb(&p.0, &[xyz(c[0], p.1, c[2]), xyz(c[0], c[1], c[2])]) { v.append(&mut rgbv(r)); } v }, &(m, c[2]), &(k, c[2]));
        pure(|p: &(Matrix33<f64>, f64)| { let mut v = rgbv(xyz_to_rgb(&p.0, xyz(c[0], c[1], p.1))); v.append(&mut xyzv(rgb_to_xyz(&p.0, rgbf(c[0], p.1, c[2])))); for r in xyz_slice_to_rgb(&p.0, &[xyz(c[0], p.1, c[2]), xyz(c[0], c[1], c[2])]) { v.append(&mut rgbv(r)); } v }, &(m, c[2]), &(m, c[0]));
    }
    pub fn r_new() {
        let build = |p: &[f64; 4]| { let s = ColorSpaceRGB::<f64>::new(xy(0.64, 0.33), xy(0.3, 0.6), xy(0.15, 0.06), xy(p[0], 0.329), Box::new(encode::linear), Box::new(decode::linear)); let mut v = m9v(&s.xf_xyz_to_rgb); v.append(&mut m9v(&s.xf_rgb_to_xyz)); v };
        pure(build, &[ob::any("ax", 0.28, 0.35), 0.0, 0.0, 0.0], &[ob::any("bx", 0.28, 0.35), 0.0, 0.0, 0.0]);
    }
}
// ---- chromatic adaptation, chromaticity, Lab
pub mod cat {
    use super::*;
    fn both<F: Fn(XYZf64, XYZf64) -> Matrix33<f64>>(f: F) {
        let (s, d, e) = (a3("s", 60.0, 110.0), a3("d", 60.0, 110.0), a3("e", 60.0, 110.0));
        let g = |p: &([f64; 3], [f64; 3])| m9v(&f(xyz(p.0[0], p.0[1], p.0[2]), xyz(p.1[0], p.1[1], p.1[2])));
        pure(&g, &(s, d), &(s, e));
        pure(&g, &(s, d), &(e, d));
        pure(&g, &(s, d), &(d, s));
        pure(&g, &(s, d), &([s[0], s[1], e[2]], d));
    }
    pub fn r_bradford() { both(|a, b| bradford::<f64, _, _>(a, b)) }
    pub fn r_von_kries() { both(|a, b| von_kries::<f64, _, _>(a, b)) }
    pub fn r_cat02() { both(|a, b| cat02::<f64, _, _>(a, b)) }
}
pub fn r_chromaticity() {
    pure(|c: &[f64; 3]| { let p = XYY::from_xyz(xyz(c[0], c[1], c[2])); vec![p.x, p.y, p.Y] }, &a3("a", 1.0, 90.0), &a3("b", 1.0, 90.0));
    pure(|c: &[f64; 3]| xyzv(XYZ::from_chromaticity(XYY::new(c[0], c[1], c[2]))), &a3("c", 0.1, 0.9), &a3("d", 0.1, 0.9));
}
pub mod lab {
    use super::*;
    pub fn r_to() {
        let w = [a3("w", 60.0, 110.0), a3("v", 60.0, 110.0)];
        let c = [a3("c", 20.0, 90.0), a3("d", 20.0, 90.0)];
        let f = |p: &(usize, usize)| { let l = xyz_to_lab(xyz(c[p.0][0], c[p.0][1], c[p.0][2]), xyz(w[p.1][0], w[p.1][1], w[p.1][2])); vec![l.L, l.a, l.b] };
        pure(&f, &(0, 0), &(0, 1));
        pure(&f, &(0, 0), &(1, 0));
    }
    pub fn r_from() {
        let w = [a3("w", 60.0, 110.0), a3("v", 60.0, 110.0)];
        let c = [a3("c", 20.0, 60.0), a3("d", 20.0, 60.0)];
        let f = |p: &(usize, usize)| xyzv(lab_to_xyz(colorspace::lab::lab(c[p.0][0], c[p.0][1], c[p.0][2]), xyz(w[p.1][0], w[p.1][1], w[p.1][2])));
        pure(&f, &(0, 0), &(0, 1));
        pure(&f, &(0, 0), &(1, 0));
    }
    pub fn r_delta() {
        let c = [a3("a", 10.0, 90.0), a3("b", 10.0, 90.0), a3("c", 10.0, 90.0)];
        let l = |k: usize| colorspace::lab::lab(c[k][0], c[k][1], c[k][2]);
        let f = |p: &(usize, usize)| vec![delta_E_1976(l(p.0), l(p.1))];
        pure(&f, &(0, 1), &(0, 2));
        pure(&f, &(0, 1), &(2, 1));
    }
    pub fn r_delta_2000() {
        let c = [a3("a", 10.0, 20.0), a3("b", 30.0, 40.0), a3("c", 60.0, 70.0)];
        let l = |k: usize| colorspace::lab::lab(c[k][0], c[k][1], c[k][1] * 0.5);
        let f = |p: &(usize, usize)| vec![delta_E_2000(l(p.0), l(p.1))];
        pure(&f, &(0, 1), &(0, 2));
        pure(&f, &(0, 1), &(2, 1));
    }
}
// ---- matrices
pub fn r_matrix() {
    let (a, b) = (m9("a"), m9("b"));
    pure(|m: &Matrix33<f64>| vec![m.determinant()], &a, &b);
    pure(|m: &Matrix33<f64>| m9v(&m.transposed()), &a, &b);
    pure(|p: &(Matrix33<f64>, Matrix33<f64>)| m9v(&(p.0 * p.1)), &(a, b), &(b, a));
}
pub fn r_inverse() {
    let v = ob::anyv("v", 18, 0.1, 3.0);
    let m = |k: &usize| { let o = 9 * *k; Matrix33::new([5.0 + v[o], v[o + 1], v[o + 2], v[o + 3], 6.0 + v[o + 4], v[o + 5], v[o + 6], v[o + 7], 7.0 + v[o + 8]]) };
    pure(|k: &usize| match m(k).inverse() { Some(i) => m9v(&i), None => vec![] }, &0, &1);
}
pub fn r_gj_inverse() {
    let v = ob::anyv("v", 6, 0.1, 3.0);
    let m = |k: &usize| { let o = 3 * *k; Matrix33::new([5.0 + v[o], 0.5, 0.25, 0.125, 6.0 + v[o + 1], 0.5, 0.25, 0.75, 7.0 + v[o + 2]]) };
    pure(|k: &usize| match m(k).gj_inverse() { Some(i) => m9v(&i), None => vec![] }, &0, &1);
}
// ---- spectra
pub mod spectra {
    use super::*;
    pub fn r_shape() {
        let (v, w) = (ob::anyv("v", 7, 0.0, 1.0), ob::anyv("w", 7, 0.0, 1.0));
        pure(|p: &VSPD| vals(p), &spec(&v, 400.0, 10.0), &spec(&w, 400.0, 10.0));
        pure(|p: &(f64, usize)| vals(&spec(&v[..p.1], p.0, 10.0)), &(400.0, 7), &(400.0, 6));
        pure(|p: &(f64, f64, f64)| SpdShape::new(p.0, p.1, p.2).iter().collect(), &(400.0, 450.0, 10.0), &(400.0, 450.0, 5.0));
        pure(|p: &(f64, f64, f64)| SpdShape::new(p.0, p.1, p.2).iter().collect(), &(400.0, 450.0, 10.0), &(400.0, 460.0, 10.0));
        pure(|p: &(f64, f64, f64)| SpdShape::new(p.0, p.1, p.2).iter().collect(), &(400.0, 450.0, 10.0), &(410.0, 450.0, 10.0));
    }
    fn family() -> Vec<VSPD> {
        let (v, w) = (ob::anyv("v", 8, 0.0, 1.0), ob::anyv("w", 8, 0.0, 1.0));
        vec![spec(&v, 400.0, 10.0), spec(&w, 400.0, 10.0), spec(&v[..7], 400.0, 10.0), spec(&v, 405.0, 10.0), spec(&v, 400.0, 5.0), irr(&v, 12.0), irr(&w, 12.0)]
    }
    fn over<F: Fn(&VSPD) -> Vec<f64>>(f: F) {
        let p = family();
        for (i, j) in [(0, 1), (0, 2), (0, 3), (0, 4), (0, 5), (5, 6), (5, 0)] { pure(|k: &usize| f(&p[*k]), &i, &j); }
    }
    pub fn r_interpolate() { let p = family(); for (i, j) in [(0, 1), (0, 2), (0, 3), (0, 4)] { pure(|k: &usize| vals(&p[*k].interpolate(SpdShape::new(410.0, 430.0, 2.5))), &i, &j); } }
    pub fn r_interpolate_shape() { let p = family(); for (a, b) in [((400.0, 440.0, 5.0), (400.0, 440.0, 4.0)), ((400.0, 440.0, 5.0), (400.0, 450.0, 5.0)), ((400.0, 440.0, 5.0), (405.0, 440.0, 5.0))] { pure(|k: &(f64, f64, f64)| vals(&p[0].interpolate(SpdShape::new(k.0, k.1, k.2))), &a, &b); } }
    pub fn r_align() { over(|s| vals(&s.align(SpdShape::new(380.0, 500.0, 7.0)))) }
    pub fn r_align_shape() { let p = family(); for (a, b) in [((390.0, 440.0, 5.0), (390.0, 440.0, 4.0)), ((390.0, 440.0, 5.0), (390.0, 450.0, 5.0)), ((390.0, 440.0, 5.0), (385.0, 440.0, 5.0))] { pure(|k: &(f64, f64, f64)| vals(&p[0].align(SpdShape::new(k.0, k.1, k.2))), &a, &b); } }
    pub fn r_extrapolate() { let p = family(); for (i, j) in [(0, 1), (0, 2), (0, 3), (0, 4)] { pure(|k: &usize| vals(&p[*k].extrapolate(SpdShape::new(370.0, 520.0, 10.0))), &i, &j); } }
    pub fn r_trim() { over(|s| vals(&s.trim(SpdShape::new(405.0, 432.0, 1.0)))) }
    pub fn r_sprague() { let p = family(); for (i, j) in [(0, 1), (0, 2)] { pure(|k: &usize| { let s = InterpolatorSprague::<f64>::new(&p[*k]); vec![s.evaluate(402.5), s.evaluate(425.0), s.evaluate(447.5)] }, &i, &j); } }
    pub fn r_sprague_point() { let p = family(); let s = InterpolatorSprague::<f64>::new(&p[0]); pure(|x: &f64| vec![s.evaluate(*x)], &422.5, &435.0); pure(|x: &f64| vec![s.evaluate(*x)], &422.5, &427.5); }
    pub fn r_linear() { over(|s| { let i = InterpolatorLinear::new(s); vec![i.evaluate(390.0), i.evaluate(403.0), i.evaluate(421.0), i.evaluate(700.0)] }) }
    pub fn r_constant() { over(|s| { let i = ExtrapolatorConstant::new(s); vec![i.evaluate(390.0), i.evaluate(700.0)] }) }
    pub fn r_lagrange() {
        let f = |p: &(f64, usize)| { let mut v = Vec::new(); for r in lagrange_coefficients_astm_e2022(p.0, p.1) { for x in r { v.push(x); } } v };
        pure(f, &(10.0, 4), &(10.0, 3));
        pure(f, &(10.0, 4), &(5.0, 4));
        pure(|p: &(f64, f64, usize)| linspace(p.0, p.1, p.2).collect(), &(0.0, 1.0, 5), &(0.0, 1.0, 6));
        pure(|p: &(f64, f64, usize)| linspace(p.0, p.1, p.2).collect(), &(0.0, 1.0, 5), &(0.0, 2.0, 5));
    }
    pub fn r_uplift() {
        pure(|c: &[f64; 3]| uplift_my(rgbf(c[0], c[1], c[2])).values().collect(), &a3("a", 0.0, 1.0), &a3("b", 0.0, 1.0));
        let k = a3("k", 0.0, 1.0);
        pure(|c: &[f64; 3]| uplift_my(rgbf(c[0], c[1], c[2])).values().collect(), &k, &[k[1], k[0], k[2]]);
    }
    pub fn r_cct() {
        let v = |t: f64| match illuminant::xy::cct(t) { Ok(c) => vec![c.x, c.y, c.Y], Err(_) => vec![] };
        pure(|t: &f64| v(*t), &ob::any("a", 4000.0, 6900.0), &ob::any("b", 7100.0, 20000.0));
        pure(|t: &f64| v(*t), &ob::any("c", 4000.0, 6900.0), &ob::any("d", 4000.0, 6900.0));
        pure(|t: &f64| v(*t), &3000.0, &5000.0);
    }
}
pub mod colour {
    use super::*;
    fn tables() -> (CMF, CMF, VSPD, VSPD) {
        let t = |k: &'static str| spec(&ob::anyv(k, 8, 0.1, 2.0), 440.0, 20.0);
        (CMF { x_bar: t("x"), y_bar: t("y"), z_bar: t("z") }, CMF { x_bar: t("xx"), y_bar: t("yy"), z_bar: t("zz") }, spec(&ob::anyv("i", 8, 0.1, 2.0), 440.0, 20.0), spec(&ob::anyv("j", 8, 0.1, 2.0), 440.0, 20.0))
    }
    fn family(n: usize, s: f64, h: f64) -> (VSPD, VSPD) { (spec(&ob::anyv("v", n, 0.0, 1.0), s, h), spec(&ob::anyv("w", n, 0.0, 1.0), s, h)) }
    fn args(n: usize, s: f64, h: f64, what: usize) {
        let (c, d, i, j) = tables();
        let (p, q) = family(n, s, h);
        let f = |a: &(&VSPD, &VSPD, &CMF)| xyzv(a.0.to_xyz(a.1, a.2));
        match what {
            0 => pure(f, &(&p, &i, &c), &(&q, &i, &c)),
            1 => pure(f, &(&p, &i, &c), &(&p, &j, &c)),
            _ => pure(f, &(&p, &i, &c), &(&p, &i, &d)),
        }
    }
    pub fn r_10_spectrum() { args(43, 360.0, 10.0, 0) }
    pub fn r_10_illuminant() { args(43, 360.0, 10.0, 1) }
    pub fn r_10_observer() { args(43, 360.0, 10.0, 2) }
    pub fn r_5_spectrum() { args(31, 400.0, 5.0, 0) }
    pub fn r_5_illuminant() { args(31, 400.0, 5.0, 1) }
    pub fn r_5_observer() { args(31, 400.0, 5.0, 2) }
    pub fn r_1_illuminant() { args(31, 500.0, 1.0, 1) }
    pub fn r_1_observer() { args(31, 500.0, 1.0, 2) }
    pub fn r_20_spectrum() { args(15, 440.0, 20.0, 0) }
    pub fn r_20_illuminant() { args(15, 440.0, 20.0, 1) }
    pub fn r_20_observer() { args(15, 440.0, 20.0, 2) }
    pub fn r_grids() {
        let (c, d, i, j) = tables();
        let v = ob::anyv("v", 31, 0.0, 1.0);
        let f = |a: &(f64, usize)| xyzv(spec(&v[..a.1], a.0, 10.0).to_xyz(&i, &c));
        pure(f, &(400.0, 31), &(410.0, 31));
        pure(f, &(400.0, 31), &(400.0, 30));
    }
    pub fn r_builtin_illuminants() {
        let p = spec(&ob::anyv("v", 36, 0.0, 1.0), 380.0, 10.0);
        let l = [&*illuminant::spd::D50, &*illuminant::spd::D65, &*illuminant::spd::D55, &*illuminant::spd::D60];
        pure(|k: &usize| xyzv(p.to_xyz(l[*k], &CIE_1931_2_DEGREE)), &0, &1);
    }
    pub fn r_nit() {
        let (c, d, i, j) = tables();
        let (p, q) = family(9, 450.0, 10.0);
        let f = |a: &(&VSPD, &CMF)| vec![spd_to_nit(a.0, a.1)];
        pure(f, &(&p, &c), &(&p, &d));
        pure(f, &(&p, &c), &(&q, &c));
    }
    pub fn r_observer_align() {
        let (c, d, i, j) = tables();
        let f = |a: &(&CMF, f64)| { let k = a.0.align(SpdShape::new(450.0, 500.0, a.1)); let mut v = vals(&k.x_bar); v.append(&mut vals(&k.y_bar)); v.append(&mut vals(&k.z_bar)); v };
        pure(f, &(&c, 5.0), &(&d, 5.0));
        pure(f, &(&c, 5.0), &(&c, 10.0));
    }
    pub fn r_fixed() {
        let s = |n: &'static str| { let v = ob::anyv32(n, SPD_SAMPLES, 0.0, 1.0); let mut a = [0.0f32; SPD_SAMPLES]; for i in 0..SPD_SAMPLES { a[i] = v[i]; } SPD::new(a) };
        let (p, q) = (s("p"), s("q"));
        pure(|a: &&SPD| { let c = a.to_xyz(); vec![c.x as f64, c.y as f64, c.z as f64] }, &&p, &&q);
    }
    pub fn r_quantise() {
        let f = |c: &[f64; 3]| { let q: RGBu8 = rgbf64(c[0], c[1], c[2]).into(); let w: RGBu16 = rgbf64(c[0], c[1], c[2]).into(); vec![q.r as f64, q.g as f64, q.b as f64, w.r as f64, w.g as f64, w.b as f64] };
        pure(f, &a3("a", -0.5, 1.5), &a3("b", -0.5, 1.5));
    }
}
pub mod long {
    use super::*;
    fn line(s: f64, h: f64, n: usize) -> VSPD { VSPD::new((0..n).map(|k| Sample::new(s + k as f64 * h, 0.25 + k as f64 * 0.125 + if k == 2 { 1.0 } else { 0.0 })).collect()) }
    pub fn r_cct() { many(40, |k| { let c = illuminant::xy::cct(4000.0 + 500.0 * k as f64).unwrap(); vec![c.x, c.y] }) }
    pub fn r_cct_close() { many(20, |k| { let c = illuminant::xy::cct(6500.0 + 0.25 * k as f64).unwrap(); vec![c.x, c.y] }); many(20, |k| { let c = illuminant::xy::cct(9000.0 + 30.0 * k as f64).unwrap(); vec![c.x, c.y] }) }
    pub fn r_cct_32() { many(40, |k| { let c = illuminant::xy::cct(4000.0f32 + 500.0 * k as f32).unwrap(); vec![c.x as f64, c.y as f64] }) }
    pub fn r_adaptation() {
        let w = |k: usize| xyz(90.0 + k as f64, 100.0, 80.0 + 0.5 * k as f64);
        many(20, |k| m9v(&bradford::<f64, _, _>(w(k), w(3))));
        many(20, |k| m9v(&von_kries::<f64, _, _>(w(3), w(k))));
        many(20, |k| m9v(&cat02::<f64, _, _>(w(k), w(k + 1))));
    }
    pub fn r_matrices() {
        many(20, |k| m9v(&xyz_to_rgb_matrix(xy(0.3 + 0.002 * k as f64, 0.33), &model_f64::SRGB)));
        many(20, |k| m9v(&rgb_to_xyz_matrix(xy(0.31, 0.32 + 0.002 * k as f64), &model_f64::DCI_P3)));
    }
    pub fn r_inverse() {
        let m = |k: usize| Matrix33::new([2.0 + k as f64, 0.5, 0.25, 0.125, 3.0, 0.5, 0.25, 0.75, 4.0 + k as f64]);
        many(30, |k| m9v(&m(k).inverse().unwrap()));
        many(30, |k| m9v(&m(k).gj_inverse().unwrap()));
    }
    pub fn r_lab() {
        many(30, |k| { let l = xyz_to_lab(xyz(2.0 * k as f64, 3.0 + k as f64, 40.0), xyz(95.0, 100.0, 108.0 + k as f64)); vec![l.L, l.a, l.b] });
        many(30, |k| xyzv(lab_to_xyz(colorspace::lab::lab(3.0 * k as f64, 5.0, -20.0), xyz(95.0, 100.0, 108.0 + k as f64))));
        many(30, |k| { let (p, q) = (colorspace::lab::lab(50.0, k as f64, 10.0), colorspace::lab::lab(51.0, 12.0, 20.0 - k as f64)); vec![delta_E_1976(p, q), delta_E_2000(p, q)] });
    }
    pub fn r_chromaticity() { many(40, |k| { let c = XYY::from_xyz(xyz(1.0 + k as f64, 20.0, 30.0)); let d = XYZ::from_chromaticity(XYY::new(0.3, 0.2 + 0.01 * k as f64, 0.5)); vec![c.x, c.y, c.Y, d.x, d.y, d.z] }) }
    pub fn r_curves() { many(40, |k| { let c = rgbf64(0.02 * k as f64, 0.5, 0.001 * k as f64); let mut v = rgbv(encode::srgb(c)); v.append(&mut rgbv(decode::bt709(c))); v.append(&mut rgbv(model_f64::ADOBE_RGB_1998.encode(c))); v }) }
    pub fn r_interpolate() { let p = line(400.0, 10.0, 8); many(12, |k| vals(&p.interpolate(SpdShape::new(400.0, 440.0, 2.0 + k as f64)))) }
    pub fn r_align() { let p = line(400.0, 10.0, 8); many(12, |k| vals(&p.align(SpdShape::new(380.0, 500.0, 6.0 + k as f64)))) }
    pub fn r_align_range() { let p = line(400.0, 10.0, 8); many(12, |k| vals(&p.align(SpdShape::new(390.0 + k as f64, 490.0, 10.0)))) }
    pub fn r_align_spectrum() { many(12, |k| vals(&line(400.0, 10.0, 6 + k).align(SpdShape::new(400.0, 450.0, 5.0)))) }
    pub fn r_sprague() { let p = line(400.0, 10.0, 8); let s = InterpolatorSprague::<f64>::new(&p); many(60, |k| vec![s.evaluate(400.5 + k as f64)]) }
    pub fn r_linear() { let p = line(400.0, 10.0, 8); let s = InterpolatorLinear::new(&p); many(60, |k| vec![s.evaluate(395.5 + k as f64)]) }
    pub fn r_linear_downwards() { let p = line(400.0, 10.0, 8); let s = InterpolatorLinear::new(&p); many(60, |k| vec![s.evaluate(475.5 - k as f64)]) }
    pub fn r_lagrange() { many(10, |k| { let mut v = Vec::new(); for r in lagrange_coefficients_astm_e2022(2.0 + k as f64, 3) { for x in r { v.push(x) } } v }) }
    pub fn r_shape() { many(20, |k| SpdShape::new(400.0, 420.0, 1.0 + k as f64).iter().collect()) }
    pub fn r_linspace() { many(20, |k| linspace(0.0, 1.0 + k as f64, 5).collect()) }
    pub fn r_uplift() { many(6, |k| uplift_my(rgbf(0.1 * k as f64, 0.5, 0.25)).values().collect()) }
    pub fn r_nit() { let c = CMF { x_bar: line(380.0, 20.0, 20), y_bar: line(400.0, 20.0, 15), z_bar: line(400.0, 10.0, 20) }; many(8, |k| vec![spd_to_nit(&line(400.0 + k as f64, 10.0, 10), &c)]) }
    pub fn r_quantise() { many(40, |k| { let c = rgbf64(0.03 * k as f64, 1.0 - 0.03 * k as f64, 0.5); let (q, w) = (RGBu8::from(c), RGBu16::from(c)); vec![q.r as f64, q.g as f64, q.b as f64, w.r as f64, w.g as f64, w.b as f64] }) }
    pub fn r_fixed() { many(6, |k| { let mut a = [0.5f32; SPD_SAMPLES]; a[k] = 1.0 + k as f32; let c = SPD::new(a).to_xyz(); vec![c.x as f64, c.y as f64, c.z as f64] }) }
    pub fn r_again() {
        let p = line(400.0, 10.0, 8);
        over_and_over(300, || { let c = illuminant::xy::cct(6500.0).unwrap(); vec![c.x, c.y] });
        over_and_over(300, || rgbv(encode::srgb(rgbf64(0.1, 0.2, 0.3))));
        over_and_over(300, || m9v(&cat02::<f64, _, _>(xyz(95.0, 100.0, 108.0), xyz(96.0, 100.0, 82.0))));
        over_and_over(300, || vec![delta_E_2000(colorspace::lab::lab(50.0, 2.0, -10.0), colorspace::lab::lab(55.0, 5.0, 10.0))]);
        over_and_over(300, || vec![InterpolatorLinear::new(&p).evaluate(433.0)]);
        over_and_over(300, || m9v(&xyz_to_rgb_matrix(xy(0.3127, 0.329), &model_f64::SRGB)));
        over_and_over(100, || vals(&p.align(SpdShape::new(390.0, 460.0, 10.0))));
    }
    // ---- different functions in turn
    pub fn r_mixed_adaptation() {
        let (s, d) = (xyz(95.0, 100.0, 108.0), xyz(96.0, 100.0, 82.0));
        let (t, e) = (xyz(95.0f32, 100.0, 108.0), xyz(96.0f32, 100.0, 82.0));
        mixed(&[&|| m9v(&bradford::<f64, _, _>(s, d)), &|| m9v(&von_kries::<f64, _, _>(s, d)), &|| m9v(&cat02::<f64, _, _>(s, d)), &|| m9vf(&bradford::<f32, _, _>(t, e)), &|| m9vf(&von_kries::<f32, _, _>(t, e)), &|| m9vf(&cat02::<f32, _, _>(t, e)), &|| m9v(&cat02::<f64, _, _>(d, s))]);
    }
    pub fn r_mixed_matrices() {
        let w = xy(0.3, 0.35);
        let v = xy(0.3f32, 0.35);
        mixed(&[&|| m9v(&xyz_to_rgb_matrix(w, &model_f64::SRGB)), &|| m9v(&rgb_to_xyz_matrix(w, &model_f64::SRGB)), &|| m9v(&xyz_to_rgb_matrix(w, &model_f64::DCI_P3)), &|| m9v(&rgb_to_rgb_matrix(&model_f64::SRGB, &model_f64::DCI_P3)), &|| m9v(&rgb_to_rgb_matrix(&model_f64::DCI_P3, &model_f64::SRGB)),
            &|| m9vf(&xyz_to_rgb_matrix(v, &model_f32::SRGB)), &|| m9v(&xyz_to_rgb_matrix_with_cat(&bradford::<f64, _, _>(w, model_f64::SRGB.white), &model_f64::SRGB))]);
    }
    pub fn r_mixed_matrix() {
        let m = Matrix33::new([2.0, 0.5, 0.25, 0.125, 3.0, 0.5, 0.25, 0.75, 4.0]);
        mixed(&[&|| m9v(&m.inverse().unwrap()), &|| m9v(&m.gj_inverse().unwrap()), &|| m9v(&m.transposed()), &|| vec![m.determinant()], &|| m9v(&(m * m)), &|| xyzv(m * xyz(1.0, 2.0, 3.0)), &|| rgbv(m * rgbf64(1.0, 2.0, 3.0))]);
    }
    pub fn r_mixed_curves() {
        let c = rgbf64(0.1, 0.25, 0.5);
        mixed(&[&|| rgbv(encode::srgb(c)), &|| rgbv(decode::srgb(c)), &|| rgbv(encode::bt709(c)), &|| rgbv(decode::bt709(c)), &|| rgbv(encode::bt2020(c)), &|| rgbv(decode::bt2020(c)), &|| rgbv(encode::alexa_logc_v3(c)), &|| rgbv(decode::alexa_logc_v3(c)), &|| rgbv(encode::linear(c))]);
    }
    pub fn r_mixed_lab() {
        let (a, w, l, k) = (xyz(20.0, 30.0, 40.0), xyz(95.0, 100.0, 108.0), colorspace::lab::lab(20.0, 30.0, 40.0), colorspace::lab::lab(95.0, 10.0, -8.0));
        mixed(&[&|| { let v = xyz_to_lab(a, w); vec![v.L, v.a, v.b] }, &|| xyzv(lab_to_xyz(l, w)), &|| vec![delta_E_1976(l, k)], &|| vec![delta_E_2000(l, k)], &|| vec![delta_E_2000(k, l)], &|| { let v = XYY::from_xyz(a); vec![v.x, v.y, v.Y] }]);
    }
    pub fn r_mixed_spectra() {
        let p = line(400.0, 10.0, 8);
        let s = SpdShape::new(410.0, 460.0, 5.0);
        mixed(&[&|| vals(&p.interpolate(s)), &|| vals(&p.align(s)), &|| vals(&p.extrapolate(SpdShape::new(380.0, 490.0, 10.0))), &|| vals(&p.trim(s)), &|| vec![InterpolatorLinear::new(&p).evaluate(433.0)], &|| vec![InterpolatorSprague::<f64>::new(&p).evaluate(433.0)], &|| vec![ExtrapolatorConstant::new(&p).evaluate(333.0)], &|| vals(&(&p * 2.0)), &|| vals(&(&p / 2.0))]);
    }
    pub fn r_mixed_observer() {
        let c = CMF { x_bar: line(400.0, 20.0, 10), y_bar: line(400.0, 20.0, 9), z_bar: line(400.0, 20.0, 8) };
        let (p, i) = (line(400.0, 10.0, 12), line(410.0, 10.0, 14));
        let s = SpdShape::new(400.0, 510.0, 10.0);
        mixed(&[&|| vals(&c.align(s).x_bar), &|| vals(&c.align(s).y_bar), &|| vals(&c.align(s).z_bar), &|| vals(&p.align(s)), &|| vals(&i.align(s)), &|| vec![spd_to_nit(&p, &c)], &|| vec![spd_to_nit(&i, &c)]]);
    }
}
/// every public type may be shared and sent between threads
pub fn r_thread_safe() {
    fn ok<T: Send + Sync>() {}
    ok::<VSPD>(); ok::<CMF>(); ok::<SPD>(); ok::<ColorSpaceRGB<f64>>(); ok::<ColorSpaceRGB<f32>>(); ok::<Matrix33<f64>>(); ok::<XYZf64>(); ok::<RGBf64>(); ok::<XYY<f64>>(); ok::<Lab<f64>>();
    ok::<SpdShape<f64>>(); ok::<Sample>(); ok::<Interval<f64>>(); ok::<InterpolatorSprague<f64>>(); ok::<InterpolatorLinear<'static>>(); ok::<ExtrapolatorConstant<'static>>(); ok::<RGBu8>(); ok::<RGBu16>();
    ob::holds("Send and Sync", true);
}
