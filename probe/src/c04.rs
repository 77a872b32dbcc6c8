//! C04: XYZ <-> RGB conversion.
use crate::ob;
use colorspace::chromaticity::*;
use colorspace::chromatic_adaptation::*;
use colorspace::color_space_rgb::{model_f32, model_f64, ColorSpaceRGB};
use colorspace::math::*;
use colorspace::rgb::*;
use colorspace::transform::*;
use colorspace::xyz::*;

fn m9(v: &Vec<f64>) -> Matrix33<f64> { Matrix33::new([v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]]) }
fn m9f(v: &Vec<f32>) -> Matrix33<f32> { Matrix33::new([v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]]) }
fn space(a: &Vec<f64>, b: &Vec<f64>, w: XYY<f64>) -> ColorSpaceRGB<f64> {
    ColorSpaceRGB::new_with_specified_matrices(xy(0.6, 0.3), xy(0.3, 0.6), xy(0.15, 0.06), w, m9(a), m9(b), Box::new(|c| c), Box::new(|c| c))
}
/// M * (v/100) for every matrix and colour
pub fn r_xyz_to_rgb_form() {
    let m = ob::anyv("m", 9, -900.0, 900.0);
    let v = ob::anyv("v", 3, -50000.0, 50000.0);
    let c = xyz_to_rgb(&m9(&m), xyz(v[0], v[1], v[2]));
    ob::same("r", c.r, (m[0] * v[0] + m[1] * v[1] + m[2] * v[2]) / 100.0, 1e-9);
    ob::same("g", c.g, (m[3] * v[0] + m[4] * v[1] + m[5] * v[2]) / 100.0, 1e-9);
    ob::same("b", c.b, (m[6] * v[0] + m[7] * v[1] + m[8] * v[2]) / 100.0, 1e-9);
}
pub fn r_xyz_to_rgb_form32() {
    let m = ob::anyv32("m", 9, -900.0, 900.0);
    let v = ob::anyv32("v", 3, -50000.0, 50000.0);
    let c = xyz_to_rgb(&m9f(&m), xyz(v[0], v[1], v[2]));
    ob::same32("r", c.r, (m[0] * v[0] + m[1] * v[1] + m[2] * v[2]) / 100.0, 1e-5);
    ob::same32("g", c.g, (m[3] * v[0] + m[4] * v[1] + m[5] * v[2]) / 100.0, 1e-5);
    ob::same32("b", c.b, (m[6] * v[0] + m[7] * v[1] + m[8] * v[2]) / 100.0, 1e-5);
}
pub fn r_rgb_to_xyz_form() {
    let m = ob::anyv("m", 9, -900.0, 900.0);
    let v = ob::anyv("v", 3, -5000.0, 5000.0);
    let c = rgb_to_xyz(&m9(&m), rgbf64(v[0], v[1], v[2]));
    ob::same("x", c.x, (m[0] * v[0] + m[1] * v[1] + m[2] * v[2]) * 100.0, 1e-9);
    ob::same("y", c.y, (m[3] * v[0] + m[4] * v[1] + m[5] * v[2]) * 100.0, 1e-9);
    ob::same("z", c.z, (m[6] * v[0] + m[7] * v[1] + m[8] * v[2]) * 100.0, 1e-9);
}
pub fn r_rgb_to_xyz_form32() {
    let m = ob::anyv32("m", 9, -900.0, 900.0);
    let v = ob::anyv32("v", 3, -5000.0, 5000.0);
    let c = rgb_to_xyz(&m9f(&m), rgbf32(v[0], v[1], v[2]));
    ob::same32("x", c.x, (m[0] * v[0] + m[1] * v[1] + m[2] * v[2]) * 100.0, 1e-5);
    ob::same32("y", c.y, (m[3] * v[0] + m[4] * v[1] + m[5] * v[2]) * 100.0, 1e-5);
    ob::same32("z", c.z, (m[6] * v[0] + m[7] * v[1] + m[8] * v[2]) * 100.0, 1e-5);
}
fn slice64(n: usize) {
    let m = m9(&ob::anyv("m", 9, -900.0, 900.0));
    let v = ob::anyv("v", n * 3, -50000.0, 50000.0);
    let mut xs = Vec::new();
    for i in 0..n { xs.push(xyz(v[3 * i], v[3 * i + 1], v[3 * i + 2])); }
    let out = xyz_slice_to_rgb(&m, &xs);
    ob::holds("one result per input", out.len() == n);
    for i in 0..n {
        let c = xyz_to_rgb(&m, xs[i]);
        ob::same("slice element = scalar conversion (r)", out[i].r, c.r, 1e-9);
        ob::same("slice element = scalar conversion (g)", out[i].g, c.g, 1e-9);
        ob::same("slice element = scalar conversion (b)", out[i].b, c.b, 1e-9);
    }
}
pub fn r_slice_0() { slice64(0) }
pub fn r_slice_1() { slice64(1) }
pub fn r_slice_2() { slice64(2) }
pub fn r_slice_7() { slice64(7) }
pub fn r_slice_17() { slice64(17) }
pub fn r_slice_64() { slice64(64) }
pub fn r_th_slice_257() { slice64(257) }
/// long buffers: nothing is dropped or reordered, whatever the length
pub fn r_slice_long() {
    let m = m9(&ob::anyv("m", 9, -900.0, 900.0));
    let v = ob::anyv("v", 33, -50000.0, 50000.0);
    for n in [100usize, 256, 1025, 2049, 4099] {
        let xs: Vec<XYZ<f64>> = (0..n).map(|i| xyz(v[i % 31], v[i % 31 + 1], v[i % 31 + 2])).collect();
        let e: Vec<RGBf<f64>> = (0..31).map(|i| xyz_to_rgb(&m, xs[i])).collect();
        let out = xyz_slice_to_rgb(&m, &xs);
        ob::holds("one result per input", out.len() == n);
        for i in 0..n {
            let c = e[i % 31];
            ob::same("slice element = scalar conversion (r)", out[i].r, c.r, 1e-9);
            ob::same("slice element = scalar conversion (g)", out[i].g, c.g, 1e-9);
            ob::same("slice element = scalar conversion (b)", out[i].b, c.b, 1e-9);
        }
    }
}
pub fn r_buffers_long() {
    let (a, b) = (ob::anyv("a", 9, -3.0, 3.0), ob::anyv("b", 9, -3.0, 3.0));
    let (s, t) = (space(&a, &b, xy(0.31, 0.33)), space(&b, &a, xy(0.34, 0.36)));
    let x = rgb_to_rgb_matrix(&s, &t);
    let v = ob::anyv("v", 33, -1000.0, 1000.0);
    for (n, k) in [(300usize, 300usize), (1025, 1030), (4099, 4099), (4100, 2050)] {
        let from: Vec<RGBf<f64>> = (0..n).map(|i| rgbf(v[i % 31], v[i % 31 + 1], v[i % 31 + 2])).collect();
        let e: Vec<RGBf<f64>> = (0..31).map(|i| x * from[i]).collect();
        let mut to: Vec<RGBf<f64>> = vec![rgbf(7.0, 8.0, 9.0); k];
        let d = rgb_to_rgb(&s, &t, &from, &mut to);
        let min = if n < k { n } else { k };
        ob::holds("returns the number of pixels converted", d == min);
        for i in 0..k {
            if i < min {
                let c = e[i % 31];
                ob::same("pixel = matrix * pixel (r)", to[i].r, c.r, 1e-9);
                ob::same("pixel = matrix * pixel (g)", to[i].g, c.g, 1e-9);
                ob::same("pixel = matrix * pixel (b)", to[i].b, c.b, 1e-9);
            } else { ob::holds("pixels beyond the source are untouched", to[i].r == 7.0 && to[i].g == 8.0 && to[i].b == 9.0); }
        }
    }
}
/// the conversion matrices are composed of the space's matrix and the adaptation between the two whites
pub fn r_matrix_to_rgb() {
    let a = ob::anyv("a", 9, -3.0, 3.0);
    let b = ob::anyv("b", 9, -3.0, 3.0);
    let w = XYY { Y: ob::any("wY", 0.05, 3.0), ..xy(ob::any("wx", 0.2, 0.55), ob::any("wy", 0.25, 0.45)) };
    let s = xy(ob::any("sx", 0.25, 0.4), ob::any("sy", 0.25, 0.4));
    let sp = space(&a, &b, s);
    let x = xyz_to_rgb_matrix(w, &sp);
    let e = m9(&a) * cat02(w, s);
    let y = rgb_to_xyz_matrix(w, &sp);
    let f = cat02(s, w) * m9(&b);
    let k = cat02(s, w);
    let z = xyz_to_rgb_matrix_with_cat(&k, &sp);
    let g = m9(&a) * k;
    for i in 0..9 {
        ob::same("XYZ->RGB matrix = space matrix after adaptation to the space's white", x.x[i], e.x[i], 1e-9);
        ob::same("RGB->XYZ matrix = adaptation from the space's white after space matrix", y.x[i], f.x[i], 1e-9);
        ob::same("XYZ->RGB matrix with supplied adaptation", z.x[i], g.x[i], 1e-9);
    }
}
/// white of the source viewing condition becomes (1,1,1) and back, whatever the white
fn white64(m: &ColorSpaceRGB<f64>, tol: f64) {
    let w = XYY { Y: ob::any("wY", 0.05, 3.0), ..xy(ob::any("wx", 0.2, 0.55), ob::any("wy", 0.25, 0.45)) };
    let c = xyz_to_rgb(&xyz_to_rgb_matrix(w, m), w.into());
    ob::zero("reference white converts to r=1", c.r - 1.0, tol);
    ob::zero("reference white converts to g=1", c.g - 1.0, tol);
    ob::zero("reference white converts to b=1", c.b - 1.0, tol);
    let x: XYZ<f64> = w.into();
    let y = rgb_to_xyz(&rgb_to_xyz_matrix(w, m), rgbf64(1.0, 1.0, 1.0));
    ob::zero("RGB white converts to X of the reference white", (y.x - x.x) / 100.0, tol);
    ob::zero("RGB white converts to Y of the reference white", (y.y - x.y) / 100.0, tol);
    ob::zero("RGB white converts to Z of the reference white", (y.z - x.z) / 100.0, tol);
}
fn rt64(m: &ColorSpaceRGB<f64>, tol: f64) {
    let w = XYY { Y: ob::any("wY", 0.05, 3.0), ..xy(ob::any("wx", 0.2, 0.55), ob::any("wy", 0.25, 0.45)) };
    let c = rgbf64(ob::any("r", 0.0, 1.0), ob::any("g", 0.0, 1.0), ob::any("b", 0.0, 1.0));
    let k = xyz_to_rgb(&xyz_to_rgb_matrix(w, m), rgb_to_xyz(&rgb_to_xyz_matrix(w, m), c));
    ob::zero("RGB->XYZ->RGB = id (r)", k.r - c.r, tol);
    ob::zero("RGB->XYZ->RGB = id (g)", k.g - c.g, tol);
    ob::zero("RGB->XYZ->RGB = id (b)", k.b - c.b, tol);
}
pub fn r_white_srgb() { white64(&model_f64::SRGB, 1e-3) }
pub fn r_white_srgb_drv() { white64(&model_f64::SRGB_DRV, 1e-9) }
pub fn r_white_709() { white64(&model_f64::ITUR_BT709, 1e-9) }
pub fn r_white_2020() { white64(&model_f64::ITUR_BT2020, 1e-9) }
pub fn r_white_p3() { white64(&model_f64::DCI_P3, 1e-9) }
pub fn r_white_p3d65() { white64(&model_f64::DCI_P3_D65, 1e-9) }
pub fn r_white_aces() { white64(&model_f64::ACES, 1e-4) }
pub fn r_white_acescg() { white64(&model_f64::ACES_CG, 1e-9) }
pub fn r_white_adobe() { white64(&model_f64::ADOBE_RGB_1998, 2e-4) }
pub fn r_white_alexa() { white64(&model_f64::ALEXA_WIDE_GAMUT, 2e-4) }
pub fn r_rt_srgb() { rt64(&model_f64::SRGB, 1e-3) }
pub fn r_rt_srgb_drv() { rt64(&model_f64::SRGB_DRV, 1e-9) }
pub fn r_rt_709() { rt64(&model_f64::ITUR_BT709, 1e-9) }
pub fn r_rt_2020() { rt64(&model_f64::ITUR_BT2020, 1e-9) }
pub fn r_rt_p3() { rt64(&model_f64::DCI_P3, 1e-9) }
pub fn r_rt_p3d65() { rt64(&model_f64::DCI_P3_D65, 1e-9) }
pub fn r_rt_aces() { rt64(&model_f64::ACES, 1e-4) }
pub fn r_rt_acescg() { rt64(&model_f64::ACES_CG, 1e-9) }
pub fn r_rt_adobe() { rt64(&model_f64::ADOBE_RGB_1998, 2e-4) }
pub fn r_rt_alexa() { rt64(&model_f64::ALEXA_WIDE_GAMUT, 2e-4) }
/// single precision agrees with double precision
fn agree(a: &ColorSpaceRGB<f32>, b: &ColorSpaceRGB<f64>) {
    let w = (ob::any("wx", 0.2, 0.55), ob::any("wy", 0.25, 0.45));
    let p = xyz_to_rgb_matrix(xy(w.0 as f32, w.1 as f32), a);
    let q = xyz_to_rgb_matrix(xy(w.0, w.1), b);
    let r = rgb_to_xyz_matrix(xy(w.0 as f32, w.1 as f32), a);
    let s = rgb_to_xyz_matrix(xy(w.0, w.1), b);
    for i in 0..9 {
        ob::zero("XYZ->RGB agrees between precisions", p.x[i] as f64 - q.x[i], 1e-4);
        ob::zero("RGB->XYZ agrees between precisions", r.x[i] as f64 - s.x[i], 1e-4);
    }
}
pub fn r_agree_srgb() { agree(&model_f32::SRGB, &model_f64::SRGB) }
pub fn r_agree_709() { agree(&model_f32::ITUR_BT709, &model_f64::ITUR_BT709) }
pub fn r_agree_2020() { agree(&model_f32::ITUR_BT2020, &model_f64::ITUR_BT2020) }
pub fn r_agree_p3() { agree(&model_f32::DCI_P3, &model_f64::DCI_P3) }
pub fn r_agree_aces() { agree(&model_f32::ACES, &model_f64::ACES) }
pub fn r_agree_acescg() { agree(&model_f32::ACES_CG, &model_f64::ACES_CG) }
pub fn r_agree_adobe() { agree(&model_f32::ADOBE_RGB_1998, &model_f64::ADOBE_RGB_1998) }
pub fn r_agree_alexa() { agree(&model_f32::ALEXA_WIDE_GAMUT, &model_f64::ALEXA_WIDE_GAMUT) }
/// the AVX path over planes = the scalar conversion, for every length
#[cfg(target_feature = "avx")]
fn planes<S: simdeez::Simd>(n: usize) {
    let m = m9f(&ob::anyv32("m", 9, -900.0, 900.0));
    let x = ob::anyv32("x", n, -50000.0, 50000.0);
    let y = ob::anyv32("y", n, -50000.0, 50000.0);
    let z = ob::anyv32("z", n, -50000.0, 50000.0);
    let (r, g, b) = xyz_slice_to_rgb_avx_planes::<S>(&m, &x, &y, &z);
    ob::holds("one result per input", r.len() == n && g.len() == n && b.len() == n);
    for i in 0..n {
        let c = xyz_to_rgb(&m, xyz(x[i], y[i], z[i]));
        ob::same32("plane element = scalar conversion (r)", r[i], c.r, 1e-5);
        ob::same32("plane element = scalar conversion (g)", g[i], c.g, 1e-5);
        ob::same32("plane element = scalar conversion (b)", b[i], c.b, 1e-5);
    }
}
#[cfg(target_feature = "avx")]
pub mod avx {
    use super::*;
    use simdeez::avx2::Avx2;
    use simdeez::scalar::Scalar;
    use simdeez::sse2::Sse2;
    pub fn r_planes_0() { planes::<Avx2>(0) }
    pub fn r_planes_1() { planes::<Avx2>(1) }
    pub fn r_planes_2() { planes::<Avx2>(2) }
    pub fn r_planes_7() { planes::<Avx2>(7) }
    pub fn r_planes_8() { planes::<Avx2>(8) }
    pub fn r_planes_9() { planes::<Avx2>(9) }
    pub fn r_planes_15() { planes::<Avx2>(15) }
    pub fn r_planes_16() { planes::<Avx2>(16) }
    pub fn r_planes_19() { planes::<Avx2>(19) }
    pub fn r_planes_24() { planes::<Avx2>(24) }
    pub fn r_planes_31() { planes::<Avx2>(31) }
    pub fn r_planes_41() { planes::<Avx2>(41) }
    pub fn r_planes_70() { planes::<Avx2>(70) }
    pub fn r_planes_long() {
        let m = m9f(&ob::anyv32("m", 9, -900.0, 900.0));
        let v = ob::anyv32("v", 33, -50000.0, 50000.0);
        for n in [257usize, 1030, 4099] {
            let p = |o: usize| -> Vec<f32> { (0..n).map(|i| v[i % 31 + o]).collect() };
            let e: Vec<RGBf<f32>> = (0..31).map(|i| xyz_to_rgb(&m, xyz(v[i], v[i + 1], v[i + 2]))).collect();
            let (r, g, b) = xyz_slice_to_rgb_avx_planes::<Avx2>(&m, &p(0), &p(1), &p(2));
            ob::holds("one result per input", r.len() == n && g.len() == n && b.len() == n);
            for i in 0..n {
                let c = e[i % 31];
                ob::same32("plane element = scalar conversion (r)", r[i], c.r, 1e-5);
                ob::same32("plane element = scalar conversion (g)", g[i], c.g, 1e-5);
                ob::same32("plane element = scalar conversion (b)", b[i], c.b, 1e-5);
            }
        }
    }
    pub fn r_planes_sse_11() { planes::<Sse2>(11) }
    pub fn r_planes_scalar_5() { planes::<Scalar>(5) }
    pub fn r_planes_lengths() {
        let m = Matrix33::<f32>::make_identity();
        let v = ob::anyv32("v", 16, -5.0, 5.0);
        let w = ob::anyv32("w", 9, -5.0, 5.0);
        ob::panics("shorter y plane is rejected", || { xyz_slice_to_rgb_avx_planes::<Avx2>(&m, &v, &w, &v); });
        ob::panics("shorter z plane is rejected", || { xyz_slice_to_rgb_avx_planes::<Avx2>(&m, &v, &v, &w); });
    }
}
/// converting pixel buffers between RGB spaces
struct Px(f64, f64, f64);
impl From<RGBf<f64>> for Px { fn from(c: RGBf<f64>) -> Px { Px(c.r + 10.0, c.g + 20.0, c.b + 30.0) } }
fn curved(a: &Vec<f64>, b: &Vec<f64>, w: XYY<f64>, k: &Vec<f64>) -> ColorSpaceRGB<f64> {
    let (k, j) = (k.clone(), k.clone());
    ColorSpaceRGB::new_with_specified_matrices(xy(0.6, 0.3), xy(0.3, 0.6), xy(0.15, 0.06), w, m9(a), m9(b),
        Box::new(move |c| rgbf(c.r * k[0], c.g * k[1], c.b * k[2])), Box::new(move |c| rgbf(c.r - j[3], c.g - j[4], c.b - j[5])))
}
fn buffers(n: usize, m: usize) {
    let (a, b, c, d) = (ob::anyv("a", 9, -3.0, 3.0), ob::anyv("b", 9, -3.0, 3.0), ob::anyv("c", 9, -3.0, 3.0), ob::anyv("d", 9, -3.0, 3.0));
    let (v, w) = (xy(ob::any("vx", 0.25, 0.4), ob::any("vy", 0.25, 0.4)), xy(ob::any("wx", 0.2, 0.55), ob::any("wy", 0.25, 0.45)));
    let (p, q) = (ob::anyv("p", 6, 0.5, 3.0), ob::anyv("q", 6, 0.5, 3.0));
    let (s, t) = (curved(&a, &b, v, &p), curved(&c, &d, w, &q));
    let x = rgb_to_rgb_matrix(&s, &t);
    let e = m9(&c) * (cat02(v, w) * m9(&b));
    for i in 0..9 { ob::same("RGB->RGB matrix = to XYZ, adapt, to RGB", x.x[i], e.x[i], 1e-9); }
    let px = ob::anyv("px", 3 * n, -1000.0, 1000.0);
    let from: Vec<RGBf<f64>> = (0..n).map(|i| rgbf(px[3 * i], px[3 * i + 1], px[3 * i + 2])).collect();
    let mut to: Vec<Px> = (0..m).map(|i| Px(i as f64, -1.0, -2.0)).collect();
    let mut to2: Vec<RGBf<f64>> = (0..m).map(|i| rgbf(i as f64, -1.0, -2.0)).collect();
    let k = rgb_to_rgb(&s, &t, &from, &mut to);
    let k2 = rgb_to_rgb(&s, &t, &from, &mut to2);
    let min = if n < m { n } else { m };
    ob::holds("returns the number of pixels converted", k == min && k2 == min);
    for i in 0..m {
        if i < min {
            let l = e * s.decode(from[i]);
            let c = t.encode(l);
            ob::same("pixel = encode(matrix * decode) (r)", to2[i].r, c.r, 1e-9);
            ob::same("pixel = encode(matrix * decode) (g)", to2[i].g, c.g, 1e-9);
            ob::same("pixel = encode(matrix * decode) (b)", to2[i].b, c.b, 1e-9);
            ob::same("pixel is converted to the buffer's type (r)", to[i].0, c.r + 10.0, 1e-9);
            ob::same("pixel is converted to the buffer's type (g)", to[i].1, c.g + 20.0, 1e-9);
            ob::same("pixel is converted to the buffer's type (b)", to[i].2, c.b + 30.0, 1e-9);
        } else {
            ob::holds("pixels beyond the source are untouched", to[i].0 == i as f64 && to[i].1 == -1.0 && to[i].2 == -2.0);
            ob::holds("pixels beyond the source are untouched", to2[i].r == i as f64 && to2[i].g == -1.0 && to2[i].b == -2.0);
        }
    }
}
pub fn r_buffers_0_0() { buffers(0, 0) }
pub fn r_buffers_0_3() { buffers(0, 3) }
pub fn r_buffers_3_0() { buffers(3, 0) }
pub fn r_buffers_1_1() { buffers(1, 1) }
pub fn r_buffers_5_2() { buffers(5, 2) }
pub fn r_buffers_2_5() { buffers(2, 5) }
pub fn r_buffers_9_9() { buffers(9, 9) }
pub fn r_buffers_17_16() { buffers(17, 16) }
pub fn r_th_buffers_40_65() { buffers(40, 65) }
/// there and back again through a second space
fn pair(a: &ColorSpaceRGB<f64>, b: &ColorSpaceRGB<f64>, tol: f64) {
    let i = rgb_to_rgb_matrix(b, a) * rgb_to_rgb_matrix(a, b);
    let j = rgb_to_rgb_matrix(a, a);
    let e = Matrix33::<f64>::make_identity();
    for k in 0..9 {
        ob::zero("to another space and back = identity", i.x[k] - e.x[k], tol);
        ob::zero("to the same space = identity", j.x[k] - e.x[k], tol);
    }
    let w = rgb_to_rgb_matrix(a, b) * rgbf64(1.0, 1.0, 1.0);
    ob::zero("white stays white (r)", w.r - 1.0, tol);
    ob::zero("white stays white (g)", w.g - 1.0, tol);
    ob::zero("white stays white (b)", w.b - 1.0, tol);
}
fn chain(a: &ColorSpaceRGB<f64>, b: &ColorSpaceRGB<f64>, c: &ColorSpaceRGB<f64>, tol: f64) {
    let i = rgb_to_rgb_matrix(b, c) * rgb_to_rgb_matrix(a, b);
    let j = rgb_to_rgb_matrix(a, c);
    for k in 0..9 { ob::zero("conversion through a third space = direct conversion", i.x[k] - j.x[k], tol); }
}
pub fn r_pairs() {
    let m = [&*model_f64::SRGB, &*model_f64::SRGB_DRV, &*model_f64::ITUR_BT709, &*model_f64::ITUR_BT2020, &*model_f64::DCI_P3, &*model_f64::DCI_P3_D65, &*model_f64::ACES,
        &*model_f64::ACES_CG, &*model_f64::ADOBE_RGB_1998, &*model_f64::ALEXA_WIDE_GAMUT];
    for a in m.iter() { for b in m.iter() { pair(a, b, 2e-3); } }
    for a in 0..10 { chain(m[a], m[(a + 3) % 10], m[(a + 7) % 10], 2e-3); }
}
/// the same in single precision
fn pairs32(a: &ColorSpaceRGB<f32>, b: &ColorSpaceRGB<f32>, c: &ColorSpaceRGB<f64>, d: &ColorSpaceRGB<f64>) {
    let (p, q) = (rgb_to_rgb_matrix(a, b), rgb_to_rgb_matrix(c, d));
    for k in 0..9 { ob::zero("RGB->RGB matrix agrees between precisions", p.x[k] as f64 - q.x[k], 1e-4); }
    let v = ob::anyv32("v", 3, -20.0, 20.0);
    let from = vec![rgbf32(v[0], v[1], v[2])];
    let mut to = vec![rgbf32(7.0, 7.0, 7.0); 2];
    let k = rgb_to_rgb(a, b, &from, &mut to);
    let e = b.encode(p * a.decode(from[0]));
    ob::holds("returns the number of pixels converted", k == 1);
    ob::same32("pixel = encode(matrix * decode) (r)", to[0].r, e.r, 1e-5);
    ob::same32("pixel = encode(matrix * decode) (g)", to[0].g, e.g, 1e-5);
    ob::same32("pixel = encode(matrix * decode) (b)", to[0].b, e.b, 1e-5);
    let mut u8s = vec![rgbu8(1, 2, 3); 2];
    let k = rgb_to_rgb(a, b, &from, &mut u8s);
    let f: RGBu8 = e.into();
    ob::holds("returns the number of pixels converted", k == 1);
    ob::holds("8-bit pixel = quantised conversion", u8s[0].r == f.r && u8s[0].g == f.g && u8s[0].b == f.b);
    ob::holds("pixels beyond the source are untouched", u8s[1].r == 1 && u8s[1].g == 2 && u8s[1].b == 3);
}
pub fn r_pixels32_srgb_p3() { pairs32(&model_f32::SRGB, &model_f32::DCI_P3, &model_f64::SRGB, &model_f64::DCI_P3) }
pub fn r_pixels32_acescg_2020() { pairs32(&model_f32::ACES_CG, &model_f32::ITUR_BT2020, &model_f64::ACES_CG, &model_f64::ITUR_BT2020) }
pub fn r_pixels32_adobe_alexa() { pairs32(&model_f32::ADOBE_RGB_1998, &model_f32::ALEXA_WIDE_GAMUT, &model_f64::ADOBE_RGB_1998, &model_f64::ALEXA_WIDE_GAMUT) }
