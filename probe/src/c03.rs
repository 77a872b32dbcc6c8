//! C03: colour-space definitions: published primaries and white, matrices consistent with them and with each other.
use crate::ob;
use colorspace::chromaticity::*;
use colorspace::color_space_rgb::{decode as d, encode as e, model_f32, model_f64, ColorSpaceRGB};
use colorspace::math::*;
use colorspace::rgb::*;
use colorspace::xyz::*;

const D65: (f64, f64) = (0.3127, 0.3290);
const ACESW: (f64, f64) = (0.32168, 0.33767);
const P709: [(f64, f64); 3] = [(0.64, 0.33), (0.30, 0.60), (0.15, 0.06)];
const P2020: [(f64, f64); 3] = [(0.708, 0.292), (0.17, 0.797), (0.131, 0.046)];
const PP3: [(f64, f64); 3] = [(0.680, 0.320), (0.265, 0.690), (0.150, 0.060)];
const PAP0: [(f64, f64); 3] = [(0.7347, 0.2653), (0.0, 1.0), (0.0001, -0.077)];
const PAP1: [(f64, f64); 3] = [(0.713, 0.293), (0.165, 0.830), (0.128, 0.044)];
const PADO: [(f64, f64); 3] = [(0.64, 0.33), (0.21, 0.71), (0.15, 0.06)];
const PAWG: [(f64, f64); 3] = [(0.6840, 0.3130), (0.2210, 0.8480), (0.0861, -0.102)];

fn xy_is(l: &'static str, c: XYY<f64>, p: (f64, f64), tol: f64) {
    ob::zero(l, c.x - p.0, tol);
    ob::zero(l, c.y - p.1, tol);
    ob::zero(l, c.Y - 1.0, tol);
}
fn up(c: XYY<f32>) -> XYY<f64> { XYY::new(c.x as f64, c.y as f64, c.Y as f64) }
fn upm(m: &Matrix33<f32>) -> [f64; 9] {
    [m.x[0] as f64, m.x[1] as f64, m.x[2] as f64, m.x[3] as f64, m.x[4] as f64, m.x[5] as f64, m.x[6] as f64, m.x[7] as f64, m.x[8] as f64]
}
fn mul3(a: &[f64; 9], b: &[f64; 9]) -> [f64; 9] {
    let mut o = [0.0; 9];
    for i in 0..3 {
        for j in 0..3 {
            o[i * 3 + j] = a[i * 3] * b[j] + a[i * 3 + 1] * b[3 + j] + a[i * 3 + 2] * b[6 + j];
        }
    }
    o
}
/// laws of a pair of matrices for primaries p and white w; tol covers the rounding of published 4..6 digit matrices
fn laws(x2r: &[f64; 9], r2x: &[f64; 9], p: [(f64, f64); 3], w: (f64, f64), tol: f64) {
    let wx = [w.0 / w.1, 1.0, (1.0 - w.0 - w.1) / w.1];
    for i in 0..3 {
        ob::zero("white maps to (1,1,1)", x2r[i * 3] * wx[0] + x2r[i * 3 + 1] * wx[1] + x2r[i * 3 + 2] * wx[2] - 1.0, tol);
        ob::zero("(1,1,1) maps to white with Y=1", r2x[i * 3] + r2x[i * 3 + 1] + r2x[i * 3 + 2] - wx[i], tol);
        // column i has the chromaticity of primary i
        let s = r2x[i] + r2x[3 + i] + r2x[6 + i];
        ob::zero("unit primary has the published chromaticity x", r2x[i] - p[i].0 * s, tol);
        ob::zero("unit primary has the published chromaticity y", r2x[3 + i] - p[i].1 * s, tol);
    }
    let q = mul3(x2r, r2x);
    let r = mul3(r2x, x2r);
    for i in 0..9 {
        let id = if i % 4 == 0 { 1.0 } else { 0.0 };
        ob::zero("the two matrices are inverse", q[i] - id, tol);
        ob::zero("the two matrices are inverse", r[i] - id, tol);
    }
}
fn space64(m: &ColorSpaceRGB<f64>, p: [(f64, f64); 3], w: (f64, f64), tol: f64) {
    xy_is("red primary", m.red, p[0], 1e-12);
    xy_is("green primary", m.green, p[1], 1e-12);
    xy_is("blue primary", m.blue, p[2], 1e-12);
    xy_is("white point", m.white, w, 1e-12);
    laws(&m.xf_xyz_to_rgb.x, &m.xf_rgb_to_xyz.x, p, w, tol);
}
fn space32(m: &ColorSpaceRGB<f32>, m6: &ColorSpaceRGB<f64>, p: [(f64, f64); 3], w: (f64, f64), tol: f64) {
    xy_is("red primary", up(m.red), p[0], 1e-6);
    xy_is("green primary", up(m.green), p[1], 1e-6);
    xy_is("blue primary", up(m.blue), p[2], 1e-6);
    xy_is("white point", up(m.white), w, 1e-6);
    let (a, b) = (upm(&m.xf_xyz_to_rgb), upm(&m.xf_rgb_to_xyz));
    laws(&a, &b, p, w, tol);
    for i in 0..9 {
        ob::zero("single and double precision XYZ->RGB agree", a[i] - m6.xf_xyz_to_rgb.x[i], 2e-6);
        ob::zero("single and double precision RGB->XYZ agree", b[i] - m6.xf_rgb_to_xyz.x[i], 2e-6);
    }
}
fn is_m(l: &'static str, m: &Matrix33<f64>, v: [f64; 9]) {
    for i in 0..9 {
        ob::zero(l, m.x[i] - v[i], 1e-12);
    }
}
pub fn r_64_srgb() {
    let m = &model_f64::SRGB;
    space64(m, P709, D65, 5e-4);
    is_m("IEC 61966-2-1 matrix", &m.xf_xyz_to_rgb, [3.2406, -1.5372, -0.4986, -0.9689, 1.8758, 0.0415, 0.0557, -0.2040, 1.0570]);
    is_m("IEC 61966-2-1 matrix", &m.xf_rgb_to_xyz, [0.4124, 0.3576, 0.1805, 0.2126, 0.7152, 0.0722, 0.0193, 0.1192, 0.9505]);
}
pub fn r_64_srgb_drv() { space64(&model_f64::SRGB_DRV, P709, D65, 1e-9) }
pub fn r_64_bt709() { space64(&model_f64::ITUR_BT709, P709, D65, 1e-9) }
pub fn r_64_bt2020() { space64(&model_f64::ITUR_BT2020, P2020, D65, 1e-9) }
pub fn r_64_p3() { space64(&model_f64::DCI_P3, PP3, (0.314, 0.351), 1e-9) }
pub fn r_64_p3d65() { space64(&model_f64::DCI_P3_D65, PP3, D65, 1e-9) }
pub fn r_64_aces() {
    let m = &model_f64::ACES;
    space64(m, PAP0, ACESW, 5e-5);
    is_m("SMPTE ST 2065-1 matrix", &m.xf_xyz_to_rgb, [1.0498110175, 0.0, -0.0000974845, -0.4959030231, 1.3733130458, 0.0982400361, 0.0, 0.0, 0.9912520182]);
    is_m("SMPTE ST 2065-1 matrix", &m.xf_rgb_to_xyz, [0.9525523959, 0.0, 0.0000936786, 0.3439664498, 0.7281660966, -0.0721325464, 0.0, 0.0, 1.0088251844]);
}
pub fn r_64_acescg() { space64(&model_f64::ACES_CG, PAP1, ACESW, 1e-9) }
pub fn r_64_adobe() {
    let m = &model_f64::ADOBE_RGB_1998;
    space64(m, PADO, D65, 1e-4);
    is_m("Adobe RGB (1998) matrix", &m.xf_xyz_to_rgb, [2.04159, -0.56501, -0.34473, -0.96924, 1.87597, 0.04156, 0.01344, -0.11836, 1.01517]);
    is_m("Adobe RGB (1998) matrix", &m.xf_rgb_to_xyz, [0.57667, 0.18556, 0.18823, 0.29734, 0.62736, 0.07529, 0.02703, 0.07069, 0.99134]);
}
pub fn r_64_alexa() {
    let m = &model_f64::ALEXA_WIDE_GAMUT;
    space64(m, PAWG, D65, 1e-4);
    is_m("ALEXA wide gamut matrix", &m.xf_xyz_to_rgb, [1.789066, -0.482534, -0.200076, -0.639849, 1.396400, 0.194432, -0.041532, 0.082335, 0.878868]);
    is_m("ALEXA wide gamut matrix", &m.xf_rgb_to_xyz, [0.638008, 0.214704, 0.097744, 0.291954, 0.823841, -0.115795, 0.002798, -0.067034, 1.153294]);
}
pub fn r_32_srgb() { space32(&model_f32::SRGB, &model_f64::SRGB, P709, D65, 5e-4) }
pub fn r_32_bt709() { space32(&model_f32::ITUR_BT709, &model_f64::ITUR_BT709, P709, D65, 5e-6) }
pub fn r_32_bt2020() { space32(&model_f32::ITUR_BT2020, &model_f64::ITUR_BT2020, P2020, D65, 5e-6) }
pub fn r_32_p3() { space32(&model_f32::DCI_P3, &model_f64::DCI_P3, PP3, (0.314, 0.351), 5e-6) }
pub fn r_32_p3d65() { space32(&model_f32::DCI_P3_D65, &model_f64::DCI_P3_D65, PP3, D65, 5e-6) }
pub fn r_32_aces() { space32(&model_f32::ACES, &model_f64::ACES, PAP0, ACESW, 5e-5) }
pub fn r_32_acescg() { space32(&model_f32::ACES_CG, &model_f64::ACES_CG, PAP1, ACESW, 5e-6) }
pub fn r_32_adobe() { space32(&model_f32::ADOBE_RGB_1998, &model_f64::ADOBE_RGB_1998, PADO, D65, 1e-4) }
pub fn r_32_alexa() { space32(&model_f32::ALEXA_WIDE_GAMUT, &model_f64::ALEXA_WIDE_GAMUT, PAWG, D65, 1e-4) }

/// any primaries and white for which the construction succeeds
pub fn r_new_any() {
    let r = (ob::any("rx", 0.5, 0.75), ob::any("ry", 0.2, 0.35));
    let g = (ob::any("gx", 0.0, 0.3), ob::any("gy", 0.6, 1.0));
    let b = (ob::any("bx", 0.05, 0.2), ob::any("by", -0.1, 0.1));
    let w = (ob::any("wx", 0.3, 0.35), ob::any("wy", 0.3, 0.36));
    let m = ColorSpaceRGB::<f64>::new(
        XYY::new(r.0, r.1, 1.0), XYY::new(g.0, g.1, 1.0), XYY::new(b.0, b.1, 1.0), XYY::new(w.0, w.1, 1.0),
        Box::new(e::srgb), Box::new(d::srgb),
    );
    xy_is("red is stored", m.red, r, 0.0);
    xy_is("green is stored", m.green, g, 0.0);
    xy_is("blue is stored", m.blue, b, 0.0);
    xy_is("white is stored", m.white, w, 0.0);
    laws(&m.xf_xyz_to_rgb.x, &m.xf_rgb_to_xyz.x, [r, g, b], w, 1e-9);
}
/// wide and imaginary primaries, whites far from neutral
pub fn r_new_wide() {
    for (r, g, b, w) in [
        ((0.9, 0.15), (0.05, 1.2), (0.0, -0.2), (0.33, 0.1)),
        ((0.64, 0.33), (0.3, 0.6), (0.6, 0.5), (0.45, 0.4)),
        ((1.1, -0.2), (-0.1, 0.9), (0.75, 0.45), (0.2, 0.7)),
        ((0.2, 0.3), (0.3, 0.35), (0.28, 0.25), (0.26, 0.3)),
        ((0.15, 0.06), (0.64, 0.33), (0.3, 0.6), (0.15, 0.02)),
    ] {
        let m = ColorSpaceRGB::<f64>::new(
            XYY::new(r.0, r.1, 1.0), XYY::new(g.0, g.1, 1.0), XYY::new(b.0, b.1, 1.0), XYY::new(w.0, w.1, 1.0),
            Box::new(e::srgb), Box::new(d::srgb),
        );
        laws(&m.xf_xyz_to_rgb.x, &m.xf_rgb_to_xyz.x, [r, g, b], w, 1e-9);
    }
}
pub fn r_new_fns() {
    let m = ColorSpaceRGB::<f64>::new(
        XYY::new(0.64, 0.33, 1.0), XYY::new(0.3, 0.6, 1.0), XYY::new(0.15, 0.06, 1.0), XYY::new(0.3127, 0.329, 1.0),
        Box::new(|c: RGBf64| c * 3.0), Box::new(|c: RGBf64| c * 5.0),
    );
    let c = rgbf64(ob::any("r", -9.0, 9.0), ob::any("g", -9.0, 9.0), ob::any("b", -9.0, 9.0));
    ob::zero("encode applies the supplied encoding", m.encode(c).g - 3.0 * c.g, 0.0);
    ob::zero("decode applies the supplied decoding", m.decode(c).g - 5.0 * c.g, 0.0);
    let n = ColorSpaceRGB::<f64>::new_with_specified_matrices(
        XYY::new(0.64, 0.33, 1.0), XYY::new(0.3, 0.6, 1.0), XYY::new(0.15, 0.06, 1.0), XYY::new(0.3127, 0.329, 1.0),
        Matrix33::new([1.0; 9]), Matrix33::new([2.0; 9]), Box::new(|c: RGBf64| c * 3.0), Box::new(|c: RGBf64| c * 5.0),
    );
    ob::zero("encode applies the supplied encoding", n.encode(c).b - 3.0 * c.b, 0.0);
    ob::zero("decode applies the supplied decoding", n.decode(c).r - 5.0 * c.r, 0.0);
}
pub fn r_new_specified() {
    let a = ob::anyv("a", 9, -9.0, 9.0);
    let b = ob::anyv("b", 9, -9.0, 9.0);
    let p = ob::anyv("p", 12, -9.0, 9.0);
    let m = ColorSpaceRGB::<f64>::new_with_specified_matrices(
        XYY::new(p[0], p[1], p[2]), XYY::new(p[3], p[4], p[5]), XYY::new(p[6], p[7], p[8]), XYY::new(p[9], p[10], p[11]),
        Matrix33::new([a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]]),
        Matrix33::new([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], b[8]]),
        Box::new(e::linear), Box::new(d::linear),
    );
    for i in 0..9 {
        ob::zero("XYZ->RGB is the supplied matrix", m.xf_xyz_to_rgb.x[i] - a[i], 0.0);
        ob::zero("RGB->XYZ is the supplied matrix", m.xf_rgb_to_xyz.x[i] - b[i], 0.0);
    }
    let q = [m.red.x, m.red.y, m.red.Y, m.green.x, m.green.y, m.green.Y, m.blue.x, m.blue.y, m.blue.Y, m.white.x, m.white.y, m.white.Y];
    for i in 0..12 {
        ob::zero("primaries and white are the supplied ones", q[i] - p[i], 0.0);
    }
}
/// a derived space built from a published definition reproduces the published matrices
pub fn r_derived_near_published() {
    let (a, b) = (&model_f64::SRGB_DRV, &model_f64::SRGB);
    for i in 0..9 {
        ob::zero("derived sRGB is the published sRGB up to its rounding", a.xf_xyz_to_rgb.x[i] - b.xf_xyz_to_rgb.x[i], 1e-3);
        ob::zero("derived sRGB is the published sRGB up to its rounding", a.xf_rgb_to_xyz.x[i] - b.xf_rgb_to_xyz.x[i], 1e-4);
    }
}
