//! C01: the transfer curves invert each other, scalar and per colour space, in both precisions.
use crate::ob;
use colorspace::color_space_rgb::{decode as d, encode as e, model_f32, model_f64, ColorSpaceRGB};
use colorspace::rgb::*;

// y is restricted to values the encoder can produce: BT.709/2020 as published with rounded constants leave the gap
// (0.081, 0.08124..) between their two branches unused.
macro_rules! curve {
    ($n64:ident, $n32:ident, $f:ident, $lo:expr, $hi:expr, $dlo:expr, $dhi:expr, $g0:expr, $g1:expr) => {
        pub fn $n64() {
            let x = ob::any("x", $lo, $hi);
            ob::same("decode(encode(x)) = x", d::$f(e::$f(x)), x, 2e-6);
            let y = ob::any("y", $dlo, $dhi);
            ob::assume(y <= $g0 || y >= $g1);
            ob::same("encode(decode(y)) = y", e::$f(d::$f(y)), y, 2e-6);
        }
        pub fn $n32() {
            let x = ob::any32("x", $lo, $hi);
            ob::same32("decode(encode(x)) = x", d::$f(e::$f(x)), x, 2e-5);
            let y = ob::any32("y", $dlo, $dhi);
            ob::assume(y <= $g0 || y >= $g1);
            ob::same32("encode(decode(y)) = y", e::$f(d::$f(y)), y, 2e-5);
        }
    };
}
curve!(r_srgb_f64, r_srgb_f32, srgb_t, -100.0, 1000.0, -100.0, 50.0, 0.0, 0.0);
curve!(r_bt709_f64, r_bt709_f32, bt709_t, -100.0, 1000.0, -100.0, 50.0, 0.0809, 0.0814);
curve!(r_bt2020_f64, r_bt2020_f32, bt2020_t, -100.0, 1000.0, -100.0, 50.0, 0.0809, 0.0814);
curve!(r_linear_f64, r_linear_f32, linear_t, -1e6, 1e6, -1e6, 1e6, 0.0, 0.0);
curve!(r_logc_f64, r_logc_f32, alexa_logc_v3_t, -10.0, 1000.0, -0.5, 1.2, 0.0, 0.0);

fn rt64(m: &ColorSpaceRGB<f64>, lo: f64, hi: f64, dlo: f64, dhi: f64, g0: f64, g1: f64) {
    let c = rgbf64(ob::any("r", lo, hi), ob::any("g", lo, hi), ob::any("b", lo, hi));
    let k = m.decode(m.encode(c));
    ob::same("decode(encode(c)).r = c.r", k.r, c.r, 2e-6);
    ob::same("decode(encode(c)).g = c.g", k.g, c.g, 2e-6);
    ob::same("decode(encode(c)).b = c.b", k.b, c.b, 2e-6);
    let (r, g, b) = (ob::any("er", dlo, dhi), ob::any("eg", dlo, dhi), ob::any("eb", dlo, dhi));
    ob::assume(r <= g0 || r >= g1);
    ob::assume(g <= g0 || g >= g1);
    ob::assume(b <= g0 || b >= g1);
    let k = m.encode(m.decode(rgbf64(r, g, b)));
    ob::same("encode(decode(e)).r = e.r", k.r, r, 2e-6);
    ob::same("encode(decode(e)).g = e.g", k.g, g, 2e-6);
    ob::same("encode(decode(e)).b = e.b", k.b, b, 2e-6);
}
fn rt32(m: &ColorSpaceRGB<f32>, lo: f32, hi: f32, dlo: f32, dhi: f32, g0: f32, g1: f32) {
    let c = rgbf32(ob::any32("r", lo, hi), ob::any32("g", lo, hi), ob::any32("b", lo, hi));
    let k = m.decode(m.encode(c));
    ob::same32("decode(encode(c)).r = c.r", k.r, c.r, 2e-5);
    ob::same32("decode(encode(c)).g = c.g", k.g, c.g, 2e-5);
    ob::same32("decode(encode(c)).b = c.b", k.b, c.b, 2e-5);
    let (r, g, b) = (ob::any32("er", dlo, dhi), ob::any32("eg", dlo, dhi), ob::any32("eb", dlo, dhi));
    ob::assume(r <= g0 || r >= g1);
    ob::assume(g <= g0 || g >= g1);
    ob::assume(b <= g0 || b >= g1);
    let k = m.encode(m.decode(rgbf32(r, g, b)));
    ob::same32("encode(decode(e)).r = e.r", k.r, r, 2e-5);
    ob::same32("encode(decode(e)).g = e.g", k.g, g, 2e-5);
    ob::same32("encode(decode(e)).b = e.b", k.b, b, 2e-5);
}
pub fn r_model64_srgb() { rt64(&model_f64::SRGB, -100.0, 1000.0, -100.0, 50.0, 0.0, 0.0) }
pub fn r_model64_srgb_drv() { rt64(&model_f64::SRGB_DRV, -100.0, 1000.0, -100.0, 50.0, 0.0, 0.0) }
pub fn r_model64_bt709() { rt64(&model_f64::ITUR_BT709, -100.0, 1000.0, -100.0, 50.0, 0.0809, 0.0814) }
pub fn r_model64_bt2020() { rt64(&model_f64::ITUR_BT2020, -100.0, 1000.0, -100.0, 50.0, 0.0809, 0.0814) }
pub fn r_model64_p3() { rt64(&model_f64::DCI_P3, 0.0, 1000.0, 0.0, 50.0, 0.0, 0.0) }
pub fn r_model64_p3d65() { rt64(&model_f64::DCI_P3_D65, 0.0, 1000.0, 0.0, 50.0, 0.0, 0.0) }
pub fn r_model64_aces() { rt64(&model_f64::ACES, -1e6, 1e6, -1e6, 1e6, 0.0, 0.0) }
pub fn r_model64_acescg() { rt64(&model_f64::ACES_CG, -1e6, 1e6, -1e6, 1e6, 0.0, 0.0) }
pub fn r_model64_adobe() { rt64(&model_f64::ADOBE_RGB_1998, 0.0, 1000.0, 0.0, 50.0, 0.0, 0.0) }
pub fn r_model64_alexa() { rt64(&model_f64::ALEXA_WIDE_GAMUT, -10.0, 1000.0, -0.5, 1.2, 0.0, 0.0) }
pub fn r_model32_srgb() { rt32(&model_f32::SRGB, -100.0, 1000.0, -100.0, 50.0, 0.0, 0.0) }
pub fn r_model32_bt709() { rt32(&model_f32::ITUR_BT709, -100.0, 1000.0, -100.0, 50.0, 0.0809, 0.0814) }
pub fn r_model32_bt2020() { rt32(&model_f32::ITUR_BT2020, -100.0, 1000.0, -100.0, 50.0, 0.0809, 0.0814) }
pub fn r_model32_p3() { rt32(&model_f32::DCI_P3, 0.0, 1000.0, 0.0, 50.0, 0.0, 0.0) }
pub fn r_model32_p3d65() { rt32(&model_f32::DCI_P3_D65, 0.0, 1000.0, 0.0, 50.0, 0.0, 0.0) }
pub fn r_model32_aces() { rt32(&model_f32::ACES, -1e6, 1e6, -1e6, 1e6, 0.0, 0.0) }
pub fn r_model32_acescg() { rt32(&model_f32::ACES_CG, -1e6, 1e6, -1e6, 1e6, 0.0, 0.0) }
pub fn r_model32_adobe() { rt32(&model_f32::ADOBE_RGB_1998, 0.0, 1000.0, 0.0, 50.0, 0.0, 0.0) }
pub fn r_model32_alexa() { rt32(&model_f32::ALEXA_WIDE_GAMUT, -10.0, 1000.0, -0.5, 1.2, 0.0, 0.0) }
