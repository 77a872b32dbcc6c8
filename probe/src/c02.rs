//! C02: the transfer curves are the published ones, act on each channel separately, and agree between precisions.
use crate::ob;
use colorspace::color_space_rgb::{decode as d, encode as e, model_f32, model_f64, ColorSpaceRGB};
use colorspace::rgb::*;

// ---- published definitions
fn s_srgb(x: f64) -> f64 { if x <= 0.0031308 { 12.92 * x } else { 1.055 * x.powf(1.0 / 2.4) - 0.055 } }
fn s_srgb_i(f: f64) -> f64 { if f <= 0.040449936 { f / 12.92 } else { ((f + 0.055) / 1.055).powf(2.4) } }
fn s_709(x: f64) -> f64 { if x < 0.018 { 4.5 * x } else { 1.099 * x.powf(0.45) - 0.099 } }
fn s_709_i(f: f64) -> f64 { if f < 0.081 { f / 4.5 } else { ((f + 0.099) / 1.099).powf(1.0 / 0.45) } }
fn s_logc(x: f64) -> f64 {
    if x > 0.010591 { 0.247190 * (5.555556 * x + 0.052272).log10() + 0.385537 } else { 5.367655 * x + 0.092809 }
}
fn s_logc_i(t: f64) -> f64 {
    if t > 0.149658 { ((10.0f64).powf((t - 0.385537) / 0.247190) - 0.052272) / 5.555556 } else { (t - 0.092809) / 5.367655 }
}
fn s_lin(x: f64) -> f64 { x }
fn s_26(x: f64) -> f64 { x.powf(1.0 / 2.6) }
fn s_26_i(x: f64) -> f64 { x.powf(2.6) }
fn s_ado(x: f64) -> f64 { x.powf(1.0 / 2.19921875) }
fn s_ado_i(x: f64) -> f64 { x.powf(2.19921875) }

/// tolerance in f64: literals only; at the break point itself the two published branches differ by < 2.5e-4 (BT) and
/// the point belongs to either branch depending on the edition, so it is left out.
macro_rules! curve {
    ($n64:ident, $n32:ident, $f:ident, $s:ident, $si:ident, $lo:expr, $hi:expr, $dlo:expr, $dhi:expr, $k:expr, $ki:expr) => {
        pub fn $n64() {
            let x = ob::any("x", $lo, $hi);
            ob::assume(x != $k);
            ob::same("encode(x) is the published curve", e::$f(x), $s(x), 1e-9);
            let y = ob::any("y", $dlo, $dhi);
            ob::assume(y < $ki - 1e-9 || y > $ki + 1e-9);
            ob::same("decode(y) is the published curve", d::$f(y), $si(y), 1e-9);
        }
        pub fn $n32() {
            let x = ob::any32("x", $lo, $hi);
            ob::assume(x < $k * 0.9999 || x > $k * 1.0001);
            ob::same("encode(x) is the published curve", e::$f(x) as f64, $s(x as f64), 1e-5);
            let y = ob::any32("y", $dlo, $dhi);
            ob::assume(y < $ki * 0.9999 || y > $ki * 1.0001);
            ob::same("decode(y) is the published curve", d::$f(y) as f64, $si(y as f64), 1e-5);
        }
    };
}
curve!(r_srgb_f64, r_srgb_f32, srgb_t, s_srgb, s_srgb_i, -100.0, 1000.0, -100.0, 50.0, 0.0031308, 0.040449936);
curve!(r_bt709_f64, r_bt709_f32, bt709_t, s_709, s_709_i, -100.0, 1000.0, -100.0, 50.0, 0.018, 0.081);
curve!(r_bt2020_f64, r_bt2020_f32, bt2020_t, s_709, s_709_i, -100.0, 1000.0, -100.0, 50.0, 0.018, 0.081);
curve!(r_linear_f64, r_linear_f32, linear_t, s_lin, s_lin, -50.0, 50.0, -50.0, 50.0, 100.0, 100.0);
curve!(r_logc_f64, r_logc_f32, alexa_logc_v3_t, s_logc, s_logc_i, -10.0, 1000.0, -0.5, 1.2, 0.010591, 0.149658);

fn m64(m: &ColorSpaceRGB<f64>, s: fn(f64) -> f64, si: fn(f64) -> f64, lo: f64, hi: f64, dlo: f64, dhi: f64, k: f64, ki: f64) {
    let c = rgbf64(ob::any("r", lo, hi), ob::any("g", lo, hi), ob::any("b", lo, hi));
    ob::assume(c.r != k && c.g != k && c.b != k);
    let y = m.encode(c);
    ob::same("encode.r is the published curve of r", y.r, s(c.r), 1e-9);
    ob::same("encode.g is the published curve of g", y.g, s(c.g), 1e-9);
    ob::same("encode.b is the published curve of b", y.b, s(c.b), 1e-9);
    let c = rgbf64(ob::any("er", dlo, dhi), ob::any("eg", dlo, dhi), ob::any("eb", dlo, dhi));
    ob::assume(c.r < ki - 1e-9 || c.r > ki + 1e-9);
    ob::assume(c.g < ki - 1e-9 || c.g > ki + 1e-9);
    ob::assume(c.b < ki - 1e-9 || c.b > ki + 1e-9);
    let y = m.decode(c);
    ob::same("decode.r is the published curve of r", y.r, si(c.r), 1e-9);
    ob::same("decode.g is the published curve of g", y.g, si(c.g), 1e-9);
    ob::same("decode.b is the published curve of b", y.b, si(c.b), 1e-9);
}
fn m32(m: &ColorSpaceRGB<f32>, s: fn(f64) -> f64, si: fn(f64) -> f64, lo: f32, hi: f32, dlo: f32, dhi: f32, k: f32, ki: f32) {
    let c = rgbf32(ob::any32("r", lo, hi), ob::any32("g", lo, hi), ob::any32("b", lo, hi));
    ob::assume(c.r < k * 0.9999 || c.r > k * 1.0001);
    ob::assume(c.g < k * 0.9999 || c.g > k * 1.0001);
    ob::assume(c.b < k * 0.9999 || c.b > k * 1.0001);
    let y = m.encode(c);
    ob::same("encode.r is the published curve of r", y.r as f64, s(c.r as f64), 1e-5);
    ob::same("encode.g is the published curve of g", y.g as f64, s(c.g as f64), 1e-5);
    ob::same("encode.b is the published curve of b", y.b as f64, s(c.b as f64), 1e-5);
    let c = rgbf32(ob::any32("er", dlo, dhi), ob::any32("eg", dlo, dhi), ob::any32("eb", dlo, dhi));
    ob::assume(c.r < ki * 0.9999 || c.r > ki * 1.0001);
    ob::assume(c.g < ki * 0.9999 || c.g > ki * 1.0001);
    ob::assume(c.b < ki * 0.9999 || c.b > ki * 1.0001);
    let y = m.decode(c);
    ob::same("decode.r is the published curve of r", y.r as f64, si(c.r as f64), 1e-5);
    ob::same("decode.g is the published curve of g", y.g as f64, si(c.g as f64), 1e-5);
    ob::same("decode.b is the published curve of b", y.b as f64, si(c.b as f64), 1e-5);
}
pub fn r_model64_srgb() { m64(&model_f64::SRGB, s_srgb, s_srgb_i, -100.0, 1000.0, -100.0, 50.0, 0.0031308, 0.040449936) }
pub fn r_model64_srgb_drv() { m64(&model_f64::SRGB_DRV, s_srgb, s_srgb_i, -100.0, 1000.0, -100.0, 50.0, 0.0031308, 0.040449936) }
pub fn r_model64_bt709() { m64(&model_f64::ITUR_BT709, s_709, s_709_i, -100.0, 1000.0, -100.0, 50.0, 0.018, 0.081) }
pub fn r_model64_bt2020() { m64(&model_f64::ITUR_BT2020, s_709, s_709_i, -100.0, 1000.0, -100.0, 50.0, 0.018, 0.081) }
pub fn r_model64_p3() { m64(&model_f64::DCI_P3, s_26, s_26_i, 0.0, 1000.0, 0.0, 50.0, -1.0, -1.0) }
pub fn r_model64_p3d65() { m64(&model_f64::DCI_P3_D65, s_26, s_26_i, 0.0, 1000.0, 0.0, 50.0, -1.0, -1.0) }
pub fn r_model64_aces() { m64(&model_f64::ACES, s_lin, s_lin, -50.0, 50.0, -50.0, 50.0, 100.0, 100.0) }
pub fn r_model64_acescg() { m64(&model_f64::ACES_CG, s_lin, s_lin, -50.0, 50.0, -50.0, 50.0, 100.0, 100.0) }
pub fn r_model64_adobe() { m64(&model_f64::ADOBE_RGB_1998, s_ado, s_ado_i, 0.0, 1000.0, 0.0, 50.0, -1.0, -1.0) }
pub fn r_model64_alexa() { m64(&model_f64::ALEXA_WIDE_GAMUT, s_logc, s_logc_i, -10.0, 1000.0, -0.5, 1.2, 0.010591, 0.149658) }
pub fn r_model32_srgb() { m32(&model_f32::SRGB, s_srgb, s_srgb_i, -100.0, 1000.0, -100.0, 50.0, 0.0031308, 0.040449936) }
pub fn r_model32_bt709() { m32(&model_f32::ITUR_BT709, s_709, s_709_i, -100.0, 1000.0, -100.0, 50.0, 0.018, 0.081) }
pub fn r_model32_bt2020() { m32(&model_f32::ITUR_BT2020, s_709, s_709_i, -100.0, 1000.0, -100.0, 50.0, 0.018, 0.081) }
pub fn r_model32_p3() { m32(&model_f32::DCI_P3, s_26, s_26_i, 0.0, 1000.0, 0.0, 50.0, -1.0, -1.0) }
pub fn r_model32_p3d65() { m32(&model_f32::DCI_P3_D65, s_26, s_26_i, 0.0, 1000.0, 0.0, 50.0, -1.0, -1.0) }
pub fn r_model32_aces() { m32(&model_f32::ACES, s_lin, s_lin, -50.0, 50.0, -50.0, 50.0, 100.0, 100.0) }
pub fn r_model32_acescg() { m32(&model_f32::ACES_CG, s_lin, s_lin, -50.0, 50.0, -50.0, 50.0, 100.0, 100.0) }
pub fn r_model32_adobe() { m32(&model_f32::ADOBE_RGB_1998, s_ado, s_ado_i, 0.0, 1000.0, 0.0, 50.0, -1.0, -1.0) }
pub fn r_model32_alexa() { m32(&model_f32::ALEXA_WIDE_GAMUT, s_logc, s_logc_i, -10.0, 1000.0, -0.5, 1.2, 0.010591, 0.149658) }

/// the colour-level functions are the scalar ones per channel
macro_rules! lift {
    ($n:ident, $c:ident, $t:ident) => {
        pub fn $n() {
            let c = rgbf64(ob::any("r", -20.0, 60.0), ob::any("g", -20.0, 60.0), ob::any("b", -20.0, 60.0));
            let y = e::$c(c);
            ob::zero("encode.r", y.r - e::$t(c.r), 1e-12);
            ob::zero("encode.g", y.g - e::$t(c.g), 1e-12);
            ob::zero("encode.b", y.b - e::$t(c.b), 1e-12);
            let y = d::$c(c);
            ob::zero("decode.r", y.r - d::$t(c.r), 1e-12);
            ob::zero("decode.g", y.g - d::$t(c.g), 1e-12);
            ob::zero("decode.b", y.b - d::$t(c.b), 1e-12);
        }
    };
}
lift!(r_lift_srgb, srgb, srgb_t);
lift!(r_lift_bt709, bt709, bt709_t);
lift!(r_lift_bt2020, bt2020, bt2020_t);
lift!(r_lift_linear, linear, linear_t);
lift!(r_lift_logc, alexa_logc_v3, alexa_logc_v3_t);
