//! C21: luminance of a spectrum.
use crate::ob;
use colorspace::cmf::{CIE_1931_2_DEGREE, CMF};
use colorspace::illuminant::spd::*;
use colorspace::vspd::*;
use colorspace::{spd_to_nit, SpdShape, VSPD};

fn spec(v: &Vec<f64>, s: f64, h: f64) -> VSPD { VSPD::new((0..v.len()).map(|k| Sample::new(s + k as f64 * h, v[k])).collect()) }
/// luminous efficiency of the standard observer at a wavelength, outside its table: the end values
fn ybar(nm: f64) -> f64 {
    let y = CIE_1931_2_DEGREE.y_bar.samples();
    let k = nm - 360.0;
    if k <= 0.0 { y[0].v } else if k >= 470.0 { y[470].v } else { y[(k + 0.5) as usize].v }
}
fn direct(n: usize, s: f64, h: f64) {
    let v = ob::anyv("v", n, -1e5, 1e6);
    let l = spd_to_nit(&spec(&v, s, h), &CIE_1931_2_DEGREE);
    let mut e = 0.0;
    for k in 0..n { e += v[k] * ybar(s + k as f64 * h); }
    ob::same("luminance = 683 lm/W x mean of spectrum x luminous efficiency", l, 683.0 * e / n as f64, 1e-7);
}
pub fn r_1nm() { direct(421, 360.0, 1.0) }
pub fn r_1nm_part() { direct(41, 540.0, 1.0) }
pub fn r_1nm_wide() { direct(551, 300.0, 1.0) }
pub fn r_5nm() { direct(81, 380.0, 5.0) }
pub fn r_10nm() { direct(36, 380.0, 10.0) }
pub fn r_20nm() { direct(12, 500.0, 20.0) }
/// the observer's own range on another grid, its number of samples on another range, and long spectra
pub fn r_same_ends() { direct(48, 360.0, 10.0); direct(95, 360.0, 5.0); direct(2, 360.0, 470.0); direct(6, 360.0, 94.0) }
pub fn r_same_start() { direct(40, 360.0, 10.0); direct(300, 360.0, 1.0) }
pub fn r_same_end() { direct(300, 531.0, 1.0); direct(20, 640.0, 10.0) }
pub fn r_same_count() { direct(471, 380.0, 1.0); direct(471, 320.0, 2.0) }
pub fn r_long() { direct(1301, 100.0, 1.0) }
pub fn r_7nm() { direct(30, 401.0, 7.0) }
pub fn r_two() { direct(2, 555.0, 10.0) }
pub fn r_wide() { direct(60, 300.0, 10.0) }
pub fn r_uv() { direct(4, 320.0, 10.0) }
pub fn r_beyond() { direct(21, 700.0, 10.0) }
/// any observer: the spectrum's own grid is used
pub fn r_any_observer() {
    let n = 9;
    let v = ob::anyv("v", n, -1e5, 1e6);
    let t = |k: &'static str| spec(&ob::anyv(k, 8, -1.0, 2.0), 440.0, 20.0);
    let c = CMF { x_bar: t("x"), y_bar: t("y"), z_bar: t("z") };
    let p = spec(&v, 450.0, 10.0);
    let y = c.y_bar.align(p.shape());
    let mut e = 0.0;
    for k in 0..n { e += v[k] * y.samples()[k].v; }
    ob::same("only the luminous efficiency counts, resampled on the spectrum's grid", spd_to_nit(&p, &c), 683.0 * e / n as f64, 1e-9);
}
/// irregular samples have no grid of their own: the spectrum counts at every nanometre from its first sample
pub fn r_varying() {
    for w in [[500.0, 510.0, 515.0], [361.0, 361.5, 400.0], [700.2, 703.2, 707.9], [900.0, 910.0, 911.0], [555.5, 555.7, 556.1]] {
        let v = ob::anyv("v", 3, -1e5, 1e6);
        let p = VSPD::new((0..3).map(|k| Sample::new(w[k], v[k])).collect());
        let q = p.align(SpdShape::new(w[0], w[2], 1.0));
        let y = CIE_1931_2_DEGREE.y_bar.align(q.shape());
        let mut e = 0.0;
        for k in 0..q.len() { e += q.samples()[k].v * y.samples()[k].v; }
        ob::same("luminance = 683 lm/W x mean of spectrum x luminous efficiency", spd_to_nit(&p, &CIE_1931_2_DEGREE), 683.0 * e / q.len() as f64, 1e-9);
    }
}
/// between the tabulated wavelengths the observer is interpolated
pub fn r_between() {
    let n = 12;
    let v = ob::anyv("v", n, -1e5, 1e6);
    let p = spec(&v, 500.25, 2.5);
    let y = CIE_1931_2_DEGREE.y_bar.align(p.shape());
    let mut e = 0.0;
    for k in 0..n { e += v[k] * y.samples()[k].v; }
    ob::same("luminance = 683 lm/W x mean of spectrum x luminous efficiency", spd_to_nit(&p, &CIE_1931_2_DEGREE), 683.0 * e / n as f64, 1e-9);
}
/// linear in the spectrum
pub fn r_linear() {
    let n = 31;
    let (a, b) = (ob::anyv("a", n, -1e5, 1e6), ob::anyv("b", n, -1e5, 1e6));
    let (s, t) = (ob::any("s", -1e3, 1e3), ob::any("t", -1e3, 1e3));
    let c: Vec<f64> = (0..n).map(|k| s * a[k] + t * b[k]).collect();
    let l = |v: &Vec<f64>| spd_to_nit(&spec(v, 400.0, 10.0), &CIE_1931_2_DEGREE);
    ob::zero("linear in the spectrum", l(&c) - (s * l(&a) + t * l(&b)), 1e-7);
    ob::zero("darkness has no luminance", l(&vec![0.0; n]), 1e-12);
}
