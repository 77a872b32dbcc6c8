//! C22: daylight chromaticity from colour temperature.
use crate::ob;
use colorspace::illuminant::xy;

fn x(t: f64) -> f64 {
    if t <= 7000.0 { -4.6070e9 / (t * t * t) + 2.9678e6 / (t * t) + 0.09911e3 / t + 0.244063 }
    else { -2.0064e9 / (t * t * t) + 1.9018e6 / (t * t) + 0.24748e3 / t + 0.237040 }
}
fn y(x: f64) -> f64 { -3.000 * x * x + 2.870 * x - 0.275 }
fn locus(t: f64) {
    match xy::cct(t) {
        Ok(w) => {
            ob::holds("a temperature outside 4000-25000 K is an error", t >= 4000.0 && t <= 25000.0);
            ob::zero("x on the CIE daylight locus", w.x - x(t), 1e-9);
            ob::zero("y on the CIE daylight locus", w.y - y(x(t)), 1e-9);
            ob::zero("luminance 1", w.Y - 1.0, 1e-12);
        }
        Err(_) => ob::holds("a temperature inside 4000-25000 K is accepted", !(t >= 4000.0 && t <= 25000.0)),
    }
}
pub fn r_any() { locus(ob::any("t", -1000.0, 60000.0)) }
pub fn r_inside() {
    let t = ob::any("t", 4000.0, 25000.0);
    ob::holds("accepted", xy::cct(t).is_ok());
    locus(t);
}
pub fn r_low() { locus(ob::any("t", 4000.0, 7000.0)) }
pub fn r_high() { locus(ob::any("t", 7000.0, 25000.0)) }
pub fn r_outside() {
    ob::holds("too cold", xy::cct(ob::any("a", -1e6, 3999.9)).is_err());
    ob::holds("too hot", xy::cct(ob::any("b", 25000.1, 1e9)).is_err());
    for t in [3999.999, 25000.001, 0.0, -6500.0, 1e300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MIN_POSITIVE] { ob::holds("rejected", xy::cct(t).is_err()); }
    for t in [3999.0f32, 25001.0, 0.0, -6500.0, 1e38, f32::INFINITY, f32::NEG_INFINITY, f32::NAN] { ob::holds("rejected (f32)", xy::cct(t).is_err()); }
}
pub fn r_edges() {
    for t in [4000.0, 4000.001, 5000.0, 6999.999, 7000.0, 7000.001, 24999.999, 25000.0] {
        ob::holds("accepted", xy::cct(t).is_ok());
        locus(t);
    }
    for t in [4000.0f32, 7000.0, 7001.0, 25000.0] { ob::holds("accepted (f32)", xy::cct(t).is_ok()); }
    let (a, b) = (xy::cct(7000.0).unwrap(), xy::cct(7000.000001).unwrap());
    ob::zero("no jump at 7000 K (x)", a.x - b.x, 2e-4);
    ob::zero("no jump at 7000 K (y)", a.y - b.y, 2e-4);
}
pub fn r_single() {
    let t = ob::any32("t", 4000.0, 25000.0);
    match (xy::cct(t), xy::cct(t as f64)) {
        (Ok(a), Ok(b)) => {
            ob::zero("x agrees between precisions", a.x as f64 - b.x, 1e-5);
            ob::zero("y agrees between precisions", a.y as f64 - b.y, 1e-5);
            ob::zero("luminance agrees between precisions", a.Y as f64 - b.Y, 1e-6);
        }
        (Err(_), Err(_)) => ob::holds("accepted in both precisions", false),
        _ => ob::holds("same verdict in both precisions", false),
    }
}
/// the named daylight white points lie on the locus
pub fn r_named() {
    for (w, t) in [(xy::D50, 5002.78), (xy::D55, 5503.06), (xy::D60, 6003.33), (xy::D65, 6503.62)] {
        let c = xy::cct(t).unwrap();
        ob::zero("named white on the locus (x)", w.x - c.x, 3e-4);
        ob::zero("named white on the locus (y)", w.y - c.y, 3e-4);
    }
}
