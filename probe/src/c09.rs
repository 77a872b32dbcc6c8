//! C09: colour differences.
use crate::ob;
use colorspace::lab::*;

fn c(l: &'static str, a: &'static str, b: &'static str) -> Lab<f64> { lab(ob::any(l, -200.0, 1e3), ob::any(a, -1e3, 1e3), ob::any(b, -1e3, 1e3)) }

pub fn r_76_definition() {
    let (p, q) = (c("L1", "a1", "b1"), c("L2", "a2", "b2"));
    let d = delta_E_1976(p, q);
    ob::zero("euclidean", d - ((p.L - q.L) * (p.L - q.L) + (p.a - q.a) * (p.a - q.a) + (p.b - q.b) * (p.b - q.b)).sqrt(), 1e-9);
    ob::zero("symmetric", d - delta_E_1976(q, p), 1e-9);
    ob::zero("zero on equal colours", delta_E_1976(p, p), 1e-9);
    let k = ob::any("k", -20.0, 20.0);
    ob::zero("translation invariant", delta_E_1976(lab(p.L + k, p.a + k, p.b - k), lab(q.L + k, q.a + k, q.b - k)) - d, 1e-9);
}
pub fn r_76_single() {
    let (p, q) = (lab(ob::any32("L1", -200.0, 1e3), ob::any32("a1", -1e3, 1e3), ob::any32("b1", -1e3, 1e3)), lab(ob::any32("L2", -200.0, 1e3), ob::any32("a2", -1e3, 1e3), ob::any32("b2", -1e3, 1e3)));
    ob::zero32("euclidean", delta_E_1976(p, q) - ((p.L - q.L).powi(2) + (p.a - q.a).powi(2) + (p.b - q.b).powi(2)).sqrt(), 1e-4);
}
pub fn r_00_zero() {
    let p = c("L1", "a1", "b1");
    ob::zero("zero on equal colours", delta_E_2000(p, p), 1e-7);
}
pub fn r_00_symmetric() {
    let (p, q) = (c("L1", "a1", "b1"), c("L2", "a2", "b2"));
    ob::assume(p.b != 0.0 && q.b != 0.0);
    ob::zero("symmetric", delta_E_2000(p, q) - delta_E_2000(q, p), 1e-6);
}
/// Sharma, Wu & Dalal (2005), written from the paper in terms of unit-free hue vectors where the paper allows
fn spec(c1: Lab<f64>, c2: Lab<f64>) -> f64 {
    let rad = std::f64::consts::PI / 180.0;
    let p7 = |x: f64| x * x * x * x * x * x * x;
    let k25 = 6103515625.0;
    let cb = ((c1.a * c1.a + c1.b * c1.b).sqrt() + (c2.a * c2.a + c2.b * c2.b).sqrt()) / 2.0;
    let g = 0.5 * (1.0 - (p7(cb) / (p7(cb) + k25)).sqrt());
    let (a1, a2) = ((1.0 + g) * c1.a, (1.0 + g) * c2.a);
    let (q1, q2) = ((a1 * a1 + c1.b * c1.b).sqrt(), (a2 * a2 + c2.b * c2.b).sqrt());
    let hue = |b: f64, a: f64| { let h = b.atan2(a) / rad; if h < 0.0 { h + 360.0 } else { h } };
    let (h1, h2) = (hue(c1.b, a1), hue(c2.b, a2));
    let achromatic = q1 * q2 == 0.0;
    let dl = c2.L - c1.L;
    let dc = q2 - q1;
    let dh = if achromatic { 0.0 } else if (h2 - h1).abs() <= 180.0 { h2 - h1 } else if h2 - h1 > 180.0 { h2 - h1 - 360.0 } else { h2 - h1 + 360.0 };
    let dhh = 2.0 * (q1 * q2).sqrt() * (dh / 2.0 * rad).sin();
    let lb = (c1.L + c2.L) / 2.0;
    let qb = (q1 + q2) / 2.0;
    let hb = if achromatic { h1 + h2 } else if (h1 - h2).abs() <= 180.0 { (h1 + h2) / 2.0 } else if h1 + h2 < 360.0 { (h1 + h2 + 360.0) / 2.0 } else { (h1 + h2 - 360.0) / 2.0 };
    let t = 1.0 - 0.17 * ((hb - 30.0) * rad).cos() + 0.24 * (2.0 * hb * rad).cos() + 0.32 * ((3.0 * hb + 6.0) * rad).cos() - 0.20 * ((4.0 * hb - 63.0) * rad).cos();
    let th = 30.0 * (-((hb - 275.0) / 25.0) * ((hb - 275.0) / 25.0)).exp();
    let rc = 2.0 * (p7(qb) / (p7(qb) + k25)).sqrt();
    let sl = 1.0 + 0.015 * (lb - 50.0) * (lb - 50.0) / (20.0 + (lb - 50.0) * (lb - 50.0)).sqrt();
    let sc = 1.0 + 0.045 * qb;
    let sh = 1.0 + 0.015 * qb * t;
    let rt = -(2.0 * th * rad).sin() * rc;
    let (u, v, w) = (dl / sl, dc / sc, dhh / sh);
    (u * u + v * v + w * w + rt * v * w).sqrt()
}
pub fn r_00_definition() {
    let (p, q) = (c("L1", "a1", "b1"), c("L2", "a2", "b2"));
    ob::zero("CIEDE2000", delta_E_2000(p, q) - spec(p, q), 1e-6);
}
/// each quadrant pair separately, so that every hue branch is exercised
macro_rules! quad {
    ($n:ident, $a1:expr, $b1:expr, $a2:expr, $b2:expr) => {
        pub fn $n() {
            let p = lab(ob::any("L1", -200.0, 1e3), $a1 * ob::any("a1", 0.1, 1e3), $b1 * ob::any("b1", 0.1, 1e3));
            let q = lab(ob::any("L2", -200.0, 1e3), $a2 * ob::any("a2", 0.1, 1e3), $b2 * ob::any("b2", 0.1, 1e3));
            ob::zero("CIEDE2000 in these quadrants", delta_E_2000(p, q) - spec(p, q), 1e-6);
            ob::zero("symmetric", delta_E_2000(p, q) - delta_E_2000(q, p), 1e-6);
        }
    };
}
quad!(r_q_11, 1.0, 1.0, 1.0, 1.0);
quad!(r_q_12, 1.0, 1.0, -1.0, 1.0);
quad!(r_q_13, 1.0, 1.0, -1.0, -1.0);
quad!(r_q_14, 1.0, 1.0, 1.0, -1.0);
quad!(r_q_22, -1.0, 1.0, -1.0, 1.0);
quad!(r_q_23, -1.0, 1.0, -1.0, -1.0);
quad!(r_q_24, -1.0, 1.0, 1.0, -1.0);
quad!(r_q_33, -1.0, -1.0, -1.0, -1.0);
quad!(r_q_34, -1.0, -1.0, 1.0, -1.0);
quad!(r_q_44, 1.0, -1.0, 1.0, -1.0);
/// neutral against chromatic: the hue difference is defined as zero
pub fn r_00_neutral() {
    let q = c("L2", "a2", "b2");
    let n = lab(ob::any("L1", -200.0, 1e3), 0.0, 0.0);
    ob::zero("CIEDE2000 from a neutral", delta_E_2000(n, q) - spec(n, q), 1e-6);
    ob::zero("CIEDE2000 to a neutral", delta_E_2000(q, n) - spec(q, n), 1e-6);
    let m = lab(ob::any("L3", -200.0, 1e3), 0.0, 0.0);
    ob::zero("CIEDE2000 between neutrals", delta_E_2000(n, m) - spec(n, m), 1e-6);
}
/// nearly neutral colours still have a hue
macro_rules! faint {
    ($n:ident, $lo:expr, $hi:expr, $lo2:expr, $hi2:expr) => {
        pub fn $n() {
            let p = lab(ob::any("L1", -200.0, 1e3), ob::any("a1", -$hi, $hi), ob::any("b1", $lo, $hi));
            let q = lab(ob::any("L2", -200.0, 1e3), ob::any("a2", $lo2, $hi2), -ob::any("b2", $lo2, $hi2));
            ob::zero("CIEDE2000 of faint colours", delta_E_2000(p, q) - spec(p, q), 1e-7);
            ob::zero("symmetric", delta_E_2000(p, q) - delta_E_2000(q, p), 1e-7);
        }
    };
}
faint!(r_00_faint_1, 1e-3, 0.06, 1e-3, 0.06);
faint!(r_00_faint_2, 1e-4, 1e-3, 1e-4, 1e-3);
faint!(r_00_faint_3, 1e-4, 1e-2, 1.0, 60.0);
/// the default delta E of the crate is CIEDE2000
pub fn r_default() {
    let (p, q) = (c("L1", "a1", "b1"), c("L2", "a2", "b2"));
    ob::zero("delta_E = delta_E_2000", colorspace::delta_E(p, q) - delta_E_2000(p, q), 0.0);
}
pub fn r_00_single() {
    let (p, q) = (lab(ob::any32("L1", -200.0, 1e3), ob::any32("a1", 0.1, 1e3), ob::any32("b1", 0.1, 1e3)), lab(ob::any32("L2", -200.0, 1e3), ob::any32("a2", 0.1, 1e3), ob::any32("b2", 0.1, 1e3)));
    let (u, v) = (lab(p.L as f64, p.a as f64, p.b as f64), lab(q.L as f64, q.a as f64, q.b as f64));
    ob::zero("single precision agrees with double", delta_E_2000(p, q) as f64 - delta_E_2000(u, v), 1e-3);
}
