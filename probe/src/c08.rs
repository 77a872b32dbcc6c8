//! C08: CIE L*a*b*.
use crate::ob;
use colorspace::lab::*;
use colorspace::xyz::*;
use colorspace::chromaticity::*;

const EPS: f64 = 216.0 / 24389.0;
const KAP: f64 = 24389.0 / 27.0;
fn f(t: f64) -> f64 { if t > EPS { t.powf(1.0 / 3.0) } else { (KAP * t + 16.0) / 116.0 } }
fn w() -> XYZ<f64> { xyz(ob::any("wx", 0.01, 1e4), ob::any("wy", 0.01, 1e4), ob::any("wz", 0.01, 1e4)) }

fn x2l(c: XYZ<f64>, w: XYZ<f64>) -> Lab<f64> { xyz_to_lab::<f64, _, _>(c, w) }
fn l2x(c: Lab<f64>, w: XYZ<f64>) -> XYZ<f64> { lab_to_xyz::<f64, _, _>(c, w) }
pub fn r_definition() {
    let wh = w();
    let c = xyz(ob::any("x", -1e3, 1e6), ob::any("y", -1e3, 1e6), ob::any("z", -1e3, 1e6));
    let l = x2l(c, wh);
    let (fx, fy, fz) = (f(c.x / wh.x), f(c.y / wh.y), f(c.z / wh.z));
    ob::zero("L* = 116 f(Y/Yn) - 16", l.L - (116.0 * fy - 16.0), 1e-6);
    ob::zero("a* = 500 (f(X/Xn) - f(Y/Yn))", l.a - 500.0 * (fx - fy), 1e-6);
    ob::zero("b* = 200 (f(Y/Yn) - f(Z/Zn))", l.b - 200.0 * (fy - fz), 1e-6);
}
/// one ratio at a time: inside each branch and around the break
fn branch(xlo: f64, xhi: f64, ylo: f64, yhi: f64, zlo: f64, zhi: f64) {
    let wh = w();
    let (p, q, r) = (ob::any("p", xlo, xhi), ob::any("q", ylo, yhi), ob::any("r", zlo, zhi));
    let c = xyz(p * wh.x, q * wh.y, r * wh.z);
    let l = x2l(c, wh);
    ob::zero("L*", l.L - (116.0 * f(q) - 16.0), 1e-6);
    ob::zero("a*", l.a - 500.0 * (f(p) - f(q)), 1e-6);
    ob::zero("b*", l.b - 200.0 * (f(q) - f(r)), 1e-6);
    let d = l2x(l, wh);
    ob::same("XYZ->Lab->XYZ (X)", d.x, c.x, 1e-6);
    ob::same("XYZ->Lab->XYZ (Y)", d.y, c.y, 1e-6);
    ob::same("XYZ->Lab->XYZ (Z)", d.z, c.z, 1e-6);
}
pub fn r_bright() { branch(0.009, 3.0, 0.009, 3.0, 0.009, 3.0) }
pub fn r_dark() { branch(0.0, 0.0088, 0.0, 0.0088, 0.0, 0.0088) }
pub fn r_dark_x() { branch(0.0, 0.0088, 0.009, 3.0, 0.009, 3.0) }
pub fn r_dark_y() { branch(0.009, 3.0, 0.0, 0.0088, 0.009, 3.0) }
pub fn r_dark_z() { branch(0.009, 3.0, 0.009, 3.0, 0.0, 0.0088) }
pub fn r_bright_x() { branch(0.009, 3.0, 0.0, 0.0088, 0.0, 0.0088) }
pub fn r_bright_y() { branch(0.0, 0.0088, 0.009, 3.0, 0.0, 0.0088) }
pub fn r_bright_z() { branch(0.0, 0.0088, 0.0, 0.0088, 0.009, 3.0) }
pub fn r_any() { branch(-10.0, 1e4, -10.0, 1e4, -10.0, 1e4) }
/// Lab -> XYZ -> Lab over the whole space, negative cone values included
fn back(llo: f64, lhi: f64, ab: f64) {
    let wh = w();
    let l = lab(ob::any("L", llo, lhi), ob::any("a", -ab, ab), ob::any("b", -ab, ab));
    let k = x2l(l2x(l, wh), wh);
    ob::zero("Lab->XYZ->Lab (L)", k.L - l.L, 1e-6);
    ob::zero("Lab->XYZ->Lab (a)", k.a - l.a, 1e-6);
    ob::zero("Lab->XYZ->Lab (b)", k.b - l.b, 1e-6);
}
pub fn r_back_bright() { back(8.5, 150.0, 1.0) }
pub fn r_back_dark() { back(0.0, 7.9, 5.0) }
pub fn r_back_any() { back(-500.0, 2e3, 5e3) }
pub fn r_inverse_definition() {
    let wh = w();
    let l = lab(ob::any("L", -500.0, 2e3), ob::any("a", -5e3, 5e3), ob::any("b", -5e3, 5e3));
    let c = l2x(l, wh);
    let fy = (l.L + 16.0) / 116.0;
    let (fx, fz) = (fy + l.a / 500.0, fy - l.b / 200.0);
    let g = |t: f64| if t * t * t > EPS { t * t * t } else { (116.0 * t - 16.0) / KAP };
    ob::same("X", c.x, wh.x * g(fx), 1e-6);
    ob::same("Y", c.y, wh.y * g(fy), 1e-6);
    ob::same("Z", c.z, wh.z * g(fz), 1e-6);
}
pub fn r_white_black_grey() {
    let wh = w();
    let l = x2l(wh, wh);
    ob::zero("white has L*=100", l.L - 100.0, 1e-9);
    ob::zero("white has a*=0", l.a, 1e-9);
    ob::zero("white has b*=0", l.b, 1e-9);
    let k = x2l(xyz(0.0, 0.0, 0.0), wh);
    ob::zero("black has L*=0", k.L, 1e-9);
    ob::zero("black has a*=0", k.a, 1e-9);
    ob::zero("black has b*=0", k.b, 1e-9);
    let t = ob::any("t", 0.0, 300.0);
    let g = x2l(wh * t, wh);
    ob::zero("grey has a*=0", g.a, 1e-6);
    ob::zero("grey has b*=0", g.b, 1e-6);
    let c = l2x(lab(100.0, 0.0, 0.0), wh);
    ob::same("L*=100 is the white", c.x, wh.x, 1e-9);
    ob::same("L*=100 is the white", c.y, wh.y, 1e-9);
    ob::same("L*=100 is the white", c.z, wh.z, 1e-9);
}
pub fn r_arguments() {
    // chromaticity arguments behave as their XYZ
    let p = XYY::new(ob::any("px", 0.25, 0.4), ob::any("py", 0.25, 0.4), ob::any("pY", 0.1, 1.0));
    let wxy = XYY::new(ob::any("qx", 0.25, 0.4), ob::any("qy", 0.25, 0.4), 1.0);
    let a = xyz_to_lab::<f64, _, _>(p, wxy);
    let b = xyz_to_lab::<f64, _, _>(XYZ::from(p), XYZ::from(wxy));
    ob::zero("L", a.L - b.L, 1e-9);
    ob::zero("a", a.a - b.a, 1e-9);
    ob::zero("b", a.b - b.b, 1e-9);
    let x = lab_to_xyz::<f64, _, _>(a, wxy);
    let y = lab_to_xyz::<f64, _, _>(a, XYZ::from(wxy));
    ob::same("X", x.x, y.x, 1e-9);
    ob::same("Y", x.y, y.y, 1e-9);
    ob::same("Z", x.z, y.z, 1e-9);
    let l = lab(1.0, 2.0, 3.0);
    ob::holds("lab() keeps its arguments in order", l.L == 1.0 && l.a == 2.0 && l.b == 3.0);
}
pub fn r_single_precision() {
    let wh = xyz(95.0f32, 100.0, 108.0);
    let (p, q, r) = (ob::any32("p", 0.0, 300.0), ob::any32("q", 0.0, 300.0), ob::any32("r", 0.0, 300.0));
    let l = xyz_to_lab::<f32, _, _>(xyz(p * 95.0, q * 100.0, r * 108.0), wh);
    let m = xyz_to_lab::<f64, _, _>(xyz(p as f64 * 95.0, q as f64 * 100.0, r as f64 * 108.0), xyz(95.0, 100.0, 108.0));
    ob::zero("L* agrees between precisions", l.L as f64 - m.L, 1e-3);
    ob::zero("a* agrees between precisions", l.a as f64 - m.a, 1e-3);
    ob::zero("b* agrees between precisions", l.b as f64 - m.b, 1e-3);
    let k = lab_to_xyz::<f32, _, _>(l, wh);
    ob::same32("XYZ->Lab->XYZ (X)", k.x, p * 95.0, 1e-4);
    ob::same32("XYZ->Lab->XYZ (Y)", k.y, q * 100.0, 1e-4);
    ob::same32("XYZ->Lab->XYZ (Z)", k.z, r * 108.0, 1e-4);
}
