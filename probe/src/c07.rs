//! C07: XYZ <-> xyY.
use crate::ob;
use colorspace::chromaticity::*;
use colorspace::xyz::*;

pub fn r_xyz_roundtrip() {
    let c = xyz(ob::any("x", 0.01, 500.0), ob::any("y", 0.01, 500.0), ob::any("z", 0.0, 500.0));
    let d = XYZ::from_chromaticity(XYY::from_xyz(c));
    ob::same("XYZ->xyY->XYZ (X)", d.x, c.x, 1e-9);
    ob::same("XYZ->xyY->XYZ (Y)", d.y, c.y, 1e-9);
    ob::same("XYZ->xyY->XYZ (Z)", d.z, c.z, 1e-9);
    let e: XYZ<f64> = XYY::from(c).into();
    ob::same("via From (X)", e.x, c.x, 1e-9);
    ob::same("via From (Y)", e.y, c.y, 1e-9);
    ob::same("via From (Z)", e.z, c.z, 1e-9);
}
/// any sign and any size of stimulus
fn wide(k: f64) {
    let c = xyz(ob::any("x", -k, k), ob::any("y", -k, k), ob::any("z", -k, k));
    let s = c.x + c.y + c.z;
    if s.abs() < k * 1e-4 || c.y.abs() < k * 1e-4 { return; }
    let q = XYY::from_xyz(c);
    ob::same("x = X/(X+Y+Z)", q.x, c.x / s, 1e-9);
    ob::same("y = Y/(X+Y+Z)", q.y, c.y / s, 1e-9);
    ob::same("Y is relative to 1 where XYZ is relative to 100", q.Y * 100.0 / k, c.y / k, 1e-9);
    let d = XYZ::from_chromaticity(q);
    ob::same("XYZ->xyY->XYZ (X)", d.x / k, c.x / k, 1e-9);
    ob::same("XYZ->xyY->XYZ (Y)", d.y / k, c.y / k, 1e-9);
    ob::same("XYZ->xyY->XYZ (Z)", d.z / k, c.z / k, 1e-9);
}
pub fn r_wide() { wide(500.0); wide(1e9); }
pub fn r_dark() { wide(1e-2); wide(1e-9); wide(1e-20); }
pub fn r_xyy_roundtrip() {
    let c = XYY::new(ob::any("x", 0.0, 0.8), ob::any("y", 0.01, 0.9), ob::any("Y", 0.001, 10.0));
    let d = XYY::from_xyz(XYZ::from_chromaticity(c));
    ob::same("xyY->XYZ->xyY (x)", d.x, c.x, 1e-9);
    ob::same("xyY->XYZ->xyY (y)", d.y, c.y, 1e-9);
    ob::same("xyY->XYZ->xyY (Y)", d.Y, c.Y, 1e-9);
}
pub fn r_definition() {
    let c = xyz(ob::any("x", 0.01, 500.0), ob::any("y", 0.01, 500.0), ob::any("z", 0.0, 500.0));
    let q = XYY::from_xyz(c);
    let s = c.x + c.y + c.z;
    ob::same("x = X/(X+Y+Z)", q.x, c.x / s, 1e-9);
    ob::same("y = Y/(X+Y+Z)", q.y, c.y / s, 1e-9);
    ob::same("Y is relative to 1 where XYZ is relative to 100", q.Y, c.y / 100.0, 1e-9);
}
pub fn r_definition_inverse() {
    let c = XYY::new(ob::any("x", 0.0, 0.8), ob::any("y", 0.01, 0.9), ob::any("Y", 0.0, 10.0));
    let q = XYZ::from_chromaticity(c);
    ob::same("X = 100 x Y / y", q.x, 100.0 * c.x * c.Y / c.y, 1e-9);
    ob::same("Y = 100 Y", q.y, 100.0 * c.Y, 1e-9);
    ob::same("Z = 100 (1-x-y) Y / y", q.z, 100.0 * (1.0 - c.x - c.y) * c.Y / c.y, 1e-9);
    let p = XYZ::from_xy(c.x, c.y);
    ob::same("from_xy has unit luminance (100)", p.y, 100.0, 1e-9);
    ob::same("from_xy X", p.x, 100.0 * c.x / c.y, 1e-9);
    ob::same("from_xy Z", p.z, 100.0 * (1.0 - c.x - c.y) / c.y, 1e-9);
    let r = xy(c.x, c.y);
    ob::zero("xy() keeps x", r.x - c.x, 0.0);
    ob::zero("xy() keeps y", r.y - c.y, 0.0);
    ob::zero("xy() has unit luminance", r.Y - 1.0, 0.0);
}
/// chromaticity does not depend on luminance, and a sum of colours lies on the line between them
pub fn r_laws() {
    let c = xyz(ob::any("x", 0.01, 500.0), ob::any("y", 0.01, 500.0), ob::any("z", 0.0, 500.0));
    let k = ob::any("k", 0.01, 10.0);
    let (p, q) = (XYY::from_xyz(c), XYY::from_xyz(c * k));
    ob::same("chromaticity is independent of scale (x)", p.x, q.x, 1e-9);
    ob::same("chromaticity is independent of scale (y)", p.y, q.y, 1e-9);
    ob::same("luminance scales", q.Y, p.Y * k, 1e-9);
}
pub fn r_normalise() {
    let c = xyz(ob::any("x", 0.01, 500.0), ob::any("y", 0.01, 500.0), ob::any("z", 0.0, 500.0));
    let n = c.normalized();
    ob::same("normalized(): Y = 1", n.y, 1.0, 1e-9);
    ob::same("normalized() scales X", n.x, c.x / c.y, 1e-9);
    ob::same("normalized() scales Z", n.z, c.z / c.y, 1e-9);
    let n = c.normalized_y();
    ob::same("normalized_y(): Y = 100", n.y, 100.0, 1e-9);
    ob::same("normalized_y() scales X", n.x, 100.0 * c.x / c.y, 1e-9);
    ob::same("normalized_y() scales Z", n.z, 100.0 * c.z / c.y, 1e-9);
}
pub fn r_single() {
    let c = xyz(ob::any32("x", 0.01, 500.0), ob::any32("y", 0.01, 500.0), ob::any32("z", 0.0, 500.0));
    let d: XYZ<f32> = XYY::from(c).into();
    ob::same32("XYZ->xyY->XYZ (X)", d.x, c.x, 1e-5);
    ob::same32("XYZ->xyY->XYZ (Y)", d.y, c.y, 1e-5);
    ob::same32("XYZ->xyY->XYZ (Z)", d.z, c.z, 1e-5);
    let q = XYY::from_xyz(c);
    ob::same32("x", q.x, c.x / (c.x + c.y + c.z), 1e-5);
    ob::same32("y", q.y, c.y / (c.x + c.y + c.z), 1e-5);
    ob::same32("Y", q.Y, c.y / 100.0, 1e-5);
    let n = c.normalized_y();
    ob::same32("normalized_y(): Y = 100", n.y, 100.0, 1e-5);
    ob::same32("normalized_y() scales X", n.x, 100.0 * c.x / c.y, 1e-5);
}
