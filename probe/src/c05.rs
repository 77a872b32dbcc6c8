//! C05: chromatic adaptation transforms.
use crate::ob;
use colorspace::chromatic_adaptation::*;
use colorspace::chromaticity::*;
use colorspace::color_space_rgb::ColorSpaceRGB;
use colorspace::math::*;
use colorspace::xyz::*;

fn w(a: &'static str, b: &'static str, c: &'static str) -> XYZ<f64> {
    let s = ob::any("luminance", 0.005, 20.0);
    xyz(ob::any(a, 60.0, 120.0) * s, ob::any(b, 80.0, 120.0) * s, ob::any(c, 40.0, 140.0) * s)
}
fn w32(a: &'static str, b: &'static str, c: &'static str) -> XYZ<f32> {
    let s = ob::any32("luminance", 0.005, 20.0);
    xyz(ob::any32(a, 60.0, 120.0) * s, ob::any32(b, 80.0, 120.0) * s, ob::any32(c, 40.0, 140.0) * s)
}
fn near(l: &'static str, m: Matrix33<f64>, n: Matrix33<f64>, tol: f64) {
    for i in 0..9 { ob::same(l, m.x[i], n.x[i], tol); }
}
/// published cone matrices
const BFD: [f64; 9] = [0.8951, 0.2664, -0.1614, -0.7502, 1.7135, 0.0367, 0.0389, -0.0685, 1.0296];
const VK: [f64; 9] = [0.40024, 0.7076, -0.08081, -0.2263, 1.16532, 0.0457, 0.0, 0.0, 0.91822];
const C02: [f64; 9] = [0.7328, 0.4296, -0.1624, -0.7036, 1.6975, 0.0061, 0.003, 0.0136, 0.9834];

macro_rules! cat {
    ($m:ident, $f:ident, $k:expr, $tol:expr, $t32:expr) => {
        pub mod $m {
            use super::*;
            pub fn r_maps_white() {
                let (s, d) = (w("sx", "sy", "sz"), w("dx", "dy", "dz"));
                let o = $f::<f64, _, _>(s, d) * s;
                ob::same("source white becomes destination white (X)", o.x, d.x, $tol);
                ob::same("source white becomes destination white (Y)", o.y, d.y, $tol);
                ob::same("source white becomes destination white (Z)", o.z, d.z, $tol);
            }
            pub fn r_identity() {
                let s = w("sx", "sy", "sz");
                near("same white: identity", $f::<f64, _, _>(s, s), Matrix33::make_identity(), 0.0);
            }
            pub fn r_near_identity_is_continuous() {
                // whites differing in one coordinate only are still adapted
                let s = w("sx", "sy", "sz");
                let h = ob::any("h", 1.0, 20.0);
                let mx = $f::<f64, _, _>(s, xyz(s.x + h, s.y, s.z)) * s;
                ob::same("X-only change", mx.x, s.x + h, $tol);
                ob::same("X-only change", mx.y, s.y, $tol);
                let my = $f::<f64, _, _>(s, xyz(s.x, s.y + h, s.z)) * s;
                ob::same("Y-only change", my.y, s.y + h, $tol);
                ob::same("Y-only change", my.z, s.z, $tol);
                let mz = $f::<f64, _, _>(s, xyz(s.x, s.y, s.z + h)) * s;
                ob::same("Z-only change", mz.z, s.z + h, $tol);
                ob::same("Z-only change", mz.x, s.x, $tol);
            }
            pub fn r_inverse() {
                let (s, d) = (w("sx", "sy", "sz"), w("dx", "dy", "dz"));
                near("there and back is the identity", $f::<f64, _, _>(d, s) * $f::<f64, _, _>(s, d), Matrix33::make_identity(), $tol);
            }
            pub fn r_compose() {
                let (s, m, d) = (w("sx", "sy", "sz"), w("mx", "my", "mz"), w("dx", "dy", "dz"));
                near("adapting through an intermediate white", $f::<f64, _, _>(m, d) * $f::<f64, _, _>(s, m), $f::<f64, _, _>(s, d), $tol * 2.0);
            }
            pub fn r_scale() {
                // scaling only the luminance scales every colour
                let s = w("sx", "sy", "sz");
                let k = ob::any("k", 0.5, 2.0);
                ob::assume(k != 1.0);
                near("scaled white scales", $f::<f64, _, _>(s, s * k), Matrix33::make_identity() * k, $tol);
            }
            /// strongly coloured, faint and very bright whites
            pub fn r_strong_whites() {
                let t: [XYZ<f64>; 9] = [xyz(109.85, 100.0, 35.58), xyz(125.0, 100.0, 8.0), xyz(95.0, 100.0, 190.0), xyz(60.0, 100.0, 30.0), xyz(100.0, 60.0, 160.0),
                    xyz(1e-4, 1e-4, 1e-4), xyz(9e5, 1e6, 1.1e6), xyz(97.285, 100.0, 116.145), xyz(0.9, 1.0, 0.8)];
                let k = Matrix33::new($k);
                for i in 0..9 {
                    for j in 0..9 {
                        let (s, d) = (t[i], t[j]);
                        let m = $f::<f64, _, _>(s, d);
                        let o = m * s;
                        ob::zero("strong white to white (X)", o.x / d.x - 1.0, $tol * 10.0);
                        ob::zero("strong white to white (Y)", o.y / d.y - 1.0, $tol * 10.0);
                        ob::zero("strong white to white (Z)", o.z / d.z - 1.0, $tol * 10.0);
                        let (a, b, l) = (k * s, k * d, k * m);
                        for c in 0..3 { for r in 0..3 { ob::same("cone scaled by the ratio of the whites", l.x[3 * r + c], b[r] / a[r] * k.x[3 * r + c], $tol); } }
                    }
                }
            }
            /// cone responses are scaled independently: K*M = D*K with the published K
            pub fn r_diagonal_in_cone_space() {
                let (s, d) = (w("sx", "sy", "sz"), w("dx", "dy", "dz"));
                let m = $f::<f64, _, _>(s, d);
                let k = Matrix33::new($k);
                let (a, b) = (k * s, k * d);
                let l = k * m;
                for j in 0..3 {
                    ob::same("cone L is scaled by the ratio of the whites", l.x[j], b.x / a.x * k.x[j], $tol);
                    ob::same("cone M is scaled by the ratio of the whites", l.x[3 + j], b.y / a.y * k.x[3 + j], $tol);
                    ob::same("cone S is scaled by the ratio of the whites", l.x[6 + j], b.z / a.z * k.x[6 + j], $tol);
                }
            }
            pub fn r_chromaticity_arguments() {
                let p = XYY::new(ob::any("px", 0.25, 0.4), ob::any("py", 0.25, 0.4), 1.0);
                let q = XYY::new(ob::any("qx", 0.25, 0.4), ob::any("qy", 0.25, 0.4), 1.0);
                let a = $f::<f64, _, _>(p, q);
                let b = $f::<f64, _, _>(XYZ::from(p), XYZ::from(q));
                near("xyY whites behave as their XYZ", a, b, 1e-9);
                let c = $f::<f64, _, _>(p, XYZ::from(q));
                near("xyY whites behave as their XYZ", c, b, 1e-9);
            }
            pub fn r_single_precision() {
                let (s, d) = (w32("sx", "sy", "sz"), w32("dx", "dy", "dz"));
                let m = $f::<f32, _, _>(s, d);
                let n = $f::<f64, _, _>(xyz(s.x as f64, s.y as f64, s.z as f64), xyz(d.x as f64, d.y as f64, d.z as f64));
                for i in 0..9 { ob::same("single precision agrees with double", m.x[i] as f64, n.x[i], $t32); }
                let i = $f::<f32, _, _>(s, s);
                for j in 0..9 { ob::zero32("same white: identity", i.x[j] - if j % 4 == 0 { 1.0 } else { 0.0 }, 0.0); }
            }
        }
    };
}
cat!(m_bradford, bradford, BFD, 1e-9, 1e-5);
cat!(m_von_kries, von_kries, VK, 1e-5, 1e-5);
cat!(m_cat02, cat02, C02, 1e-9, 1e-5);
