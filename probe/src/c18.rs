//! C18: memory the unsafe code touches.  Undefined behaviour met on any path is itself an obligation that fails;
//! the bodies drive every unsafe site over the lengths and positions that matter.
use crate::ob;
use colorspace::cmf::*;
use colorspace::illuminant;
use colorspace::interpolation::*;
use colorspace::math::*;
use colorspace::rgb::*;
use colorspace::spd::*;
use colorspace::transform::*;
use colorspace::vspd::*;
use colorspace::xyz::*;

macro_rules! views {
    ($m:ident, $t:ty, $s:ty, $any:path, $z:path, $lo:expr, $hi:expr) => {
        pub mod $m {
            use super::*;
            pub fn r_whole() {
                let n0 = 24;
                let v = $any("v", n0, $lo, $hi);
                for n in 0..=n0 {
                    let buf = &v[..n];
                    if n % 3 == 0 {
                        let c = <$s>::cast_slice(buf);
                        ob::holds("one colour per three values", c.len() == n / 3);
                        for i in 0..c.len() {
                            $z("red is value 3i", c[i].r - buf[3 * i], 0.0);
                            $z("green is value 3i+1", c[i].g - buf[3 * i + 1], 0.0);
                            $z("blue is value 3i+2", c[i].b - buf[3 * i + 2], 0.0);
                        }
                        let mut k = 0;
                        for x in c.iter() { $z("iterating visits every colour", x.b - buf[3 * k + 2], 0.0); k += 1; }
                        ob::holds("and no other", 3 * k == n);
                        if n > 0 { ob::zero("last", (c.last().unwrap().g - buf[n - 2]) as f64, 0.0); }
                    } else {
                        ob::panics("a length that is no multiple of 3 is rejected", || { <$s>::cast_slice(buf); });
                    }
                }
            }
            pub fn r_middle() {
                let v = $any("v", 14, $lo, $hi);
                for o in 0..6 {
                    for n in 0..=8 {
                        let buf = &v[o..o + n];
                        if n % 3 == 0 {
                            let c = <$s>::cast_slice(buf);
                            ob::holds("one colour per three values", c.len() == n / 3);
                            for i in 0..c.len() {
                                $z("a view starts where the slice starts", c[i].r - v[o + 3 * i], 0.0);
                                $z("a view ends where the slice ends", c[i].b - v[o + 3 * i + 2], 0.0);
                            }
                        } else {
                            ob::panics("a length that is no multiple of 3 is rejected", || { <$s>::cast_slice(buf); });
                        }
                    }
                }
            }
        }
    };
}
views!(f64s, f64, RGBf64, ob::anyv, ob::zero, -2.0, 2.0);
views!(f32s, f32, RGBf32, ob::anyv32, ob::zero32, -2.0, 2.0);

pub fn r_bytes() {
    let raw: [u8; 13] = [1, 2, 4, 8, 16, 32, 64, 128, 255, 0, 7, 9, 11];
    for o in 0..4 {
        for n in 0..=9 {
            let buf = &raw[o..o + n];
            if n % 3 == 0 {
                let c = RGBu8::cast_slice(buf);
                ob::holds("one colour per three bytes", c.len() == n / 3);
                for i in 0..c.len() { ob::holds("bytes in order", c[i].r == buf[3 * i] && c[i].g == buf[3 * i + 1] && c[i].b == buf[3 * i + 2]); }
            } else {
                ob::panics("a length that is no multiple of 3 is rejected", || { RGBu8::cast_slice(buf); });
            }
        }
    }
}
fn spd(n: &'static str) -> SPD {
    let v = ob::anyv32(n, SPD_SAMPLES, -1.0, 2.0);
    let mut a = [0.0f32; SPD_SAMPLES];
    for i in 0..SPD_SAMPLES { a[i] = v[i]; }
    SPD::new(a)
}
pub fn r_spd() {
    let (a, b) = (spd("a"), spd("b"));
    let c = &a * &b;
    let k = SPD::constant(ob::any32("k", -1.0, 2.0));
    for i in 0..SPD_SAMPLES {
        ob::zero32("every product sample is written", c.values[i] - a.values[i] * b.values[i], 0.0);
        ob::zero32("every constant sample is written", k.values[i] - k.values[0], 0.0);
    }
    let mut m = a.clone();
    for (i, x) in m.iter_mut().enumerate() { *x = b.values[i]; }
    ob::holds("iter covers exactly the samples", a.iter().count() == SPD_SAMPLES && m.iter_mut().count() == SPD_SAMPLES);
    for i in 0..SPD_SAMPLES { ob::zero32("iter_mut covers exactly the samples", m.values[i] - b.values[i], 0.0); }
    let p = spd_to_xyz_scalar(&a);
    let q = a.to_xyz();
    ob::same32("the conversions read the same samples", p.x, q.x, 1e-3);
    ob::same32("the conversions read the same samples", p.z, q.z, 1e-3);
}
#[cfg(target_feature = "avx")]
pub mod avx {
    use super::*;
    pub fn r_spd() {
        let a = spd("a");
        let (p, q) = (spd_to_xyz_scalar(&a), spd_to_xyz_avx(&a));
        ob::same32("every sample is read once (X)", p.x, q.x, 1e-3);
        ob::same32("every sample is read once (Y)", p.y, q.y, 1e-3);
        ob::same32("every sample is read once (Z)", p.z, q.z, 1e-3);
    }
    pub fn planes<S: simdeez::Simd>(n: usize) {
        let mv = ob::anyv32("m", 9, -3.0, 3.0);
        let m = Matrix33::new([mv[0], mv[1], mv[2], mv[3], mv[4], mv[5], mv[6], mv[7], mv[8]]);
        let x = ob::anyv32("x", n, -500.0, 500.0);
        let y = ob::anyv32("y", n, -500.0, 500.0);
        let z = ob::anyv32("z", n, -500.0, 500.0);
        let (r, g, b) = xyz_slice_to_rgb_avx_planes::<S>(&m, &x, &y, &z);
        ob::holds("one result per input", r.len() == n && g.len() == n && b.len() == n);
        for i in 0..n {
            let c = xyz_to_rgb(&m, xyz(x[i], y[i], z[i]));
            ob::same32("every output is written from its own input (r)", r[i], c.r, 1e-5);
            ob::same32("every output is written from its own input (g)", g[i], c.g, 1e-5);
            ob::same32("every output is written from its own input (b)", b[i], c.b, 1e-5);
        }
    }
    pub fn r_planes_avx2_a() { for n in 0..=12 { planes::<simdeez::avx2::Avx2>(n); } }
    pub fn r_planes_avx2_b() { for n in 13..=20 { planes::<simdeez::avx2::Avx2>(n); } }
    pub fn r_planes_avx2_c() { for n in [23, 24, 25, 31, 32, 33] { planes::<simdeez::avx2::Avx2>(n); } }
    pub fn r_planes_sse2() { for n in [0, 1, 3, 4, 5, 7, 8, 9, 12, 13] { planes::<simdeez::sse2::Sse2>(n); } }
    pub fn r_planes_sse41() { for n in [0, 1, 3, 4, 5, 7, 8, 9, 12, 13] { planes::<simdeez::sse41::Sse41>(n); } }
    pub fn r_planes_scalar() { for n in [0, 1, 2, 3, 5, 8] { planes::<simdeez::scalar::Scalar>(n); } }
    pub fn r_planes_unequal() {
        let m = Matrix33::<f32>::make_identity();
        let v = ob::anyv32("v", 17, -5.0, 5.0);
        for (a, b, c) in [(16, 9, 16), (16, 16, 9), (9, 16, 16), (8, 0, 8), (8, 8, 0), (8, 7, 8), (8, 8, 7), (7, 8, 8), (17, 16, 17), (0, 8, 8)] {
            ob::panics("planes of different lengths are rejected", || { xyz_slice_to_rgb_avx_planes::<simdeez::avx2::Avx2>(&m, &v[..a], &v[..b], &v[..c]); });
        }
    }
}
/// the shape of a list of samples is found without looking past its ends
pub fn r_spectrum_ends() {
    ob::panics("no samples", || { VSPD::new(vec![]); });
    ob::panics("one sample", || { VSPD::new(vec![Sample::new(400.0, 1.0)]); });
    for n in 2..=9 {
        let v = ob::anyv("v", n, 0.0, 1.0);
        let g = ob::anyv("g", n, 1.0, 9.0);
        let mut nm = 400.0;
        let mut s = Vec::new();
        for i in 0..n { s.push(Sample::new(nm, v[i])); nm += g[i]; }
        let p = VSPD::new(s);
        ob::holds("every sample is kept", p.len() == n && p.iter().count() == n);
        ob::same("last sample", p.last().v, v[n - 1], 0.0);
        let e = VSPD::constant(SpdShape::new(400.0, 400.0 + 10.0 * (n as f64 - 1.0), 10.0), 1.0);
        ob::holds("uniform", e.len() == n);
    }
}
/// resampling windows at and beyond both ends of the table
pub fn r_resampling_ends() {
    for n in [6usize, 7, 9] {
        let v = ob::anyv("v", n, 0.0, 1.0);
        let p = VSPD::from_values(SpdShape::new(400.0, 400.0 + 10.0 * (n as f64 - 1.0), 10.0), &v);
        for (a, b) in [(380.0, 500.0), (400.0, 450.0), (395.0, 455.0), (405.0, 445.0), (370.0, 405.0), (441.0, 520.0)] {
            let q = p.align(SpdShape::new(a, b, 5.0));
            ob::holds("something is left", q.len() >= 2);
        }
    }
}
pub fn r_linear_lookup_ends() {
    for n in 2..=5 {
        let v = ob::anyv("v", n, 0.0, 1.0);
        let p = VSPD::from_values(SpdShape::new(400.0, 400.0 + 10.0 * (n as f64 - 1.0), 10.0), &v);
        let x = ob::any("x", 380.0, 480.0);
        let y = InterpolatorLinear::new(&p).evaluate(x);
        let e = ExtrapolatorConstant::new(&p).evaluate(if x < 400.0 { x } else { 500.0 + x });
        ob::zero("a value is found", (y - y) + (e - e), 0.0);
    }
}
/// indices: the components, and nothing else
pub fn r_indices() {
    let mut c = rgbf64(ob::any("r", -1.0, 1.0), ob::any("g", -1.0, 1.0), ob::any("b", -1.0, 1.0));
    let mut x = xyz(c.r, c.g, c.b);
    let mut m = Matrix33::new([c.r, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, c.b]);
    for i in 0..3 { c[i] = c[i] + 1.0; }
    ob::holds("three components", c[0] == c.r && c[1] == c.g && c[2] == c.b);
    for i in [3usize, 4, 5, 8, 9, 100, usize::MAX] {
        ob::panics("colour index out of range", || { let _v = c[i]; });
        ob::panics("colour index out of range (write)", || { let mut d = c; d[i] = 1.0; });
        ob::panics("matrix row out of range", || { let _v = m[i][0]; });
        ob::panics("matrix column out of range", || { let _v = m[2][i]; });
        ob::panics("matrix row out of range (write)", || { let mut k = m; k[i][0] = 1.0; });
        ob::panics("matrix column out of range (write)", || { let mut k = m; k[2][i] = 1.0; });
    }
}
