//! C12: the fixed-shape SPD and its conversion to XYZ.
use crate::ob;
use colorspace::spd::*;
use colorspace::xyz::*;

fn any(n: &'static str, lo: f32, hi: f32) -> SPD {
    let v = ob::anyv32(n, SPD_SAMPLES, lo, hi);
    let mut a = [0.0f32; SPD_SAMPLES];
    for i in 0..SPD_SAMPLES { a[i] = v[i]; }
    SPD::new(a)
}
fn is(l: &'static str, v: XYZf32, x: f32, y: f32, z: f32) {
    ob::same32(l, v.x, x, 2e-4);
    ob::same32(l, v.y, y, 2e-4);
    ob::same32(l, v.z, z, 2e-4);
}
/// weighted sum over all forty samples
fn want(s: &SPD) -> (f32, f32, f32) {
    let (mut x, mut y, mut z) = (0.0f32, 0.0f32, 0.0f32);
    for i in 0..SPD_SAMPLES {
        x += s.values[i] * W_X.values[i];
        y += s.values[i] * W_Y.values[i];
        z += s.values[i] * W_Z.values[i];
    }
    (x, y, z)
}
pub fn r_shape() {
    ob::holds("40 samples", SPD_SAMPLES == 40);
    ob::holds("380-770 nm, 10 nm apart", SPD_START == 380.0 && SPD_END == 770.0 && SPD_INTERVAL == 10.0);
}
pub fn r_scalar() {
    let s = any("s", -1e3, 1e3);
    let (x, y, z) = want(&s);
    is("scalar conversion is the weighted sum", spd_to_xyz_scalar(&s), x, y, z);
}
pub fn r_to_xyz() {
    let s = any("s", -1e3, 1e3);
    let (x, y, z) = want(&s);
    is("to_xyz() is the weighted sum", s.to_xyz(), x, y, z);
    is("spd_to_xyz() is the weighted sum", spd_to_xyz(&s), x, y, z);
}
#[cfg(target_feature = "avx")]
pub fn r_avx() {
    let s = any("s", -1e3, 1e3);
    let c = spd_to_xyz_scalar(&s);
    is("AVX conversion equals the scalar one", spd_to_xyz_avx(&s), c.x, c.y, c.z);
}
pub fn r_linear() {
    let (a, k) = (any("a", -1e3, 1e3), ob::any32("k", -1e3, 1e3));
    let b = any("b", -1e3, 1e3);
    let mut c = SPD::constant(0.0);
    for i in 0..SPD_SAMPLES { c.values[i] = k * a.values[i] + b.values[i]; }
    let (p, q) = (a.to_xyz(), b.to_xyz());
    is("XYZ(k a + b) = k XYZ(a) + XYZ(b)", c.to_xyz(), k * p.x + q.x, k * p.y + q.y, k * p.z + q.z);
}
pub fn r_zero() {
    let v = SPD::constant(0.0).to_xyz();
    ob::zero32("black X", v.x, 0.0);
    ob::zero32("black Y", v.y, 0.0);
    ob::zero32("black Z", v.z, 0.0);
}
/// the perfect diffuser is the D65 white
pub fn r_white() {
    let v = SPD::constant(1.0).to_xyz();
    ob::same32("white X", v.x, 95.0427, 3e-4);
    ob::same32("white Y", v.y, 100.0, 1e-5);
    ob::same32("white Z", v.z, 108.8801, 3e-4);
}
pub fn r_constant() {
    let v = ob::any32("v", -1e5, 1e5);
    let s = SPD::constant(v);
    for i in 0..SPD_SAMPLES { ob::zero32("constant() sets every sample", s.values[i] - v, 0.0); }
}
pub fn r_new() {
    let s = any("s", -1e5, 1e5);
    let v = ob::anyv32("s", SPD_SAMPLES, -1e5, 1e5);
    for i in 0..SPD_SAMPLES { ob::zero32("new() keeps every sample", s.values[i] - v[i], 0.0); }
    let mut n = 0;
    for (i, x) in s.iter().enumerate() { ob::zero32("iter() yields the samples in order", *x - v[i], 0.0); n += 1; }
    ob::holds("iter() yields every sample", n == SPD_SAMPLES);
}
pub fn r_iter_mut() {
    let mut s = any("s", -1e5, 1e5);
    let v = ob::anyv32("s", SPD_SAMPLES, -1e5, 1e5);
    let mut n = 0;
    for x in s.iter_mut() { *x = *x * 2.0; n += 1; }
    ob::holds("iter_mut() yields every sample", n == SPD_SAMPLES);
    for i in 0..SPD_SAMPLES { ob::zero32("iter_mut() reaches every sample", s.values[i] - 2.0 * v[i], 0.0); }
}
pub fn r_mul() {
    let (a, b) = (any("a", -1e5, 1e5), any("b", -1e5, 1e5));
    let c = &a * &b;
    for i in 0..SPD_SAMPLES { ob::zero32("product is sample-wise", c.values[i] - a.values[i] * b.values[i], 1e-5); }
}
/// equality looks at every sample
pub fn r_eq() {
    let a = any("a", 0.0, 1.0);
    ob::holds("reflexive", a == a.clone());
    for i in 0..SPD_SAMPLES {
        let mut b = a.clone();
        b.values[i] = a.values[i] + ob::any32("d", 0.5, 1.0);
        ob::holds("differs in one sample", a != b && b != a);
    }
    // infinities of different sign differ, and differ from finite values
    for i in [0, 7, 39] {
        let (mut b, mut c) = (a.clone(), a.clone());
        b.values[i] = f32::INFINITY;
        c.values[i] = f32::NEG_INFINITY;
        ob::holds("an infinite sample differs", b != c && c != b && a != b && c != a);
        ob::holds("an infinite sample equals itself", b == b.clone() && c == c.clone());
    }
    // a sample that is not a number equals nothing
    for i in [0, 7, 39] {
        let mut b = a.clone();
        b.values[i] = f32::NAN;
        ob::holds("an undefined sample differs", a != b && b != a && b != b.clone());
    }
    // however small the difference
    let a = any("a", 0.0, 1e-3);
    for i in 0..SPD_SAMPLES {
        for (lo, hi) in [(1e-8, 1e-3), (-1e-3, -1e-8)] {
            let mut b = a.clone();
            b.values[i] = a.values[i] + ob::any32("d", lo, hi);
            ob::holds("differs a little in one sample", a != b && b != a);
        }
    }
}
