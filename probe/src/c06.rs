//! C06: 3x3 matrix algebra.
use crate::ob;
use colorspace::math::*;
use colorspace::rgb::*;
use colorspace::xyz::*;

fn arr(v: &Vec<f64>) -> [f64; 9] { [v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]] }
fn m(n: &'static str) -> Matrix33<f64> { Matrix33::new(arr(&ob::anyv(n, 9, -1e3, 1e3))) }
fn m32(n: &'static str) -> Matrix33<f32> {
    let v = ob::anyv32(n, 9, -1e3, 1e3);
    Matrix33::new([v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]])
}
fn near(l: &'static str, a: Matrix33<f64>, b: [f64; 9], tol: f64) {
    for i in 0..9 { ob::same(l, a.x[i], b[i], tol); }
}
const ID: [f64; 9] = [1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0];
fn spec_mul(a: &[f64; 9], b: &[f64; 9]) -> [f64; 9] {
    let mut o = [0.0; 9];
    for i in 0..3 { for j in 0..3 { o[i * 3 + j] = a[i * 3] * b[j] + a[i * 3 + 1] * b[3 + j] + a[i * 3 + 2] * b[6 + j]; } }
    o
}
fn spec_det(a: &[f64; 9]) -> f64 {
    a[0] * a[4] * a[8] + a[1] * a[5] * a[6] + a[2] * a[3] * a[7] - a[2] * a[4] * a[6] - a[1] * a[3] * a[8] - a[0] * a[5] * a[7]
}
pub fn r_new_and_index() {
    let v = ob::anyv("v", 9, -1e3, 1e3);
    let a = Matrix33::new(arr(&v));
    for i in 0..3 { for j in 0..3 { ob::zero("m[i][j] is row-major", a[i][j] - v[i * 3 + j], 0.0); } }
    let mut b = a;
    let k = ob::any("k", -1e3, 1e3);
    b[1][2] = k;
    for i in 0..9 { ob::zero("writing m[1][2] changes only that entry", b.x[i] - if i == 5 { k } else { v[i] }, 0.0); }
    b[2][0] += k;
    ob::zero("m[2][0] += k", b.x[6] - v[6] - k, 1e-12);
    ob::panics("row 3 is rejected", || { let _ = a[3][0]; });
    ob::panics("column 3 is rejected", || { let _ = a[0][3]; });
}
pub fn r_identity() {
    near("identity", Matrix33::make_identity(), ID, 0.0);
    let a = m("a");
    near("I*A = A", Matrix33::make_identity() * a, a.x, 1e-9);
    near("A*I = A", a * Matrix33::make_identity(), a.x, 1e-9);
}
pub fn r_transpose() {
    let a = m("a");
    let t = a.transposed();
    for i in 0..3 { for j in 0..3 { ob::zero("transpose", t.x[i * 3 + j] - a.x[j * 3 + i], 0.0); } }
    near("(AB)^T = B^T A^T", (a * m("b")).transposed(), (m("b").transposed() * a.transposed()).x, 1e-9);
}
pub fn r_det() {
    let (a, b) = (m("a"), m("b"));
    ob::same("determinant", a.determinant(), spec_det(&a.x), 1e-9);
    ob::same("det(AB) = det A det B", (a * b).determinant(), a.determinant() * b.determinant(), 1e-9);
    ob::same("det(A^T) = det A", a.transposed().determinant(), a.determinant(), 1e-9);
}
pub fn r_mul() {
    let (a, b, c) = (m("a"), m("b"), m("c"));
    near("product", a * b, spec_mul(&a.x, &b.x), 1e-9);
    near("associative", (a * b) * c, (a * (b * c)).x, 1e-9);
}
pub fn r_mul32() {
    let (a, b) = (m32("a"), m32("b"));
    let p = a * b;
    for i in 0..3 { for j in 0..3 {
        ob::same32("product (f32)", p.x[i * 3 + j], a.x[i * 3] * b.x[j] + a.x[i * 3 + 1] * b.x[3 + j] + a.x[i * 3 + 2] * b.x[6 + j], 1e-5);
    } }
}
pub fn r_scalar_ops() {
    let a = m("a");
    let k = ob::any("k", 0.1, 9.0);
    for i in 0..9 {
        ob::same("A + k", (a + k).x[i], a.x[i] + k, 1e-12);
        ob::same("A - k", (a - k).x[i], a.x[i] - k, 1e-12);
        ob::same("A * k", (a * k).x[i], a.x[i] * k, 1e-12);
        ob::same("A / k", (a / k).x[i], a.x[i] / k, 1e-12);
        ob::same("-A", (-a).x[i], -a.x[i], 1e-12);
    }
}
pub fn r_scalar_ops32() {
    let a = m32("a");
    let k = ob::any32("k", 0.1, 9.0);
    for i in 0..9 {
        ob::same32("A + k", (a + k).x[i], a.x[i] + k, 1e-6);
        ob::same32("A - k", (a - k).x[i], a.x[i] - k, 1e-6);
        ob::same32("A * k", (a * k).x[i], a.x[i] * k, 1e-6);
        ob::same32("A / k", (a / k).x[i], a.x[i] / k, 1e-6);
        ob::same32("-A", (-a).x[i], -a.x[i], 1e-6);
    }
}
pub fn r_apply() {
    let a = m("a");
    let v = ob::anyv("v", 3, -1e3, 1e3);
    let p = a * xyz(v[0], v[1], v[2]);
    let q = a * rgbf64(v[0], v[1], v[2]);
    let o = [p.x, p.y, p.z, q.r, q.g, q.b];
    for i in 0..6 {
        let j = (i % 3) * 3;
        ob::same("A*v", o[i], a.x[j] * v[0] + a.x[j + 1] * v[1] + a.x[j + 2] * v[2], 1e-9);
    }
    let b = m("b");
    let c = (a * b) * xyz(v[0], v[1], v[2]);
    let d = a * (b * xyz(v[0], v[1], v[2]));
    ob::same("(AB)v = A(Bv)", c.x, d.x, 1e-9);
    ob::same("(AB)v = A(Bv)", c.y, d.y, 1e-9);
    ob::same("(AB)v = A(Bv)", c.z, d.z, 1e-9);
}
pub fn r_apply32() {
    let a = m32("a");
    let v = ob::anyv32("v", 3, -1e3, 1e3);
    let p = a * xyz(v[0], v[1], v[2]);
    let q = a * rgbf32(v[0], v[1], v[2]);
    let o = [p.x, p.y, p.z, q.r, q.g, q.b];
    for i in 0..6 {
        let j = (i % 3) * 3;
        ob::same32("A*v", o[i], a.x[j] * v[0] + a.x[j + 1] * v[1] + a.x[j + 2] * v[2], 1e-5);
    }
}
pub fn r_narrow() {
    let a = m("a");
    let b: M3f32 = a.into();
    for i in 0..9 { ob::same("conversion to f32 keeps every entry", b.x[i] as f64, a.x[i], 1e-6); }
}
/// both inversions, on a matrix whose entries are given by v (constants or unknowns)
fn inv_laws(a: Matrix33<f64>) {
    if let Some(i) = a.inverse() {
        near("inverse(A)*A = I", i * a, ID, 1e-9);
        near("A*inverse(A) = I", a * i, ID, 1e-9);
    }
}
fn gj_laws(a: Matrix33<f64>) {
    if let Some(i) = a.gj_inverse() {
        near("gj_inverse(A)*A = I", i * a, ID, 1e-9);
        near("A*gj_inverse(A) = I", a * i, ID, 1e-9);
    }
}
pub fn r_inverse_any() { inv_laws(m("a")) }
pub fn r_gj_any() { gj_laws(m("a")) }
pub fn r_inverse_any32() {
    let a = m32("a");
    if let Some(i) = a.inverse() {
        let p = i * a;
        for j in 0..9 { ob::same32("inverse(A)*A = I", p.x[j], ID[j] as f32, 1e-4); }
    }
}
// structured matrices, where special paths are taken: last column (p, q, 1), with each of p, q, off-diagonals zero or not
pub fn r_inverse_affine() {
    let v = ob::anyv("v", 6, 0.3, 5.0);
    ob::assume(v[0] * v[4] - v[1] * v[3] > 0.01);
    inv_laws(Matrix33::new([v[0], v[1], 0.0, v[3], v[4], 0.0, v[2], v[5], 1.0]));
}
pub fn r_inverse_affine_small() {
    let v = ob::anyv("v", 6, -0.3, 0.3);
    ob::assume(v[0] * v[4] - v[1] * v[3] > 0.001 || v[0] * v[4] - v[1] * v[3] < -0.001);
    inv_laws(Matrix33::new([v[0], v[1], 0.0, v[3], v[4], 0.0, v[2], v[5], 1.0]));
}
pub fn r_inverse_diag() {
    let v = ob::anyv("v", 3, -1e3, 1e3);
    inv_laws(Matrix33::new([v[0], 0.0, 0.0, 0.0, v[1], 0.0, 0.0, 0.0, 1.0]));
    inv_laws(Matrix33::new([v[0], 0.0, 0.0, 0.0, v[1], 0.0, 0.0, 0.0, v[2]]));
    gj_laws(Matrix33::new([v[0], 0.0, 0.0, 0.0, v[1], 0.0, 0.0, 0.0, v[2]]));
}
fn col(p: f64, q: f64) {
    let v = ob::anyv("v", 6, -1e3, 1e3);
    let a = Matrix33::new([v[0], v[1], p, v[2], v[3], q, v[4], v[5], 1.0]);
    inv_laws(a);
}
pub fn r_inverse_col_pos_pos() { col(0.5, 0.25) }
pub fn r_inverse_col_neg_pos() { col(-0.5, 0.25) }
pub fn r_inverse_col_pos_neg() { col(0.5, -0.25) }
pub fn r_inverse_col_neg_neg() { col(-0.5, -0.25) }
pub fn r_inverse_col_zero_neg() { col(0.0, -0.25) }
pub fn r_inverse_col_neg_zero() { col(-0.5, 0.0) }
pub fn r_inverse_col_zero_pos() { col(0.0, 0.25) }
pub fn r_inverse_col_pos_zero() { col(0.5, 0.0) }
pub fn r_inverse_corner() {
    let v = ob::anyv("v", 6, -1e3, 1e3);
    inv_laws(Matrix33::new([v[0], v[1], 0.0, v[2], v[3], 0.0, v[4], v[5], 2.0]));
}
pub fn r_inverse_corner_neg() {
    let v = ob::anyv("v", 6, -1e3, 1e3);
    inv_laws(Matrix33::new([v[0], v[1], 0.0, v[2], v[3], 0.0, v[4], v[5], -1.0]));
}
/// all 0/1 matrices: both inversions succeed exactly on the regular ones and are right there
fn zero_one(lo: usize, hi: usize) {
    let mut k = lo;
    while k < hi {
        let mut x = [0.0; 9];
        let mut j = 0;
        while j < 9 { x[j] = if (k >> j) & 1 == 1 { 1.0 } else { 0.0 }; j += 1; }
        let a = Matrix33::new(x);
        let d = spec_det(&x);
        match a.gj_inverse() {
            Some(i) => { ob::holds("gj_inverse of a singular matrix is None", d != 0.0); near("gj_inverse on 0/1 matrices", i * a, ID, 1e-9); }
            None => ob::holds("gj_inverse of a regular matrix exists", d == 0.0),
        }
        match a.inverse() {
            Some(i) => { ob::holds("inverse of a singular matrix is None", d != 0.0); near("inverse on 0/1 matrices", i * a, ID, 1e-9); }
            None => ob::holds("inverse of a regular matrix exists", d == 0.0),
        }
        k += 1;
    }
}
pub fn r_01_a() { zero_one(0, 64) }
pub fn r_01_b() { zero_one(64, 128) }
pub fn r_01_c() { zero_one(128, 192) }
pub fn r_01_d() { zero_one(192, 256) }
pub fn r_01_e() { zero_one(256, 320) }
pub fn r_01_f() { zero_one(320, 384) }
pub fn r_01_g() { zero_one(384, 448) }
pub fn r_01_h() { zero_one(448, 512) }
/// permuted diagonal matrices force every pivot choice
pub fn r_perm() {
    let v = ob::anyv("v", 3, 0.2, 5.0);
    let p = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    for q in 0..6 {
        let mut x = [0.0; 9];
        for i in 0..3 { x[i * 3 + p[q][i]] = v[i]; }
        let a = Matrix33::new(x);
        ob::holds("gj_inverse exists", a.gj_inverse().is_some());
        gj_laws(a);
        inv_laws(a);
    }
}
fn exists(l: &'static str, b: bool) { ob::zero(l, if b { 0.0 } else { 1.0 }, 0.0) }
/// regular matrices of any magnitude: the scale alone never makes one singular
fn scaled(x: [f64; 9], lo: f64, hi: f64) {
    let k = ob::any("k", lo, hi);
    let a = Matrix33::new(x) * k;
    let want = Matrix33::new(x).gj_inverse().unwrap() / k;
    let o = a.gj_inverse();
    exists("gj_inverse of a scaled regular matrix exists", o.is_some());
    if let Some(i) = o { near("gj_inverse(kA)*kA = I", i * a, ID, 1e-9); near("gj_inverse(kA) = gj_inverse(A)/k", i * k, (want * k).x, 1e-9); }
    let o = a.inverse();
    exists("inverse of a scaled regular matrix exists", o.is_some());
    if let Some(i) = o { near("inverse(kA)*kA = I", i * a, ID, 1e-9) }
}
const SCALED: [[f64; 9]; 5] = [
    [1.0, 2.0, 3.0, 0.0, 1.0, 4.0, 5.0, 6.0, 0.0],
    [0.0, 2.0, 1.0, 1.0, 0.0, 3.0, 2.0, 1.0, 0.0],
    [0.4124, 0.3576, 0.1805, 0.2126, 0.7152, 0.0722, 0.0193, 0.1192, 0.9505],
    [0.0, 0.0, 2.0, 0.0, 5.0, 0.0, -3.0, 0.0, 0.0],
    [-1.0, 7.0, 0.5, 4.0, -2.0, 8.0, 0.25, 3.0, 1.0],
];
pub fn r_scaled_small() { for i in 0..5 { scaled(SCALED[i], 1e-15, 1e-9) } }
pub fn r_scaled_unit() { for i in 0..5 { scaled(SCALED[i], 1e-3, 1e3) } }
pub fn r_scaled_large() { for i in 0..5 { scaled(SCALED[i], 1e6, 1e12) } }
fn scaled32(x: [f64; 9], lo: f32, hi: f32) {
    let k = ob::any32("k", lo, hi);
    let b: Matrix33<f32> = Matrix33::new(x).into();
    let a = b * k;
    let o = a.gj_inverse();
    exists("gj_inverse of a scaled regular matrix exists (f32)", o.is_some());
    if let Some(i) = o { let p = i * a; for j in 0..9 { ob::same32("gj_inverse(kA)*kA = I (f32)", p.x[j], ID[j] as f32, 1e-5); } }
    let o = a.inverse();
    exists("inverse of a scaled regular matrix exists (f32)", o.is_some());
    if let Some(i) = o { let p = i * a; for j in 0..9 { ob::same32("inverse(kA)*kA = I (f32)", p.x[j], ID[j] as f32, 1e-5); } }
}
pub fn r_scaled32_small() { for i in 0..5 { scaled32(SCALED[i], 1e-9, 1e-6) } }
pub fn r_scaled32_large() { for i in 0..5 { scaled32(SCALED[i], 1.0, 1e6) } }
/// rows of very different magnitude
pub fn r_rows_of_different_scale() {
    let (p, q) = (ob::any("p", 1e-9, 1e-6), ob::any("q", 1e3, 1e6));
    let x = SCALED[0];
    let a = Matrix33::new([x[0] * p, x[1] * p, x[2] * p, x[3], x[4], x[5], x[6] * q, x[7] * q, x[8] * q]);
    let o = a.gj_inverse();
    exists("gj_inverse of a regular matrix exists", o.is_some());
    if let Some(i) = o { near("gj_inverse(A)*A = I", i * a, ID, 1e-9) }
    let o = a.inverse();
    exists("inverse of a regular matrix exists", o.is_some());
    if let Some(i) = o { near("inverse(A)*A = I", i * a, ID, 1e-9) }
}
pub fn r_gj_any32() {
    let a = m32("a");
    if let Some(i) = a.gj_inverse() {
        let p = i * a;
        for j in 0..9 { ob::same32("gj_inverse(A)*A = I", p.x[j], ID[j] as f32, 1e-4); }
    }
}
pub fn r_transpose_inverse() {
    let a = m("a");
    if let (Some(p), Some(q)) = (a.transposed().gj_inverse(), a.gj_inverse()) { near("inverse of the transpose", p, q.transposed().x, 1e-9); }
}
pub fn r_singular() {
    let v = ob::anyv("v", 3, -1e3, 1e3);
    let z = Matrix33::new([v[0], v[1], v[2], 0.0, 0.0, 0.0, 1.0, 2.0, 4.0]);
    ob::holds("zero row: inverse is None", z.inverse().is_none());
    ob::holds("zero row: gj_inverse is None", z.gj_inverse().is_none());
    let z = Matrix33::new([0.0, v[0], v[1], 0.0, v[2], 3.0, 0.0, 2.0, 4.0]);
    ob::holds("zero column: inverse is None", z.inverse().is_none());
    ob::holds("zero column: gj_inverse is None", z.gj_inverse().is_none());
}
pub fn r_agree() {
    let a = m("a");
    if let (Some(p), Some(q)) = (a.inverse(), a.gj_inverse()) { near("inverse = gj_inverse", p, q.x, 1e-9); }
}
/// scalar helpers
pub fn r_helpers() {
    let (x, a, b) = (ob::any("x", -1e3, 1e3), ob::any("a", -5.0, 0.0), ob::any("b", 0.5, 5.0));
    let c = clamp(x, a, b);
    ob::holds("clamp lies in [a, b]", c >= a && c <= b);
    ob::zero("clamp is the identity inside", if x >= a && x <= b { c - x } else { 0.0 }, 0.0);
    ob::zero("clamp gives a below", if x < a { c - a } else { 0.0 }, 0.0);
    ob::zero("clamp gives b above", if x > b { c - b } else { 0.0 }, 0.0);
    ob::zero("sqr", sqr(x) - x * x, 1e-12);
    ob::zero("abs", abs(x) - x.abs(), 1e-12);
    ob::zero("sqrt", sqrt(b) - b.sqrt(), 1e-12);
    ob::zero("hypot", hypot(x, a) - (x * x + a * a).sqrt(), 1e-9);
    ob::zero("powi", powi(x, 3) - x * x * x, 1e-9);
    ob::zero("pow", pow(b, 2.5) - b.powf(2.5), 1e-12);
    ob::zero("exp", exp(x) - x.exp(), 1e-12);
    ob::zero("sin", sin(x) - x.sin(), 1e-12);
    ob::zero("cos", cos(x) - x.cos(), 1e-12);
    ob::zero("tan", tan(x) - x.tan(), 1e-12);
    ob::zero("atan2", atan2(x, b) - x.atan2(b), 1e-12);
    let u = ob::any("u", -1.0, 1.0);
    ob::zero("asin", asin(u) - u.asin(), 1e-12);
    ob::zero("acos", acos(u) - u.acos(), 1e-12);
    let (p, q, t) = (ob::any32("p", -1e3, 1e3), ob::any32("q", -1e3, 1e3), ob::any32("t", 0.0, 1.0));
    ob::zero32("lerp", lerp(p, q, t) - (p + t * (q - p)), 1e-5);
    ob::zero32("lerp at 0", lerp(p, q, 0.0) - p, 0.0);
    ob::zero32("lerp at 1", lerp(p, q, 1.0) - q, 0.0);
}
