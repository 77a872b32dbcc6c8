//! C11: arithmetic, indexing, sums and helpers of the RGB and XYZ colour types are component-wise.
use crate::ob;
use colorspace::rgb::*;
use colorspace::xyz::*;
use num_traits::{Bounded, One, Zero};

macro_rules! ops {
    ($m:ident, $C:ident, $f:ty, $x:ident, $y:ident, $z:ident, $any:path, $zero:path, $same:path, $tol:expr) => {
        pub mod $m {
            use super::*;
            fn c() -> $C<$f> { $C { $x: $any("a.0", -1e6, 1e6), $y: $any("a.1", -1e6, 1e6), $z: $any("a.2", -1e6, 1e6) } }
            fn d() -> $C<$f> { $C { $x: $any("b.0", -1e3, 1e3), $y: $any("b.1", -1e3, 1e3), $z: $any("b.2", -1e3, 1e3) } }
            fn is(l: &'static str, v: $C<$f>, x: $f, y: $f, z: $f) {
                $same(l, v.$x, x, $tol);
                $same(l, v.$y, y, $tol);
                $same(l, v.$z, z, $tol);
            }
            pub fn r_binary() {
                let (a, b) = (c(), d());
                is("a+b", a + b, a.$x + b.$x, a.$y + b.$y, a.$z + b.$z);
                is("a-b", a - b, a.$x - b.$x, a.$y - b.$y, a.$z - b.$z);
                is("a*b", a * b, a.$x * b.$x, a.$y * b.$y, a.$z * b.$z);
                is("a/b", a / b, a.$x / b.$x, a.$y / b.$y, a.$z / b.$z);
                is("-a", -a, -a.$x, -a.$y, -a.$z);
                let mut e = a;
                e += b;
                is("a+=b", e, a.$x + b.$x, a.$y + b.$y, a.$z + b.$z);
            }
            pub fn r_scalar() {
                let (a, s) = (c(), $any("s", -5e3, 5e3));
                is("a+s", a + s, a.$x + s, a.$y + s, a.$z + s);
                is("a-s", a - s, a.$x - s, a.$y - s, a.$z - s);
                is("a*s", a * s, a.$x * s, a.$y * s, a.$z * s);
                is("a/s", a / s, a.$x / s, a.$y / s, a.$z / s);
                is("from_scalar", $C::<$f>::from_scalar(s), s, s, s);
                is("abs", a.abs(), a.$x.abs(), a.$y.abs(), a.$z.abs());
                is("new", $C::<$f>::new(a.$x, a.$y, a.$z), a.$x, a.$y, a.$z);
            }
            pub fn r_index() {
                let mut a = c();
                let b = a;
                $zero("[0]", a[0] - b.$x, 0.0);
                $zero("[1]", a[1] - b.$y, 0.0);
                $zero("[2]", a[2] - b.$z, 0.0);
                let s = $any("s", -5e3, 5e3);
                a[0] = s;
                is("[0] = s", a, s, b.$y, b.$z);
                a = b;
                a[1] = s;
                is("[1] = s", a, b.$x, s, b.$z);
                a = b;
                a[2] = s;
                is("[2] = s", a, b.$x, b.$y, s);
            }
            pub fn r_index_bad() {
                let i = ob::anyu("i", 3, 1_000_000);
                ob::panics("reading component i >= 3 is rejected", || { let a = c(); let _v = a[i]; });
                ob::panics("writing component i >= 3 is rejected", || { let mut a = c(); a[i] = 1.0; });
            }
            pub fn r_identities() {
                let a = c();
                let (z, o) = ($C::<$f>::zero(), $C::<$f>::one());
                is("zero()", z, 0.0, 0.0, 0.0);
                is("one()", o, 1.0, 1.0, 1.0);
                is("a+0", a + z, a.$x, a.$y, a.$z);
                is("a*1", a * o, a.$x, a.$y, a.$z);
                ob::holds("is_zero", a.is_zero() == (a.$x == 0.0 && a.$y == 0.0 && a.$z == 0.0));
                is("default", $C::<$f>::default(), 0.0, 0.0, 0.0);
            }
            pub fn r_bounded() {
                let (lo, hi) = (<$C<$f> as Bounded>::min_value(), <$C<$f> as Bounded>::max_value());
                ob::holds("min_value", lo.$x == <$f>::MIN && lo.$y == <$f>::MIN && lo.$z == <$f>::MIN);
                ob::holds("max_value", hi.$x == <$f>::MAX && hi.$y == <$f>::MAX && hi.$z == <$f>::MAX);
            }
            pub fn r_eq() {
                let (a, b) = (c(), d());
                ob::holds("== is component-wise", (a == b) == (a.$x == b.$x && a.$y == b.$y && a.$z == b.$z));
                ob::holds("== is reflexive", a == a);
            }
        }
    };
}
ops!(xyz64, XYZ, f64, x, y, z, ob::any, ob::zero, ob::same, 1e-9);
ops!(xyz32, XYZ, f32, x, y, z, ob::any32, ob::zero32, ob::same32, 1e-5);
ops!(rgb64, RGBf, f64, r, g, b, ob::any, ob::zero, ob::same, 1e-9);
ops!(rgb32, RGBf, f32, r, g, b, ob::any32, ob::zero32, ob::same32, 1e-5);

fn c64() -> RGBf<f64> { rgbf(ob::any("r", -1e5, 1e5), ob::any("g", -1e5, 1e5), ob::any("b", -1e5, 1e5)) }
fn c32() -> RGBf<f32> { rgbf(ob::any32("r", -1e5, 1e5), ob::any32("g", -1e5, 1e5), ob::any32("b", -1e5, 1e5)) }
fn p32() -> RGBf<f32> { rgbf(ob::any32("r", 0.1, 10.0), ob::any32("g", 0.1, 10.0), ob::any32("b", 0.1, 10.0)) }
fn p64() -> RGBf<f64> { rgbf(ob::any("r", 0.1, 10.0), ob::any("g", 0.1, 10.0), ob::any("b", 0.1, 10.0)) }
fn is32(l: &'static str, v: RGBf<f32>, r: f32, g: f32, b: f32) {
    ob::same32(l, v.r, r, 1e-5);
    ob::same32(l, v.g, g, 1e-5);
    ob::same32(l, v.b, b, 1e-5);
}
fn is64(l: &'static str, v: RGBf<f64>, r: f64, g: f64, b: f64) {
    ob::same(l, v.r, r, 1e-9);
    ob::same(l, v.g, g, 1e-9);
    ob::same(l, v.b, b, 1e-9);
}
pub fn r_rgb_lhs_scalar() {
    let (a, s) = (p32(), ob::any32("s", -5e3, 5e3));
    is32("s*a", s * a, s * a.r, s * a.g, s * a.b);
    is32("s+a", s + a, s + a.r, s + a.g, s + a.b);
    is32("s-a", s - a, s - a.r, s - a.g, s - a.b);
    is32("s/a", s / a, s / a.r, s / a.g, s / a.b);
}
pub fn r_rgb_ctor() {
    let a = c64();
    is64("rgbf64", rgbf64(a.r, a.g, a.b), a.r, a.g, a.b);
    let a = c32();
    is32("rgbf32", rgbf32(a.r, a.g, a.b), a.r, a.g, a.b);
    let q = rgbaf32(a.r, a.g, a.b, 0.25);
    is32("rgbaf32", rgbf(q.r, q.g, q.b), a.r, a.g, a.b);
    ob::zero32("rgbaf32 alpha", q.a - 0.25, 0.0);
}
pub fn r_rgb_powf() {
    let (a, e) = (p64(), ob::any("e", 0.1, 4.0));
    is64("powf", a.powf(e), a.r.powf(e), a.g.powf(e), a.b.powf(e));
    let (a, e) = (p32(), ob::any32("e", 0.1, 4.0));
    is32("powf", a.powf(e), a.r.powf(e), a.g.powf(e), a.b.powf(e));
}
pub fn r_rgb_hmax() {
    let a = c64();
    let m = hmax(a);
    ob::same("hmax is the largest component", m, a.r.max(a.g).max(a.b), 1e-12);
    ob::holds("hmax is one of the components", m == a.r || m == a.g || m == a.b);
    let a = c32();
    let m = hmax(a);
    ob::same32("hmax is the largest component", m, a.r.max(a.g).max(a.b), 1e-6);
    ob::holds("hmax is one of the components", m == a.r || m == a.g || m == a.b);
}
pub fn r_rgb_normalize() {
    let a = p64();
    let n = normalize(a);
    let m = a.r.max(a.g).max(a.b);
    is64("normalize divides by the largest component", n, a.r / m, a.g / m, a.b / m);
    let a = p32();
    let n = normalize(a);
    let m = a.r.max(a.g).max(a.b);
    is32("normalize divides by the largest component", n, a.r / m, a.g / m, a.b / m);
}
pub fn r_rgb_clamp() {
    let (a, lo, w) = (c64(), ob::any("lo", -1e3, 1e3), ob::any("w", 0.0, 1e3));
    let n = clamprgb(a, lo, lo + w);
    is64("clamprgb", n, a.r.max(lo).min(lo + w), a.g.max(lo).min(lo + w), a.b.max(lo).min(lo + w));
    let a = c32();
    let n = clamprgb(a, 0.0, 1.0);
    is32("clamprgb", n, a.r.max(0.0).min(1.0), a.g.max(0.0).min(1.0), a.b.max(0.0).min(1.0));
}
pub fn r_narrow() {
    let a = c64();
    let n = RGBf32::from(a);
    is32("RGBf64 -> RGBf32", n, a.r as f32, a.g as f32, a.b as f32);
    let n = XYZf32::from(xyz(a.r, a.g, a.b));
    is32("XYZf64 -> XYZf32", rgbf(n.x, n.y, n.z), a.r as f32, a.g as f32, a.b as f32);
    let q = xyz(a.r, a.g, a.b);
    ob::zero("xyz() x", q.x - a.r, 0.0);
    ob::zero("xyz() y", q.y - a.g, 0.0);
    ob::zero("xyz() z", q.z - a.b, 0.0);
}
pub fn r_sum() {
    for n in 0..6usize {
        let v = ob::anyv("v", 3 * n, -1e5, 1e5);
        let w = ob::anyv32("w", 3 * n, -1e5, 1e5);
        let s: RGBf64 = (0..n).map(|k| rgbf64(v[3 * k], v[3 * k + 1], v[3 * k + 2])).sum();
        let t: RGBf32 = (0..n).map(|k| rgbf32(w[3 * k], w[3 * k + 1], w[3 * k + 2])).sum();
        let u: XYZf32 = (0..n).map(|k| xyz(w[3 * k], w[3 * k + 1], w[3 * k + 2])).sum();
        let (mut e, mut f) = ([0.0f64; 3], [0.0f32; 3]);
        for k in 0..n { for j in 0..3 { e[j] += v[3 * k + j]; f[j] += w[3 * k + j]; } }
        is64("sum of RGBf64", s, e[0], e[1], e[2]);
        is32("sum of RGBf32", t, f[0], f[1], f[2]);
        is32("sum of XYZf32", rgbf(u.x, u.y, u.z), f[0], f[1], f[2]);
    }
}
/// a flat buffer is reinterpreted as colours, three components each, in order
pub fn r_cast() {
    for n in 0..13usize {
        let v = ob::anyv("v", n, -1e5, 1e5);
        let w = ob::anyv32("w", n, -1e5, 1e5);
        if n % 3 == 0 {
            let (p, q) = (RGBf64::cast_slice(&v), RGBf32::cast_slice(&w));
            ob::holds("colour count", p.len() == n / 3 && q.len() == n / 3);
            for k in 0..n / 3 {
                is64("components in order", p[k], v[3 * k], v[3 * k + 1], v[3 * k + 2]);
                is32("components in order", q[k], w[3 * k], w[3 * k + 1], w[3 * k + 2]);
            }
        } else {
            ob::panics("a length that is no multiple of 3 is rejected", || { RGBf64::cast_slice(&v); });
            ob::panics("a length that is no multiple of 3 is rejected", || { RGBf32::cast_slice(&w); });
        }
    }
}
/// approximate equality is the conjunction over the components of the scalar comparison with the same margin
pub fn r_approx() {
    use float_cmp::{ApproxEq, F32Margin, F64Margin};
    let (a, b) = (c64(), rgbf64(ob::any("s", -1e5, 1e5), ob::any("t", -1e5, 1e5), ob::any("u", -1e5, 1e5)));
    let m = F64Margin { epsilon: 0.5, ulps: 4 };
    let want = a.r.approx_eq(b.r, m) && a.g.approx_eq(b.g, m) && a.b.approx_eq(b.b, m);
    ob::holds("RGBf64", a.approx_eq(b, m) == want);
    ob::holds("XYZf64", xyz(a.r, a.g, a.b).approx_eq(xyz(b.r, b.g, b.b), m) == want);
    let (a, b) = (c32(), rgbf32(ob::any32("s", -1e5, 1e5), ob::any32("t", -1e5, 1e5), ob::any32("u", -1e5, 1e5)));
    let m = F32Margin { epsilon: 0.5, ulps: 4 };
    let want = a.r.approx_eq(b.r, m) && a.g.approx_eq(b.g, m) && a.b.approx_eq(b.b, m);
    ob::holds("RGBf32", a.approx_eq(b, m) == want);
    ob::holds("XYZf32", xyz(a.r, a.g, a.b).approx_eq(xyz(b.r, b.g, b.b), m) == want);
}
/// a component that is not a number equals nothing, is close to nothing and has no order
pub fn r_nan() {
    use float_cmp::{ApproxEq, F32Margin, F64Margin};
    use std::cmp::Ordering;
    let m = F64Margin { epsilon: 0.5, ulps: 4 };
    let n = F32Margin { epsilon: 0.5, ulps: 4 };
    for k in 0..3 {
        let (mut a, mut b) = (rgbf64(0.25, 0.5, 0.75), xyz(0.25f64, 0.5, 0.75));
        let (mut c, mut d) = (rgbf32(0.25, 0.5, 0.75), xyz(0.25f32, 0.5, 0.75));
        let (p, q, r, s) = (a, b, c, d);
        if k == 0 { a.r = f64::NAN; b.x = f64::NAN; c.r = f32::NAN; d.x = f32::NAN }
        if k == 1 { a.g = f64::NAN; b.y = f64::NAN; c.g = f32::NAN; d.y = f32::NAN }
        if k == 2 { a.b = f64::NAN; b.z = f64::NAN; c.b = f32::NAN; d.z = f32::NAN }
        ob::holds("RGBf64 equal", a != a && a != p && p != a);
        ob::holds("XYZf64 equal", b != b && b != q && q != b);
        ob::holds("RGBf32 equal", c != c && c != r && r != c);
        ob::holds("XYZf32 equal", d != d && d != s && s != d);
        ob::holds("RGBf64 close", !a.approx_eq(p, m) && !p.approx_eq(a, m));
        ob::holds("XYZf64 close", !b.approx_eq(q, m) && !q.approx_eq(b, m));
        ob::holds("RGBf32 close", !c.approx_eq(r, n) && !r.approx_eq(c, n));
        ob::holds("XYZf32 close", !d.approx_eq(s, n) && !s.approx_eq(d, n));
        ob::holds("RGBf64 ordered", a.partial_cmp(&p) != Some(Ordering::Equal));
        ob::holds("RGBf32 ordered", c.partial_cmp(&r) != Some(Ordering::Equal));
    }
}
