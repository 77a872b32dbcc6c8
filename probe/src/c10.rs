//! C10: float <-> 8/16-bit integer RGB.
use crate::ob;
use colorspace::rgb::*;

macro_rules! quant {
    ($m:ident, $F:ty, $f:ty, $Q:ident, $q:ty, $max:expr, $any:path, $same:path) => {
        pub mod $m {
            use super::*;
            fn c(lo: $f, hi: $f) -> RGBf<$f> { RGBf { r: $any("r", lo, hi), g: $any("g", lo, hi), b: $any("b", lo, hi) } }
            fn i(n: &'static str) -> $q { ob::anyu(n, 0, $max as usize) as $q }
            /// every integer code survives a trip through floating point
            pub fn r_code_roundtrip() {
                let p = $Q { r: i("r"), g: i("g"), b: i("b") };
                let f: RGBf<$f> = p.into();
                let q: $Q = f.into();
                ob::holds("code -> float -> code (r)", q.r == p.r);
                ob::holds("code -> float -> code (g)", q.g == p.g);
                ob::holds("code -> float -> code (b)", q.b == p.b);
            }
            /// a code denotes code/max
            pub fn r_code_meaning() {
                let p = $Q { r: i("r"), g: i("g"), b: i("b") };
                let f: RGBf<$f> = p.into();
                $same("float r = code/max", f.r, p.r as $f / ($max as $f), 1e-9);
                $same("float g = code/max", f.g, p.g as $f / ($max as $f), 1e-9);
                $same("float b = code/max", f.b, p.b as $f / ($max as $f), 1e-9);
                ob::holds("within 0..1", f.r >= 0.0 && f.r <= 1.0 && f.g >= 0.0 && f.g <= 1.0 && f.b >= 0.0 && f.b <= 1.0);
            }
            /// in range: nearest code
            pub fn r_nearest() {
                let f = c(0.0, 1.0);
                let q: $Q = f.into();
                $same("r is the nearest code", q.r as $f, (f.r * ($max as $f)).round(), 1e-9);
                $same("g is the nearest code", q.g as $f, (f.g * ($max as $f)).round(), 1e-9);
                $same("b is the nearest code", q.b as $f, (f.b * ($max as $f)).round(), 1e-9);
            }
            /// out of range: saturates
            pub fn r_below() {
                let q: $Q = c(-1.0e6, 0.0).into();
                ob::holds("r saturates to 0", q.r == 0);
                ob::holds("g saturates to 0", q.g == 0);
                ob::holds("b saturates to 0", q.b == 0);
            }
            pub fn r_above() {
                let q: $Q = c(1.0, 1.0e6).into();
                ob::holds("r saturates to max", q.r == $max);
                ob::holds("g saturates to max", q.g == $max);
                ob::holds("b saturates to max", q.b == $max);
            }
            /// everywhere: the code of the clamped colour
            pub fn r_total() {
                let f = c(-1.0e3, 1.0e3);
                let k = |x: $f| (x.max(0.0).min(1.0) * ($max as $f)).round();
                let q: $Q = f.into();
                $same("r", q.r as $f, k(f.r), 1e-9);
                $same("g", q.g as $f, k(f.g), 1e-9);
                $same("b", q.b as $f, k(f.b), 1e-9);
            }
            pub fn r_points() {
                for x in [-1.0e5, -300.0, -258.5, -2.5, -1.004, -1.0, -0.5, -0.002, 1.002, 1.004, 1.5, 2.0, 2.01, 2.5, 3.0, 17.0, 128.6, 257.01, 300.3, 5000.4, 1.0e7, 9.9e9, 3.0e20, -4.0e20, 2.5e37, -1.0e38, f64::INFINITY, f64::NEG_INFINITY] {
                    let q: $Q = RGBf { r: x as $f, g: x as $f, b: x as $f }.into();
                    let e = if x < 0.0 { 0 } else { $max };
                    ob::holds("saturates", q.r == e && q.g == e && q.b == e);
                }
            }
            pub fn r_ends() {
                let z: $Q = RGBf { r: 0.0 as $f, g: 0.0, b: 0.0 }.into();
                let o: $Q = RGBf { r: 1.0 as $f, g: 1.0, b: 1.0 }.into();
                ob::holds("0 is code 0", z.r == 0 && z.g == 0 && z.b == 0);
                ob::holds("1 is the largest code", o.r == $max && o.g == $max && o.b == $max);
                let h: $Q = RGBf { r: 0.5 as $f, g: 0.25, b: 0.75 }.into();
                ob::holds("rounds half codes away from zero", h.r as u32 == ($max as u32 + 1) / 2);
                ob::holds("rounds to nearest", h.g as u32 == ($max as u32 + 1) / 4 && h.b as u32 == ($max as u32) * 3 / 4);
            }
        }
    };
}
quant!(f32u8, RGBf32, f32, RGBu8, u8, 255u8, ob::any32, ob::same32);
quant!(f64u8, RGBf64, f64, RGBu8, u8, 255u8, ob::any, ob::same);
quant!(f32u16, RGBf32, f32, RGBu16, u16, 65535u16, ob::any32, ob::same32);
quant!(f64u16, RGBf64, f64, RGBu16, u16, 65535u16, ob::any, ob::same);

pub fn r_ctor() {
    let (r, g, b) = (ob::anyu("r", 0, 255) as u8, ob::anyu("g", 0, 255) as u8, ob::anyu("b", 0, 255) as u8);
    let p = rgbu8(r, g, b);
    ob::holds("rgbu8 keeps the channel order", p.r == r && p.g == g && p.b == b);
    let (r, g, b) = (ob::anyu("r", 0, 65535) as u16, ob::anyu("g", 0, 65535) as u16, ob::anyu("b", 0, 65535) as u16);
    let p = rgbu16(r, g, b);
    ob::holds("rgbu16 keeps the channel order", p.r == r && p.g == g && p.b == b);
}
pub fn r_eq() {
    let i = |n| ob::anyu(n, 0, 255) as u8;
    let (p, q) = (rgbu8(i("r"), i("g"), i("b")), rgbu8(i("s"), i("t"), i("u")));
    ob::holds("equality is channel-wise", (p == q) == (p.r == q.r && p.g == q.g && p.b == q.b));
    let i = |n| ob::anyu(n, 0, 65535) as u16;
    let (p, q) = (rgbu16(i("r"), i("g"), i("b")), rgbu16(i("s"), i("t"), i("u")));
    ob::holds("equality is channel-wise", (p == q) == (p.r == q.r && p.g == q.g && p.b == q.b));
}
/// a byte buffer is reinterpreted as pixels, three bytes each, in order
pub fn r_cast() {
    for n in 0..13usize {
        let buf: Vec<u8> = (0..n).map(|k| (k * 7 + 1) as u8).collect();
        if n % 3 == 0 {
            let px = RGBu8::cast_slice(&buf);
            ob::holds("pixel count", px.len() == n / 3);
            for k in 0..n / 3 {
                ob::holds("r", px[k].r == buf[3 * k]);
                ob::holds("g", px[k].g == buf[3 * k + 1]);
                ob::holds("b", px[k].b == buf[3 * k + 2]);
            }
        } else {
            ob::panics("a length that is no multiple of 3 is rejected", || { RGBu8::cast_slice(&buf); });
        }
    }
}
