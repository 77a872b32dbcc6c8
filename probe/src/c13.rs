//! C13: construction, shape and element-wise operations of spectra.
use crate::ob;
use colorspace::vspd::*;
use colorspace::{vspd, SpdShape, VSPD};

fn uni(i: Interval<f64>) -> f64 {
    match i { Interval::Uniform(v) => v, Interval::Varying => -1.0 }
}
/// n samples at start + k*step with arbitrary values
fn grid(n: usize, start: f64, step: f64) -> Vec<Sample> {
    let v = ob::anyv("v", n, -1e5, 1e5);
    (0..n).map(|k| Sample::new(start + k as f64 * step, v[k])).collect()
}
fn grid_u(n: usize, start: f64, step: f64, name: &'static str) -> VSPD {
    let v = ob::anyv(name, n, -1e5, 1e5);
    VSPD::new((0..n).map(|k| Sample::new(start + k as f64 * step, v[k])).collect())
}
fn steps() -> (f64, f64) { (ob::any("start", 0.0, 9000.0), ob::any("step", 0.25, 500.0)) }

/// equally spaced samples are recognised as such whatever the start, step and values
pub fn r_new_uniform() {
    for n in [2usize, 3, 4, 5, 6, 9, 12] {
        let (s, h) = steps();
        let g = grid(n, s, h);
        let p = VSPD::new(g.clone());
        ob::same("start", p.start(), s, 1e-9);
        ob::same("end", p.end(), s + (n - 1) as f64 * h, 1e-9);
        ob::same("interval", uni(p.interval()), h, 1e-9);
        let sh = p.shape();
        ob::same("shape().start", sh.start, s, 1e-9);
        ob::same("shape().end", sh.end, s + (n - 1) as f64 * h, 1e-9);
        ob::same("shape().interval", uni(sh.interval), h, 1e-9);
        ob::holds("len", p.len() == n);
        ob::holds("not empty", !p.is_empty());
        keeps(&p, &g);
    }
}
fn keeps(p: &VSPD, g: &[Sample]) {
    let n = g.len();
    ob::holds("samples().len", p.samples().len() == n);
    for k in 0..n {
        ob::zero("keeps wavelength", p.samples()[k].nm - g[k].nm, 0.0);
        ob::zero("keeps value", p.samples()[k].v - g[k].v, 0.0);
    }
    ob::zero("first().nm", p.first().nm - g[0].nm, 0.0);
    ob::zero("first().v", p.first().v - g[0].v, 0.0);
    ob::zero("last().nm", p.last().nm - g[n - 1].nm, 0.0);
    ob::zero("last().v", p.last().v - g[n - 1].v, 0.0);
    let mut c = 0;
    for (k, s) in p.iter().enumerate() { ob::zero("iter()", s.nm - g[k].nm + (s.v - g[k].v), 0.0); c += 1; }
    ob::holds("iter() yields all", c == n);
    c = 0;
    for (k, v) in p.values().enumerate() { ob::zero("values()", v - g[k].v, 0.0); c += 1; }
    ob::holds("values() yields all", c == n);
    c = 0;
    for (k, v) in p.wavelengths().enumerate() { ob::zero("wavelengths()", v - g[k].nm, 0.0); c += 1; }
    ob::holds("wavelengths() yields all", c == n);
    let r: Vec<f64> = p.values().rev().collect();
    for k in 0..n { ob::zero("values() reversed", r[k] - g[n - 1 - k].v, 0.0); }
    let r: Vec<f64> = p.wavelengths().rev().collect();
    for k in 0..n { ob::zero("wavelengths() reversed", r[k] - g[n - 1 - k].nm, 0.0); }
    let r: Vec<Sample> = p.iter().rev().copied().collect();
    for k in 0..n { ob::zero("iter() reversed", r[k].v - g[n - 1 - k].v, 0.0); }
}
/// one gap that differs, wherever it is, makes the interval varying
pub fn r_new_varying() {
    for n in [3usize, 4, 5, 7] {
        for j in 1..n {
            let d = ob::any("d", 0.125, 1.0);
            let v = ob::anyv("v", n, -1e5, 1e5);
            let g: Vec<Sample> = (0..n).map(|k| Sample::new(400.0 + 10.0 * k as f64 + if k >= j { d } else { 0.0 }, v[k])).collect();
            let p = VSPD::new(g.clone());
            ob::holds("varying", p.interval() == Interval::Varying);
            ob::zero("start", p.start() - g[0].nm, 0.0);
            ob::zero("end", p.end() - g[n - 1].nm, 0.0);
            ob::holds("len", p.len() == n);
        }
    }
}
pub fn r_new_varying_keeps() {
    let d = ob::any("d", 0.125, 1.0);
    let v = ob::anyv("v", 4, -1e5, 1e5);
    let g: Vec<Sample> = vec![Sample::new(400.0, v[0]), Sample::new(410.0, v[1]), Sample::new(420.0 + d, v[2]), Sample::new(450.0, v[3])];
    keeps(&VSPD::new(g.clone()), &g);
}
/// the same for differences down to a millionth of a nanometre, and for long spectra
pub fn r_new_varying_little() {
    for n in [3usize, 4, 6, 8] {
        for j in 1..n {
            for lo in [1e-6, -1.0] {
                let d = ob::any("d", lo, if lo > 0.0 { 0.2 } else { -1e-6 });
                let g: Vec<Sample> = (0..n).map(|k| Sample::new(400.0 + 10.0 * k as f64 + if k >= j { d } else { 0.0 }, 1.0)).collect();
                ob::holds("varying", VSPD::new(g).interval() == Interval::Varying);
            }
        }
    }
}
pub fn r_new_varying_long() {
    for n in [33usize, 64, 101, 130, 257, 421, 1025] {
        for q in 0..7 {
            let j = [1, 2, n / 3, n / 2, n - 3, n - 2, n - 1][q];
            let g: Vec<Sample> = (0..n).map(|k| Sample::new(300.0 + k as f64 + if k == j { 0.5 } else { 0.0 }, 1.0)).collect();
            ob::holds("varying", VSPD::new(g).interval() == Interval::Varying);
            let g: Vec<Sample> = (0..n).map(|k| Sample::new(300.0 + k as f64 + if k >= j { 0.5 } else { 0.0 }, 1.0)).collect();
            ob::holds("varying", VSPD::new(g).interval() == Interval::Varying);
        }
    }
}
pub fn r_new_uniform_long() {
    for n in [100usize, 401, 1030] {
        let (s, h) = steps();
        let g = grid(n, s, h);
        let p = VSPD::new(g.clone());
        ob::same("interval", uni(p.interval()), h, 1e-9);
        ob::same("end", p.end(), s + (n - 1) as f64 * h, 1e-9);
        keeps(&p, &g);
    }
}
pub fn r_shapes_long() {
    for (start, step, n) in [(300.0, 0.1, 5301), (360.0, 0.5, 1025), (380.0, 1.0, 4097), (100.0, 2.5, 1300)] {
        let sh = SpdShape::new(start, start + step * (n - 1) as f64, step);
        let p = VSPD::constant(sh, 3.0);
        ob::holds("constant(): length", p.len() == n);
        for k in 0..p.len() {
            ob::zero("constant(): wavelength", p.samples()[k].nm - (start + step * k as f64), 1e-6);
            ob::zero("constant(): value", p.samples()[k].v - 3.0, 0.0);
        }
        let v: Vec<f64> = (0..n).map(|k| k as f64 * 3.0 + 1.0).collect();
        let p = VSPD::from_values(sh, &v);
        ob::holds("from_values(): length", p.len() == n);
        for k in 0..p.len() { ob::zero("from_values(): value", p.samples()[k].v - v[k], 0.0); }
    }
}
/// round-off in the wavelengths does not make the interval varying
pub fn r_new_roundoff() {
    let g: Vec<Sample> = (0..40).map(|k| Sample::new(380.0 + 0.1 * k as f64, 1.0)).collect();
    ob::holds("uniform in spite of round-off", VSPD::new(g).interval() != Interval::Varying);
    let mut x = 380.0;
    let mut g = vec![];
    for _ in 0..40 { g.push(Sample::new(x, 1.0)); x += 0.1; }
    ob::holds("uniform in spite of accumulated round-off", VSPD::new(g).interval() != Interval::Varying);
}
pub fn r_too_few() {
    ob::panics("new(): no samples", || { VSPD::new(vec![]); });
    ob::panics("new(): one sample", || { VSPD::new(vec![Sample::new(400.0, ob::any("v", 0.0, 1.0))]); });
    ob::panics("constant(): one sample", || { VSPD::constant(SpdShape::new(400.0, 405.0, 10.0), 1.0); });
    ob::panics("from_values(): no values", || { VSPD::from_values(SpdShape::new(400.0, 410.0, 10.0), &[]); });
    ob::panics("from_values(): one value", || { VSPD::from_values(SpdShape::new(400.0, 400.0, 10.0), &[1.0]); });
    ob::panics("collect(): no samples", || { let v: Vec<Sample> = vec![]; let _p: VSPD = v.into_iter().collect(); });
    ob::returns("new(): two samples", || { VSPD::new(vec![Sample::new(400.0, 1.0), Sample::new(401.0, 1.0)]); });
    ob::returns("constant(): two samples", || { VSPD::constant(SpdShape::new(400.0, 410.0, 10.0), 1.0); });
    ob::returns("from_values(): two values", || { VSPD::from_values(SpdShape::new(400.0, 410.0, 10.0), &[1.0, 2.0]); });
}
/// every shape whose range is a whole number of steps yields all its wavelengths, both ends included
fn shape_iter(start: f64, step: f64, n: usize) {
    let sh = SpdShape::new(start, start + step * (n - 1) as f64, step);
    let w: Vec<f64> = sh.iter().collect();
    ob::holds("number of wavelengths", w.len() == n);
    for k in 0..w.len() { ob::same("k-th wavelength", w[k], start + step * k as f64, 1e-9); }
    let v = ob::any("c", -1e4, 1e4);
    if n >= 2 {
        let p = VSPD::constant(sh, v);
        ob::holds("constant(): length", p.len() == n);
        for k in 0..p.len() {
            ob::zero("constant(): value", p.samples()[k].v - v, 0.0);
            ob::same("constant(): wavelength", p.samples()[k].nm, start + step * k as f64, 1e-9);
        }
        ob::holds("constant(): shape", p.shape() == sh);
    }
}
pub fn r_shape_iter() {
    for step in [0.1, 0.2, 0.3, 0.4, 0.5, 0.7, 1.0, 1.1, 2.0, 2.5, 3.3, 5.0, 9.9, 10.0, 20.0, 33.3] {
        for start in [300.0, 360.0, 380.0, 400.1, 380.7] {
            for n in [1usize, 2, 3, 8, 11, 32] { shape_iter(start, step, n); }
        }
    }
}
/// the axis need not be a visible wavelength: differences, energies or wavenumbers start at zero or below
pub fn r_shape_iter_any_axis() {
    for step in [0.5, 5.0] { for start in [-25.0, -2.0, 0.0] { for n in [2usize, 11] { shape_iter(start, step, n); } } }
    shape_iter(10000.0, 250.0, 61);
}
/// a range that is no whole number of steps stops at the last wavelength inside it
pub fn r_shape_iter_partial() {
    for part in [0.1, 0.25, 0.5, 0.75, 0.9] {
        for n in [1usize, 2, 5] {
            let sh = SpdShape::new(400.0, 400.0 + 10.0 * (n as f64 - 1.0 + part), 10.0);
            let w: Vec<f64> = sh.iter().collect();
            ob::holds("number of wavelengths", w.len() == n);
            for k in 0..w.len() { ob::same("k-th wavelength", w[k], 400.0 + 10.0 * k as f64, 1e-9); }
        }
    }
    // a large whole range is complete as well
    let w = SpdShape::new(300.0, 830.0, 1.0).iter().count();
    ob::holds("531 wavelengths", w == 531);
}
pub fn r_shape_iter_single() {
    let w: Vec<f32> = SpdShape::<f32>::new(380.0, 780.0, 5.0).iter().collect();
    ob::holds("81 wavelengths", w.len() == 81);
    for k in 0..w.len() { ob::same32("k-th wavelength", w[k], 380.0 + 5.0 * k as f32, 1e-6); }
}
pub fn r_shape_new() {
    let (a, b, c) = (ob::any("a", 300.0, 400.0), ob::any("b", 500.0, 900.0), ob::any("c", 1.0, 20.0));
    let s = SpdShape::new(a, b, c);
    ob::zero("start", s.start - a, 0.0);
    ob::zero("end", s.end - b, 0.0);
    ob::zero("interval", uni(s.interval) - c, 0.0);
    let s = SpdShape::<f64>::astm_e308();
    ob::holds("ASTM E308 is 360-780 nm, 1 nm", s.start == 360.0 && s.end == 780.0 && uni(s.interval) == 1.0);
    let s = SpdShape::<f32>::astm_e308();
    ob::holds("ASTM E308 is 360-780 nm (f32)", s.start == 360.0 && s.end == 780.0);
}
pub fn r_from_values() {
    for (start, step) in [(380.0, 5.0), (360.0, 1.0), (400.0, 0.1), (400.0, 0.3), (380.0, 10.0), (300.0, 0.7)] {
        for n in [2usize, 3, 7, 8, 12] {
            let v = ob::anyv("v", n, -1e5, 1e5);
            let sh = SpdShape::new(start, start + step * (n - 1) as f64, step);
            let p = VSPD::from_values(sh, &v);
            ob::holds("length", p.len() == n);
            for k in 0..p.len() {
                ob::zero("value", p.samples()[k].v - v[k], 0.0);
                ob::same("wavelength", p.samples()[k].nm, start + step * k as f64, 1e-9);
            }
            ob::holds("shape", p.shape() == sh);
        }
    }
}
pub fn r_from_values_bad() {
    for n in 2..8usize {
        for m in 2..8usize {
            let v = ob::anyv("v", m, -1e5, 1e5);
            let sh = SpdShape::new(400.0, 400.0 + 10.0 * (n - 1) as f64, 10.0);
            if m != n { ob::panics("a wrong number of values is rejected", || { VSPD::from_values(sh, &v); }); }
            else { ob::returns("the right number of values is accepted", || { VSPD::from_values(sh, &v); }); }
        }
    }
    let sh = SpdShape { start: 400.0, end: 410.0, interval: Interval::Varying };
    ob::panics("a varying shape is rejected", || { VSPD::from_values(sh, &[1.0, 2.0]); });
}
fn scaled(l: &'static str, q: &VSPD, p: &VSPD, k: f64) {
    ob::holds("same length", q.len() == p.len());
    for i in 0..p.len() {
        ob::zero("same wavelengths", q.samples()[i].nm - p.samples()[i].nm, 0.0);
        ob::same(l, q.samples()[i].v, p.samples()[i].v * k, 1e-9);
    }
    ob::same("same start", q.start(), p.start(), 1e-9);
    ob::same("same end", q.end(), p.end(), 1e-9);
    ob::same("same interval", uni(q.interval()), uni(p.interval()), 1e-9);
}
pub fn r_scale() {
    for n in [2usize, 5, 9] {
        let p = grid_u(n, 380.0, 10.0, "v");
        let k = ob::any("k", 0.1, 20.0);
        scaled("spd * k", &(p.clone() * k), &p, k);
        scaled("&spd * k", &(&p * k), &p, k);
        scaled("spd / k", &(p.clone() / k), &p, 1.0 / k);
        scaled("&spd / k", &(&p / k), &p, 1.0 / k);
    }
    let v = ob::anyv("v", 3, -1e5, 1e5);
    let p = VSPD::new(vec![Sample::new(400.0, v[0]), Sample::new(410.0, v[1]), Sample::new(430.0, v[2])]);
    let k = ob::any("k", 0.1, 20.0);
    scaled("varying: &spd * k", &(&p * k), &p, k);
    scaled("varying: &spd / k", &(&p / k), &p, 1.0 / k);
}
pub fn r_collect() {
    for n in [2usize, 3, 6] {
        let (s, h) = steps();
        let g = grid(n, s, h);
        let p: VSPD = g.clone().into_iter().collect();
        keeps(&p, &g);
        ob::same("interval", uni(p.interval()), h, 1e-9);
        let p: VSPD = g.iter().map(|x| (x.nm, x.v)).collect();
        keeps(&p, &g);
        ob::same("interval", uni(p.interval()), h, 1e-9);
    }
    let v = ob::anyv("w", 4, -1e5, 1e5);
    let p = vspd!(400.0 => v[0], 410.0 => v[1], 420.0 => v[2], 430.0 => v[3],);
    let q = vspd!(400.0 => v[0], 410.0 => v[1], 420.0 => v[2], 430.0 => v[3]);
    for k in 0..4 {
        ob::zero("vspd! value", p.samples()[k].v - v[k], 0.0);
        ob::zero("vspd! wavelength", p.samples()[k].nm - (400.0 + 10.0 * k as f64), 0.0);
    }
    ob::holds("vspd! without the trailing comma", p == q);
}
/// long spectra: every sample takes part in scaling and comparison
pub fn r_scale_and_eq_long() {
    let n = 300;
    let p = grid_u(n, 380.0, 1.0, "v");
    let k = ob::any("k", 0.1, 20.0);
    scaled("&spd * k", &(&p * k), &p, k);
    scaled("spd / k", &(p.clone() / k), &p, 1.0 / k);
    let d = ob::any("d", 1e-9, 1.0);
    for j in [0usize, 1, 150, 255, 256, 298, 299] {
        let mut g = p.samples().clone();
        g[j].v += d;
        let q = VSPD::new(g);
        ob::holds("a value differs", p != q && q != p);
        use float_cmp::{ApproxEq, F64Margin};
        let m = F64Margin { epsilon: 0.25, ulps: 0 };
        let mut g = p.samples().clone();
        g[j].v += d + 0.5;
        let q = VSPD::new(g);
        ob::holds("a value differs", !(&p).approx_eq(&q, m) && !(&q).approx_eq(&p, m));
    }
}
/// equality: all samples, their number and the shape
pub fn r_eq() {
    let n = 5;
    let p = grid_u(n, 400.0, 10.0, "v");
    ob::holds("reflexive", p == p.clone());
    let d = ob::any("d", 1e-9, 1.0);
    for k in 0..n {
        let mut g = p.samples().clone();
        g[k].v += d;
        let q = VSPD::new(g);
        ob::holds("a value differs", p != q && q != p);
    }
    for k in 0..n {
        let mut g = p.samples().clone();
        g[k].nm += d;
        let q = VSPD::new(g);
        ob::holds("a wavelength differs", p != q && q != p);
    }
    let mut g = p.samples().clone();
    g.push(Sample::new(450.0, 1.0));
    let q = VSPD::new(g);
    ob::holds("a sample more", p != q && q != p);
}
/// a value that is not a number equals nothing and is close to nothing
pub fn r_eq_nan() {
    use float_cmp::{ApproxEq, F64Margin};
    let m = F64Margin { epsilon: 0.25, ulps: 4 };
    for n in [2usize, 5, 40] {
        let p = VSPD::new((0..n).map(|k| Sample::new(400.0 + 10.0 * k as f64, 0.25 + k as f64)).collect());
        for k in [0, n / 2, n - 1] {
            let mut g = p.samples().clone();
            g[k].v = f64::NAN;
            let q = VSPD::new(g);
            ob::holds("an undefined value differs", p != q && q != p && q != q.clone());
            ob::holds("an undefined value is close to nothing", !(&p).approx_eq(&q, m) && !(&q).approx_eq(&p, m));
        }
    }
}
/// equality of irregular spectra: same ends, same values, one wavelength moved
pub fn r_eq_varying() {
    use float_cmp::{ApproxEq, F64Margin};
    let m = F64Margin { epsilon: 0.25, ulps: 0 };
    let w = [400.0, 410.0, 423.0, 431.0, 450.0];
    let v = ob::anyv("v", 5, -1e5, 1e5);
    let g: Vec<Sample> = (0..5).map(|k| Sample::new(w[k], v[k])).collect();
    let p = VSPD::new(g.clone());
    ob::holds("reflexive", p == p.clone() && (&p).approx_eq(&p.clone(), m));
    let d = ob::any("d", 1e-9, 1.0);
    let far = ob::any("far", 0.5, 1.0);
    for k in 0..5 {
        let mut h = g.clone();
        h[k].v -= d;
        let q = VSPD::new(h);
        ob::holds("a value differs", p != q && q != p);
        let mut h = g.clone();
        h[k].v -= far;
        let q = VSPD::new(h);
        ob::holds("a value differs beyond the margin", !(&p).approx_eq(&q, m) && !(&q).approx_eq(&p, m));
        let mut h = g.clone();
        h[k].nm -= d;
        let q = VSPD::new(h);
        ob::holds("a wavelength differs", p != q && q != p);
        let mut h = g.clone();
        h[k].nm += far;
        let q = VSPD::new(h);
        ob::holds("a wavelength differs beyond the margin", !(&p).approx_eq(&q, m) && !(&q).approx_eq(&p, m));
    }
    // two samples that trade places differ, and so do spectra of which one lacks the last sample
    let q = VSPD::new(vec![g[0], Sample::new(w[1], v[1] + d), Sample::new(w[2], v[2] - d), g[3], g[4]]);
    ob::holds("two values differ", p != q && q != p);
    let q = VSPD::new(g[..4].to_vec());
    ob::holds("a sample less", p != q && q != p && !(&p).approx_eq(&q, m) && !(&q).approx_eq(&p, m));
    let q = VSPD::new(g[1..].to_vec());
    ob::holds("the first sample missing", p != q && q != p && !(&p).approx_eq(&q, m) && !(&q).approx_eq(&p, m));
}
pub fn r_approx() {
    use float_cmp::{ApproxEq, F64Margin};
    let n = 4;
    let p = grid_u(n, 400.0, 10.0, "v");
    let m = F64Margin { epsilon: 0.25, ulps: 0 };
    ob::holds("reflexive", (&p).approx_eq(&p.clone(), m));
    let (near, far) = (ob::any("near", 0.01, 0.2), ob::any("far", 0.5, 1.0));
    for k in 0..n {
        for vary_nm in [false, true] {
            let mut g = p.samples().clone();
            if vary_nm { g[k].nm += near } else { g[k].v += near }
            let q = VSPD::new(g);
            ob::holds("a difference within the margin is accepted", (&p).approx_eq(&q, m));
            let mut g = p.samples().clone();
            if vary_nm { g[k].nm += far } else { g[k].v += far }
            let q = VSPD::new(g);
            ob::holds("a difference beyond the margin is seen", !(&p).approx_eq(&q, m) && !(&q).approx_eq(&p, m));
        }
    }
    let mut g = p.samples().clone();
    g.push(Sample::new(440.0, 1.0));
    let q = VSPD::new(g);
    ob::holds("a sample more", !(&p).approx_eq(&q, m) && !(&q).approx_eq(&p, m));
}
/// the spectrum literal pairs each wavelength with its value, with and without a final comma
pub fn r_literal() {
    let v = ob::anyv("v", 3, -1e5, 1e5);
    let p = colorspace::vspd!(400.0 => v[0], 410.0 => v[1], 425.0 => v[2]);
    let q = colorspace::vspd!(400.0 => v[0], 410.0 => v[1], 425.0 => v[2],);
    for s in [&p, &q] {
        ob::holds("one sample per entry", s.len() == 3);
        for (k, w) in [400.0, 410.0, 425.0].into_iter().enumerate() {
            ob::zero("wavelength", s.samples()[k].nm - w, 0.0);
            ob::zero("value", s.samples()[k].v - v[k], 0.0);
        }
    }
}
