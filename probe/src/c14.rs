//! C14: interpolation between spectral samples.
use crate::ob;
use colorspace::interpolation::*;
use colorspace::vspd::*;
use colorspace::VSPD;

fn grid(n: usize, s: f64, h: f64) -> VSPD {
    let v = ob::anyv("v", n, -1e5, 1e5);
    VSPD::new((0..n).map(|k| Sample::new(s + k as f64 * h, v[k])).collect())
}
fn with(n: usize, s: f64, h: f64, f: impl Fn(f64) -> f64) -> VSPD {
    VSPD::new((0..n).map(|k| Sample::new(s + k as f64 * h, f(k as f64))).collect())
}
const GRIDS: [(f64, f64); 4] = [(380.0, 10.0), (360.0, 1.0), (400.0, 2.5), (380.0, 0.5)];
const SIZES: [usize; 5] = [6, 7, 8, 11, 16];

/// the curve passes through every sample
pub fn r_through_samples() {
    for n in SIZES { for (s, h) in GRIDS {
        let p = grid(n, s, h);
        let f = InterpolatorSprague::<f64>::new(&p);
        for k in 0..n { ob::same("passes through the sample", f.evaluate(p.samples()[k].nm), p.samples()[k].v, 1e-9); }
    } }
}
/// ... and through the samples of a grid with arbitrary start and step
pub fn r_through_samples_any_grid() {
    for n in [6usize, 7, 9] {
        let (s, h) = (ob::any("s", 0.0, 9000.0), ob::any("h", 0.25, 500.0));
        let p = grid(n, s, h);
        let f = InterpolatorSprague::<f64>::new(&p);
        for k in 0..n { ob::same("passes through the sample", f.evaluate(p.samples()[k].nm), p.samples()[k].v, 1e-9); }
    }
}
/// flat spectra stay flat
pub fn r_constant() {
    for n in SIZES { for (s, h) in GRIDS {
        let c = ob::any("c", -1e4, 1e4);
        let p = with(n, s, h, |_| c);
        let f = InterpolatorSprague::<f64>::new(&p);
        for k in 0..n - 1 {
            let t = ob::any("t", 0.0, 0.9999999);
            ob::same("constant is reproduced", f.evaluate(s + (k as f64 + t) * h), c, 1e-9);
        }
    } }
}
/// straight lines are reproduced everywhere, polynomials up to the fourth degree away from the boundary cells
/// (the CIE boundary formula reproduces straight lines only)
fn poly(deg: usize) {
    for n in [6usize, 7, 8, 11] { for (s, h) in [(380.0, 10.0), (360.0, 1.0)] {
        let c = ob::anyv("c", deg + 1, -1e5, 1e5);
        let q = |x: f64| { let mut r = 0.0; for i in 0..=deg { r = r * x + c[i]; } r };
        let p = with(n, s, h, |k| q(k));
        let f = InterpolatorSprague::<f64>::new(&p);
        let edge = if deg > 1 { 2 } else { 0 };
        for k in edge..n - 1 - edge {
            let t = ob::any("t", 0.0, 0.9999999);
            ob::same("polynomial is reproduced", f.evaluate(s + (k as f64 + t) * h), q(k as f64 + t), 1e-9);
        }
    } }
}
pub fn r_poly1() { poly(1) }
pub fn r_poly2() { poly(2) }
pub fn r_poly3() { poly(3) }
pub fn r_poly4() { poly(4) }
/// in every cell the curve is the quintic with Sprague's end derivatives, the spectrum being continued past its
/// ends with the CIE 167 coefficients
pub fn r_definition() {
    for n in [6usize, 7, 9, 12] {
        let (s, h) = (380.0, 10.0);
        let p = grid(n, s, h);
        let y: Vec<f64> = p.values().collect();
        let f = InterpolatorSprague::<f64>::new(&p);
        let (o, i) = ([884.0, -1960.0, 3033.0, -2648.0, 1080.0, -180.0], [508.0, -540.0, 488.0, -367.0, 144.0, -24.0]);
        let (mut lo, mut li, mut ri, mut ro) = (0.0, 0.0, 0.0, 0.0);
        for j in 0..6 {
            lo += o[j] * y[j] / 209.0;
            li += i[j] * y[j] / 209.0;
            ri += i[j] * y[n - 1 - j] / 209.0;
            ro += o[j] * y[n - 1 - j] / 209.0;
        }
        let mut v = vec![lo, li];
        v.extend(y.iter());
        v.push(ri);
        v.push(ro);
        for k in 2..n + 1 {
            let t = ob::any("t", 0.0, 0.9999999);
            let d1 = |i: usize| (v[i - 2] - 8.0 * v[i - 1] + 8.0 * v[i + 1] - v[i + 2]) / 12.0;
            let d2 = |i: usize| (-v[i - 2] + 16.0 * v[i - 1] - 30.0 * v[i] + 16.0 * v[i + 1] - v[i + 2]) / 12.0;
            // quintic Hermite from value, slope and curvature at both ends
            let (p0, p1, a, b, c, d) = (v[k], v[k + 1], d1(k), d1(k + 1), d2(k), d2(k + 1));
            let (t2, t3) = (t * t, t * t * t);
            let (t4, t5) = (t3 * t, t3 * t * t);
            let w = p0 * (1.0 - 10.0 * t3 + 15.0 * t4 - 6.0 * t5)
                + p1 * (10.0 * t3 - 15.0 * t4 + 6.0 * t5)
                + a * (t - 6.0 * t3 + 8.0 * t4 - 3.0 * t5)
                + b * (-4.0 * t3 + 7.0 * t4 - 3.0 * t5)
                + c * (0.5 * t2 - 1.5 * t3 + 1.5 * t4 - 0.5 * t5)
                + d * (0.5 * t3 - t4 + 0.5 * t5);
            ob::same("Sprague's quintic", f.evaluate(s + ((k - 2) as f64 + t) * h), w, 1e-9);
        }
    }
}
/// long spectra: every cell is evaluated from its own samples
pub fn r_long() {
    for n in [65usize, 129, 300, 540, 1030] {
        let v = ob::anyv("v", n, -1e5, 1e5);
        let mk = |a: usize, b: usize| VSPD::new((a..b).map(|k| Sample::new(300.0 + k as f64, v[k])).collect());
        let p = mk(0, n);
        let f = InterpolatorSprague::<f64>::new(&p);
        let g = InterpolatorLinear::new(&p);
        for k in (0..n).filter(|k| n < 200 || k % 37 == 0 || *k < 6 || n - *k < 6) { ob::same("passes through the sample", f.evaluate(300.0 + k as f64), v[k], 1e-9); }
        for k in [0, 1, 2, 30, 62, 63, n / 2, n - 5, n - 4, n - 3, n - 2] {
            let t = ob::any("t", 1e-7, 0.9999999);
            let x = 300.0 + k as f64 + t;
            // the curve within a cell depends on the six samples around it
            let (a, b) = if k < 3 { (0, 8) } else if k + 4 > n - 1 { (n - 8, n) } else { (k - 3, k + 5) };
            let q = mk(a, b);
            ob::same("same as from the neighbouring samples alone", f.evaluate(x), InterpolatorSprague::<f64>::new(&q).evaluate(x), 1e-9);
            ob::same("linear", g.evaluate(x), v[k] + t * (v[k + 1] - v[k]), 1e-9);
        }
    }
}
/// superposition, and scaling the wavelength axis changes nothing
pub fn r_linear() {
    for n in [6usize, 8] {
        let (a, b, k) = (ob::anyv("a", n, -1e5, 1e5), ob::anyv("b", n, -1e5, 1e5), ob::any("k", -1e4, 1e4));
        let mk = |v: &dyn Fn(usize) -> f64| VSPD::new((0..n).map(|i| Sample::new(380.0 + 10.0 * i as f64, v(i))).collect());
        let (p, q, r) = (mk(&|i| a[i]), mk(&|i| b[i]), mk(&|i| k * a[i] + b[i]));
        let (f, g, e) = (InterpolatorSprague::<f64>::new(&p), InterpolatorSprague::<f64>::new(&q), InterpolatorSprague::<f64>::new(&r));
        for i in 0..n - 1 {
            let x = 380.0 + 10.0 * (i as f64 + ob::any("t", 0.0, 0.9999999));
            ob::same("superposition", e.evaluate(x), k * f.evaluate(x) + g.evaluate(x), 1e-9);
        }
    }
}
/// reversing the spectrum reverses the curve
pub fn r_mirror() {
    for n in [6usize, 7, 9] {
        let v = ob::anyv("v", n, -1e5, 1e5);
        let p = VSPD::new((0..n).map(|i| Sample::new(400.0 + 10.0 * i as f64, v[i])).collect());
        let q = VSPD::new((0..n).map(|i| Sample::new(400.0 + 10.0 * i as f64, v[n - 1 - i])).collect());
        let (f, g) = (InterpolatorSprague::<f64>::new(&p), InterpolatorSprague::<f64>::new(&q));
        let last = 400.0 + 10.0 * (n - 1) as f64;
        for i in 0..n - 1 {
            let t = ob::any("t", 1e-7, 0.9999999);
            ob::same("mirror image", f.evaluate(400.0 + 10.0 * (i as f64 + t)), g.evaluate(last - 10.0 * (i as f64 + t)), 1e-9);
        }
    }
}
/// single and double precision use the same coefficients
pub fn r_coefficients() {
    let (a, b) = (<f32 as SpragueCoefficients>::coeff_c0(), <f64 as SpragueCoefficients>::coeff_c0());
    for i in 0..6 { ob::zero("c0", a[i] as f64 - b[i], 0.0); }
    let (a, b) = (<f32 as SpragueCoefficients>::coeff_c1(), <f64 as SpragueCoefficients>::coeff_c1());
    for i in 0..6 { ob::zero("c1", a[i] as f64 - b[i], 0.0); }
    let (a, b) = (<f32 as SpragueCoefficients>::coeff_c2(), <f64 as SpragueCoefficients>::coeff_c2());
    for i in 0..6 { ob::zero("c2", a[i] as f64 - b[i], 0.0); }
    let (a, b) = (<f32 as SpragueCoefficients>::coeff_c3(), <f64 as SpragueCoefficients>::coeff_c3());
    for i in 0..6 { ob::zero("c3", a[i] as f64 - b[i], 0.0); }
    let (c0, c1, c2, c3) = (<f64 as SpragueCoefficients>::coeff_c0(), <f64 as SpragueCoefficients>::coeff_c1(), <f64 as SpragueCoefficients>::coeff_c2(), <f64 as SpragueCoefficients>::coeff_c3());
    for i in 0..6 {
        ob::zero("c3 mirrors c0", c3[i] - c0[5 - i], 0.0);
        ob::zero("c2 mirrors c1", c2[i] - c1[5 - i], 0.0);
    }
    let r = ob::anyv32("r", 8, -1e4, 1e4);
    let q: Vec<f64> = r.iter().map(|x| *x as f64).collect();
    for i in 2..5 {
        let (a, b) = (<f32 as SpragueCoefficients>::coeff_a(&r, i), <f64 as SpragueCoefficients>::coeff_a(&q, i));
        for j in 0..6 { ob::same("a", a[j] as f64, b[j], 1e-5); }
    }
}
fn lin(p: &VSPD) {
    let n = p.len();
    let g = p.samples().clone();
    let f = InterpolatorLinear::new(p);
    for k in 0..n { ob::same("passes through the sample", f.evaluate(g[k].nm), g[k].v, 1e-9); }
    for k in 0..n - 1 {
        let t = ob::any("t", 1e-7, 0.9999999);
        let x = g[k].nm + t * (g[k + 1].nm - g[k].nm);
        ob::same("straight line between samples", f.evaluate(x), g[k].v + t * (g[k + 1].v - g[k].v), 1e-9);
    }
    ob::zero("holds the first value below", f.evaluate(g[0].nm - ob::any("d", 0.001, 300.0)) - g[0].v, 0.0);
    ob::zero("holds the last value above", f.evaluate(g[n - 1].nm + ob::any("d", 0.001, 300.0)) - g[n - 1].v, 0.0);
}
pub fn r_lin_uniform() { for n in [2usize, 3, 5, 8] { for (s, h) in GRIDS { lin(&grid(n, s, h)); } } }
pub fn r_lin_varying() {
    let w = [400.0, 410.0, 413.5, 450.0, 451.0];
    let v = ob::anyv("v", 5, -1e5, 1e5);
    lin(&VSPD::new((0..5).map(|k| Sample::new(w[k], v[k])).collect()));
}
pub fn r_lin_any_grid() {
    let (s, h) = (ob::any("s", 0.0, 9000.0), ob::any("h", 0.25, 500.0));
    for n in [2usize, 4] {
        let p = grid(n, s, h);
        let f = InterpolatorLinear::new(&p);
        for k in 0..n { ob::same("passes through the sample", f.evaluate(p.samples()[k].nm), p.samples()[k].v, 1e-9); }
    }
}
pub fn r_extrapolator() {
    for n in [2usize, 3, 7] {
        let p = grid(n, 400.0, 10.0);
        let f = ExtrapolatorConstant::new(&p);
        ob::zero("below: first value", f.evaluate(ob::any("x", 0.0, 399.999)) - p.first().v, 0.0);
        ob::zero("above: last value", f.evaluate(400.0 + 10.0 * (n - 1) as f64 + ob::any("d", 0.0, 500.0)) - p.last().v, 0.0);
    }
}
pub fn r_linspace() {
    let (a, b) = (ob::any("a", -1e4, 1e4), ob::any("b", -1e4, 1e4));
    for n in [0usize, 1, 2, 3, 5, 9, 20, 130, 1025] {
        let v: Vec<f64> = linspace(a, b, n).collect();
        ob::holds("number of steps", v.len() == n);
        for k in 0..v.len() {
            let w = if n > 1 { a + (b - a) * k as f64 / (n - 1) as f64 } else { a };
            ob::same("k-th step", v[k], w, 1e-9);
        }
    }
}
fn lag(interval: usize, degree: usize) {
    let c = lagrange_coefficients_astm_e2022(interval as f64, degree);
    ob::holds("one row per interior wavelength", c.len() == interval - 1);
    for k in 0..c.len() {
        let r = (k + 1) as f64 / interval as f64 + if degree == 4 { 1.0 } else { 0.0 };
        ob::holds("one coefficient per sample", c[k].len() == degree);
        for p in 0..degree {
            let (mut m, mut w) = (0.0, 1.0);
            for _ in 0..p { w *= r; }
            for j in 0..c[k].len() { let mut q = 1.0; for _ in 0..p { q *= j as f64; } m += c[k][j] * q; }
            ob::same("polynomials below the degree are reproduced", m, w, 1e-9);
        }
    }
}
pub fn r_lagrange() { for i in [2usize, 4, 5, 10, 20] { lag(i, 3); lag(i, 4); for d in [2usize, 5, 6, 8, 12] { lag(i, d); } } }
