//! C15: resampling of spectra (interpolate, extrapolate, align, trim).
use crate::ob;
use colorspace::cmf::CMF;
use colorspace::interpolation::*;
use colorspace::vspd::*;
use colorspace::{SpdShape, VSPD};

fn grid(n: usize, s: f64, h: f64) -> VSPD {
    let v = ob::anyv("v", n, -1e5, 1e5);
    VSPD::new((0..n).map(|k| Sample::new(s + k as f64 * h, v[k])).collect())
}
fn at(p: &VSPD, x: f64) -> f64 {
    if p.len() < 6 || p.interval() == Interval::Varying { InterpolatorLinear::new(p).evaluate(x) } else { InterpolatorSprague::<f64>::new(p).evaluate(x) }
}
fn step(s: &SpdShape<f64>) -> f64 { match s.interval { Interval::Uniform(i) => i, _ => 0.0 } }
fn uniform(s: &SpdShape<f64>) -> bool { match s.interval { Interval::Uniform(_) => true, _ => false } }
/// number of grid points in [a, b], allowing for round-off
fn count(a: f64, b: f64, h: f64) -> usize { ((b - a) / h + 1e-3) as usize + 1 }

fn interp(p: &VSPD, s: f64, e: f64, h: f64) {
    let q = p.interpolate(SpdShape::new(s, e, h));
    let (a, b) = (if s > p.start() { s } else { p.start() }, if e < p.end() { e } else { p.end() });
    ob::zero("starts at the narrower start", q.start() - a, 1e-9);
    ob::zero("ends at the narrower end", q.end() - b, 1e-9);
    ob::holds("has a uniform interval", uniform(&q.shape()));
    ob::zero("has the requested interval", step(&q.shape()) - h, 1e-12);
    ob::holds("one sample per grid point", q.len() == count(a, b, h));
    for k in 0..q.len() {
        let x = a + k as f64 * h;
        ob::zero("on the requested grid", q.samples()[k].nm - x, 1e-9);
        ob::same("value of the interpolating curve", q.samples()[k].v, at(p, x), 1e-9);
    }
}
const SHAPES: [(f64, f64, f64); 9] = [
    (400.0, 450.0, 10.0), (400.0, 450.0, 5.0), (380.0, 500.0, 10.0), (405.0, 442.0, 1.0), (411.0, 413.0, 0.25), (390.0, 437.5, 2.5), (403.0, 600.0, 7.0),
    (400.0, 450.0, 20.0), (400.0, 450.0, 0.7),
];
pub fn r_interpolate_6() { for (s, e, h) in SHAPES { interp(&grid(6, 400.0, 10.0), s, e, h); } }
pub fn r_interpolate_11() { for (s, e, h) in SHAPES { interp(&grid(11, 400.0, 5.0), s, e, h); } }
pub fn r_interpolate_26() { for (s, e, h) in SHAPES { interp(&grid(26, 400.0, 2.0), s, e, h); } }
pub fn r_interpolate_few() { for n in [2usize, 3, 4, 5] { for (s, e, h) in SHAPES { interp(&grid(n, 400.0, 50.0 / (n - 1) as f64), s, e, h); } } }
/// resampling on its own grid changes nothing; flat spectra stay flat, ramps stay ramps
pub fn r_identity() {
    for n in [2usize, 5, 6, 9, 17] { for (s, h) in [(380.0, 10.0), (360.0, 1.0), (400.0, 2.5), (390.0, 20.0)] {
        let p = grid(n, s, h);
        let q = p.interpolate(p.shape());
        let r = p.align(p.shape());
        let t = p.trim(p.shape());
        let u = p.extrapolate(p.shape());
        for x in [&q, &r, &t, &u] {
            ob::holds("keeps every sample", x.len() == n);
            ob::holds("keeps the shape", x.shape() == p.shape());
            for k in 0..x.len() {
                ob::zero("keeps the wavelengths", x.samples()[k].nm - p.samples()[k].nm, 1e-9);
                ob::same("keeps the values", x.samples()[k].v, p.samples()[k].v, 1e-9);
            }
        }
    } }
}
pub fn r_line() {
    for n in [2usize, 4, 6, 11] {
        let h = 50.0 / (n - 1) as f64;
        let (a, b) = (ob::any("a", -1e4, 1e4), ob::any("b", -1e4, 1e4));
        let p = VSPD::new((0..n).map(|k| Sample::new(400.0 + k as f64 * h, a + b * k as f64 * h)).collect());
        for (s, e, i) in [(400.0, 450.0, 1.0), (402.0, 448.0, 4.0), (401.5, 449.0, 2.5), (380.0, 470.0, 10.0)] {
            let q = p.interpolate(SpdShape::new(s, e, i));
            for t in q.iter() { ob::same("straight lines stay straight", t.v, a + b * (t.nm - 400.0), 1e-9); }
        }
    }
}
/// arbitrary sample positions: an arbitrary start and step of the source grid
pub fn r_any_grid() {
    let (s, h) = (ob::any("s", 0.0, 5000.0), ob::any("h", 0.25, 200.0));
    for n in [3usize, 7] {
        let p = grid(n, s, h);
        let q = p.interpolate(SpdShape::new(s, p.end(), h));
        ob::holds("keeps every sample", q.len() == n);
        for k in 0..q.len() {
            ob::same("keeps the wavelengths", q.samples()[k].nm, p.samples()[k].nm, 1e-9);
            ob::same("keeps the values", q.samples()[k].v, p.samples()[k].v, 1e-9);
        }
    }
}
fn extra(p: &VSPD, s: f64, e: f64) {
    let h = step(&p.shape());
    let q = p.extrapolate(SpdShape::new(s, e, 3.0));
    let (a, b) = (if s < p.start() { s } else { p.start() }, if e > p.end() { e } else { p.end() });
    ob::zero("starts at the wider start", q.start() - a, 1e-9);
    ob::zero("ends at the wider end", q.end() - b, 1e-9);
    ob::zero("keeps the interval", step(&q.shape()) - h, 1e-9);
    ob::holds("covers the wider range on its grid", q.len() == count(a, b, h));
    let m = count(a, p.start(), h) - 1;
    for k in 0..q.len() {
        ob::zero("on the grid", q.samples()[k].nm - (a + k as f64 * h), 1e-9);
        let v = if k < m { p.first().v } else if k >= m + p.len() { p.last().v } else { p.samples()[k - m].v };
        ob::zero("own samples inside, boundary values outside", q.samples()[k].v - v, 0.0);
    }
}
pub fn r_extrapolate() {
    for n in [2usize, 3, 6, 9] { for h in [10.0, 1.0, 2.5, 0.1, 0.7] {
        let p = grid(n, 400.0, h);
        for (a, b) in [(0, 0), (1, 0), (0, 1), (3, 4), (17, 23)] { extra(&p, 400.0 - a as f64 * h, 400.0 + (n - 1 + b) as f64 * h); }
        extra(&p, 400.0 + h * 0.5, 400.0 + h * 0.75);
        extra(&p, 400.0 - 2.0 * h, 400.0 + h * 0.5);
        extra(&p, 400.0 + h * 0.5, 400.0 + (n + 3) as f64 * h);
    } }
}
/// a start that is not a whole number of intervals away: no gap wider than the interval appears
pub fn r_extrapolate_gaps() {
    for n in [2usize, 6] { for h in [10.0, 1.0, 2.5] { for (a, b) in [(0.3, 0.3), (0.7, 0.7), (1.4, 2.6), (2.6, 1.4), (0.05, 0.95), (3.95, 3.05)] {
        let p = grid(n, 400.0, h);
        let (s, e) = (400.0 - a * h, p.end() + b * h);
        let q = p.extrapolate(SpdShape::new(s, e, h));
        ob::zero("starts at the requested start", q.samples()[0].nm - s, 1e-9);
        let mut own = 0;
        for k in 0..q.len() {
            let (x, v) = (q.samples()[k].nm, q.samples()[k].v);
            if k + 1 < q.len() {
                let d = q.samples()[k + 1].nm - x;
                ob::holds("wavelengths increase, no gap wider than the interval", d > 0.0 && d < h + 1e-6);
            } else { ob::holds("no room for another sample before the end", e - x < h - 1e-6 && x < e + 1e-6); }
            if x < 400.0 - 1e-6 { ob::zero("first value below", v - p.first().v, 0.0); }
            else if x > p.end() + 1e-6 { ob::zero("last value above", v - p.last().v, 0.0); }
            else { ob::holds("only own samples inside", own < n); ob::zero("own samples inside", v - p.samples()[own].v, 0.0); own += 1; }
        }
        ob::holds("keeps every own sample", own == n);
    } } }
}
pub fn r_extrapolate_varying() {
    let v = ob::anyv("v", 4, -1e5, 1e5);
    let w = [400.0, 410.0, 415.0, 440.0];
    let p = VSPD::new((0..4).map(|k| Sample::new(w[k], v[k])).collect());
    let q = p.extrapolate(SpdShape::new(390.0, 460.0, 5.0));
    ob::holds("two below, four above", q.len() == 10);
    let x = [390.0, 395.0, 400.0, 410.0, 415.0, 440.0, 445.0, 450.0, 455.0, 460.0];
    let y = [v[0], v[0], v[0], v[1], v[2], v[3], v[3], v[3], v[3], v[3]];
    for k in 0..q.len() {
        ob::zero("own wavelengths inside, requested step outside", q.samples()[k].nm - x[k], 1e-9);
        ob::zero("own samples inside, boundary values outside", q.samples()[k].v - y[k], 0.0);
    }
    ob::panics("two varying intervals cannot be extrapolated", || { let r = p.shape(); p.extrapolate(r); });
}
fn align(p: &VSPD, s: f64, e: f64, h: f64) {
    let shape = SpdShape::new(s, e, h);
    let q = p.align(shape);
    let w: Vec<f64> = shape.iter().collect();
    ob::holds("one sample per wavelength of the shape", q.len() == w.len());
    ob::zero("start of the shape", q.start() - s, 1e-9);
    ob::zero("end of the shape", q.end() - e, 1e-9);
    ob::zero("interval of the shape", step(&q.shape()) - h, 1e-9);
    // first and last grid point inside the spectrum
    let (mut lo, mut hi) = (w.len(), 0);
    for k in 0..w.len() { if w[k] >= p.start() - 1e-6 && w[k] <= p.end() + 1e-6 { if lo == w.len() { lo = k; } hi = k; } }
    for k in 0..w.len() {
        ob::zero("on the grid of the shape", q.samples()[k].nm - w[k], 1e-9);
        let x = if k < lo { w[lo] } else if k > hi { w[hi] } else { w[k] };
        ob::same("curve inside, nearest grid value outside", q.samples()[k].v, at(p, x), 1e-9);
    }
}
const ALIGN: [(f64, f64, f64); 15] = [
    (400.0, 450.0, 10.0), (400.0, 450.0, 5.0), (380.0, 500.0, 10.0), (383.0, 503.0, 10.0), (405.0, 441.0, 1.0), (405.0, 505.0, 5.0), (375.0, 425.0, 5.0),
    (411.0, 413.0, 0.25), (360.0, 480.0, 7.5), (403.0, 600.0, 19.7), (398.0, 452.0, 0.1), (381.0, 481.0, 20.0), (303.0, 603.0, 100.0), (433.5, 533.5, 100.0), (296.0, 447.0, 151.0),
];
/// grids whose wavelengths are not exact binary fractions: samples that coincide up to round-off keep their values
pub fn r_align_decimal() {
    for h in [0.1, 0.3, 0.7, 1.1] { for n in [2usize, 5, 9] { for s in [380.3, 400.7, 390.1] { for (a, b) in [(0, 0), (3, 0), (10, 7), (37, 1)] {
        let p = grid(n, s, h);
        let first = s - a as f64 * h;
        let last = first + (a + n - 1 + b) as f64 * h;
        let q = p.align(SpdShape::new(first, last, h));
        ob::holds("one sample per wavelength of the shape", q.len() == a + n + b);
        for k in 0..q.len() {
            let i = if k < a { 0 } else if k - a >= n { n - 1 } else { k - a };
            ob::zero("on the grid", q.samples()[k].nm - (first + k as f64 * h), 1e-9);
            ob::same("own samples kept, boundary values outside", q.samples()[k].v, p.samples()[i].v, 1e-6);
        }
    } } } }
}
pub fn r_align_6() { for (s, e, h) in ALIGN { align(&grid(6, 400.0, 10.0), s, e, h); } }
pub fn r_align_51() { for (s, e, h) in ALIGN { align(&grid(51, 400.0, 1.0), s, e, h); } }
pub fn r_align_off() { for (s, e, h) in ALIGN { align(&grid(7, 397.5, 9.0), s, e, h); } }
pub fn r_align_few() { for n in [2usize, 3, 5] { for (s, e, h) in ALIGN { align(&grid(n, 400.0, 50.0 / (n - 1) as f64), s, e, h); } } }
/// spectra with irregular gaps are interpolated linearly
pub fn r_align_varying() {
    let w = [400.0, 410.0, 413.5, 431.0, 450.0];
    let v = ob::anyv("v", 5, -1e5, 1e5);
    let p = VSPD::new((0..5).map(|k| Sample::new(w[k], v[k])).collect());
    for (s, e, h) in ALIGN { align(&p, s, e, h); }
}
/// many samples, the irregular gap anywhere: ramps stay ramps, nothing overshoots its neighbours
pub fn r_align_varying_many() {
    for n in [6usize, 7, 9] {
        for gap in 0..n - 1 {
            let v = ob::anyv("v", n, -1e5, 1e5);
            let (k, m) = (ob::any("k", -1e4, 1e4), ob::any("m", -1e4, 1e4));
            let mut w = Vec::new();
            let mut nm = 400.0;
            for i in 0..n { w.push(nm); nm += if i == gap { 3.5 } else { 8.0 }; }
            let p = VSPD::new((0..n).map(|i| Sample::new(w[i], v[i])).collect());
            align(&p, 400.0, 450.0, 5.0);
            align(&p, 391.0, 481.0, 9.0);
            let r = VSPD::new((0..n).map(|i| Sample::new(w[i], k * w[i] + m)).collect());
            let q = r.interpolate(SpdShape::new(400.0, w[n - 1], 2.0));
            for s in q.iter() { ob::zero("ramps stay ramps", s.v - (k * s.nm + m), 1e-9); }
        }
    }
}
/// no wavelength of the shape lies inside the spectrum: it is beyond either end, or steps over it
pub fn r_align_outside() {
    for (n, s, h) in [(2usize, 500.2, 0.5), (4, 500.1, 0.1), (7, 500.1, 0.1), (6, 401.0, 1.0), (9, 300.0, 5.0), (8, 800.0, 10.0), (3, 800.0, 10.0)] {
        let p = grid(n, s, h);
        for shape in [SpdShape::new(450.0, 470.0, 10.0), SpdShape::new(700.0, 702.0, 0.5), SpdShape::new(395.0, 765.0, 37.0), SpdShape::new(400.0, 750.0, 50.5)] {
            let q = p.align(shape);
            let w: Vec<f64> = shape.iter().collect();
            ob::holds("one sample per wavelength of the shape", q.len() == w.len());
            ob::holds("has the shape", q.shape() == shape);
            for k in 0..w.len() {
                ob::zero("on the grid of the shape", q.samples()[k].nm - w[k], 1e-9);
                let (a, b) = (w[k] <= p.start(), w[k] >= p.end());
                if a { ob::zero("boundary value before the spectrum", q.samples()[k].v - p.samples()[0].v, 1e-9); }
                if b { ob::zero("boundary value after the spectrum", q.samples()[k].v - p.samples()[n - 1].v, 1e-9); }
                ob::holds("every wavelength is outside", a || b);
            }
        }
    }
}
pub fn r_cmf() {
    let c = CMF { x_bar: grid(8, 400.0, 10.0), y_bar: grid(8, 400.0, 10.0), z_bar: grid(8, 400.0, 10.0) };
    ob::holds("shape of the functions", c.shape() == c.x_bar.shape());
    for (s, e, h) in [(400.0, 470.0, 5.0), (380.0, 480.0, 10.0), (420.0, 445.0, 2.5)] {
        let shape = SpdShape::new(s, e, h);
        let d = c.align(shape);
        let (x, y, z) = (c.x_bar.align(shape), c.y_bar.align(shape), c.z_bar.align(shape));
        ob::holds("aligned shape", d.shape() == shape);
        for (a, b) in [(&d.x_bar, &x), (&d.y_bar, &y), (&d.z_bar, &z)] {
            ob::holds("one sample per wavelength", a.len() == b.len());
            for k in 0..a.len() {
                ob::zero("each function aligned on its own (wavelength)", a.samples()[k].nm - b.samples()[k].nm, 1e-9);
                ob::same("each function aligned on its own (value)", a.samples()[k].v, b.samples()[k].v, 1e-9);
            }
        }
    }
}
fn trim(p: &VSPD, s: f64, e: f64) {
    let q = p.trim(SpdShape::new(s, e, 1.0));
    let want: Vec<Sample> = p.samples().iter().filter(|t| t.nm >= s && t.nm <= e).copied().collect();
    ob::holds("exactly the samples within the range", q.len() == want.len());
    for k in 0..want.len() {
        ob::zero("same wavelength", q.samples()[k].nm - want[k].nm, 0.0);
        ob::zero("same value", q.samples()[k].v - want[k].v, 0.0);
    }
    ob::zero("starts at its first sample", q.start() - want[0].nm, 0.0);
    ob::zero("ends at its last sample", q.end() - want[want.len() - 1].nm, 0.0);
    ob::holds("keeps the interval", q.interval() == p.interval());
}
pub fn r_trim() {
    let p = grid(11, 400.0, 10.0);
    for (s, e) in [(400.0, 500.0), (380.0, 520.0), (410.0, 490.0), (410.1, 489.9), (409.9, 490.1), (435.0, 445.0), (440.0, 440.0), (300.0, 400.0), (500.0, 600.0), (395.0, 455.0), (400.000001, 499.999999), (399.999999, 440.000001)] { trim(&p, s, e); }
    let v = ob::anyv("w", 5, -1e5, 1e5);
    let w = [400.0, 410.0, 413.5, 431.0, 450.0];
    let p = VSPD::new((0..5).map(|k| Sample::new(w[k], v[k])).collect());
    for (s, e) in [(400.0, 450.0), (405.0, 445.0), (410.0, 431.0), (380.0, 413.5), (413.6, 500.0)] { trim(&p, s, e); }
}
/// bounds anywhere between samples
pub fn r_trim_any() {
    let p = grid(7, 400.0, 10.0);
    for (i, j) in [(0, 6), (1, 4), (3, 3), (2, 5)] {
        let s = ob::any("s", 390.0 + 10.0 * i as f64 + 1e-6, 400.0 + 10.0 * i as f64);
        let e = ob::any("e", 400.0 + 10.0 * j as f64, 410.0 + 10.0 * j as f64 - 1e-6);
        let q = p.trim(SpdShape::new(s, e, 10.0));
        ob::holds("exactly the samples within the range", q.len() == j - i + 1);
        for k in 0..q.len() {
            ob::zero("same wavelength", q.samples()[k].nm - p.samples()[k + i].nm, 0.0);
            ob::zero("same value", q.samples()[k].v - p.samples()[k + i].v, 0.0);
        }
    }
}
/// superposition: every resampling is linear in the values
pub fn r_linear() {
    let n = 7;
    let (a, b, k) = (ob::anyv("a", n, -1e5, 1e5), ob::anyv("b", n, -1e5, 1e5), ob::any("k", -1e4, 1e4));
    let mk = |f: &dyn Fn(usize) -> f64| VSPD::new((0..n).map(|i| Sample::new(400.0 + 10.0 * i as f64, f(i))).collect());
    let (p, q, r) = (mk(&|i| a[i]), mk(&|i| b[i]), mk(&|i| k * a[i] + b[i]));
    let s = SpdShape::new(385.0, 480.0, 5.0);
    for (x, y, z) in [(p.align(s), q.align(s), r.align(s)), (p.interpolate(s), q.interpolate(s), r.interpolate(s)), (p.extrapolate(SpdShape::new(380.0, 500.0, 10.0)), q.extrapolate(SpdShape::new(380.0, 500.0, 10.0)), r.extrapolate(SpdShape::new(380.0, 500.0, 10.0)))] {
        for i in 0..z.len() { ob::same("superposition", z.samples()[i].v, k * x.samples()[i].v + y.samples()[i].v, 1e-9); }
    }
}
