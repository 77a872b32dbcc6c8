//! C16: spectrum -> XYZ (ASTM E308).
use crate::ob;
use colorspace::cmf::{CIE_1931_2_DEGREE, CMF};
use colorspace::illuminant::spd::*;
use colorspace::vspd::*;
use colorspace::xyz::*;
use colorspace::{SpdShape, VSPD};

fn spec(v: &Vec<f64>, s: f64, h: f64) -> VSPD { VSPD::new((0..v.len()).map(|k| Sample::new(s + k as f64 * h, v[k])).collect()) }
fn full() -> SpdShape<f64> { SpdShape::new(360.0, 780.0, 1.0) }
/// the defining sum over the wavelengths of three aligned tables
fn integral(r: &[f64], i: &[f64], c: &[f64], y: &[f64]) -> f64 {
    let (mut a, mut k) = (0.0, 0.0);
    for j in 0..r.len() { a += r[j] * i[j] * c[j]; k += i[j] * y[j]; }
    100.0 * a / k
}
fn vals(p: &VSPD) -> Vec<f64> { p.values().collect() }
fn every(v: &Vec<f64>, h: usize) -> Vec<f64> { let mut r = Vec::new(); let mut k = 0; while k < v.len() { r.push(v[k]); k += h; } r }
fn is(xyz: XYZf64, r: &Vec<f64>, i: &Vec<f64>, c: &CMF, h: usize) {
    let (i, x, y, z) = (every(i, h), every(&vals(&c.x_bar), h), every(&vals(&c.y_bar), h), every(&vals(&c.z_bar), h));
    ob::holds("tables cover the range", r.len() == i.len() && x.len() == i.len() && y.len() == i.len() && z.len() == i.len());
    ob::same("X is the normalised sum", xyz.x, integral(r, &i, &x, &y), 1e-8);
    ob::same("Y is the normalised sum", xyz.y, integral(r, &i, &y, &y), 1e-8);
    ob::same("Z is the normalised sum", xyz.z, integral(r, &i, &z, &y), 1e-8);
}
/// sampled on the integration grid
pub fn r_1nm() {
    let v = ob::anyv("r", 421, -1e4, 1e4);
    let x = spec(&v, 360.0, 1.0).to_xyz(&D65, &CIE_1931_2_DEGREE);
    is(x, &v, &vals(&D65.align(full())), &CIE_1931_2_DEGREE.align(full()), 1);
}
pub fn r_1nm_short() {
    let v = ob::anyv("r", 301, -1e4, 1e4);
    let x = spec(&v, 400.0, 1.0).to_xyz(&D65, &CIE_1931_2_DEGREE);
    let e: Vec<f64> = (0..421).map(|k| if k < 40 { v[0] } else if k > 340 { v[300] } else { v[k - 40] }).collect();
    is(x, &e, &vals(&D65.align(full())), &CIE_1931_2_DEGREE.align(full()), 1);
}
pub fn r_1nm_long() {
    let v = ob::anyv("r", 471, -1e4, 1e4);
    let x = spec(&v, 340.0, 1.0).to_xyz(&D65, &CIE_1931_2_DEGREE);
    let e: Vec<f64> = (0..421).map(|k| v[k + 20]).collect();
    is(x, &e, &vals(&D65.align(full())), &CIE_1931_2_DEGREE.align(full()), 1);
}
pub fn r_5nm() {
    let v = ob::anyv("r", 85, -1e4, 1e4);
    let x = spec(&v, 360.0, 5.0).to_xyz(&D50, &CIE_1931_2_DEGREE);
    is(x, &v, &vals(&D50.align(full())), &CIE_1931_2_DEGREE.align(full()), 5);
}
pub fn r_5nm_short() {
    let v = ob::anyv("r", 69, -1e4, 1e4);
    let x = spec(&v, 390.0, 5.0).to_xyz(&D55, &CIE_1931_2_DEGREE);
    let e: Vec<f64> = (0..85).map(|k| if k < 6 { v[0] } else if k > 74 { v[68] } else { v[k - 6] }).collect();
    is(x, &e, &vals(&D55.align(full())), &CIE_1931_2_DEGREE.align(full()), 5);
}
/// every other interval: resampled at 1nm first
fn other(n: usize, s: f64, h: f64) {
    let v = ob::anyv("r", n, -1e4, 1e4);
    let p = spec(&v, s, h);
    let x = p.to_xyz(&D65, &CIE_1931_2_DEGREE);
    is(x, &vals(&p.align(full())), &vals(&D65.align(full())), &CIE_1931_2_DEGREE.align(full()), 1);
}
pub fn r_other_20() { other(22, 360.0, 20.0) }
pub fn r_other_half() { other(20, 500.0, 0.5) }
pub fn r_other_7() { other(9, 380.0, 7.0) }
pub fn r_other_10_off_grid() { other(36, 385.0, 10.0) }
pub fn r_other_10_little_off_grid() { other(6, 381.0, 10.0); other(5, 503.0, 10.0); other(6, 448.75, 10.0) }
pub fn r_other_10_and_a_half() { other(30, 380.0, 10.5) }
pub fn r_other_near_10() { other(30, 360.0, 10.25); other(12, 360.0, 10.0009765625); other(20, 399.5, 9.875) }
pub fn r_other_near_5_and_1() { other(20, 360.0, 1.25); other(16, 381.0, 5.5); other(12, 360.0, 5.125); other(12, 360.0, 4.875); }
pub fn r_varying() {
    let w = [360.0, 400.0, 470.0, 600.0, 780.0];
    let v = ob::anyv("r", 5, -1e4, 1e4);
    let p = VSPD::new((0..5).map(|k| Sample::new(w[k], v[k])).collect());
    let x = p.to_xyz(&D65, &CIE_1931_2_DEGREE);
    is(x, &vals(&p.align(full())), &vals(&D65.align(full())), &CIE_1931_2_DEGREE.align(full()), 1);
}
/// irregular samples on any part of the range, or outside it
fn irregular(w: &[f64]) {
    let v = ob::anyv("r", w.len(), -1e4, 1e4);
    let p = VSPD::new((0..w.len()).map(|k| Sample::new(w[k], v[k])).collect());
    let x = p.to_xyz(&D65, &CIE_1931_2_DEGREE);
    is(x, &vals(&p.align(full())), &vals(&D65.align(full())), &CIE_1931_2_DEGREE.align(full()), 1);
}
pub fn r_varying_part() { irregular(&[400.0, 410.0, 470.0, 600.0, 690.5]); }
pub fn r_varying_many() { irregular(&[430.0, 440.0, 450.0, 465.0, 470.0, 480.0, 490.0, 500.0]); }
pub fn r_varying_outside() { irregular(&[790.0, 800.0, 815.0]); irregular(&[300.0, 310.0, 315.0]); irregular(&[500.2, 500.3, 500.7]); }
/// outside the range of the observer, or narrower than the integration step, the end values count
pub fn r_outside() { other(3, 800.0, 10.0); other(4, 300.0, 10.0); other(3, 800.0, 1.0); other(7, 200.0, 20.0); other(3, 500.2, 0.25); }
/// 10nm: weighting factors = integration at 1nm of the spectrum interpolated by Lagrange polynomials (cubic inside,
/// quadratic in the first and last interval), continued by its end values
fn lagrange(y: &[f64], x: f64) -> f64 {
    let mut r = 0.0;
    for j in 0..y.len() {
        let mut t = y[j];
        for i in 0..y.len() { if i != j { t = t * (x - i as f64) / (j as f64 - i as f64); } }
        r += t;
    }
    r
}
fn ten(n: usize, s: f64, ill: &VSPD) {
    let v = ob::anyv("r", n, -1e4, 1e4);
    let x = spec(&v, s, 10.0).to_xyz(ill, &CIE_1931_2_DEGREE);
    let off = (s - 360.0) / 10.0;
    let g: Vec<f64> = (0..43).map(|k| { let j = k as f64 - off; if j < 0.0 { v[0] } else if j as usize >= n { v[n - 1] } else { v[j as usize] } }).collect();
    let e: Vec<f64> = (0..421).map(|k| {
        let (i, t) = (k / 10, (k % 10) as f64 / 10.0);
        if k % 10 == 0 { g[i] } else if i == 0 { lagrange(&g[0..3], t) } else if i == 41 { lagrange(&g[40..43], 1.0 + t) } else { lagrange(&g[i - 1..i + 3], 1.0 + t) }
    }).collect();
    is(x, &e, &vals(&ill.align(full())), &CIE_1931_2_DEGREE.align(full()), 1);
}
pub fn r_10nm() { ten(43, 360.0, &D65) }
pub fn r_10nm_short() { ten(36, 380.0, &D65) }
pub fn r_10nm_late() { ten(20, 590.0, &D50) }
pub fn r_10nm_early() { ten(20, 360.0, &D60) }
pub fn r_10nm_long() { ten(60, 340.0, &D65) }
pub fn r_10nm_few() { ten(7, 500.0, &D65) }
pub fn r_10nm_first() { ten(3, 360.0, &D65) }
pub fn r_10nm_last() { ten(4, 750.0, &D65) }
pub fn r_10nm_last_long() { ten(8, 740.0, &D55) }
pub fn r_10nm_two() { ten(2, 550.0, &D65) }
/// the perfect diffuser has Y = 100 under any illuminant, whatever the sampling; nothing has XYZ = 0
fn diffuser(ill: &VSPD, shapes: &[(f64, f64, f64)]) {
    for (s, e, h) in shapes {
        let c = ob::any("c", 0.0, 1e4);
        let x = VSPD::constant(SpdShape::new(*s, *e, *h), c).to_xyz(ill, &CIE_1931_2_DEGREE);
        ob::zero("Y of a flat reflector", x.y - 100.0 * c, 1e-7);
    }
}
pub fn r_diffuser_d65() { diffuser(&D65, &[(360.0, 780.0, 5.0), (380.0, 730.0, 10.0)]) }
pub fn r_diffuser_d65_other() { diffuser(&D65, &[(400.0, 700.0, 20.0), (400.0, 700.0, 1.0)]) }
pub fn r_diffuser_d50() { diffuser(&D50, &[(360.0, 780.0, 10.0), (400.0, 700.0, 5.0)]) }
pub fn r_diffuser_varying() {
    let c = ob::any("c", 0.0, 1e4);
    let w = [400.0, 405.0, 455.0, 600.0, 700.0, 720.0];
    let x = VSPD::new((0..6).map(|k| Sample::new(w[k], c)).collect()).to_xyz(&D65, &CIE_1931_2_DEGREE);
    ob::zero("Y of a flat reflector", x.y - 100.0 * c, 1e-7);
    let d = VSPD::constant(SpdShape::new(360.0, 780.0, 1.0), 1.0).to_xyz(&D65, &CIE_1931_2_DEGREE);
    ob::zero("X of a flat reflector", x.x - d.x * c, 1e-7);
    ob::zero("Z of a flat reflector", x.z - d.z * c, 1e-7);
}
/// the strength of the illuminant does not matter
pub fn r_illuminant_scale() {
    let v = ob::anyv("r", 9, 0.0, 1e4);
    let k = ob::any("k", 0.01, 100.0);
    let p = spec(&v, 420.0, 10.0);
    let i = VSPD::new([300.0, 560.0, 830.0].iter().map(|x| Sample::new(*x, 3.0 + *x / 400.0)).collect());
    let (a, b) = (p.to_xyz(&i, &CIE_1931_2_DEGREE), p.to_xyz(&(&i * k), &CIE_1931_2_DEGREE));
    ob::same("X does not depend on the illuminant's scale", a.x, b.x, 1e-8);
    ob::same("Y does not depend on the illuminant's scale", a.y, b.y, 1e-8);
    ob::same("Z does not depend on the illuminant's scale", a.z, b.z, 1e-8);
}
/// any illuminant and any observer (linear between a few symbolic samples)
fn any_tables(n: usize, h: f64) {
    let v = ob::anyv("r", n, 0.0, 1e4);
    let p = spec(&v, 440.0, h);
    let i = VSPD::new({ let w = ob::anyv("i", 4, 1.0, 9.0); (0..4).map(|k| Sample::new(330.0 + 170.0 * k as f64, w[k])).collect() });
    let cm = |t: &'static str| { let w = ob::anyv(t, 3, 0.5, 2.0); spec(&w, 360.0, 210.0) };
    let c = CMF { x_bar: cm("x"), y_bar: cm("y"), z_bar: cm("z") };
    let x = p.to_xyz(&i, &c);
    let g = if h == 10.0 {
        let y: Vec<f64> = (0..43).map(|k| if k < 8 { v[0] } else if k - 8 >= n { v[n - 1] } else { v[k - 8] }).collect();
        (0..421).map(|k| {
            let (i, t) = (k / 10, (k % 10) as f64 / 10.0);
            if k % 10 == 0 { y[i] } else if i == 0 { lagrange(&y[0..3], t) } else if i == 41 { lagrange(&y[40..43], 1.0 + t) } else { lagrange(&y[i - 1..i + 3], 1.0 + t) }
        }).collect()
    } else { let g = vals(&p.align(full())); if h == 5.0 { every(&g, 5) } else { g } };
    is(x, &g, &vals(&i.align(full())), &c.align(full()), if h == 5.0 { 5 } else { 1 });
}
pub fn r_any_tables_20() { any_tables(4, 20.0) }
pub fn r_any_tables_10() { any_tables(4, 10.0) }
pub fn r_any_tables_5() { any_tables(4, 5.0) }
pub fn r_any_tables_1() { any_tables(4, 1.0) }
