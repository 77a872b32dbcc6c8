//! C26: the printed form of colours, samples, shapes and spectra.
use crate::ob;
use colorspace::vspd::*;
use colorspace::rgb::*;
use colorspace::xyz::xyz;
use colorspace::{SpdShape, VSPD};
use std::fmt::{Debug, Display};

fn show<T: Display>(x: &T) { let f = ob::recorder(); ob::zero("printing succeeds", if x.fmt(f).is_ok() { 0.0 } else { 1.0 }, 0.0); }
fn debug<T: Debug>(x: &T) { let f = ob::recorder(); ob::zero("printing succeeds", if x.fmt(f).is_ok() { 0.0 } else { 1.0 }, 0.0); }
fn count(n: usize) {
    ob::zero("every component is printed once", ob::numbers() as f64 - n as f64, 0.0);
    ob::zero("numbers are kept apart", if ob::separated() { 0.0 } else { 1.0 }, 0.0);
}
fn is(i: usize, x: f64) { ob::zero("the component is printed in its place, in full precision", ob::number(i) - x, 0.0); }
fn is32(i: usize, x: f32) { ob::zero32("the component is printed in its place, in full precision", ob::number32(i) - x, 0.0); }

pub fn r_rgb() {
    let (a, b, c) = (ob::any("a", -1e6, 1e6), ob::any("b", -1e6, 1e6), ob::any("c", -1e6, 1e6));
    show(&rgbf(a, b, c)); count(3); is(0, a); is(1, b); is(2, c);
}
pub fn r_rgb32() {
    let (a, b, c) = (ob::any32("a", -1e6, 1e6), ob::any32("b", -1e6, 1e6), ob::any32("c", -1e6, 1e6));
    show(&rgbf(a, b, c)); count(3); is32(0, a); is32(1, b); is32(2, c);
}
pub fn r_rgb_bytes() {
    let (a, b, c) = (ob::anyu("a", 0, 255), ob::anyu("b", 0, 255), ob::anyu("c", 0, 255));
    show(&rgbu8(a as u8, b as u8, c as u8)); count(3); is(0, a as f64); is(1, b as f64); is(2, c as f64);
}
pub fn r_rgb_words() {
    let (a, b, c) = (ob::anyu("a", 0, 65535), ob::anyu("b", 0, 65535), ob::anyu("c", 0, 65535));
    show(&rgbu16(a as u16, b as u16, c as u16)); count(3); is(0, a as f64); is(1, b as f64); is(2, c as f64);
}
pub fn r_xyz() {
    let (a, b, c) = (ob::any("a", -1e6, 1e6), ob::any("b", -1e6, 1e6), ob::any("c", -1e6, 1e6));
    show(&xyz(a, b, c)); count(3); is(0, a); is(1, b); is(2, c);
}
pub fn r_xyz32() {
    let (a, b, c) = (ob::any32("a", -1e6, 1e6), ob::any32("b", -1e6, 1e6), ob::any32("c", -1e6, 1e6));
    show(&xyz(a, b, c)); count(3); is32(0, a); is32(1, b); is32(2, c);
}
pub fn r_sample() {
    let (a, b) = (ob::any("a", -1e6, 1e6), ob::any("b", -1e6, 1e6));
    let s = Sample::new(a, b);
    show(&s); count(2); is(0, a); is(1, b);
    debug(&s); count(2); is(0, a); is(1, b);
}
pub fn r_shape() {
    let (a, b, c) = (ob::any("a", 1.0, 9e3), ob::any("b", 1.0, 9e3), ob::any("c", 0.1, 500.0));
    show(&SpdShape::new(a, b, c)); count(3); is(0, a); is(1, b); is(2, c);
    show(&Interval::Uniform(c)); count(1); is(0, c);
    let (a, b, c) = (ob::any32("p", 1.0, 9e3), ob::any32("q", 1.0, 9e3), ob::any32("r", 0.1, 500.0));
    show(&SpdShape::new(a, b, c)); count(3); is32(0, a); is32(1, b); is32(2, c);
}
pub fn r_shape_varying() {
    let (a, b) = (ob::any("a", 1.0, 9e3), ob::any("b", 1.0, 9e3));
    show(&SpdShape { start: a, end: b, interval: Interval::Varying }); count(2); is(0, a); is(1, b);
    ob::zero("a varying interval is named", if ob::mentions(2, "arying") { 0.0 } else { 1.0 }, 0.0);
}
fn spectrum(s: &VSPD, shape: &[f64], nm: &[f64], v: &[f64]) {
    let k = shape.len();
    count(k + 2 * v.len());
    for (i, x) in shape.iter().enumerate() { is(i, *x); }
    for i in 0..v.len() { is(k + 2 * i, nm[i]); is(k + 2 * i + 1, v[i]); }
}
/// a spectrum: its shape, then each wavelength with its value
pub fn r_spectrum() {
    for n in [2usize, 3, 5, 11, 40, 95, 421] {
        let v = ob::anyv("v", n, -1e5, 1e5);
        let nm: Vec<f64> = (0..n).map(|k| 400.0 + 5.0 * k as f64).collect();
        let s = VSPD::new((0..n).map(|k| Sample::new(nm[k], v[k])).collect());
        let shape = [400.0, 400.0 + 5.0 * (n - 1) as f64, 5.0];
        show(&s); spectrum(&s, &shape, &nm, &v);
        debug(&s); spectrum(&s, &shape, &nm, &v);
    }
}
pub fn r_spectrum_varying() {
    let v = ob::anyv("v", 4, -1e5, 1e5);
    let nm = [400.0, 405.0, 420.0, 421.5];
    let s = VSPD::new((0..4).map(|k| Sample::new(nm[k], v[k])).collect());
    show(&s); spectrum(&s, &[400.0, 421.5], &nm, &v);
    ob::zero("a varying interval is named", if ob::mentions(2, "arying") { 0.0 } else { 1.0 }, 0.0);
    debug(&s); spectrum(&s, &[400.0, 421.5], &nm, &v);
    ob::zero("a varying interval is named", if ob::mentions(2, "arying") { 0.0 } else { 1.0 }, 0.0);
}
/// the fixed-shape spectrum: its forty values in order
pub fn r_fixed() {
    let v = ob::anyv32("v", 40, -1e5, 1e5);
    let mut a = [0.0f32; 40];
    a.copy_from_slice(&v);
    let s = colorspace::spd::SPD::new(a);
    show(&s); count(40);
    for i in 0..40 { is32(i, v[i]); }
    debug(&s); count(40);
    for i in 0..40 { is32(i, v[i]); }
}
