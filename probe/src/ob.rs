//! Vocabulary of the obligations.  Bodies are irrelevant: the analyser gives these functions their meaning
//! (engine/natives.py, `ob`); the crate is compiled to MIR and never run.
#[inline(never)]
pub fn any(_n: &'static str, lo: f64, _hi: f64) -> f64 { lo }
#[inline(never)]
pub fn any32(_n: &'static str, lo: f32, _hi: f32) -> f32 { lo }
#[inline(never)]
pub fn anyv(_n: &'static str, k: usize, lo: f64, _hi: f64) -> Vec<f64> { vec![lo; k] }
#[inline(never)]
pub fn anyv32(_n: &'static str, k: usize, lo: f32, _hi: f32) -> Vec<f32> { vec![lo; k] }
#[inline(never)]
pub fn anyu(_n: &'static str, lo: usize, _hi: usize) -> usize { lo }
#[inline(never)]
pub fn assume(_c: bool) {}
#[inline(never)]
pub fn zero(_l: &'static str, _r: f64, _tol: f64) {}
#[inline(never)]
pub fn zero32(_l: &'static str, _r: f32, _tol: f32) {}
/// equal up to tol * max(1, |a|, |b|)
#[inline(never)]
pub fn same(_l: &'static str, _a: f64, _b: f64, _tol: f64) {}
#[inline(never)]
pub fn same32(_l: &'static str, _a: f32, _b: f32, _tol: f32) {}
#[inline(never)]
pub fn holds(_l: &'static str, _c: bool) {}
/// the value does not depend on any narrowing to single precision
#[inline(never)]
pub fn double(_l: &'static str, _x: f64) {}
#[inline(never)]
pub fn panics<F: FnOnce()>(_l: &'static str, f: F) { f() }
#[inline(never)]
pub fn returns<F: FnOnce()>(_l: &'static str, f: F) { f() }
#[inline(never)]
pub fn isnan(_x: f64) -> bool { false }
/// from here on every static is in its initial state, as in a new process
#[inline(never)]
pub fn forget() {}
/// from here on the call has been made any number of times: a counter that is only counted up has any value
#[inline(never)]
pub fn many_calls<F: Fn()>(f: F) { f() }

/// a formatter that records what is printed with it: texts and numbers, in order
#[inline(never)]
pub fn recorder() -> &'static mut std::fmt::Formatter<'static> { unreachable!() }
/// how many numbers the recorder was given
#[inline(never)]
pub fn numbers() -> usize { 0 }
/// the i-th number, as printed
#[inline(never)]
pub fn number(_i: usize) -> f64 { 0.0 }
#[inline(never)]
pub fn number32(_i: usize) -> f32 { 0.0 }
/// no two numbers run together, and no text could be read as part of a number
#[inline(never)]
pub fn separated() -> bool { true }
/// the text between the i-th number and the one before it contains this
#[inline(never)]
pub fn mentions(_i: usize, _t: &'static str) -> bool { true }
