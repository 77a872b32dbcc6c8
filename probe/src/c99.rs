//! development probe
use crate::ob;
use std::cell::{Cell, RefCell, OnceCell};
use std::collections::HashMap;
use std::sync::atomic::*;
use std::sync::{LazyLock, Mutex, OnceLock, RwLock};
static A: AtomicU64 = AtomicU64::new(0);
fn f_atomic(x: f64) -> f64 { let n = A.fetch_add(1, Ordering::Relaxed); if n == 2 { x * 2.0 } else { x } }
pub fn r_atomic() { let a = ob::any("a", 0.0, 1.0); for _ in 0..4 { ob::zero("BAD same", f_atomic(a) - a, 1e-9); } }
static B: AtomicBool = AtomicBool::new(false);
fn f_bool(x: f64) -> f64 { if !B.swap(true, Ordering::SeqCst) { x * 2.0 } else { x } }
pub fn r_bool() { let a = ob::any("a", 0.0, 1.0); ob::zero("ok", f_bool(a) - 2.0 * a, 1e-9); ob::zero("ok", f_bool(a) - a, 1e-9); }
static M: Mutex<Option<(f64, f64)>> = Mutex::new(None);
fn f_mutex(x: f64) -> f64 { let mut g = M.lock().unwrap(); if let Some((k, v)) = *g { if (k - x).abs() < 0.1 { return v; } } *g = Some((x, x * 2.0)); x * 2.0 }
pub fn r_mutex() { let a = ob::any("a", 0.0, 1.0); let b = ob::any("b", 0.0, 1.0); let p = f_mutex(a); f_mutex(b); ob::zero("BAD same", f_mutex(a) - p, 1e-9); }
static RW: RwLock<Option<f64>> = RwLock::new(None);
fn f_rw(x: f64) -> f64 { if let Some(v) = *RW.read().unwrap() { return v; } *RW.write().unwrap() = Some(x); x }
pub fn r_rw() { let a = ob::any("a", 0.0, 1.0); let b = ob::any("b", 0.0, 1.0); f_rw(a); ob::zero("BAD", f_rw(b) - b, 1e-9); }
static OL: OnceLock<f64> = OnceLock::new();
fn f_ol(x: f64) -> f64 { *OL.get_or_init(|| x * 3.0) / 3.0 }
pub fn r_oncelock() { let a = ob::any("a", 0.0, 1.0); let b = ob::any("b", 0.0, 1.0); f_ol(a); ob::zero("BAD", f_ol(b) - b, 1e-9); }
static OV: OnceLock<Vec<f64>> = OnceLock::new();
fn f_ov(x: &[f64]) -> f64 { let w = OV.get_or_init(|| x.iter().map(|v| v * 2.0).collect()); w.iter().zip(x).map(|(a, b)| a * b).sum() }
pub fn r_oncelock_vec() { let a = ob::anyv("a", 3, 0.0, 1.0); let b = ob::anyv("b", 3, 0.0, 1.0); f_ov(&a); ob::zero("BAD", f_ov(&b) - 2.0 * (b[0] * b[0] + b[1] * b[1] + b[2] * b[2]), 1e-9); }
static LZ: LazyLock<Vec<f64>> = LazyLock::new(|| (0..5).map(|i| i as f64).collect());
pub fn r_lazylock() { ob::zero("ok", LZ[3] - 3.0, 1e-9); ob::zero("ok", LZ.iter().sum::<f64>() - 10.0, 1e-9); }
static CM: LazyLock<Mutex<HashMap<u64, f64>>> = LazyLock::new(|| Mutex::new(HashMap::new()));
static CV: LazyLock<Mutex<Vec<(f64, f64)>>> = LazyLock::new(Default::default);
fn f_cm(k: u64, x: f64) -> f64 { *CM.lock().unwrap().entry(k).or_insert_with(|| x * 2.0) }
pub fn r_mapcache() { let a = ob::any("a", 0.0, 1.0); let b = ob::any("b", 0.0, 1.0); f_cm(1, a); ob::zero("ok", f_cm(2, b) - 2.0 * b, 1e-9); ob::zero("BAD", f_cm(1, b) - 2.0 * b, 1e-9); }
fn f_cm2(k: u64, x: f64) -> f64 { let mut g = CM.lock().unwrap(); if let Some(v) = g.get(&k) { return *v; } g.insert(k, x); x }
pub fn r_mapcache2() { let a = ob::any("a", 0.0, 1.0); let b = ob::any("b", 0.0, 1.0); f_cm2(1, a); ob::zero("ok", f_cm2(2, b) - b, 1e-9); ob::zero("BAD", f_cm2(1, b) - b, 1e-9); }
fn f_cm3(x: f64) -> f64 { f_cm2(x.to_bits(), x) }
pub fn r_mapcache3() { let a = ob::any("a", 0.0, 1.0); let b = ob::any("b", 0.0, 1.0); f_cm3(a); ob::zero("ok", f_cm3(b) - b, 1e-9); ob::zero("ok", f_cm3(a) - a, 1e-9); }
fn f_cv(x: f64) -> f64 { let mut g = CV.lock().unwrap(); if let Some(&(_, v)) = g.iter().find(|(k, _)| (*k - x).abs() < 1e-3) { return v; } g.push((x, x + 1.0)); x + 1.0 }
pub fn r_veccache() { let a = ob::any("a", 0.0, 1.0); let b = ob::any("b", 0.0, 1.0); f_cv(a); ob::zero("BAD", f_cv(b) - b - 1.0, 1e-9); }
thread_local! { static TL: RefCell<Option<(f64, f64)>> = RefCell::new(None); static TC: Cell<f64> = const { Cell::new(0.0) }; static TN: Cell<u32> = Cell::new(0); static TO: OnceCell<f64> = const { OnceCell::new() }; static TV: RefCell<Vec<f64>> = RefCell::new(vec![]); }
fn f_tl(x: f64) -> f64 { TL.with(|c| { let mut c = c.borrow_mut(); if let Some((k, v)) = *c { if (k - x).abs() < 0.1 { return v; } } *c = Some((x, x)); x }) }
pub fn r_tl_refcell() { let a = ob::any("a", 0.0, 1.0); let b = ob::any("b", 0.0, 1.0); f_tl(a); ob::zero("BAD", f_tl(b) - b, 1e-9); }
fn f_tc(x: f64) -> f64 { TC.with(|c| { let o = c.get(); c.set(x); x + o }) }
pub fn r_tl_cell() { let a = ob::any("a", 0.0, 1.0); ob::zero("ok", f_tc(a) - a, 1e-9); ob::zero("BAD", f_tc(a) - a, 1e-9); }
fn f_tn(x: f64) -> f64 { TN.set(TN.get() + 1); if TN.get() > 2 { x + 1.0 } else { x } }
pub fn r_tl_count() { let a = ob::any("a", 0.0, 1.0); for _ in 0..4 { ob::zero("BAD", f_tn(a) - a, 1e-9); } }
fn f_to(x: f64) -> f64 { TO.with(|o| *o.get_or_init(|| x)) }
pub fn r_tl_once() { let a = ob::any("a", 0.0, 1.0); let b = ob::any("b", 0.0, 1.0); f_to(a); ob::zero("BAD", f_to(b) - b, 1e-9); }
fn f_tv(x: f64) -> f64 { TV.with_borrow_mut(|v| { v.push(x); v.iter().sum() }) }
pub fn r_tl_vec() { let a = ob::any("a", 0.0, 1.0); ob::zero("ok", f_tv(a) - a, 1e-9); ob::zero("BAD", f_tv(a) - a, 1e-9); }
static mut SM: f64 = 0.0;
fn f_sm(x: f64) -> f64 { unsafe { let o = SM; SM = x; x + o } }
pub fn r_static_mut() { let a = ob::any("a", 0.0, 1.0); ob::zero("ok", f_sm(a) - a, 1e-9); ob::zero("BAD", f_sm(a) - a, 1e-9); }
static mut SA: [f64; 3] = [0.0; 3];
static mut SN: usize = 0;
fn f_sa(x: f64) -> f64 { unsafe { SA[SN % 3] = x; SN += 1; SA[0] + SA[1] + SA[2] } }
pub fn r_static_arr() { let a = ob::any("a", 0.0, 1.0); ob::zero("ok", f_sa(a) - a, 1e-9); ob::zero("BAD", f_sa(a) - a, 1e-9); }
pub fn r_refcell_local() { let c = RefCell::new(vec![1.0]); { c.borrow_mut().push(ob::any("a", 0.0, 1.0)); } let n = c.borrow().len(); ob::holds("ok", n == 2); c.replace(vec![]); ob::holds("ok", c.borrow().is_empty()); }
pub fn r_cell_local() { let c = Cell::new(1.0); c.set(c.get() + 1.0); ob::zero("ok", c.get() - 2.0, 1e-9); ob::zero("ok", c.replace(5.0) - 2.0, 1e-9); ob::zero("ok", c.take() - 5.0, 1e-9); }
pub fn r_arc_mutex() { let m = std::sync::Arc::new(Mutex::new(1.0)); { *m.lock().unwrap() += 1.0; } ob::zero("ok", *m.lock().unwrap() - 2.0, 1e-9); }
pub fn r_hash_order() { let mut m = HashMap::new(); for i in 0..6 { m.insert(i, i as f64); } let v: Vec<f64> = m.values().cloned().collect(); ob::zero("sum ok", v.iter().sum::<f64>() - 15.0, 1e-9); ob::zero("BAD first", v[0], 1e-9); }
pub fn r_hash_iter() { let mut m: HashMap<String, f64> = HashMap::new(); for (k, v) in [("a", 1.0), ("b", 2.0), ("c", 3.0)] { m.insert(k.to_string(), v); } let mut s = 0.0; for (_, v) in &m { s += v; } ob::zero("sum ok", s - 6.0, 1e-9); for v in m.values_mut() { *v *= 2.0; } ob::zero("ok", m["b"] - 4.0, 1e-9); let n: HashMap<String, f64> = m.iter().map(|(k, v)| (k.clone(), v + 1.0)).collect(); ob::zero("ok", n["c"] - 7.0, 1e-9); let b: std::collections::BTreeMap<i32, f64> = [(3, 1.0), (1, 5.0), (2, 7.0)].into_iter().collect(); let v: Vec<f64> = b.values().copied().collect(); ob::zero("ok", v[0] - 5.0, 1e-9); ob::zero("ok", v[2] - 1.0, 1e-9); }
pub fn r_hash_set() { let mut m = std::collections::HashSet::new(); ob::holds("ok", m.insert(3)); ob::holds("ok", !m.insert(3)); ob::holds("ok", m.contains(&3) && m.len() == 1); }
pub mod mem { use crate::ob; use colorspace::rgb::*;
pub fn r_bad_view_len() { let v = ob::anyv("v", 6, 0.0, 1.0); let s = unsafe { std::slice::from_raw_parts(v.as_ptr() as *const RGBf64, 3) }; ob::zero("UB read", s[2].r, 1e9); }
pub fn r_bad_view_len_noread() { let v = ob::anyv("v", 6, 0.0, 1.0); let s = unsafe { std::slice::from_raw_parts(v.as_ptr() as *const RGBf64, 3) }; ob::zero("UB", s[0].r, 1e9); }
pub fn r_ok_view() { let v = ob::anyv("v", 6, 0.0, 1.0); let s = unsafe { std::slice::from_raw_parts(v.as_ptr().add(3) as *const RGBf64, 1) }; ob::zero("ok", s[0].r - v[3], 1e-9); let s = unsafe { std::slice::from_raw_parts(v.as_ptr().add(3), 3) }; ob::zero("ok", s[2] - v[5], 1e-9); }
pub fn r_setlen() { let mut v: Vec<f64> = Vec::with_capacity(4); unsafe { v.set_len(3); } v[0] = 1.0; v[1] = 2.0; ob::zero("ok", v[1] - 2.0, 1e-9); ob::zero("UB uninit", v[2], 1e-9); }
pub fn r_setlen_write() { let mut v: Vec<f64> = Vec::with_capacity(4); unsafe { for i in 0..4 { v.as_mut_ptr().add(i).write(i as f64); } v.set_len(4); } ob::zero("ok", v[3] - 3.0, 1e-9); }
pub fn r_setlen_long() { let mut v: Vec<f64> = Vec::with_capacity(2); unsafe { v.set_len(3); } ob::holds("UB", v.len() == 3); }
pub fn r_oob_read() { let v = ob::anyv("v", 6, 0.0, 1.0); ob::zero("UB", unsafe { *v.as_ptr().add(6) }, 1e9); }
pub fn r_oob_unchecked() { let v = ob::anyv("v", 6, 0.0, 1.0); ob::zero("UB", unsafe { *v.get_unchecked(6) }, 1e9); }
pub fn r_oob_range() { let v = ob::anyv("v", 6, 0.0, 1.0); ob::zero("UB", unsafe { v.get_unchecked(3..7)[0] }, 1e9); }
pub fn r_oob_write() { let mut v = ob::anyv("v", 6, 0.0, 1.0); unsafe { *v.as_mut_ptr().add(6) = 1.0; } ob::zero("x", v[0] - v[0], 1e9); }
pub fn r_unwrap_unchecked() { let v: Vec<f64> = vec![]; ob::zero("UB", unsafe { *v.first().unwrap_unchecked() }, 1e9); }
#[derive(Clone, Copy)] pub struct Bad { a: f32, b: f32, c: f32 }
pub fn r_transmute_arr() { let a = [1.0f32, 2.0, 3.0]; let c: RGBf32 = unsafe { std::mem::transmute(a) }; ob::zero32("ok", c.g - 2.0, 1e-9); }
pub fn r_transmute_unspec() { let a = [1.0f32, 2.0, 3.0]; let c: Bad = unsafe { std::mem::transmute(a) }; ob::zero32("UB", c.b - 2.0, 1e-9); }
pub fn r_view_unspec() { let a = ob::anyv32("v", 6, 0.0, 1.0); let s = unsafe { std::slice::from_raw_parts(a.as_ptr() as *const Bad, 2) }; ob::zero32("UB layout", s[1].a - a[3], 1e-9); }
pub fn r_view_back() { let c = rgbf32(1.0, 2.0, 3.0); let s: &[f32; 3] = unsafe { &*(&c as *const RGBf32 as *const [f32; 3]) }; ob::zero32("ok", s[1] - 2.0, 1e-9); }
pub fn r_view_back2() { let c = [rgbf32(1.0, 2.0, 3.0), rgbf32(4.0, 5.0, 6.0)]; let s = unsafe { std::slice::from_raw_parts(c.as_ptr() as *const f32, 6) }; ob::zero32("ok", s[4] - 5.0, 1e-9); ob::zero32("ok", s.iter().sum::<f32>() - 21.0, 1e-9); }
pub fn r_maybeuninit() { let mut a: [std::mem::MaybeUninit<f64>; 3] = [std::mem::MaybeUninit::uninit(); 3]; for i in 0..3 { a[i].write(i as f64); } let b: [f64; 3] = unsafe { std::mem::transmute(a) }; ob::zero("ok", b[2] - 2.0, 1e-9); }
pub fn r_chunks() { let v = ob::anyv("v", 7, 0.0, 1.0); let mut n = 0; for c in v.chunks_exact(3) { ob::zero("ok", c[1] - v[3 * n + 1], 1e-9); n += 1; } ob::holds("ok", n == 2); let r = v.chunks_exact(3).remainder(); ob::holds("ok", r.len() == 1); let (a, b) = v.split_at(4); ob::zero("ok", b[0] - v[4], 1e-9); let (p, m, q) = unsafe { v.align_to::<f64>() }; ob::holds("ok", p.len() + m.len() + q.len() == 7); }
}
/// standard library idioms a refactoring may use: each computes a known value
pub mod idioms {
    use crate::ob;
    use std::collections::{BTreeMap, HashSet, VecDeque, BTreeSet};
    fn v(n: usize) -> Vec<f64> { ob::anyv("v", n, -5.0, 5.0) }
    fn ok(a: f64, b: f64) { ob::same("ok", a, b, 1e-9); }
    pub fn r_step_by_range() { let x = v(20); let mut s = 0.0; for i in (1..20).step_by(7) { s += x[i]; } ok(s, x[1] + x[8] + x[15]); }
    pub fn r_step_by_one() { let x = v(20); let mut s = 0.0; for i in (1..20).step_by(1) { s += x[i]; } ok(s, x[1..].iter().sum()); }
    pub fn r_step_by_incl() { let x = v(20); let mut s = 0.0; for i in (0..=18).step_by(6) { s += x[i]; } ok(s, x[0] + x[6] + x[12] + x[18]); }
    pub fn r_step_by_slice() { let x = v(7); ok(x.iter().skip(1).step_by(3).sum(), x[1] + x[4]); }
    pub fn r_step_by_rev() { let x = v(9); let mut s = vec![]; for i in (0..9).rev().step_by(4) { s.push(x[i]); } ok(s[0], x[8]); ok(s[2], x[0]); ob::holds("ok", s.len() == 3); }
    pub fn r_windows() { let x = v(5); let d: Vec<f64> = x.windows(2).map(|w| w[1] - w[0]).collect(); ob::holds("ok", d.len() == 4); ok(d[3], x[4] - x[3]); }
    pub fn r_windows_all() { let x = [1.0, 2.0, 3.0, 4.5]; ob::holds("ok", !x.windows(2).all(|w| w[1] - w[0] == 1.0)); ob::holds("ok", x.windows(2).any(|w| w[1] - w[0] == 1.5)); }
    pub fn r_chunks() { let x = v(7); let s: Vec<f64> = x.chunks(3).map(|c| c.iter().sum()).collect(); ob::holds("ok", s.len() == 3); ok(s[1], x[3] + x[4] + x[5]); ok(s[2], x[6]); }
    pub fn r_chunks_exact() { let x = v(7); let c = x.chunks_exact(3); let r = c.remainder(); ok(r[0], x[6]); let mut t = 0.0; for q in c { t += q[0] * q[1] * q[2]; } ok(t, x[0] * x[1] * x[2] + x[3] * x[4] * x[5]); }
    pub fn r_chunks_mut() { let mut x = v(6); let y = x.clone(); for c in x.chunks_mut(2) { c.swap(0, 1); } ok(x[4], y[5]); for c in x.chunks_exact_mut(3) { c[0] = 1.0; } ok(x[3], 1.0); }
    pub fn r_split() { let x = v(6); let (a, b) = x.split_at(2); ok(a[1] + b[0], x[1] + x[2]); let (f, r) = x.split_first().unwrap(); ok(*f + r[0], x[0] + x[1]); let (l, r) = x.split_last().unwrap(); ok(*l - r[4], x[5] - x[4]); }
    pub fn r_split_at_mut() { let mut x = v(4); let y = x.clone(); { let (a, b) = x.split_at_mut(2); a[0] = b[1]; b[0] += a[1]; } ok(x[0], y[3]); ok(x[2], y[2] + y[1]); }
    pub fn r_fold_scan() { let x = v(4); ok(x.iter().fold(0.0, |a, b| a * 2.0 + b), ((x[0] * 2.0 + x[1]) * 2.0 + x[2]) * 2.0 + x[3]); let s: Vec<f64> = x.iter().scan(0.0, |a, b| { *a += b; Some(*a) }).collect(); ok(s[3], x[0] + x[1] + x[2] + x[3]); }
    pub fn r_rfold() { let x = v(4); ok(x.iter().rfold(0.0, |a, b| a * 2.0 + b), ((x[3] * 2.0 + x[2]) * 2.0 + x[1]) * 2.0 + x[0]); ok(x.iter().rev().fold(0.0, |a, b| a * 2.0 + b), ((x[3] * 2.0 + x[2]) * 2.0 + x[1]) * 2.0 + x[0]); }
    pub fn r_try_fold() { let x = v(3); let r: Option<f64> = x.iter().try_fold(0.0, |a, b| Some(a + b)); ok(r.unwrap(), x[0] + x[1] + x[2]); }
    pub fn r_reduce() { let x = v(3); ok(x.iter().copied().reduce(|a, b| a * b).unwrap(), x[0] * x[1] * x[2]); ok(x.iter().product(), x[0] * x[1] * x[2]); }
    pub fn r_minmax() { let x = [3.0, 1.0, 2.0f64]; ok(x.iter().copied().fold(f64::INFINITY, f64::min), 1.0); ok(*x.iter().max_by(|a, b| a.partial_cmp(b).unwrap()).unwrap(), 3.0); ok(*x.iter().min_by(|a, b| a.total_cmp(b)).unwrap(), 1.0); }
    pub fn r_minmax_sym() { let x = v(3); let m = x.iter().copied().fold(f64::NEG_INFINITY, f64::max); ob::holds("ok", m >= x[0] && m >= x[1] && m >= x[2] && (m == x[0] || m == x[1] || m == x[2])); }
    pub fn r_minby_key() { let x = [30usize, 10, 20]; ob::holds("ok", *x.iter().min_by_key(|k| **k).unwrap() == 10 && *x.iter().max().unwrap() == 30 && x.iter().min().copied() == Some(10)); }
    pub fn r_flat_map() { let x = v(3); let y: Vec<f64> = x.iter().flat_map(|a| [*a, -*a]).collect(); ob::holds("ok", y.len() == 6); ok(y[5], -x[2]); let z: Vec<f64> = vec![vec![x[0]], vec![x[1], x[2]]].into_iter().flatten().collect(); ok(z[2], x[2]); }
    pub fn r_filter_map() { let y: Vec<usize> = (0..6).filter_map(|i| if i % 2 == 0 { Some(i * 10) } else { None }).collect(); ob::holds("ok", y == vec![0, 20, 40]); let z: Vec<usize> = (0..9usize).filter(|i| i % 4 == 1).collect(); ob::holds("ok", z == [1, 5]); }
    pub fn r_take_skip() { let x = v(8); let y: Vec<f64> = x.iter().skip(2).take(3).copied().collect(); ob::holds("ok", y.len() == 3); ok(y[2], x[4]); let y: Vec<f64> = x.iter().rev().skip(1).take(2).cloned().collect(); ok(y[1], x[5]); }
    pub fn r_take_while() { let y: Vec<usize> = (0..9).skip_while(|x| *x < 3).take_while(|x| *x < 6).collect(); ob::holds("ok", y == [3, 4, 5]); let z: Vec<usize> = (0..9).map_while(|x| if x < 3 { Some(x * 2) } else { None }).collect(); ob::holds("ok", z == [0, 2, 4]); }
    pub fn r_chain_zip() { let x = v(4); let s: f64 = x[..2].iter().chain(x[3..].iter()).sum(); ok(s, x[0] + x[1] + x[3]); let t: f64 = x.iter().zip(x.iter().skip(1)).zip(x.iter().skip(2)).map(|((a, b), c)| a * b * c).sum(); ok(t, x[0] * x[1] * x[2] + x[1] * x[2] * x[3]); }
    pub fn r_chain_once() { let x = v(2); let y: Vec<f64> = std::iter::once(7.0).chain(x.iter().copied()).chain(std::iter::repeat(9.0).take(2)).chain([1.0, 2.0]).collect(); ob::holds("ok", y.len() == 7); ok(y[1], x[0]); ok(y[4], 9.0); ok(y[6], 2.0); }
    pub fn r_from_fn() { let mut i = 0; let y: Vec<usize> = std::iter::from_fn(|| { i += 1; if i < 4 { Some(i) } else { None } }).collect(); ob::holds("ok", y == [1, 2, 3]); let z: Vec<f64> = std::iter::successors(Some(1.0), |x| if *x < 8.0 { Some(x * 2.0) } else { None }).collect(); ob::holds("ok", z == [1.0, 2.0, 4.0, 8.0]); }
    pub fn r_repeat_with() { let mut k = 0.0; let z: Vec<f64> = std::iter::repeat_with(|| { k += 1.5; k }).take(3).collect(); ob::holds("ok", z == [1.5, 3.0, 4.5]); }
    pub fn r_peekable() { let x = [1, 2, 3]; let mut it = x.iter().peekable(); let mut s = 0; while let Some(a) = it.next() { if let Some(b) = it.peek() { s += a * **b; } } ob::holds("ok", s == 8); }
    pub fn r_last_nth() { let x = v(5); ok(*x.iter().last().unwrap(), x[4]); ok(*x.iter().nth(2).unwrap(), x[2]); ok(*x.iter().rev().nth(1).unwrap(), x[3]); ok(*x.iter().nth_back(0).unwrap(), x[4]); }
    pub fn r_position() { let x = [400.0, 410.0, 420.0, 430.0]; ob::holds("ok", x.iter().position(|a| *a > 415.0) == Some(2) && x.iter().rposition(|a| *a < 415.0) == Some(1)); }
    pub fn r_binary_search() { let x = [400.0, 410.0, 420.0, 430.0f64, 440.0]; ob::holds("ok", x.binary_search_by(|a| a.partial_cmp(&420.0).unwrap()) == Ok(2)); ob::holds("ok", x.binary_search_by(|a| a.partial_cmp(&421.0).unwrap()) == Err(3)); ob::holds("ok", x.partition_point(|a| *a <= 431.0) == 4); ob::holds("ok", x.partition_point(|a| *a <= 500.0) == 5); }
    pub fn r_partition_point_sym() { let x = [400.0, 410.0, 420.0, 430.0f64, 440.0]; let y = v(5); let t = ob::any("t", 400.0, 439.9); let i = x.partition_point(|a| *a <= t) - 1; let d = (t - x[i]) / 10.0; let r = y[i] * (1.0 - d) + y[i + 1] * d; let mut w = 0.0; for k in 0..4 { if t >= x[k] && t < x[k + 1] { let d = (t - x[k]) / 10.0; w = y[k] + d * (y[k + 1] - y[k]); } } ok(r, w); }
    pub fn r_sort() { let mut x = vec![3.0, 1.0, 2.0f64]; x.sort_by(|a, b| a.partial_cmp(b).unwrap()); ob::holds("ok", x == [1.0, 2.0, 3.0]); let mut y = vec![5, 3, 9, 1]; y.sort(); ob::holds("ok", y == [1, 3, 5, 9]); y.sort_unstable_by(|a, b| b.cmp(a)); ob::holds("ok", y == [9, 5, 3, 1]); y.reverse(); ob::holds("ok", y == [1, 3, 5, 9]); }
    pub fn r_dedup_retain() { let mut y = vec![1, 1, 2, 3, 3]; y.dedup(); ob::holds("ok", y == [1, 2, 3]); y.retain(|x| *x != 2); ob::holds("ok", y == [1, 3]); }
    pub fn r_vec_ops() { let x = v(3); let mut y = x.clone(); y.insert(1, 7.0); ok(y[2], x[1]); ok(y.remove(0), x[0]); y.truncate(2); ob::holds("ok", y.len() == 2); y.extend_from_slice(&x); ok(y[4], x[2]); y.resize(7, 3.0); ok(y[6], 3.0); let z = y.split_off(5); ok(z[0], 3.0); let d: Vec<f64> = y.drain(1..3).collect(); ok(d[0], x[1]); y.swap(0, 1); y.clear(); ob::holds("ok", y.is_empty()); }
    pub fn r_vec_more() { let x = v(3); let mut y = vec![0.0; 3]; y.copy_from_slice(&x); ok(y[2], x[2]); y.fill(2.0); ok(y[1], 2.0); let mut z = x.clone(); z.append(&mut y); ob::holds("ok", z.len() == 6 && y.is_empty()); z.rotate_left(1); ok(z[0], x[1]); let w = [x.clone(), vec![1.0]].concat(); ok(w[3], 1.0); ok(z.first().copied().unwrap_or(0.0), x[1]); ok(z.get(99).copied().unwrap_or(5.0), 5.0); ob::holds("ok", z.pop().is_some()); ok(*z.swap_remove(0).max(1.0).min(1.0).clone().as_ref_f(), 1.0); }
    trait R { fn as_ref_f(&self) -> &f64; }
    impl R for f64 { fn as_ref_f(&self) -> &f64 { self } }
    pub fn r_arrays() { let x = v(3); let a: [f64; 3] = x.clone().try_into().unwrap(); let b = a.map(|t| t * 2.0); ok(b[1], 2.0 * x[1]); let [p, q, r] = b; ok(p + q + r, 2.0 * (x[0] + x[1] + x[2])); let c: [f64; 3] = std::array::from_fn(|i| x[2 - i]); ok(c[0], x[2]); let d: &[f64; 2] = x[1..].try_into().unwrap(); ok(d[0], x[1]); }
    pub fn r_slice_pattern() { let x = v(4); if let [a, .., b] = x.as_slice() { ok(a + b, x[0] + x[3]); } if let [a, rest @ ..] = &x[..] { ok(*a * rest[0], x[0] * x[1]); } match x.as_slice() { [] => ob::holds("BADPATH", false), [_, b, c, _] => ok(b - c, x[1] - x[2]), _ => ob::holds("BADPATH", false) } }
    pub fn r_for_each() { let x = v(3); let mut s = 0.0; x.iter().enumerate().for_each(|(i, a)| s += i as f64 * a); ok(s, x[1] + 2.0 * x[2]); let mut y = x.clone(); y.iter_mut().zip(&x).for_each(|(a, b)| *a += b); ok(y[1], 2.0 * x[1]); }
    pub fn r_iter_mut_rev() { let mut y = v(3); let x = y.clone(); for (i, a) in y.iter_mut().rev().enumerate() { *a = *a * i as f64; } ok(y[0], 2.0 * x[0]); for a in &mut y { *a += 1.0; } ok(y[2], 1.0); }
    pub fn r_unzip() { let x = v(3); let (a, b): (Vec<f64>, Vec<f64>) = x.iter().map(|t| (t * 2.0, t * 3.0)).unzip(); ok(a[1] + b[2], 2.0 * x[1] + 3.0 * x[2]); let (p, q): (Vec<i32>, Vec<i32>) = vec![1, 2, 3].into_iter().partition(|k| k % 2 == 1); ob::holds("ok", p == [1, 3] && q == [2]); }
    pub fn r_loops() { let x = v(4); let mut s = 0.0; let mut i = 0; loop { if i >= x.len() { break; } s += x[i]; i += 1; } let t = 'a: loop { for k in 0..9 { if k == 3 { break 'a x[k]; } } }; ok(s + t, x[0] + x[1] + x[2] + 2.0 * x[3]); let mut j = x.len(); let mut u = 0.0; while j > 0 { j -= 1; if j == 1 { continue; } u = u * 2.0 + x[j]; } ok(u, (x[3] * 2.0 + x[2]) * 2.0 + x[0]); }
    pub fn r_options() { let a = ob::any("a", 0.0, 1.0); let o = Some(a); ok(o.map(|x| x * 2.0).unwrap_or(0.0), 2.0 * a); ok(o.filter(|_| true).or(Some(1.0)).unwrap(), a); ok(o.and_then(|x| if x > 5.0 { None } else { Some(x + 1.0) }).unwrap_or_default(), a + 1.0); ok(None.unwrap_or_else(|| a), a); ok(o.zip(Some(2.0)).map(|(p, q)| p * q).map_or(0.0, |x| x), 2.0 * a); ok(o.ok_or(()).unwrap(), a); let Some(z) = o else { return; }; ok(z, a); let mut m = Some(a); ok(m.take().unwrap(), a); ok(*m.get_or_insert(3.0), 3.0); ok(m.replace(4.0).unwrap(), 3.0); }
    pub fn r_results() { fn f(a: f64) -> Result<f64, String> { if a > 2.0 { Err("big".to_string()) } else { Ok(a) } } fn g(a: f64) -> Result<f64, String> { let x = f(a)?; let y = f(x + 0.5)?; Ok(x + y) } let a = ob::any("a", 0.0, 1.0); ok(g(a).unwrap(), 2.0 * a + 0.5); ob::holds("ok", g(a + 3.0).is_err()); ok(g(a + 3.0).unwrap_or(1.0), 1.0); let c: Result<Vec<f64>, String> = vec![a, a].into_iter().map(f).collect(); ok(c.unwrap()[1], a); let d: Option<Vec<f64>> = vec![Some(a), None].into_iter().collect(); ob::holds("ok", d.is_none()); }
    pub fn r_closures() { let a = ob::any("a", 0.0, 1.0); let f = |k: f64| move |x: f64| x * k + a; ok(f(2.0)(3.0), 6.0 + a); let b: Box<dyn Fn(f64) -> f64> = Box::new(f(4.0)); ok(b(1.0), 4.0 + a); let mut n = 0; let mut h = || { n += 1; n }; h(); h(); ob::holds("ok", n == 2); fn ap<F: Fn(f64) -> f64>(f: F, x: f64) -> f64 { f(f(x)) } ok(ap(|x| x + 1.0, a), a + 2.0); ok(ap(f64::abs, a), a); let g: fn(f64) -> f64 = f64::sqrt; ok(g(4.0), 2.0); let fs: [fn(f64, f64) -> f64; 2] = [f64::min, f64::max]; ok(fs[0](1.0, 2.0) + fs[1](1.0, 2.0), 3.0); }
    pub fn r_traits() { trait T { fn go(&self, x: f64) -> f64; fn twice(&self, x: f64) -> f64 { self.go(self.go(x)) } } struct A(f64); struct B; impl T for A { fn go(&self, x: f64) -> f64 { x + self.0 } } impl T for B { fn go(&self, x: f64) -> f64 { x * 3.0 } fn twice(&self, _: f64) -> f64 { 1.0 } } let a = ob::any("a", 0.0, 1.0); let l: Vec<Box<dyn T>> = vec![Box::new(A(a)), Box::new(B)]; ok(l.iter().map(|t| t.twice(2.0)).sum(), 2.0 + 2.0 * a + 1.0); fn st<const N: usize>(x: [f64; N]) -> f64 { x.iter().sum::<f64>() / N as f64 } ok(st([a, a, a, a]), a); }
    pub fn r_iter_struct() { struct C { k: usize } impl Iterator for C { type Item = f64; fn next(&mut self) -> Option<f64> { self.k += 1; if self.k < 5 { Some(self.k as f64) } else { None } } } ok(C { k: 0 }.map(|x| x * x).sum(), 30.0); ok(C { k: 0 }.zip(C { k: 1 }).map(|(a, b)| a * b).sum(), 2.0 + 6.0 + 12.0); ob::holds("ok", C { k: 0 }.count() == 4); let x: Vec<f64> = C { k: 0 }.by_ref().take(2).collect(); ob::holds("ok", x == [1.0, 2.0]); }
    pub fn r_impl_iter() { fn f<'a>(x: &'a [f64], k: f64) -> impl Iterator<Item = f64> + 'a { x.iter().map(move |t| t * k) } let x = v(3); ok(f(&x, 2.0).sum(), 2.0 * (x[0] + x[1] + x[2])); let b: Box<dyn Iterator<Item = f64>> = if x.len() > 2 { Box::new(f(&x, 3.0)) } else { Box::new(std::iter::empty()) }; ok(b.sum(), 3.0 * (x[0] + x[1] + x[2])); }
    pub fn r_deque() { let mut d: VecDeque<f64> = VecDeque::new(); d.push_back(1.0); d.push_back(2.0); d.push_front(0.5); ok(d.pop_front().unwrap(), 0.5); ok(d.iter().sum(), 3.0); ok(d[1], 2.0); }
    pub fn r_btree() { let mut m = BTreeMap::new(); for k in [3, 1, 2] { m.insert(k, k as f64 * 2.0); } ok(m[&2], 4.0); let k: Vec<i32> = m.keys().copied().collect(); ob::holds("ok", k == [1, 2, 3]); ok(*m.entry(9).or_insert(5.0), 5.0); ok(m.range(2..).map(|(_, x)| *x).sum(), 15.0); let s: BTreeSet<i32> = [3, 1, 3].into_iter().collect(); ob::holds("ok", s.len() == 2); }
    pub fn r_hashset() { let s: HashSet<i32> = [3, 1, 3].into_iter().collect(); ob::holds("ok", s.len() == 2 && s.contains(&3) && !s.contains(&4)); }
    pub fn r_float_fns() { let a = ob::any("a", 0.1, 3.0); ok(a.mul_add(2.0, 1.0), 2.0 * a + 1.0); ok(a.recip() * a, 1.0); ok(a.signum(), 1.0); ok((-a).abs(), a); ok(a.clamp(0.0, 10.0), a); ok(a.powi(2), a * a); ok(a.hypot(0.0), a); ok(a.rem_euclid(10.0), a); ok(a.copysign(-1.0), -a); ok(a.to_radians().to_degrees(), a); ok(a.sin_cos().0, a.sin()); ok(a.cbrt().powi(3), a); ok(a.ln().exp(), a); ok((2.0f64).powf(a), (a * (2.0f64).ln()).exp()); ok(a.exp2(), 2f64.powf(a)); }
    pub fn r_round_fns() { let a = 2.5f64; ok(a.floor(), 2.0); ok(a.ceil(), 3.0); ok(a.round(), 3.0); ok(a.trunc(), 2.0); ok(a.fract(), 0.5); ok((-2.5f64).round(), -3.0); ok(a.round_ties_even(), 2.0); ok((7.9f64) as usize as f64, 7.0); ok((-3.0f64) as u8 as f64, 0.0); ok((300.0f64) as u8 as f64, 255.0); }
    pub fn r_int_fns() { let a = 7usize; ob::holds("ok", a.saturating_sub(9) == 0 && a.checked_sub(9).is_none() && a.wrapping_add(1) == 8 && a.min(3) == 3 && a.pow(2) == 49 && a.div_ceil(2) == 4 && a.rem_euclid(4) == 3 && a.abs_diff(10) == 3 && a.is_power_of_two() == false && a.next_power_of_two() == 8 && a.leading_zeros() == 61 && a.trailing_zeros() == 0 && (a >> 1) == 3 && (a ^ 5) == 2 && usize::MAX.wrapping_add(1) == 0 && a.clamp(1, 5) == 5 && i32::from(3u8) == 3 && u8::try_from(300i32).is_err()); }
    pub fn r_tuple_struct() { #[derive(Clone, Copy, PartialEq, Debug, Default)] struct P { x: f64, y: f64 } let a = ob::any("a", 0.0, 1.0); let p = P { x: a, ..Default::default() }; ok(p.x + p.y, a); let P { x, y } = p; ok(x - y, a); ob::holds("ok", p == P { x: a, y: 0.0 }); let (q, (r, s)) = (a, (a * 2.0, a * 3.0)); ok(q + r + s, 6.0 * a); let mut t = [P::default(); 3]; t[1].y = a; ok(t.iter().map(|k| k.y).sum(), a); std::mem::swap(&mut t[0].x, &mut p.clone().x); ok(t[0].x, a); let o = std::mem::replace(&mut t[0], P { x: 1.0, y: 1.0 }); ok(o.x, a); let z = std::mem::take(&mut t[0]); ok(z.y, 1.0); }
    pub fn r_cow_rc() { use std::borrow::Cow; use std::rc::Rc; use std::sync::Arc; let x = v(3); let c: Cow<[f64]> = Cow::Borrowed(&x); ok(c[1], x[1]); let o = c.into_owned(); ok(o[2], x[2]); let r = Rc::new(o); let s = Rc::clone(&r); ok(s[0], x[0]); let a: Arc<[f64]> = Arc::from(x.clone()); ok(a[2], x[2]); let b: Box<[f64]> = x.clone().into_boxed_slice(); ok(b[1], x[1]); let n = Rc::new(5.0); ok(*n, 5.0); }
    pub fn r_sum_kinds() { let x = v(3); let s: f64 = x.iter().sum(); let t: f64 = x.iter().copied().sum(); let u: f64 = x.clone().into_iter().sum(); let w = x.iter().map(|a| a).sum::<f64>(); ok(s + t, u + w); let z: f64 = [1.0f64, 2.0].iter().sum(); ok(z, 3.0); ob::holds("ok", (0..5).sum::<usize>() == 10 && (1..=4).product::<usize>() == 24); }
    pub fn r_cmp() { let a = ob::any("a", 0.0, 1.0); let b = a + 1.0; ob::holds("ok", a < b && a.partial_cmp(&b) == Some(std::cmp::Ordering::Less) && b.max(a) == b && std::cmp::max(3, 2) == 3 && (1, 2.0) < (1, 3.0) && [1, 2] < [1, 3]); ob::holds("ok", match a.total_cmp(&b) { std::cmp::Ordering::Less => true, _ => false }); ob::holds("ok", matches!(Some(3), Some(k) if k > 2)); }
    pub fn r_range_contains() { let a = ob::any("a", 0.0, 1.0); ob::holds("ok", (-1.0..=2.0).contains(&a) && !(3.0..).contains(&a) && (0..5).contains(&4) && (0..5).len() == 5 && (0..0).is_empty()); let r = 2..4; let x = v(5); ok(x[r.clone()].iter().sum(), x[2] + x[3]); ok(x[..=1][1], x[1]); }
    pub fn r_last_chunk() { let x = v(5); ok(x.first_chunk::<2>().unwrap()[1], x[1]); ok(x.last().unwrap() - x[4], 0.0); ok(x.iter().as_slice()[1], x[1]); ok(x.rchunks(2).next().unwrap()[0], x[3]); ok(x.as_chunks::<2>().0[1][0], x[2]); }
    pub fn r_cycle() { let x = v(3); let y: Vec<f64> = x.iter().cycle().take(7).copied().collect(); ok(y[6], x[0]); ok(x.repeat(2)[4], x[1]); }
    pub fn r_strings() { let s = format!("{}-{}", 3, "x"); ob::holds("ok", "abc".len() == 3 && "abc" == String::from("abc") && !s.is_empty()); let m = match "red" { "red" => 1, "green" => 2, _ => 3 }; ob::holds("ok", m == 1); ob::holds("ok", "a_b".contains('_') && "a_b".starts_with("a") && "a b".split(' ').count() == 2 && "Ab".to_lowercase() == "ab" && "x".to_string() + "y" == "xy"); }
    pub fn r_sort_floats() { let x = ob::anyv("z", 3, -5.0, 5.0); let mut y = x.clone(); y.sort_by(|a, b| a.partial_cmp(b).unwrap()); ob::holds("ok", y[0] <= y[1] && y[1] <= y[2]); ok(y[0] + y[1] + y[2], x[0] + x[1] + x[2]); }
    pub fn r_const_static() { const T: [f64; 3] = [1.0, 2.0, 3.0]; static S: [[f64; 2]; 2] = [[1.0, 2.0], [3.0, 4.0]]; const fn sq(x: usize) -> usize { x * x } const N: usize = sq(3); let a = [0.0; N]; ob::holds("ok", a.len() == 9); ok(T.iter().sum::<f64>() + S[1][0], 9.0); }
    pub fn r_num_traits() { use num_traits::{Float, One, Zero, ToPrimitive, NumCast}; fn f<T: Float>(x: T) -> T { x.powi(2) + T::one() - T::zero() + T::from(0.5).unwrap() } let a = ob::any("a", 0.0, 1.0); ok(f(a), a * a + 1.5); ob::holds("ok", 3.7f64.to_usize() == Some(3) && <f64 as NumCast>::from(3u8) == Some(3.0) && f64::one() == 1.0 && f64::zero() == 0.0); ok(Float::max(a, 0.0), a); }
    pub fn r_threadless_sort_key() { let mut y = vec![(2, 'b'), (1, 'a'), (3, 'c')]; y.sort_by_key(|p| p.0); ob::holds("ok", y[0].1 == 'a'); let i = (0..3).max_by(|a, b| y[*a].0.cmp(&y[*b].0)).unwrap(); ob::holds("ok", i == 2); }
    pub fn r_recursion() { fn f(n: usize, x: f64) -> f64 { if n == 0 { 1.0 } else { x * f(n - 1, x) } } let a = ob::any("a", 0.0, 2.0); ok(f(5, a), a * a * a * a * a); fn g(x: &[f64]) -> f64 { match x { [] => 0.0, [a] => *a, _ => { let (l, r) = x.split_at(x.len() / 2); g(l) + g(r) } } } let x = v(5); ok(g(&x), x[0] + x[1] + x[2] + x[3] + x[4]); }
    pub fn r_kahan_simd() { let x = v(8); let mut acc = [0.0; 4]; for c in x.chunks_exact(4) { for (a, b) in acc.iter_mut().zip(c) { *a += b; } } ok(acc.iter().sum(), x.iter().sum()); }
    pub fn r_group() { let x = v(4); let t: Vec<(usize, f64)> = x.iter().copied().enumerate().collect(); let (i, y) = t[3]; ob::holds("ok", i == 3); ok(y, x[3]); ok(x.iter().inspect(|_| ()).sum(), x[0] + x[1] + x[2] + x[3]); ob::holds("ok", x.iter().len() == 4 && x.iter().size_hint() == (4, Some(4)) && x.iter().all(|k| *k > -9.0) && !x.iter().any(|k| *k > 9.0)); ok(*x.iter().find(|k| **k > -9.0).unwrap(), x[0]); ob::holds("ok", x.iter().eq(x.iter()) && x.iter().ne([1.0].iter())); }
    pub fn r_drop() { use std::cell::Cell; struct D<'a>(&'a Cell<i32>); impl Drop for D<'_> { fn drop(&mut self) { self.0.set(self.0.get() + 1); } } let c = Cell::new(0); { let _a = D(&c); let _b = vec![D(&c), D(&c)]; } ob::holds("ok", c.get() == 3); }
    pub fn r_ptr() { let mut x = v(4); let y = x.clone(); let p = x.as_mut_ptr(); unsafe { *p.add(1) = 5.0; std::ptr::swap(p, p.add(3)); std::ptr::copy_nonoverlapping(y.as_ptr(), p.add(2), 1); ok(*p.add(2), y[0]); ok(p.read(), y[3]); p.write(8.0); } ok(x[1], 5.0); ok(x[0], 8.0); let s = unsafe { std::slice::from_raw_parts(x.as_ptr(), 2) }; ok(s[1], 5.0); }
    pub fn r_bits() { let a = 1.5f64; ob::holds("ok", a.to_bits() == 0x3ff8000000000000 && f64::from_bits(0x4000000000000000) == 2.0 && f32::from_bits(0x3f800000) == 1.0 && u32::from_le_bytes([1, 0, 0, 0]) == 1 && 258u16.to_be_bytes() == [1, 2]); }

    pub fn r_dbg1() { let x = [3.0, 1.0, 2.0f64]; ok(x.iter().copied().fold(f64::INFINITY, f64::min), 1.0); }
    pub fn r_dbg2() { let x = [3.0, 1.0, 2.0f64]; ok(*x.iter().max_by(|a, b| a.partial_cmp(b).unwrap()).unwrap(), 3.0); }
    pub fn r_dbg3() { let x = [3.0, 1.0, 2.0f64]; ok(*x.iter().min_by(|a, b| a.total_cmp(b)).unwrap(), 1.0); }
    pub fn r_dbg4() { let x = [400.0, 410.0, 420.0, 430.0f64, 440.0]; ob::holds("ok", x.binary_search_by(|a| a.partial_cmp(&420.0).unwrap()) == Ok(2)); }
    pub fn r_dbg5() { let x = [400.0, 410.0, 420.0, 430.0f64, 440.0]; ob::holds("ok", x.partition_point(|a| *a <= 431.0) == 4); }
    pub fn r_dbg6() { ob::holds("ok", std::hint::select_unpredictable(true, 3, 4) == 3); ob::holds("ok", std::hint::select_unpredictable(false, 3, 4) == 4); }
    pub fn r_dbg7() { let x = [400.0, 410.0, 420.0, 430.0f64, 440.0]; ob::holds("ok", x[3].partial_cmp(&400.0).unwrap() == std::cmp::Ordering::Greater); ob::holds("ok", x[0].partial_cmp(&410.0).unwrap() == std::cmp::Ordering::Less); ob::holds("ok", x[0].partial_cmp(&400.0).unwrap() == std::cmp::Ordering::Equal);}
    pub fn r_dbg8() { let mut v: Vec<f64> = Vec::new(); let c: Result<Vec<f64>, String> = vec![1.0, 2.0].into_iter().map(|x| Ok(x)).collect(); v.extend(c.unwrap()); ok(v[1], 2.0); }
    pub fn r_dbg9() { let (p, q): (Vec<i32>, Vec<i32>) = vec![1, 2, 3].into_iter().partition(|k| k % 2 == 1); ob::holds("ok", p[1] == 3); }
    pub fn r_dbg10() { let x = v(3); let (a, b): (Vec<f64>, Vec<f64>) = x.iter().map(|t| (t * 2.0, t * 3.0)).unzip(); ok(a[1] + b[2], 2.0 * x[1] + 3.0 * x[2]); }
}
