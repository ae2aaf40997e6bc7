//! Interface between the harnesses and whoever runs them: the symbolic executor (engine/symex.py) or the native
//! replay runtime (bin/replay.rs).
use num::traits::Float;
use rasp::traits::FloatConst;

extern "C" {
  pub fn vp_f32() -> f32;
  pub fn vp_f64() -> f64;
  pub fn vp_usize(lo: usize, hi: usize) -> usize;
  pub fn vp_pick(n: usize) -> usize;
  pub fn vp_tier() -> usize;
  pub fn vp_symbolic() -> bool;
  pub fn vp_assume(c: bool);
  pub fn vp_skip();
  pub fn vp_assert(m: *const u8, n: usize, c: bool);
  pub fn vp_eq_f32(m: *const u8, n: usize, a: f32, b: f32);
  pub fn vp_eq_f64(m: *const u8, n: usize, a: f64, b: f64);
  pub fn vp_close_f32(m: *const u8, n: usize, a: f32, b: f32, scale: f32, tol: f32);
  pub fn vp_close_f64(m: *const u8, n: usize, a: f64, b: f64, scale: f64, tol: f64);
  pub fn vp_le_f32(m: *const u8, n: usize, a: f32, b: f32, scale: f32, tol: f32);
  pub fn vp_le_f64(m: *const u8, n: usize, a: f64, b: f64, scale: f64, tol: f64);
  pub fn vp_mark(id: usize, p: *const u8, n: usize);
  pub fn vp_same(id: usize, p: *const u8, n: usize) -> bool;
  pub fn vp_havoc(id: usize, p: *mut u8, n: usize);
  pub fn vp_extrapolate(id: usize, p: *mut u8, n: usize, count: usize);
  pub fn vp_advance(id: usize, p: *mut u8, n: usize, count: usize);
}

pub fn usz(lo: usize, hi: usize) -> usize { unsafe { vp_usize(lo, hi) } }
/// a choice in 0..n, explored case by case
pub fn pick(n: usize) -> usize { unsafe { vp_pick(n) } }
pub fn tier() -> usize { unsafe { vp_tier() } }
pub fn symbolic() -> bool { unsafe { vp_symbolic() } }
pub fn assume(c: bool) { unsafe { vp_assume(c) } }
/// the native run would take too long; no verdict from it
pub fn skip() { unsafe { vp_skip() } }
pub fn check(m: &'static str, c: bool) { unsafe { vp_assert(m.as_ptr(), m.len(), c) } }
pub fn mark<S>(id: usize, s: &S) { unsafe { vp_mark(id, s as *const S as *const u8, std::mem::size_of::<S>()) } }
pub fn same<S>(id: usize, s: &S) -> bool { unsafe { vp_same(id, s as *const S as *const u8, std::mem::size_of::<S>()) } }
pub fn havoc<S>(id: usize, s: &mut S) { unsafe { vp_havoc(id, s as *mut S as *mut u8, std::mem::size_of::<S>()) } }
pub fn extrapolate<S>(id: usize, s: &mut S, n: usize) { unsafe { vp_extrapolate(id, s as *mut S as *mut u8, std::mem::size_of::<S>(), n) } }
pub fn advance_state<S>(id: usize, s: &mut S, n: usize) { unsafe { vp_advance(id, s as *mut S as *mut u8, std::mem::size_of::<S>(), n) } }

pub trait F: Float + FloatConst + 'static {
  /// an arbitrary bit pattern
  fn any() -> Self;
  fn equal(m: &'static str, a: Self, b: Self);
  fn close_tol(m: &'static str, a: Self, b: Self, scale: Self, tol: f64);
  fn leq_tol(m: &'static str, a: Self, b: Self, scale: Self, tol: f64);
  fn k(x: f64) -> Self;
  fn of_f32(x: f32) -> Self;
  fn of_usize(x: usize) -> Self;
  const TOL: f64;
  /// added to the scale where underflow errors pass through several multiplications
  const UNDER: f64;
  /// |a-b| <= TOL*scale
  fn close(m: &'static str, a: Self, b: Self, scale: Self) { Self::close_tol(m, a, b, scale, Self::TOL) }
  /// a <= b + TOL*scale
  fn leq(m: &'static str, a: Self, b: Self, scale: Self) { Self::leq_tol(m, a, b, scale, Self::TOL) }
  /// an arbitrary finite value
  fn fin() -> Self { let x = Self::any(); assume(x.is_finite()); x }
}

impl F for f32 {
  #[inline(always)] fn any() -> f32 { unsafe { vp_f32() } }
  #[inline(always)] fn equal(m: &'static str, a: f32, b: f32) { unsafe { vp_eq_f32(m.as_ptr(), m.len(), a, b) } }
  #[inline(always)] fn close_tol(m: &'static str, a: f32, b: f32, s: f32, t: f64) { unsafe { vp_close_f32(m.as_ptr(), m.len(), a, b, s, t as f32) } }
  #[inline(always)] fn leq_tol(m: &'static str, a: f32, b: f32, s: f32, t: f64) { unsafe { vp_le_f32(m.as_ptr(), m.len(), a, b, s, t as f32) } }
  #[inline(always)] fn k(x: f64) -> f32 { x as f32 }
  #[inline(always)] fn of_f32(x: f32) -> f32 { x }
  #[inline(always)] fn of_usize(x: usize) -> f32 { x as f32 }
  const TOL: f64 = 2e-5;
  const UNDER: f64 = 1e-25;
}
impl F for f64 {
  #[inline(always)] fn any() -> f64 { unsafe { vp_f64() } }
  #[inline(always)] fn equal(m: &'static str, a: f64, b: f64) { unsafe { vp_eq_f64(m.as_ptr(), m.len(), a, b) } }
  #[inline(always)] fn close_tol(m: &'static str, a: f64, b: f64, s: f64, t: f64) { unsafe { vp_close_f64(m.as_ptr(), m.len(), a, b, s, t) } }
  #[inline(always)] fn leq_tol(m: &'static str, a: f64, b: f64, s: f64, t: f64) { unsafe { vp_le_f64(m.as_ptr(), m.len(), a, b, s, t) } }
  #[inline(always)] fn k(x: f64) -> f64 { x }
  #[inline(always)] fn of_f32(x: f32) -> f64 { x as f64 }
  #[inline(always)] fn of_usize(x: usize) -> f64 { x as f64 }
  const TOL: f64 = 1e-9;
  const UNDER: f64 = 1e-270;
}
