//! Window iterators and apply_window (C19-C22).
use rasp::window::{apply_window, BartlettIter, BlackmanHarrisIter, BlackmanIter, HammingIter, HannIter, TriangularIter, Window};
use crate::vp::*;

pub trait W<T: F>: Iterator<Item = T> + ExactSizeIterator {
  fn mk(size: usize) -> Self;
  /// the textbook value, size >= 2
  fn formula(n: usize, size: usize) -> T;
  const KIND: Window;
}
pub trait WFam { type W<T: F>: W<T>; }

fn theta<T: F>(n: usize, size: usize) -> T { T::two() * T::pi() * T::of_usize(n) / T::of_usize(size - 1) }
macro_rules! win {
  ($k:ident, $t:ident, $kind:ident, $f:expr) => {
    pub struct $k;
    impl WFam for $k { type W<T: F> = $t<T>; }
    impl<T: F> W<T> for $t<T> {
      fn mk(size: usize) -> Self { $t::new(size) }
      fn formula(n: usize, size: usize) -> T { let f: fn(usize, usize) -> T = $f; f(n, size) }
      const KIND: Window = Window::$kind;
    }
  }
}
win!(KTri, TriangularIter, Triangular, |n, s| T::one() - ((T::of_usize(n) - T::of_usize(s - 1) / T::two()) / (T::of_usize(s) / T::two())).abs());
win!(KBart, BartlettIter, Bartlett, |n, s| { let h = T::of_usize(s - 1) / T::two(); T::one() - ((T::of_usize(n) - h) / h).abs() });
win!(KHann, HannIter, Hann, |n, s| T::k(0.5) * (T::one() - theta::<T>(n, s).cos()));
win!(KHamm, HammingIter, Hamming, |n, s| T::k(0.54) - T::k(0.46) * theta::<T>(n, s).cos());
win!(KBlack, BlackmanIter, Blackman, |n, s| { let t = theta::<T>(n, s); T::k(0.42) - T::k(0.5) * t.cos() + T::k(0.08) * (T::two() * t).cos() });
win!(KHarris, BlackmanHarrisIter, BlackmanHarris, |n, s| { let t = theta::<T>(n, s);
  T::k(0.35875) - T::k(0.48829) * t.cos() + T::k(0.14128) * (T::two() * t).cos() - T::k(0.01168) * (T::k(3.0) * t).cos() });

/// n values taken from the iterator; symbolically one step extrapolated n-fold (c20_step shows that this is what n steps do)
fn advance<I: Iterator>(it: &mut I, n: usize) {
  if symbolic() { mark(0, it); it.next(); extrapolate(0, it, n); }
  else { for _ in 0..n { it.next(); } }
}
fn maxn<T: F>() -> usize { if std::mem::size_of::<T>() == 4 { 1 << 24 } else { 1 << 52 } }
/// too many values to step through natively
fn far(size: usize) { if !symbolic() && size >= 1 << 26 { skip(); } }
fn get<T: F, I: Iterator<Item = T>>(it: &mut I) -> T { match it.next() { Some(x) => x, None => { check("a value is there", false); T::zero() } } }
/// the n-th value of a fresh window
fn at<T: F, K: WFam>(size: usize, n: usize) -> T { let mut w = K::W::<T>::mk(size); advance(&mut w, n); get(&mut w) }

// ---------------------------------------------------------------- C19
fn c19<T: F, K: WFam>() {
  let size = usz(2, maxn::<T>());
  let n = usz(0, maxn::<T>());
  assume(n < size);
  far(n);
  T::close("textbook formula", at::<T, K>(size, n), K::W::<T>::formula(n, size), T::one());
}
fn c19_one<T: F, K: WFam>() {
  let mut w = K::W::<T>::mk(1);
  T::equal("a window of size one is 1", get(&mut w), T::one());
  check("and nothing else", w.next().is_none());
}
fn c19_small<T: F, K: WFam>() {
  let size = 2 + pick(if tier() == 0 { 15 } else { 63 });
  let mut w = K::W::<T>::mk(size);
  for n in 0..size { T::close("textbook formula, small sizes", get(&mut w), K::W::<T>::formula(n, size), T::one()); }
}

// ---------------------------------------------------------------- C20
const BIG: usize = 1 << 60;
fn reports<T: F, I: W<T>>(w: &I, left: usize) {
  check("len is the number of values to come", w.len() == left);
  check("size_hint is the number of values to come", w.size_hint() == (left, Some(left)));
}
/// one step from the n-times extrapolated state is the (n+1)-times extrapolated state
fn c20_step<T: F, K: WFam>() {
  let size = usz(1, BIG);
  let n = usz(0, BIG);
  assume(n < size);
  if !symbolic() && n >= 1 << 26 { skip(); }
  let mut w = K::W::<T>::mk(size);
  advance(&mut w, n + 1);
  mark(1, &w);
  w = K::W::<T>::mk(size);
  advance(&mut w, n);
  w.next();
  check("n + 1 steps are n steps and one more", same(1, &w));
}
fn c20<T: F, K: WFam>() {
  let size = usz(0, BIG);
  let n = usz(0, BIG);
  assume(n < size);
  if !symbolic() && n >= 1 << 26 { skip(); }
  let mut w = K::W::<T>::mk(size);
  reports(&w, size);
  advance(&mut w, n);
  reports(&w, size - n);
  check("a value while some remain", w.next().is_some());
  reports(&w, size - n - 1);
}
fn c20_end<T: F, K: WFam>() {
  let size = usz(0, BIG);
  if !symbolic() && size >= 1 << 26 { skip(); }
  let mut w = K::W::<T>::mk(size);
  reports(&w, size);
  if size > 0 { advance(&mut w, size); }
  reports(&w, 0);
  mark(2, &w);
  check("nothing after the last value", w.next().is_none());
  reports(&w, 0);
  check("nothing for ever after", w.next().is_none());
  reports(&w, 0);
  check("nothing for ever after", w.next().is_none());
}
fn c20_small<T: F, K: WFam>() {
  let size = pick(if tier() == 0 { 10 } else { 34 });
  let mut w = K::W::<T>::mk(size);
  for n in 0..size { reports(&w, size - n); check("a value while some remain", w.next().is_some()); }
  for _ in 0..4 { reports(&w, 0); check("nothing after the last value", w.next().is_none()); }
  reports(&w, 0);
}

/// the other ways of taking values
fn c20_nth<T: F, K: WFam>() {
  let size = pick(if tier() == 0 { 6 } else { 12 });
  let pre = pick(3);
  let mut a = K::W::<T>::mk(size);
  let mut b = K::W::<T>::mk(size);
  for _ in 0..pre { a.next(); b.next(); }
  match pick(4) {
    0 => {
      let k = pick(size + 2);
      let x = a.nth(k);
      let mut y = b.next();
      for _ in 0..k { y = b.next(); }
      check("nth gives a value when that many remain", x.is_some() == y.is_some());
      if let (Some(x), Some(y)) = (x, y) { T::equal("nth gives the value stepping gives", x, y); }
      check("nth leaves what stepping leaves", a.len() == b.len());
      reports(&a, b.len());
      check("and the same afterwards", a.next().is_some() == b.next().is_some());
    }
    1 => { let n = a.len(); check("count is the number of values to come", a.count() == n); }
    2 => {
      let mut y = None;
      for _ in 0..size + 1 { if let Some(v) = b.next() { y = Some(v); } }
      let x = a.last();
      check("last gives a value when some remain", x.is_some() == y.is_some());
      if let (Some(x), Some(y)) = (x, y) { T::equal("last gives the final value", x, y); }
    }
    _ => {
      let mut n = 0;
      for x in a { match b.next() { Some(y) => T::equal("a loop gives the values stepping gives", x, y), None => check("a loop gives no more than stepping", false) } n += 1; }
      check("a loop gives every value", n == size.saturating_sub(pre));
    }
  }
}

// ---------------------------------------------------------------- C21
fn c21_sym<T: F, K: WFam>() {
  let size = usz(2, maxn::<T>());
  let n = usz(0, maxn::<T>());
  assume(n < size);
  far(size);
  T::close("mirror images", at::<T, K>(size, n), at::<T, K>(size, size - 1 - n), T::one());
}
fn c21_range<T: F, K: WFam>() {
  let size = usz(2, maxn::<T>());
  let n = usz(0, maxn::<T>());
  assume(n < size);
  far(n);
  let v = at::<T, K>(size, n);
  T::leq("at least 0", T::zero(), v, T::one());
  T::leq("at most 1", v, T::one(), T::one());
}
/// odd sizes 2m+1: values m apart
fn ola_odd<T: F, K: WFam>(total: f64) {
  let m = usz(1, maxn::<T>() / 2 - 1);
  let n = usz(0, maxn::<T>());
  assume(n <= m);
  far(m);
  T::close("overlap-add over half a window", at::<T, K>(2 * m + 1, n) + at::<T, K>(2 * m + 1, n + m), T::k(total), T::one());
}
fn c21_ola_bart<T: F>() { ola_odd::<T, KBart>(1.0) }
fn c21_ola_hann<T: F>() { ola_odd::<T, KHann>(1.0) }
fn c21_ola_hamm<T: F>() { ola_odd::<T, KHamm>(1.08) }
fn c21_ola_tri<T: F>() {
  let m = usz(1, maxn::<T>() / 2 - 1);
  let n = usz(0, maxn::<T>());
  assume(n < m);
  far(m);
  T::close("overlap-add over half a window", at::<T, KTri>(2 * m, n) + at::<T, KTri>(2 * m, n + m), T::one(), T::one());
}
fn c21_small<T: F, K: WFam>() {
  let size = 2 + pick(if tier() == 0 { 12 } else { 38 });
  let mut v = [T::zero(); 40];
  let mut w = K::W::<T>::mk(size);
  for i in 0..size { v[i] = get(&mut w); }
  for i in 0..size {
    T::close("mirror images", v[i], v[size - 1 - i], T::one());
    T::leq("at least 0", T::zero(), v[i], T::one());
    T::leq("at most 1", v[i], T::one(), T::one());
  }
  let total = match K::W::<T>::KIND { Window::Bartlett | Window::Hann => 1.0, Window::Hamming => 1.08, Window::Triangular => -1.0, _ => 0.0 };
  if total > 0.0 && size % 2 == 1 {
    let m = (size - 1) / 2;
    for i in 0..m + 1 { T::close("overlap-add over half a window", v[i] + v[i + m], T::k(total), T::one()); }
  }
  if total < 0.0 && size % 2 == 0 {
    let m = size / 2;
    for i in 0..m { T::close("overlap-add over half a window", v[i] + v[i + m], T::one(), T::one()); }
  }
}

// ---------------------------------------------------------------- C22
const LENS: [usize; 18] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65];
fn c22<T: F, K: WFam>() {
  let n = LENS[pick(18)];
  let mut s = [T::zero(); 67];
  let mut e = [T::zero(); 67];
  for i in 0..n + 2 { s[i] = T::any(); e[i] = s[i]; }
  apply_window(&mut s[1..n + 1], K::W::<T>::KIND);
  let mut w = K::W::<T>::mk(n);
  for i in 0..n { e[i + 1] = get(&mut w) * e[i + 1]; }
  for i in 0..n + 2 { T::equal("each sample times its window value, nothing else touched", s[i], e[i]); }
}
/// longer blocks, a few arbitrary samples in a fixed signal
const LENS2: [usize; 17] = [100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4097, 10000, 2049];
fn c22_long<T: F, K: WFam>() {
  let n = LENS2[pick(if tier() == 0 { 16 } else { 17 })];
  let mut s = [T::zero(); 10002];
  let mut e = [T::zero(); 10002];
  for i in 0..n + 2 { s[i] = if i % 61 == 5 || i == n { T::any() } else { T::of_usize(i % 7) - T::of_usize(i % 5) }; e[i] = s[i]; }
  apply_window(&mut s[1..n + 1], K::W::<T>::KIND);
  let mut w = K::W::<T>::mk(n);
  for i in 0..n { e[i + 1] = get(&mut w) * e[i + 1]; }
  for i in 0..n + 2 { T::equal("each sample times its window value, longer blocks", s[i], e[i]); }
}
fn c22_rect<T: F>() {
  let n = LENS[pick(18)];
  let mut s = [T::zero(); 67];
  let mut e = [T::zero(); 67];
  for i in 0..n + 2 { s[i] = T::any(); e[i] = s[i]; }
  apply_window(&mut s[1..n + 1], Window::Rectangular);
  for i in 0..n + 2 { T::equal("the rectangular window changes nothing", s[i], e[i]); }
}

register!{
  c19_tri_f32, c19_tri_f64 : c19::<KTri>;
  c19_bart_f32, c19_bart_f64 : c19::<KBart>;
  c19_hann_f32, c19_hann_f64 : c19::<KHann>;
  c19_hamm_f32, c19_hamm_f64 : c19::<KHamm>;
  c19_black_f32, c19_black_f64 : c19::<KBlack>;
  c19_harris_f32, c19_harris_f64 : c19::<KHarris>;
  c19_one_tri_f32, c19_one_tri_f64 : c19_one::<KTri>;
  c19_one_bart_f32, c19_one_bart_f64 : c19_one::<KBart>;
  c19_one_hann_f32, c19_one_hann_f64 : c19_one::<KHann>;
  c19_one_hamm_f32, c19_one_hamm_f64 : c19_one::<KHamm>;
  c19_one_black_f32, c19_one_black_f64 : c19_one::<KBlack>;
  c19_one_harris_f32, c19_one_harris_f64 : c19_one::<KHarris>;
  c19_small_tri_f32, c19_small_tri_f64 : c19_small::<KTri>;
  c19_small_bart_f32, c19_small_bart_f64 : c19_small::<KBart>;
  c19_small_hann_f32, c19_small_hann_f64 : c19_small::<KHann>;
  c19_small_hamm_f32, c19_small_hamm_f64 : c19_small::<KHamm>;
  c19_small_black_f32, c19_small_black_f64 : c19_small::<KBlack>;
  c19_small_harris_f32, c19_small_harris_f64 : c19_small::<KHarris>;
  c20_tri_f32, c20_tri_f64 : c20::<KTri>;
  c20_bart_f32, c20_bart_f64 : c20::<KBart>;
  c20_hann_f32, c20_hann_f64 : c20::<KHann>;
  c20_hamm_f32, c20_hamm_f64 : c20::<KHamm>;
  c20_black_f32, c20_black_f64 : c20::<KBlack>;
  c20_harris_f32, c20_harris_f64 : c20::<KHarris>;
  c20_step_tri_f32, c20_step_tri_f64 : c20_step::<KTri>;
  c20_step_bart_f32, c20_step_bart_f64 : c20_step::<KBart>;
  c20_step_hann_f32, c20_step_hann_f64 : c20_step::<KHann>;
  c20_step_hamm_f32, c20_step_hamm_f64 : c20_step::<KHamm>;
  c20_step_black_f32, c20_step_black_f64 : c20_step::<KBlack>;
  c20_step_harris_f32, c20_step_harris_f64 : c20_step::<KHarris>;
  c20_end_tri_f32, c20_end_tri_f64 : c20_end::<KTri>;
  c20_end_bart_f32, c20_end_bart_f64 : c20_end::<KBart>;
  c20_end_hann_f32, c20_end_hann_f64 : c20_end::<KHann>;
  c20_end_hamm_f32, c20_end_hamm_f64 : c20_end::<KHamm>;
  c20_end_black_f32, c20_end_black_f64 : c20_end::<KBlack>;
  c20_end_harris_f32, c20_end_harris_f64 : c20_end::<KHarris>;
  c20_small_tri_f32, c20_small_tri_f64 : c20_small::<KTri>;
  c20_small_bart_f32, c20_small_bart_f64 : c20_small::<KBart>;
  c20_small_hann_f32, c20_small_hann_f64 : c20_small::<KHann>;
  c20_small_hamm_f32, c20_small_hamm_f64 : c20_small::<KHamm>;
  c20_small_black_f32, c20_small_black_f64 : c20_small::<KBlack>;
  c20_small_harris_f32, c20_small_harris_f64 : c20_small::<KHarris>;
  c21_sym_tri_f32, c21_sym_tri_f64 : c21_sym::<KTri>;
  c21_sym_bart_f32, c21_sym_bart_f64 : c21_sym::<KBart>;
  c21_sym_hann_f32, c21_sym_hann_f64 : c21_sym::<KHann>;
  c21_sym_hamm_f32, c21_sym_hamm_f64 : c21_sym::<KHamm>;
  c21_sym_black_f32, c21_sym_black_f64 : c21_sym::<KBlack>;
  c21_sym_harris_f32, c21_sym_harris_f64 : c21_sym::<KHarris>;
  c21_range_tri_f32, c21_range_tri_f64 : c21_range::<KTri>;
  c21_range_bart_f32, c21_range_bart_f64 : c21_range::<KBart>;
  c21_range_hann_f32, c21_range_hann_f64 : c21_range::<KHann>;
  c21_range_hamm_f32, c21_range_hamm_f64 : c21_range::<KHamm>;
  c21_range_black_f32, c21_range_black_f64 : c21_range::<KBlack>;
  c21_range_harris_f32, c21_range_harris_f64 : c21_range::<KHarris>;
  c21_small_tri_f32, c21_small_tri_f64 : c21_small::<KTri>;
  c21_small_bart_f32, c21_small_bart_f64 : c21_small::<KBart>;
  c21_small_hann_f32, c21_small_hann_f64 : c21_small::<KHann>;
  c21_small_hamm_f32, c21_small_hamm_f64 : c21_small::<KHamm>;
  c21_small_black_f32, c21_small_black_f64 : c21_small::<KBlack>;
  c21_small_harris_f32, c21_small_harris_f64 : c21_small::<KHarris>;
  c22_tri_f32, c22_tri_f64 : c22::<KTri>;
  c22_bart_f32, c22_bart_f64 : c22::<KBart>;
  c22_hann_f32, c22_hann_f64 : c22::<KHann>;
  c22_hamm_f32, c22_hamm_f64 : c22::<KHamm>;
  c22_black_f32, c22_black_f64 : c22::<KBlack>;
  c22_harris_f32, c22_harris_f64 : c22::<KHarris>;
  c21_olabart_f32, c21_olabart_f64 : c21_ola_bart;
  c21_olahann_f32, c21_olahann_f64 : c21_ola_hann;
  c21_olahamm_f32, c21_olahamm_f64 : c21_ola_hamm;
  c21_olatri_f32, c21_olatri_f64 : c21_ola_tri;
  c22_rectangular_f32, c22_rectangular_f64 : c22_rect;
  c20_nth_tri_f32, c20_nth_tri_f64 : c20_nth::<KTri>;
  c22_long_tri_f32, c22_long_tri_f64 : c22_long::<KTri>;
  c20_nth_bart_f32, c20_nth_bart_f64 : c20_nth::<KBart>;
  c22_long_bart_f32, c22_long_bart_f64 : c22_long::<KBart>;
  c20_nth_hann_f32, c20_nth_hann_f64 : c20_nth::<KHann>;
  c22_long_hann_f32, c22_long_hann_f64 : c22_long::<KHann>;
  c20_nth_hamm_f32, c20_nth_hamm_f64 : c20_nth::<KHamm>;
  c22_long_hamm_f32, c22_long_hamm_f64 : c22_long::<KHamm>;
  c20_nth_black_f32, c20_nth_black_f64 : c20_nth::<KBlack>;
  c22_long_black_f32, c22_long_black_f64 : c22_long::<KBlack>;
  c20_nth_harris_f32, c20_nth_harris_f64 : c20_nth::<KHarris>;
  c22_long_harris_f32, c22_long_harris_f64 : c22_long::<KHarris>;
}
