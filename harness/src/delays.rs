//! The two delay lines (C01-C06).
use rasp::delay::{Delay, LinearDelay};
use rasp::traits::{Processor, TappableDelayLine};
use crate::vp::*;

/// both lines behind one face; lengths as f32
pub trait Line<T: F>: Processor<T> + TappableDelayLine<T> {
  fn mk(d: f32, cap: usize) -> Self;
  fn set(&mut self, d: f32);
  fn get(&self) -> f32;
  fn cap(&self) -> usize;
  fn grow(&mut self, cap: usize);
  fn nxt(&mut self) -> T;
  /// lengths to explore, as (base, fraction): base + fraction <= cap
  const FRACS: &'static [f32];
}
impl<T: F> Line<T> for Delay<T> {
  fn mk(d: f32, cap: usize) -> Self { Delay::new(d as usize, cap) }
  fn set(&mut self, d: f32) { self.set_delay(d as usize) }
  fn get(&self) -> f32 { self.get_delay() as f32 }
  fn cap(&self) -> usize { self.get_max_delay() }
  fn grow(&mut self, cap: usize) { self.set_max_delay(cap) }
  fn nxt(&mut self) -> T { self.next_out() }
  const FRACS: &'static [f32] = &[0.0];
}
impl<T: F> Line<T> for LinearDelay<T> {
  fn mk(d: f32, cap: usize) -> Self { LinearDelay::new(d, cap) }
  fn set(&mut self, d: f32) { self.set_delay(d) }
  fn get(&self) -> f32 { self.get_delay() }
  fn cap(&self) -> usize { self.get_max_delay() }
  fn grow(&mut self, cap: usize) { self.set_max_delay(cap) }
  fn nxt(&mut self) -> T { self.next_out() }
  const FRACS: &'static [f32] = &[0.0, 0.5, 0.3];
}
pub trait LFam { type L<T: F>: Line<T>; }
pub struct KInt; impl LFam for KInt { type L<T: F> = Delay<T>; }
pub struct KLin; impl LFam for KLin { type L<T: F> = LinearDelay<T>; }

const H: usize = 160;
/// the samples fed so far, newest first on reading
struct Past<T> { h: [T; H], n: usize }
impl<T: F> Past<T> {
  fn new() -> Self { Past { h: [T::zero(); H], n: 0 } }
  fn push(&mut self, x: T) { self.h[self.n] = x; self.n += 1; }
  /// k steps before the newest
  fn at(&self, k: usize) -> T { if k < self.n { self.h[self.n - 1 - k] } else { T::zero() } }
}
/// a length between 0 and cap, case by case
fn length<T: F, K: LFam>(cap: usize) -> f32 {
  let fr = K::L::<T>::FRACS;
  let m = fr.len();
  let k = pick(cap * m + 1);
  (k / m) as f32 + fr[k % m]
}
/// the value a line of length d must return, right after the newest sample was fed
fn expect<T: F>(p: &Past<T>, d: f32) -> (T, T) {
  let i = d as usize;
  let f = T::of_f32(d - i as f32);
  if f == T::zero() { (p.at(i), p.at(i).abs()) }
  else { let (a, b) = (p.at(i), p.at(i + 1)); ((T::one() - f) * a + f * b, a.abs() + b.abs()) }
}
fn compare<T: F, L: Line<T>>(m: &'static str, _: &L, y: T, p: &Past<T>, d: f32) {
  let fracs = L::FRACS.len();
  let (e, s) = expect(p, d);
  if fracs == 1 { T::equal(m, y, e); }
  else { T::close_tol(m, y, e, s, 1e-5); }
}

// ---------------------------------------------------------------- C01
/// every state of a line of capacity cap (position, contents, length), one change of length, then a full turn
fn c01<T: F>() {
  let cap = pick(if tier() == 0 { 4 } else { 7 });
  let pre = cap + 1 + pick(cap + 1);
  let d0 = usz(0, cap + 2);
  let mut l = Delay::<T>::new(d0, cap);
  let mut p = Past::<T>::new();
  for _ in 0..pre {
    let x = T::any();
    p.push(x);
    let y = l.process(x);
    let d = l.get_delay();
    check("the length stays within the capacity", d <= cap);
    T::equal("the sample fed d steps earlier", y, p.at(d));
  }
  l.set_delay(usz(0, cap + 2));
  let d = l.get_delay();
  check("the length stays within the capacity", d <= cap);
  for _ in 0..cap + 3 {
    let x = T::any();
    p.push(x);
    T::equal("the sample fed d steps earlier, after a change of length", l.process(x), p.at(d));
    check("the length stays", l.get_delay() == d);
  }
}
/// a change of length before every sample
fn c01_vary<T: F>() {
  let cap = pick(if tier() == 0 { 3 } else { 4 });
  let pre = pick(cap + 1);
  let mut l = Delay::<T>::new(cap, cap);
  let mut p = Past::<T>::new();
  for _ in 0..pre { let x = T::any(); p.push(x); l.process(x); }
  for _ in 0..cap + 3 {
    l.set_delay(usz(0, cap));
    let d = l.get_delay();
    let x = T::any();
    p.push(x);
    T::equal("the sample fed d steps earlier, length changed before each sample", l.process(x), p.at(d));
  }
}
/// larger capacities, around powers of two, case by case
fn c01_long<T: F>() {
  let cap = [7, 8, 9, 15, 16, 31, 32, 33][pick(if tier() == 0 { 5 } else { 8 })];
  let d0 = [0, 1, cap / 2, cap - 1, cap][pick(5)];
  let d1 = [cap, 1, cap / 2 + 1, 0][pick(4)];
  let mut l = Delay::<T>::new(d0, cap);
  let mut p = Past::<T>::new();
  for i in 0..2 * cap + 5 {
    if i == cap + 2 { l.set_delay(d1); }
    let d = if i < cap + 2 { d0 } else { d1 };
    let x = T::any();
    p.push(x);
    T::equal("the sample fed d steps earlier, longer lines", l.process(x), p.at(d));
  }
}
/// any capacity and length: a sample placed k steps back in a line comes out when it is d steps old
fn c01_big<T: F>() {
  let cap = usz(0, 1 << 24);
  let d = usz(0, 1 << 24);
  let k = usz(0, 1 << 24);
  assume(d <= cap && k <= cap);
  let mut l = Delay::<T>::new(d, cap);
  let v = T::any();
  assume(cap >= 2);
  if pick(2) == 1 { l.process(T::zero()); }
  l.tap_in(v, k);
  let x = T::any();
  let y = l.process(x);
  let w = if d == 0 { x } else if k + 1 == d { v } else { T::zero() };
  T::equal("the sample d steps back, any capacity", y, w);
  let x2 = T::any();
  let y2 = l.process(x2);
  let w2 = if d == 0 { x2 } else if d == 1 { x } else if k + 2 == d { v } else { T::zero() };
  T::equal("the sample d steps back at the next step, any capacity", y2, w2);
}

// ---------------------------------------------------------------- C02
/// arbitrary length, every position of the storage
fn c02<T: F>() {
  let cap = 1 + pick(if tier() == 0 { 2 } else { 3 });
  let pre = cap + 1 + pick(cap + 1);
  let d = unsafe { vp_f32() };
  assume(d >= 0.0 && d <= cap as f32);
  let mut l = LinearDelay::<T>::new(0.5, cap);
  let mut p = Past::<T>::new();
  for _ in 0..pre { let x = T::fin(); p.push(x); l.process(x); }
  l.set_delay(d);
  for _ in 0..cap + 1 {
    let x = T::fin();
    p.push(x);
    let y = l.process(x);
    let i = d as usize;
    let f = T::of_f32(d - i as f32);
    let (a, b) = (p.at(i), if i < cap { p.at(i + 1) } else { T::zero() });
    T::close_tol("(1-f) x[n-i] + f x[n-i-1]", y, (T::one() - f) * a + f * b, a.abs() + b.abs(), 1e-5);
  }
}
/// the weights themselves, exactly: the response to a unit impulse s steps before the newest sample
fn weight<T: F>(cap: usize, pre: usize, d: f32, s: usize) -> T {
  let mut l = LinearDelay::<T>::new(0.25, cap);
  for i in 0..pre { l.process(if i + s == pre { T::one() } else { T::zero() }); }
  l.set_delay(d);
  l.process(if s == 0 { T::one() } else { T::zero() })
}
fn c02_w1<T: F>() { c02_weights::<T>(1) }
fn c02_w2<T: F>() { c02_weights::<T>(2) }
fn c02_w3<T: F>() { c02_weights::<T>(3) }
fn c02_w5<T: F>() { if tier() > 0 { c02_weights::<T>(5) } }
fn c02_weights<T: F>(cap: usize) {
  let pre = cap + pick(cap + 1);
  let d = unsafe { vp_f32() };
  assume(d >= 0.0 && d <= cap as f32);
  let mut sum = T::zero();
  for s in 0..cap + 1 {
    let w = weight::<T>(cap, pre, d, s);
    check("a weight is not negative", w >= T::zero());
    check("a weight is at most one", w <= T::one());
    let e = T::of_f32((1.0 - (d - s as f32).abs()).max(0.0));
    T::close_tol("the weight of a sample is one less its distance from the read position", w, e, T::one(), 1e-5);
    sum = sum + w;
  }
  T::close_tol("the weights add up to one", sum, T::one(), T::one(), 1e-5);
}
/// lengths from a table, long runs
fn c02_table<T: F>() {
  let cap = [1, 2, 3, 5, 8, 12][pick(if tier() == 0 { 4 } else { 6 })];
  let d0 = pickd(cap);
  let d1 = pickd(cap);
  let mut l = LinearDelay::<T>::new(d0, cap);
  let mut p = Past::<T>::new();
  for i in 0..2 * cap + 5 {
    if i == cap + 2 { l.set_delay(d1); }
    let d = if i < cap + 2 { d0 } else { d1 };
    let x = T::fin();
    p.push(x);
    let y = l.process(x); compare("interpolated sample, lengths from a table", &l, y, &p, d);
  }
}
fn pickd(cap: usize) -> f32 {
  let c = cap as f32;
  [0.0, 0.25, c, c - 0.5, c * 0.7, 1.0, c - 0.9999, 0.001][pick(if tier() == 0 { 6 } else { 8 })]
}
/// a length changed before every sample
fn c02_vary<T: F>() {
  let cap = 3;
  let mut l = LinearDelay::<T>::new(1.5, cap);
  let mut p = Past::<T>::new();
  for _ in 0..pick(4) { let x = T::fin(); p.push(x); l.process(x); }
  for i in 0..6 {
    let d = [0.5, 3.0, 1.25, 2.75, 0.0][(i * 2 + pick(2)) % 5];
    l.set_delay(d);
    let x = T::fin();
    p.push(x);
    let y = l.process(x); compare("interpolated sample, length changed before each sample", &l, y, &p, d);
  }
}

// ---------------------------------------------------------------- C03
fn c03_int<T: F>() {
  let cap = usz(0, 1 << 24);
  let d = usz(0, usize::max_value());
  let mut l = Delay::<T>::new(d, cap);
  check("the capacity is the one asked for", l.get_max_delay() == cap);
  check("the constructor clamps the length", l.get_delay() == if d < cap { d } else { cap });
  if pick(2) == 1 { l.process(T::any()); }
  let e = usz(0, usize::max_value());
  l.set_delay(e);
  check("a request is clamped", l.get_delay() == if e < cap { e } else { cap });
  check("a request leaves the capacity", l.get_max_delay() == cap);
  l.process(T::any());
  l.process(T::any());
  l.next_out();
  check("processing leaves the length", l.get_delay() == if e < cap { e } else { cap });
}
fn clampf(d: f32, cap: usize) -> f32 { let c = cap as f32; if d < 0.0 { 0.0 } else if d > c { c } else { d } }
fn c03_lin_new<T: F>() {
  let cap = [0, 1, 2, 5, 64, 1000, 65536][pick(7)];
  let d = unsafe { vp_f32() };
  assume(!d.is_nan());
  let l = LinearDelay::<T>::new(d, cap);
  check("the capacity is the one asked for", l.get_max_delay() == cap);
  check("the constructor clamps the length", l.get_delay() == clampf(d, cap));
}
fn c03_lin_set<T: F>() {
  let cap = [0, 1, 2, 5, 64, 1000, 65536][pick(7)];
  let mut l = LinearDelay::<T>::new(if pick(2) == 0 { 0.0 } else { cap as f32 - 0.25 }, cap);
  for _ in 0..pick(3) { l.process(T::any()); }
  let e = unsafe { vp_f32() };
  assume(e.is_finite());
  l.set_delay(e);
  check("a request is clamped", l.get_delay() == clampf(e, cap));
  check("a request leaves the capacity", l.get_max_delay() == cap);
  l.next_out();
  l.process(T::any());
  l.process(T::any());
  l.process(T::any());
  check("processing leaves the length", l.get_delay() == clampf(e, cap));
  l.set_delay(0.75);
  check("a later request is clamped", l.get_delay() == clampf(0.75, cap));
  l.process(T::any());
}
/// requests at the edges of the f32 format, the infinities included
fn c03_lin_special<T: F>() {
  let cap = [0, 1, 2, 64, 65536][pick(5)];
  let mut l = LinearDelay::<T>::new(if pick(2) == 0 { 0.0 } else { cap as f32 - 0.25 }, cap);
  for _ in 0..pick(3) { l.process(T::any()); }
  let c = cap as f32;
  let e = [1.0 / 0.0, -1.0 / 0.0, 3.4028235e38, -3.4028235e38, -0.0, 1.0e-45, -1.0e-45, 1.1754944e-38, -1.1754944e-38,
           c, c + 1.0, c + 0.5, 4294967296.0, 1.8446744e19, -1.0, 9223372036854775808.0, -9223372036854775808.0][pick(17)];
  l.set_delay(e);
  check("a request is clamped", l.get_delay() == clampf(e, cap));
  check("a request leaves the capacity", l.get_max_delay() == cap);
  l.process(T::any());
  l.next_out();
  l.process(T::any());
  check("processing leaves the length", l.get_delay() == clampf(e, cap));
  l.set_delay(0.75);
  check("a later request is clamped", l.get_delay() == clampf(0.75, cap));
  l.process(T::any());
}
/// sequences of operations with in-range arguments: no panic, lengths clamped
fn c03_ops<T: F, K: LFam>() {
  let cap = pick(3);
  let mut l = K::L::<T>::mk([0.0, 7.0][pick(2)], cap);
  for _ in 0..if tier() == 0 { 3 } else { 4 } {
    let c = l.cap();
    let before = l.get();
    match pick(7) {
      0 => { l.process(T::any()); }
      1 => { let d = [0.0, 1.0, 9.0][pick(3)]; l.set(d); check("a request is clamped", l.get() == clampf(d, c)); continue; }
      2 => { l.tap_in(T::any(), c); }
      3 => { l.nxt(); }
      4 => { l.grow(c + 2 * pick(2)); }
      5 => { l.clear(); }
      _ => { let mut b = [T::any(), T::any()]; l.process_block(&mut b[..2 * pick(2)]); }
    }
    check("only a request changes the length", l.get() == before);
    check("the length is within the capacity", l.get() <= l.cap() as f32);
  }
  l.process(T::any());
  l.tap_out(l.cap());
  l.add_to(T::any(), 0);
}

// ---------------------------------------------------------------- C04
fn c04<T: F, K: LFam>() {
  let cap = [2, 0, 1, 3][pick(if tier() == 0 { 3 } else { 4 })];
  let d = length::<T, K>(cap);
  let mut l = K::L::<T>::mk(d, cap);
  let mut p = Past::<T>::new();
  let pre = [0, 1, cap + 1, cap + 2, 2 * cap + 1][pick(if tier() == 0 { 4 } else { 5 })];
  for _ in 0..pre { let x = T::fin(); p.push(x); l.process(x); }
  let last = l.last_out();
  let want = [cap + 1, cap + 3, cap, if cap > 0 { cap - 1 } else { 0 }][pick(4)];
  l.grow(want);
  let ncap = if want > cap { want } else { cap };
  check("the capacity is raised to the one asked for, never lowered", l.cap() == ncap);
  check("the length stays", l.get() == d);
  T::equal("the last output stays", l.last_out(), last);
  // what had left the line stays gone
  let keep = cap + 1;
  let gone = p.n;
  for k in 0..ncap + 1 {
    T::equal("samples readable before stay where they are, new distances read zero", l.tap_out(k), if k < keep { p.at(k) } else { T::zero() });
  }
  for k in keep..gone { let n = p.n; p.h[n - 1 - k] = T::zero(); }
  for _ in 0..2 {
    let x = T::fin();
    p.push(x);
    let y = l.process(x); compare("the output stream is undisturbed", &l, y, &p, d);
  }
  // use the new space
  let e = ncap as f32;
  l.set(e);
  for _ in 0..ncap + 2 {
    let x = T::fin();
    p.push(x);
    let y = l.process(x); compare("the new space delays as well", &l, y, &p, e);
  }
}
/// enlarging twice, with samples in between
fn c04_twice<T: F, K: LFam>() {
  let mut l = K::L::<T>::mk(1.0, 1);
  let mut p = Past::<T>::new();
  for _ in 0..pick(3) { let x = T::fin(); p.push(x); l.process(x); }
  l.grow(2);
  for k in 2..p.n { let n = p.n; p.h[n - 1 - k] = T::zero(); }
  for _ in 0..pick(4) { let x = T::fin(); p.push(x); let y = l.process(x); compare("after the first enlargement", &l, y, &p, 1.0); }
  l.set(2.0);
  l.grow(4);
  for k in 3..p.n { let n = p.n; p.h[n - 1 - k] = T::zero(); }
  check("capacity after two enlargements", l.cap() == 4);
  check("length after two enlargements", l.get() == 2.0);
  for i in 0..7 {
    let x = T::fin();
    p.push(x);
    let y = l.process(x); compare("after the second enlargement", &l, y, &p, if i < 3 { 2.0 } else { 4.0 });
    if i == 2 { l.set(4.0); }
  }
}
/// any capacities: what was placed k steps back is still there after enlarging
fn c04_big<T: F>() {
  let cap = usz(1, 1 << 20);
  let want = usz(0, 1 << 20);
  let d = usz(0, 1 << 20);
  let k = usz(0, 1 << 20);
  let j = usz(0, 1 << 20);
  assume(d <= cap && k <= cap);
  let mut l = Delay::<T>::new(d, cap);
  let v = T::any();
  l.tap_in(v, k);
  l.set_max_delay(want);
  let ncap = if want > cap { want } else { cap };
  check("the capacity is raised to the one asked for, never lowered", l.get_max_delay() == ncap);
  check("the length stays", l.get_delay() == d);
  assume(j <= ncap);
  T::equal("any capacity: samples keep their distance, new ones read zero", l.tap_out(j), if j == k { v } else { T::zero() });
}

// ---------------------------------------------------------------- C05
fn c05<T: F, K: LFam>() {
  let linear = K::L::<T>::FRACS.len() > 1;
  let cap = [2, 0, 1, 3][pick(if tier() == 0 { 3 } else { 4 })];
  let c = cap as f32;
  let d = if cap == 0 { 0.0 } else { [c, 0.0, if linear { c - 0.5 } else { 1.0 }][pick(3)] };
  let mut l = K::L::<T>::mk(d, cap);
  let mut p = Past::<T>::new();
  // the storage is there from the start: zeros fed before the start
  for _ in 0..cap + 1 { p.push(T::zero()); }
  for _ in 0..pick(2 * cap + 3) { let x = T::fin(); p.push(x); l.process(x); }
  for k in 0..cap + 1 { T::equal("tap k is the sample k steps back", l.tap_out(k), p.at(k)); }
  for r in 0..if linear && tier() == 0 { 1 } else { 2 } {
    let k = pick(cap + 1);
    let v = T::fin();
    let n = p.n;
    let op = if r == 0 { pick(2) } else { 1 - pick(2) };
    if op == 0 { l.tap_in(v, k); p.h[n - 1 - k] = v; }
    else {
      let s = p.at(k) + v;
      assume(s.is_finite());
      T::equal("adding to a tap returns the sum", l.add_to(v, k), s);
      p.h[n - 1 - k] = s;
    }
    for i in 0..cap + 1 { T::equal("the addressed tap is changed and no other", l.tap_out(i), p.at(i)); }
    check("taps leave the length", l.get() == d);
    if r == 0 && pick(2) == 1 { let x = T::fin(); p.push(x); let y = l.process(x); compare("an output after a tap write", &l, y, &p, d); }
  }
  for _ in 0..cap + 2 {
    let x = T::fin();
    p.push(x);
    let y = l.process(x); compare("later outputs as if the altered value had been fed", &l, y, &p, d);
    T::equal("tap 0 is the newest sample", l.tap_out(0), x);
    T::equal("tap cap is the oldest sample", l.tap_out(cap), p.at(cap));
  }
}
/// any capacity and tap
fn c05_big<T: F, K: LFam>() {
  let cap = usz(2, 1 << 20);
  let k = usz(0, 1 << 20);
  let j = usz(0, 1 << 20);
  let i = usz(0, 1 << 20);
  assume(k <= cap && j <= cap && i <= cap);
  let mut l = K::L::<T>::mk(0.0, cap);
  let n = pick(3);
  let (x, y) = (T::any(), T::any());
  if n > 0 { l.process(x); }
  if n > 1 { l.process(y); }
  let (v, w) = (T::any(), T::any());
  l.tap_in(v, k);
  let old = if j == k { v } else if n == 2 && j == 0 { y } else if n == 2 && j == 1 { x } else if n == 1 && j == 0 { x } else { T::zero() };
  T::equal("adding to a tap returns the sum, any capacity", l.add_to(w, j), old + w);
  let e = if i == j { old + w } else if i == k { v } else if n == 2 && i == 0 { y } else if n == 2 && i == 1 { x } else if n == 1 && i == 0 { x } else { T::zero() };
  T::equal("the addressed taps are changed and no other, any capacity", l.tap_out(i), e);
}

// ---------------------------------------------------------------- C06
/// the query predicts
fn c06<T: F, K: LFam>() {
  let cap = 1 + pick(if tier() == 0 { 2 } else { 3 });
  let d = 1.0 + length::<T, K>(cap - 1);
  let mut l = K::L::<T>::mk(if pick(2) == 0 { d } else { 0.0 }, cap);
  for _ in 0..pick(cap + 2) { l.process(T::fin()); }
  l.set(d);
  for i in 0..cap + 2 {
    let e = l.nxt();
    if i % 2 == 1 { T::equal("the query is repeatable", l.nxt(), e); }
    let last = l.last_out();
    l.nxt();
    T::equal("the query leaves the last output", l.last_out(), last);
    let y = l.process(T::fin());
    T::equal("the query predicts the next output", e, y);
  }
}
/// two lines driven alike, one of them queried in between
fn c06_twin<T: F, K: LFam>() {
  let cap = 1 + pick(2);
  let d = [cap as f32, 0.0, 0.5][pick(if K::L::<T>::FRACS.len() > 1 { 3 } else { 2 })];
  let mut a = K::L::<T>::mk(d, cap);
  let mut b = K::L::<T>::mk(d, cap);
  for _ in 0..pick(3) { let x = T::fin(); a.process(x); b.process(x); }
  a.nxt();
  match pick(8) {
    0 => {}
    1 => { let e = [0.0, 1.0, cap as f32 - 0.5][pick(3)]; a.set(e); b.set(e); }
    2 => { let (v, k) = (T::fin(), pick(cap + 1)); a.tap_in(v, k); b.tap_in(v, k); }
    3 => { let (v, k) = (T::fin(), pick(cap + 1)); a.add_to(v, k); b.add_to(v, k); }
    4 => { a.clear(); b.clear(); }
    5 => { a.grow(cap + 2); b.grow(cap + 2); }
    6 => { a.clear(); b.clear(); a.nxt(); a.set(cap as f32); b.set(cap as f32); }
    _ => { let x = T::fin(); a.process(x); b.process(x); let v = T::fin(); a.tap_in(v, 0); b.tap_in(v, 0); }
  }
  if pick(2) == 1 { a.nxt(); }
  for _ in 0..cap + 2 {
    let x = T::fin();
    T::equal("the query disturbs no later output", a.process(x), b.process(x));
    T::equal("the query disturbs no later last output", a.last_out(), b.last_out());
    a.nxt();
    for k in 0..cap + 1 { T::equal("the query disturbs no tap", a.tap_out(k), b.tap_out(k)); }
  }
  check("the query leaves the length", a.get() == b.get() && a.cap() == b.cap());
}

/// query, change something, query again: the answer is for the line as it now is
fn c06_seq<T: F, K: LFam>() {
  let cap = 2 + pick(2);
  let c = cap as f32;
  let ls = if K::L::<T>::FRACS.len() > 1 { [c, 1.25, 1.75, 2.0, c - 0.5, 1.0] } else { [c, 1.0, 2.0, c, 1.0, 2.0] };
  let m = if K::L::<T>::FRACS.len() > 1 { 6 } else { 3 };
  let mut l = K::L::<T>::mk(ls[pick(m)], cap);
  for _ in 0..[0, cap, 2 * cap + 1][pick(3)] { l.process(T::fin()); }
  for _ in 0..1 + tier().min(1) {
    l.nxt();
    match pick(7) {
      0 => { l.set(ls[pick(m)]); }
      1 => { l.tap_in(T::fin(), pick(cap + 1)); }
      2 => { let (v, k) = (T::fin(), pick(cap + 1)); assume((v + l.tap_out(k)).is_finite()); l.add_to(v, k); }
      3 => { l.clear(); }
      4 => { l.grow(cap + 2); }
      5 => { let mut b = [T::fin(), T::fin()]; l.process_block(&mut b); }
      _ => { l.tap_out(cap); l.process(T::fin()); }
    }
    let e = l.nxt();
    T::equal("the query predicts the next output after a change", e, l.process(T::fin()));
  }
}

// ---------------------------------------------------------------- longer lines, one code path per (capacity, history, length)
/// a fixed signal with a few arbitrary samples in it
struct Sig<T> { at: usize, v: [T; 4], n: usize, last: usize }
impl<T: F> Sig<T> {
  /// arbitrary at positions at..at+4; nothing kept from before position `from`
  fn new(at: usize) -> Self { Sig { at: at, v: [T::fin(), T::fin(), T::fin(), T::fin()], n: 0, last: 0 } }
  fn val(&self, i: usize) -> T { if i >= self.at && i < self.at + 4 { self.v[i - self.at] } else { T::of_usize(i % 13 + 1) } }
  fn next(&mut self) -> T { self.n += 1; self.val(self.n - 1) }
  /// k steps before the newest, zero before position `last`
  fn back(&self, k: usize) -> T { if k < self.n - self.last { self.val(self.n - 1 - k) } else { T::zero() } }
  fn expect(&self, d: f32) -> (T, T) {
    let i = d as usize;
    let f = T::of_f32(d - i as f32);
    if f == T::zero() { (self.back(i), self.back(i).abs()) }
    else { let (a, b) = (self.back(i), self.back(i + 1)); ((T::one() - f) * a + f * b, a.abs() + b.abs()) }
  }
}
/// the read position is kept in f32: its resolution at this capacity
fn res(cap: usize) -> f64 { 1e-5 + cap as f64 * 2.5e-7 }
fn agree<T: F, L: Line<T>>(m: &'static str, l: &mut L, s: &mut Sig<T>, d: f32, cap: usize) {
  let x = s.next();
  let y = l.process(x);
  let (e, sc) = s.expect(d);
  if L::FRACS.len() == 1 { T::equal(m, y, e); } else { T::close_tol(m, y, e, sc, res(cap)); }
}
const FAR: [usize; 16] = [8, 64, 100, 127, 128, 255, 256, 257, 1024, 31, 32, 33, 511, 1000, 4095, 4096];
fn far_cap() -> usize { FAR[pick(if tier() == 0 { 9 } else { 16 })] }
fn far_len<T: F, L: Line<T>>(cap: usize) -> f32 {
  let c = cap as f32;
  if L::FRACS.len() == 1 { [c, 1.0, c - 1.0, 0.0, (cap / 2) as f32][pick(5)] }
  else { [c, c - 0.25, 0.5, 1.0, c / 2.0 + 0.25][pick(5)] }
}
/// C01, C02: lines of realistic size, around powers of two
fn far<T: F, K: LFam>() {
  let cap = far_cap();
  let d = far_len::<T, K::L<T>>(cap);
  let pre = [cap - 1, cap + 1][pick(2)];
  let mut l = K::L::<T>::mk((cap / 3) as f32, cap);
  let mut s = Sig::<T>::new(pre + 2);
  for _ in 0..pre { let x = s.next(); l.process(x); }
  l.set(d);
  check("the length is the one asked for", l.get() == d);
  for _ in 0..cap + 10 { agree("the output at the current length, larger lines", &mut l, &mut s, d, cap); }
}
/// C01, C02: positions beyond 2^16
fn huge<T: F, K: LFam>() {
  let cap = 65800;
  let d = (cap - 2) as f32;
  let mut l = K::L::<T>::mk(d, cap);
  let mut s = Sig::<T>::new(1);
  for _ in 0..cap - 2 { let x = s.next(); l.process(x); }
  for _ in 0..8 { agree("the output at the current length, very long lines", &mut l, &mut s, d, cap); }
  l.set(65538.0);
  for _ in 0..2 { agree("the output at the current length, very long lines", &mut l, &mut s, 65538.0, cap); }
  l.set(5.0);
  for _ in 0..2 { agree("the output at the current length, very long lines", &mut l, &mut s, 5.0, cap); }
}
/// C04: larger lines, storage wrapped
fn far_grow<T: F, K: LFam>() {
  let cap = [3, 8, 17, 64, 100, 31, 33][pick(if tier() == 0 { 4 } else { 7 })];
  let want = [cap + 1, 2 * cap, 2 * cap + 1, cap + 64, cap][pick(5)];
  let d = { let c = cap as f32; if K::L::<T>::FRACS.len() == 1 { [c, 1.0, (cap / 2) as f32][pick(3)] } else { [c, c - 0.25, 1.5][pick(3)] } };
  let pre = [cap + 1, cap + 3, 2 * cap][pick(3)];
  let mut l = K::L::<T>::mk(d, cap);
  let mut s = Sig::<T>::new(pre - 2);
  for _ in 0..pre { let x = s.next(); l.process(x); }
  l.grow(want);
  check("the capacity is raised to the one asked for", l.cap() == want);
  check("the length stays", l.get() == d);
  if want > cap { s.last = s.n - (cap + 1); }
  for k in 0..want + 1 { T::equal("samples keep their distance, larger lines", l.tap_out(k), s.back(k)); }
  for _ in 0..cap + 3 { agree("the output stream is undisturbed, larger lines", &mut l, &mut s, d, want); }
  let e = want as f32;
  l.set(e);
  for _ in 0..want + 3 { agree("the new space delays as well, larger lines", &mut l, &mut s, e, want); }
}
/// C06: the query predicts, larger lines
fn far_next<T: F, K: LFam>() {
  let cap = far_cap();
  let d = { let c = cap as f32; if K::L::<T>::FRACS.len() == 1 { [c, 1.0, (cap / 2) as f32][pick(3)] } else { [c, c - 0.25, 1.5][pick(3)] } };
  let mut l = K::L::<T>::mk(d, cap);
  let mut s = Sig::<T>::new(3);
  for i in 0..2 * cap + 5 {
    let x = s.next();
    if i % 3 == 2 { l.process(x); continue; }
    let e = l.nxt();
    let y = l.process(x);
    T::equal("the query predicts the next output, larger lines", e, y);
  }
}
/// C05: every tap of a larger line
fn far_tap<T: F, K: LFam>() {
  let cap = [5, 8, 33, 64, 127, 128, 257][pick(if tier() == 0 { 4 } else { 7 })];
  let pre = [2, cap, cap + 1, cap + cap / 2][pick(4)];
  let k = [0, cap, cap / 2, cap - 1, 1][pick(5)];
  let d = cap as f32;
  let mut l = K::L::<T>::mk(d, cap);
  let mut s = Sig::<T>::new(pre - 2);
  for _ in 0..pre { let x = s.next(); l.process(x); }
  for j in 0..cap + 1 { T::equal("tap j is the sample j steps back, larger lines", l.tap_out(j), s.back(j)); }
  let v = T::fin();
  let w = if pick(2) == 0 { l.tap_in(v, k); v } else { let w = s.back(k) + v; assume(w.is_finite()); T::equal("adding to a tap returns the sum, larger lines", l.add_to(v, k), w); w };
  for j in 0..cap + 1 { T::equal("only the addressed tap changes, larger lines", l.tap_out(j), if j == k { w } else { s.back(j) }); }
  for i in 0..cap + 2 {
    let x = s.next();
    let y = l.process(x);
    let e = if k + i + 1 == cap { w } else { s.back(cap) };
    let m = "later outputs as if the altered value had been fed, larger lines";
    if K::L::<T>::FRACS.len() == 1 { T::equal(m, y, e); } else { T::close_tol(m, y, e, e.abs(), res(cap)); }
  }
}

// ---------------------------------------------------------------- C09, C10 with every operation of a delay line in the history
fn ops<T: F, L: Line<T>>(l: &mut L) {
  let c = l.cap();
  match pick(6) {
    0 => { l.nxt(); }
    1 => { l.tap_in(T::fin(), pick(c + 1)); }
    2 => { l.add_to(T::fin(), c - pick(c + 1)); }
    3 => { l.grow(c + 1); }
    4 => { l.set([c as f32, 0.0][pick(2)]); }
    _ => { let mut b = [T::fin(), T::fin()]; l.process_block(&mut b); }
  }
}
fn c09_line<T: F, K: LFam>() {
  let cap = pick(3);
  let mut l = K::L::<T>::mk(cap as f32, cap);
  for _ in 0..pick(cap + 2) { l.process(T::fin()); }
  ops::<T, K::L<T>>(&mut l);
  if pick(2) == 1 { l.process(T::fin()); }
  ops::<T, K::L<T>>(&mut l);
  l.clear();
  let mut f = K::L::<T>::mk(l.get(), l.cap());
  check("clear keeps length and capacity", f.get() == l.get() && f.cap() == l.cap());
  T::equal("the last output is zero after clear", l.last_out(), T::zero());
  let c = l.cap();
  for k in 0..c + 1 { T::equal("every tap reads zero after clear", l.tap_out(k), T::zero()); }
  T::equal("the next output is a fresh line's", l.nxt(), f.nxt());
  let q = pick(3);
  if q == 1 { l.set(0.0); f.set(0.0); }
  if q == 2 { l.grow(c + 2); f.grow(c + 2); }
  for _ in 0..c + 2 { let x = T::fin(); T::equal("outputs after clear equal a fresh line's", l.process(x), f.process(x)); }
}
fn c10_line<T: F, K: LFam>() {
  let cap = 1 + pick(2);
  let mut l = K::L::<T>::mk(1.0, cap);
  for _ in 0..pick(cap + 2) { l.process(T::fin()); }
  let mut y = l.last_out();
  for _ in 0..2 {
    match pick(7) {
      0 => { l.nxt(); }
      1 => { l.tap_in(T::fin(), pick(l.cap() + 1)); }
      2 => { l.add_to(T::fin(), pick(l.cap() + 1)); }
      3 => { let c = l.cap(); l.grow(c + 1); }
      4 => { let c = l.cap() as f32; l.set([c, 0.0][pick(2)]); }
      5 => { l.tap_out(0); }
      _ => { let mut b = [T::fin(), T::fin()]; y = l.process_block(&mut b); T::equal("a block leaves its last sample as last output", l.last_out(), b[1]); }
    }
    T::equal("last_out changes with outputs only", l.last_out(), y);
  }
  y = l.process(T::fin());
  T::equal("last_out returns the output", l.last_out(), y);
}

register!{
  c01_turn_f32, c01_turn_f64 : c01;
  c01_vary_f32, c01_vary_f64 : c01_vary;
  c01_long_f32, c01_long_f64 : c01_long;
  c01_big_f32, c01_big_f64 : c01_big;
  c02_sym_f32, c02_sym_f64 : c02;
  c02_w1_f32, c02_w1_f64 : c02_w1;
  c02_w2_f32, c02_w2_f64 : c02_w2;
  c02_w3_f32, c02_w3_f64 : c02_w3;
  c02_w5_f32, c02_w5_f64 : c02_w5;
  c02_table_f32, c02_table_f64 : c02_table;
  c02_vary_f32, c02_vary_f64 : c02_vary;
  c03_int_f32, c03_int_f64 : c03_int;
  c03_linnew_f32, c03_linnew_f64 : c03_lin_new;
  c03_linset_f32, c03_linset_f64 : c03_lin_set;
  c03_linspecial_f32, c03_linspecial_f64 : c03_lin_special;
  c03_opsint_f32, c03_opsint_f64 : c03_ops::<KInt>;
  c03_opslin_f32, c03_opslin_f64 : c03_ops::<KLin>;
  c04_int_f32, c04_int_f64 : c04::<KInt>;
  c04_lin_f32, c04_lin_f64 : c04::<KLin>;
  c04_twiceint_f32, c04_twiceint_f64 : c04_twice::<KInt>;
  c04_twicelin_f32, c04_twicelin_f64 : c04_twice::<KLin>;
  c04_big_f32, c04_big_f64 : c04_big;
  c05_int_f32, c05_int_f64 : c05::<KInt>;
  c05_lin_f32, c05_lin_f64 : c05::<KLin>;
  c05_bigint_f32, c05_bigint_f64 : c05_big::<KInt>;
  c05_biglin_f32, c05_biglin_f64 : c05_big::<KLin>;
  c06_int_f32, c06_int_f64 : c06::<KInt>;
  c06_lin_f32, c06_lin_f64 : c06::<KLin>;
  c06_seqint_f32, c06_seqint_f64 : c06_seq::<KInt>;
  c06_seqlin_f32, c06_seqlin_f64 : c06_seq::<KLin>;
  c06_twinint_f32, c06_twinint_f64 : c06_twin::<KInt>;
  c06_twinlin_f32, c06_twinlin_f64 : c06_twin::<KLin>;
  c01_far_f32, c01_far_f64 : far::<KInt>;
  c02_far_f32, c02_far_f64 : far::<KLin>;
  c01_huge_f32, c01_huge_f64 : huge::<KInt>;
  c02_huge_f32, c02_huge_f64 : huge::<KLin>;
  c04_farint_f32, c04_farint_f64 : far_grow::<KInt>;
  c04_farlin_f32, c04_farlin_f64 : far_grow::<KLin>;
  c05_farint_f32, c05_farint_f64 : far_tap::<KInt>;
  c05_farlin_f32, c05_farlin_f64 : far_tap::<KLin>;
  c06_farint_f32, c06_farint_f64 : far_next::<KInt>;
  c06_farlin_f32, c06_farlin_f64 : far_next::<KLin>;
  c09_lineint_f32, c09_lineint_f64 : c09_line::<KInt>;
  c09_linelin_f32, c09_linelin_f64 : c09_line::<KLin>;
  c10_lineint_f32, c10_lineint_f64 : c10_line::<KInt>;
  c10_linelin_f32, c10_linelin_f64 : c10_line::<KLin>;
}
