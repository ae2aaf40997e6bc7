//! One uniform view of every processor of the crate.
use rasp::analysis::{LeakyIntegrator, PeakEnvDetector, RmsEnvDetector};
use rasp::delay::{Delay, LinearDelay};
use rasp::filter::rbj::{AllPass, BandPass1, BandPass2, BandStop, HighPass, HighShelf, LowPass, LowShelf, Peak};
use rasp::filter::{Biquad1, Biquad2, OnePole, OneZero, TwoPole, TwoZero};
use rasp::traits::{Processor, TappableDelayLine};
use crate::vp::*;

pub trait Px<T: F>: Processor<T> + Sized {
  type P: Copy;
  fn mk() -> Self;
  /// arbitrary parameters
  fn any() -> Self::P;
  /// arbitrary parameters, perhaps from a smaller set
  fn any2() -> Self::P { Self::any() }
  /// one particular set of parameters
  fn fixed() -> Self::P;
  fn setp(&mut self, p: Self::P);
  /// compares everything the getters report
  fn same_params(m: &'static str, a: &Self, b: &Self);
  /// calls every side-effect free query
  fn queries(&mut self) {}
  /// samples after which nothing of the past is left to show
  const MEM: usize;
  /// setting parameters clears
  const CLEARS: bool = false;
}
/// family of processors, one per sample type
pub trait Fam { type P<T: F>: Px<T>; }

macro_rules! fam { ($k:ident, $t:ident) => { pub struct $k; impl Fam for $k { type P<T: F> = $t<T>; } } }
fam!(KOnePole, OnePole); fam!(KOneZero, OneZero); fam!(KTwoPole, TwoPole); fam!(KTwoZero, TwoZero); fam!(KBiquad1, Biquad1); fam!(KBiquad2, Biquad2);
fam!(KLowPass, LowPass); fam!(KHighPass, HighPass); fam!(KBandPass1, BandPass1); fam!(KBandPass2, BandPass2); fam!(KBandStop, BandStop);
fam!(KAllPass, AllPass); fam!(KPeak, Peak); fam!(KLowShelf, LowShelf); fam!(KHighShelf, HighShelf);
fam!(KLeaky, LeakyIntegrator); fam!(KPeakEnv, PeakEnvDetector); fam!(KRmsEnv, RmsEnvDetector);
pub struct KDelay; impl Fam for KDelay { type P<T: F> = Dl<T>; }
pub struct KLinear; impl Fam for KLinear { type P<T: F> = Ln<T>; }

/// coefficients taken from the front of an array
pub trait Five<T> { fn five(&mut self, p: [T; 5]); }
macro_rules! coefs {
  ($t:ident, $mem:expr, $n:expr, $($c:ident $i:expr),*) => {
    impl<T: F> Px<T> for $t<T> {
      type P = [T; $n];
      fn mk() -> Self { $t::new() }
      fn any() -> [T; $n] { let mut p = [T::zero(); $n]; for x in p.iter_mut() { *x = T::any(); } p }
      fn fixed() -> [T; $n] { let c = [0.75, -0.25, 0.125, 0.5, -0.25]; let mut p = [T::zero(); $n]; for i in 0..$n { p[i] = T::k(c[i]); } p }
      fn setp(&mut self, p: [T; $n]) { self.set_coefficients($(p[$i]),*) }
      fn same_params(m: &'static str, a: &Self, b: &Self) { $( T::equal(m, a.$c, b.$c); )* }
      const MEM: usize = $mem;
    }
    impl<T: F> Five<T> for $t<T> { fn five(&mut self, p: [T; 5]) { self.set_coefficients($(p[$i]),*) } }
  }
}
coefs!(OnePole, 1, 2, b0 0, a1 1);
coefs!(OneZero, 1, 2, b0 0, b1 1);
coefs!(TwoPole, 2, 3, b0 0, a1 1, a2 2);
coefs!(TwoZero, 2, 3, b0 0, b1 1, b2 2);
coefs!(Biquad1, 2, 5, b0 0, b1 1, b2 2, a1 3, a2 4);
coefs!(Biquad2, 2, 5, b0 0, b1 1, b2 2, a1 3, a2 4);

macro_rules! rbj {
  ($t:ident, $n:expr, $($i:expr),*) => {
    impl<T: F> Px<T> for $t<T> {
      type P = [T; $n];
      fn mk() -> Self { $t::new() }
      fn any() -> [T; $n] { let mut p = [T::zero(); $n]; for x in p.iter_mut() { *x = T::any(); } p }
      fn fixed() -> [T; $n] { let c = if $n == 3 { [8.0, 1.0, 2.0, 0.0] } else { [8.0, 1.0, 6.0, 0.75] }; let mut p = [T::zero(); $n]; for i in 0..$n { p[i] = T::k(c[i]); } p }
      fn setp(&mut self, p: [T; $n]) { self.set_coefficients($(p[$i]),*) }
      fn same_params(_: &'static str, _: &Self, _: &Self) {}
      const MEM: usize = 2;
      const CLEARS: bool = true;
    }
  }
}
rbj!(LowPass, 3, 0, 1, 2); rbj!(HighPass, 3, 0, 1, 2); rbj!(BandPass1, 3, 0, 1, 2); rbj!(BandPass2, 3, 0, 1, 2);
rbj!(BandStop, 3, 0, 1, 2); rbj!(AllPass, 3, 0, 1, 2); rbj!(Peak, 4, 0, 1, 2, 3); rbj!(LowShelf, 4, 0, 1, 2, 3); rbj!(HighShelf, 4, 0, 1, 2, 3);

impl<T: F> Px<T> for LeakyIntegrator<T> {
  type P = T;
  fn mk() -> Self { LeakyIntegrator::new() }
  fn any() -> T { T::any() }
  fn fixed() -> T { T::k(0.5) }
  fn setp(&mut self, p: T) { self.set_alpha(p) }
  fn same_params(m: &'static str, a: &Self, b: &Self) { T::equal(m, a.get_alpha(), b.get_alpha()) }
  fn queries(&mut self) { self.get_alpha(); }
  const MEM: usize = 1;
}
macro_rules! env {
  ($t:ident) => {
    impl<T: F> Px<T> for $t<T> {
      type P = [T; 2];
      fn mk() -> Self { $t::new() }
      fn any() -> [T; 2] { [T::any(), T::any()] }
      fn fixed() -> [T; 2] { [T::k(4.0), T::k(20.0)] }
      fn setp(&mut self, p: [T; 2]) { self.set_attack(p[0]); self.set_release(p[1]) }
      fn same_params(m: &'static str, a: &Self, b: &Self) {
        T::equal(m, a.get_attack_gain(), b.get_attack_gain());
        T::equal(m, a.get_release_gain(), b.get_release_gain());
      }
      fn queries(&mut self) { self.get_attack_gain(); self.get_release_gain(); }
      const MEM: usize = 1;
    }
  }
}
env!(PeakEnvDetector);
env!(RmsEnvDetector);

pub const CAP: usize = 3;
/// integer delay line of capacity CAP
pub struct Dl<T>(pub Delay<T>);
impl<T: F> Processor<T> for Dl<T> {
  fn process(&mut self, x: T) -> T { self.0.process(x) }
  fn process_block(&mut self, s: &mut [T]) -> T { self.0.process_block(s) }
  fn clear(&mut self) { self.0.clear() }
  fn last_out(&self) -> T { self.0.last_out() }
}
impl<T: F> Px<T> for Dl<T> {
  type P = usize;
  fn mk() -> Self { Dl(Delay::new(CAP, CAP)) }
  fn any() -> usize { usz(0, CAP + 1) }
  fn any2() -> usize { pick(CAP + 1) }
  fn fixed() -> usize { 2 }
  fn setp(&mut self, p: usize) { self.0.set_delay(p) }
  fn same_params(m: &'static str, a: &Self, b: &Self) {
    check(m, a.0.get_delay() == b.0.get_delay());
    check(m, a.0.get_max_delay() == b.0.get_max_delay());
    for k in 0..CAP + 1 { T::equal(m, a.0.tap_out(k), b.0.tap_out(k)); }
    T::equal(m, a.0.next_out(), b.0.next_out());
  }
  fn queries(&mut self) { self.0.get_delay(); self.0.get_max_delay(); self.0.next_out(); self.0.tap_out(0); }
  const MEM: usize = CAP + 1;
}
/// fractional delay line of capacity CAP; the lengths explored here are a table of exactly representable ones
pub struct Ln<T>(pub LinearDelay<T>);
impl<T: F> Processor<T> for Ln<T> {
  fn process(&mut self, x: T) -> T { self.0.process(x) }
  fn process_block(&mut self, s: &mut [T]) -> T { self.0.process_block(s) }
  fn clear(&mut self) { self.0.clear() }
  fn last_out(&self) -> T { self.0.last_out() }
}
impl<T: F> Px<T> for Ln<T> {
  type P = f32;
  fn mk() -> Self { Ln(LinearDelay::new(CAP as f32, CAP)) }
  fn any() -> f32 { [1.5, 0.0, 2.75, 3.0, 1.0, 0.125, 3.5, -1.0][pick(8)] }
  fn any2() -> f32 { [2.25, 3.0, 0.0][pick(3)] }
  fn fixed() -> f32 { 1.25 }
  fn setp(&mut self, p: f32) { self.0.set_delay(p) }
  fn same_params(m: &'static str, a: &Self, b: &Self) {
    check(m, a.0.get_delay() == b.0.get_delay() || (a.0.get_delay().is_nan() && b.0.get_delay().is_nan()));
    check(m, a.0.get_max_delay() == b.0.get_max_delay());
    for k in 0..CAP + 1 { T::equal(m, a.0.tap_out(k), b.0.tap_out(k)); }
  }
  fn queries(&mut self) { self.0.get_delay(); self.0.get_max_delay(); self.0.next_out(); self.0.tap_out(0); }
  const MEM: usize = CAP + 1;
}
