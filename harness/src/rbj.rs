//! The equaliser filters (C13, C14).
use rasp::filter::rbj::{AllPass, BandPass1, BandPass2, BandStop, HighPass, HighShelf, LowPass, LowShelf, Peak};
use rasp::traits::Processor;
use crate::px::*;
use crate::vp::*;

/// Audio-EQ-Cookbook: normalised coefficients and the size of the terms they were summed from
pub struct Ref<T> { b: [T; 3], a: [T; 2], sb: T, sa: T }
pub trait Eq<T: F>: Px<T> + Processor<T> {
  /// sample rate, frequency, gain in dB, Q or slope
  fn put(&mut self, p: [T; 4]);
  fn cookbook(p: [T; 4]) -> Ref<T>;
  /// gains at DC, Nyquist and the characteristic frequency (None: not advertised)
  fn dc(p: [T; 4]) -> T;
  fn nyquist(p: [T; 4]) -> T;
  fn centre(p: [T; 4]) -> Option<T>;
  const SHELF: bool = false;
  const GAIN: bool = false;
}
pub trait EFam { type E<T: F>: Eq<T>; }

fn w0<T: F>(p: [T; 4]) -> T { T::two() * T::pi() * p[1] / p[0] }
fn alpha<T: F>(p: [T; 4]) -> T { w0(p).sin() / (T::two() * p[3]) }
fn amp<T: F>(p: [T; 4]) -> T { T::k(10.0).powf(p[2] / T::k(40.0)) }
/// b0 b1 b2 a0 a1 a2 and the magnitudes before cancellation
fn normal<T: F>(b: [T; 3], a: [T; 3], sb: T, sa: T) -> Ref<T> {
  let a0 = a[0];
  Ref { b: [b[0] / a0, b[1] / a0, b[2] / a0], a: [a[1] / a0, a[2] / a0], sb: sb / a0, sa: sa / a0 }
}
impl<T: F> Ref<T> {
  /// the divisor is itself a difference: its relative error multiplies every coefficient
  fn cancelled(self) -> Ref<T> { let k = T::one() + self.sa; Ref { b: self.b, a: self.a, sb: self.sb * k, sa: self.sa * k } }
}
macro_rules! eq {
  ($k:ident, $t:ident, $cook:expr, $dc:expr, $ny:expr, $ce:expr) => {
    pub struct $k;
    impl EFam for $k { type E<T: F> = $t<T>; }
    impl<T: F> Eq<T> for $t<T> {
      fn put(&mut self, p: [T; 4]) { self.set_coefficients(p[0], p[1], p[3]) }
      fn cookbook(p: [T; 4]) -> Ref<T> { let (c, al) = (w0(p).cos(), alpha(p)); let f: fn([T; 4], T, T) -> [T; 3] = $cook;
        normal(f(p, c, al), [T::one() + al, -T::two() * c, T::one() - al], T::two() + al + p[3].abs() * al, T::two() + al) }
      fn dc(p: [T; 4]) -> T { let f: fn([T; 4]) -> T = $dc; f(p) }
      fn nyquist(p: [T; 4]) -> T { let f: fn([T; 4]) -> T = $ny; f(p) }
      fn centre(p: [T; 4]) -> Option<T> { let f: fn([T; 4]) -> Option<T> = $ce; f(p) }
    }
  }
}
fn o<T: F>() -> T { T::one() }
fn z<T: F>() -> T { T::zero() }
eq!(ELowPass, LowPass, |_, c, _| { let h = o::<T>() - c; [h / T::two(), h, h / T::two()] }, |_| o(), |_| z(), |_| None);
eq!(EHighPass, HighPass, |_, c, _| { let h = o::<T>() + c; [h / T::two(), -h, h / T::two()] }, |_| z(), |_| o(), |_| None);
eq!(EBandPass1, BandPass1, |p, _, al| [p[3] * al, z(), -p[3] * al], |_| z(), |_| z(), |p| Some(p[3]));
eq!(EBandPass2, BandPass2, |_, _, al| [al, z(), -al], |_| z(), |_| z(), |_| Some(o()));
eq!(EBandStop, BandStop, |_, c, _| [o(), -T::two() * c, o()], |_| o(), |_| o(), |_| Some(z()));
eq!(EAllPass, AllPass, |_, c, al| [o::<T>() - al, -T::two() * c, o::<T>() + al], |_| o(), |_| o(), |_| Some(-o::<T>()));

fn gain<T: F>(p: [T; 4]) -> T { T::k(10.0).powf(p[2] / T::k(20.0)) }
pub struct EPeak;
impl EFam for EPeak { type E<T: F> = Peak<T>; }
impl<T: F> Eq<T> for Peak<T> {
  fn put(&mut self, p: [T; 4]) { self.set_coefficients(p[0], p[1], p[2], p[3]) }
  fn cookbook(p: [T; 4]) -> Ref<T> {
    let (c, al, a) = (w0(p).cos(), alpha(p), amp(p));
    normal([o::<T>() + al * a, -T::two() * c, o::<T>() - al * a], [o::<T>() + al / a, -T::two() * c, o::<T>() - al / a], T::two() + al * a, T::two() + al / a)
  }
  fn dc(_: [T; 4]) -> T { o() }
  fn nyquist(_: [T; 4]) -> T { o() }
  fn centre(p: [T; 4]) -> Option<T> { Some(gain(p)) }
  const GAIN: bool = true;
}
fn slope<T: F>(p: [T; 4]) -> T { let a = amp(p); w0(p).sin() / T::two() * ((a + o::<T>() / a) * (o::<T>() / p[3] - o::<T>()) + T::two()).sqrt() }
pub struct ELowShelf;
impl EFam for ELowShelf { type E<T: F> = LowShelf<T>; }
impl<T: F> Eq<T> for LowShelf<T> {
  fn put(&mut self, p: [T; 4]) { self.set_coefficients(p[0], p[1], p[2], p[3]) }
  fn cookbook(p: [T; 4]) -> Ref<T> {
    let (c, a) = (w0(p).cos(), amp(p));
    let (s, u, v) = (T::two() * a.sqrt() * slope(p), a + o(), a - o());
    normal([a * (u - v * c + s), T::two() * a * (v - u * c), a * (u - v * c - s)],
           [u + v * c + s, -T::two() * (v + u * c), u + v * c - s], a * (T::k(4.0) * u + s), T::k(4.0) * u + s).cancelled()
  }
  fn dc(p: [T; 4]) -> T { gain(p) }
  fn nyquist(_: [T; 4]) -> T { o() }
  fn centre(_: [T; 4]) -> Option<T> { None }
  const GAIN: bool = true;
  const SHELF: bool = true;
}
pub struct EHighShelf;
impl EFam for EHighShelf { type E<T: F> = HighShelf<T>; }
impl<T: F> Eq<T> for HighShelf<T> {
  fn put(&mut self, p: [T; 4]) { self.set_coefficients(p[0], p[1], p[2], p[3]) }
  fn cookbook(p: [T; 4]) -> Ref<T> {
    let (c, a) = (w0(p).cos(), amp(p));
    let (s, u, v) = (T::two() * a.sqrt() * slope(p), a + o(), a - o());
    normal([a * (u + v * c + s), -T::two() * a * (v + u * c), a * (u + v * c - s)],
           [u - v * c + s, T::two() * (v - u * c), u - v * c - s], a * (T::k(4.0) * u + s), T::k(4.0) * u + s).cancelled()
  }
  fn dc(_: [T; 4]) -> T { o() }
  fn nyquist(p: [T; 4]) -> T { gain(p) }
  fn centre(_: [T; 4]) -> Option<T> { None }
  const GAIN: bool = true;
  const SHELF: bool = true;
}

/// sample rate, frequency strictly inside (0, rate/2), gain, Q or slope
fn params<T: F, K: EFam>() -> [T; 4] {
  let p = [T::any(), T::any(), if K::E::<T>::GAIN { T::any() } else { T::zero() }, T::any()];
  assume(p[0] > T::zero() && p[0] < T::k(1e9));
  let fine = T::TOL < 1e-7;
  assume(p[1] > T::zero() && p[1] < p[0] * T::k(if fine { 0.49995 } else { 0.499 }));
  assume(p[1] > p[0] * T::k(if fine { 0.00005 } else { 0.001 }));
  let g = T::k(if fine { 120.0 } else { 60.0 });
  if K::E::<T>::GAIN { assume(p[2] >= -g && p[2] <= g); }
  assume(p[3] >= T::k(if fine { 0.001 } else { 0.01 }));
  assume(p[3] <= if K::E::<T>::SHELF { T::one() } else { T::k(if fine { 10000.0 } else { 1000.0 }) });
  p
}
fn sample<T: F>() -> T { let x = T::any(); assume(x.abs() <= T::k(1e6)); x }

/// feeds the inputs and compares with the second-order section of the cookbook coefficients
fn section<T: F, K: EFam>(m: &'static str, f: &mut K::E<T>, r: &Ref<T>, xs: &[T]) {
  let (mut z1, mut z2, mut s1, mut s2) = (T::zero(), T::zero(), T::zero(), T::zero());
  for &x in xs {
    let y = f.process(x);
    let s = r.sb * x.abs() + s1;
    T::close(m, y, r.b[0] * x + z1, s);
    z1 = r.b[1] * x + z2 - r.a[0] * y;
    z2 = r.b[2] * x - r.a[1] * y;
    s1 = r.sb * x.abs() + s2 + r.sa * y.abs();
    s2 = r.sb * x.abs() + r.sa * y.abs();
  }
}

// ---------------------------------------------------------------- C13
fn c13<T: F, K: EFam>() {
  let mut f = K::E::<T>::mk();
  // earlier use of the filter leaves no trace
  for _ in 0..pick(2) {
    f.put([T::k(48000.0), T::k(5000.0), T::k(3.0), T::k(0.9)]);
    for _ in 0..3 { f.process(sample()); }
  }
  let p = params::<T, K>();
  f.put(p);
  T::equal("setting parameters starts afresh", f.last_out(), T::zero());
  let r = K::E::<T>::cookbook(p);
  let mut xs = [T::zero(); 8];
  let n = 4 + if tier() > 0 { 4 } else { 0 };
  for i in 0..n { xs[i] = sample(); }
  section::<T, K>("second-order section with the cookbook coefficients", &mut f, &r, &xs[..n]);
}

/// whatever came before, setting parameters makes a fresh filter
fn c13_fresh<T: F, K: EFam>() {
  let mut a = K::E::<T>::mk();
  a.put([T::any(), T::any(), T::any(), T::any()]);
  for _ in 0..3 { a.process(T::any()); }
  let p = if pick(2) == 0 { [T::any(), T::any(), T::any(), T::any()] } else { [T::k(48000.0), T::k(5000.0), T::k(3.0), T::k(0.9)] };
  if pick(2) == 1 { a.put(p); a.process(T::any()); a.process(T::any()); }
  a.put(p);
  let mut b = K::E::<T>::mk();
  b.put(p);
  T::equal("parameters set anew, last output", a.last_out(), b.last_out());
  for _ in 0..4 { let x = T::any(); T::equal("a filter with parameters set anew answers like a new one", a.process(x), b.process(x)); }
}
/// shelf slopes above one, as far as the cookbook's root stays real
fn c13_steep<T: F, K: EFam>() {
  let p = [T::any(), T::any(), T::any(), T::any()];
  assume(p[0] > T::zero() && p[0] < T::k(1e9) && p[1] > p[0] * T::k(0.001) && p[1] < p[0] * T::k(0.499));
  assume(p[2] >= T::k(-24.0) && p[2] <= T::k(24.0) && p[3] > T::one() && p[3] <= T::k(10.0));
  let a = amp(p);
  assume((a + o::<T>() / a) * (o::<T>() / p[3] - o::<T>()) + T::two() >= T::k(0.01));
  let mut f = K::E::<T>::mk();
  f.put(p);
  let r = K::E::<T>::cookbook(p);
  let xs = [sample(), sample(), sample(), sample()];
  section::<T, K>("second-order section with the cookbook coefficients, slopes above one", &mut f, &r, &xs);
}
/// a longer fixed signal first, at fixed parameters
fn c13_long<T: F, K: EFam>() {
  let p = [[T::k(48000.0), T::k(5000.0), T::k(3.0), T::k(0.9)], [T::k(44100.0), T::k(15000.0), T::k(-7.0), T::k(0.5)]][pick(2)];
  let mut f = fresh::<T, K>(p);
  let r = K::E::<T>::cookbook(p);
  let (mut z1, mut z2, mut s1, mut s2) = (T::zero(), T::zero(), T::zero(), T::zero());
  let n = [600, 4100, 66000][pick(if tier() == 0 { 2 } else { 3 })];
  for i in 0..n + 3 {
    let x = if i < n { T::of_usize(i % 7) - T::of_usize(i % 5) } else { sample() };
    let y = f.process(x);
    T::close("second-order section with the cookbook coefficients, longer signals", y, r.b[0] * x + z1, r.sb * x.abs() + s1);
    z1 = r.b[1] * x + z2 - r.a[0] * y;
    z2 = r.b[2] * x - r.a[1] * y;
    s1 = r.sb * x.abs() + s2 + r.sa * y.abs();
    s2 = r.sb * x.abs() + r.sa * y.abs();
  }
}

// ---------------------------------------------------------------- C14
fn fresh<T: F, K: EFam>(p: [T; 4]) -> K::E<T> { let mut f = K::E::<T>::mk(); f.put(p); f }
/// both poles lie inside the unit circle, and after some input the filter in silence follows the recursion with these poles
fn c14_stable<T: F, K: EFam>() {
  let p = params::<T, K>();
  let r = K::E::<T>::cookbook(p);
  check("|a2| < 1", r.a[1].abs() < T::one());
  check("|a1| < 1 + a2", r.a[0].abs() < T::one() + r.a[1]);
  let xs = [sample(), sample(), sample(), z(), z(), z()];
  section::<T, K>("in silence the output follows the stable recursion", &mut fresh::<T, K>(p), &r, &xs[..5 + tier().min(1)]);
}
/// For an input x with x[n] = u x[n-1] - x[n-2] (constant: u = 2, alternating: u = -2, oscillating: u = 2 cos w) the distance of the
/// output from g*x obeys the stable recursion of c14_stable exactly when b0 x[n] + b1 x[n-1] + b2 x[n-2] = g (x[n] + a1 x[n-1] + a2 x[n-2]).
fn driven<T: F, K: EFam>(m: &'static str, p: [T; 4], x: [T; 4], g: T) {
  let r = K::E::<T>::cookbook(p);
  for n in 2..4 {
    let s = (r.sb + r.sa * g.abs()) * (x[n].abs() + x[n - 1].abs() + x[n - 2].abs());
    T::close(m, r.b[0] * x[n] + r.b[1] * x[n - 1] + r.b[2] * x[n - 2], g * (x[n] + r.a[0] * x[n - 1] + r.a[1] * x[n - 2]), s);
  }
  section::<T, K>(m, &mut fresh::<T, K>(p), &r, &x);
}
fn c14_gain<T: F, K: EFam>() {
  let p = params::<T, K>();
  driven::<T, K>("the advertised gain at DC", p, [o(), o(), o(), o()], K::E::<T>::dc(p));
  driven::<T, K>("the advertised gain at Nyquist", p, [o(), -o::<T>(), o(), -o::<T>()], K::E::<T>::nyquist(p));
}
fn c14_centre<T: F, K: EFam>() {
  let p = params::<T, K>();
  if let Some(g) = K::E::<T>::centre(p) {
    let w = w0(p);
    driven::<T, K>("the advertised gain at the characteristic frequency", p, [o(), w.cos(), (T::two() * w).cos(), (T::k(3.0) * w).cos()], g);
  }
}

register!{
  c13_lp_f32, c13_lp_f64 : c13::<ELowPass>;
  c13_hp_f32, c13_hp_f64 : c13::<EHighPass>;
  c13_bp1_f32, c13_bp1_f64 : c13::<EBandPass1>;
  c13_bp2_f32, c13_bp2_f64 : c13::<EBandPass2>;
  c13_bs_f32, c13_bs_f64 : c13::<EBandStop>;
  c13_ap_f32, c13_ap_f64 : c13::<EAllPass>;
  c13_pk_f32, c13_pk_f64 : c13::<EPeak>;
  c13_ls_f32, c13_ls_f64 : c13::<ELowShelf>;
  c13_hs_f32, c13_hs_f64 : c13::<EHighShelf>;
  c13_steep_ls_f32, c13_steep_ls_f64 : c13_steep::<ELowShelf>;
  c13_steep_hs_f32, c13_steep_hs_f64 : c13_steep::<EHighShelf>;
  c13_fresh_lp_f32, c13_fresh_lp_f64 : c13_fresh::<ELowPass>;
  c13_long_lp_f32, c13_long_lp_f64 : c13_long::<ELowPass>;
  c13_fresh_hp_f32, c13_fresh_hp_f64 : c13_fresh::<EHighPass>;
  c13_long_hp_f32, c13_long_hp_f64 : c13_long::<EHighPass>;
  c13_fresh_bp1_f32, c13_fresh_bp1_f64 : c13_fresh::<EBandPass1>;
  c13_long_bp1_f32, c13_long_bp1_f64 : c13_long::<EBandPass1>;
  c13_fresh_bp2_f32, c13_fresh_bp2_f64 : c13_fresh::<EBandPass2>;
  c13_long_bp2_f32, c13_long_bp2_f64 : c13_long::<EBandPass2>;
  c13_fresh_bs_f32, c13_fresh_bs_f64 : c13_fresh::<EBandStop>;
  c13_long_bs_f32, c13_long_bs_f64 : c13_long::<EBandStop>;
  c13_fresh_ap_f32, c13_fresh_ap_f64 : c13_fresh::<EAllPass>;
  c13_long_ap_f32, c13_long_ap_f64 : c13_long::<EAllPass>;
  c13_fresh_pk_f32, c13_fresh_pk_f64 : c13_fresh::<EPeak>;
  c13_long_pk_f32, c13_long_pk_f64 : c13_long::<EPeak>;
  c13_fresh_ls_f32, c13_fresh_ls_f64 : c13_fresh::<ELowShelf>;
  c13_long_ls_f32, c13_long_ls_f64 : c13_long::<ELowShelf>;
  c13_fresh_hs_f32, c13_fresh_hs_f64 : c13_fresh::<EHighShelf>;
  c13_long_hs_f32, c13_long_hs_f64 : c13_long::<EHighShelf>;
  c14_stlp_f32, c14_stlp_f64 : c14_stable::<ELowPass>;
  c14_sthp_f32, c14_sthp_f64 : c14_stable::<EHighPass>;
  c14_stbp1_f32, c14_stbp1_f64 : c14_stable::<EBandPass1>;
  c14_stbp2_f32, c14_stbp2_f64 : c14_stable::<EBandPass2>;
  c14_stbs_f32, c14_stbs_f64 : c14_stable::<EBandStop>;
  c14_stap_f32, c14_stap_f64 : c14_stable::<EAllPass>;
  c14_stpk_f32, c14_stpk_f64 : c14_stable::<EPeak>;
  c14_stls_f32, c14_stls_f64 : c14_stable::<ELowShelf>;
  c14_sths_f32, c14_sths_f64 : c14_stable::<EHighShelf>;
  c14_gnlp_f32, c14_gnlp_f64 : c14_gain::<ELowPass>;
  c14_gnhp_f32, c14_gnhp_f64 : c14_gain::<EHighPass>;
  c14_gnbp1_f32, c14_gnbp1_f64 : c14_gain::<EBandPass1>;
  c14_gnbp2_f32, c14_gnbp2_f64 : c14_gain::<EBandPass2>;
  c14_gnbs_f32, c14_gnbs_f64 : c14_gain::<EBandStop>;
  c14_gnap_f32, c14_gnap_f64 : c14_gain::<EAllPass>;
  c14_gnpk_f32, c14_gnpk_f64 : c14_gain::<EPeak>;
  c14_gnls_f32, c14_gnls_f64 : c14_gain::<ELowShelf>;
  c14_gnhs_f32, c14_gnhs_f64 : c14_gain::<EHighShelf>;
  c14_cebp1_f32, c14_cebp1_f64 : c14_centre::<EBandPass1>;
  c14_cebp2_f32, c14_cebp2_f64 : c14_centre::<EBandPass2>;
  c14_cebs_f32, c14_cebs_f64 : c14_centre::<EBandStop>;
  c14_ceap_f32, c14_ceap_f64 : c14_centre::<EAllPass>;
  c14_cepk_f32, c14_cepk_f64 : c14_centre::<EPeak>;
}
