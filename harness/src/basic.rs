//! Guarantees every processor shares (C09-C12), the basic filters' equations (C07, C08) and the detectors (C15-C18).
use rasp::analysis::{LeakyIntegrator, PeakEnvDetector, RmsEnvDetector};
use rasp::filter::{Biquad1, Biquad2, OnePole, OneZero, TwoPole, TwoZero};
use rasp::traits::Processor;
use crate::px::*;
use crate::vp::*;

// ---------------------------------------------------------------- C09
fn c09<T: F, K: Fam>() {
  let mut a = K::P::<T>::mk();
  let q = K::P::<T>::any2();
  let p = K::P::<T>::any();
  let n = if pick(2) == 0 { K::P::<T>::MEM } else { K::P::<T>::MEM + 1 };
  a.setp(q);
  for _ in 0..n { a.process(T::any()); }
  a.setp(p);
  a.process(T::any());
  a.clear();
  let mut b = K::P::<T>::mk();
  b.setp(q);
  b.setp(p);
  T::equal("the last output is zero after clear", a.last_out(), T::zero());
  K::P::<T>::same_params("clear keeps the parameters, everything else reads as in a fresh processor", &a, &b);
  for i in 0..K::P::<T>::MEM + 2 + tier() {
    let x = T::any();
    T::equal("outputs after clear equal a fresh processor's", a.process(x), b.process(x));
    T::equal("last outputs after clear equal a fresh processor's", a.last_out(), b.last_out());
    if i == K::P::<T>::MEM { a.clear(); b = K::P::<T>::mk(); b.setp(q); b.setp(p); T::equal("the last output is zero after a second clear", a.last_out(), T::zero()); }
  }
}

fn sig<T: F>(i: usize) -> T { T::of_usize(i % 7) - T::of_usize(i % 5) + T::k(0.25) }
/// in single precision also past 2^16
fn prefix2<T: F>() -> usize { if T::TOL > 1e-7 && pick(2) == 1 { 66000 } else { prefix() } }
fn prefix() -> usize { [70, 520, 1030, 4100, 16400][pick(if tier() == 0 { 4 } else { 5 })] }
/// after a longer fixed signal
fn c09_long<T: F, K: Fam>() {
  let mut a = K::P::<T>::mk();
  a.setp(K::P::<T>::fixed());
  for i in 0..prefix() { a.process(sig(i)); }
  a.process(T::fin());
  a.clear();
  T::equal("the last output is zero after clear, longer signals", a.last_out(), T::zero());
  let mut b = K::P::<T>::mk();
  b.setp(K::P::<T>::fixed());
  K::P::<T>::same_params("clear keeps the parameters, longer signals", &a, &b);
  for _ in 0..3 { let x = T::fin(); T::equal("outputs after clear equal a fresh processor's, longer signals", a.process(x), b.process(x)); }
}

// ---------------------------------------------------------------- C10
fn c10<T: F, K: Fam>() {
  let mut a = K::P::<T>::mk();
  T::equal("zero before the first output", a.last_out(), T::zero());
  a.queries();
  a.setp(K::P::<T>::any());
  T::equal("zero before the first output, parameters set", a.last_out(), T::zero());
  for i in 0..K::P::<T>::MEM + 2 + tier() {
    let y = a.process(T::any());
    T::equal("last_out returns the output", a.last_out(), y);
    T::equal("last_out is repeatable", a.last_out(), y);
    a.queries();
    T::equal("last_out is not changed by queries", a.last_out(), y);
    if !K::P::<T>::CLEARS && i % 2 == 0 {
      a.setp(K::P::<T>::any2());
      T::equal("last_out is not changed by parameters", a.last_out(), y);
    }
  }
  let mut blk = [T::any(), T::any()];
  let y = a.process_block(&mut blk);
  T::equal("last_out after a block is the block's last sample", a.last_out(), blk[1]);
  T::equal("last_out after a block is what the block call returned", a.last_out(), y);
}

fn c10_long<T: F, K: Fam>() {
  let mut a = K::P::<T>::mk();
  a.setp(K::P::<T>::fixed());
  for i in 0..prefix() { let y = a.process(sig(i)); T::equal("last_out returns the output, longer signals", a.last_out(), y); }
  for _ in 0..2 { let y = a.process(T::any()); T::equal("last_out returns the output, longer signals", a.last_out(), y); }
}

// ---------------------------------------------------------------- C11
const LONG: [usize; 12] = [5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65];
fn c11<T: F, K: Fam>() {
  let mut a = K::P::<T>::mk();
  let mut b = K::P::<T>::mk();
  let p = K::P::<T>::any();
  a.setp(p);
  b.setp(p);
  // some history
  for _ in 0..pick(2) { let x = T::any(); a.process(x); b.process(x); }
  let n0 = pick(5 + tier());
  let n1 = pick(3 + tier());
  let mut last = a.last_out();
  for (j, n) in [n0, n1].iter().enumerate() {
    let mut s = [T::zero(); 8];
    let mut e = [T::zero(); 8];
    for i in 0..8 { s[i] = T::any(); e[i] = s[i]; }
    for i in 0..*n { e[i] = a.process(s[i]); last = e[i]; }
    let r = b.process_block(&mut s[..*n]);
    if *n > 0 { T::equal("the block call returns the last output", r, last); }
    else { T::equal("an empty block returns the previous output", r, last); }
    for i in 0..8 { T::equal(if j == 0 { "block samples are the outputs, samples beyond the block untouched" } else { "second block" }, s[i], e[i]); }
    T::equal("last output after a block", b.last_out(), a.last_out());
  }
  for _ in 0..K::P::<T>::MEM + 1 { let x = T::any(); T::equal("state after the blocks", b.process(x), a.process(x)); }
}
fn c11_long<T: F, K: Fam>() {
  let mut a = K::P::<T>::mk();
  let mut b = K::P::<T>::mk();
  let p = K::P::<T>::any2();
  a.setp(p);
  b.setp(p);
  let n = LONG[pick(12)];
  let mut s = [T::zero(); 66];
  let mut e = [T::zero(); 66];
  for i in 0..n + 1 { s[i] = T::any(); e[i] = s[i]; }
  for i in 0..n { e[i] = a.process(s[i]); }
  let r = b.process_block(&mut s[..n]);
  for i in 0..n + 1 { T::equal("block samples are the outputs", s[i], e[i]); }
  T::equal("the block call returns the last output", r, e[n - 1]);
  for _ in 0..K::P::<T>::MEM { let x = T::any(); T::equal("state after the block", b.process(x), a.process(x)); }
}

/// long blocks: fixed parameters and samples but for the last ones
const LONGER: [usize; 15] = [100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 4097, 8193];
fn c11_longer<T: F, K: Fam>() {
  let mut a = K::P::<T>::mk();
  let mut b = K::P::<T>::mk();
  let p = K::P::<T>::fixed();
  a.setp(p);
  b.setp(p);
  let n = LONGER[pick(if tier() == 0 { 14 } else { 15 })];
  let mut s = [T::zero(); 8194];
  let mut e = [T::zero(); 8194];
  for i in 0..n + 1 { s[i] = if i + 3 < n { T::of_usize(i % 7) - T::of_usize(i % 5) } else { T::fin() }; e[i] = s[i]; }
  for i in 0..n { e[i] = a.process(s[i]); }
  let r = b.process_block(&mut s[..n]);
  for i in 0..n + 1 { T::equal("block samples are the outputs", s[i], e[i]); }
  T::equal("the block call returns the last output", r, e[n - 1]);
  for _ in 0..K::P::<T>::MEM { let x = T::fin(); T::equal("state after the block", b.process(x), a.process(x)); }
}

// ---------------------------------------------------------------- C12
fn c12<T: F, K: Fam>() {
  let mut a = K::P::<T>::mk();
  for _ in 0..K::P::<T>::MEM + 2 + tier() {
    let x = T::fin();
    assume(x.abs() <= T::max_value() / T::two());
    T::equal("a fresh processor returns its input", a.process(x), x);
  }
}
/// after a longer fixed signal
fn c12_long<T: F, K: Fam>() {
  let mut a = K::P::<T>::mk();
  for i in 0..if tier() == 0 { 4100 } else { 16400 } {
    let x = T::of_usize(i % 7) - T::of_usize(i % 5);
    T::equal("a fresh processor returns its input, longer signals", a.process(x), x);
  }
  for _ in 0..2 {
    let x = T::fin();
    assume(x.abs() <= T::max_value() / T::two());
    T::equal("a fresh processor returns its input, longer signals", a.process(x), x);
  }
}
fn c12_peak<T: F>() {
  let mut a = PeakEnvDetector::<T>::new();
  for _ in 0..4 + tier() {
    let x = T::fin();
    T::equal("a fresh peak detector returns the magnitude", a.process(x), x.abs());
  }
}
fn c12_rms<T: F>() {
  let mut a = RmsEnvDetector::<T>::new();
  for _ in 0..4 + tier() {
    let x = T::fin();
    assume(x.abs() < wide());
    assume(x == T::zero() || x.abs() > T::one() / wide());
    T::close("a fresh RMS detector returns the magnitude", a.process(x), x.abs(), x.abs());
  }
}
// ---------------------------------------------------------------- C07
fn small<T: F>() -> T { let x = T::any(); assume(x.is_finite()); assume(x.abs() < T::k(1e6)); x }

/// how coefficients are given before each sample: 0 jointly, 1 one by one, 2 jointly twice, 3 left alone
const SCHED: [[usize; 6]; 4] = [[0, 1, 0, 1, 0, 1], [1, 0, 2, 1, 1, 0], [0, 3, 3, 3, 3, 3], [0, 3, 1, 3, 2, 3]];
fn c07_onepole<T: F>() {
  let mut f = OnePole::<T>::new();
  let sch = pick(4);
  let mut c = [T::zero(); 2];
  let (mut y1, mut g) = (T::zero(), T::zero());
  for i in 0..4 + tier() {
    let how = SCHED[sch][i % 6];
    if how != 3 { for k in c.iter_mut() { *k = T::any(); } }
    if how == 0 { f.set_coefficients(c[0], c[1]); }
    if how == 1 { f.a1 = c[1]; f.b0 = c[0]; }
    if how == 2 { f.set_coefficients(T::any(), T::any()); f.set_coefficients(c[0], c[1]); }
    let (b0, a1) = (c[0], c[1]);
    let x = T::any();
    let y = f.process(x);
    let s = (b0 * x).abs() + (a1 * y1).abs() + g;
    T::close("y = b0 x - a1 y1", y, b0 * x - a1 * y1, s);
    y1 = y;
    g = T::zero();
  }
}
fn c07_onezero<T: F>() {
  let mut f = OneZero::<T>::new();
  let sch = pick(4);
  let mut c = [T::zero(); 2];
  let mut x1 = T::zero();
  for i in 0..4 + tier() {
    let how = SCHED[sch][i % 6];
    if how != 3 { for k in c.iter_mut() { *k = T::any(); } }
    if how == 0 { f.set_coefficients(c[0], c[1]); }
    if how == 1 { f.b1 = c[1]; f.b0 = c[0]; }
    if how == 2 { f.set_coefficients(T::any(), T::any()); f.set_coefficients(c[0], c[1]); }
    let (b0, b1) = (c[0], c[1]);
    let x = T::any();
    let y = f.process(x);
    T::close("y = b0 x + b1 x1", y, b0 * x + b1 * x1, (b0 * x).abs() + (b1 * x1).abs());
    x1 = x;
  }
}
fn c07_twopole<T: F>() {
  let mut f = TwoPole::<T>::new();
  let sch = pick(4);
  let mut c = [T::zero(); 3];
  let (mut y1, mut y2) = (T::zero(), T::zero());
  for i in 0..5 + tier() {
    let how = SCHED[sch][i % 6];
    if how != 3 { for k in c.iter_mut() { *k = T::any(); } }
    if how == 0 { f.set_coefficients(c[0], c[1], c[2]); }
    if how == 1 { f.a2 = c[2]; f.a1 = c[1]; f.b0 = c[0]; }
    if how == 2 { f.set_coefficients(T::any(), T::any(), T::any()); f.set_coefficients(c[0], c[1], c[2]); }
    let (b0, a1, a2) = (c[0], c[1], c[2]);
    let x = T::any();
    let y = f.process(x);
    T::close("y = b0 x - a1 y1 - a2 y2", y, b0 * x - a1 * y1 - a2 * y2, (b0 * x).abs() + (a1 * y1).abs() + (a2 * y2).abs());
    y2 = y1;
    y1 = y;
  }
}
fn c07_twozero<T: F>() {
  let mut f = TwoZero::<T>::new();
  let sch = pick(4);
  let mut c = [T::zero(); 3];
  let (mut x1, mut x2) = (T::zero(), T::zero());
  for i in 0..5 + tier() {
    let how = SCHED[sch][i % 6];
    if how != 3 { for k in c.iter_mut() { *k = T::any(); } }
    if how == 0 { f.set_coefficients(c[0], c[1], c[2]); }
    if how == 1 { f.b2 = c[2]; f.b1 = c[1]; f.b0 = c[0]; }
    if how == 2 { f.set_coefficients(T::any(), T::any(), T::any()); f.set_coefficients(c[0], c[1], c[2]); }
    let (b0, b1, b2) = (c[0], c[1], c[2]);
    let x = T::any();
    let y = f.process(x);
    T::close("y = b0 x + b1 x1 + b2 x2", y, b0 * x + b1 * x1 + b2 * x2, (b0 * x).abs() + (b1 * x1).abs() + (b2 * x2).abs());
    x2 = x1;
    x1 = x;
  }
}
fn c07_biquad1<T: F>() {
  let mut f = Biquad1::<T>::new();
  let sch = pick(4);
  let mut c = [T::zero(); 5];
  let (mut x1, mut x2, mut y1, mut y2) = (T::zero(), T::zero(), T::zero(), T::zero());
  for i in 0..5 + tier() {
    let how = SCHED[sch][i % 6];
    if how != 3 { for k in c.iter_mut() { *k = T::any(); } }
    if how == 0 { f.set_coefficients(c[0], c[1], c[2], c[3], c[4]); }
    if how == 1 { f.a2 = c[4]; f.a1 = c[3]; f.b2 = c[2]; f.b1 = c[1]; f.b0 = c[0]; }
    if how == 2 { f.set_coefficients(T::any(), T::any(), T::any(), T::any(), T::any()); f.set_coefficients(c[0], c[1], c[2], c[3], c[4]); }
    let (b0, b1, b2, a1, a2) = (c[0], c[1], c[2], c[3], c[4]);
    let x = T::any();
    let y = f.process(x);
    let s = (b0 * x).abs() + (b1 * x1).abs() + (b2 * x2).abs() + (a1 * y1).abs() + (a2 * y2).abs();
    T::close("y = b0 x + b1 x1 + b2 x2 - a1 y1 - a2 y2", y, b0 * x + b1 * x1 + b2 * x2 - a1 * y1 - a2 * y2, s);
    x2 = x1; x1 = x; y2 = y1; y1 = y;
  }
}
// transposed form: each past product carries the coefficient in force when that sample was processed
fn c07_biquad2<T: F>() {
  let mut f = Biquad2::<T>::new();
  let sch = pick(4);
  let mut c = [T::zero(); 5];
  let (mut z1, mut z2, mut s1, mut s2) = (T::zero(), T::zero(), T::zero(), T::zero());
  for i in 0..5 + tier() {
    let how = SCHED[sch][i % 6];
    if how != 3 { for k in c.iter_mut() { *k = T::any(); } }
    if how == 0 { f.set_coefficients(c[0], c[1], c[2], c[3], c[4]); }
    if how == 1 { f.a2 = c[4]; f.a1 = c[3]; f.b2 = c[2]; f.b1 = c[1]; f.b0 = c[0]; }
    if how == 2 { f.set_coefficients(T::any(), T::any(), T::any(), T::any(), T::any()); f.set_coefficients(c[0], c[1], c[2], c[3], c[4]); }
    let (b0, b1, b2, a1, a2) = (c[0], c[1], c[2], c[3], c[4]);
    let x = T::any();
    let y = f.process(x);
    T::close("y = b0 x + z1, z1 = b1 x + z2 - a1 y, z2 = b2 x - a2 y", y, b0 * x + z1, (b0 * x).abs() + s1);
    s1 = (b1 * x).abs() + s2 + (a1 * y).abs();
    s2 = (b2 * x).abs() + (a2 * y).abs();
    z1 = b1 * x + z2 - a1 * y;
    z2 = b2 * x - a2 * y;
  }
}
// both biquads with fixed coefficients satisfy the direct difference equation
fn c07_direct<T: F, K: Fam>() where K::P<T>: Px<T, P = [T; 5]> {
  let mut f = K::P::<T>::mk();
  let c = [small::<T>(), small(), small(), small(), small()];
  f.setp(c);
  let (mut x1, mut x2, mut y1, mut y2) = (T::zero(), T::zero(), T::zero(), T::zero());
  for _ in 0..4 + tier() {
    let x = small::<T>();
    let y = f.process(x);
    let s = (c[0] * x).abs() + (c[1] * x1).abs() + (c[2] * x2).abs() + (c[3] * y1).abs() + (c[4] * y2).abs();
    T::close("direct-form difference equation", y, c[0] * x + c[1] * x1 + c[2] * x2 - c[3] * y1 - c[4] * y2, s);
    x2 = x1; x1 = x; y2 = y1; y1 = y;
  }
}

/// a longer fixed signal first; map gives the place of b0, b1, b2, a1, a2 among the parameters (9: none)
fn long_run<T: F, K: Fam>(map: [usize; 5]) where K::P<T>: Px<T> {
  let mut f = K::P::<T>::mk();
  f.setp(K::P::<T>::fixed());
  let v = [0.75, -0.25, 0.125, 0.5, -0.25];
  let mut c = [T::zero(); 5];
  for i in 0..5 { if map[i] < 9 { c[i] = T::k(v[map[i]]); } }
  let (mut x1, mut x2, mut y1, mut y2) = (T::zero(), T::zero(), T::zero(), T::zero());
  let n = prefix2::<T>();
  for i in 0..n + 3 {
    let x = if i < n { sig(i) } else { small::<T>() };
    let y = f.process(x);
    let s = (c[0] * x).abs() + (c[1] * x1).abs() + (c[2] * x2).abs() + (c[3] * y1).abs() + (c[4] * y2).abs();
    T::close("the difference equation, longer signals", y, c[0] * x + c[1] * x1 + c[2] * x2 - c[3] * y1 - c[4] * y2, s);
    x2 = x1; x1 = x; y2 = y1; y1 = y;
  }
}
/// easy coefficients and one arbitrary sample of the whole range of the format among fixed ones
fn bits_run<T: F, K: Fam>(map: [usize; 5]) where K::P<T>: Five<T> {
  let mut f = K::P::<T>::mk();
  let mut v = [[1.0, 0.0, 0.0, 0.0, 0.0], [0.5, 1.0, 0.0, 0.0, 0.0], [1.0, -1.0, 2.0, 0.0, 0.0], [1.0, 0.5, 0.0, -0.5, 0.0], [2.0, 0.0, 0.0, 0.0, -1.0], [0.0, 1.0, 0.0, -1.0, 0.5]][pick(6)];
  for i in 0..5 { if map[i] == 9 { v[i] = 0.0; } }
  let mut p = [T::zero(); 5];
  let mut c = [T::zero(); 5];
  for i in 0..5 { c[i] = T::k(v[i]); if map[i] < 9 { p[map[i]] = c[i]; } }
  f.five(p);
  let (mut x1, mut x2, mut y1, mut y2) = (T::zero(), T::zero(), T::zero(), T::zero());
  let before = pick(3);
  let after = [[0.0, 0.0, 0.0], [1.0, 0.0, -2.0]][pick(2)];
  for i in 0..before + 4 {
    let x = if i < before { T::k([3.0, -1.0][i]) } else if i == before { T::any() } else { T::k(after[i - before - 1]) };
    let y = f.process(x);
    let s = (c[0] * x).abs() + (c[1] * x1).abs() + (c[2] * x2).abs() + (c[3] * y1).abs() + (c[4] * y2).abs();
    T::close("the difference equation, any sample", y, c[0] * x + c[1] * x1 + c[2] * x2 - c[3] * y1 - c[4] * y2, s);
    x2 = x1; x1 = x; y2 = y1; y1 = y;
  }
}
fn bits_onepole<T: F>() { bits_run::<T, KOnePole>([0, 9, 9, 1, 9]) }
fn bits_onezero<T: F>() { bits_run::<T, KOneZero>([0, 1, 9, 9, 9]) }
fn bits_twopole<T: F>() { bits_run::<T, KTwoPole>([0, 9, 9, 1, 2]) }
fn bits_twozero<T: F>() { bits_run::<T, KTwoZero>([0, 1, 2, 9, 9]) }
fn bits_biquad1<T: F>() { bits_run::<T, KBiquad1>([0, 1, 2, 3, 4]) }
fn bits_biquad2<T: F>() { bits_run::<T, KBiquad2>([0, 1, 2, 3, 4]) }
fn long_onepole<T: F>() { long_run::<T, KOnePole>([0, 9, 9, 1, 9]) }
fn long_onezero<T: F>() { long_run::<T, KOneZero>([0, 1, 9, 9, 9]) }
fn long_twopole<T: F>() { long_run::<T, KTwoPole>([0, 9, 9, 1, 2]) }
fn long_twozero<T: F>() { long_run::<T, KTwoZero>([0, 1, 2, 9, 9]) }
fn long_biquad1<T: F>() { long_run::<T, KBiquad1>([0, 1, 2, 3, 4]) }
fn long_biquad2<T: F>() { long_run::<T, KBiquad2>([0, 1, 2, 3, 4]) }

// ---------------------------------------------------------------- C08
fn c08<T: F>() {
  let mut a = Biquad1::<T>::new();
  let mut b = Biquad2::<T>::new();
  if pick(2) == 1 {
    let c = [small::<T>(), small(), small(), small(), small()];
    a.set_coefficients(c[0], c[1], c[2], c[3], c[4]);
    b.set_coefficients(c[0], c[1], c[2], c[3], c[4]);
    for _ in 0..2 { let x = small(); a.process(x); b.process(x); }
    a.clear();
    b.clear();
  }
  let c = [small::<T>(), small(), small(), small(), small()];
  a.set_coefficients(c[0], c[1], c[2], c[3], c[4]);
  b.set_coefficients(c[0], c[1], c[2], c[3], c[4]);
  // running bound on the magnitude of everything summed so far
  let (mut x1, mut x2, mut g1, mut g2) = (T::zero(), T::zero(), T::zero(), T::zero());
  for _ in 0..4 + tier() {
    let x = small::<T>();
    let g = (c[0] * x).abs() + (c[1] * x1).abs() + (c[2] * x2).abs() + c[3].abs() * g1 + c[4].abs() * g2;
    T::close_tol("both biquads agree", a.process(x), b.process(x), g + T::k(T::UNDER), 4.0 * T::TOL);
    x2 = x1; x1 = x; g2 = g1; g1 = g;
  }
}

/// whatever came before, a cleared biquad is a fresh one
fn c08_clear<T: F, K: Fam>() where K::P<T>: Px<T, P = [T; 5]> {
  let mut a = K::P::<T>::mk();
  a.setp(K::P::<T>::any());
  for _ in 0..3 { a.process(T::any()); }
  a.clear();
  let p = K::P::<T>::any();
  a.setp(p);
  let mut b = K::P::<T>::mk();
  b.setp(p);
  for _ in 0..4 { let x = T::any(); T::equal("a cleared biquad answers like a fresh one", a.process(x), b.process(x)); }
}

/// a longer fixed signal first
fn c08_long<T: F>() {
  let c = [0.75, -0.25, 0.125, 0.5, -0.25];
  let mut a = Biquad1::<T>::new();
  let mut b = Biquad2::<T>::new();
  a.set_coefficients(T::k(c[0]), T::k(c[1]), T::k(c[2]), T::k(c[3]), T::k(c[4]));
  b.set_coefficients(T::k(c[0]), T::k(c[1]), T::k(c[2]), T::k(c[3]), T::k(c[4]));
  let n = prefix2::<T>();
  for i in 0..n + 3 {
    let x = if i < n { sig(i) } else { small::<T>() };
    T::close_tol("both biquads agree, longer signals", a.process(x), b.process(x), T::k(40.0) + x.abs(), 4.0 * T::TOL);
  }
}

// ---------------------------------------------------------------- C15
fn c15<T: F>() {
  let mut f = LeakyIntegrator::<T>::new();
  let mut a = T::zero();
  let mut y1 = T::zero();
  T::equal("initial gain", f.get_alpha(), a);
  for _ in 0..3 + tier() {
    let g = T::any();
    f.set_alpha(g);
    if g >= T::zero() && g < T::one() { a = g; }
    T::equal("gain accepted iff 0 <= gain < 1, otherwise unchanged", f.get_alpha(), a);
    T::equal("setting the gain keeps the memory", f.last_out(), y1);
    let x = T::any();
    let y = f.process(x);
    T::close("y = x + alpha (y1 - x)", y, x + a * (y1 - x), x.abs() + y1.abs());
    T::equal("the gain is not changed by processing", f.get_alpha(), a);
    y1 = y;
  }
}
fn c15_long<T: F>() {
  let mut f = LeakyIntegrator::<T>::new();
  f.set_alpha(T::k(0.75));
  let a = f.get_alpha();
  let mut y1 = T::zero();
  let n = prefix2::<T>();
  for i in 0..n + 3 {
    let x = if i < n { sig(i) } else { small::<T>() };
    let y = f.process(x);
    T::close("y = x + alpha (y1 - x), longer signals", y, x + a * (y1 - x), x.abs() + y1.abs());
    y1 = y;
  }
}
fn quarter<T: F>() -> T { let x = T::fin(); assume(x.abs() <= T::max_value() / T::k(4.0)); x }
fn c15_range<T: F>() {
  let mut f = LeakyIntegrator::<T>::new();
  let x0 = quarter::<T>();
  f.process(x0);
  f.set_alpha(T::any());
  let y1 = f.last_out();
  let x = quarter::<T>();
  let y = f.process(x);
  let (lo, hi) = (y1.min(x), y1.max(x));
  let s = x.abs() + y1.abs();
  T::leq("output not below memory and input", lo, y, s);
  T::leq("output not above memory and input", y, hi, s);
}

// ---------------------------------------------------------------- C16, C17, C18
trait Env<T: F>: Px<T, P = [T; 2]> {
  fn att(&self) -> T; fn rel(&self) -> T; fn sa(&mut self, x: T); fn sr(&mut self, x: T);
}
impl<T: F> Env<T> for PeakEnvDetector<T> {
  fn att(&self) -> T { self.get_attack_gain() } fn rel(&self) -> T { self.get_release_gain() }
  fn sa(&mut self, x: T) { self.set_attack(x) } fn sr(&mut self, x: T) { self.set_release(x) }
}
impl<T: F> Env<T> for RmsEnvDetector<T> {
  fn att(&self) -> T { self.get_attack_gain() } fn rel(&self) -> T { self.get_release_gain() }
  fn sa(&mut self, x: T) { self.set_attack(x) } fn sr(&mut self, x: T) { self.set_release(x) }
}
fn c16<T: F>() {
  let mut f = PeakEnvDetector::<T>::new();
  let mut e = T::zero();
  for i in 0..3 + tier() {
    if i != 1 { f.setp([T::any(), T::any()]); }
    let x = T::fin();
    let m = x.abs();
    let (ga, gr) = (f.get_attack_gain(), f.get_release_gain());
    let y = f.process(x);
    if e < m { T::close("attack: m + ga (e - m)", y, m + ga * (e - m), m + e); }
    else { T::close("release: m + gr (e - m)", y, m + gr * (e - m), m + e); }
    e = y;
  }
}
/// a longer fixed signal first; sq: the detector works on squares
fn env_long<T: F, K: Fam>(sq: bool) where K::P<T>: Env<T> {
  let mut f = K::P::<T>::mk();
  f.setp(K::P::<T>::fixed());
  let (ga, gr) = (f.att(), f.rel());
  let mut e = T::zero();
  let n = prefix2::<T>();
  for i in 0..n + 1 + tier() {
    let x = if i < n { sig(i) } else { mid::<T>() };
    let m = if sq { x * x } else { x.abs() };
    let y = f.process(x);
    let y = if sq { y * y } else { y };
    let tol = if sq { 8.0 * T::TOL } else { T::TOL };
    let eps = T::k(16.0 * T::TOL) * (m + e);
    if e + eps < m { T::close_tol("attack, longer signals", y, m + ga * (e - m), m + e, tol); }
    else if e > m + eps { T::close_tol("release, longer signals", y, m + gr * (e - m), m + e, tol); }
    e = y;
  }
}
fn c16_long<T: F>() { env_long::<T, KPeakEnv>(false) }
fn c17_long<T: F>() { env_long::<T, KRmsEnv>(true) }
fn c16_range<T: F>() {
  let mut f = PeakEnvDetector::<T>::new();
  f.setp([T::any(), T::any()]);
  f.process(quarter::<T>());
  f.setp([T::any(), T::any()]);
  let e = f.last_out();
  let x = quarter::<T>();
  let m = x.abs();
  let y = f.process(x);
  T::leq_tol("never negative", T::zero(), e, T::zero(), 0.0);
  T::leq_tol("never negative", T::zero(), y, e + m, 1e-6);
  T::leq("not below the smaller", e.min(m), y, e + m);
  T::leq("not above the larger", y, e.max(m), e + m);
}
/// squares neither overflow nor lose precision up to this magnitude and down to its inverse
fn wide<T: F>() -> T { T::k(if T::TOL < 1e-7 { 1e140 } else { 1e15 }) }
fn mid<T: F>() -> T { let x = T::fin(); assume(x.abs() < wide()); assume(x == T::zero() || x.abs() > T::one() / wide()); x }
fn c17<T: F>() {
  let mut f = RmsEnvDetector::<T>::new();
  let mut e = T::zero();
  for i in 0..2 + tier() {
    if i != 1 { f.setp([T::any(), T::any()]); }
    let x = mid::<T>();
    let s = x * x;
    let (ga, gr) = (f.get_attack_gain(), f.get_release_gain());
    let y = f.process(x);
    // which gain applies is only determined away from equality
    let eps = T::k(16.0 * T::TOL) * (s + e);
    if e + eps < s { T::close_tol("attack: y^2 = s + ga (e - s)", y * y, s + ga * (e - s), s + e, 8.0 * T::TOL); }
    else if e > s + eps { T::close_tol("release: y^2 = s + gr (e - s)", y * y, s + gr * (e - s), s + e, 8.0 * T::TOL); }
    e = y * y;
  }
}
fn c17_range<T: F>() {
  let mut f = RmsEnvDetector::<T>::new();
  f.setp([T::any(), T::any()]);
  f.process(mid::<T>());
  f.setp([T::any(), T::any()]);
  let e = f.last_out();
  let x = mid::<T>();
  let m = x.abs();
  let y = f.process(x);
  T::leq_tol("never negative", T::zero(), y, T::zero(), 0.0);
  // rounding happens on the squares
  let (lo, hi) = (e.min(m), e.max(m));
  T::leq("not below the smaller", lo * lo, y * y, e * e + m * m);
  T::leq("not above the larger", y * y, hi * hi, e * e + m * m);
}
fn c18<T: F, K: Fam>() where K::P<T>: Env<T> {
  let mut f = K::P::<T>::mk();
  let (mut ga, mut gr) = (T::zero(), T::zero());
  T::equal("initial attack gain", f.att(), ga);
  T::equal("initial release gain", f.rel(), gr);
  for _ in 0..2 + tier() {
    let y = f.process(T::any());
    let n = T::any();
    if pick(2) == 0 {
      f.sa(n);
      if n > T::zero() && n.is_finite() { ga = (-T::one() / n).exp(); }
    } else {
      f.sr(n);
      if n > T::zero() && n.is_finite() { gr = (-T::one() / n).exp(); }
    }
    T::close("attack gain is exp(-1/n), bad lengths ignored", f.att(), ga, T::one());
    T::close("release gain is exp(-1/n), bad lengths ignored", f.rel(), gr, T::one());
    T::equal("times leave the last output alone", f.last_out(), y);
  }
}
// changing times leaves the stored envelope alone: a twin whose gains were always the same
fn c18_env<T: F, K: Fam>() where K::P<T>: Env<T> {
  let mut a = K::P::<T>::mk();
  let mut b = K::P::<T>::mk();
  let (p, q) = (T::any(), T::any());
  for _ in 0..2 { let x = T::any(); a.process(x); b.process(x); }
  // different routes to the same gains
  a.sa(p); a.sr(q);
  b.sr(T::any()); b.sa(T::any()); b.sr(q); b.sa(p);
  assume(p > T::zero() && p.is_finite() && q > T::zero() && q.is_finite());
  for _ in 0..3 { let x = T::any(); T::equal("the envelope does not depend on how the times were set", a.process(x), b.process(x)); }
}
fn c18_range<T: F, K: Fam>() where K::P<T>: Env<T> {
  let mut f = K::P::<T>::mk();
  f.sa(T::any());
  f.sr(T::any());
  T::leq_tol("gain at least 0", T::zero(), f.att(), T::one(), 0.0);
  T::leq_tol("gain at most 1", f.att(), T::one(), T::one(), 0.0);
  T::leq_tol("gain at least 0", T::zero(), f.rel(), T::one(), 0.0);
  T::leq_tol("gain at most 1", f.rel(), T::one(), T::one(), 0.0);
}

// generated list of entry points
register!{
  c09_onepole_f32, c09_onepole_f64 : c09::<KOnePole>;
  c09_onezero_f32, c09_onezero_f64 : c09::<KOneZero>;
  c09_twopole_f32, c09_twopole_f64 : c09::<KTwoPole>;
  c09_twozero_f32, c09_twozero_f64 : c09::<KTwoZero>;
  c09_biquad1_f32, c09_biquad1_f64 : c09::<KBiquad1>;
  c09_biquad2_f32, c09_biquad2_f64 : c09::<KBiquad2>;
  c09_lowpass_f32, c09_lowpass_f64 : c09::<KLowPass>;
  c09_highpass_f32, c09_highpass_f64 : c09::<KHighPass>;
  c09_bandpass1_f32, c09_bandpass1_f64 : c09::<KBandPass1>;
  c09_bandpass2_f32, c09_bandpass2_f64 : c09::<KBandPass2>;
  c09_bandstop_f32, c09_bandstop_f64 : c09::<KBandStop>;
  c09_allpass_f32, c09_allpass_f64 : c09::<KAllPass>;
  c09_peak_f32, c09_peak_f64 : c09::<KPeak>;
  c09_lowshelf_f32, c09_lowshelf_f64 : c09::<KLowShelf>;
  c09_highshelf_f32, c09_highshelf_f64 : c09::<KHighShelf>;
  c09_leaky_f32, c09_leaky_f64 : c09::<KLeaky>;
  c09_peakenv_f32, c09_peakenv_f64 : c09::<KPeakEnv>;
  c09_rmsenv_f32, c09_rmsenv_f64 : c09::<KRmsEnv>;
  c09_delay_f32, c09_delay_f64 : c09::<KDelay>;
  c09_linear_f32, c09_linear_f64 : c09::<KLinear>;
  c10_onepole_f32, c10_onepole_f64 : c10::<KOnePole>;
  c10_onezero_f32, c10_onezero_f64 : c10::<KOneZero>;
  c10_twopole_f32, c10_twopole_f64 : c10::<KTwoPole>;
  c10_twozero_f32, c10_twozero_f64 : c10::<KTwoZero>;
  c10_biquad1_f32, c10_biquad1_f64 : c10::<KBiquad1>;
  c10_biquad2_f32, c10_biquad2_f64 : c10::<KBiquad2>;
  c10_lowpass_f32, c10_lowpass_f64 : c10::<KLowPass>;
  c10_highpass_f32, c10_highpass_f64 : c10::<KHighPass>;
  c10_bandpass1_f32, c10_bandpass1_f64 : c10::<KBandPass1>;
  c10_bandpass2_f32, c10_bandpass2_f64 : c10::<KBandPass2>;
  c10_bandstop_f32, c10_bandstop_f64 : c10::<KBandStop>;
  c10_allpass_f32, c10_allpass_f64 : c10::<KAllPass>;
  c10_peak_f32, c10_peak_f64 : c10::<KPeak>;
  c10_lowshelf_f32, c10_lowshelf_f64 : c10::<KLowShelf>;
  c10_highshelf_f32, c10_highshelf_f64 : c10::<KHighShelf>;
  c10_leaky_f32, c10_leaky_f64 : c10::<KLeaky>;
  c10_peakenv_f32, c10_peakenv_f64 : c10::<KPeakEnv>;
  c10_rmsenv_f32, c10_rmsenv_f64 : c10::<KRmsEnv>;
  c10_delay_f32, c10_delay_f64 : c10::<KDelay>;
  c10_linear_f32, c10_linear_f64 : c10::<KLinear>;
  c11_onepole_f32, c11_onepole_f64 : c11::<KOnePole>;
  c11_onezero_f32, c11_onezero_f64 : c11::<KOneZero>;
  c11_twopole_f32, c11_twopole_f64 : c11::<KTwoPole>;
  c11_twozero_f32, c11_twozero_f64 : c11::<KTwoZero>;
  c11_biquad1_f32, c11_biquad1_f64 : c11::<KBiquad1>;
  c11_biquad2_f32, c11_biquad2_f64 : c11::<KBiquad2>;
  c11_lowpass_f32, c11_lowpass_f64 : c11::<KLowPass>;
  c11_highpass_f32, c11_highpass_f64 : c11::<KHighPass>;
  c11_bandpass1_f32, c11_bandpass1_f64 : c11::<KBandPass1>;
  c11_bandpass2_f32, c11_bandpass2_f64 : c11::<KBandPass2>;
  c11_bandstop_f32, c11_bandstop_f64 : c11::<KBandStop>;
  c11_allpass_f32, c11_allpass_f64 : c11::<KAllPass>;
  c11_peak_f32, c11_peak_f64 : c11::<KPeak>;
  c11_lowshelf_f32, c11_lowshelf_f64 : c11::<KLowShelf>;
  c11_highshelf_f32, c11_highshelf_f64 : c11::<KHighShelf>;
  c11_leaky_f32, c11_leaky_f64 : c11::<KLeaky>;
  c11_peakenv_f32, c11_peakenv_f64 : c11::<KPeakEnv>;
  c11_rmsenv_f32, c11_rmsenv_f64 : c11::<KRmsEnv>;
  c11_delay_f32, c11_delay_f64 : c11::<KDelay>;
  c11_linear_f32, c11_linear_f64 : c11::<KLinear>;
  c11_long_onepole_f32, c11_long_onepole_f64 : c11_long::<KOnePole>;
  c11_long_onezero_f32, c11_long_onezero_f64 : c11_long::<KOneZero>;
  c11_long_twopole_f32, c11_long_twopole_f64 : c11_long::<KTwoPole>;
  c11_long_twozero_f32, c11_long_twozero_f64 : c11_long::<KTwoZero>;
  c11_long_biquad1_f32, c11_long_biquad1_f64 : c11_long::<KBiquad1>;
  c11_long_biquad2_f32, c11_long_biquad2_f64 : c11_long::<KBiquad2>;
  c11_long_lowpass_f32, c11_long_lowpass_f64 : c11_long::<KLowPass>;
  c11_long_highpass_f32, c11_long_highpass_f64 : c11_long::<KHighPass>;
  c11_long_bandpass1_f32, c11_long_bandpass1_f64 : c11_long::<KBandPass1>;
  c11_long_bandpass2_f32, c11_long_bandpass2_f64 : c11_long::<KBandPass2>;
  c11_long_bandstop_f32, c11_long_bandstop_f64 : c11_long::<KBandStop>;
  c11_long_allpass_f32, c11_long_allpass_f64 : c11_long::<KAllPass>;
  c11_long_peak_f32, c11_long_peak_f64 : c11_long::<KPeak>;
  c11_long_lowshelf_f32, c11_long_lowshelf_f64 : c11_long::<KLowShelf>;
  c11_long_highshelf_f32, c11_long_highshelf_f64 : c11_long::<KHighShelf>;
  c11_long_leaky_f32, c11_long_leaky_f64 : c11_long::<KLeaky>;
  c11_long_peakenv_f32, c11_long_peakenv_f64 : c11_long::<KPeakEnv>;
  c11_long_rmsenv_f32, c11_long_rmsenv_f64 : c11_long::<KRmsEnv>;
  c11_long_delay_f32, c11_long_delay_f64 : c11_long::<KDelay>;
  c11_long_linear_f32, c11_long_linear_f64 : c11_long::<KLinear>;
  c12_onepole_f32, c12_onepole_f64 : c12::<KOnePole>;
  c12_onezero_f32, c12_onezero_f64 : c12::<KOneZero>;
  c12_twopole_f32, c12_twopole_f64 : c12::<KTwoPole>;
  c12_twozero_f32, c12_twozero_f64 : c12::<KTwoZero>;
  c12_biquad1_f32, c12_biquad1_f64 : c12::<KBiquad1>;
  c12_biquad2_f32, c12_biquad2_f64 : c12::<KBiquad2>;
  c12_lowpass_f32, c12_lowpass_f64 : c12::<KLowPass>;
  c12_highpass_f32, c12_highpass_f64 : c12::<KHighPass>;
  c12_bandpass1_f32, c12_bandpass1_f64 : c12::<KBandPass1>;
  c12_bandpass2_f32, c12_bandpass2_f64 : c12::<KBandPass2>;
  c12_bandstop_f32, c12_bandstop_f64 : c12::<KBandStop>;
  c12_allpass_f32, c12_allpass_f64 : c12::<KAllPass>;
  c12_peak_f32, c12_peak_f64 : c12::<KPeak>;
  c12_lowshelf_f32, c12_lowshelf_f64 : c12::<KLowShelf>;
  c12_highshelf_f32, c12_highshelf_f64 : c12::<KHighShelf>;
  c12_leaky_f32, c12_leaky_f64 : c12::<KLeaky>;
  c12_peakenv_f32, c12_peakenv_f64 : c12_peak;
  c12_rmsenv_f32, c12_rmsenv_f64 : c12_rms;
  c07_onepole_f32, c07_onepole_f64 : c07_onepole;
  c07_onezero_f32, c07_onezero_f64 : c07_onezero;
  c07_twopole_f32, c07_twopole_f64 : c07_twopole;
  c07_twozero_f32, c07_twozero_f64 : c07_twozero;
  c07_biquad1_f32, c07_biquad1_f64 : c07_biquad1;
  c07_biquad2_f32, c07_biquad2_f64 : c07_biquad2;
  c07_direct_biquad1_f32, c07_direct_biquad1_f64 : c07_direct::<KBiquad1>;
  c07_direct_biquad2_f32, c07_direct_biquad2_f64 : c07_direct::<KBiquad2>;
  c08_all_f32, c08_all_f64 : c08;
  c08_long_f32, c08_long_f64 : c08_long;
  c15_all_f32, c15_all_f64 : c15;
  c15_rng_f32, c15_rng_f64 : c15_range;
  c16_all_f32, c16_all_f64 : c16;
  c16_rng_f32, c16_rng_f64 : c16_range;
  c17_all_f32, c17_all_f64 : c17;
  c17_rng_f32, c17_rng_f64 : c17_range;
  c18_peakenv_f32, c18_peakenv_f64 : c18::<KPeakEnv>;
  c18_rmsenv_f32, c18_rmsenv_f64 : c18::<KRmsEnv>;
  c18_env_peakenv_f32, c18_env_peakenv_f64 : c18_env::<KPeakEnv>;
  c18_env_rmsenv_f32, c18_env_rmsenv_f64 : c18_env::<KRmsEnv>;
  c18_range_peakenv_f32, c18_range_peakenv_f64 : c18_range::<KPeakEnv>;
  c18_range_rmsenv_f32, c18_range_rmsenv_f64 : c18_range::<KRmsEnv>;
  c11_longer_onepole_f32, c11_longer_onepole_f64 : c11_longer::<KOnePole>;
  c11_longer_onezero_f32, c11_longer_onezero_f64 : c11_longer::<KOneZero>;
  c11_longer_twopole_f32, c11_longer_twopole_f64 : c11_longer::<KTwoPole>;
  c11_longer_twozero_f32, c11_longer_twozero_f64 : c11_longer::<KTwoZero>;
  c11_longer_biquad1_f32, c11_longer_biquad1_f64 : c11_longer::<KBiquad1>;
  c11_longer_biquad2_f32, c11_longer_biquad2_f64 : c11_longer::<KBiquad2>;
  c11_longer_lowpass_f32, c11_longer_lowpass_f64 : c11_longer::<KLowPass>;
  c11_longer_highpass_f32, c11_longer_highpass_f64 : c11_longer::<KHighPass>;
  c11_longer_bandpass1_f32, c11_longer_bandpass1_f64 : c11_longer::<KBandPass1>;
  c11_longer_bandpass2_f32, c11_longer_bandpass2_f64 : c11_longer::<KBandPass2>;
  c11_longer_bandstop_f32, c11_longer_bandstop_f64 : c11_longer::<KBandStop>;
  c11_longer_allpass_f32, c11_longer_allpass_f64 : c11_longer::<KAllPass>;
  c11_longer_peak_f32, c11_longer_peak_f64 : c11_longer::<KPeak>;
  c11_longer_lowshelf_f32, c11_longer_lowshelf_f64 : c11_longer::<KLowShelf>;
  c11_longer_highshelf_f32, c11_longer_highshelf_f64 : c11_longer::<KHighShelf>;
  c11_longer_leaky_f32, c11_longer_leaky_f64 : c11_longer::<KLeaky>;
  c11_longer_peakenv_f32, c11_longer_peakenv_f64 : c11_longer::<KPeakEnv>;
  c11_longer_rmsenv_f32, c11_longer_rmsenv_f64 : c11_longer::<KRmsEnv>;
  c11_longer_delay_f32, c11_longer_delay_f64 : c11_longer::<KDelay>;
  c11_longer_linear_f32, c11_longer_linear_f64 : c11_longer::<KLinear>;
  c12_long_onepole_f32, c12_long_onepole_f64 : c12_long::<KOnePole>;
  c12_long_onezero_f32, c12_long_onezero_f64 : c12_long::<KOneZero>;
  c12_long_twopole_f32, c12_long_twopole_f64 : c12_long::<KTwoPole>;
  c12_long_twozero_f32, c12_long_twozero_f64 : c12_long::<KTwoZero>;
  c12_long_biquad1_f32, c12_long_biquad1_f64 : c12_long::<KBiquad1>;
  c12_long_biquad2_f32, c12_long_biquad2_f64 : c12_long::<KBiquad2>;
  c12_long_lowpass_f32, c12_long_lowpass_f64 : c12_long::<KLowPass>;
  c12_long_highpass_f32, c12_long_highpass_f64 : c12_long::<KHighPass>;
  c12_long_bandpass1_f32, c12_long_bandpass1_f64 : c12_long::<KBandPass1>;
  c12_long_bandpass2_f32, c12_long_bandpass2_f64 : c12_long::<KBandPass2>;
  c12_long_bandstop_f32, c12_long_bandstop_f64 : c12_long::<KBandStop>;
  c12_long_allpass_f32, c12_long_allpass_f64 : c12_long::<KAllPass>;
  c12_long_peak_f32, c12_long_peak_f64 : c12_long::<KPeak>;
  c12_long_lowshelf_f32, c12_long_lowshelf_f64 : c12_long::<KLowShelf>;
  c12_long_highshelf_f32, c12_long_highshelf_f64 : c12_long::<KHighShelf>;
  c12_long_leaky_f32, c12_long_leaky_f64 : c12_long::<KLeaky>;
  c10_long_onepole_f32, c10_long_onepole_f64 : c10_long::<KOnePole>;
  c09_long_onepole_f32, c09_long_onepole_f64 : c09_long::<KOnePole>;
  c10_long_onezero_f32, c10_long_onezero_f64 : c10_long::<KOneZero>;
  c09_long_onezero_f32, c09_long_onezero_f64 : c09_long::<KOneZero>;
  c10_long_twopole_f32, c10_long_twopole_f64 : c10_long::<KTwoPole>;
  c09_long_twopole_f32, c09_long_twopole_f64 : c09_long::<KTwoPole>;
  c10_long_twozero_f32, c10_long_twozero_f64 : c10_long::<KTwoZero>;
  c09_long_twozero_f32, c09_long_twozero_f64 : c09_long::<KTwoZero>;
  c10_long_biquad1_f32, c10_long_biquad1_f64 : c10_long::<KBiquad1>;
  c09_long_biquad1_f32, c09_long_biquad1_f64 : c09_long::<KBiquad1>;
  c10_long_biquad2_f32, c10_long_biquad2_f64 : c10_long::<KBiquad2>;
  c09_long_biquad2_f32, c09_long_biquad2_f64 : c09_long::<KBiquad2>;
  c10_long_lowpass_f32, c10_long_lowpass_f64 : c10_long::<KLowPass>;
  c09_long_lowpass_f32, c09_long_lowpass_f64 : c09_long::<KLowPass>;
  c10_long_highpass_f32, c10_long_highpass_f64 : c10_long::<KHighPass>;
  c09_long_highpass_f32, c09_long_highpass_f64 : c09_long::<KHighPass>;
  c10_long_bandpass1_f32, c10_long_bandpass1_f64 : c10_long::<KBandPass1>;
  c09_long_bandpass1_f32, c09_long_bandpass1_f64 : c09_long::<KBandPass1>;
  c10_long_bandpass2_f32, c10_long_bandpass2_f64 : c10_long::<KBandPass2>;
  c09_long_bandpass2_f32, c09_long_bandpass2_f64 : c09_long::<KBandPass2>;
  c10_long_bandstop_f32, c10_long_bandstop_f64 : c10_long::<KBandStop>;
  c09_long_bandstop_f32, c09_long_bandstop_f64 : c09_long::<KBandStop>;
  c10_long_allpass_f32, c10_long_allpass_f64 : c10_long::<KAllPass>;
  c09_long_allpass_f32, c09_long_allpass_f64 : c09_long::<KAllPass>;
  c10_long_peak_f32, c10_long_peak_f64 : c10_long::<KPeak>;
  c09_long_peak_f32, c09_long_peak_f64 : c09_long::<KPeak>;
  c10_long_lowshelf_f32, c10_long_lowshelf_f64 : c10_long::<KLowShelf>;
  c09_long_lowshelf_f32, c09_long_lowshelf_f64 : c09_long::<KLowShelf>;
  c10_long_highshelf_f32, c10_long_highshelf_f64 : c10_long::<KHighShelf>;
  c09_long_highshelf_f32, c09_long_highshelf_f64 : c09_long::<KHighShelf>;
  c10_long_leaky_f32, c10_long_leaky_f64 : c10_long::<KLeaky>;
  c09_long_leaky_f32, c09_long_leaky_f64 : c09_long::<KLeaky>;
  c10_long_peakenv_f32, c10_long_peakenv_f64 : c10_long::<KPeakEnv>;
  c09_long_peakenv_f32, c09_long_peakenv_f64 : c09_long::<KPeakEnv>;
  c10_long_rmsenv_f32, c10_long_rmsenv_f64 : c10_long::<KRmsEnv>;
  c09_long_rmsenv_f32, c09_long_rmsenv_f64 : c09_long::<KRmsEnv>;
  c08_clear_biquad1_f32, c08_clear_biquad1_f64 : c08_clear::<KBiquad1>;
  c08_clear_biquad2_f32, c08_clear_biquad2_f64 : c08_clear::<KBiquad2>;
  c07_bits_biquad2_f32, c07_bits_biquad2_f64 : bits_biquad2;
  c07_bits_biquad1_f32, c07_bits_biquad1_f64 : bits_biquad1;
  c07_bits_twozero_f32, c07_bits_twozero_f64 : bits_twozero;
  c07_bits_twopole_f32, c07_bits_twopole_f64 : bits_twopole;
  c07_bits_onezero_f32, c07_bits_onezero_f64 : bits_onezero;
  c07_bits_onepole_f32, c07_bits_onepole_f64 : bits_onepole;
  c07_long_onepole_f32, c07_long_onepole_f64 : long_onepole;
  c07_long_onezero_f32, c07_long_onezero_f64 : long_onezero;
  c07_long_twopole_f32, c07_long_twopole_f64 : long_twopole;
  c07_long_twozero_f32, c07_long_twozero_f64 : long_twozero;
  c07_long_biquad1_f32, c07_long_biquad1_f64 : long_biquad1;
  c07_long_biquad2_f32, c07_long_biquad2_f64 : long_biquad2;
  c15_long_f32, c15_long_f64 : c15_long;
  c16_long_f32, c16_long_f64 : c16_long;
  c17_long_f32, c17_long_f64 : c17_long;
}
