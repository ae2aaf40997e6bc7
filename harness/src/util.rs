//! Unit conversions and gain (C23, C24).
use rasp::util::{apply_gain, to_db, to_sample};
use crate::vp::*;

fn nonneg<T: F>() -> T { let s = T::any(); assume(!s.is_sign_negative()); s }

fn z<T: F>() -> T { T::zero() }
fn c23_db<T: F>() {
  let s = nonneg::<T>();
  let y = to_db(s);
  if s.is_finite() && s > T::k(1e-6) { T::close("20 log10(s)", y, T::k(20.0) * s.log10(), T::k(120.0)); }
  else { T::equal("the floor is -120 dB", y, T::k(-120.0)); }
}
fn c23_sample<T: F>() {
  let v = T::any();
  let y = to_sample(v);
  // as far as the result is a finite number
  let (end, top) = if std::mem::size_of::<T>() == 4 { (T::k(770.0), T::k(1e38)) } else { (T::k(6160.0), T::k(1e307)) };
  if v.is_finite() && v >= end { T::leq("large beyond", top, y, z::<T>()); }
  else if v.is_finite() && v > T::k(-120.0) {
    let e = T::k(10.0).powf(v / T::k(20.0));
    // the exponent's rounding grows with its size
    T::close("10^(v/20)", y, e, e);
  }
  else { T::equal("zero at and below -120 dB", y, T::zero()); }
}
fn c23_mono_db<T: F>() {
  let (a, b) = (nonneg::<T>(), nonneg::<T>());
  assume(a.is_finite() && b.is_finite() && a <= b);
  T::leq("to_db is monotone", to_db(a), to_db(b), T::k(20.0));
  T::leq("to_db is never below -120", T::k(-120.0), to_db(a), T::k(20.0));
}
fn c23_mono_sample<T: F>() {
  let (a, b) = (T::any(), T::any());
  assume(a.is_finite() && b.is_finite() && a <= b && b < T::k(600.0));
  let (x, y) = (to_sample(a), to_sample(b));
  T::leq("to_sample is monotone", x, y, y);
  T::leq_tol("to_sample is never negative", T::zero(), x, T::zero(), 0.0);
}
fn c23_inv_sample<T: F>() {
  let s = nonneg::<T>();
  assume(s > T::k(1.001e-6) && s < T::k(1e30));
  T::close("to_sample(to_db(s)) = s", to_sample(to_db(s)), s, s);
}
fn c23_inv_db<T: F>() {
  let v = T::any();
  assume(v > T::k(-119.9) && v < T::k(600.0));
  T::close("to_db(to_sample(v)) = v", to_db(to_sample(v)), v, T::k(600.0));
}
fn c24<T: F>() {
  let (s, r) = (T::any(), T::any());
  assume(r.is_finite() && !r.is_sign_negative());
  T::equal("the product of sample and ratio", apply_gain(s, r), s * r);
}

register!{
  c23_db_f32, c23_db_f64 : c23_db;
  c23_sample_f32, c23_sample_f64 : c23_sample;
  c23_mono_db_f32, c23_mono_db_f64 : c23_mono_db;
  c23_mono_sample_f32, c23_mono_sample_f64 : c23_mono_sample;
  c23_inv_sample_f32, c23_inv_sample_f64 : c23_inv_sample;
  c23_inv_db_f32, c23_inv_db_f64 : c23_inv_db;
  c24_gain_f32, c24_gain_f64 : c24;
}
