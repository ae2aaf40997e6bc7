//! Native runtime of the harnesses: runs one harness of the real crate on concrete inputs read from a file.
//! File: line 1 the harness, then one value per line in call order (f32 BITS | f64 BITS | u VALUE).
use std::cell::RefCell;
use std::collections::HashMap;

struct Rt { vals: Vec<(String, u64)>, ix: usize, bad: usize, marks: HashMap<usize, Vec<u8>> }
thread_local! { static RT: RefCell<Rt> = RefCell::new(Rt { vals: vec![], ix: 0, bad: 0, marks: HashMap::new() }); }

fn next(kind: &str) -> u64 {
  RT.with(|r| {
    let mut r = r.borrow_mut();
    let i = r.ix;
    r.ix += 1;
    match r.vals.get(i) {
      Some((k, v)) => { if k != kind { println!("KIND mismatch: input {} is {} wanted {}", i, k, kind); std::process::exit(3); } *v }
      None => 0
    }
  })
}
fn text(m: *const u8, n: usize) -> &'static str { unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(m, n)) } }
fn report(ok: bool, kind: &str, ops: String, m: *const u8, n: usize) {
  println!("{} {} {} {}", if ok { "OK" } else { "BAD" }, kind, ops, text(m, n));
  if !ok { RT.with(|r| r.borrow_mut().bad += 1); }
}
fn done(line: &str) -> ! {
  println!("{}", line);
  let bad = RT.with(|r| r.borrow().bad);
  std::process::exit(if bad > 0 { 1 } else { 0 })
}
fn tol_ok(kind: &str, a: f64, b: f64, s: f64, t: f64, tiny: f64) -> bool {
  if a == b || (a.is_nan() && b.is_nan()) || !s.is_finite() { return true; }
  let bound = t * s + tiny;
  if kind == "close" { (a - b).abs() <= bound } else { a <= b + bound }
}

#[no_mangle] pub extern "C" fn vp_f32() -> f32 { f32::from_bits(next("f32") as u32) }
#[no_mangle] pub extern "C" fn vp_f64() -> f64 { f64::from_bits(next("f64")) }
#[no_mangle] pub extern "C" fn vp_usize(lo: usize, hi: usize) -> usize {
  if lo == hi { return lo; }
  let v = next("u") as usize;
  if v < lo || v > hi { done("ASSUME range") }
  v
}
#[no_mangle] pub extern "C" fn vp_pick(n: usize) -> usize { let v = next("u") as usize; if v >= n { done("ASSUME pick") } v }
#[no_mangle] pub extern "C" fn vp_tier() -> usize { std::env::var("VP_TIER").ok().and_then(|s| s.parse().ok()).unwrap_or(0) }
#[no_mangle] pub extern "C" fn vp_symbolic() -> bool { false }
#[no_mangle] pub extern "C" fn vp_assume(c: bool) { if !c { done("ASSUME") } }
#[no_mangle] pub extern "C" fn vp_skip() { done("SKIP") }
#[no_mangle] pub extern "C" fn vp_assert(m: *const u8, n: usize, c: bool) { report(c, "assert", format!("{}", c as u8), m, n); if !c { done("END") } }
#[no_mangle] pub extern "C" fn vp_eq_f32(m: *const u8, n: usize, a: f32, b: f32) {
  report(a == b || (a.is_nan() && b.is_nan()), "eq", format!("{} {}", a.to_bits(), b.to_bits()), m, n) }
#[no_mangle] pub extern "C" fn vp_eq_f64(m: *const u8, n: usize, a: f64, b: f64) {
  report(a == b || (a.is_nan() && b.is_nan()), "eq", format!("{} {}", a.to_bits(), b.to_bits()), m, n) }
#[no_mangle] pub extern "C" fn vp_close_f32(m: *const u8, n: usize, a: f32, b: f32, s: f32, t: f32) {
  report(tol_ok("close", a as f64, b as f64, s as f64, t as f64, 1e-42), "close", format!("{} {} {} {}", a.to_bits(), b.to_bits(), s.to_bits(), t.to_bits()), m, n) }
#[no_mangle] pub extern "C" fn vp_close_f64(m: *const u8, n: usize, a: f64, b: f64, s: f64, t: f64) {
  report(tol_ok("close", a, b, s, t, 1e-320), "close", format!("{} {} {} {}", a.to_bits(), b.to_bits(), s.to_bits(), t.to_bits()), m, n) }
#[no_mangle] pub extern "C" fn vp_le_f32(m: *const u8, n: usize, a: f32, b: f32, s: f32, t: f32) {
  report(tol_ok("le", a as f64, b as f64, s as f64, t as f64, 1e-42), "le", format!("{} {} {} {}", a.to_bits(), b.to_bits(), s.to_bits(), t.to_bits()), m, n) }
#[no_mangle] pub extern "C" fn vp_le_f64(m: *const u8, n: usize, a: f64, b: f64, s: f64, t: f64) {
  report(tol_ok("le", a, b, s, t, 1e-320), "le", format!("{} {} {} {}", a.to_bits(), b.to_bits(), s.to_bits(), t.to_bits()), m, n) }
#[no_mangle] pub extern "C" fn vp_mark(id: usize, p: *const u8, n: usize) {
  let v = unsafe { std::slice::from_raw_parts(p, n).to_vec() };
  RT.with(|r| { r.borrow_mut().marks.insert(id, v); }) }
#[no_mangle] pub extern "C" fn vp_same(id: usize, p: *const u8, n: usize) -> bool {
  let v = unsafe { std::slice::from_raw_parts(p, n).to_vec() };
  RT.with(|r| r.borrow().marks.get(&id).map(|w| *w == v).unwrap_or(false)) }
#[no_mangle] pub extern "C" fn vp_havoc(_: usize, _: *mut u8, _: usize) { done("ASSUME symbolic-only") }
#[no_mangle] pub extern "C" fn vp_extrapolate(_: usize, _: *mut u8, _: usize, _: usize) { done("ASSUME symbolic-only") }
#[no_mangle] pub extern "C" fn vp_advance(_: usize, _: *mut u8, _: usize, _: usize) { done("ASSUME symbolic-only") }

fn main() {
  let path = match std::env::args().nth(1) { Some(p) => p, None => { for (n, _) in vph::all() { println!("{}", n); } return; } };
  let s = std::fs::read_to_string(&path).unwrap();
  let mut it = s.lines().filter(|l| !l.starts_with('#'));
  let name = it.next().unwrap().trim().to_string();
  let vals: Vec<(String, u64)> = it.filter(|l| !l.trim().is_empty()).map(|l| { let mut p = l.split_whitespace(); (p.next().unwrap().to_string(), p.next().unwrap().parse().unwrap()) }).collect();
  RT.with(|r| r.borrow_mut().vals = vals);
  std::panic::set_hook(Box::new(|i| { println!("PANIC {}", i.to_string().replace('\n', " ")); std::process::exit(1); }));
  let f = vph::all().into_iter().find(|(n, _)| *n == name).expect("harness").1;
  f();
  done("END")
}
