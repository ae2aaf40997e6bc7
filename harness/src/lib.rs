#![allow(clippy::all)]
#[macro_use]
mod reg;
pub mod vp;
pub mod px;
pub mod basic;
pub mod delays;
pub mod rbj;
pub mod windows;
pub mod util;

pub fn all() -> Vec<(&'static str, extern "C" fn())> {
  let mut v: Vec<(&'static str, extern "C" fn())> = Vec::new();
  v.extend_from_slice(basic::LIST);
  v.extend_from_slice(delays::LIST);
  v.extend_from_slice(rbj::LIST);
  v.extend_from_slice(windows::LIST);
  v.extend_from_slice(util::LIST);
  v
}
