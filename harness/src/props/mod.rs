pub mod raw;
#[macro_use]
pub mod typed;
pub mod whole;

use crate::engine::CaseFn;

pub struct Stream {
  pub name: &'static str,
  pub weight: u32,
  pub case: CaseFn,
}

pub struct Prop {
  pub id: &'static str,
  /// How cases are made, and what makes one non-trivial.
  pub rule: &'static str,
  pub streams: Vec<Stream>,
}

pub fn s(name: &'static str, weight: u32, case: CaseFn) -> Stream {
  Stream { name, weight, case }
}

pub fn all() -> Vec<Prop> {
  let mut v = raw::props();
  v.extend(typed::props());
  v.extend(whole::props());
  #[cfg(feature = "net")]
  v.extend(crate::net::props());
  v
}
