//! The aarch64 vector intrinsics of the parser, in portable Rust, so that the
//! NEON back end can be run on another machine. Loads read exactly the bytes
//! the instruction reads.
#![allow(dead_code, non_camel_case_types, clippy::all)]
use core::mem::transmute;

macro_rules! vector {
  ($($name:ident $lane:ty, $n:literal, $align:literal;)*) => {
    $(#[derive(Clone, Copy, Debug)]
    #[repr(C, align($align))]
    pub struct $name(pub [$lane; $n]);)*
  };
}
vector! {
  uint8x16_t u8, 16, 16;
  uint8x8_t u8, 8, 8;
  uint16x8_t u16, 8, 16;
  uint16x4_t u16, 4, 8;
  uint32x4_t u32, 4, 16;
  uint32x2_t u32, 2, 8;
  uint64x2_t u64, 2, 16;
  uint64x1_t u64, 1, 8;
  int8x16_t i8, 16, 16;
}

pub unsafe fn vld1q_u8(p: *const u8) -> uint8x16_t {
  uint8x16_t(core::ptr::read_unaligned(p as *const [u8; 16]))
}
pub unsafe fn vld1_u8(p: *const u8) -> uint8x8_t {
  uint8x8_t(core::ptr::read_unaligned(p as *const [u8; 8]))
}
pub unsafe fn vst1q_u8(p: *mut u8, v: uint8x16_t) {
  core::ptr::write_unaligned(p as *mut [u8; 16], v.0)
}
pub const unsafe fn vdupq_n_u8(v: u8) -> uint8x16_t {
  uint8x16_t([v; 16])
}
pub const unsafe fn vmovq_n_u8(v: u8) -> uint8x16_t {
  uint8x16_t([v; 16])
}

fn zip(a: uint8x16_t, b: uint8x16_t, f: impl Fn(u8, u8) -> u8) -> uint8x16_t {
  let mut r = [0; 16];
  for i in 0..16 {
    r[i] = f(a.0[i], b.0[i]);
  }
  uint8x16_t(r)
}
pub unsafe fn vceqq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
  zip(a, b, |x, y| if x == y { 0xff } else { 0 })
}
pub unsafe fn vcgtq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
  zip(a, b, |x, y| if x > y { 0xff } else { 0 })
}
pub unsafe fn vcltq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
  zip(a, b, |x, y| if x < y { 0xff } else { 0 })
}
pub unsafe fn vandq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
  zip(a, b, |x, y| x & y)
}
pub unsafe fn vorrq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
  zip(a, b, |x, y| x | y)
}
pub unsafe fn veorq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
  zip(a, b, |x, y| x ^ y)
}
pub unsafe fn vmvnq_u8(a: uint8x16_t) -> uint8x16_t {
  zip(a, a, |x, _| !x)
}
pub unsafe fn vmaxvq_u8(a: uint8x16_t) -> u8 {
  *a.0.iter().max().unwrap()
}
pub unsafe fn vminvq_u8(a: uint8x16_t) -> u8 {
  *a.0.iter().min().unwrap()
}

/// Shift each 16-bit lane right and keep its low byte.
pub unsafe fn vshrn_n_u16(a: uint16x8_t, n: i32) -> uint8x8_t {
  assert!((1..=8).contains(&n));
  let mut r = [0; 8];
  for i in 0..8 {
    r[i] = (a.0[i] >> n) as u8;
  }
  uint8x8_t(r)
}
pub unsafe fn vmovn_u16(a: uint16x8_t) -> uint8x8_t {
  let mut r = [0; 8];
  for i in 0..8 {
    r[i] = a.0[i] as u8;
  }
  uint8x8_t(r)
}
pub unsafe fn vget_lane_u64(a: uint64x1_t, i: i32) -> u64 {
  a.0[i as usize]
}
pub unsafe fn vgetq_lane_u64(a: uint64x2_t, i: i32) -> u64 {
  a.0[i as usize]
}
pub unsafe fn vgetq_lane_u8(a: uint8x16_t, i: i32) -> u8 {
  a.0[i as usize]
}

macro_rules! reinterpret {
  ($($f:ident $from:ident $to:ident;)*) => {
    $(pub unsafe fn $f(a: $from) -> $to {
      transmute(a)
    })*
  };
}
// Lane 0 holds the lowest bytes, as on a little-endian aarch64.
reinterpret! {
  vreinterpretq_u16_u8 uint8x16_t uint16x8_t;
  vreinterpretq_u32_u8 uint8x16_t uint32x4_t;
  vreinterpretq_u64_u8 uint8x16_t uint64x2_t;
  vreinterpretq_u8_u16 uint16x8_t uint8x16_t;
  vreinterpretq_u8_u64 uint64x2_t uint8x16_t;
  vreinterpret_u64_u8 uint8x8_t uint64x1_t;
  vreinterpret_u8_u64 uint64x1_t uint8x8_t;
}
