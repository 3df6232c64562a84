//! An allocator that knows how much memory the code under test holds.
//!
//! Every block carries a header which says whose it is: what is allocated while
//! a thread is inside `counted` (or polls a future wrapped in `Counted`) is
//! booked to that thread's account until it is freed, wherever that happens.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::Relaxed};
use std::task::{Context, Poll};

const ACCOUNTS: usize = 512;
struct Account {
  live: AtomicI64,
  peak: AtomicI64,
}
#[allow(clippy::declare_interior_mutable_const)]
const ZERO: Account = Account { live: AtomicI64::new(0), peak: AtomicI64::new(0) };
static BOOKS: [Account; ACCOUNTS] = [ZERO; ACCOUNTS];
static NEXT: AtomicUsize = AtomicUsize::new(0);

thread_local! {
  static ON: Cell<bool> = const { Cell::new(false) };
  static MINE: Cell<usize> = const { Cell::new(usize::MAX) };
}

fn mine() -> usize {
  MINE.with(|m| {
    if m.get() == usize::MAX {
      m.set(NEXT.fetch_add(1, Relaxed) % ACCOUNTS);
    }
    m.get()
  })
}

pub struct Counting;

/// Room in front of a block, a multiple of its alignment.
fn room(l: Layout) -> usize {
  l.align().max(16)
}
fn book(n: usize, size: i64) {
  let a = &BOOKS[n];
  let live = a.live.fetch_add(size, Relaxed) + size;
  if live > a.peak.load(Relaxed) {
    a.peak.store(live, Relaxed);
  }
}
fn owner() -> u64 {
  match ON.try_with(|o| o.get()) {
    Ok(true) => mine() as u64 + 1,
    _ => 0,
  }
}
unsafe fn extend(l: Layout, size: usize) -> Option<Layout> {
  Layout::from_size_align(size.checked_add(room(l))?, l.align().max(16)).ok()
}

unsafe impl GlobalAlloc for Counting {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    let Some(x) = extend(l, l.size()) else { return std::ptr::null_mut() };
    finish(System.alloc(x), l)
  }
  unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
    let Some(x) = extend(l, l.size()) else { return std::ptr::null_mut() };
    finish(System.alloc_zeroed(x), l)
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    let who = *(p.sub(8) as *const u64);
    if who != 0 {
      book(who as usize - 1, -(l.size() as i64));
    }
    System.dealloc(p.sub(room(l)), extend(l, l.size()).unwrap_unchecked())
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
    let Some(x) = extend(l, size) else { return std::ptr::null_mut() };
    let who = *(p.sub(8) as *const u64);
    let q = System.realloc(p.sub(room(l)), extend(l, l.size()).unwrap_unchecked(), x.size());
    if q.is_null() {
      return q;
    }
    if who != 0 {
      book(who as usize - 1, size as i64 - l.size() as i64);
    }
    q.add(room(l))
  }
}
unsafe fn finish(q: *mut u8, l: Layout) -> *mut u8 {
  if q.is_null() {
    return q;
  }
  let p = q.add(room(l));
  let who = owner();
  *(p.sub(8) as *mut u64) = who;
  if who != 0 {
    book(who as usize - 1, l.size() as i64);
  }
  p
}

struct Switch(bool);
impl Switch {
  fn to(on: bool) -> Self {
    Switch(ON.with(|o| o.replace(on)))
  }
}
impl Drop for Switch {
  fn drop(&mut self) {
    ON.with(|o| o.set(self.0))
  }
}

/// Book what `f` allocates.
pub fn counted<T>(f: impl FnOnce() -> T) -> T {
  let _s = Switch::to(true);
  f()
}
/// The harness's own work, in the middle of counted code.
pub fn uncounted<T>(f: impl FnOnce() -> T) -> T {
  let _s = Switch::to(false);
  f()
}
/// Bytes held by what this thread has allocated in counted code.
pub fn live() -> i64 {
  BOOKS[mine()].live.load(Relaxed)
}
/// The most there was since the last `reset_peak`.
pub fn peak() -> i64 {
  BOOKS[mine()].peak.load(Relaxed)
}
pub fn reset_peak() {
  BOOKS[mine()].peak.store(live(), Relaxed)
}

pub struct Counted<F>(pub F);
impl<F: Future> Future for Counted<F> {
  type Output = F::Output;
  fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
    let f = unsafe { self.map_unchecked_mut(|s| &mut s.0) };
    counted(|| f.poll(cx))
  }
}
