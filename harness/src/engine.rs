//! A small property-based testing engine: choice-sequence generation
//! (as in Hypothesis), integrated shrinking, deterministic parallel search,
//! replay files and coverage accounting.

use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

// ---------------------------------------------------------------- generator

pub fn mix(mut z: u64) -> u64 {
  z = z.wrapping_add(0x9e3779b97f4a7c15);
  z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
  z ^ (z >> 31)
}

pub fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
  for c in b.chunks(8) {
    let mut w = [0u8; 8];
    w[..c.len()].copy_from_slice(c);
    h = mix(h ^ u64::from_le_bytes(w));
  }
  mix(h ^ b.len() as u64)
}

pub fn hash_str(s: &str) -> u64 {
  hash_bytes(0x1234_5678, s.as_bytes())
}

/// Source of every random choice of a case. Each choice is an integer in
/// `0..=max`; a case is fully determined by its list of choices, which is what
/// is shrunk and saved. 0 is always the simplest choice.
pub struct Gen {
  state: u64,
  replay: Option<Vec<u64>>,
  pos: usize,
  pub rec: Vec<u64>,
  /// Shared memory in which choices are mirrored (count, then values), so that
  /// they survive a crash of this process.
  mirror: Option<(*mut u64, usize)>,
  /// Texts and numbers generated earlier in this case, to be used again.
  pub memo: Vec<String>,
  pub memo_n: Vec<u64>,
}

impl Gen {
  pub fn random(seed: u64) -> Self {
    Gen { state: seed, replay: None, pos: 0, rec: Vec::with_capacity(64), mirror: None, memo: vec![], memo_n: vec![] }
  }
  pub fn replay(choices: Vec<u64>) -> Self {
    Gen { state: 0, replay: Some(choices), pos: 0, rec: Vec::with_capacity(64), mirror: None, memo: vec![], memo_n: vec![] }
  }
  pub fn mirrored(mut self, at: *mut u64, cap: usize) -> Self {
    unsafe { *at = 0 };
    self.mirror = Some((at, cap));
    self
  }
  /// Uniform in `0..=max`.
  pub fn upto(&mut self, max: u64) -> u64 {
    let v = match &self.replay {
      Some(c) => c.get(self.pos).copied().unwrap_or(0).min(max),
      None => {
        self.state = self.state.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^= z >> 31;
        if max == u64::MAX {
          z
        } else {
          ((z as u128 * (max as u128 + 1)) >> 64) as u64
        }
      }
    };
    self.pos += 1;
    self.rec.push(v);
    if let Some((at, cap)) = self.mirror {
      if self.rec.len() < cap {
        unsafe {
          std::ptr::write_volatile(at.add(self.rec.len()), v);
          std::ptr::write_volatile(at, self.rec.len() as u64);
        }
      }
    }
    v
  }
  pub fn below(&mut self, n: usize) -> usize {
    debug_assert!(n > 0);
    self.upto(n as u64 - 1) as usize
  }
  /// Uniform in `lo..=hi`.
  pub fn range(&mut self, lo: usize, hi: usize) -> usize {
    lo + self.upto((hi - lo) as u64) as usize
  }
  pub fn bool(&mut self) -> bool {
    self.upto(1) == 1
  }
  /// True with probability `num/den`; false is the simple choice.
  pub fn chance(&mut self, num: u64, den: u64) -> bool {
    self.upto(den - 1) >= den - num
  }
  pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
    &xs[self.below(xs.len())]
  }
  /// Index drawn with the given weights; index 0 is the simple choice.
  pub fn weighted(&mut self, w: &[u32]) -> usize {
    let total: u64 = w.iter().map(|x| *x as u64).sum();
    let mut v = self.upto(total - 1);
    for (i, x) in w.iter().enumerate() {
      if v < *x as u64 {
        return i;
      }
      v -= *x as u64;
    }
    w.len() - 1
  }
  /// A permutation of `0..n` (identity is the simple choice).
  pub fn permutation(&mut self, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for i in 0..n {
      let j = i + self.below(n - i);
      v.swap(i, j);
    }
    v
  }
}

// ---------------------------------------------------------------- context

/// What a case reports about itself while it runs.
#[derive(Default)]
pub struct Ctx {
  pub hash: u64,
  pub nontrivial: bool,
  pub labels: Vec<&'static str>,
  pub desc: Vec<String>,
  pub verbose: bool,
  pub known: Vec<&'static str>,
}

impl Ctx {
  /// Record an input of this case (for distinctness and for samples).
  pub fn input(&mut self, name: &str, v: &str) {
    self.hash = hash_bytes(self.hash ^ 0x51, v.as_bytes());
    if self.verbose {
      if std::env::var_os("VH_ECHO").is_some() {
        eprintln!("{name}: {v:?}");
      }
      self.desc.push(format!("{name}: {v:?}"));
    }
  }
  pub fn note(&mut self, f: impl FnOnce() -> String) {
    if self.verbose {
      self.desc.push(f());
    }
  }
  pub fn mix_hash(&mut self, v: u64) {
    self.hash = mix(self.hash ^ v);
  }
  pub fn label(&mut self, l: &'static str) {
    self.labels.push(l);
  }
  pub fn label_if(&mut self, c: bool, l: &'static str) {
    if c {
      self.labels.push(l);
    }
  }
  /// A mismatch that exactly matches the known finding `sig`: tolerated iff
  /// that finding is listed in the known-findings file.
  #[allow(dead_code)]
  pub fn known_or(&mut self, prop: &str, sig: &'static str, err: impl FnOnce() -> String) -> CaseResult {
    if known_listed(prop, sig) {
      self.known.push(sig);
      Ok(())
    } else {
      Err(err())
    }
  }
}

static KNOWN: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());
pub fn set_known(v: Vec<(String, String)>) {
  *KNOWN.lock().unwrap() = v;
}
#[allow(dead_code)]
fn known_listed(prop: &str, sig: &str) -> bool {
  KNOWN.lock().unwrap().iter().any(|(p, s)| p == prop && s == sig)
}

pub type CaseResult = Result<(), String>;
pub type CaseFn = fn(&mut Gen, &mut Ctx) -> CaseResult;

macro_rules! ensure {
  ($c:expr, $($arg:tt)+) => {
    if !$c {
      return Err(format!($($arg)+));
    }
  };
}

macro_rules! ensure_eq {
  ($a:expr, $b:expr, $($arg:tt)+) => {{
    let (a, b) = (&$a, &$b);
    if a != b {
      return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)+), a, b));
    }
  }};
}

thread_local! {
  static QUIET: Cell<bool> = const { Cell::new(false) };
  static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
  let default = std::panic::take_hook();
  std::panic::set_hook(Box::new(move |info| {
    if QUIET.with(|q| q.get()) {
      PANIC_MSG.with(|m| *m.borrow_mut() = format!("{info}"));
    } else {
      default(info);
    }
  }));
}

/// Run `f`, turning a panic into its message.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
  let before = QUIET.with(|q| q.replace(true));
  let r = catch_unwind(AssertUnwindSafe(f));
  QUIET.with(|q| q.set(before));
  r.map_err(|_| PANIC_MSG.with(|m| format!("panic: {}", m.borrow().replace('\n', " "))))
}

pub fn run_case(f: CaseFn, g: &mut Gen, verbose: bool) -> (CaseResult, Ctx) {
  let mut ctx = Ctx { verbose, ..Default::default() };
  let r = match no_panic(|| f(g, &mut ctx)) {
    Ok(r) => r,
    Err(p) => Err(p),
  };
  (r, ctx)
}

// ---------------------------------------------------------------- runner

pub struct Failure {
  pub index: u64,
  pub choices: Vec<u64>,
  pub message: String,
}

#[derive(Default)]
pub struct Report {
  pub evaluations: u64,
  pub distinct_nontrivial: HashSet<u64>,
  pub labels: BTreeMap<&'static str, u64>,
  pub known: BTreeMap<&'static str, u64>,
  pub samples: Vec<String>,
  pub failure: Option<Failure>,
}

pub fn case_seed(seed: u64, prop: &str, stream: &str, index: u64) -> u64 {
  mix(mix(seed ^ hash_str(prop)) ^ hash_str(stream)).wrapping_add(mix(index))
}

/// Pointer to a shared table where each worker thread announces the case it is
/// about to run, so that the supervisor can find the case that crashed it.
#[derive(Clone, Copy)]
pub struct Progress(pub *mut u64, pub usize);
unsafe impl Send for Progress {}
unsafe impl Sync for Progress {}
impl Progress {
  fn set(&self, thread: usize, v: u64) {
    if !self.0.is_null() && thread < self.1 {
      unsafe { std::ptr::write_volatile(self.0.add(thread), v) }
    }
  }
}

pub struct Job<'a> {
  pub prop: &'a str,
  pub stream: &'a str,
  pub seed: u64,
  pub cases: u64,
  pub threads: usize,
  pub case: CaseFn,
  pub progress: Progress,
  /// added to what is announced in `progress`
  pub base: u64,
  pub deadline: std::time::Instant,
}

pub fn run(job: &Job) -> Report {
  let next = AtomicU64::new(0);
  // lowest failing index found so far
  let bad = AtomicU64::new(u64::MAX);
  let merged = Mutex::new(Report::default());
  let chunk = (job.cases / (job.threads as u64 * 16)).clamp(1, 256);
  std::thread::scope(|s| {
    for t in 0..job.threads {
      let (next, bad, merged) = (&next, &bad, &merged);
      std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn_scoped(s, move || {
          let mut rep = Report::default();
          loop {
            let start = next.fetch_add(chunk, Ordering::SeqCst);
            if start >= job.cases || std::time::Instant::now() >= job.deadline {
              break;
            }
            for i in start..(start + chunk).min(job.cases) {
              if i > bad.load(Ordering::SeqCst) {
                break;
              }
              job.progress.set(t, job.base + i + 1);
              let mut g = Gen::random(case_seed(job.seed, job.prop, job.stream, i));
              let want_sample = rep.samples.len() < 2 && i % 37 == 5;
              let (r, ctx) = run_case(job.case, &mut g, want_sample);
              rep.evaluations += 1;
              if ctx.nontrivial {
                rep.distinct_nontrivial.insert(ctx.hash);
                if want_sample {
                  rep.samples.push(clip(&ctx.desc.join("; "), 600));
                }
              }
              for l in ctx.labels {
                *rep.labels.entry(l).or_default() += 1;
              }
              for k in ctx.known {
                *rep.known.entry(k).or_default() += 1;
              }
              if let Err(message) = r {
                bad.fetch_min(i, Ordering::SeqCst);
                if rep.failure.as_ref().is_none_or(|f| i < f.index) {
                  rep.failure = Some(Failure { index: i, choices: g.rec, message });
                }
              }
            }
          }
          job.progress.set(t, 0);
          let mut m = merged.lock().unwrap();
          m.evaluations += rep.evaluations;
          m.distinct_nontrivial.extend(rep.distinct_nontrivial);
          for (k, v) in rep.labels {
            *m.labels.entry(k).or_default() += v;
          }
          for (k, v) in rep.known {
            *m.known.entry(k).or_default() += v;
          }
          m.samples.extend(rep.samples);
          if let Some(f) = rep.failure {
            if m.failure.as_ref().is_none_or(|g| f.index < g.index) {
              m.failure = Some(f);
            }
          }
        })
        .unwrap();
    }
  });
  let mut rep = merged.into_inner().unwrap();
  rep.samples.sort_by_key(|s| (s.len() < 40, hash_str(s)));
  rep.samples.truncate(4);
  rep
}

pub fn clip(s: &str, n: usize) -> String {
  if s.chars().count() <= n {
    return s.to_string();
  }
  let head: String = s.chars().take(n).collect();
  format!("{head}... ({} bytes)", s.len())
}

/// Re-run a case in this process; its choices and message if it fails.
pub fn try_choices(f: CaseFn, c: &[u64]) -> Option<(Vec<u64>, String)> {
  let mut g = Gen::replay(c.to_vec());
  let (r, _) = run_case(f, &mut g, false);
  r.err().map(|m| (g.rec, m))
}

pub type Attempt<'a> = &'a mut dyn FnMut(&[u64]) -> Option<(Vec<u64>, String)>;

/// Deterministic greedy minimisation of a failing choice sequence: delete
/// spans, zero spans, lower single values.
pub fn shrink(choices: Vec<u64>, message: String, mut budget: u32, seconds: u64, run: Attempt) -> (Vec<u64>, String) {
  let started = std::time::Instant::now();
  let mut best = choices;
  let mut msg = message;
  // Reproduce first; a failure that does not replay is reported as found.
  if let Some((rec, m)) = run(&best) {
    best = rec;
    msg = m;
    let smaller = |a: &Vec<u64>, b: &Vec<u64>| (a.len(), a.iter().fold(0u128, |s, x| s + *x as u128)) < (b.len(), b.iter().fold(0u128, |s, x| s + *x as u128));
    let mut improved = true;
    while improved && budget > 0 && started.elapsed().as_secs() < seconds {
      improved = false;
      let mut attempt = |c: Vec<u64>, best: &mut Vec<u64>, msg: &mut String, budget: &mut u32| -> bool {
        if *budget == 0 || started.elapsed().as_secs() >= seconds {
          return false;
        }
        *budget -= 1;
        if let Some((rec, m)) = run(&c) {
          if smaller(&rec, best) {
            *best = rec;
            *msg = m;
            return true;
          }
        }
        false
      };
      // delete spans
      let mut size = (best.len() / 2).max(1);
      loop {
        let mut i = 0;
        while i + size <= best.len() {
          let mut c = best.clone();
          c.drain(i..i + size);
          if attempt(c, &mut best, &mut msg, &mut budget) {
            improved = true;
          } else {
            i += size.max(1);
          }
        }
        if size == 1 {
          break;
        }
        size /= 2;
      }
      // zero spans
      let mut size = (best.len() / 2).max(1);
      loop {
        let mut i = 0;
        while i < best.len() {
          let end = (i + size).min(best.len());
          if best[i..end].iter().any(|x| *x != 0) {
            let mut c = best.clone();
            c[i..end].fill(0);
            if attempt(c, &mut best, &mut msg, &mut budget) {
              improved = true;
            }
          }
          i = end;
        }
        if size == 1 {
          break;
        }
        size /= 2;
      }
      // lower single values
      let mut i = 0;
      while i < best.len() {
        let (mut lo, v) = (0u64, best[i]);
        let mut hi = v;
        while lo < hi && i < best.len() {
          let mid = lo + (hi - lo) / 2;
          let mut c = best.clone();
          c[i] = mid;
          if attempt(c, &mut best, &mut msg, &mut budget) {
            improved = true;
            hi = if i < best.len() { best[i].min(mid) } else { break };
          } else {
            lo = mid + 1;
          }
          if budget == 0 {
            break;
          }
        }
        // lower a value while deleting the next ones (shorter repetition)
        if i + 1 < best.len() && best[i] > 0 {
          for k in 1..=4usize {
            if i + 1 + k <= best.len() && best[i] > 0 {
              let mut c = best.clone();
              c[i] -= 1;
              c.drain(i + 1..i + 1 + k);
              if attempt(c, &mut best, &mut msg, &mut budget) {
                improved = true;
              }
            }
          }
        }
        i += 1;
      }
    }
  }
  (best, msg)
}

/// What the case with these choices consists of.
pub fn describe(f: CaseFn, choices: &[u64]) -> Vec<String> {
  let mut g = Gen::replay(choices.to_vec());
  let (_, ctx) = run_case(f, &mut g, true);
  ctx.desc
}
