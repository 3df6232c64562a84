//! Property-based checks of tmi-rs. See /verif/DESIGN.md.
#[macro_use]
mod engine;
mod alloc;
mod dict;
mod gen;
mod model;
#[cfg(feature = "net")]
mod net;
mod peers;
mod props;
mod tables;
mod view;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

use engine::{mix, hash_str, CaseFn, Gen};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::time::{Duration, Instant};

const CRASHES: &[i32] = &[libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP, libc::SIGSYS];
/// A case that takes longer than this does not terminate, for our purposes.
const CASE_LIMIT: Duration = Duration::from_secs(90);
const MIRROR: usize = 1 << 20;

struct Args(BTreeMap<String, Vec<String>>, Vec<String>);
impl Args {
  fn parse() -> Args {
    let (mut m, mut pos): (BTreeMap<String, Vec<String>>, Vec<String>) = Default::default();
    let mut key: Option<String> = None;
    for a in std::env::args().skip(1) {
      if let Some(k) = a.strip_prefix("--") {
        key = Some(k.to_string());
        m.entry(k.to_string()).or_default();
      } else if let Some(k) = &key {
        m.get_mut(k).unwrap().push(a);
      } else {
        pos.push(a);
      }
    }
    Args(m, pos)
  }
  fn get(&self, k: &str) -> Option<&str> {
    self.0.get(k).and_then(|v| v.first()).map(|s| s.as_str())
  }
  fn need(&self, k: &str) -> &str {
    self.get(k).unwrap_or_else(|| die(&format!("--{k} is missing")))
  }
  fn num(&self, k: &str, default: u64) -> u64 {
    self.get(k).map(|v| v.parse().unwrap_or_else(|_| die(&format!("--{k} is not a number")))).unwrap_or(default)
  }
}

fn die(m: &str) -> ! {
  eprintln!("error: {m}");
  std::process::exit(2)
}

fn main() {
  #[cfg(feature = "net")]
  net::init();
  let args = Args::parse();
  engine::install_panic_hook();
  peers::set(args.0.get("peers").cloned().unwrap_or_default());
  if let Some(f) = args.get("known") {
    let text = std::fs::read_to_string(f).unwrap_or_default();
    let mut known = vec![];
    for l in text.lines() {
      let mut it = l.split_whitespace();
      if it.next() == Some("known:") {
        if let (Some(p), Some(s)) = (it.next().and_then(|p| p.strip_prefix("property=")), it.next()) {
          known.push((p.to_string(), s.to_string()));
        }
      }
    }
    engine::set_known(known);
  }
  match args.1.first().map(|s| s.as_str()) {
    Some("run") => {
      dict::load();
      run(&args)
    }
    Some("dict") => {
      dict::load();
      dict::print()
    }
    Some("serve") => peers::serve(),
    Some("replay") => replay(&args),
    Some("distinct") => distinct(&args),
    Some("list") => {
      for p in props::all() {
        println!("{}", p.id);
      }
    }
    Some("rule") => println!("{}", find(args.need("prop")).rule),
    _ => die("usage: vh run|serve|replay|distinct|list|rule"),
  }
}

fn find(id: &str) -> props::Prop {
  props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| die(&format!("no property {id} in this build")))
}

fn shared(words: usize) -> *mut u64 {
  unsafe {
    let p = libc::mmap(std::ptr::null_mut(), words * 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
    assert!(p != libc::MAP_FAILED);
    p as *mut u64
  }
}

enum End {
  Exit(i32),
  Signal(i32),
  Hang,
}

/// Fork, run `f` in the child and wait for it. `stuck` is polled to find out
/// whether it hangs.
fn forked(f: impl FnOnce() -> i32, mut stuck: impl FnMut() -> Option<u64>) -> End {
  std::io::stdout().flush().ok();
  let pid = unsafe { libc::fork() };
  assert!(pid >= 0, "fork failed");
  if pid == 0 {
    unsafe {
      // die with the supervisor
      libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    let code = f();
    std::io::stdout().flush().ok();
    unsafe { libc::_exit(code) }
  }
  let mut wait = Duration::from_micros(50);
  loop {
    let mut st = 0;
    let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
    if r == pid {
      if libc::WIFSIGNALED(st) {
        return End::Signal(libc::WTERMSIG(st));
      }
      return End::Exit(libc::WEXITSTATUS(st));
    }
    if stuck().is_some() {
      unsafe {
        libc::kill(pid, libc::SIGKILL);
        libc::waitpid(pid, &mut st, 0);
      }
      return End::Hang;
    }
    std::thread::sleep(wait);
    wait = (wait * 2).min(Duration::from_millis(50));
  }
}

fn name_of(sig: i32) -> &'static str {
  match sig {
    libc::SIGSEGV => "SIGSEGV (invalid memory access)",
    libc::SIGBUS => "SIGBUS",
    libc::SIGABRT => "SIGABRT (abort)",
    libc::SIGILL => "SIGILL",
    libc::SIGFPE => "SIGFPE",
    libc::SIGTRAP => "SIGTRAP",
    _ => "a fatal signal",
  }
}

fn effective_seed(args: &Args) -> u64 {
  mix(args.num("seed", 1) ^ hash_str(args.get("config").unwrap_or("")))
}

struct Found {
  stream: &'static str,
  index: u64,
  choices: Vec<u64>,
  message: String,
  desc: Vec<String>,
}

fn write_replay(args: &Args, prop: &str, f: &Found) -> String {
  let dir = args.need("replay-dir");
  std::fs::create_dir_all(dir).ok();
  let config = args.get("config").unwrap_or("");
  let path = format!("{dir}/{prop}-{config}-{}-{}-{}.json", f.stream, args.num("seed", 1), f.index);
  let choices: Vec<String> = f.choices.iter().map(|c| c.to_string()).collect();
  let j = serde_json::json!({
    "property": prop, "config": config, "stream": f.stream, "seed": args.num("seed", 1), "index": f.index,
    "message": f.message, "case": f.desc, "choices": choices, "dictionary": dict::to_json(dict::get()),
    "replay_with": format!("python3 check.py --replay {path}"),
  });
  std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).unwrap_or_else(|e| die(&format!("cannot write {path}: {e}")));
  path
}

fn run(args: &Args) {
  let prop = find(args.need("prop"));
  let threads = args.num("threads", 8) as usize;
  let table = shared(threads + 8);
  let out = args.need("out").to_string();
  std::fs::remove_file(&out).ok();
  let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); threads];
  let end = forked(
    || worker(args, &prop, threads, table),
    || {
      for (t, l) in last.iter_mut().enumerate() {
        let v = unsafe { std::ptr::read_volatile(table.add(t)) };
        if v != l.0 {
          *l = (v, Instant::now());
        } else if v != 0 && l.1.elapsed() > CASE_LIMIT {
          return Some(v);
        }
      }
      None
    },
  );
  let sig = match end {
    End::Exit(c @ (0 | 1)) => std::process::exit(c),
    End::Exit(c) => die(&format!("worker exited with {c}")),
    End::Signal(s) if CRASHES.contains(&s) => s,
    End::Signal(s) => die(&format!("worker was killed by signal {s}")),
    End::Hang => 0,
  };
  // find the case that did it
  let mut candidates: Vec<u64> = (0..threads).map(|t| unsafe { *table.add(t) }).filter(|v| *v != 0).collect();
  candidates.sort();
  for c in candidates {
    let (si, index) = ((c >> 40) as usize - 1, (c & ((1 << 40) - 1)) - 1);
    let st = &prop.streams[si];
    let mirror = shared(MIRROR);
    let seed = engine::case_seed(effective_seed(args), prop.id, st.name, index);
    let how = |g: Gen, limit: Duration| -> Option<String> {
      let started = Instant::now();
      match forked(
        || {
          let mut g = g.mirrored(mirror, MIRROR);
          let _ = engine::run_case(st.case, &mut g, false);
          0
        },
        || (started.elapsed() > limit).then_some(1),
      ) {
        End::Signal(s) if CRASHES.contains(&s) => Some(format!("crash: {}", name_of(s))),
        End::Hang => Some("the case does not complete".to_string()),
        _ => None,
      }
    };
    let recorded = || unsafe { std::slice::from_raw_parts(mirror.add(1), (*mirror as usize).min(MIRROR - 1)).to_vec() };
    let Some(message) = how(Gen::random(seed), CASE_LIMIT) else { continue };
    let choices = recorded();
    let mut found = Found { stream: st.name, index, choices: choices.clone(), message: message.clone(), desc: vec![] };
    write_replay(args, prop.id, &found);
    if message.starts_with("crash") {
      let (choices, message) = engine::shrink(choices, message, 1500, 60, &mut |c| how(Gen::replay(c.to_vec()), Duration::from_secs(20)).map(|m| (recorded(), m)));
      found.choices = choices;
      found.message = message;
    }
    let path = write_replay(args, prop.id, &found);
    let j = serde_json::json!({"evaluations": index + 1, "distinct": 0, "labels": {}, "known": {}, "samples": [],
      "failure": {"message": found.message, "case": Vec::<String>::new(), "replay": path, "stream": st.name}});
    std::fs::write(&out, j.to_string()).unwrap();
    std::process::exit(1);
  }
  die(&format!("worker died ({}) and no single case reproduces it", if sig == 0 { "hang" } else { name_of(sig) }))
}

fn worker(args: &Args, prop: &props::Prop, threads: usize, table: *mut u64) -> i32 {
  let total: u64 = prop.streams.iter().map(|s| s.weight as u64).sum();
  let cases = args.num("cases", 10000);
  let only = args.get("stream");
  let deadline = Instant::now() + Duration::from_secs(args.num("max-seconds", 600));
  let mut evaluations = 0u64;
  let mut hashes: Vec<u64> = vec![];
  let mut labels: BTreeMap<String, u64> = Default::default();
  let mut known: BTreeMap<&str, u64> = Default::default();
  let mut samples: Vec<serde_json::Value> = vec![];
  let mut streams = serde_json::Map::new();
  let mut failure = serde_json::Value::Null;
  let mut code = 0;
  for (i, s) in prop.streams.iter().enumerate() {
    if only.is_some_and(|o| o != s.name) {
      continue;
    }
    let rep = engine::run(&engine::Job {
      prop: prop.id,
      stream: s.name,
      seed: effective_seed(args),
      cases: (cases * s.weight as u64 / total).max(1),
      threads,
      case: s.case,
      progress: engine::Progress(table, threads),
      base: ((i + 1) as u64) << 40,
      deadline,
    });
    evaluations += rep.evaluations;
    streams.insert(s.name.to_string(), serde_json::json!({"evaluations": rep.evaluations, "distinct_nontrivial": rep.distinct_nontrivial.len()}));
    hashes.extend(rep.distinct_nontrivial.iter().map(|h| mix(*h ^ hash_str(s.name))));
    for (k, v) in rep.labels {
      *labels.entry(k.to_string()).or_default() += v;
    }
    for (k, v) in rep.known {
      *known.entry(k).or_default() += v;
    }
    for x in rep.samples.into_iter().take(2) {
      samples.push(serde_json::json!({"stream": s.name, "case": x}));
    }
    if let Some(f) = rep.failure {
      code = 1;
      let mut found = Found { stream: s.name, index: f.index, choices: f.choices.clone(), message: f.message.clone(), desc: vec![] };
      write_replay(args, prop.id, &found);
      (found.choices, found.message) = engine::shrink(f.choices, f.message, 20_000, 60, &mut |c| engine::try_choices(s.case, c));
      found.desc = engine::describe(s.case, &found.choices);
      let path = write_replay(args, prop.id, &found);
      failure = serde_json::json!({"message": found.message, "case": found.desc, "replay": path, "stream": s.name});
      break;
    }
  }
  hashes.sort();
  hashes.dedup();
  let out = args.need("out");
  let bytes: Vec<u8> = hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
  std::fs::write(format!("{out}.hashes"), bytes).unwrap();
  let j = serde_json::json!({"evaluations": evaluations, "distinct": hashes.len(), "streams": streams, "labels": labels, "known": known, "samples": samples, "failure": failure});
  std::fs::write(out, j.to_string()).unwrap();
  code
}

/// Number of different values in several files of hashes.
fn distinct(args: &Args) {
  let mut all: Vec<u64> = vec![];
  for f in &args.1[1..] {
    let mut b = vec![];
    if let Ok(mut f) = std::fs::File::open(f) {
      f.read_to_end(&mut b).ok();
    }
    all.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
  }
  all.sort();
  all.dedup();
  println!("{}", all.len());
}

fn replay(args: &Args) {
  let file = args.1.get(1).map(|s| s.as_str()).unwrap_or_else(|| die("which file?"));
  let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap_or_else(|e| die(&format!("{file}: {e}")))).unwrap_or_else(|e| die(&format!("{file}: {e}")));
  dict::set(dict::from_json(&j["dictionary"]));
  let prop = find(j["property"].as_str().unwrap_or(""));
  let name = j["stream"].as_str().unwrap_or("");
  let case: CaseFn = prop.streams.iter().find(|s| s.name == name).unwrap_or_else(|| die("no such stream")).case;
  let choices: Vec<u64> = j["choices"].as_array().unwrap_or_else(|| die("no choices")).iter().map(|c| c.as_str().and_then(|c| c.parse().ok()).unwrap_or(0)).collect();
  let started = Instant::now();
  let end = forked(
    || {
      let mut g = Gen::replay(choices);
      let (r, ctx) = engine::run_case(case, &mut g, true);
      for d in ctx.desc {
        println!("{d}");
      }
      match r {
        Ok(()) => 0,
        Err(e) => {
          println!("{} fails: {e}", prop.id);
          1
        }
      }
    },
    || (started.elapsed() > CASE_LIMIT).then_some(1),
  );
  match end {
    End::Exit(0) => println!("{} holds on this case", prop.id),
    End::Exit(_) => std::process::exit(1),
    End::Signal(s) => {
      println!("{} fails: crash: {}", prop.id, name_of(s));
      std::process::exit(1);
    }
    End::Hang => {
      println!("{} fails: the case does not complete", prop.id);
      std::process::exit(1);
    }
  }
}
