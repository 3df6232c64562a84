//! Other builds of this program, asked for their view of an input (C04).
use crate::engine::no_panic;
use crate::view;
use std::cell::RefCell;
use std::io::{BufReader, BufWriter, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::OnceLock;

static PATHS: OnceLock<Vec<String>> = OnceLock::new();

pub fn set(p: Vec<String>) {
  PATHS.set(p).ok();
}
pub fn paths() -> &'static [String] {
  PATHS.get().map(|v| v.as_slice()).unwrap_or(&[])
}

/// What this build makes of the input, as text.
pub fn answer(s: &str) -> String {
  match no_panic(|| view::full(s)) {
    Ok(v) => {
      let mut o = String::new();
      for (k, x) in v {
        o.push_str(&k);
        o.push('\u{1f}');
        o.push_str(&x);
        o.push('\u{1e}');
      }
      o
    }
    Err(_) => "panic\u{1f}panic\u{1e}".to_string(),
  }
}

pub fn decode(s: &str) -> view::View {
  s.split('\u{1e}').filter(|x| !x.is_empty()).map(|x| x.split_once('\u{1f}').unwrap_or((x, ""))).map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

pub fn serve() {
  let mut i = BufReader::new(std::io::stdin().lock());
  let mut o = BufWriter::new(std::io::stdout().lock());
  loop {
    let mut n = [0u8; 8];
    if i.read_exact(&mut n).is_err() {
      return;
    }
    let mut b = vec![0u8; u64::from_le_bytes(n) as usize];
    if i.read_exact(&mut b).is_err() {
      return;
    }
    let a = answer(&String::from_utf8(b).unwrap());
    o.write_all(&(a.len() as u64).to_le_bytes()).unwrap();
    o.write_all(a.as_bytes()).unwrap();
    o.flush().unwrap();
  }
}

struct Peer {
  child: Child,
  i: BufWriter<ChildStdin>,
  o: BufReader<ChildStdout>,
}

impl Peer {
  fn start(path: &str) -> std::io::Result<Peer> {
    let mut child = Command::new(path).arg("serve").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn()?;
    let i = BufWriter::new(child.stdin.take().unwrap());
    let o = BufReader::new(child.stdout.take().unwrap());
    Ok(Peer { child, i, o })
  }
  fn ask(&mut self, s: &str) -> std::io::Result<String> {
    self.i.write_all(&(s.len() as u64).to_le_bytes())?;
    self.i.write_all(s.as_bytes())?;
    self.i.flush()?;
    let mut n = [0u8; 8];
    self.o.read_exact(&mut n)?;
    let mut b = vec![0u8; u64::from_le_bytes(n) as usize];
    self.o.read_exact(&mut b)?;
    Ok(String::from_utf8(b).unwrap())
  }
}
impl Drop for Peer {
  fn drop(&mut self) {
    self.child.kill().ok();
    self.child.wait().ok();
  }
}

thread_local! {
  static PEERS: RefCell<Vec<Option<Peer>>> = const { RefCell::new(Vec::new()) };
}

/// The answer of the i-th peer; Err when it dies over the question.
pub fn ask(i: usize, s: &str) -> Result<String, String> {
  PEERS.with(|p| {
    let mut p = p.borrow_mut();
    if p.len() < paths().len() {
      p.resize_with(paths().len(), || None);
    }
    if p[i].is_none() {
      // Not being able to start a peer says nothing about the code under test.
      p[i] = Some(Peer::start(&paths()[i]).unwrap_or_else(|e| {
        eprintln!("error: cannot start {}: {e}", paths()[i]);
        std::process::exit(2)
      }));
    }
    match p[i].as_mut().unwrap().ask(s) {
      Ok(a) => Ok(a),
      Err(_) => {
        let mut dead = p[i].take().unwrap();
        let st = dead.child.wait();
        Err(format!("died: {st:?}"))
      }
    }
  })
}
