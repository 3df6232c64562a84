//! Backoff, timeouts and the classification of errors: C28, C34, C36.
use super::sim::*;
use super::*;
use crate::engine::{CaseResult, Ctx};
use std::io::{self, ErrorKind};
use tmi::client::conn::OpenStreamError;
use tmi::client::read::RecvError;
use tmi::client::{Backoff, ReconnectError};

// ---------------------------------------------------------------- C28

#[derive(Clone, Debug, PartialEq)]
enum Fate {
  Lookup(i32),
  Refuse(i32),
  /// dropped during the TLS handshake after so long
  NoTls(Duration),
  Junk,
  /// sending fails from the n-th call on, at the latest when the request is sent
  Mute(u64, i32),
  Good,
}

fn fate(g: &mut Gen) -> Fate {
  match g.weighted(&[6, 6, 4, 2, 3]) {
    4 => Fate::Mute(g.range(0, 2) as u64, *g.pick(&[libc::EPIPE, libc::ECONNRESET, libc::ETIMEDOUT, libc::ENETUNREACH])),
    0 => Fate::Refuse(*g.pick(&[libc::ECONNREFUSED, libc::ENETUNREACH, libc::EHOSTUNREACH, libc::ECONNRESET, libc::EACCES, libc::EADDRNOTAVAIL])),
    1 => Fate::Lookup(*g.pick(&[libc::EAI_AGAIN, libc::EAI_NONAME, libc::EAI_FAIL])),
    2 => Fate::NoTls(Duration::from_millis(g.below(900) as u64)),
    _ => Fate::Junk,
  }
}

fn delay(g: &mut Gen) -> Duration {
  match g.weighted(&[4, 3, 2, 1]) {
    0 => Duration::from_millis(g.range(0, 5000) as u64),
    1 => Duration::from_secs(g.range(0, 30) as u64),
    2 => Duration::from_micros(g.range(0, 10_000_000) as u64),
    _ => *g.pick(&[Duration::ZERO, Duration::from_nanos(1), Duration::from_millis(1), Duration::from_secs(3600), Duration::MAX]),
  }
}

pub fn c28(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let mut backoff = Backoff {
    max_tries: match g.weighted(&[4, 2, 1]) {
      0 => Some(g.range(0, 8) as u64),
      1 => None,
      _ => Some(*g.pick(&[1, 30, 255, 256, 257, 300, 65536, 1 << 32, (1 << 32) + 1, 1 << 63, u64::MAX])),
    },
    initial_delay: match delay(g) {
      // has to be waited out
      d if d > Duration::from_secs(86400) => Duration::from_secs(7200),
      d => d,
    },
    delay_multiplier: match g.weighted(&[5, 2]) {
      0 => g.range(0, 4) as u32,
      _ => *g.pick(&[0, 1, 10, 1000, u32::MAX]),
    },
    max_delay: delay(g),
  };
  if backoff.max_delay > Duration::from_secs(86400) {
    // not for centuries: tokio's timers are not made for that
    backoff.delay_multiplier = backoff.delay_multiplier.min(10);
  }
  let calls: Vec<(Vec<Fate>, bool, Option<Duration>)> = (0..g.range(1, 3))
    .map(|_| {
      let n = g.range(0, 12);
      let mut fates: Vec<Fate> = (0..n).map(|_| fate(g)).collect();
      if g.chance(1, 12) {
        // away for long
        let n = *g.pick(&[100, 250, 256, 300]);
        let e = *g.pick(&[libc::ECONNREFUSED, libc::ENETUNREACH]);
        fates.extend(std::iter::repeat(Fate::Refuse(e)).take(n));
      }
      let cancel = g.chance(1, 6).then(|| Duration::from_millis(g.range(0, 20_000) as u64));
      (fates, g.chance(2, 3), cancel)
    })
    .collect();
  let config = server_config(0, g.bool());
  ctx.input("backoff", &format!("{backoff:?}"));
  for c in &calls {
    ctx.input("attempts, then good, cancelled after", &format!("{c:?}"));
  }
  ctx.nontrivial = backoff.max_tries != Some(0) && calls.iter().any(|c| !c.0.is_empty());
  ctx.label_if(backoff.max_tries.is_none(), "unlimited");
  ctx.label_if(calls.len() > 1, "several calls");
  ctx.label_if(calls.iter().any(|c| c.0.len() > 255), "more than 255 attempts planned");
  let (w, logs) = (world(), new_logs());
  let script: std::cell::RefCell<std::collections::VecDeque<Fate>> = Default::default();
  // the model's waits and attempts of one call
  struct Plan0 {
    starts: Vec<Duration>,
    fates: Vec<Fate>,
    end: Duration,
    up: bool,
  }
  let limit = Duration::from_secs(10 * 86400);
  let model = |fates: &[Fate], good: bool| -> Option<Plan0> {
    let mut p = Plan0 { starts: vec![], fates: vec![], end: Duration::ZERO, up: false };
    let mut t = Duration::ZERO;
    let mut d = backoff.initial_delay;
    let mut left = backoff.max_tries;
    let mut it = fates.iter().cloned().chain(good.then_some(Fate::Good));
    loop {
      if left == Some(0) {
        break;
      }
      let Some(f) = it.next() else { return None };
      left = left.map(|n| n - 1);
      t = t.checked_add(d)?;
      if t > limit {
        return None;
      }
      d = d.saturating_mul(backoff.delay_multiplier).min(backoff.max_delay);
      p.starts.push(t);
      p.fates.push(f.clone());
      match f {
        Fate::Good => {
          p.up = true;
          break;
        }
        Fate::NoTls(x) => t += x,
        _ => {}
      }
    }
    p.end = t;
    Some(p)
  };
  sim(&w, Duration::from_secs(60 * 86400), against(&w, &config, logs.clone(), |i| {
    let f = match i {
      0 => Fate::Good,
      _ => script.borrow_mut().pop_front().unwrap_or(Fate::Good),
    };
    match f {
      Fate::NoTls(d) => vec![Step::Stall(d), Step::Read(1 << 16), Step::Drop],
      Fate::Mute(..) => welcome_steps(),
      Fate::Junk => vec![Step::Read(1 << 16), Step::Junk(b"no TLS here\r\n".to_vec()), Step::Drop],
      _ => {
        let mut s = welcome_steps();
        s.push(Step::Say(format!("PING :{i}\r\n").into_bytes()));
        s
      }
    }
  }, async {
    let mut c = Client::builder().credentials(Credentials::new("somebot", "secret")).backoff(backoff).connect().await.map_err(|e| format!("connecting to a proper server fails: {e:?}"))?;
    for (fates, good, cancel) in &calls {
      // more failures than needed, or enough of them for the tries
      let mut fates = fates.clone();
      let mut plan = model(&fates, *good);
      if plan.is_none() && !*good {
        plan = model(&fates, true);
        fates.push(Fate::Good);
      } else if *good {
        fates.push(Fate::Good);
      }
      // a schedule that takes too long is only watched for a while
      let watched = plan.is_none();
      w.clear_plans();
      script.borrow_mut().clear();
      for f in &fates {
        match f {
          Fate::Lookup(e) => w.dns(*e),
          Fate::Refuse(e) => {
            w.dns(0);
            w.plan(Plan::Refuse(*e));
          }
          _ => {
            w.dns(0);
            w.plan(Plan::Accept(match f {
              Fate::Mute(n, e) => Link { send_fault: Some((*n, *e)), ..Default::default() },
              _ => Link::default(),
            }));
            script.borrow_mut().push_back(f.clone());
          }
        }
      }
      let start = w.now();
      let before = w.lookups().len();
      let made = logs.borrow().len();
      let r = match (cancel, watched) {
        (Some(d), _) => tokio::time::timeout(*d, c.reconnect()).await.ok(),
        (None, true) => tokio::time::timeout(limit / 2, c.reconnect()).await.ok(),
        _ => Some(c.reconnect().await),
      };
      let took = w.now() - start;
      let looked: Vec<Duration> = w.lookups()[before..].iter().map(|l| l.1 - start).collect();
      let slack = |n: usize| Duration::from_millis(3 * (n as u64 + 1));
      let starts: Vec<Duration> = match &plan {
        Some(p) => p.starts.clone(),
        None => {
          // as far as the model goes
          let mut t = Duration::ZERO;
          let mut d = backoff.initial_delay;
          let mut v = vec![];
          for (i, f) in fates.iter().enumerate() {
            if backoff.max_tries.is_some_and(|n| i as u64 >= n) {
              break;
            }
            t = t.saturating_add(d);
            if t > limit {
              break;
            }
            v.push(t);
            if let Fate::NoTls(x) = f {
              t += *x;
            }
            d = d.saturating_mul(backoff.delay_multiplier).min(backoff.max_delay);
          }
          v
        }
      };
      for (k, at) in looked.iter().enumerate() {
        let want = starts.get(k).ok_or_else(|| format!("attempt {k} is made, {at:?} into the reconnect, although only {} should be", starts.len()))?;
        ensure!(*at >= *want && *at <= *want + slack(k), "attempt {k} is made {at:?} into the reconnect instead of {want:?}");
      }
      match r {
        None => {
          // cancelled or watched: nothing that was due is missing
          let missing = starts.get(looked.len());
          ensure!(!missing.is_some_and(|m| *m + slack(looked.len()) < took), "attempt {} is not made {took:?} into the reconnect although it was due after {missing:?}", looked.len());
        }
        Some(r) => {
          let Some(p) = &plan else { return Err(format!("a reconnect ends after {took:?}: {r:?}")) };
          ensure!(looked.len() == p.starts.len(), "{} attempts are made instead of {}", looked.len(), p.starts.len());
          ensure!(took >= p.end && took <= p.end + slack(p.starts.len()), "the reconnect takes {took:?} instead of {:?}", p.end);
          match (p.up, r) {
            (true, Ok(())) => {
              let m = c.recv().await.map_err(|e| format!("after a reconnect, receiving fails: {e:?}"))?;
              let conn = logs.borrow().len() - 1;
              ensure!(conn >= made, "a reconnect succeeds without a connection");
              ensure_eq!(m.raw(), format!("PING :{conn}"), "the first line after a reconnect");
            }
            (true, Err(e)) => return Err(format!("a reconnect whose attempt {} is good fails: {e:?}", p.starts.len() - 1)),
            (false, Ok(())) => return Err("a reconnect succeeds without a good attempt".to_string()),
            (false, Err(e)) => {
              if let Some(f) = p.fates.last() {
                ensure!(reports(f, &e), "all attempts fail, the last by {f:?}, but what is reported is {e:?}");
              }
            }
          }
        }
      }
      // nothing goes on in the background, save for a lookup just begun
      tokio::time::sleep(Duration::from_millis(5)).await;
      let n = w.lookups().len();
      tokio::time::sleep(Duration::from_secs(20)).await;
      ensure_eq!(w.lookups().len(), n, "attempts made after the reconnect is over");
    }
    Ok::<(), String>(())
  }))?
}

fn reports(f: &Fate, e: &ReconnectError) -> bool {
  let io = match &e.cause {
    ConnectError::Open(OpenStreamError::Io(io)) => io,
    ConnectError::Io(io) if matches!(f, Fate::Mute(..)) => io,
    _ => return false,
  };
  match f {
    Fate::Mute(_, n) => io.raw_os_error() == Some(*n),
    Fate::Refuse(n) => io.raw_os_error() == Some(*n),
    Fate::Lookup(_) => io.raw_os_error().is_none() && !matches!(io.kind(), ErrorKind::InvalidData | ErrorKind::UnexpectedEof),
    Fate::NoTls(_) => matches!(io.kind(), ErrorKind::UnexpectedEof | ErrorKind::ConnectionReset | ErrorKind::BrokenPipe),
    Fate::Junk => matches!(io.kind(), ErrorKind::InvalidData),
    Fate::Good => false,
  }
}

// ---------------------------------------------------------------- C34

const KINDS: &[ErrorKind] = &[
  ErrorKind::UnexpectedEof,
  ErrorKind::ConnectionReset,
  ErrorKind::ConnectionAborted,
  ErrorKind::BrokenPipe,
  ErrorKind::TimedOut,
  // not a disconnect from here
  ErrorKind::NotFound,
  ErrorKind::PermissionDenied,
  ErrorKind::ConnectionRefused,
  ErrorKind::NotConnected,
  ErrorKind::AddrInUse,
  ErrorKind::AddrNotAvailable,
  ErrorKind::AlreadyExists,
  ErrorKind::WouldBlock,
  ErrorKind::InvalidInput,
  ErrorKind::InvalidData,
  ErrorKind::WriteZero,
  ErrorKind::Interrupted,
  ErrorKind::Unsupported,
  ErrorKind::OutOfMemory,
  ErrorKind::Other,
];

fn gone(k: ErrorKind) -> bool {
  matches!(k, ErrorKind::UnexpectedEof | ErrorKind::ConnectionReset | ErrorKind::ConnectionAborted | ErrorKind::BrokenPipe | ErrorKind::TimedOut)
}

pub fn c34_kinds(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let text = line_text(g);
  let (e, want, what) = match g.weighted(&[4, 3, 3, 1, 2, 2, 2]) {
    5 => {
      // another error inside: the outer one counts
      let (k, l) = (*g.pick(KINDS), *g.pick(KINDS));
      let inner = match g.bool() {
        true => io::Error::from(l),
        false => io::Error::new(l, text.clone()),
      };
      (RecvError::Io(io::Error::new(k, inner)), gone(k), format!("{k:?} because of {l:?}"))
    }
    6 => {
      // the text of one error, the kind of another
      let k = *g.pick(KINDS);
      let text = match g.bool() {
        true => io::Error::from(*g.pick(KINDS)).to_string(),
        false => io::Error::from_raw_os_error(g.range(1, 133) as i32).to_string(),
      };
      (RecvError::Io(io::Error::new(k, text.clone())), gone(k), format!("{k:?} which says {text:?}"))
    }
    0 => {
      let k = *g.pick(KINDS);
      (RecvError::Io(k.into()), gone(k), format!("{k:?}"))
    }
    1 => {
      let k = *g.pick(KINDS);
      (RecvError::Io(io::Error::new(k, text.clone())), gone(k), format!("{k:?} with a text"))
    }
    2 => {
      let n = g.range(1, 133) as i32;
      let e = io::Error::from_raw_os_error(n);
      let k = e.kind();
      (RecvError::from(e), gone(k), format!("system error {n}, {k:?}"))
    }
    3 => (RecvError::StreamClosed, true, "closed".to_string()),
    _ => (RecvError::Parse(text.clone()), false, "parse error".to_string()),
  };
  ctx.input("error", &what);
  ctx.input("text", &text);
  ctx.nontrivial = true;
  ctx.label_if(want, "disconnect");
  ensure_eq!(e.is_disconnect(), want, "whether {what} ({text:?}) is a disconnect");
  Ok(())
}

pub fn c34_live(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let n = g.below(8);
  let mut data = vec![];
  let mut odd = 0;
  for _ in 0..n {
    let l = super::session::server_line(g);
    let l = strip_line(&l);
    odd += std::str::from_utf8(l).map_or(true, |l| tmi::IrcMessage::parse(l).is_none()) as usize;
    data.extend(l);
    data.extend(b"\r\n");
  }
  let torn = g.bool();
  if torn {
    data.extend(b":a!b@c PRIVMSG #a :unfinish");
  }
  let (how, name) = *g.pick(&[(0, "orderly"), (1, "without a TLS close"), (2, "reset"), (3, "receive error"), (4, "orderly, then closed"), (5, "cut inside a record")]);
  let errno = *g.pick(&[libc::ECONNRESET, libc::ECONNABORTED, libc::EPIPE, libc::ETIMEDOUT]);
  let (r, p) = (sizes(g, data.len()), sizes(g, data.len()));
  let sends = g.below(4);
  let config = server_config(0, g.bool());
  ctx.input("data", &show(&data));
  ctx.input("end", name);
  ctx.input("more", &format!("{errno} {sends} {r:?} {p:?}"));
  ctx.nontrivial = true;
  ctx.label(name);
  ctx.label_if(odd > 0, "lines that are no message");
  let mut steps = welcome_steps();
  steps.push(Step::SayIn(data, r, p));
  // the client is waiting by then
  steps.push(Step::Stall(Duration::from_secs(2)));
  match how {
    0 => steps.push(Step::Notify),
    1 | 2 => steps.push(Step::Drop),
    3 => steps.push(Step::Say(b"PING :never seen\r\n".to_vec())),
    4 => steps.extend([Step::Notify, Step::Drop]),
    _ => steps.extend([Step::Torn(b"PING :never seen\r\n".to_vec(), g.range(1, 30)), Step::Drop]),
  }
  let (w, logs) = (world(), new_logs());
  sim(&w, LIMIT, against(&w, &config, logs, |_| steps.clone(), async {
    let mut c = client().await?;
    for _ in 0..sends + (how == 2) as usize {
      c.ping("some bytes that are never read").await.map_err(|e| format!("sending fails: {e:?}"))?;
    }
    if how == 3 {
      let late = async {
        tokio::time::sleep(Duration::from_secs(1)).await;
        w.fault_all(errno);
        std::future::pending::<()>().await
      };
      tokio::select! {
        _ = late => {}
        r = last(&w, &mut c, n) => return check_last(r, name),
      }
    }
    check_last(last(&w, &mut c, n).await, name)
  }))?
}

/// Receive `n` lines and then until an error that is not about a single line.
async fn last(w: &World, c: &mut Client, n: usize) -> Result<RecvError, String> {
  let start = w.now();
  for i in 0..n {
    // the connection is still there
    if let Err(e) = c.recv().await {
      if w.now() - start >= Duration::from_millis(900) {
        // not any more
        return Ok(e);
      }
      ensure!(!e.is_disconnect(), "line {i} of {n} on a live connection is reported as a disconnect: {e:?}");
    }
  }
  for _ in 0..2 {
    match c.recv().await {
      Ok(_) => {}
      Err(e @ (RecvError::Parse(_) | RecvError::Io(_))) if matches!(&e, RecvError::Parse(_)) || matches!(&e, RecvError::Io(x) if x.kind() == ErrorKind::InvalidData) => {
        ensure!(!e.is_disconnect(), "an error about a single line is a disconnect: {e:?}");
      }
      Err(e) => return Ok(e),
    }
  }
  Err(format!("the connection has ended, but after {} receives there still is no error", n + 2))
}

fn check_last(r: Result<RecvError, String>, how: &str) -> CaseResult {
  let e = r?;
  ensure!(e.is_disconnect(), "the server ended the connection ({how}), which is reported as {e:?}, not a disconnect");
  Ok(())
}

// ---------------------------------------------------------------- C36

#[derive(Clone, Debug)]
enum Stage {
  /// comes whole after so long
  After(Duration),
  /// comes in that many pieces, so far apart
  Pieces(usize, Duration),
  /// only so many bytes of it ever come
  Part(usize),
  /// a byte every so often that never makes a line
  Trickle(Duration),
}

fn near(a: Duration, b: Duration) -> bool {
  let d = if a > b { a - b } else { b - a };
  d < Duration::from_millis(30)
}

pub fn c36(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let five = Duration::from_secs(5);
  let timeout = match g.weighted(&[6, 4, 4, 1, 1]) {
    0 => Duration::from_millis(g.range(100, 12_000) as u64),
    1 => Duration::from_secs(30),
    2 => Duration::from_millis(g.range(12_000, 90_000) as u64),
    3 => Duration::from_millis(*g.pick(&[0, 0, 1, 20, 60])),
    _ => *g.pick(&[Duration::from_secs(3600), Duration::from_secs(1 << 20), Duration::from_secs(u32::MAX as u64 + 1), Duration::MAX / 2, Duration::MAX]),
  };
  // too short to get anywhere, or too long to wait for
  let (tiny, huge) = (timeout < Duration::from_millis(100), timeout > Duration::from_secs(100));
  let default_timeout = timeout == Duration::from_secs(30) && g.bool();
  let tls12 = g.bool();
  // how long a delay can be and still be interesting
  let span = |g: &mut Gen, bound: Duration| {
    let b = bound.min(Duration::from_secs(100)).as_millis() as usize;
    Duration::from_millis(match g.weighted(&[4, 2, 2]) {
      0 => 0,
      1 => g.range(0, b * 2),
      _ => (b + g.below(400)).saturating_sub(200),
    } as u64)
  };
  let pending = g.chance(1, 16) && !huge;
  // addresses that refuse before, and are silent after, the first silent one
  let (refusing, silent) = (g.below(3), g.below(3));
  let tls = match g.weighted(&[10, 2]) {
    0 if tiny => Stage::After(Duration::from_millis(g.range(200, 20_000) as u64)),
    0 => Stage::After(span(g, timeout)),
    _ if huge => Stage::After(Duration::ZERO),
    // an abbreviated answer has some 140 bytes
    _ => Stage::Part(g.below(90)),
  };
  let stage = |g: &mut Gen| match g.weighted(&[8, 3, 2, 2]) {
    0 => Stage::After(span(g, five.min(timeout))),
    1 => Stage::Pieces(g.range(2, 20), Duration::from_millis(g.range(1, 600) as u64)),
    2 => Stage::Part(g.below(30)),
    _ => Stage::Trickle(Duration::from_millis(g.range(5, 4000) as u64)),
  };
  let replies = [stage(g), stage(g)];
  let later = g.chance(1, 3) && !tiny;
  // the model: when it ends, and how
  let bound_ok = std::cell::Cell::new(true);
  let check = |a: Duration, b: Duration| {
    if near(a, b) {
      bound_ok.set(false);
    }
    a < b
  };
  let run = || -> (bool, Duration) {
    if pending {
      return (false, timeout);
    }
    let open = match &tls {
      Stage::After(d) if check(*d, timeout) => *d,
      _ => return (false, timeout),
    };
    let mut at = Duration::ZERO;
    for s in &replies {
      let needs = match s {
        Stage::After(d) => Some(*d),
        Stage::Pieces(n, d) => Some(*d * (*n as u32 - 1)),
        _ => None,
      };
      let left = timeout - at;
      let first = five.min(left);
      match needs {
        Some(d) => {
          let ok = check(d, five) & check(d, left);
          if !ok {
            return (false, open + at + first);
          }
          at += d;
        }
        None => {
          return (false, open + at + first);
        }
      }
    }
    (true, open + at)
  };
  let (up, when) = run();
  ctx.input("timeout", &format!("{timeout:?}{}", if default_timeout { " (default)" } else { "" }));
  ctx.input("stages", &format!("connect {refusing} {silent} {}, TLS {tls:?}, replies {replies:?}", if pending { "pending" } else { "answered" }));
  ctx.input("on", if later { "a reconnect" } else { "the first connection" });
  ctx.note(|| format!("expected: {} after {when:?}", if up { "success" } else { "timeout" }));
  if !bound_ok.get() {
    ctx.label("too close to call");
    return Ok(());
  }
  ctx.nontrivial = !up || when > Duration::ZERO;
  ctx.label(match (up, &tls) {
    (true, _) if when > Duration::ZERO => "slow but in time",
    (true, _) => "prompt",
    _ if pending => "never connects",
    (_, Stage::Part(_)) => "TLS stalls",
    _ => "times out",
  });
  let mut steps = vec![];
  match &tls {
    Stage::After(d) => steps.extend([Step::Stall(*d), Step::Tls]),
    Stage::Part(n) => steps.push(Step::TlsPart(*n)),
    _ => unreachable!(),
  }
  if matches!(tls, Stage::After(_)) {
    steps.push(Step::Lines(3));
    for (s, text) in replies.iter().zip([CAP_ACK, WELCOME]) {
      let b = text.as_bytes();
      match s {
        Stage::After(d) => steps.extend([Step::Stall(*d), Step::Say(b.to_vec())]),
        Stage::Pieces(n, d) => {
          let mut from = 0;
          for k in 0..*n {
            if k > 0 {
              steps.push(Step::Stall(*d));
            }
            let to = if k + 1 == *n { b.len() } else { (from + b.len() / n).max(from + 1) };
            steps.push(Step::Say(b[from..to].to_vec()));
            from = to;
          }
        }
        Stage::Part(n) => {
          steps.push(Step::Say(b[..*n].to_vec()));
          break;
        }
        Stage::Trickle(every) => {
          steps.push(Step::Trickle(b"x".to_vec(), *every));
          break;
        }
      }
    }
  }
  let config = server_config(0, tls12);
  let (w, logs) = (world(), new_logs());
  if later {
    w.plan(Plan::Accept(Link::default()));
  }
  if pending {
    w.addresses(refusing + 1 + silent);
    for _ in 0..refusing {
      w.plan(Plan::Refuse(libc::ECONNREFUSED));
    }
    for _ in 0..1 + silent {
      w.plan(Plan::Pending);
    }
  }
  let initial = Duration::from_millis(10);
  sim(&w, LIMIT, against(&w, &config, logs, |i| if later && i == 0 { welcome_steps() } else { steps.clone() }, async {
    let mut b = Client::builder().credentials(Credentials::new("somebot", "secret")).backoff(Backoff { max_tries: Some(1), initial_delay: initial, ..Default::default() });
    if !default_timeout {
      b = b.timeout(timeout);
    }
    let start;
    let r = if later {
      let mut c = b.connect().await.map_err(|e| format!("connecting to a proper server fails: {e:?}"))?;
      start = w.now() + initial;
      let r = c.reconnect().await.map_err(|e| e.cause);
      let t = w.now();
      drop(c);
      r.map(|_| t)
    } else {
      start = w.now();
      let r = b.connect().await;
      r.map(|_| w.now())
    };
    let end = *r.as_ref().unwrap_or(&w.now());
    let took = end.saturating_sub(start);
    match (up, r) {
      (true, Ok(_)) => {}
      (true, Err(e)) => return Err(format!("a server that is up after {when:?} is given up after {took:?}: {e:?}")),
      (false, Ok(_)) => return Err(format!("a server that does not answer in time is up after {took:?}")),
      (false, Err(ConnectError::Timeout)) => {}
      (false, Err(e)) => return Err(format!("a server that does not answer in time is reported as {}: {e:?}", variant(&e))),
    }
    ensure!(near(took, when), "the attempt ends after {took:?} instead of {when:?}");
    Ok(())
  }))?
}

/// A name server that takes its time. Lookups are made on threads of their own, while which virtual time
/// stands still unless it is moved.
pub fn c36_lookup(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let timeout = Duration::from_millis(g.range(20, 100_000) as u64);
  // when the answer comes, if it does in time
  let answer = g.bool().then(|| timeout.mul_f64(g.range(0, 9) as f64 / 10.0));
  let later = g.bool();
  let initial = Duration::from_millis(10);
  ctx.input("timeout", &format!("{timeout:?}"));
  ctx.input("the lookup is answered after", &format!("{answer:?}"));
  ctx.input("on", if later { "a reconnect" } else { "the first connection" });
  ctx.nontrivial = true;
  ctx.label("a slow lookup");
  let config = server_config(0, g.bool());
  let (w, logs) = (world(), new_logs());
  sim(&w, LIMIT, against(&w, &config, logs, |_| welcome_steps(), async {
    let b = Client::builder().credentials(Credentials::new("somebot", "secret")).timeout(timeout).backoff(Backoff { max_tries: Some(1), initial_delay: initial, ..Default::default() });
    let mut c = None;
    let mut attempt: std::pin::Pin<Box<dyn std::future::Future<Output = Result<(), ConnectError>> + '_>> = match later {
      true => {
        let mut d = b.connect().await.map_err(|e| format!("connecting to a proper server fails: {e:?}"))?;
        w.hold_lookups();
        let c = &mut c;
        Box::pin(async move {
          let r = d.reconnect().await.map_err(|e| e.cause);
          *c = Some(d);
          r
        })
      }
      false => {
        w.hold_lookups();
        let f = b.connect();
        Box::pin(async move { f.await.map(drop) })
      }
    };
    let known = w.lookups().len();
    let start = w.now() + if later { initial } else { Duration::ZERO };
    // until the lookup is under way
    let mut early = None;
    while w.lookups().len() == known && early.is_none() {
      early = poll_n(&mut attempt, 1).await;
      match w.now() < start {
        true => tokio::time::sleep(start - w.now()).await,
        false => tokio::task::yield_now().await,
      }
    }
    let step = timeout / 20;
    let mut r = early;
    while r.is_none() && w.now() < start + 3 * timeout {
      r = poll_n(&mut attempt, 2).await;
      if r.is_none() {
        if answer.is_some_and(|a| w.now() >= start + a) {
          w.answer_lookups();
          r = Some((&mut attempt).await);
          break;
        }
        tokio::time::advance(step).await;
      }
    }
    let took = w.now().saturating_sub(start);
    w.answer_lookups();
    match (answer, r) {
      (_, None) => return Err(format!("an attempt whose lookup is not answered does not end within {took:?}")),
      (Some(_), Some(Ok(()))) => {}
      (Some(a), Some(Err(e))) => return Err(format!("an attempt whose lookup is answered after {a:?} is given up after {took:?}: {e:?}")),
      (None, Some(Err(ConnectError::Timeout))) => {}
      (None, Some(r)) => return Err(format!("an attempt whose lookup is not answered ends after {took:?} with {r:?}")),
    }
    if answer.is_none() {
      ensure!(took + Duration::from_millis(3) >= timeout && took <= timeout + 2 * step + Duration::from_millis(3), "an attempt whose lookup is not answered ends after {took:?}");
    }
    Ok::<(), String>(())
  }))?
}

/// A server that does not read the request, which is too long to be sent without that.
pub fn c36_unread(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let timeout = Duration::from_millis(g.range(100, 100_000) as u64);
  let size = g.range(300_000, 600_000);
  // when it begins to read, if it does in time
  let reads = g.bool().then(|| timeout.mul_f64(g.range(0, 9) as f64 / 10.0));
  let later = g.bool();
  ctx.input("timeout", &format!("{timeout:?}"));
  ctx.input("the server reads after", &format!("{reads:?}"));
  ctx.input("on", if later { "a reconnect" } else { "the first connection" });
  ctx.nontrivial = true;
  ctx.label("an unread request");
  let config = server_config(0, g.bool());
  let (w, logs) = (world(), new_logs());
  if later {
    w.plan(Plan::Accept(Link::default()));
  }
  w.plan(Plan::Accept(Link { sndbuf: 1, ..Default::default() }));
  let initial = Duration::from_millis(10);
  sim(&w, LIMIT, against(&w, &config, logs, |i| match reads {
    _ if later && i == 0 => welcome_steps(),
    None => vec![Step::Tls, Step::Wedge],
    Some(d) => {
      let mut s = welcome_steps();
      s.insert(1, Step::Stall(d));
      s
    }
  }, async {
    let b = Client::builder().credentials(Credentials::new("somebot", "x".repeat(size))).timeout(timeout).backoff(Backoff { max_tries: Some(1), initial_delay: initial, ..Default::default() });
    let start;
    let r = match later {
      true => {
        let mut c = b.connect().await.map_err(|e| format!("connecting to a proper server fails: {e:?}"))?;
        start = w.now() + initial;
        let r = c.reconnect().await.map_err(|e| e.cause);
        // Ending the old connection and the new one is the user's time
        let end = w.now();
        drop(c);
        r.map(|_| end)
      }
      false => {
        start = w.now();
        b.connect().await.map(|_| w.now())
      }
    };
    let took = r.as_ref().copied().unwrap_or_else(|_| w.now()).saturating_sub(start);
    match (reads, r) {
      (Some(d), Ok(_)) => ensure!(near(took, d), "an attempt whose request is read after {d:?} ends after {took:?}"),
      (Some(d), Err(e)) => return Err(format!("an attempt whose request is read after {d:?} is given up after {took:?}: {e:?}")),
      (None, Err(ConnectError::Timeout)) => ensure!(near(took, timeout), "an attempt whose request is not read ends after {took:?}"),
      (None, r) => return Err(format!("an attempt whose request is not read ends after {took:?} with {:?}", r.map(drop))),
    }
    Ok::<(), String>(())
  }))?
}
