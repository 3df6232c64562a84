//! Several clients at once: C40.
use super::session::{cmd, plain_line, refused_line, Attempt, Cmd};
use super::sim::*;
use super::*;
use crate::engine::{CaseResult, Ctx};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::rc::Rc;
use tmi::client::Backoff;

#[derive(Clone, Debug)]
enum Op {
  Send(Cmd),
  Refuse(String),
  Abandon(Cmd),
  Recv,
  /// gives up after being polled so often
  TryRecv(usize),
  Sleep(u64),
  /// fails like this first, each time for good
  Reconnect(Vec<Attempt>),
}

#[derive(Clone, Debug)]
struct One {
  /// none: anonymous
  who: Option<(String, String)>,
  start: u64,
  /// of the first delay, in ms
  delay: u64,
  timeout: u64,
  first: Option<Attempt>,
  ops: Vec<Op>,
  /// how each connection is met; none: properly
  fates: Vec<Option<Attempt>>,
  /// per connection: how many lines it says, how long it does not read, pieces
  conns: Vec<(usize, u64, Sizes)>,
  filler: usize,
}

fn one(g: &mut Gen, j: usize, anonymous: bool, long: bool) -> One {
  let first = match g.below(6) {
    0 => Some(match g.below(5) {
      0 => Attempt::AuthFailed,
      1 => Attempt::Nak,
      2 => Attempt::Odd,
      3 => Attempt::Close(true, g.bool()),
      _ => Attempt::Silent(g.below(CAP_ACK.len())),
    }),
    _ => None,
  };
  let mut fates = vec![None];
  let ops: Vec<Op> = (0..g.range(1, 10))
    .map(|_| match g.weighted(&[6, 1, 1, 4, 2, 3, 1]) {
      0 => Op::Send(cmd(g, true, if long { 60_000 } else { 0 })),
      1 => Op::Refuse(refused_line(g)),
      2 => Op::Abandon(cmd(g, true, 0)),
      3 => Op::Recv,
      4 => Op::TryRecv(g.range(1, 4)),
      5 => Op::Sleep(*g.pick(&[0, 1, 5, 50])),
      _ => {
        let bad: Vec<_> = g
          .weighted(&[3, 1, 1])
          .checked_sub(1)
          .map(|k| if k == 0 { Attempt::AuthFailed } else { Attempt::Silent(g.below(CAP_ACK.len())) })
          .into_iter()
          .collect();
        fates.extend(bad.iter().cloned().map(Some));
        fates.push(None);
        Op::Reconnect(bad)
      }
    })
    .collect();
  One {
    // at most one of the two is shared with another client
    who: (!anonymous).then(|| match g.below(4) {
      0 => ("shared".to_string(), format!("{}{j}", gen::ident(g))),
      1 => (format!("{}{j}", gen::ident(g)), "shared".to_string()),
      _ => (format!("{}{j}", gen::ident(g)), format!("{}{j}", gen::ident(g))),
    }),
    start: *g.pick(&[0, 0, 0, 1, 5, 50]),
    delay: g.range(1, 80) as u64,
    timeout: match g.below(3) {
      0 => g.range(3600, 7200) as u64 * 1000,
      _ => g.range(200, 8000) as u64,
    },
    first,
    ops,
    conns: fates.iter().map(|_| (g.below(7), *g.pick(&[0, 0, 1, 5, 50]), sizes(g, 400))).collect(),
    fates,
    filler: *g.pick(&[0, 0, 30, 3000]),
  }
}

fn said(j: usize, conn: usize, line: usize, filler: usize) -> String {
  format!(":s{j}!s@s PRIVMSG #c{conn} :client {j} connection {conn} line {line}{}", "x".repeat(filler))
}

async fn live(j: usize, o: Rc<One>, sent: Rc<RefCell<Vec<Vec<u8>>>>) -> CaseResult {
  tokio::time::sleep(Duration::from_millis(o.start)).await;
  let backoff = Backoff { max_tries: Some(3), initial_delay: Duration::from_millis(o.delay), delay_multiplier: 2, max_delay: Duration::from_secs(9) };
  let b = Client::builder().timeout(Duration::from_millis(o.timeout)).backoff(backoff);
  let b = match &o.who {
    Some((login, token)) => b.credentials(Credentials::new(login, token)),
    None => b,
  };
  // a server that reads and answers at once keeps nobody waiting
  let (idle, t) = (o.conns.iter().all(|c| c.1 == 0), tokio::time::Instant::now());
  let quick = |t: tokio::time::Instant, d: u64, what: &dyn std::fmt::Debug| -> CaseResult {
    let d = Duration::from_millis(d);
    ensure!(!idle || t.elapsed() <= d + Duration::from_millis(1), "client {j}: {what:?} takes {:?}, although its own server keeps up (expected {d:?})", t.elapsed());
    Ok(())
  };
  let r = b.connect().await;
  let after = if matches!(o.first, Some(Attempt::Silent(_))) { o.timeout.min(5000) } else { 0 };
  quick(t, after, &"connecting")?;
  ensure!(t.elapsed() >= Duration::from_millis(after), "client {j} gives up after {:?} instead of {after} ms", t.elapsed());
  if o.first.is_some() {
    let e = r.err().map(|e| variant(&e));
    let want = match o.first {
      Some(Attempt::AuthFailed | Attempt::Nak) => "Auth",
      Some(Attempt::Odd) => "Welcome",
      Some(Attempt::Silent(_)) => "Timeout",
      _ => "Read",
    };
    ensure!(e == Some(want), "client {j} is turned away with {want}, but reports {e:?}");
    return Ok(());
  }
  let mut c = r.map_err(|e| format!("client {j} does not connect: {e:?}"))?;
  if let Some((login, token)) = &o.who {
    ensure!(c.credentials().login == *login && c.credentials().token.as_ref() == Some(token), "client {j} has the credentials of another: {:?}", c.credentials().login);
  }
  ensure!(c.config().timeout == Duration::from_millis(o.timeout) && c.config().backoff.initial_delay == backoff.initial_delay, "client {j} has another configuration: {:?}", c.config());
  let (mut conn, mut got) = (0, 0);
  for op in &o.ops {
    let t = tokio::time::Instant::now();
    let line = |m: Result<tmi::IrcMessage, _>, got: &mut usize| -> CaseResult {
      let m = m.map_err(|e: tmi::client::read::RecvError| format!("client {j}: receiving on connection {conn} fails: {e:?}"))?;
      ensure_eq!(m.raw(), said(j, conn, *got, o.filler), "client {j}, connection {conn}, line {got}");
      *got += 1;
      Ok(())
    };
    match op {
      Op::Send(x) => {
        sent.borrow_mut()[conn].extend(plain_line(x));
        x.send(&mut c).await.map_err(|e| format!("client {j}: {x:?} fails: {e:?}"))?;
        quick(t, 0, x)?;
      }
      Op::Refuse(l) => {
        ensure!(c.send_raw(l.as_str()).await.is_err(), "client {j}: {l:?} is not refused");
      }
      Op::Abandon(x) => drop(x.send(&mut c)),
      Op::Recv => {
        if got < o.conns[conn].0 {
          let m = c.recv().await;
          quick(t, 0, op)?;
          line(m, &mut got)?;
        }
      }
      Op::TryRecv(n) => {
        if let Some(m) = poll_n(c.recv(), *n).await {
          line(m, &mut got)?;
        }
      }
      Op::Sleep(ms) => tokio::time::sleep(Duration::from_millis(*ms)).await,
      Op::Reconnect(bad) => {
        tokio::time::sleep(SETTLE).await;
        for a in bad {
          conn += 1;
          sent.borrow_mut().push(vec![]);
          let t = tokio::time::Instant::now();
          let e = c.reconnect().await.err().map(|e| variant(&e.cause));
          let (want, after) = match a {
            Attempt::AuthFailed => ("Auth", 0),
            _ => ("Timeout", o.timeout.min(5000)),
          };
          ensure!(e == Some(want), "client {j} reconnects, is turned away with {want}, but reports {e:?}");
          quick(t, o.delay + after, op)?;
          ensure!(t.elapsed() >= Duration::from_millis(o.delay + after), "client {j} gives up after {:?} instead of {} ms", t.elapsed(), o.delay + after);
        }
        conn += 1;
        got = 0;
        sent.borrow_mut().push(vec![]);
        let t = tokio::time::Instant::now();
        c.reconnect().await.map_err(|e| format!("client {j}: reconnect {conn} fails: {e:?}"))?;
        quick(t, o.delay, op)?;
        ensure!(t.elapsed() >= Duration::from_millis(o.delay), "client {j} waits {:?} instead of {} ms before it reconnects", t.elapsed(), o.delay);
      }
    }
  }
  tokio::time::sleep(SETTLE).await;
  Ok(())
}

/// In which a server which does not read for a while gets to read everything
/// that has been sent, before the client leaves.
const SETTLE: Duration = Duration::from_millis(200);

pub fn c40(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let n = g.range(2, 4);
  let long = g.chance(1, 3);
  let anonymous = g.weighted(&[1; 5]);
  let ones: Vec<Rc<One>> = (0..n).map(|j| Rc::new(one(g, j, j == anonymous, long))).collect();
  let sndbuf = if long { 4000 } else { 0 };
  let config = server_config(0, g.bool());
  for o in &ones {
    ctx.input("client", &crate::engine::clip(&format!("{o:?}"), 1500));
  }
  ctx.nontrivial = ones.iter().filter(|o| o.first.is_none()).count() > 1;
  ctx.label_if(long, "long messages, small buffers");
  ctx.label_if(ones.iter().any(|o| o.conns.len() > 1), "reconnects");
  let (w, logs) = (world(), new_logs());
  let conns: usize = ones.iter().map(|o| o.conns.len()).sum();
  for _ in 0..conns {
    w.plan(Plan::Accept(Link { sndbuf, ..Default::default() }));
  }
  let sent: Vec<Rc<RefCell<Vec<Vec<u8>>>>> = ones.iter().map(|_| Rc::new(RefCell::new(vec![vec![]]))).collect();
  // whose connection it was, in order of their coming up
  let whose: Rc<RefCell<Vec<Vec<usize>>>> = Rc::new(RefCell::new(vec![vec![]; n]));
  let stray: Rc<Cell<bool>> = Rc::default();
  sim(&w, LIMIT, against(&w, &config, logs.clone(), |idx| {
    let (ones, whose, stray) = (ones.clone(), whose.clone(), stray.clone());
    let next = move |got: &[u8]| -> Vec<Step> {
      let got = String::from_utf8_lossy(got);
      let line = |n: usize, start: &str| got.lines().nth(n).and_then(|l| l.strip_prefix(start)).unwrap_or_default().to_string();
      let (pass, nick) = (line(1, "PASS oauth:"), line(2, "NICK "));
      let named = ones.iter().position(|o| o.who.as_ref().is_some_and(|w| w.0 == nick && w.1.trim_start_matches("oauth:") == pass));
      let j = named.or_else(|| ones.iter().position(|o| o.who.is_none()));
      let Some(j) = j.filter(|j| whose.borrow()[*j].len() < ones[*j].conns.len()) else {
        stray.set(true);
        return vec![];
      };
      let (o, conn) = (&ones[j], whose.borrow()[j].len());
      whose.borrow_mut()[j].push(idx);
      if let Some(a) = o.first.as_ref().or(o.fates[conn].as_ref()) {
        return a.steps(idx, &[]).split_off(2);
      }
      let (lines, stall, pieces) = &o.conns[conn];
      let chatter: String = (0..*lines).map(|k| said(j, conn, k, o.filler) + "\r\n").collect();
      vec![
        Step::Say(format!("{CAP_ACK}{WELCOME}").into_bytes()),
        Step::Stall(Duration::from_millis(*stall)),
        Step::SayIn(chatter.into_bytes(), pieces.clone(), pieces.clone()),
      ]
    };
    vec![Step::Tls, Step::Lines(3), Step::Then(Then(Rc::new(next)))]
  }, async {
    let set = tokio::task::LocalSet::new();
    set
      .run_until(async {
        let lives: Vec<_> = ones.iter().enumerate().map(|(j, o)| tokio::task::spawn_local(live(j, o.clone(), sent[j].clone()))).collect();
        for l in lives {
          match l.await {
            Ok(r) => r?,
            Err(e) => std::panic::resume_unwind(e.into_panic()),
          }
        }
        Ok::<(), String>(())
      })
      .await
  }))??;
  ensure!(!stray.get(), "a connection logs in as nobody who is connecting");
  for (j, o) in ones.iter().enumerate() {
    let whose = &whose.borrow()[j];
    let sent = sent[j].borrow();
    ensure_eq!(whose.len(), sent.len(), "connections of client {j}");
    for (conn, idx) in whose.iter().enumerate() {
      let got = logs.borrow()[*idx].borrow().got.clone();
      let mut want = vec![];
      if let Some((login, token)) = &o.who {
        let oauth = if token.starts_with("oauth:") { "" } else { "oauth:" };
        want.extend(format!("CAP REQ :twitch.tv/commands twitch.tv/tags twitch.tv/membership\r\nPASS {oauth}{token}\r\nNICK {login}\r\n").bytes());
      } else {
        // the login is random
        want.extend(got.split_inclusive(|b| *b == b'\n').take(3).flatten());
      }
      want.extend(&sent[conn]);
      super::session::compare(&got, &want, &format!("client {j}, connection {conn}"))?;
    }
  }
  Ok(())
}
