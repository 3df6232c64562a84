//! What a client holds on to: C39.
use super::session::{cmd, plain_line, refused_line, server_line, Attempt, Cmd};
use super::sim::*;
use super::*;
use crate::alloc::{self, Counted};
use crate::engine::{CaseResult, Ctx};
use std::cell::RefCell;
use tmi::client::Backoff;

#[derive(Clone, Debug)]
enum Do {
  Send(Cmd),
  Refuse(String),
  Abandon(Cmd),
  /// wait for a line that is not there yet, then receive it
  Recv(bool),
}

fn acts(g: &mut Gen, max: usize) -> Vec<Do> {
  (0..g.range(1, max))
    .map(|_| match g.weighted(&[5, 1, 1, 5]) {
      0 => Do::Send(cmd(g, true, 0)),
      1 => Do::Refuse(refused_line(g)),
      2 => Do::Abandon(cmd(g, true, 0)),
      _ => Do::Recv(g.bool()),
    })
    .collect()
}

/// The same with other texts.
fn vary(c: &Cmd, i: usize) -> Cmd {
  let mut c = c.clone();
  match &mut c {
    Cmd::Privmsg { channel, text, reply, nonce, .. } => {
      channel.push_str(&i.to_string());
      text.push_str(&i.to_string());
      for x in [reply, nonce].into_iter().flatten() {
        x.push_str(&i.to_string());
      }
    }
    Cmd::Ping(s) | Cmd::Join(s) => s.push_str(&i.to_string()),
    Cmd::Pong(s, _) if s.contains(':') => s.push_str(&i.to_string()),
    Cmd::Pong(..) => {}
    Cmd::JoinAll(v, _) => v[0].push_str(&i.to_string()),
    Cmd::Raw(s) => s.insert_str(0, &i.to_string()),
  }
  c
}

async fn act(c: &mut Client, a: &Do, i: usize) -> CaseResult {
  match a {
    Do::Send(o) => {
      let o = vary(o, i);
      Counted(o.send(c)).await.map_err(|e| format!("{o:?} fails: {e:?}"))
    }
    Do::Refuse(l) => {
      let l = format!("{i}{l}");
      let r = Counted(c.send_raw(l.as_str())).await;
      ensure!(r.is_err(), "{l:?} is not refused");
      Ok(())
    }
    Do::Abandon(o) => {
      let o = vary(o, i);
      let f = alloc::counted(|| o.send(c));
      drop(f);
      Ok(())
    }
    Do::Recv(early) => {
      if *early {
        // may or may not be there; if it is, it is the one
        if poll_n(Counted(c.recv()), 1).await.is_some() {
          return Ok(());
        }
      }
      let _ = Counted(c.recv()).await;
      Ok(())
    }
  }
}

/// Lines for so many receives.
fn lines(pattern: &[Vec<u8>], from: usize, n: usize) -> Vec<u8> {
  let mut d = vec![];
  for i in from..from + n {
    d.extend(&pattern[i % pattern.len()]);
    d.extend(format!("{i}\r\n").bytes());
  }
  d
}

pub fn traffic(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let acts = acts(g, 6);
  let pattern: Vec<Vec<u8>> = (0..g.range(1, 6)).map(|_| server_line(g)).map(|l| if l.len() > 3000 { l[..3000].to_vec() } else { l }).collect();
  let n = if g.chance(1, 8) { g.range(1500, 2500) } else { g.range(400, 600) };
  let config = server_config(0, g.bool());
  ctx.input("acts", &crate::engine::clip(&format!("{acts:?}"), 1500));
  ctx.input("lines", &crate::engine::clip(&format!("{:?}", pattern.iter().map(|l| show(l)).collect::<Vec<_>>()), 1500));
  ctx.input("rounds", &format!("{n}, and three times as many"));
  // the server may say more than anybody reads
  let unread = *g.pick(&[0, 0, 0, 8]);
  ctx.label_if(unread > 0, "unread lines");
  let recvs = acts.iter().filter(|a| matches!(a, Do::Recv(_))).count();
  ctx.nontrivial = acts.len() > 1;
  let said = |upto: usize| -> usize { (0..upto).map(|i| acts.iter().map(|a| if let Do::Send(o) = a { plain_line(&vary(o, i)).iter().filter(|b| **b == b'\n').count() } else { 0 }).sum::<usize>()).sum() };
  let mut steps = welcome_steps();
  steps.push(Step::Say(lines(&pattern, 0, n * recvs)));
  steps.push(Step::Lines(3 + said(n) + 1));
  steps.push(Step::Say(lines(&pattern, n * recvs, 3 * n * recvs + unread * n)));
  let (w, logs) = (world(), new_logs());
  sim(&w, LIMIT, against(&w, &config, logs, |_| steps.clone(), async {
    let mut c = Counted(client()).await?;
    let mut held = [0i64; 2];
    for half in 0..2 {
      for i in [0..n, n..4 * n][half].clone() {
        for a in &acts {
          act(&mut c, a, i).await?;
        }
      }
      Counted(c.ping("half")).await.map_err(|e| format!("sending fails: {e:?}"))?;
      held[half] = alloc::live();
    }
    // a buffer may still grow to its size
    let grown = held[1] - held[0];
    let buffers = if unread > 0 { 98_304 } else { 40_960 };
    ensure!(grown < buffers + 6 * n as i64, "after {n} rounds of this the client holds {} bytes, after {} more {} bytes", held[0], 3 * n, held[1]);
    Ok::<(), String>(())
  }))?
}

fn failing(g: &mut Gen) -> Attempt {
  match g.below(6) {
    0 => Attempt::Lookup(libc::EAI_AGAIN),
    1 => Attempt::Refuse(libc::ECONNREFUSED),
    2 => Attempt::NoTls(g.below(4) as u8),
    3 => Attempt::Close(g.bool(), g.bool()),
    4 => Attempt::SendFault(g.range(1, 2) as u64, libc::EPIPE),
    _ => Attempt::AuthFailed,
  }
}

pub fn reconnects(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let n = 16 + g.below(8);
  let fails: Vec<Attempt> = (0..g.weighted(&[3, 3, 1])).map(|_| failing(g)).collect();
  let uses: Vec<Do> = acts(g, 4).into_iter().filter(|a| !matches!(a, Do::Recv(_))).collect();
  let (read, unread, cancel) = (g.below(3), g.below(3), g.bool());
  let config = server_config(0, g.bool());
  ctx.input("attempts in vain", &format!("{fails:?}"));
  ctx.input("uses", &crate::engine::clip(&format!("{uses:?}, {read} lines read, {unread} not"), 1500));
  ctx.input("reconnects", &format!("{n}, twice"));
  ctx.nontrivial = true;
  ctx.label_if(!fails.is_empty(), "attempts in vain");
  let (w, logs) = (world(), new_logs());
  let script: RefCell<std::collections::VecDeque<Attempt>> = Default::default();
  // connections which only the client can end
  let ours: RefCell<Vec<usize>> = Default::default();
  sim(&w, LIMIT, against(&w, &config, logs.clone(), |i| {
    let a = script.borrow_mut().pop_front().unwrap_or(Attempt::Good);
    let mut said = vec![];
    for k in 0..read + unread {
      said.extend(format!("PING :{i}-{k}\r\n").bytes());
    }
    let s = a.steps(i, &said);
    if !s.iter().any(|s| matches!(s, Step::Drop | Step::Notify)) {
      ours.borrow_mut().push(i);
    }
    s
  }, async {
    let backoff = Backoff { max_tries: None, initial_delay: Duration::from_millis(50), delay_multiplier: 2, max_delay: Duration::from_secs(1) };
    let mut c = Counted(Client::builder().credentials(tmi::Credentials::new("somebot", "secret")).backoff(backoff).connect()).await.map_err(|e| format!("connecting to a proper server fails: {e:?}"))?;
    let mut held = [0i64; 2];
    for half in 0..2 {
      for i in half * n..(half + 1) * n {
        for a in &uses {
          act(&mut c, a, i).await?;
        }
        for _ in 0..read {
          let _ = Counted(c.recv()).await;
        }
        script.borrow_mut().clear();
        w.clear_plans();
        for a in &fails {
          a.plan(&w, 0);
          if a.connects() {
            script.borrow_mut().push_back(a.clone());
          }
        }
        if cancel {
          let _ = tokio::time::timeout(Duration::from_millis(20), Counted(c.reconnect())).await;
        }
        let mut tries = 0;
        while Counted(c.reconnect()).await.is_err() {
          tries += 1;
          ensure!(tries < 20, "reconnecting to a proper server fails again and again");
        }
        tokio::time::sleep(Duration::from_millis(1)).await;
        let logs = logs.borrow();
        let open: Vec<usize> = ours.borrow().iter().copied().filter(|i| i + 1 < logs.len() && logs[*i].borrow().eof.is_none()).collect();
        ensure!(open.is_empty(), "after reconnect {i}, the client still holds connection {open:?} besides its new one, {}", logs.len() - 1);
      }
      held[half] = alloc::live();
    }
    let grown = held[1] - held[0];
    ensure!(grown < 64 * n as i64, "after {n} reconnects the client holds {} bytes, after {n} more {} bytes", held[0], held[1]);
    Ok::<(), String>(())
  }))?
}

/// Clients come and go.
pub fn clients(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let n = 4;
  let first = match g.chance(1, 3) {
    true => failing(g),
    false => Attempt::Good,
  };
  let acts: Vec<Do> = acts(g, 4).into_iter().filter(|a| !matches!(a, Do::Recv(_))).collect();
  let tls12 = g.bool();
  let anonymous = g.bool();
  ctx.input("client", &crate::engine::clip(&format!("{first:?} {acts:?}{}", if anonymous { ", anonymous" } else { "" }), 1500));
  ctx.nontrivial = true;
  let one = |i: usize| -> CaseResult {
    let config = server_config(0, tls12);
    let (w, logs) = (world(), new_logs());
    first.plan(&w, 0);
    sim(&w, LIMIT, against(&w, &config, logs.clone(), |_| first.steps(0, &[]), async {
      let c = match anonymous {
        true => Client::anonymous().await,
        false => Client::builder().credentials(tmi::Credentials::new(format!("bot{i}"), format!("secret{i}"))).connect().await,
      };
      if let Ok(mut c) = c {
        for a in &acts {
          act(&mut c, a, i).await?;
        }
      }
      tokio::time::sleep(Duration::from_millis(1)).await;
      let open = logs.borrow().iter().any(|l| l.borrow().eof.is_none());
      ensure!(!open || first.steps(0, &[]).iter().any(|s| matches!(s, Step::Drop | Step::Notify)), "the client is gone, its connection is not");
      Ok::<(), String>(())
    }))?
  };
  let mut held = 0;
  for i in 0..2 * n {
    if i == n {
      held = alloc::live();
    }
    alloc::counted(|| one(i))?;
  }
  let kept = alloc::live() - held;
  ensure!(kept < 64 * n as i64, "{n} more clients leave {kept} bytes behind");
  Ok(())
}
