//! Sending, receiving and reconnecting: C23, C24, C25, C29, C32.
use super::sim::*;
use super::*;
use crate::engine::{CaseResult, Ctx};
use crate::props::raw::reference_unescape;
use tmi::client::read::RecvError;
use tmi::client::write::{SameMessageBypass, SendError};
use tmi::client::Backoff;
use tmi::{FromIrc, IrcMessage};

// ---------------------------------------------------------------- sends

#[derive(Clone, Debug)]
pub enum Cmd {
  /// set in that order or the other, possibly after something else was set
  Privmsg { channel: String, text: String, reply: Option<String>, nonce: Option<String>, setting: u8 },
  Ping(String),
  /// answers this line, possibly with an owned message
  Pong(String, bool),
  Join(String),
  JoinAll(Vec<String>, bool),
  Raw(String),
}

impl Cmd {
  pub async fn send(&self, c: &mut Client) -> Result<(), SendError> {
    match self {
      Cmd::Privmsg { channel, text, reply, nonce, setting } => {
        let mut p = c.privmsg(channel, text);
        if let (Some(r), true) = (reply, setting & 1 > 0) {
          p = p.reply_to(r);
        }
        if let Some(n) = nonce {
          if setting & 2 > 0 {
            p = p.client_nonce("not this one");
          }
          p = p.client_nonce(n);
        }
        if let (Some(r), true) = (reply, setting & 1 == 0) {
          if setting & 2 > 0 {
            p = p.reply_to("");
          }
          p = p.reply_to(r);
        }
        p.send().await
      }
      Cmd::Ping(n) => c.ping(n).await,
      Cmd::Pong(line, owned) => {
        let m = IrcMessage::parse(line).expect("a ping does not parse");
        let p = tmi::Ping::from_irc(m.as_ref()).expect("a ping is not taken as one");
        match owned {
          true => {
            let p = p.into_owned();
            drop(m);
            c.pong(&p).await
          }
          false => c.pong(&p).await,
        }
      }
      Cmd::Join(ch) => c.join(ch).await,
      Cmd::JoinAll(chs, lazy) => match lazy {
        false => c.join_all(chs).await,
        true => c.join_all(chs.iter().filter(|_| true).map(|s| s.as_str())).await,
      },
      Cmd::Raw(s) => c.send_raw(s.as_str()).await,
    }
  }

  /// Take the line of this command off the front of `got`.
  pub fn take<'a>(&self, got: &'a [u8]) -> Result<&'a [u8], String> {
    let hash = |c: &String| if c.starts_with('#') { c.clone() } else { format!("#{c}") };
    let mut rest = got;
    let line = match self {
      Cmd::Privmsg { channel, text, reply, nonce, .. } => {
        let want: Vec<(&str, &String)> = [("reply-parent-msg-id", reply), ("client-nonce", nonce)].iter().filter_map(|(k, v)| v.as_ref().map(|v| (*k, v))).collect();
        if !want.is_empty() {
          let end = got.iter().position(|b| *b == b' ').ok_or_else(|| format!("{self:?} sent {} which has no space after its tags", show(got)))?;
          let tags = std::str::from_utf8(&got[..end]).map_err(|_| format!("{self:?} sent {} whose tags are not text", show(got)))?;
          let bad = |what: &str| format!("{self:?} sent the tags {tags:?}: {what}");
          let body = tags.strip_prefix('@').ok_or_else(|| bad("not introduced by @"))?;
          ensure!(!body.contains(['\r', '\n', '\0']), "{}", bad("a control character inside"));
          let have: Vec<&str> = body.split(';').collect();
          ensure!(have.len() == want.len(), "{}", bad("not the tags that were set"));
          for (h, (k, v)) in have.iter().zip(&want) {
            let (hk, hv) = h.split_once('=').ok_or_else(|| bad("a tag without a value"))?;
            ensure!(hk == *k, "{}", bad("not the tags that were set, in order"));
            ensure!(reference_unescape(hv) == **v, "{}", bad(&format!("{hk} reads back as {:?} instead of {v:?}", reference_unescape(hv))));
          }
          rest = &got[end + 1..];
        }
        format!("PRIVMSG {channel} :{text}\r\n")
      }
      Cmd::Ping(n) => format!("PING :{n}\r\n"),
      Cmd::Pong(line, _) => {
        let m = IrcMessage::parse(line).unwrap();
        let p = tmi::Ping::from_irc(m.as_ref()).unwrap();
        match p.nonce() {
          Some(n) => format!("PONG :{n}\r\n"),
          None => "PONG\r\n".to_string(),
        }
      }
      Cmd::Join(c) => format!("JOIN {}\r\n", hash(c)),
      Cmd::JoinAll(cs, _) => format!("JOIN {}\r\n", cs.iter().map(hash).collect::<Vec<_>>().join(",")),
      Cmd::Raw(s) => s.clone(),
    };
    rest.strip_prefix(line.as_bytes()).ok_or_else(|| format!("{} should have sent {} but what arrived is {}", crate::engine::clip(&format!("{self:?}"), 300), show(line.as_bytes()), show(&got[..got.len().min(line.len() + 300)])))
  }
}

fn chan(g: &mut Gen) -> String {
  let c = gen::nonempty(g, 30, |c| gen::not_nl(c) && c != '\0');
  match g.weighted(&[4, 3, 1]) {
    0 => format!("#{c}"),
    1 => c,
    _ => g.pick(&["", "#", "##", "##a", " #a", "a#", "ä", "#ä"]).to_string(),
  }
}

fn tag_value(g: &mut Gen, plain: bool) -> String {
  match plain || g.chance(1, 3) {
    true => gen::ident(g),
    false => gen::text_of(g, 40, |c| c != '⸝' && c != '\0'),
  }
}

pub fn long_text(g: &mut Gen, max: usize) -> String {
  let n = match g.weighted(&[1, 2, 2]) {
    0 => g.range(0, max),
    1 => g.range(0, 20_000.min(max)),
    // around the sizes of buffers and records
    _ => (*g.pick(&[1024usize, 2048, 4096, 8192, 16384, 17408, 32768, 65536]) + g.below(160)).saturating_sub(120).min(max),
  };
  let a = gen::text_n(g, 40.min(n), |c| gen::not_nl(c) && c != '\0');
  let mut s = String::with_capacity(n);
  let salt = g.below(97);
  while s.len() < n {
    s.push((b'!' + ((s.len() * 7 + s.len() / 90 + salt) % 90) as u8) as char);
  }
  s.push_str(&a);
  s
}

pub fn raw_line(g: &mut Gen) -> String {
  match g.weighted(&[3, 2, 1]) {
    0 => format!("{}\r\n", gen::text_of(g, 100, |c| c != '\0')),
    1 => format!("PRIVMSG #a :{}\r\n", line_text(g)),
    _ => g.pick(&["\r\n", "\n\r\n", "\r\r\n", "A\r\nB\r\n", "\r\n\r\n", " \r\n"]).to_string(),
  }
}

/// Not ended by CR LF.
pub fn refused_line(g: &mut Gen) -> String {
  let t = gen::text_of(g, 60, |c| c != '\0');
  let s = match g.weighted(&[2, 2, 2, 1, 2, 1]) {
    0 => t,
    1 => format!("{t}\n"),
    2 => format!("{t}\r"),
    3 => String::new(),
    4 => format!("{t}\r\n "),
    _ => format!("{t}\n\r"),
  };
  match s.ends_with("\r\n") {
    true => format!("{s}x"),
    false => s,
  }
}

pub fn cmd(g: &mut Gen, plain: bool, max: usize) -> Cmd {
  let text = |g: &mut Gen| match max > 0 && g.chance(1, 6) {
    true => long_text(g, max),
    false => line_text(g),
  };
  match g.weighted(&[5, 2, 2, 2, 2, 2]) {
    0 => Cmd::Privmsg {
      channel: match g.chance(1, 4) {
        true => chan(g),
        false => format!("#{}", gen::ident(g)),
      },
      text: text(g),
      reply: g.chance(2, 5).then(|| tag_value(g, plain)),
      nonce: g.chance(2, 5).then(|| tag_value(g, plain)),
      setting: g.below(4) as u8,
    },
    1 => Cmd::Ping(text(g)),
    2 => {
      let line = match g.weighted(&[3, 1, 1, 1]) {
        0 => format!("PING :{}", text(g)),
        1 => "PING".to_string(),
        2 => format!(":tmi.twitch.tv PING :{}", text(g)),
        _ => format!("@a={} :tmi.twitch.tv PING tmi.twitch.tv :{}", gen::ident(g), text(g)),
      };
      Cmd::Pong(line, g.bool())
    }
    3 => Cmd::Join(chan(g)),
    4 => {
      let n = match max > 0 && g.chance(1, 8) {
        true => g.range(1, 400),
        false => g.range(1, 6),
      };
      Cmd::JoinAll((0..n).map(|_| chan(g)).collect(), g.bool())
    }
    _ => match max > 0 && g.chance(1, 4) {
      true => Cmd::Raw(format!("{}\r\n", long_text(g, max))),
      false => Cmd::Raw(raw_line(g)),
    },
  }
}

/// Something short, for long histories.
fn tiny(g: &mut Gen) -> Cmd {
  let word = |g: &mut Gen| format!("{}{}", g.pick(&["", "a", "hi", "tmi.twitch.tv", "w x"]), g.below(3));
  match g.weighted(&[4, 2, 1, 1, 1]) {
    0 => Cmd::Privmsg { channel: format!("#{}", g.pick(&["a", "b"])), text: word(g), reply: None, nonce: None, setting: 0 },
    1 => Cmd::Ping(word(g)),
    2 => Cmd::Pong(format!("PING :{}", word(g)), g.bool()),
    3 => Cmd::Join(word(g)),
    _ => Cmd::Raw(format!("{}\r\n", word(g))),
  }
}

/// The same things over and over again, too.
fn repeat<T: Clone>(g: &mut Gen, v: &mut Vec<T>) {
  if !v.is_empty() && g.chance(1, 3) {
    let at = g.below(v.len());
    let n = g.range(1, 3);
    for _ in 0..n {
      v.insert(at, v[at].clone());
    }
  }
}

// ---------------------------------------------------------------- C23

pub fn c23(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let n = g.range(1, 6);
  let mut ops: Vec<Result<Cmd, String>> = (0..n)
    .map(|_| match g.chance(1, 8) {
      true => Err(refused_line(g)),
      false => Ok(cmd(g, false, 30_000)),
    })
    .collect();
  repeat(g, &mut ops);
  let config = server_config(0, g.bool());
  for o in &ops {
    match o {
      Ok(c) => ctx.input("send", &format!("{c:?}")),
      Err(r) => ctx.input("refused", r),
    }
  }
  ctx.nontrivial = true;
  let (w, logs) = (world(), new_logs());
  sim(&w, LIMIT, against(&w, &config, logs.clone(), |_| welcome_steps(), async {
    let mut c = client().await?;
    for o in &ops {
      match o {
        Ok(o) => o.send(&mut c).await.map_err(|e| format!("{o:?} fails: {e:?}"))?,
        Err(r) => {
          let e = c.send_raw(r.as_str()).await;
          ensure!(matches!(e, Err(SendError::InvalidMessage(_))), "a raw message {r:?} is not refused as invalid: {e:?}");
        }
      }
    }
    Ok(())
  }))??;
  let logs = logs.borrow();
  let log = logs[0].borrow();
  let mut rest = log.got.strip_prefix(REQUEST).ok_or("the handshake is not what it should be")?;
  for o in ops.iter().flatten() {
    match o {
      Cmd::Privmsg { reply, nonce, .. } => ctx.label(if reply.is_some() || nonce.is_some() { "privmsg with tags" } else { "privmsg" }),
      Cmd::Ping(_) => ctx.label("ping"),
      Cmd::Pong(..) => ctx.label("pong"),
      Cmd::Join(_) => ctx.label("join"),
      Cmd::JoinAll(..) => ctx.label("join_all"),
      Cmd::Raw(_) => ctx.label("raw"),
    }
    rest = o.take(rest)?;
  }
  ensure!(rest.is_empty(), "more was sent than asked for: {}", show(rest));
  Ok(())
}

// ---------------------------------------------------------------- C24

#[derive(Clone, Debug)]
enum Act {
  Send(Cmd),
  Refuse(String),
  Abandon(Cmd),
  /// A privmsg that is put together and given up.
  Build(String, String, bool),
  Recv(usize),
  Wait(Duration),
}

/// Mostly seconds, at times hours: longer than anything that is counted in a client.
fn pause(g: &mut Gen, usual: usize) -> Duration {
  match g.weighted(&[9, 1, 1]) {
    0 => Duration::from_millis(g.range(1, usual) as u64),
    1 => Duration::from_secs(g.range(1, 1000) as u64),
    _ => Duration::from_secs(g.range(1000, 200_000) as u64),
  }
}

/// What a server says that might make a client do something of its own accord.
const TALK: &[&str] = &[
  "PING :tmi.twitch.tv", "PING", ":tmi.twitch.tv RECONNECT", ":tmi.twitch.tv NOTICE * :Login authentication failed", ":tmi.twitch.tv NOTICE #a :You are banned", ":tmi.twitch.tv 001 somebot :Welcome, GLHF!",
  ":tmi.twitch.tv PONG tmi.twitch.tv :x", ":somebot!somebot@somebot.tmi.twitch.tv JOIN #a", ":tmi.twitch.tv CAP * ACK :twitch.tv/tags", ":tmi.twitch.tv 421 somebot WHO :Unknown command", "@emote-only=0;room-id=1 :tmi.twitch.tv ROOMSTATE #a",
];

pub fn c24(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let n = g.range(1, 20);
  let mut budget = 400_000usize;
  let mut acts: Vec<Act> = (0..n)
    .map(|_| match g.weighted(&[10, 2, 2, 2, 2, 1]) {
      0 => {
        let c = cmd(g, true, budget.min(200_000));
        if let Cmd::Privmsg { text: t, .. } | Cmd::Ping(t) | Cmd::Pong(t, _) | Cmd::Raw(t) = &c {
          budget = budget.saturating_sub(t.len());
        }
        Act::Send(c)
      }
      1 => Act::Refuse(refused_line(g)),
      2 => Act::Abandon(cmd(g, true, 0)),
      3 => Act::Recv(g.range(1, 12)),
      4 => Act::Wait(pause(g, 4000)),
      _ => Act::Build(format!("#{}", gen::ident(g)), line_text(g), g.bool()),
    })
    .collect();
  if budget > 300_000 {
    // a long text is not to be sent again and again
    repeat(g, &mut acts);
  }
  let long = g.chance(1, 20);
  if long {
    let at = g.below(acts.len() + 1);
    let many: Vec<Act> = (0..*g.pick(&[30usize, 64, 100, 101, 128, 256, 300, 520])).map(|_| Act::Send(tiny(g))).collect();
    acts.splice(at..at, many);
  }
  let mut steps = welcome_steps();
  let mut slow = false;
  for k in 0..g.below(12) {
    match g.weighted(&[3, 4, 2, 1]) {
      0 => {
        slow = true;
        steps.push(Step::Stall(pause(g, 5000)));
      }
      1 => {
        slow = true;
        let m = *g.pick(&[1, 10, 100, 1000, 5000, 20000]);
        let m = g.range(1, m);
        for _ in 0..g.range(1, 10) {
          steps.push(Step::Read(m));
        }
      }
      2 => steps.push(Step::Say(match g.bool() {
        false => format!("PING :{k}\r\n").into_bytes(),
        true => format!("{}\r\n", g.pick(TALK)).into_bytes(),
      })),
      _ => {
        let line = format!("PRIVMSG #a :{}\r\n", long_text(g, 30_000)).into_bytes();
        let (r, p) = (sizes(g, line.len()), sizes(g, line.len()));
        steps.push(Step::SayIn(line, r, p))
      }
    }
  }
  let stalled: Duration = steps.iter().map(|s| if let Step::Stall(d) = s { *d } else { Duration::ZERO }).sum();
  let sndbuf = match g.weighted(&[2, 3]) {
    0 => 0,
    _ => *g.pick(&[1, 4000, 8000, 16000, 40000]),
  };
  let config = server_config(0, g.bool());
  for (i, a) in acts.iter().enumerate() {
    if i < 60 {
      ctx.input("client", &crate::engine::clip(&format!("{a:?}"), 300));
    }
  }
  ctx.label_if(long, "a long history");
  ctx.input("server", &crate::engine::clip(&format!("{:?}", &steps[3..]), 600));
  ctx.input("send buffer", &sndbuf.to_string());
  let quirks = acts.iter().any(|a| matches!(a, Act::Refuse(_) | Act::Abandon(_) | Act::Build(..)));
  ctx.nontrivial = slow || quirks;
  ctx.label_if(slow, "slow reader");
  ctx.label_if(sndbuf > 0, "small send buffer");
  ctx.label_if(quirks, "refused or abandoned sends");
  let (w, logs) = (world(), new_logs());
  w.plan(Plan::Accept(Link { sndbuf, ..Default::default() }));
  let blocked = std::cell::Cell::new(false);
  let mut expect = REQUEST.to_vec();
  sim(&w, LIMIT, against(&w, &config, logs.clone(), |_| steps.clone(), async {
    let mut c = client().await?;
    for a in &acts {
      match a {
        Act::Send(o) => {
          let t = w.now();
          o.send(&mut c).await.map_err(|e| format!("{} fails: {e:?}", crate::engine::clip(&format!("{o:?}"), 200)))?;
          if w.now() != t {
            blocked.set(true);
          }
          expect.extend(plain_line(o));
        }
        Act::Refuse(r) => {
          let e = c.send_raw(r.as_str()).await;
          ensure!(matches!(e, Err(SendError::InvalidMessage(_))), "a raw message {r:?} is not refused as invalid: {e:?}");
        }
        Act::Abandon(o) => drop(o.send(&mut c)),
        Act::Build(channel, text, tags) => {
          let m = c.privmsg(channel, text);
          if *tags {
            drop(m.reply_to("given-up").client_nonce("given-up"));
          }
        }
        Act::Recv(n) => {
          if let Some(r) = poll_n(c.recv(), *n).await {
            r.map_err(|e| format!("receiving fails: {e:?}"))?;
          }
        }
        Act::Wait(d) => tokio::time::sleep(*d).await,
      }
    }
    // everything must arrive by itself, without the user doing anything
    let log = logs.borrow()[0].clone();
    let end = w.now() + 2 * stalled + Duration::from_secs(3600);
    let mut nap = Duration::from_secs(1);
    while log.borrow().got.len() < expect.len() && w.now() < end {
      tokio::time::sleep(nap).await;
      nap = (nap * 2).min(Duration::from_secs(600));
    }
    compare(&log.borrow().got, &expect, "an hour after the server began to read")?;
    drop(c);
    Ok::<(), String>(())
  }))??;
  ctx.label_if(blocked.get(), "a send had to wait");
  let logs = logs.borrow();
  let log = logs[0].borrow();
  compare(&log.got, &expect, "in all")
}

/// So many operations on one connection that whatever counts them overflows.
fn marathon(g: &mut Gen) -> usize {
  *g.pick(&[1_030usize, 5_000, 33_000, 66_000]) + g.below(8)
}

pub fn c24_marathon(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let n = marathon(g);
  // not only small ones
  let wide = *g.pick(&[0usize, 0, 200, 1500]);
  let pattern: Vec<Cmd> = (0..g.range(1, 5))
    .map(|_| match g.chance(1, 4) {
      true => Cmd::Privmsg { channel: "#c".into(), text: "x".repeat(wide), reply: None, nonce: None, setting: 0 },
      false => tiny(g),
    })
    .collect();
  let every = *g.pick(&[0usize, 1, 7, 1000]);
  let config = server_config(0, g.bool());
  ctx.input("sends", &format!("{n} of {:?} in turn", pattern.iter().map(|c| crate::engine::clip(&format!("{c:?}"), 200)).collect::<Vec<_>>()));
  ctx.input("a refused one after every", &every.to_string());
  ctx.nontrivial = true;
  ctx.label("a marathon");
  let (w, logs) = (world(), new_logs());
  let mut expect = REQUEST.to_vec();
  sim(&w, LIMIT, against(&w, &config, logs.clone(), |_| welcome_steps(), async {
    let mut c = client().await?;
    for i in 0..n {
      let o = &pattern[i % pattern.len()];
      o.send(&mut c).await.map_err(|e| format!("send {i} fails: {e:?}"))?;
      expect.extend(plain_line(o));
      if every > 0 && i % every == 0 {
        let e = c.send_raw("no line end").await;
        ensure!(matches!(e, Err(SendError::InvalidMessage(_))), "after send {i}, an unfinished raw message is not refused: {e:?}");
      }
    }
    let log = logs.borrow()[0].clone();
    tokio::time::sleep(Duration::from_secs(60)).await;
    let r = compare(&log.borrow().got, &expect, "a minute later");
    r
  }))?
}

/// The line of a command whose tag values need no escaping.
pub fn plain_line(c: &Cmd) -> Vec<u8> {
  let mut s = String::new();
  match c {
    Cmd::Privmsg { reply, nonce, channel, text, .. } => {
      match (reply, nonce) {
        (None, None) => {}
        (Some(r), None) => s.push_str(&format!("@reply-parent-msg-id={r} ")),
        (None, Some(n)) => s.push_str(&format!("@client-nonce={n} ")),
        (Some(r), Some(n)) => s.push_str(&format!("@reply-parent-msg-id={r};client-nonce={n} ")),
      }
      s.push_str(&format!("PRIVMSG {channel} :{text}\r\n"));
    }
    Cmd::Ping(n) => s = format!("PING :{n}\r\n"),
    Cmd::Pong(l, _) => {
      let args = l.strip_prefix("PING").or(l.split_once(" PING").map(|p| p.1)).unwrap_or_default();
      s = match args.split_once(" :") {
        Some((_, n)) => format!("PONG :{n}\r\n"),
        None => "PONG\r\n".into(),
      }
    }
    Cmd::Join(c) => s = format!("JOIN {}{c}\r\n", if c.starts_with('#') { "" } else { "#" }),
    Cmd::JoinAll(cs, _) => {
      s.push_str("JOIN ");
      for (i, c) in cs.iter().enumerate() {
        if i > 0 {
          s.push(',');
        }
        if !c.starts_with('#') {
          s.push('#');
        }
        s.push_str(c);
      }
      s.push_str("\r\n");
    }
    Cmd::Raw(r) => s = r.clone(),
  }
  s.into_bytes()
}

pub fn compare(got: &[u8], expect: &[u8], when: &str) -> CaseResult {
  if got == expect {
    return Ok(());
  }
  let at = got.iter().zip(expect).take_while(|(a, b)| a == b).count();
  let from = at.saturating_sub(40);
  Err(format!(
    "{when}, the server has {} bytes instead of {}; they differ at byte {at}: {} instead of {}",
    got.len(),
    expect.len(),
    show(&got[from..got.len().min(at + 60)]),
    show(&expect[from..expect.len().min(at + 60)])
  ))
}

// ---------------------------------------------------------------- C25

/// A line as the server may send it, without its end.
pub fn server_line(g: &mut Gen) -> Vec<u8> {
  match g.weighted(&[6, 3, 2, 1, 2, 1, 2, 2]) {
    7 => {
      // what is not seen, or trimmed, at the ends
      let odd = |g: &mut Gen| g.pick(&["", "", "\u{feff}", "\u{a0}", "\u{85}", "\u{2028}", "\0", "\t", "\u{b}", "\u{200b}", " ", "\u{e0000}", "\u{1}"]).to_string();
      format!("{}{}{}", odd(g), g.pick(&["PING :a", "@a=b PING", ":x!x@x PRIVMSG #a :b", ""]), odd(g)).into_bytes()
    }
    0 => format!("@id={};x={} :a!b@c PRIVMSG #{} :{}", gen::ident(g), gen::rawval(g), gen::ident(g), line_text(g)).into_bytes(),
    1 => gen::text_of(g, 60, |c| c != '\n').into_bytes(),
    2 => g.pick(&["", " ", "@", ":", "@a=b", ":x", "@a=b :x", "PING", "PING :a", "\r", "a\rb", " PING", ":x ", "@a=b ", "@a=b :x  PING", "RECONNECT", "@a=b  PING", "\u{feff}PING", "PING :a\r"]).as_bytes().to_vec(),
    3 => {
      // the latter ones are no messages: they have an empty command
      let start = *g.pick(&[":a!b@c PRIVMSG #a :", ":a!b@c PRIVMSG #a :", ":a!b@c PRIVMSG #a :", " ", ":a  ", "@a=b  ", "@", ":", ""]);
      if matches!(start, "@" | ":" | "") {
        // the tags, the prefix or the command is what is long
        let t: String = long_text(g, 100_000).chars().map(|c| if c == ' ' { '_' } else { c }).collect();
        let t = if start == "@" { format!("a={t}") } else { t };
        return format!("{start}{t} PING :b").into_bytes();
      }
      format!("{start}{}", long_text(g, 100_000)).into_bytes()
    }
    4 => {
      // not UTF-8
      let mut b = format!(":a!b@c PRIVMSG #a :{}", line_text(g)).into_bytes();
      let bad: &[&[u8]] = &[b"\xff", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xc0\x80", b"\xed\xa0\x80", b"\x80"];
      let at = match g.bool() {
        true => b.len(),
        false => g.below(b.len() + 1),
      };
      let x = *g.pick(bad);
      b.splice(at..at, x.iter().copied());
      b
    }
    5 => {
      // a multi-byte character at a generated place
      let n = g.below(40);
      format!("PRIVMSG #a :{}{}", "y".repeat(n), g.pick(&["é", "€", "😀", "\u{2800}"]).repeat(g.range(1, 30))).into_bytes()
    }
    _ => match g.bool() {
      true => g.pick(TALK).as_bytes().to_vec(),
      false => format!(":tmi.twitch.tv {} a :b", g.pick(&["353", "366", "421", "CAP", "NOTICE", "WHISPER", "FOO"])).into_bytes(),
    },
  }
}

/// What receiving that line must yield.
pub fn check_line(line: &[u8], got: &Result<IrcMessage, RecvError>) -> CaseResult {
  let describe = |r: &Result<IrcMessage, RecvError>| match r {
    Ok(m) => format!("message {}", show(m.raw().as_bytes())),
    Err(e) => crate::engine::clip(&format!("{e:?}"), 300),
  };
  let fail = || format!("the next line is {} but receiving yields {}", show(line), describe(got));
  match std::str::from_utf8(line) {
    Err(_) => match got {
      Err(e @ RecvError::Io(io)) if io.kind() == std::io::ErrorKind::InvalidData => {
        ensure!(!e.is_disconnect(), "the line {} is not UTF-8, which is reported as a disconnect", show(line));
        Ok(())
      }
      _ => Err(fail()),
    },
    Ok(text) => match (IrcMessage::parse(text), got) {
      (Some(want), Ok(m)) if m.raw() == want.raw() && m.raw() == text && format!("{m:?}") == format!("{want:?}") => Ok(()),
      (None, Err(e @ RecvError::Parse(s))) if s == text => {
        ensure!(!e.is_disconnect(), "the line {} does not parse, which is reported as a disconnect", show(line));
        Ok(())
      }
      _ => Err(fail()),
    },
  }
}

pub fn c25(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let n = g.range(1, 30);
  let mut lines: Vec<(Vec<u8>, bool)> = (0..n).map(|_| (server_line(g), g.chance(1, 4))).collect();
  repeat(g, &mut lines);
  let long = g.chance(1, 20);
  if long {
    let at = g.below(lines.len() + 1);
    // all alike, or numbered, or none of them a message
    let kind = g.below(4);
    let many: Vec<(Vec<u8>, bool)> = (0..*g.pick(&[50usize, 100, 129, 256, 513, 1030]))
      .map(|k| match kind {
        0 => ("PING".to_string().into_bytes(), true),
        1 => (g.pick(&[" ", "@a=b  x", ":x "]).as_bytes().to_vec(), false),
        2 => (b"\xff".to_vec(), k % 2 == 0),
        _ => (format!(":s!s@s PRIVMSG #c :{k}").into_bytes(), k % 3 == 0),
      })
      .collect();
    lines.splice(at..at, many);
  }
  let n = lines.len();
  let mut data = vec![];
  let mut want: Vec<Vec<u8>> = vec![];
  for (l, lf) in &lines {
    let mut whole = l.clone();
    if !lf {
      whole.push(b'\r');
    }
    want.push(strip_line(&whole).to_vec());
    data.extend(whole);
    data.push(b'\n');
  }
  let mut steps = welcome_steps();
  // possibly together with the welcome
  let glued = g.chance(1, 3);
  let mut cut = glued as usize;
  if glued {
    steps.pop();
    let mut all = format!("{CAP_ACK}{WELCOME}").into_bytes();
    let extra = g.below(data.len() + 1);
    all.extend(&data[..extra]);
    data.drain(..extra);
    let (r, p) = (sizes(g, all.len()), sizes(g, all.len()));
    steps.push(Step::SayIn(all, r, p));
  }
  for _ in 0..g.below(5) {
    if data.is_empty() {
      break;
    }
    let k = g.range(1, data.len());
    let (r, p) = (sizes(g, k), sizes(g, k));
    steps.push(Step::SayIn(data[..k].to_vec(), r, p));
    data.drain(..k);
    cut += 1;
    if g.bool() {
      steps.push(Step::Stall(pause(g, 3000)));
    }
  }
  if !data.is_empty() {
    let (r, p) = (sizes(g, data.len()), sizes(g, data.len()));
    cut += (r.0.len() + p.0.len() > 2 || r.0[0] != usize::MAX || p.0[0] != usize::MAX) as usize;
    steps.push(Step::SayIn(data, r, p));
  }
  steps.push(Step::Notify);
  // what happens before each receive: cancelled receives, sends
  let pokes: Vec<(usize, u64)> = (0..n + 1)
    .map(|_| match g.weighted(&[4, 3, 2, 1]) {
      0 => (0, 0),
      1 => (1, g.range(0, 8) as u64),
      2 => (2, pause(g, 2000).as_millis() as u64),
      _ => (3, 0),
    })
    .collect();
  let sends = pokes.iter().any(|p| p.0 == 3);
  if !sends && g.bool() {
    steps.push(Step::Drop);
  }
  let config = server_config(0, g.bool());
  for (l, lf) in lines.iter().take(60) {
    ctx.input(if *lf { "line, LF" } else { "line, CR LF" }, &show(l));
  }
  ctx.label_if(long, "a long history");
  ctx.input("server", &crate::engine::clip(&format!("{:?}", &steps[2..]), 800));
  ctx.input("before each receive", &format!("{pokes:?}"));
  ctx.nontrivial = cut > 1 || pokes.iter().any(|p| p.0 > 0);
  ctx.label_if(cut > 1, "fragmented");
  ctx.label_if(glued, "with the welcome");
  ctx.label_if(pokes.iter().any(|p| p.0 == 1 || p.0 == 2), "cancelled receives");
  ctx.label_if(lines.iter().any(|l| std::str::from_utf8(&l.0).is_err()), "not UTF-8");
  let (w, logs) = (world(), new_logs());
  sim(&w, LIMIT, against(&w, &config, logs, |_| steps.clone(), async {
    let mut c = client().await?;
    let mut cancelled = 0;
    for (i, (kind, arg)) in pokes.iter().enumerate() {
      let mut r = None;
      match kind {
        1 => r = poll_n(c.recv(), *arg as usize).await,
        2 => r = tokio::time::timeout(Duration::from_millis(*arg), c.recv()).await.ok(),
        3 => c.ping("x").await.map_err(|e| format!("sending fails: {e:?}"))?,
        _ => {}
      }
      cancelled += (r.is_none() && matches!(kind, 1 | 2)) as usize;
      let r = match r {
        Some(r) => r,
        None => c.recv().await,
      };
      match want.get(i) {
        Some(l) => check_line(l, &r).map_err(|e| format!("receive {i} of {n}, after {cancelled} cancelled: {e}"))?,
        None => ensure!(matches!(&r, Err(e @ RecvError::StreamClosed) if e.is_disconnect()), "after the last line and the server's close, receiving yields {r:?}"),
      }
    }
    Ok::<(), String>(())
  }))?
}

pub fn c25_marathon(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let n = marathon(g);
  let pattern: Vec<Vec<u8>> = (0..g.range(1, 5))
    .map(|_| match g.weighted(&[4, 1, 1, 1]) {
      0 => b":s!s@s PRIVMSG #c :%".to_vec(),
      1 => g.pick(TALK).as_bytes().to_vec(),
      2 => b"\xff".to_vec(),
      _ => g.pick(&[" ", "@a=b  x", ":x ", ""]).as_bytes().to_vec(),
    })
    .collect();
  let line = |i: usize| -> Vec<u8> {
    let mut l = pattern[i % pattern.len()].clone();
    if l.last() == Some(&b'%') {
      l.pop();
      l.extend(i.to_string().bytes());
    }
    l
  };
  let mut data = vec![];
  for i in 0..n {
    data.extend(line(i));
    data.extend(b"\r\n");
  }
  let send = *g.pick(&[0usize, 1, 100]);
  let config = server_config(0, g.bool());
  ctx.input("lines", &format!("{n} of {:?} in turn", pattern.iter().map(|l| show(l)).collect::<Vec<_>>()));
  ctx.input("a send after every", &send.to_string());
  ctx.nontrivial = true;
  ctx.label("a marathon");
  let mut steps = welcome_steps();
  let k = data.len() / 2;
  let rest = data.split_off(k);
  for d in [data, rest] {
    let (r, p) = (sizes(g, usize::MAX), sizes(g, usize::MAX));
    // not the small ones
    let big = |s: Sizes| if s.0.iter().any(|x| *x < 500) { Sizes::whole() } else { s };
    steps.push(Step::SayIn(d, big(r), big(p)));
  }
  let (w, logs) = (world(), new_logs());
  sim(&w, LIMIT, against(&w, &config, logs, |_| steps.clone(), async {
    let mut c = client().await?;
    for i in 0..n {
      let r = c.recv().await;
      check_line(&line(i), &r).map_err(|e| format!("receive {i} of {n}: {e}"))?;
      if send > 0 && i % send == 0 {
        c.ping("x").await.map_err(|e| format!("after receive {i}, sending fails: {e:?}"))?;
      }
    }
    let r = poll_n(c.recv(), 3).await;
    ensure!(r.is_none(), "after the last line, receiving yields {r:?}");
    Ok::<(), String>(())
  }))?
}

// ---------------------------------------------------------------- C29

/// Reconnecting again and again.
pub fn c29_marathon(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let n = *g.pick(&[6usize, 20, 70, 140, 260]) + g.below(4);
  // what is sent, read and left unread on each connection; one is special
  let kinds: Vec<(usize, usize, usize, bool)> = (0..g.range(1, 3)).map(|_| (g.below(3), g.below(3), g.below(3), g.bool())).collect();
  let config = server_config(0, g.bool());
  ctx.input("reconnects", &n.to_string());
  ctx.input("sent, read, unread, cancelled before", &format!("{kinds:?} in turn"));
  ctx.nontrivial = true;
  ctx.label("a marathon");
  let (w, logs) = (world(), new_logs());
  sim(&w, LIMIT, against(&w, &config, logs.clone(), |i| {
    let (_, read, unread, _) = kinds[i % kinds.len()];
    let mut s = welcome_steps();
    for k in 0..read + unread {
      s.push(Step::Say(format!("PING :{i}-{k}\r\n").into_bytes()));
    }
    s
  }, async {
    let mut c = Client::builder().credentials(tmi::Credentials::new("somebot", "secret")).backoff(tmi::client::Backoff { initial_delay: Duration::from_millis(50), ..Default::default() }).connect().await.map_err(|e| format!("connecting to a proper server fails: {e:?}"))?;
    for i in 0..=n {
      let conn = logs.borrow().len() - 1;
      ensure_eq!(conn, i, "connections after {i} reconnects");
      let (sent, read, _, _) = kinds[i % kinds.len()];
      for k in 0..sent {
        c.ping(&format!("{i}-{k}")).await.map_err(|e| format!("after {i} reconnects, sending fails: {e:?}"))?;
      }
      for k in 0..read {
        let m = c.recv().await.map_err(|e| format!("after {i} reconnects, receiving fails: {e:?}"))?;
        ensure_eq!(m.raw(), format!("PING :{i}-{k}"), "what is received after {i} reconnects");
      }
      if i < n {
        if kinds[(i + 1) % kinds.len()].3 {
          let r = tokio::time::timeout(Duration::from_millis(20), c.reconnect()).await;
          ensure!(r.is_err(), "reconnecting does not wait");
        }
        c.reconnect().await.map_err(|e| format!("reconnect {i} fails: {e:?}"))?;
      }
    }
    Ok::<(), String>(())
  }))??;
  for (i, log) in logs.borrow().iter().enumerate() {
    let mut want = REQUEST.to_vec();
    for k in 0..kinds[i % kinds.len()].0 {
      want.extend(format!("PING :{i}-{k}\r\n").bytes());
    }
    compare(&log.borrow().got, &want, &format!("connection {i}"))?;
  }
  Ok(())
}

#[derive(Clone, Debug)]
pub enum Attempt {
  Lookup(i32),
  Refuse(i32),
  /// the TLS handshake fails
  NoTls(u8),
  /// sending fails from the n-th call on
  SendFault(u64, i32),
  /// receiving fails after so many bytes
  RecvFault(u64, i32),
  /// closed after TLS, having read nothing or everything
  Close(bool, bool),
  Nak,
  AuthFailed,
  Odd,
  /// never answers, after saying so many bytes of a proper answer
  Silent(usize),
  Good,
}

fn attempt(g: &mut Gen) -> Attempt {
  match g.weighted(&[2, 2, 3, 5, 2, 2, 1, 1, 1, 2]) {
    0 => Attempt::Lookup(*g.pick(&[libc::EAI_AGAIN, libc::EAI_NONAME, libc::EAI_FAIL])),
    1 => Attempt::Refuse(*g.pick(&[libc::ECONNREFUSED, libc::ENETUNREACH, libc::EHOSTUNREACH, libc::ETIMEDOUT])),
    2 => Attempt::NoTls(g.below(4) as u8),
    3 => Attempt::SendFault(g.range(0, 6) as u64, *g.pick(&[libc::EPIPE, libc::ECONNRESET])),
    4 => Attempt::RecvFault(g.range(0, 2500) as u64, *g.pick(&[libc::ECONNRESET, libc::ETIMEDOUT])),
    5 => Attempt::Close(g.bool(), g.bool()),
    6 => Attempt::Nak,
    7 => Attempt::AuthFailed,
    8 => Attempt::Odd,
    _ => {
      let n = g.below(CAP_ACK.len() + WELCOME.len());
      Attempt::Silent(n)
    }
  }
}

impl Attempt {
  pub fn connects(&self) -> bool {
    !matches!(self, Attempt::Lookup(_) | Attempt::Refuse(_))
  }
  pub fn plan(&self, w: &World, sndbuf: i32) {
    let link = |f: &dyn Fn(&mut Link)| {
      let mut l = Link { sndbuf, ..Default::default() };
      f(&mut l);
      w.plan(Plan::Accept(l))
    };
    match self {
      Attempt::Lookup(e) => {
        w.dns(*e);
        return;
      }
      Attempt::Refuse(e) => w.plan(Plan::Refuse(*e)),
      Attempt::SendFault(n, e) => link(&|l| l.send_fault = Some((*n, *e))),
      Attempt::RecvFault(n, e) => link(&|l| l.recv_fault = Some((*n, *e))),
      _ => link(&|_| ()),
    }
    w.dns(0);
  }
  pub fn steps(&self, idx: usize, chatter: &[u8]) -> Vec<Step> {
    let replies = format!("{CAP_ACK}{WELCOME}");
    let mut v = vec![Step::Tls, Step::Lines(3)];
    match self {
      Attempt::NoTls(0) => return vec![Step::Drop],
      Attempt::NoTls(1) => return vec![Step::Read(1 << 16), Step::Drop],
      Attempt::NoTls(2) => return vec![Step::Junk(b"HTTP/1.1 400 Bad Request\r\n\r\n".to_vec()), Step::Drop],
      Attempt::NoTls(_) => return vec![Step::TlsPart(50), Step::Drop],
      Attempt::Close(read, orderly) => {
        if !read {
          v.pop();
        }
        if *orderly {
          v.push(Step::Notify);
        }
        v.push(Step::Drop);
      }
      Attempt::Nak => v.push(Step::Say(b":tmi.twitch.tv CAP * NAK :x\r\n".to_vec())),
      Attempt::AuthFailed => v.push(Step::Say(format!("{CAP_ACK}:tmi.twitch.tv NOTICE * :Login authentication failed\r\n").into_bytes())),
      Attempt::Odd => v.push(Step::Say(b"PING :x\r\n".to_vec())),
      Attempt::Silent(n) => v.push(Step::Say(replies.as_bytes()[..*n].to_vec())),
      _ => {
        let mut d = replies.into_bytes();
        d.extend(chatter);
        v.push(Step::Say(d));
      }
    }
    let _ = idx;
    v
  }
}

/// The lines connection `idx` says; `torn` of them the last is incomplete.
fn chatter(idx: usize, n: usize, torn: bool) -> Vec<u8> {
  let mut d = vec![];
  for j in 0..n {
    d.extend(format!(":s!s@s PRIVMSG #c :connection {idx} line {j}\r\n").into_bytes());
  }
  if torn {
    d.extend(format!(":s!s@s PRIVMSG #c :connection {idx} tor").into_bytes());
  }
  d
}

#[derive(Clone, Debug)]
enum Use {
  Recv,
  PeekRecv(usize),
  Send(Cmd),
  Refuse(String),
  Abandon(Cmd),
}

fn uses(g: &mut Gen, max: usize) -> Vec<Use> {
  (0..g.below(max + 1))
    .map(|_| match g.weighted(&[4, 2, 4, 1, 2]) {
      0 => Use::Recv,
      1 => Use::PeekRecv(g.range(1, 6)),
      2 => Use::Send(cmd(g, true, 3000)),
      3 => Use::Refuse(refused_line(g)),
      _ => Use::Abandon(cmd(g, true, 0)),
    })
    .collect()
}

#[derive(Clone, Debug)]
enum Cancel {
  No,
  Polls(usize),
  After(Duration),
}

#[derive(Clone, Debug)]
struct Round {
  attempts: Vec<Attempt>,
  cancel: Cancel,
  uses: Vec<Use>,
  lines: usize,
  torn: bool,
  /// the server ends the connection: not at all, orderly, or abruptly
  end: u8,
  /// receiving or sending on the connection fails from then on
  fault: bool,
  /// the server never reads again once it has said its lines, and the client
  /// sends more than fits
  wedged: bool,
}

pub fn c29(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let rounds: Vec<Round> = (0..g.range(2, 5))
    .map(|r| {
      let first = r == 0;
      let mut attempts: Vec<Attempt> = match first {
        true => vec![],
        false => (0..g.weighted(&[3, 3, 2, 1])).map(|_| attempt(g)).collect(),
      };
      if first || g.chance(3, 4) {
        attempts.push(Attempt::Good);
      }
      if attempts.is_empty() {
        attempts.push(Attempt::Lookup(libc::EAI_AGAIN));
      }
      let wedged = g.chance(1, 6);
      let mut uses = uses(g, 6);
      if wedged {
        let at = g.below(uses.len() + 1);
        uses.insert(at, Use::Send(Cmd::Raw(format!("{}\r\n", long_text(g, 300_000) + &"x".repeat(40_000)))));
      }
      Round {
        attempts,
        wedged,
        cancel: match first {
          true => Cancel::No,
          false => match g.weighted(&[4, 2, 2]) {
            0 => Cancel::No,
            1 => Cancel::Polls(g.range(1, 60)),
            _ => Cancel::After(Duration::from_millis(g.range(0, 12_000) as u64)),
          },
        },
        uses,
        lines: g.below(6),
        torn: g.bool(),
        end: g.weighted(&[2, 1, 1]) as u8,
        fault: g.chance(1, 5),
      }
    })
    .chain(std::iter::once(Round { attempts: vec![Attempt::Good], cancel: Cancel::No, uses: vec![], lines: 3, torn: false, end: 0, fault: false, wedged: false }))
    .map(|mut r| {
      if r.uses.is_empty() {
        r.uses = vec![Use::Recv, Use::Send(Cmd::Ping("last".into())), Use::Recv];
      }
      r
    })
    .collect();
  let wedged = rounds.iter().any(|r| r.wedged);
  let sndbuf = if wedged || g.chance(1, 3) { 4000 } else { 0 };
  let config = server_config(0, g.bool());
  for r in &rounds {
    ctx.input("round", &crate::engine::clip(&format!("{r:?}"), 900));
  }
  let failing = rounds[1..].iter().any(|r| !matches!(r.cancel, Cancel::No) || r.attempts.len() > 1);
  ctx.nontrivial = failing || rounds.iter().any(|r| r.torn);
  ctx.label_if(rounds.iter().any(|r| !matches!(r.cancel, Cancel::No)), "cancelled reconnect");
  ctx.label_if(wedged, "the old server stops reading");
  ctx.label_if(rounds.iter().any(|r| r.attempts.iter().any(|a| matches!(a, Attempt::SendFault(..)))), "send fails during an attempt");
  ctx.label_if(rounds.iter().any(|r| r.attempts.iter().any(|a| matches!(a, Attempt::Silent(_)))), "attempt times out");
  // what each connection, in order of acceptance, does
  let w = world();
  let logs = new_logs();
  let script: std::cell::RefCell<std::collections::VecDeque<(Attempt, usize)>> = Default::default();
  let done: std::cell::Cell<usize> = Default::default();
  // per connection: whether it came up; what was, or may have been, sent on it
  let sent: std::cell::RefCell<Vec<(bool, Vec<(Vec<u8>, bool)>)>> = Default::default();
  let good = std::cell::Cell::new(0);
  let wedges: std::cell::RefCell<Vec<usize>> = Default::default();
  let max_tries = g.bool().then(|| g.range(1, 4) as u64);
  let backoff = Backoff { max_tries, initial_delay: Duration::from_millis(100), delay_multiplier: 2, max_delay: Duration::from_millis(400) };
  let credentials = match g.weighted(&[3, 2, 2]) {
    0 => Credentials::new("somebot", "secret"),
    1 => Credentials::new(gen::ident(g), gen::ident(g)),
    _ => Credentials::anon(),
  };
  let (login, token) = (credentials.login.clone(), credentials.token.clone());
  // an anonymous login differs from run to run
  ctx.input("client", &format!("{:?}, {max_tries:?} tries", token.as_ref().map(|t| (&login, t))));
  ctx.label_if(token.is_none(), "anonymous");
  // receiving from a connection that has failed is over
  let dead = std::cell::Cell::new(false);
  sim(&w, Duration::from_secs(3600), against(&w, &config, logs.clone(), |idx| {
    let (a, r) = script.borrow_mut().pop_front().unwrap_or((Attempt::Good, rounds.len()));
    let (lines, torn, end) = rounds.get(r).map(|r| (r.lines, r.torn, r.end)).unwrap_or((2, true, 0));
    let mut s = a.steps(idx, &chatter(idx, lines, torn));
    let stuck = rounds.get(r).is_some_and(|r| r.wedged);
    if matches!(a, Attempt::Good) && stuck {
      s.push(Step::Wedge);
      wedges.borrow_mut().push(idx);
    } else if matches!(a, Attempt::Good) {
      match end {
        1 => s.push(Step::Notify),
        2 => {
          s.push(Step::Stall(Duration::from_secs(3)));
          s.push(Step::Drop);
        }
        _ => {}
      }
    }
    s
  }, async {
    let mut c: Option<Client> = None;
    for (i, r) in rounds.iter().enumerate() {
      // the plan of this round replaces what an earlier one left over
      w.clear_plans();
      script.borrow_mut().clear();
      for a in &r.attempts {
        a.plan(&w, sndbuf);
        if a.connects() {
          script.borrow_mut().push_back((a.clone(), i));
        }
      }
      let before = logs.borrow().len();
      let up = match &mut c {
        None => {
          c = Some(Client::builder().credentials(credentials.clone()).backoff(backoff).connect().await.map_err(|e| format!("connecting to a proper server fails: {e:?}"))?);
          true
        }
        Some(c) => {
          let f = c.reconnect();
          let r = match r.cancel {
            Cancel::No => Some(f.await),
            Cancel::Polls(n) => poll_n(f, n).await,
            Cancel::After(d) => tokio::time::timeout(d, f).await.ok(),
          };
          matches!(r, Some(Ok(())))
        }
      };
      // let the server take note of what was accepted
      tokio::time::sleep(Duration::from_millis(1)).await;
      let conns = logs.borrow().len();
      sent.borrow_mut().resize(conns, (false, vec![]));
      let last = i + 1 == rounds.len();
      ensure!(up || !last, "a reconnect to a proper server fails");
      let c = c.as_mut().unwrap();
      if up {
        good.set(good.get() + 1);
        ensure!(conns > before, "harness: connected without a connection");
        sent.borrow_mut()[conns - 1].0 = true;
        dead.set(false);
      }
      let mut next = 0;
      if r.fault && up {
        w.fault_all(libc::ECONNRESET);
      }
      for u in &r.uses {
        let n = match u {
          Use::Recv => usize::MAX,
          Use::PeekRecv(n) => *n,
          Use::Send(o) => {
            let e = tokio::time::timeout(Duration::from_secs(20), o.send(c)).await;
            let ok = matches!(e, Ok(Ok(())));
            ensure!(ok || !last, "sending on a new connection fails: {e:?}");
            // after a failed reconnect it is not said which connection is used
            let from = if up { conns - 1 } else { 0 };
            for s in &mut sent.borrow_mut()[from..] {
              s.1.push((plain_line(o), up && ok));
            }
            if !matches!(e, Ok(Ok(()))) {
              break;
            }
            continue;
          }
          Use::Refuse(l) => {
            let _ = c.send_raw(l.as_str()).await;
            continue;
          }
          Use::Abandon(o) => {
            drop(o.send(c));
            continue;
          }
        };
        if dead.get() {
          continue;
        }
        let got = match n {
          usize::MAX => tokio::time::timeout(Duration::from_secs(10), c.recv()).await.ok(),
          n => poll_n(c.recv(), n).await,
        };
        match got {
          Some(Ok(m)) if up => {
            let want = format!(":s!s@s PRIVMSG #c :connection {} line {next}", conns - 1);
            let torn = format!(":s!s@s PRIVMSG #c :connection {} tor", conns - 1);
            ensure!(m.raw() == want || (next == r.lines && r.torn && r.end == 1 && m.raw() == torn), "after reconnect {i}, received {:?} instead of {want:?}", m.raw());
            next += 1;
          }
          Some(Err(e)) => {
            ensure!(!last, "receiving on a new connection fails: {e:?}");
            dead.set(true);
          }
          _ => ensure!(!last || next >= r.lines || n != usize::MAX, "the lines of a new connection are not received"),
        }
      }
    }
    done.set(logs.borrow().len());
    Ok::<(), String>(())
  }))??;
  ctx.label_if(good.get() > 2, "several successful reconnects");
  let logs = logs.borrow();
  // the one of the first connection, which is checked, for all
  let request: Vec<u8> = logs[0].borrow().got.split_inclusive(|b| *b == b'\n').take(3).flatten().copied().collect();
  super::handshake::check_request(&request, &login, token.as_deref())?;
  for (i, log) in logs.iter().enumerate() {
    let log = log.borrow();
    let (up, lines) = sent.borrow().get(i).cloned().unwrap_or_default();
    let wrong = || format!("connection {i}, which {}, received {}; expected one handshake and then {}", if up { "came up" } else { "did not come up" }, show(&log.got), crate::engine::clip(&format!("{:?}", lines.iter().map(|l| (String::from_utf8_lossy(&l.0), if l.1 { "sent" } else { "maybe" })).collect::<Vec<_>>()), 600));
    let Some(mut rest) = log.got.strip_prefix(&request[..]) else {
      ensure!(!up && request.starts_with(&log.got), "{}", wrong());
      continue;
    };
    let complete = i + 1 == logs.len();
    let stuck = wedges.borrow().contains(&i);
    for (l, sure) in &lines {
      if let Some(r) = rest.strip_prefix(&l[..]) {
        rest = r;
      } else if l.starts_with(rest) && !(complete && *sure) {
        rest = &[];
      } else if stuck && !sure {
        // part of it may have got through, and what follows is not the new session's
        rest = &[];
        break;
      } else {
        ensure!(!sure, "{}", wrong());
      }
    }
    ensure!(rest.is_empty(), "{}", wrong());
  }
  Ok(())
}

// ---------------------------------------------------------------- C32

pub fn c32(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let mut all: Vec<(SameMessageBypass, bool)> = vec![(SameMessageBypass::default(), false)];
  let mut suffix: Option<&'static str> = None;
  let mut last: Vec<Option<&'static str>> = vec![None];
  let mut calls = vec![0usize];
  let text = line_text(g);
  ctx.input("text", &text);
  let n = g.range(1, 60);
  for _ in 0..n {
    let i = g.below(all.len());
    // a long run of calls now and then
    let mut run = match g.chance(1, 25) {
      true => *g.pick(&[100usize, 254, 255, 256, 257, 512, 1000, 65535, 65536]) + g.below(3),
      false => 1,
    };
    match g.weighted(&[6, 1, 1]) {
      0 => while run > 0 {
        run -= 1;
        let (b, on) = &mut all[i];
        let s = b.get();
        match *on {
          false => ensure!(s.is_empty(), "call {} on bypass {i} gives {s:?} instead of nothing", calls[i]),
          true => {
            ensure!(!s.is_empty(), "call {} on bypass {i} gives nothing", calls[i]);
            ensure_eq!(s, *suffix.get_or_insert(s), "the suffix changes");
            ensure!(!s.contains(['\r', '\n', '\0']), "the suffix {s:?} contains a line break");
            ensure!(s.trim_end_matches(|c: char| c.is_ascii_whitespace()).len() == s.len(), "the suffix {s:?} ends in whitespace that is trimmed");
            ensure!(s.chars().all(|c| c.is_whitespace() || c == '\u{2800}' || !(c.is_alphanumeric() || c.is_ascii_graphic())), "the suffix {s:?} is visible");
          }
        }
        ensure!(last[i] != Some(s), "two suffixes in a row are equal, so two texts are: {:?}", format!("{text}{s}"));
        last[i] = Some(s);
        *on = !*on;
        calls[i] += 1;
        ctx.mix_hash(i as u64);
      },
      1 => {
        let c = all[i];
        all.push(c);
        last.push(last[i]);
        calls.push(calls[i]);
        ctx.mix_hash(1000 + i as u64);
      }
      _ => {
        all.push((SameMessageBypass::default(), false));
        last.push(None);
        calls.push(0);
        ctx.mix_hash(2000);
      }
    }
  }
  ctx.nontrivial = calls.iter().any(|c| *c > 1);
  ctx.label_if(all.len() > 1, "copies");
  Ok(())
}
