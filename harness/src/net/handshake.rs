//! Connecting: C26, C27, C30, C31.
use super::session::{check_line, server_line};
use super::sim::*;
use super::*;
use crate::engine::{CaseResult, Ctx};
use tmi::client::read::RecvError;
use tmi::client::{Backoff, ReconnectError};
use tmi::IrcMessage;

/// Longer than some buffer.
fn long(g: &mut Gen) -> usize {
  *g.pick(&[64usize, 128, 256, 512, 1024, 2048, 4096, 16384]) - g.below(80).min(20) + g.below(40)
}
fn login(g: &mut Gen) -> String {
  match g.weighted(&[36, 24, 3, 1]) {
    3 => "a".repeat(long(g)),
    0 => gen::ident(g),
    1 => gen::nonempty(g, 30, |c| gen::not_nl(c) && c != '\0'),
    _ => String::new(),
  }
}

fn token(g: &mut Gen) -> String {
  let t = match g.weighted(&[30, 15, 3, 3, 1]) {
    4 => "b".repeat(long(g)),
    0 => gen::ident(g),
    1 => gen::nonempty(g, 60, |c| gen::not_nl(c) && c != '\0'),
    2 => crate::dict::string(g).unwrap_or_default().chars().filter(|c| gen::not_nl(*c) && *c != '\0').collect(),
    _ => String::new(),
  };
  match g.weighted(&[3, 3, 3]) {
    0 => t,
    1 => format!("oauth:{t}"),
    _ => {
      let near = *g.pick(&["oauth", "OAuth:", "Oauth:", "oauth;", " oauth:", "auth:", "oaut", "oauth :", "xoauth:", "o", "oauth:oauth:"]);
      format!("{near}{t}")
    }
  }
}

/// What the three lines must be; None stands for a placeholder.
pub fn check_request(got: &[u8], login: &str, token: Option<&str>) -> CaseResult {
  let bad = |what: &str| format!("the request for login {login:?} and token {token:?} is {}: {what}", show(got));
  let text = std::str::from_utf8(got).map_err(|_| bad("not text"))?;
  let rest = text.strip_prefix("CAP REQ :").ok_or_else(|| bad("does not start with a capability request"))?;
  let (caps, rest) = rest.split_once("\r\n").ok_or_else(|| bad("no line end"))?;
  let mut caps: Vec<&str> = caps.split(' ').collect();
  caps.sort();
  ensure!(caps == ["twitch.tv/commands", "twitch.tv/membership", "twitch.tv/tags"], "{}", bad("not the three capabilities"));
  let rest = rest.strip_prefix("PASS oauth:").ok_or_else(|| bad("no PASS oauth: in the second line"))?;
  let rest = match token {
    Some(t) => {
      let t = t.strip_prefix("oauth:").unwrap_or(t);
      rest.strip_prefix(t).and_then(|r| r.strip_prefix("\r\n")).ok_or_else(|| bad("not the token"))?
    }
    None => {
      let (placeholder, rest) = rest.split_once("\r\n").ok_or_else(|| bad("no line end"))?;
      ensure!(!placeholder.is_empty(), "{}", bad("no placeholder token"));
      rest
    }
  };
  ensure!(rest == format!("NICK {login}\r\n"), "{}", bad("not NICK and the login, and nothing else"));
  Ok(())
}

// ---------------------------------------------------------------- C26

pub fn c26_request(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let login = login(g);
  let token = (!g.chance(1, 5)).then(|| token(g));
  let anon = token.is_none() && g.bool();
  let config = server_config(g.below(3), g.bool());
  let failing = g.below(4);
  let again = g.chance(1, 3);
  // what becomes of the attempts before the one that counts: of the lookup or all addresses
  let missed: Vec<u8> = match again {
    true => (0..g.below(4)).map(|_| g.below(3) as u8).collect(),
    false => vec![],
  };
  // none to spare, or more than enough
  let max_tries = match g.bool() {
    true => Some(missed.len() as u64 + 1),
    false => Some(8),
  };
  // nothing answers the first time
  let hopeless = g.chance(1, 10);
  let wait = Duration::from_millis(g.range(0, 3000) as u64);
  ctx.input("login", &login);
  ctx.input("token", &format!("{token:?}"));
  ctx.input("addresses that fail first", &format!("{failing}{} {missed:?}", if hopeless { ", all" } else { "" }));
  ctx.nontrivial = true;
  ctx.label(match &token {
    None => "no token",
    Some(t) if t.starts_with("oauth:") => "token with prefix",
    Some(_) => "token without prefix",
  });
  let (w, logs) = (world(), new_logs());
  w.addresses(failing + 1);
  for _ in 0..failing {
    w.plan(Plan::Refuse(libc::ECONNREFUSED));
  }
  let credentials = match (&token, anon) {
    (Some(t), _) => Credentials::new(&login, t),
    (None, true) => Credentials::anon(),
    (None, false) => Credentials { login: login.clone(), token: None },
  };
  let login = std::cell::RefCell::new(credentials.login.clone());
  // through Client::anonymous(), whose first wait after a loss is longer
  let short = anon && g.bool();
  // whatever is sent before the server says anything is the request
  let steps = vec![Step::Tls, Step::Lines(3), Step::Stall(wait), Step::Say(CAP_ACK.as_bytes().to_vec()), Step::Stall(Duration::from_millis(10)), Step::Say(WELCOME.as_bytes().to_vec())];
  sim(&w, LIMIT, against(&w, &config, logs.clone(), |_| steps.clone(), async {
    let b = Client::builder().credentials(credentials).backoff(Backoff { max_tries, initial_delay: Duration::from_millis(5), ..Default::default() });
    if hopeless {
      w.plan(Plan::Refuse(libc::ECONNREFUSED));
      let r = b.connect().await;
      ensure!(matches!(r, Err(ConnectError::Open(_))), "connecting to nobody yields {:?}", r.map(drop));
      return Ok(());
    }
    let r = match short {
      true => Client::anonymous().await,
      false => b.connect().await,
    };
    let mut c = r.map_err(|e| format!("connecting to a proper server fails: {e:?}"))?;
    if short {
      *login.borrow_mut() = c.credentials().login().to_string();
    }
    if again {
      w.clear_plans();
      for m in &missed {
        if *m == 0 {
          w.dns(libc::EAI_AGAIN);
          continue;
        }
        w.dns(0);
        for _ in 0..failing + 1 {
          w.plan(Plan::Refuse(if *m == 1 { libc::ECONNREFUSED } else { libc::ENETUNREACH }));
        }
      }
      c.reconnect().await.map_err(|e| format!("reconnecting to a proper server fails: {e:?}"))?;
    }
    Ok::<(), String>(())
  }))??;
  if hopeless {
    ctx.label("nothing answers");
    ensure!(logs.borrow().is_empty(), "harness: a connection was made");
    return check_destinations(&w);
  }
  ensure!(logs.borrow().len() == 1 + again as usize, "{} connections were made", logs.borrow().len());
  for log in logs.borrow().iter() {
    let log = log.borrow();
    check_request(&log.got, &login.borrow(), token.as_deref())?;
    ensure_eq!(log.sni.as_deref(), Some("irc.chat.twitch.tv"), "the name the TLS client asks for");
  }
  check_destinations(&w)?;
  let vain = missed.iter().filter(|m| **m > 0).count() * (failing + 1);
  ensure_eq!(w.connects().len(), failing + 1 + vain + again as usize, "addresses tried");
  Ok(())
}

fn check_destinations(w: &World) -> CaseResult {
  for (name, _) in w.lookups() {
    ensure_eq!(name, "irc.chat.twitch.tv", "the host looked up");
  }
  for (to, _) in w.connects() {
    let to = to.ok_or("connects to something that is no internet address")?;
    ensure!(to.port() == 6697 && to.ip().to_string().starts_with("192.0.2."), "connects to {to} instead of port 6697 of the addresses looked up");
  }
  Ok(())
}

pub fn c26_certs(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let cert = g.below(CERTS.len());
  let tls12 = g.bool();
  let (_, name, valid) = CERTS[cert];
  // the certificate is met on the first connection or on a reconnect
  let later = g.bool();
  let secret = format!("tok{}", gen::ident(g));
  ctx.input("certificate", name);
  ctx.input("on", if later { "a reconnect" } else { "the first connection" });
  ctx.input("token", &secret);
  ctx.input("TLS", if tls12 { "1.2" } else { "1.3" });
  ctx.nontrivial = true;
  ctx.label(if valid { "valid" } else { "invalid" });
  let config = server_config(cert, tls12);
  let good = server_config(0, tls12);
  let (w, logs) = (world(), new_logs());
  let tries = g.range(1, 3) as u64;
  let builder = || {
    Client::builder().credentials(Credentials::new("somebot", &secret)).backoff(Backoff { max_tries: Some(tries), initial_delay: Duration::from_millis(5), ..Default::default() })
  };
  let steps = welcome_steps();
  let each = |i: usize| if later && i == 0 { &good } else { &config };
  let outcome = sim(&w, LIMIT, against_each(&w, each, logs.clone(), |_| steps.clone(), async {
    match later {
      true => {
        let mut c = builder().connect().await.map_err(|e| format!("connecting to a proper server fails: {e:?}"))?;
        Ok::<_, String>(c.reconnect().await.map_err(|e| e.cause))
      }
      false => Ok(builder().connect().await.map(drop)),
    }
  }))??;
  let logs = logs.borrow();
  let seen = &logs[later as usize..];
  ensure!(!seen.is_empty(), "no connection was made");
  match valid {
    true => ensure!(outcome.is_ok(), "a server with a certificate that is {name} is turned down: {outcome:?}"),
    false => {
      ensure!(matches!(outcome, Err(ConnectError::Open(_))), "a server with a certificate that is {name} is not turned down: {outcome:?}");
      for l in seen {
        ensure!(l.borrow().got.is_empty(), "a server with a certificate that is {name} is told {}", show(&l.borrow().got));
      }
    }
  }
  check_destinations(&w)
}

// ---------------------------------------------------------------- C27

#[derive(Debug, Clone, PartialEq)]
enum Outcome {
  Up,
  Auth,
  Notice(String),
  Welcome(String),
  ReadParse(String),
  ReadUtf8,
  ReadOther,
}

fn junk_line(g: &mut Gen) -> (Vec<u8>, Outcome) {
  loop_line(g, |g| match g.weighted(&[2, 2]) {
    0 => server_line(g),
    _ => format!("{}{} {}", maybe_prefix(g), g.pick(&["PING", "421", "002", "RECONNECT", "GLOBALUSERSTATE", "PRIVMSG", "JOIN", "0010", "01", "100", "NOTICES", "CAPS", "cap", "notice", "FOO", "USERSTATE"]), gen::chat_text(g)).into_bytes(),
  })
}

fn loop_line(g: &mut Gen, f: impl Fn(&mut Gen) -> Vec<u8>) -> (Vec<u8>, Outcome) {
  let l = strip_line(&f(g)).to_vec();
  let o = match std::str::from_utf8(&l) {
    Err(_) => Outcome::ReadUtf8,
    Ok(t) => match IrcMessage::parse(t) {
      None => Outcome::ReadParse(t.to_string()),
      Some(_) => Outcome::Welcome(t.to_string()),
    },
  };
  (l, o)
}

fn maybe_prefix(g: &mut Gen) -> String {
  match g.weighted(&[4, 2, 1, 1]) {
    0 => ":tmi.twitch.tv ".to_string(),
    1 => String::new(),
    2 => format!("@a={} :tmi.twitch.tv ", gen::rawval(g)),
    _ => format!(":{} ", gen::ident(g)),
  }
}

/// The command of a line, by the grammar.
fn command(l: &str) -> &str {
  let mut r = l;
  if let Some(x) = r.strip_prefix('@') {
    r = x.split_once(' ').map(|p| p.1).unwrap_or("");
  }
  if let Some(x) = r.strip_prefix(':') {
    r = x.split_once(' ').map(|p| p.1).unwrap_or("");
  }
  r.split(' ').next().unwrap_or("")
}

fn first_reply(g: &mut Gen) -> (Vec<u8>, Outcome) {
  let p = maybe_prefix(g);
  match g.weighted(&[12, 2, 2, 2]) {
    0 => {
      let caps = *g.pick(&[":twitch.tv/commands twitch.tv/tags twitch.tv/membership", ":twitch.tv/membership twitch.tv/tags twitch.tv/commands", ":twitch.tv/tags", ":"]);
      (format!("{p}CAP * ACK {caps}").into_bytes(), Outcome::Up)
    }
    1 => {
      let caps = *g.pick(&[":twitch.tv/commands twitch.tv/tags", ":twitch.tv/commands twitch.tv/tags", ":* ACK", ":ACK", "ACK", ":no ACK twitch.tv/tags", ":", "* ACK :twitch.tv/tags"]);
      (format!("{p}CAP * {} {caps}", g.pick(&["NAK", "LS", "DEL", "NEW", "LIST", "nak"])).into_bytes(), Outcome::Auth)
    }
    2 => {
      // anything in place of the acknowledgement, be it the welcome or a notice
      let l = match g.below(3) {
        0 => format!("{p}001 somebot :Welcome, GLHF!"),
        1 => format!("{p}NOTICE * :Login authentication failed"),
        _ => format!("{p}NOTICE * :{}", gen::chat_text(g)),
      };
      (l.clone().into_bytes(), Outcome::Welcome(l))
    }
    _ => loop {
      let (l, o) = junk_line(g);
      if let Outcome::Welcome(t) = &o {
        if command(t) == "CAP" {
          continue;
        }
      }
      return (l, o);
    },
  }
}

fn second_reply(g: &mut Gen) -> (Vec<u8>, Outcome) {
  let p = maybe_prefix(g);
  match g.weighted(&[6, 4, 4, 2, 4]) {
    0 => (format!("{p}001 {} :{}", gen::ident(g), gen::chat_text(g)).into_bytes(), Outcome::Up),
    1 => {
      let t = *g.pick(&["Login authentication failed", "authentication failed", "Error: authentication failed.", "x authentication failed x"]);
      (format!("{p}NOTICE * :{t}").into_bytes(), Outcome::Auth)
    }
    2 => {
      let t = match g.weighted(&[2, 1, 1]) {
        2 => {
          // nearly
          let mut t: Vec<char> = "Login authentication failed".chars().collect();
          let at = g.range(6, t.len() - 1);
          match g.below(4) {
            0 => t[at] = if t[at] == ' ' { '\u{a0}' } else { t[at].to_ascii_uppercase() },
            1 => t.insert(at.max(7), *g.pick(&['x', ' ', '\u{200b}', '\0', '-'])),
            2 => drop(t.remove(at)),
            _ => t = t.iter().map(|c| if c.is_alphabetic() && g.bool() { c.to_ascii_uppercase() } else { *c }).collect(),
          }
          String::from_iter(t).replace("authentication failed", "x")
        }
        0 => g.pick(&["Login unsuccessful", "Improperly formatted auth", "authentication  failed", "authentication", "failed authentication", "Authentication failure", "authentication faile", "uthentication failed"]).to_string(),
        _ => gen::chat_text(g).replace("authentication failed", "x"),
      };
      let l = format!("{p}NOTICE * :{t}");
      (l.clone().into_bytes(), Outcome::Notice(l))
    }
    3 => {
      let l = match g.bool() {
        true => format!("{p}CAP * ACK :twitch.tv/tags"),
        false => format!("{p}PING :tmi.twitch.tv"),
      };
      (l.clone().into_bytes(), Outcome::Welcome(l))
    }
    _ => loop {
      let (l, o) = junk_line(g);
      if let Outcome::Welcome(t) = &o {
        if matches!(command(t), "001" | "NOTICE") {
          continue;
        }
      }
      return (l, o);
    },
  }
}

fn end_of(g: &mut Gen, l: &mut Vec<u8>) {
  l.extend(if g.chance(1, 5) { &b"\n"[..] } else { &b"\r\n"[..] });
}

fn matches_outcome(want: &Outcome, e: &ConnectError) -> bool {
  let same = |m: &IrcMessage, w: &String| m.raw() == w && IrcMessage::parse(w).is_some_and(|x| format!("{x:?}") == format!("{m:?}"));
  match (want, e) {
    (Outcome::Auth, ConnectError::Auth) => true,
    (Outcome::Notice(w), ConnectError::Notice(m)) | (Outcome::Welcome(w), ConnectError::Welcome(m)) => same(m, w),
    (Outcome::ReadParse(w), ConnectError::Read(RecvError::Parse(s))) => s == w,
    (Outcome::ReadUtf8, ConnectError::Read(RecvError::Io(e))) => e.kind() == std::io::ErrorKind::InvalidData,
    (Outcome::ReadOther, ConnectError::Read(_)) => true,
    _ => false,
  }
}

pub fn c27(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let mut bytes: Vec<u8> = vec![];
  let mut want = Outcome::Up;
  // 0: replies; 1, 2: closed before the first, the second reply; 3: in the middle of one
  let closing = g.weighted(&[8, 1, 1, 1]);
  if closing != 1 {
    let (mut l, o) = if closing == 0 { first_reply(g) } else { (CAP_ACK.trim_end().as_bytes().to_vec(), Outcome::Up) };
    end_of(g, &mut l);
    bytes.extend(l);
    want = o;
  }
  if closing == 0 {
    let (mut l, o) = second_reply(g);
    // the second answer is there in any case
    end_of(g, &mut l);
    bytes.extend(l);
    if want == Outcome::Up {
      want = o;
    }
  } else {
    want = Outcome::ReadOther;
  }
  let mut close: Vec<Step> = vec![];
  if closing == 3 {
    // an unfinished welcome; a broken connection, not an orderly end
    let n = g.below(WELCOME.len() - 2);
    bytes.extend(&WELCOME.as_bytes()[..n]);
  }
  if closing != 0 {
    close = match closing == 3 || g.bool() {
      true => vec![Step::Drop],
      false => vec![Step::Notify, Step::Drop],
    };
  }
  // what follows the welcome
  let mut after: Vec<Vec<u8>> = vec![];
  if want == Outcome::Up {
    for _ in 0..g.below(5) {
      let mut l = server_line(g);
      end_of(g, &mut l);
      after.push(strip_line(&l[..l.len() - 1]).to_vec());
      bytes.extend(l);
    }
  }
  let (r, p) = (sizes(g, bytes.len()), sizes(g, bytes.len()));
  let mut steps = vec![Step::Tls, Step::Lines(3), Step::SayIn(bytes.clone(), r, p)];
  steps.extend(close);
  let later = g.chance(1, 3);
  let config = server_config(0, g.bool());
  ctx.input("server", &crate::engine::clip(&format!("{:?}", &steps[2..]), 600));
  ctx.input("says", &show(&bytes));
  ctx.input("on", if later { "a reconnect" } else { "the first connection" });
  ctx.note(|| format!("expected: {want:?}"));
  ctx.nontrivial = true;
  ctx.label(match &want {
    Outcome::Up => "proper welcome",
    Outcome::Auth => "credentials refused",
    Outcome::Notice(_) => "other notice",
    Outcome::Welcome(_) => "unexpected message",
    Outcome::ReadParse(_) | Outcome::ReadUtf8 => "garbled",
    Outcome::ReadOther => "closed",
  });
  let (w, logs) = (world(), new_logs());
  sim(&w, LIMIT, against(&w, &config, logs, |i| if later && i == 0 { welcome_steps() } else { steps.clone() }, async {
    let b = Client::builder().credentials(Credentials::new("somebot", "secret")).backoff(Backoff { max_tries: Some(1), initial_delay: Duration::from_millis(1), ..Default::default() });
    let mut c;
    let r = if later {
      c = Some(b.connect().await.map_err(|e| format!("connecting to a proper server fails: {e:?}"))?);
      c.as_mut().unwrap().reconnect().await.map_err(|e| e.cause)
    } else {
      match b.connect().await {
        Ok(x) => {
          c = Some(x);
          Ok(())
        }
        Err(e) => {
          c = None;
          Err(e)
        }
      }
    };
    match (&want, r) {
      (Outcome::Up, Ok(())) => {}
      (Outcome::Up, Err(e)) => return Err(format!("a proper welcome ({}) is refused: {e:?}", show(&bytes))),
      (_, Ok(())) => return Err(format!("a server saying {} is taken for a proper welcome", show(&bytes))),
      (_, Err(e)) => {
        ensure!(matches_outcome(&want, &e), "a server saying {} is reported as {}: {e:?} instead of {want:?}", show(&bytes), variant(&e));
        return Ok(());
      }
    }
    let c = c.as_mut().unwrap();
    for l in &after {
      check_line(l, &c.recv().await).map_err(|e| format!("after the welcome, {e}"))?;
    }
    ensure!(tokio::time::timeout(Duration::from_secs(5), c.recv()).await.is_err(), "after the lines following the welcome, another one is received");
    Ok(())
  }))?
}

// ---------------------------------------------------------------- C30

pub mod capture {
  //! Everything traced on this thread.
  use std::cell::{Cell, RefCell};
  use std::fmt::{Debug, Write};
  use tracing::field::{Field, Visit};
  use tracing::span::{Attributes, Id, Record};
  use tracing::{Event, Metadata, Subscriber};

  thread_local! {
    static OUT: RefCell<Option<String>> = const { RefCell::new(None) };
    /// everything is rendered, and thrown away
    static SINK: Cell<bool> = const { Cell::new(false) };
  }
  struct Nowhere;
  impl Write for Nowhere {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
      Ok(())
    }
  }
  struct V;
  impl V {
    fn put(&mut self, f: &Field, v: std::fmt::Arguments) {
      if SINK.get() {
        let _ = Nowhere.write_fmt(v);
      }
      OUT.with(|o| {
        // rendering a value may itself trace
        if let Ok(mut o) = o.try_borrow_mut() {
          if let Some(o) = o.as_mut() {
            let _ = writeln!(o, "{}={}", f.name(), v);
          }
        }
      })
    }
  }
  impl Visit for V {
    fn record_debug(&mut self, f: &Field, v: &dyn Debug) {
      self.put(f, format_args!("{v:?} {v:#?}"))
    }
    fn record_str(&mut self, f: &Field, v: &str) {
      self.put(f, format_args!("{v}"))
    }
    fn record_error(&mut self, f: &Field, v: &(dyn std::error::Error + 'static)) {
      self.put(f, format_args!("{v} {v:?}"))
    }
  }
  struct All;
  impl Subscriber for All {
    fn enabled(&self, _: &Metadata<'_>) -> bool {
      SINK.get() || OUT.with(|o| o.try_borrow().is_ok_and(|o| o.is_some()))
    }
    fn register_callsite(&self, _: &'static Metadata<'static>) -> tracing::subscriber::Interest {
      tracing::subscriber::Interest::sometimes()
    }
    fn max_level_hint(&self) -> Option<tracing::level_filters::LevelFilter> {
      Some(tracing::level_filters::LevelFilter::TRACE)
    }
    fn new_span(&self, a: &Attributes<'_>) -> Id {
      a.record(&mut V);
      Id::from_u64(1)
    }
    fn record(&self, _: &Id, r: &Record<'_>) {
      r.record(&mut V)
    }
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn event(&self, e: &Event<'_>) {
      e.record(&mut V)
    }
    fn enter(&self, _: &Id) {}
    fn exit(&self, _: &Id) {}
  }
  pub fn install() {
    let _ = tracing::subscriber::set_global_default(All);
  }
  /// Until it is dropped, everything is traced.
  pub struct Logging;
  impl Logging {
    pub fn start() -> Logging {
      SINK.set(true);
      Logging
    }
  }
  impl Drop for Logging {
    fn drop(&mut self) {
      SINK.set(false);
    }
  }
  pub fn start() {
    OUT.with(|o| *o.borrow_mut() = Some(String::new()));
  }
  pub fn stop() -> String {
    OUT.with(|o| o.borrow_mut().take().unwrap_or_default())
  }
}

/// Forms in which a token could show up in a text.
fn shapes(token: &str) -> Vec<String> {
  let body = token.strip_prefix("oauth:").unwrap_or(token);
  let debug = format!("{body:?}");
  let bytes = format!("{:?}", body.as_bytes());
  let list: Vec<String> = body.as_bytes().iter().map(|b| b.to_string()).collect();
  let hex: String = body.as_bytes().iter().map(|b| format!("{b:02x}")).collect();
  let mut v = vec![
    body.to_string(),
    debug[1..debug.len() - 1].to_string(),
    bytes[1..bytes.len() - 1].to_string(),
    list.join(",\n"),
    hex.to_uppercase(),
    hex,
    body.chars().rev().collect(),
    body.escape_default().to_string(),
    body.escape_unicode().to_string(),
  ];
  // all of it but an end
  let cs: Vec<char> = body.chars().collect();
  if cs.len() < 10 {
    // its bytes may well occur by chance
    v.retain(|s| s.contains(&cs[0].escape_unicode().to_string()) || s.contains(cs[0]));
  }
  if cs.len() > 14 {
    for part in [&cs[..12], &cs[cs.len() - 12..]] {
      let hex = part.iter().filter(|c| c.is_ascii_hexdigit()).collect::<std::collections::BTreeSet<_>>();
      if hex.len() > 5 {
        v.push(part.iter().collect());
      }
    }
  }
  v
}

fn leak(text: &str, shapes: &[String]) -> Option<String> {
  shapes.iter().find_map(|s| text.find(s.as_str()).map(|i| crate::engine::clip(&text[text[..i].char_indices().rev().nth(60).map(|p| p.0).unwrap_or(0)..], 240)))
}

fn render(e: &(dyn std::error::Error + 'static)) -> String {
  let mut s = format!("{e} {e:?} {e:#?} {e:#}");
  let mut src = e.source();
  while let Some(x) = src {
    s.push_str(&format!(" {x} {x:?} {x:#?}"));
    src = x.source();
  }
  s
}

pub fn c30(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  // distinctive enough not to occur by chance
  let body = match g.weighted(&[3, 1, 1]) {
    0 => format!("{:016x}{:014x}", g.upto(u64::MAX), g.upto((1 << 56) - 1)),
    2 => (0..g.range(1, 6)).filter_map(|_| char::from_u32(0xf0000 + g.below(0xfffe) as u32)).collect(),
    _ => format!("{}{}", gen::nonempty(g, 30, |c| gen::not_nl(c) && c != '\0'), format_args!("{:016x}", g.upto(u64::MAX))),
  };
  let token = match g.weighted(&[2, 2]) {
    0 => body.clone(),
    _ => format!("oauth:{body}"),
  };
  let bad_port = g.range(0, 11);
  let second = g.chance(2, 3);
  let retry = g.range(0, 11);
  let mut sends: Vec<super::session::Cmd> = (0..g.below(4)).map(|_| super::session::cmd(g, false, 0)).collect();
  sends.truncate(3);
  let say = strip_line(&server_line(g)).to_vec();
  ctx.input("token", &token);
  ctx.input("first connection", &bad_port.to_string());
  ctx.input("reconnect", &format!("{second} {retry}"));
  ctx.nontrivial = true;
  let plan = |k: usize, say: &[u8]| -> (Option<Plan>, i32, Vec<Step>, usize) {
    let t = Step::Tls;
    let l = Step::Lines(3);
    let ack = CAP_ACK.as_bytes().to_vec();
    let with = |x: &[u8], cert: usize| {
      let mut s = vec![t.clone(), l.clone()];
      let mut d = x.to_vec();
      d.extend(say);
      d.extend(b"\r\n");
      s.push(Step::Say(d));
      (None, 0, s, cert)
    };
    match k {
      0..=2 => with(format!("{CAP_ACK}{WELCOME}").as_bytes(), 0),
      3 => with(format!("{CAP_ACK}:tmi.twitch.tv NOTICE * :Login authentication failed\r\n").as_bytes(), 0),
      4 => with(format!("{CAP_ACK}:tmi.twitch.tv NOTICE * :Login unsuccessful\r\n").as_bytes(), 0),
      5 => with(b"PING :x\r\n", 0),
      6 => with(b"CAP * NAK :x\r\n", 0),
      7 => (None, 0, vec![t.clone(), l.clone(), Step::Say(ack)], 0),
      8 => (None, 0, vec![t.clone(), l.clone(), Step::Drop], 0),
      9 => (None, libc::EAI_AGAIN, vec![], 0),
      10 => (Some(Plan::Accept(Link { send_fault: Some((3, libc::EPIPE)), ..Default::default() })), 0, vec![t.clone(), l.clone()], 0),
      _ => (None, 0, vec![t.clone(), Step::Drop], 0),
    }
  };
  ctx.label(match bad_port {
    0..=2 => "connected",
    3..=6 => "refused",
    7 => "timed out",
    _ => "failed",
  });
  let config = server_config(0, g.bool());
  let (w, logs) = (world(), new_logs());
  let outcomes = [plan(bad_port, &say), plan(retry, &say)];
  let forms = shapes(&token);
  let mut texts: Vec<(&'static str, String)> = vec![];
  capture::start();
  let r = sim(&w, LIMIT, against(&w, &config, logs.clone(), |i| outcomes[i.min(1)].2.clone(), async {
    let credentials = Credentials::new("somebot", &token);
    texts.push(("the debug rendering of the credentials", format!("{credentials:?} {credentials:#?}")));
    let arm = |o: &(Option<Plan>, i32, Vec<Step>, usize)| {
      w.clear_plans();
      w.dns(o.1);
      if let Some(p) = &o.0 {
        w.plan(p.clone());
      }
    };
    let first = if bad_port >= 3 && second { None } else { Some(()) };
    arm(&outcomes[0]);
    let b = Client::builder().credentials(credentials).backoff(Backoff { max_tries: Some(1), initial_delay: Duration::from_millis(1), ..Default::default() });
    let _ = first;
    let mut c = match b.connect().await {
      Ok(c) => c,
      Err(e) => {
        texts.push(("an error of connecting", render(&e)));
        texts.push(("an error of reconnecting", render(&ReconnectError::from(e))));
        return;
      }
    };
    texts.push(("the debug rendering of the configuration", format!("{:?} {:#?} {:?}", c.config(), c.config(), c.credentials())));
    for s in &sends {
      if let Err(e) = s.send(&mut c).await {
        texts.push(("an error of sending", render(&e)));
      }
    }
    match tokio::time::timeout(Duration::from_secs(1), c.recv()).await {
      Ok(Err(e)) => texts.push(("an error of receiving", render(&e))),
      Ok(Ok(m)) => texts.push(("a message", format!("{m:?}"))),
      _ => {}
    }
    if second {
      arm(&outcomes[1]);
      if let Err(e) = c.reconnect().await {
        texts.push(("an error of reconnecting", render(&e)));
        texts.push(("the cause of an error of reconnecting", render(&e.cause)));
      }
    }
  }));
  let traced = capture::stop();
  r?;
  if let Some(x) = leak(&traced, &forms) {
    return Err(format!("the token {token:?} is traced: {x:?}"));
  }
  ctx.label_if(!traced.is_empty(), "traced");
  for (what, t) in &texts {
    if let Some(x) = leak(t, &forms) {
      return Err(format!("the token {token:?} is in {what}: {x:?}"));
    }
  }
  for (i, log) in logs.borrow().iter().enumerate() {
    let log = log.borrow();
    for l in log.got.split(|b| *b == b'\n') {
      if !l.starts_with(b"PASS ") {
        if let Some(x) = leak(&String::from_utf8_lossy(l), &forms) {
          return Err(format!("the token {token:?} is in another line of connection {i}: {x:?}"));
        }
      }
    }
  }
  Ok(())
}

// ---------------------------------------------------------------- C31

fn check_anon(c: &Credentials) -> CaseResult {
  ensure!(c.token().is_none() && c.token.is_none(), "an anonymous credential has the token {:?}", c.token());
  ensure!(c.is_anon(), "an anonymous credential does not say so");
  ensure_eq!(c.login(), c.login.as_str(), "the login");
  let digits = c.login().strip_prefix("justinfan").ok_or_else(|| format!("the anonymous login {:?}", c.login()))?;
  ensure!(digits.len() == 5 && digits.bytes().all(|b| b.is_ascii_digit()), "the anonymous login {:?}", c.login());
  ensure!((10000..=99998).contains(&digits.parse::<u32>().unwrap()), "the anonymous login {:?}", c.login());
  Ok(())
}

pub fn c31(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let login = gen::text_of(g, 100, |_| true);
  let token = match g.bool() {
    true => token(g),
    false => gen::text_of(g, 100, |_| true),
  };
  ctx.input("login", &login);
  ctx.input("token", &token);
  ctx.nontrivial = true;
  let c = match g.below(3) {
    0 => Credentials::new(&login, &token),
    1 => Credentials::new(login.clone(), token.clone()),
    _ => Credentials::new(login.as_str(), token.as_str()),
  };
  for c in [&c, &c.clone()] {
    ensure_eq!(c.login(), login.as_str(), "the login of credentials");
    ensure_eq!(c.token(), Some(token.as_str()), "the token of credentials");
    ensure_eq!((&c.login, &c.token), (&login, &Some(token.clone())), "the fields of credentials");
    ensure!(!c.is_anon(), "credentials with a token are anonymous");
  }
  let n = g.range(1, 24);
  let many: Vec<Credentials> = (0..n)
    .map(|i| match i % 3 {
      0 => Credentials::anon(),
      1 => Credentials::default(),
      _ => tmi::client::Config::default().credentials,
    })
    .collect();
  for c in &many {
    check_anon(c)?;
  }
  // by chance, once in 10^20 cases
  ensure!(n < 5 || many.iter().any(|c| c.login != many[0].login), "{n} anonymous logins are all {:?}", many[0].login);
  Ok(())
}

pub fn c31_config(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let given = g.below(8);
  let decoys = if g.chance(1, 3) { g.below(8) } else { 0 };
  let (login, token) = (login(g), token(g));
  fn duration(g: &mut Gen) -> Duration {
    match g.weighted(&[4, 3, 1]) {
      0 => Duration::from_nanos(gen::num(g)),
      1 => Duration::new(gen::num(g), g.below(1_000_000_000) as u32),
      _ => Duration::MAX,
    }
  }
  let timeout = match g.bool() {
    true => Duration::from_millis(g.range(1, 100_000) as u64),
    false => duration(g).max(Duration::from_millis(1)),
  };
  let backoff = Backoff {
    max_tries: g.bool().then(|| gen::num(g)),
    initial_delay: duration(g),
    delay_multiplier: gen::num(g) as u32,
    max_delay: duration(g),
  };
  let order = g.permutation(3);
  let anonymous = given == 0 && g.bool();
  let again = g.bool();
  ctx.input("given", &format!("{given} {login:?} {token:?} {timeout:?} {backoff:?}"));
  ctx.input("given twice", &format!("{}", given & decoys));
  ctx.nontrivial = true;
  let config = server_config(0, g.bool());
  let used = std::cell::RefCell::new(String::new());
  let (w, logs) = (world(), new_logs());
  sim(&w, LIMIT, against(&w, &config, logs.clone(), |_| welcome_steps(), async {
    let mut b = Client::builder();
    for o in &order {
      // what is set again, is set
      if decoys >> *o & 1 > 0 && given >> *o & 1 > 0 {
        b = match o {
          0 => b.credentials(Credentials::new("former", "earlier")),
          1 => b.timeout(Duration::from_secs(7)),
          _ => b.backoff(Backoff { max_tries: Some(2), initial_delay: Duration::from_millis(1), delay_multiplier: 5, max_delay: Duration::from_secs(3) }),
        };
      }
      b = match o {
        0 if given & 1 > 0 => b.credentials(Credentials::new(&login, &token)),
        1 if given & 2 > 0 => b.timeout(timeout),
        2 if given & 4 > 0 => b.backoff(backoff),
        _ => b,
      };
    }
    let r = match anonymous {
      true => Client::anonymous().await,
      false => b.connect().await,
    };
    let mut c = r.map_err(|e| format!("connecting to a proper server fails: {e:?}"))?;
    let check = |c: &Client| {
      let d = tmi::client::Config::default();
      let have = c.config();
      match given & 1 > 0 {
        true => ensure_eq!((c.credentials().login(), c.credentials().token()), (login.as_str(), Some(token.as_str())), "the credentials of the client"),
        false => check_anon(c.credentials())?,
      }
      ensure_eq!((have.credentials.login(), have.credentials.token()), (c.credentials().login(), c.credentials().token()), "the credentials of the configuration");
      ensure_eq!(have.timeout, if given & 2 > 0 { timeout } else { d.timeout }, "the timeout of the client");
      let want = if given & 4 > 0 { backoff } else { d.backoff };
      ensure_eq!((have.backoff.max_tries, have.backoff.initial_delay, have.backoff.delay_multiplier, have.backoff.max_delay), (want.max_tries, want.initial_delay, want.delay_multiplier, want.max_delay), "the backoff of the client");
      Ok(())
    };
    check(&c)?;
    *used.borrow_mut() = c.credentials().login().to_string();
    if again {
      let _ = tokio::time::timeout(Duration::from_secs(60), c.reconnect()).await;
      check(&c)?;
    }
    Ok::<(), String>(())
  }))??;
  let (login, token) = match given & 1 > 0 {
    true => (login, Some(token.as_str())),
    false => (used.into_inner(), None),
  };
  for log in logs.borrow().iter() {
    let log = log.borrow();
    if !log.got.is_empty() {
      check_request(&log.got, &login, token)?;
    }
  }
  Ok(())
}
