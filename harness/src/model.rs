//! Generated messages together with what the library must report about them.
//! Everything here is built from the generated parts, never by parsing.
use crate::engine::{CaseResult, Gen};
use crate::gen::{self, Wire};
use crate::tables;
use crate::view::{View, V};

#[derive(Clone, Debug, PartialEq)]
pub enum Mand {
  /// tag must be present
  Tag(&'static str),
  /// tag must be present and an unsigned number
  U64(&'static str),
  /// tag must be present and a representable millisecond timestamp
  Millis(&'static str),
  /// the prefix must name a nick
  Nick,
  Channel,
  /// the params must carry a text
  Text,
}

#[derive(Clone, Debug, Default)]
pub struct Gm {
  pub kind: &'static str,
  pub event: &'static str,
  pub wire: Wire,
  pub view: View,
  pub mandatory: Vec<Mand>,
  /// tags whose absence must not cause rejection
  pub optional: Vec<&'static str>,
  /// view entries (by prefix) about which nothing is specified here
  pub skip: Vec<&'static str>,
  pub labels: Vec<&'static str>,
}

impl Gm {
  fn tag(&mut self, k: &str, v: impl AsRef<str>) {
    self.wire.tags.push((k.to_string(), v.as_ref().to_string()));
  }
}

/// Compare the observed view with the expected one.
pub fn check_view(got: &View, gm: &Gm) -> CaseResult {
  let keep = |v: &View| -> Vec<(String, String)> { v.iter().filter(|(k, _)| !gm.skip.iter().any(|s| k == s || (s.ends_with('.') && k.starts_with(s)))).cloned().collect() };
  let (got, want) = (keep(got), keep(&gm.view));
  for i in 0..got.len().max(want.len()) {
    match (got.get(i), want.get(i)) {
      (Some(a), Some(b)) if a == b => {}
      (Some(a), Some(b)) if a.0 == b.0 => {
        return Err(format!("{} {}: got {}, expected {}", gm.kind, a.0, crate::engine::clip(&a.1, 300), crate::engine::clip(&b.1, 300)));
      }
      (a, b) => return Err(format!("{}: got {:?}, expected {:?}", gm.kind, a, b)),
    }
  }
  Ok(())
}

/// A badges/badge-info pair and the badges it stands for.
pub struct GBadges {
  pub badges: String,
  pub info: Option<String>,
  pub expect: Vec<String>,
  pub subscriber: bool,
}

pub fn word(g: &mut Gen) -> String {
  gen::nonempty(g, 12, gen::plain_char)
}

pub fn gen_badges(g: &mut Gen) -> GBadges {
  let n = match g.weighted(&[60, 60, 40, 20, 18, 1]) {
    0 => 1,
    1 => g.range(2, 3),
    2 => gen::count(g, 4, 8),
    3 => 0,
    4 => g.range(9, 40),
    _ => g.range(41, 270),
  };
  let mut list: Vec<(String, String)> = vec![];
  for _ in 0..n {
    let name = match g.weighted(&[3, 2, 3, 2, 1]) {
      0 => "subscriber".to_string(),
      1 => g.pick(&["staff", "turbo", "broadcaster", "moderator"]).to_string(),
      2 => g.pick(&["bits", "vip", "premium", "predictions", "founder", "no_audio", "sub-gifter", "partner", "glhf-pledge"]).to_string(),
      3 => word(g),
      _ => {
        let base = *g.pick(&["subscriber", "staff", "turbo", "broadcaster", "moderator"]);
        let s: String = gen::near_miss(g, base).chars().filter(|c| gen::plain_char(*c)).collect();
        if s.is_empty() {
          "s".into()
        } else {
          s
        }
      }
    };
    let version = if matches!(name.as_str(), "staff" | "turbo" | "broadcaster" | "moderator") {
      "1".to_string()
    } else {
      match g.weighted(&[3, 2]) {
        0 => gen::num(g).to_string(),
        _ if g.chance(1, 8) => gen::nonempty(g, 12, |c| gen::val_char(c) && c != ','),
        _ => word(g),
      }
    };
    list.push((name, version));
  }
  // badge-info
  let mut info: Vec<(String, String)> = vec![];
  let info_mode = g.weighted(&[5, 2, 2]);
  if info_mode == 0 {
    for (name, _) in &list {
      let special = matches!(name.as_str(), "staff" | "turbo" | "broadcaster" | "moderator");
      if special || info.iter().any(|(k, _)| k == name) {
        continue;
      }
      let p = if name == "subscriber" { 4 } else { 2 };
      if g.chance(p, 5) {
        let v = match g.weighted(&[5, 2, 1]) {
          0 => gen::num(g).to_string(),
          1 => word(g),
          _ => gen::text_of(g, 10, |c| gen::val_char(c) && c != ','),
        };
        // "+5" is no decimal number, but nothing is specified about it either
        let v = v.trim_start_matches('+').to_string();
        info.push((name.clone(), v));
      }
    }
    // badges that are not worn
    let others = match g.weighted(&[60, 40, 20, 3]) {
      3 => g.range(3, 150),
      n => n,
    };
    for i in 0..others {
      let name = match g.weighted(&[2, if i == 0 { 1 } else { 0 }]) {
        0 => word(g),
        _ => "subscriber".to_string(),
      };
      let worn = list.iter().any(|(k, _)| *k == name);
      let special = matches!(name.as_str(), "staff" | "turbo" | "broadcaster" | "moderator");
      if !worn && !special && !info.iter().any(|(k, _)| *k == name) {
        info.push((name, gen::num(g).to_string()));
      }
    }
    let p = g.permutation(info.len());
    info = p.iter().map(|i| info[*i].clone()).collect();
  }
  let join = |l: &[(String, String)]| l.iter().map(|(a, b)| format!("{a}/{b}")).collect::<Vec<_>>().join(",");
  let expect = list
    .iter()
    .map(|(name, version)| {
      let extra = info.iter().find(|(k, _)| k == name).map(|(_, v)| v.clone());
      match name.as_str() {
        "staff" | "turbo" | "broadcaster" | "moderator" => {
          let kind = match name.as_str() {
            "staff" => "Staff",
            "turbo" => "Turbo",
            "broadcaster" => "Broadcaster",
            _ => "Moderator",
          };
          format!("{kind}|{name:?},\"1\",None")
        }
        "subscriber" => {
          let months = extra.as_ref().map(|e| decimal(e).unwrap_or(1)).unwrap_or(1);
          let text = extra.unwrap_or("1".to_string());
          format!("Subscriber({version:?},{months})|\"subscriber\",{version:?},{:?}", Some(text))
        }
        _ => format!("Other({name:?},{version:?},{extra:?})|{name:?},{version:?},{extra:?}"),
      }
    })
    .collect();
  GBadges {
    badges: join(&list),
    info: if info_mode == 2 { None } else { Some(join(&info)) },
    subscriber: list.iter().any(|(k, _)| k == "subscriber"),
    expect,
  }
}

/// Decimal digits that fit u64.
pub fn decimal(s: &str) -> Option<u64> {
  if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
    return None;
  }
  s.parse().ok()
}

fn add_badges(g: &mut Gen, m: &mut Gm) -> Vec<String> {
  if g.chance(1, 12) {
    // neither tag
    m.labels.push("no badges tag");
    return vec![];
  }
  let b = gen_badges(g);
  m.tag("badges", &b.badges);
  match &b.info {
    Some(i) => m.tag("badge-info", i),
    None => m.labels.push("badge-info absent"),
  }
  if b.subscriber {
    m.labels.push("subscriber badge");
  }
  if b.expect.len() > 1 {
    m.labels.push("several badges");
  }
  b.expect
}

fn put_badges(v: &mut V, b: &[String]) {
  v.f("num_badges", b.len()).f("badges.len", b.len()).f("badges", b);
}

/// Optional tag whose empty value reads as absent.
fn nonempty_opt(g: &mut Gen, m: &mut Gm, key: &str) -> Option<String> {
  match g.weighted(&[3, 1, 1]) {
    0 => {
      let v = match g.weighted(&[2, 1]) {
        0 => format!("#{:06X}", g.upto(0xffffff)),
        _ => {
          let s = gen::rawval(g);
          if s.is_empty() {
            "v".into()
          } else {
            s
          }
        }
      };
      m.tag(key, &v);
      Some(v)
    }
    1 => {
      m.tag(key, "");
      None
    }
    _ => None,
  }
}

fn req(g: &mut Gen, m: &mut Gm, key: &'static str) -> String {
  let v = gen::rawval(g);
  m.tag(key, &v);
  m.mandatory.push(Mand::Tag(key));
  v
}

fn req_u64(g: &mut Gen, m: &mut Gm, key: &'static str) -> u64 {
  let v = gen::num(g);
  m.tag(key, digits(g, v));
  m.mandatory.push(Mand::U64(key));
  v
}

/// Mandatory tag reported unescaped. Returns (plain, raw).
fn req_escaped(g: &mut Gen, m: &mut Gm, key: &'static str) -> (String, String) {
  let (plain, wire) = gen::escaped(g);
  m.tag(key, &wire);
  m.mandatory.push(Mand::Tag(key));
  (plain, wire)
}

fn ts(g: &mut Gen, m: &mut Gm) -> (i64, u32) {
  let t = gen::millis(g);
  m.tag("tmi-sent-ts", digits(g, t));
  m.mandatory.push(Mand::Millis("tmi-sent-ts"));
  (t, 0)
}

fn chan(g: &mut Gen, m: &mut Gm) -> String {
  let c = gen::channel(g);
  m.wire.channel = Some(c.clone());
  m.mandatory.push(Mand::Channel);
  c
}

fn nick(g: &mut Gen, m: &mut Gm) -> String {
  let (p, n) = gen::user_prefix(g);
  m.wire.prefix = Some(p);
  m.mandatory.push(Mand::Nick);
  n
}

/// Text with optional /me framing: (what is sent, text, is_action)
pub fn chat(g: &mut Gen) -> (String, String, bool) {
  let t = gen::chat_text(g);
  match g.weighted(&[5, 3, 3]) {
    0 => {
      let sent = t.clone();
      let act = framed(&sent);
      match act {
        Some(x) => (sent.clone(), x, true),
        None => (sent, t, false),
      }
    }
    1 => (format!("\u{1}ACTION {t}\u{1}"), t, true),
    _ => {
      let sent = match g.below(13) {
        0 => format!("\u{1}ACTION {t}"),
        1 => format!("\u{1}ACTION{t}\u{1}"),
        2 => format!("ACTION {t}\u{1}"),
        3 => format!("\u{1}action {t}\u{1}"),
        4 => format!(" \u{1}ACTION {t}\u{1}"),
        5 => format!("\u{1}ACTION {t}\u{1} "),
        6 => "\u{1}ACTION \u{1}".to_string(),
        7 => "\u{1}ACTION \u{1}\u{1}".to_string(),
        8 => "\u{1}ACTION\u{1}".to_string(),
        9 => format!("\u{1}\u{1}ACTION {t}\u{1}"),
        10 => format!("\u{1}ACTION \u{1}ACTION {t}\u{1}\u{1}"),
        11 => format!("/me {t}"),
        _ => format!("\u{1}ACTION \u{1}{t}"),
      };
      match framed(&sent) {
        Some(x) => (sent, x, true),
        None => (sent.clone(), sent, false),
      }
    }
  }
}

/// The /me rule, written independently of the library.
pub fn framed(s: &str) -> Option<String> {
  let b = s.as_bytes();
  let head = b"\x01ACTION ";
  if b.len() > head.len() && b[..head.len()] == head[..] && b[b.len() - 1] == 1 {
    Some(String::from_utf8(b[head.len()..b.len() - 1].to_vec()).unwrap())
  } else {
    None
  }
}

/// A number as a server may write it: now and then with zeros before it.
pub fn digits(g: &mut Gen, n: impl std::fmt::Display + Into<i128>) -> String {
  let n: i128 = n.into();
  if !g.chance(1, 24) {
    return n.to_string();
  }
  format!("{}{:0width$}", if n < 0 { "-" } else { "" }, n.unsigned_abs(), width = g.range(1, 24))
}

/// The params that carry a text: after a colon, which a single word may lack.
fn text_params(g: &mut Gen, m: &mut Gm, text: &str) {
  m.wire.params = Some(trailing(g, text));
}

pub fn trailing(g: &mut Gen, text: &str) -> String {
  if !text.is_empty() && !text.starts_with('#') && !text.contains([' ', ':']) && g.bool() {
    text.to_string()
  } else {
    format!(":{text}")
  }
}

fn opt_tag(g: &mut Gen, m: &mut Gm, key: &'static str) -> Option<String> {
  if g.chance(1, 2) {
    let v = gen::rawval(g);
    m.tag(key, &v);
    Some(v)
  } else {
    None
  }
}

pub const KINDS: &[&str] = &["PRIVMSG", "USERNOTICE", "CLEARCHAT", "CLEARMSG", "ROOMSTATE", "USERSTATE", "GLOBALUSERSTATE", "WHISPER", "NOTICE", "JOIN", "PART", "PING", "PONG", "RECONNECT"];

/// A message of the given kind.
pub fn of_kind(g: &mut Gen, kind: &'static str) -> Gm {
  let mut m = Gm { kind, ..Default::default() };
  m.wire.command = kind.to_string();
  let mut v = V::new();
  v.f("variant", DisplayRaw(kind));
  match kind {
    "PRIVMSG" => privmsg(g, &mut m, &mut v),
    "USERNOTICE" => user_notice(g, &mut m, &mut v),
    "CLEARCHAT" => clear_chat(g, &mut m, &mut v),
    "CLEARMSG" => clear_msg(g, &mut m, &mut v),
    "ROOMSTATE" => room_state(g, &mut m, &mut v),
    "USERSTATE" => user_state(g, &mut m, &mut v),
    "GLOBALUSERSTATE" => global_user_state(g, &mut m, &mut v),
    "WHISPER" => whisper(g, &mut m, &mut v),
    "NOTICE" => notice(g, &mut m, &mut v),
    "JOIN" | "PART" => {
      let user = nick(g, &mut m);
      let c = chan(g, &mut m);
      v.f("channel", c).f("user", user);
    }
    "PING" | "PONG" => {
      m.wire.prefix = gen::host_prefix(g);
      let nonce = match g.weighted(&[3, 2, 1, 1]) {
        3 => {
          // `PONG tmi.twitch.tv :nonce`
          let n = gen::chat_text(g);
          let host = if g.bool() { "tmi.twitch.tv".to_string() } else { gen::nonempty(g, 20, |c| gen::word_char(c) && c != ':' && c != '#') };
          m.wire.params = Some(format!("{host} :{n}"));
          Some(n)
        }
        0 => {
          let n = gen::chat_text(g);
          m.wire.params = Some(format!(":{n}"));
          Some(n)
        }
        1 => None,
        _ => {
          let n = gen::nonempty(g, 20, |c| gen::word_char(c) && c != ':' && c != '#');
          m.wire.params = Some(n.clone());
          Some(n)
        }
      };
      v.f("nonce", nonce);
    }
    "RECONNECT" => {
      m.wire.prefix = gen::host_prefix(g);
    }
    _ => unreachable!(),
  }
  m.view = v.0;
  finish(g, &mut m);
  m
}

/// Tag order, and tags the typed message does not use, as Twitch sends them.
fn finish(g: &mut Gen, m: &mut Gm) {
  if g.chance(2, 3) {
    let p = g.permutation(m.wire.tags.len());
    m.wire.tags = p.iter().map(|i| m.wire.tags[*i].clone()).collect();
  }
  for _ in 0..g.weighted(&[4, 2, 1, 1]) {
    add_unrelated(g, m);
  }
}

/// Tags that mean something for a message of this kind (and event).
pub fn reads(kind: &str, event: &str) -> Vec<&'static str> {
  let mut v: Vec<&'static str> = match kind {
    "PRIVMSG" => vec!["room-id", "msg-id", "id", "user-id", "display-name", "badges", "badge-info", "color", "custom-reward-id", "bits", "emotes", "tmi-sent-ts"],
    "USERNOTICE" => vec!["user-id", "msg-id", "login", "display-name", "room-id", "system-msg", "badges", "badge-info", "emotes", "color", "id", "tmi-sent-ts"],
    "CLEARCHAT" => vec!["room-id", "ban-duration", "target-user-id", "tmi-sent-ts"],
    "CLEARMSG" => vec!["room-id", "login", "target-msg-id", "tmi-sent-ts"],
    "ROOMSTATE" => vec!["room-id", "emote-only", "followers-only", "r9k", "slow", "subs-only"],
    "USERSTATE" => vec!["display-name", "badges", "badge-info", "emote-sets", "color"],
    "GLOBALUSERSTATE" => vec!["user-id", "display-name", "badges", "badge-info", "emote-sets", "color"],
    "WHISPER" => vec!["user-id", "display-name", "color", "badges", "badge-info", "emotes"],
    "NOTICE" => vec!["msg-id"],
    _ => vec![],
  };
  if kind == "PRIVMSG" {
    v.extend(REPLY_TAGS);
    v.extend(PINNED_TAGS);
  }
  if kind == "USERNOTICE" {
    v.extend(match event {
      "sub" | "resub" => &["msg-param-cumulative-months", "msg-param-streak-months", "msg-param-sub-plan", "msg-param-sub-plan-name"][..],
      "raid" => &["msg-param-viewerCount", "msg-param-profileImageURL"],
      "subgift" | "anonsubgift" => &["msg-param-months", "msg-param-recipient-id", "msg-param-recipient-user-name", "msg-param-recipient-display-name", "msg-param-sub-plan", "msg-param-sub-plan-name", "msg-param-gift-months"],
      "submysterygift" | "anonsubmysterygift" => &["msg-param-mass-gift-count", "msg-param-sub-plan", "msg-param-sender-count"],
      "giftpaidupgrade" => &["msg-param-sender-login", "msg-param-sender-name", "msg-param-promo-gift-total", "msg-param-promo-name"],
      "anongiftpaidupgrade" => &["msg-param-promo-gift-total", "msg-param-promo-name"],
      "ritual" => &["msg-param-ritual-name"],
      "bitsbadgetier" => &["msg-param-threshold"],
      "announcement" => &["msg-param-color"],
      _ => &[],
    });
  }
  v
}

/// Insert a tag that means nothing to this message, anywhere.
pub fn add_unrelated(g: &mut Gen, m: &mut Gm) {
  let reads = reads(m.kind, m.event);
  let mut k = match g.weighted(&[3, 2]) {
    0 => gen::unrelated_key(g),
    _ => tables::TAGS[g.below(tables::TAGS.len())].1.to_string(),
  };
  while reads.contains(&k.as_str()) || m.wire.has(&k) {
    k.push('-');
  }
  let v = gen::rawval(g);
  let at = g.below(m.wire.tags.len() + 1);
  m.wire.tags.insert(at, (k, v));
}

/// Debug of this prints the text itself, as the "variant" entry of a view.
pub struct DisplayRaw(pub &'static str);
impl std::fmt::Debug for DisplayRaw {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    f.write_str(self.0)
  }
}

pub const REPLY_TAGS: &[&str] = &["reply-parent-msg-id", "reply-parent-user-id", "reply-parent-user-login", "reply-parent-display-name", "reply-parent-msg-body", "reply-thread-parent-msg-id", "reply-thread-parent-user-login"];
pub const PINNED_TAGS: &[&str] = &["pinned-chat-paid-amount", "pinned-chat-paid-currency", "pinned-chat-paid-exponent", "pinned-chat-paid-level", "pinned-chat-paid-is-system-message"];
pub const LEVELS: &[&str] = &["ONE", "TWO", "THREE", "FOUR", "FIVE", "SIX", "SEVEN", "EIGHT", "NINE", "TEN"];

fn privmsg(g: &mut Gen, m: &mut Gm, v: &mut V) {
  let login = nick(g, m);
  let channel = chan(g, m);
  let channel_id = req(g, m, "room-id");
  let id = req(g, m, "id");
  let msg_id = opt_tag(g, m, "msg-id");
  let user_id = req(g, m, "user-id");
  let (name, _) = req_escaped(g, m, "display-name");
  let (sent, text, act) = chat(g);
  text_params(g, m, &sent);
  m.mandatory.push(Mand::Text);
  let badges = add_badges(g, m);
  let color = nonempty_opt(g, m, "color");
  let reward = nonempty_opt(g, m, "custom-reward-id");
  let bits = match g.weighted(&[3, 3, 1]) {
    0 => None,
    1 => {
      let n = gen::num(g);
      m.tag("bits", digits(g, n));
      Some(n)
    }
    _ => {
      let s = gen::not_a_number(g);
      m.tag("bits", s);
      None
    }
  };
  let emotes = if g.chance(4, 5) {
    let e = gen::rawval(g);
    m.tag("emotes", &e);
    e
  } else {
    String::new()
  };
  let t = ts(g, m);
  v.f("channel", channel).f("channel_id", channel_id).f("id", id).f("msg_id", msg_id);
  v.nest("sender", |v| {
    v.f("id", user_id).f("login", login).f("name", name);
  });
  v.f("text", text).f("is_action", act);
  put_badges(v, &badges);
  v.f("color", color).f("custom_reward_id", reward).f("bits", bits).f("raw_emotes", emotes);
  v.f("timestamp", t);
  m.labels.push(if act { "action" } else { "plain" });

  // reply
  let mode = g.weighted(&[4, 4, 3]);
  if mode == 0 {
    v.f("reply_to", false);
  } else {
    let drop = if mode == 2 { 1 + g.upto(126) } else { 0 }; // non-empty set of missing tags, or none
    let mut plain = vec![];
    for (i, k) in REPLY_TAGS.iter().enumerate() {
      let (p, w) = if matches!(*k, "reply-parent-display-name" | "reply-parent-msg-body") {
        gen::escaped(g)
      } else {
        let s = gen::rawval(g);
        (s.clone(), s)
      };
      plain.push(p);
      if drop >> i & 1 == 0 {
        m.tag(k, w);
      }
    }
    v.f("reply_to", drop == 0);
    if drop == 0 {
      m.labels.push("reply");
      v.nest("reply_to", |v| {
        v.f("thread_parent_message_id", &plain[5]).f("thread_parent_user_login", &plain[6]).f("message_id", &plain[0]);
        v.nest("sender", |v| {
          v.f("id", &plain[1]).f("login", &plain[2]).f("name", &plain[3]);
        });
        v.f("text", &plain[4]);
      });
    } else {
      m.labels.push("incomplete reply");
    }
  }
  // Hype Chat
  let mode = g.weighted(&[4, 4, 4]);
  if mode == 0 {
    v.f("pinned_chat", false);
  } else {
    let (amount, exponent) = (gen::inum(g), gen::inum(g));
    let currency = gen::rawval(g);
    let level = *g.pick(LEVELS);
    let sys = g.bool();
    let mut vals = vec![amount.to_string(), currency.clone(), exponent.to_string(), level.to_string(), if sys { "1" } else { "0" }.to_string()];
    let mut present = [true; 5];
    if mode == 2 {
      if g.bool() {
        let drop = 1 + g.upto(30);
        for (i, p) in present.iter_mut().enumerate() {
          *p = drop >> i & 1 == 0;
        }
        m.labels.push("incomplete hype chat");
      } else {
        let i = *g.pick(&[0usize, 2, 3]);
        vals[i] = if i == 3 {
          bad_level(g)
        } else {
          match g.weighted(&[3, 1]) {
            0 => gen::not_a_number(g),
            _ => g.pick(&["9223372036854775808", "-9223372036854775809", "99999999999999999999999"]).to_string(),
          }
        };
        m.labels.push("invalid hype chat");
      }
    }
    for (i, k) in PINNED_TAGS.iter().enumerate() {
      if present[i] {
        m.tag(k, &vals[i]);
      }
    }
    // the canonical amount is a different tag that nothing reads
    if g.chance(1, 2) {
      let s = gen::inum(g).to_string();
      m.tag("pinned-chat-paid-canonical-amount", s);
    }
    v.f("pinned_chat", mode == 1);
    if mode == 1 {
      m.labels.push("hype chat");
      v.nest("pinned_chat", |v| {
        v.f("paid_amount", amount).f("paid_currency", currency).f("paid_exponent", exponent).f("paid_level", level).f("is_system_message", sys);
      });
    }
  }
  m.optional = vec!["msg-id", "badges", "badge-info", "color", "custom-reward-id", "bits", "emotes"];
  m.optional.extend(REPLY_TAGS);
  m.optional.extend(PINNED_TAGS);
}

/// A string that is not a level name.
pub fn bad_level(g: &mut Gen) -> String {
  let base = *g.pick(LEVELS);
  let s: String = match g.weighted(&[4, 1, 1]) {
    0 => gen::near_miss(g, base),
    1 => gen::rawval(g),
    _ => g.pick(&["ZERO", "ELEVEN", "1", "10", "", "one", "One", "TWELVE"]).to_string(),
  };
  let s: String = s.chars().filter(|c| gen::val_char(*c)).collect();
  if LEVELS.contains(&s.as_str()) {
    format!("{s}_")
  } else {
    s
  }
}

pub const EVENTS: &[&str] = &["sub", "resub", "raid", "subgift", "anonsubgift", "submysterygift", "anonsubmysterygift", "giftpaidupgrade", "anongiftpaidupgrade", "ritual", "bitsbadgetier", "announcement", "?"];
pub const ANON_GIFTER: &str = "274598607";

fn promo(g: &mut Gen, m: &mut Gm, v: &mut V) {
  // present exactly when total (a number) and name are
  let mode = g.weighted(&[3, 2, 1, 1, 1]);
  let total = gen::num(g);
  let (name, wire) = gen::escaped(g);
  match mode {
    0 => {
      m.tag("msg-param-promo-gift-total", digits(g, total));
      m.tag("msg-param-promo-name", &wire);
    }
    2 => m.tag("msg-param-promo-gift-total", digits(g, total)),
    3 => m.tag("msg-param-promo-name", &wire),
    4 => {
      let s = gen::not_a_number(g);
      m.tag("msg-param-promo-gift-total", s);
      m.tag("msg-param-promo-name", &wire);
    }
    _ => {}
  }
  m.optional.extend(["msg-param-promo-gift-total", "msg-param-promo-name"]);
  v.f("promotion", mode == 0);
  if mode == 0 {
    m.labels.push("promotion");
    v.f("promotion.total_gifts", total).f("promotion.promo_name", &name);
  }
}

fn user_notice(g: &mut Gen, m: &mut Gm, v: &mut V) {
  let which = *g.pick(EVENTS);
  user_notice_event(g, m, v, which)
}

pub fn notice_of(g: &mut Gen, which: &'static str) -> Gm {
  let mut m = Gm { kind: "USERNOTICE", ..Default::default() };
  m.wire.command = "USERNOTICE".into();
  let mut v = V::new();
  v.f("variant", DisplayRaw("USERNOTICE"));
  user_notice_event(g, &mut m, &mut v, which);
  m.view = v.0;
  finish(g, &mut m);
  m
}

fn user_notice_event(g: &mut Gen, m: &mut Gm, v: &mut V, which: &'static str) {
  m.event = which;
  m.wire.prefix = gen::host_prefix(g);
  let event_id = if which == "?" {
    let s = match g.weighted(&[2, 2, 1]) {
      0 => g.pick(&["rewardgift", "primepaidupgrade", "extendsub", "standardpayforward", "communitypayforward", "unraid", "sharedchatnotice", "viewermilestone", "charitydonation"]).to_string(),
      1 => {
        let b = EVENTS[g.below(EVENTS.len() - 1)];
        gen::near_miss(g, b)
      }
      _ => gen::rawval(g),
    };
    let s: String = s.chars().filter(|c| gen::val_char(*c)).collect();
    if EVENTS.contains(&s.as_str()) {
      format!("{s}_")
    } else {
      s
    }
  } else {
    which.to_string()
  };
  let channel = chan(g, m);
  let channel_id = req(g, m, "room-id");
  m.tag("msg-id", &event_id);
  m.mandatory.push(Mand::Tag("msg-id"));
  let message_id = req(g, m, "id");

  let gifter = matches!(which, "subgift" | "submysterygift" | "anonsubgift" | "anonsubmysterygift");
  // the account id elsewhere does not make an event anonymous
  let id = if g.chance(1, if gifter { 3 } else { 6 }) {
    ANON_GIFTER.to_string()
  } else if g.chance(1, 6) {
    gen::near_miss(g, ANON_GIFTER).chars().filter(|c| gen::val_char(*c)).collect()
  } else {
    gen::ident(g)
  };
  let anon = match which {
    "anonsubgift" | "anonsubmysterygift" | "anongiftpaidupgrade" => true,
    "subgift" | "submysterygift" => id == ANON_GIFTER,
    _ => false,
  };
  let sender = {
    let login = gen::rawval(g);
    let (name, wname) = gen::escaped(g);
    let hide = if anon && which != "subgift" && which != "submysterygift" { g.weighted(&[2, 1]) == 1 } else { false };
    if !hide {
      m.tag("user-id", &id);
      m.tag("login", &login);
      m.tag("display-name", &wname);
    }
    if !anon && which != "?" {
      m.mandatory.extend([Mand::Tag("user-id"), Mand::Tag("login"), Mand::Tag("display-name")]);
    } else {
      m.optional.extend(["login", "display-name"]);
      if which != "subgift" && which != "submysterygift" {
        m.optional.push("user-id");
      }
    }
    (id, login, name)
  };
  if which == "?" {
    m.skip = vec!["sender", "sender."];
  }
  m.labels.push(if anon { "anonymous" } else { "named" });
  // parameters of the event, as nested view
  let mut ev = V::new();
  ev.nest("event", |v| match which {
    "sub" | "resub" => {
      let months = req_u64(g, m, "msg-param-cumulative-months");
      let streak = match g.weighted(&[3, 1, 1, 1]) {
        0 => {
          let n = gen::num(g);
          m.tag("msg-param-streak-months", digits(g, n));
          if n == 0 {
            None
          } else {
            Some(n)
          }
        }
        1 => None,
        2 => {
          m.tag("msg-param-streak-months", "0");
          None
        }
        _ => {
          let s = gen::not_a_number(g);
          m.tag("msg-param-streak-months", s);
          None
        }
      };
      m.optional.push("msg-param-streak-months");
      let plan = plan(g, m);
      let (pn, _) = req_escaped(g, m, "msg-param-sub-plan-name");
      v.f("kind", "SubOrResub").f("is_resub", which == "resub").f("cumulative_months", months).f("streak_months", streak).f("sub_plan", plan).f("sub_plan_name", pn);
    }
    "raid" => {
      let n = req_u64(g, m, "msg-param-viewerCount");
      let url = req(g, m, "msg-param-profileImageURL");
      if g.bool() {
        let (a, b) = (gen::rawval(g), gen::rawval(g));
        m.tag("msg-param-displayName", a);
        m.tag("msg-param-login", b);
      }
      v.f("kind", "Raid").f("viewer_count", n).f("profile_image_url", url);
    }
    "subgift" | "anonsubgift" => {
      let months = req_u64(g, m, "msg-param-months");
      let rid = req(g, m, "msg-param-recipient-id");
      let rlogin = req(g, m, "msg-param-recipient-user-name");
      let (rname, _) = req_escaped(g, m, "msg-param-recipient-display-name");
      let plan = plan(g, m);
      let (pn, _) = req_escaped(g, m, "msg-param-sub-plan-name");
      let gifted = req_u64(g, m, "msg-param-gift-months");
      if g.bool() {
        let n = gen::num(g).to_string();
        m.tag("msg-param-sender-count", n);
      }
      v.f("kind", "SubGift").f("cumulative_months", months);
      v.nest("recipient", |v| {
        v.f("id", rid).f("login", rlogin).f("name", rname);
      });
      v.f("sub_plan", plan).f("sub_plan_name", pn).f("num_gifted_months", gifted);
    }
    "submysterygift" | "anonsubmysterygift" => {
      let count = req_u64(g, m, "msg-param-mass-gift-count");
      let plan_ = plan(g, m);
      if anon {
        if g.bool() {
          let n = gen::num(g).to_string();
          m.tag("msg-param-sender-count", n);
        }
        m.optional.push("msg-param-sender-count");
        v.f("kind", "AnonSubMysteryGift").f("count", count).f("sub_plan", plan_);
      } else {
        let total = req_u64(g, m, "msg-param-sender-count");
        v.f("kind", "SubMysteryGift").f("count", count).f("sender_total_gifts", total).f("sub_plan", plan_);
      }
    }
    "giftpaidupgrade" => {
      let login = req(g, m, "msg-param-sender-login");
      let (name, _) = req_escaped(g, m, "msg-param-sender-name");
      v.f("kind", "GiftPaidUpgrade").f("gifter_login", login).f("gifter_name", name);
      promo(g, m, v);
    }
    "anongiftpaidupgrade" => {
      v.f("kind", "AnonGiftPaidUpgrade");
      promo(g, m, v);
    }
    "ritual" => {
      let name = req(g, m, "msg-param-ritual-name");
      v.f("kind", "Ritual").f("name", name);
    }
    "bitsbadgetier" => {
      let t = req_u64(g, m, "msg-param-threshold");
      v.f("kind", "BitsBadgeTier").f("tier", t);
    }
    "announcement" => {
      let c = if g.chance(3, 4) {
        let c = match g.weighted(&[3, 1]) {
          0 => g.pick(&["PRIMARY", "BLUE", "GREEN", "ORANGE", "PURPLE"]).to_string(),
          _ => gen::rawval(g),
        };
        m.tag("msg-param-color", &c);
        c
      } else {
        "PRIMARY".to_string()
      };
      m.optional.push("msg-param-color");
      v.f("kind", "Announcement").f("highlight_color", c);
    }
    _ => {
      v.f("kind", "Unknown");
    }
  });
  let text = if g.chance(1, 2) {
    let t = chat(g).0;
    text_params(g, m, &t);
    Some(t)
  } else {
    None
  };
  let sys = if g.chance(2, 3) {
    let (plain, wire) = gen::escaped(g);
    let (plain, wire) = if g.chance(1, 8) { Default::default() } else { (plain, wire) };
    m.tag("system-msg", wire);
    if plain.is_empty() {
      m.labels.push("empty system message");
    }
    Some(plain).filter(|p| !p.is_empty())
  } else {
    None
  };
  let badges = add_badges(g, m);
  let emotes = if g.chance(4, 5) {
    let e = gen::rawval(g);
    m.tag("emotes", &e);
    e
  } else {
    String::new()
  };
  let color = nonempty_opt(g, m, "color");
  let t = ts(g, m);
  v.f("channel", channel).f("channel_id", channel_id).f("sender", !anon);
  if !anon {
    v.nest("sender", |v| {
      v.f("id", sender.0).f("login", sender.1).f("name", sender.2);
    });
  }
  v.f("text", text).f("system_message", sys);
  v.0.extend(ev.0);
  v.f("event_id", event_id);
  put_badges(v, &badges);
  v.f("raw_emotes", emotes).f("color", color).f("message_id", message_id).f("timestamp", t);
  m.optional.extend(["badges", "badge-info", "emotes", "color", "system-msg"]);
}

fn plan(g: &mut Gen, m: &mut Gm) -> String {
  let p = match g.weighted(&[3, 1]) {
    0 => g.pick(&["Prime", "1000", "2000", "3000"]).to_string(),
    _ => gen::rawval(g),
  };
  m.tag("msg-param-sub-plan", &p);
  m.mandatory.push(Mand::Tag("msg-param-sub-plan"));
  p
}

fn clear_chat(g: &mut Gen, m: &mut Gm, v: &mut V) {
  m.wire.prefix = gen::host_prefix(g);
  let channel = chan(g, m);
  let channel_id = req(g, m, "room-id");
  let mode = g.weighted(&[3, 3, 4]);
  v.f("channel", channel).f("channel_id", channel_id);
  if mode == 0 {
    v.f("target", None::<String>).f("kinds", (true, false, false));
    v.nest("action", |v| {
      v.f("kind", "clear");
    });
    m.labels.push("clear");
  } else {
    let target = gen::nick(g);
    let id = req(g, m, "target-user-id");
    text_params(g, m, &target);
    v.f("target", Some(&target)).f("kinds", (false, mode == 1, mode == 2));
    if mode == 1 {
      m.labels.push("ban");
      v.nest("action", |v| {
        v.f("kind", "ban").f("user", &target).f("id", &id);
      });
    } else {
      m.labels.push("timeout");
      let n = gen::num(g);
      m.tag("ban-duration", digits(g, n));
      v.nest("action", |v| {
        v.f("kind", "timeout").f("user", &target).f("id", &id).f("duration", std::time::Duration::from_secs(n));
      });
    }
  }
  let t = ts(g, m);
  v.f("timestamp", t);
}

fn clear_msg(g: &mut Gen, m: &mut Gm, v: &mut V) {
  m.wire.prefix = gen::host_prefix(g);
  let channel = chan(g, m);
  let channel_id = req(g, m, "room-id");
  let sender = req(g, m, "login");
  let id = req(g, m, "target-msg-id");
  let (sent, text, act) = chat(g);
  text_params(g, m, &sent);
  m.mandatory.push(Mand::Text);
  let t = ts(g, m);
  v.f("channel", channel).f("channel_id", channel_id).f("sender", sender).f("target_message_id", id).f("text", text).f("is_action", act).f("timestamp", t);
  m.labels.push(if act { "action" } else { "plain" });
}

fn flag(g: &mut Gen, m: &mut Gm, key: &'static str) -> Option<bool> {
  m.optional.push(key);
  if g.chance(1, 2) {
    let b = g.bool();
    m.tag(key, if b { "1" } else { "0" });
    Some(b)
  } else {
    None
  }
}

fn room_state(g: &mut Gen, m: &mut Gm, v: &mut V) {
  use tmi::FollowersOnly as F;
  m.wire.prefix = gen::host_prefix(g);
  let channel = chan(g, m);
  let channel_id = req(g, m, "room-id");
  let emote_only = flag(g, m, "emote-only");
  let followers = if g.chance(2, 3) {
    let n = gen::inum(g);
    let mut wire = digits(g, n);
    if n == 0 && g.chance(1, 4) {
      wire.insert(0, '-');
    }
    m.tag("followers-only", wire);
    Some(if n < 0 {
      F::Disabled
    } else if n == 0 {
      F::Enabled(None)
    } else {
      // minutes; in seconds this fits no less than u128, and is capped at what Duration can hold
      F::Enabled(Some(std::time::Duration::from_secs((n as u128 * 60).min(u64::MAX as u128) as u64)))
    })
  } else {
    None
  };
  m.optional.push("followers-only");
  let r9k = flag(g, m, "r9k");
  let slow = if g.chance(1, 2) {
    let n = gen::num(g);
    m.tag("slow", digits(g, n));
    Some(std::time::Duration::from_secs(n))
  } else {
    None
  };
  m.optional.push("slow");
  let subs_only = flag(g, m, "subs-only");
  if g.bool() {
    m.tag("rituals", "0");
  }
  v.f("channel", channel).f("channel_id", channel_id).f("emote_only", emote_only).f("followers_only", followers).f("r9k", r9k).f("slow", slow).f("subs_only", subs_only);
}

fn emote_sets(g: &mut Gen, m: &mut Gm) -> Vec<String> {
  m.optional.push("emote-sets");
  if g.chance(1, 6) {
    return vec![];
  }
  let n = gen::count(g, 1, 12).max(1);
  let l: Vec<String> = (0..n)
    .map(|_| match g.weighted(&[24, 8, (n > 1) as u32]) {
      0 => g.upto(1_000_000_000).to_string(),
      // but what is a list of nothing but an empty element?
      2 => String::new(),
      _ => gen::nonempty(g, 20, |c| gen::val_char(c) && c != ','),
    })
    .collect();
  m.tag("emote-sets", l.join(","));
  l
}

fn user_state(g: &mut Gen, m: &mut Gm, v: &mut V) {
  m.wire.prefix = gen::host_prefix(g);
  let channel = chan(g, m);
  let (name, _) = req_escaped(g, m, "display-name");
  let badges = add_badges(g, m);
  let sets = emote_sets(g, m);
  let color = nonempty_opt(g, m, "color");
  v.f("channel", channel).f("user_name", name);
  put_badges(v, &badges);
  v.f("num_emote_sets", sets.len()).f("emote_sets.len", sets.len()).f("emote_sets", &sets).f("color", color);
  m.optional.extend(["badges", "badge-info", "color"]);
}

fn global_user_state(g: &mut Gen, m: &mut Gm, v: &mut V) {
  m.wire.prefix = gen::host_prefix(g);
  let id = req(g, m, "user-id");
  let (name, _) = req_escaped(g, m, "display-name");
  let badges = add_badges(g, m);
  let sets = emote_sets(g, m);
  let color = nonempty_opt(g, m, "color");
  v.f("id", id).f("name", name);
  put_badges(v, &badges);
  v.f("num_emote_sets", sets.len()).f("emote_sets.len", sets.len()).f("emote_sets", &sets).f("color", color);
  m.optional.extend(["badges", "badge-info", "color"]);
}

fn whisper(g: &mut Gen, m: &mut Gm, v: &mut V) {
  let login = nick(g, m);
  let recipient = gen::nonempty(g, 20, |c| gen::word_char(c) && c != ':' && c != '#');
  let id = req(g, m, "user-id");
  let (name, _) = req_escaped(g, m, "display-name");
  let text = match g.weighted(&[3, 1]) {
    0 => gen::chat_text(g),
    _ => {
      let (a, b) = (gen::chat_text(g), gen::chat_text(g));
      format!("{a} :{b}")
    }
  };
  m.wire.params = Some(format!("{recipient} :{text}"));
  m.mandatory.push(Mand::Text);
  let badges = add_badges(g, m);
  let emotes = if g.chance(4, 5) {
    let e = gen::rawval(g);
    m.tag("emotes", &e);
    e
  } else {
    String::new()
  };
  let color = nonempty_opt(g, m, "color");
  v.f("recipient", recipient);
  v.nest("sender", |v| {
    v.f("id", id).f("login", login).f("name", name);
  });
  v.f("text", text);
  put_badges(v, &badges);
  v.f("raw_emotes", emotes).f("color", color);
  m.optional = vec!["badges", "badge-info", "emotes", "color"];
}

fn notice(g: &mut Gen, m: &mut Gm, v: &mut V) {
  m.wire.prefix = gen::host_prefix(g);
  let text = gen::chat_text(g);
  let channel = if g.chance(3, 4) {
    let c = gen::channel(g);
    m.wire.channel = Some(c.clone());
    text_params(g, m, &text);
    Some(c)
  } else {
    // to nobody, or to a user
    let to = match g.bool() {
      true => "*".to_string(),
      false => gen::nonempty(g, 25, |c| gen::word_char(c) && c != ':' && c != '#'),
    };
    m.wire.params = Some(format!("{to} :{text}"));
    None
  };
  let id = opt_tag(g, m, "msg-id");
  m.optional.push("msg-id");
  m.mandatory.push(Mand::Text);
  v.f("channel", channel).f("text", text).f("id", id);
}

/// Any typed message.
pub fn any(g: &mut Gen) -> Gm {
  let kind = KINDS[g.weighted(&[6, 8, 3, 2, 3, 2, 2, 3, 2, 1, 1, 1, 1, 1])];
  of_kind(g, kind)
}
