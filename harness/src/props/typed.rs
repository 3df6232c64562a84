//! C08-C22 and C35: typed messages.
use super::{s, Prop};
use crate::engine::{clip, CaseResult, Ctx, Gen};
use crate::gen;
use crate::model::{self, Gm, Mand};
use crate::view::{self, View, V};
use serde::Deserialize;
use std::convert::TryFrom;
use tmi::{Badge, BadgeData, FromIrc, IrcMessage, IrcMessageRef, Message, PinnedChatLevel};

pub fn props() -> Vec<Prop> {
  vec![
    Prop {
      id: "C08",
      rule: "generated well-formed lines of every typed command, the same lines under another command (typed, known but untyped, numeric, near miss, arbitrary); every one of the 13 message types and the general parse is tried on each, from the string, the borrowed and the owned raw message. Non-trivial: every case (each is a well-formed line).",
      streams: vec![s("own", 4, c08_own), s("swapped", 4, c08_swapped), s("other", 4, c08_other)],
    },
    Prop {
      id: "C09",
      rule: "generated complete lines of every kind and event; in the accept stream any subset of the optional tags is removed, in the reject stream one mandatory element is removed or replaced by a non-number, an overflowing or negative number or an unrepresentable timestamp. Non-trivial: at least one tag was removed, or an element was broken.",
      streams: vec![s("accept", 4, c09_accept), s("reject", 6, c09_reject)],
    },
    Prop {
      id: "C10",
      rule: "PRIVMSG lines assembled from independently generated values (distinct per tag), shuffled tags, any subset of optional tags; every getter against the generated value. Non-trivial: every case.",
      streams: vec![s("privmsg", 1, c10)],
    },
    Prop {
      id: "C11",
      rule: "PRIVMSG lines with none, all or any proper subset of the 7 reply tags and the 5 Hype Chat tags, or all five with an invalid amount, exponent or level. Non-trivial: at least one of those tags is present.",
      streams: vec![s("privmsg", 1, c11)],
    },
    Prop {
      id: "C12",
      rule: "USERNOTICE lines of each of the 12 events and of unknown ones, with independently generated parameters. Non-trivial: every case.",
      streams: vec![s("events", 1, c12)],
    },
    Prop {
      id: "C13",
      rule: "USERNOTICE lines of each known event sent by a named account, the anonymous-gifter account, or an account with a similar id. Non-trivial: every case.",
      streams: vec![s("senders", 1, c13)],
    },
    Prop {
      id: "C14",
      rule: "CLEARCHAT (clear, ban, timeout of any length) and CLEARMSG lines. Non-trivial: every case.",
      streams: vec![s("clearchat", 1, c14_chat), s("clearmsg", 1, c14_msg)],
    },
    Prop {
      id: "C15",
      rule: "ROOMSTATE lines with every subset of the five settings and boundary values. Non-trivial: at least one setting present.",
      streams: vec![s("roomstate", 1, c15)],
    },
    Prop {
      id: "C16",
      rule: "USERSTATE and GLOBALUSERSTATE lines with escaped names, 0 to 12 emote sets and generated badges. Non-trivial: every case.",
      streams: vec![s("userstate", 1, c16_user), s("global", 1, c16_global)],
    },
    Prop {
      id: "C17",
      rule: "WHISPER, NOTICE, JOIN, PART, PING and PONG lines from generated parts. Non-trivial: every case.",
      streams: vec![s("whisper", 2, c17_whisper), s("notice", 2, c17_notice), s("joinpart", 1, c17_joinpart), s("pingpong", 1, c17_pingpong)],
    },
    Prop {
      id: "C18",
      rule: "badges/badge-info pairs (0 to 270 badges; badge-info absent, empty, shorter, reordered, with extras and non-numeric values) carried by each of the five badge-carrying types. Non-trivial: at least one badge is worn.",
      streams: vec![s("types", 6, c18_types), s("convert", 2, c18_convert)],
    },
    Prop {
      id: "C19",
      rule: "texts of any chars but line breaks and NUL, with exact, partial and look-alike /me framing, carried by PRIVMSG, CLEARMSG, USERNOTICE, WHISPER, NOTICE and read from the raw message too. Non-trivial: the text is non-empty.",
      streams: vec![s("text", 1, c19)],
    },
    Prop {
      id: "C20",
      rule: "a generated line, and the same line with its tags permuted and up to 12 (sometimes 200) unrelated tags inserted anywhere: look-alikes of known names, tags of other message kinds, Twitch's own unread tags. Non-trivial: tags were moved or inserted.",
      streams: vec![s("permute", 3, c20_permute), s("insert", 5, c20_insert), s("many", 1, c20_many)],
    },
    Prop {
      id: "C21",
      rule: "every message kind parsed from a buffer that is overwritten after into_owned(); the owned value, its clone and each nested part's owned form are compared with the original getter by getter. Non-trivial: the message has at least one text field.",
      streams: vec![s("messages", 1, c21)],
    },
    Prop {
      id: "C22",
      rule: "every message kind and its nested parts serialized to JSON and read back from the string, from a JSON value, with all object keys permuted, and with every char written as an escape. Non-trivial: the JSON has at least two keys.",
      streams: vec![s("messages", 1, c22), s("parts", 1, c22_parts)],
    },
    Prop {
      id: "C35",
      rule: "all ten levels, all 256 numbers (enumerated in every case), and names: exact, near misses, arbitrary. Non-trivial: the name is a level name or a near miss of one.",
      streams: vec![s("levels", 1, c35)],
    },
  ]
}

/// Run `$body` for each of the 13 message types: `$T` the type, `$name` its command.
macro_rules! for_types {
  (@ $name:ident $T:ident $view:ident $body:tt $(($n:literal $ty:ident $v:ident))*) => {{
    $( {
      const $name: &str = $n;
      use tmi::$ty as $T;
      #[allow(unused_imports)]
      use crate::view::$v as $view;
      #[allow(unused_braces)]
      {
        $body
      }
    } )*
  }};
  ($name:ident, $T:ident, $view:ident => $body:tt) => {
    for_types!(@ $name $T $view $body
      ("CLEARCHAT" ClearChat clear_chat) ("CLEARMSG" ClearMsg clear_msg) ("GLOBALUSERSTATE" GlobalUserState global_user_state)
      ("JOIN" Join join) ("NOTICE" Notice notice) ("PART" Part part) ("PING" Ping ping) ("PONG" Pong pong) ("PRIVMSG" Privmsg privmsg)
      ("ROOMSTATE" RoomState room_state) ("USERNOTICE" UserNotice user_notice) ("USERSTATE" UserState user_state) ("WHISPER" Whisper whisper))
  };
}

pub(super) fn labels(ctx: &mut Ctx, m: &Gm) {
  ctx.label(m.kind);
  if !m.event.is_empty() {
    ctx.label(if m.event == "?" { "unknown event" } else { m.event });
  }
  for l in &m.labels {
    ctx.label(l);
  }
}

fn parsed(line: &str) -> Result<View, String> {
  match Message::parse(line) {
    Ok(m) => Ok(view::message(&m)),
    Err(_) => Err("well-formed line rejected".into()),
  }
}

/// A well-formed line must read exactly as generated.
fn exact(ctx: &mut Ctx, m: &Gm) -> CaseResult {
  let line = m.wire.render();
  ctx.input("line", &line);
  ctx.nontrivial = true;
  labels(ctx, m);
  model::check_view(&parsed(&line)?, m)
}

// ------------------------------------------------------------------ C08

type Attempt = (&'static str, Option<View>);

/// The outcome of parsing as each specific type, from all three forms.
fn attempts(line: &str) -> Result<Vec<Attempt>, String> {
  let r = IrcMessageRef::parse(line).ok_or("well-formed line rejected")?;
  let o = IrcMessage::parse(line).ok_or("well-formed line rejected as owned")?;
  let mut out = vec![];
  for_types!(NAME, T, vw => {
    let a = T::from_irc(r.clone()).ok();
    let b = T::from_irc(o.as_ref()).ok();
    ensure!(a == b, "parsing as the {NAME} type differs between the borrowed and the owned raw message: {a:?} / {b:?}");
    out.push((NAME, a.as_ref().map(vw)));
  });
  Ok(out)
}

fn general(line: &str) -> Result<Option<View>, String> {
  let r = IrcMessageRef::parse(line).ok_or("well-formed line rejected")?;
  let o = IrcMessage::parse(line).ok_or("well-formed line rejected as owned")?;
  let f = |x: Result<Message<'_>, tmi::MessageParseError>| x.ok().map(|m| view::message(&m));
  let a = f(Message::parse(line));
  for (what, b) in [
    ("IrcMessageRef::as_typed", f(r.clone().as_typed())),
    ("IrcMessage::as_typed", f(o.as_typed())),
    ("Message::from_irc", f(Message::from_irc(r.clone()))),
    ("Message::try_from", f(Message::try_from(r.clone()))),
  ] {
    ensure!(b == a, "{what} gives {b:?}, Message::parse gives {a:?}");
  }
  Ok(a)
}

fn c08_check(line: &str, command: &str, must_parse: bool) -> CaseResult {
  let all = general(line)?;
  if must_parse {
    ensure!(all.is_some(), "well-formed {command} line rejected");
  }
  if let Some(v) = &all {
    let want = if model::KINDS.contains(&command) { command } else { "other" };
    ensure_eq!(v[0].1, want, "variant of a {command} line");
    if want == "other" {
      let r = IrcMessageRef::parse(line).unwrap();
      if let Some(d) = view::diff(&v[1..].to_vec(), &view::raw_ref(&r)) {
        return Err(format!("the pass-through message differs from the raw message: {d}"));
      }
    }
  }
  if command == "RECONNECT" {
    ensure!(all.is_some(), "RECONNECT line rejected");
  }
  for (name, got) in attempts(line)? {
    if name != command {
      ensure!(got.is_none(), "a {command} line parses as the {name} type");
    } else {
      let want = all.as_ref().map(|v| v[1..].to_vec());
      ensure!(got == want, "parsing as the {name} type gives {got:?}, the general parse {want:?}");
    }
  }
  Ok(())
}

fn c08_own(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let m = model::any(g);
  let line = m.wire.render();
  ctx.input("line", &line);
  ctx.nontrivial = true;
  labels(ctx, &m);
  c08_check(&line, m.kind, true)
}

/// A line complete for one command under another typed command.
fn c08_swapped(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let mut m = model::any(g);
  let command = *g.pick(model::KINDS);
  m.wire.command = command.to_string();
  // now and then with everything any message needs
  let merged = g.bool();
  if merged {
    let other = model::any(g);
    for (k, v) in other.wire.tags {
      if !m.wire.has(&k) {
        m.wire.tags.push((k, v));
      }
    }
    if m.wire.channel.is_none() {
      m.wire.channel = other.wire.channel;
    }
    if m.wire.params.is_none() {
      m.wire.params = other.wire.params;
    }
  }
  let line = m.wire.render();
  ctx.input("line", &line);
  ctx.nontrivial = true;
  ctx.label(command);
  ctx.label_if(command != m.kind, "swapped command");
  c08_check(&line, command, command == m.kind && !merged)
}

fn c08_other(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let mut m = model::any(g);
  let command = match g.weighted(&[3, 3, 2, 1]) {
    0 => crate::tables::COMMANDS[g.below(crate::tables::COMMANDS.len())].1.to_string(),
    1 => {
      let b = *g.pick(model::KINDS);
      gen::near_miss(g, b).chars().filter(|c| gen::word_char(*c)).collect()
    }
    2 => format!("{:03}", g.below(1000)),
    _ => gen::nonempty(g, 20, gen::word_char),
  };
  let command = command.trim_start_matches([':', '@', '#']).to_string();
  let command = if command.is_empty() { "X".to_string() } else { command };
  m.wire.command = command.clone();
  let line = m.wire.render();
  ctx.input("line", &line);
  ctx.nontrivial = true;
  let typed = model::KINDS.contains(&command.as_str());
  ctx.label(if typed { "typed command" } else { "untyped command" });
  c08_check(&line, &command, !typed || command == m.kind)
}

// ------------------------------------------------------------------ C09

fn c09_accept(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let mut m = model::any(g);
  labels(ctx, &m);
  let before = m.wire.tags.len();
  let mut dropped = 0u32;
  if g.chance(1, 4) {
    for k in m.optional.clone() {
      m.wire.remove(k);
    }
  } else {
    for k in m.optional.clone() {
      if g.bool() {
        m.wire.remove(k);
        dropped += 1;
      }
    }
  }
  if g.chance(1, 4) {
    // every tag that is not mandatory
    let keep: Vec<&str> = m.mandatory.iter().filter_map(mand_tag).collect();
    let special = m.kind == "USERNOTICE" && !m.mandatory.contains(&Mand::Tag("user-id"));
    if !special {
      m.wire.tags.retain(|(k, _)| keep.contains(&k.as_str()));
      ctx.label("only mandatory tags");
    }
  }
  let _ = dropped;
  let line = m.wire.render();
  ctx.input("line", &line);
  ctx.nontrivial = m.wire.tags.len() < before;
  let v = match Message::parse(&line) {
    Ok(m) => view::message(&m),
    Err(_) => return Err(format!("a {} line with every mandatory element is rejected", m.kind)),
  };
  ensure_eq!(v[0].1, m.kind, "variant");
  // what is reported for mandatory elements is what was on the wire; what is absent reads as absent
  let find = |v: &View, k: &str| v.iter().find(|(n, _)| n == k).map(|(_, x)| x.clone());
  for (tag, field, absent) in [("badges", "badges", "[]"), ("badges", "num_badges", "0"), ("emotes", "raw_emotes", "\"\""), ("emote-sets", "emote_sets", "[]"), ("emote-sets", "num_emote_sets", "0"), ("color", "color", "None"), ("bits", "bits", "None"), ("custom-reward-id", "custom_reward_id", "None"), ("msg-param-color", "event.highlight_color", "\"PRIMARY\""), ("system-msg", "system_message", "None"), ("msg-param-streak-months", "event.streak_months", "None"), ("slow", "slow", "None"), ("followers-only", "followers_only", "None"), ("emote-only", "emote_only", "None"), ("r9k", "r9k", "None"), ("subs-only", "subs_only", "None")] {
    if let Some(got) = find(&v, field) {
      if !m.wire.has(tag) {
        ensure!(got == absent, "{} without {tag}: {field} is {got}, expected {absent}", m.kind);
      }
    }
  }
  for k in ["channel", "channel_id", "id", "message_id", "timestamp", "text", "sender.id", "sender.login", "sender.name", "user", "target_message_id", "recipient", "user_name"] {
    // a notice's `msg-id` is optional, so it may have been taken away
    if m.kind == "NOTICE" && k == "id" {
      continue;
    }
    if let (Some(got), Some(want)) = (find(&v, k), find(&m.view, k)) {
      ensure!(got == want, "{} {k}: got {}, expected {}", m.kind, clip(&got, 200), clip(&want, 200));
    }
  }
  Ok(())
}

fn mand_tag(m: &Mand) -> Option<&'static str> {
  match m {
    Mand::Tag(t) | Mand::U64(t) | Mand::Millis(t) => Some(t),
    _ => None,
  }
}

fn c09_reject(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let mut m = model::any(g);
  while m.mandatory.is_empty() {
    m = model::of_kind(g, "PRIVMSG");
  }
  // optional parts come and go
  for k in m.optional.clone() {
    if g.chance(1, 4) {
      m.wire.remove(k);
    }
  }
  let broken = m.mandatory[g.below(m.mandatory.len())].clone();
  let how = match &broken {
    Mand::Tag(t) => {
      m.wire.remove(t);
      format!("{t} missing")
    }
    Mand::U64(t) => match g.below(4) {
      0 => {
        m.wire.remove(t);
        format!("{t} missing")
      }
      1 => {
        let v = gen::not_a_number(g);
        m.wire.set(t, &v);
        format!("{t} not a number")
      }
      2 => {
        let v = *g.pick(&["18446744073709551616", "99999999999999999999", "340282366920938463463374607431768211456", "18446744073709551615000"]);
        m.wire.set(t, v);
        format!("{t} out of range")
      }
      _ => {
        let v = format!("-{}", 1 + g.upto(1000));
        m.wire.set(t, &v);
        format!("{t} negative")
      }
    },
    Mand::Millis(t) => match g.below(3) {
      0 => {
        m.wire.remove(t);
        format!("{t} missing")
      }
      1 => {
        let v = gen::not_a_number(g);
        m.wire.set(t, &v);
        format!("{t} not a number")
      }
      _ => {
        let v = *g.pick(&["9223372036854775807", "-9223372036854775808", "9223372036854775808", "99999999999999999999999", "-99999999999999999999999", "9000000000000000000", "18446744073709551615"]);
        m.wire.set(t, v);
        format!("{t} out of range")
      }
    },
    Mand::Nick => {
      m.wire.prefix = if g.bool() { None } else { Some(gen::nonempty(g, 20, gen::nick_char)) };
      "no nick in the prefix".into()
    }
    Mand::Channel => {
      m.wire.channel = None;
      "no channel".into()
    }
    Mand::Text => {
      if m.kind == "WHISPER" && g.bool() {
        let p = m.wire.params.clone().unwrap();
        m.wire.params = Some(p.split(' ').next().unwrap().to_string());
      } else {
        m.wire.params = None;
      }
      "no text".into()
    }
  };
  let line = m.wire.render();
  ctx.input("line", &line);
  ctx.note(|| format!("broken: {how}"));
  ctx.nontrivial = true;
  labels(ctx, &m);
  ctx.label(match &broken {
    Mand::Tag(_) => "broken: tag",
    Mand::U64(_) => "broken: number",
    Mand::Millis(_) => "broken: timestamp",
    Mand::Nick => "broken: nick",
    Mand::Channel => "broken: channel",
    Mand::Text => "broken: text",
  });
  ensure!(IrcMessageRef::parse(&line).is_some(), "the raw line is rejected");
  match Message::parse(&line) {
    Err(_) => {}
    Ok(x) => return Err(format!("{} {} with {how} is accepted: {}", m.kind, m.event, clip(&format!("{x:?}"), 400))),
  }
  for_types!(NAME, T, _vw => {
    let r = IrcMessageRef::parse(&line).unwrap();
    if NAME == m.kind {
      ensure!(T::from_irc(r).is_err(), "{NAME} with {how} is accepted as its own type");
    }
  });
  Ok(())
}

// ------------------------------------------------------------------ C10-C17

fn without(v: &View, keys: &[&str]) -> View {
  v.iter().filter(|(k, _)| !keys.iter().any(|s| k == s || (s.ends_with('.') && k.starts_with(s)))).cloned().collect()
}

fn c10(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let mut m = model::of_kind(g, "PRIVMSG");
  m.skip = vec!["reply_to", "reply_to.", "pinned_chat", "pinned_chat.", "badges", "num_badges", "badges.len"];
  exact(ctx, &m)
}

fn c11(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let m = model::of_kind(g, "PRIVMSG");
  exact(ctx, &Gm { skip: vec!["badges", "num_badges", "badges.len"], ..m.clone() })?;
  ctx.nontrivial = model::REPLY_TAGS.iter().chain(model::PINNED_TAGS).any(|k| m.wire.has(k));
  // the rest is not affected by those tags
  let mut plain = m.clone();
  for k in model::REPLY_TAGS.iter().chain(model::PINNED_TAGS) {
    plain.wire.remove(k);
  }
  let skip = &["reply_to", "reply_to.", "pinned_chat", "pinned_chat."];
  let (a, b) = (parsed(&m.wire.render())?, parsed(&plain.wire.render())?);
  match view::diff(&without(&a, skip), &without(&b, skip)) {
    Some(d) => Err(format!("removing the reply and Hype Chat tags changes something else: {d}")),
    None => Ok(()),
  }
}

fn c12(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let which = *g.pick(model::EVENTS);
  let mut m = model::notice_of(g, which);
  m.skip.extend(["sender", "sender.", "badges", "num_badges", "badges.len"]);
  exact(ctx, &m)
}

fn c13(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let which = model::EVENTS[g.below(model::EVENTS.len() - 1)];
  let mut m = model::notice_of(g, which);
  m.view = m.view.iter().filter(|(k, _)| k == "variant" || k == "sender" || k.starts_with("sender.") || k == "event.kind").cloned().collect();
  let line = m.wire.render();
  ctx.input("line", &line);
  ctx.nontrivial = true;
  labels(ctx, &m);
  ctx.label_if(m.wire.get("user-id") == Some(model::ANON_GIFTER), "anonymous-gifter account");
  let got = parsed(&line)?;
  let got = got.iter().filter(|(k, _)| m.view.iter().any(|(n, _)| n == k) || k.starts_with("sender")).cloned().collect();
  model::check_view(&got, &m)
}

fn c14_chat(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let m = model::of_kind(g, "CLEARCHAT");
  exact(ctx, &m)
}
fn c14_msg(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let m = model::of_kind(g, "CLEARMSG");
  exact(ctx, &m)
}

const SETTINGS: &[&str] = &["emote-only", "followers-only", "r9k", "slow", "subs-only"];

fn c15(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let m = model::of_kind(g, "ROOMSTATE");
  exact(ctx, &m)?;
  let n = SETTINGS.iter().filter(|k| m.wire.has(k)).count();
  ctx.nontrivial = n > 0;
  ctx.label(["no setting", "one setting", "2 settings", "3 settings", "4 settings", "all settings"][n]);
  Ok(())
}

fn c16_user(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let m = model::of_kind(g, "USERSTATE");
  exact(ctx, &m)
}
fn c16_global(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let m = model::of_kind(g, "GLOBALUSERSTATE");
  exact(ctx, &m)
}

fn c17_whisper(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let m = model::of_kind(g, "WHISPER");
  exact(ctx, &m)
}
fn c17_notice(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let m = model::of_kind(g, "NOTICE");
  exact(ctx, &m)
}
fn c17_joinpart(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let k = *g.pick(&["JOIN", "PART"]);
  let m = model::of_kind(g, k);
  exact(ctx, &m)
}
fn c17_pingpong(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let k = *g.pick(&["PING", "PONG"]);
  let m = model::of_kind(g, k);
  exact(ctx, &m)
}

// ------------------------------------------------------------------ C18

const BADGE_KINDS: &[&str] = &["PRIVMSG", "USERNOTICE", "USERSTATE", "GLOBALUSERSTATE", "WHISPER"];

fn c18_types(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let b = model::gen_badges(g);
  let mut lines = vec![];
  for k in BADGE_KINDS {
    let mut m = model::of_kind(g, k);
    m.wire.remove("badges");
    m.wire.remove("badge-info");
    let at = g.below(m.wire.tags.len() + 1);
    m.wire.tags.insert(at, ("badges".into(), b.badges.clone()));
    if let Some(i) = &b.info {
      let at = g.below(m.wire.tags.len() + 1);
      m.wire.tags.insert(at, ("badge-info".into(), i.clone()));
    }
    lines.push((*k, m.wire.render()));
  }
  ctx.input("badges", &b.badges);
  ctx.input("badge-info", b.info.as_deref().unwrap_or("(absent)"));
  ctx.nontrivial = !b.expect.is_empty();
  ctx.label_if(b.info.is_none(), "badge-info absent");
  ctx.label_if(b.subscriber, "subscriber badge");
  ctx.label_if(b.expect.len() > 1, "several badges");
  for (k, line) in &lines {
    let msg = Message::parse(line).map_err(|_| format!("{k} line rejected: {line:?}"))?;
    let got: Vec<Badge<'_>> = match &msg {
      Message::Privmsg(m) => m.badges().cloned().collect(),
      Message::UserNotice(m) => m.badges().cloned().collect(),
      Message::UserState(m) => m.badges().cloned().collect(),
      Message::GlobalUserState(m) => m.badges().cloned().collect(),
      Message::Whisper(m) => m.badges().cloned().collect(),
      _ => return Err(format!("{k} line became {}", view::variant(&msg))),
    };
    let v: Vec<String> = got.iter().map(view::badge).collect();
    ensure!(v == b.expect, "{k} badges={:?} badge-info={:?}: got {v:?}, expected {:?}", b.badges, b.info, b.expect);
    let full = view::message(&msg);
    let n = full.iter().find(|(k, _)| k == "num_badges").map(|x| x.1.clone());
    ensure_eq!(n, Some(b.expect.len().to_string()), "{k} num_badges");
    for badge in got {
      convert(&badge)?;
    }
  }
  Ok(())
}

fn convert(b: &Badge<'_>) -> CaseResult {
  let d = b.as_badge_data();
  ensure_eq!(BadgeData::from(b.clone()), d, "BadgeData::from");
  let back = Badge::from(d.clone());
  ensure_eq!(back, *b, "badge -> badge data -> badge");
  ensure_eq!(view::badge(&back), view::badge(b), "badge -> badge data -> badge");
  ensure_eq!(back.as_badge_data(), d, "badge data -> badge -> badge data");
  Ok(())
}

fn c18_convert(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  // badge data as it comes out of JSON, then into a badge
  let name = match g.weighted(&[3, 2, 1]) {
    0 => g.pick(&["subscriber", "staff", "turbo", "broadcaster", "moderator"]).to_string(),
    1 => model::word(g),
    _ => gen::text_of(g, 20, |_| true),
  };
  let special = matches!(name.as_str(), "staff" | "turbo" | "broadcaster" | "moderator");
  let version = if special { "1".to_string() } else { gen::text_of(g, 20, |_| true) };
  let extra = if special || (name != "subscriber" && g.bool()) { None } else { Some(if g.bool() { gen::num(g).to_string() } else { gen::text_of(g, 12, |c| c != '+') }) };
  ctx.input("name", &name);
  ctx.input("version", &version);
  ctx.input("extra", &format!("{extra:?}"));
  ctx.nontrivial = true;
  let json = serde_json::json!({"name": name, "version": version, "extra": extra});
  let d = BadgeData::deserialize(&json).map_err(|e| format!("badge data does not deserialize: {e}"))?;
  ensure_eq!((d.name(), d.version(), d.extra()), (name.as_str(), version.as_str(), extra.as_deref()), "badge data");
  let b = Badge::from(d.clone());
  let kind = match &b {
    Badge::Staff => "staff",
    Badge::Turbo => "turbo",
    Badge::Broadcaster => "broadcaster",
    Badge::Moderator => "moderator",
    Badge::Subscriber(s) => {
      ensure_eq!(s.version(), version.as_str(), "subscriber version");
      let months = extra.as_deref().and_then(model::decimal).unwrap_or(1);
      ensure_eq!(s.months(), months, "subscriber months");
      "subscriber"
    }
    Badge::Other(o) => {
      ensure_eq!((o.name(), o.version(), o.extra()), (name.as_str(), version.as_str(), extra.as_deref()), "other badge");
      "other"
    }
  };
  ensure_eq!(kind, if special || name == "subscriber" { name.as_str() } else { "other" }, "kind of badge");
  ensure_eq!(b.as_badge_data(), d, "badge data -> badge -> badge data");
  convert(&b)
}

// ------------------------------------------------------------------ C19

fn c19(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let (sent, text, act) = match g.weighted(&[4, 1]) {
    0 => model::chat(g),
    _ => {
      let t: String = (0..g.range(1, 60)).map(|_| *g.pick(&[' ', ':', '\u{1}', 'A', '#', '\t', '\u{a0}', 'é', '@', ';', '='])).collect();
      let f = model::framed(&t);
      (t.clone(), f.clone().unwrap_or(t), f.is_some())
    }
  };
  ctx.input("text", &sent);
  ctx.nontrivial = !sent.is_empty();
  ctx.label(if act {
    "action"
  } else if sent.contains("ACTION") {
    "look-alike"
  } else {
    "plain"
  });
  for kind in ["PRIVMSG", "CLEARMSG", "USERNOTICE", "WHISPER", "NOTICE"] {
    let mut m = model::of_kind(g, kind);
    m.wire.params = Some(match kind {
      "WHISPER" => format!("{} :{sent}", m.wire.params.unwrap().split(' ').next().unwrap()),
      "NOTICE" if m.wire.channel.is_none() => format!("* :{sent}"),
      _ => model::trailing(g, &sent),
    });
    let line = m.wire.render();
    let msg = Message::parse(&line).map_err(|_| format!("{kind} line rejected: {line:?}"))?;
    let (got, action) = match &msg {
      Message::Privmsg(m) => (m.text(), Some(m.is_action())),
      Message::ClearMsg(m) => (m.text(), Some(m.is_action())),
      Message::UserNotice(m) => (m.text().ok_or("USERNOTICE reports no text")?, None),
      Message::Whisper(m) => (m.text(), None),
      Message::Notice(m) => (m.text(), None),
      _ => return Err(format!("{kind} line became {}", view::variant(&msg))),
    };
    match action {
      Some(a) => {
        ensure_eq!(a, act, "{kind} is_action for {sent:?}");
        ensure_eq!(got, text.as_str(), "{kind} text for {sent:?}");
      }
      None => ensure_eq!(got, sent.as_str(), "{kind} text"),
    }
    let raw = IrcMessageRef::parse(&line).ok_or("rejected")?;
    ensure_eq!(raw.text(), Some(sent.as_str()), "raw text of a {kind} line");
    let raw = IrcMessage::parse(&line).ok_or("rejected")?;
    ensure_eq!(raw.text(), Some(sent.as_str()), "owned raw text of a {kind} line");
  }
  Ok(())
}

// ------------------------------------------------------------------ C20

fn c20_compare(a: &str, b: &str) -> CaseResult {
  let (x, y) = (Message::parse(a).map_err(|_| "the original line is rejected")?, Message::parse(b).map_err(|_| format!("the variant is rejected: {b:?}"))?);
  if let Some(d) = view::diff(&view::message(&y), &view::message(&x)) {
    return Err(format!("the variant {} reads differently: {d}", clip(b, 1500)));
  }
  for_types!(NAME, T, _vw => {
    let p = T::from_irc(IrcMessageRef::parse(a).unwrap()).ok();
    let q = T::from_irc(IrcMessageRef::parse(b).unwrap()).ok();
    ensure!(p == q, "{NAME} values are not equal: {p:?} / {q:?}");
  });
  Ok(())
}

pub(super) fn shuffle(g: &mut Gen, m: &mut Gm) {
  let p = g.permutation(m.wire.tags.len());
  m.wire.tags = p.iter().map(|i| m.wire.tags[*i].clone()).collect();
}

fn c20_permute(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let mut m = model::any(g);
  let a = m.wire.render();
  ctx.input("line", &a);
  labels(ctx, &m);
  shuffle(g, &mut m);
  let b = m.wire.render();
  ctx.input("variant", &b);
  ctx.nontrivial = a != b;
  c20_compare(&a, &b)
}

fn c20_insert(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let mut m = model::any(g);
  let a = m.wire.render();
  ctx.input("line", &a);
  labels(ctx, &m);
  if g.bool() {
    shuffle(g, &mut m);
  }
  for _ in 0..g.range(1, 12) {
    model::add_unrelated(g, &mut m);
  }
  let b = m.wire.render();
  ctx.input("variant", &b);
  ctx.nontrivial = a != b;
  c20_compare(&a, &b)
}

fn c20_many(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let mut m = model::any(g);
  let a = m.wire.render();
  ctx.input("line", &a);
  labels(ctx, &m);
  for _ in 0..g.range(20, 200) {
    model::add_unrelated(g, &mut m);
  }
  let b = m.wire.render();
  ctx.input("variant", &b);
  ctx.nontrivial = true;
  ctx.label_if(m.wire.tags.len() > 128, "more than 128 tags");
  c20_compare(&a, &b)
}

// ------------------------------------------------------------------ C21

fn c21(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let m = model::any(g);
  let line = m.wire.render();
  ctx.input("line", &line);
  labels(ctx, &m);
  ctx.nontrivial = m.view.iter().any(|(_, v)| v.contains('"'));
  let junk: String = "Z".repeat(line.len());
  let (fill, mode, off) = (b';', g.below(3), g.below(64));
  for_types!(NAME, T, vw => {
    if NAME == m.kind {
      let owned: Result<(T<'static>, View), String> = gen::place(&line, fill, mode, off, |p| {
        let x = T::from_irc(IrcMessageRef::parse(p).ok_or("rejected")?).map_err(|_| "rejected as its own type")?;
        let v = vw(&x);
        let c = x.clone();
        ensure!(c == x, "the clone is not equal: {c:?} / {x:?}");
        if let Some(d) = view::diff(&vw(&c), &v) {
          return Err(format!("the clone reads differently: {d}"));
        }
        let o: T<'static> = c.into_owned();
        ensure!(o == x, "the owned value is not equal: {o:?} / {x:?}");
        ensure!(format!("{o:?}") == format!("{x:?}"), "the owned value prints differently: {o:?} / {x:?}");
        Ok((o, v))
      });
      let (o, v) = owned?;
      // the input is gone
      gen::place(&junk, fill, mode, off, |_| ());
      let o2 = o.clone().into_owned();
      ensure!(o2 == o, "owning twice changes the value: {o2:?} / {o:?}");
      let c = o.clone();
      for (what, x) in [("the owned value", o), ("the owned value owned again", o2), ("a clone of the owned value", c)] {
        if let Some(d) = view::diff(&vw(&x), &v) {
          return Err(format!("{what} reads differently: {d}"));
        }
      }
    }
  });
  // general conversion keeps the value
  let parts: Result<Vec<(String, String, String)>, String> = gen::place(&line, fill, mode, off, |p| {
    let msg = Message::parse(p).map_err(|_| "rejected")?;
    let c = msg.clone();
    if let Some(d) = view::diff(&view::message(&c), &view::message(&msg)) {
      return Err(format!("the clone of the message reads differently: {d}"));
    }
    let mut out = vec![];
    each_part(&msg, &mut |p| out.push(p.owned()));
    let mut r = vec![];
    for o in out {
      r.push(o?);
    }
    Ok(r)
  });
  let parts = parts?;
  gen::place(&junk, fill, mode, off, |_| ());
  for (what, got, want) in parts {
    ensure!(got == want, "owned {what}: got {got}, expected {want}");
  }
  Ok(())
}

/// A nested part of a message.
pub(super) enum Part<'a, 's> {
  User(&'a tmi::User<'s>),
  Badge(&'a Badge<'s>),
  Reply(&'a tmi::Reply<'s>),
  Pinned(&'a tmi::PinnedChat<'s>),
  Event(&'a tmi::Event<'s>),
  Action(&'a tmi::Action<'s>),
  Promo(&'a tmi::SubGiftPromo<'s>),
  Followers(tmi::FollowersOnly),
}

pub(super) fn each_part<'s>(m: &Message<'s>, f: &mut dyn FnMut(Part<'_, 's>)) {
  match m {
    Message::Privmsg(m) => {
      f(Part::User(m.sender()));
      m.badges().for_each(|b| f(Part::Badge(b)));
      if let Some(r) = m.reply_to() {
        f(Part::User(r.sender()));
        f(Part::Reply(r));
      }
      if let Some(p) = m.pinned_chat() {
        f(Part::Pinned(p));
      }
    }
    Message::UserNotice(m) => {
      if let Some(u) = m.sender() {
        f(Part::User(u));
      }
      m.badges().for_each(|b| f(Part::Badge(b)));
      f(Part::Event(m.event()));
      match m.event() {
        tmi::Event::SubGift(e) => f(Part::User(e.recipient())),
        tmi::Event::GiftPaidUpgrade(e) => {
          if let Some(p) = e.promotion() {
            f(Part::Promo(p));
          }
        }
        tmi::Event::AnonGiftPaidUpgrade(e) => {
          if let Some(p) = e.promotion() {
            f(Part::Promo(p));
          }
        }
        _ => {}
      }
    }
    Message::ClearChat(m) => f(Part::Action(m.action())),
    Message::UserState(m) => m.badges().for_each(|b| f(Part::Badge(b))),
    Message::GlobalUserState(m) => m.badges().for_each(|b| f(Part::Badge(b))),
    Message::Whisper(m) => {
      f(Part::User(&m.sender()));
      m.badges().for_each(|b| f(Part::Badge(b)));
    }
    Message::RoomState(m) => {
      if let Some(x) = m.followers_only() {
        f(Part::Followers(x));
      }
    }
    _ => {}
  }
}

pub(super) fn v(f: impl FnOnce(&mut V)) -> View {
  let mut x = V::new();
  f(&mut x);
  x.0
}

type Owned = Result<(String, String, String), String>;

impl<'a, 's> Part<'a, 's> {
  /// (name, what the owned form reads, what the original reads)
  fn owned(self) -> Owned {
    macro_rules! go {
      ($name:literal, $x:expr, $t:ty, $view:expr) => {{
        let x = $x;
        let before = $view(x);
        let o: $t = x.clone().into_owned();
        ensure!(o == *x, concat!("the owned ", $name, " is not equal: {:?} / {:?}"), o, x);
        let o2: $t = o.clone().into_owned();
        ensure!(o2 == o, concat!("the ", $name, " owned twice is not equal: {:?} / {:?}"), o2, o);
        Ok(($name.to_string(), format!("{:?} {:?} {:?}", $view(&o), $view(&o2), $view(&o.clone())), format!("{:?} {:?} {:?}", before, before, before)))
      }};
    }
    match self {
      Part::User(x) => go!("user", x, tmi::User<'static>, |x: &tmi::User<'_>| v(|v| view::user(v, x))),
      Part::Badge(x) => {
        let d = x.as_badge_data();
        let o: BadgeData<'static> = d.clone().into_owned();
        ensure!(o == d, "owned badge data is not equal: {o:?} / {d:?}");
        if let Badge::Subscriber(s) = x {
          let o: tmi::Subscriber<'static> = s.clone().into_owned();
          ensure!(o == *s && o.version() == s.version() && o.months() == s.months(), "owned subscriber is not equal: {o:?} / {s:?}");
        }
        go!("badge", x, Badge<'static>, |x: &Badge<'_>| vec![("badge".to_string(), view::badge(x))])
      }
      Part::Reply(x) => go!("reply", x, tmi::Reply<'static>, |x: &tmi::Reply<'_>| v(|v| view::reply(v, x))),
      Part::Pinned(x) => go!("Hype Chat", x, tmi::PinnedChat<'static>, |x: &tmi::PinnedChat<'_>| v(|v| view::pinned(v, x))),
      Part::Event(x) => go!("event", x, tmi::Event<'static>, |x: &tmi::Event<'_>| v(|v| view::event(v, x))),
      Part::Action(x) => go!("action", x, tmi::Action<'static>, |x: &tmi::Action<'_>| v(|v| view::action(v, x))),
      Part::Promo(x) => go!("promotion", x, tmi::SubGiftPromo<'static>, |x: &tmi::SubGiftPromo<'_>| vec![("promo".to_string(), format!("{} {:?}", x.total_gifts(), x.promo_name()))]),
      Part::Followers(x) => Ok(("followers-only".into(), format!("{x:?}"), format!("{:?}", x.clone()))),
    }
  }

  fn round_trip(self, g: &mut Gen) -> CaseResult {
    macro_rules! go {
      ($x:expr, $t:ty, $view:expr) => {{
        let x = $x;
        let json = serde_json::to_string(x).map_err(|e| format!("does not serialize: {e}"))?;
        for (how, text) in renderings(g, &json)? {
          let y: $t = serde_json::from_str(&text).map_err(|e| format!("{how}: {text} does not deserialize: {e}"))?;
          ensure!(y == *x, "{how}: got {y:?}, expected {x:?}");
          ensure!($view(&y) == $view(x), "{how}: reads {:?}, expected {:?}", $view(&y), $view(x));
        }
        let val: serde_json::Value = serde_json::from_str(&json).map_err(|e| e.to_string())?;
        let y = <$t>::deserialize(&val).map_err(|e| format!("{json} does not deserialize from a value: {e}"))?;
        ensure!(y == *x, "from a value: got {y:?}, expected {x:?}");
        ensure!($view(&y) == $view(x), "from a value: reads {:?}, expected {:?}", $view(&y), $view(x));
        // where nothing can be borrowed, where it is bytes, and where it is made of values
        let y = <$t>::deserialize(val.clone()).map_err(|e| format!("{json} does not deserialize from an owned value: {e}"))?;
        ensure!(y == *x && $view(&y) == $view(x), "from an owned value: got {y:?}, expected {x:?}");
        let y: $t = serde_json::from_slice(json.as_bytes()).map_err(|e| format!("{json} does not deserialize from bytes: {e}"))?;
        ensure!(y == *x && $view(&y) == $view(x), "from bytes: got {y:?}, expected {x:?}");
        let y = <$t>::deserialize(&mut serde_json::Deserializer::from_reader(json.as_bytes())).map_err(|e| format!("{json} does not deserialize from a reader: {e}"))?;
        ensure!(y == *x && $view(&y) == $view(x), "from a reader: got {y:?}, expected {x:?}");
        let y = <$t>::deserialize(serde_json::to_value(x).map_err(|e| format!("does not become a value: {e}"))?).map_err(|e| format!("{json} made a value does not deserialize: {e}"))?;
        ensure!(y == *x && $view(&y) == $view(x), "through a value: got {y:?}, expected {x:?}");
      }};
    }
    match self {
      Part::User(x) => go!(x, tmi::User<'_>, |x: &tmi::User<'_>| v(|v| view::user(v, x))),
      Part::Badge(x) => {
        go!(x, Badge<'_>, view::badge);
        go!(&x.as_badge_data(), BadgeData<'_>, |d: &BadgeData<'_>| format!("{:?} {:?} {:?}", d.name(), d.version(), d.extra()));
        if let Badge::Subscriber(s) = x {
          go!(s, tmi::Subscriber<'_>, |d: &tmi::Subscriber<'_>| format!("{:?} {:?}", d.version(), d.months()))
        }
      }
      Part::Reply(x) => go!(x, tmi::Reply<'_>, |x: &tmi::Reply<'_>| v(|v| view::reply(v, x))),
      Part::Pinned(x) => {
        go!(x, tmi::PinnedChat<'_>, |x: &tmi::PinnedChat<'_>| v(|v| view::pinned(v, x)));
        go!(&x.paid_level(), PinnedChatLevel, |x: &PinnedChatLevel| x.as_str());
      }
      Part::Event(x) => {
        go!(x, tmi::Event<'_>, |x: &tmi::Event<'_>| v(|v| view::event(v, x)));
        macro_rules! inner {
          ($($n:ident),*) => { match x { $( tmi::Event::$n(e) => go!(e, tmi::$n<'_>, |e: &tmi::$n<'_>| format!("{e:?}")), )* tmi::Event::BitsBadgeTier(e) => go!(e, tmi::BitsBadgeTier, |e: &tmi::BitsBadgeTier| e.tier()), _ => {} } };
        }
        inner!(SubOrResub, Raid, SubGift, SubMysteryGift, AnonSubMysteryGift, GiftPaidUpgrade, AnonGiftPaidUpgrade, Ritual, Announcement);
      }
      Part::Action(x) => {
        go!(x, tmi::Action<'_>, |x: &tmi::Action<'_>| v(|v| view::action(v, x)));
        match x {
          tmi::Action::Ban(b) => go!(b, tmi::Ban<'_>, |b: &tmi::Ban<'_>| format!("{:?} {:?}", b.user(), b.id())),
          tmi::Action::TimeOut(b) => go!(b, tmi::TimeOut<'_>, |b: &tmi::TimeOut<'_>| format!("{:?} {:?} {:?}", b.user(), b.id(), b.duration())),
          tmi::Action::Clear => {}
        }
      }
      Part::Promo(x) => go!(x, tmi::SubGiftPromo<'_>, |x: &tmi::SubGiftPromo<'_>| format!("{} {:?}", x.total_gifts(), x.promo_name())),
      Part::Followers(x) => go!(&x, tmi::FollowersOnly, |x: &tmi::FollowersOnly| format!("{x:?}")),
    }
    Ok(())
  }
}

// ------------------------------------------------------------------ C22

fn render_json(g: &mut Gen, v: &serde_json::Value, permute: bool, escape: bool, space: bool, out: &mut String) {
  use serde_json::Value as J;
  let string = |s: &str, out: &mut String| {
    if escape {
      out.push('"');
      for u in s.encode_utf16() {
        out.push_str(&format!("\\u{u:04x}"));
      }
      out.push('"');
    } else {
      out.push_str(&J::String(s.to_string()).to_string());
    }
  };
  match v {
    J::Object(o) => {
      let keys: Vec<&String> = o.keys().collect();
      let order = if permute { g.permutation(keys.len()) } else { (0..keys.len()).collect() };
      out.push('{');
      for (n, i) in order.into_iter().enumerate() {
        if n > 0 {
          out.push_str(if space { " ,\n\t" } else { "," });
        }
        string(keys[i], out);
        out.push_str(if space { " : " } else { ":" });
        render_json(g, &o[keys[i]], permute, escape, space, out);
      }
      out.push('}');
    }
    J::Array(a) => {
      out.push('[');
      for (n, x) in a.iter().enumerate() {
        if n > 0 {
          out.push(',');
        }
        render_json(g, x, permute, escape, space, out);
      }
      out.push(']');
    }
    J::String(s) => string(s, out),
    other => out.push_str(&other.to_string()),
  }
}

/// The same JSON document written in other ways.
fn renderings(g: &mut Gen, json: &str) -> Result<Vec<(&'static str, String)>, String> {
  let val: serde_json::Value = serde_json::from_str(json).map_err(|e| format!("{json} is not JSON: {e}"))?;
  let mut out = vec![("round trip", json.to_string())];
  for (how, p, e, sp) in [("keys permuted", true, false, false), ("with escapes", false, true, false), ("keys permuted, spaced", true, false, true)] {
    let mut s = String::new();
    render_json(g, &val, p, e, sp, &mut s);
    out.push((how, s));
  }
  Ok(out)
}

/// Timestamps as far out as the library can hold.
fn stretch(g: &mut Gen, m: &mut Gm) {
  if m.wire.has("tmi-sent-ts") && g.chance(1, 6) {
    let v = g.upto(16_000_000_000_000_000) as i64 - 8_000_000_000_000_000;
    m.wire.set("tmi-sent-ts", &v.to_string());
  }
}

fn c22(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let mut m = model::any(g);
  stretch(g, &mut m);
  let line = m.wire.render();
  ctx.input("line", &line);
  labels(ctx, &m);
  for_types!(NAME, T, vw => {
    if NAME == m.kind {
      let x = T::from_irc(IrcMessageRef::parse(&line).ok_or("rejected")?).map_err(|_| "rejected as its own type")?;
      let want = vw(&x);
      let json = serde_json::to_string(&x).map_err(|e| format!("does not serialize: {e}"))?;
      ctx.nontrivial = json.matches("\":").count() >= 2;
      for (how, text) in renderings(g, &json)? {
        let y: T<'_> = serde_json::from_str(&text).map_err(|e| format!("{how}: {} does not deserialize: {e}", clip(&text, 2000)))?;
        ensure!(y == x, "{how}: got {y:?}, expected {x:?}");
        if let Some(d) = view::diff(&vw(&y), &want) {
          return Err(format!("{how}: {d}"));
        }
        let json2 = serde_json::to_string(&y).map_err(|e| e.to_string())?;
        ensure!(json2 == json, "{how}: serializing again gives {json2}, first time {json}");
      }
      let val = serde_json::to_value(&x).map_err(|e| format!("does not serialize to a value: {e}"))?;
      let y = T::deserialize(&val).map_err(|e| format!("{val} does not deserialize: {e}"))?;
      ensure!(y == x, "through a JSON value: got {y:?}, expected {x:?}");
      if let Some(d) = view::diff(&vw(&y), &want) {
        return Err(format!("through a JSON value: {d}"));
      }
      // nothing to borrow from, bytes, and one after the other
      let y = T::deserialize(&mut serde_json::Deserializer::from_reader(json.as_bytes())).map_err(|e| format!("{json} does not deserialize from a reader: {e}"))?;
      ensure!(y == x && view::diff(&vw(&y), &want).is_none(), "from a reader: got {y:?}, expected {x:?}");
      let y: T<'_> = serde_json::from_slice(json.as_bytes()).map_err(|e| format!("{json} does not deserialize from bytes: {e}"))?;
      ensure!(y == x && view::diff(&vw(&y), &want).is_none(), "from bytes: got {y:?}, expected {x:?}");
      let two = format!("[{json},\n{json}]");
      let list: Vec<T<'_>> = serde_json::from_str(&two).map_err(|e| format!("a list of two of {json} does not deserialize: {e}"))?;
      ensure!(list.len() == 2 && list.iter().all(|y| *y == x && view::diff(&vw(y), &want).is_none()), "in a list: got {list:?}, expected {x:?} twice");
      let o: T<'static> = y.into_owned();
      ensure!(o == x, "deserialized and owned: got {o:?}, expected {x:?}");
      let bytes = serde_json::to_vec_pretty(&o).map_err(|e| e.to_string())?;
      let z: T<'_> = serde_json::from_slice(&bytes).map_err(|e| format!("does not deserialize from bytes: {e}"))?;
      ensure!(z == x, "from bytes: got {z:?}, expected {x:?}");
    }
  });
  Ok(())
}

fn c22_parts(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let kind = *g.pick(&["PRIVMSG", "USERNOTICE", "CLEARCHAT", "ROOMSTATE", "WHISPER", "USERSTATE", "GLOBALUSERSTATE"]);
  let m = model::of_kind(g, kind);
  let line = m.wire.render();
  ctx.input("line", &line);
  labels(ctx, &m);
  let msg = Message::parse(&line).map_err(|_| "well-formed line rejected")?;
  let mut r = Ok(());
  let mut n = 0;
  each_part(&msg, &mut |p| {
    n += 1;
    if r.is_ok() && n <= 12 {
      r = p.round_trip(g);
    }
  });
  ctx.nontrivial = n > 0;
  r
}

// ------------------------------------------------------------------ C35

fn c35(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  use PinnedChatLevel as L;
  let levels = [L::ONE, L::TWO, L::THREE, L::FOUR, L::FIVE, L::SIX, L::SEVEN, L::EIGHT, L::NINE, L::TEN];
  for n in 0..=255u8 {
    let want = levels.get(n as usize).copied();
    ensure_eq!(L::try_from(n).ok(), want, "level number {n}");
  }
  for (i, l) in levels.iter().enumerate() {
    let name = model::LEVELS[i];
    ensure_eq!(u8::from(*l), i as u8, "number of {name}");
    ensure_eq!(l.as_str(), name, "name of level {i}");
    ensure_eq!(name.parse::<L>().ok(), Some(*l), "level named {name}");
    ensure_eq!(L::try_from(u8::from(*l)).ok(), Some(*l), "level number of {name} and back");
    ensure_eq!(serde_json::to_string(l).ok().and_then(|s| serde_json::from_str::<L>(&s).ok()), Some(*l), "{name} through JSON");
  }
  ensure_eq!((L::MIN, L::MAX), (L::ONE, L::TEN), "bounds");
  let name = match g.weighted(&[2, 5, 2]) {
    0 => g.pick(model::LEVELS).to_string(),
    1 => model::bad_level(g),
    _ => gen::text_of(g, 20, |_| true),
  };
  ctx.input("name", &name);
  let known = model::LEVELS.iter().position(|l| *l == name);
  ctx.nontrivial = known.is_some() || model::LEVELS.iter().any(|l| l.len().abs_diff(name.len()) <= 1);
  ensure_eq!(name.parse::<L>().ok(), known.map(|i| levels[i]), "level named {name:?}");
  // as a PRIVMSG reports it
  if let Some(i) = known {
    let mut m = model::of_kind(g, "PRIVMSG");
    for (k, v) in model::PINNED_TAGS.iter().zip(["100", "USD", "2", name.as_str(), "1"]) {
      m.wire.set(k, v);
    }
    let line = m.wire.render();
    match Message::parse(&line) {
      Ok(Message::Privmsg(p)) => ensure_eq!(p.pinned_chat().map(|p| p.paid_level()), Some(levels[i]), "level of a Hype Chat"),
      _ => return Err("well-formed line rejected".into()),
    }
  }
  Ok(())
}
