//! C01-C07 and C33: the line parser and the text helpers.
use super::{s, Prop};
use crate::engine::{clip, no_panic, CaseResult, Ctx, Gen};
use crate::gen::{self, Wire};
use crate::model;
use crate::tables;
use crate::view;
use tmi::{Command, FromIrc, IrcMessage, IrcMessageRef, Message, Tag};

pub fn props() -> Vec<Prop> {
  vec![
    Prop {
      id: "C01",
      rule: "arbitrary strings: grammar-alphabet noise, mutated valid lines of every command (cut, spliced, duplicated, byte-flipped), tag sections of up to 400 tags or with keys/values around vector and 64 KiB boundaries, always placed against an unmapped page; every accessor, lookup, conversion and rendering is called. Non-trivial: the string is non-empty and either has a tag section or parses as a message.",
      streams: vec![s("noise", 4, c01_noise), s("mutated", 6, c01_mutated), s("tags", 3, c01_tags), s("huge", 1, c01_huge), s("params", 3, c01_params)],
    },
    Prop {
      id: "C02",
      rule: "tag sections built from generated key/value pairs (1 to 400 pairs; values up to 200 bytes, in the long stream up to 100 KiB; runs of '=' and multi-byte chars; duplicate keys), placed at every alignment against an unmapped page, followed by a generated rest. Non-trivial: at least 2 pairs, or a key or value of at least 16 bytes.",
      streams: vec![s("pairs", 12, c02_pairs), s("boundary", 6, c02_boundary), s("many", 2, c02_many), s("long", 1, c02_long)],
    },
    Prop {
      id: "C03",
      rule: "lines assembled from generated optional tags, prefix (three shapes), command (known, numeric, arbitrary), channel and params; plus lines with an empty command position. Non-trivial: at least two optional parts present, or a rejection case.",
      streams: vec![s("lines", 8, c03_lines), s("names", 2, c03_names), s("reject", 2, c03_reject)],
    },
    Prop {
      id: "C04",
      rule: "arbitrary strings (noise, mutated lines, tag sections with missing, empty or doubled parts, many tags, long runs) given to this AVX2 build in-process and to separately built SSE2, scalar and optimised AVX2 peers; the complete raw and typed views are compared. Non-trivial: the string has a tag section.",
      streams: vec![s("sections", 6, c04_sections), s("mutated", 4, c04_mutated), s("noise", 3, c04_noise), s("wellformed", 1, c04_wellformed), s("large", 1, c04_large)],
    },
    Prop {
      id: "C05",
      rule: "well-formed lines of every command, their mutations and noise; owned and borrowed parses, all conversions between them and clones are compared accessor by accessor. Non-trivial: the string parses as a message.",
      streams: vec![s("wellformed", 4, c05_wellformed), s("mutated", 4, c05_mutated), s("noise", 3, c05_noise)],
    },
    Prop {
      id: "C06",
      rule: "every documented tag and command name, near misses of them (one edit), and arbitrary names, by Tag::parse / Display / as_str, lookup in messages, and parsed commands. Non-trivial: a documented name or a near miss of one.",
      streams: vec![s("tags", 4, c06_tags), s("commands", 4, c06_commands), s("lookup", 4, c06_lookup)],
    },
    Prop {
      id: "C07",
      rule: "texts encoded with Twitch's escapes and decoded again; arbitrary strings with malformed escapes against a reference decoder; values that need no unescaping. Non-trivial: the value contains a backslash or U+2E1D, or is a no-copy case of length > 0.",
      streams: vec![s("roundtrip", 4, c07_roundtrip), s("malformed", 4, c07_malformed), s("nocopy", 2, c07_nocopy)],
    },
    Prop {
      id: "C33",
      rule: "a string (well-formed, mutated or noise) parsed at several alignments, with different neighbouring bytes, at the end and at the start of a mapped region, after parsing other strings, and by several threads at once; all results are compared. Non-trivial: the string has at least 16 bytes.",
      streams: vec![s("placement", 8, c33_placement), s("history", 2, c33_history), s("threads", 1, c33_threads)],
    },
  ]
}

// ------------------------------------------------------------------ inputs

/// Noise over the grammar's alphabet.
pub fn noise(g: &mut Gen) -> String {
  let mut t = String::new();
  if g.chance(1, 2) {
    t.push('@');
  }
  let n = gen::len(g, 400);
  let dense = g.bool();
  for _ in 0..n {
    let c = if dense { *g.pick(&[';', '=', ' ', 'a', ':', '#', '@', '!', 'é', '\\', ',']) } else { gen::any_char(g) };
    t.push(c);
  }
  gen::affixed(g, t)
}

/// A few random edits of a valid line.
pub fn mutate(g: &mut Gen, line: String) -> String {
  let mut cs: Vec<char> = line.chars().collect();
  for _ in 0..g.range(1, 4) {
    let n = cs.len();
    if n == 0 {
      cs.push('@');
      continue;
    }
    let i = g.below(n);
    match g.below(10) {
      0 => cs.truncate(i),
      1 => {
        cs.remove(i);
      }
      2 => cs[i] = gen::any_char(g),
      3 => cs.insert(i, gen::any_char(g)),
      4 => {
        let j = (i + g.range(1, 40)).min(n);
        cs.drain(i..j);
      }
      5 => {
        let j = (i + g.range(1, 40)).min(n);
        let part: Vec<char> = cs[i..j].to_vec();
        let at = g.below(n);
        for (k, c) in part.into_iter().enumerate() {
          cs.insert(at + k, c);
        }
      }
      6 => {
        // remove one separator
        let c = *g.pick(&[' ', ':', ';', '=', '#', '@', '!']);
        if let Some(p) = cs[i..].iter().position(|x| *x == c) {
          cs.remove(i + p);
        }
      }
      7 => {
        let c = *g.pick(&[' ', ':', ';', '=', '#', '@', '!', '\u{1}']);
        cs.insert(i, c);
      }
      8 => {
        let w: Vec<char> = gen::text_of(g, 6, |_| true).chars().collect();
        cs.splice(i..i, w);
      }
      _ => {
        cs.drain(..i);
      }
    }
  }
  let t = cs.into_iter().collect();
  gen::affixed(g, t)
}

pub fn any_string(g: &mut Gen) -> String {
  match g.weighted(&[3, 3, 2]) {
    0 => {
      let l = model::any(g).wire.render();
      gen::affixed(g, l)
    }
    1 => {
      let l = model::any(g).wire.render();
      mutate(g, l)
    }
    _ => noise(g),
  }
}

// ------------------------------------------------------------------ C01

fn inside(whole: &str, part: &str) -> bool {
  let (a, b) = (whole.as_ptr() as usize, part.as_ptr() as usize);
  part.is_empty() && b == 1 || (b >= a && b + part.len() <= a + whole.len()) || part.is_empty()
}

/// Call everything there is to call on a string.
fn exercise(input: &str, extra_key: &str) -> CaseResult {
  let owned = IrcMessage::parse(input);
  let Some(m) = IrcMessageRef::parse(input) else {
    ensure!(owned.is_none(), "owned parse accepts what the borrowed parse rejects");
    let _ = Message::parse(input).map(|_| ());
    return Ok(());
  };
  let owned = owned.ok_or("owned parse rejects what the borrowed parse accepts")?;
  // slices of the input
  for (k, v) in m.tags() {
    ensure!(inside(input, k) && inside(input, v), "tag {k:?} is not a slice of the input");
    let a = tmi::unescape(v);
    let b = tmi::maybe_unescape(v);
    std::hint::black_box((a, b));
    let _ = m.tag(k);
  }
  if let Some(p) = m.prefix() {
    ensure!(inside(input, p.host), "prefix host is not a slice of the input");
    ensure!(p.nick.is_none_or(|x| inside(input, x)), "prefix nick is not a slice of the input");
    ensure!(p.user.is_none_or(|x| inside(input, x)), "prefix user is not a slice of the input");
    std::hint::black_box((p.to_string(), format!("{p:?}")));
  }
  ensure!(m.channel().is_none_or(|x| inside(input, x)), "channel is not a slice of the input");
  ensure!(m.params().is_none_or(|x| inside(input, x)), "params are not a slice of the input");
  ensure!(m.text().is_none_or(|x| inside(input, x)), "text is not a slice of the input");
  ensure!(inside(input, m.raw()) && m.raw().len() == input.len(), "raw is not the input");
  for (t, name) in tables::TAGS {
    std::hint::black_box((m.tag(t.clone()), m.tag(*name)));
  }
  std::hint::black_box((m.tag(extra_key), m.tag(Tag::Unknown(extra_key))));
  std::hint::black_box((format!("{m:?}"), format!("{owned:?}"), m.command().to_string(), format!("{:?}", m.command())));
  std::hint::black_box(view::raw_owned(&owned));
  std::hint::black_box(view::raw_ref(&owned.as_ref()));
  let back = owned.as_ref().into_owned();
  std::hint::black_box(back.as_typed().map(|t| format!("{t:?}")).ok());
  std::hint::black_box(m.clone().into_owned().raw().len());
  // typed
  macro_rules! typed {
    ($($t:ident),*) => { $( if let Ok(x) = tmi::$t::from_irc(m.clone()) { std::hint::black_box((format!("{x:?}"), x.clone() == x)); std::hint::black_box(x.into_owned()); } )* };
  }
  typed!(ClearChat, ClearMsg, GlobalUserState, Join, Notice, Part, Ping, Pong, Privmsg, RoomState, UserNotice, UserState, Whisper);
  if let Ok(t) = m.as_typed() {
    std::hint::black_box((view::message(&t), format!("{t:?}"), t.clone()));
  }
  Ok(())
}

fn c01_run(g: &mut Gen, ctx: &mut Ctx, text: String) -> CaseResult {
  ctx.input("input", &clip(&text, 4000));
  ctx.mix_hash(text.len() as u64);
  let key = gen::unrelated_key(g);
  ctx.nontrivial = !text.is_empty() && (text.starts_with('@') || IrcParse::ok(&text));
  gen::with_guarded(g, &text, |p| no_panic(|| exercise(p, &key)))?
}

struct IrcParse;
impl IrcParse {
  fn ok(s: &str) -> bool {
    no_panic(|| IrcMessageRef::parse(s).is_some()).unwrap_or(true)
  }
}

fn c01_noise(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let t = noise(g);
  c01_run(g, ctx, t)
}

fn c01_mutated(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let m = model::any(g);
  ctx.label(m.kind);
  let l = m.wire.render();
  let t = if g.chance(4, 5) { mutate(g, l) } else { l };
  c01_run(g, ctx, t)
}

/// A loosely tag-like section with lengths around vector sizes.
fn c01_tags(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let mut t = String::from("@");
  let n = match g.weighted(&[4, 3, 1]) {
    0 => gen::count(g, 0, 6),
    1 => gen::count(g, 7, 60),
    _ => g.range(100, 400),
  };
  for i in 0..n {
    if i > 0 {
      t.push(';');
    }
    match g.weighted(&[6, 1, 1, 1]) {
      0 => {
        let (a, b) = (gen::count(g, 0, 20), gen::count(g, 0, 40));
        t.extend(std::iter::repeat_n('k', a));
        t.push('=');
        t.extend(std::iter::repeat_n('v', b));
      }
      1 => {}
      2 => t.push_str("novalue"),
      _ => t.push_str("a=b=c"),
    }
  }
  ctx.label_if(n > 128, "more than 128 tags");
  match g.weighted(&[4, 1, 1, 1]) {
    0 => t.push_str(" PRIVMSG #a :b"),
    1 => {}
    2 => t.push(' '),
    _ => t.push_str("  "),
  }
  c01_run(g, ctx, t)
}

/// Every command with all sorts of params.
fn c01_params(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let mut m = model::any(g);
  m.wire.command = match g.chance(1, 4) {
    true => g.pick(&["353", "366"]).to_string(),
    false => g.pick(tables::COMMANDS).1.to_string(),
  };
  if !g.chance(1, 4) {
    m.wire.channel = None;
    let n = g.range(0, 6);
    let words: Vec<&str> = (0..n).map(|_| *g.pick(&["", "a", "#", "#a", "=", "*", ":", ":a", "é", "\u{2003}", "\t", "#a:"])).collect();
    m.wire.params = (n > 0).then(|| words.join(" "));
  }
  ctx.label("odd params");
  let l = m.wire.render();
  c01_run(g, ctx, l)
}
fn c01_huge(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let mut m = model::any(g);
  let big = g.range(1000, 140_000);
  let unit = *g.pick(&["a", " ", ";", "=", "é", ",", ":", "\\", "/", "\\s", "\\:", "⸝", "a/1,", "subscriber/1,", "25:0-1/", "\\\\", "a=b;", "\u{1}", "🙂"]);
  let big = if unit.len() > 2 { big / unit.len() } else { big };
  let run: String = std::iter::repeat_n(unit, big).collect();
  match g.weighted(&[1, 1, 1, 1, 1, 1, 6]) {
    0 => m.wire.params = Some(format!(":{run}")),
    1 => m.wire.channel = Some(format!("#{run}")),
    2 => m.wire.prefix = Some(run),
    3 => m.wire.command = run,
    4 => m.wire.tags.insert(0, ("k".into(), run)),
    5 => m.wire.tags.insert(0, (run, "v".into())),
    _ if m.wire.tags.is_empty() => m.wire.params = Some(run),
    _ => {
      let i = g.below(m.wire.tags.len());
      m.wire.tags[i].1 = run;
    }
  }
  ctx.label(m.kind);
  let l = m.wire.render();
  c01_run(g, ctx, l)
}

// ------------------------------------------------------------------ C02

/// A rest of line without tags.
fn rest(g: &mut Gen) -> Wire {
  let mut w = Wire { command: command(g).0, ..Default::default() };
  if g.bool() {
    w.prefix = Some(prefix(g).render());
  }
  if g.bool() {
    w.channel = Some(gen::channel(g));
  }
  if g.bool() {
    w.params = Some(params(g));
  }
  w
}

fn c02_check(g: &mut Gen, ctx: &mut Ctx, pairs: Vec<(String, String)>) -> CaseResult {
  let mut w = rest(g);
  let plain = w.render();
  w.tags = pairs;
  let line = w.render();
  ctx.input("line", &line);
  ctx.nontrivial = w.tags.len() >= 2 || w.tags.iter().any(|(k, v)| k.len() >= 16 || v.len() >= 16);
  ctx.label_if(w.tags.len() > 128, "more than 128 tags");
  ctx.label_if(w.tags.iter().any(|(k, v)| k.len() > 0xffff || v.len() > 0xffff), "longer than 64 KiB");
  let probe = match g.weighted(&[3, 1]) {
    0 => w.tags[g.below(w.tags.len())].0.clone(),
    _ => {
      let b = w.tags[g.below(w.tags.len())].0.clone();
      let n: String = gen::near_miss(g, &b).chars().filter(|c| gen::key_char(*c)).collect();
      n
    }
  };
  let base = IrcMessageRef::parse(&plain).ok_or("the line without tags is rejected")?;
  gen::with_guarded(g, &line, |p| {
    let m = IrcMessageRef::parse(p).ok_or("line with tags rejected")?;
    let got: Vec<(&str, &str)> = m.tags().collect();
    ensure_eq!(got.len(), w.tags.len(), "number of tags");
    for (i, (a, b)) in got.iter().zip(&w.tags).enumerate() {
      ensure!(a.0 == b.0 && a.1 == b.1, "tag {i}: got {:?}={:?}, expected {:?}={:?}", clip(a.0, 80), clip(a.1, 80), clip(&b.0, 80), clip(&b.1, 80));
    }
    ensure_eq!(m.tag(probe.as_str()), w.get(&probe), "tag({probe:?})");
    if w.tags.len() <= 64 {
      for (k, _) in &w.tags {
        ensure_eq!(m.tag(k.as_str()), w.get(k), "tag({k:?})");
        ensure_eq!(m.tag(Tag::Unknown(k)), w.get(k), "tag(Unknown({k:?}))");
      }
    }
    ensure_eq!(m.raw(), line.as_str(), "raw");
    ensure_eq!(m.prefix(), base.prefix(), "prefix");
    ensure_eq!(m.command(), base.command(), "command");
    ensure_eq!(m.channel(), base.channel(), "channel");
    ensure_eq!(m.params(), base.params(), "params");
    ensure_eq!(m.text(), base.text(), "text");
    let o = IrcMessage::parse(&line).ok_or("owned parse rejects the line")?;
    ensure!(o.tags().eq(m.tags()), "owned tags differ from borrowed tags");
    Ok(())
  })
}

fn key(g: &mut Gen) -> String {
  match g.weighted(&[8, 8, 1]) {
    0 => tables::TAGS[g.below(tables::TAGS.len())].1.to_string(),
    2 => String::new(),
    _ => gen::nonempty(g, 40, gen::key_char),
  }
}

fn c02_pairs(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let n = match g.weighted(&[2, 4, 2]) {
    0 => 1,
    1 => gen::count(g, 2, 12).max(1),
    _ => g.range(13, 40),
  };
  let mut pairs = vec![];
  for _ in 0..n {
    let k = key(g);
    let v = match g.weighted(&[3, 3, 1, 1]) {
      0 => gen::rawval(g),
      1 => gen::text_of(g, 200, gen::val_char),
      2 => String::new(),
      _ => {
        let n = g.range(1, 40);
        "=".repeat(n)
      }
    };
    pairs.push((k, v));
  }
  if n > 1 && g.chance(1, 4) {
    let k = pairs[g.below(n)].0.clone();
    let i = g.below(n);
    pairs[i].0 = k;
    ctx.label("duplicate key");
  }
  c02_check(g, ctx, pairs)
}

/// Separators at chosen offsets around multiples of the vector sizes.
fn c02_boundary(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let n = g.range(1, 8);
  let mut pairs = vec![];
  let mut at = 0usize;
  for i in 0..n {
    let step = *g.pick(&[16usize, 32, 64]);
    let target = at.div_ceil(step) * step + g.below(2) * step;
    let end = (target + g.below(5)).saturating_sub(2).max(at + 2);
    // key=value with the following ';' (or the space) at `end`
    let body = end - at - 1;
    let klen = match g.chance(1, 8) {
      true => 0,
      false => 1 + g.below(body),
    };
    let kc = (b'a' + (i % 26) as u8) as char;
    let vc = *g.pick(&['v', '=', '-', ':', '\\']);
    pairs.push((std::iter::repeat_n(kc, klen).collect(), std::iter::repeat_n(vc, body - klen).collect()));
    at = end + 1;
  }
  c02_check(g, ctx, pairs)
}

fn c02_many(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let n = match g.weighted(&[2, 3]) {
    0 => g.range(120, 136),
    _ => g.range(41, 400),
  };
  let short = g.bool();
  let pairs = (0..n)
    .map(|i| {
      let k = if short { format!("k{}", i % 300) } else { key(g) };
      let v = if short { "v".repeat(g.below(4)) } else { gen::rawval(g) };
      (k, v)
    })
    .collect();
  c02_check(g, ctx, pairs)
}

fn c02_long(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let n = g.range(1, 4);
  let mut pairs: Vec<(String, String)> = (0..n).map(|_| (key(g), gen::rawval(g))).collect();
  let len = match g.weighted(&[3, 2, 3]) {
    0 => *g.pick(&[65535usize, 65536, 65537, 65534, 131071, 131072]),
    1 => g.range(600, 5000),
    _ => g.range(5000, 100_000),
  };
  let c = *g.pick(&['a', '-', '\\', ':']);
  let big: String = std::iter::repeat_n(c, len).collect();
  let i = g.below(n);
  if g.bool() {
    pairs[i].0 = big;
  } else {
    pairs[i].1 = big;
  }
  c02_check(g, ctx, pairs)
}

// ------------------------------------------------------------------ C03

pub struct P {
  nick: Option<String>,
  user: Option<String>,
  host: String,
  /// Only the rendered form is specified.
  open: bool,
}
impl P {
  fn render(&self) -> String {
    match (&self.nick, &self.user) {
      (Some(n), Some(u)) => format!("{n}!{u}@{}", self.host),
      (Some(n), None) => format!("{n}@{}", self.host),
      _ => self.host.clone(),
    }
  }
}
pub fn prefix(g: &mut Gen) -> P {
  let shape = g.weighted(&[1, 2, 2]);
  let host = match g.weighted(&[2, 1]) {
    0 => "tmi.twitch.tv".to_string(),
    _ => gen::nonempty(g, 40, gen::nick_char),
  };
  P { nick: (shape > 0).then(|| gen::nick(g)), user: (shape > 1).then(|| gen::nick(g)), host, open: false }
}

/// (text, identifier expected for it)
fn command(g: &mut Gen) -> (String, Option<Command<'static>>) {
  match g.weighted(&[5, 1, 1, 1]) {
    0 => {
      // not a names reply: its channel rule differs
      let (c, n) = tables::COMMANDS[g.below(tables::COMMANDS.len())].clone();
      if n == "353" || n == "366" {
        ("PRIVMSG".into(), Some(Command::Privmsg))
      } else {
        (n.to_string(), Some(c))
      }
    }
    1 => {
      let n = g.below(1000);
      let t = format!("{n:03}");
      if tables::COMMANDS.iter().any(|(_, n)| *n == t) {
        ("999".into(), None)
      } else {
        (t, None)
      }
    }
    2 => {
      let base = tables::COMMANDS[g.below(tables::COMMANDS.len())].1;
      fix_command(gen::near_miss(g, base))
    }
    _ => fix_command(gen::nonempty(g, 20, gen::word_char)),
  }
}

fn fix_command(s: String) -> (String, Option<Command<'static>>) {
  let s: String = s.chars().filter(|c| gen::word_char(*c)).collect();
  let s = s.trim_start_matches(['@', ':', '#']).to_string();
  if s.is_empty() || tables::COMMANDS.iter().any(|(_, n)| *n == s) {
    ("X".into(), None)
  } else {
    (s, None)
  }
}

/// Non-empty params that do not look like a channel.
fn params(g: &mut Gen) -> String {
  let p = match g.weighted(&[3, 2, 1]) {
    0 => format!(":{}", gen::chat_text(g)),
    1 => {
      let n = g.range(1, 4);
      let mut w: Vec<String> = (0..n).map(|_| gen::nonempty(g, 12, gen::word_char)).collect();
      if g.bool() {
        w.push(format!(":{}", gen::chat_text(g)));
      }
      w.join(" ")
    }
    _ => gen::chat_text(g),
  };
  let p = p.trim_start_matches(['#', ' ']).to_string();
  if p.is_empty() {
    "*".into()
  } else {
    p
  }
}

fn reference_text(params: &str) -> &str {
  let mut it = params.splitn(2, ':');
  let first = it.next().unwrap();
  it.next().unwrap_or(first)
}

fn c03_lines(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let mut w = Wire::default();
  if g.bool() {
    for _ in 0..g.range(1, 5) {
      w.tags.push((key(g), gen::rawval(g)));
    }
  }
  let p = if g.chance(2, 3) { Some(prefix(g)) } else { None };
  w.prefix = p.as_ref().map(P::render);
  let (c, id) = command(g);
  w.command = c;
  if id.is_none() && g.chance(1, 12) {
    // what opens a tag section or a prefix opens neither here
    let mut open = vec!["#"];
    if p.is_some() || !w.tags.is_empty() {
      open.extend(["@", "=", ";"]);
    }
    if p.is_some() {
      open.extend([":", "::", "!"]);
    }
    let o = *g.pick(&open);
    w.command = if g.bool() { o.to_string() } else { format!("{o}{}", w.command) };
    ctx.label("command that looks like something else");
  }
  if g.chance(2, 3) {
    w.channel = Some(if g.chance(1, 30) { "#".to_string() } else { gen::channel(g) });
  }
  if g.chance(2, 3) {
    w.params = Some(params(g));
    if w.channel.is_some() && g.chance(1, 12) {
      w.params = w.params.map(|p| format!("#{p}"));
      ctx.label("params that begin with a hash");
    } else if g.chance(1, 12) {
      w.params = w.params.map(|p| format!("{}{p}", " ".repeat(g.range(1, 3))));
      ctx.label("params that begin with a space");
    }
  }
  // a user with further `!`: where it is split is left open
  let p = match p {
    Some(P { nick, user: Some(u), host, .. }) if g.chance(1, 12) => {
      ctx.label("several ! in the prefix");
      Some(P { nick, user: Some(format!("{u}!{}", gen::nick(g))), host, open: true })
    }
    p => p,
  };
  w.prefix = p.as_ref().map(P::render);
  let line = w.render();
  ctx.input("line", &line);
  ctx.nontrivial = [!w.tags.is_empty(), p.is_some(), w.channel.is_some(), w.params.is_some()].iter().filter(|x| **x).count() >= 2;
  gen::with_guarded(g, &line, |s| {
    let m = IrcMessageRef::parse(s).ok_or("well-formed line rejected")?;
    check_parts(&m, &line, &w, p.as_ref(), id.as_ref(), w.channel.as_deref())
  })
}

fn check_parts(m: &IrcMessageRef<'_>, line: &str, w: &Wire, p: Option<&P>, id: Option<&Command<'static>>, channel: Option<&str>) -> CaseResult {
  ensure_eq!(m.raw(), line, "raw");
  ensure!(m.tags().map(|(a, b)| (a.to_string(), b.to_string())).eq(w.tags.iter().cloned()), "tags differ: got {:?}", m.tags().collect::<Vec<_>>());
  match (m.prefix(), p) {
    (None, None) => {}
    (Some(a), Some(b)) => {
      if !b.open {
        ensure_eq!(a.nick, b.nick.as_deref(), "prefix nick");
        ensure_eq!(a.user, b.user.as_deref(), "prefix user");
      }
      ensure_eq!(a.host, b.host.as_str(), "prefix host");
      ensure_eq!(a.to_string(), b.render(), "prefix rendered");
    }
    (a, b) => return Err(format!("prefix: got {a:?}, expected {:?}", b.map(P::render))),
  }
  match id {
    Some(c) => ensure_eq!(m.command(), *c, "command"),
    None => ensure_eq!(m.command(), Command::Other(&w.command), "command"),
  }
  ensure_eq!(m.command().as_str(), w.command.as_str(), "command name");
  ensure_eq!(m.channel(), channel, "channel");
  ensure_eq!(m.params(), w.params.as_deref(), "params");
  ensure_eq!(m.text(), w.params.as_deref().map(reference_text), "text");
  let o = IrcMessage::parse(line).ok_or("owned parse rejects a well-formed line")?;
  ensure_eq!(o.channel(), channel, "owned channel");
  ensure_eq!(o.params(), w.params.as_deref(), "owned params");
  ensure_eq!(o.raw(), line, "owned raw");
  ensure_eq!(o.text(), w.params.as_deref().map(reference_text), "owned text");
  ensure_eq!(o.prefix().map(|p| p.to_string()), p.map(P::render), "owned prefix");
  Ok(())
}

/// Replies whose channel is inside the params.
fn c03_names(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let names = g.bool();
  let mut w = Wire { command: if names { "353" } else { "366" }.into(), ..Default::default() };
  if g.bool() {
    w.tags.push((key(g), gen::rawval(g)));
  }
  let p = if g.chance(3, 4) { Some(prefix(g)) } else { None };
  w.prefix = p.as_ref().map(P::render);
  fn plain(c: char) -> bool {
    gen::word_char(c) && !c.is_whitespace() && c != ':' && c != '#'
  }
  let me = gen::nonempty(g, 20, plain);
  let chan = format!("#{}", gen::nonempty(g, 20, plain));
  let tail = gen::chat_text(g);
  w.params = Some(if names {
    let sym = *g.pick(&["=", "@", "*"]);
    format!("{me} {sym} {chan} :{tail}")
  } else {
    format!("{me} {chan} :{tail}")
  });
  let line = w.render();
  ctx.input("line", &line);
  ctx.nontrivial = true;
  ctx.label("names reply");
  let id = if names { Command::RplNames } else { Command::RplEndOfNames };
  gen::with_guarded(g, &line, |s| {
    let m = IrcMessageRef::parse(s).ok_or("well-formed names reply rejected")?;
    check_parts(&m, &line, &w, p.as_ref(), Some(&id), Some(&chan))
  })
}

fn c03_reject(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let mut line = String::new();
  if g.bool() {
    line.push('@');
    for i in 0..g.range(1, 4) {
      if i > 0 {
        line.push(';');
      }
      line.push_str(&format!("{}={}", key(g), gen::rawval(g)));
    }
    line.push(' ');
  }
  if g.bool() {
    line.push_str(&format!(":{} ", prefix(g).render()));
  }
  // nothing where the command belongs
  if g.bool() {
    line.push(' ');
    if g.bool() {
      line.push_str(&gen::chat_text(g));
    }
  }
  ctx.input("line", &line);
  ctx.nontrivial = true;
  ctx.label("no command");
  gen::with_guarded(g, &line, |s| {
    ensure!(IrcMessageRef::parse(s).is_none(), "a line without a command is accepted");
    ensure!(IrcMessage::parse(s).is_none(), "a line without a command is accepted as owned");
    ensure!(Message::parse(s).is_err(), "a line without a command is accepted as a typed message");
    Ok(())
  })
}

// ------------------------------------------------------------------ C04

fn c04_run(ctx: &mut Ctx, t: String) -> CaseResult {
  ctx.input("input", &clip(&t, 4000));
  ctx.mix_hash(t.len() as u64);
  ctx.nontrivial = t.starts_with('@');
  let here = crate::peers::answer(&t);
  ctx.label(if here.starts_with("parse") {
    "rejected"
  } else if here.contains("typed\u{1f}") {
    "typed parse rejected"
  } else {
    "accepted"
  });
  for (i, p) in crate::peers::paths().iter().enumerate() {
    let there = crate::peers::ask(i, &t).map_err(|e| format!("the build {p} {e}"))?;
    if here != there {
      let (a, b) = (crate::peers::decode(&there), crate::peers::decode(&here));
      return Err(format!("{p} differs from the AVX2 build: {}", view::diff(&a, &b).unwrap_or_else(|| "encoding".into())));
    }
  }
  Ok(())
}

/// Tag sections good and bad, with separators anywhere.
fn c04_sections(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let mut t = String::from("@");
  let n = match g.weighted(&[3, 3, 1]) {
    0 => gen::count(g, 0, 3),
    1 => gen::count(g, 4, 12),
    _ => g.range(13, 60),
  };
  for i in 0..n {
    if i > 0 {
      t.push(';');
    }
    match g.weighted(&[8, 2, 1, 1, 1, 1, 1]) {
      0 => {
        t.push_str(&key(g));
        t.push('=');
        t.push_str(&gen::rawval(g));
      }
      1 => {
        let n = gen::count(g, 0, 70);
        t.extend(std::iter::repeat_n('k', n));
        t.push('=');
        let n = gen::count(g, 0, 70);
        t.extend(std::iter::repeat_n('v', n));
      }
      2 => t.push_str(&key(g)),
      3 => {
        t.push('=');
        t.push_str(&gen::rawval(g));
      }
      4 => {}
      5 => {
        t.push_str(&key(g));
        t.push_str("==");
        t.push_str(&gen::rawval(g));
      }
      _ => {
        let n = g.range(1, 40);
        for _ in 0..n {
          t.push(*g.pick(&['=', ';', 'a', 'é', '\u{1f600}']));
        }
      }
    }
  }
  if g.chance(1, 6) {
    t.push(';');
  }
  match g.weighted(&[6, 1, 1, 1]) {
    0 => {
      t.push(' ');
      t.push_str(&rest(g).render());
    }
    1 => {}
    2 => t.push(' '),
    _ => {
      t.push_str("  ");
      t.push_str(&rest(g).render());
    }
  }
  c04_run(ctx, t)
}
fn c04_mutated(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let l = model::any(g).wire.render();
  let t = mutate(g, l);
  c04_run(ctx, t)
}
fn c04_noise(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let t = noise(g);
  c04_run(ctx, t)
}
fn c04_wellformed(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let t = match g.weighted(&[6, 2]) {
    0 => model::any(g).wire.render(),
    _ => words_line(g),
  };
  let t = gen::affixed(g, t);
  c04_run(ctx, t)
}
fn c04_large(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let mut w = rest(g);
  if g.bool() {
    for i in 0..g.range(100, 300) {
      w.tags.push((format!("k{i}"), gen::rawval(g)));
    }
  } else {
    let big = g.range(60_000, 70_000);
    let c = *g.pick(&['a', '=', 'é']);
    w.tags.push(("k".into(), std::iter::repeat_n(c, big).collect()));
    w.tags.push((key(g), gen::rawval(g)));
  }
  c04_run(ctx, w.render())
}

// ------------------------------------------------------------------ C05

fn c05_run(_g: &mut Gen, ctx: &mut Ctx, t: String) -> CaseResult {
  ctx.input("input", &t);
  let a = IrcMessageRef::parse(&t);
  let b = IrcMessage::parse(&t);
  ensure_eq!(b.is_some(), a.is_some(), "owned parse succeeds");
  let b2 = IrcMessage::parse(t.clone());
  ensure_eq!(b2.is_some(), a.is_some(), "owned parse from String succeeds");
  let (Some(a), Some(b)) = (a, b) else { return Ok(()) };
  ctx.nontrivial = true;
  let want = view::raw_ref(&a);
  let same = |what: &str, v: view::View| -> CaseResult {
    match view::diff(&v, &want) {
      Some(d) => Err(format!("{what} differs from the borrowed parse: {d}")),
      None => Ok(()),
    }
  };
  same("owned parse", view::raw_owned(&b))?;
  same("owned parse from String", view::raw_owned(&b2.unwrap()))?;
  same("owned.as_ref()", view::raw_ref(&b.as_ref()))?;
  same("borrowed clone", view::raw_ref(&a.clone()))?;
  let c = a.clone().into_owned();
  same("borrowed.into_owned()", view::raw_owned(&c))?;
  let d = c.as_ref().into_owned().as_ref().clone().into_owned();
  same("converted back and forth", view::raw_owned(&d))?;
  for (t, _) in tables::TAGS {
    ensure_eq!(b.tag(t.clone()), a.tag(t.clone()), "owned tag({t:?})");
    ensure_eq!(d.tag(t.clone()), a.tag(t.clone()), "converted tag({t:?})");
  }
  let typed = |r: Result<Message<'_>, tmi::MessageParseError>| r.ok().map(|m| view::message(&m));
  let w = typed(a.clone().as_typed());
  for (what, v) in [("owned.as_typed()", typed(b.as_typed())), ("owned.as_ref().as_typed()", typed(b.as_ref().as_typed())), ("converted.as_typed()", typed(d.as_typed())), ("Message::parse", typed(Message::parse(&t)))] {
    match (v, &w) {
      (None, None) => {}
      (Some(v), Some(w)) => {
        if let Some(d) = view::diff(&v, w) {
          return Err(format!("{what}: {d}"));
        }
      }
      (v, w) => return Err(format!("{what} succeeds: got {}, expected {}", v.is_some(), w.is_some())),
    }
  }
  Ok(())
}

/// Any line of few words whose words start with characters that mean something,
/// names replies above all.
pub fn words_line(g: &mut Gen) -> String {
  let mut w = Wire { command: if g.chance(2, 3) { g.pick(&["353", "366"]).to_string() } else { command(g).0 }, ..Default::default() };
  if g.bool() {
    w.prefix = Some(prefix(g).render());
  }
  if g.chance(1, 3) {
    w.tags.push((key(g), gen::rawval(g)));
  }
  let words: Vec<String> = (0..gen::count(g, 0, 7))
    .map(|_| {
      let lead = *g.pick(&["", "", "#", ":", "=", "@", "*", "##", ":#", "=#", ":!", " "]);
      match g.weighted(&[3, 1, 1]) {
        0 => format!("{lead}{}", gen::nonempty(g, 8, gen::word_char)),
        1 => lead.to_string(),
        _ => format!("{lead}{}", gen::chat_text(g)),
      }
    })
    .collect();
  let mut t = w.render();
  if !words.is_empty() {
    t.push(' ');
    t.push_str(&words.join(" "));
  }
  t
}

fn c05_wellformed(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let t = match g.weighted(&[6, 2, 2]) {
    0 => model::any(g).wire.render(),
    2 => words_line(g),
    _ => {
      let mut w = rest(g);
      for _ in 0..g.below(4) {
        w.tags.push((key(g), gen::rawval(g)));
      }
      w.render()
    }
  };
  let t = gen::affixed(g, t);
  c05_run(g, ctx, t)
}
fn c05_mutated(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let l = model::any(g).wire.render();
  let t = mutate(g, l);
  c05_run(g, ctx, t)
}
fn c05_noise(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let t = noise(g);
  c05_run(g, ctx, t)
}

// ------------------------------------------------------------------ C06

fn expected_tag(name: &str) -> Tag<'_> {
  match tables::TAGS.iter().find(|(_, n)| *n == name) {
    Some((t, _)) => t.clone(),
    None => Tag::Unknown(name),
  }
}

fn any_name(g: &mut Gen, ctx: &mut Ctx, names: &[&str], ok: fn(char) -> bool) -> String {
  match g.weighted(&[4, 5, 2]) {
    0 => {
      ctx.label("documented name");
      ctx.nontrivial = true;
      names[g.below(names.len())].to_string()
    }
    1 => {
      ctx.label("near miss");
      ctx.nontrivial = true;
      let mut s = names[g.below(names.len())].to_string();
      for _ in 0..g.range(1, 2) {
        if s.is_empty() {
          break;
        }
        s = gen::near_miss(g, &s).chars().filter(|c| ok(*c)).collect();
      }
      s
    }
    _ => gen::text_of(g, 40, ok),
  }
}

fn c06_tags(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let names: Vec<&str> = tables::TAGS.iter().map(|(_, n)| *n).collect();
  let name = any_name(g, ctx, &names, |_| true);
  ctx.input("name", &name);
  let want = expected_tag(&name);
  let t = Tag::parse(&name);
  ensure_eq!(t, want, "Tag::parse({name:?})");
  ensure_eq!(Tag::from(name.as_str()), want, "Tag::from({name:?})");
  ensure_eq!(t.as_str(), name.as_str(), "as_str of {t:?}");
  ensure_eq!(t.to_string(), name, "Display of {t:?}");
  ensure_eq!(Tag::parse(t.as_str()), want, "parse of as_str of {t:?}");
  // identifiers are distinct
  let (a, an) = &tables::TAGS[g.below(tables::TAGS.len())];
  ensure_eq!(*a == want, *an == name, "identity of {a:?} and {want:?}");
  ensure_eq!(a.as_str(), *an, "as_str of {a:?}");
  ensure_eq!(a.to_string(), an.to_string(), "Display of {a:?}");
  Ok(())
}

fn c06_commands(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let names: Vec<&str> = tables::COMMANDS.iter().map(|(_, n)| *n).collect();
  let name = match g.weighted(&[8, 1]) {
    0 => any_name(g, ctx, &names, gen::word_char),
    _ => format!("{:03}", g.below(1000)),
  };
  let name = name.trim_start_matches(['@', ':']).to_string();
  if name.is_empty() {
    return Ok(());
  }
  ctx.input("name", &name);
  let want = match tables::COMMANDS.iter().find(|(_, n)| *n == name) {
    Some((c, _)) => *c,
    None => Command::Other(&name),
  };
  let mut w = Wire { command: name.clone(), ..Default::default() };
  if g.bool() {
    w.prefix = Some(prefix(g).render());
  }
  if g.bool() {
    w.tags.push((key(g), gen::rawval(g)));
  }
  if g.bool() {
    w.params = Some(params(g));
  }
  let line = w.render();
  let m = IrcMessageRef::parse(&line).ok_or_else(|| format!("{line:?} rejected"))?;
  ensure_eq!(m.command(), want, "command of {line:?}");
  ensure_eq!(m.command().as_str(), name.as_str(), "as_str of the command");
  ensure_eq!(m.command().to_string(), name, "Display of the command");
  let o = IrcMessage::parse(&line).ok_or("owned parse rejected")?;
  ensure_eq!(o.command(), want, "owned command");
  let (a, an) = tables::COMMANDS[g.below(tables::COMMANDS.len())];
  ensure_eq!(a == want, an == name, "identity of {a:?} and {want:?}");
  ensure_eq!(a.as_str(), an, "as_str of {a:?}");
  Ok(())
}

fn c06_lookup(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  // a message with a random subset of documented and look-alike names
  let mut w = Wire { command: "X".into(), ..Default::default() };
  let n = g.range(1, 20);
  for i in 0..n {
    let names: Vec<&str> = tables::TAGS.iter().map(|(_, n)| *n).collect();
    let k: String = any_name(g, ctx, &names, gen::key_char);
    if k.is_empty() || w.has(&k) {
      continue;
    }
    w.tags.push((k, format!("value-{i}")));
  }
  let line = w.render();
  ctx.input("line", &line);
  let m = IrcMessageRef::parse(&line).ok_or("rejected")?;
  let o = IrcMessage::parse(&line).ok_or("owned rejected")?;
  for (t, name) in tables::TAGS {
    let want = w.get(name);
    ensure_eq!(m.tag(t.clone()), want, "tag({t:?})");
    ensure_eq!(m.tag(*name), want, "tag({name:?})");
    ensure_eq!(o.tag(t.clone()), want, "owned tag({t:?})");
    ensure_eq!(o.tag(*name), want, "owned tag({name:?})");
  }
  for (k, v) in &w.tags {
    ensure_eq!(m.tag(k.as_str()), Some(v.as_str()), "tag({k:?})");
    ensure_eq!(o.tag(k.as_str()), Some(v.as_str()), "owned tag({k:?})");
  }
  Ok(())
}

// ------------------------------------------------------------------ C07

/// Reference decoder: written as a rewriting of pairs.
pub fn reference_unescape(v: &str) -> String {
  let cs: Vec<char> = v.chars().collect();
  let mut out = String::new();
  let mut i = 0;
  let plain = |c: char| if c == '⸝' { ',' } else { c };
  while i < cs.len() {
    if cs[i] != '\\' {
      out.push(plain(cs[i]));
      i += 1;
      continue;
    }
    match cs.get(i + 1) {
      None => {}
      Some(':') => out.push(';'),
      Some('s') => out.push(' '),
      Some('r') => out.push('\r'),
      Some('n') => out.push('\n'),
      Some('\\') => out.push('\\'),
      Some(c) => out.push(plain(*c)),
    }
    i += 2;
  }
  out
}

fn both(v: &str, want: &str) -> CaseResult {
  ensure_eq!(tmi::unescape(v), want, "unescape({v:?})");
  ensure_eq!(tmi::maybe_unescape(v), want, "maybe_unescape({v:?})");
  ensure_eq!(tmi::maybe_unescape(v.to_string()), want, "maybe_unescape(owned {v:?})");
  Ok(())
}

fn c07_roundtrip(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let plain = match g.weighted(&[3, 2]) {
    0 => gen::text_of(g, 200, |c| c != '⸝'),
    _ => {
      let n = gen::len(g, 60);
      (0..n).map(|_| *g.pick(&[';', ' ', '\\', '\r', '\n', ',', ':', 's', 'r', 'n', 'é', '\u{1f600}'])).collect()
    }
  };
  let comma = g.bool();
  let wire = gen::escape(&plain, comma);
  ctx.input("plain", &plain);
  ctx.nontrivial = wire.contains(['\\', '⸝']);
  both(&wire, &plain)
}

fn c07_malformed(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let v: String = match g.weighted(&[3, 2]) {
    0 => {
      let n = gen::len(g, 60);
      (0..n).map(|_| *g.pick(&['\\', '\\', '⸝', ':', 's', 'r', 'n', 'x', ';', ' ', ',', 'é', 'S'])).collect()
    }
    _ => gen::text_of(g, 200, |_| true),
  };
  ctx.input("value", &v);
  ctx.nontrivial = v.contains(['\\', '⸝']);
  both(&v, &reference_unescape(&v))
}

fn c07_nocopy(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let v = gen::text_of(g, 200, |c| c != '\\' && c != '⸝');
  ctx.input("value", &v);
  ctx.nontrivial = !v.is_empty();
  both(&v, &v)?;
  match tmi::maybe_unescape(v.as_str()) {
    std::borrow::Cow::Borrowed(b) => ensure!(b.as_ptr() == v.as_ptr() && b.len() == v.len(), "the borrow returned is not the input"),
    std::borrow::Cow::Owned(_) => return Err(format!("maybe_unescape copied {v:?}, which needs no unescaping")),
  }
  let o = v.clone();
  let (ptr, len) = (o.as_ptr(), o.len());
  let r = tmi::maybe_unescape(o);
  ensure!(r.as_ptr() == ptr && r.len() == len, "maybe_unescape copied an owned value that needs no unescaping");
  Ok(())
}

// ------------------------------------------------------------------ C33

fn c33_placement(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let t = any_string(g);
  ctx.input("input", &t);
  ctx.nontrivial = t.len() >= 16;
  let want = view::full(&t);
  let fill = *g.pick(b" ;=@:a#\\\xff\x01");
  let fill2 = *g.pick(b" ;=");
  let off = g.below(64);
  let fixed = off & !31;
  for (what, fill, mode, off) in [("at the end of a mapped region", fill, 0, 0), ("at the start of a mapped region", fill, 1, 0), ("at another alignment", fill, 2, off), ("with other neighbouring bytes", fill2, 2, off), ("at a vector-aligned address", fill, 2, fixed)] {
    let v = gen::place(&t, fill, mode, off, view::full);
    if let Some(d) = view::diff(&v, &want) {
      return Err(format!("{what} (fill {fill:#x}, offset {off}) the result differs: {d}"));
    }
  }
  // as part of a longer string
  let around = format!("{}{}{}", " ".repeat(off), t, g.pick(&[" ", ";", "=x ", "\u{e9}"]));
  let v = view::full(&around[off..off + t.len()]);
  if let Some(d) = view::diff(&v, &want) {
    return Err(format!("as a slice of a longer string the result differs: {d}"));
  }
  Ok(())
}

/// Strings some of which are alike: equal length, equal beginning or end, the
/// same pieces in another order.
fn relatives(g: &mut Gen, n: usize) -> Vec<String> {
  let mut out: Vec<String> = vec![];
  while out.len() < n {
    if out.is_empty() || g.chance(1, 3) {
      out.push(any_string(g));
      continue;
    }
    let base = out[g.below(out.len())].clone();
    let mut c: Vec<char> = base.chars().collect();
    if c.len() < 2 {
      out.push(any_string(g));
      continue;
    }
    let kind = g.below(5);
    // where the two begin to differ
    let from = match g.weighted(&[2, 1]) {
      0 => g.below(c.len() - 1),
      _ => c.len() * 2 / 3,
    };
    match kind {
      0 => {
        // swap two chars
        let j = g.range(from, c.len() - 1);
        c.swap(from, j);
      }
      1 => {
        // chars of the same size in place of others
        for _ in 0..g.range(1, 4) {
          let i = g.range(from, c.len() - 1);
          if c[i].is_ascii() {
            c[i] = *g.pick(&[';', '=', ' ', ':', '#', '@', '!', 'a', '/', ',', '1']);
          }
        }
      }
      2 => {
        // move a char
        let j = g.range(from, c.len() - 1);
        let x = c.remove(from);
        c.insert(j, x);
      }
      3 => {
        let k = g.range(1, c.len() - from);
        let tail = c.len() - from;
        c[from..].rotate_left(k % tail);
      }
      _ => {
        let t: Vec<char> = any_string(g).chars().collect();
        c.truncate(from);
        c.extend(t);
      }
    }
    out.push(c.into_iter().collect());
  }
  out
}

/// Messages that differ in how many or how large pieces they have, in sizes
/// about which a parser might remember something.
fn sized(g: &mut Gen, n: usize) -> Vec<String> {
  const SIZES: &[usize] = &[0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 130, 200, 255, 256, 257, 600];
  let kind = g.below(5);
  let mut sizes: Vec<usize> = (0..g.range(1, 3)).map(|_| *g.pick(SIZES)).collect();
  let next = sizes[0] + 1;
  sizes.push(next);
  (0..n)
    .map(|_| {
      let n = match g.weighted(&[4, 1]) {
        0 => *g.pick(&sizes),
        _ => *g.pick(SIZES),
      };
      let c = (b'a' + g.below(26) as u8) as char;
      let list = |f: &dyn Fn(usize) -> String, sep: &str| (0..n).map(f).collect::<Vec<_>>().join(sep);
      if kind == 4 {
        return if n == 0 { "PING".into() } else { format!("@{} PING", list(&|i| format!("{c}{i}={i}"), ";")) };
      }
      let (tags, text) = match kind {
        0 => (list(&|i| format!(";{c}{i}={i}"), ""), c.to_string()),
        1 => (format!(";badges={};badge-info={}", list(&|i| format!("{c}{i}/{i}"), ","), list(&|i| format!("{c}{i}/{c}"), ",")), c.to_string()),
        2 => (String::new(), c.to_string().repeat(n)),
        _ => (format!(";system-msg={}", format!("{c}\\s").repeat(n)), c.to_string()),
      };
      format!("@room-id=1;id={c};user-id=2;display-name={c};tmi-sent-ts=1{tags} :{c}!{c}@{c} PRIVMSG #{c} :{text}")
    })
    .collect()
}

fn c33_history(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let n = g.range(2, 12);
  let inputs = match g.weighted(&[3, 3, 2]) {
    0 => (0..n).map(|_| any_string(g)).collect(),
    1 => relatives(g, n),
    _ => sized(g, n),
  };
  let first: Vec<_> = inputs.iter().map(|t| view::full(t)).collect();
  for t in &inputs {
    ctx.input("input", t);
    ctx.nontrivial |= t.len() >= 16;
  }
  for _ in 0..2 * n {
    let i = g.below(n);
    if let Some(d) = view::diff(&view::full(&inputs[i]), &first[i]) {
      return Err(format!("parsing {:?} again gives a different result: {d}", clip(&inputs[i], 200)));
    }
  }
  Ok(())
}

fn c33_threads(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let n = g.range(2, 6);
  let inputs = if g.bool() { (0..n).map(|_| any_string(g)).collect() } else { relatives(g, n) };
  for t in &inputs {
    ctx.input("input", t);
    ctx.nontrivial |= t.len() >= 16;
  }
  let first: Vec<_> = inputs.iter().map(|t| view::full(t)).collect();
  let mut err = None;
  std::thread::scope(|sc| {
    let hs: Vec<_> = (0..4)
      .map(|k| {
        let (inputs, first) = (&inputs, &first);
        sc.spawn(move || {
          no_panic(|| {
            for r in 0..20 {
              let i = (r * (k + 1) + k) % inputs.len();
              if let Some(d) = view::diff(&view::full(&inputs[i]), &first[i]) {
                return Some(format!("parsing {:?} concurrently gives a different result: {d}", clip(&inputs[i], 200)));
              }
            }
            None
          })
        })
      })
      .collect();
    for h in hs {
      match h.join().unwrap() {
        Ok(None) => {}
        Ok(Some(e)) | Err(e) => err = Some(e),
      }
    }
  });
  match err {
    Some(e) => Err(e),
    None => Ok(()),
  }
}
