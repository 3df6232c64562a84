//! C37 and C38: what holds of values and of memory, whatever the message.
use super::typed::{each_part, labels, shuffle, v, Part};
use super::{raw, s, Prop};
use crate::alloc;
use crate::engine::{clip, CaseResult, Ctx, Gen};
use crate::gen::{self, Wire};
use crate::model::{self, Gm};
use crate::tables;
use crate::view;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::hint::black_box;
use tmi::{Command, FromIrc, IrcMessage, IrcMessageRef, Message, Tag};

pub fn props() -> Vec<Prop> {
  vec![
    Prop {
      id: "C37",
      rule: "pairs of lines of one kind: the same elements in another place, order or company; or one element edited, removed, swapped or taken from another message; every type, every nested part of the two messages in all pairs, and triples of tag and command names. Non-trivial: the two lines differ.",
      streams: vec![s("messages", 5, c37_messages), s("names", 2, c37_names), s("prefixes", 1, c37_prefixes)],
    },
    Prop {
      id: "C38",
      rule: "lines of every kind, mutated ones, and lines with long runs, read in every way (raw, typed, owned, cloned, printed, through JSON) under an allocator that keeps account: the most that is held at a time, what is left after the same line again and again, and after thousands of different lines. Non-trivial: the line parses as a message.",
      streams: vec![s("peak", 200, c38_peak), s("again", 200, c38_again), s("many", 1, c38_many)],
    },
  ]
}

// ------------------------------------------------------------------ C37

/// Another line of the same kind. True if it says the same.
fn relative(g: &mut Gen, m: &Gm) -> (Wire, bool) {
  let mut n = m.clone();
  let reads = model::reads(m.kind, m.event);
  match g.weighted(&[2, 3, 8, 3, 2, 2, 4]) {
    0 => return (n.wire, true),
    1 => {
      shuffle(g, &mut n);
      for _ in 0..g.below(4) {
        model::add_unrelated(g, &mut n);
      }
      return (n.wire, true);
    }
    2 if !n.wire.tags.is_empty() => {
      let mine: Vec<usize> = (0..n.wire.tags.len()).filter(|i| reads.contains(&n.wire.tags[*i].0.as_str())).collect();
      let i = match mine.is_empty() {
        true => g.below(n.wire.tags.len()),
        false => *g.pick(&mine),
      };
      let old = n.wire.tags[i].1.clone();
      n.wire.tags[i].1 = match g.weighted(&[4, 2, 2]) {
        0 => gen::near_miss(g, &old).chars().filter(|c| gen::val_char(*c)).collect(),
        1 => old.parse::<u64>().map(|n| n.wrapping_add(1).to_string()).unwrap_or(old + "x"),
        _ => gen::rawval(g),
      };
    }
    3 => {
      let part = match g.below(4) {
        0 => &mut n.wire.channel,
        1 => &mut n.wire.prefix,
        _ => &mut n.wire.params,
      };
      if let Some(p) = part {
        *p = gen::near_miss(g, p).chars().filter(|c| gen::plain_char(*c)).collect();
      }
    }
    4 if !n.wire.tags.is_empty() => {
      let i = g.below(n.wire.tags.len());
      n.wire.tags.remove(i);
    }
    5 if n.wire.tags.len() > 1 => {
      let (i, j) = (g.below(n.wire.tags.len()), g.below(n.wire.tags.len()));
      let (a, b) = (n.wire.tags[i].1.clone(), n.wire.tags[j].1.clone());
      n.wire.tags[i].1 = b;
      n.wire.tags[j].1 = a;
    }
    _ => {
      let o = model::of_kind(g, m.kind);
      // mostly as before
      let keep = g.below(4);
      for (k, val) in &o.wire.tags {
        if g.below(4) >= keep {
          n.wire.set(k, val);
        }
      }
      if g.bool() {
        n.wire.params = o.wire.params;
      }
    }
  }
  (n.wire, false)
}

impl Part<'_, '_> {
  /// Whether the values are equal, and whether they read the same; None if
  /// they are of different types.
  fn compare(&self, other: &Part<'_, '_>) -> Option<(bool, bool, String)> {
    macro_rules! go {
      ($a:expr, $b:expr, $view:expr) => {{
        let (a, b) = ($a, $b);
        let (x, y) = ($view(a), $view(b));
        let eq = a == b;
        assert!(eq == (b == a) && eq != (a != b), "== is not symmetric, or != is not its opposite: {a:?} / {b:?}");
        Some((eq, x == y, format!("{a:?} / {b:?}")))
      }};
    }
    match (self, other) {
      (Part::User(a), Part::User(b)) => go!(*a, *b, |x: &tmi::User<'_>| v(|v| view::user(v, x))),
      (Part::Badge(a), Part::Badge(b)) => {
        let (x, y) = (a.as_badge_data(), b.as_badge_data());
        let same = (x.name(), x.version(), x.extra()) == (y.name(), y.version(), y.extra());
        assert!(same || x != y, "badge data is equal: {x:?} / {y:?}");
        if let (tmi::Badge::Subscriber(x), tmi::Badge::Subscriber(y)) = (a, b) {
          assert!((x.version(), x.months()) == (y.version(), y.months()) || x != y, "subscribers are equal: {x:?} / {y:?}");
        }
        go!(*a, *b, view::badge)
      }
      (Part::Reply(a), Part::Reply(b)) => go!(*a, *b, |x: &tmi::Reply<'_>| v(|v| view::reply(v, x))),
      (Part::Pinned(a), Part::Pinned(b)) => go!(*a, *b, |x: &tmi::PinnedChat<'_>| v(|v| view::pinned(v, x))),
      (Part::Event(a), Part::Event(b)) => go!(*a, *b, |x: &tmi::Event<'_>| v(|v| view::event(v, x))),
      (Part::Action(a), Part::Action(b)) => go!(*a, *b, |x: &tmi::Action<'_>| v(|v| view::action(v, x))),
      (Part::Promo(a), Part::Promo(b)) => go!(*a, *b, |x: &tmi::SubGiftPromo<'_>| (x.total_gifts(), x.promo_name().to_string())),
      (Part::Followers(a), Part::Followers(b)) => go!(a, b, |x: &tmi::FollowersOnly| format!("{x:?}")),
      _ => None,
    }
  }
}

fn c37_messages(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let m = model::any(g);
  let a = m.wire.render();
  ctx.input("line", &a);
  labels(ctx, &m);
  let (w, same) = relative(g, &m);
  let b = w.render();
  ctx.input("other line", &b);
  ctx.nontrivial = a != b;
  let owned = g.bool();
  for_types!(NAME, T, vw => {
    if NAME == m.kind {
      let x = T::from_irc(IrcMessageRef::parse(&a).ok_or("rejected")?).map_err(|_| "rejected as its own type")?;
      if let Some(y) = IrcMessageRef::parse(&b).and_then(|r| T::from_irc(r).ok()) {
        let y = if owned { y.into_owned() } else { y };
        let eq = x == y;
        ensure!((y == x) == eq && (x != y) != eq, "== is not symmetric, or != is not its opposite: {x:?} / {y:?}");
        match view::diff(&vw(&y), &vw(&x)) {
          Some(d) => ensure!(!eq, "values are equal, yet {d}: {x:?}"),
          None => ctx.label("reads the same"),
        }
        ensure!(eq || !same, "the same elements, yet not equal: {x:?} / {y:?}");
      }
    }
  });
  // the parts of both, in all pairs
  let (Ok(x), Ok(y)) = (Message::parse(&a), Message::parse(&b)) else { return Ok(()) };
  let mut r = Ok(());
  let (mut i, mut n) = (0, 0);
  each_part(&x, &mut |p| {
    i += 1;
    let mut j = 0;
    for (second, msg) in [(false, &x), (true, &y)] {
      each_part(msg, &mut |q| {
        j += 1;
        n += 1;
        if r.is_ok() && n < 300 {
          if let Some((eq, reads, what)) = p.compare(&q) {
            if eq && !reads {
              r = Err(format!("parts are equal which do not read the same: {what}"));
            } else if !eq && !second && j == i {
              r = Err(format!("a part is not equal to itself: {what}"));
            }
          }
        }
      });
    }
  });
  r
}

fn hash_of(x: &impl Hash) -> u64 {
  let mut h = DefaultHasher::new();
  x.hash(&mut h);
  h.finish()
}

/// Three values: equality, order and hash must agree with their names.
fn ordered<T: Ord + Hash + std::fmt::Debug>(names: &[String; 3], v: &[T; 3]) -> CaseResult {
  for i in 0..3 {
    for j in 0..3 {
      let (a, b) = (&v[i], &v[j]);
      let eq = names[i] == names[j];
      ensure!((a == b) == eq && (a != b) != eq, "{a:?} == {b:?} is {}", a == b);
      ensure!((a.cmp(b) == Ordering::Equal) == eq, "{a:?}.cmp({b:?}) is {:?}", a.cmp(b));
      ensure!(a.cmp(b) == b.cmp(a).reverse(), "the order of {a:?} and {b:?} depends on which comes first");
      ensure!(a.partial_cmp(b) == Some(a.cmp(b)), "the orders of {a:?} and {b:?} differ");
      ensure!(!eq || hash_of(a) == hash_of(b), "{a:?} hashes differently");
      for k in 0..3 {
        ensure!(!(v[i] < v[j] && v[j] < v[k]) || v[i] < v[k], "{:?} < {:?} < {:?} is not transitive", v[i], v[j], v[k]);
      }
    }
  }
  Ok(())
}

fn c37_names(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let tags = g.bool();
  let mut names: [String; 3] = Default::default();
  for i in 0..3 {
    names[i] = match g.weighted(&[4, 2, 2, 1]) {
      0 if tags => g.pick(tables::TAGS).1.to_string(),
      0 => g.pick(tables::COMMANDS).1.to_string(),
      1 if i > 0 => names[g.below(i)].clone(),
      2 if i > 0 => {
        let b = names[g.below(i)].clone();
        gen::near_miss(g, &b)
      }
      _ => gen::nonempty(g, 12, gen::key_char),
    };
    if !tags {
      names[i] = names[i].chars().filter(|c| gen::word_char(*c) && *c != ':' && *c != '@').collect();
      if names[i].is_empty() {
        names[i] = "X".into();
      }
    }
  }
  ctx.input("names", &format!("{names:?}"));
  ctx.nontrivial = true;
  if tags {
    let [a, b, c] = &names;
    ordered(&names, &[Tag::parse(a), Tag::parse(b), Tag::parse(c)])?;
    let u = Tag::Unknown(a);
    ensure!((Tag::parse(a) == u) == matches!(Tag::parse(a), Tag::Unknown(_)), "{:?} equals {u:?}", Tag::parse(a));
    Ok(())
  } else {
    let lines = [&names[0], &names[1], &names[2]].map(|n| format!("{n} x"));
    let mut cs: Vec<Command<'_>> = vec![];
    for l in &lines {
      cs.push(IrcMessageRef::parse(l).ok_or_else(|| format!("{l:?} is rejected"))?.command());
    }
    ordered(&names, &[cs[0], cs[1], cs[2]])
  }
}

fn c37_prefixes(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let part = |g: &mut Gen| gen::nonempty(g, 8, |c| gen::nick_char(c) && c != '.');
  let mut one = |g: &mut Gen, old: Option<(Option<(String, String)>, String)>| {
    let (mut user, mut host) = old.unwrap_or((None, "x".into()));
    match g.below(3) {
      0 => host = part(g) + ".tv",
      1 => user = Some((part(g), part(g))),
      _ => user = None,
    }
    (user, host)
  };
  let a = one(g, None);
  let a = one(g, Some(a));
  let b = if g.bool() { a.clone() } else { one(g, Some(a.clone())) };
  let line = |p: &(Option<(String, String)>, String)| match p {
    (Some((n, u)), h) => format!(":{n}!{u}@{h} PING"),
    (None, h) => format!(":{h} PING"),
  };
  let (x, y) = (line(&a), line(&b));
  ctx.input("lines", &format!("{x:?} {y:?}"));
  ctx.nontrivial = x != y;
  let (p, q) = (IrcMessageRef::parse(&x).ok_or("rejected")?, IrcMessageRef::parse(&y).ok_or("rejected")?);
  let (p, q) = (p.prefix().ok_or("no prefix")?, q.prefix().ok_or("no prefix")?);
  ensure!((p == q) == (x == y) && (q == p) == (x == y) && (p != q) == (x != y), "{p:?} == {q:?} is {}", p == q);
  Ok(())
}

// ------------------------------------------------------------------ C38

/// Read a line in every way; what comes of it is dropped.
fn read(line: &str, print: bool) {
  let Some(m) = IrcMessageRef::parse(line) else {
    black_box(IrcMessage::parse(line).is_none());
    return;
  };
  for (i, (k, v)) in m.tags().enumerate() {
    if i < 32 {
      black_box(m.tag(k));
    }
    black_box(tmi::maybe_unescape(v));
  }
  black_box((m.prefix(), m.command(), m.channel(), m.params(), m.text()));
  if let Ok(t) = m.clone().as_typed() {
    black_box(t.clone());
    each_part(&t, &mut |p| {
      if let Part::User(u) = p {
        black_box((u.id(), u.login(), u.name()));
      }
    });
    if print {
      black_box(view::message(&t));
    }
  }
  for_types!(_NAME, T, _vw => {
    if let Ok(x) = T::from_irc(m.clone()) {
      let o = x.into_owned();
      black_box(o.clone());
      if print {
        let json = serde_json::to_string(&o).unwrap_or_default();
        black_box(serde_json::from_str::<T>(&json).is_ok());
        black_box(format!("{o:?}"));
      }
    }
  });
  let o = m.clone().into_owned();
  black_box(o.as_ref().into_owned().tags().count());
  drop(o);
  if let Some(o) = IrcMessage::parse(line) {
    black_box(o.as_typed().is_ok());
  }
}

fn line_of(g: &mut Gen, ctx: &mut Ctx) -> String {
  let mut m = model::any(g);
  labels(ctx, &m);
  match g.weighted(&[5, 3, 2, 2]) {
    0 => {}
    1 => {
      let l = m.wire.render();
      return raw::mutate(g, l);
    }
    2 => {
      // large numbers anywhere
      for t in &mut m.wire.tags {
        if t.1.bytes().all(|b| b.is_ascii_digit()) && g.bool() {
          t.1 = (1u64 << g.range(10, 62)).to_string();
        }
      }
    }
    _ => {
      let unit = *g.pick(&["a", ",", "a/1,", "subscriber/1,", "\\s", "\\:", "\u{2e1d}", ";a=", ";=", "1,", "=", "/", ":", "1-2,", "\u{1}", "9"]);
      let n = *g.pick(&[3000, 3000, 3000, 10_000]);
      let n = g.range(1, n);
      if !m.wire.tags.is_empty() {
        let i = g.below(m.wire.tags.len());
        m.wire.tags[i].1 = unit.repeat(n);
      }
    }
  }
  m.wire.render()
}

fn c38_peak(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let line = line_of(g, ctx);
  ctx.input("line", &line);
  ctx.nontrivial = IrcMessageRef::parse(&line).is_some();
  let before = alloc::live();
  alloc::reset_peak();
  alloc::counted(|| read(&line, false));
  let used = alloc::peak() - before;
  let bound = 300 * line.len() as i64 + 65_536;
  ensure!(used <= bound, "reading a line of {} bytes takes {used} bytes of memory at a time", line.len());
  Ok(())
}

fn c38_again(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  let line = line_of(g, ctx);
  ctx.input("line", &line);
  ctx.nontrivial = IrcMessageRef::parse(&line).is_some();
  let mut half = 0;
  let n = 12;
  for i in 1..=2 * n {
    alloc::counted(|| read(&line, true));
    if i == n {
      half = alloc::live();
    }
  }
  let kept = alloc::live() - half;
  ensure!(kept < n, "reading a line {n} more times leaves {kept} bytes behind");
  Ok(())
}

/// What differs from line to line.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Varied {
  /// texts, by which names
  Values,
  Numbers,
  Every,
  NewTag,
  Names,
  Command,
  Channel,
  Prefix,
  Params,
  Nothing,
}

fn varied(w: &crate::gen::Wire, how: &[Varied], i: usize) -> crate::gen::Wire {
  let mut w = w.clone();
  for h in how {
    match h {
      Varied::Values => {
        for (k, v) in &mut w.tags {
          if matches!(k.as_str(), "id" | "display-name" | "login" | "room-id" | "user-id" | "reply-parent-msg-id" | "reply-parent-msg-body" | "system-msg" | "target-user-id" | "target-msg-id" | "emotes" | "color") {
            v.push_str(&format!("{i}"));
          }
        }
      }
      Varied::Numbers => {
        for (_, v) in w.tags.iter_mut().filter(|t| !t.1.is_empty() && t.1.len() < 14 && t.1.bytes().all(|b| b.is_ascii_digit())) {
          *v = (v.parse::<u64>().unwrap_or(0) + i as u64).to_string();
        }
      }
      Varied::Every => {
        for (k, v) in &mut w.tags {
          match k.as_str() {
            "badges" | "badge-info" => v.push_str(&format!(",b{i}/{i}")),
            "emote-sets" => v.push_str(&format!(",{i}")),
            _ if v.bytes().all(|b| b.is_ascii_digit()) => {}
            _ => v.push_str(&format!("\\s{i}")),
          }
        }
      }
      Varied::NewTag => w.tags.push((format!("new-{i}"), format!("{i}"))),
      Varied::Names => w.tags.iter_mut().for_each(|t| t.0.push_str(&i.to_string())),
      Varied::Command => w.command = format!("{}{i}", w.command),
      Varied::Channel => w.channel.iter_mut().for_each(|c| c.push_str(&i.to_string())),
      Varied::Prefix => w.prefix.iter_mut().for_each(|p| *p = format!("{}{i}", p.replace('!', &format!("{i}!")).replace('@', &format!("{i}@")))),
      Varied::Params => w.params.iter_mut().for_each(|p| p.push_str(&i.to_string())),
      Varied::Nothing => {}
    }
  }
  w
}

fn c38_many(g: &mut Gen, ctx: &mut Ctx) -> CaseResult {
  use Varied::*;
  let ms: Vec<(Gm, Vec<Varied>, bool)> = (0..g.range(1, 4))
    .map(|_| {
      let m = model::any(g);
      let how = match g.below(4) {
        0 => vec![Values, Channel, Params],
        1 => vec![Every, NewTag, Channel, Prefix, Params],
        _ => (0..g.range(1, 4)).map(|_| *g.pick(&[Values, Numbers, Every, NewTag, Names, Command, Channel, Prefix, Params, Nothing])).collect(),
      };
      (m, how, g.chance(1, 6))
    })
    .collect();
  for (m, how, torn) in &ms {
    ctx.input("line", &m.wire.render());
    ctx.input("varied", &format!("{how:?}{}", if *torn { ", half of it" } else { "" }));
    labels(ctx, m);
  }
  ctx.nontrivial = true;
  let n = 1500 + g.below(1500);
  let vary = |i: usize| {
    let (m, how, torn) = &ms[i % ms.len()];
    let mut l = varied(&m.wire, how, i).render();
    if *torn {
      let mut at = l.len() / 2;
      while !l.is_char_boundary(at) {
        at += 1;
      }
      l.truncate(at);
    }
    l
  };
  let mut half = 0;
  for i in 1..=2 * n {
    let line = vary(i);
    alloc::counted(|| read(&line, i % 16 == 0));
    if i == n {
      half = alloc::live();
    }
  }
  let kept = alloc::live() - half;
  ensure!(kept < n as i64, "reading {n} more lines like {} leaves {kept} bytes behind", clip(&vary(2 * n), 1500));
  Ok(())
}
