//! Generators for texts and Twitch lines.
use crate::dict;
use crate::engine::Gen;

/// Characters with a meaning somewhere in the grammar.
const SPECIAL: &[char] = &[
  ':', ';', '=', ' ', '\\', '@', '#', '!', ',', '/', '\u{1}', '⸝', 's', 'r', 'n', '0', '1', '-', '+', '"', '\'', '\t',
];

/// Any char at all, weighted towards the interesting ones.
pub fn any_char(g: &mut Gen) -> char {
  match g.weighted(&[40, 30, 10, 6, 5, 5, 2, 2]) {
    0 => (b'a' + g.below(26) as u8) as char,
    1 => *g.pick(SPECIAL),
    2 => (0x21 + g.below(0x5e) as u8) as char,
    3 => char::from_u32(0x80 + g.below(0x780) as u32).unwrap(),
    4 => char::from_u32(0x800 + g.below(0xd000) as u32).unwrap(),
    5 => char::from_u32(0x1f300 + g.below(0x500) as u32).unwrap(),
    6 => char::from_u32(g.below(0x20) as u32).unwrap(),
    _ => *g.pick(&['\u{7f}', '\u{a0}', '\u{200b}', '\u{2800}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10ffff}', '\u{e000}', '\u{34f}', '\u{3000}', '\u{85}', '\u{2028}', '\u{e0000}', '\u{ad}', '\u{202e}']),
  }
}

pub fn len(g: &mut Gen, max: usize) -> usize {
  if let Some(n) = size(g, 0, max.max(24) * 2) {
    return n;
  }
  let m = match g.weighted(&[30, 40, 20, 8, 2]) {
    0 => 4,
    1 => 12,
    2 => 40,
    3 => 150,
    _ => 600,
  };
  g.below(m.min(max) + 1)
}

/// Text of at most `max` chars in which chars rejected by `ok` are replaced.
pub fn text_of(g: &mut Gen, max: usize, ok: fn(char) -> bool) -> String {
  let n = len(g, max);
  let mut s = text_n(g, n, ok);
  if let Some(d) = dict::string(g) {
    let d: String = d.chars().filter(|c| ok(*c)).take(max.max(24)).collect();
    match g.weighted(&[3, 2, 2, 2]) {
      0 => s = d,
      1 => s = d + &s,
      2 => s += &d,
      _ => {
        let at = g.below(s.chars().count() + 1);
        let at = s.char_indices().map(|(i, _)| i).nth(at).unwrap_or(s.len());
        s.insert_str(at, &d);
      }
    }
  }
  dict::remember(g, &s);
  s
}

/// A number of things in `lo..=hi`, or about that many.
pub fn count(g: &mut Gen, lo: usize, hi: usize) -> usize {
  if let Some(n) = size(g, lo, (hi * 2).max(40)) {
    return n;
  }
  if !cfg!(feature = "net") && hi >= 5 && g.chance(1, 600) {
    return *g.pick(&[126, 127, 128, 129, 254, 255, 256, 257, 300]);
  }
  g.range(lo, hi)
}

/// A number of the sources as a size; one above `usual` only now and then, as it
/// costs more.
fn size(g: &mut Gen, lo: usize, usual: usize) -> Option<usize> {
  let n = dict::int(g, lo as u64, 70_000)? as usize;
  let ok = n <= usual || (!cfg!(feature = "net") && n <= 5000 && g.chance(1, 8)) || (!cfg!(feature = "net") && g.chance(1, 60));
  ok.then_some(n)
}

/// A long text of which `ok` accepts every char: different chars at both ends, a
/// repeated piece between them.
pub fn long(g: &mut Gen, ok: fn(char) -> bool) -> String {
  let n = *g.pick(&[254, 255, 256, 257, 499, 500, 501, 511, 512, 513, 1000, 1023, 1024, 2048, 4095, 4096, 4097, 8192, 32767, 32768, 65534, 65535, 65536, 65537, 70000]);
  let (k, l) = (g.range(1, 20), g.range(0, 20));
  let piece = text_n(g, k, ok);
  let tail = text_n(g, l, ok);
  let mut s = piece.repeat(n / piece.len() + 1);
  let mut at = n.saturating_sub(tail.len()).min(s.len());
  while !s.is_char_boundary(at) {
    at -= 1;
  }
  s.truncate(at);
  s + &tail
}
fn is_long(g: &mut Gen) -> bool {
  !cfg!(feature = "net") && g.chance(1, 2500)
}

pub fn text_n(g: &mut Gen, n: usize, ok: fn(char) -> bool) -> String {
  let mut s = String::with_capacity(n);
  // now and then a run of a single repeated char
  if n > 8 && g.chance(1, 12) {
    let c = any_char(g);
    let c = if ok(c) { c } else { 'z' };
    for _ in 0..n {
      s.push(c);
    }
    return s;
  }
  for _ in 0..n {
    let c = any_char(g);
    s.push(if ok(c) { c } else { 'x' });
  }
  s
}

pub fn not_nl(c: char) -> bool {
  c != '\r' && c != '\n'
}
/// chars of an unescaped-looking raw tag value
pub fn val_char(c: char) -> bool {
  c != ';' && c != ' ' && c != '\r' && c != '\n' && c != '\0'
}
pub fn key_char(c: char) -> bool {
  val_char(c) && c != '='
}
pub fn nick_char(c: char) -> bool {
  !matches!(c, ' ' | '!' | '@' | '\r' | '\n' | '\0')
}
pub fn word_char(c: char) -> bool {
  !matches!(c, ' ' | '\r' | '\n' | '\0')
}
/// no separators at all: a word no sub-grammar can split
pub fn plain_char(c: char) -> bool {
  !matches!(c, ' ' | '\r' | '\n' | '\0' | ';' | ',' | '/' | ':' | '=' | '\\' | '⸝' | '@' | '!' | '#') && !c.is_whitespace()
}

/// Any text a chat line can carry (no line breaks).
pub fn chat_text(g: &mut Gen) -> String {
  if is_long(g) {
    return long(g, not_nl);
  }
  text_of(g, 600, not_nl)
}

/// What a careless reader or writer of lines leaves at their ends.
const AFFIXES: &[&str] = &[
  "\r\n", "\n", "\r", "\n\n", "\r\r\n", " ", "  ", "\t", "\u{feff}", "\0", "\u{1}", ":", ";", "=", "@", "\\", "\"", "'", ",", " :", " \u{2800}", "\u{e0000}", " \u{e0000}", "\u{200b}", "\u{a0}",
  "\u{85}", "\u{2028}",
];

/// The same, at times with something at an end that does not belong there.
pub fn affixed(g: &mut Gen, mut s: String) -> String {
  if g.chance(1, 12) {
    let a = match dict::string(g) {
      Some(d) => d,
      None => g.pick(AFFIXES).to_string(),
    };
    match g.below(3) {
      0 => s.insert_str(0, &a),
      _ => s += &a,
    }
  }
  s
}

/// Raw tag value, any length including empty.
pub fn rawval(g: &mut Gen) -> String {
  if is_long(g) {
    return long(g, val_char);
  }
  match g.weighted(&[3, 3, 2, 1]) {
    0 => ident(g),
    1 => text_of(g, 60, val_char),
    2 => number_like(g),
    _ => String::new(),
  }
}

/// A fairly unique identifier-like value.
pub fn ident(g: &mut Gen) -> String {
  if let Some(d) = dict::string(g) {
    let d: String = d.chars().filter(|c| c.is_ascii_alphanumeric() || *c == '_' || *c == '-').collect();
    if !d.is_empty() {
      return d;
    }
  }
  let s = match g.weighted(&[4, 3, 2]) {
    0 => {
      let n = count(g, 1, 10);
      (0..n.max(1)).map(|_| *g.pick(&['a', 'b', 'c', 'd', 'e', 'x', 'y', 'z', '_', '0', '1', '7', '9'])).collect()
    }
    1 => {
      let n = g.upto(9_999_999_999);
      format!("{}", dict::int(g, 0, u64::MAX).unwrap_or(n))
    }
    _ => {
      let (a, b) = (g.upto(u64::MAX), g.upto(u64::MAX));
      format!("{:08x}-{:04x}-{:04x}-{:04x}-{:012x}", a >> 32, (a >> 16) & 0xffff, a & 0xffff, b >> 48, b & 0xffff_ffff_ffff)
    }
  };
  dict::remember(g, &s);
  s
}

pub fn number_like(g: &mut Gen) -> String {
  g.pick(&["0", "1", "-1", "00", "+1", "18446744073709551615", "18446744073709551616", "9223372036854775808", "-9223372036854775809", "1.5", "1e3", "0x10", "256", "65536", "4294967296", "true", "\u{661}"]).to_string()
}

pub fn nick(g: &mut Gen) -> String {
  nonempty(g, 24, nick_char)
}
pub fn nonempty(g: &mut Gen, max: usize, ok: fn(char) -> bool) -> String {
  let s = match g.weighted(&[2, 1]) {
    0 => {
      let n = count(g, 1, 12);
      let s: String = (0..n).map(|_| *g.pick(&['a', 'b', 'c', 'k', 'q', '_', '3', '8'])).filter(|c| ok(*c)).collect();
      match dict::string(g) {
        Some(d) => d.chars().filter(|c| ok(*c)).collect(),
        None => {
          dict::remember(g, &s);
          s
        }
      }
    }
    _ => text_of(g, max, ok),
  };
  if s.is_empty() {
    "w".to_string()
  } else {
    s
  }
}
pub fn channel(g: &mut Gen) -> String {
  format!("#{}", nonempty(g, 30, word_char))
}

/// (plain text, escaped form as it appears in a tag value)
pub fn escaped(g: &mut Gen) -> (String, String) {
  let plain = match g.weighted(&[1, 3]) {
    0 => ident(g),
    _ => text_of(g, 40, |c| c != '⸝' && c != '\0'),
  };
  // a long way to the first escape
  let plain = match !cfg!(feature = "net") && g.chance(1, 400) {
    true => format!("{}{plain}", g.pick(&["a", "word", "é"]).repeat(g.range(20, 1200))),
    false => plain,
  };
  let comma = g.bool();
  let e = escape(&plain, comma);
  (plain, e)
}

pub fn escape(plain: &str, comma: bool) -> String {
  let mut o = String::new();
  for c in plain.chars() {
    match c {
      ';' => o.push_str("\\:"),
      ' ' => o.push_str("\\s"),
      '\\' => o.push_str("\\\\"),
      '\r' => o.push_str("\\r"),
      '\n' => o.push_str("\\n"),
      ',' if comma => o.push('⸝'),
      c => o.push(c),
    }
  }
  o
}

/// u64 with plenty of edge values; (value, decimal text)
pub fn num(g: &mut Gen) -> u64 {
  if let Some(n) = dict::int(g, 0, u64::MAX) {
    return n;
  }
  let n = match g.weighted(&[4, 3, 3]) {
    0 => g.upto(200),
    1 => g.upto(10_000_000_000),
    _ => *g.pick(&[0, 1, 2, 9, 10, 59, 60, 255, 256, 65535, 65536, 99999, 4294967295, 4294967296, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX - 1, u64::MAX]),
  };
  dict::remember_n(g, n);
  n
}

pub fn inum(g: &mut Gen) -> i64 {
  if let Some(n) = dict::int(g, 0, i64::MAX as u64) {
    return n as i64;
  }
  let n = match g.weighted(&[4, 3, 3]) {
    0 => g.upto(400) as i64 - 100,
    1 => g.upto(20_000_000_000) as i64 - 10_000_000_000,
    _ => *g.pick(&[0, 1, -1, 2, 60, -60, 255, 256, 65536, 2147483647, 2147483648, -2147483648, i64::MAX, i64::MAX - 1, i64::MIN, i64::MIN + 1, i64::MAX / 60, i64::MAX / 60 + 1, 153722867280912930, 153722867280912931]),
  };
  dict::remember_n(g, n as u64);
  n
}

/// Millisecond timestamp; years 0001..9999.
pub fn millis(g: &mut Gen) -> i64 {
  if let Some(n) = dict::int(g, 0, 253402300799999) {
    return n as i64;
  }
  match g.weighted(&[6, 3, 2]) {
    0 => 1_500_000_000_000 + g.upto(400_000_000_000) as i64,
    1 => *g.pick(&[0, 1, -1, 999, 1000, 1001, -999, -1000, -1001, 253402300799999, -62135596800000, 951782400000, 1709164800123, 4294967295999, 4294967296000, 2147483647999, 2147483648000, 1582934400001]),
    _ => g.upto(253402300799999 + 62135596800000) as i64 - 62135596800000,
  }
}

/// A string that is not the decimal form of any number.
pub fn not_a_number(g: &mut Gen) -> String {
  match g.weighted(&[3, 3, 2]) {
    0 => g.pick(&["", "x", "-", "+", "1x", "x1", "1.0", "1,0", "0x1", "--1", "\u{661}", "1_000", "\\s1", "one", "NaN", "1-"]).to_string(),
    1 => {
      let n = g.upto(1_000_000);
      let s = nonempty(g, 6, |c| val_char(c) && !c.is_ascii_digit());
      format!("{n}{s}")
    }
    _ => {
      let s = text_of(g, 12, |c| val_char(c) && !c.is_ascii_digit());
      format!("z{s}")
    }
  }
}

// ------------------------------------------------------------------ lines

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Wire {
  pub tags: Vec<(String, String)>,
  pub prefix: Option<String>,
  pub command: String,
  pub channel: Option<String>,
  pub params: Option<String>,
}

impl Wire {
  pub fn render(&self) -> String {
    let mut s = String::new();
    if !self.tags.is_empty() {
      s.push('@');
      for (i, (k, v)) in self.tags.iter().enumerate() {
        if i > 0 {
          s.push(';');
        }
        s.push_str(k);
        s.push('=');
        s.push_str(v);
      }
      s.push(' ');
    }
    if let Some(p) = &self.prefix {
      s.push(':');
      s.push_str(p);
      s.push(' ');
    }
    s.push_str(&self.command);
    if let Some(c) = &self.channel {
      s.push(' ');
      s.push_str(c);
    }
    if let Some(p) = &self.params {
      s.push(' ');
      s.push_str(p);
    }
    s
  }
  pub fn has(&self, k: &str) -> bool {
    self.tags.iter().any(|(n, _)| n == k)
  }
  pub fn get(&self, k: &str) -> Option<&str> {
    self.tags.iter().find(|(n, _)| n == k).map(|(_, v)| v.as_str())
  }
  pub fn remove(&mut self, k: &str) {
    self.tags.retain(|(n, _)| n != k);
  }
  pub fn set(&mut self, k: &str, v: &str) {
    match self.tags.iter_mut().find(|(n, _)| n == k) {
      Some(t) => t.1 = v.to_string(),
      None => self.tags.push((k.to_string(), v.to_string())),
    }
  }
}

/// Prefix naming a user; returns (wire prefix, nick).
pub fn user_prefix(g: &mut Gen) -> (String, String) {
  let n = nick(g);
  let host = nonempty(g, 30, nick_char);
  let p = match g.weighted(&[3, 1]) {
    0 => format!("{n}!{}@{host}", nick(g)),
    _ => format!("{n}@{host}"),
  };
  (p, n)
}

pub fn host_prefix(g: &mut Gen) -> Option<String> {
  match g.weighted(&[3, 1, 1]) {
    0 => Some("tmi.twitch.tv".into()),
    1 => None,
    _ => Some(nonempty(g, 30, nick_char)),
  }
}

/// A tag name the typed messages do not use, possibly a near miss of one.
pub fn unrelated_key(g: &mut Gen) -> String {
  let s = match g.weighted(&[2, 4, 1]) {
    0 => text_of(g, 20, key_char),
    1 => {
      let base = crate::tables::TAGS[g.below(crate::tables::TAGS.len())].1;
      near_miss(g, base)
    }
    _ => g.pick(&["client-nonce", "flags", "mod", "turbo", "subscriber", "user-type", "vip", "first-msg", "returning-chatter", "sent-ts", "thread-id", "message-id"]).to_string(),
  };
  let s: String = s.chars().filter(|c| key_char(*c)).collect();
  if s.is_empty() {
    "q".into()
  } else {
    s
  }
}

/// One small edit of a known name.
pub fn near_miss(g: &mut Gen, base: &str) -> String {
  let mut cs: Vec<char> = base.chars().collect();
  if cs.is_empty() {
    return "=".into();
  }
  match g.below(9) {
    0 => {
      cs.pop();
    }
    1 => {
      cs.remove(0);
    }
    2 => {
      let c = any_char(g);
      let i = g.below(cs.len() + 1);
      cs.insert(i, c)
    }
    3 => {
      let i = g.below(cs.len());
      cs[i] = any_char(g)
    }
    4 => {
      let i = g.below(cs.len());
      let c = cs[i];
      cs[i] = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }
    }
    5 => {
      let i = g.below(cs.len());
      let j = g.below(cs.len());
      cs.swap(i, j)
    }
    6 => cs.extend("-2".chars()),
    7 => {
      let i = g.below(cs.len());
      let c = cs[i];
      cs.insert(i, c)
    }
    _ => cs = base.replace('-', "_").chars().collect(),
  }
  cs.into_iter().collect()
}

// --------------------------------------------------------- guarded memory

/// A buffer whose end touches an unmapped page and whose start follows one, so
/// that reading out of bounds on either side faults.
pub struct Guarded {
  base: *mut u8,
  cap: usize,
}
const PAGE: usize = 4096;
impl Guarded {
  pub fn new(cap: usize) -> Self {
    let cap = cap.div_ceil(PAGE) * PAGE;
    unsafe {
      let p = libc::mmap(std::ptr::null_mut(), cap + 2 * PAGE, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
      assert!(p != libc::MAP_FAILED);
      let base = (p as *mut u8).add(PAGE);
      assert!(libc::mprotect(base as *mut _, cap, libc::PROT_READ | libc::PROT_WRITE) == 0);
      Guarded { base, cap }
    }
  }
  /// Place `s` at byte offset `at`, filling the neighbourhood with `fill`.
  pub fn put(&mut self, s: &str, at: usize, fill: u8) -> &str {
    assert!(at + s.len() <= self.cap);
    unsafe {
      let lo = at.saturating_sub(128);
      let hi = (at + s.len() + 128).min(self.cap);
      std::ptr::write_bytes(self.base.add(lo), fill, at - lo);
      std::ptr::write_bytes(self.base.add(at + s.len()), fill, hi - at - s.len());
      std::ptr::copy_nonoverlapping(s.as_ptr(), self.base.add(at), s.len());
      std::str::from_utf8_unchecked(std::slice::from_raw_parts(self.base.add(at), s.len()))
    }
  }
  /// Place `s` so that its last byte is the last mapped byte.
  pub fn put_end(&mut self, s: &str, fill: u8) -> &str {
    let at = self.cap - s.len();
    self.put(s, at, fill)
  }
}
impl Drop for Guarded {
  fn drop(&mut self) {
    unsafe {
      libc::munmap(self.base.sub(PAGE) as *mut _, self.cap + 2 * PAGE);
    }
  }
}

thread_local! {
  pub static GUARD: std::cell::RefCell<Guarded> = std::cell::RefCell::new(Guarded::new(1 << 20));
}

/// Run `f` with a copy of `s` that lies against an unmapped page.
pub fn with_guarded<T>(g: &mut Gen, s: &str, f: impl FnOnce(&str) -> T) -> T {
  let fill = *g.pick(b" ;=@:a#\\\xff");
  let mode = g.weighted(&[3, 1, 2]);
  let off = g.below(64);
  place(s, fill, mode, off, f)
}

pub fn place<T>(s: &str, fill: u8, mode: usize, off: usize, f: impl FnOnce(&str) -> T) -> T {
  let go = |b: &mut Guarded, f: &mut dyn FnMut(&str)| {
    let p: &str = match mode {
      0 => b.put_end(s, fill),
      1 => b.put(s, 0, fill),
      _ => b.put(s, 256 + off, fill),
    };
    f(p)
  };
  let mut out = None;
  let mut f = Some(f);
  let mut call = |p: &str| out = Some((f.take().unwrap())(p));
  if s.len() + 512 <= 1 << 20 {
    // the case may panic inside; a fresh borrow is taken each time
    GUARD.with(|b| match b.try_borrow_mut() {
      Ok(mut b) => go(&mut b, &mut call),
      Err(_) => go(&mut Guarded::new(s.len() + 512), &mut call),
    })
  } else {
    go(&mut Guarded::new(s.len() + 512), &mut call)
  }
  out.unwrap()
}
