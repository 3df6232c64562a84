//! Literals of the code under test, as in a fuzzing dictionary: a branch on a
//! particular text or number is only explored if that text or number is
//! generated. Literals that the pinned commit does not have are used more often,
//! as that is where a change is. What the dictionary holds only steers the
//! generators; no oracle looks at it.
use crate::engine::Gen;
use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default, Clone, Debug, PartialEq)]
pub struct Dict {
  pub strings: Vec<String>,
  pub ints: Vec<u64>,
  pub new_strings: Vec<String>,
  pub new_ints: Vec<u64>,
}

static DICT: OnceLock<Dict> = OnceLock::new();
const BASELINE: &str = include_str!("baseline.txt");

/// Names with a meaning on Twitch, whether or not the code knows them.
const WELL_KNOWN: &[&str] = &[
  "ananonymousgifter", "AnAnonymousGifter", "274598607", "justinfan", "justinfan12345", "tmi.twitch.tv", "twitch.tv", "PRIMARY", "ACTION", "jtv", "twitchnotify", "oauth:", "broadcaster", "moderator", "vip", "subscriber", "founder",
  "partner", "staff", "admin", "global_mod", "premium", "bits", "Prime", "1000", "2000", "3000", "true", "false", "null", "None", "test", "https://", "@", "GIFT", "raid", "sub", "resub", "subgift", "blue", "BLUE", "#FF0000",
];

pub fn get() -> &'static Dict {
  DICT.get_or_init(Dict::default)
}

/// Read the sources next to this harness.
pub fn load() {
  let mut files = vec![];
  walk(Path::new(concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo/src")), &mut files);
  files.sort();
  let (mut s, mut n) = (BTreeSet::new(), BTreeSet::new());
  for f in files {
    if let Ok(t) = std::fs::read_to_string(&f) {
      literals(&t, &mut s, &mut n);
    }
  }
  let base: BTreeSet<&str> = BASELINE.lines().collect();
  let known_s = |x: &String| base.contains(format!("s {x:?}").as_str()) || WELL_KNOWN.contains(&x.as_str());
  let known_n = |x: &u64| base.contains(format!("n {x}").as_str());
  let (new_strings, mut strings): (Vec<String>, Vec<String>) = s.into_iter().partition(|x| !known_s(x));
  let (new_ints, ints) = n.into_iter().partition(|x| !known_n(x));
  strings.extend(WELL_KNOWN.iter().map(|s| s.to_string()));
  let _ = DICT.set(Dict { strings, ints, new_strings, new_ints });
}

pub fn set(d: Dict) {
  let _ = DICT.set(d);
}

/// The baseline file for the current sources.
pub fn print() {
  let d = get();
  for x in d.strings.iter().chain(&d.new_strings).filter(|x| !WELL_KNOWN.contains(&x.as_str())) {
    println!("s {x:?}");
  }
  for x in d.ints.iter().chain(&d.new_ints) {
    println!("n {x}");
  }
}

pub fn to_json(d: &Dict) -> serde_json::Value {
  let n = |v: &Vec<u64>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
  serde_json::json!({"strings": d.strings, "ints": n(&d.ints), "new_strings": d.new_strings, "new_ints": n(&d.new_ints)})
}

pub fn from_json(j: &serde_json::Value) -> Dict {
  let s = |k: &str| j[k].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(|x| x.to_string())).collect::<Vec<_>>()).unwrap_or_default();
  let n = |k: &str| s(k).iter().filter_map(|x| x.parse().ok()).collect();
  Dict { strings: s("strings"), ints: n("ints"), new_strings: s("new_strings"), new_ints: n("new_ints") }
}

fn walk(dir: &Path, out: &mut Vec<std::path::PathBuf>) {
  for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
    let p = e.path();
    if p.is_dir() {
      walk(&p, out);
    } else if p.extension().is_some_and(|x| x == "rs") && !p.file_name().is_some_and(|n| n == "tests.rs" || n == "bench.rs") {
      out.push(p);
    }
  }
}

/// Text literals (cut at format placeholders) and integers of Rust code.
fn literals(src: &str, strings: &mut BTreeSet<String>, ints: &mut BTreeSet<u64>) {
  let src = match src.find("#[cfg(test)]\nmod ") {
    Some(i) => &src[..i],
    None => src,
  };
  let c: Vec<char> = src.chars().collect();
  let at = |i: usize| c.get(i).copied().unwrap_or('\0');
  let ident = |ch: char| ch.is_alphanumeric() || ch == '_';
  let mut add = |s: String| {
    for part in s.split(['{', '}']) {
      let n = part.chars().count();
      if (1..=60).contains(&n) && !part.contains('\0') {
        strings.insert(part.to_string());
      }
    }
    if s.chars().count() <= 60 && s.contains(['{', '}']) && !s.contains('\0') {
      strings.insert(s);
    }
  };
  let mut i = 0;
  while i < c.len() {
    let ch = at(i);
    if ch == '/' && at(i + 1) == '/' {
      while i < c.len() && at(i) != '\n' {
        i += 1;
      }
    } else if ch == '/' && at(i + 1) == '*' {
      let mut depth = 1;
      i += 2;
      while i < c.len() && depth > 0 {
        if at(i) == '*' && at(i + 1) == '/' {
          depth -= 1;
          i += 2;
        } else if at(i) == '/' && at(i + 1) == '*' {
          depth += 1;
          i += 2;
        } else {
          i += 1;
        }
      }
    } else if ch == 'r' && (at(i + 1) == '"' || (at(i + 1) == '#' && (at(i + 2) == '"' || at(i + 2) == '#'))) && (i == 0 || !ident(at(i - 1)) || at(i - 1) == 'b') {
      let mut j = i + 1;
      let mut hashes = 0;
      while at(j) == '#' {
        hashes += 1;
        j += 1;
      }
      if at(j) != '"' {
        i += 1;
        continue;
      }
      j += 1;
      let start = j;
      while j < c.len() && !(at(j) == '"' && (1..=hashes).all(|k| at(j + k) == '#')) {
        j += 1;
      }
      add(c[start..j.min(c.len())].iter().collect());
      i = j + 1 + hashes;
    } else if ch == '"' {
      let mut s = String::new();
      i += 1;
      while i < c.len() && at(i) != '"' {
        if at(i) == '\\' {
          let (x, n) = escape(&c, i);
          s.extend(x);
          i += n;
        } else {
          s.push(at(i));
          i += 1;
        }
      }
      i += 1;
      add(s);
    } else if ch == '\'' {
      // a char, or a lifetime
      if at(i + 1) == '\\' {
        let (x, n) = escape(&c, i + 1);
        add(x.into_iter().collect());
        i += 1 + n + 1;
      } else if at(i + 2) == '\'' {
        add(at(i + 1).to_string());
        i += 3;
      } else {
        i += 1;
      }
    } else if ch.is_ascii_digit() {
      let start = i;
      while ident(at(i)) {
        i += 1;
      }
      let t: String = c[start..i].iter().filter(|x| **x != '_').collect();
      let (t, radix) = match t.get(..2) {
        Some("0x") => (t[2..].to_string(), 16),
        Some("0b") => (t[2..].to_string(), 2),
        Some("0o") => (t[2..].to_string(), 8),
        _ => (t, 10),
      };
      let suffix = ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "u128", "i128"].iter().filter_map(|s| t.strip_suffix(s)).next().unwrap_or(&t).to_string();
      if let Ok(n) = u64::from_str_radix(&suffix, radix) {
        ints.insert(n);
      }
    } else if ident(ch) {
      while ident(at(i)) {
        // the prefixes b, r and br are looked at by the literals themselves
        if (at(i + 1) == '"' || at(i + 1) == '\'') && matches!(at(i), 'b') {
          i += 1;
          break;
        }
        if at(i) == 'r' && (at(i + 1) == '"' || (at(i + 1) == '#' && at(i + 2) == '"')) {
          break;
        }
        i += 1;
      }
    } else {
      i += 1;
    }
  }
}

/// The escape at `c[i]` and its length.
fn escape(c: &[char], i: usize) -> (Option<char>, usize) {
  let at = |i: usize| c.get(i).copied().unwrap_or('\0');
  match at(i + 1) {
    'n' => (Some('\n'), 2),
    'r' => (Some('\r'), 2),
    't' => (Some('\t'), 2),
    '0' => (Some('\0'), 2),
    'x' => {
      let h: String = [at(i + 2), at(i + 3)].iter().collect();
      (u32::from_str_radix(&h, 16).ok().and_then(char::from_u32), 4)
    }
    'u' => {
      let mut j = i + 3;
      let mut h = String::new();
      while j < c.len() && at(j) != '}' {
        h.push(at(j));
        j += 1;
      }
      (u32::from_str_radix(&h, 16).ok().and_then(char::from_u32), j + 1 - i)
    }
    '\n' => {
      let mut j = i + 2;
      while at(j).is_whitespace() {
        j += 1;
      }
      (None, j - i)
    }
    x => (Some(x), 2),
  }
}

/// Now and then a text of the dictionary, or one used before in this case.
pub fn string(g: &mut Gen) -> Option<String> {
  let d = get();
  let den = if d.new_strings.is_empty() { 30 } else { 10 };
  if !g.chance(1, den) {
    return None;
  }
  if !g.memo.is_empty() && g.chance(1, 3) {
    let i = g.below(g.memo.len());
    return Some(g.memo[i].clone());
  }
  if !d.new_strings.is_empty() && g.chance(3, 4) {
    return Some(g.pick(&d.new_strings).clone());
  }
  match d.strings.is_empty() {
    true => None,
    false => Some(g.pick(&d.strings).clone()),
  }
}

/// Now and then a number of the dictionary, one next to it, or one used before,
/// if it lies in `lo..=hi`.
pub fn int(g: &mut Gen, lo: u64, hi: u64) -> Option<u64> {
  let d = get();
  let den = if d.new_ints.is_empty() { 30 } else { 10 };
  if !g.chance(1, den) {
    return None;
  }
  let n = if !g.memo_n.is_empty() && g.chance(1, 4) {
    let i = g.below(g.memo_n.len());
    g.memo_n[i]
  } else if !d.new_ints.is_empty() && g.chance(3, 4) {
    *g.pick(&d.new_ints)
  } else if !d.ints.is_empty() {
    *g.pick(&d.ints)
  } else {
    return None;
  };
  let n = match g.weighted(&[2, 1, 1]) {
    0 => n,
    1 => n.saturating_add(1),
    _ => n.saturating_sub(1),
  };
  (lo..=hi).contains(&n).then_some(n)
}

pub fn remember(g: &mut Gen, s: &str) {
  if g.memo.len() < 64 && (1..=80).contains(&s.len()) {
    g.memo.push(s.to_string());
  }
}
pub fn remember_n(g: &mut Gen, n: u64) {
  if g.memo_n.len() < 64 {
    g.memo_n.push(n);
  }
}

#[cfg(test)]
mod tests {
  #[test]
  fn lexer() {
    let (mut s, mut n) = Default::default();
    super::literals("// \"no\"\nlet a = \"x\\\"y\"; b'q' 'z' '\\n' &'a str r#\"ra\"w\"# b\"by\" format!(\"fan{}!\") 0x1f_u8 1_000usize x12 1..5 /* 'k' */ br\"v\"", &mut s, &mut n);
    let s: Vec<String> = s.into_iter().collect();
    assert_eq!(s, ["\n", "!", "by", "fan", "fan{}!", "q", "ra\"w", "v", "x\"y", "z"]);
    assert_eq!(n.into_iter().collect::<Vec<u64>>(), [1, 5, 31, 1000]);
  }
}
