//! Edits of well-formed texts.

use crate::model::Sp;
use crate::rng::Rng;

pub const POOL: [&str; 74] = [
  "{", "}", "[", "]", "(", ")", ",", ":", ".", "<", ">", "<>", "-", "'", "\"", "`", "'''", "#", "#fff", "#abcd", "#ffffff1", "0", "1.5", "1.", ".5", "-1", "+1",
  "99999999999999999999", "9223372036854775808", "4294967296", "[4294967296]", "[]", "[1]", "[ ]", "()", "(1)", "(1,)", "(,1)", "[,]", "[a,]", "true", "false", "null", "Null", "TRUE",
  "nullx", "Table", "table", "Table a", "Ref", "Ref:", "ref:", "Enum", "Note", "Note:", "Note: 'x'", "Note { 'x' }", "note: 'y'", "Indexes", "indexes { a }", "Project",
  "TableGroup", "as", "pk", "primary key", "not null", "a b", "a  b", "_a", "9a", "é", "//", "/*", "*/",
];

pub const CHARS: [&str; 40] = [
  "a", "_", "9", " ", "\n", "\r", "\t", "'", "\"", "`", "{", "}", "[", "]", "(", ")", ",", ":", ".", "<", ">", "-", "#", "/", "*", "\\", "é", "日", "🦀",
  "\u{feff}", "\u{0}", "\u{b}", "\u{c}", "\u{a0}", "\u{2028}", ";", "=", "@", "&", "|",
];

/// Rough token boundaries of any text.
pub fn lex(s: &str) -> Vec<Sp> {
  let b = s.as_bytes();
  let mut v = vec![];
  let mut i = 0;
  while i < b.len() {
    let c = b[i];
    if c.is_ascii_whitespace() {
      i += 1;
      continue;
    }
    let a = i;
    if c.is_ascii_alphanumeric() || c == b'_' {
      while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
        i += 1;
      }
    } else if c == b'\'' || c == b'"' || c == b'`' {
      i += 1;
      while i < b.len() && b[i] != c {
        i += 1;
      }
      i = (i + 1).min(b.len());
    } else {
      i += 1;
      while !s.is_char_boundary(i) {
        i += 1;
      }
    }
    while !s.is_char_boundary(i) {
      i += 1;
    }
    v.push((a, i));
  }
  v
}

fn boundary(r: &mut Rng, s: &str) -> usize {
  let mut i = r.below(s.len() + 1);
  while !s.is_char_boundary(i) {
    i -= 1;
  }
  i
}

fn cut(s: &str, a: usize, z: usize, with: &str) -> String {
  let mut o = String::with_capacity(s.len() + with.len());
  o.push_str(&s[..a]);
  o.push_str(with);
  o.push_str(&s[z..]);
  o
}

/// One edit; `toks` are token boundaries of `s` (may be empty).
pub fn edit(r: &mut Rng, s: &str, toks: &[Sp]) -> (String, &'static str) {
  let toks: Vec<Sp> = toks.iter().copied().filter(|t| t.1 <= s.len() && s.is_char_boundary(t.0) && s.is_char_boundary(t.1)).collect();
  let k = if toks.is_empty() { 10 + r.below(6) } else { r.below(18) };
  match k {
    0 | 16 => {
      let t = *r.pick(&toks);
      (cut(s, t.0, t.1, ""), "token deleted")
    }
    1 => {
      let t = *r.pick(&toks);
      let w = s[t.0..t.1].to_string();
      let sep = *r.pick(&[" ", ""]);
      (cut(s, t.1, t.1, &format!("{sep}{w}")), "token doubled")
    }
    2 => {
      let i = r.below(toks.len());
      let j = (i + 1 + r.below(2)).min(toks.len() - 1);
      let (a, b) = (toks[i], toks[j]);
      if a.1 <= b.0 {
        (format!("{}{}{}{}{}", &s[..a.0], &s[b.0..b.1], &s[a.1..b.0], &s[a.0..a.1], &s[b.1..]), "tokens swapped")
      } else {
        (cut(s, a.0, a.1, ""), "token deleted")
      }
    }
    3 | 17 => {
      let t = *r.pick(&toks);
      let w = *r.pick(&POOL);
      (cut(s, t.0, t.1, w), "token replaced")
    }
    4 => {
      let t = *r.pick(&toks);
      let w = *r.pick(&POOL);
      (cut(s, t.0, t.0, &format!("{w} ")), "token inserted")
    }
    5 => {
      let i = r.below(toks.len());
      let a = toks[i].1;
      let z = if i + 1 < toks.len() { toks[i + 1].0 } else { s.len() };
      (cut(s, a.min(z), z, ""), "gap removed")
    }
    6 => {
      let t = *r.pick(&toks);
      let mut m = t.0 + r.below(t.1 - t.0 + 1);
      while !s.is_char_boundary(m) {
        m -= 1;
      }
      let w = *r.pick(&[" ", "\n", "\t", "/**/", "  "]);
      (cut(s, m, m, w), "token split")
    }
    7 => {
      let a = *r.pick(&toks);
      let b = *r.pick(&toks);
      (cut(s, a.0, a.1, &s[b.0..b.1].to_string()), "token copied")
    }
    8 => {
      let t = *r.pick(&toks);
      let w = &s[t.0..t.1];
      let w = match r.below(3) {
        0 => w.to_uppercase(),
        1 => w.to_lowercase(),
        _ => w.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
      };
      (cut(s, t.0, t.1, &w), "case changed")
    }
    9 => {
      let i = r.below(toks.len());
      let j = (i + r.below(8)).min(toks.len() - 1);
      (cut(s, toks[i].0, toks[j].1.max(toks[i].0), ""), "range deleted")
    }
    10 | 11 => {
      let i = boundary(r, s);
      let z = s[i..].chars().next().map(|c| i + c.len_utf8()).unwrap_or(i);
      (cut(s, i, z, ""), "char deleted")
    }
    12 | 13 => {
      let i = boundary(r, s);
      let w = *r.pick(&CHARS);
      (cut(s, i, i, w), "char inserted")
    }
    14 => {
      let i = boundary(r, s);
      let z = s[i..].chars().next().map(|c| i + c.len_utf8()).unwrap_or(i);
      let w = *r.pick(&CHARS);
      (cut(s, i, z, w), "char replaced")
    }
    _ => {
      let i = boundary(r, s);
      if r.pct(80) {
        (s[..i].to_string(), "truncated")
      } else {
        (s[i..].to_string(), "beheaded")
      }
    }
  }
}

/// Text of no particular form.
pub fn noise(r: &mut Rng, max: usize) -> String {
  let n = r.below(max + 1);
  let mut s = String::new();
  for _ in 0..n {
    match r.below(5) {
      0..=2 => {
        s.push_str(*r.pick(&POOL));
        if r.pct(60) {
          s.push(' ');
        }
      }
      3 => s.push_str(*r.pick(&CHARS)),
      _ => s.push(char::from_u32(r.below(0x11000) as u32).unwrap_or('\u{fffd}')),
    }
  }
  s
}
