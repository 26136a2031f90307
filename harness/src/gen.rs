//! Random documents of the grammar (no semantic rules observed).

use crate::model::*;
use crate::rng::Rng;

pub const WORDS: [&str; 48] = [
  "a", "b", "c", "id", "name", "users", "posts", "user_id", "created_at", "status", "x1", "Zz9_", "table", "Table", "note", "Note", "indexes", "ref",
  "Ref", "enum", "Enum", "project", "Project", "tablegroup", "as", "As", "true", "false", "null", "pk", "unique", "primary", "nulls", "truex", "public",
  "Public", "v2", "varchar", "int", "btree", "default", "e1", "refs", "notes", "T", "trueish", "false_", "null1",
];

pub const ODD_NAMES: [&str; 46] = [
  "\u{a0}", "a\u{a0}", "\u{a0}a", "\u{3000}", "\u{200b}", "id\u{200b}", "\u{0}", "a-b", "user-id", "user  id", "a b c", "\u{e9}",
 
  "", " ", "a b", "user id", " lead", "trail ", "a.b", "x.y.z", ".", "public.users", "né", "日本語", "🦀", "e\u{301}", "it's", "`tick`", "'''", "/* no */",
  "// no", "{", "}", "[pk]", "a,b", "a:b", "#fff", "()", "\\", "\n", "a\nb", "a\r\nb", "\t", "0", "9lives", "_x",
];

pub fn is_var(s: &str) -> bool {
  let mut c = s.chars();
  matches!(c.next(), Some(x) if x.is_ascii_alphabetic()) && c.all(|x| x.is_ascii_alphanumeric() || x == '_')
}

pub fn is_spaced(s: &str) -> bool {
  let b = s.as_bytes();
  if b.is_empty() || !b[0].is_ascii_alphabetic() {
    return false;
  }
  let mut prev_space = false;
  for &c in &b[1..] {
    if c == b' ' {
      if prev_space {
        return false;
      }
      prev_space = true;
    } else if c.is_ascii_alphanumeric() || c == b'_' {
      prev_space = false;
    } else {
      return false;
    }
  }
  !prev_space
}

pub fn bare(s: &str) -> Id {
  Id { sp: (0, 0), raw: s.into(), val: s.into() }
}
pub fn quoted(s: &str) -> Id {
  Id { sp: (0, 0), raw: format!("\"{s}\""), val: s.into() }
}
/// Bare when possible, else quoted.
pub fn id(s: &str) -> Id {
  if is_var(s) {
    bare(s)
  } else {
    quoted(s)
  }
}
pub fn id_any(r: &mut Rng, s: &str) -> Id {
  if is_var(s) && r.pct(75) {
    bare(s)
  } else {
    quoted(s)
  }
}
pub fn random_word(r: &mut Rng) -> String {
  const A: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
  const B: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
  let n = match r.below(40) {
    0 => 40,
    1 | 2 => 1,
    3 if r.pct(20) => *r.pick(&LENGTHS[..14]),
    _ => 2 + r.below(8),
  };
  let mut s = String::new();
  s.push(*r.pick(A) as char);
  for _ in 1..n {
    s.push(*r.pick(B) as char);
  }
  s
}

/// Around the limits that names and texts have elsewhere.
pub const LENGTHS: [usize; 22] = [
  30, 31, 32, 62, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 511, 1023, 1024, 4097, 32768, 65536, 70000,
];

const CHARS: [&str; 40] = [
  "a", "Z", "5", " ", "  ", "\t", "\n", "\r\n", "\r", "'", "''", "\"", "`", "\\", "\\'", "\\n", "//", "/*", "*/", "{", "}", "[", "]", "(", ")", ",", ":", ".", "#",
  "-", "<", ">", "<>", "é", "日", "🦀", "\u{301}", "\u{feff}", "\u{0}", "\u{2028}",
];

/// Text over hostile pieces in which `bad` does not occur.
pub fn hostile(r: &mut Rng, bad: &[&str], max: usize) -> String {
  let n = match r.below(10) {
    0 => 0,
    1 => 1,
    2 => max * 3,
    _ => r.below(max + 1),
  };
  let mut s = String::new();
  for _ in 0..n {
    match r.below(6) {
      0..=2 => s.push_str(*r.pick(&CHARS)),
      3..=4 => s.push_str(*r.pick(&WORDS)),
      _ => {
        let c = match r.below(4) {
          0 => r.below(0x80) as u32,
          1 => r.below(0x800) as u32,
          2 => r.below(0xffff) as u32,
          _ => r.below(0x10ffff) as u32,
        };
        s.push(char::from_u32(c).unwrap_or('?'));
      }
    }
  }
  for b in bad {
    while s.contains(b) {
      s = s.replace(b, "");
    }
  }
  s
}

/// How adventurous names and contents are.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Taste {
  Plain,
  Mixed,
  Odd,
}

pub fn name(r: &mut Rng, t: Taste) -> Id {
  if let Some(s) = long_text(r, 1) {
    return if r.pct(50) { quoted(&s) } else { bare(&"n".repeat(s.len())) };
  }
  match t {
    Taste::Plain => {
      let w = *r.pick(&WORDS[..12]);
      bare(w)
    }
    Taste::Mixed => match r.below(10) {
      0..=6 => {
        let w = *r.pick(&WORDS);
        id_any(r, w)
      }
      7 => {
        let w = random_word(r);
        id_any(r, &w)
      }
      _ => {
        let w = *r.pick(&ODD_NAMES);
        id_any(r, w)
      }
    },
    Taste::Odd => match r.below(4) {
      0 => {
        let w = *r.pick(&WORDS);
        id_any(r, w)
      }
      1..=2 => {
        let w = *r.pick(&ODD_NAMES);
        id_any(r, w)
      }
      _ => {
        let w = hostile(r, &["\""], 5);
        quoted(&w)
      }
    },
  }
}

fn ltrim(s: &str) -> &str {
  s.trim_start_matches([' ', '\t', '\n', '\r'])
}

pub fn single(s: &str) -> Lit {
  Lit { sp: (0, 0), raw: format!("'{s}'"), val: Val::Str(ltrim(s).into()) }
}
pub fn triple(s: &str) -> Lit {
  Lit { sp: (0, 0), raw: format!("'''{s}'''"), val: Val::Str(ltrim(s).into()) }
}
pub fn expr(s: &str) -> Lit {
  Lit { sp: (0, 0), raw: format!("`{s}`"), val: Val::Expr(s.into()) }
}
pub fn int(raw: &str) -> Lit {
  Lit { sp: (0, 0), raw: raw.into(), val: Val::Int(raw.parse().unwrap_or(0)) }
}
pub fn dec(raw: &str) -> Lit {
  Lit { sp: (0, 0), raw: raw.into(), val: Val::Dec(raw.parse().unwrap_or(0.0)) }
}
pub fn word(s: &str) -> Lit {
  Lit { sp: (0, 0), raw: s.into(), val: Val::Enum(s.into()) }
}
pub fn boolean(b: bool) -> Lit {
  Lit { sp: (0, 0), raw: b.to_string(), val: Val::Bool(b) }
}
pub fn null() -> Lit {
  Lit { sp: (0, 0), raw: "null".into(), val: Val::Null }
}
pub fn hex(s: &str) -> Lit {
  Lit { sp: (0, 0), raw: s.into(), val: Val::Hex(s.into()) }
}
pub fn dqstr(s: &str) -> Lit {
  Lit { sp: (0, 0), raw: format!("\"{s}\""), val: Val::Str(s.into()) }
}

/// A text far longer than usual, if the document may still hold one.
fn long_text(r: &mut Rng, pct: usize) -> Option<String> {
  if WIDE.with(|w| w.get()) == 0 || !r.pct(pct) {
    return None;
  }
  WIDE.with(|w| w.set(w.get() - 1));
  let n = *r.pick(&LENGTHS);
  let piece = *r.pick(&["x", "é", "🦀", "ab ", "x\n", "日本", "  y", "// ", "{", "\u{301}", "x\r\n"]);
  let mut t: String = "b".into();
  while t.len() + piece.len() < n {
    t.push_str(piece);
  }
  while t.len() < n {
    t.push('e');
  }
  Some(t)
}

pub fn string(r: &mut Rng, t: Taste) -> Lit {
  if let Some(s) = long_text(r, 8) {
    return if r.pct(50) { single(&s) } else { triple(&s) };
  }
  if t == Taste::Plain || r.pct(20) {
    let s = *r.pick(&["text", "a b", "", "it is", "x"]);
    return single(s);
  }
  if r.pct(8) {
    // a single odd character, or a line of it around a word
    let c = *r.pick(&["\u{a0}", "\u{200b}", "\u{3000}", "\u{feff}", "\u{85}", "\u{2028}", "\u{0}", "\u{b}", "\u{c}", "\r", "\n", "\t", " ", "é", "🦀"]);
    let s = match r.below(4) {
      0 | 1 => c.to_string(),
      2 => format!("x{c}"),
      _ => format!("{c}x{c}y{c}"),
    };
    return if r.pct(50) { single(&s) } else { triple(&s) };
  }
  if r.pct(60) {
    let s = hostile(r, &["'"], 6);
    single(&s)
  } else {
    let mut s = hostile(r, &["'''"], 8);
    while s.ends_with('\'') {
      s.pop();
    }
    while s.contains("'''") {
      s = s.replace("'''", "");
    }
    while s.ends_with('\'') {
      s.pop();
    }
    // leading whitespace followed by quotes is fine; a leading quote directly after ''' is too
    triple(&s)
  }
}

pub const INTS: [&str; 22] = [
  "0", "1", "2", "5", "10", "255", "00", "007", "32767", "32768", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9007199254740993",
  "9223372036854775806", "9223372036854775807", "000000000000000000000000000001", "100", "3", "8",
];
/// Around the limits of the integer types, most of them beyond what can be represented.
pub const LIMITS: [&str; 12] = [
  "9223372036854775807", "9223372036854775808", "9223372036854775809", "09223372036854775808", "18446744073709551615", "18446744073709551616",
  "170141183460469231731687303715884105727", "340282366920938463463374607431768211456", "9223372036854775800", "10000000000000000000", "27670116110564327424", "99999999999999999999999999999999999999999999",
];
pub const DECS: [&str; 16] = [
  "0.0", "1.", "0.1", "3.14", "10.50", "00.5", "0.30000000000000004", "123456789.987654321", "9007199254740993.0", "1.7976931348623157", "0.000000000000000000001",
  "99999999999999999999999999.9", "2.2250738585072011", "5.", "1.0", "42.42",
];
pub const HEXES: [&str; 8] = ["#fff", "#FFF", "#000", "#3498db", "#ABCDEF", "#abc", "#012345", "#a0b1C2"];

pub fn spaced_word(r: &mut Rng) -> String {
  loop {
    let n = 1 + r.below(3);
    let mut v = vec![];
    for i in 0..n {
      let w = if r.pct(70) { r.pick(&WORDS).to_string() } else { random_word(r) };
      // later words may begin with anything of a word
      if i > 0 && r.pct(15) {
        v.push(format!("{}{}", r.pick(&["9", "_", "0"]), w));
      } else {
        v.push(w);
      }
    }
    let s = v.join(" ");
    if is_spaced(&s) && !["true", "false", "null"].contains(&v[0].as_str()) {
      return s;
    }
  }
}

pub fn number(r: &mut Rng) -> Lit {
  match r.below(8) {
    0..=4 => {
      let s = *r.pick(&INTS);
      int(s)
    }
    5 => {
      let s = format!("{}", r.next() >> (1 + r.below(63)));
      int(&s)
    }
    6 => {
      let s = *r.pick(&DECS);
      dec(s)
    }
    _ => {
      let s = format!("{}.{}", r.next() >> r.below(64), r.next() >> r.below(64));
      dec(&s)
    }
  }
}

/// Any value that may stand in an attribute or property.
pub fn value(r: &mut Rng, t: Taste) -> Lit {
  match r.below(12) {
    0..=2 => string(r, t),
    3..=5 => number(r),
    6 => boolean(r.pct(50)),
    7 => null(),
    8 => {
      let s = *r.pick(&HEXES);
      hex(s)
    }
    9 => {
      let s = match long_text(r, 8) {
        Some(s) => s,
        None if t == Taste::Plain => "now()".to_string(),
        None => hostile(r, &["`"], 4),
      };
      expr(&s)
    }
    _ => {
      let s = spaced_word(r);
      word(&s)
    }
  }
}

fn attr(key: &str, val: Option<Lit>) -> Attr {
  Attr { sp: (0, 0), key: bare(key), val }
}
pub fn mk_attr(key: &str, val: Option<Lit>) -> Attr {
  attr(key, val)
}

fn any_attr(r: &mut Rng, t: Taste) -> Attr {
  let k = spaced_word(r);
  attr_val(r, t, &k)
}
fn attr_val(r: &mut Rng, t: Taste, k: &str) -> Attr {
  let v = match r.below(10) {
    0..=3 => None,
    4 => {
      let s = if t == Taste::Plain { "quoted".to_string() } else { hostile(r, &["\""], 4) };
      Some(dqstr(&s))
    }
    _ => Some(value(r, t)),
  };
  attr(k, v)
}

thread_local! {
  /// How many very long lists the present document may still hold.
  static WIDE: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

/// Lets the documents made by `f` hold one list far longer than usual.
pub fn with_wide<T>(f: impl FnOnce() -> T) -> T {
  WIDE.with(|w| w.set(1));
  let x = f();
  WIDE.with(|w| w.set(0));
  x
}

fn wide(r: &mut Rng, pct: usize) -> Option<usize> {
  if WIDE.with(|w| w.get()) == 0 || !r.pct(pct) {
    return None;
  }
  WIDE.with(|w| w.set(w.get() - 1));
  Some(*r.pick(&[9, 12, 16, 17, 33, 40, 64, 70, 100, 129, 257, 300, 600, 1100]))
}

fn n_items(r: &mut Rng, max: usize) -> usize {
  if let Some(n) = wide(r, 15) {
    return n;
  }
  match r.below(12) {
    0 => 0,
    1..=3 => 1,
    4 => max,
    _ => r.below(max + 1),
  }
}

pub fn col_settings(r: &mut Rng, t: Taste, names: &dyn Fn(&mut Rng) -> Id) -> Settings {
  let mut s = Settings::default();
  for _ in 0..n_items(r, 5) {
    let a = match r.below(14) {
      0 => attr("pk", None),
      1 => attr("primary key", None),
      2 => attr("unique", None),
      3 => attr("null", None),
      4 => attr("not null", None),
      5 => attr("increment", None),
      6..=8 => {
        let v = value(r, t);
        attr("default", Some(v))
      }
      9 => {
        let v = string(r, t);
        attr("note", Some(v))
      }
      10 => {
        // known keys with unusual values
        let k = *r.pick(&["pk", "unique", "null", "not null", "increment", "note", "default", "primary key", "ref", "Pk", "NULL", "Unique", "pks", "note x", "update", "type", "name"]);
        attr_val(r, t, k)
      }
      _ => any_attr(r, t),
    };
    s.attrs.push(a);
  }
  if r.pct(20) {
    for _ in 0..wide(r, 30).unwrap_or(1 + r.below(3)) {
      let rhs = ref_id(r, names, 1);
      s.refs.push(RefInline { sp: (0, 0), rel: rel(r), rhs });
    }
  }
  s.derived = derive_col(&s.attrs);
  s
}

pub fn rel(r: &mut Rng) -> Rel {
  *r.pick(&[Rel::OneOne, Rel::OneMany, Rel::ManyOne, Rel::ManyMany])
}

pub fn ref_id(r: &mut Rng, names: &dyn Fn(&mut Rng) -> Id, n: usize) -> RefId {
  let schema = r.pct(35).then(|| names(r));
  let table = names(r);
  let n = if r.pct(15) { 1 + r.below(4) } else { n };
  let n = wide(r, 5).unwrap_or(n);
  let comps: Vec<Id> = (0..n).map(|_| names(r)).collect();
  let paren = comps.len() != 1 || r.pct(20);
  RefId { sp: (0, 0), schema, table, comps, paren }
}

pub const TYPES: [&str; 64] = [
  "bit", "varbit", "bit varying", "char", "character", "varchar", "character varying", "box", "cidr", "circle", "inet", "line", "lseg", "macaddr", "macaddr8",
  "money", "path", "pg_lsn", "pg_snapshot", "point", "polygon", "tsquery", "tsvector", "smallserial", "serial2", "serial", "serial4", "bigserial", "serial8",
  "smallint", "int2", "integer", "int", "int4", "bigint", "int8", "real", "float4", "double precision", "float8", "bool", "boolean", "bytea", "date", "text",
  "time", "time without time zone", "timetz", "time with time zone", "timestamp", "timestamp without time zone", "timestamptz", "timestamp with time zone", "uuid",
  "json", "jsonb", "decimal", "numeric", "xml", "varchar", "int", "text", "integer", "decimal",
];

pub fn mk_ty(base: &str, args: Vec<Lit>, has_args: bool, arrays: Vec<(Option<u32>, String)>) -> Ty {
  Ty {
    name: base.to_string(),
    base: base.to_string(),
    quoted: !is_var(base),
    has_args,
    args,
    arrays,
    ..Default::default()
  }
}

/// A dimension of an array type, with or without a size.
pub fn dim(r: &mut Rng) -> (Option<u32>, String) {
  if r.pct(40) {
    return (None, String::new());
  }
  let n = *r.pick(&[0u32, 1, 1, 2, 3, 3, 4, 7, 8, 10, 16, 63, 64, 100, 255, 256, 1000, 32767, 65535, 65536, 2147483647, 2147483648, 4294967295]);
  (Some(n), if r.pct(8) { format!("0{n}") } else { n.to_string() })
}

pub fn any_ty(r: &mut Rng, t: Taste) -> Ty {
  let base = match r.below(10) {
    0..=5 => r.pick(&TYPES).to_string(),
    6..=7 => r.pick(&WORDS).to_string(),
    8 => random_word(r),
    _ => loop {
      let w = spaced_word(r);
      if is_spaced(&w) {
        break w;
      }
    },
  };
  let mut ty = mk_ty(&base, vec![], false, vec![]);
  if r.pct(25) {
    ty.quoted = true;
  }
  if r.pct(35) {
    ty.has_args = true;
    let n = if r.pct(4) { 4 + r.below(60) } else { *r.pick(&[0, 1, 1, 1, 2, 2, 3]) };
    for _ in 0..n {
      let v = loop {
        // inside quotes a double quote cannot occur
        let v = if r.pct(70) {
          let s = *r.pick(&INTS);
          int(s)
        } else {
          value(r, t)
        };
        if !matches!(v.val, Val::Enum(_)) && !(ty.quoted && v.raw.contains('"')) {
          break v;
        }
      };
      ty.args.push(v);
    }
  }
  if r.pct(25) {
    for _ in 0..if r.pct(4) { 4 + r.below(40) } else { 1 + r.below(3) } {
      let a = match r.below(7) {
        6 => dim(r),
        0..=2 => (None, String::new()),
        3 => (Some(4294967295), "4294967295".to_string()),
        4 => {
          let n = r.below(100) as u32;
          (Some(n), format!("{n:04}"))
        }
        _ => {
          let n = r.below(20) as u32;
          (Some(n), n.to_string())
        }
      };
      ty.arrays.push(a);
    }
    if ty.quoted {
      ty.inner = r.below(ty.arrays.len() + 1);
    }
  }
  if r.pct(15) {
    let s = name(r, t);
    ty.name = format!("{}.{}", s.val, ty.base);
    ty.schema = Some(s);
  }
  // comments and line breaks of the layout may hold double quotes: only matters for argument text here
  ty
}

pub fn note(r: &mut Rng, t: Taste) -> Note {
  Note { sp: (0, 0), lit: string(r, t), block: r.pct(50) }
}

fn plain_settings(r: &mut Rng, t: Taste) -> Settings {
  let mut s = Settings::default();
  for _ in 0..n_items(r, 4) {
    let a = match r.below(5) {
      0 => {
        let v = *r.pick(&HEXES);
        attr("headercolor", Some(hex(v)))
      }
      1 => {
        let v = string(r, t);
        attr("note", Some(v))
      }
      _ => any_attr(r, t),
    };
    s.attrs.push(a);
  }
  s
}

pub fn indexes(r: &mut Rng, t: Taste, names: &dyn Fn(&mut Rng) -> Id) -> Indexes {
  let mut x = Indexes::default();
  for _ in 0..n_items(r, 4) {
    let multi = r.pct(50);
    let n = if multi { *r.pick(&[0, 1, 2, 2, 3, 5]) } else { 1 };
    let n = if multi { wide(r, 25).unwrap_or(n) } else { n };
    let cols = (0..n)
      .map(|_| {
        if r.pct(30) {
          let s = if t == Taste::Plain { "lower(x)".to_string() } else { hostile(r, &["`"], 4) };
          let mut l = expr(&s);
          l.val = Val::Str(s);
          IdxCol::Expr(l)
        } else {
          IdxCol::Name(names(r))
        }
      })
      .collect();
    let settings = r.pct(60).then(|| {
      let mut s = Settings::default();
      for _ in 0..n_items(r, 4) {
        let a = match r.below(9) {
          0 => attr("pk", None),
          1..=2 => attr("unique", None),
          3..=4 => {
            let w = *r.pick(&INDEX_TYPES);
            let l = if r.pct(70) { word(w) } else if r.pct(50) { single(w) } else { dqstr(w) };
            attr("type", Some(l))
          }
          5 => {
            let v = string(r, t);
            attr("name", Some(v))
          }
          6 => {
            let v = string(r, t);
            attr("note", Some(v))
          }
          7 => {
            let k = *r.pick(&["pk", "unique", "name", "note", "UNIQUE", "primary key", "null", "default", "increment"]);
            attr_val(r, t, k)
          }
          _ => loop {
            let a = any_attr(r, t);
            if a.key.val != "type" {
              break a;
            }
          },
        };
        s.attrs.push(a);
      }
      s.derived = derive_idx(&s.attrs);
      s
    });
    x.defs.push(IdxDef { sp: (0, 0), cols, settings, multi });
  }
  x
}

fn enum_settings(r: &mut Rng, t: Taste) -> Settings {
  let mut s = plain_settings(r, t);
  s.derived = derive_enum(&s.attrs);
  s
}

pub fn rel_settings(r: &mut Rng, t: Taste) -> Settings {
  let mut s = Settings::default();
  for _ in 0..n_items(r, 3) {
    let a = match r.below(6) {
      0..=1 => {
        let w = *r.pick(&ACTIONS);
        attr("update", Some(word(w)))
      }
      2..=3 => {
        let w = *r.pick(&ACTIONS);
        attr("delete", Some(word(w)))
      }
      4 => {
        // not a word: no action
        let k = *r.pick(&["update", "delete"]);
        let v = loop {
          let v = value(r, t);
          if !matches!(v.val, Val::Enum(_)) {
            break v;
          }
        };
        attr(k, r.pct(80).then_some(v))
      }
      _ => loop {
        let a = any_attr(r, t);
        if !["update", "delete"].contains(&a.key.val.as_str()) {
          break a;
        }
      },
    };
    s.attrs.push(a);
  }
  s.derived = derive_rel(&s.attrs);
  s
}

pub fn fill_project(r: &mut Rng, t: Taste, name: Id) -> Project {
  let mut p = Project { name, ..Default::default() };
  for _ in 0..n_items(r, 4) {
    let mut a = match r.below(5) {
      0..=1 => {
        let v = *r.pick(&["PostgreSQL", "MySQL", "postgresql", "", " PostgreSQL", "PostgreSQL "]);
        attr("database_type", Some(single(v)))
      }
      2 => {
        let v = value(r, t);
        attr("database_type", Some(v))
      }
      _ => {
        let k = spaced_word(r);
        let v = value(r, t);
        attr(&k, Some(v))
      }
    };
    // `note: 'x'` is a note, not a property
    if a.key.val.eq_ignore_ascii_case("note") {
      a.key = bare("notes");
    }
    p.props.push(a);
  }
  p.note = r.pct(30).then(|| note(r, t));
  p.db = derive_db(&p.props);
  p
}

/// Any document of the grammar.
pub fn doc(r: &mut Rng) -> Doc {
  match r.below(1000) {
    0..=24 => with_wide(|| doc_of(r)),
    25 => {
      // very many declarations, most of them small
      let n = *r.pick(&[120, 257, 300, 520, 700, 1030]);
      let one = r.pct(30).then(|| block_of(r));
      let mut d = doc_n(r, Taste::Plain, n / 8);
      while d.blocks.len() < n {
        let b = match &one {
          Some(b) => b.clone(),
          None => block_of(r),
        };
        let at = if r.pct(50) { d.blocks.len() } else { r.below(d.blocks.len() + 1) };
        d.blocks.insert(at, b);
      }
      d
    }
    _ => doc_of(r),
  }
}

/// A small declaration of some kind.
fn block_of(r: &mut Rng) -> Block {
  let t = Taste::Plain;
  match r.below(6) {
    0 => Block::Table(Table { name: name(r, t), schema: r.pct(20).then(|| name(r, t)), ..Default::default() }),
    1 => Block::Enum(Enum { name: name(r, t), ..Default::default() }),
    2 => Block::Group(Group { name: name(r, t), ..Default::default() }),
    3 => Block::Project(Project { name: name(r, t), ..Default::default() }),
    4 => Block::Note(note(r, t)),
    _ => {
      let (lhs, rhs) = (ref_id(r, &|r: &mut Rng| name(r, t), 1), ref_id(r, &|r: &mut Rng| name(r, t), 1));
      Block::Ref(Ref { sp: (0, 0), name: None, rel: rel(r), lhs, rhs, settings: None, block: r.pct(50) })
    }
  }
}

fn doc_of(r: &mut Rng) -> Doc {
  let t = *r.pick(&[Taste::Plain, Taste::Mixed, Taste::Mixed, Taste::Odd]);
  let n = match r.below(20) {
    0 => 0,
    1..=5 => 1,
    6..=17 => 1 + r.below(6),
    18 => 6 + r.below(10),
    _ => 10 + r.below(30),
  };
  doc_n(r, t, n)
}

pub fn doc_n(r: &mut Rng, t: Taste, n: usize) -> Doc {
  let mut d = Doc::default();
  let names = |r: &mut Rng| name(r, t);
  // some documents repeat themselves
  let again = if r.pct(30) { 25 } else { 3 };
  for _ in 0..n {
    let mut b = block(r, t, &names);
    if !d.blocks.is_empty() && r.pct(again) {
      let old = if r.pct(50) { d.blocks.last().unwrap().clone() } else { r.pick(&d.blocks).clone() };
      b = like(r, t, old, b);
    }
    if r.pct(again) {
      double(r, &mut b);
    }
    d.blocks.push(b);
  }
  d
}

/// `old` once more, or all but one part of it (the rest as in `new` or made up).
fn like(r: &mut Rng, t: Taste, old: Block, new: Block) -> Block {
  let mut b = old;
  match &mut b {
    Block::Project(x) => match r.below(3) {
      0 => x.name = name(r, t),
      1 => x.note = None,
      _ => (),
    },
    Block::Table(x) => match r.below(7) {
      0 => x.name = name(r, t),
      1 => x.schema = r.pct(50).then(|| name(r, t)),
      2 => x.alias = r.pct(50).then(|| name(r, t)),
      3 => x.cols.clear(),
      4 => x.indexes = None,
      5 => x.alias = Some(x.name.clone()),
      _ => (),
    },
    Block::Enum(x) => match r.below(4) {
      0 => x.name = name(r, t),
      1 => x.schema = r.pct(50).then(|| name(r, t)),
      2 => x.values.clear(),
      _ => (),
    },
    Block::Ref(x) => match r.below(8) {
      0 | 1 => x.name = r.pct(50).then(|| name(r, t)),
      2 => x.rel = rel(r),
      3 => std::mem::swap(&mut x.lhs, &mut x.rhs),
      4 => x.settings = None,
      5 => x.block = !x.block,
      6 => x.rhs = x.lhs.clone(),
      _ => (),
    },
    Block::Group(x) => match r.below(3) {
      0 => x.name = name(r, t),
      1 => x.items.clear(),
      _ => (),
    },
    Block::Note(x) => match new {
      Block::Note(_) => (),
      _ => x.block = !x.block,
    },
  }
  b
}

fn again<T: Clone>(r: &mut Rng, v: &mut Vec<T>) {
  if !v.is_empty() {
    let i = r.below(v.len());
    let x = v[i].clone();
    let at = if r.pct(60) { i + 1 } else { r.below(v.len() + 1) };
    v.insert(at, x);
  }
}

/// One item of some list of the block a second time.
fn double(r: &mut Rng, b: &mut Block) {
  match b {
    Block::Project(x) => {
      again(r, &mut x.props);
      x.db = derive_db(&x.props);
    }
    Block::Table(x) => match r.below(5) {
      0 => again(r, &mut x.cols),
      1 => {
        if let Some(s) = &mut x.settings {
          again(r, &mut s.attrs)
        }
      }
      2 => {
        if let Some(x) = &mut x.indexes {
          if r.pct(50) {
            again(r, &mut x.defs)
          } else if !x.defs.is_empty() {
            let i = r.below(x.defs.len());
            again(r, &mut x.defs[i].cols);
            x.defs[i].multi |= x.defs[i].cols.len() != 1;
          }
        }
      }
      _ => {
        if !x.cols.is_empty() {
          let i = r.below(x.cols.len());
          let c = &mut x.cols[i];
          if r.pct(25) {
            again(r, &mut c.ty.arrays);
          }
          if let Some(s) = &mut c.settings {
            if r.pct(50) {
              again(r, &mut s.attrs)
            } else {
              again(r, &mut s.refs)
            }
            s.derived = derive_col(&s.attrs);
          }
        }
      }
    },
    Block::Enum(x) => again(r, &mut x.values),
    Block::Ref(x) => match r.below(3) {
      0 => {
        again(r, &mut x.lhs.comps);
        x.lhs.paren |= x.lhs.comps.len() != 1;
      }
      1 => {
        again(r, &mut x.rhs.comps);
        x.rhs.paren |= x.rhs.comps.len() != 1;
      }
      _ => {
        if let Some(s) = &mut x.settings {
          again(r, &mut s.attrs);
          s.derived = derive_rel(&s.attrs);
        }
      }
    },
    Block::Group(x) => again(r, &mut x.items),
    Block::Note(_) => (),
  }
}

pub fn block(r: &mut Rng, t: Taste, names: &dyn Fn(&mut Rng) -> Id) -> Block {
  match r.below(20) {
    0..=1 => {
      let nm = names(r);
      Block::Project(fill_project(r, t, nm))
    }
    2..=9 => {
      let mut x = Table { schema: r.pct(30).then(|| names(r)), name: names(r), alias: r.pct(25).then(|| names(r)), ..Default::default() };
      x.settings = r.pct(25).then(|| plain_settings(r, t));
      for _ in 0..n_items(r, 6) {
        let settings = r.pct(50).then(|| col_settings(r, t, names));
        x.cols.push(Col { sp: (0, 0), name: names(r), ty: any_ty(r, t), settings });
      }
      x.note = r.pct(25).then(|| note(r, t));
      x.indexes = r.pct(35).then(|| indexes(r, t, names));
      Block::Table(x)
    }
    10..=12 => {
      let mut e = Enum { schema: r.pct(30).then(|| names(r)), name: names(r), ..Default::default() };
      for _ in 0..n_items(r, 6) {
        let settings = r.pct(30).then(|| enum_settings(r, t));
        e.values.push(EnumVal { sp: (0, 0), name: names(r), settings });
      }
      Block::Enum(e)
    }
    13..=16 => {
      let k = if r.pct(70) { 1 } else { 1 + r.below(4) };
      Block::Ref(Ref {
        sp: (0, 0),
        name: r.pct(40).then(|| names(r)),
        rel: rel(r),
        lhs: ref_id(r, names, k),
        rhs: ref_id(r, names, k),
        settings: r.pct(35).then(|| rel_settings(r, t)),
        block: r.pct(50),
      })
    }
    17..=18 => {
      let mut g = Group { name: names(r), ..Default::default() };
      g.settings = r.pct(30).then(|| plain_settings(r, t));
      for _ in 0..n_items(r, 5) {
        g.items.push(Item { sp: (0, 0), schema: r.pct(30).then(|| names(r)), name: names(r) });
      }
      g.note = r.pct(30).then(|| note(r, t));
      Block::Group(g)
    }
    _ => Block::Note(note(r, t)),
  }
}
