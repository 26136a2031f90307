//! Documents that obey the semantic rules, and edits that break one of them or nearly do.

use crate::gen::*;
use crate::model::*;
use crate::refsem::{self, Loc};
use crate::rng::Rng;
use std::collections::{BTreeSet, HashSet};

thread_local! {
  /// What the names of the present document have in common.
  static COMMON: std::cell::RefCell<(String, String)> = const { std::cell::RefCell::new((String::new(), String::new())) };
  /// Whether many names of the present document have the same hash as another one.
  static COLLIDING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Pairs of words that have the same hash: FNV-1a, CRC-32, djb2, polynomials of 31 and 33, sums.
const SAME_HASH: [(&str, &str); 12] = [
  ("costarring", "liquid"),
  ("declinate", "macallums"),
  ("altarage", "zinke"),
  ("altarages", "zinkes"),
  ("plumless", "buckeroo"),
  ("hetairas", "mentioner"),
  ("heliotropes", "neurospora"),
  ("depravement", "serafins"),
  ("stylist", "subgenera"),
  ("joyful", "synaphea"),
  ("AaAa", "BBBB"),
  ("listen", "silent"),
];

/// Another name with the same hash, for the simplest kinds of hashes.
fn collide(r: &mut Rng, n: &str) -> String {
  if let Some((a, b)) = SAME_HASH.iter().find(|(a, b)| *a == n || *b == n) {
    return if *a == n { b.to_string() } else { a.to_string() };
  }
  let mut c: Vec<char> = n.chars().collect();
  if c.len() < 2 {
    return format!("{n}{n}");
  }
  let i = r.below(c.len() - 1);
  let step = |x: char, by: i32| char::from_u32((x as i32 + by) as u32).filter(|c| c.is_ascii_alphanumeric());
  match r.below(5) {
    0 => c.swap(i, i + 1),
    1 => c.reverse(),
    2 => c.sort(),
    k => {
      // one more here, 31 or 33 (or one) less there
      let by = if k == 3 { *r.pick(&[31, 33]) } else { 1 };
      for up in [1, -1] {
        for j in 0..c.len() - 1 {
          let at = (i + j) % (c.len() - 1);
          if let (true, true, Some(x), Some(y)) = (c[at].is_ascii(), c[at + 1].is_ascii(), step(c[at], up), step(c[at + 1], -up * by)) {
            c[at] = x;
            c[at + 1] = y;
            return c.into_iter().collect();
          }
        }
      }
    }
  }
  c.into_iter().collect()
}

/// Lets few documents have long names that differ only at their ends or beginnings.
fn choose_common(r: &mut Rng) {
  let c = match r.below(150) {
    0 | 1 => ("x".repeat(*r.pick(&LENGTHS[..14])), String::new()),
    2 => (String::new(), "y".repeat(*r.pick(&LENGTHS[..14]))),
    3 => ("long_".repeat(1 + r.below(60)), "_name".repeat(1 + r.below(60))),
    4 => ("日本".repeat(1 + r.below(60)), String::new()),
    _ => (String::new(), String::new()),
  };
  COMMON.with(|x| *x.borrow_mut() = c);
  COLLIDING.with(|x| x.set(r.pct(3)));
}

fn pick_name(r: &mut Rng, t: Taste) -> String {
  let n = pick_name_of(r, t);
  COMMON.with(|x| {
    let (a, b) = &*x.borrow();
    format!("{a}{n}{b}")
  })
}

fn pick_name_of(r: &mut Rng, t: Taste) -> String {
  if COLLIDING.with(|x| x.get()) && r.pct(50) {
    let (a, b) = *r.pick(&SAME_HASH[..]);
    return if r.pct(50) { a } else { b }.to_string();
  }
  match r.below(10) {
    0..=5 => r.pick(&WORDS).to_string(),
    6..=7 => random_word(r),
    _ if t == Taste::Plain => format!("n{}", r.below(50)),
    8 => {
      let w = *r.pick(&ODD_NAMES);
      w.to_string()
    }
    _ if t == Taste::Odd => hostile(r, &["\""], 4),
    _ => {
      let w = *r.pick(&WORDS);
      if r.pct(50) {
        w.to_uppercase()
      } else {
        format!("{w} {}", r.pick(&WORDS))
      }
    }
  }
}

/// A name that looks like `n` but is another one.
fn look_alike(r: &mut Rng, n: &str) -> String {
  if n.len() > 25 && r.pct(50) {
    // the same but for one character somewhere
    let at = match r.below(3) {
      0 => n.chars().count() - 1,
      1 => 0,
      _ => r.below(n.chars().count()),
    };
    return n.chars().enumerate().map(|(i, c)| if i == at { if c == 'q' { 'w' } else { 'q' } } else { c }).collect();
  }
  if r.pct(15) {
    return collide(r, n);
  }
  match r.below(16) {
    9 => n.replace('_', " "),
    10 => n.replace([' ', '_', '-'], ""),
    11 => n.replace([' ', '-'], "_"),
    12 => format!("{n}\u{a0}"),
    13 => format!("{n}\u{200b}"),
    14 => format!("{n}{}", n.chars().last().unwrap_or('s')),
    15 => match n.char_indices().nth(1) {
      Some((i, _)) => format!("{}{}{}", &n[..i], r.pick(&["_", " ", "-"]), &n[i..]),
      None => format!("{n} {n}"),
    },
    0 => n.to_uppercase(),
    1 => n.to_lowercase(),
    2 => {
      let mut c = n.chars();
      match c.next() {
        Some(x) => x.to_uppercase().chain(c).collect(),
        None => " ".into(),
      }
    }
    3 => format!("{n} "),
    4 => format!(" {n}"),
    5 => format!("{n}_"),
    6 => {
      let mut m = n.to_string();
      m.pop();
      m
    }
    7 => format!("{n}.{n}"),
    _ => format!("public.{n}"),
  }
}

fn fresh(r: &mut Rng, t: Taste, used: &mut HashSet<String>) -> String {
  for _ in 0..8 {
    let mut n = pick_name(r, t);
    let colliding = COLLIDING.with(|x| x.get());
    if !used.is_empty() && (t != Taste::Plain && r.pct(8) || colliding && r.pct(40)) {
      // in a fixed order, whatever the hash
      let mut v: Vec<&String> = used.iter().collect();
      v.sort();
      let o = r.pick(&v).to_string();
      n = if colliding { collide(r, &o) } else { look_alike(r, &o) };
    }
    if used.insert(n.clone()) {
      return n;
    }
  }
  loop {
    let n = random_word(r);
    if used.insert(n.clone()) {
      return n;
    }
  }
}

pub fn ty_of(r: &mut Rng, base: &str, args: &[&str], arrays: usize) -> Ty {
  let mut t = mk_ty(base, args.iter().map(|a| int(a)).collect(), !args.is_empty(), vec![]);
  for _ in 0..arrays {
    t.arrays.push(dim(r));
  }
  if r.pct(15) {
    t.quoted = true;
  }
  t
}

const SYNONYMS: [&[&str]; 15] = [
  &["int", "integer", "int4"],
  &["bigint", "int8"],
  &["smallint", "int2"],
  &["bool", "boolean"],
  &["real", "float4"],
  &["double precision", "float8"],
  &["varchar", "character varying"],
  &["char", "character"],
  &["varbit", "bit varying"],
  &["decimal", "numeric"],
  &["serial", "serial4"],
  &["time", "time without time zone"],
  &["timetz", "time with time zone"],
  &["timestamp", "timestamp without time zone"],
  &["timestamptz", "timestamp with time zone"],
];

/// Another spelling of the same type.
pub fn respell_ty(r: &mut Rng, t: &Ty) -> Ty {
  let mut t = t.clone();
  if t.schema.is_none() {
    if let Some(s) = SYNONYMS.iter().find(|s| s.contains(&t.base.as_str())) {
      let b = r.pick(s).to_string();
      t.base = b.clone();
      t.name = b;
    }
  }
  if refsem::known_type(&t.name).is_none() {
    match &t.schema {
      Some(s) if s.val == "public" && r.pct(50) && refsem::known_type(&t.base).is_none() => {
        t.schema = None;
        t.name = t.base.clone();
      }
      None if r.pct(30) => {
        t.schema = Some(id_any(r, "public"));
        t.name = format!("public.{}", t.base);
      }
      _ => (),
    }
  }
  t.quoted = !is_var(&t.base) || r.pct(15);
  // a quoted type cannot hold a double quote
  if t.quoted && is_var(&t.base) && t.args.iter().any(|a| a.raw.contains('"')) {
    t.quoted = false;
  }
  t.inner = 0;
  t
}

struct Ctx {
  /// (schema, name, values) of enums that can be named as a type.
  enums: Vec<(Option<String>, String, Vec<String>)>,
  taste: Taste,
}

fn key_ty(r: &mut Rng, c: &Ctx) -> Ty {
  match r.below(12) {
    0..=3 => {
      let b = *r.pick(&["int", "integer", "int4"]);
      ty_of(r, b, &[], 0)
    }
    4 => ty_of(r, "bigint", &[], 0),
    5 => ty_of(r, "uuid", &[], 0),
    6 => {
      let n = *r.pick(&["20", "255", "1"]);
      ty_of(r, "varchar", &[n], 0)
    }
    7 => ty_of(r, "decimal", &["10", "2"], 0),
    8 => ty_of(r, "bit varying", &["8"], 0),
    9 if !c.enums.is_empty() => enum_ty(r, c),
    _ => any_valid_ty(r, c),
  }
}

fn enum_ty(r: &mut Rng, c: &Ctx) -> Ty {
  let (s, n, _) = r.pick(&c.enums).clone();
  let mut t = mk_ty(&n, vec![], false, vec![]);
  t.quoted = !is_var(&n) || r.pct(15);
  let sp = match s {
    Some(s) => Some(s),
    None if refsem::known_type(&n).is_some() => Some("public".to_string()),
    None => r.pct(25).then(|| "public".to_string()),
  };
  if let Some(s) = sp {
    let i = id_any(r, &s);
    t.name = format!("{s}.{n}");
    t.schema = Some(i);
  }
  t
}

fn any_valid_ty(r: &mut Rng, c: &Ctx) -> Ty {
  let arrays = if r.pct(15) { 1 + r.below(2) } else { 0 };
  match r.below(10) {
    0..=5 => {
      let b = *r.pick(&TYPES);
      let n = refsem::known_type(b).map(|x| x.1).unwrap_or(0);
      let mut args = vec![];
      if n > 0 && r.pct(60) {
        for _ in 0..n {
          args.push(*r.pick(&["1", "2", "3", "5", "10", "255", "04"]));
        }
      }
      let mut t = ty_of(r, b, &args, arrays);
      if !t.has_args && r.pct(5) {
        t.has_args = true; // empty parentheses
      }
      t
    }
    6..=7 if !c.enums.is_empty() => {
      let mut t = enum_ty(r, c);
      for _ in 0..arrays {
        t.arrays.push(dim(r));
      }
      t
    }
    _ => {
      // a type unknown to the check, with any arguments
      let b = *r.pick(&["geometry", "interval", "INT", "Varchar", "my type", "string", "hstore", "datetime", "int16", "text2"]);
      let mut t = mk_ty(b, vec![], false, vec![]);
      if r.pct(40) {
        t.has_args = true;
        for _ in 0..r.below(4) {
          let l = match r.below(4) {
            0 => single("x"),
            1 => dec("1.5"),
            2 => boolean(true),
            _ => int("4"),
          };
          t.args.push(l);
        }
      }
      if r.pct(20) {
        let s = *r.pick(&["public", "other", "a.b"]);
        t.name = format!("{s}.{b}");
        t.schema = Some(id_any(r, s));
      }
      t
    }
  }
}

/// Text of n characters, none of which the parser drops.
fn text_len(r: &mut Rng, n: usize) -> Lit {
  let mut s = String::new();
  let odd = r.pct(40);
  for i in 0..n {
    s.push_str(match odd && i > 0 {
      true => *r.pick(&[" ", " ", "\t", "\n", "\u{a0}", "\u{301}", "\\", "\"", "`", "#", "/", "\u{200d}", "\r", "x"]),
      false => *r.pick(&["a", "b", "é", "日", "🦀", "1"]),
    });
  }
  if r.pct(70) {
    single(&s)
  } else {
    triple(&s)
  }
}

/// A default that fits the type.
fn fitting_default(r: &mut Rng, c: &Ctx, t: &Ty, nullable: bool) -> Option<Lit> {
  let known = refsem::known_type(&t.name);
  if nullable && r.pct(20) && (known.is_some() || is_enum(c, t)) {
    return Some(null());
  }
  let len = match t.args.first().map(|a| &a.val) {
    Some(Val::Int(n)) => Some(*n as usize),
    _ => None,
  };
  match known.map(|k| k.0) {
    None => {
      let (s, n) = t.name.rsplit_once('.').unwrap_or(("public", &t.name));
      let e = c.enums.iter().find(|e| e.0.as_deref().unwrap_or("public") == s && e.1 == n)?;
      if r.pct(15) {
        return Some(expr("f()"));
      }
      let v = if e.2.is_empty() { return Some(expr("f()")) } else { r.pick(&e.2).clone() };
      if is_spaced(&v) && !["true", "false", "null"].contains(&v.split(' ').next().unwrap_or("")) && r.pct(60) {
        Some(word(&v))
      } else if !v.contains('\'') && !v.starts_with([' ', '\t', '\n', '\r']) {
        Some(single(&v))
      } else {
        None
      }
    }
    Some("bit" | "char") => match len {
      Some(n) => Some(text_len(r, n)),
      None => Some(text_len(r, 3)),
    },
    Some("varbit" | "varchar") => match len {
      Some(n) => {
        let k = r.below(n + 1);
        let m = if r.pct(50) { n } else { k };
        Some(text_len(r, m))
      }
      None => Some(text_len(r, 7)),
    },
    Some("smallint") => Some(int(r.pick(&["0", "1", "32767", "032767", "42"]))),
    Some("integer") => Some(int(r.pick(&["0", "2147483647", "32768", "65536", "7"]))),
    Some("bigint" | "serial" | "bigserial" | "smallserial") => Some(int(r.pick(&["9223372036854775807", "2147483648", "0", "32768"]))),
    Some("bool") => Some(boolean(r.pct(50))),
    Some("real" | "double" | "decimal" | "money") => Some(match r.below(3) {
      0 => int("99999999999"),
      1 => dec("1.5"),
      _ => dec("0."),
    }),
    Some(_) => Some(match r.below(6) {
      0 => single("some text"),
      1 => expr("now()"),
      2 => int("3000000000"),
      3 => word("some word"),
      4 => hex("#abc"),
      _ => dec("0.25"),
    }),
  }
}

fn is_enum(c: &Ctx, t: &Ty) -> bool {
  let (s, n) = t.name.rsplit_once('.').unwrap_or(("public", &t.name));
  c.enums.iter().any(|e| e.0.as_deref().unwrap_or("public") == s && e.1 == n)
}

fn harmless_attr(r: &mut Rng) -> Attr {
  let k = *r.pick(&["note", "increment", "custom", "Pk", "UNIQUE", "Null", "pks", "headercolor", "type", "name", "update", "primary", "not nulls", "check"]);
  let v = match k {
    "increment" => None,
    "note" => Some(single("some note")),
    _ => match r.below(4) {
      0 => None,
      1 => Some(single("v")),
      2 => Some(word("w x")),
      _ => Some(int("5")),
    },
  };
  mk_attr(k, v)
}

/// A key that looks like another one and means nothing.
fn key_like(r: &mut Rng, k: &str) -> String {
  for _ in 0..5 {
    let n = match r.below(10) {
      0 => format!("{k}s"),
      1 => k.to_uppercase(),
      2 => k.replace('_', " "),
      3 => k.replace(' ', "_"),
      4 => k.replace([' ', '_'], ""),
      5 => format!("{k} {k}"),
      6 => format!("{k}_"),
      7 => k[..1].to_uppercase() + &k[1..],
      8 => k[..k.len() - 1].to_string(),
      _ => format!("{k}2"),
    };
    const KNOWN: [&str; 13] = ["type", "update", "delete", "pk", "primary key", "unique", "null", "not null", "increment", "default", "note", "name", "database_type"];
    if n != k && is_spaced(&n) && !KNOWN.contains(&n.as_str()) && !n.eq_ignore_ascii_case("note") && !n.eq_ignore_ascii_case("ref") {
      return n;
    }
  }
  format!("{k}z")
}

fn push_attr(s: &mut Settings, a: Attr) {
  if !s.attrs.iter().any(|b| b.key.val == a.key.val) {
    s.attrs.push(a);
  }
}

/// Recomputes what follows from the attributes.
pub fn rederive(d: &mut Doc) {
  for b in &mut d.blocks {
    match b {
      Block::Project(p) => p.db = derive_db(&p.props),
      Block::Table(t) => {
        for c in &mut t.cols {
          if let Some(s) = &mut c.settings {
            s.derived = derive_col(&s.attrs);
          }
        }
        for x in t.indexes.iter_mut().flat_map(|x| &mut x.defs) {
          if let Some(s) = &mut x.settings {
            s.derived = derive_idx(&s.attrs);
          }
        }
      }
      Block::Enum(e) => {
        for v in &mut e.values {
          if let Some(s) = &mut v.settings {
            s.derived = derive_enum(&s.attrs);
          }
        }
      }
      Block::Ref(x) => {
        if let Some(s) = &mut x.settings {
          s.derived = derive_rel(&s.attrs);
        }
      }
      _ => (),
    }
  }
}

fn mk_ref_id(r: &mut Rng, tabs: &[Table], ti: usize, cols: &[String]) -> RefId {
  let (schema, table) = spell_table(r, tabs, ti);
  RefId {
    sp: (0, 0),
    schema,
    table,
    comps: cols.iter().map(|c| id_any(r, c)).collect(),
    paren: cols.len() != 1 || r.pct(15),
  }
}

/// One of the spellings that mean this table.
pub fn spell_table(r: &mut Rng, tabs: &[Table], ti: usize) -> (Option<Id>, Id) {
  let t = &tabs[ti];
  let by_alias = tabs.iter().any(|x| x.alias.as_ref().is_some_and(|a| a.val == t.name.val));
  let default = t.schema.as_ref().is_none_or(|s| s.val == "public");
  if let Some(a) = &t.alias {
    if r.pct(45) {
      return (None, id_any(r, &a.val));
    }
  }
  let name = id_any(r, &t.name.val);
  match &t.schema {
    Some(s) if !default => (Some(id_any(r, &s.val)), name),
    _ if by_alias || r.pct(30) => (Some(id_any(r, "public")), name),
    _ => (None, name),
  }
}

/// Keys of a table: lists of column names declared unique or primary as a whole.
fn keys(t: &Table) -> Vec<Vec<String>> {
  let mut v = vec![];
  for c in &t.cols {
    if refsem::col_is_pk(c) || refsem::col_is_unique(c) {
      v.push(vec![c.name.val.clone()]);
    }
  }
  for d in t.indexes.iter().flat_map(|x| &x.defs) {
    if refsem::idx_is_key(d) && d.cols.iter().all(|c| matches!(c, IdxCol::Name(_))) {
      v.push(d.cols.iter().map(|c| if let IdxCol::Name(i) = c { i.val.clone() } else { String::new() }).collect());
    }
  }
  v
}

/// A document without violations, of about `scale` tables.
pub fn valid(r: &mut Rng, scale: usize) -> Doc {
  choose_common(r);
  let taste = *r.pick(&[Taste::Plain, Taste::Mixed, Taste::Mixed, Taste::Odd]);
  let mut used_schema: HashSet<String> = HashSet::from(["public".to_string()]);
  let mut schemas: Vec<Option<String>> = vec![None, None, Some("public".into())];
  for _ in 0..r.below(3) {
    let s = match r.below(12) {
      // like the default one, or like a name within
      0 => {
        let s = match r.pct(60) {
          true => r.pick(&["PUBLIC", "Public", "publi", "publics", "public.public", " public", "public ", "default", "dbo", ""]).to_string(),
          false => pick_name(r, taste),
        };
        if !used_schema.insert(s.clone()) {
          continue;
        }
        s
      }
      _ => fresh(r, taste, &mut used_schema),
    };
    schemas.push(Some(s.clone()));
    schemas.push(Some(s));
  }
  // one list far longer than usual
  let wide = if r.pct(4) { 1 + r.below(9) } else { 0 };
  let mut ctx = Ctx { enums: vec![], taste };
  let mut blocks: Vec<Block> = vec![];

  // enums
  let mut used_enum: HashSet<(String, String)> = HashSet::new();
  // now and then a great many declarations
  let many = wide >= 8 && r.pct(8);
  for _ in 0..if wide == 9 { 12 + r.below(if many { 700 } else { 60 }) } else { r.below(4) } {
    let s = r.pick(&schemas).clone();
    let n = match &s {
      // a schema and its content of one name
      Some(s) if r.pct(5) => s.clone(),
      _ => pick_name(r, taste),
    };
    if !used_enum.insert((s.clone().unwrap_or("public".into()), n.clone())) {
      continue;
    }
    let mut used = HashSet::new();
    let nv = if wide == 1 { 20 + r.below(300) } else { r.below(6) };
    let vals: Vec<String> = (0..nv).map(|_| fresh(r, taste, &mut used)).collect();
    let mut e = Enum { schema: s.as_ref().map(|s| id_any(r, s)), name: id_any(r, &n), ..Default::default() };
    for v in &vals {
      let settings = r.pct(20).then(|| {
        let mut s = Settings::default();
        for _ in 0..r.below(3) {
          push_attr(&mut s, harmless_attr(r));
        }
        s
      });
      e.values.push(EnumVal { sp: (0, 0), name: id_any(r, v), settings });
    }
    if is_spaced(&n) {
      ctx.enums.push((s.filter(|s| s != "public"), n, vals));
    }
    blocks.push(Block::Enum(e));
  }

  // tables
  let mut tabs: Vec<Table> = vec![];
  let mut used_tab: HashSet<(String, String)> = HashSet::new();
  let mut used_alias: HashSet<String> = HashSet::new();
  let n = match r.below(10) {
    _ if wide == 8 => 12 + r.below(if many { 700 } else { 60 }),
    0 => 0,
    1..=2 => 1,
    _ => 1 + r.below(scale.max(1)),
  };
  for _ in 0..n {
    let s = r.pick(&schemas).clone();
    // the same table name in several schemas is welcome
    let n = if !tabs.is_empty() && r.pct(20) { r.pick(&tabs).name.val.clone() } else { pick_name(r, taste) };
    let (mut s, mut n) = (s, n);
    if taste != Taste::Plain && !tabs.is_empty() && r.pct(6) {
      // names that look alike, alone or together with the schema
      let o: &Table = r.pick(&tabs);
      let (os, on) = (o.schema.as_ref().map(|s| s.val.clone()), o.name.val.clone());
      match (r.below(3), os) {
        (0, Some(os)) if on.contains('.') => {
          let (a, b) = on.split_once('.').unwrap_or_default();
          (s, n) = (Some(format!("{os}.{a}")), b.to_string());
        }
        (1, Some(os)) if os.contains('.') => {
          let (a, b) = os.split_once('.').unwrap_or_default();
          (s, n) = (Some(a.to_string()), format!("{b}.{on}"));
        }
        _ => n = look_alike(r, &on),
      }
    }
    if r.pct(3) {
      n = s.clone().unwrap_or("public".into());
    }
    if !used_tab.insert((s.clone().unwrap_or("public".into()), n.clone())) {
      continue;
    }
    let mut t = Table { schema: s.as_ref().map(|s| id_any(r, s)), name: id_any(r, &n), ..Default::default() };
    if r.pct(35) {
      // an alias may look like the name of any table
      let a = if r.pct(15) && !tabs.is_empty() { r.pick(&tabs).name.val.clone() } else { pick_name(r, taste) };
      if used_alias.insert(a.clone()) {
        t.alias = Some(id_any(r, &a));
      }
    }
    if r.pct(20) {
      let mut s = Settings::default();
      for _ in 0..r.below(3) {
        push_attr(&mut s, harmless_attr(r));
      }
      t.settings = Some(s);
    }
    let mut used = HashSet::new();
    for _ in 0..match r.below(12) {
      _ if wide == 2 => 20 + r.below(280),
      _ if wide == 7 => 7 + r.below(10),
      _ if wide == 8 => r.below(3),
      10 if r.pct(50) => 6 + r.below(10),
      0 => 0,
      11 => 12,
      _ => 1 + r.below(6),
    } {
      let name = fresh(r, taste, &mut used);
      let ty = if r.pct(50) { key_ty(r, &ctx) } else { any_valid_ty(r, &ctx) };
      let has_pk = t.cols.iter().any(refsem::col_is_pk);
      let mut c = Col { name: id_any(r, &name), ty, ..Default::default() };
      if r.pct(60) {
        let mut s = Settings::default();
        let pk = !has_pk && c.ty.arrays.is_empty() && r.pct(35);
        if pk {
          push_attr(&mut s, mk_attr(r.pick(&["pk", "primary key"]), None));
          if r.pct(5) {
            push_attr(&mut s, mk_attr(r.pick(&["pk", "primary key"]), None));
          }
        }
        if r.pct(25) {
          push_attr(&mut s, mk_attr("unique", None));
        }
        let mut nullable = false;
        if r.pct(40) {
          nullable = !pk && r.pct(60);
          push_attr(&mut s, mk_attr(if nullable { "null" } else { "not null" }, None));
        }
        if r.pct(40) {
          if let Some(d) = fitting_default(r, &ctx, &c.ty, nullable) {
            push_attr(&mut s, mk_attr("default", Some(d)));
          }
        }
        for _ in 0..r.below(3) {
          push_attr(&mut s, harmless_attr(r));
        }
        if !s.attrs.is_empty() && r.pct(8) {
          let mut a = r.pick(&s.attrs).clone();
          a.key = bare(&key_like(r, &a.key.val));
          push_attr(&mut s, a);
        }
        r.shuffle(&mut s.attrs);
        c.settings = Some(s);
      }
      t.cols.push(c);
    }
    if r.pct(45) && !t.cols.is_empty() {
      let x = valid_indexes(r, &t, wide == 3);
      t.indexes = Some(x);
    } else if r.pct(5) {
      t.indexes = Some(Indexes::default());
    }
    if taste != Taste::Plain && r.pct(6) {
      column_like_expression(r, &mut t);
    }
    t.note = r.pct(20).then(|| note(r, taste));
    tabs.push(t);
  }

  // aliases that are the names of other tables, in a ring or a chain
  if tabs.len() > 1 && r.pct(5) {
    let mut at: Vec<usize> = (0..tabs.len()).collect();
    r.shuffle(&mut at);
    at.truncate(1 + r.below(3).max(1));
    let ring = r.pct(60);
    let names: Vec<String> = at.iter().map(|i| tabs[*i].name.val.clone()).collect();
    for (k, i) in at.iter().enumerate() {
      if k + 1 == at.len() && !ring {
        break;
      }
      let a = &names[(k + 1) % names.len()];
      if tabs.iter().enumerate().all(|(j, t)| j == *i || t.alias.as_ref().is_none_or(|x| x.val != *a)) {
        tabs[*i].alias = Some(id_any(r, a));
      }
    }
  }

  // relations
  let mut refs: Vec<Ref> = vec![];
  if !tabs.is_empty() && r.pct(5) {
    alike_when_joined(r, &mut tabs, &mut refs);
  }
  if !tabs.is_empty() {
    let most = if r.pct(10) { 300 } else { 60 };
    for _ in 0..if wide == 4 { 40 + r.below(most) } else { r.below(2 + scale) } {
      add_relation(r, &mut tabs, &mut refs, &ctx);
    }
  }

  // groups
  let mut groups = vec![];
  let mut used_group = HashSet::new();
  for _ in 0..if wide == 9 { r.below(if many { 600 } else { 50 }) } else { r.below(3) } {
    if !r.pct(60) {
      continue;
    }
    let nm = if r.pct(30) && !tabs.is_empty() { r.pick(&tabs).name.val.clone() } else { pick_name(r, taste) };
    if !used_group.insert(nm.clone()) {
      continue;
    }
    let mut g = Group { name: id_any(r, &nm), ..Default::default() };
    if r.pct(25) {
      let mut s = Settings::default();
      for _ in 0..r.below(3) {
        push_attr(&mut s, harmless_attr(r));
      }
      g.settings = Some(s);
    }
    let mut order: Vec<usize> = (0..tabs.len()).collect();
    r.shuffle(&mut order);
    for &ti in order.iter().take(if wide == 5 { 99 } else { r.below(5) }) {
      let (schema, name) = spell_table(r, &tabs, ti);
      g.items.push(Item { sp: (0, 0), schema, name });
    }
    g.note = r.pct(20).then(|| note(r, taste));
    groups.push(Block::Group(g));
  }

  blocks.extend(tabs.into_iter().map(Block::Table));
  blocks.extend(refs.into_iter().map(Block::Ref));
  blocks.extend(groups);
  if r.pct(20) {
    blocks.push(Block::Note(note(r, taste)));
  }
  let pn = pick_name(r, taste);
  let pid = id_any(r, &pn);
  let mut p = fill_project(r, taste, pid);
  let mut seen = BTreeSet::new();
  p.props.retain(|a| seen.insert(a.key.val.clone()));
  if !p.props.is_empty() && r.pct(10) {
    let mut a = r.pick(&p.props).clone();
    a.key = bare(&key_like(r, &a.key.val));
    if seen.insert(a.key.val.clone()) {
      p.props.push(a);
    }
  }
  blocks.insert(0, Block::Project(p));
  if r.pct(60) {
    r.shuffle(&mut blocks);
  }
  let mut d = Doc { blocks, ..Default::default() };
  if wide == 6 {
    // a settings list or a project with very many entries
    let mut v = attr_lists(&mut d);
    if !v.is_empty() {
      let k = r.below(v.len());
      let most = if r.pct(20) { 300 } else { 40 };
      let n = 8 + r.below(most);
      for i in 0..n {
        let at = r.below(v[k].len() + 1);
        v[k].insert(at, mk_attr(&format!("k{i}"), Some(int("1"))));
      }
    }
  }
  repair(&mut d);
  rederive(&mut d);
  d
}

/// Column lists that differ but are the same text when joined, in indexes and relations.
fn alike_when_joined(r: &mut Rng, tabs: &mut [Table], refs: &mut Vec<Ref>) {
  let sep = *r.pick(&["", "", " ", " ", ", ", ", ", ",", ",", ".", ".", "_", "-", "|", ":", ";", "/", "`, `", "', '", "\0", "\u{1f}", "), (", "__", "::"]);
  let w: Vec<String> = (0..3).map(|i| format!("{}{i}", pick_name(r, Taste::Plain))).collect();
  let j = |v: &[String]| v.join(sep);
  let lists = [
    vec![w[0].clone(), j(&w[1..])],
    vec![j(&w[..2]), w[2].clone()],
    w.clone(),
    vec![j(&w)],
    vec![j(&w[1..]), w[0].clone()],
  ];
  let (kt, st) = (r.below(tabs.len()), r.below(tabs.len()));
  let all: BTreeSet<String> = lists.iter().flatten().cloned().collect();
  for ti in BTreeSet::from([kt, st]) {
    if tabs[ti].cols.iter().any(|c| all.contains(&c.name.val)) {
      return;
    }
    let mut v: Vec<&String> = all.iter().collect();
    r.shuffle(&mut v);
    for n in v {
      tabs[ti].cols.push(Col { name: id_any(r, n), ty: ty_of(r, "int", &[], 0), ..Default::default() });
    }
  }
  let kind = r.below(5);
  let attr = if kind == 0 { mk_attr("type", Some(word(r.pick(&INDEX_TYPES)))) } else { mk_attr("unique", None) };
  let settings = (kind != 1).then(|| Settings { attrs: vec![attr], ..Default::default() });
  let unique = kind > 1;
  let mut used = vec![];
  for _ in 0..2 + r.below(3) {
    let l = r.pick(&lists).clone();
    if used.contains(&l) {
      continue;
    }
    let def = IdxDef { sp: (0, 0), cols: l.iter().map(|n| IdxCol::Name(id_any(r, n))).collect(), settings: settings.clone(), multi: l.len() > 1 || r.pct(50) };
    tabs[kt].indexes.get_or_insert_with(Indexes::default).defs.push(def);
    used.push(l);
  }
  if !unique || r.pct(30) {
    return;
  }
  // relations to keys of the same length, from the same columns or others that are alike
  for l in used.clone() {
    let mut from = r.pick(&lists).clone();
    if from.len() != l.len() {
      from = lists.iter().find(|x| x.len() == l.len()).cloned().unwrap_or_default();
    }
    if kt == st && from == l {
      continue;
    }
    let (a, b) = (mk_ref_id(r, tabs, st, &from), mk_ref_id(r, tabs, kt, &l));
    let (rel, lhs, rhs) = if r.pct(70) { (Rel::ManyOne, a, b) } else { (Rel::OneMany, b, a) };
    refs.push(Ref { sp: (0, 0), name: None, rel, lhs, rhs, settings: None, block: r.pct(50) });
  }
}

fn idx_expr_of(e: &str) -> IdxCol {
  let mut l = expr(e);
  l.val = Val::Str(e.into());
  IdxCol::Expr(l)
}

fn idx_expr(r: &mut Rng) -> IdxCol {
  idx_expr_of(r.pick(&["lower(x)", "x + 1", "now()", "a", "id", "x*2", "", " ", "'q'", "lower(x), y", "// x", "é(日)"]))
}

/// An expression whose text is almost the same.
fn expr_like(r: &mut Rng, l: &Lit) -> IdxCol {
  let e = match &l.val {
    Val::Str(s) | Val::Expr(s) => s.clone(),
    _ => String::new(),
  };
  let n = match r.below(7) {
    0 => e.replace(' ', ""),
    1 => e.to_uppercase(),
    2 => format!("{e} "),
    3 => format!(" {e}"),
    4 => e.replace('(', " (").replace('+', "  +"),
    5 => e.chars().rev().collect(),
    _ => e.clone(),
  };
  idx_expr_of(&n)
}

/// A column whose name is the text of an expression as written, and two definitions of the
/// same form on the one and on the other.
fn column_like_expression(r: &mut Rng, t: &mut Table) {
  let e = *r.pick(&["a", "id", "lower(x)", "x + 1", "", " ", "a, b", "now()"]);
  let name = match r.below(5) {
    0..=2 => format!("`{e}`"),
    3 => e.to_string(),
    _ => r.pick(&[format!("`{e}"), format!("({e})"), format!("'{e}'"), format!("expr:{e}"), format!("{e}`")]).clone(),
  };
  if t.cols.iter().any(|c| c.name.val == name) {
    return;
  }
  let other = t.cols.first().map(|c| c.name.clone());
  t.cols.push(Col { name: quoted(&name), ty: mk_ty("int", vec![], false, vec![]), ..Default::default() });
  let settings = match r.below(3) {
    0 => None,
    1 => Some(Settings { attrs: vec![mk_attr("unique", None)], ..Default::default() }),
    _ => {
      let w = word(r.pick(&INDEX_TYPES));
      Some(Settings { attrs: vec![mk_attr("type", Some(w))], ..Default::default() })
    }
  };
  let mut both = vec![vec![IdxCol::Name(quoted(&name))], vec![idx_expr_of(e)]];
  if let Some(o) = other.filter(|_| r.pct(30)) {
    for c in &mut both {
      c.push(IdxCol::Name(o.clone()));
    }
  }
  if r.pct(50) {
    both.reverse();
  }
  let x = t.indexes.get_or_insert_with(Indexes::default);
  for cols in both {
    let multi = cols.len() != 1 || r.pct(30);
    x.defs.push(IdxDef { sp: (0, 0), cols, settings: settings.clone(), multi });
  }
}

fn valid_indexes(r: &mut Rng, t: &Table, wide: bool) -> Indexes {
  let mut x = Indexes::default();
  let mut has_pk = t.cols.iter().any(refsem::col_is_pk);
  let mut last: Vec<String> = vec![];
  for _ in 0..if wide { 20 + r.below(60) } else { r.below(5) } {
    let mut names: Vec<String> = t.cols.iter().map(|c| c.name.val.clone()).collect();
    r.shuffle(&mut names);
    let n = match r.below(11) {
      10 => 1 + r.below(20),
      k => [1, 1, 2, 2, 3, 1, 2, 2, 4, 12][k],
    };
    names.truncate(n);
    if !last.is_empty() && r.pct(40) {
      // close to the previous one: another order, one less, one more
      names = last.clone();
      match r.below(3) {
        0 => names.reverse(),
        1 if names.len() > 1 => {
          names.pop();
        }
        _ => {
          let c = r.pick(&t.cols).name.val.clone();
          if !names.contains(&c) {
            names.push(c);
          }
        }
      }
    }
    last = names.clone();
    let mut cols: Vec<IdxCol> = names.iter().map(|n| IdxCol::Name(id_any(r, n))).collect();
    if r.pct(20) {
      let at = r.below(cols.len() + 1);
      cols.insert(at, idx_expr(r));
    }
    let multi_before = x.defs.last().map(|d: &IdxDef| d.cols.clone());
    if let Some(b) = multi_before.filter(|b| b.iter().any(|c| matches!(c, IdxCol::Expr(_))) && r.pct(40)) {
      // the same but for the text of an expression
      cols = b;
      for c in &mut cols {
        if let IdxCol::Expr(l) = c {
          *c = expr_like(r, l);
        }
      }
    }
    let settings = r.pct(70).then(|| {
      let mut s = Settings::default();
      match r.below(6) {
        0 if !has_pk => {
          has_pk = true;
          push_attr(&mut s, mk_attr("pk", None));
        }
        0..=2 => push_attr(&mut s, mk_attr("unique", None)),
        3..=4 => push_attr(&mut s, mk_attr("type", Some(word(r.pick(&INDEX_TYPES))))),
        _ => (),
      }
      if r.pct(30) {
        push_attr(&mut s, mk_attr("name", Some(single("ix"))));
      }
      if r.pct(20) {
        push_attr(&mut s, mk_attr("note", Some(single("n"))));
      }
      if r.pct(10) {
        push_attr(&mut s, mk_attr("increment", None));
      }
      s
    });
    let multi = cols.len() != 1 || r.pct(30);
    x.defs.push(IdxDef { sp: (0, 0), cols, settings, multi });
  }
  x
}

fn fk_col(r: &mut Rng, t: &mut Table, like: &Ty, taste: Taste, unique: bool) -> String {
  // an existing column of that type, or a new one
  if r.pct(40) {
    let c: Vec<&Col> = t.cols.iter().filter(|c| refsem::same_type(&c.ty, like) && (!unique || refsem::col_is_unique(c) || refsem::col_is_pk(c))).collect();
    if !c.is_empty() {
      return r.pick(&c).name.val.clone();
    }
  }
  let mut used: HashSet<String> = t.cols.iter().map(|c| c.name.val.clone()).collect();
  let n = fresh(r, taste, &mut used);
  let ty = respell_ty(r, like);
  let settings = if unique {
    Some(Settings { attrs: vec![mk_attr("unique", None)], ..Default::default() })
  } else {
    r.pct(30).then(Settings::default)
  };
  let at = r.below(t.cols.len() + 1);
  t.cols.insert(at, Col { name: id_any(r, &n), ty, settings, ..Default::default() });
  n
}

fn col_ty(t: &Table, c: &str) -> Ty {
  t.cols.iter().find(|x| x.name.val == c).map(|c| c.ty.clone()).unwrap_or_default()
}

fn add_relation(r: &mut Rng, tabs: &mut [Table], refs: &mut Vec<Ref>, ctx: &Ctx) {
  // a key somewhere
  let all: Vec<(usize, Vec<String>)> = tabs.iter().enumerate().flat_map(|(i, t)| keys(t).into_iter().map(move |k| (i, k))).collect();
  if all.is_empty() {
    return;
  }
  let (kt, mut key) = if r.pct(5) {
    all.iter().max_by_key(|k| k.1.len()).cloned().unwrap_or_default()
  } else if r.pct(50) {
    let c: Vec<_> = all.iter().filter(|k| k.1.len() > 1).collect();
    if c.is_empty() {
      r.pick(&all).clone()
    } else {
      (*r.pick(&c)).clone()
    }
  } else {
    r.pick(&all).clone()
  };
  if r.pct(50) {
    r.shuffle(&mut key);
  }
  let st = r.below(tabs.len());
  let kind = match r.below(10) {
    0..=4 => Rel::ManyOne,
    5..=6 => Rel::OneMany,
    7..=8 => Rel::OneOne,
    _ => Rel::ManyMany,
  };
  let mut cols = vec![];
  if kind == Rel::ManyMany && key.len() > 1 {
    // the other side needs a composite key of its own
    for k in &key {
      let ty = col_ty(&tabs[kt], k);
      let mut used: HashSet<String> = tabs[st].cols.iter().map(|c| c.name.val.clone()).collect();
      let n = fresh(r, ctx.taste, &mut used);
      let ty = respell_ty(r, &ty);
      tabs[st].cols.push(Col { name: id_any(r, &n), ty, ..Default::default() });
      cols.push(n);
    }
    let def = IdxDef {
      sp: (0, 0),
      cols: cols.iter().map(|n| IdxCol::Name(id_any(r, n))).collect(),
      settings: Some(Settings { attrs: vec![mk_attr("unique", None)], ..Default::default() }),
      multi: true,
    };
    tabs[st].indexes.get_or_insert_with(Indexes::default).defs.push(def);
  } else {
    for k in &key {
      let ty = col_ty(&tabs[kt], k);
      let n = fk_col(r, &mut tabs[st], &ty, ctx.taste, kind == Rel::ManyMany);
      if cols.contains(&n) {
        return;
      }
      cols.push(n);
    }
  }
  let (mut lt, mut lc, mut rt, mut rc) = (st, cols, kt, key);
  let swap = match kind {
    Rel::OneMany => true,
    Rel::ManyOne => false,
    _ => r.pct(50),
  };
  if swap {
    std::mem::swap(&mut lt, &mut rt);
    std::mem::swap(&mut lc, &mut rc);
  }
  let rhs = mk_ref_id(r, tabs, rt, &rc);
  if lc.len() == 1 && r.pct(45) {
    let c = tabs[lt].cols.iter_mut().find(|c| c.name.val == lc[0]);
    if let Some(c) = c {
      c.settings.get_or_insert_with(Settings::default).refs.push(RefInline { sp: (0, 0), rel: kind, rhs });
    }
    return;
  }
  let lhs = mk_ref_id(r, tabs, lt, &lc);
  let name = if r.pct(35) { Some(name(r, ctx.taste)) } else { None };
  let settings = r.pct(35).then(|| {
    let mut s = Settings::default();
    for a in rel_settings(r, ctx.taste).attrs {
      push_attr(&mut s, a);
    }
    s
  });
  refs.push(Ref { sp: (0, 0), name, rel: kind, lhs, rhs, settings, block: r.pct(50) });
}

// ---------------------------------------------------------------- repair

pub fn remove(d: &mut Doc, l: &Loc) {
  macro_rules! block {
    ($i:expr, $k:ident) => {
      match d.blocks.get_mut(*$i) {
        Some(Block::$k(x)) => x,
        _ => return,
      }
    };
  }
  match l {
    Loc::Nothing => d.blocks.push(Block::Project(Project { name: bare("p"), ..Default::default() })),
    Loc::Block(i) => {
      d.blocks.remove(*i);
    }
    Loc::Prop(i, k) => {
      block!(i, Project).props.remove(*k);
    }
    Loc::TableAttr(i, k) => {
      if let Some(s) = &mut block!(i, Table).settings {
        s.attrs.remove(*k);
      }
    }
    Loc::Col(i, j) => {
      block!(i, Table).cols.remove(*j);
    }
    Loc::ColAttr(i, j, k) => {
      if let Some(s) = &mut block!(i, Table).cols[*j].settings {
        s.attrs.remove(*k);
      }
    }
    Loc::ColRef(i, j, k) => {
      if let Some(s) = &mut block!(i, Table).cols[*j].settings {
        s.refs.remove(*k);
      }
    }
    Loc::Alias(i) => block!(i, Table).alias = None,
    Loc::IdxDef(i, j) => {
      if let Some(x) = &mut block!(i, Table).indexes {
        x.defs.remove(*j);
      }
    }
    Loc::Indexes(i) => block!(i, Table).indexes = None,
    Loc::EnumVal(i, j) => {
      block!(i, Enum).values.remove(*j);
    }
    Loc::EnumAttr(i, j, k) => {
      if let Some(s) = &mut block!(i, Enum).values[*j].settings {
        s.attrs.remove(*k);
      }
    }
    Loc::IdxAttr(i, j, k) => {
      if let Some(s) = block!(i, Table).indexes.as_mut().and_then(|x| x.defs[*j].settings.as_mut()) {
        s.attrs.remove(*k);
      }
    }
    Loc::RefAttr(i, k) => {
      if let Some(s) = &mut block!(i, Ref).settings {
        s.attrs.remove(*k);
      }
    }
    Loc::GroupAttr(i, k) => {
      if let Some(s) = &mut block!(i, Group).settings {
        s.attrs.remove(*k);
      }
    }
    Loc::Item(i, j) => {
      block!(i, Group).items.remove(*j);
    }
    Loc::TyArgs(i, j) => {
      let t = &mut block!(i, Table).cols[*j].ty;
      t.args.clear();
      t.has_args = false;
    }
  }
}

pub fn repair(d: &mut Doc) {
  for _ in 0..300 {
    let v = refsem::violations(d);
    match v.last() {
      None => return,
      Some(x) => remove(d, &x.loc.clone()),
    }
  }
}

// ---------------------------------------------------------------- edits

fn pick_block(r: &mut Rng, d: &Doc, kind: &str) -> Option<usize> {
  let v: Vec<usize> = d.blocks.iter().enumerate().filter(|(_, b)| b.kind() == kind).map(|x| x.0).collect();
  if v.is_empty() {
    None
  } else {
    Some(*r.pick(&v))
  }
}
fn table_mut(d: &mut Doc, i: usize) -> &mut Table {
  match &mut d.blocks[i] {
    Block::Table(t) => t,
    _ => unreachable!(),
  }
}
fn pick_col(r: &mut Rng, d: &Doc) -> Option<(usize, usize)> {
  let v: Vec<(usize, usize)> = d
    .blocks
    .iter()
    .enumerate()
    .filter_map(|(i, b)| if let Block::Table(t) = b { Some((i, t.cols.len())) } else { None })
    .flat_map(|(i, n)| (0..n).map(move |j| (i, j)))
    .collect();
  if v.is_empty() {
    None
  } else {
    Some(*r.pick(&v))
  }
}

fn tweak(r: &mut Rng, i: &Id) -> Id {
  let s = match r.below(9) {
    6..=8 => look_alike(r, &i.val),
    0 => i.val.to_uppercase(),
    1 => i.val.to_lowercase(),
    2 => format!("{}_", i.val),
    3 => format!("{} ", i.val),
    4 => {
      let mut s = i.val.clone();
      s.pop();
      s
    }
    _ => i.val.clone(),
  };
  if s.contains('"') {
    return i.clone();
  }
  id_any(r, &s)
}

fn with_settings(c: &mut Col) -> &mut Settings {
  c.settings.get_or_insert_with(Settings::default)
}

fn any_name(r: &mut Rng, d: &Doc) -> Id {
  let mut v: Vec<String> = vec!["public".into(), "nothing".into(), "x".into()];
  for t in d.tables() {
    v.push(t.name.val.clone());
    v.extend(t.alias.iter().map(|a| a.val.clone()));
    v.extend(t.schema.iter().map(|a| a.val.clone()));
    v.extend(t.cols.iter().take(3).map(|c| c.name.val.clone()));
  }
  for e in d.enums() {
    v.push(e.name.val.clone());
    v.extend(e.schema.iter().map(|a| a.val.clone()));
  }
  for g in d.groups() {
    v.push(g.name.val.clone());
  }
  let s = r.pick(&v).clone();
  id_any(r, &s)
}

/// Endpoints of all relations.
fn endpoints(d: &mut Doc) -> Vec<&mut RefId> {
  let mut v = vec![];
  for b in &mut d.blocks {
    match b {
      Block::Ref(x) => {
        v.push(&mut x.lhs);
        v.push(&mut x.rhs);
      }
      Block::Table(t) => {
        for c in &mut t.cols {
          if let Some(s) = &mut c.settings {
            for x in &mut s.refs {
              v.push(&mut x.rhs);
            }
          }
        }
      }
      _ => (),
    }
  }
  v
}

fn attr_lists(d: &mut Doc) -> Vec<&mut Vec<Attr>> {
  let mut v = vec![];
  for b in &mut d.blocks {
    match b {
      Block::Table(t) => {
        if let Some(s) = &mut t.settings {
          v.push(&mut s.attrs);
        }
        for c in &mut t.cols {
          if let Some(s) = &mut c.settings {
            v.push(&mut s.attrs);
          }
        }
        for x in t.indexes.iter_mut().flat_map(|x| &mut x.defs) {
          if let Some(s) = &mut x.settings {
            v.push(&mut s.attrs);
          }
        }
      }
      Block::Enum(e) => {
        for x in &mut e.values {
          if let Some(s) = &mut x.settings {
            v.push(&mut s.attrs);
          }
        }
      }
      Block::Ref(x) => {
        if let Some(s) = &mut x.settings {
          v.push(&mut s.attrs);
        }
      }
      Block::Group(g) => {
        if let Some(s) = &mut g.settings {
          v.push(&mut s.attrs);
        }
      }
      Block::Project(p) => v.push(&mut p.props),
      _ => (),
    }
  }
  v
}

fn insert_block(r: &mut Rng, d: &mut Doc, b: Block) {
  let at = r.below(d.blocks.len() + 1);
  d.blocks.insert(at, b);
}

fn flip(rel: Rel) -> Rel {
  match rel {
    Rel::OneMany => Rel::ManyOne,
    Rel::ManyOne => Rel::OneMany,
    x => x,
  }
}

fn all_tables(d: &Doc) -> Vec<Table> {
  d.tables().cloned().collect()
}

/// One edit that may break a rule (or not quite). Returns what was done.
pub fn edit(r: &mut Rng, d: &mut Doc) -> &'static str {
  for _ in 0..30 {
    if let Some(k) = try_edit(r, d) {
      rederive(d);
      return k;
    }
  }
  "nothing"
}

pub const FAMILIES: [std::ops::Range<usize>; 6] = [0..14, 14..24, 24..34, 34..40, 40..54, 54..64];

fn try_edit(r: &mut Rng, d: &mut Doc) -> Option<&'static str> {
  let f = r.below(FAMILIES.len());
  try_edit_of(r, d, f)
}

/// An edit around one family of rules: 0 duplicates, 1 dangling, 2 foreign keys, 3 conflicts, 4 keys, 5 types.
pub fn edit_of(r: &mut Rng, d: &mut Doc, family: usize) -> &'static str {
  for _ in 0..60 {
    if let Some(k) = try_edit_of(r, d, family) {
      rederive(d);
      return k;
    }
  }
  "nothing"
}

fn try_edit_of(r: &mut Rng, d: &mut Doc, family: usize) -> Option<&'static str> {
  let f = FAMILIES[family].clone();
  let op = r.range(f.start, f.end - 1);
  Some(match op {
    // ---- duplicates
    0 => {
      let i = pick_block(r, d, "project")?;
      let b = d.blocks[i].clone();
      match r.below(3) {
        0 => {
          d.blocks.remove(i);
          "project removed"
        }
        1 => {
          insert_block(r, d, b);
          "project doubled"
        }
        _ => {
          let n = any_name(r, d);
          insert_block(r, d, Block::Project(Project { name: n, ..Default::default() }));
          "second project"
        }
      }
    }
    1 | 2 => {
      // a second table of the same or a similar name
      let i = pick_block(r, d, "table")?;
      let t = table_mut(d, i).clone();
      let mut u = Table { schema: t.schema.clone(), name: t.name.clone(), ..Default::default() };
      u.name = if r.pct(55) { id_any(r, &t.name.val) } else { tweak(r, &t.name) };
      match r.below(4) {
        0 => u.schema = if u.schema.is_none() { Some(id_any(r, "public")) } else { None },
        1 => u.schema = Some(any_name(r, d)),
        _ => (),
      }
      if r.pct(50) {
        u.cols.push(Col { name: bare("id"), ty: mk_ty("int", vec![], false, vec![]), ..Default::default() });
      }
      insert_block(r, d, Block::Table(u));
      "table of the same or a similar name"
    }
    3 | 4 => {
      let (i, j) = pick_col(r, d)?;
      let t = table_mut(d, i);
      let mut c = Col { name: t.cols[j].name.clone(), ty: mk_ty("int", vec![], false, vec![]), ..Default::default() };
      c.name = if r.pct(55) { id_any(r, &c.name.val.clone()) } else { tweak(r, &c.name) };
      let at = r.below(t.cols.len() + 1);
      t.cols.insert(at, c);
      "column of the same or a similar name"
    }
    5 => {
      let i = pick_block(r, d, "table")?;
      let n = {
        let al: Vec<Id> = d.tables().filter_map(|t| t.alias.clone()).collect();
        if !al.is_empty() && r.pct(80) {
          let a = r.pick(&al).clone();
          if r.pct(70) {
            id_any(r, &a.val)
          } else {
            tweak(r, &a)
          }
        } else {
          any_name(r, d)
        }
      };
      // an alias that takes a name over may also change what relations mean
      table_mut(d, i).alias = Some(n);
      "alias set"
    }
    6 => {
      let i = pick_block(r, d, "enum")?;
      let Block::Enum(e) = d.blocks[i].clone() else { return None };
      let mut f = Enum { schema: e.schema.clone(), name: id_any(r, &e.name.val), ..Default::default() };
      if r.pct(40) {
        f.name = tweak(r, &e.name);
      }
      match r.below(4) {
        0 => f.schema = if f.schema.is_none() { Some(id_any(r, "public")) } else { None },
        1 => f.schema = Some(any_name(r, d)),
        _ => (),
      }
      insert_block(r, d, Block::Enum(f));
      "enum of the same or a similar name"
    }
    7 => {
      let i = pick_block(r, d, "enum")?;
      let Block::Enum(e) = &mut d.blocks[i] else { return None };
      if e.values.is_empty() {
        return None;
      }
      let v = r.pick(&e.values).name.clone();
      let n = if r.pct(60) { id_any(r, &v.val) } else { tweak(r, &v) };
      let at = r.below(e.values.len() + 1);
      e.values.insert(at, EnumVal { sp: (0, 0), name: n, settings: None });
      "enum value of the same or a similar name"
    }
    8 => {
      let n = match pick_block(r, d, "group") {
        Some(i) if r.pct(80) => {
          let Block::Group(g) = &d.blocks[i] else { return None };
          let n = g.name.clone();
          if r.pct(70) {
            id_any(r, &n.val)
          } else {
            tweak(r, &n)
          }
        }
        _ => any_name(r, d),
      };
      insert_block(r, d, Block::Group(Group { name: n, ..Default::default() }));
      "group of the same or a similar name"
    }
    9 | 10 => {
      let tabs = all_tables(d);
      if tabs.is_empty() {
        return None;
      }
      if pick_block(r, d, "group").is_none() {
        insert_block(r, d, Block::Group(Group { name: bare("grp"), ..Default::default() }));
      }
      let i = pick_block(r, d, "group")?;
      let Block::Group(g) = &mut d.blocks[i] else { return None };
      let ti = r.below(tabs.len());
      let k = if r.pct(60) { 2 } else { 1 };
      for _ in 0..k {
        let (schema, name) = spell_table(r, &tabs, ti);
        let at = r.below(g.items.len() + 1);
        g.items.insert(at, Item { sp: (0, 0), schema, name });
      }
      "group items added"
    }
    11..=13 => {
      // an attribute or property of the same or a similar key
      let mut v = attr_lists(d);
      v.retain(|l| !l.is_empty());
      if v.is_empty() {
        return None;
      }
      let k = r.below(v.len());
      let l = &mut v[k];
      let mut a = r.pick(l).clone();
      if r.pct(4) {
        // far from one another
        let n = 7 + r.below(60);
        let at = r.below(l.len() + 1);
        for i in 0..n {
          l.insert(at, mk_attr(&format!("k{i}"), Some(int("1"))));
        }
      }
      if r.pct(45) {
        a.key = bare(&key_like(r, &a.key.val));
      }
      let at = r.below(l.len() + 1);
      l.insert(at, a);
      "attribute of the same or a similar key"
    }
    // ---- dangling
    14..=17 => {
      let n = any_name(r, d);
      let mut v = endpoints(d);
      if v.is_empty() {
        return None;
      }
      let longest = (0..v.len()).max_by_key(|k| v[*k].comps.len()).unwrap_or(0);
      let k = if r.pct(20) { longest } else { r.below(v.len()) };
      let e = &mut v[k];
      let what = r.below(7);
      match if e.comps.len() > 4 && r.pct(50) { 4 + what % 2 } else { what } {
        0 => {
          e.table = tweak(r, &e.table);
          "relation: table name changed"
        }
        1 => {
          e.table = n;
          "relation: table replaced"
        }
        2 => {
          e.schema = Some(n);
          "relation: schema set"
        }
        3 => {
          e.schema = None;
          "relation: schema dropped"
        }
        4 => {
          let j = r.below(e.comps.len().max(1)).min(e.comps.len().checked_sub(1)?);
          e.comps[j] = tweak(r, &e.comps[j]);
          "relation: column name changed"
        }
        5 => {
          let j = r.below(e.comps.len().max(1)).min(e.comps.len().checked_sub(1)?);
          e.comps[j] = n;
          "relation: column replaced"
        }
        _ => {
          let s = e.schema.as_ref()?;
          e.schema = Some(tweak(r, s));
          "relation: schema changed"
        }
      }
    }
    18 | 19 => {
      let n = any_name(r, d);
      let i = pick_block(r, d, "table")?;
      let t = table_mut(d, i);
      let x = t.indexes.get_or_insert_with(Indexes::default);
      if x.defs.is_empty() || r.pct(30) {
        let n2 = t.cols.first().map(|c| c.name.clone()).unwrap_or_else(|| n.clone());
        let n2 = if r.pct(50) { tweak(r, &n2) } else { n };
        x.defs.push(IdxDef { sp: (0, 0), cols: vec![IdxCol::Name(n2)], settings: None, multi: false });
        return Some("index added");
      }
      let k = r.below(x.defs.len());
      let dd = &mut x.defs[k];
      let j = r.below(dd.cols.len().max(1)).min(dd.cols.len().checked_sub(1)?);
      let old = dd.cols[j].clone();
      dd.cols[j] = match old {
        IdxCol::Name(i) if r.pct(60) => IdxCol::Name(tweak(r, &i)),
        IdxCol::Name(i) if r.pct(50) && !i.val.contains('`') => {
          // the same text as an expression
          let mut l = expr(&i.val);
          l.val = Val::Str(i.val.clone());
          IdxCol::Expr(l)
        }
        IdxCol::Expr(l) if r.pct(60) => expr_like(r, &l),
        _ => IdxCol::Name(n),
      };
      "index column changed"
    }
    20 | 21 => {
      let n = any_name(r, d);
      let s = r.pct(50).then(|| any_name(r, d));
      if pick_block(r, d, "group").is_none() {
        insert_block(r, d, Block::Group(Group { name: bare("grp"), ..Default::default() }));
      }
      let i = pick_block(r, d, "group")?;
      let Block::Group(g) = &mut d.blocks[i] else { return None };
      if g.items.is_empty() || r.pct(40) {
        g.items.push(Item { sp: (0, 0), schema: s, name: n });
        "group item added"
      } else {
        let j = r.below(g.items.len());
        match r.below(3) {
          0 => g.items[j].name = tweak(r, &g.items[j].name),
          1 => g.items[j].schema = s,
          _ => g.items[j].name = n,
        }
        "group item changed"
      }
    }
    22 => {
      let kind = *r.pick(&["enum", "table"]);
      let i = pick_block(r, d, kind)?;
      d.blocks.remove(i);
      "declaration removed"
    }
    23 => {
      // a default on a column of a declared or undeclared type
      let (i, j) = pick_col(r, d)?;
      let enums: Vec<Enum> = d.enums().cloned().collect();
      let mut schemas: Vec<String> = vec!["public".into()];
      schemas.extend(enums.iter().filter_map(|e| e.schema.as_ref()).map(|s| s.val.clone()));
      schemas.extend(d.tables().filter_map(|t| t.schema.as_ref()).map(|s| s.val.clone()));
      let c = &mut table_mut(d, i).cols[j];
      let mut vals: Vec<String> = vec!["nope".into(), "a".into(), "A".into()];
      for e in &enums {
        vals.extend(e.values.iter().map(|v| v.name.val.clone()));
      }
      if !enums.is_empty() && r.pct(80) {
        let e = r.pick(&enums);
        if is_spaced(&e.name.val) {
          let mut t = mk_ty(&e.name.val, vec![], false, vec![]);
          if r.pct(15) && is_spaced(&e.name.val.to_uppercase()) {
            t.base = e.name.val.to_uppercase();
            t.name = t.base.clone();
          }
          if let Some(s) = &e.schema {
            if r.pct(90) {
              t.schema = Some(s.clone());
              t.name = format!("{}.{}", s.val, t.base);
            }
          } else if r.pct(20) {
            let s = *r.pick(&["public", "nowhere"]);
            t.schema = Some(id_any(r, s));
            t.name = format!("{s}.{}", t.base);
          }
          if r.pct(25) {
            // a schema that exists, for tables or for another enum
            let s = r.pick(&schemas).clone();
            if !s.is_empty() && !s.contains('"') {
              t.schema = Some(id_any(r, &s));
              t.name = format!("{s}.{}", t.base);
            }
          }
          c.ty = t;
        }
      }
      let v = r.pick(&vals).clone();
      let l = if is_spaced(&v) && !["true", "false", "null"].contains(&v.split(' ').next().unwrap_or("")) && r.pct(70) {
        word(&v)
      } else if !v.contains('\'') && !v.starts_with([' ', '\t', '\n', '\r']) {
        single(&v)
      } else {
        expr("f()")
      };
      let s = with_settings(c);
      s.attrs.retain(|a| a.key.val != "default");
      push_attr(s, mk_attr("default", Some(l)));
      "default of an enum"
    }
    // ---- foreign keys
    24..=26 => {
      let (i, j) = pick_col(r, d)?;
      let c = &mut table_mut(d, i).cols[j];
      let t = &mut c.ty;
      match r.below(6) {
        0 => {
          *t = mk_ty(r.pick(&TYPES), vec![], false, vec![]);
          "type replaced"
        }
        1 => {
          let at = r.below(t.arrays.len() + 1);
          let x = dim(r);
          t.arrays.insert(at, x);
          "array dimension added"
        }
        2 => {
          if t.arrays.is_empty() {
            return None;
          }
          let k = r.below(t.arrays.len());
          t.arrays[k] = match t.arrays[k].0 {
            Some(n) if r.pct(50) => {
              let n = n.wrapping_add(1u32 << *r.pick(&[7, 8, 8, 15, 16, 16, 31]));
              (Some(n), n.to_string())
            }
            _ => dim(r),
          };
          "array size changed"
        }
        3 => {
          if t.args.is_empty() {
            return None;
          }
          let k = r.below(t.args.len());
          t.args[k] = match (&t.args[k].val, r.below(4)) {
            // the same in fewer bits
            (Val::Int(n), 0..=2) => int(&n.saturating_add(1i64 << *r.pick(&[7, 8, 8, 15, 16, 16, 31, 32, 32, 53])).to_string()),
            _ => int(r.pick(&["9", "2", "02", "2147483648"])),
          };
          "type argument changed"
        }
        4 => {
          *t = respell_ty(r, t);
          "type respelt"
        }
        _ => {
          t.args.clear();
          t.has_args = r.pct(20);
          "type arguments dropped"
        }
      }
    }
    27 | 28 => {
      // keys taken away
      let (i, j) = pick_col(r, d)?;
      let t = table_mut(d, i);
      if r.pct(50) {
        let s = t.cols[j].settings.as_mut()?;
        let n = s.attrs.len();
        s.attrs.retain(|a| !["pk", "primary key", "unique"].contains(&a.key.val.as_str()));
        if s.attrs.len() == n {
          return None;
        }
        "column no longer a key"
      } else {
        let x = t.indexes.as_mut()?;
        if x.defs.is_empty() {
          return None;
        }
        let k = r.below(x.defs.len());
        match r.below(3) {
          0 => {
            x.defs.remove(k);
          }
          1 => x.defs[k].settings = None,
          _ => {
            let c = x.defs[k].cols.pop();
            c?;
            x.defs[k].multi = true;
          }
        }
        "index key changed"
      }
    }
    29 => {
      // a key added
      let (i, j) = pick_col(r, d)?;
      push_attr(with_settings(&mut table_mut(d, i).cols[j]), mk_attr("unique", None));
      "column made unique"
    }
    30 | 31 => {
      // other number or order of columns
      let n = any_name(r, d);
      let mut v = endpoints(d);
      if v.is_empty() {
        return None;
      }
      let k = r.below(v.len());
      let e = &mut v[k];
      match r.below(3) {
        0 => {
          e.comps.push(n);
          e.paren = true;
        }
        1 if e.comps.len() > 1 => {
          e.comps.pop();
          e.paren = true;
        }
        _ if e.comps.len() > 1 => e.comps.reverse(),
        _ => return None,
      }
      "relation: columns changed"
    }
    32 => {
      let k = rel(r);
      let mut rels: Vec<&mut Rel> = vec![];
      for b in &mut d.blocks {
        match b {
          Block::Ref(x) => rels.push(&mut x.rel),
          Block::Table(t) => {
            for c in &mut t.cols {
              if let Some(s) = &mut c.settings {
                rels.extend(s.refs.iter_mut().map(|x| &mut x.rel));
              }
            }
          }
          _ => (),
        }
      }
      if rels.is_empty() {
        return None;
      }
      let i = r.below(rels.len());
      *rels[i] = k;
      "relation: kind changed"
    }
    33 => {
      // any relation between existing columns
      let tabs = all_tables(d);
      if tabs.is_empty() {
        return None;
      }
      let (a, b) = (r.below(tabs.len()), r.below(tabs.len()));
      if tabs[a].cols.is_empty() || tabs[b].cols.is_empty() {
        return None;
      }
      let n = if r.pct(70) { 1 } else { 2 };
      let pickc = |r: &mut Rng, t: &Table| -> Vec<String> { (0..n).map(|_| r.pick(&t.cols).name.val.clone()).collect() };
      let (ca, cb) = (pickc(r, &tabs[a]), pickc(r, &tabs[b]));
      let x = Ref {
        sp: (0, 0),
        name: None,
        rel: rel(r),
        lhs: mk_ref_id(r, &tabs, a, &ca),
        rhs: mk_ref_id(r, &tabs, b, &cb),
        settings: None,
        block: r.pct(50),
      };
      insert_block(r, d, Block::Ref(x));
      "relation added"
    }
    // ---- conflicting relations
    34..=39 => {
      let tabs = all_tables(d);
      let nm = refsem::names(d);
      let rels = refsem::relations(d, &nm);
      if rels.is_empty() {
        return None;
      }
      let x = r.pick(&rels).clone();
      let find = |t: &refsem::Tab| tabs.iter().position(|u| u.schema.as_ref().map(|s| s.val.as_str()).unwrap_or("public") == t.0 && u.name.val == t.1);
      let (a, b) = (find(&x.lhs.table)?, find(&x.rhs.table)?);
      let mut pairs: Vec<(String, String)> = x.lhs.cols.iter().zip(&x.rhs.cols).map(|(p, q)| (p.val.clone(), q.val.clone())).collect();
      if r.pct(60) {
        r.shuffle(&mut pairs);
      }
      let ca: Vec<String> = pairs.iter().map(|p| p.0.clone()).collect();
      let cb: Vec<String> = pairs.iter().map(|p| p.1.clone()).collect();
      let mut lhs = mk_ref_id(r, &tabs, a, &ca);
      let mut rhs = mk_ref_id(r, &tabs, b, &cb);
      let mut k = x.rel;
      if r.pct(50) {
        std::mem::swap(&mut lhs, &mut rhs);
        k = flip(k);
      }
      let what = match r.below(8) {
        0 => {
          k = rel(r);
          "relation repeated in another kind"
        }
        1 | 2 => {
          // another target of the same type for the same columns
          let n = any_name(r, d);
          let side = if r.pct(50) { &mut lhs } else { &mut rhs };
          let j = r.below(side.comps.len().max(1)).min(side.comps.len().checked_sub(1)?);
          side.comps[j] = n;
          "relation nearly repeated"
        }
        _ => "relation repeated",
      };
      let block = r.pct(50);
      if lhs.comps.len() == 1 && r.pct(40) {
        // as an inline relation
        let lt = if lhs.comps[0].val == ca[0] && r.pct(50) { a } else { b };
        let (s, n) = (tabs[lt].schema.as_ref().map(|s| s.val.clone()), tabs[lt].name.val.clone());
        let cn = lhs.comps[0].val.clone();
        for bl in &mut d.blocks {
          if let Block::Table(t) = bl {
            if t.name.val == n && t.schema.as_ref().map(|s| s.val.clone()) == s {
              if let Some(c) = t.cols.iter_mut().find(|c| c.name.val == cn) {
                with_settings(c).refs.push(RefInline { sp: (0, 0), rel: k, rhs });
                return Some(what);
              }
            }
          }
        }
        return None;
      }
      let x = Ref { sp: (0, 0), name: r.pct(30).then(|| bare("again")), rel: k, lhs, rhs, settings: None, block };
      insert_block(r, d, Block::Ref(x));
      what
    }
    // ---- keys, nullability, indexes
    40..=43 => {
      let (i, j) = pick_col(r, d)?;
      let k = *r.pick(&["pk", "primary key", "null", "not null", "unique"]);
      let c = &mut table_mut(d, i).cols[j];
      let s = with_settings(c);
      let at = r.below(s.attrs.len() + 1);
      if s.attrs.iter().any(|a| a.key.val == k) {
        s.attrs.retain(|a| a.key.val != k);
        return Some("column flag dropped");
      }
      s.attrs.insert(at, mk_attr(k, None));
      "column flag added"
    }
    44 => {
      let (i, j) = pick_col(r, d)?;
      let c = &mut table_mut(d, i).cols[j];
      if !refsem::col_is_pk(c) && r.pct(70) {
        return None;
      }
      let x = dim(r);
      c.ty.arrays.push(x);
      "array dimension added"
    }
    45..=48 => {
      // an index like an existing one
      let i = pick_block(r, d, "table")?;
      let t = table_mut(d, i);
      if t.cols.is_empty() {
        return None;
      }
      let first = t.cols[0].name.clone();
      let x = t.indexes.get_or_insert_with(Indexes::default);
      if x.defs.is_empty() {
        x.defs.push(IdxDef { sp: (0, 0), cols: vec![IdxCol::Name(first)], settings: None, multi: false });
      }
      if r.pct(20) {
        let k = r.below(x.defs.len());
        let at = r.below(x.defs[k].cols.len() + 1);
        x.defs[k].cols.insert(at, idx_expr(r));
        x.defs[k].multi = true;
      }
      let mut n = r.pick(&x.defs).clone();
      match r.below(7) {
        5 => {
          for c in &mut n.cols {
            if let IdxCol::Expr(l) = c {
              *c = expr_like(r, l);
            }
          }
        }
        0 => n.cols.reverse(),
        1 => {
          n.cols.pop();
        }
        2 => {
          n.settings = Some(Settings { attrs: vec![mk_attr(r.pick(&["unique", "pk"]), None)], ..Default::default() });
        }
        3 => {
          let w = word(r.pick(&INDEX_TYPES));
          n.settings = Some(Settings { attrs: vec![mk_attr("type", Some(w))], ..Default::default() });
        }
        4 => n.settings = None,
        _ => (),
      }
      if n.cols.is_empty() {
        return None;
      }
      n.multi = n.cols.len() != 1 || r.pct(30);
      let at = r.below(x.defs.len() + 1);
      x.defs.insert(at, n);
      "index like another one"
    }
    49 => {
      // unique in the column and in the indexes block
      let (i, j) = pick_col(r, d)?;
      let t = table_mut(d, i);
      let n = t.cols[j].name.clone();
      push_attr(with_settings(&mut t.cols[j]), mk_attr("unique", None));
      let mut cols = vec![IdxCol::Name(n)];
      if r.pct(40) {
        let c = r.pick(&t.cols).name.clone();
        cols.push(IdxCol::Name(c));
      }
      let multi = cols.len() != 1 || r.pct(50);
      let def = IdxDef { sp: (0, 0), cols, settings: Some(Settings { attrs: vec![mk_attr("unique", None)], ..Default::default() }), multi };
      t.indexes.get_or_insert_with(Indexes::default).defs.push(def);
      "unique twice"
    }
    50 => {
      let i = pick_block(r, d, "table")?;
      let x = table_mut(d, i).indexes.get_or_insert_with(Indexes::default);
      let settings = r.pct(30).then(Settings::default);
      let at = r.below(x.defs.len() + 1);
      x.defs.insert(at, IdxDef { sp: (0, 0), cols: vec![], settings, multi: true });
      "empty index"
    }
    51 | 52 => {
      let i = pick_block(r, d, "table")?;
      let x = table_mut(d, i).indexes.as_mut()?;
      if x.defs.is_empty() {
        return None;
      }
      let k = r.below(x.defs.len());
      let s = x.defs[k].settings.get_or_insert_with(Settings::default);
      let a = match r.below(4) {
        0 => mk_attr("pk", None),
        1 => mk_attr("unique", None),
        2 => mk_attr("type", Some(word(r.pick(&INDEX_TYPES)))),
        _ => mk_attr("name", Some(single("ix"))),
      };
      push_attr(s, a);
      "index setting added"
    }
    53 => {
      // primary keys of both kinds
      let i = pick_block(r, d, "table")?;
      let t = table_mut(d, i);
      if t.cols.is_empty() {
        return None;
      }
      let n = 1 + r.below(t.cols.len().min(2));
      let cols: Vec<IdxCol> = t.cols.iter().take(n).map(|c| IdxCol::Name(c.name.clone())).collect();
      let def = IdxDef { sp: (0, 0), multi: true, cols, settings: Some(Settings { attrs: vec![mk_attr("pk", None)], ..Default::default() }) };
      t.indexes.get_or_insert_with(Indexes::default).defs.push(def);
      "primary key in the indexes"
    }
    // ---- types
    54..=57 => {
      let (i, j) = pick_col(r, d)?;
      let c = &mut table_mut(d, i).cols[j];
      let b = *r.pick(&TYPES);
      if r.pct(70) {
        c.ty = mk_ty(b, vec![], false, vec![]);
      }
      c.ty.has_args = true;
      c.ty.args.clear();
      for _ in 0..*r.pick(&[0, 1, 1, 2, 2, 3]) {
        let l = match r.below(8) {
          0 => single("8"),
          1 => dec("8.0"),
          2 => boolean(true),
          3 => null(),
          4 => expr("8"),
          _ => int(r.pick(&["8", "0", "255"])),
        };
        c.ty.args.push(l);
      }
      "type arguments"
    }
    58 => {
      // lengths around the limit
      let (i, j) = pick_col(r, d)?;
      let c = &mut table_mut(d, i).cols[j];
      let b = *r.pick(&["varchar", "char", "bit", "varbit", "character varying", "character", "bit varying"]);
      let n = if r.pct(4) { *r.pick(&LENGTHS[..20]) } else { r.below(5) };
      let ns = n.to_string();
      c.ty = mk_ty(b, if r.pct(85) { vec![int(&ns)] } else { vec![] }, r.pct(85), vec![]);
      if !c.ty.has_args {
        c.ty.args.clear();
      }
      let mut len = (n + r.below(3)).saturating_sub(1);
      match r.below(200) {
        0..=3 => len += 256,
        4 => len += 65536,
        5..=6 => len += 128,
        _ => (),
      }
      let l = text_len(r, len);
      let s = with_settings(c);
      s.attrs.retain(|a| a.key.val != "default");
      push_attr(s, mk_attr("default", Some(l)));
      "default text around the length"
    }
    59 => {
      let (i, j) = pick_col(r, d)?;
      let c = &mut table_mut(d, i).cols[j];
      let b = *r.pick(&["smallint", "int2", "int", "integer", "int4", "bigint", "int8", "smallserial", "serial", "real", "decimal"]);
      c.ty = mk_ty(b, vec![], false, vec![]);
      let l = int(r.pick(&["32767", "32768", "65535", "2147483647", "2147483648", "4294967296", "9223372036854775807", "0032767"]));
      let s = with_settings(c);
      s.attrs.retain(|a| a.key.val != "default");
      push_attr(s, mk_attr("default", Some(l)));
      "default integer around the limit"
    }
    60 => {
      let (i, j) = pick_col(r, d)?;
      let c = &mut table_mut(d, i).cols[j];
      if r.pct(60) {
        c.ty = mk_ty(r.pick(&["bool", "boolean", "int", "text", "Bool", "json"]), vec![], false, vec![]);
      }
      let b = r.pct(50);
      let s = with_settings(c);
      s.attrs.retain(|a| a.key.val != "default");
      push_attr(s, mk_attr("default", Some(boolean(b))));
      "boolean default"
    }
    61 => {
      let (i, j) = pick_col(r, d)?;
      let c = &mut table_mut(d, i).cols[j];
      let s = with_settings(c);
      s.attrs.retain(|a| a.key.val != "default");
      push_attr(s, mk_attr("default", Some(null())));
      match r.below(3) {
        0 => push_attr(s, mk_attr("null", None)),
        1 => push_attr(s, mk_attr("not null", None)),
        _ => (),
      }
      r.shuffle(&mut s.attrs);
      "null default"
    }
    62 => {
      let (i, j) = pick_col(r, d)?;
      let c = &mut table_mut(d, i).cols[j];
      let l = value(r, Taste::Plain);
      let s = with_settings(c);
      s.attrs.retain(|a| a.key.val != "default");
      push_attr(s, mk_attr("default", Some(l)));
      "any default"
    }
    _ => {
      // a value of the wrong enum, or of another letter case
      let enums: Vec<Enum> = d.enums().cloned().collect();
      if enums.is_empty() {
        return None;
      }
      let (i, j) = pick_col(r, d)?;
      let e = r.pick(&enums);
      if !is_spaced(&e.name.val) || refsem::known_type(&e.name.val).is_some() {
        return None;
      }
      let o = r.pick(&enums);
      let v = if o.values.is_empty() { "zzz".to_string() } else { r.pick(&o.values).name.val.clone() };
      let v = if r.pct(30) { v.to_uppercase() } else { v };
      // or something that is no name at all
      let other = r.pct(25).then(|| match r.below(6) {
        0 => hex(r.pick(&["#fff", "#abc", "#00ff00"])),
        1 => dec(r.pick(&["1.5", "0.0"])),
        2 => int("1"),
        3 => boolean(true),
        4 => null(),
        _ => expr(if v.contains('`') { "x" } else { &v }),
      });
      let mut t = mk_ty(&e.name.val, vec![], false, vec![]);
      if let Some(s) = &e.schema {
        t.schema = Some(s.clone());
        t.name = format!("{}.{}", s.val, t.base);
      }
      if v.contains('\'') || v.starts_with([' ', '\t', '\n', '\r']) {
        return None;
      }
      let c = &mut table_mut(d, i).cols[j];
      c.ty = t;
      let s = with_settings(c);
      s.attrs.retain(|a| a.key.val != "default");
      push_attr(s, mk_attr("default", Some(other.unwrap_or_else(|| single(&v)))));
      "default of an enum value"
    }
  })
}
