//! Properties of whole runs: no crash or hang (P01), resources (P02), determinism (P27), sanitizers (P31).

use crate::gen;
use crate::gensem;
use crate::mutate;
use crate::real;
use crate::render::LAYOUTS;
use crate::rng::{hash_str, mix, Rng};
use crate::runner::*;
use crate::sem;
use crate::tree;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- families of growing texts

pub struct Family {
  pub name: &'static str,
  /// A text made of about `n` repetitions.
  pub make: fn(usize) -> String,
  /// Passes the grammar (so that the check runs on it).
  pub parses: bool,
}

fn rep(n: usize, f: impl Fn(usize) -> String) -> String {
  (0..n).map(f).collect()
}

pub fn families() -> Vec<Family> {
  macro_rules! fam {
    ($v:ident, $parses:expr, $name:expr, $f:expr) => {
      $v.push(Family { name: $name, make: $f, parses: $parses })
    };
  }
  let mut v: Vec<Family> = vec![];
  // errors that span many lines
  fam!(v, false, "lines in an index type", |n| format!("Table t {{ a int Indexes {{ a [type {} : nosuch] }} }}", "\n".repeat(n)));
  fam!(v, false, "lines in a referential action", |n| format!("Ref: a.b > c.d [update{}: nosuch]", "// \r\n".repeat(n)));
  fam!(v, false, "lines in a database type", |n| format!("Project p {{ database_type {} : 'nosuch' }}", "/* \n */".repeat(n)));
  fam!(v, true, "lines without a project", |n| rep(n, |i| format!("Table t{i} {{ id int [pk] }}\n")));
  fam!(v, true, "lines of two projects", |n| format!("Project p {{ {} }} Project q {{ }}", rep(n, |i| format!("k{i}: 'v'\n"))));
  fam!(v, true, "lines of a contradicting column", |n| format!("Project p {{}} Table t {{ a int [{} null, not null] }}", "\n".repeat(n)));
  // well formed
  fam!(v, true, "tables", |n| format!("Project p {{}}\n{}", rep(n, |i| format!("Table t{i} {{ id int [pk] }}\n"))));
  fam!(v, true, "columns", |n| format!("Project p {{}} Table t {{ {} }}", rep(n, |i| format!("c{i} int [not null, note: 'x']\n"))));
  fam!(v, true, "columns with defaults", |n| format!("Project p {{}} Table t {{ {} }}", rep(n, |i| format!("c{i} varchar(20) [default: 'abc', unique]\n"))));
  fam!(v, true, "enum values", |n| format!("Project p {{}} Enum e {{ {} }}", rep(n, |i| format!("v{i} [note: 'x']\n"))));
  fam!(v, true, "enums", |n| format!("Project p {{}} {}", rep(n, |i| format!("Enum e{i} {{ a b c }}\n"))));
  fam!(v, true, "enum defaults", |n| format!("Project p {{}} Enum e {{ {} }} Table t {{ {} }}", rep(n, |i| format!("v{i} ")), rep(n, |i| format!("c{i} e [default: v{i}]\n"))));
  fam!(v, true, "inline relations", |n| format!("Project p {{}} Table a {{ id int [pk] }} Table b {{ {} }}", rep(n, |i| format!("c{i} int [ref: > a.id]\n"))));
  fam!(v, true, "relations", |n| {
    format!(
      "Project p {{}} Table a {{ id int [pk] }} Table b {{ {} }} {}",
      rep(n, |i| format!("c{i} int\n")),
      rep(n, |i| format!("Ref: b.c{i} > a.id\n"))
    )
  });
  fam!(v, true, "composite relation", |n| {
    let cols = rep(n, |i| format!("c{i} int\n"));
    let l: Vec<String> = (0..n).map(|i| format!("c{i}")).collect();
    let l = l.join(",");
    format!("Project p {{}} Table a {{ {cols} Indexes {{ ({l}) [pk] }} }} Table b {{ {cols} }} Ref: b.({l}) > a.({l})")
  });
  fam!(v, true, "chain of tables", |n| format!("Project p {{}} {}", rep(n, |i| format!("Table t{i} {{ id int [pk]\n next int [ref: > t{}.id] }}\n", (i + 1) % n.max(1)))));
  fam!(v, true, "indexes", |n| format!("Project p {{}} Table t {{ {} Indexes {{ {} }} }}", rep(n, |i| format!("c{i} int\n")), rep(n, |i| format!("c{i} [name: 'x']\n"))));
  fam!(v, true, "unique indexes", |n| {
    format!("Project p {{}} Table t {{ {} Indexes {{ {} }} }}", rep(n + 1, |i| format!("c{i} int\n")), rep(n, |i| format!("(c{i}, c{}) [unique]\n", i + 1)))
  });
  fam!(v, true, "typed indexes", |n| {
    format!("Project p {{}} Table t {{ {} Indexes {{ {} }} }}", rep(n + 1, |i| format!("c{i} int\n")), rep(n, |i| format!("(c{i}, `f({i})`) [type: btree]\n")))
  });
  fam!(v, true, "wide index", |n| {
    let l: Vec<String> = (0..n).map(|i| format!("c{i}")).collect();
    format!("Project p {{}} Table t {{ {} Indexes {{ ({}) [unique] }} }}", rep(n, |i| format!("c{i} int\n")), l.join(","))
  });
  fam!(v, true, "group items", |n| format!("Project p {{}} {} TableGroup g {{ {} }}", rep(n, |i| format!("Table t{i} {{ }}\n")), rep(n, |i| format!("t{i}\n"))));
  fam!(v, true, "groups", |n| format!("Project p {{}} Table t {{}} {}", rep(n, |i| format!("TableGroup g{i} {{ t }}\n"))));
  fam!(v, true, "aliases", |n| format!("Project p {{}} {}", rep(n, |i| format!("Table s{i}.t as a{i} {{ id int [pk] }}\n"))));
  fam!(v, true, "attributes", |n| format!("Project p {{}} Table t {{ c int [{}] }}", (0..n).map(|i| format!("k{i}: 'v'")).collect::<Vec<_>>().join(", ")));
  fam!(v, true, "properties", |n| format!("Project p {{ {} }}", rep(n, |i| format!("k{i}: 'v'\n"))));
  fam!(v, true, "type arguments", |n| format!("Project p {{}} Table t {{ c foo({}) }}", (0..n).map(|i| i.to_string()).collect::<Vec<_>>().join(", ")));
  fam!(v, true, "array dimensions", |n| format!("Project p {{}} Table t {{ c int{} }}", "[]".repeat(n)));
  fam!(v, true, "quoted array dimensions", |n| format!("Project p {{}} Table t {{ c \"int{}\"{} }}", "[2]".repeat(n), "[]".repeat(n)));
  fam!(v, true, "notes", |n| format!("Project p {{}} {}", "Note: 'text'\n".repeat(n)));
  fam!(v, true, "table notes", |n| format!("Project p {{}} Table t {{ {} }}", "Note { 'text' }\n".repeat(n)));
  fam!(v, true, "long single-quoted string", |n| format!("Project p {{ Note: '{}' }}", "x y ".repeat(n)));
  fam!(v, true, "long triple-quoted string", |n| format!("Project p {{ Note: '''{}''' }}", "x'' ".repeat(n)));
  fam!(v, true, "leading whitespace in a string", |n| format!("Project p {{ Note: '{}x' }}", " \n".repeat(n)));
  fam!(v, true, "long expression", |n| format!("Project p {{}} Table t {{ c int [default: `{}`] }}", "f(x) ".repeat(n)));
  fam!(v, true, "long names", |n| format!("Project p {{}} Table {0} {{ {0} int [ref: > {0}.{0}, pk] }}", "ab_1".repeat(n)));
  fam!(v, true, "long quoted names", |n| format!("Project p {{}} Table \"{0}\" {{ \"{0}\" int [ref: > \"{0}\".\"{0}\", pk] }}", "é b ".repeat(n)));
  fam!(v, true, "long attribute key", |n| format!("Project p {{}} Table t {{ c int [{}: 'x'] }}", vec!["ab"; n.max(1)].join(" ")));
  fam!(v, true, "long decimal", |n| format!("Project p {{}} Table t {{ c numeric [default: {0}.{0}] }}", "10".repeat(n)));
  fam!(v, true, "line comments", |n| format!("Project p {{}} {}", "// comment / * x\n".repeat(n)));
  fam!(v, true, "block comments", |n| format!("Project p {{}} {}", "/* comment * / x */".repeat(n)));
  fam!(v, true, "long block comment", |n| format!("Project p {{}} /*{}*/", " * / x".repeat(n)));
  fam!(v, true, "whitespace", |n| format!("Project p {{}}{}", " \t\r\n".repeat(n)));
  fam!(v, true, "comments everywhere", |n| {
    format!("Project p {{}} Table t {{ {} }}", rep(n, |i| format!("/*a*/c{i}/*b*/int//\n[/*c*/pk2/*d*/:/*e*/'x'/*f*/,//g\nnull/*h*/]")))
  });
  // not well formed: the error comes at the very end, or everywhere
  fam!(v, false, "error at the end", |n| format!("Project p {{}} Table t {{ {} ", rep(n, |i| format!("c{i} int [not null, note: 'x']\n"))));
  fam!(v, false, "settings without end", |n| format!("Table t {{ c int [{}", "a: 'b', ".repeat(n)));
  fam!(v, false, "composition without end", |n| format!("Ref {{ a.({}", "b, ".repeat(n)));
  fam!(v, false, "short relation tried as block", |n| format!("Ref: a.({}c) > a.({}c) [", "b, ".repeat(n), "b, ".repeat(n)));
  fam!(v, false, "index without end", |n| format!("Table t {{ Indexes {{ ({}", "b, ".repeat(n)));
  fam!(v, false, "type arguments without end", |n| format!("Table t {{ c int({}", "1, ".repeat(n)));
  fam!(v, false, "arrays without end", |n| format!("Table t {{ c \"int{}", "[1]".repeat(n)));
  fam!(v, false, "unterminated single quote", |n| format!("Note: '{}", "x \n".repeat(n)));
  fam!(v, false, "unterminated triple quote", |n| format!("Note: '''{}", "'' ".repeat(n)));
  fam!(v, false, "unterminated double quote", |n| format!("Table \"{}", "x ".repeat(n)));
  fam!(v, false, "unterminated backtick", |n| format!("Table t {{ c int [default: `{}", "x ".repeat(n)));
  fam!(v, false, "unterminated comment", |n| format!("Project p {{}} /*{}", "/* x".repeat(n)));
  fam!(v, false, "unterminated comment in a table", |n| format!("Table t {{ c int [pk] /*{}", " x".repeat(n)));
  fam!(v, false, "unterminated comment after a name", |n| format!("Table t {{ c /*{}", " x".repeat(n)));
  fam!(v, false, "unterminated comment in settings", |n| format!("Table t {{ c int [ /*{}", " x".repeat(n)));
  fam!(v, false, "unterminated comment in a value", |n| format!("Table t {{ c int [a: /*{}", " x".repeat(n)));
  fam!(v, false, "unterminated comment in type arguments", |n| format!("Table t {{ c int(/*{}", " x".repeat(n)));
  fam!(v, false, "unterminated comment in a relation", |n| format!("Ref x /*{}", " x".repeat(n)));
  fam!(v, false, "unterminated comment in indexes", |n| format!("Table t {{ Indexes {{ (a, /*{}", " x".repeat(n)));
  fam!(v, false, "unterminated comment in a project", |n| format!("Project p {{ a: /*{}", " x".repeat(n)));
  fam!(v, false, "comments before an error", |n| format!("Table t {{ c int [pk] {} ?", "/* x */ // y\n".repeat(n)));
  fam!(v, false, "comments before an error in settings", |n| format!("Table t {{ c int [pk: {} ?", "/* x */ // y\n".repeat(n)));
  fam!(v, false, "comments before an error in a relation", |n| format!("Ref: a.b > {} ?", "/* x */ // y\n".repeat(n)));
  fam!(v, false, "comments before an error in a quoted type", |n| format!("Table t {{ c \"int({} ?", "/* x */ // y\n".repeat(n)));
  fam!(v, false, "space before an error", |n| format!("Table t {{ c int [pk] Indexes {{ (a) {} ?", " \n".repeat(n)));
  fam!(v, false, "comments between all tokens of an error", |n| {
    let g = "/* x */".repeat(n / 20 + 1);
    format!("Ref {g} n {g} {{ {g} a {g} . {g} b {g} . {g} ( {g} c {g} , {g} d {g} ) {g} > {g} a {g} . {g} ( {g} b {g} , {g} c {g} ) {g} [ {g} k {g} : {g} v {g} ] {g} ?")
  });
  fam!(v, false, "single quotes", |n| "'".repeat(n));
  fam!(v, false, "double quotes", |n| format!("Table {}", "\"".repeat(n)));
  fam!(v, false, "open braces", |n| "Table t {".repeat(n));
  fam!(v, false, "open brackets", |n| format!("Table t {{ c int {}", "[".repeat(n)));
  fam!(v, false, "open parentheses", |n| format!("Table t {{ c int{}", "(".repeat(n)));
  fam!(v, false, "slashes", |n| "/".repeat(n));
  fam!(v, false, "comment starts", |n| "/*".repeat(n));
  fam!(v, false, "spaced words without colon", |n| format!("Project p {{ {}", "word ".repeat(n)));
  fam!(v, false, "digits", |n| format!("Table t {{ c int [default: {}", "9".repeat(n)));
  fam!(v, false, "digits in an array", |n| format!("Table t {{ c int[{}", "9".repeat(n)));
  fam!(v, false, "dots", |n| format!("Ref: {}", "a.".repeat(n)));
  fam!(v, false, "keywords", |n| "Table TableGroup Enum Ref Note Project ".repeat(n));
  fam!(v, false, "non-ASCII", |n| "日本é🦀".repeat(n));
  fam!(v, false, "no project, then a bad end", |n| format!("{} }}", rep(n, |i| format!("Enum e{i} {{ a b }} Ref: a.b > c.d\n"))));
  // well formed and rejected by the check late
  fam!(v, true, "duplicate last column", |n| format!("Project p {{}} Table t {{ {} c0 int }}", rep(n, |i| format!("c{i} int\n"))));
  fam!(v, true, "conflicting last relation", |n| {
    format!(
      "Project p {{}} Table a {{ id int [pk] }} Table b {{ {} }} {} Ref: a.id < b.c0",
      rep(n, |i| format!("c{i} int\n")),
      rep(n, |i| format!("Ref: b.c{i} > a.id\n"))
    )
  });
  v
}

// ---------------------------------------------------------------- P01

/// Everything a caller does with a text: parse both ways, look at the result or the error, drop it.
pub fn exercise(text: &str) -> u64 {
  let mut h = 0u64;
  match dbml_rs::parse_dbml_unchecked(text) {
    Ok(s) => {
      let t = s.clone();
      h ^= t.blocks.len() as u64;
      drop(t);
      h = mix(h ^ format!("{s:?}").len() as u64);
      h = mix(h ^ (s.tables().len() + s.refs().len() + s.enums().len() + s.projects().len() + s.table_groups().len()) as u64);
    }
    Err(e) => {
      h = mix(h ^ format!("{e}").len() as u64 ^ format!("{e:?}").len() as u64);
      h = mix(h ^ e.line().len() as u64);
    }
  }
  match dbml_rs::parse_dbml(text) {
    Ok(s) => h = mix(h ^ format!("{s:#?}").len() as u64),
    Err(e) => h = mix(h ^ hash_str(&format!("{e}")) ^ hash_str(&format!("{}", e.variant.message()))),
  }
  h
}

pub fn judge01(inp: &Input, c: &mut Cov) {
  c.nontrivial = true;
  let text = &inp.texts[0];
  c.hit(&format!("texts: {}", inp.kind));
  c.max("bytes", text.len() as u64);
  if let Err(p) = real::guard(|| exercise(text)) {
    let at = p.split(" panicked at ").nth(1).unwrap_or(&p);
    let at = at.split([':', '\n']).next().unwrap_or("").to_string();
    c.viol(format!("panic in {at}"), format!("a parse panics: {p}"));
    return;
  }
  match real::guard(|| (dbml_rs::parse_dbml_unchecked(text).is_ok(), dbml_rs::parse_dbml(text).is_ok())) {
    Ok((true, true)) => c.hit("accepted by both parsers"),
    Ok((true, false)) => c.hit("rejected by the check"),
    _ => c.hit("rejected by the grammar"),
  }
}

fn lossy(r: &mut Rng, n: usize) -> String {
  let b: Vec<u8> = (0..n).map(|_| if r.pct(70) { b' ' + r.below(95) as u8 } else { r.next() as u8 }).collect();
  String::from_utf8_lossy(&b).into_owned()
}

/// Numbers and strings at and past every limit, in every place that converts them.
fn extremes(r: &mut Rng) -> String {
  let num = |r: &mut Rng| -> String {
    match r.below(8) {
      0 => r.pick(&gen::INTS).to_string(),
      1 => r.pick(&["0", "00", "1", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "32767", "32768"]).to_string(),
      2 => "9".repeat(1 + r.below(400)),
      3 => format!("{}.{}", "9".repeat(1 + r.below(330)), "9".repeat(r.below(400))),
      4 => "0".repeat(1 + r.below(60)),
      5 => format!("{}.", r.below(1000)),
      _ => r.below(100_000).to_string(),
    }
  };
  let val = |r: &mut Rng| -> String {
    match r.below(12) {
      0..=3 => num(r),
      4 => format!("'{}'", gen::hostile(r, &["'"], 4)),
      5 => format!("'{}'", "é".repeat(r.below(300))),
      6 => r.pick(&["true", "false", "null", "NULL", "True"]).to_string(),
      7 => r.pick(&gen::HEXES).to_string(),
      8 => format!("`{}`", gen::hostile(r, &["`"], 4)),
      9 => "''".into(),
      10 => format!("\"{}\"", gen::hostile(r, &["\""], 4)),
      _ => r.pick(&["word", "two words", "a", "now"]).to_string(),
    }
  };
  let mut s = String::from("Project p { database_type: 'PostgreSQL' }\nEnum e { a b \"\" }\nTable t {\n");
  for i in 0..1 + r.below(5) {
    let base = *r.pick(&gen::TYPES);
    let quoted = !gen::is_var(base) || r.pct(20);
    let args = match r.below(4) {
      0 => String::new(),
      n => format!("({})", (0..n).map(|_| if r.pct(80) { num(r) } else { val(r) }).collect::<Vec<_>>().join(", ")),
    };
    let arr = (0..r.below(3)).map(|_| if r.pct(50) { "[]".to_string() } else { format!("[{}]", num(r).replace('.', "")) }).collect::<String>();
    let ty = if quoted && !args.contains('"') { format!("\"{base}{args}{arr}\"") } else if quoted { format!("\"{base}\"") } else { format!("{base}{args}{arr}") };
    let sch = if r.pct(10) { "public." } else { "" };
    let set = match r.below(4) {
      0 => String::new(),
      1 => format!(" [default: {}]", val(r)),
      2 => format!(" [pk, default: {}]", val(r)),
      _ => format!(" [{}, default: {}, ref: {} t.c0]", r.pick(&["null", "not null", "unique", "increment", "note: 'n'", "pk"]), val(r), r.pick(&["<", ">", "-", "<>"])),
    };
    s.push_str(&format!("  c{i} {sch}{ty}{set}\n"));
  }
  if r.pct(40) {
    s.push_str(&format!("  Indexes {{ (c0, `f(x)`) [{}] c1 () }}\n", r.pick(&["pk", "unique", "type: btree", "type: x", "name: 'n', unique", "pk, type: hash"])));
  }
  s.push('}');
  if r.pct(40) {
    s.push_str(&format!("\nRef: t.{} {} t.{} [{}]", r.pick(&["c0", "(c0, c1)", "(c0)", "zz"]), r.pick(&["<", ">", "-", "<>"]), r.pick(&["c0", "(c1, c0)", "(c1)", "c1"]), r.pick(&["", "delete: cascade", "update: set null", "delete: x", "x: 'y'"])));
  }
  s
}

fn gen01(r: &mut Rng, t: Tier, idx: u64) -> Vec<Input> {
  let fams = families();
  // every family once at a large size, spread over the run
  if idx % 64 == 7 {
    let f = &fams[((idx / 64) as usize) % fams.len()];
    let round = (idx / 64) as usize / fams.len();
    // the first round is the largest
    let n = match round {
      // relations are compared pairwise
      0 if f.name.contains("relation") || f.name.contains("chain") || f.name.contains("unique") => 1500,
      0 => *r.pick(&[3000, 6000]),
      _ => 1 << r.below(if t == Tier::Thorough { 15 } else { 11 }),
    };
    return vec![Input::one("growing family", (f.make)(n))];
  }
  match idx % 16 {
    0 | 1 => (0..6).map(|_| Input::one("noise", mutate::noise(r, 40))).collect(),
    2 => (0..4)
      .map(|_| {
        let n = r.below(120);
        Input::one("bytes", lossy(r, n))
      })
      .collect(),
    3 | 4 => tree::edit_gen(r, idx / 16),
    5..=7 => (0..6).map(|_| Input::one("extreme values", extremes(r))).collect(),
    8..=10 => sem::sem_gen(r, idx, None, 20),
    11 => {
      // an edited schema, cut at every character of a window
      let d = gensem::valid(r, 2);
      let s = sem::text_of(&d, r);
      let ends: Vec<usize> = s.char_indices().map(|x| x.0).collect();
      let from = r.below(ends.len().max(1));
      ends.iter().skip(from).take(20).map(|e| Input::one("truncated schema", s[..*e].to_string())).collect()
    }
    12 if !tree::corpus().is_empty() => {
      let (_, s) = r.pick(tree::corpus());
      (0..4)
        .map(|_| {
          let mut t = s.clone();
          for _ in 0..1 + r.below(6) {
            let toks = mutate::lex(&t);
            t = mutate::edit(r, &t, &toks).0;
          }
          Input::one("edited fixture", t)
        })
        .collect()
    }
    13 => {
      // two texts spliced
      let a = tree::gen_text(r, None).1.text;
      let b = if r.pct(50) { extremes(r) } else { tree::gen_text(r, None).1.text };
      let cut = |r: &mut Rng, s: &str| {
        let mut i = r.below(s.len() + 1);
        while !s.is_char_boundary(i) {
          i -= 1;
        }
        i
      };
      (0..6)
        .map(|_| {
          let (i, j) = (cut(r, &a), cut(r, &b));
          Input::one("spliced", format!("{}{}", &a[..i], &b[j..]))
        })
        .collect()
    }
    _ => {
      let (_, o) = tree::gen_text(r, None);
      let mut v = vec![Input::one("document", o.text.clone())];
      for _ in 0..4 {
        let mut s = o.text.clone();
        for _ in 0..1 + r.below(4) {
          let toks = mutate::lex(&s);
          s = mutate::edit(r, &s, &toks).0;
        }
        v.push(Input::one("edited document", s));
      }
      v
    }
  }
}

fn spec01<'a>(gen: &'a GenFn) -> Spec<'a> {
  Spec {
    id: "P01",
    rule: "noise, arbitrary bytes, extreme values in every place, documents and schemas with up to six edits, truncations, splices, and families of texts grown to large sizes, each parsed both ways on threads with a 1 MiB stack in a child process, the result cloned, compared, formatted and dropped and the error formatted; a monitor catches panics, the parent sees signals and aborts, a watchdog sees a text that takes more than 60 s of CPU; every text is non-trivial; distinct by text",
    gen,
    judge: &judge01,
    quick: 60_000,
    must: vec!["accepted by both parsers", "rejected by the check", "rejected by the grammar", "texts: growing family", "texts: extreme values", "texts: noise"],
    assumptions: vec!["a hang shows as more than 60 s of CPU time on one text of at most 2 MB".into()],
    fixed: tree::corpus().iter().map(|(_, s)| Input::one("fixture", s.clone())).chain([Input::one("empty", String::new())]).collect(),
    threads: 8,
  }
}

const HUNG: i32 = 97;
const HANG_CPU: f64 = 60.0;

fn ticks_of(tid: u64) -> Option<f64> {
  let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
  let rest = &s[s.rfind(')')? + 2..];
  let f: Vec<&str> = rest.split(' ').collect();
  Some((f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?) / 100.0)
}

extern "C" {
  fn gettid() -> i32;
  fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32;
}

/// CPU seconds of the calling thread.
pub fn thread_cpu() -> f64 {
  let mut ts = [0i64; 2];
  // CLOCK_THREAD_CPUTIME_ID
  unsafe { clock_gettime(3, &mut ts) };
  ts[0] as f64 + ts[1] as f64 * 1e-9
}

/// The child: the ordinary run, with its progress written down and a watchdog.
pub fn p01_child(dir: &str) -> i32 {
  use std::os::unix::fs::FileExt;
  STACK.store(1 << 20, Ordering::Relaxed);
  let path = format!("{dir}/progress");
  let f = std::fs::OpenOptions::new().create(true).truncate(true).write(true).open(&path).unwrap();
  static CUR: [(AtomicU64, AtomicU64); 8] = [const { (AtomicU64::new(CASE_NONE), AtomicU64::new(0)) }; 8];
  let _ = PROGRESS.set(Box::new(move |th, idx| {
    CUR[th].1.store(unsafe { gettid() } as u64, Ordering::Relaxed);
    CUR[th].0.store(idx, Ordering::Release);
    let _ = f.write_at(&idx.to_le_bytes(), th as u64 * 8);
  }));
  std::thread::spawn(|| {
    let mut seen: [(u64, f64); 8] = [(CASE_NONE, 0.0); 8];
    loop {
      std::thread::sleep(Duration::from_millis(500));
      for th in 0..8 {
        let idx = CUR[th].0.load(Ordering::Acquire);
        let tid = CUR[th].1.load(Ordering::Relaxed);
        if idx == CASE_NONE || tid == 0 {
          seen[th].0 = CASE_NONE;
          continue;
        }
        let Some(cpu) = ticks_of(tid) else { continue };
        if seen[th].0 != idx {
          seen[th] = (idx, cpu);
        } else if cpu - seen[th].1 > HANG_CPU {
          std::process::exit(HUNG);
        }
      }
    }
  });
  let gen = |r: &mut Rng, t: Tier, i: u64| gen01(r, t, i);
  check(&spec01(&gen))
}

/// One text, alone: the exit status tells.
pub fn one01(path: &str) -> i32 {
  let Ok(text) = std::fs::read_to_string(path) else { return 2 };
  std::thread::spawn(|| loop {
    std::thread::sleep(Duration::from_millis(500));
    if cpu_of_process() > HANG_CPU {
      std::process::exit(HUNG);
    }
  });
  let h = std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
    let _ = exercise(&text);
  });
  match h.unwrap().join() {
    Ok(_) => 0,
    Err(_) => 101,
  }
}

fn cpu_of_process() -> f64 {
  let mut ts = [0i64; 2];
  // CLOCK_PROCESS_CPUTIME_ID
  unsafe { clock_gettime(2, &mut ts) };
  ts[0] as f64 + ts[1] as f64 * 1e-9
}

fn scratch(tag: &str) -> std::path::PathBuf {
  let d = std::env::temp_dir().join(format!("vmon-{tag}-{}", std::process::id()));
  let _ = std::fs::create_dir_all(&d);
  d
}

fn me() -> std::process::Command {
  std::process::Command::new(std::env::current_exe().unwrap())
}

/// How `vmon one01` ends on a text: `None` if it ends well.
pub fn crashes(text: &str) -> Option<String> {
  use std::os::unix::process::ExitStatusExt;
  static N: AtomicU64 = AtomicU64::new(0);
  let d = scratch("one");
  let p = d.join(format!("{}.txt", N.fetch_add(1, Ordering::Relaxed)));
  std::fs::write(&p, text).ok()?;
  let o = me().arg("one01").arg(&p).stdin(std::process::Stdio::null()).output();
  let _ = std::fs::remove_file(&p);
  let o = o.ok()?;
  let err = String::from_utf8_lossy(&o.stderr);
  let tail: String = err.lines().filter(|l| !l.trim().is_empty()).take(4).collect::<Vec<_>>().join("; ");
  match (o.status.code(), o.status.signal()) {
    (Some(0), _) => None,
    (Some(HUNG), _) => Some(format!("does not end within {HANG_CPU} s of CPU time")),
    (Some(c), _) => Some(format!("the process ends with status {c}: {tail}")),
    // killed from outside
    (_, Some(9)) => None,
    (_, Some(s)) => Some(format!("the process is ended by signal {s}: {tail}")),
    _ => None,
  }
}

pub fn p01() -> i32 {
  use std::os::unix::process::ExitStatusExt;
  let dir = scratch("p01");
  let st = me().arg("child01").arg(&dir).status();
  let code = match st {
    Ok(st) if st.code().is_some_and(|c| c != HUNG && c != 101 && c != 134) => st.code().unwrap(),
    Ok(st) => {
      let how = match (st.code(), st.signal()) {
        (Some(c), _) => format!("status {c}"),
        (_, Some(s)) => format!("signal {s}"),
        _ => "unknown".into(),
      };
      let b = std::fs::read(dir.join("progress")).unwrap_or_default();
      let mut found: Option<(Input, String)> = None;
      let mut tried = 0;
      'o: for ch in b.chunks_exact(8) {
        let idx = u64::from_le_bytes(ch.try_into().unwrap());
        if idx == CASE_NONE {
          continue;
        }
        let mut r = Rng::for_case(seed(), "P01", idx);
        for inp in gen01(&mut r, tier(), idx) {
          tried += 1;
          if let Some(w) = crashes(&inp.texts[0]) {
            found = Some((inp, w));
            break 'o;
          }
        }
      }
      // fixed inputs run before the first case
      if found.is_none() {
        let g = |r: &mut Rng, t: Tier, i: u64| gen01(r, t, i);
        for inp in spec01(&g).fixed {
          if let Some(w) = crashes(&inp.texts[0]) {
            found = Some((inp, w));
            break;
          }
        }
      }
      if let Some((inp, w)) = found {
        let hung = w.starts_with("does not end");
        let small = if hung { inp } else { shrink_crash(&inp) };
        let v = Viol { sig: "crash".into(), msg: format!("a parse does not return: {w}") };
        let path = write_replay("P01", &v, &small);
        println!("VIOLATION property=P01 replay={path}");
        println!("  {}", v.msg);
        println!("  text: {}", crate::model::clip(&format!("{:?}", small.texts[0])));
        let rep = Report {
          evals: tried,
          nontrivial: tried,
          distinct: tried,
          counts: Default::default(),
          samples: vec![crate::model::clip(&small.texts[0])],
          viols: vec![],
          wall: 0.0,
          errors: vec![],
        };
        write_evidence("P01", "the run was cut short by the violation", &[], tier(), seed(), &rep, 1);
        1
      } else {
        eprintln!("ERROR of the check: the child process ended with {how}, but no single text does that");
        2
      }
    }
    Err(e) => {
      eprintln!("ERROR of the check: {e}");
      2
    }
  };
  let _ = std::fs::remove_dir_all(&dir);
  let _ = std::fs::remove_dir_all(scratch("one"));
  code
}

fn shrink_crash(inp: &Input) -> Input {
  let end = Instant::now() + Duration::from_secs(20);
  let mut cur: Vec<char> = inp.texts[0].chars().collect();
  let mut size = (cur.len() / 2).max(1);
  while Instant::now() < end {
    let mut i = 0;
    let mut changed = false;
    while i < cur.len() && Instant::now() < end {
      let z = (i + size).min(cur.len());
      let cand: String = cur[..i].iter().chain(&cur[z..]).collect();
      if crashes(&cand).is_some() {
        cur = cand.chars().collect();
        changed = true;
      } else {
        i += size;
      }
    }
    if size == 1 && !changed {
      break;
    }
    size = (size / 2).max(1);
  }
  Input { kind: inp.kind.clone(), texts: vec![cur.into_iter().collect()], args: vec![] }
}

// ---------------------------------------------------------------- allocation counting

pub mod count {
  use std::alloc::{GlobalAlloc, Layout, System};
  use std::cell::Cell;

  thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
  }

  pub struct Counting;

  fn up(n: usize) {
    let _ = LIVE.try_with(|l| {
      let x = l.get() + n as i64;
      l.set(x);
      let _ = PEAK.try_with(|p| {
        if x > p.get() {
          p.set(x)
        }
      });
    });
    let _ = TOTAL.try_with(|t| t.set(t.get() + n as u64));
  }
  fn down(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as i64));
  }
  fn blocks(d: i64) {
    let _ = BLOCKS.try_with(|b| b.set(b.get() + d));
  }

  unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
      up(l.size());
      blocks(1);
      System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
      up(l.size());
      blocks(1);
      System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
      down(l.size());
      blocks(-1);
      System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
      if n > l.size() {
        up(n - l.size());
      } else {
        down(l.size() - n);
      }
      System.realloc(p, l, n)
    }
  }

  #[derive(Clone, Copy, Debug, Default)]
  pub struct Use {
    /// Bytes obtained in all.
    pub total: u64,
    /// Most bytes held at once.
    pub peak: u64,
    /// Bytes and blocks still held afterwards.
    pub left: i64,
    pub blocks_left: i64,
  }

  /// What `f` allocates on this thread.
  pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Use) {
    let (l0, t0, b0) = (LIVE.with(|x| x.get()), TOTAL.with(|x| x.get()), BLOCKS.with(|x| x.get()));
    PEAK.with(|p| p.set(l0));
    let r = f();
    let u = Use {
      total: TOTAL.with(|x| x.get()) - t0,
      peak: (PEAK.with(|p| p.get()) - l0).max(0) as u64,
      left: LIVE.with(|x| x.get()) - l0,
      blocks_left: BLOCKS.with(|x| x.get()) - b0,
    };
    (r, u)
  }
}

// ---------------------------------------------------------------- P02

/// Grammar steps allowed per byte of text (see DESIGN.md for the measured values).
pub const STEPS_PER_BYTE: usize = 120;
pub const STEPS_BASE: usize = 4000;
/// Bytes obtained per byte of text by an unchecked parse, in all and at once.
pub const BYTES_PER_BYTE: u64 = 1200;
pub const BYTES_BASE: u64 = 60_000;

static LIMIT: Mutex<()> = Mutex::new(());

fn limited<T>(n: usize, f: impl FnOnce() -> T) -> T {
  let _g = LIMIT.lock().unwrap_or_else(|e| e.into_inner());
  pest::set_call_limit(std::num::NonZeroUsize::new(n));
  let r = f();
  pest::set_call_limit(None);
  r
}

fn out_of_steps(text: &str, n: usize) -> bool {
  limited(n, || match real::guard(|| dbml_rs::parse_dbml_unchecked(text).map(|_| ()).map_err(|e| real::info(&e))) {
    Ok(Err(e)) => e.msg.as_deref() == Some("call limit reached"),
    _ => false,
  })
}

/// Steps a text takes (found by bisection of the limit).
pub fn steps_of(text: &str) -> usize {
  let mut hi = 64;
  while out_of_steps(text, hi) {
    hi *= 2;
  }
  let mut lo = hi / 2;
  while hi - lo > hi / 64 + 1 {
    let m = (lo + hi) / 2;
    if out_of_steps(text, m) {
      lo = m
    } else {
      hi = m
    }
  }
  hi
}

pub fn judge02(inp: &Input, c: &mut Cov) {
  if inp.kind == "growth" {
    return growth(inp, c);
  }
  let text = &inp.texts[0];
  let len = text.len();
  c.nontrivial = true;
  c.hit(&format!("texts: {}", inp.kind));
  c.max("bytes of text", len as u64);
  if out_of_steps(text, STEPS_BASE + STEPS_PER_BYTE * len) {
    c.viol("steps", format!("a text of {len} bytes takes more than {} grammar steps ({STEPS_PER_BYTE} per byte)", STEPS_BASE + STEPS_PER_BYTE * len));
  }
  c.hit("step bounds checked");
  // memory of the unchecked parse, and the balance after dropping
  let run = || {
    real::guard(|| {
      let (r, u) = count::measure(|| dbml_rs::parse_dbml_unchecked(text));
      let (_, d) = count::measure(move || drop(r));
      (u, d)
    })
  };
  let Ok((u, d)) = run() else { return };
  c.hit("memory bounds checked");
  let bound = BYTES_BASE + BYTES_PER_BYTE * len as u64;
  if len > 64 {
    c.max("bytes obtained per byte (unchecked)", u.total / len as u64);
    c.max("bytes held per byte (unchecked)", u.peak / len as u64);
  }
  if u.total > bound {
    c.viol("memory", format!("an unchecked parse of {len} bytes obtains {} bytes (bound {bound})", u.total));
  }
  balance(c, "unchecked parse", u.left + d.left, u.blocks_left + d.blocks_left, &|| run().map(|(u, d)| u.left + d.left).unwrap_or(0));
  let run = || {
    real::guard(|| {
      let (r, u) = count::measure(|| dbml_rs::parse_dbml(text));
      let (_, d) = count::measure(move || drop(r));
      (u, d)
    })
  };
  let Ok((u2, d2)) = run() else { return };
  // quadratic at most
  let extra = u2.total.saturating_sub(u.total);
  let q = bound + (len as u64).saturating_mul(len as u64).saturating_mul(QUAD_BYTES);
  if len > 64 {
    c.max("further bytes per byte (check)", extra / len as u64);
  }
  if extra > q {
    c.viol("memory of the check", format!("checking {len} bytes obtains {extra} further bytes (bound {q})"));
  }
  balance(c, "checked parse", u2.left + d2.left, u2.blocks_left + d2.blocks_left, &|| run().map(|(u, d)| u.left + d.left).unwrap_or(0));
}

/// Bytes the check may obtain per squared byte of text.
pub const QUAD_BYTES: u64 = 8;

fn balance(c: &mut Cov, what: &str, left: i64, blocks: i64, again: &dyn Fn() -> i64) {
  c.hit("allocation balances checked");
  if left > 0 || blocks > 0 {
    // something set up once and kept for later calls is no leak
    if again() > 0 && again() > 0 {
      c.viol("leak", format!("{left} bytes in {blocks} blocks remain allocated after dropping the result of one {what}, and again after each further one"));
    }
  }
}

/// Cost of one family at a size: (CPU of unchecked parse, CPU of check alone, bytes of unchecked, further bytes of check).
fn cost(text: &str) -> (f64, f64, u64, u64) {
  let t0 = thread_cpu();
  let (r, u) = count::measure(|| dbml_rs::parse_dbml_unchecked(text));
  drop(r);
  let t1 = thread_cpu();
  let (r, u2) = count::measure(|| dbml_rs::parse_dbml(text));
  drop(r);
  let t2 = thread_cpu();
  (t1 - t0, (t2 - t1 - (t1 - t0)).max(0.0), u.total, u2.total.saturating_sub(u.total))
}

/// Seconds of CPU per byte of an unchecked parse, the least of several runs.
fn per_byte(text: &str, runs: usize) -> Option<(f64, f64)> {
  let mut least = f64::MAX;
  for _ in 0..runs {
    let t0 = thread_cpu();
    let r = real::guard(|| dbml_rs::parse_dbml_unchecked(text).is_ok());
    let t1 = thread_cpu();
    r.ok()?;
    least = least.min(t1 - t0);
  }
  Some((least, least / text.len().max(1) as f64))
}

/// Doubles the text up to some megabytes: a byte must not become more and more expensive to parse.
fn far(f: &Family, n: usize, c: &mut Cov) {
  let mut n = n;
  let mut base: Option<(f64, String)> = None;
  loop {
    let t = (f.make)(n);
    let Some((secs, pb)) = per_byte(&t, 2) else { return };
    if std::env::var("VMON_DEBUG").is_ok() {
      eprintln!("{} far n={n} len={} {secs:.4} s, {:.1} ns per byte", f.name, t.len(), pb * 1e9);
    }
    if let Some((b, small)) = &base {
      c.max("growth of time per byte up to megabytes (percent)", (pb / b * 100.0) as u64);
      c.max("bytes of a text grown far", t.len() as u64);
      c.hit("far growth compared");
      if pb > FAR * b {
        // measure both again, side by side, before believing it
        let mut all = true;
        let mut seen = (0.0, 0.0);
        for _ in 0..4 {
          let (Some(x), Some(y)) = (per_byte(small, 6), per_byte(&t, 2)) else { return };
          seen = (x.1, y.1);
          if y.1 <= FAR * x.1 {
            all = false;
            break;
          }
        }
        if all {
          c.viol("growth parsing time per byte", format!("{}: a byte of a text of {} bytes takes {:.1} times the time of one of {} bytes", f.name, t.len(), seen.1 / seen.0, small.len()));
          return;
        }
      }
    }
    if secs > 0.004 && base.as_ref().is_none_or(|(b, _)| pb < *b) {
      base = Some((pb, t.clone()));
    }
    if t.len() > 600_000 || secs > 0.3 {
      return;
    }
    n *= 2;
  }
}

/// Checking that grew a little more than quadratically is measured again at twice the size,
/// where a cubic part shows (texts of this size are too small for the caches to play a part).
fn beyond(f: &Family, n: usize, c: &mut Cov) {
  let (small, big) = ((f.make)(2 * n), (f.make)(8 * n));
  let mut least = (f64::MAX, f64::MAX);
  for _ in 0..2 {
    for _ in 0..4 {
      let Ok(x) = real::guard(|| cost(&small)) else { return };
      least.0 = least.0.min(x.1);
    }
    let Ok(x) = real::guard(|| cost(&big)) else { return };
    least.1 = least.1.min(x.1);
    if least.1 <= BEYOND * least.0 {
      break;
    }
  }
  let ratio = least.1 / least.0.max(0.004);
  c.hit("steep growth measured again at twice the size");
  if std::env::var("VMON_DEBUG").is_ok() {
    eprintln!("{} beyond n={n} {least:?} {ratio:.1}", f.name);
  }
  if ratio > BEYOND {
    c.viol("growth checking time", format!("{}: checking time grows by {ratio:.1} when the text grows by 4 ({} to {} bytes): {least:?} s", f.name, small.len(), big.len()));
  }
}

/// Linear gives 4, quadratic 16, cubic 64.
const BEYOND: f64 = 29.0;

/// How much more a byte of a large text may cost than one of a small text.
const FAR: f64 = 3.0;

/// Costs at n and 4n: linear gives 4, quadratic 16, cubic 64.
fn growth(inp: &Input, c: &mut Cov) {
  let fams = families();
  let (Some(f), Some(n)) = (fams.iter().find(|f| f.name == inp.args[0]), inp.args.get(1).and_then(|s| s.parse::<usize>().ok())) else { return };
  c.nontrivial = true;
  // sizes at which the work can be measured
  let mut n = n;
  let small = loop {
    let t = (f.make)(n);
    let k = match real::guard(|| cost(&t)) {
      Ok(k) => k,
      Err(_) => return,
    };
    if k.0 + k.1 > 0.02 || t.len() > 400_000 {
      break t;
    }
    n *= 2;
  };
  let big = (f.make)(n * 4);
  c.hit(&format!("growth of {}", f.name));
  let mut worst = None;
  for _ in 0..4 {
    // the clock may be coarse: each size is measured until the sum is well above its resolution
    let mean = |t: &str| -> Option<(f64, f64, u64, u64)> {
      let mut m = (0.0, 0.0, 0, 0);
      let mut k = 0;
      while k < 3 || (m.0 + m.1 < 0.08 && k < 40) {
        let x = real::guard(|| cost(t)).ok()?;
        m = (m.0 + x.0, m.1 + x.1, x.2, x.3);
        k += 1;
      }
      Some((m.0 / k as f64, m.1 / k as f64, m.2, m.3))
    };
    let (Some(a), Some(b)) = (mean(&small), mean(&big)) else { return };
    let ratio = |x: f64, y: f64, floor: f64| y / x.max(floor);
    let rp = ratio(a.0, b.0, 0.004);
    let rc = ratio(a.1, b.1, 0.004);
    let mp = b.2 as f64 / (a.2 as f64).max(10_000.0);
    let mc = b.3 as f64 / (a.3 as f64).max(10_000.0);
    if std::env::var("VMON_DEBUG").is_ok() {
      eprintln!("{} n={n} len={} {a:?} {b:?} rp={rp:.1} rc={rc:.1} mp={mp:.2} mc={mc:.1}", f.name, small.len());
    }
    c.max("growth of parsing time over 4x (percent)", (rp * 100.0) as u64);
    c.max("growth of checking time over 4x (percent)", (rc * 100.0) as u64);
    c.max("growth of parsing memory over 4x (percent)", (mp * 100.0) as u64);
    c.max("growth of checking memory over 4x (percent)", (mc * 100.0) as u64);
    let mut bad = None;
    if mp > 7.0 {
      bad = Some(("parsing memory", mp));
    } else if mc > 28.0 {
      bad = Some(("checking memory", mc));
    } else if rp > 10.0 && b.0 > 0.1 {
      bad = Some(("parsing time", rp));
    } else if rc > 34.0 && b.1 > 0.1 {
      bad = Some(("checking time", rc));
    }
    match bad {
      None => {
        if rc > 18.0 && big.len() < 60_000 {
          beyond(f, n, c);
        }
        far(f, n, c);
        return;
      }
      Some(x) => worst = Some((x, a, b)),
    }
  }
  if let Some(((what, x), a, b)) = worst {
    c.viol(format!("growth {what}"), format!("{}: {what} grows by {x:.1} when the text grows by 4 ({} to {} bytes): {a:?} to {b:?}", f.name, small.len(), big.len()));
  }
}

pub fn p02() -> i32 {
  let fams = families();
  let nf = fams.len();
  let gen = move |r: &mut Rng, t: Tier, idx: u64| -> Vec<Input> {
    let i = idx as usize;
    if i < nf {
      return vec![Input { kind: "growth".into(), texts: vec![], args: vec![fams[i].name.to_string(), "200".into()] }];
    }
    if i < 3 * nf {
      let f = &fams[i % nf];
      let n = if i < 2 * nf { 40 } else { 2500 };
      return vec![Input::one("family", (f.make)(n))];
    }
    if t == Tier::Thorough && idx % 4000 == 0 {
      let f = &fams[r.below(nf)];
      return vec![Input { kind: "growth".into(), texts: vec![], args: vec![f.name.to_string(), (100 + r.below(800)).to_string()] }];
    }
    match idx % 6 {
      0 => (0..4).map(|_| Input::one("noise", mutate::noise(r, 60))).collect(),
      1 => tree::edit_gen(r, idx / 6),
      2 => sem::sem_gen(r, idx, None, 50),
      3 => {
        // a random fragment many times over
        let n = 1 + r.below(12);
        let s = mutate::noise(r, n);
        let head = *r.pick(&["", "Table t {", "Table t { c int [", "Ref: a.(", "Project p {", "Enum e {", "Table t { Indexes {", "Table t { c int(", "TableGroup g {", "Note: '", "Table t { c \"", "Table t { Indexes { ("]);
        let k = 2 + r.below(300);
        vec![Input::one("repeated fragment", format!("{head}{}", s.repeat(k)))]
      }
      4 => {
        let lay = *r.pick(&LAYOUTS);
        let (_, o) = tree::gen_text(r, Some(lay));
        vec![Input::one("document", o.text)]
      }
      _ => (0..3).map(|_| Input::one("extreme values", extremes(r))).collect(),
    }
  };
  check(&Spec {
    id: "P02",
    rule: "families of texts grown without bound (every repeatable construct, unterminated and backtracking-prone forms), repeated random fragments, documents, schemas and noise; the parser runs under a step limit proportional to the text, a counting allocator compares memory with bounds and checks that everything is released, and CPU time and memory at n and 4n are compared; every text is non-trivial; distinct by text",
    gen: &gen,
    judge: &judge02,
    quick: 12_000,
    must: vec!["step bounds checked", "memory bounds checked", "allocation balances checked", "growth of tables", "growth of relations", "growth of error at the end", "far growth compared"],
    assumptions: vec![
      "a grammar step is a call counted by the parsing library's own limit".into(),
      "CPU times are means over runs of at least 0.08 s together, and a growth counts only if four measurements in a row exceed the bound".into(),
    ],
    fixed: tree::corpus().iter().map(|(_, s)| Input::one("fixture", s.clone())).collect(),
    threads: 8,
  })
}

/// Prints the cost of every family (used to choose the bounds).
pub fn costs() -> i32 {
  if let Some(name) = std::env::args().nth(2) {
    for f in families().iter().filter(|f| f.name == name) {
      for k in 6..19 {
        let t = (f.make)(1 << k);
        println!("{} {:?}", t.len(), cost(&t));
      }
    }
    return 0;
  }
  for f in families() {
    for n in [50, 1000] {
      let t = (f.make)(n);
      let s = steps_of(&t);
      let k = cost(&t);
      println!(
        "{:40} n={:5} len={:8} steps/byte={:6.1} alloc/byte={:7.1} check/byte={:8.1} check/byte²={:.4} parse={:.2}ms check={:.2}ms {}",
        f.name,
        n,
        t.len(),
        s as f64 / t.len() as f64,
        k.2 as f64 / t.len() as f64,
        k.3 as f64 / t.len() as f64,
        k.3 as f64 / (t.len() as f64 * t.len() as f64),
        k.0 * 1e3,
        k.1 * 1e3,
        match real::checked(&t) {
          real::Out::Ok(_) => "ok".to_string(),
          o => o.brief().chars().take(60).collect(),
        }
      );
    }
  }
  let mut worst = (0.0f64, 0.0f64, 0.0f64, 0.0f64);
  for i in 0..3000u64 {
    let mut r = Rng::for_case(1, "costs", i);
    let t = match i % 3 {
      0 => tree::gen_text(&mut r, None).1.text,
      1 => mutate::noise(&mut r, 60),
      _ => sem::text_of(&gensem::valid(&mut r, 4), &mut r),
    };
    if t.len() < 8 {
      continue;
    }
    let s = steps_of(&t);
    let k = cost(&t);
    worst.0 = worst.0.max(s.saturating_sub(500) as f64 / t.len() as f64);
    worst.1 = worst.1.max(k.2.saturating_sub(8000) as f64 / t.len() as f64);
    worst.2 = worst.2.max(k.3 as f64 / t.len() as f64);
    worst.3 = worst.3.max(k.3 as f64 / (t.len() as f64).powi(2));
  }
  println!("random: steps/byte {:.1} alloc/byte {:.1} check/byte {:.1} check/byte² {:.3}", worst.0, worst.1, worst.2, worst.3);
  0
}

// ---------------------------------------------------------------- P27

fn outcome(text: &str) -> String {
  let a = match dbml_rs::parse_dbml_unchecked(text) {
    Ok(s) => format!("{s:?}"),
    Err(e) => format!("{e:?} / {e}"),
  };
  let b = match dbml_rs::parse_dbml(text) {
    Ok(s) => format!("{s:?}"),
    Err(e) => format!("{e:?} / {e}"),
  };
  format!("{a}\n{b}")
}

/// The outcome, or the panic in its place.
fn outcome_g(text: &str) -> String {
  real::guard(|| outcome(text)).unwrap_or_else(|p| format!("panic {p}"))
}

fn differ(c: &mut Cov, what: &str, a: &str, b: &str) {
  if a != b {
    let at = a.chars().zip(b.chars()).position(|(x, y)| x != y).unwrap_or(0);
    let w = |s: &str| s.chars().skip(at.saturating_sub(60)).take(160).collect::<String>();
    c.viol(what, format!("the same text gives another result ({what}): …{}… / …{}…", w(a), w(b)));
  }
}

/// texts[0] is parsed again and again, between and beside the others.
pub fn judge27(inp: &Input, c: &mut Cov) {
  c.nontrivial = true;
  let t = &inp.texts[0];
  let first = outcome_g(t);
  if inp.kind == "large" {
    c.hit("large texts");
  }
  c.hit(if first.starts_with("SchemaBlock") { "texts that parse" } else { "texts that do not parse" });
  for _ in 0..3 {
    differ(c, "repeated", &first, &outcome_g(t));
  }
  for o in &inp.texts[1..] {
    let _ = outcome_g(o);
    c.hit("other texts in between");
    differ(c, "after another text", &first, &outcome_g(t));
  }
  // elsewhere in memory, with other bytes around
  for k in 0..3usize {
    let pre = ["", "x", "Table t { é"][k];
    let buf = format!("{pre}{t}{}", ["'", " }", "*/"][k]);
    let part = &buf[pre.len()..pre.len() + t.len()];
    differ(c, "at another place in memory", &first, &outcome_g(part));
    let ok = real::guard(|| match dbml_rs::parse_dbml_unchecked(part) {
      Ok(s) => std::ptr::eq(s.input.as_ptr(), part.as_ptr()) && s.input.len() == part.len(),
      Err(_) => true,
    });
    if ok == Ok(false) {
      c.viol("text of the caller", "the result does not refer to the caller's own text");
    }
    let ok = real::guard(|| match dbml_rs::parse_dbml(part) {
      Ok(s) => std::ptr::eq(s.input.as_ptr(), part.as_ptr()) && s.input.len() == part.len(),
      Err(_) => true,
    });
    if ok == Ok(false) {
      c.viol("text of the caller", "the checked result does not refer to the caller's own text");
    }
    c.hit("places in memory");
  }
  // at every alignment
  if t.len() < 600 && inp.hash() % 8 == 0 {
    for k in 0..64 {
      let mut buf = String::with_capacity(t.len() + 128);
      let pad = (64 + k - buf.as_ptr() as usize % 64) % 64;
      buf.extend(std::iter::repeat_n('x', pad));
      buf.push_str(t);
      let part = &buf[pad..];
      differ(c, "at another place in memory", &first, &outcome_g(part));
    }
    c.hit("texts at every alignment");
  }
  // on other threads at once
  let outs: Vec<String> = std::thread::scope(|s| {
    let hs: Vec<_> = (0..2)
      .map(|k| {
        let inp = &inp;
        s.spawn(move || {
          if k == 1 {
            for o in &inp.texts[1..] {
              let _ = outcome_g(o);
            }
          }
          outcome_g(&inp.texts[0])
        })
      })
      .collect();
    hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
  });
  for o in outs {
    c.hit("other threads");
    differ(c, "on another thread", &first, &o);
  }
  // for the comparison with other processes
  if let Some(m) = RECORD.get() {
    m.lock().unwrap().insert(inp.hash(), (hash_str(&first), t.clone()));
  }
}

static RECORD: std::sync::OnceLock<Mutex<HashMap<u64, (u64, String)>>> = std::sync::OnceLock::new();

fn gen27(r: &mut Rng, idx: u64) -> Vec<Input> {
  if idx % 166 == 165 {
    // large texts, whose treatment could depend on what was left over from earlier ones
    let d = if r.pct(50) {
      gensem::valid(r, 60)
    } else {
      let n = 50 + r.below(200);
      gen::doc_n(r, gen::Taste::Mixed, n)
    };
    return vec![Input { kind: "large".into(), texts: vec![sem::text_of(&d, r)], args: vec![] }];
  }
  // schemas with several faults at once: which of them is reported must not vary
  let t = match idx % 5 {
    0..=2 => {
      let sc = 1 + r.below(5);
      let mut d = gensem::valid(r, sc);
      for _ in 0..r.below(7) {
        gensem::edit(r, &mut d);
      }
      sem::text_of(&d, r)
    }
    3 => tree::gen_text(r, None).1.text,
    _ => {
      let s = tree::gen_text(r, None);
      mutate::edit(r, &s.1.text, &s.1.toks).0
    }
  };
  let mut texts = vec![t.clone()];
  for _ in 0..r.below(3) {
    texts.push(match r.below(4) {
      0 => {
        // same length, other content
        let mut s: Vec<char> = t.chars().collect();
        if !s.is_empty() {
          let i = r.below(s.len());
          s[i] = if s[i] == 'a' { 'b' } else if s[i].is_ascii() { 'a' } else { s[i] };
        }
        s.into_iter().collect()
      }
      1 => tree::gen_text(r, None).1.text,
      2 => {
        let toks = mutate::lex(&t);
        mutate::edit(r, &t, &toks).0
      }
      _ => mutate::noise(r, 10),
    });
  }
  vec![Input { kind: "history".into(), texts, args: vec![] }]
}

/// In another process: the same texts, last first, one thread.
pub fn p27_child(n: u64, every: u64) -> i32 {
  use std::io::Write;
  let mut o = std::io::BufWriter::new(std::io::stdout().lock());
  let (sd, t) = (seed(), tier());
  let _ = t;
  let mut i = n;
  while i > 0 {
    i -= 1;
    if i % every != 0 {
      continue;
    }
    let mut r = Rng::for_case(sd, "P27", i);
    for inp in gen27(&mut r, i) {
      let h = hash_str(&outcome_g(&inp.texts[0]));
      let _ = writeln!(o, "{:x} {:x}", inp.hash(), h);
    }
  }
  0
}

pub fn p27() -> i32 {
  let _ = RECORD.set(Mutex::new(HashMap::new()));
  let gen = |r: &mut Rng, _: Tier, idx: u64| gen27(r, idx);
  let spec = Spec {
    id: "P27",
    rule: "schemas with up to six faults at once, documents and broken texts; each is parsed again in the same thread, after other (similar) texts, at other places in memory (some at every alignment), on two other threads at once, while seven more threads parse other texts, and in three other processes with another environment and the opposite order; the complete results are compared by their full rendering; a set of reference texts is parsed again at the end of the history; distinct by texts",
    gen: &gen,
    judge: &judge27,
    quick: 25_000,
    must: vec!["texts that parse", "texts that do not parse", "large texts", "texts at every alignment", "other threads", "places in memory", "other texts in between", "results compared with other processes", "reference texts after a long history"],
    assumptions: vec![],
    fixed: tree::corpus().iter().map(|(_, s)| Input { kind: "history".into(), texts: vec![s.clone()], args: vec![] }).collect(),
    threads: 8,
  };
  let (t, sd) = (tier(), seed());
  let refs: Vec<String> = (0..400u64)
    .map(|i| {
      let mut r = Rng::for_case(sd, "P27 reference", i);
      gen27(&mut r, i).remove(0).texts.remove(0)
    })
    .chain(tree::corpus().iter().map(|x| x.1.clone()))
    .collect();
  let before: Vec<String> = refs.iter().map(|s| outcome_g(s)).collect();
  let mut rep = run(&spec, t, sd);
  // after the whole history, on 8 threads that start together
  let bar = std::sync::Barrier::new(8);
  let found: Mutex<Vec<(Viol, Input)>> = Mutex::new(vec![]);
  let count = AtomicU64::new(0);
  std::thread::scope(|s| {
    for k in 0..8usize {
      let (bar, refs, before, found, count) = (&bar, &refs, &before, &found, &count);
      s.spawn(move || {
        bar.wait();
        let n = refs.len();
        for j in 0..n {
          // half of the threads in lock-step on the same texts, the others elsewhere
          let i = if k < 4 { j } else { (j * 7 + k * 13) % n };
          let now = outcome_g(&refs[i]);
          count.fetch_add(1, Ordering::Relaxed);
          let mut c = Cov::default();
          differ(&mut c, "after a long history", &before[i], &now);
          for v in c.viols {
            found.lock().unwrap().push((v, Input { kind: "history".into(), texts: vec![refs[i].clone()], args: vec![] }));
          }
        }
      });
    }
  });
  rep.counts.insert("reference texts after a long history".into(), count.load(Ordering::Relaxed));
  rep.viols.extend(found.into_inner().unwrap().into_iter().take(3));
  // other processes
  let done: HashMap<u64, (u64, String)> = std::mem::take(&mut *RECORD.get().unwrap().lock().unwrap());
  let n = if t == Tier::Quick { spec.quick } else { 60_000 };
  let mut compared = 0u64;
  let kids: Vec<_> = (0..3u64)
    .filter_map(|k| {
      let mut c = me();
      c.arg("child27").arg(n.to_string()).arg(["5", "7", "9"][k as usize]).current_dir("/").stdin(std::process::Stdio::null()).stdout(std::process::Stdio::piped());
      if k == 1 {
        c.env_clear().env("VMON_ROOT", root()).env("VERIF_SEED", sd.to_string()).env("LC_ALL", "tr_TR.UTF-8").env("TZ", "Asia/Kathmandu");
      }
      if k == 2 {
        c.env("LANG", "C").env("RUST_BACKTRACE", "full").env("RUST_MIN_STACK", "4194304").env("HOME", "/nonexistent");
      }
      c.spawn().ok()
    })
    .collect();
  for k in kids {
    let Ok(o) = k.wait_with_output() else { continue };
    for l in String::from_utf8_lossy(&o.stdout).lines() {
      let Some((a, b)) = l.split_once(' ') else { continue };
      let (Ok(a), Ok(b)) = (u64::from_str_radix(a, 16), u64::from_str_radix(b, 16)) else { continue };
      if let Some((h, text)) = done.get(&a) {
        compared += 1;
        if *h != b && rep.viols.len() < 6 {
          rep.viols.push((
            Viol { sig: "in another process".into(), msg: "the same text gives another result in another process (other order, environment, one thread)".into() },
            Input { kind: "history".into(), texts: vec![text.clone()], args: vec![] },
          ));
        }
      }
    }
  }
  rep.counts.insert("results compared with other processes".into(), compared);
  finish(&spec, t, sd, rep)
}

// ---------------------------------------------------------------- P31

/// Texts of the sanitizer workload; `most` limits their length (the interpreter is slow).
fn san_texts(n: u64, most: usize) -> Vec<String> {
  let mut v: Vec<String> = tree::corpus().iter().map(|x| x.1.clone()).collect();
  let fams = families();
  for i in 0..n {
    let mut r = Rng::for_case(seed(), "P31", i);
    match i % 8 {
      0 => {
        let f = &fams[(i / 8) as usize % fams.len()];
        v.push((f.make)(1 + r.below(60)));
      }
      1 => v.push(extremes(&mut r)),
      2 => v.push(mutate::noise(&mut r, 40)),
      3 => v.push(lossy(&mut r, 200)),
      4 => {
        let s = tree::gen_text(&mut r, None).1;
        v.push(mutate::edit(&mut r, &s.text, &s.toks).0);
        v.push(s.text);
      }
      _ => {
        let mut d = gensem::valid(&mut r, 3);
        v.push(sem::text_of(&d, &mut r));
        gensem::edit(&mut r, &mut d);
        v.push(sem::text_of(&d, &mut r));
      }
    }
  }
  v.retain(|t| t.len() <= most);
  v
}

/// Writes the texts of the workload, one per line.
pub fn san_write(n: u64, most: usize, total: usize, path: &str) -> i32 {
  use std::io::Write;
  let Ok(f) = std::fs::File::create(path) else { return 2 };
  let mut f = std::io::BufWriter::new(f);
  let mut left = total;
  let mut texts = san_texts(n, most);
  // any kind may come first
  let mut r = Rng::for_case(seed(), "P31 order", n);
  for i in (1..texts.len()).rev() {
    texts.swap(i, r.below(i + 1));
  }
  for t in texts {
    if t.len() > left {
      continue;
    }
    left -= t.len();
    let _ = writeln!(f, "{}", hexs(&t));
  }
  0
}

/// The workload for the sanitizers: every public operation, several threads at once, no monitor in the way.
/// Each thread says which text comes next, so that a report can be traced to it.
pub fn san(path: &str, threads: usize, light: bool) -> i32 {
  let texts: Vec<String> = std::fs::read_to_string(path).unwrap_or_default().lines().filter_map(unhex).collect();
  let next = AtomicU64::new(0);
  let (ok, rejected, bad, queries, strings, runs) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
  let bar = std::sync::Barrier::new(threads);
  std::thread::scope(|s| {
    for k in 0..threads {
      let (texts, next, ok, rejected, bad, queries, bar, strings, runs) = (&texts, &next, &ok, &rejected, &bad, &queries, &bar, &strings, &runs);
      s.spawn(move || {
        bar.wait();
        // each text on two threads: once in turn, once on its own schedule
        for round in 0..if light { 1 } else { 2usize } {
          let mut j = 0usize;
          loop {
            let i = if round == 0 {
              next.fetch_add(1, Ordering::Relaxed) as usize
            } else {
              j += 1;
              (j - 1) * threads + (k + 1) % threads
            };
            if i >= texts.len() {
              break;
            }
            println!("@{i}");
            runs.fetch_add(1, Ordering::Relaxed);
            let t = &texts[i];
            if light {
              // for the interpreter, which is slow
              let h = real::guard(|| match dbml_rs::parse_dbml(t) {
                Ok(ast) => {
                  #[cfg(feature = "hooks")]
                  queries.fetch_add(crate::hooked::touch_queries(&ast), Ordering::Relaxed);
                  strings.fetch_add(utf8(ast.input, i), Ordering::Relaxed);
                  if i % 8 == 0 {
                    strings.fetch_add(utf8(&format!("{:?}", ast.clone()), i), Ordering::Relaxed);
                  }
                  ok.fetch_add(1, Ordering::Relaxed);
                }
                Err(e) => {
                  strings.fetch_add(utf8(&format!("{e}"), i), Ordering::Relaxed);
                  rejected.fetch_add(1, Ordering::Relaxed);
                }
              });
              if h.is_err() {
                bad.fetch_add(1, Ordering::Relaxed);
              }
              continue;
            }
            if real::guard(|| exercise(t)).is_err() {
              bad.fetch_add(1, Ordering::Relaxed);
              continue;
            }
            let _ = real::guard(|| {
              if let Ok(ast) = dbml_rs::parse_dbml_unchecked(t) {
                strings.fetch_add(utf8(&format!("{ast:#?}"), i) + utf8(ast.input, i), Ordering::Relaxed);
                for x in ast.tables() {
                  strings.fetch_add(utf8(&x.ident.name.to_string, i) + utf8(&x.ident.name.raw, i), Ordering::Relaxed);
                  for y in &x.cols {
                    strings.fetch_add(utf8(&y.name.to_string, i) + utf8(&y.r#type.raw, i), Ordering::Relaxed);
                  }
                }
              }
              match dbml_rs::parse_dbml(t) {
                Ok(ast) => {
                  ok.fetch_add(1, Ordering::Relaxed);
                  #[cfg(feature = "hooks")]
                  queries.fetch_add(crate::hooked::touch_queries(&ast), Ordering::Relaxed);
                  let _ = (&ast, &queries);
                }
                Err(e) => {
                  strings.fetch_add(utf8(&e.to_string(), i) + utf8(e.line(), i), Ordering::Relaxed);
                  rejected.fetch_add(1, Ordering::Relaxed);
                }
              }
            });
          }
        }
      });
    }
  });
  let distinct: std::collections::HashSet<&String> = texts.iter().collect();
  println!(
    "SAN texts={} distinct={} bytes={} runs={} accepted={} rejected={} panics={} queries={} strings={}",
    texts.len(),
    distinct.len(),
    texts.iter().map(|t| t.len()).sum::<usize>(),
    runs.into_inner(),
    ok.into_inner(),
    rejected.into_inner(),
    bad.into_inner(),
    queries.into_inner(),
    strings.into_inner()
  );
  0
}

/// A string that is no UTF-8 is undefined behaviour waiting to happen, and no sanitizer sees it.
fn utf8(s: &str, i: usize) -> u64 {
  if std::str::from_utf8(std::hint::black_box(s.as_bytes())).is_err() {
    eprintln!("INVALID-UTF8: a string in the result of text {i} is not UTF-8");
    std::process::exit(66);
  }
  1
}
