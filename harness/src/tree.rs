//! Properties decided by comparing the real tree with the reference tree (P03-P10, P13, P14).

use crate::gen;
use crate::model::*;
use crate::mutate;
use crate::real::{self, Out};
use crate::refp::{self, RefErr};
use crate::render::{self, Layout, LAYOUTS};
use crate::rng::Rng;
use crate::runner::*;

/// Which constructs a document should be rich in.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Focus {
  Any,
  Huge,
}

/// A random document with its text; the two independent accounts of it (generator, reference parser) must agree.
pub fn gen_text(r: &mut Rng, layout: Option<Layout>) -> (Doc, render::Out) {
  let d = gen::doc(r);
  let out = render_checked(&d, r, layout);
  (d, out)
}

pub fn render_checked(d: &Doc, r: &mut Rng, layout: Option<Layout>) -> render::Out {
  let layout = layout.unwrap_or_else(|| *r.pick(&LAYOUTS));
  let sub = Rng::new(r.next());
  let (kc, ow) = (r.pct(30), r.pct(25));
  let out = render::render_with(d, layout, sub, kc, ow);
  self_check(d, &out.text);
  out
}

/// Harness self-check: a disagreement here is an error of the harness, never a verdict.
pub fn self_check(d: &Doc, text: &str) {
  match refp::parse(text) {
    Ok(p) => {
      let mut diffs = vec![];
      diff(&facts(d), &facts(&p), VALUES, &|s| s.1, &mut diffs);
      // the text of a type includes its layout, everything else must agree literally
      if let Some(x) = diffs.first() {
        panic!("generator and reference parser disagree: {} in {:?}", x.show(), text);
      }
    }
    Err(e) => panic!("reference parser rejects generated text: {e:?} in {text:?}"),
  }
}

pub fn corpus() -> &'static [(String, String)] {
  static C: std::sync::OnceLock<Vec<(String, String)>> = std::sync::OnceLock::new();
  C.get_or_init(|| {
    let mut v = vec![];
    if let Ok(rd) = std::fs::read_dir(root().join("corpus")) {
      for e in rd.flatten() {
        if let Ok(s) = std::fs::read_to_string(e.path()) {
          v.push((e.file_name().to_string_lossy().into_owned(), s));
        }
      }
    }
    v.sort();
    v
  })
}

fn cov_doc(c: &mut Cov, d: &Doc, text: &str) {
  c.max("document bytes", text.len() as u64);
  for b in &d.blocks {
    c.hit(&format!("block {}", b.kind()));
    match b {
      Block::Table(t) => {
        c.add("columns", t.cols.len() as u64);
        for x in &t.cols {
          if x.ty.schema.is_some() {
            c.hit("qualified types");
          }
          if x.ty.quoted {
            c.hit("quoted types");
          }
          if x.ty.has_args {
            c.hit("types with arguments");
          }
          if !x.ty.arrays.is_empty() {
            c.hit("array types");
          }
          if let Some(s) = &x.settings {
            c.hit("column settings");
            c.add("attributes", s.attrs.len() as u64);
            c.add("inline relations", s.refs.len() as u64);
          }
        }
        if let Some(x) = &t.indexes {
          c.hit("indexes blocks");
          c.add("index definitions", x.defs.len() as u64);
        }
        if t.alias.is_some() {
          c.hit("aliases");
        }
        if t.settings.is_some() {
          c.hit("table settings");
        }
        if t.note.is_some() {
          c.hit("table notes");
        }
      }
      Block::Enum(e) => c.add("enum values", e.values.len() as u64),
      Block::Project(p) => c.add("properties", p.props.len() as u64),
      Block::Group(g) => c.add("group items", g.items.len() as u64),
      Block::Ref(r) => {
        if r.settings.is_some() {
          c.hit("relation settings");
        }
        if r.lhs.comps.len() > 1 {
          c.hit("composite relations");
        }
      }
      Block::Note(_) => (),
    }
  }
}

fn count_nodes(n: &Node, mask: u32) -> u64 {
  let own = (n.cat & mask != 0) as u64;
  own + n.kids.iter().map(|k| count_nodes(k, mask)).sum::<u64>()
}

/// Categories of the innermost construct at `pos`.
fn cats_at(n: &Node, pos: usize) -> u32 {
  fn inner(n: &Node, pos: usize) -> Option<u32> {
    for k in &n.kids {
      if let Some(c) = inner(k, pos) {
        return Some(c);
      }
    }
    if n.spk != SpKind::None && n.sp.0 <= pos && pos <= n.sp.1 {
      return Some(n.cat);
    }
    None
  }
  inner(n, pos).unwrap_or(TOP)
}

/// Documents with one construct category in mind.
fn tree_gen(r: &mut Rng, idx: u64) -> Vec<Input> {
  if idx % 97 == 96 && !corpus().is_empty() {
    // a re-laid-out fixture
    let (_, s) = r.pick(corpus());
    if let Ok(d) = refp::parse(s) {
      let o = render_checked(&d, r, None);
      return vec![Input::one("relaid fixture", o.text)];
    }
  }
  if idx % 61 == 60 {
    // large documents
    let n = 40 + r.below(200);
    let t = *r.pick(&[gen::Taste::Plain, gen::Taste::Mixed, gen::Taste::Odd]);
    let d = gen::doc_n(r, t, n);
    let o = render_checked(&d, r, None);
    return vec![Input::one("large", o.text)];
  }
  let (_, o) = gen_text(r, None);
  vec![Input::one("document", o.text)]
}

fn fixtures(kind: &str) -> Vec<Input> {
  corpus().iter().map(|(_, s)| Input::one(kind, s.clone())).collect()
}

pub fn tree_judge(inp: &Input, c: &mut Cov, mask: u32, kinds: &[DKind], lits: bool) {
  let text = &inp.texts[0];
  let want = match refp::parse(text) {
    Ok(d) => d,
    Err(RefErr::Conv(v)) => {
      // an integer that cannot be represented must not become another number
      if lits {
        if let Out::Ok(_) = real::raw(text) {
          c.nontrivial = true;
          c.viol("unrepresentable value accepted", format!("a value that cannot be converted ({:?}) is accepted", v.first()));
        }
      }
      return;
    }
    Err(_) => return,
  };
  let wf = facts(&want);
  let n = count_nodes(&wf, mask);
  match real::raw(text) {
    Out::Ok(got) => {
      if n > 0 {
        c.nontrivial = true;
      }
      c.add("facts compared", n);
      c.hit("documents compared");
      cov_doc(c, &want, text);
      let mut diffs = vec![];
      let te = |s: Sp| refp::trivia_end(text, s);
      let opts = Cmp { raw: kinds.contains(&DKind::Raw), spans: kinds.contains(&DKind::Span), max: 50 };
      diff(&wf, &facts(&got), opts, &te, &mut diffs);
      for d in diffs.iter().filter(|d| d.cat & mask != 0 && kinds.contains(&d.kind)).take(3) {
        let leaf: String = d.path.split('/').filter(|p| !p.starts_with('[')).collect::<Vec<_>>().join("/");
        c.viol(format!("{:?} {}", d.kind, leaf), d.show());
      }
    }
    Out::Err(e) => {
      c.hit("documents rejected by the real parser");
      // attributed to the construct at which it is rejected
      if cats_at(&wf, e.loc.0) & mask != 0 {
        c.nontrivial = true;
        c.viol("rejected", format!("a well-formed construct is rejected at {:?}: {}", e.loc, e.msg.unwrap_or_default()));
      }
    }
    Out::Panic(p) => {
      c.nontrivial = true;
      c.viol("panic", format!("panic instead of a tree: {p}"));
    }
  }
}

const RULE: &str = "random documents of the grammar (all constructs, names, contents, layouts), re-laid-out fixtures and large documents; each is parsed by the real parser and by an independent reference parser, and every fact of the two trees is compared; non-trivial: the document holds at least one fact of the property's kind; distinct by text";

fn spec<'a>(id: &'a str, judge: &'a JudgeFn, quick: u64, must: Vec<&'a str>) -> Spec<'a> {
  Spec {
    id,
    rule: RULE,
    gen: &|r, _, idx| tree_gen(r, idx),
    judge,
    quick,
    must,
    assumptions: vec![
      "the reference parser states the documented syntax; on every generated document it agrees with the generator's own account, else the check ends in an error".into(),
    ],
    fixed: fixtures("fixture"),
    threads: 8,
  }
}

pub fn p03() -> i32 {
  check(&spec("P03", &judge03, 200_000, vec!["documents compared", "block project", "block table", "block enum", "block ref", "block group", "block note"]))
}

pub fn judge03(inp: &Input, c: &mut Cov) {
  tree_judge(inp, c, TOP, &[DKind::Value], false);
  let text = &inp.texts[0];
  if refp::parse(text).is_err() {
    return;
  }
  let r = real::guard(|| {
    let mut bad = vec![];
    if let Ok(s) = dbml_rs::parse_dbml_unchecked(text) {
      if !std::ptr::eq(s.input, text.as_str()) || s.input.len() != text.len() {
        bad.push(("input", "the result does not carry the given text".to_string()));
      }
      use dbml_rs::ast::TopLevelBlock as T;
      fn same<A, B>(name: &'static str, listed: &[&A], own: Vec<&B>, bad: &mut Vec<(&'static str, String)>) {
        let a: Vec<usize> = listed.iter().map(|x| *x as *const A as usize).collect();
        let b: Vec<usize> = own.iter().map(|x| *x as *const B as usize).collect();
        if a != b {
          bad.push((name, format!("{name} lists {} of {} declarations, or in another order", a.len(), b.len())));
        }
      }
      macro_rules! own {
        ($k:ident) => {
          s.blocks.iter().filter_map(|b| if let T::$k(x) = b { Some(x) } else { None }).collect::<Vec<_>>()
        };
      }
      same("projects()", &s.projects(), own!(Project), &mut bad);
      same("tables()", &s.tables(), own!(Table), &mut bad);
      same("table_groups()", &s.table_groups(), own!(TableGroup), &mut bad);
      same("refs()", &s.refs(), own!(Ref), &mut bad);
      same("enums()", &s.enums(), own!(Enum), &mut bad);
    }
    bad
  });
  match r {
    Ok(bad) => {
      c.hit("listings compared");
      for (k, m) in bad {
        c.viol(k, m);
      }
    }
    Err(p) => c.viol("panic", p),
  }
}

pub fn judge04(inp: &Input, c: &mut Cov) {
  tree_judge(inp, c, COL, &[DKind::Value, DKind::Raw], false)
}
pub fn judge05(inp: &Input, c: &mut Cov) {
  tree_judge(inp, c, SET, &[DKind::Value], false)
}
pub fn judge06(inp: &Input, c: &mut Cov) {
  tree_judge(inp, c, LIT, &[DKind::Value, DKind::Raw], true)
}
pub fn judge07(inp: &Input, c: &mut Cov) {
  tree_judge(inp, c, REF, &[DKind::Value], false)
}
pub fn judge08(inp: &Input, c: &mut Cov) {
  tree_judge(inp, c, IDX, &[DKind::Value], false)
}
pub fn judge09(inp: &Input, c: &mut Cov) {
  tree_judge(inp, c, BODY, &[DKind::Value], false)
}

pub fn p04() -> i32 {
  check(&spec("P04", &judge04, 200_000, vec!["documents compared", "columns", "qualified types", "quoted types", "types with arguments", "array types"]))
}
pub fn p05() -> i32 {
  check(&spec("P05", &judge05, 200_000, vec!["documents compared", "column settings", "attributes", "table settings", "relation settings"]))
}
pub fn p06() -> i32 {
  let mut s = spec("P06", &judge06, 200_000, vec!["documents compared", "facts compared"]);
  s.gen = &|r, _, idx| {
    if idx % 5 == 4 {
      lit_gen(r)
    } else {
      tree_gen(r, idx)
    }
  };
  check(&s)
}

/// Documents that are all literals: one table whose columns carry every kind of value, with digits around the limits.
fn lit_gen(r: &mut Rng) -> Vec<Input> {
  let mut t = Table { name: gen::bare("t"), ..Default::default() };
  for i in 0..1 + r.below(6) {
    let v = match r.below(5) {
      0 => gen::number(r),
      4 if r.pct(30) => {
        let s = *r.pick(&gen::LIMITS);
        gen::int(s)
      }
      1 => {
        // digits of any length, also too long ones
        let n = 1 + r.below(24);
        let s: String = (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect();
        gen::int(&s)
      }
      _ => gen::value(r, gen::Taste::Odd),
    };
    let a = gen::mk_attr("default", Some(v));
    t.cols.push(Col {
      name: gen::bare(&format!("c{i}")),
      ty: gen::mk_ty("int", vec![], false, vec![]),
      settings: Some(Settings { attrs: vec![a], ..Default::default() }),
      ..Default::default()
    });
  }
  let d = Doc { blocks: vec![Block::Table(t)], ..Default::default() };
  let sub = Rng::new(r.next());
  let o = render::render(&d, *r.pick(&LAYOUTS), sub);
  vec![Input::one("literals", o.text)]
}

pub fn p07() -> i32 {
  check(&spec("P07", &judge07, 200_000, vec!["documents compared", "block ref", "inline relations", "composite relations"]))
}
pub fn p08() -> i32 {
  check(&spec("P08", &judge08, 200_000, vec!["documents compared", "indexes blocks", "index definitions"]))
}
pub fn p09() -> i32 {
  check(&spec("P09", &judge09, 200_000, vec!["documents compared", "enum values", "properties", "group items", "block note", "table notes"]))
}

// ---------------------------------------------------------------- spans

pub fn judge10(inp: &Input, c: &mut Cov) {
  tree_judge(inp, c, !0, &[DKind::Span], false);
  // structural sanity on the real tree alone
  let text = &inp.texts[0];
  if let Out::Ok(d) = real::raw(text) {
    if d.sp.0 != 0 || d.sp.1 != text.len() {
      // the whole-document span may leave surrounding trivia out
      let mut f = 0;
      let first = refp::trivia(text.as_bytes(), 0, &mut f);
      let ok = d.sp.0 <= first && refp::trivia_end(text, (0, d.sp.1)) == text.len() && d.sp.1 <= text.len();
      if !ok {
        c.viol("document span", format!("document span {:?} of a text of {} bytes", d.sp, text.len()));
      }
    }
    let mut n = 0;
    sane(&facts(&d), (0, text.len()), text, c, &mut n);
    c.add("spans checked", n);
  }
}

fn sane(x: &Node, parent: Sp, text: &str, c: &mut Cov, n: &mut u64) {
  let mut me = parent;
  if x.spk != SpKind::None {
    *n += 1;
    let (a, z) = x.sp;
    if a > z || z > text.len() || !text.is_char_boundary(a) || !text.is_char_boundary(z) {
      c.viol(format!("bounds {}", x.label), format!("span {:?} of {} is not a range of the text", x.sp, x.label));
      return;
    }
    // the span of a relation is that of its statement: the name stands before it
    let ref_name = x.label == "name" && x.cat & REF != 0;
    if !ref_name && (a < parent.0 || z > parent.1) {
      c.viol(format!("nesting {}", x.label), format!("span {:?} of {} leaves its parent {:?}", x.sp, x.label, parent));
    }
    if let Some(raw) = &x.raw {
      if &text[a..z] != raw {
        c.viol(format!("text {}", x.label), format!("span {:?} of {} covers {:?}, not {:?}", x.sp, x.label, &text[a..z], raw));
      }
    }
    me = x.sp;
  }
  for k in &x.kids {
    sane(k, me, text, c, n);
  }
  // children of one list are disjoint and in order
  let mut last = 0;
  if x.kids.len() > 1 && x.kids.iter().all(|k| k.label == x.kids[0].label && k.spk != SpKind::None) {
    for k in &x.kids {
      if k.sp.0 < last {
        c.viol(format!("order {}", k.label), format!("span {:?} of {} overlaps its predecessor", k.sp, k.label));
      }
      last = k.sp.1;
    }
  }
}

pub fn p10() -> i32 {
  check(&spec("P10", &judge10, 200_000, vec!["documents compared", "spans checked"]))
}

// ---------------------------------------------------------------- acceptance and error positions

pub fn edit_gen(r: &mut Rng, idx: u64) -> Vec<Input> {
  match idx % 16 {
    0 => {
      let (_, o) = gen_text(r, None);
      vec![Input::one("document", o.text)]
    }
    1 => {
      let s = mutate::noise(r, 12);
      vec![Input::one("noise", s)]
    }
    2 if !corpus().is_empty() => {
      let (_, s) = r.pick(corpus());
      let mut t = s.clone();
      for _ in 0..1 + r.below(2) {
        let toks = mutate::lex(&t);
        t = mutate::edit(r, &t, &toks).0;
      }
      vec![Input::one("edited fixture", t)]
    }
    3 => {
      // a document cut at every character of a window
      let n = 1 + r.below(3);
      let d = gen::doc_n(r, gen::Taste::Mixed, n);
      let lay = *r.pick(&[Layout::Min, Layout::Wild, Layout::Pretty]);
      let o = render_checked(&d, r, Some(lay));
      let mut v = vec![];
      let ends: Vec<usize> = o.text.char_indices().map(|x| x.0).collect();
      let from = r.below(ends.len() + 1);
      for &e in ends.iter().skip(from).take(24) {
        v.push(Input::one("truncated", o.text[..e].to_string()));
      }
      v
    }
    _ => {
      let lay = *r.pick(&[Layout::Min, Layout::Pretty, Layout::Pretty, Layout::Wild, Layout::Spaces, Layout::Crlf]);
      let n = 1 + r.below(3);
      let t = *r.pick(&[gen::Taste::Plain, gen::Taste::Mixed, gen::Taste::Odd]);
      let d = gen::doc_n(r, t, n);
      let o = render_checked(&d, r, Some(lay));
      let mut v = vec![];
      for _ in 0..6 {
        let (mut s, mut k) = mutate::edit(r, &o.text, &o.toks);
        if r.pct(25) {
          let toks = mutate::lex(&s);
          let (s2, k2) = mutate::edit(r, &s, &toks);
          s = s2;
          k = k2;
        }
        v.push(Input::one(k, s));
      }
      v
    }
  }
}

pub fn judge13(inp: &Input, c: &mut Cov) {
  let text = &inp.texts[0];
  let want = refp::parse(text);
  let got = real::raw(text);
  c.nontrivial = true;
  c.hit(&format!("texts: {}", inp.kind));
  match (&want, &got) {
    (Ok(_), Out::Ok(_)) => c.hit("accepted by both"),
    (Err(RefErr::Syntax { .. }), Out::Err(_)) => c.hit("rejected by both (syntax)"),
    (Err(RefErr::Conv(_)), Out::Err(_)) => c.hit("rejected by both (value)"),
    (Ok(_), Out::Err(e)) => c.viol("rejected", format!("a text of the grammar is rejected at {:?}: {}", e.loc, e.shown)),
    (Err(e), Out::Ok(_)) => c.viol("accepted", format!("a text outside the grammar is accepted (reference: {e:?})")),
    (_, Out::Panic(p)) => c.viol("panic", format!("panic: {p}")),
  }
}

pub fn p13() -> i32 {
  let s = Spec {
    id: "P13",
    rule: "random documents, one to three token/character edits of them and of the fixtures, truncations at every character, and noise; the verdict of the real parser is compared with that of an independent reference parser; non-trivial: every text (both verdicts are observed); distinct by text",
    gen: &|r, _, idx| edit_gen(r, idx),
    judge: &judge13,
    quick: 400_000,
    must: vec!["accepted by both", "rejected by both (syntax)", "rejected by both (value)"],
    assumptions: vec!["the reference parser states the documented syntax, with the spelling freedoms recorded in DESIGN.md".into()],
    fixed: fixtures("fixture"),
    threads: 8,
  };
  check(&s)
}

/// Line and column of a position: lines end at LF, columns count characters.
pub fn line_col(text: &str, pos: usize) -> (usize, usize) {
  let before = &text[..pos];
  let line = 1 + before.bytes().filter(|b| *b == b'\n').count();
  let start = before.rfind('\n').map(|i| i + 1).unwrap_or(0);
  (line, 1 + before[start..].chars().count())
}

pub fn excerpt(text: &str, pos: usize) -> String {
  let start = text[..pos].rfind('\n').map(|i| i + 1).unwrap_or(0);
  let end = text[pos..].find('\n').map(|i| pos + i).unwrap_or(text.len());
  plain_line(&text[start..end])
}
fn plain_line(s: &str) -> String {
  s.chars().filter(|c| !['\r', '\n', '␍', '␊'].contains(c)).collect()
}

/// Position, line, column and excerpt of an error agree with each other and with the text.
pub fn coherent(text: &str, e: &real::ErrInfo, c: &mut Cov) {
  let (a, z) = e.loc;
  if a > z || z > text.len() || !text.is_char_boundary(a) || !text.is_char_boundary(z) {
    c.viol("position outside the text", format!("error position {:?} in a text of {} bytes", e.loc, text.len()));
    return;
  }
  let lc = line_col(text, a);
  if e.lc.first() != Some(&lc) {
    c.viol("line and column", format!("error at byte {a} is reported as line/column {:?}, which is {:?}", e.lc.first(), lc));
  }
  if a < text.len() {
    let ex = excerpt(text, a);
    if plain_line(&e.line) != ex {
      c.viol("excerpt", format!("error at byte {a} shows the line {:?}, which is {:?}", e.line, ex));
    }
  }
  c.hit("positions cross-checked");
}

pub fn judge14(inp: &Input, c: &mut Cov) {
  let text = &inp.texts[0];
  let want = match refp::parse(text) {
    Ok(_) => return,
    Err(e) => e,
  };
  let e = match real::raw(text) {
    Out::Err(e) => e,
    _ => return,
  };
  c.nontrivial = true;
  coherent(text, &e, c);
  match want {
    RefErr::Syntax { lo, hi } => {
      c.hit("syntax error positions");
      if e.loc.0 < lo {
        c.viol("too early", format!("error position {:?} lies before the statement at {lo} that could not be completed", e.loc));
      }
      if e.loc.0 > hi {
        c.viol("too late", format!("error position {:?} lies after {hi}, the first character no reading gets past", e.loc));
      }
    }
    RefErr::Conv(v) => {
      c.hit("value error positions");
      if !v.iter().any(|(a, b)| e.loc == *a || Some(e.loc) == *b) {
        c.viol("wrong value", format!("error position {:?} is none of the values that cannot be converted {:?}", e.loc, v));
      }
      if e.msg.is_none() {
        c.viol("no reason", "a value that cannot be converted is reported without a reason");
      }
    }
  }
}

pub fn p14() -> i32 {
  let s = Spec {
    id: "P14",
    rule: "edited, truncated and random texts rejected by both parsers; the reported position is compared with the window the reference parser derives (start of the failing statement, furthest character examined), and line, column and excerpt with the text; non-trivial: rejected by both; distinct by text",
    gen: &|r, _, idx| edit_gen(r, idx),
    judge: &judge14,
    quick: 400_000,
    must: vec!["syntax error positions", "value error positions", "positions cross-checked"],
    assumptions: vec!["lines end at LF (as the error type counts them); columns count characters".into()],
    fixed: fixtures("fixture"),
    threads: 8,
  };
  check(&s)
}
