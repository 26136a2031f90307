//! Properties of the semantic check (P16-P26, P28, P29).

use crate::gensem;
use crate::model::*;
use crate::real::{self, ErrInfo, Out};
use crate::refp;
use crate::refsem::{self, Family, Rule, Rv};
use crate::render::LAYOUTS;
use crate::rng::Rng;
use crate::runner::*;
use crate::tree;

pub fn scale(r: &mut Rng) -> usize {
  match r.below(20) {
    0 => 12,
    1 => 20,
    _ => 1 + r.below(5),
  }
}

fn layout(r: &mut Rng) -> crate::render::Layout {
  *r.pick(&LAYOUTS)
}

pub fn text_of(d: &Doc, r: &mut Rng) -> String {
  let lay = layout(r);
  tree::render_checked(d, r, Some(lay)).text
}

/// Now and then moves the document far into the text, or lets it be followed by a lot.
pub fn pad(r: &mut Rng, text: String) -> String {
  if r.below(150) != 0 {
    return text;
  }
  let n = *r.pick(&[300usize, 4096, 32_768, 65_536, 66_000, 70_000, 140_000]);
  let p = match r.below(4) {
    0 => "\n".repeat(n),
    1 => format!("/*{}*/", "x".repeat(n)),
    2 => format!("//{}\n", "é".repeat(n / 2)),
    _ => " ".repeat(n),
  };
  if r.pct(65) {
    p + &text
  } else {
    format!("{text}\n{p}")
  }
}

/// Valid documents and edited ones, as texts. `family` steers the edits.
pub fn sem_gen(r: &mut Rng, idx: u64, family: Option<usize>, valid_pct: usize) -> Vec<Input> {
  if idx % 211 == 210 {
    let d = gensem::valid(r, 60);
    return vec![Input::one("large valid document", text_of(&d, r))];
  }
  let sc = scale(r);
  let base = gensem::valid(r, sc);
  let mut v = vec![];
  if r.pct(valid_pct) {
    let t = text_of(&base, r);
    v.push(Input::one("valid document", pad(r, t)));
  }
  for _ in 0..4 {
    let mut d = base.clone();
    let n = match r.below(10) {
      0 => 3,
      1 => 2,
      _ => 1,
    };
    let mut what = "";
    for _ in 0..n {
      what = match family {
        Some(f) if r.pct(85) => gensem::edit_of(r, &mut d, f),
        _ => gensem::edit(r, &mut d),
      };
    }
    let t = text_of(&d, r);
    v.push(Input::one(what, pad(r, t)));
  }
  v
}

/// The document and its violations by the reference check.
pub fn reference(text: &str) -> Option<(Doc, Vec<Rv>)> {
  let d = refp::parse(text).ok()?;
  let v = refsem::violations(&d);
  Some((d, v))
}

fn cov_v(c: &mut Cov, v: &[Rv], d: &Doc) {
  if v.is_empty() {
    c.hit("documents without violation");
    c.add("relations in them", (refsem::relations(d, &refsem::names(d)).len()) as u64);
  }
  let mut rules: Vec<Rule> = v.iter().filter(|x| x.must).map(|x| x.rule).collect();
  rules.sort();
  rules.dedup();
  if rules.len() == 1 {
    c.hit(&format!("only {:?}", rules[0]));
  }
}

fn list(v: &[Rv]) -> String {
  let mut s: Vec<String> = v.iter().map(|x| format!("{:?}@{:?}{}", x.rule, x.at.first().copied().unwrap_or_default(), if x.must { "" } else { "?" })).collect();
  s.dedup();
  s.truncate(6);
  s.join(", ")
}

/// Whether a rule belongs to the family; a default that is no value of the enum is also one that does not fit the type.
fn belongs(rule: Rule, fam: Family) -> bool {
  rule.family() == fam || fam == Family::Types && matches!(rule, Rule::EnumNotFound | Rule::EnumValueNotFound)
}

pub fn family_judge(inp: &Input, c: &mut Cov, fam: Family) {
  let text = &inp.texts[0];
  let Some((d, v)) = reference(text) else { return };
  let got = real::checked(text);
  c.hit("verdicts compared");
  cov_v(c, &v, &d);
  c.nontrivial = true;
  let of_fam: Vec<&Rv> = v.iter().filter(|x| belongs(x.rule, fam)).collect();
  match &got {
    Out::Ok(_) => {
      if let Some(x) = of_fam.iter().find(|x| x.must) {
        c.viol(format!("accepted {:?}", x.rule), format!("accepted although it breaks {:?} at {:?}", x.rule, x.at));
      }
    }
    Out::Err(e) => {
      if let Some(rule) = e.msg.as_deref().and_then(Rule::of_message) {
        if belongs(rule, fam) {
          c.hit(&format!("reported {rule:?}"));
          if of_fam.is_empty() {
            c.viol(format!("rejected {rule:?}"), format!("rejected with {:?} at {:?} although no rule of this kind is broken (broken: {})", e.msg, e.loc, list(&v)));
          }
        }
      }
    }
    Out::Panic(p) => c.viol("panic", format!("panic instead of a verdict: {p}")),
  }
}

pub fn judge17(inp: &Input, c: &mut Cov) {
  let text = &inp.texts[0];
  let Some((d, v)) = reference(text) else { return };
  let missing = v.iter().any(|x| x.rule == Rule::ProjectMissing);
  if !v.is_empty() && !missing {
    return;
  }
  c.nontrivial = true;
  c.hit("verdicts compared");
  cov_v(c, &v, &d);
  if v.is_empty() {
    for b in &d.blocks {
      c.hit(&format!("block {}", b.kind()));
    }
    let n = refsem::names(&d);
    for r in refsem::relations(&d, &n) {
      c.hit(&format!("relation {}{}", r.rel.sym(), if r.lhs.cols.len() > 1 { " composite" } else { "" }));
      if r.lhs.by_alias || r.rhs.by_alias {
        c.hit("relations by alias");
      }
      if r.inline {
        c.hit("inline relations");
      }
    }
  }
  match real::checked(text) {
    Out::Ok(_) => {
      if missing {
        c.viol("accepted without project", "accepted without a project");
      }
    }
    Out::Err(e) => {
      if !missing {
        c.viol(format!("rejected {}", real::rule_of(&e).unwrap_or_default()), format!("a schema that obeys the rules is rejected at {:?}: {:?}", e.loc, e.msg))
      }
    }
    Out::Panic(p) => c.viol("panic", format!("panic instead of a verdict: {p}")),
  }
}

const RULE_TXT: &str = "random schemas built to obey every rule (any number of tables, enums, relations in every form, groups, aliases, schemas, odd names and layouts), and one to three random edits of them around the rules (near misses included); the verdict of the checked parse is compared with the set of all violations found by an independent reference check; distinct by text";

fn only(rules: &[Rule]) -> Vec<String> {
  rules.iter().map(|r| format!("only {r:?}")).collect()
}

fn sem_spec<'a>(id: &'a str, gen: &'a GenFn, judge: &'a JudgeFn, quick: u64, must: Vec<&'a str>) -> Spec<'a> {
  Spec {
    id,
    rule: RULE_TXT,
    gen,
    judge,
    quick,
    must,
    assumptions: vec![
      "the reference check states the rules as listed in DESIGN.md; where they leave a verdict open, either one is accepted".into(),
    ],
    fixed: tree::corpus().iter().map(|(_, s)| Input::one("fixture", s.clone())).collect(),
    threads: 8,
  }
}

fn family_check(id: &str, fam: Family, f: usize, quick: u64) -> i32 {
  let rules: Vec<Rule> = refsem::RULES.iter().copied().filter(|r| belongs(*r, fam)).collect();
  let names = only(&rules);
  let must: Vec<&str> = names.iter().map(|s| s.as_str()).chain(["documents without violation"]).collect();
  let gen = move |r: &mut Rng, _: Tier, idx: u64| sem_gen(r, idx, Some(f), 10);
  let judge = move |i: &Input, c: &mut Cov| family_judge(i, c, fam);
  check(&sem_spec(id, &gen, &judge, quick, must))
}

pub fn judge18(i: &Input, c: &mut Cov) {
  family_judge(i, c, Family::Duplicate)
}
pub fn judge19(i: &Input, c: &mut Cov) {
  family_judge(i, c, Family::Dangling)
}
pub fn judge20(i: &Input, c: &mut Cov) {
  family_judge(i, c, Family::ForeignKey)
}
pub fn judge21(i: &Input, c: &mut Cov) {
  family_judge(i, c, Family::Conflict)
}
pub fn judge22(i: &Input, c: &mut Cov) {
  family_judge(i, c, Family::Keys)
}
pub fn judge23(i: &Input, c: &mut Cov) {
  family_judge(i, c, Family::Types)
}

pub fn p17() -> i32 {
  let gen = |r: &mut Rng, _: Tier, idx: u64| {
    if idx % 4 == 3 {
      return sem_gen(r, idx, None, 50);
    }
    if idx % 97 == 96 {
      let d = gensem::valid(r, 60);
      return vec![Input::one("large valid document", text_of(&d, r))];
    }
    let sc = scale(r);
    let d = gensem::valid(r, sc);
    (0..2).map(|_| Input::one("valid document", text_of(&d, r))).collect()
  };
  let must = vec![
    "documents without violation", "only ProjectMissing", "relation -", "relation <", "relation >", "relation <>", "relation > composite", "relation < composite",
    "relation - composite", "relation <> composite", "relations by alias", "inline relations", "block group", "block enum", "block note",
  ];
  check(&sem_spec("P17", &gen, &judge17, 100_000, must))
}
pub fn p18() -> i32 {
  family_check("P18", Family::Duplicate, 0, 90_000)
}
pub fn p19() -> i32 {
  family_check("P19", Family::Dangling, 1, 90_000)
}
pub fn p20() -> i32 {
  family_check("P20", Family::ForeignKey, 2, 90_000)
}
pub fn p21() -> i32 {
  family_check("P21", Family::Conflict, 3, 90_000)
}
pub fn p22() -> i32 {
  family_check("P22", Family::Keys, 4, 90_000)
}
pub fn p23() -> i32 {
  family_check("P23", Family::Types, 5, 90_000)
}

// ---------------------------------------------------------------- P24

fn points_at(text: &str, e: &ErrInfo, x: &Rv) -> bool {
  if matches!(x.rule, Rule::ProjectMissing | Rule::DupProject) {
    // the whole document, with or without surrounding trivia
    let mut f = 0;
    let first = refp::trivia(text.as_bytes(), 0, &mut f);
    return e.loc.0 <= first && e.loc.1 <= text.len() && refp::trivia_end(text, (0, e.loc.1)) == text.len();
  }
  x.at.iter().any(|s| e.loc.0 == s.0 && e.loc.1 >= s.1 && e.loc.1 <= refp::trivia_end(text, *s))
}

pub fn judge24(inp: &Input, c: &mut Cov) {
  let text = &inp.texts[0];
  let Some((_, v)) = reference(text) else { return };
  let Out::Err(e) = real::checked(text) else { return };
  c.nontrivial = true;
  c.hit("semantic errors examined");
  tree::coherent(text, &e, c);
  let Some(msg) = &e.msg else {
    c.viol("no message", format!("a semantic error without a message at {:?}", e.loc));
    return;
  };
  let Some(rule) = Rule::of_message(msg) else {
    c.viol("unknown rule", format!("the message {msg:?} names no rule"));
    return;
  };
  c.hit(&format!("reported {rule:?}"));
  let of: Vec<&Rv> = v.iter().filter(|x| x.rule == rule).collect();
  if of.is_empty() {
    c.viol(format!("wrong rule {rule:?}"), format!("{msg:?} at {:?}, but the document breaks only: {}", e.loc, list(&v)));
    return;
  }
  let at: Vec<&&Rv> = of.iter().filter(|x| points_at(text, &e, x)).collect();
  if at.is_empty() {
    c.viol(
      format!("wrong place {rule:?}"),
      format!("{msg:?} points at {:?} ({:?}), but the rule is broken at {}", e.loc, text.get(e.loc.0..e.loc.1).map(clip), list(&v)),
    );
    return;
  }
  if !at.iter().any(|x| x.quotes.iter().all(|q| match q.strip_prefix('\u{1}') {
    Some(q) => !msg.contains(q),
    None => msg.contains(q.as_str()),
  })) {
    c.viol(format!("wrong details {rule:?}"), format!("{msg:?} does not quote {:?}", at[0].quotes));
  }
  if at.iter().any(|x| !x.quotes.is_empty()) {
    c.hit("quoted details compared");
  }
}

pub fn p24() -> i32 {
  let gen = |r: &mut Rng, _: Tier, idx: u64| {
    let f = (idx % 6) as usize;
    sem_gen(r, idx, Some(f), 0)
  };
  let names: Vec<String> = refsem::RULES.iter().map(|r| format!("reported {r:?}")).collect();
  let must: Vec<&str> = names.iter().map(|s| s.as_str()).chain(["quoted details compared", "positions cross-checked"]).collect();
  check(&sem_spec("P24", &gen, &judge24, 100_000, must))
}

// ---------------------------------------------------------------- P16

fn debug_of(text: &str, checked: bool) -> Result<Result<String, (ErrInfo, String)>, String> {
  real::guard(|| {
    let r = if checked { dbml_rs::parse_dbml(text) } else { dbml_rs::parse_dbml_unchecked(text) };
    match r {
      Ok(s) => Ok(format!("{s:?}")),
      Err(e) => Err((real::info(&e), format!("{e:?}"))),
    }
  })
}

pub fn judge16(inp: &Input, c: &mut Cov) {
  let text = &inp.texts[0];
  let (Ok(raw), Ok(chk)) = (debug_of(text, false), debug_of(text, true)) else {
    c.viol("panic", "a parse panics");
    return;
  };
  c.nontrivial = true;
  match (raw, chk) {
    (Ok(a), Ok(b)) => {
      c.hit("accepted by both");
      if a != b {
        let at = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        let from = at.saturating_sub(60);
        let cutp = |s: &str| s.chars().skip(from).take(140).collect::<String>();
        c.viol("schema changed", format!("the checked parse reports another schema: unchecked …{} checked …{}", cutp(&a), cutp(&b)));
      }
    }
    (Ok(_), Err((e, _))) => {
      c.hit("rejected by the check only");
      match &e.msg {
        None => c.viol("syntax error on a parsed text", format!("the text parses, but the checked parse reports a syntax error at {:?}", e.loc)),
        Some(m) => {
          if Rule::of_message(m).is_some() {
            c.hit("rejected with a known rule");
          }
        }
      }
    }
    (Err(a), Err(b)) => {
      c.hit("rejected by both");
      if a.0.msg.is_some() {
        c.hit("rejected by both for a value");
      }
      if a != b {
        c.viol("error changed", format!("unchecked parse: {:?} at {:?}; checked parse: {:?} at {:?}", a.0.msg, a.0.loc, b.0.msg, b.0.loc));
      }
    }
    (Err(_), Ok(_)) => c.viol("accepted only when checked", "the checked parse accepts a text the unchecked parse rejects"),
  }
}

pub fn p16() -> i32 {
  let gen = |r: &mut Rng, _: Tier, idx: u64| match idx % 4 {
    0 => tree::edit_gen(r, idx / 4),
    1 => {
      let (_, o) = tree::gen_text(r, None);
      vec![Input::one("document", o.text)]
    }
    2 => sem_gen(r, idx, None, 60),
    _ => {
      // semantically interesting and syntactically broken
      let d = gensem::valid(r, 3);
      let lay = layout(r);
      let o = tree::render_checked(&d, r, Some(lay));
      (0..4)
        .map(|_| {
          let (s, k) = crate::mutate::edit(r, &o.text, &o.toks);
          Input::one(k, s)
        })
        .collect()
    }
  };
  let s = Spec {
    id: "P16",
    rule: "random, valid, edited and broken documents, each parsed with and without the check; the complete results are compared field by field (by their full debug rendering, and errors by message, place, line, column and excerpt); every text is non-trivial; distinct by text",
    gen: &gen,
    judge: &judge16,
    quick: 120_000,
    must: vec!["accepted by both", "rejected by the check only", "rejected by both", "rejected by both for a value", "rejected with a known rule"],
    assumptions: vec![],
    fixed: tree::corpus().iter().map(|(_, s)| Input::one("fixture", s.clone())).collect(),
    threads: 8,
  };
  check(&s)
}

// ---------------------------------------------------------------- P25

/// Respells references to tables and default schemas without changing their meaning.
pub fn respell_names(r: &mut Rng, d: &mut Doc) -> usize {
  let snap = d.clone();
  let n = refsem::names(&snap);
  let mut changes = 0;
  let default = |s: &Option<Id>| s.as_ref().is_none_or(|s| s.val == "public");
  // (schema, name) as written -> another spelling of what it means
  let mut spell = |r: &mut Rng, schema: &mut Option<Id>, name: &mut Id| {
    if !r.pct(70) {
      return;
    }
    let by_alias = if schema.is_none() { n.aliases.get(&name.val) } else { None };
    let tab = by_alias.cloned().unwrap_or_else(|| (schema.as_ref().map(|s| s.val.clone()).unwrap_or("public".into()), name.val.clone()));
    let mut opts: Vec<(Option<String>, String)> = vec![(Some(tab.0.clone()), tab.1.clone())];
    if tab.0 == "public" && !n.aliases.contains_key(&tab.1) {
      opts.push((None, tab.1.clone()));
    }
    for (a, t) in &n.aliases {
      if *t == tab && n.tables.contains_key(&tab) {
        opts.push((None, a.clone()));
      }
    }
    let (s, t) = r.pick(&opts).clone();
    if (s.as_deref(), t.as_str()) != (schema.as_ref().map(|s| s.val.as_str()), name.val.as_str()) {
      changes += 1;
    }
    *schema = s.map(|s| crate::gen::id_any(r, &s));
    *name = crate::gen::id_any(r, &t);
  };
  for b in &mut d.blocks {
    match b {
      Block::Ref(x) => {
        spell(r, &mut x.lhs.schema, &mut x.lhs.table);
        spell(r, &mut x.rhs.schema, &mut x.rhs.table);
      }
      Block::Group(g) => {
        for i in &mut g.items {
          spell(r, &mut i.schema, &mut i.name);
        }
      }
      Block::Table(t) => {
        for c in &mut t.cols {
          for x in c.settings.iter_mut().flat_map(|s| &mut s.refs) {
            spell(r, &mut x.rhs.schema, &mut x.rhs.table);
          }
        }
      }
      _ => (),
    }
  }
  for b in &mut d.blocks {
    let schema = match b {
      Block::Table(t) => &mut t.schema,
      Block::Enum(e) => &mut e.schema,
      _ => continue,
    };
    if default(schema) && r.pct(50) {
      *schema = if schema.is_none() { Some(crate::gen::id_any(r, "public")) } else { None };
      changes += 1;
    }
  }
  for b in &mut d.blocks {
    if let Block::Table(t) = b {
      for c in &mut t.cols {
        if default(&c.ty.schema) && refsem::known_type(&c.ty.base).is_none() && r.pct(50) {
          if c.ty.schema.is_some() {
            c.ty.schema = None;
            c.ty.name = c.ty.base.clone();
          } else {
            c.ty.schema = Some(crate::gen::id_any(r, "public"));
            c.ty.name = format!("public.{}", c.ty.base);
          }
          changes += 1;
        }
      }
    }
  }
  changes
}

fn kind_of(o: &Out<()>) -> String {
  match o {
    Out::Ok(_) => "accepted".into(),
    Out::Err(e) => match &e.msg {
      Some(m) => format!("rejected: {}", m.split(':').next().unwrap_or("").trim()),
      None => "rejected: syntax".into(),
    },
    Out::Panic(_) => "panic".into(),
  }
}

/// Two texts whose verdicts must agree; `kinds`: also the kind of error.
pub fn same_verdict(inp: &Input, c: &mut Cov, kinds: bool, what: &str) {
  let (a, b) = (real::checked(&inp.texts[0]), real::checked(&inp.texts[1]));
  if let (Out::Err(x), Out::Err(y)) = (&a, &b) {
    if x.msg.is_none() && y.msg.is_none() {
      return;
    }
  }
  c.nontrivial = true;
  let (ka, kb) = (kind_of(&a), kind_of(&b));
  c.hit(if ka == "accepted" { "pairs accepted" } else { "pairs rejected" });
  if ka != "accepted" {
    c.hit(&format!("pair {ka}"));
  }
  let same = if kinds { ka == kb } else { a.tag() == b.tag() };
  if !same || ka == "panic" {
    c.viol(format!("verdict {}", if kinds { "kind" } else { "" }), format!("{what}: {} / {}", a.brief(), b.brief()));
  }
}

pub fn judge25(inp: &Input, c: &mut Cov) {
  same_verdict(inp, c, true, "the same document in two spellings of its names gets two verdicts");
}

pub fn p25() -> i32 {
  let gen = |r: &mut Rng, _: Tier, _: u64| {
    let sc = scale(r);
    let mut d = gensem::valid(r, sc);
    let mut v = vec![];
    for k in 0..4 {
      if k > 0 {
        d = d.clone();
        gensem::edit(r, &mut d);
      }
      let mut e = d.clone();
      let n = respell_names(r, &mut e);
      if n == 0 {
        continue;
      }
      let lay = layout(r);
      let a = tree::render_checked(&d, r, Some(lay)).text;
      let b = tree::render_checked(&e, r, Some(lay)).text;
      v.push(Input::two("respelt names", a, b));
    }
    v
  };
  let s = Spec {
    id: "P25",
    rule: "pairs of documents that differ only in writing the default schema explicitly or not and in naming tables by alias, by name or by qualified name; both are checked and the verdicts and kinds of error compared; valid documents and documents with one to three edits; distinct by text",
    gen: &gen,
    judge: &judge25,
    quick: 45_000,
    must: vec!["pairs accepted", "pairs rejected"],
    assumptions: vec!["an unqualified name that is an alias means that alias's table".into()],
    fixed: vec![],
    threads: 8,
  };
  check(&s)
}

// ---------------------------------------------------------------- P26

pub fn permute(r: &mut Rng, d: &mut Doc) {
  let all = r.pct(50);
  let on = |r: &mut Rng| all || r.pct(30);
  if on(r) {
    r.shuffle(&mut d.blocks);
  }
  for b in &mut d.blocks {
    match b {
      Block::Table(t) => {
        if on(r) {
          r.shuffle(&mut t.cols);
        }
        for c in &mut t.cols {
          if let Some(s) = &mut c.settings {
            if on(r) {
              r.shuffle(&mut s.attrs);
              r.shuffle(&mut s.refs);
            }
          }
        }
        for x in t.indexes.iter_mut().flat_map(|x| &mut x.defs) {
          if let Some(s) = &mut x.settings {
            if on(r) {
              r.shuffle(&mut s.attrs);
            }
          }
        }
        if let Some(s) = &mut t.settings {
          if on(r) {
            r.shuffle(&mut s.attrs);
          }
        }
      }
      Block::Enum(e) => {
        if on(r) {
          r.shuffle(&mut e.values);
        }
        for v in &mut e.values {
          if let Some(s) = &mut v.settings {
            r.shuffle(&mut s.attrs);
          }
        }
      }
      Block::Group(g) => {
        if on(r) {
          r.shuffle(&mut g.items);
        }
        if let Some(s) = &mut g.settings {
          r.shuffle(&mut s.attrs);
        }
      }
      Block::Ref(x) => {
        if let Some(s) = &mut x.settings {
          r.shuffle(&mut s.attrs);
        }
      }
      Block::Project(p) => {
        if on(r) {
          r.shuffle(&mut p.props);
        }
      }
      Block::Note(_) => (),
    }
  }
  gensem::rederive(d);
}

pub fn judge26(inp: &Input, c: &mut Cov) {
  let rules = |t: &str| -> Option<Vec<Rule>> {
    let (_, v) = reference(t)?;
    let mut r: Vec<Rule> = v.iter().map(|x| x.rule).collect();
    r.sort();
    r.dedup();
    Some(r)
  };
  let (Some(a), Some(b)) = (rules(&inp.texts[0]), rules(&inp.texts[1])) else { return };
  // a duplicate key or name makes the meaning of the rest depend on order by itself: only the verdict counts then
  let single = a.len() <= 1 && a == b;
  if single {
    c.hit("pairs with at most one rule broken");
  }
  same_verdict(inp, c, single, "the same document in another order gets another verdict");
}

pub fn p26() -> i32 {
  let gen = |r: &mut Rng, _: Tier, _: u64| {
    let sc = scale(r);
    let base = gensem::valid(r, sc);
    let mut v = vec![];
    for k in 0..4 {
      let mut d = base.clone();
      if k > 0 {
        gensem::edit(r, &mut d);
        if r.pct(20) {
          gensem::edit(r, &mut d);
        }
      }
      let mut e = d.clone();
      permute(r, &mut e);
      let a = text_of(&d, r);
      let b = text_of(&e, r);
      v.push(Input::two("permuted", a, b));
    }
    v
  };
  let s = Spec {
    id: "P26",
    rule: "pairs of documents that differ only in the order of declarations, columns, enum values, group items, properties and attributes; both are checked and the verdicts compared, and the kinds of error where the reference check finds at most one rule broken; distinct by text",
    gen: &gen,
    judge: &judge26,
    quick: 45_000,
    must: vec!["pairs accepted", "pairs rejected", "pairs with at most one rule broken"],
    assumptions: vec![],
    fixed: vec![],
    threads: 8,
  };
  check(&s)
}

