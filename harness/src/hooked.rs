//! Properties of the semantic index and of `get_table_refs` (P28, P29), reached through the hooks of /repo.

use crate::gensem;
use crate::model::*;
use crate::real;
use crate::refp;
use crate::refsem;
use crate::rng::Rng;
use crate::runner::*;
use crate::sem::{reference, respell_names, scale, text_of};
use crate::tree;

use dbml_rs::verif_hooks as hooks;

struct WantRel {
  /// Span, endpoints (None for the implied side of an inline relation).
  sp: Sp,
  key_r: String,
  key_l: Option<String>,
  lhs: refsem::Tab,
  lhs_cols: Vec<String>,
  rhs: refsem::Tab,
  inline: bool,
  settings: bool,
}

fn refid_key(schema: Option<&str>, table: &str, cols: &[String]) -> String {
  format!("{schema:?} {table:?} {cols:?}")
}

fn want_rels(d: &Doc) -> Vec<WantRel> {
  let n = refsem::names(d);
  let mut v = vec![];
  let rels = refsem::relations(d, &n);
  let mut written: Vec<(Option<&RefId>, &RefId)> = vec![];
  for x in d.refs() {
    written.push((Some(&x.lhs), &x.rhs));
  }
  for t in d.tables() {
    for c in &t.cols {
      for x in c.settings.iter().flat_map(|s| &s.refs) {
        written.push((None, &x.rhs));
      }
    }
  }
  let key = |x: &RefId| {
    let cols: Vec<String> = x.comps.iter().map(|c| c.val.clone()).collect();
    refid_key(x.schema.as_ref().map(|s| s.val.as_str()), &x.table.val, &cols)
  };
  for (r, w) in rels.iter().zip(written) {
    v.push(WantRel {
      sp: r.sp,
      key_r: format!("{} {}", r.rel.sym(), key(w.1)),
      key_l: w.0.map(key),
      lhs: r.lhs.table.clone(),
      lhs_cols: r.lhs.cols.iter().map(|c| c.val.clone()).collect(),
      rhs: r.rhs.table.clone(),
      inline: r.inline,
      settings: r.settings.is_some(),
    });
  }
  v
}

fn got_matches(w: &WantRel, rel: &dbml_rs::ast::Relation, l: &dbml_rs::ast::RefIdent, r: &dbml_rs::ast::RefIdent, span: &core::ops::Range<usize>, settings: bool, text: &str) -> Result<(), String> {
  let (l, r2) = (rrefid(l), rrefid(r));
  let key = |x: &RefId| {
    let cols: Vec<String> = x.comps.iter().map(|c| c.val.clone()).collect();
    refid_key(x.schema.as_ref().map(|s| s.val.as_str()), &x.table.val, &cols)
  };
  let kr = format!("{} {}", rrel(rel).sym(), key(&r2));
  if kr != w.key_r {
    return Err(format!("right side {kr}, expected {}", w.key_r));
  }
  match &w.key_l {
    Some(k) => {
      if key(&l) != *k {
        return Err(format!("left side {}, expected {k}", key(&l)));
      }
    }
    None => {
      let sch = l.schema.as_ref().map(|s| s.val.clone()).unwrap_or("public".into());
      let cols: Vec<String> = l.comps.iter().map(|c| c.val.clone()).collect();
      if (sch.clone(), l.table.val.clone()) != w.lhs || cols != w.lhs_cols {
        return Err(format!("inline relation starts at {sch}.{}.{cols:?}, expected {:?}.{:?}", l.table.val, w.lhs, w.lhs_cols));
      }
    }
  }
  if span.start != w.sp.0 || span.end < w.sp.1 || span.end > refp::trivia_end(text, w.sp) {
    return Err(format!("span {span:?}, expected {:?}", w.sp));
  }
  if settings != w.settings {
    return Err("settings lost or invented".into());
  }
  Ok(())
}

pub fn judge28(inp: &Input, c: &mut Cov) {
  let text = &inp.texts[0];
  let Some((d, _)) = reference(text) else { return };
  let want = want_rels(&d);
  let r = real::guard(|| {
    let mut bad: Vec<(String, String)> = vec![];
    let mut counts: Vec<(&'static str, u64)> = vec![];
    let mut seen = 0u64;
    let Ok(s) = dbml_rs::parse_dbml(text) else { return (bad, counts, false) };
    let Ok(a) = hooks::analyze(&s) else {
      bad.push(("analyze".into(), "the index cannot be built for a checked schema".into()));
      return (bad, counts, true);
    };
    for t in s.tables() {
      let me = (t.ident.schema.as_ref().map(|s| s.to_string.clone()).unwrap_or("public".into()), t.ident.name.to_string.clone());
      // the table as declared, and spelled with the default schema the other way round
      let mut idents = vec![t.ident.clone()];
      if me.0 == "public" {
        let mut o = t.ident.clone();
        o.schema = match o.schema {
          Some(_) => None,
          None => Some(dbml_rs::ast::Ident { span_range: 0..0, raw: "public".into(), to_string: "public".into() }),
        };
        idents.push(o);
      }
      for id in idents {
        let got = hooks::get_table_refs(&id, &a);
        for (what, list, sel) in [("outgoing", &got.ref_to, (true, false)), ("incoming", &got.ref_by, (false, true)), ("self", &got.ref_self, (true, true))] {
          let w: Vec<&WantRel> = want.iter().filter(|w| (w.lhs == me, w.rhs == me) == sel).collect();
          counts.push((what, w.len() as u64));
          seen += w.len() as u64;
          if w.len() != list.len() {
            bad.push((format!("{what} count"), format!("{} {what} relations of {me:?}, expected {}", list.len(), w.len())));
            continue;
          }
          for (w, g) in w.iter().zip(list) {
            if let Err(e) = got_matches(w, &g.rel, &g.lhs, &g.rhs, &g.span_range, g.settings.is_some(), text) {
              bad.push((format!("{what} relation"), format!("{what} relation of {me:?}: {e}")));
            }
          }
        }
      }
    }
    // a table that does not exist has no relations
    let none = dbml_rs::ast::TableIdent {
      name: dbml_rs::ast::Ident { span_range: 0..0, raw: "no such table".into(), to_string: "no such table !".into() },
      ..Default::default()
    };
    let g = hooks::get_table_refs(&none, &a);
    if g.ref_to.len() + g.ref_by.len() + g.ref_self.len() > 0 && !want.iter().any(|w| w.lhs.1 == "no such table !" || w.rhs.1 == "no such table !") {
      bad.push(("unknown table".into(), "a table that does not exist has relations".into()));
    }
    (bad, counts, seen > 0)
  });
  match r {
    Ok((bad, counts, nontrivial)) => {
      c.nontrivial = nontrivial;
      for (k, n) in counts {
        c.add(&format!("{k} relations compared"), n);
      }
      for (k, m) in bad {
        c.viol(k, m);
      }
    }
    Err(p) => c.viol("panic", p),
  }
}

#[cfg(feature = "hooks29")]
pub fn judge29(inp: &Input, c: &mut Cov) {
  let text = &inp.texts[0];
  let Some((d, _)) = reference(text) else { return };
  let want = want_rels(&d);
  let n = refsem::names(&d);
  #[allow(unused_variables, unused_mut, unused_assignments)]
  let r = real::guard(|| {
    let mut bad: Vec<(String, String)> = vec![];
    let mut q = 0u64;
    let Ok(s) = dbml_rs::parse_dbml(text) else { return (bad, 0, false) };
    let Ok(a) = hooks::analyze(&s) else {
      bad.push(("analyze".into(), "the index cannot be built for a checked schema".into()));
      return (bad, 0, true);
    };
    // every name of the document, and some that are not in it, in every role
    let mut names: Vec<String> = vec!["public".into(), "".into(), "no such name".into()];
    for ((s, t), x) in &n.tables {
      names.push(s.clone());
      names.push(t.clone());
      names.push(t.to_uppercase());
      names.extend(x.cols.iter().take(4).map(|c| c.name.val.clone()));
    }
    for ((s, t), x) in &n.enums {
      names.push(s.clone());
      names.push(t.clone());
      names.extend(x.values.iter().take(4).map(|c| c.name.val.clone()));
    }
    names.extend(n.aliases.keys().cloned());
    names.extend(n.aliases.keys().map(|a| format!("{a} ")));
    names.sort();
    names.dedup();
    names.truncate(40);
    let schemas: Vec<String> = n.schemas.iter().cloned().chain(["no such schema".to_string(), "Public".to_string(), "public".to_string()]).collect();
    let ident = |s: &str| dbml_rs::ast::Ident { span_range: 0..0, raw: s.to_string(), to_string: s.to_string() };
    for s in &schemas {
      for x in &names {
        q += 2;
        let key = (s.clone(), x.clone());
        #[cfg(feature = "q_table")]
        if a.indexer.contains_table(s, x) != n.tables.contains_key(&key) {
          bad.push(("contains_table".into(), format!("contains_table({s:?}, {x:?}) is {}", !n.tables.contains_key(&key))));
        }
        #[cfg(feature = "q_enum")]
        if a.indexer.contains_enum(s, x) != n.enums.contains_key(&key) {
          bad.push(("contains_enum".into(), format!("contains_enum({s:?}, {x:?}) is {}", !n.enums.contains_key(&key))));
        }
        #[cfg(feature = "q_value")]
        let sp = if s == "public" { vec![None, Some(s.clone())] } else { vec![Some(s.clone())] };
        #[cfg(feature = "q_value")]
        for so in sp {
          q += 1;
          let got = a.indexer.lookup_enum_values(&so, x, &names);
          let e = n.enums.get(&key);
          let w = (
            n.schemas.contains(s),
            (e.is_some(), names.iter().map(|v| e.is_some_and(|e| e.values.iter().any(|y| y.name.val == *v))).collect::<Vec<_>>()),
          );
          if got != w {
            bad.push(("lookup_enum_values".into(), format!("lookup_enum_values({so:?}, {x:?}, {names:?}) is {got:?}, expected {w:?}")));
          }
        }
      }
    }
    #[cfg(feature = "q_alias")]
    for x in &names {
      q += 1;
      let w = n.aliases.get(x);
      if a.indexer.resolve_alias(x) != w {
        bad.push(("resolve_alias".into(), format!("resolve_alias({x:?}) is {:?}, expected {w:?}", a.indexer.resolve_alias(x))));
      }
    }
    #[cfg(feature = "q_field")]
    for s in &schemas {
      for x in names.iter().take(12) {
        let t = n.tables.get(&(s.clone(), x.clone()));
        for f in names.iter().take(12).chain(t.iter().flat_map(|t| t.cols.iter().map(|c| &c.name.val))) {
          q += 1;
          let so = if s == "public" && f.len() % 2 == 0 { None } else { Some(ident(s)) };
          let got = a.indexer.lookup_table_fields(&so, &ident(x), &vec![ident(f)], text).is_ok();
          let w = t.is_some_and(|t| t.cols.iter().any(|c| c.name.val == *f));
          if got != w {
            bad.push(("lookup_table_fields".into(), format!("column {f:?} of {s:?}.{x:?} exists: {got}, expected {w}")));
          }
        }
      }
    }
    // all columns at once, and one too many
    #[cfg(feature = "q_field")]
    for ((s, x), t) in &n.tables {
      let mut all: Vec<_> = t.cols.iter().map(|c| ident(&c.name.val)).collect();
      if a.indexer.lookup_table_fields(&Some(ident(s)), &ident(x), &all, text).is_err() {
        bad.push(("lookup_table_fields".into(), format!("the columns of {s:?}.{x:?} are not all found")));
      }
      all.push(ident("no such column !"));
      if a.indexer.lookup_table_fields(&Some(ident(s)), &ident(x), &all, text).is_ok() {
        bad.push(("lookup_table_fields".into(), format!("a missing column of {s:?}.{x:?} is found")));
      }
    }
    // the relations
    #[cfg(feature = "q_rel")]
    if a.indexed_refs.len() != want.len() {
      bad.push(("relation count".into(), format!("{} relations, expected {}", a.indexed_refs.len(), want.len())));
    } else {
      for (w, g) in want.iter().zip(&a.indexed_refs) {
        if let Err(e) = got_matches(w, &g.rel, &g.lhs, &g.rhs, &g.span_range, g.settings.is_some(), text) {
          bad.push((if w.inline { "inline relation".into() } else { "relation".into() }, e));
        }
        // the resolved endpoints
        #[cfg(feature = "q_resolve")]
        for (side, ident, t) in [("left", &g.lhs, &w.lhs), ("right", &g.rhs, &w.rhs)] {
          q += 1;
          let x = rrefid(&a.indexer.resolve_ref_alias(ident));
          let got = (x.schema.map(|s| s.val).unwrap_or("public".into()), x.table.val);
          if got != *t {
            bad.push(("resolve_ref_alias".into(), format!("the {side} side resolves to {got:?}, expected {t:?}")));
          }
        }
      }
    }
    (bad, q, true)
  });
  match r {
    Ok((mut bad, q, nontrivial)) => {
      c.nontrivial = nontrivial;
      c.add("queries compared", q);
      if nontrivial {
        c.add("relations compared", want.len() as u64);
        c.add("inline relations compared", want.iter().filter(|w| w.inline).count() as u64);
        c.add("aliases", n.aliases.len() as u64);
        c.add("enums", n.enums.len() as u64);
        c.add("tables", n.tables.len() as u64);
      }
      bad.truncate(4);
      for (k, m) in bad {
        c.viol(k, m);
      }
    }
    Err(p) => c.viol("panic", p),
  }
}

fn valid_gen(r: &mut Rng, _: Tier, idx: u64) -> Vec<Input> {
  let sc = if idx % 150 == 149 { 40 } else { scale(r) };
  let mut d = gensem::valid(r, sc);
  if r.pct(40) {
    // not all names as the generator spells them; edits that stay valid
    for _ in 0..3 {
      let mut e = d.clone();
      gensem::edit(r, &mut e);
      if refsem::violations(&e).is_empty() {
        d = e;
      }
    }
    respell_names(r, &mut d);
  }
  vec![Input::one("valid document", text_of(&d, r))]
}

pub fn p28() -> i32 {
  let s = Spec {
    id: "P28",
    rule: "valid schemas; for every table (in both spellings of the default schema) the relations reported for it are compared, each and in order, with the partition computed from the reference tree; non-trivial: at least one relation lies on a table; distinct by text",
    gen: &valid_gen,
    judge: &judge28,
    quick: 120_000,
    must: vec!["outgoing relations compared", "incoming relations compared", "self relations compared"],
    assumptions: vec!["reached through the hook `dbml_rs::verif_hooks` (cfg dbml_verif)".into()],
    fixed: tree::corpus().iter().map(|(_, s)| Input::one("fixture", s.clone())).collect(),
    threads: 8,
  };
  check(&s)
}

#[cfg(feature = "hooks29")]
pub fn p29() -> i32 {
  let s = Spec {
    id: "P29",
    rule: "valid schemas; every query of the name index, for all names of the document in every role and for names that do not exist, is compared with the answer computed from the reference tree, and the relation list entry by entry; non-trivial: the schema passes the check; distinct by text",
    gen: &valid_gen,
    judge: &judge29,
    quick: 40_000,
    must: vec!["queries compared", "relations compared", "inline relations compared", "aliases", "enums", "tables"],
    assumptions: vec!["reached through the hook `dbml_rs::verif_hooks` (cfg dbml_verif)".into()],
    fixed: tree::corpus().iter().map(|(_, s)| Input::one("fixture", s.clone())).collect(),
    threads: 8,
  };
  check(&s)
}

/// Asks for the relations of every table; returns how many came back.
pub fn touch_queries(s: &dbml_rs::ast::SchemaBlock) -> u64 {
  let Ok(a) = hooks::analyze(s) else { return 0 };
  s.tables()
    .iter()
    .map(|t| {
      let r = hooks::get_table_refs(&t.ident, &a);
      (r.ref_to.len() + r.ref_by.len() + r.ref_self.len()) as u64
    })
    .sum()
}
