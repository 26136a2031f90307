//! Properties decided by comparing runs of the real parser with each other (P11, P12, P15) and text conversions (P30).

use crate::gen;
use crate::gensem;
use crate::model::*;
use crate::mutate;
use crate::real::{self, Out};
use crate::refp;
use crate::render::{self, Layout, LAYOUTS};
use crate::rng::Rng;
use crate::runner::*;
use crate::tree;

fn verdict(o: &Out<()>) -> String {
  match o {
    Out::Ok(_) => "accepted".into(),
    Out::Err(e) => match &e.msg {
      Some(m) => format!("rejected: {}", m.split(':').next().unwrap_or("").trim()),
      None => "rejected: syntax".into(),
    },
    Out::Panic(_) => "panic".into(),
  }
}

/// The two texts, as the reference parser reads them: the same document, both rejected, or not comparable.
enum Same {
  Doc,
  Rejected,
  No,
}

fn norm(d: &mut Doc) {
  for b in &mut d.blocks {
    if let Block::Table(t) = b {
      for c in &mut t.cols {
        for a in c.settings.iter_mut().flat_map(|s| &mut s.attrs) {
          if a.key.val == "primary key" {
            a.key.val = "pk".into();
          }
        }
      }
    }
  }
}

fn same_by_reference(a: &str, b: &str, raws: bool) -> Same {
  match (refp::parse(a), refp::parse(b)) {
    (Ok(mut x), Ok(mut y)) => {
      if !raws {
        norm(&mut x);
        norm(&mut y);
      }
      if compare(&x, &y, raws).is_empty() {
        Same::Doc
      } else {
        Same::No
      }
    }
    (Err(refp::RefErr::Syntax { .. }), Err(refp::RefErr::Syntax { .. })) => Same::Rejected,
    (Err(refp::RefErr::Conv(_)), Err(refp::RefErr::Conv(_))) => Same::Rejected,
    _ => Same::No,
  }
}

fn compare(x: &Doc, y: &Doc, raws: bool) -> Vec<Diff> {
  let mut diffs = vec![];
  let opts = if raws { NO_SPANS } else { VALUES };
  diff(&facts(x), &facts(y), opts, &|s| s.1, &mut diffs);
  // the raw text of a type holds its own layout
  diffs.retain(|d| !(d.kind == DKind::Raw && d.path.ends_with("/type")));
  diffs
}

fn pair_judge(inp: &Input, c: &mut Cov, raws: bool) {
  let (a, b) = (&inp.texts[0], &inp.texts[1]);
  if a == b {
    return;
  }
  let same = same_by_reference(a, b, raws);
  if let Same::No = same {
    c.hit("pairs that are not comparable");
    return;
  }
  c.nontrivial = true;
  c.hit(&format!("pairs: {}", inp.kind));
  let (ra, rb) = (real::raw(a), real::raw(b));
  match (&ra, &rb) {
    (Out::Ok(x), Out::Ok(y)) => {
      c.hit("trees compared");
      let (mut x, mut y) = (x.clone(), y.clone());
      if !raws {
        norm(&mut x);
        norm(&mut y);
      }
      for d in compare(&x, &y, raws).iter().take(3) {
        let leaf: String = d.path.split('/').filter(|p| !p.starts_with('[')).collect::<Vec<_>>().join("/");
        c.viol(format!("{:?} {}", d.kind, leaf), format!("two texts of the same document give different results: {}", d.show()));
      }
    }
    (Out::Err(x), Out::Err(y)) => {
      c.hit("pairs rejected");
      if x.msg.is_some() != y.msg.is_some() {
        c.viol("kind of rejection", format!("two texts of the same document: {} / {}", ra.brief(), rb.brief()));
      }
    }
    _ => c.viol("acceptance", format!("two texts of the same document: {} / {}", ra.brief(), rb.brief())),
  }
  let (va, vb) = (real::checked(a), real::checked(b));
  let (ka, kb) = (verdict(&va), verdict(&vb));
  c.hit(&format!("verdict {}", if ka.starts_with("rejected: s") || ka == "accepted" { ka.as_str() } else { "rejected: rule" }));
  if ka != kb || ka == "panic" {
    c.viol("verdict", format!("two texts of the same document: {} / {}", va.brief(), vb.brief()));
  }
}

// ---------------------------------------------------------------- P11

/// Replaces the trivia between the tokens of any text.
fn refill(r: &mut Rng, s: &str, toks: &[Sp]) -> String {
  let mut o = String::new();
  let mut at = 0;
  let keep = *r.pick(&[0, 0, 30, 90]);
  let style = r.below(6);
  let gap = |r: &mut Rng, g: &str, o: &mut String| {
    let mut far = 0;
    // only what is wholly trivia is replaced
    if g.is_empty() || refp::trivia(g.as_bytes(), 0, &mut far) != g.len() || r.pct(keep) {
      o.push_str(g);
      return;
    }
    match style {
      0 => o.push(' '),
      1 => o.push('\n'),
      2 => o.push_str("\r\n"),
      3 => o.push('\t'),
      _ => o.push_str(&render::some_trivia(r)),
    }
  };
  for t in toks {
    if t.0 < at {
      continue;
    }
    gap(r, &s[at..t.0], &mut o);
    o.push_str(&s[t.0..t.1]);
    at = t.1;
  }
  gap(r, &s[at..], &mut o);
  o
}

fn two_layouts(r: &mut Rng, d: &Doc) -> (String, String) {
  let la = *r.pick(&LAYOUTS);
  let lb = if r.pct(60) { Layout::Wild } else { *r.pick(&LAYOUTS) };
  let s = Rng::new(r.next());
  let (kc, ow) = (r.pct(30), r.pct(25));
  let a = render::render_tokens(d, la, Rng::new(r.next()), s.clone(), kc, ow);
  let b = render::render_tokens(d, lb, Rng::new(r.next()), s, kc, ow);
  tree::self_check(d, &a.text);
  tree::self_check(d, &b.text);
  (a.text, b.text)
}

pub fn judge11(inp: &Input, c: &mut Cov) {
  pair_judge(inp, c, true)
}

pub fn p11() -> i32 {
  let gen = |r: &mut Rng, _: Tier, idx: u64| -> Vec<Input> {
    match idx % 6 {
      0 | 1 => {
        let d = if idx % 122 == 120 { gen::doc_n(r, gen::Taste::Mixed, 120) } else { gen::doc(r) };
        let (a, b) = two_layouts(r, &d);
        vec![Input::two("document in two layouts", a, b)]
      }
      2 | 3 => {
        let sc = 1 + r.below(4);
        let mut d = gensem::valid(r, sc);
        let mut v = vec![];
        for k in 0..3 {
          if k > 0 {
            gensem::edit(r, &mut d);
          }
          let (a, b) = two_layouts(r, &d);
          v.push(Input::two("schema in two layouts", a, b));
        }
        v
      }
      4 => {
        let n = 1 + r.below(3);
        let d = gen::doc_n(r, gen::Taste::Mixed, n);
        let lay = *r.pick(&[Layout::Pretty, Layout::Spaces, Layout::Wild]);
        let o = tree::render_checked(&d, r, Some(lay));
        (0..4)
          .map(|_| {
            let (s, _) = mutate::edit(r, &o.text, &o.toks);
            let toks = mutate::lex(&s);
            let b = refill(r, &s, &toks);
            Input::two("edited text refilled", s, b)
          })
          .collect()
      }
      _ => {
        if tree::corpus().is_empty() {
          return vec![];
        }
        let (_, s) = r.pick(tree::corpus());
        let toks = mutate::lex(s);
        let b = refill(r, s, &toks);
        vec![Input::two("fixture refilled", s.clone(), b)]
      }
    }
  };
  check(&Spec {
    id: "P11",
    rule: "pairs of texts with the same tokens and different whitespace and comments (random documents and schemas in two of five layouts, edited texts and fixtures with their gaps refilled); the reference parser confirms that both are the same document (or both malformed), then the two real results are compared fact by fact, and the two verdicts of the check; distinct by texts",
    gen: &gen,
    judge: &judge11,
    quick: 60_000,
    must: vec![
      "trees compared", "pairs rejected", "verdict accepted", "verdict rejected: syntax", "verdict rejected: rule",
      "pairs: document in two layouts", "pairs: schema in two layouts", "pairs: edited text refilled", "pairs: fixture refilled",
    ],
    assumptions: vec!["which places may hold trivia is stated by the reference parser".into()],
    fixed: tree::corpus()
      .iter()
      .flat_map(|(_, s)| {
        let crlf = s.replace("\r\n", "\n").replace('\n', "\r\n");
        let mut r = Rng::new(s.len() as u64);
        let toks = mutate::lex(s);
        [Input::two("fixture with CRLF", s.clone(), crlf), Input::two("fixture refilled", s.clone(), refill(&mut r, s, &toks))]
      })
      .collect(),
    threads: 8,
  })
}

// ---------------------------------------------------------------- P12

fn each_id(d: &mut Doc, f: &mut dyn FnMut(&mut Id)) {
  fn rid(x: &mut RefId, f: &mut dyn FnMut(&mut Id)) {
    if let Some(s) = &mut x.schema {
      f(s)
    }
    f(&mut x.table);
    x.comps.iter_mut().for_each(|i| f(i));
  }
  for b in &mut d.blocks {
    match b {
      Block::Project(p) => f(&mut p.name),
      Block::Table(t) => {
        t.schema.iter_mut().for_each(|i| f(i));
        f(&mut t.name);
        t.alias.iter_mut().for_each(|i| f(i));
        for c in &mut t.cols {
          f(&mut c.name);
          c.ty.schema.iter_mut().for_each(|i| f(i));
          for x in c.settings.iter_mut().flat_map(|s| &mut s.refs) {
            rid(&mut x.rhs, f);
          }
        }
        for x in t.indexes.iter_mut().flat_map(|i| &mut i.defs).flat_map(|d| &mut d.cols) {
          if let IdxCol::Name(i) = x {
            f(i)
          }
        }
      }
      Block::Enum(e) => {
        e.schema.iter_mut().for_each(|i| f(i));
        f(&mut e.name);
        e.values.iter_mut().for_each(|v| f(&mut v.name));
      }
      Block::Ref(x) => {
        x.name.iter_mut().for_each(|i| f(i));
        rid(&mut x.lhs, f);
        rid(&mut x.rhs, f);
      }
      Block::Group(g) => {
        f(&mut g.name);
        for i in &mut g.items {
          i.schema.iter_mut().for_each(|i| f(i));
          f(&mut i.name);
        }
      }
      Block::Note(_) => (),
    }
  }
}

fn each_lit(d: &mut Doc, f: &mut dyn FnMut(&mut Lit)) {
  fn set(s: &mut Option<Settings>, f: &mut dyn FnMut(&mut Lit)) {
    for a in s.iter_mut().flat_map(|s| &mut s.attrs) {
      a.val.iter_mut().for_each(|l| f(l));
    }
  }
  fn note(n: &mut Option<Note>, f: &mut dyn FnMut(&mut Lit)) {
    n.iter_mut().for_each(|n| f(&mut n.lit));
  }
  for b in &mut d.blocks {
    match b {
      Block::Project(p) => {
        for a in &mut p.props {
          a.val.iter_mut().for_each(|l| f(l));
        }
        note(&mut p.note, f);
      }
      Block::Table(t) => {
        set(&mut t.settings, f);
        note(&mut t.note, f);
        for c in &mut t.cols {
          set(&mut c.settings, f);
        }
        for x in t.indexes.iter_mut().flat_map(|i| &mut i.defs) {
          set(&mut x.settings, f);
        }
      }
      Block::Enum(e) => e.values.iter_mut().for_each(|v| set(&mut v.settings, f)),
      Block::Ref(x) => set(&mut x.settings, f),
      Block::Group(g) => {
        set(&mut g.settings, f);
        note(&mut g.note, f);
      }
      Block::Note(n) => f(&mut n.lit),
    }
  }
}

/// Writes the same document otherwise; returns how much was changed.
fn respell(r: &mut Rng, d: &mut Doc) -> usize {
  let mut n = 0;
  let (ids, lits, forms, keys, types) = (r.pct(60), r.pct(60), r.pct(60), r.pct(60), r.pct(50));
  if ids {
    each_id(d, &mut |i| {
      if r.pct(60) {
        let x = if i.raw.starts_with('"') && gen::is_var(&i.val) { gen::bare(&i.val) } else { gen::quoted(&i.val) };
        n += (x.raw != i.raw) as usize;
        *i = x;
      }
    });
  }
  if lits {
    each_lit(d, &mut |l| {
      if !r.pct(70) {
        return;
      }
      let inner = if let Some(s) = l.raw.strip_prefix("'''").and_then(|s| s.strip_suffix("'''")) {
        s.to_string()
      } else if let Some(s) = l.raw.strip_prefix('\'').and_then(|s| s.strip_suffix('\'')) {
        s.to_string()
      } else {
        return;
      };
      let was = l.raw.clone();
      if l.raw.starts_with("'''") && !inner.contains('\'') {
        *l = gen::single(&inner);
      } else if !l.raw.starts_with("'''") {
        *l = gen::triple(&inner);
      }
      n += (was != l.raw) as usize;
    });
  }
  for b in &mut d.blocks {
    match b {
      Block::Ref(x) if forms => {
        let was = x.block;
        x.block = r.pct(50);
        n += (x.block != was) as usize;
        for e in [&mut x.lhs, &mut x.rhs] {
          if e.comps.len() == 1 {
            let p = r.pct(50);
            n += (p != e.paren) as usize;
            e.paren = p;
          }
        }
      }
      Block::Note(x) if forms => {
        let was = x.block;
        x.block = r.pct(50);
        n += (x.block != was) as usize;
      }
      Block::Project(p) if forms => {
        for x in p.note.iter_mut() {
          x.block = r.pct(50);
        }
      }
      Block::Group(p) if forms => {
        for x in p.note.iter_mut() {
          x.block = r.pct(50);
        }
      }
      Block::Table(t) => {
        if forms {
          if let Some(x) = t.note.as_mut() {
            let was = x.block;
            x.block = r.pct(50);
            n += (x.block != was) as usize;
          }
          for x in t.indexes.iter_mut().flat_map(|i| &mut i.defs) {
            if x.cols.len() == 1 {
              let p = r.pct(50);
              n += (p != x.multi) as usize;
              x.multi = p;
            }
          }
        }
        for c in &mut t.cols {
          if types && !c.ty.args.iter().any(|a| a.raw.contains('"')) && r.pct(50) {
            let q = !gen::is_var(&c.ty.base) || r.pct(50);
            let inner = r.below(c.ty.arrays.len() + 1);
            n += (q != c.ty.quoted || q && inner != c.ty.inner) as usize;
            c.ty.quoted = q;
            c.ty.inner = inner;
          }
          let Some(s) = c.settings.as_mut() else { continue };
          if forms {
            for x in &mut s.refs {
              if x.rhs.comps.len() == 1 {
                let p = r.pct(50);
                n += (p != x.rhs.paren) as usize;
                x.rhs.paren = p;
              }
            }
          }
          if keys && s.attrs.iter().filter(|a| a.key.val == "pk" || a.key.val == "primary key").count() == 1 {
            for a in &mut s.attrs {
              if a.key.val == "pk" || a.key.val == "primary key" {
                let k = if r.pct(50) { "pk" } else { "primary key" };
                n += (a.key.val != k) as usize;
                a.key = gen::bare(k);
              }
            }
          }
        }
      }
      _ => (),
    }
  }
  n
}

pub fn judge12(inp: &Input, c: &mut Cov) {
  pair_judge(inp, c, false)
}

pub fn p12() -> i32 {
  let gen = |r: &mut Rng, _: Tier, idx: u64| -> Vec<Input> {
    let (kind, docs) = match idx % 3 {
      0 => ("document respelt", vec![gen::doc(r)]),
      1 => {
        let sc = 1 + r.below(4);
        let mut d = gensem::valid(r, sc);
        let mut v = vec![d.clone()];
        for _ in 0..2 {
          gensem::edit(r, &mut d);
          v.push(d.clone());
        }
        ("schema respelt", v)
      }
      _ => {
        if tree::corpus().is_empty() {
          return vec![];
        }
        let (_, s) = r.pick(tree::corpus());
        match refp::parse(s) {
          Ok(d) => ("fixture respelt", vec![d]),
          Err(_) => return vec![],
        }
      }
    };
    let mut out = vec![];
    for d in docs {
      let mut e = d.clone();
      let n = respell(r, &mut e);
      let case = r.pct(40);
      if n == 0 && !case {
        continue;
      }
      let lay = *r.pick(&LAYOUTS);
      let s = Rng::new(r.next());
      let g = Rng::new(r.next());
      let a = render::render_tokens(&d, lay, g.clone(), s.clone(), false, false).text;
      let b = render::render_tokens(&e, lay, g, if case { Rng::new(r.next()) } else { s }, case, false).text;
      out.push(Input::two(kind, a, b));
    }
    out
  };
  check(&Spec {
    id: "P12",
    rule: "pairs of documents that differ in spelling only (keyword case, short/block notes and relations, bare/quoted names and types, single/triple quotes, bare/parenthesised columns, pk/primary key, order of members that are reported apart); the reference parser confirms that both are the same document, then the values of the two real results and the two verdicts are compared; distinct by texts",
    gen: &gen,
    judge: &judge12,
    quick: 60_000,
    must: vec!["trees compared", "verdict accepted", "verdict rejected: rule", "pairs: document respelt", "pairs: schema respelt", "pairs: fixture respelt"],
    assumptions: vec![],
    fixed: vec![],
    threads: 8,
  })
}

// ---------------------------------------------------------------- P15

fn shift(n: &Node, by: usize) -> Node {
  let mut m = n.clone();
  if m.spk != SpKind::None {
    m.sp = (m.sp.0 + by, m.sp.1 + by);
  }
  m.kids = m.kids.iter().map(|k| shift(k, by)).collect();
  m
}

/// The texts are parts; their concatenation must give the concatenation of their results.
pub fn judge15(inp: &Input, c: &mut Cov) {
  let joined = inp.texts.join("\n");
  let mut want = vec![];
  let mut at = 0;
  let mut bad = false;
  for t in &inp.texts {
    match refp::parse(t) {
      Ok(_) => (),
      Err(_) => bad = true,
    }
    if !bad {
      match real::raw(t) {
        Out::Ok(d) => want.extend(facts(&d).kids.iter().map(|k| shift(k, at))),
        // a well-formed part that is rejected alone: another property
        _ => return,
      }
    }
    at += t.len() + 1;
  }
  let got = real::raw(&joined);
  if bad {
    // a part may be malformed alone and well formed together (say, an open comment)
    if refp::parse(&joined).is_ok() {
      return;
    }
    c.nontrivial = true;
    c.hit("documents with a malformed part");
    match got {
      Out::Err(_) => (),
      Out::Ok(d) => c.viol("malformed part accepted", format!("a document with a malformed part is accepted ({} declarations)", d.blocks.len())),
      Out::Panic(p) => c.viol("panic", p),
    }
    return;
  }
  c.nontrivial = inp.texts.len() > 1;
  c.hit("concatenations compared");
  c.add("parts", inp.texts.len() as u64);
  c.max("parts", inp.texts.len() as u64);
  c.max("bytes", joined.len() as u64);
  match got {
    Out::Ok(d) => {
      let got = facts(&d);
      if got.kids.len() != want.len() {
        c.viol("number of declarations", format!("{} declarations together, {} apart", got.kids.len(), want.len()));
        return;
      }
      let te = |s: Sp| refp::trivia_end(&joined, s);
      for (i, (w, g)) in want.iter().zip(&got.kids).enumerate() {
        let mut diffs = vec![];
        diff(w, g, FULL, &te, &mut diffs);
        if let Some(x) = diffs.first() {
          c.viol(format!("declaration changed {:?}", x.kind), format!("declaration {i} is reported differently in company: {}", x.show()));
          return;
        }
      }
    }
    Out::Err(e) => c.viol("rejected together", format!("well-formed parts are rejected together at {:?}: {}", e.loc, e.msg.unwrap_or_default())),
    Out::Panic(p) => c.viol("panic", p),
  }
}

pub fn p15() -> i32 {
  let gen = |r: &mut Rng, _: Tier, idx: u64| -> Vec<Input> {
    let big = idx % 101 == 100;
    let n = if big { 150 + r.below(400) } else { 2 + r.below(6) };
    let mut parts = vec![];
    for _ in 0..n {
      let t = match r.below(20) {
        0 => String::new(),
        1 if !big && !tree::corpus().is_empty() => r.pick(tree::corpus()).1.clone(),
        2 => parts.last().cloned().unwrap_or_default(),
        _ => {
          let k = 1 + (r.below(10) == 0) as usize;
          let ta = *r.pick(&[gen::Taste::Plain, gen::Taste::Mixed, gen::Taste::Odd]);
          let d = gen::doc_n(r, ta, k);
          let lay = *r.pick(&LAYOUTS);
          tree::render_checked(&d, r, Some(lay)).text
        }
      };
      parts.push(t);
    }
    let whole = Input { kind: "parts".into(), texts: parts.clone(), args: vec![] };
    let mut v = vec![whole];
    // without one of them
    let mut fewer = parts.clone();
    fewer.remove(r.below(n));
    v.push(Input { kind: "parts".into(), texts: fewer, args: vec![] });
    // one of them malformed, first, last or anywhere
    for _ in 0..2 {
      let mut p = parts.clone();
      let k = r.below(n);
      let i = *r.pick(&[0, n - 1, k]);
      let toks = mutate::lex(&p[i]);
      p[i] = mutate::edit(r, &p[i], &toks).0;
      v.push(Input { kind: "parts with an edit".into(), texts: p, args: vec![] });
    }
    v
  };
  check(&Spec {
    id: "P15",
    rule: "sequences of 2 to 550 random well-formed parts (and of the same without one, and with one edited); the real result of the whole is compared with the concatenated real results of the parts, shifted; non-trivial: more than one part; distinct by parts",
    gen: &gen,
    judge: &judge15,
    quick: 60_000,
    must: vec!["concatenations compared", "documents with a malformed part"],
    assumptions: vec!["whether a part is well formed alone is stated by the reference parser".into()],
    fixed: vec![Input { kind: "parts".into(), texts: tree::corpus().iter().map(|x| x.1.clone()).collect(), args: vec![] }],
    threads: 8,
  })
}

// ---------------------------------------------------------------- P30

use dbml_rs::ast;
use std::str::FromStr;

const TYPE_TABLE: [(&str, ast::ColumnTypeName); 57] = {
  use ast::ColumnTypeName::*;
  [
    ("bit", Bit),
    ("varbit", Varbit),
    ("bit varying", Varbit),
    ("char", Char),
    ("character", Char),
    ("varchar", VarChar),
    ("character varying", VarChar),
    ("box", Box),
    ("cidr", Cidr),
    ("circle", Circle),
    ("inet", Inet),
    ("line", Line),
    ("lseg", LineSegment),
    ("macaddr", MacAddr),
    ("macaddr8", MacAddr8),
    ("money", Money),
    ("path", Path),
    ("pg_lsn", PGLongSequenceNumber),
    ("pg_snapshot", PGSnapshot),
    ("point", Point),
    ("polygon", Polygon),
    ("tsquery", TSQuery),
    ("tsvector", TSVector),
    ("smallserial", SmallSerial),
    ("serial2", SmallSerial),
    ("serial", Serial),
    ("serial4", Serial),
    ("bigserial", BigSerial),
    ("serial8", BigSerial),
    ("smallint", SmallInt),
    ("int2", SmallInt),
    ("integer", Integer),
    ("int", Integer),
    ("int4", Integer),
    ("bigint", BigInt),
    ("int8", BigInt),
    ("real", Real),
    ("float4", Real),
    ("double precision", DoublePrecision),
    ("float8", DoublePrecision),
    ("bool", Bool),
    ("boolean", Bool),
    ("bytea", ByteArray),
    ("date", Date),
    ("text", Text),
    ("time", Time),
    ("time without time zone", Time),
    ("timetz", Timetz),
    ("time with time zone", Timetz),
    ("timestamp", Timestamp),
    ("timestamp without time zone", Timestamp),
    ("timestamptz", Timestamptz),
    ("timestamp with time zone", Timestamptz),
    ("uuid", Uuid),
    ("json", Json),
    ("jsonb", Jsonb),
    ("xml", Xml),
  ]
};
const MORE_TYPES: [(&str, ast::ColumnTypeName); 2] = [("decimal", ast::ColumnTypeName::Decimal), ("numeric", ast::ColumnTypeName::Decimal)];

pub fn judge30(inp: &Input, c: &mut Cov) {
  c.nontrivial = true;
  let s = inp.texts[0].as_str();
  let r = real::guard(|| judge30_inner(s, inp));
  match r {
    Ok((cov, viols)) => {
      for k in cov {
        c.hit(k);
      }
      for (sig, m) in viols {
        c.viol(sig, m);
      }
    }
    Err(p) => c.viol("panic", format!("a conversion panics on {s:?}: {p}")),
  }
}

fn judge30_inner(s: &str, inp: &Input) -> (Vec<&'static str>, Vec<(String, String)>) {
  let mut cov = vec![];
  let mut v: Vec<(String, String)> = vec![];
  let want = TYPE_TABLE.iter().chain(&MORE_TYPES).find(|x| x.0 == s).map(|x| format!("{:?}", x.1));
  let got = ast::ColumnTypeName::from_str(s).ok().map(|t| format!("{t:?}"));
  cov.push(if want.is_some() { "type names" } else { "other texts as type names" });
  if want != got {
    v.push(("type".into(), format!("the text {s:?} converts to the type {got:?}, expected {want:?}")));
  }
  let want = match s {
    "<" => Some(Rel::OneMany),
    ">" => Some(Rel::ManyOne),
    "-" => Some(Rel::OneOne),
    "<>" => Some(Rel::ManyMany),
    _ => None,
  };
  if want.is_some() {
    cov.push("relation symbols");
  }
  let got = ast::Relation::from_str(s).ok().map(|x| rrel(&x));
  if want != got {
    v.push(("relation".into(), format!("the text {s:?} converts to the relation {got:?}, expected {want:?}")));
  }
  let want = match s {
    "btree" => Some("BTree"),
    "gin" => Some("Gin"),
    "gist" => Some("Gist"),
    "hash" => Some("Hash"),
    _ => None,
  };
  if want.is_some() {
    cov.push("index types");
  }
  let got = ast::IndexesType::from_str(s).ok().map(|x| match x {
    ast::IndexesType::BTree => "BTree",
    ast::IndexesType::Gin => "Gin",
    ast::IndexesType::Gist => "Gist",
    ast::IndexesType::Hash => "Hash",
  });
  if want != got {
    v.push(("index type".into(), format!("the text {s:?} converts to the index type {got:?}, expected {want:?}")));
  }
  let want = ACTIONS.contains(&s).then(|| s.to_string());
  if want.is_some() {
    cov.push("actions");
  }
  let act = ast::ReferentialAction::from_str(s).ok();
  let name = act.as_ref().map(|a| {
    use ast::ReferentialAction::*;
    match a {
      NoAction => "no action",
      Cascade => "cascade",
      Restrict => "restrict",
      SetNull => "set null",
      SetDefault => "set default",
    }
    .to_string()
  });
  if want != name {
    v.push(("action".into(), format!("the text {s:?} converts to the action {name:?}, expected {want:?}")));
  }
  if let Some(a) = &act {
    let back = a.to_string();
    if back != s {
      v.push(("action to text".into(), format!("the action of {s:?} converts to the text {back:?}")));
    }
  }
  match ast::DatabaseType::from_str(s) {
    Ok(ast::DatabaseType::PostgreSQL) => {
      cov.push("database types");
      if s != "PostgreSQL" {
        v.push(("database type".into(), format!("the text {s:?} converts to PostgreSQL")));
      }
    }
    Ok(ast::DatabaseType::Unknown(t)) => {
      if s == "PostgreSQL" || t != s {
        v.push(("database type".into(), format!("the text {s:?} converts to the unknown database type {t:?}")));
      }
    }
    #[allow(unreachable_patterns)]
    _ => v.push(("database type".into(), format!("the text {s:?} does not convert to a database type"))),
  }
  let want = match s {
    "true" => Some(Val::Bool(true)),
    "false" => Some(Val::Bool(false)),
    "null" => Some(Val::Null),
    _ => None,
  };
  if want.is_some() {
    cov.push("words of values");
  }
  let got = ast::Value::from_str(s).ok();
  if want != got.as_ref().map(rval) {
    v.push(("value".into(), format!("the text {s:?} converts to the value {got:?}, expected {want:?}")));
  }
  // values to text
  let mut vals: Vec<(ast::Value, String)> = vec![
    (ast::Value::Enum(s.into()), s.into()),
    (ast::Value::String(s.into()), s.into()),
    (ast::Value::HexColor(s.into()), s.into()),
    (ast::Value::Expr(s.into()), s.into()),
    (ast::Value::Bool(true), "true".into()),
    (ast::Value::Bool(false), "false".into()),
    (ast::Value::Null, "null".into()),
  ];
  if let Some(i) = inp.args.first().and_then(|a| a.parse::<i64>().ok()) {
    cov.push("integers to text and back");
    vals.push((ast::Value::Integer(i), i.to_string()));
  }
  for (val, want) in vals {
    let got = val.to_string();
    if got != want {
      v.push(("value to text".into(), format!("the value {val:?} converts to the text {got:?}, expected {want:?}")));
    }
    if matches!(val, ast::Value::Bool(_) | ast::Value::Null) {
      let back = ast::Value::from_str(&got).ok();
      if back.as_ref().map(rval) != Some(rval(&val)) {
        v.push(("value to text and back".into(), format!("the value {val:?} comes back as {back:?}")));
      }
    }
  }
  if let Some(bits) = inp.args.get(1).and_then(|a| a.parse::<u64>().ok()) {
    let f = f64::from_bits(bits);
    if f.is_finite() {
      cov.push("decimals to text and back");
      let got = ast::Value::Decimal(f).to_string();
      if got.parse::<f64>().map(|x| x.to_bits()) != Ok(bits) {
        v.push(("decimal to text".into(), format!("the decimal {f:?} converts to the text {got:?}")));
      }
    }
  }
  (cov, v)
}

pub fn p30() -> i32 {
  let mut known: Vec<String> = TYPE_TABLE.iter().chain(&MORE_TYPES).map(|x| x.0.to_string()).collect();
  known.extend(ACTIONS.iter().chain(&INDEX_TYPES).map(|s| s.to_string()));
  known.extend(["<", ">", "-", "<>", "PostgreSQL", "true", "false", "null"].map(String::from));
  let mut near: Vec<String> = vec!["".into()];
  for k in &known {
    near.push(k.to_uppercase());
    near.push(k.chars().enumerate().map(|(i, c)| if i == 0 { c.to_ascii_uppercase() } else { c }).collect());
    for p in [" ", "\t", "\n", "\0", "\u{a0}", "x", "s", "8", "(", "\"", "[]"] {
      near.push(format!("{k}{p}"));
      near.push(format!("{p}{k}"));
    }
    near.push(k.replace(' ', "  "));
    near.push(k.replace(' ', "_"));
    near.push(k.replace(' ', ""));
    near.push(k.replace('_', " "));
    near.push(k.replace('_', ""));
    for i in 0..k.len() {
      let mut t = k.clone();
      t.remove(i);
      near.push(t);
      near.push(k[..i].to_string());
    }
    for k2 in &known {
      near.push(format!("{k} {k2}"));
    }
  }
  // relatives that are not documented
  for s in [
    "string", "str", "float", "double", "number", "tinyint", "mediumint", "datetime", "blob", "clob", "nvarchar", "int16", "int32", "int64", "int1", "int3", "serial1", "float2", "float16", "bits",
    "Postgres", "postgres", "postgresql", "MySQL", "mysql", "none", "None", "nil", "NULL", "True", "FALSE", "yes", "on", "1", "0", "><", "--", "->", "<-", "=", "<=>", "b-tree", "brin", "spgist", "rtree", "setnull", "set-null",
    "delete", "update", "bpchar", "name", "oid", "interval", "hstore", "ltree", "array", "enum", "record", "void", "any", "regclass", "txid_snapshot", "macaddr16", "dec", "fixed", "numeric ", "timestamp with timezone",
    "timestamp without timezone", "time with timezone", "double", "precision", "varying", "bit  varying", "character large object",
  ] {
    near.push(s.into());
  }
  near.sort();
  near.dedup();
  let fixed: Vec<Input> = known
    .iter()
    .map(|k| Input::one("documented", k.clone()))
    .chain(near.iter().map(|k| Input::one("near", k.clone())))
    .collect();
  let gen = move |r: &mut Rng, _: Tier, _: u64| -> Vec<Input> {
    let s = match r.below(4) {
      0 => r.pick(&known).clone(),
      1 => {
        let mut s: Vec<char> = r.pick(&known).chars().collect();
        for _ in 0..1 + r.below(2) {
          let i = r.below(s.len() + 1);
          match r.below(3) {
            0 if i < s.len() => {
              s.remove(i);
            }
            1 if i < s.len() => s[i] = (b' ' + r.below(95) as u8) as char,
            _ => s.insert(i, (b' ' + r.below(95) as u8) as char),
          }
        }
        s.into_iter().collect()
      }
      2 => gen::random_word(r),
      _ => mutate::noise(r, 4),
    };
    let i = match r.below(4) {
      0 => r.next() as i64,
      1 => *r.pick(&[i64::MIN, i64::MAX, 0, -1, 1, i32::MAX as i64 + 1]),
      _ => r.below(100_000) as i64,
    };
    let f = match r.below(3) {
      0 => r.next(),
      1 => (r.below(1_000_000) as f64 / 1000.0).to_bits(),
      _ => r.pick(&[0.0f64, 0.1, 1e300, 5e-324, 1.0, f64::MAX, 3.0, 1e21, 123456789.125]).to_bits(),
    };
    vec![Input { kind: "random".into(), texts: vec![s], args: vec![i.to_string(), f.to_string()] }]
  };
  check(&Spec {
    id: "P30",
    rule: "all documented names, every one-character neighbour, case, padding and combination of them, and random texts, each put through every text conversion and compared with the documented table; integers and decimals to text and back; distinct by text",
    gen: &gen,
    judge: &judge30,
    quick: 3_000_000,
    must: vec![
      "type names", "other texts as type names", "relation symbols", "index types", "actions", "database types", "words of values",
      "integers to text and back", "decimals to text and back",
    ],
    assumptions: vec!["the table of documented names is the one of the README and the PostgreSQL synonyms in the code's documentation".into()],
    fixed,
    threads: 8,
  })
}
