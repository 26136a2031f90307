//! Writes a `Doc` as text, in many layouts.

use crate::model::*;
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Layout {
  /// As little whitespace as possible.
  Min,
  /// One space or line break.
  Pretty,
  /// Any whitespace, line breaks of any convention and comments with hostile content.
  Wild,
  /// Spaces, tabs and line breaks only.
  Spaces,
  /// CRLF line breaks, otherwise pretty.
  Crlf,
}

pub const LAYOUTS: [Layout; 5] = [Layout::Min, Layout::Pretty, Layout::Wild, Layout::Spaces, Layout::Crlf];

pub struct Out {
  pub text: String,
  /// Token boundaries.
  pub toks: Vec<Sp>,
  layout: Layout,
  rng: Rng,
  /// Chooses everything but the gaps: order of members, case of keywords.
  srng: Rng,
  kwcase: bool,
  last_spaced: bool,
  forced: bool,
  /// Also write notes and indexes that a later one replaces.
  overwritten: bool,
  long_at: Option<usize>,
  pub gaps: usize,
  pub comments: usize,
}

const COMMENT_BITS: [&str; 24] = [
  "", " note", "Table x {", "}", "'", "\"", "`", "'''", "[pk", "]", "ref: > a.b", "* ", "/", "é", "日本", "🦀", "\\", "//", "{", "Note: 'x'", ",", ":", "#fff", "(",
];

fn comment_text(r: &mut Rng, block: bool) -> String {
  let mut s = String::new();
  for _ in 0..r.below(4) {
    let b = *r.pick(&COMMENT_BITS);
    s.push_str(b);
    if block && r.pct(30) {
      s.push_str(*r.pick(&["\n", "\r\n", "\t", " ", "\r"]));
    }
  }
  if block {
    if r.pct(10) {
      s.push_str("**");
    }
    if r.pct(10) {
      s.push_str("/*");
    }
    while s.contains("*/") {
      s = s.replace("*/", "* ");
    }
    // `/**/`-like endings are fine: only the closing mark itself must not occur before the end
  }
  s
}

fn wild_piece(r: &mut Rng, comments: &mut usize) -> String {
  match r.below(14) {
    0..=3 => " ".into(),
    4 => "\t".into(),
    5..=6 => "\n".into(),
    7 => "\r\n".into(),
    8 => "\r".into(),
    9..=10 => {
      *comments += 1;
      let t = comment_text(r, false);
      format!("//{}{}", t, r.pick(&["\n", "\r\n", "\r"]))
    }
    11..=12 => {
      *comments += 1;
      let t = comment_text(r, true);
      // the text must not turn `*/` up too early together with its neighbours
      let c = format!("/*{t}*/");
      if c[2..c.len() - 2].contains("*/") || c[2..].find("*/") != Some(c.len() - 4) {
        "/* c */".into()
      } else {
        c
      }
    }
    _ => "  ".into(),
  }
}

fn wordy(c: char) -> bool {
  c.is_ascii_alphanumeric() || c == '_'
}

impl Out {
  pub fn new(layout: Layout, mut rng: Rng) -> Self {
    let srng = Rng::new(rng.next());
    // one gap of some documents is very long; 0 is the one before, MAX the one after everything
    let long_at = if layout != Layout::Min && rng.pct(4) {
      Some(match rng.below(4) {
        0 => 0,
        1 => usize::MAX,
        _ => rng.below(80),
      })
    } else {
      None
    };
    Out {
      long_at,
      srng,
      text: String::new(),
      toks: vec![],
      layout,
      rng,
      kwcase: false,
      last_spaced: false,
      forced: false,
      overwritten: false,
      gaps: 0,
      comments: 0,
    }
  }
  pub fn kwcase(mut self, on: bool) -> Self {
    self.kwcase = on;
    self
  }
  pub fn overwritten(mut self, on: bool) -> Self {
    self.overwritten = on;
    self
  }

  fn long_gap(&mut self) -> String {
    let n = *self.rng.pick(&[40usize, 70, 70, 130, 130, 260, 260, 300, 520, 1100, 1100, 4200, 4200, 33_000, 66_000]);
    let n = n + self.rng.below(9);
    match self.rng.below(if self.layout == Layout::Wild { 6 } else { 3 }) {
      0 => " ".repeat(n) + "\n",
      1 => "\n".repeat(n),
      2 => format!("{}\n", "\t \r\n".repeat(n / 4)),
      3 => {
        self.comments += 1;
        format!("/*{}*/ ", "x ".repeat(n / 2))
      }
      4 => {
        self.comments += 1;
        format!("//{}\n", "é".repeat(n / 2))
      }
      _ => {
        self.comments += 1;
        format!("// c\n{}/* \n */\n", " ".repeat(n))
      }
    }
  }

  fn gap_text(&mut self, req: bool, after_spaced: bool) -> String {
    let s = self.short_gap(req, after_spaced);
    if self.long_at == Some(self.gaps - 1) {
      let l = self.long_gap();
      return if self.rng.pct(50) { s + &l } else { l };
    }
    s
  }

  fn short_gap(&mut self, req: bool, after_spaced: bool) -> String {
    self.gaps += 1;
    match self.layout {
      Layout::Min => {
        if after_spaced {
          "\n".into()
        } else if req {
          " ".into()
        } else {
          String::new()
        }
      }
      Layout::Pretty => {
        if after_spaced {
          "\n  ".into()
        } else {
          " ".into()
        }
      }
      Layout::Crlf => {
        if after_spaced || self.rng.pct(20) {
          "\r\n".into()
        } else {
          " ".into()
        }
      }
      Layout::Spaces => loop {
        let mut s = String::new();
        let n = if req { 1 + self.rng.below(3) } else { self.rng.below(3) };
        for _ in 0..n {
          s.push_str(*self.rng.pick(&[" ", "  ", "\t", "\n", "\r\n", "\r", "\n\n"]));
        }
        if after_spaced && (s.is_empty() || s == " ") {
          continue;
        }
        return s;
      },
      Layout::Wild => loop {
        let mut s = String::new();
        let n = if req { 1 + self.rng.below(3) } else { self.rng.below(4) };
        let mut c = 0;
        for _ in 0..n {
          s.push_str(&wild_piece(&mut self.rng, &mut c));
        }
        if after_spaced && (s.is_empty() || s == " ") {
          continue;
        }
        self.comments += c;
        return s;
      },
    }
  }

  /// A token, after a gap as the layout wants it.
  fn t(&mut self, s: &str) {
    let first = s.chars().next();
    let prev = self.text.chars().next_back();
    let both = matches!((prev, first), (Some(a), Some(b)) if wordy(a) && wordy(b));
    let g = if self.toks.is_empty() {
      self.gap_text(false, false)
    } else {
      let after_spaced = self.last_spaced && matches!(first, Some(c) if wordy(c));
      let req = self.forced || both;
      self.gap_text(req, after_spaced)
    };
    self.text.push_str(&g);
    self.glue(s);
  }
  /// A token right after the previous one.
  fn glue(&mut self, s: &str) {
    let a = self.text.len();
    self.text.push_str(s);
    self.toks.push((a, self.text.len()));
    self.last_spaced = false;
    self.forced = false;
  }
  fn spaced(&mut self, s: &str) {
    self.t(s);
    self.last_spaced = true;
  }
  fn kw(&mut self, s: &str, sep: bool) {
    let k = if self.kwcase {
      match self.srng.below(4) {
        0 => s.to_lowercase(),
        1 => s.to_uppercase(),
        2 => s.to_string(),
        _ => s
          .chars()
          .map(|c| if self.srng.pct(50) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
          .collect(),
      }
    } else {
      s.to_string()
    };
    self.t(&k);
    self.forced = sep;
  }
  fn nl(&mut self) {
    // cosmetic line break, only where the next gap is free
    if self.layout == Layout::Pretty && !self.text.is_empty() {
      self.text.push('\n');
    } else if self.layout == Layout::Crlf && !self.text.is_empty() {
      self.text.push_str("\r\n");
    }
  }

  fn lit(&mut self, l: &Lit) {
    match l.val {
      Val::Enum(_) => self.spaced(&l.raw),
      _ => self.t(&l.raw),
    }
  }
  fn attr(&mut self, a: &Attr) {
    self.spaced(&a.key.raw);
    if let Some(v) = &a.val {
      self.t(":");
      self.lit(v);
    }
  }
  fn settings(&mut self, s: &Option<Settings>, after_type: bool) {
    let Some(s) = s else { return };
    // `int []` is an empty list, `int[]` an array
    if after_type && s.attrs.is_empty() && s.refs.is_empty() {
      self.forced = true;
    }
    self.t("[");
    let mut a = 0;
    let mut r = 0;
    let mut first = true;
    while a < s.attrs.len() || r < s.refs.len() {
      if !first {
        self.t(",");
      }
      first = false;
      let take_ref = r < s.refs.len() && (a >= s.attrs.len() || self.srng.pct(50));
      if take_ref {
        self.t("ref");
        self.t(":");
        self.t(s.refs[r].rel.sym());
        self.ref_id(&s.refs[r].rhs);
        r += 1;
      } else {
        self.attr(&s.attrs[a]);
        a += 1;
      }
    }
    self.t("]");
  }
  fn ref_id(&mut self, r: &RefId) {
    if let Some(s) = &r.schema {
      self.t(&s.raw);
      self.dot();
    }
    self.tok_after_dot(&r.table.raw, r.schema.is_some());
    self.dot();
    if r.paren || r.comps.len() != 1 {
      self.tok_after_dot("(", true);
      for (i, c) in r.comps.iter().enumerate() {
        if i > 0 {
          self.t(",");
        }
        self.t(&c.raw);
      }
      self.t(")");
    } else {
      self.tok_after_dot(&r.comps[0].raw, true);
    }
  }
  fn dot(&mut self) {
    if matches!(self.layout, Layout::Pretty | Layout::Crlf) {
      self.glue(".")
    } else {
      self.t(".")
    }
  }
  fn tok_after_dot(&mut self, s: &str, after_dot: bool) {
    if after_dot && matches!(self.layout, Layout::Pretty | Layout::Crlf) {
      self.glue(s)
    } else {
      self.t(s)
    }
  }
  fn decl_ident(&mut self, schema: &Option<Id>, name: &Id) {
    if let Some(s) = schema {
      self.t(&s.raw);
      self.dot();
      self.tok_after_dot(&name.raw, true);
    } else {
      self.t(&name.raw);
    }
  }
  fn note(&mut self, n: &Note) {
    self.kw("Note", false);
    if n.block {
      self.t("{");
      self.t(&n.lit.raw);
      self.t("}");
    } else {
      self.t(":");
      self.t(&n.lit.raw);
    }
  }
  fn args(&mut self, t: &Ty) {
    if !t.has_args {
      return;
    }
    self.glue("(");
    for (i, a) in t.args.iter().enumerate() {
      if i > 0 {
        self.t(",");
      }
      self.t(&a.raw);
    }
    self.t(")");
  }
  fn array(&mut self, a: &(Option<u32>, String)) {
    match a.0 {
      None => self.glue("[]"),
      Some(n) => {
        let s = if a.1.is_empty() { format!("[{n}]") } else { format!("[{}]", a.1) };
        self.glue(&s)
      }
    }
  }
  fn ty(&mut self, t: &Ty) {
    let mut first = true;
    if let Some(s) = &t.schema {
      self.t(&s.raw);
      self.glue(".");
      first = false;
    }
    let head = if t.quoted { format!("\"{}", t.base) } else { t.base.clone() };
    if first {
      self.t(&head)
    } else {
      self.glue(&head)
    }
    self.args(t);
    let inner = if t.quoted { t.inner.min(t.arrays.len()) } else { t.arrays.len() };
    for a in &t.arrays[..inner] {
      self.array(a);
    }
    if t.quoted {
      self.glue("\"");
      for a in &t.arrays[inner..] {
        self.array(a);
      }
    }
  }
  fn col(&mut self, c: &Col) {
    self.nl();
    self.t(&c.name.raw);
    // a column whose name is quoted may touch its type, except that nothing else may be read into it
    self.ty(&c.ty);
    self.settings(&c.settings, true);
  }
  fn indexes(&mut self, x: &Indexes) {
    self.nl();
    self.kw("Indexes", false);
    self.t("{");
    for d in &x.defs {
      self.nl();
      let one = |s: &mut Self, c: &IdxCol| match c {
        IdxCol::Name(i) => s.t(&i.raw),
        IdxCol::Expr(l) => s.t(&l.raw),
      };
      if d.multi || d.cols.len() != 1 {
        self.t("(");
        for (i, c) in d.cols.iter().enumerate() {
          if i > 0 {
            self.t(",");
          }
          one(self, c);
        }
        self.t(")");
      } else {
        one(self, &d.cols[0]);
      }
      self.settings(&d.settings, false);
    }
    self.t("}");
  }
  fn stale_note(&mut self) -> Option<Note> {
    if self.overwritten && self.srng.pct(25) {
      let block = self.srng.pct(50);
      Some(Note { sp: (0, 0), lit: Lit { sp: (0, 0), raw: "'stale }'".into(), val: Val::Str("stale }".into()) }, block })
    } else {
      None
    }
  }

  pub fn block(&mut self, b: &Block) {
    self.nl();
    match b {
      Block::Project(p) => {
        self.kw("Project", true);
        self.t(&p.name.raw);
        self.t("{");
        let at = self.srng.below(p.props.len() + 1);
        let stale = if p.note.is_some() { self.stale_note() } else { None };
        if let Some(s) = stale {
          self.note(&s);
        }
        for i in 0..=p.props.len() {
          if i == at {
            if let Some(n) = &p.note {
              self.nl();
              self.note(n);
            }
          }
          if i < p.props.len() {
            self.nl();
            self.attr(&p.props[i]);
          }
        }
        self.nl();
        self.t("}");
      }
      Block::Table(t) => {
        self.kw("Table", true);
        self.decl_ident(&t.schema, &t.name);
        if let Some(a) = &t.alias {
          self.kw("as", true);
          self.t(&a.raw);
        }
        self.settings(&t.settings, false);
        self.t("{");
        let n = t.cols.len() + 1;
        let (mut at_note, mut at_idx) = (self.srng.below(n), self.srng.below(n));
        if self.srng.pct(50) {
          at_note = n - 1;
          at_idx = n - 1;
        }
        let note_first = self.srng.pct(50);
        let stale = if t.note.is_some() { self.stale_note() } else { None };
        if let Some(s) = stale {
          self.note(&s);
        }
        if self.overwritten && t.indexes.is_some() && self.srng.pct(20) {
          self.kw("Indexes", false);
          self.t("{");
          self.t("stale");
          self.t("}");
        }
        for i in 0..n {
          for k in 0..2 {
            if (k == 0) == note_first {
              if i == at_note {
                if let Some(x) = &t.note {
                  self.nl();
                  self.note(x);
                }
              }
            } else if i == at_idx {
              if let Some(x) = &t.indexes {
                self.indexes(x);
              }
            }
          }
          if i < t.cols.len() {
            self.col(&t.cols[i]);
          }
        }
        self.nl();
        self.t("}");
      }
      Block::Enum(e) => {
        self.kw("Enum", true);
        self.decl_ident(&e.schema, &e.name);
        self.t("{");
        for v in &e.values {
          self.nl();
          self.t(&v.name.raw);
          self.settings(&v.settings, false);
        }
        self.nl();
        self.t("}");
      }
      Block::Ref(r) => {
        self.kw("Ref", r.name.is_some());
        if let Some(n) = &r.name {
          self.t(&n.raw);
        }
        self.t(if r.block { "{" } else { ":" });
        self.ref_id(&r.lhs);
        self.t(r.rel.sym());
        self.ref_id(&r.rhs);
        self.settings(&r.settings, false);
        if r.block {
          self.t("}");
        }
      }
      Block::Group(g) => {
        self.kw("TableGroup", true);
        self.t(&g.name.raw);
        self.settings(&g.settings, false);
        self.t("{");
        let at = self.srng.below(g.items.len() + 1);
        let stale = if g.note.is_some() { self.stale_note() } else { None };
        if let Some(s) = stale {
          self.note(&s);
        }
        for i in 0..=g.items.len() {
          if i == at {
            if let Some(n) = &g.note {
              self.nl();
              self.note(n);
            }
          }
          if i < g.items.len() {
            self.nl();
            self.decl_ident(&g.items[i].schema, &g.items[i].name);
          }
        }
        self.nl();
        self.t("}");
      }
      Block::Note(n) => self.note(n),
    }
  }

  pub fn finish(mut self) -> Self {
    let g = self.gap_text(false, false);
    self.text.push_str(&g);
    if self.long_at == Some(usize::MAX) {
      let l = self.long_gap();
      self.text.push_str(&l);
    }
    if self.layout == Layout::Wild && self.rng.pct(10) {
      self.text.push_str("// last line without a line break");
    }
    self
  }
}

pub fn render(d: &Doc, layout: Layout, rng: Rng) -> Out {
  render_with(d, layout, rng, false, false)
}

pub fn render_with(d: &Doc, layout: Layout, rng: Rng, kwcase: bool, overwritten: bool) -> Out {
  let mut o = Out::new(layout, rng).kwcase(kwcase).overwritten(overwritten);
  for b in &d.blocks {
    o.block(b);
  }
  o.finish()
}

/// The same tokens for the same `srng`, with gaps by `layout` and `rng`.
pub fn render_tokens(d: &Doc, layout: Layout, rng: Rng, srng: Rng, kwcase: bool, overwritten: bool) -> Out {
  let mut o = Out::new(layout, rng).kwcase(kwcase).overwritten(overwritten);
  o.srng = srng;
  for b in &d.blocks {
    o.block(b);
  }
  o.finish()
}

/// Trivia of at least one byte.
pub fn some_trivia(r: &mut Rng) -> String {
  let mut n = 0;
  let mut s = String::new();
  for _ in 0..1 + r.below(3) {
    s.push_str(&wild_piece(r, &mut n));
  }
  s
}
