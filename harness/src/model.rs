//! The harness' own picture of a parsed document, filled either from the real result
//! (`from_real`) or by the reference parser / generator, and compared as a tree of facts.

use dbml_rs::ast;

pub type Sp = (usize, usize);

#[derive(Clone, Debug, Default)]
pub struct Id {
  pub sp: Sp,
  pub raw: String,
  pub val: String,
}

#[derive(Clone, Debug)]
pub enum Val {
  Enum(String),
  Str(String),
  Int(i64),
  Dec(f64),
  Bool(bool),
  Hex(String),
  Expr(String),
  Null,
}

impl Val {
  /// Text of a value, as in notes and index types.
  pub fn text(&self) -> String {
    match self {
      Val::Enum(s) | Val::Str(s) | Val::Hex(s) | Val::Expr(s) => s.clone(),
      Val::Int(i) => i.to_string(),
      Val::Dec(d) => d.to_string(),
      Val::Bool(b) => b.to_string(),
      Val::Null => "null".into(),
    }
  }
  /// Unambiguous rendering used to compare values.
  pub fn key(&self) -> String {
    match self {
      Val::Enum(s) => format!("word:{s}"),
      Val::Str(s) => format!("str:{s}"),
      Val::Int(i) => format!("int:{i}"),
      Val::Dec(d) => format!("dec:{:016x}", d.to_bits()),
      Val::Bool(b) => format!("bool:{b}"),
      Val::Hex(s) => format!("hex:{s}"),
      Val::Expr(s) => format!("expr:{s}"),
      Val::Null => "null".into(),
    }
  }
  pub fn kind(&self) -> &'static str {
    match self {
      Val::Enum(_) => "word",
      Val::Str(_) => "str",
      Val::Int(_) => "int",
      Val::Dec(_) => "dec",
      Val::Bool(_) => "bool",
      Val::Hex(_) => "hex",
      Val::Expr(_) => "expr",
      Val::Null => "null",
    }
  }
}

impl PartialEq for Val {
  fn eq(&self, o: &Self) -> bool {
    self.key() == o.key()
  }
}

#[derive(Clone, Debug)]
pub struct Lit {
  pub sp: Sp,
  pub raw: String,
  pub val: Val,
}

#[derive(Clone, Debug)]
pub struct Attr {
  pub sp: Sp,
  pub key: Id,
  pub val: Option<Lit>,
}

#[derive(Clone, Debug, Default)]
pub struct Settings {
  pub sp: Sp,
  pub attrs: Vec<Attr>,
  /// Inline relations (columns only).
  pub refs: Vec<RefInline>,
  /// Derived fields, (name, value) in a fixed order.
  pub derived: Vec<(&'static str, String)>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Rel {
  Undef,
  OneOne,
  OneMany,
  ManyOne,
  ManyMany,
}

impl Rel {
  pub fn sym(self) -> &'static str {
    match self {
      Rel::Undef => "?",
      Rel::OneOne => "-",
      Rel::OneMany => "<",
      Rel::ManyOne => ">",
      Rel::ManyMany => "<>",
    }
  }
}

#[derive(Clone, Debug)]
pub struct RefInline {
  pub sp: Sp,
  pub rel: Rel,
  pub rhs: RefId,
}

#[derive(Clone, Debug, Default)]
pub struct RefId {
  pub sp: Sp,
  pub schema: Option<Id>,
  pub table: Id,
  pub comps: Vec<Id>,
  /// Written with parentheses (rendering only).
  pub paren: bool,
}

#[derive(Clone, Debug)]
pub struct Ref {
  /// Span of the statement (without keyword and name).
  pub sp: Sp,
  pub name: Option<Id>,
  pub rel: Rel,
  pub lhs: RefId,
  pub rhs: RefId,
  pub settings: Option<Settings>,
  /// Written as a block (rendering only).
  pub block: bool,
}

#[derive(Clone, Debug)]
pub struct Note {
  pub sp: Sp,
  pub lit: Lit,
  /// Written as a block (rendering only).
  pub block: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Ty {
  pub sp: Sp,
  pub raw: String,
  /// Name with the schema, as `schema.name`.
  pub name: String,
  pub args: Vec<Lit>,
  pub has_args: bool,
  pub arrays: Vec<(Option<u32>, String)>,
  // how it is written (rendering only)
  pub schema: Option<Id>,
  pub base: String,
  pub quoted: bool,
  /// Number of arrays that stand inside the quotes.
  pub inner: usize,
}

#[derive(Clone, Debug, Default)]
pub struct Col {
  pub sp: Sp,
  pub name: Id,
  pub ty: Ty,
  pub settings: Option<Settings>,
}

#[derive(Clone, Debug)]
pub enum IdxCol {
  Name(Id),
  Expr(Lit),
}

#[derive(Clone, Debug)]
pub struct IdxDef {
  pub sp: Sp,
  pub cols: Vec<IdxCol>,
  pub settings: Option<Settings>,
  /// Written with parentheses (rendering only).
  pub multi: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Indexes {
  pub sp: Sp,
  pub defs: Vec<IdxDef>,
}

#[derive(Clone, Debug, Default)]
pub struct Table {
  pub sp: Sp,
  pub ident_sp: Sp,
  pub schema: Option<Id>,
  pub name: Id,
  pub alias: Option<Id>,
  pub settings: Option<Settings>,
  pub cols: Vec<Col>,
  pub note: Option<Note>,
  pub indexes: Option<Indexes>,
}

#[derive(Clone, Debug)]
pub struct EnumVal {
  pub sp: Sp,
  pub name: Id,
  pub settings: Option<Settings>,
}

#[derive(Clone, Debug, Default)]
pub struct Enum {
  pub sp: Sp,
  pub ident_sp: Sp,
  pub schema: Option<Id>,
  pub name: Id,
  pub values: Vec<EnumVal>,
}

#[derive(Clone, Debug)]
pub struct Item {
  pub sp: Sp,
  pub schema: Option<Id>,
  pub name: Id,
}

#[derive(Clone, Debug, Default)]
pub struct Group {
  pub sp: Sp,
  pub name: Id,
  pub settings: Option<Settings>,
  pub items: Vec<Item>,
  pub note: Option<Note>,
}

#[derive(Clone, Debug, Default)]
pub struct Project {
  pub sp: Sp,
  pub name: Id,
  pub props: Vec<Attr>,
  pub note: Option<Note>,
  pub db: Option<String>,
}

#[derive(Clone, Debug)]
pub enum Block {
  Project(Project),
  Table(Table),
  Enum(Enum),
  Ref(Ref),
  Group(Group),
  Note(Note),
}

#[derive(Clone, Debug, Default)]
pub struct Doc {
  pub sp: Sp,
  pub blocks: Vec<Block>,
}

impl Block {
  pub fn sp(&self) -> Sp {
    match self {
      Block::Project(x) => x.sp,
      Block::Table(x) => x.sp,
      Block::Enum(x) => x.sp,
      Block::Ref(x) => x.sp,
      Block::Group(x) => x.sp,
      Block::Note(x) => x.sp,
    }
  }
  pub fn kind(&self) -> &'static str {
    match self {
      Block::Project(_) => "project",
      Block::Table(_) => "table",
      Block::Enum(_) => "enum",
      Block::Ref(_) => "ref",
      Block::Group(_) => "group",
      Block::Note(_) => "note",
    }
  }
}

impl Doc {
  pub fn tables(&self) -> impl Iterator<Item = &Table> {
    self.blocks.iter().filter_map(|b| if let Block::Table(t) = b { Some(t) } else { None })
  }
  pub fn enums(&self) -> impl Iterator<Item = &Enum> {
    self.blocks.iter().filter_map(|b| if let Block::Enum(t) = b { Some(t) } else { None })
  }
  pub fn refs(&self) -> impl Iterator<Item = &Ref> {
    self.blocks.iter().filter_map(|b| if let Block::Ref(t) = b { Some(t) } else { None })
  }
  pub fn groups(&self) -> impl Iterator<Item = &Group> {
    self.blocks.iter().filter_map(|b| if let Block::Group(t) = b { Some(t) } else { None })
  }
  pub fn projects(&self) -> impl Iterator<Item = &Project> {
    self.blocks.iter().filter_map(|b| if let Block::Project(t) = b { Some(t) } else { None })
  }
}

// ---------------------------------------------------------------- derived fields

fn o(s: Option<String>) -> String {
  match s {
    Some(s) => format!("Some({s})"),
    None => "None".into(),
  }
}

pub const ACTIONS: [&str; 5] = ["no action", "cascade", "restrict", "set null", "set default"];
pub const INDEX_TYPES: [&str; 4] = ["btree", "gin", "gist", "hash"];

pub fn derive_col(attrs: &[Attr]) -> Vec<(&'static str, String)> {
  let has = |ks: &[&str]| attrs.iter().any(|a| ks.contains(&a.key.val.as_str()));
  let last = |k: &str| attrs.iter().rev().find(|a| a.key.val == k);
  let nullable = attrs
    .iter()
    .rev()
    .find(|a| a.key.val == "null" || a.key.val == "not null")
    .map(|a| a.key.val.clone());
  vec![
    ("pk", has(&["pk", "primary key"]).to_string()),
    ("unique", has(&["unique"]).to_string()),
    ("nullable", o(nullable)),
    ("increment", has(&["increment"]).to_string()),
    ("note", o(last("note").and_then(|a| a.val.as_ref()).map(|l| l.val.text()))),
    ("default", o(last("default").and_then(|a| a.val.as_ref()).map(|l| l.val.key()))),
  ]
}

pub fn derive_enum(attrs: &[Attr]) -> Vec<(&'static str, String)> {
  let last = attrs.iter().rev().find(|a| a.key.val == "note");
  vec![("note", o(last.and_then(|a| a.val.as_ref()).map(|l| l.val.text())))]
}

pub fn derive_idx(attrs: &[Attr]) -> Vec<(&'static str, String)> {
  let has = |k: &str| attrs.iter().any(|a| a.key.val == k);
  let last = |k: &str| attrs.iter().rev().find(|a| a.key.val == k);
  let text = |k: &str| o(last(k).and_then(|a| a.val.as_ref()).map(|l| l.val.text()));
  vec![
    ("type", text("type")),
    ("unique", has("unique").to_string()),
    ("pk", has("pk").to_string()),
    ("note", text("note")),
    ("name", text("name")),
  ]
}

pub fn derive_rel(attrs: &[Attr]) -> Vec<(&'static str, String)> {
  let last = |k: &str| {
    o(attrs.iter().rev().find(|a| a.key.val == k).and_then(|a| a.val.as_ref()).and_then(|l| match &l.val {
      Val::Enum(s) => Some(s.clone()),
      _ => None,
    }))
  };
  vec![("update", last("update")), ("delete", last("delete"))]
}

/// Database type of the project: only string values count, the last one wins.
pub fn derive_db(props: &[Attr]) -> Option<String> {
  props
    .iter()
    .rev()
    .filter(|p| p.key.val == "database_type")
    .find_map(|p| match &p.val {
      Some(Lit { val: Val::Str(s), .. }) => Some(if s == "PostgreSQL" { "PostgreSQL".to_string() } else { format!("Unknown({s})") }),
      _ => None,
    })
}

// ---------------------------------------------------------------- from the real result

fn sp(r: &core::ops::Range<usize>) -> Sp {
  (r.start, r.end)
}
fn rid(i: &ast::Ident) -> Id {
  Id { sp: sp(&i.span_range), raw: i.raw.clone(), val: i.to_string.clone() }
}
pub fn rval(v: &ast::Value) -> Val {
  match v {
    ast::Value::Enum(s) => Val::Enum(s.clone()),
    ast::Value::String(s) => Val::Str(s.clone()),
    ast::Value::Integer(i) => Val::Int(*i),
    ast::Value::Decimal(d) => Val::Dec(*d),
    ast::Value::Bool(b) => Val::Bool(*b),
    ast::Value::HexColor(s) => Val::Hex(s.clone()),
    ast::Value::Expr(s) => Val::Expr(s.clone()),
    ast::Value::Null => Val::Null,
  }
}
fn rlit(l: &ast::Literal) -> Lit {
  Lit { sp: sp(&l.span_range), raw: l.raw.clone(), val: rval(&l.value) }
}
fn rattr(a: &ast::Attribute) -> Attr {
  Attr { sp: sp(&a.span_range), key: rid(&a.key), val: a.value.as_ref().map(rlit) }
}
fn rattrs(v: &[ast::Attribute]) -> Vec<Attr> {
  v.iter().map(rattr).collect()
}
pub fn rrel(r: &ast::Relation) -> Rel {
  match r {
    ast::Relation::Undef => Rel::Undef,
    ast::Relation::One2One => Rel::OneOne,
    ast::Relation::One2Many => Rel::OneMany,
    ast::Relation::Many2One => Rel::ManyOne,
    ast::Relation::Many2Many => Rel::ManyMany,
  }
}
pub fn rrefid(r: &ast::RefIdent) -> RefId {
  RefId {
    sp: sp(&r.span_range),
    schema: r.schema.as_ref().map(rid),
    table: rid(&r.table),
    comps: r.compositions.iter().map(rid).collect(),
    paren: false,
  }
}
fn rnote(n: &ast::NoteBlock) -> Note {
  Note { sp: sp(&n.span_range), lit: rlit(&n.value), block: false }
}
fn action(a: &ast::ReferentialAction) -> String {
  match a {
    ast::ReferentialAction::NoAction => "no action",
    ast::ReferentialAction::Cascade => "cascade",
    ast::ReferentialAction::Restrict => "restrict",
    ast::ReferentialAction::SetNull => "set null",
    ast::ReferentialAction::SetDefault => "set default",
  }
  .to_string()
}
fn itype(t: &ast::IndexesType) -> String {
  match t {
    ast::IndexesType::BTree => "btree",
    ast::IndexesType::Gin => "gin",
    ast::IndexesType::Gist => "gist",
    ast::IndexesType::Hash => "hash",
  }
  .to_string()
}

fn rty(t: &ast::ColumnType) -> Ty {
  Ty {
    sp: sp(&t.span_range),
    raw: t.raw.clone(),
    name: match &t.type_name {
      ast::ColumnTypeName::Raw(s) => s.clone(),
      other => format!("!{other:?}"),
    },
    args: t.args.iter().map(|v| Lit { sp: (0, 0), raw: String::new(), val: rval(v) }).collect(),
    arrays: t.arrays.iter().map(|a| (*a, String::new())).collect(),
    ..Default::default()
  }
}

fn rcol(c: &ast::TableColumn) -> Col {
  Col {
    sp: sp(&c.span_range),
    name: rid(&c.name),
    ty: rty(&c.r#type),
    settings: c.settings.as_ref().map(|s| Settings {
      sp: sp(&s.span_range),
      attrs: rattrs(&s.attributes),
      refs: s
        .refs
        .iter()
        .map(|r| RefInline { sp: sp(&r.span_range), rel: rrel(&r.rel), rhs: rrefid(&r.rhs) })
        .collect(),
      derived: vec![
        ("pk", s.is_pk.to_string()),
        ("unique", s.is_unique.to_string()),
        (
          "nullable",
          o(s.nullable.as_ref().map(|n| match n {
            ast::Nullable::Null => "null".to_string(),
            ast::Nullable::NotNull => "not null".to_string(),
          })),
        ),
        ("increment", s.is_incremental.to_string()),
        ("note", o(s.note.clone())),
        ("default", o(s.default.as_ref().map(|v| rval(v).key()))),
      ],
    }),
  }
}

fn ridxs(b: &ast::IndexesBlock) -> Indexes {
  Indexes {
    sp: sp(&b.span_range),
    defs: b
      .defs
      .iter()
      .map(|d| IdxDef {
        sp: sp(&d.span_range),
        cols: d
          .cols
          .iter()
          .map(|c| match c {
            ast::IndexesColumnType::String(i) => IdxCol::Name(rid(i)),
            ast::IndexesColumnType::Expr(l) => IdxCol::Expr(rlit(l)),
          })
          .collect(),
        settings: d.settings.as_ref().map(|s| Settings {
          sp: sp(&s.span_range),
          attrs: rattrs(&s.attributes),
          refs: vec![],
          derived: vec![
            ("type", o(s.r#type.as_ref().map(itype))),
            ("unique", s.is_unique.to_string()),
            ("pk", s.is_pk.to_string()),
            ("note", o(s.note.clone())),
            ("name", o(s.name.clone())),
          ],
        }),
        multi: false,
      })
      .collect(),
  }
}

pub fn rblock_project(p: &ast::ProjectBlock) -> Block {
  Block::Project(Project {
    sp: sp(&p.span_range),
    name: rid(&p.ident),
    props: p
      .properties
      .iter()
      .map(|a| Attr { sp: sp(&a.span_range), key: rid(&a.key), val: Some(rlit(&a.value)) })
      .collect(),
    note: p.note.as_ref().map(rnote),
    db: p.database_type.as_ref().map(|d| match d {
      ast::DatabaseType::PostgreSQL => "PostgreSQL".to_string(),
      ast::DatabaseType::Unknown(s) => format!("Unknown({s})"),
    }),
  })
}
pub fn rblock_table(t: &ast::TableBlock) -> Block {
  Block::Table(Table {
    sp: sp(&t.span_range),
    ident_sp: sp(&t.ident.span_range),
    schema: t.ident.schema.as_ref().map(rid),
    name: rid(&t.ident.name),
    alias: t.ident.alias.as_ref().map(rid),
    settings: t.settings.as_ref().map(|s| Settings {
      sp: sp(&s.span_range),
      attrs: rattrs(&s.attributes),
      ..Default::default()
    }),
    cols: t.cols.iter().map(rcol).collect(),
    note: t.note.as_ref().map(rnote),
    indexes: t.indexes.as_ref().map(ridxs),
  })
}
pub fn rblock_enum(e: &ast::EnumBlock) -> Block {
  Block::Enum(Enum {
    sp: sp(&e.span_range),
    ident_sp: sp(&e.ident.span_range),
    schema: e.ident.schema.as_ref().map(rid),
    name: rid(&e.ident.name),
    values: e
      .values
      .iter()
      .map(|v| EnumVal {
        sp: sp(&v.span_range),
        name: rid(&v.value),
        settings: v.settings.as_ref().map(|s| Settings {
          sp: sp(&s.span_range),
          attrs: rattrs(&s.attributes),
          refs: vec![],
          derived: vec![("note", o(s.note.clone()))],
        }),
      })
      .collect(),
  })
}
pub fn rblock_ref(r: &ast::RefBlock) -> Block {
  Block::Ref(Ref {
    sp: sp(&r.span_range),
    name: r.name.as_ref().map(rid),
    rel: rrel(&r.rel),
    lhs: rrefid(&r.lhs),
    rhs: rrefid(&r.rhs),
    settings: r.settings.as_ref().map(|s| Settings {
      sp: sp(&s.span_range),
      attrs: rattrs(&s.attributes),
      refs: vec![],
      derived: vec![
        ("update", o(s.on_update.as_ref().map(action))),
        ("delete", o(s.on_delete.as_ref().map(action))),
      ],
    }),
    block: false,
  })
}
pub fn rblock_group(g: &ast::TableGroupBlock) -> Block {
  Block::Group(Group {
    sp: sp(&g.span_range),
    name: rid(&g.ident),
    settings: g.settings.as_ref().map(|s| Settings {
      sp: sp(&s.span_range),
      attrs: rattrs(&s.attributes),
      ..Default::default()
    }),
    items: g
      .items
      .iter()
      .map(|i| Item { sp: sp(&i.span_range), schema: i.schema.as_ref().map(rid), name: rid(&i.ident_alias) })
      .collect(),
    note: g.note.as_ref().map(rnote),
  })
}

pub fn rblock(b: &ast::TopLevelBlock) -> Block {
  match b {
    ast::TopLevelBlock::Project(p) => rblock_project(p),
    ast::TopLevelBlock::Table(t) => rblock_table(t),
    ast::TopLevelBlock::Enum(e) => rblock_enum(e),
    ast::TopLevelBlock::Ref(r) => rblock_ref(r),
    ast::TopLevelBlock::TableGroup(g) => rblock_group(g),
    ast::TopLevelBlock::Note(n) => Block::Note(rnote(n)),
  }
}

pub fn from_real(s: &ast::SchemaBlock) -> Doc {
  Doc { sp: sp(&s.span_range), blocks: s.blocks.iter().map(rblock).collect() }
}

// ---------------------------------------------------------------- facts

pub const TOP: u32 = 1;
pub const COL: u32 = 2;
pub const SET: u32 = 4;
pub const REF: u32 = 8;
pub const IDX: u32 = 16;
pub const BODY: u32 = 32;
/// Raw text and decoded value of identifiers and literals (added to the container's category).
pub const LIT: u32 = 64;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SpKind {
  /// No span to compare.
  None,
  /// Delimits exactly its text.
  Exact,
  /// May be followed by trivia.
  Trail,
}

#[derive(Clone, Debug)]
pub struct Node {
  pub cat: u32,
  pub label: &'static str,
  pub val: String,
  pub raw: Option<String>,
  pub sp: Sp,
  pub spk: SpKind,
  pub kids: Vec<Node>,
}

fn n(cat: u32, label: &'static str) -> Node {
  Node { cat, label, val: String::new(), raw: None, sp: (0, 0), spk: SpKind::None, kids: vec![] }
}
impl Node {
  fn v(mut self, v: impl Into<String>) -> Self {
    self.val = v.into();
    self
  }
  fn exact(mut self, s: Sp) -> Self {
    self.sp = s;
    self.spk = SpKind::Exact;
    self
  }
  fn trail(mut self, s: Sp) -> Self {
    self.sp = s;
    self.spk = SpKind::Trail;
    self
  }
  fn k(mut self, x: Node) -> Self {
    self.kids.push(x);
    self
  }
}

fn fid(cat: u32, label: &'static str, i: &Id) -> Node {
  let mut x = n(cat | LIT, label).v(i.val.clone()).exact(i.sp);
  x.raw = Some(i.raw.clone());
  x
}
/// Optional children are wrapped so that presence is a fact of its own.
fn opt(cat: u32, label: &'static str, x: Option<Node>) -> Node {
  let mut w = n(cat, label).v(if x.is_some() { "present" } else { "absent" });
  w.kids.extend(x);
  w
}
fn list(cat: u32, label: &'static str, xs: Vec<Node>) -> Node {
  let mut w = n(cat, label).v(format!("{} items", xs.len()));
  w.kids = xs;
  w
}
fn flit(cat: u32, label: &'static str, l: &Lit) -> Node {
  let mut x = n(cat | LIT, label).v(l.val.key()).exact(l.sp);
  x.raw = Some(l.raw.clone());
  x
}
fn fattr(cat: u32, a: &Attr) -> Node {
  n(cat, "attribute")
    .trail(a.sp)
    .k(fid(cat, "key", &a.key))
    .k(opt(cat, "value?", a.val.as_ref().map(|l| flit(cat, "value", l))))
}
fn fsettings(cat: u32, s: &Option<Settings>, with_refs: bool) -> Node {
  opt(
    cat | SET,
    "settings?",
    s.as_ref().map(|s| {
      let mut x = n(cat | SET, "settings").exact(s.sp);
      x.kids.push(list(cat | SET, "attributes", s.attrs.iter().map(|a| fattr(cat | SET, a)).collect()));
      for (name, v) in &s.derived {
        x.kids.push(n(cat | SET, name).v(v.clone()));
      }
      if with_refs {
        x.kids.push(list(
          REF,
          "inline refs",
          s.refs
            .iter()
            .map(|r| n(REF, "inline ref").v(r.rel.sym()).trail(r.sp).k(frefid("target", &r.rhs)))
            .collect(),
        ));
      }
      x
    }),
  )
}
fn frefid(label: &'static str, r: &RefId) -> Node {
  n(REF, label)
    .trail(r.sp)
    .k(opt(REF, "schema?", r.schema.as_ref().map(|i| fid(REF, "schema", i))))
    .k(fid(REF, "table", &r.table))
    .k(list(REF, "columns", r.comps.iter().map(|i| fid(REF, "column", i)).collect()))
}
fn fnote(cat: u32, x: &Option<Note>) -> Node {
  opt(cat, "note?", x.as_ref().map(|x| n(cat, "note").trail(x.sp).k(flit(cat, "text", &x.lit))))
}
fn fcol(c: &Col) -> Node {
  let mut ty = n(COL, "type").v(c.ty.name.clone()).exact(c.ty.sp);
  ty.raw = Some(c.ty.raw.clone());
  ty.kids.push(list(COL, "args", c.ty.args.iter().map(|l| n(COL, "arg").v(l.val.key())).collect()));
  ty.kids.push(list(COL, "arrays", c.ty.arrays.iter().map(|a| n(COL, "array").v(format!("{:?}", a.0))).collect()));
  n(COL, "column").trail(c.sp).k(fid(COL, "name", &c.name)).k(ty).k(fsettings(0, &c.settings, true))
}
fn fidx(d: &IdxDef) -> Node {
  n(IDX, "index")
    .trail(d.sp)
    .k(list(
      IDX,
      "columns",
      d.cols
        .iter()
        .map(|c| match c {
          IdxCol::Name(i) => n(IDX, "index column").v("name").k(fid(IDX, "name", i)),
          IdxCol::Expr(l) => n(IDX, "index column").v("expr").k(flit(IDX, "expr", l)),
        })
        .collect(),
    ))
    .k(fsettings(IDX, &d.settings, false))
}

pub fn fblock(b: &Block) -> Node {
  match b {
    Block::Project(p) => n(TOP, "block")
      .v("project")
      .trail(p.sp)
      .k(fid(TOP, "name", &p.name))
      .k(list(BODY, "properties", p.props.iter().map(|a| fattr(BODY, a)).collect()))
      .k(n(BODY | SET, "database type").v(o(p.db.clone())))
      .k(fnote(BODY, &p.note)),
    Block::Table(t) => n(TOP, "block")
      .v("table")
      .trail(t.sp)
      .k(
        n(TOP, "ident")
          .trail(t.ident_sp)
          .k(opt(TOP, "schema?", t.schema.as_ref().map(|i| fid(TOP, "schema", i))))
          .k(fid(TOP, "name", &t.name)),
      )
      .k(opt(TOP, "alias?", t.alias.as_ref().map(|i| fid(TOP, "alias", i))))
      .k(fsettings(0, &t.settings, false))
      .k(list(COL, "columns", t.cols.iter().map(fcol).collect()))
      .k(fnote(BODY, &t.note))
      .k(opt(
        IDX,
        "indexes?",
        t.indexes
          .as_ref()
          .map(|x| n(IDX, "indexes").exact(x.sp).k(list(IDX, "definitions", x.defs.iter().map(fidx).collect()))),
      )),
    Block::Enum(e) => n(TOP, "block")
      .v("enum")
      .trail(e.sp)
      .k(
        n(TOP, "ident")
          .trail(e.ident_sp)
          .k(opt(TOP, "schema?", e.schema.as_ref().map(|i| fid(TOP, "schema", i))))
          .k(fid(TOP, "name", &e.name)),
      )
      .k(list(
        BODY,
        "values",
        e.values
          .iter()
          .map(|v| n(BODY, "enum value").trail(v.sp).k(fid(BODY, "name", &v.name)).k(fsettings(BODY, &v.settings, false)))
          .collect(),
      )),
    Block::Ref(r) => n(TOP | REF, "block")
      .v("ref")
      .trail(r.sp)
      .k(opt(TOP | REF, "name?", r.name.as_ref().map(|i| fid(TOP | REF, "name", i))))
      .k(n(REF, "relation").v(r.rel.sym()))
      .k(frefid("left", &r.lhs))
      .k(frefid("right", &r.rhs))
      .k(fsettings(REF, &r.settings, false)),
    Block::Group(g) => n(TOP, "block")
      .v("group")
      .trail(g.sp)
      .k(fid(TOP, "name", &g.name))
      .k(fsettings(0, &g.settings, false))
      .k(list(
        BODY,
        "items",
        g.items
          .iter()
          .map(|i| {
            n(BODY, "item")
              .trail(i.sp)
              .k(opt(BODY, "schema?", i.schema.as_ref().map(|x| fid(BODY, "schema", x))))
              .k(fid(BODY, "name", &i.name))
          })
          .collect(),
      ))
      .k(fnote(BODY, &g.note)),
    Block::Note(x) => n(TOP | BODY, "block").v("note").trail(x.sp).k(flit(TOP | BODY, "text", &x.lit)),
  }
}

pub fn facts(d: &Doc) -> Node {
  list(TOP, "document", d.blocks.iter().map(fblock).collect())
}

// ---------------------------------------------------------------- comparison

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum DKind {
  /// Different value, or different number of children.
  Value,
  Raw,
  Span,
}

#[derive(Clone, Debug)]
pub struct Diff {
  pub cat: u32,
  pub kind: DKind,
  pub path: String,
  pub want: String,
  pub got: String,
}

impl Diff {
  pub fn show(&self) -> String {
    format!("{:?} at {}: expected {:?}, got {:?}", self.kind, self.path, clip(&self.want), clip(&self.got))
  }
}

pub fn clip(s: &str) -> String {
  if s.chars().count() > 300 {
    let mut t: String = s.chars().take(300).collect();
    t.push('…');
    t
  } else {
    s.to_string()
  }
}

#[derive(Clone, Copy)]
pub struct Cmp {
  pub raw: bool,
  pub spans: bool,
  pub max: usize,
}
pub const FULL: Cmp = Cmp { raw: true, spans: true, max: 20 };
pub const NO_SPANS: Cmp = Cmp { raw: true, spans: false, max: 20 };
pub const VALUES: Cmp = Cmp { raw: false, spans: false, max: 20 };

/// End of `text[..end]` without trailing trivia is decided by the caller through `trim_end`.
pub fn diff(want: &Node, got: &Node, c: Cmp, trivia_end: &dyn Fn(Sp) -> usize, out: &mut Vec<Diff>) {
  let mut path = Vec::new();
  go(want, got, c, trivia_end, &mut path, out)
}

fn go(w: &Node, g: &Node, c: Cmp, te: &dyn Fn(Sp) -> usize, path: &mut Vec<String>, out: &mut Vec<Diff>) {
  if out.len() >= c.max {
    return;
  }
  path.push(w.label.to_string());
  let mut push = |kind, want: String, got: String| {
    out.push(Diff { cat: w.cat | g.cat, kind, path: path.join("/"), want, got });
  };
  let mut descend = true;
  if w.label != g.label || w.val != g.val {
    push(DKind::Value, format!("{}={}", w.label, w.val), format!("{}={}", g.label, g.val));
    descend = w.label == g.label && w.kids.len() == g.kids.len() && w.label != "block";
  }
  if c.raw && w.raw != g.raw {
    push(DKind::Raw, format!("{:?}", w.raw), format!("{:?}", g.raw));
  }
  if c.spans && w.spk != SpKind::None {
    let ok = match w.spk {
      SpKind::Exact => w.sp == g.sp,
      // same start; same end once trailing trivia is left out
      _ => w.sp.0 == g.sp.0 && g.sp.1 >= w.sp.1 && g.sp.1 <= te(w.sp),
    };
    if !ok {
      push(DKind::Span, format!("{:?}", w.sp), format!("{:?}", g.sp));
    }
  }
  if descend {
    if w.kids.len() != g.kids.len() {
      push(DKind::Value, format!("{} children", w.kids.len()), format!("{} children", g.kids.len()));
    } else {
      for (i, (a, b)) in w.kids.iter().zip(&g.kids).enumerate() {
        if w.kids.len() > 1 && a.label == w.kids[w.kids.len() - 1].label {
          path.push(format!("[{i}]"));
          go(a, b, c, te, path, out);
          path.pop();
        } else {
          go(a, b, c, te, path, out);
        }
      }
    }
  }
  path.pop();
}
