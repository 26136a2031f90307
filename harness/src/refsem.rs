//! Reference semantic check: every violation of the documented rules in a document, with the rule,
//! the culprit's place and what the message may quote. Written from the rules, not from the analyzer:
//! it looks at the whole document and collects everything instead of stopping at the first error.

use crate::model::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum Rule {
  ProjectMissing,
  DupProject,
  DupProperty,
  DupAttr,
  DupTable,
  DupColumn,
  DupAlias,
  DupEnum,
  DupEnumValue,
  DupGroup,
  DupItem,
  SchemaNotFound,
  TableNotFound,
  ColumnNotFound,
  EnumNotFound,
  EnumValueNotFound,
  FkType,
  FkKey,
  FkArity,
  Conflict,
  NullablePk,
  ArrayPk,
  DupPk,
  DupUnique,
  DupIndex,
  IndexSetting,
  NullConflict,
  EmptyIndex,
  TypeArgs,
  ArgValue,
  DefaultValue,
  DefaultNull,
  Exceeded,
}

pub const RULES: [Rule; 33] = [
  Rule::ProjectMissing,
  Rule::DupProject,
  Rule::DupProperty,
  Rule::DupAttr,
  Rule::DupTable,
  Rule::DupColumn,
  Rule::DupAlias,
  Rule::DupEnum,
  Rule::DupEnumValue,
  Rule::DupGroup,
  Rule::DupItem,
  Rule::SchemaNotFound,
  Rule::TableNotFound,
  Rule::ColumnNotFound,
  Rule::EnumNotFound,
  Rule::EnumValueNotFound,
  Rule::FkType,
  Rule::FkKey,
  Rule::FkArity,
  Rule::Conflict,
  Rule::NullablePk,
  Rule::ArrayPk,
  Rule::DupPk,
  Rule::DupUnique,
  Rule::DupIndex,
  Rule::IndexSetting,
  Rule::NullConflict,
  Rule::EmptyIndex,
  Rule::TypeArgs,
  Rule::ArgValue,
  Rule::DefaultValue,
  Rule::DefaultNull,
  Rule::Exceeded,
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Family {
  Project,
  Duplicate,
  Dangling,
  ForeignKey,
  Conflict,
  Keys,
  Types,
}

impl Rule {
  pub fn family(self) -> Family {
    use Rule::*;
    match self {
      ProjectMissing => Family::Project,
      DupProject | DupProperty | DupAttr | DupTable | DupColumn | DupAlias | DupEnum | DupEnumValue | DupGroup | DupItem => Family::Duplicate,
      SchemaNotFound | TableNotFound | ColumnNotFound | EnumNotFound | EnumValueNotFound => Family::Dangling,
      FkType | FkKey | FkArity => Family::ForeignKey,
      Conflict => Family::Conflict,
      NullablePk | ArrayPk | DupPk | DupUnique | DupIndex | IndexSetting | NullConflict | EmptyIndex => Family::Keys,
      TypeArgs | ArgValue | DefaultValue | DefaultNull | Exceeded => Family::Types,
    }
  }
  /// The message up to its first colon.
  pub fn prefix(self) -> &'static str {
    use Rule::*;
    match self {
      ProjectMissing => "Project setting not found",
      DupProject => "Duplicate project setting",
      DupProperty => "Duplicate property key",
      DupAttr => "Duplicate attribute key",
      DupTable => "Duplicate table name",
      DupColumn => "Duplicate column name",
      DupAlias => "Duplicate alias",
      DupEnum => "Duplicate enum name",
      DupEnumValue => "Duplicate enum value",
      DupGroup => "Duplicate table group name",
      DupItem => "Duplicate table group item",
      SchemaNotFound => "Schema not found",
      TableNotFound => "Table not found",
      ColumnNotFound => "Column not found",
      EnumNotFound => "Enum not found",
      EnumValueNotFound => "Enum value not found",
      FkType => "Mismatched foreign key type",
      FkKey => "Invalid foreign key",
      FkArity => "Mismatched composite foreign key",
      Conflict => "Conflict relation",
      NullablePk => "Nullable primary key",
      ArrayPk => "Array primary key",
      DupPk => "Duplicate primary key",
      DupUnique => "Duplicate unique key",
      DupIndex => "Duplicate index key",
      IndexSetting => "Invalid indexes setting",
      NullConflict => "Conflict nullable setting",
      EmptyIndex => "Empty indexes block",
      TypeArgs => "Invalid data type arguments",
      ArgValue => "Invalid argument value",
      DefaultValue => "Invalid default value",
      DefaultNull => "Default null in non-nullable",
      Exceeded => "Data type exceeded",
    }
  }
  pub fn of_message(m: &str) -> Option<Rule> {
    let p = m.split(':').next().unwrap_or("").trim();
    RULES.iter().copied().find(|r| r.prefix() == p)
  }
}

/// Element to remove so that the violation goes away (for the generator).
#[derive(Clone, Debug, PartialEq)]
pub enum Loc {
  Nothing,
  Block(usize),
  Prop(usize, usize),
  TableAttr(usize, usize),
  Col(usize, usize),
  ColAttr(usize, usize, usize),
  ColRef(usize, usize, usize),
  Alias(usize),
  IdxDef(usize, usize),
  Indexes(usize),
  EnumVal(usize, usize),
  EnumAttr(usize, usize, usize),
  IdxAttr(usize, usize, usize),
  RefAttr(usize, usize),
  GroupAttr(usize, usize),
  Item(usize, usize),
  TyArgs(usize, usize),
}

#[derive(Clone, Debug)]
pub struct Rv {
  pub rule: Rule,
  /// Places the error may point at (without trailing trivia).
  pub at: Vec<Sp>,
  /// What the message must contain.
  pub quotes: Vec<String>,
  /// False where the rules leave the verdict open.
  pub must: bool,
  pub loc: Loc,
}

pub const DEFAULT_SCHEMA: &str = "public";

fn sch(s: &Option<Id>) -> &str {
  s.as_ref().map(|i| i.val.as_str()).unwrap_or(DEFAULT_SCHEMA)
}

/// Canonical name of a documented type, with the number of arguments it takes if any are given.
pub fn known_type(s: &str) -> Option<(&'static str, usize)> {
  Some(match s {
    "bit" => ("bit", 1),
    "varbit" | "bit varying" => ("varbit", 1),
    "char" | "character" => ("char", 1),
    "varchar" | "character varying" => ("varchar", 1),
    "box" => ("box", 0),
    "cidr" => ("cidr", 0),
    "circle" => ("circle", 0),
    "inet" => ("inet", 0),
    "line" => ("line", 0),
    "lseg" => ("lseg", 0),
    "macaddr" => ("macaddr", 0),
    "macaddr8" => ("macaddr8", 0),
    "money" => ("money", 0),
    "path" => ("path", 0),
    "pg_lsn" => ("pg_lsn", 0),
    "pg_snapshot" => ("pg_snapshot", 0),
    "point" => ("point", 0),
    "polygon" => ("polygon", 0),
    "tsquery" => ("tsquery", 0),
    "tsvector" => ("tsvector", 0),
    "smallserial" | "serial2" => ("smallserial", 0),
    "serial" | "serial4" => ("serial", 0),
    "bigserial" | "serial8" => ("bigserial", 0),
    "smallint" | "int2" => ("smallint", 0),
    "integer" | "int" | "int4" => ("integer", 0),
    "bigint" | "int8" => ("bigint", 0),
    "real" | "float4" => ("real", 0),
    "double precision" | "float8" => ("double", 0),
    "bool" | "boolean" => ("bool", 0),
    "bytea" => ("bytea", 0),
    "date" => ("date", 0),
    "text" => ("text", 0),
    "time" | "time without time zone" => ("time", 1),
    "timetz" | "time with time zone" => ("timetz", 1),
    "timestamp" | "timestamp without time zone" => ("timestamp", 1),
    "timestamptz" | "timestamp with time zone" => ("timestamptz", 1),
    "uuid" => ("uuid", 0),
    "json" => ("json", 0),
    "jsonb" => ("jsonb", 0),
    "decimal" | "numeric" => ("decimal", 2),
    "xml" => ("xml", 0),
    _ => return None,
  })
}

/// Resolved type: two columns have the same type if these are equal.
pub fn type_key(t: &Ty) -> String {
  match known_type(&t.name) {
    Some((k, _)) => format!("known {k}"),
    None => {
      let (s, n) = t.name.rsplit_once('.').unwrap_or((DEFAULT_SCHEMA, &t.name));
      format!("other {s:?} {n:?}")
    }
  }
}

pub fn same_type(a: &Ty, b: &Ty) -> bool {
  type_key(a) == type_key(b)
    && a.args.len() == b.args.len()
    && a.args.iter().zip(&b.args).all(|(x, y)| x.val == y.val)
    && a.arrays.len() == b.arrays.len()
    && a.arrays.iter().zip(&b.arrays).all(|(x, y)| x.0 == y.0)
}

fn dups(attrs: &[Attr]) -> Vec<usize> {
  let mut seen = BTreeSet::new();
  (0..attrs.len()).filter(|&i| !seen.insert(attrs[i].key.val.clone())).collect()
}

fn has(s: &Option<Settings>, ks: &[&str]) -> bool {
  s.as_ref().is_some_and(|s| s.attrs.iter().any(|a| ks.contains(&a.key.val.as_str())))
}

pub fn col_is_pk(c: &Col) -> bool {
  has(&c.settings, &["pk", "primary key"])
}
pub fn col_is_unique(c: &Col) -> bool {
  has(&c.settings, &["unique"])
}
/// Last of `null` / `not null`.
pub fn col_null(c: &Col) -> Option<bool> {
  let s = c.settings.as_ref()?;
  s.attrs.iter().rev().find_map(|a| match a.key.val.as_str() {
    "null" => Some(true),
    "not null" => Some(false),
    _ => None,
  })
}
/// Attribute number and value of the default.
pub fn col_default(c: &Col) -> Option<(usize, &Lit)> {
  let s = c.settings.as_ref()?;
  s.attrs.iter().enumerate().rev().find(|(_, a)| a.key.val == "default").and_then(|(i, a)| a.val.as_ref().map(|l| (i, l)))
}
pub fn idx_is_key(d: &IdxDef) -> bool {
  has(&d.settings, &["pk", "unique"])
}
pub fn idx_type(d: &IdxDef) -> Option<String> {
  let s = d.settings.as_ref()?;
  s.attrs.iter().rev().find(|a| a.key.val == "type").and_then(|a| a.val.as_ref()).map(|l| l.val.text())
}

/// Part of an index, kept apart by kind.
fn idx_parts(d: &IdxDef) -> Vec<(bool, String)> {
  d.cols
    .iter()
    .map(|c| match c {
      IdxCol::Name(i) => (false, i.val.clone()),
      IdxCol::Expr(e) => (true, e.val.text()),
    })
    .collect()
}

/// A table, named by its schema and name.
pub type Tab = (String, String);

/// A relation with its endpoints as written and resolved.
#[derive(Clone, Debug)]
pub struct Rel2<'a> {
  pub rel: Rel,
  pub lhs: End<'a>,
  pub rhs: End<'a>,
  pub sp: Sp,
  pub loc: Loc,
  /// (attributes, block) of a standalone relation.
  pub settings: Option<&'a Settings>,
  pub inline: bool,
}

#[derive(Clone, Debug)]
pub struct End<'a> {
  pub schema: Option<&'a Id>,
  pub table: Tab,
  pub cols: Vec<&'a Id>,
  /// Span of the whole endpoint, of the schema part and of the table part.
  pub sp: Sp,
  pub schema_sp: Sp,
  pub table_sp: Sp,
  pub by_alias: bool,
}

impl End<'_> {
  pub fn set(&self) -> BTreeSet<&str> {
    self.cols.iter().map(|c| c.val.as_str()).collect()
  }
  pub fn same(&self, o: &End) -> bool {
    self.table == o.table && self.set() == o.set()
  }
}

pub struct Names<'a> {
  pub tables: BTreeMap<Tab, &'a Table>,
  pub enums: BTreeMap<Tab, &'a Enum>,
  pub aliases: BTreeMap<String, Tab>,
  pub schemas: BTreeSet<String>,
}

pub fn names(d: &Doc) -> Names<'_> {
  let mut n = Names { tables: BTreeMap::new(), enums: BTreeMap::new(), aliases: BTreeMap::new(), schemas: BTreeSet::new() };
  for t in d.tables() {
    let k = (sch(&t.schema).to_string(), t.name.val.clone());
    n.schemas.insert(k.0.clone());
    if let Some(a) = &t.alias {
      n.aliases.entry(a.val.clone()).or_insert_with(|| k.clone());
    }
    n.tables.entry(k).or_insert(t);
  }
  for e in d.enums() {
    let k = (sch(&e.schema).to_string(), e.name.val.clone());
    n.schemas.insert(k.0.clone());
    n.enums.entry(k).or_insert(e);
  }
  n
}

fn endpoint<'a>(n: &Names, r: &'a RefId) -> End<'a> {
  let alias = if r.schema.is_none() { n.aliases.get(&r.table.val) } else { None };
  match alias {
    Some(t) => End {
      schema: None,
      table: t.clone(),
      cols: r.comps.iter().collect(),
      sp: r.sp,
      schema_sp: r.sp,
      table_sp: r.sp,
      by_alias: true,
    },
    None => End {
      schema: r.schema.as_ref(),
      table: (sch(&r.schema).to_string(), r.table.val.clone()),
      cols: r.comps.iter().collect(),
      sp: r.sp,
      schema_sp: r.schema.as_ref().map(|s| s.sp).unwrap_or(r.table.sp),
      table_sp: r.table.sp,
      by_alias: false,
    },
  }
}

/// All relations: standalone ones in order, then the inline ones in order.
pub fn relations<'a>(d: &'a Doc, n: &Names) -> Vec<Rel2<'a>> {
  let mut v = vec![];
  for (i, b) in d.blocks.iter().enumerate() {
    if let Block::Ref(r) = b {
      v.push(Rel2 {
        rel: r.rel,
        lhs: endpoint(n, &r.lhs),
        rhs: endpoint(n, &r.rhs),
        sp: r.sp,
        loc: Loc::Block(i),
        settings: r.settings.as_ref(),
        inline: false,
      });
    }
  }
  for (i, b) in d.blocks.iter().enumerate() {
    if let Block::Table(t) = b {
      for (j, c) in t.cols.iter().enumerate() {
        for (k, r) in c.settings.iter().flat_map(|s| &s.refs).enumerate() {
          v.push(Rel2 {
            rel: r.rel,
            lhs: End {
              schema: t.schema.as_ref(),
              table: (sch(&t.schema).to_string(), t.name.val.clone()),
              cols: vec![&c.name],
              sp: r.sp,
              schema_sp: t.schema.as_ref().map(|s| s.sp).unwrap_or(t.ident_sp),
              table_sp: t.name.sp,
              by_alias: false,
            },
            rhs: endpoint(n, &r.rhs),
            sp: r.sp,
            loc: Loc::ColRef(i, j, k),
            settings: None,
            inline: true,
          });
        }
      }
    }
  }
  v
}

/// Is this list of columns declared a key of the table as a whole?
pub fn is_key(t: &Table, cols: &[&Id]) -> bool {
  let set: BTreeSet<&str> = cols.iter().map(|c| c.val.as_str()).collect();
  if cols.len() == 1 && t.cols.iter().find(|c| c.name.val == cols[0].val).is_some_and(|c| col_is_pk(c) || col_is_unique(c)) {
    return true;
  }
  t.indexes.iter().flat_map(|x| &x.defs).any(|d| {
    idx_is_key(d)
      && d.cols.len() == cols.len()
      && d.cols.iter().all(|c| matches!(c, IdxCol::Name(_)))
      && d.cols.iter().map(|c| if let IdxCol::Name(i) = c { i.val.as_str() } else { "" }).collect::<BTreeSet<_>>() == set
  })
}

pub fn violations(d: &Doc) -> Vec<Rv> {
  use Rule::*;
  let mut v: Vec<Rv> = vec![];
  macro_rules! viol {
    ($rule:expr, $at:expr, $loc:expr) => {
      v.push(Rv { rule: $rule, at: $at, quotes: vec![], must: true, loc: $loc })
    };
    ($rule:expr, $at:expr, $loc:expr, $q:expr) => {
      v.push(Rv { rule: $rule, at: $at, quotes: $q, must: true, loc: $loc })
    };
  }
  let nm = names(d);

  // the project
  let projects: Vec<(usize, &Project)> =
    d.blocks.iter().enumerate().filter_map(|(i, b)| if let Block::Project(p) = b { Some((i, p)) } else { None }).collect();
  if projects.is_empty() {
    viol!(ProjectMissing, vec![d.sp], Loc::Nothing);
  }
  for (i, _) in projects.iter().skip(1) {
    viol!(DupProject, vec![d.sp], Loc::Block(*i));
  }
  for (i, p) in &projects {
    for k in dups(&p.props) {
      viol!(DupProperty, vec![p.props[k].sp], Loc::Prop(*i, k));
    }
  }

  // tables, enums, groups
  let mut tables: BTreeSet<Tab> = BTreeSet::new();
  let mut enums: BTreeSet<Tab> = BTreeSet::new();
  let mut groups: BTreeSet<&str> = BTreeSet::new();
  let mut aliases: BTreeSet<&str> = BTreeSet::new();
  for (i, b) in d.blocks.iter().enumerate() {
    match b {
      Block::Table(t) => {
        if let Some(s) = &t.settings {
          for k in dups(&s.attrs) {
            viol!(DupAttr, vec![s.attrs[k].sp], Loc::TableAttr(i, k));
          }
        }
        if !tables.insert((sch(&t.schema).to_string(), t.name.val.clone())) {
          viol!(DupTable, vec![t.ident_sp], Loc::Block(i));
        }
        if let Some(a) = &t.alias {
          if !aliases.insert(&a.val) {
            viol!(DupAlias, vec![a.sp], Loc::Alias(i));
          }
        }
        table(t, i, &nm, &mut v);
      }
      Block::Enum(e) => {
        if !enums.insert((sch(&e.schema).to_string(), e.name.val.clone())) {
          viol!(DupEnum, vec![e.ident_sp], Loc::Block(i));
        }
        let mut seen = BTreeSet::new();
        for (j, x) in e.values.iter().enumerate() {
          if let Some(s) = &x.settings {
            for k in dups(&s.attrs) {
              viol!(DupAttr, vec![s.attrs[k].sp], Loc::EnumAttr(i, j, k));
            }
          }
          if !seen.insert(&x.name.val) {
            viol!(DupEnumValue, vec![x.sp], Loc::EnumVal(i, j));
          }
        }
      }
      Block::Group(g) => {
        if !groups.insert(&g.name.val) {
          viol!(DupGroup, vec![g.name.sp], Loc::Block(i));
        }
        if let Some(s) = &g.settings {
          for k in dups(&s.attrs) {
            viol!(DupAttr, vec![s.attrs[k].sp], Loc::GroupAttr(i, k));
          }
        }
        let mut seen: BTreeSet<Tab> = BTreeSet::new();
        for (j, x) in g.items.iter().enumerate() {
          let alias = if x.schema.is_none() { nm.aliases.get(&x.name.val) } else { None };
          let tab = alias.cloned().unwrap_or_else(|| (sch(&x.schema).to_string(), x.name.val.clone()));
          if !nm.tables.contains_key(&tab) {
            viol!(TableNotFound, vec![x.sp], Loc::Item(i, j));
          } else if !seen.insert(tab) {
            viol!(DupItem, vec![x.sp], Loc::Item(i, j));
          }
        }
      }
      _ => (),
    }
  }

  // relations
  let rels = relations(d, &nm);
  for (x, r) in rels.iter().enumerate() {
    if let (Some(s), Loc::Block(i)) = (r.settings, &r.loc) {
      for k in dups(&s.attrs) {
        viol!(DupAttr, vec![s.attrs[k].sp], Loc::RefAttr(*i, k));
      }
    }
    if r.lhs.cols.len() != r.rhs.cols.len() {
      viol!(FkArity, vec![r.sp], r.loc.clone());
    }
    let mut ends = vec![];
    for e in [&r.lhs, &r.rhs] {
      if !nm.schemas.contains(&e.table.0) {
        viol!(SchemaNotFound, vec![e.schema_sp], r.loc.clone());
        ends.push(None);
        continue;
      }
      let Some(t) = nm.tables.get(&e.table) else {
        viol!(TableNotFound, vec![e.table_sp], r.loc.clone());
        ends.push(None);
        continue;
      };
      for c in &e.cols {
        if !t.cols.iter().any(|x| x.name.val == c.val) {
          viol!(ColumnNotFound, vec![c.sp], r.loc.clone());
        }
      }
      ends.push(Some(*t));
    }
    if let (Some(lt), Some(rt)) = (ends[0], ends[1]) {
      for (a, b) in r.lhs.cols.iter().zip(&r.rhs.cols) {
        let ca = lt.cols.iter().find(|c| c.name.val == a.val);
        let cb = rt.cols.iter().find(|c| c.name.val == b.val);
        if let (Some(ca), Some(cb)) = (ca, cb) {
          if !same_type(&ca.ty, &cb.ty) {
            viol!(
              FkType,
              vec![r.sp],
              r.loc.clone(),
              vec![format!("'{}': '{}' (left)", a.val, ca.ty.raw), format!("'{}': '{}' (right)", b.val, cb.ty.raw)]
            );
          }
        }
      }
    }
    // keys; a column named twice on one side leaves it open what the key would be
    let odd = [&r.lhs, &r.rhs].iter().any(|e| e.set().len() != e.cols.len());
    let kl = ends[0].map(|t| is_key(t, &r.lhs.cols));
    let kr = ends[1].map(|t| is_key(t, &r.rhs.cols));
    let (bad, at) = match r.rel {
      Rel::OneOne => (kl == Some(false) && kr == Some(false), r.sp),
      Rel::ManyMany => (kl == Some(false) || kr == Some(false), r.sp),
      Rel::OneMany => (kl == Some(false), r.lhs.sp),
      Rel::ManyOne => (kr == Some(false), r.rhs.sp),
      Rel::Undef => (false, r.sp),
    };
    if bad || odd {
      // the message says which kind of relation it is about; a leading \u{1}: must not be said
      let mut quotes = vec![match r.rel {
        Rel::OneOne => "one-to-one",
        Rel::ManyMany => "many-to-many",
        _ => "referenced column",
      }
      .to_string()];
      quotes.push(format!("{}composite", if r.lhs.cols.len() > 1 { "" } else { "\u{1}" }));
      v.push(Rv { rule: FkKey, at: vec![at], quotes, must: bad && !odd, loc: r.loc.clone() });
    }
    // conflicts with an earlier relation
    for s in &rels[..x] {
      let many = |q: &Rel2<'_>| match q.rel {
        Rel::ManyOne => Some(true),
        Rel::OneMany => Some(false),
        _ => None,
      };
      let clash = match (many(r), many(s)) {
        (Some(a), Some(b)) => {
          let ea = if a { &r.lhs } else { &r.rhs };
          let eb = if b { &s.lhs } else { &s.rhs };
          ea.same(eb)
        }
        (None, None) if r.rel == s.rel => {
          let fwd = r.lhs.same(&s.lhs) && r.rhs.same(&s.rhs);
          let bwd = r.lhs.same(&s.rhs) && r.rhs.same(&s.lhs);
          fwd || bwd
        }
        _ => false,
      };
      if clash {
        v.push(Rv { rule: Conflict, at: vec![r.sp, s.sp], quotes: vec![], must: true, loc: r.loc.clone() });
      }
    }
  }
  v
}

fn table(t: &Table, i: usize, nm: &Names, v: &mut Vec<Rv>) {
  use Rule::*;
  let mut add = |rule: Rule, at: Sp, loc: Loc, quotes: Vec<String>, must: bool| v.push(Rv { rule, at: vec![at], quotes, must, loc });
  let mut seen = BTreeSet::new();
  let mut pk = false;
  let mut uniques: Vec<BTreeSet<(bool, String)>> = vec![];
  for (j, c) in t.cols.iter().enumerate() {
    if !seen.insert(&c.name.val) {
      add(DupColumn, c.sp, Loc::Col(i, j), vec![], true);
    }
    if let Some(s) = &c.settings {
      for k in dups(&s.attrs) {
        add(DupAttr, s.attrs[k].sp, Loc::ColAttr(i, j, k), vec![], true);
      }
      let pos = |k: &str| s.attrs.iter().position(|a| a.key.val == k);
      if let (Some(a), Some(b)) = (pos("null"), pos("not null")) {
        add(NullConflict, s.sp, Loc::ColAttr(i, j, a.max(b)), vec![], true);
      }
      if col_is_pk(c) {
        let at = s.attrs.iter().position(|a| a.key.val == "pk" || a.key.val == "primary key").unwrap_or(0);
        if pk {
          add(DupPk, c.sp, Loc::ColAttr(i, j, at), vec![], true);
        }
        pk = true;
        if col_null(c) == Some(true) {
          add(NullablePk, c.sp, Loc::ColAttr(i, j, pos("null").unwrap_or(0)), vec![], true);
        } else if pos("null").is_some() {
          // both are given: a contradiction of its own
          add(NullablePk, c.sp, Loc::ColAttr(i, j, pos("null").unwrap_or(0)), vec![], false);
        }
        if !c.ty.arrays.is_empty() {
          add(ArrayPk, c.sp, Loc::ColAttr(i, j, at), vec![], true);
        }
      }
      if col_is_unique(c) {
        uniques.push(BTreeSet::from([(false, c.name.val.clone())]));
      }
    }
    column_type(c, i, j, nm, &mut add);
  }
  let Some(x) = &t.indexes else { return };
  // (parts, type, certainly an index in the sense of the rule)
  let mut plain: Vec<(Vec<(bool, String)>, Option<String>, bool)> = vec![];
  for (j, def) in x.defs.iter().enumerate() {
    if def.cols.is_empty() {
      add(EmptyIndex, x.sp, Loc::IdxDef(i, j), vec![], true);
    }
    for c in &def.cols {
      if let IdxCol::Name(n) = c {
        if !t.cols.iter().any(|q| q.name.val == n.val) {
          add(ColumnNotFound, n.sp, Loc::IdxDef(i, j), vec![], true);
        }
      }
    }
    let parts = idx_parts(def);
    let set: BTreeSet<_> = parts.iter().cloned().collect();
    if let Some(s) = &def.settings {
      for k in dups(&s.attrs) {
        add(DupAttr, s.attrs[k].sp, Loc::IdxAttr(i, j, k), vec![], true);
      }
      let is = |k: &str| s.attrs.iter().any(|a| a.key.val == k);
      let ty = idx_type(def);
      if is("pk") as u8 + is("unique") as u8 + ty.is_some() as u8 > 1 {
        add(IndexSetting, s.sp, Loc::IdxDef(i, j), vec![], true);
      }
      if is("pk") {
        if pk {
          add(DupPk, def.sp, Loc::IdxDef(i, j), vec![], true);
        }
        pk = true;
      }
      if is("unique") {
        if uniques.contains(&set) {
          // together with `pk` in one definition (an error of its own) it is open which comes first
          add(DupUnique, def.sp, Loc::IdxDef(i, j), vec![], !is("pk"));
        }
        uniques.push(set);
      }
      // without a type, a definition with settings of its own is an index of its own;
      // for an empty list it is open
      if ty.is_some() || s.attrs.is_empty() {
        let sure = ty.is_some();
        if let Some(e) = plain.iter().find(|e| e.0 == parts && e.1 == ty) {
          add(DupIndex, def.sp, Loc::IdxDef(i, j), vec![], sure && e.2);
        }
        plain.push((parts, ty, sure));
      }
    } else {
      if plain.iter().any(|e| e.0 == parts && e.1.is_none()) {
        let sure = plain.iter().any(|e| e.0 == parts && e.1.is_none() && e.2);
        add(DupIndex, def.sp, Loc::IdxDef(i, j), vec![], sure);
      }
      plain.push((parts, None, true));
    }
  }
}

fn column_type(c: &Col, i: usize, j: usize, nm: &Names, add: &mut dyn FnMut(Rule, Sp, Loc, Vec<String>, bool)) {
  use Rule::*;
  let t = &c.ty;
  let known = known_type(&t.name);
  if let Some((_, n)) = known {
    if !t.args.is_empty() {
      if t.args.len() != n {
        add(TypeArgs, t.sp, Loc::TyArgs(i, j), vec![format!("'{}'", t.name), n.to_string()], true);
      }
      if !t.args.iter().all(|a| matches!(a.val, Val::Int(_))) {
        add(ArgValue, t.sp, Loc::TyArgs(i, j), vec![], true);
      }
    }
  }
  let Some((k, l)) = col_default(c) else { return };
  let loc = Loc::ColAttr(i, j, k);
  if known.is_none() {
    let (s, n) = t.name.rsplit_once('.').unwrap_or((DEFAULT_SCHEMA, &t.name));
    let key = (s.to_string(), n.to_string());
    if !nm.schemas.contains(s) {
      add(SchemaNotFound, t.sp, loc.clone(), vec![], true);
    } else {
      match nm.enums.get(&key) {
        None => add(EnumNotFound, t.sp, loc.clone(), vec![], true),
        Some(e) => {
          let names_value = !matches!(l.val, Val::Null | Val::Expr(_));
          if names_value && !e.values.iter().any(|x| x.name.val == l.val.text()) {
            add(EnumValueNotFound, l.sp, loc.clone(), vec![], true);
          }
        }
      }
    }
  }
  let base = known.map(|k| k.0).unwrap_or("");
  match &l.val {
    Val::Str(s) => {
      let len = s.chars().count() as i64;
      let n = match t.args.first().map(|a| &a.val) {
        Some(Val::Int(n)) => Some(*n),
        _ => None,
      };
      let bad = match (base, n) {
        ("bit" | "char", Some(n)) => len != n,
        ("varbit" | "varchar", Some(n)) => len > n,
        _ => false,
      };
      if bad {
        add(DefaultValue, l.sp, loc, vec![format!("'{s}'"), format!("'{}'", t.raw)], true);
      }
    }
    Val::Int(n) => {
      let bad = match base {
        "smallint" => *n > i16::MAX as i64,
        "integer" => *n > i32::MAX as i64,
        _ => false,
      };
      if bad {
        add(Exceeded, l.sp, loc, vec![format!("'{}'", t.raw)], true);
      }
    }
    Val::Bool(b) => {
      if base != "bool" {
        add(DefaultValue, l.sp, loc, vec![format!("'{b}'"), format!("'{}'", t.raw)], true);
      }
    }
    Val::Null => {
      let declared = c.settings.as_ref().is_some_and(|s| s.attrs.iter().any(|a| a.key.val == "null"));
      if col_null(c) != Some(true) {
        // both `null` and `not null`: a contradiction of its own
        add(DefaultNull, l.sp, loc, vec![], !declared);
      }
    }
    _ => (),
  }
}
