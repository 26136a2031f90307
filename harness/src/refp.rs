//! Reference parser: a hand-written recursive-descent reading of the documented syntax, independent of
//! the grammar engine. It yields the expected tree with exact positions, or where and why it must fail.

use crate::model::*;

#[derive(Clone, Debug)]
pub enum RefErr {
  /// Start of the innermost statement that could not be completed, and the furthest character looked at.
  Syntax { lo: usize, hi: usize },
  /// Values that cannot be converted: span of the value, span of its attribute (if any).
  Conv(Vec<(Sp, Option<Sp>)>),
}

pub struct P<'a> {
  s: &'a str,
  b: &'a [u8],
  /// furthest character examined
  far: usize,
  /// furthest start of a failed statement
  stmt: usize,
  conv: Vec<(Sp, Option<Sp>)>,
}

type R<T> = Option<(T, usize)>;

/// Length of the line break at `i`, if any.
pub fn newline(b: &[u8], i: usize) -> usize {
  match b.get(i) {
    Some(b'\n') => 1,
    Some(b'\r') => {
      if b.get(i + 1) == Some(&b'\n') {
        2
      } else {
        1
      }
    }
    _ => 0,
  }
}

/// End of the whitespace and comments that start at `i`.
pub fn trivia(b: &[u8], mut i: usize, far: &mut usize) -> usize {
  loop {
    *far = (*far).max(i);
    match b.get(i) {
      Some(b' ') | Some(b'\t') | Some(b'\n') | Some(b'\r') => i += 1,
      Some(b'/') => {
        *far = (*far).max(i + 1);
        match b.get(i + 1) {
          Some(b'/') => {
            i += 2;
            while i < b.len() && newline(b, i) == 0 {
              i += 1;
            }
          }
          Some(b'*') => {
            let mut j = i + 2;
            loop {
              if j >= b.len() {
                *far = b.len();
                return i;
              }
              if b[j] == b'*' && b.get(j + 1) == Some(&b'/') {
                break;
              }
              j += 1;
            }
            i = j + 2;
          }
          _ => return i,
        }
      }
      _ => return i,
    }
  }
}

pub fn trivia_end(text: &str, sp: Sp) -> usize {
  let mut f = 0;
  trivia(text.as_bytes(), sp.1, &mut f)
}

pub fn parse(s: &str) -> Result<Doc, RefErr> {
  let mut p = P { s, b: s.as_bytes(), far: 0, stmt: 0, conv: vec![] };
  match p.doc() {
    Ok(d) => {
      if p.conv.is_empty() {
        Ok(d)
      } else {
        Err(RefErr::Conv(p.conv))
      }
    }
    Err(()) => Err(RefErr::Syntax { lo: p.stmt, hi: p.far }),
  }
}

impl<'a> P<'a> {
  fn at(&mut self, i: usize) -> Option<u8> {
    self.far = self.far.max(i);
    self.b.get(i).copied()
  }
  fn ws(&mut self, i: usize) -> usize {
    trivia(self.b, i, &mut self.far)
  }
  fn txt(&self, a: usize, z: usize) -> String {
    self.s[a..z].to_string()
  }
  fn ch(&mut self, i: usize, c: u8) -> Option<usize> {
    (self.at(i) == Some(c)).then_some(i + 1)
  }
  fn kw(&mut self, i: usize, k: &str) -> Option<usize> {
    for (n, c) in k.bytes().enumerate() {
      if !self.at(i + n).map(|x| x.eq_ignore_ascii_case(&c)).unwrap_or(false) {
        return None;
      }
    }
    Some(i + k.len())
  }
  /// Keyword that must be followed by whitespace or a comment.
  fn kw_sep(&mut self, i: usize, k: &str) -> Option<usize> {
    let e = self.kw(i, k)?;
    matches!(self.at(e), Some(b' ' | b'\t' | b'\r' | b'\n' | b'/')).then_some(e)
  }
  fn fail<T>(&mut self, i: usize) -> R<T> {
    self.stmt = self.stmt.max(i);
    None
  }

  // ---------------------------------------------------------------- tokens

  fn var(&mut self, i: usize) -> Option<usize> {
    if !self.at(i)?.is_ascii_alphabetic() {
      return None;
    }
    let mut j = i + 1;
    while matches!(self.at(j), Some(c) if c.is_ascii_alphanumeric() || c == b'_') {
      j += 1;
    }
    Some(j)
  }
  fn spaced(&mut self, i: usize) -> Option<usize> {
    if !self.at(i)?.is_ascii_alphabetic() {
      return None;
    }
    let word = |c: Option<u8>| matches!(c, Some(c) if c.is_ascii_alphanumeric() || c == b'_');
    let mut j = i + 1;
    loop {
      let c = self.at(j);
      if word(c) {
        j += 1;
      } else if c == Some(b' ') && word(self.at(j + 1)) {
        j += 2;
      } else {
        return Some(j);
      }
    }
  }
  /// Position after the closing quote, content range.
  fn quoted(&mut self, i: usize, q: u8) -> Option<(usize, Sp)> {
    self.ch(i, q)?;
    let mut j = i + 1;
    while j < self.b.len() && self.b[j] != q {
      j += 1;
    }
    self.far = self.far.max(j);
    (j < self.b.len()).then_some((j + 1, (i + 1, j)))
  }
  fn dq(&mut self, i: usize) -> R<Id> {
    let (e, c) = self.quoted(i, b'"')?;
    Some((Id { sp: (i, e), raw: self.txt(i, e), val: self.txt(c.0, c.1) }, e))
  }
  fn ident(&mut self, i: usize) -> R<Id> {
    if let Some(e) = self.var(i) {
      let t = self.txt(i, e);
      return Some((Id { sp: (i, e), raw: t.clone(), val: t }, e));
    }
    self.dq(i)
  }
  fn string(&mut self, i: usize) -> R<Lit> {
    let lead = |p: &Self, mut a: usize, z: usize| {
      while a < z && matches!(p.b[a], b' ' | b'\t' | b'\n' | b'\r') {
        a += 1;
      }
      a
    };
    let q3 = |p: &mut Self, i: usize| p.at(i) == Some(b'\'') && p.at(i + 1) == Some(b'\'') && p.at(i + 2) == Some(b'\'');
    if q3(self, i) {
      let mut j = i + 3;
      // leading whitespace is not part of the value
      j = lead(self, j, self.b.len());
      let a = j;
      while j < self.b.len() && !(self.b[j] == b'\'' && self.b.get(j + 1) == Some(&b'\'') && self.b.get(j + 2) == Some(&b'\'')) {
        j += 1;
      }
      if j < self.b.len() {
        let v = self.txt(a, j);
        self.far = self.far.max(j);
        return Some((Lit { sp: (i, j + 3), raw: self.txt(i, j + 3), val: Val::Str(v) }, j + 3));
      }
      self.far = self.b.len();
    }
    let (e, c) = self.quoted(i, b'\'')?;
    let a = lead(self, c.0, c.1);
    Some((Lit { sp: (i, e), raw: self.txt(i, e), val: Val::Str(self.txt(a, c.1)) }, e))
  }
  fn digits(&mut self, i: usize) -> Option<usize> {
    let mut j = i;
    while matches!(self.at(j), Some(c) if c.is_ascii_digit()) {
      j += 1;
    }
    (j > i).then_some(j)
  }
  fn value(&mut self, i: usize) -> R<Lit> {
    if let Some(x) = self.string(i) {
      return Some(x);
    }
    if let Some((e, c)) = self.quoted(i, b'`') {
      return Some((Lit { sp: (i, e), raw: self.txt(i, e), val: Val::Expr(self.txt(c.0, c.1)) }, e));
    }
    for (w, v) in [("true", Val::Bool(true)), ("false", Val::Bool(false)), ("null", Val::Null)] {
      let hit = w.bytes().enumerate().all(|(n, c)| self.at(i + n) == Some(c));
      if hit && !matches!(self.at(i + w.len()), Some(c) if c.is_ascii_alphanumeric() || c == b'_') {
        let e = i + w.len();
        return Some((Lit { sp: (i, e), raw: w.into(), val: v }, e));
      }
    }
    if let Some(e) = self.digits(i) {
      if self.at(e) == Some(b'.') {
        let z = self.digits(e + 1).unwrap_or(e + 1);
        let t = self.txt(i, z);
        let v = t.parse::<f64>().unwrap_or(f64::NAN);
        return Some((Lit { sp: (i, z), raw: t, val: Val::Dec(v) }, z));
      }
      let t = self.txt(i, e);
      let mut acc: Option<i64> = Some(0);
      for c in t.bytes() {
        acc = acc.and_then(|a| a.checked_mul(10)).and_then(|a| a.checked_add((c - b'0') as i64));
      }
      if acc.is_none() {
        self.conv.push(((i, e), None));
      }
      return Some((Lit { sp: (i, e), raw: t, val: Val::Int(acc.unwrap_or(0)) }, e));
    }
    if self.at(i) == Some(b'#') {
      let hex3 = |p: &mut Self, j: usize| (0..3).all(|n| matches!(p.at(j + n), Some(c) if c.is_ascii_hexdigit()));
      if hex3(self, i + 1) {
        let e = if hex3(self, i + 4) { i + 7 } else { i + 4 };
        return Some((Lit { sp: (i, e), raw: self.txt(i, e), val: Val::Hex(self.txt(i, e)) }, e));
      }
    }
    None
  }
  fn word(&mut self, i: usize) -> R<Lit> {
    let e = self.spaced(i)?;
    let t = self.txt(i, e);
    Some((Lit { sp: (i, e), raw: t.clone(), val: Val::Enum(t) }, e))
  }

  // ---------------------------------------------------------------- settings

  fn attr(&mut self, i: usize) -> R<Attr> {
    let e = self.spaced(i)?;
    let t = self.txt(i, e);
    let key = Id { sp: (i, e), raw: t.clone(), val: t };
    let j = self.ws(e);
    if let Some(j) = self.ch(j, b':') {
      let j = self.ws(j);
      let mark = self.conv.len();
      let v = match self.value(j) {
        Some(x) => Some(x),
        None => match self.word(j) {
          Some(x) => Some(x),
          None => self.dq(j).map(|(id, e)| (Lit { sp: id.sp, raw: id.raw, val: Val::Str(id.val) }, e)),
        },
      };
      if let Some((l, z)) = v {
        for c in &mut self.conv[mark..] {
          c.1 = Some((i, z));
        }
        return Some((Attr { sp: (i, z), key, val: Some(l) }, z));
      }
    }
    Some((Attr { sp: (i, e), key, val: None }, e))
  }
  fn property(&mut self, i: usize) -> R<Attr> {
    let mark = self.conv.len();
    match self.attr(i) {
      // a property has a value, which is not a double-quoted string
      Some((a, e)) if matches!(&a.val, Some(l) if !l.raw.starts_with('"')) => Some((a, e)),
      _ => {
        self.conv.truncate(mark);
        self.fail(i)
      }
    }
  }
  fn settings(&mut self, i: usize, col: bool) -> R<Settings> {
    let mark = self.conv.len();
    let r = self.settings_(i, col);
    if r.is_none() {
      self.conv.truncate(mark);
    }
    r
  }
  fn settings_(&mut self, i: usize, col: bool) -> R<Settings> {
    let mut j = self.ch(i, b'[')?;
    let mut s = Settings::default();
    let mut first = true;
    loop {
      let k = self.ws(j);
      let mut got = None;
      if col {
        got = self.ref_inline(k).map(|(r, e)| {
          s.refs.push(r);
          e
        });
      }
      if got.is_none() {
        got = self.attr(k).map(|(a, e)| {
          s.attrs.push(a);
          e
        });
      }
      match got {
        Some(e) => j = e,
        None if first => break,
        None => return None,
      }
      first = false;
      let k = self.ws(j);
      match self.ch(k, b',') {
        Some(k) => j = k,
        None => break,
      }
    }
    let k = self.ws(j);
    let e = self.ch(k, b']')?;
    s.sp = (i, e);
    Some((s, e))
  }

  // ---------------------------------------------------------------- relations

  fn rel(&mut self, i: usize) -> R<Rel> {
    match self.at(i)? {
      b'<' => {
        if self.at(i + 1) == Some(b'>') {
          Some((Rel::ManyMany, i + 2))
        } else {
          Some((Rel::OneMany, i + 1))
        }
      }
      b'>' => Some((Rel::ManyOne, i + 1)),
      b'-' => Some((Rel::OneOne, i + 1)),
      _ => None,
    }
  }
  fn comps(&mut self, i: usize) -> R<(Vec<Id>, bool)> {
    if let Some((id, e)) = self.ident(i) {
      return Some(((vec![id], false), e));
    }
    let mut j = self.ch(i, b'(')?;
    let mut v = vec![];
    loop {
      let k = self.ws(j);
      let (id, e) = self.ident(k)?;
      v.push(id);
      let k = self.ws(e);
      match self.ch(k, b',') {
        Some(k) => j = k,
        None => {
          let e = self.ch(k, b')')?;
          return Some(((v, true), e));
        }
      }
    }
  }
  fn ref_ident(&mut self, i: usize) -> R<RefId> {
    let (a, e) = self.ident(i)?;
    let j = self.ws(e);
    let j = self.ch(j, b'.')?;
    let j = self.ws(j);
    if let Some((b, e)) = self.ident(j) {
      let k = self.ws(e);
      if let Some(k) = self.ch(k, b'.') {
        let k = self.ws(k);
        // once `a.b.` is read there is no other reading
        let ((comps, paren), e) = self.comps(k)?;
        return Some((RefId { sp: (i, e), schema: Some(a), table: b, comps, paren }, e));
      }
    }
    let ((comps, paren), e) = self.comps(j)?;
    Some((RefId { sp: (i, e), schema: None, table: a, comps, paren }, e))
  }
  fn ref_inline(&mut self, i: usize) -> R<RefInline> {
    for (n, c) in b"ref".iter().enumerate() {
      if self.at(i + n) != Some(*c) {
        return None;
      }
    }
    let j = self.ws(i + 3);
    let j = self.ch(j, b':')?;
    let j = self.ws(j);
    let (rel, e) = self.rel(j)?;
    let j = self.ws(e);
    let (rhs, e) = self.ref_ident(j)?;
    Some((RefInline { sp: (i, e), rel, rhs }, e))
  }
  fn ref_stmt(&mut self, i: usize) -> R<Ref> {
    let Some(r) = self.ref_stmt_(i) else { return self.fail(i) };
    Some(r)
  }
  fn ref_stmt_(&mut self, i: usize) -> R<Ref> {
    let (lhs, e) = self.ref_ident(i)?;
    let j = self.ws(e);
    let (rel, e) = self.rel(j)?;
    let j = self.ws(e);
    let (rhs, mut e) = self.ref_ident(j)?;
    let j = self.ws(e);
    let mut settings = None;
    if let Some((mut s, z)) = self.settings(j, false) {
      s.derived = derive_rel(&s.attrs);
      for a in &s.attrs {
        if a.key.val == "update" || a.key.val == "delete" {
          if let Some(Lit { val: Val::Enum(v), sp, .. }) = &a.val {
            if !ACTIONS.contains(&v.as_str()) {
              self.conv.push((*sp, Some(a.sp)));
            }
          }
        }
      }
      settings = Some(s);
      e = z;
    }
    Some((Ref { sp: (i, e), name: None, rel, lhs, rhs, settings, block: false }, e))
  }
  fn ref_decl(&mut self, i: usize) -> R<Block> {
    let mark = self.conv.len();
    for block in [true, false] {
      if let Some(r) = self.ref_form(i, block) {
        return Some(r);
      }
      self.conv.truncate(mark);
    }
    self.fail(i)
  }
  fn ref_form(&mut self, i: usize, block: bool) -> R<Block> {
    let e = self.kw(i, "ref")?;
    let mut j = self.ws(e);
    let mut name = None;
    if let Some((id, e)) = self.ident(j) {
      name = Some(id);
      j = self.ws(e);
    }
    let j = self.ch(j, if block { b'{' } else { b':' })?;
    let j = self.ws(j);
    let (mut r, mut e) = self.ref_stmt(j)?;
    if block {
      let j = self.ws(e);
      e = self.ch(j, b'}')?;
    }
    r.name = name;
    r.block = block;
    Some((Block::Ref(r), e))
  }

  // ---------------------------------------------------------------- notes

  fn note(&mut self, i: usize) -> R<Note> {
    for block in [false, true] {
      if let Some(x) = self.note_form(i, block) {
        return Some(x);
      }
    }
    self.fail(i)
  }
  fn note_form(&mut self, i: usize, block: bool) -> R<Note> {
    let e = self.kw(i, "note")?;
    let j = self.ws(e);
    let j = self.ch(j, if block { b'{' } else { b':' })?;
    let j = self.ws(j);
    let (lit, mut e) = self.string(j)?;
    if block {
      let j = self.ws(e);
      e = self.ch(j, b'}')?;
    }
    Some((Note { sp: (i, e), lit, block }, e))
  }

  // ---------------------------------------------------------------- indexes

  fn idx_ident(&mut self, i: usize) -> R<IdxCol> {
    if let Some((id, e)) = self.ident(i) {
      return Some((IdxCol::Name(id), e));
    }
    let (e, c) = self.quoted(i, b'`')?;
    Some((IdxCol::Expr(Lit { sp: (i, e), raw: self.txt(i, e), val: Val::Str(self.txt(c.0, c.1)) }), e))
  }
  fn idx_settings(&mut self, i: usize) -> R<Settings> {
    let (mut s, e) = self.settings(i, false)?;
    s.derived = derive_idx(&s.attrs);
    for a in &s.attrs {
      if a.key.val == "type" {
        if let Some(l) = &a.val {
          if !INDEX_TYPES.contains(&l.val.text().as_str()) {
            self.conv.push((l.sp, Some(a.sp)));
          }
        }
      }
    }
    Some((s, e))
  }
  fn idx_def(&mut self, i: usize) -> R<IdxDef> {
    let mark = self.conv.len();
    let Some(r) = self.idx_def_(i) else {
      self.conv.truncate(mark);
      return self.fail(i);
    };
    Some(r)
  }
  fn idx_def_(&mut self, i: usize) -> R<IdxDef> {
    let mut cols = vec![];
    let mut e;
    let multi;
    if let Some((c, z)) = self.idx_ident(i) {
      cols.push(c);
      e = z;
      multi = false;
    } else {
      multi = true;
      let mut j = self.ch(i, b'(')?;
      loop {
        let k = self.ws(j);
        match self.idx_ident(k) {
          Some((c, z)) => {
            cols.push(c);
            j = z;
          }
          None if cols.is_empty() => {
            j = k;
            break;
          }
          None => return None,
        }
        let k = self.ws(j);
        match self.ch(k, b',') {
          Some(k) => j = k,
          None => break,
        }
      }
      let k = self.ws(j);
      e = self.ch(k, b')')?;
    }
    let j = self.ws(e);
    let mut settings = None;
    if let Some((s, z)) = self.idx_settings(j) {
      settings = Some(s);
      e = z;
    }
    Some((IdxDef { sp: (i, e), cols, settings, multi }, e))
  }
  fn indexes(&mut self, i: usize) -> R<Indexes> {
    let mark = self.conv.len();
    let Some(r) = self.indexes_(i) else {
      self.conv.truncate(mark);
      return self.fail(i);
    };
    Some(r)
  }
  fn indexes_(&mut self, i: usize) -> R<Indexes> {
    let e = self.kw(i, "indexes")?;
    let start = self.ws(e);
    let mut j = self.ch(start, b'{')?;
    let mut defs = vec![];
    loop {
      let k = self.ws(j);
      match self.idx_def(k) {
        Some((d, e)) => {
          defs.push(d);
          j = e;
        }
        None => {
          let e = self.ch(k, b'}')?;
          return Some((Indexes { sp: (start, e), defs }, e));
        }
      }
    }
  }

  // ---------------------------------------------------------------- tables

  fn arrays(&mut self, i: usize) -> (Vec<(Option<u32>, String)>, usize) {
    let mut out = vec![];
    let mut j = i;
    loop {
      let Some(k) = self.ch(j, b'[') else { return (out, j) };
      let (z, t) = match self.digits(k) {
        Some(z) => (z, Some((k, z))),
        None => (k, None),
      };
      let Some(e) = self.ch(z, b']') else { return (out, j) };
      match t {
        None => out.push((None, String::new())),
        Some((a, z)) => {
          let txt = self.txt(a, z);
          let mut acc: Option<u32> = Some(0);
          for c in txt.bytes() {
            acc = acc.and_then(|v| v.checked_mul(10)).and_then(|v| v.checked_add((c - b'0') as u32));
          }
          if acc.is_none() {
            self.conv.push(((a, z), None));
          }
          out.push((Some(acc.unwrap_or(0)), txt));
        }
      }
      j = e;
    }
  }
  fn args(&mut self, i: usize) -> R<Vec<Lit>> {
    let mark = self.conv.len();
    let r = self.args_(i);
    if r.is_none() {
      self.conv.truncate(mark);
    }
    r
  }
  fn args_(&mut self, i: usize) -> R<Vec<Lit>> {
    let mut j = self.ch(i, b'(')?;
    let mut v = vec![];
    loop {
      let k = self.ws(j);
      match self.value(k) {
        Some((l, e)) => {
          v.push(l);
          j = e;
        }
        None if v.is_empty() => break,
        None => return None,
      }
      let k = self.ws(j);
      match self.ch(k, b',') {
        Some(k) => j = k,
        None => break,
      }
    }
    let k = self.ws(j);
    let e = self.ch(k, b')')?;
    Some((v, e))
  }
  fn ty_tail(&mut self, t: &mut Ty, i: usize) -> usize {
    let mut j = i;
    if let Some((a, e)) = self.args(j) {
      t.args = a;
      t.has_args = true;
      j = e;
    }
    let (mut a, e) = self.arrays(j);
    t.arrays.append(&mut a);
    e
  }
  fn ty_body(&mut self, i: usize) -> R<Ty> {
    let mark = self.conv.len();
    if self.at(i) == Some(b'"') {
      let quoted = (|| {
        let e = self.spaced(i + 1)?;
        let mut t = Ty { base: self.txt(i + 1, e), quoted: true, ..Default::default() };
        let j = self.ty_tail(&mut t, e);
        t.inner = t.arrays.len();
        let j = self.ch(j, b'"')?;
        let (mut a, e) = self.arrays(j);
        t.arrays.append(&mut a);
        Some((t, e))
      })();
      if quoted.is_none() {
        self.conv.truncate(mark);
      }
      return quoted;
    }
    let e = self.var(i)?;
    let mut t = Ty { base: self.txt(i, e), ..Default::default() };
    let e = self.ty_tail(&mut t, e);
    Some((t, e))
  }
  fn ty(&mut self, i: usize) -> R<Ty> {
    let mut j = i;
    let mut schema = None;
    if let Some((id, e)) = self.ident(i) {
      if let Some(e) = self.ch(e, b'.') {
        schema = Some(id);
        j = e;
      }
    }
    // after `schema.` the dot has been taken: no other reading, a type name holds no dot
    let (mut t, e) = self.ty_body(j)?;
    t.name = match &schema {
      Some(s) => format!("{}.{}", s.val, t.base),
      None => t.base.clone(),
    };
    t.schema = schema;
    t.sp = (i, e);
    t.raw = self.txt(i, e);
    Some((t, e))
  }
  fn col(&mut self, i: usize) -> R<Col> {
    let mark = self.conv.len();
    let Some(r) = self.col_(i) else {
      self.conv.truncate(mark);
      return self.fail(i);
    };
    Some(r)
  }
  fn col_(&mut self, i: usize) -> R<Col> {
    let (name, e) = self.ident(i)?;
    let j = self.ws(e);
    let (ty, mut e) = self.ty(j)?;
    let j = self.ws(e);
    let mut settings = None;
    if let Some((mut s, z)) = self.settings(j, true) {
      s.derived = derive_col(&s.attrs);
      settings = Some(s);
      e = z;
    }
    Some((Col { sp: (i, e), name, ty, settings }, e))
  }
  fn decl_ident(&mut self, i: usize) -> R<(Option<Id>, Id)> {
    let (a, e) = self.ident(i)?;
    let j = self.ws(e);
    if let Some(j) = self.ch(j, b'.') {
      let j = self.ws(j);
      if let Some((b, e)) = self.ident(j) {
        return Some(((Some(a), b), e));
      }
    }
    Some(((None, a), e))
  }
  fn table(&mut self, i: usize) -> R<Block> {
    let mark = self.conv.len();
    let Some(r) = self.table_(i) else {
      self.conv.truncate(mark);
      return self.fail(i);
    };
    Some(r)
  }
  fn table_(&mut self, i: usize) -> R<Block> {
    let e = self.kw_sep(i, "table")?;
    let j = self.ws(e);
    let ((schema, name), mut e) = self.decl_ident(j)?;
    let mut t = Table { ident_sp: (j, e), schema, name, ..Default::default() };
    let j = self.ws(e);
    if let Some(k) = self.kw_sep(j, "as") {
      let k = self.ws(k);
      if let Some((id, z)) = self.ident(k) {
        t.alias = Some(id);
        e = z;
      }
    }
    let j = self.ws(e);
    if let Some((s, z)) = self.settings(j, false) {
      t.settings = Some(s);
      e = z;
    }
    let j = self.ws(e);
    let mut j = self.ch(j, b'{')?;
    loop {
      let k = self.ws(j);
      if let Some((c, e)) = self.col(k) {
        t.cols.push(c);
        j = e;
      } else if let Some((x, e)) = self.note(k) {
        t.note = Some(x);
        j = e;
      } else if let Some((x, e)) = self.indexes(k) {
        t.indexes = Some(x);
        j = e;
      } else {
        let e = self.ch(k, b'}')?;
        t.sp = (i, e);
        return Some((Block::Table(t), e));
      }
    }
  }

  // ---------------------------------------------------------------- other blocks

  fn enum_val(&mut self, i: usize) -> R<EnumVal> {
    let Some((name, mut e)) = self.ident(i) else { return self.fail(i) };
    let j = self.ws(e);
    let mut settings = None;
    if let Some((mut s, z)) = self.settings(j, false) {
      s.derived = derive_enum(&s.attrs);
      settings = Some(s);
      e = z;
    }
    Some((EnumVal { sp: (i, e), name, settings }, e))
  }
  fn enum_(&mut self, i: usize) -> R<Block> {
    let mark = self.conv.len();
    let Some(r) = self.enum__(i) else {
      self.conv.truncate(mark);
      return self.fail(i);
    };
    Some(r)
  }
  fn enum__(&mut self, i: usize) -> R<Block> {
    let e = self.kw_sep(i, "enum")?;
    let j = self.ws(e);
    let ((schema, name), e) = self.decl_ident(j)?;
    let mut x = Enum { ident_sp: (j, e), schema, name, ..Default::default() };
    let j = self.ws(e);
    let mut j = self.ch(j, b'{')?;
    loop {
      let k = self.ws(j);
      if let Some((v, e)) = self.enum_val(k) {
        x.values.push(v);
        j = e;
      } else {
        let e = self.ch(k, b'}')?;
        x.sp = (i, e);
        return Some((Block::Enum(x), e));
      }
    }
  }
  fn group(&mut self, i: usize) -> R<Block> {
    let mark = self.conv.len();
    let Some(r) = self.group_(i) else {
      self.conv.truncate(mark);
      return self.fail(i);
    };
    Some(r)
  }
  fn group_(&mut self, i: usize) -> R<Block> {
    let e = self.kw_sep(i, "tablegroup")?;
    let j = self.ws(e);
    let (name, mut e) = self.ident(j)?;
    let mut g = Group { name, ..Default::default() };
    let j = self.ws(e);
    if let Some((s, z)) = self.settings(j, false) {
      g.settings = Some(s);
      e = z;
    }
    let j = self.ws(e);
    let mut j = self.ch(j, b'{')?;
    loop {
      let k = self.ws(j);
      if let Some((x, e)) = self.note(k) {
        g.note = Some(x);
        j = e;
      } else if let Some(((schema, name), e)) = self.decl_ident(k) {
        g.items.push(Item { sp: (k, e), schema, name });
        j = e;
      } else {
        let e = self.ch(k, b'}')?;
        g.sp = (i, e);
        return Some((Block::Group(g), e));
      }
    }
  }
  fn project(&mut self, i: usize) -> R<Block> {
    let mark = self.conv.len();
    let Some(r) = self.project_(i) else {
      self.conv.truncate(mark);
      return self.fail(i);
    };
    Some(r)
  }
  fn project_(&mut self, i: usize) -> R<Block> {
    let e = self.kw_sep(i, "project")?;
    let j = self.ws(e);
    let (name, e) = self.ident(j)?;
    let mut p = Project { name, ..Default::default() };
    let j = self.ws(e);
    let mut j = self.ch(j, b'{')?;
    loop {
      let k = self.ws(j);
      if let Some((x, e)) = self.note(k) {
        p.note = Some(x);
        j = e;
      } else if let Some((a, e)) = self.property(k) {
        p.props.push(a);
        j = e;
      } else {
        let e = self.ch(k, b'}')?;
        p.db = derive_db(&p.props);
        p.sp = (i, e);
        return Some((Block::Project(p), e));
      }
    }
  }

  fn doc(&mut self) -> Result<Doc, ()> {
    let mut d = Doc::default();
    let mut j = 0;
    loop {
      let k = self.ws(j);
      if k >= self.b.len() {
        d.sp = (0, self.b.len());
        return Ok(d);
      }
      let got = self
        .project(k)
        .or_else(|| self.table(k))
        .or_else(|| self.enum_(k))
        .or_else(|| self.ref_decl(k))
        .or_else(|| self.group(k))
        .or_else(|| self.note(k).map(|(x, e)| (Block::Note(x), e)));
      match got {
        Some((b, e)) => {
          d.blocks.push(b);
          j = e;
        }
        None => return Err(()),
      }
    }
  }
}
