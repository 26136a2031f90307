//! Calls into the code under test.

use crate::model::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq)]
pub struct ErrInfo {
  /// A message of the library itself (semantic or conversion error), `None` for an error of the grammar.
  pub msg: Option<String>,
  pub loc: Sp,
  pub is_pos: bool,
  pub lc: Vec<(usize, usize)>,
  pub line: String,
  pub shown: String,
}

#[derive(Clone, Debug)]
pub enum Out<T> {
  Ok(T),
  Err(ErrInfo),
  Panic(String),
}

impl<T> Out<T> {
  pub fn tag(&self) -> &'static str {
    match self {
      Out::Ok(_) => "ok",
      Out::Err(_) => "err",
      Out::Panic(_) => "panic",
    }
  }
  pub fn brief(&self) -> String {
    match self {
      Out::Ok(_) => "accepted".into(),
      Out::Err(e) => format!("rejected at {:?} ({})", e.loc, e.msg.clone().unwrap_or_else(|| "syntax".into())),
      Out::Panic(p) => format!("panicked: {p}"),
    }
  }
}

pub fn info<R: pest::RuleType>(e: &pest::error::Error<R>) -> ErrInfo {
  use pest::error::{ErrorVariant, InputLocation, LineColLocation};
  let (loc, is_pos) = match e.location {
    InputLocation::Pos(p) => ((p, p), true),
    InputLocation::Span(s) => (s, false),
  };
  ErrInfo {
    msg: match &e.variant {
      ErrorVariant::CustomError { message } => Some(message.clone()),
      _ => None,
    },
    loc,
    is_pos,
    lc: match e.line_col {
      LineColLocation::Pos(p) => vec![p],
      LineColLocation::Span(a, b) => vec![a, b],
    },
    line: e.line().to_string(),
    shown: format!("{e}"),
  }
}

thread_local! {
  pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Panics inside the code under test are recorded, not printed.
pub fn quiet_panics() {
  let default = std::panic::take_hook();
  std::panic::set_hook(Box::new(move |i| {
    let s = i.to_string();
    let inside = INSIDE.with(|x| x.get());
    LAST_PANIC.with(|p| *p.borrow_mut() = s);
    if !inside {
      default(i);
    }
  }));
}

thread_local! {
  static INSIDE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
  let was = INSIDE.with(|x| x.replace(true));
  let r = catch_unwind(AssertUnwindSafe(f));
  INSIDE.with(|x| x.set(was));
  r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// Unchecked parse.
pub fn raw(text: &str) -> Out<Doc> {
  match guard(|| match dbml_rs::parse_dbml_unchecked(text) {
    Ok(s) => Out::Ok(from_real(&s)),
    Err(e) => Out::Err(info(&e)),
  }) {
    Ok(o) => o,
    Err(p) => Out::Panic(p),
  }
}

/// Checked parse, verdict only.
pub fn checked(text: &str) -> Out<()> {
  match guard(|| match dbml_rs::parse_dbml(text) {
    Ok(_) => Out::Ok(()),
    Err(e) => Out::Err(info(&e)),
  }) {
    Ok(o) => o,
    Err(p) => Out::Panic(p),
  }
}

/// Checked parse with its tree.
pub fn checked_tree(text: &str) -> Out<Doc> {
  match guard(|| match dbml_rs::parse_dbml(text) {
    Ok(s) => Out::Ok(from_real(&s)),
    Err(e) => Out::Err(info(&e)),
  }) {
    Ok(o) => o,
    Err(p) => Out::Panic(p),
  }
}

/// Short name of the rule in a semantic error: the message up to its first colon.
pub fn rule_of(e: &ErrInfo) -> Option<String> {
  e.msg.as_ref().map(|m| m.split(':').next().unwrap_or("").trim().to_string())
}
