//! Runs cases in parallel, counts what the monitors saw, writes evidence and replays.

use crate::rng::{hash_str, Rng};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
  Quick,
  Thorough,
}

/// Everything a judgement depends on.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Input {
  pub kind: String,
  pub texts: Vec<String>,
  pub args: Vec<String>,
}

impl Input {
  pub fn one(kind: &str, text: String) -> Self {
    Input { kind: kind.into(), texts: vec![text], args: vec![] }
  }
  pub fn two(kind: &str, a: String, b: String) -> Self {
    Input { kind: kind.into(), texts: vec![a, b], args: vec![] }
  }
  pub fn hash(&self) -> u64 {
    let mut h = hash_str(&self.kind);
    for t in self.texts.iter().chain(&self.args) {
      h = crate::rng::mix(h ^ hash_str(t));
    }
    h
  }
  pub fn size(&self) -> usize {
    self.texts.iter().map(|t| t.len()).sum()
  }
}

#[derive(Clone, Debug)]
pub struct Viol {
  /// What kind of violation: stable under shrinking.
  pub sig: String,
  pub msg: String,
}

/// What the monitors saw.
#[derive(Default, Clone)]
pub struct Cov {
  pub counts: BTreeMap<String, u64>,
  pub viols: Vec<Viol>,
  /// The oracle had something to compare for this input.
  pub nontrivial: bool,
}

impl Cov {
  pub fn hit(&mut self, k: &str) {
    *self.counts.entry(k.to_string()).or_insert(0) += 1;
  }
  pub fn add(&mut self, k: &str, n: u64) {
    *self.counts.entry(k.to_string()).or_insert(0) += n;
  }
  pub fn max(&mut self, k: &str, n: u64) {
    let e = self.counts.entry(format!("max {k}")).or_insert(0);
    *e = (*e).max(n);
  }
  pub fn viol(&mut self, sig: impl Into<String>, msg: impl Into<String>) {
    self.viols.push(Viol { sig: sig.into(), msg: msg.into() });
  }
}

pub type GenFn = dyn Fn(&mut Rng, Tier, u64) -> Vec<Input> + Sync;
pub type JudgeFn = dyn Fn(&Input, &mut Cov) + Sync;

pub struct Spec<'a> {
  pub id: &'a str,
  pub rule: &'a str,
  pub gen: &'a GenFn,
  pub judge: &'a JudgeFn,
  /// Cases of the quick tier (thorough runs on time).
  pub quick: u64,
  /// Counters that must not be zero at the end, else the run decided nothing.
  pub must: Vec<&'a str>,
  pub assumptions: Vec<String>,
  /// Fixed inputs judged first.
  pub fixed: Vec<Input>,
  pub threads: usize,
}

pub struct Report {
  pub evals: u64,
  pub nontrivial: u64,
  pub distinct: u64,
  pub counts: BTreeMap<String, u64>,
  pub samples: Vec<String>,
  pub viols: Vec<(Viol, Input)>,
  pub wall: f64,
  pub errors: Vec<String>,
}

pub fn root() -> std::path::PathBuf {
  std::env::var("VMON_ROOT").map(Into::into).unwrap_or_else(|_| std::path::PathBuf::from("/verif"))
}

pub fn seed() -> u64 {
  std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}
pub fn tier() -> Tier {
  match std::env::var("VERIF_TIER").as_deref() {
    Ok("thorough") => Tier::Thorough,
    _ => Tier::Quick,
  }
}

pub fn time_limit(t: Tier) -> Duration {
  let d = match t {
    Tier::Quick => 40.0,
    Tier::Thorough => 600.0,
  };
  Duration::from_secs_f64(std::env::var("VMON_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(d))
}

/// Hook for the crash monitor: called with (thread, case) before each case.
pub static PROGRESS: std::sync::OnceLock<Box<dyn Fn(usize, u64) + Send + Sync>> = std::sync::OnceLock::new();

/// Stack of the worker threads.
pub static STACK: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(16 << 20);

pub const CASE_NONE: u64 = u64::MAX;

pub struct Beat {
  pub case: AtomicU64,
  pub since: AtomicU64,
  pub tid: AtomicU64,
}

pub fn run(spec: &Spec, t: Tier, sd: u64) -> Report {
  let start = Instant::now();
  let limit = time_limit(t);
  let n = match t {
    Tier::Quick => spec.quick * 3,
    Tier::Thorough => u64::MAX - 1,
  };
  let next = AtomicU64::new(0);
  let stop = AtomicBool::new(false);
  struct Acc {
    evals: u64,
    nontrivial: u64,
    seen: HashSet<u64>,
    counts: BTreeMap<String, u64>,
    samples: Vec<(u64, String)>,
    viols: Vec<(u64, Viol, Input)>,
    errors: Vec<String>,
  }
  let total = Mutex::new(Acc {
    evals: 0,
    nontrivial: 0,
    seen: HashSet::new(),
    counts: BTreeMap::new(),
    samples: vec![],
    viols: vec![],
    errors: vec![],
  });
  let merge = |acc: &mut Acc| {
    let mut tot = total.lock().unwrap();
    tot.evals += acc.evals;
    tot.nontrivial += acc.nontrivial;
    acc.evals = 0;
    acc.nontrivial = 0;
    tot.seen.extend(acc.seen.drain());
    for (k, v) in std::mem::take(&mut acc.counts) {
      let e = tot.counts.entry(k.clone()).or_insert(0);
      if k.starts_with("max ") {
        *e = (*e).max(v);
      } else {
        *e += v;
      }
    }
    tot.samples.append(&mut acc.samples);
    tot.viols.append(&mut acc.viols);
    tot.errors.append(&mut acc.errors);
    if tot.viols.len() >= 12 || tot.errors.len() > 3 {
      stop.store(true, Ordering::Relaxed);
    }
  };
  let one = |inp: &Input, idx: u64, acc: &mut Acc| {
    let mut c = Cov::default();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (spec.judge)(inp, &mut c)));
    if r.is_err() {
      acc.errors.push(format!(
        "harness panic in case {idx}: {} on {}",
        crate::real::LAST_PANIC.with(|p| p.borrow().clone()),
        crate::model::clip(&inp.texts.join("\n-----\n"))
      ));
      return;
    }
    acc.evals += 1;
    if c.nontrivial {
      acc.nontrivial += 1;
      acc.seen.insert(inp.hash());
      if idx < 200 && inp.size() < 400 {
        acc.samples.push((idx, format!("[{}] {}", inp.kind, inp.texts.join(" ⇔ "))));
      }
    }
    for (k, v) in c.counts {
      let e = acc.counts.entry(k.clone()).or_insert(0);
      if k.starts_with("max ") {
        *e = (*e).max(v);
      } else {
        *e += v;
      }
    }
    for v in c.viols {
      acc.viols.push((idx, v, inp.clone()));
    }
  };
  // fixed inputs first, on this thread
  {
    let mut acc = Acc { evals: 0, nontrivial: 0, seen: HashSet::new(), counts: BTreeMap::new(), samples: vec![], viols: vec![], errors: vec![] };
    for inp in &spec.fixed {
      one(inp, 0, &mut acc);
    }
    merge(&mut acc);
  }
  let slow = std::env::var("VMON_DEBUG").is_ok();
  std::thread::scope(|s| {
    for th in 0..spec.threads {
      let (next, stop, merge, one) = (&next, &stop, &merge, &one);
      std::thread::Builder::new()
        .stack_size(STACK.load(Ordering::Relaxed))
        .spawn_scoped(s, move || {
          let mut acc = Acc { evals: 0, nontrivial: 0, seen: HashSet::new(), counts: BTreeMap::new(), samples: vec![], viols: vec![], errors: vec![] };
          loop {
            let idx = next.fetch_add(1, Ordering::Relaxed);
            if idx >= n || stop.load(Ordering::Relaxed) || start.elapsed() > limit {
              break;
            }
            if let Some(p) = PROGRESS.get() {
              p(th, idx);
            }
            let mut rng = Rng::for_case(sd, spec.id, idx);
            let begun = Instant::now();
            let inputs = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (spec.gen)(&mut rng, t, idx))) {
              Ok(i) => i,
              Err(_) => {
                acc.errors.push(format!("generator panic in case {idx}: {}", crate::real::LAST_PANIC.with(|p| p.borrow().clone())));
                merge(&mut acc);
                continue;
              }
            };
            let made = begun.elapsed();
            for inp in &inputs {
              one(inp, idx, &mut acc);
            }
            if slow && begun.elapsed().as_secs_f64() > 1.0 {
              eprintln!("slow case {idx}: {made:?} to make, {:?} in all, {} bytes", begun.elapsed(), inputs.iter().map(|i| i.size()).sum::<usize>());
            }
            if !acc.viols.is_empty() || !acc.errors.is_empty() || acc.evals >= 256 {
              merge(&mut acc);
            }
          }
          if let Some(p) = PROGRESS.get() {
            p(th, CASE_NONE);
          }
          merge(&mut acc);
        })
        .unwrap();
    }
  });
  let mut tot = total.into_inner().unwrap();
  tot.samples.sort();
  tot.viols.sort_by_key(|v| (v.0, v.2.size()));
  Report {
    evals: tot.evals,
    nontrivial: tot.nontrivial,
    distinct: tot.seen.len() as u64,
    counts: tot.counts,
    samples: tot.samples.into_iter().map(|x| x.1).take(6).collect(),
    viols: tot.viols.into_iter().map(|v| (v.1, v.2)).collect(),
    wall: start.elapsed().as_secs_f64(),
    errors: tot.errors,
  }
}

// ---------------------------------------------------------------- shrinking

/// Removes pieces of a single-text input while the same kind of violation remains.
pub fn shrink(inp: &Input, sig: &str, judge: &JudgeFn) -> Input {
  if inp.texts.len() != 1 {
    return inp.clone();
  }
  let deadline = Instant::now() + Duration::from_secs(4);
  let bad = |t: &str| -> bool {
    let i = Input { kind: inp.kind.clone(), texts: vec![t.to_string()], args: inp.args.clone() };
    let mut c = Cov::default();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| judge(&i, &mut c)));
    r.is_ok() && c.viols.iter().any(|v| v.sig == sig)
  };
  let mut cur: Vec<char> = inp.texts[0].chars().collect();
  if cur.len() > 200_000 {
    return inp.clone();
  }
  let mut size = (cur.len() / 2).max(1);
  while Instant::now() < deadline {
    let mut i = 0;
    let mut changed = false;
    while i < cur.len() && Instant::now() < deadline {
      let end = (i + size).min(cur.len());
      let mut cand = cur[..i].to_vec();
      cand.extend_from_slice(&cur[end..]);
      let s: String = cand.iter().collect();
      if bad(&s) {
        cur = cand;
        changed = true;
      } else {
        i += size;
      }
    }
    if size == 1 {
      if !changed {
        break;
      }
    } else {
      size = (size / 2).max(1);
    }
  }
  Input { kind: inp.kind.clone(), texts: vec![cur.into_iter().collect()], args: inp.args.clone() }
}

// ---------------------------------------------------------------- files

pub fn jstr(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\r' => o.push_str("\\r"),
      '\t' => o.push_str("\\t"),
      c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

pub fn hexs(s: &str) -> String {
  s.bytes().map(|b| format!("{b:02x}")).collect()
}
pub fn unhex(s: &str) -> Option<String> {
  let b: Option<Vec<u8>> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect();
  String::from_utf8(b?).ok()
}

/// Line format: key, then hex; readable copies of the texts stand in comments.
pub fn write_replay(prop: &str, v: &Viol, inp: &Input) -> String {
  let dir = root().join("replays");
  let _ = std::fs::create_dir_all(&dir);
  let path = dir.join(format!("{prop}-{:016x}.replay", inp.hash()));
  let mut o = String::new();
  o.push_str(&format!("# property {prop}\n# {}\n", v.msg.replace('\n', "\n# ")));
  o.push_str(&format!("prop {prop}\nkind {}\nsig {}\n", hexs(&inp.kind), hexs(&v.sig)));
  for t in &inp.texts {
    o.push_str(&format!("text {}\n", hexs(t)));
  }
  for t in &inp.args {
    o.push_str(&format!("arg {}\n", hexs(t)));
  }
  for t in &inp.texts {
    if t.len() < 20_000 {
      o.push_str(&format!("# --- text\n# {}\n", t.replace('\r', "␍").replace('\n', "\n# ")));
    }
  }
  let _ = std::fs::write(&path, o);
  path.to_string_lossy().into_owned()
}

pub fn read_replay(path: &str) -> Option<(String, String, Input)> {
  let s = std::fs::read_to_string(path).ok()?;
  let (mut prop, mut sig, mut inp) = (String::new(), String::new(), Input::default());
  for l in s.lines() {
    let Some((k, v)) = l.split_once(' ').or(Some((l, ""))) else { continue };
    match k {
      "prop" => prop = v.into(),
      "kind" => inp.kind = unhex(v)?,
      "sig" => sig = unhex(v)?,
      "text" => inp.texts.push(unhex(v)?),
      "arg" => inp.args.push(unhex(v)?),
      _ => (),
    }
  }
  Some((prop, sig, inp))
}

pub fn write_evidence(spec_id: &str, rule: &str, assumptions: &[String], t: Tier, sd: u64, r: &Report, nviol: usize) {
  let dir = root().join("evidence");
  let _ = std::fs::create_dir_all(&dir);
  let counts: Vec<String> = r.counts.iter().map(|(k, v)| format!("      {}: {}", jstr(k), v)).collect();
  let samples: Vec<String> = r.samples.iter().map(|s| format!("      {}", jstr(s))).collect();
  let ass: Vec<String> = assumptions.iter().map(|s| format!("    {}", jstr(s))).collect();
  let o = format!(
    "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"samples\": [\n{}\n    ],\n    \"observed\": {{\n{}\n    }}\n  }},\n  \"assumptions\": [\n{}\n  ],\n  \"wall_s\": {:.3},\n  \"violations\": {}\n}}\n",
    jstr(spec_id),
    jstr(if t == Tier::Quick { "quick" } else { "thorough" }),
    sd,
    r.evals,
    r.distinct,
    jstr(rule),
    samples.join(",\n"),
    counts.join(",\n"),
    ass.join(",\n"),
    r.wall,
    nviol
  );
  let p = dir.join(format!("{spec_id}.json"));
  let tmp = dir.join(format!(".{spec_id}.json.tmp"));
  let _ = std::fs::write(&tmp, o);
  let _ = std::fs::rename(&tmp, &p);
}

// ---------------------------------------------------------------- known findings

/// Lines `finding property=<id> input=<hash> <what fails>` of known_findings.txt.
pub fn known(prop: &str) -> Vec<(u64, String)> {
  let Ok(s) = std::fs::read_to_string(root().join("known_findings.txt")) else { return vec![] };
  s.lines()
    .filter_map(|l| {
      let l = l.strip_prefix("finding: ")?;
      let l = l.strip_prefix(&format!("property={prop} input="))?;
      let (h, what) = l.split_once(' ')?;
      Some((u64::from_str_radix(h, 16).ok()?, what.to_string()))
    })
    .collect()
}

/// Runs one property and returns the exit status of the check.
pub fn check(spec: &Spec) -> i32 {
  let (t, sd) = (tier(), seed());
  let r = run(spec, t, sd);
  finish(spec, t, sd, r)
}

pub fn finish(spec: &Spec, t: Tier, sd: u64, mut r: Report) -> i32 {
  let kn = known(spec.id);
  let mut shown = 0;
  let mut sigs: HashSet<String> = HashSet::new();
  let viols = std::mem::take(&mut r.viols);
  let mut n = 0;
  for (v, inp) in &viols {
    let small = shrink(inp, &v.sig, spec.judge);
    if let Some((_, what)) = kn.iter().find(|k| k.0 == small.hash() || k.0 == inp.hash()) {
      println!("KNOWN-FINDING: property={} {}", spec.id, what);
      continue;
    }
    n += 1;
    if !sigs.insert(v.sig.clone()) || shown >= 5 {
      continue;
    }
    shown += 1;
    let mut c = Cov::default();
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (spec.judge)(&small, &mut c)));
    let v2 = c.viols.iter().find(|x| x.sig == v.sig).cloned().unwrap_or_else(|| v.clone());
    let path = write_replay(spec.id, &v2, &small);
    println!("VIOLATION property={} replay={}", spec.id, path);
    println!("  {}", v2.msg.replace('\n', "\n  "));
    for x in &small.texts {
      println!("  text: {}", crate::model::clip(&format!("{x:?}")));
    }
  }
  write_evidence(spec.id, spec.rule, &spec.assumptions, t, sd, &r, n);
  println!(
    "{}: {} evaluations, {} distinct non-trivial, {} violation(s), {:.1} s",
    spec.id, r.evals, r.distinct, n, r.wall
  );
  if n > 0 {
    return 1;
  }
  if !r.errors.is_empty() {
    for e in r.errors.iter().take(5) {
      eprintln!("ERROR of the check: {e}");
    }
    return 2;
  }
  let missing: Vec<_> = spec.must.iter().filter(|k| r.counts.get(**k).copied().unwrap_or(0) == 0).collect();
  if !missing.is_empty() || r.distinct == 0 {
    eprintln!("INCONCLUSIVE: nothing observed for {missing:?}");
    return 3;
  }
  0
}
