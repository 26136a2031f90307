mod gen;
mod meta;
#[cfg(feature = "hooks")]
mod hooked;
mod model;
mod mutate;
mod gensem;
mod proc;
mod real;
mod refsem;
mod sem;
mod refp;
mod render;
mod rng;
mod runner;
mod tree;

use runner::*;

#[cfg(not(feature = "plain_alloc"))]
#[global_allocator]
static ALLOC: proc::count::Counting = proc::count::Counting;

fn judge_of(id: &str) -> Option<&'static JudgeFn> {
  Some(match id {
    "P03" => &tree::judge03,
    "P04" => &tree::judge04,
    "P05" => &tree::judge05,
    "P06" => &tree::judge06,
    "P07" => &tree::judge07,
    "P08" => &tree::judge08,
    "P09" => &tree::judge09,
    "P10" => &tree::judge10,
    "P11" => &meta::judge11,
    "P12" => &meta::judge12,
    "P15" => &meta::judge15,
    "P30" => &meta::judge30,
    "P13" => &tree::judge13,
    "P14" => &tree::judge14,
    "P16" => &sem::judge16,
    "P17" => &sem::judge17,
    "P18" => &sem::judge18,
    "P19" => &sem::judge19,
    "P20" => &sem::judge20,
    "P21" => &sem::judge21,
    "P22" => &sem::judge22,
    "P23" => &sem::judge23,
    "P24" => &sem::judge24,
    "P25" => &sem::judge25,
    "P26" => &sem::judge26,
    "P01" => &proc::judge01,
    "P02" => &proc::judge02,
    "P27" => &proc::judge27,
    #[cfg(feature = "hooks")]
    "P28" => &hooked::judge28,
    #[cfg(feature = "hooks29")]
    "P29" => &hooked::judge29,
    _ => return None,
  })
}

fn run_prop(id: &str) -> i32 {
  match id {
    "P03" => tree::p03(),
    "P04" => tree::p04(),
    "P05" => tree::p05(),
    "P06" => tree::p06(),
    "P07" => tree::p07(),
    "P08" => tree::p08(),
    "P09" => tree::p09(),
    "P10" => tree::p10(),
    "P11" => meta::p11(),
    "P12" => meta::p12(),
    "P15" => meta::p15(),
    "P30" => meta::p30(),
    "P13" => tree::p13(),
    "P14" => tree::p14(),
    "P16" => sem::p16(),
    "P17" => sem::p17(),
    "P18" => sem::p18(),
    "P19" => sem::p19(),
    "P20" => sem::p20(),
    "P21" => sem::p21(),
    "P22" => sem::p22(),
    "P23" => sem::p23(),
    "P24" => sem::p24(),
    "P25" => sem::p25(),
    "P26" => sem::p26(),
    "P01" => proc::p01(),
    "P02" => proc::p02(),
    "P27" => proc::p27(),
    #[cfg(feature = "hooks")]
    "P28" => hooked::p28(),
    #[cfg(feature = "hooks29")]
    "P29" => hooked::p29(),
    _ => {
      eprintln!("unknown property {id}");
      2
    }
  }
}

fn replay(path: &str) -> i32 {
  let Some((prop, sig, inp)) = read_replay(path) else {
    eprintln!("cannot read {path}");
    return 2;
  };
  let Some(j) = judge_of(&prop) else {
    eprintln!("no judge for {prop}");
    return 2;
  };
  if sig == "crash" {
    return match proc::crashes(&inp.texts[0]) {
      Some(w) => {
        println!("{prop}: {w}");
        println!("VIOLATION property={prop} replay={path}");
        1
      }
      None => {
        println!("{prop}: the recorded violation does not occur");
        0
      }
    };
  }
  let mut c = Cov::default();
  j(&inp, &mut c);
  for v in &c.viols {
    println!("{}: {} [{}]", prop, v.msg, v.sig);
  }
  if c.viols.iter().any(|v| v.sig == sig) {
    println!("VIOLATION property={prop} replay={path}");
    1
  } else {
    println!("{prop}: the recorded violation does not occur");
    0
  }
}

fn main() {
  real::quiet_panics();
  let a: Vec<String> = std::env::args().skip(1).collect();
  let num = |i: usize| a[i].parse::<usize>().unwrap_or(0);
  let code = match a.first().map(|s| s.as_str()) {
    Some("replay") if a.len() > 1 => replay(&a[1]),
    Some("child01") if a.len() > 1 => proc::p01_child(&a[1]),
    Some("one01") if a.len() > 1 => proc::one01(&a[1]),
    Some("child27") if a.len() > 2 => proc::p27_child(a[1].parse().unwrap_or(0), a[2].parse().unwrap_or(1)),
    Some("costs") => proc::costs(),
    Some("san") if a.len() > 3 => proc::san(&a[1], num(2), a[3] == "light"),
    Some("santexts") if a.len() > 4 => proc::san_write(num(1) as u64, num(2), num(3), &a[4]),
    Some(id) => run_prop(id),
    None => 2,
  };
  std::process::exit(code);
}
