//! The analysis itself: the real `aquascope-driver` (rustc and the permission analysis) under the simulator.
use crate::{
  kernel::*,
  mdbook::clip,
  rng::Rng,
  scenario::{env_path, Meta, Outcome, Violation},
};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Case {
  pub property: String,
  pub seed: u64,
  pub cpus: usize,
  pub sched: Sched,
  pub progs: Vec<Program>,
  pub runs: Vec<Run>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Program {
  pub head: String,
  pub fns: Vec<String>,
  pub flows: bool,
  pub mode: Option<String>,
  /// What is wrong with it
  #[serde(default)]
  pub flaw: Option<Flaw>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Flaw {
  /// The delimiter with this number is not there
  Delimiter(usize),
  Prepend(String),
  Append(String),
  NotUtf8,
  Missing,
}

/// One execution of the analysis.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Run {
  /// The program analysed
  #[serde(default)]
  pub prog: usize,
  /// With nothing that earlier ones left
  #[serde(default)]
  pub fresh: bool,
  /// At the same time as the one before
  #[serde(default)]
  pub along: bool,
  /// Functions blotted out
  #[serde(default)]
  pub without: Vec<usize>,
  pub layout: u64,
  pub hashes: u64,
  pub dir: String,
  #[serde(default)]
  pub incremental: bool,
  #[serde(default)]
  pub wait_s: u64,
  #[serde(default)]
  pub cpus: usize,
  #[serde(default)]
  pub env: Vec<(String, String)>,
  #[serde(default)]
  pub faults: Vec<Fault>,
}

impl Program {
  fn text(&self, without: &[usize]) -> Option<Vec<u8>> {
    let mut s = self.head.clone();
    for (i, f) in self.fns.iter().enumerate() {
      if without.contains(&i) {
        s.extend(f.chars().map(|c| if c == '\n' { '\n' } else { ' ' }));
      } else {
        s.push_str(f);
      }
    }
    s.push_str("fn main() {}\n");
    match &self.flaw {
      None => {}
      Some(Flaw::Delimiter(n)) => {
        let at: Vec<usize> = s.match_indices(|c| "(){}".contains(c)).map(|m| m.0).collect();
        s.remove(at[n % at.len()]);
      }
      Some(Flaw::Prepend(t)) => s = format!("{t}\n{s}"),
      Some(Flaw::Append(t)) => s.push_str(t),
      Some(Flaw::NotUtf8) => {
        let mut b = s.into_bytes();
        let n = b.len() / 2;
        b[n] = 0xff;
        return Some(b);
      }
      Some(Flaw::Missing) => return None,
    }
    Some(s.into_bytes())
  }
}

fn flaw(r: &mut Rng) -> Flaw {
  match r.below(8) {
    0..=2 => Flaw::Delimiter(r.next() as usize & 0xffff),
    3 | 4 => Flaw::Prepend(
      r.pick(&[
        "#![feature(nope)]",
        "#![no_std]",
        "#![no_core]",
        "extern crate nope;",
        "use nope::x;",
        "use std::nope::{x, y};",
        "mod missing;",
        "compile_error!(\"no\");",
        "include!(\"nope.rs\");",
        "#![crate_type = \"lib\"]",
        "#![recursion_limit = \"1\"]",
        "#![deny(warnings)]",
        "macro_rules! m { () => { m!() } } m!();",
        "#[derive(Nope)] struct Q;",
      ])
      .to_string(),
    ),
    5 => Flaw::Append(r.pick(&["\"", "/* ", "fn", "'", "fn main() {}\n", "r#\"", "struct Q { x: }", "impl Nope for Rec {}", "const Q: u8 = 256 + ;", "}"]).to_string()),
    6 => Flaw::NotUtf8,
    _ => Flaw::Missing,
  }
}

use crate::program::program;

const NOISE: &[(&str, &[&str])] = &[
  ("RUST_BACKTRACE", &["0", "1", "full"]),
  ("LANG", &["C", "de_DE.UTF-8", "tr_TR.ISO-8859-9"]),
  ("LC_ALL", &["C", "C.UTF-8"]),
  ("TZ", &["UTC", "Asia/Kathmandu"]),
  ("HOME", &["/", "/sim/home"]),
  ("TERM", &["dumb", "xterm-256color"]),
  ("COLUMNS", &["1", "300"]),
  ("TMPDIR", &["/sim/tmp", "/nowhere"]),
  ("NO_COLOR", &["1"]),
  ("CARGO_TERM_COLOR", &["always"]),
  ("CARGO_INCREMENTAL", &["0", "1"]),
  ("CARGO_PKG_NAME", &["example", "x-y"]),
  ("CARGO_MANIFEST_DIR", &["/sim/w"]),
  ("SOURCE_DATE_EPOCH", &["0", "1700000000"]),
  ("RAYON_NUM_THREADS", &["1", "7"]),
  ("RUSTC_ICE", &["0"]),
  ("SHOULD_FAIL", &["1"]),
];

fn a_run(r: &mut Rng) -> Run {
  let mut env: Vec<(String, String)> = vec![];
  for _ in 0..r.below(4) {
    let (n, vs) = r.pick(NOISE);
    if !env.iter().any(|e| e.0 == *n) {
      env.push((n.to_string(), r.pick(vs).to_string()));
    }
  }
  Run {
    prog: 0,
    fresh: false,
    along: false,
    without: vec![],
    layout: r.next(),
    hashes: r.next(),
    dir: PLACES[r.below(3) as usize / 2].to_string(),
    incremental: r.chance(1, 2),
    wait_s: *r.pick(&[0, 0, 1, 86_400, 40_000_000]),
    cpus: *r.pick(&[1, 2, 4, 64]),
    env,
    faults: vec![],
  }
}

fn some_faults(r: &mut Rng) -> Vec<Fault> {
  let n = if r.chance(3, 4) { 1 } else { 2 };
  (0..n)
    .map(|_| {
      let (op, path, span): (&str, &str, u64) = *r.pick(&[
        ("open", "main.rs", 3),
        ("read", "main.rs", 3),
        ("stat", "main.rs", 3),
        ("open", ".rlib", 20),
        ("open", ".rmeta", 20),
        ("read", ".rlib", 20),
        ("mmap", ".rlib", 20),
        ("mmap", "", 60),
        ("open", "", 80),
        ("read", "", 80),
        ("stat", "", 80),
        ("getdents", "", 12),
        ("open", "inc", 4),
        ("mkdir", "", 4),
        ("write", "stdout", 2),
        ("write", "stdout", 2),
        ("write", "stdout", 2),
        ("write", "stderr", 4000),
        ("write", "inc", 4),
        ("thread", "", 4),
        ("any", "", 200),
      ]);
      let e = match op {
        "write" => *r.pick(&[libc::EPIPE, libc::ENOSPC, libc::EIO, libc::EINTR]),
        "mmap" => *r.pick(&[libc::ENOMEM, libc::EACCES]),
        "thread" => libc::EAGAIN,
        _ => *r.pick(&[libc::EIO, libc::EMFILE, libc::ENFILE, libc::ENOENT, libc::EACCES, libc::ENOMEM]),
      };
      let act = match r.below(10) {
        0 => Act::Crash,
        1 if op == "write" => Act::CrashAfter(r.below(3000) as usize),
        2..=4 if op == "write" => Act::Short(1 + r.below(3000) as usize),
        5 | 6 if e != libc::EINTR => Act::Persist(e),
        _ => Act::Errno(e),
      };
      Fault { op: op.into(), path: path.into(), proc: -1, nth: if r.chance(1, 2) { r.below(span.min(3)) } else { r.below(span) }, act }
    })
    .collect()
}

const PLACES: &[&str] = &["/sim/w", "/sim/other/place é/with a much longer name than the first"];

pub fn generate(property: &str, seed: u64) -> Case {
  let mut r = Rng::derive(seed, property);
  let n = if r.chance(1, 3) { 4 + r.below(5) as usize } else { 1 + r.below(4) as usize };
  let mut prog = program(&mut r, n);
  let mut runs = vec![Run { incremental: false, fresh: true, ..a_run(&mut r) }];
  let mut progs = vec![];
  if property == "D02" {
    if r.chance(1, 3) {
      prog.flaw = Some(flaw(&mut r));
    }
    progs.push(prog);
    for _ in 0..2 + r.below(3) {
      let faults = some_faults(&mut r);
      runs.push(Run { faults, ..a_run(&mut r) });
    }
  } else {
    if r.chance(1, 10) {
      prog.flaw = Some(flaw(&mut r));
    }
    progs.push(prog.clone());
    for _ in 0..1 + r.below(2) {
      runs.push(a_run(&mut r));
    }
    if r.chance(1, 3) {
      // one that fails or is killed, and another one in its place
      let mut v = Run { faults: some_faults(&mut r), incremental: true, ..a_run(&mut r) };
      if r.chance(2, 3) {
        v.faults = vec![Fault { op: "any".into(), path: "".into(), proc: -1, nth: r.below(400), act: Act::Crash }];
      }
      let w = Run { incremental: true, dir: v.dir.clone(), ..a_run(&mut r) };
      runs.extend([v, w]);
    }
    for _ in 0..if n > 1 && prog.flaw.is_none() { r.below(2 + n.min(3) as u64) } else { 0 } {
      let keep = r.below(n as u64) as usize;
      let mut without: Vec<usize> = (0..n).filter(|i| *i != keep && r.chance(1, 2)).collect();
      // those that call a function go with it
      let callers: Vec<usize> = (0..n).filter(|j| without.iter().any(|i| prog.fns[*j].contains(&format!("f{i}(")) && i != j)).collect();
      without.extend(callers);
      without.sort();
      without.dedup();
      if !without.is_empty() {
        runs.push(Run { without, ..a_run(&mut r) });
      }
    }
    if r.chance(1, 3) {
      // another program, or this one after an edit or with other options
      let mut other = prog.clone();
      match r.below(5) {
        0 => other = program(&mut r, n),
        1 => {
          let i = r.below(n as u64) as usize;
          other.fns[i] = program(&mut r, n).fns[i].clone();
        }
        2 => {
          let i = r.below(n as u64) as usize;
          other.fns[i] = format!("// é\n{}", other.fns[i]);
        }
        3 => other.flows = !other.flows,
        _ => other.mode = if other.mode.as_deref() == Some("All") { Some("Changes".into()) } else { Some("All".into()) },
      }
      progs.push(other);
      runs.insert(1, Run { prog: 1, incremental: false, fresh: true, ..a_run(&mut r) });
      let inc = r.chance(1, 2);
      for _ in 0..2 + r.below(2) {
        let at = 2 + r.below(runs.len() as u64 - 1) as usize;
        let v = Run { prog: r.below(2) as usize, incremental: inc, dir: PLACES[0].into(), ..a_run(&mut r) };
        runs.insert(at, v);
      }
    }
    // some at the same time
    for i in 1..runs.len() {
      if !runs[i].fresh && !runs[i - 1].fresh && r.chance(1, 4) {
        runs[i].along = true;
        if runs[i].dir == runs[i - 1].dir {
          runs[i].dir = PLACES.iter().find(|p| **p != runs[i - 1].dir).unwrap().to_string();
        }
      }
      // no more than two
      if runs[i].along && runs[i - 1].along {
        runs[i].along = false;
      }
    }
  }
  Case {
    property: property.into(),
    seed,
    cpus: 1 + r.below(4) as usize,
    sched: Sched { seed, strategy: r.pick(&["random", "pct", "rr"]).to_string(), malloc_period: 0, stall: 0 },
    progs,
    runs,
  }
}

pub struct Done {
  pub status: Option<Status>,
  pub out: Vec<u8>,
  pub err: Vec<u8>,
  pub fired: bool,
}

struct Started {
  p: usize,
  out: [usize; 2],
  faults: Vec<Fault>,
}

fn start(k: &mut Kernel, case: &Case, run: &Run) -> Started {
  let prog = &case.progs[run.prog];
  let bin = env_path("SIM_DRIVER");
  let sysroot = env_path("SIM_SYSROOT");
  k.real_prefixes = vec![sysroot.clone(), bin.rsplit_once('/').unwrap().0.into(), "/proc/self/exe".into(), "/usr/".into(), "/lib".into(), "/etc/ld".into()];
  k.layout = Some(run.layout);
  k.rng = Rng::new(run.hashes);
  k.now += run.wait_s as i64 * SEC;
  k.cpus = run.cpus.max(1);
  k.vfs.mkdir_p("/tmp");
  k.vfs.mkdir_p("/sim/tmp");
  k.vfs.mkdir_p(&format!("{}/src", run.dir));
  k.vfs.mkdir_p(&format!("{}/target/deps", run.dir));
  let source = format!("{}/src/main.rs", run.dir);
  match prog.text(&run.without) {
    Some(t) => k.vfs.put(&source, &t),
    None => k.vfs.remove(&source),
  }
  let mode = prog.mode.as_ref().map_or("null".to_string(), |m| format!("{m:?}"));
  let mut env: Vec<(String, String)> = vec![
    ("PATH".into(), "/usr/bin:/bin".into()),
    ("LD_LIBRARY_PATH".into(), format!("{sysroot}/lib")),
    ("SYSROOT".into(), sysroot.clone()),
    ("CARGO_PRIMARY_PACKAGE".into(), "1".into()),
    ("PLUGIN_ARGS".into(), format!("{{\"should_fail\":false,\"command\":{{\"Permissions\":{{\"steps_include_mode\":{mode},\"show_flows\":{}}}}}}}", prog.flows)),
  ];
  env.extend(run.env.iter().cloned());
  let sin = k.new_ofd(OKind::Null, false, "/dev/null");
  let mut outs = vec![];
  for n in ["stdout", "stderr"] {
    let po = k.new_pipe(usize::MAX);
    k.pipes[po].writers = 1;
    k.pipes[po].readers = 1;
    let o = k.new_ofd(OKind::PipeW(po), false, n);
    outs.push((o, po));
  }
  let mut faults = run.faults.clone();
  for f in &mut faults {
    f.proc = k.launches;
  }
  let mut argv = vec![bin.as_str(), "rustc", "--crate-name", "example", "--edition=2021", "src/main.rs", "--error-format=json", "--json=diagnostic-rendered-ansi,artifacts,future-incompat", "--crate-type", "bin", "--emit=dep-info,metadata", "-C", "embed-bitcode=no", "-C", "debuginfo=2", "--out-dir", "target/deps"];
  if run.incremental {
    argv.extend(["-C", "incremental=target/inc"]);
  }
  let p = k.start_real(&bin, &argv, &env, &run.dir, [sin, outs[0].0, outs[1].0]);
  Started { p, out: [outs[0].1, outs[1].1], faults }
}

/// Runs analyses at the same time.
fn execute(k: &mut Kernel, case: &Case, runs: &[Run]) -> Option<Vec<Done>> {
  let fired: u64 = k.fired.values().sum();
  let mut faults = vec![];
  let mut started = vec![];
  k.set_faults(vec![]);
  for r in runs {
    let s = start(k, case, r);
    faults.extend(s.faults.iter().cloned());
    started.push(s);
  }
  k.set_faults(faults);
  let limit = k.now + 600 * SEC;
  k.run(|k| started.iter().all(|s| k.procs[s.p].status.is_some()), 400_000 * runs.len() as u64, limit);
  if k.harness_error.is_some() {
    return None;
  }
  k.set_faults(vec![]);
  let fired = k.fired.values().sum::<u64>() > fired;
  let take = |k: &Kernel, o: usize| k.pipes[o].buf.iter().copied().collect::<Vec<u8>>();
  Some(started.iter().map(|s| Done { status: k.procs[s.p].status.clone(), out: take(k, s.out[0]), err: take(k, s.out[1]), fired }).collect())
}

/// What an analysis says.
#[derive(Clone, PartialEq)]
enum Said {
  /// by its status: that it failed
  Failed(String),
  Result(Vec<Value>),
  /// neither: why
  Nonsense(String),
}

fn said(d: &Done) -> Said {
  match &d.status {
    None => Said::Nonsense("it does not end".into()),
    Some(Status::Exit(0)) => match serde_json::from_slice::<Value>(&d.out) {
      Ok(Value::Array(v)) if v.iter().all(|x| x.get("Ok").is_some() != x.get("Err").is_some()) => {
        if v.is_empty() {
          Said::Nonsense("an empty result for a program that has bodies".into())
        } else {
          Said::Result(v)
        }
      }
      Ok(v) => Said::Nonsense(format!("not a list of results: {}", clip(&v.to_string()))),
      Err(e) => Said::Nonsense(format!("not JSON ({e}): {} bytes, {}", d.out.len(), clip(&String::from_utf8_lossy(&d.out)))),
    },
    Some(s) => Said::Failed(format!("{s:?}")),
  }
}

type At = (u64, u64, u64, u64);

fn range(v: &Value) -> Option<At> {
  let (s, e) = (&v.get("Ok")?["body_range"]["start"], &v["Ok"]["body_range"]["end"]);
  let n = |x: &Value| x.as_u64().expect("a position");
  Some((n(&s["line"]), n(&s["column"]), n(&e["line"]), n(&e["column"])))
}

pub fn run(k: &mut Kernel, case: &Case) -> Outcome {
  let mut out = Outcome::default();
  let mut bases: Vec<Option<Said>> = vec![None; case.progs.len()];
  // what was said about each function, whatever was around it
  let mut about: Vec<BTreeMap<At, Value>> = vec![BTreeMap::new(); case.progs.len()];
  let empty = k.vfs.clone();
  let mut done: Vec<Done> = vec![];
  for (i, r) in case.runs.iter().enumerate() {
    if done.is_empty() {
      if r.fresh {
        k.vfs = empty.clone();
      }
      let n = 1 + case.runs[i + 1..].iter().take_while(|x| x.along && !x.fresh).count();
      let Some(d) = execute(k, case, &case.runs[i..i + n]) else { return out };
      done = d;
      if n > 1 {
        out.count("analyses_at_the_same_time", n as u64);
      }
    }
    let d = done.remove(0);
    let prog = &case.progs[r.prog];
    if std::env::var_os("SIM_LOG").is_some() {
      println!("{}\n{:?} {}\n{}", String::from_utf8_lossy(&prog.text(&r.without).unwrap_or_default()), d.status, String::from_utf8_lossy(&d.out), String::from_utf8_lossy(&d.err).chars().take(2000).collect::<String>());
    }
    macro_rules! bad {
      ($p:expr, $c:expr, $($a:tt)*) => {
        out.violations.push(Violation { property: $p.to_string(), class: $c.to_string(), detail: format!("run {i}: {}", format!($($a)*)) })
      };
    }
    out.count("analyses", 1);
    let s = said(&d);
    match &s {
      Said::Nonsense(why) => {
        bad!("D02", if d.status.is_none() { "no-end" } else { "not-a-result" }, "{why}, though the status is {:?}", d.status);
        continue;
      }
      Said::Failed(st) => out.count(&format!("failed_{st}"), 1),
      Said::Result(v) => {
        out.nontrivial = true;
        for x in v {
          let key = if let Some(e) = x.get("Err") { format!("bodies_{}", e["type"].as_str().unwrap_or("?")) } else { "bodies_analysed".into() };
          out.count(&key, 1);
        }
      }
    }
    if let (Said::Result(v), None) = (&s, &prog.flaw) {
      // every function has a result or an error of its own, unless all of it failed
      let text = String::from_utf8(prog.text(&r.without).unwrap()).unwrap();
      let fns = text.matches("fn ").count();
      if v.len() < fns && !v.iter().any(|x| x.get("Err").map_or(false, |e| e["range"].is_null())) {
        bad!("D02", "partial-result", "status 0, but {} results for {fns} functions", v.len());
      }
    }
    if let (Said::Result(v), true) = (&s, r.faults.is_empty()) {
      let mut n = 0;
      for x in v {
        let Some(at) = range(x) else { continue };
        match about[r.prog].get(&at) {
          None => {
            about[r.prog].insert(at, x.clone());
          }
          Some(y) if x != y && !r.without.is_empty() => bad!("D01", "not-isolated", "without functions {:?} {}", r.without, diff("", y, x)),
          Some(_) => n += 1,
        }
      }
      if !r.without.is_empty() {
        out.count("functions_compared_without_others", n);
      }
    }
    let Some(f) = &bases[r.prog] else {
      if r.faults.is_empty() && r.without.is_empty() {
        bases[r.prog] = Some(s);
      }
      continue;
    };
    if d.fired && !r.faults.is_empty() {
      // it may fail, but then it says so
      out.count("analyses_with_faults", 1);
      if let (Said::Result(v), true) = (&s, s != *f) {
        let base: &[Value] = if let Said::Result(f) = f { f } else { &[] };
        let invented = v.iter().find(|x| x.get("Ok").is_some() && !base.contains(x));
        let errs = |v: &[Value]| v.iter().filter(|x| x.get("Err").is_some()).count();
        if let Some(x) = invented {
          bad!("D02", "wrong-result", "status 0, but {} instead of {}", clip(&x.to_string()), clip(&format!("{}", Value::from(base.to_vec()))));
        } else if !v.iter().any(|x| x.get("Err").is_some() && (x["Err"]["range"].is_null() || !base.contains(x) || errs(v) > errs(base))) {
          bad!("D02", "partial-result", "status 0, but {} of {} results, and no error among them", v.len(), base.len());
        }
        out.count("errors_reported", 1);
      }
    } else if r.without.is_empty() {
      out.count("compared", 1);
      match (f, &s) {
        (Said::Result(a), Said::Result(b)) if a != b => {
          bad!("D01", "differs", "{}", diff("", &Value::from(a.clone()), &Value::from(b.clone())));
        }
        (Said::Failed(_), Said::Failed(_)) | (Said::Result(_), Said::Result(_)) => {}
        (a, b) => {
          let n = |s: &Said| match s {
            Said::Failed(s) => s.clone(),
            _ => "a result".into(),
          };
          bad!("D01", "differs", "{} instead of {}", n(b), n(a));
        }
      }
    } else if let (Said::Result(a), Said::Result(b)) = (f, &s) {
      out.count("compared_without_others", 1);
      let theirs: Vec<_> = a.iter().filter_map(range).collect();
      if let Some(x) = b.iter().filter_map(range).find(|x| !theirs.contains(x)) {
        bad!("D01", "not-isolated", "the body at {x:?} is analysed only without functions {:?}", r.without);
      }
      let errs = |v: &[Value]| v.iter().filter(|x| x.get("Err").is_some()).count();
      if errs(b) > errs(a) {
        bad!("D01", "not-isolated", "{} errors instead of {} without functions {:?}", errs(b), errs(a), r.without);
      }
    }
  }
  out
}

fn diff(at: &str, a: &Value, b: &Value) -> String {
  match (a, b) {
    (Value::Array(x), Value::Array(y)) if x.len() == y.len() => {
      for (i, (p, q)) in x.iter().zip(y).enumerate() {
        if p != q {
          return diff(&format!("{at}/{i}"), p, q);
        }
      }
      at.into()
    }
    (Value::Object(x), Value::Object(y)) if x.keys().eq(y.keys()) => {
      for (n, p) in x {
        if *p != y[n] {
          return diff(&format!("{at}/{n}"), p, &y[n]);
        }
      }
      at.into()
    }
    _ => format!("at {at}: {} instead of {}", clip(&b.to_string()), clip(&a.to_string())),
  }
}

pub fn shrink(c: &Case) -> Vec<Case> {
  let mut v = vec![];
  let mut push = |f: &dyn Fn(&mut Case)| {
    let mut d = c.clone();
    f(&mut d);
    if let Some(r) = d.runs.first_mut() {
      r.along = false;
    }
    if d != *c && !d.runs.is_empty() && d.progs.iter().all(|p| !p.fns.is_empty()) {
      v.push(d);
    }
  };
  if c.runs.len() > 2 {
    for i in 1..c.runs.len() {
      push(&|d| d.runs = vec![d.runs[0].clone(), d.runs[i].clone()]);
    }
  }
  for i in 0..c.runs.len() {
    push(&|d| drop(d.runs.remove(i)));
    push(&|d| d.runs[i].along = false);
    push(&|d| d.runs[i].prog = 0);
  }
  if c.progs.len() > 1 && c.runs.iter().all(|r| r.prog == 0) {
    push(&|d| d.progs.truncate(1));
  }
  let same = c.progs.iter().all(|p| p.fns.len() == c.progs[0].fns.len());
  for i in 0..c.progs[0].fns.len() {
    push(&|d| {
      if !same {
        return;
      }
      for p in &mut d.progs {
        p.fns.remove(i);
      }
      for r in &mut d.runs {
        r.without = r.without.iter().filter(|j| **j != i).map(|j| if *j > i { j - 1 } else { *j }).collect();
      }
    });
  }
  push(&|d| d.progs[0].flaw = None);
  for i in 0..c.runs.len() {
    for j in 0..c.runs[i].faults.len() {
      push(&|d| drop(d.runs[i].faults.remove(j)));
    }
    push(&|d| {
      let r = &mut d.runs[i];
      r.env.clear();
      r.wait_s = 0;
      r.cpus = 1;
      r.dir = "/sim/w".into();
    });
    push(&|d| d.runs[i].incremental = false);
    push(&|d| d.runs[i].hashes = d.runs[0].hashes);
    push(&|d| d.runs[i].layout = d.runs[0].layout);
  }
  // statements
  for (n, i) in (0..c.progs.len()).flat_map(|n| (0..c.progs[n].fns.len()).map(move |i| (n, i))) {
    let lines = c.progs[n].fns[i].lines().count();
    for size in [8, 4, 2, 1] {
      if size > lines {
        continue;
      }
      for at in (1..lines.saturating_sub(size)).step_by(size) {
        push(&|d| {
          let l: Vec<&str> = d.progs[n].fns[i].lines().collect();
          let cut = &l[at..at + size];
          let open = cut.iter().map(|l| l.matches('{').count()).sum::<usize>();
          if open == cut.iter().map(|l| l.matches('}').count()).sum::<usize>() {
            d.progs[n].fns[i] = l[..at].iter().chain(&l[at + size..]).map(|l| format!("{l}\n")).collect();
          }
        });
      }
    }
  }
  v
}

pub fn meta(property: &str) -> Meta {
  Meta {
    level: "exploration",
    rule: "seed -> a program that moves, borrows and mutates, the options, and several analyses of it, each with its own memory layout (ASLR, heap), hash seeds, clock, directory, environment, CPU count, schedule and failing system calls; non-trivial: an analysis delivered results; distinct by the hash of the whole execution (every system call with its result, and every scheduling decision)",
    real: &["aquascope-driver binary built from /repo (plugin, permission analysis, boundaries, stepper, rustc_plugin, rustc_utils) with the real rustc_driver and standard library it links to; interpreter left out (its miri dependency is not available offline)"],
    stub: &[
      "kernel: processes, threads, futexes, pipes, signals, clocks, getrandom, addresses of mappings and heap, file system of the project (simulated)",
      "files of the toolchain are read from the host, with failures injected",
      "cargo (the driver is started with cargo's arguments and environment)",
    ],
    assumptions: &[
      "preemption happens at system calls, not between arbitrary instructions",
      "programs are those of the generator: ownership-heavy bodies over a fixed prelude",
    ],
    quick: if property == "D01" { 900 } else { 900 },
    thorough: 60_000,
  }
}
