//! The search: workers over seeds, minimisation, replay files and evidence.
use crate::{
  kernel::*,
  rng::Rng,
  scenario::{self, Case, Outcome, Violation},
};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::{
  collections::{BTreeMap, BTreeSet},
  io::{BufRead, BufReader, Write},
  process::{Command, Stdio},
  time::{Duration, Instant},
};

/// What one simulated execution left.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Report {
  pub seed: u64,
  pub out: Outcome,
  pub steps: u64,
  pub sim_ns: i64,
  pub hash: u64,
  pub sched_hash: u64,
  pub switches: u64,
  pub switch_points: u64,
  pub fired: BTreeMap<String, u64>,
  pub probes: BTreeMap<String, u64>,
  pub unknown: BTreeMap<i64, u64>,
  pub error: Option<String>,
  #[serde(default)]
  pub repeated: bool,
  #[serde(default)]
  pub diverged: bool,
}

#[derive(Serialize, Deserialize)]
struct ReplayFile {
  property: String,
  class: String,
  detail: String,
  found_with_seed: u64,
  hash: String,
  case: Case,
  /// The recorded choices, run-length encoded: [value, count].
  trace: Vec<(u16, u32)>,
  context_switches: u64,
  log: Vec<String>,
}

#[derive(Deserialize, Clone, Debug)]
struct Known {
  property: String,
  class: String,
  /// All of these stand in the violation's detail.
  #[serde(default)]
  contains: Vec<String>,
  what: String,
}

fn known() -> Vec<Known> {
  let p = scenario::env_path("SIM_VERIF") + "/known-findings.json";
  match std::fs::read(&p) {
    Ok(d) => {
      let v: Value = serde_json::from_slice(&d).expect("known-findings.json");
      serde_json::from_value(v["findings"].clone()).expect("known-findings.json")
    }
    Err(_) => vec![],
  }
}

fn is_known(k: &[Known], v: &Violation) -> Option<usize> {
  k.iter().position(|k| k.property == v.property && k.class == v.class && k.contains.iter().all(|c| v.detail.contains(c)))
}

fn kernel() -> Kernel {
  Kernel::new(&scenario::env_path("SIM_STUB"))
}

fn exec(k: &mut Kernel, case: &Case, replay: Option<Vec<u16>>) -> (Report, Vec<u16>) {
  k.reset(case.seed(), case.sched().clone(), case.cpus(), replay);
  let out = case.run(k);
  k.kill_all();
  let r = Report {
    seed: case.seed(),
    out,
    steps: k.steps,
    sim_ns: k.now - 5 * SEC,
    hash: k.hash,
    sched_hash: k.sched_hash,
    switches: k.context_switches,
    switch_points: k.switch_points,
    fired: k.fired.clone(),
    probes: k.probes.clone(),
    unknown: k.unknown.clone(),
    error: k.harness_error.clone(),
    repeated: false,
    diverged: false,
  };
  (r, std::mem::take(&mut k.trace))
}

fn pin(cpu: usize) {
  unsafe {
    let mut s: libc::cpu_set_t = std::mem::zeroed();
    if libc::sched_getaffinity(0, std::mem::size_of_val(&s), &mut s) == 0 {
      let all: Vec<usize> = (0..1024).filter(|c| libc::CPU_ISSET(*c, &s)).collect();
      let mut t: libc::cpu_set_t = std::mem::zeroed();
      libc::CPU_SET(all[cpu % all.len()], &mut t);
      libc::sched_setaffinity(0, std::mem::size_of_val(&t), &t);
    }
  }
}

fn cpu_count() -> usize {
  std::thread::available_parallelism().map_or(4, |n| n.get()).min(16)
}

/// worker PROPERTY INDEX STRIDE COUNT BASE SECONDS
pub fn worker(prop: &str, a: &[&str]) -> i32 {
  let n: Vec<u64> = a.iter().map(|s| s.parse().unwrap()).collect();
  let (index, stride, count, base, secs) = (n[0], n[1], n[2], n[3], n[4]);
  pin(index as usize);
  let mut k = kernel();
  let t0 = Instant::now();
  let so = std::io::stdout();
  let mut i = index;
  while i < count && t0.elapsed() < Duration::from_secs(secs) {
    let case = Case::generate(prop, base.wrapping_add(i));
    let (mut r, _) = exec(&mut k, &case, None);
    if r.error.is_some() {
      // once more, in a kernel of its own
      k = kernel();
      r = exec(&mut k, &case, None).0;
    }
    if (i / stride) % 25 == 0 && r.error.is_none() {
      let (r2, _) = exec(&mut k, &case, None);
      r.repeated = true;
      r.diverged = r2.hash != r.hash;
    }
    let bad = r.out.violations.iter().any(|v| v.property == prop);
    let mut so = so.lock();
    if writeln!(so, "{}", serde_json::to_string(&r).unwrap()).is_err() {
      break;
    }
    let _ = so.flush();
    drop(so);
    let _ = bad;
    i += stride;
  }
  0
}

fn rle(t: &[u16]) -> Vec<(u16, u32)> {
  let mut v: Vec<(u16, u32)> = vec![];
  for x in t {
    match v.last_mut() {
      Some(l) if l.0 == *x => l.1 += 1,
      _ => v.push((*x, 1)),
    }
  }
  v
}

fn unrle(t: &[(u16, u32)]) -> Vec<u16> {
  t.iter().flat_map(|(v, n)| std::iter::repeat(*v).take(*n as usize)).collect()
}

fn has(r: &Report, want: &Violation, known_list: &[Known]) -> Option<Violation> {
  if r.error.is_some() || !r.unknown.is_empty() {
    return None;
  }
  r.out.violations.iter().find(|v| v.property == want.property && v.class == want.class && is_known(known_list, v).is_none()).cloned()
}

/// A simpler case and schedule with the same violation.
fn minimise(k: &mut Kernel, mut case: Case, want: &Violation, known_list: &[Known], budget: Duration) -> Option<(Case, Vec<u16>, Violation)> {
  let t0 = Instant::now();
  let (r, mut trace) = exec(k, &case, None);
  let mut v = match has(&r, want, known_list) {
    Some(v) => v,
    // what runs beside the simulation may have been in the way
    None => (0..4).find_map(|_| {
      let (r, t) = exec(k, &case, None);
      trace = t;
      has(&r, want, known_list)
    })?,
  };
  let seed0 = case.sched().seed;
  // the workload and the faults
  loop {
    let mut better = None;
    'cands: for c in case.shrink() {
      if t0.elapsed() > budget / 2 {
        break;
      }
      for j in 0..6u64 {
        let mut c = c.clone();
        if j > 0 {
          c.sched_mut().seed = Rng::derive(seed0, &format!("retry{j}")).next();
        }
        let (r, t) = exec(k, &c, None);
        if let Some(nv) = has(&r, want, known_list) {
          better = Some((c, t, nv));
          break 'cands;
        }
      }
    }
    match better {
      Some((c, t, nv)) => {
        case = c;
        trace = t;
        v = nv;
      }
      None => break,
    }
  }
  // the schedule: turn choices into the plain one, in ever smaller ranges
  let attempt = |k: &mut Kernel, t: Vec<u16>| -> Option<(Vec<u16>, Violation)> {
    let (r, done) = exec(k, &case, Some(t));
    has(&r, want, known_list).map(|v| (done, v))
  };
  if let Some((t, nv)) = attempt(k, vec![]) {
    trace = t;
    v = nv;
  } else {
    let mut size = (trace.len() / 2).max(1);
    while size >= 1 && t0.elapsed() < budget {
      let mut i = 0;
      while i < trace.len() && t0.elapsed() < budget {
        let j = (i + size).min(trace.len());
        if trace[i..j].iter().any(|x| *x != 0) {
          let mut t = trace.clone();
          for x in &mut t[i..j] {
            *x = 0;
          }
          if let Some((t2, nv)) = attempt(k, t) {
            trace = t2;
            v = nv;
          }
        }
        i += size;
      }
      if size == 1 {
        break;
      }
      size /= 2;
    }
  }
  while trace.last() == Some(&0) {
    trace.pop();
  }
  // the replay has the last word
  let (r, _) = exec(k, &case, Some(trace.clone()));
  match has(&r, want, known_list) {
    Some(nv) => v = nv,
    None => return None,
  }
  Some((case, trace, v))
}

fn replay_run(f: &ReplayFile, log: bool) -> (Report, Vec<String>) {
  let mut k = kernel();
  if log {
    k.log = Some(vec![]);
  }
  let (r, _) = exec(&mut k, &f.case, Some(unrle(&f.trace)));
  (r, k.log.take().unwrap_or_default())
}

pub fn replay(path: &str) -> i32 {
  let f: ReplayFile = serde_json::from_slice(&std::fs::read(path).expect("replay file")).expect("replay file");
  let (r, log) = replay_run(&f, true);
  for l in log {
    println!("{l}");
  }
  for v in &r.out.violations {
    println!("violated: {} {}: {}", v.property, v.class, v.detail);
  }
  let same = format!("{:016x}", r.hash) == f.hash;
  println!("execution {:016x}, {}", r.hash, if same { "as recorded" } else { "not the recorded one" });
  if r.out.violations.iter().any(|v| v.property == f.property && v.class == f.class) {
    println!("VIOLATION property={} replay={path}", f.property);
    1
  } else {
    0
  }
}

pub fn show(prop: &str, lo: u64, hi: u64) -> i32 {
  let mut k = kernel();
  let verbose = std::env::var_os("SIM_LOG").is_some();
  let again = if std::env::var_os("SIM_TWICE").is_some() { 2 } else { 1 };
  for seed in (lo..hi).flat_map(|s| std::iter::repeat(s).take(again)) {
    let case = Case::generate(prop, seed);
    if verbose {
      println!("{}", serde_json::to_string(&case).unwrap());
      k.log = Some(vec![]);
    }
    let t = Instant::now();
    let (r, _) = exec(&mut k, &case, None);
    for x in k.log.take().unwrap_or_default() {
      println!("{x}");
    }
    println!(
      "seed {seed} {:?} steps {} sim {}ms wall {}ms hash {:x} sched {:x} unknown {:?} fired {:?} probes {:?}",
      r.out.counts,
      r.steps,
      r.sim_ns / MS,
      t.elapsed().as_millis(),
      r.hash,
      r.sched_hash,
      r.unknown,
      r.fired,
      r.probes
    );
    if let Some(e) = &r.error {
      println!("  HARNESS {e}");
    }
    for v in &r.out.violations {
      println!("  {} {}: {}", v.property, v.class, v.detail);
    }
  }
  0
}

pub fn hashes(prop: &str, lo: u64, hi: u64) -> i32 {
  let mut k = kernel();
  for seed in lo..hi {
    let (r, _) = exec(&mut k, &Case::generate(prop, seed), None);
    println!("{seed} {:016x} {:016x} {} {:?}", r.hash, r.sched_hash, r.steps, r.error);
  }
  0
}

pub fn check(prop: &str) -> i32 {
  let t0 = Instant::now();
  let meta = scenario::meta(prop);
  let verif = scenario::env_path("SIM_VERIF");
  let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
  let vseed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
  let count = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { meta.thorough } else { meta.quick });
  let secs: u64 =
    std::env::var("SIM_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 1500 } else { 240 });
  let base = Rng::derive(vseed, "base").next() >> 1;
  let n = cpu_count();
  let exe = std::env::current_exe().unwrap();
  let (tx, rx) = std::sync::mpsc::channel::<String>();
  let mut kids = vec![];
  for w in 0..n {
    let mut c = Command::new(&exe)
      .args(["worker", prop, &w.to_string(), &n.to_string(), &count.to_string(), &base.to_string(), &secs.to_string()])
      .stdout(Stdio::piped())
      .stdin(Stdio::null())
      .spawn()
      .expect("worker");
    let so = c.stdout.take().unwrap();
    let tx = tx.clone();
    std::thread::spawn(move || {
      for l in BufReader::new(so).lines().map_while(Result::ok) {
        if tx.send(l).is_err() {
          break;
        }
      }
    });
    kids.push(c);
  }
  drop(tx);
  let known_list = known();
  let mut known_hits: BTreeMap<usize, u64> = BTreeMap::new();
  let (mut runs, mut steps, mut sim_ns, mut switches, mut points) = (0u64, 0u64, 0i128, 0u64, 0u64);
  let mut distinct: BTreeSet<u64> = BTreeSet::new();
  let mut distinct_nt: BTreeSet<u64> = BTreeSet::new();
  let mut fired: BTreeMap<String, u64> = BTreeMap::new();
  let mut probes: BTreeMap<String, u64> = BTreeMap::new();
  let mut counts: BTreeMap<String, u64> = BTreeMap::new();
  let mut others: BTreeMap<String, u64> = BTreeMap::new();
  let mut errors: Vec<String> = vec![];
  let (mut repeated, mut diverged) = (0u64, 0u64);
  let mut found: Vec<(u64, Violation)> = vec![];
  let mut samples: Vec<Value> = vec![];
  let mut after_found: Option<Instant> = None;
  loop {
    match rx.recv_timeout(Duration::from_millis(200)) {
      Ok(l) => {
        let r: Report = match serde_json::from_str(&l) {
          Ok(r) => r,
          Err(e) => {
            errors.push(format!("worker: {e}"));
            continue;
          }
        };
        if let Some(e) = &r.error {
          errors.push(format!("seed {}: {e}", r.seed));
          continue;
        }
        if !r.unknown.is_empty() {
          errors.push(format!("seed {}: system calls the simulator does not know: {:?}", r.seed, r.unknown));
          continue;
        }
        runs += 1;
        steps += r.steps;
        sim_ns += r.sim_ns as i128;
        switches += r.switches;
        points += r.switch_points;
        distinct.insert(r.sched_hash);
        if r.out.nontrivial {
          distinct_nt.insert(r.hash);
        }
        for (k, v) in &r.fired {
          *fired.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &r.probes {
          *probes.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &r.out.counts {
          *counts.entry(k.clone()).or_insert(0) += v;
        }
        repeated += r.repeated as u64;
        diverged += r.diverged as u64;
        if r.out.nontrivial && samples.len() < 3 {
          samples.push(json!({"seed": r.seed, "case": Case::generate(prop, r.seed), "steps": r.steps, "context_switches": r.switches,
            "faults": r.fired, "interleaving": format!("{:016x}", r.sched_hash), "execution": format!("{:016x}", r.hash)}));
        }
        for v in r.out.violations {
          if v.property != prop {
            *others.entry(format!("{} {}", v.property, v.class)).or_insert(0) += 1;
          } else if let Some(i) = is_known(&known_list, &v) {
            *known_hits.entry(i).or_insert(0) += 1;
          } else {
            found.push((r.seed, v));
            after_found.get_or_insert(Instant::now());
          }
        }
      }
      Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {}
      Err(_) => break,
    }
    if after_found.map_or(false, |t| t.elapsed() > Duration::from_secs(3)) {
      break;
    }
  }
  drop(rx);
  for k in &mut kids {
    unsafe {
      libc::kill(k.id() as i32, libc::SIGTERM);
    }
    let _ = k.kill();
    let _ = k.wait();
  }
  let search_s = t0.elapsed().as_secs_f64();
  let mut replay_path = None;
  let mut unreproduced = 0;
  if !found.is_empty() {
    found.sort_by_key(|f| f.0);
    let mut k = kernel();
    let mut tried: BTreeMap<String, u32> = BTreeMap::new();
    for (seed, v) in &found {
      let n = tried.entry(v.class.clone()).or_insert(0);
      *n += 1;
      if *n > 6 {
        continue;
      }
      let budget = Duration::from_secs(if thorough { 180 } else { 60 });
      match minimise(&mut k, Case::generate(prop, *seed), v, &known_list, budget) {
        Some((case, trace, v)) => {
          let mut f = ReplayFile {
            property: prop.into(),
            class: v.class.clone(),
            detail: v.detail.clone(),
            found_with_seed: *seed,
            hash: String::new(),
            case,
            trace: rle(&trace),
            context_switches: 0,
            log: vec![],
          };
          let (r, log) = replay_run(&f, true);
          f.hash = format!("{:016x}", r.hash);
          f.context_switches = r.switches;
          f.log = log;
          let (r2, _) = replay_run(&f, false);
          if r2.hash != r.hash || has(&r2, &v, &known_list).is_none() {
            unreproduced += 1;
            continue;
          }
          let dir = format!("{verif}/.build/replays");
          std::fs::create_dir_all(&dir).unwrap();
          let path = format!("{dir}/{prop}-{seed}.json");
          std::fs::write(&path, serde_json::to_vec_pretty(&f).unwrap()).unwrap();
          println!("{prop} [{}] {}", v.class, v.detail);
          println!("  seed {seed}; minimised to {} steps, {} context switches", r.steps, r.switches);
          replay_path = Some(path);
          break;
        }
        None => unreproduced += 1,
      }
    }
  }
  for (i, k) in known_list.iter().enumerate() {
    if k.property == prop {
      println!("KNOWN-FINDING: property={prop} {} ({} runs)", k.what, known_hits.get(&i).copied().unwrap_or(0));
    }
  }
  let wall = t0.elapsed().as_secs_f64();
  let ev = json!({
    "property": prop, "tier": if thorough { "thorough" } else { "quick" }, "seed": vseed, "level": meta.level,
    "coverage": {
      "evaluations": runs,
      "distinct_nontrivial": distinct_nt.len(),
      "rule": meta.rule,
      "samples": samples,
      "seeds_per_hour": if search_s > 0.0 { (runs as f64 / search_s * 3600.0) as u64 } else { 0 },
      "simulated_seconds": (sim_ns / SEC as i128) as u64,
      "system_calls_scheduled": steps,
      "context_switches": switches,
      "scheduling_decisions_with_a_choice": points,
      "distinct_interleavings": distinct.len(),
      "interleaving_measure": "hash of the sequence (task chosen, number of runnable tasks) of a whole run",
      "faults_injected": fired,
      "situations_reached": probes,
      "exercised": counts,
      "runs_repeated_for_determinism": repeated,
      "runs_that_diverged": diverged,
      "violations_of_other_properties_seen": others,
      "components_real": meta.real,
      "components_stubbed": meta.stub,
      "known_findings_hit": known_hits.values().sum::<u64>(),
      "harness_errors": errors.len(),
      "violations_that_were_not_reproduced": unreproduced,
    },
    "assumptions": meta.assumptions,
    "wall_s": wall,
    "violations": if replay_path.is_some() { 1 } else { 0 },
  });
  std::fs::create_dir_all(format!("{verif}/evidence")).unwrap();
  std::fs::write(format!("{verif}/evidence/{prop}.json"), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
  println!(
    "{prop}: {runs} runs ({} distinct interleavings, {} distinct non-trivial), {} simulated s, {:.0} s, {} faults of {} kinds, {repeated} repeated, {diverged} diverged",
    distinct.len(), distinct_nt.len(), sim_ns / SEC as i128, wall, fired.values().sum::<u64>(), fired.len()
  );
  if let Some(p) = replay_path {
    println!("VIOLATION property={prop} replay={p}");
    return 1;
  }
  for e in errors.iter().take(5) {
    eprintln!("error: {e}");
  }
  if unreproduced > 0 {
    // no execution shows them, so that they are no violations; if there are several, the simulation does not control the program
    eprintln!("error: {unreproduced} violations could not be reproduced: {:?}", found.iter().take(3).collect::<Vec<_>>());
    if unreproduced > 2 {
      return 2;
    }
  }
  if runs == 0 || errors.len() as u64 * 20 > runs || diverged * 20 > repeated {
    eprintln!("error: the simulation is not working ({} errors, {diverged} of {repeated} diverged)", errors.len());
    return 2;
  }
  0
}
