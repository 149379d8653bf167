//! The programs the code under test starts (cargo, rustup, rustc, which), as stub actors:
//! they answer with a pure function of what they were given, and misbehave as planned.
use crate::{kernel::*, rng::fnv, vfs::*};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::{cell::RefCell, collections::BTreeMap, rc::Rc};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Mode {
  Ok,
  /// `{"Err": …}`, exit 0
  ErrObj,
  /// `[…, {"Err": …}]`, exit 0
  ErrArr,
  /// `{"type": "BuildError"}`, exit 0
  BuildError,
  /// exits with this status after complete, well-formed output
  ExitAfter(i32),
  /// exits with this status, nothing on stdout
  Exit(i32),
  /// killed by this signal before any output
  Signal(i32),
  /// killed by this signal after part of its output
  SignalMid(i32),
  /// killed by this signal after its whole output
  SignalAfter(i32),
  /// `[{"Err": …}, …]`, exit 0
  ErrFirst,
  /// never ends, says nothing
  Hang,
  /// never ends, with its whole output out
  HangAfter,
  /// never ends, and goes on when asked to (SIGTERM, SIGINT, …)
  Stubborn,
  /// waits for a descendant that never ends (cargo waits for the driver)
  HangDeep,
  /// ends well, but a descendant stays on for an hour, holding the output streams
  ExitDeep,
  /// ends well with part of its output
  Truncated,
  /// ends well with something that is not JSON
  Garbage,
  /// ends well, output is not UTF-8
  NonUtf8,
  /// fails, and its message is not UTF-8
  ExitNonUtf8(i32),
  /// ends well with nothing
  Empty,
  /// the program cannot be started
  SpawnFails(i32),
}

impl Mode {
  pub fn hangs(&self) -> bool {
    matches!(self, Mode::Hang | Mode::HangAfter | Mode::HangDeep | Mode::Stubborn)
  }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Behav {
  pub mode: Mode,
  #[serde(default)]
  pub delay_ms: u64,
  /// extra bytes in the response
  #[serde(default)]
  pub pad: usize,
  #[serde(default)]
  pub stderr: usize,
  /// bytes per write (0: all at once)
  #[serde(default)]
  pub chunk: usize,
  /// pause between writes
  #[serde(default)]
  pub gap_us: u64,
}

impl Default for Behav {
  fn default() -> Self {
    Behav { mode: Mode::Ok, delay_ms: 1, pad: 0, stderr: 0, chunk: 0, gap_us: 0 }
  }
}

#[derive(Clone, Debug)]
pub struct Invocation {
  pub parent: usize,
  pub proc: usize,
  pub kind: String, // new, aquascope, miri, rustup, rustc, which
  pub op: String,
  pub code: String,
  pub code_id: String,
  pub should_fail: bool,
  pub show_flows: bool,
  pub mode: Mode,
  pub env: BTreeMap<String, String>,
  pub argv: Vec<String>,
  pub dir: String,
  pub at: i64,
  pub done: bool,
  pub pad: usize,
  pub stdout: Vec<u8>,
  pub stderr: Vec<u8>,
  pub problem: Option<String>,
}

#[derive(Default)]
pub struct State {
  /// (code id, operation) -> behaviour of each attempt; the last one stays.
  pub plan: BTreeMap<String, Vec<Behav>>,
  pub attempts: BTreeMap<String, usize>,
  pub pads: BTreeMap<String, usize>,
  pub inv: Vec<Invocation>,
  pub new_plan: Vec<Behav>,
  pub tool_plan: BTreeMap<String, Behav>,
  pub default_behav: Behav,
  /// (invocation, process)
  pub descendants: Vec<(usize, usize)>,
}

/// What a tool started and left.
struct Descendant {
  end: Option<i64>,
}

impl Actor for Descendant {
  fn step(&mut self, k: &mut Kernel, me: usize) {
    match self.end {
      Some(t) if t <= k.now => k.proc_exit(me, Status::Exit(0)),
      Some(t) => k.procs[me].wake = Wake::At(t),
      None => k.procs[me].wake = Wake::Never,
    }
  }
}

pub type Shared = Rc<RefCell<State>>;

pub struct AnalysisWorld(pub Shared);

/// The marker in the code that names a block: `/*id:xyz*/`.
pub fn code_id(code: &str) -> String {
  match code.find("/*id:") {
    Some(i) => {
      let r = &code[i + 5..];
      r[..r.find("*/").unwrap_or(0)].to_string()
    }
    // a blank program is known by its spaces
    None if code.trim().is_empty() => format!("r{}", code.matches(' ').count()),
    None => String::new(),
  }
}

fn filler(seed: u64, n: usize) -> String {
  let mut s = String::with_capacity(n + 8);
  let mut h = seed | 1;
  const PIECES: [&str; 8] = ["abc", "\"q\"", "<b>&amp;", "é🦀", "\\n\n", "'x'", "{[,:]}", "0123456789"];
  while s.len() < n {
    h = h.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    s.push_str(PIECES[(h >> 60) as usize & 7]);
  }
  s
}

/// What the analysis answers for this code: a pure function.
pub fn response(code: &str, op: &str, should_fail: bool, show_flows: bool, pad: usize) -> Value {
  let h = fnv(0xcbf29ce484222325, format!("{code}|{op}|{should_fail}|{show_flows}").as_bytes());
  let body = json!({
    "body_range": {"char_start": 0, "char_end": code.chars().count()},
    "digest": format!("{h:016x}"),
    "op": op,
    "flags": [should_fail, show_flows],
    "n": h >> 12,
    "neg": -((h & 0xffff) as i64),
    "text": "<a href=\"x\">&'\u{1F980}é\\ \n\t</a>",
    "nothing": null,
    "list": [[], {}, [1, 2, [3]]],
    "fill": filler(h, pad),
  });
  if op == "interpreter" {
    json!({ "Ok": body })
  } else {
    json!([{ "Ok": body }, { "Ok": {"digest": format!("{:016x}", !h)} }])
  }
}

fn envget<'a>(env: &'a [String], k: &str) -> Option<&'a str> {
  env.iter().find_map(|e| e.strip_prefix(k).and_then(|r| r.strip_prefix('=')))
}

impl World for AnalysisWorld {
  fn exec(&mut self, k: &mut Kernel, req: &SpawnReq) -> Result<Box<dyn Actor>, i32> {
    let argv = &req.argv;
    let prog = req.path.rsplit('/').next().unwrap_or("").to_string();
    let mut st = self.0.borrow_mut();
    let mut inv = Invocation {
      parent: req.parent,
      proc: 0,
      kind: String::new(),
      op: String::new(),
      code: String::new(),
      code_id: String::new(),
      should_fail: false,
      show_flows: false,
      mode: Mode::Ok,
      env: BTreeMap::new(),
      argv: argv.clone(),
      dir: k.dir_path(req.cwd),
      at: k.now,
      done: false,
      pad: 0,
      stdout: vec![],
      stderr: vec![],
      problem: None,
    };
    for key in ["SYSROOT", "MIRI_SYSROOT", "LD_LIBRARY_PATH", "DYLD_LIBRARY_PATH", "RUST_BACKTRACE"] {
      if let Some(v) = envget(&req.env, key) {
        inv.env.insert(key.into(), v.into());
      }
    }
    let args: Vec<&str> = argv[1..].iter().map(|s| s.as_str()).filter(|s| *s != "--quiet" && *s != "-q").collect();
    let mut out: Vec<u8> = vec![];
    let behav;
    let mut make_project = None;
    match prog.as_str() {
      "cargo" => {
        let a0 = args.iter().find(|a| !a.starts_with('+')).copied().unwrap_or("");
        if a0 == "new" {
          inv.kind = "new".into();
          let n = st.inv.iter().filter(|i| i.kind == "new").count();
          behav = st.new_plan.get(n).cloned().unwrap_or_default();
          make_project = args[1..].iter().find(|a| !a.starts_with('-')).map(|s| s.to_string());
        } else if a0 == "miri" {
          inv.kind = "miri".into();
          behav = st.tool_plan.get("miri").cloned().unwrap_or_default();
          out = b"/sim/miri-sysroot\n".to_vec();
        } else if a0 == "aquascope" {
          inv.kind = "aquascope".into();
          inv.should_fail = args.contains(&"--should-fail");
          inv.show_flows = args.contains(&"--show-flows");
          inv.op = args[1..].iter().find(|a| !a.starts_with('-')).copied().unwrap_or("").to_string();
          // the source as it is now names the plan
          let src = format!("{}/src/main.rs", inv.dir);
          let code = k.vfs.read(&src).map(|v| String::from_utf8_lossy(&v).into_owned()).unwrap_or_default();
          inv.code_id = code_id(&code);
          let key = format!("{}:{}", inv.code_id, inv.op);
          let n = st.attempts.entry(key.clone()).or_insert(0);
          let i = *n;
          *n += 1;
          let d = st.default_behav.clone();
          behav = match st.plan.get(&key) {
            Some(p) if !p.is_empty() => p[i.min(p.len() - 1)].clone(),
            _ => d,
          };
          inv.pad = st.pads.get(&key).copied().unwrap_or(0);
        } else {
          return Err(libc::ENOENT);
        }
      }
      "rustup" => {
        inv.kind = "rustup".into();
        behav = st.tool_plan.get("rustup").cloned().unwrap_or_default();
        out = b"/sim/toolchain/bin/rustc\n".to_vec();
      }
      "which" => {
        inv.kind = "which".into();
        behav = st.tool_plan.get("which").cloned().unwrap_or_default();
        out = b"/sim/toolchain/bin/rustc\n".to_vec();
      }
      "rustc" => {
        inv.kind = "rustc".into();
        behav = st.tool_plan.get("rustc").cloned().unwrap_or_default();
        if req.path != "/sim/toolchain/bin/rustc" && req.path != "/sim/other/bin/rustc" {
          return Err(libc::ENOENT);
        }
        out = format!("{}/target-libdir\n", req.path.trim_end_matches("/bin/rustc")).into_bytes();
      }
      "kill" => {
        inv.kind = "kill".into();
        behav = Behav::default();
      }
      _ => return Err(libc::ENOENT),
    }
    inv.mode = behav.mode.clone();
    inv.proc = k.procs.len();
    if let Mode::SpawnFails(e) = behav.mode {
      k.fire("child_spawn_fails");
      inv.done = true;
      st.inv.push(inv);
      return Err(e);
    }
    let id = st.inv.len();
    st.inv.push(inv);
    Ok(Box::new(Tool { st: self.0.clone(), id, behav, phase: 0, segs: vec![], seg: 0, off: 0, out, make_project }))
  }
}

/// kill(1)
fn send_signals(k: &mut Kernel, me: usize, args: &[String]) -> bool {
  let number = |s: &str| match s.trim_start_matches("SIG") {
    "KILL" => Some(libc::SIGKILL),
    "TERM" => Some(libc::SIGTERM),
    "INT" => Some(libc::SIGINT),
    "HUP" => Some(libc::SIGHUP),
    "QUIT" => Some(libc::SIGQUIT),
    s => s.parse().ok(),
  };
  let (mut sig, mut good, mut ended) = (libc::SIGTERM, true, false);
  let mut i = 0;
  while i < args.len() {
    let a = args[i].as_str();
    i += 1;
    if a == "--" {
      ended = true;
    } else if a == "-s" && !ended {
      sig = args.get(i).and_then(|s| number(s)).unwrap_or(sig);
      i += 1;
    } else if let (true, Some(n)) = (i == 1, a.strip_prefix('-').and_then(number)) {
      sig = n;
    } else if let Ok(pid) = a.parse::<i32>() {
      let to: Vec<usize> = (0 .. k.procs.len())
        .filter(|p| {
          let x = &k.procs[*p];
          *p != me && !x.reaped && if pid > 0 { x.vpid == pid } else { x.pgid == -pid }
        })
        .collect();
      good &= !to.is_empty();
      for p in to {
        k.signal(p, sig);
      }
    } else {
      good = false;
    }
  }
  good
}

pub struct Tool {
  st: Shared,
  id: usize,
  behav: Behav,
  phase: u32,
  segs: Vec<(i32, Vec<u8>)>,
  seg: usize,
  off: usize,
  out: Vec<u8>,
  make_project: Option<String>,
}

impl Tool {
  fn finish(&mut self, k: &mut Kernel, me: usize, st: Status) {
    self.st.borrow_mut().inv[self.id].done = true;
    k.proc_exit(me, st);
  }

  fn prepare(&mut self, k: &mut Kernel, me: usize) {
    let mut st = self.st.borrow_mut();
    let inv = &mut st.inv[self.id];
    let mut stdout = self.out.clone();
    let mut stderr = filler(7, self.behav.stderr).into_bytes();
    match inv.kind.as_str() {
      "new" => {
        // a project, as cargo makes it
        if matches!(self.behav.mode, Mode::Ok | Mode::Truncated | Mode::HangAfter | Mode::ExitDeep | Mode::SignalMid(_) | Mode::SignalAfter(_) | Mode::ExitAfter(_)) {
          let cwd = k.procs[me].cwd;
          let name = self.make_project.clone().unwrap_or_default();
          let alive = k.vfs.is_dir(cwd) && !name.is_empty() && !k.dir_path(cwd).contains("(deleted)");
          if !alive {
            inv.problem = Some("cargo new outside an existing directory".into());
          } else if k.vfs.ents(cwd).contains_key(name.as_bytes()) {
            inv.problem = Some(format!("cargo new {name}: destination exists"));
            stderr.extend(b"error: destination already exists\n");
            self.behav.mode = Mode::Exit(101);
          } else {
            let d = k.vfs.new_dir(cwd, name.as_bytes(), 0o755);
            let s = k.vfs.new_dir(d, b"src", 0o755);
            let g = k.vfs.new_dir(d, b".git", 0o755);
            k.vfs.new_file(g, b"HEAD", 0o644);
            for (dir, f, c) in [(d, "Cargo.toml", "[package]\n"), (s, "main.rs", "fn main() {}\n"), (d, ".gitignore", "/target\n")] {
              let i = k.vfs.new_file(dir, f.as_bytes(), 0o644);
              k.vfs.data_mut(i).extend(c.as_bytes());
            }
          }
        }
      }
      "aquascope" => {
        let cwd = k.procs[me].cwd;
        let main = match k.vfs.lookup(cwd, b"src/main.rs", true) {
          Ok((_, _, Some(i))) if !k.vfs.is_dir(i) => Some(k.vfs.data(i).clone()),
          _ => None,
        };
        let have_toml = matches!(k.vfs.lookup(cwd, b"Cargo.toml", true), Ok((_, _, Some(_))));
        match main {
          Some(m) if have_toml => {
            inv.code = String::from_utf8_lossy(&m).into_owned();
            let r = response(&inv.code, &inv.op, inv.should_fail, inv.show_flows, inv.pad + self.behav.pad);
            stdout = (serde_json::to_string(&r).unwrap() + "\n").into_bytes();
            // what a compilation leaves behind
            if let Kind::Dir { .. } = k.vfs.inodes[cwd].kind {
              if !k.vfs.ents(cwd).contains_key(&b"target"[..]) {
                let t = k.vfs.new_dir(cwd, b"target", 0o755);
                let d = k.vfs.new_dir(t, b"debug", 0o755);
                let i = k.vfs.new_file(d, b"example.rmeta", 0o644);
                k.vfs.data_mut(i).extend(b"x");
                k.vfs.new_file(cwd, b"Cargo.lock", 0o644);
              }
            }
          }
          _ => {
            inv.problem = Some("cargo aquascope run outside a project".into());
            stderr.extend(b"error: could not find Cargo.toml or src/main.rs\n");
            self.behav.mode = Mode::Exit(101);
          }
        }
      }
      "kill" => {
        if !send_signals(k, me, &inv.argv[1..]) {
          stderr.extend(b"kill: no such process\n");
          self.behav.mode = Mode::Exit(1);
        }
      }
      _ => {}
    }
    let msg = |s: &str| format!("error: {s}\n").into_bytes();
    match &self.behav.mode {
      Mode::Ok | Mode::ExitAfter(_) | Mode::SignalAfter(_) | Mode::HangAfter | Mode::ExitDeep => {}
      Mode::ErrObj => stdout = b"{\"Err\":{\"type\":\"BuildError\",\"range\":null}}\n".to_vec(),
      Mode::ErrArr => {
        stdout = br#"[{"Ok":{"digest":"00"}},{"Err":{"type":"AnalysisError","error":"no"}}]"#.to_vec();
      }
      Mode::ErrFirst => {
        stdout = br#"[{"Err":{"type":"AnalysisError","error":"no"}},{"Ok":{"digest":"00"}}]"#.to_vec();
      }
      Mode::BuildError => stdout = b"{\"type\":\"BuildError\",\"range\":null}\n".to_vec(),
      Mode::Exit(_) | Mode::Signal(_) => {
        stdout.clear();
        stderr.extend(msg("it failed"));
      }
      Mode::ExitNonUtf8(_) => {
        stdout.clear();
        stderr.extend(b"error: \xff\xfe\x80 bad\n");
      }
      Mode::SignalMid(_) | Mode::Truncated => {
        let n = stdout.len() / 2;
        stdout.truncate(n.max(1));
      }
      Mode::Hang | Mode::HangDeep | Mode::Stubborn => {
        stdout.clear();
      }
      Mode::Garbage => stdout = b"thread 'rustc' panicked at compiler/rustc_x.rs:1:1\nnot json {".to_vec(),
      Mode::NonUtf8 => {
        let n = stdout.len() / 2;
        stdout.insert(n, 0xff);
        stdout.insert(n, 0xc3);
      }
      Mode::Empty => stdout.clear(),
      Mode::SpawnFails(_) => unreachable!(),
    }
    inv.stdout = stdout.clone();
    inv.stderr = stderr.clone();
    if self.behav.mode != Mode::Ok {
      let s = format!("{:?}", self.behav.mode);
      let s = s.split('(').next().unwrap().to_string();
      k.fire(&format!("child_{s}"));
    }
    // interleave the two streams in pieces
    let c = if self.behav.chunk == 0 { usize::MAX } else { self.behav.chunk };
    let mut a = stdout.chunks(c.min(stdout.len().max(1)));
    let mut b = stderr.chunks(c.min(stderr.len().max(1)));
    loop {
      let (x, y) = (b.next(), a.next());
      if let Some(x) = x {
        self.segs.push((2, x.to_vec()));
      }
      if let Some(y) = y {
        self.segs.push((1, y.to_vec()));
      }
      if x.is_none() && y.is_none() {
        break;
      }
    }
    if self.segs.len() > 400 {
      // keep runs short: merge
      let mut o = vec![];
      let mut e = vec![];
      for (fd, d) in self.segs.drain(..) {
        if fd == 1 {
          o.extend(d)
        } else {
          e.extend(d)
        }
      }
      self.segs = vec![(2, e), (1, o)];
    }
  }
}

impl Actor for Tool {
  fn step(&mut self, k: &mut Kernel, me: usize) {
    match self.phase {
      0 => {
        self.phase = 1;
        k.procs[me].wake = Wake::At(k.now + self.behav.delay_ms as i64 * MS);
      }
      1 => {
        self.prepare(k, me);
        self.phase = 2;
        k.procs[me].wake = Wake::At(k.now);
      }
      2 => {
        if self.seg < self.segs.len() {
          let (fd, data) = (self.segs[self.seg].0, self.segs[self.seg].1.clone());
          let o = match k.ofd_of(me, fd) {
            Some(o) => o,
            None => {
              self.seg += 1;
              return;
            }
          };
          let pipe = match &k.o(o).kind {
            OKind::PipeW(p) => Some(*p),
            OKind::Sock { tx: Some(p), .. } => Some(*p),
            _ => None,
          };
          match pipe {
            None => {
              // /dev/null or a file
              let _ = k.write_ofd2(o, &data[self.off..], None);
              self.seg += 1;
              self.off = 0;
            }
            Some(pi) => match k.pipe_put(pi, &data[self.off..]) {
              Err(_) => {
                // SIGPIPE
                k.probe("child_sigpipe");
                self.finish(k, me, Status::Signal(libc::SIGPIPE));
                return;
              }
              Ok(None) => {
                k.probe("child_blocked_on_full_pipe");
                k.procs[me].wake = Wake::Ofd(o, OUT);
                return;
              }
              Ok(Some(n)) => {
                self.off += n;
                if self.off >= data.len() {
                  self.seg += 1;
                  self.off = 0;
                }
              }
            },
          }
          k.procs[me].wake = Wake::At(k.now + self.behav.gap_us as i64 * 1000);
          return;
        }
        match self.behav.mode.clone() {
          m @ (Mode::HangDeep | Mode::ExitDeep) => {
            let end = if m == Mode::HangDeep { None } else { Some(k.now + 3600 * SEC) };
            let (cwd, at) = (k.procs[me].cwd, k.now);
            let c = k.add_actor(Box::new(Descendant { end }), "aquascope-driver", Some(me), cwd, at);
            for fd in [1, 2] {
              if let Some(o) = k.ofd_of(me, fd) {
                k.set_fd(c, fd, o, false);
              }
            }
            self.st.borrow_mut().descendants.push((self.id, c));
            if m == Mode::HangDeep {
              self.phase = 3;
              k.procs[me].wake = Wake::Never;
            } else {
              self.finish(k, me, Status::Exit(0));
            }
          }
          m @ (Mode::Hang | Mode::HangAfter | Mode::Stubborn) => {
            if m == Mode::Stubborn {
              for sig in [libc::SIGTERM, libc::SIGINT, libc::SIGHUP, libc::SIGQUIT] {
                k.procs[me].handlers.insert(sig, (1, 0));
              }
            }
            self.phase = 3;
            k.procs[me].wake = Wake::Never;
          }
          Mode::Exit(c) | Mode::ExitAfter(c) | Mode::ExitNonUtf8(c) => self.finish(k, me, Status::Exit(c)),
          Mode::Signal(s) | Mode::SignalMid(s) | Mode::SignalAfter(s) => self.finish(k, me, Status::Signal(s)),
          _ => self.finish(k, me, Status::Exit(0)),
        }
      }
      _ => {
        k.procs[me].wake = Wake::Never;
      }
    }
  }
}
