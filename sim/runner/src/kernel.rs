//! The simulated kernel: processes, threads, descriptors, pipes, sockets, clocks, signals,
//! and the scheduler that decides every interleaving.
use crate::{
  rng::{fnv, Rng},
  shm::*,
  vfs::*,
};
use serde::{Deserialize, Serialize};
use std::{
  collections::{BTreeMap, VecDeque},
  ffi::CString,
  sync::atomic::Ordering,
};

pub const MS: i64 = 1_000_000;
pub const SEC: i64 = 1_000_000_000;
pub const VFD_BASE: i32 = 1000;

/// A fault planted at the nth operation of a class (counted per fault).
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
  /// open, read, write, ftruncate, mkdir, unlink, rmdir, rename, spawn, fsync, accept, any
  pub op: String,
  /// Substring of the path the operation is about ("" matches everything).
  #[serde(default)]
  pub path: String,
  /// Which launch of a real process (-1: any).
  #[serde(default = "minus1")]
  pub proc: i32,
  pub nth: u64,
  pub act: Act,
}
fn minus1() -> i32 {
  -1
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Act {
  /// The call fails with this errno.
  Errno(i32),
  /// Only this many bytes are transferred.
  Short(usize),
  /// The process dies (SIGKILL) just before the call takes effect.
  Crash,
  /// The process dies after this many bytes of the call took effect.
  CrashAfter(usize),
  /// Every later call that matches fails with this errno, too (a full disk).
  Persist(i32),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Status {
  Exit(i32),
  Signal(i32),
}

#[derive(Clone, Debug)]
pub enum Cond {
  None,
  Ofd(usize, u32),
  Poll(Vec<(i32, u32)>),
  Epoll(usize),
  Futex,
  Time,
  Child(i32),
  ThreadExit(i32),
  Flock(usize),
  Never,
}

pub const IN: u32 = 1;
pub const OUT: u32 = 4;

#[derive(Clone, Debug)]
pub enum Reply {
  Ret(i64),
  Raw,
  RawArgs(i64, [i64; 6]),
  Join(i64),
  Exit(i64, i64), // nr, code
}

pub struct Thread {
  pub proc: usize,
  pub slot: usize,
  pub vtid: i32,
  pub alive: bool,
  pub nr: i64,
  pub args: [i64; 6],
  pub waiting: bool,
  pub first: bool, // the pending request has not been performed yet
  pub cond: Cond,
  pub deadline: Option<i64>,
  pub woken: bool,
  pub futex: Option<(u64, u32)>,
  pub futex_seq: u64,
  pub stalled: i64,
  pub sigstack: Vec<Reply>,
  pub start: bool, // created, never run yet
  pub prio: u64,
  pub last_run: u64,
}

pub enum PKind {
  Real { pid: i32, forked: bool },
  Actor,
}

#[derive(Clone, Debug)]
pub enum Wake {
  At(i64),
  Ofd(usize, u32),
  Child(i32),
  Never,
}

pub trait Actor {
  fn step(&mut self, k: &mut Kernel, me: usize);
}

pub struct Proc {
  pub vpid: i32,
  pub ppid: Option<usize>,
  pub pgid: i32,
  pub kind: PKind,
  pub name: String,
  pub fds: BTreeMap<i32, (usize, bool)>,
  pub cwd: Ino,
  pub umask: u32,
  pub status: Option<Status>,
  pub reaped: bool,
  pub handlers: BTreeMap<i32, (u64, u64)>,
  pub pending: Vec<i32>,
  pub actor: Option<Box<dyn Actor>>,
  pub wake: Wake,
  pub launch: i32,
  pub syscalls: u64,
  pub crash_at: Option<u64>,
  pub argv: Vec<String>,
  pub env: Vec<String>,
  pub started_at: i64,
  pub ended_at: i64,
  pub prio: u64,
  pub last_run: u64,
  pub killed_by: Option<i32>,
}

#[derive(Debug)]
pub enum OKind {
  File { ino: Ino, pos: usize, append: bool, r: bool, w: bool },
  Dir { ino: Ino, list: Option<Vec<(Vec<u8>, Ino)>>, pos: usize },
  PipeR(usize),
  PipeW(usize),
  Sock { rx: Option<usize>, tx: Option<usize>, peer_port: u16 },
  NewSock { port: u16 },
  Listener { port: u16, backlog: VecDeque<usize>, gen: u64 },
  Event { count: u64, gen_in: u64, sem: bool },
  Epoll(usize),
  Null,
  Random,
}

pub struct Ofd {
  pub kind: OKind,
  pub refs: usize,
  pub nonblock: bool,
  pub path: String,
}

#[derive(Default)]
pub struct Pipe {
  pub buf: VecDeque<u8>,
  pub cap: usize,
  pub readers: usize,
  pub writers: usize,
  pub gen_in: u64,
  pub gen_out: u64,
  pub total: u64,
}

#[derive(Clone)]
pub struct Reg {
  pub fd: i32,
  pub ofd: usize,
  pub events: u32,
  pub data: u64,
  pub seen: Option<(u64, u64)>,
  pub disabled: bool,
}

pub struct SpawnReq {
  pub parent: usize,
  pub path: String,
  pub argv: Vec<String>,
  pub env: Vec<String>,
  pub cwd: Ino,
}

pub trait World {
  /// Starts a program: its actor, or an errno.
  fn exec(&mut self, k: &mut Kernel, req: &SpawnReq) -> Result<Box<dyn Actor>, i32>;
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sched {
  /// random, sticky, pct, rr
  pub strategy: String,
  /// A preemption point every this many allocations or so (0: never).
  pub malloc_period: u64,
  /// Stalls of single threads (0: none, otherwise about one in this many steps).
  pub stall: u64,
  pub seed: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum End {
  Done,
  Deadlock,
  Steps,
  Time,
}

pub enum RMode {
  Random,
  Replay,
}

pub struct Kernel {
  pub shm: Shm,
  pub vfs: Vfs,
  pub threads: Vec<Thread>,
  pub procs: Vec<Proc>,
  pub ofds: Vec<Option<Ofd>>,
  pub pipes: Vec<Pipe>,
  pub epolls: Vec<Vec<Reg>>,
  pub now: i64,
  pub real_offset: i64,
  pub steps: u64,
  pub idle_steps: u64,
  pub next_slot: usize,
  pub next_pid: i32,
  pub cpus: usize,
  pub sched: Sched,
  pub rng: Rng,
  pub sched_rng: Rng,
  pub mode: RMode,
  pub trace: Vec<u16>,
  pub replay: Vec<u16>,
  pub pos: usize,
  pub current: Option<Task>,
  pub faults: Vec<Fault>,
  pub fault_counts: Vec<u64>,
  pub persist: Vec<(Fault, i32)>,
  pub fired: BTreeMap<String, u64>,
  pub log: Option<Vec<String>>,
  pub hash: u64,
  pub sched_hash: u64,
  pub world: Option<Box<dyn World>>,
  pub launches: i32,
  pub stub_path: String,
  pub futex_seq: u64,
  pub real_prefixes: Vec<String>,
  /// Where things come to lie in the memory of programs started from now on
  pub layout: Option<u64>,
  pub unknown: BTreeMap<i64, u64>,
  pub probes: BTreeMap<String, u64>,
  pub harness_error: Option<String>,
  pub fork_from: BTreeMap<usize, usize>,
  pub pct_points: Vec<u64>,
  pub eintr: u64,
  pub flocks: BTreeMap<Ino, Vec<(usize, bool)>>,
  pub context_switches: u64,
  pub switch_points: u64,
  restarts: Vec<(usize, i64, [i64; 6], Option<i64>)>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Task {
  T(usize),
  A(usize),
}

fn err(e: i32) -> Reply {
  Reply::Ret(-(e as i64))
}
fn ok(v: i64) -> Option<Reply> {
  Some(Reply::Ret(v))
}
fn fail(e: i32) -> Option<Reply> {
  Some(err(e))
}

impl Kernel {
  pub fn new(stub_path: &str) -> Kernel {
    Kernel {
      shm: Shm::new(),
      vfs: Vfs::new(),
      threads: vec![],
      procs: vec![],
      ofds: vec![],
      pipes: vec![],
      epolls: vec![],
      now: 0,
      real_offset: 0,
      steps: 0,
      idle_steps: 0,
      next_slot: 0,
      next_pid: 100,
      cpus: 4,
      sched: Sched { strategy: "random".into(), malloc_period: 0, stall: 0, seed: 0 },
      rng: Rng::new(0),
      sched_rng: Rng::new(0),
      mode: RMode::Random,
      trace: vec![],
      replay: vec![],
      pos: 0,
      current: None,
      faults: vec![],
      fault_counts: vec![],
      persist: vec![],
      fired: BTreeMap::new(),
      log: None,
      hash: 0xcbf29ce484222325,
      sched_hash: 0xcbf29ce484222325,
      world: None,
      launches: 0,
      stub_path: stub_path.to_string(),
      futex_seq: 0,
      real_prefixes: vec![],
      layout: None,
      unknown: BTreeMap::new(),
      probes: BTreeMap::new(),
      harness_error: None,
      fork_from: BTreeMap::new(),
      pct_points: vec![],
      eintr: 0,
      flocks: BTreeMap::new(),
      context_switches: 0,
      switch_points: 0,
      restarts: vec![],
    }
  }

  /// A fresh simulation in the same runner process.
  pub fn reset(&mut self, seed: u64, sched: Sched, cpus: usize, replay: Option<Vec<u16>>) {
    self.kill_all();
    let shm = std::mem::replace(&mut self.shm, Shm { fd: -1, h: std::ptr::null_mut() });
    let log = self.log.as_ref().map(|_| vec![]);
    let mut k = Kernel::new_with(&self.stub_path, shm);
    k.log = log;
    k.shm.reset();
    k.rng = Rng::derive(seed, "env");
    k.sched_rng = Rng::derive(sched.seed, "sched");
    k.now = 5 * SEC;
    k.real_offset = 1_700_000_000 * SEC + (k.rng.below(1_000_000) as i64) * SEC;
    if sched.strategy == "pct" {
      let mut r = Rng::derive(sched.seed, "pct");
      k.pct_points = (0..6).map(|_| r.below(4000)).collect();
    }
    k.sched = sched;
    k.cpus = cpus;
    k.real_prefixes = std::mem::take(&mut self.real_prefixes);
    if let Some(r) = replay {
      k.mode = RMode::Replay;
      k.replay = r;
    }
    *self = k;
  }

  fn new_with(stub: &str, shm: Shm) -> Kernel {
    // Kernel::new makes its own mapping; avoid a leak by building around the given one.
    let mut k = Kernel::new_noshm(stub);
    k.shm = shm;
    k
  }
  fn new_noshm(stub: &str) -> Kernel {
    let k = Kernel::new(stub);
    unsafe {
      libc::munmap(k.shm.h as *mut _, std::mem::size_of::<Header>());
      libc::close(k.shm.fd);
    }
    k
  }

  pub fn set_faults(&mut self, f: Vec<Fault>) {
    self.fault_counts = vec![0; f.len()];
    self.faults = f;
    self.persist.clear();
  }

  pub fn fire(&mut self, kind: &str) {
    *self.fired.entry(kind.to_string()).or_insert(0) += 1;
  }
  pub fn probe(&mut self, kind: &str) {
    *self.probes.entry(kind.to_string()).or_insert(0) += 1;
  }

  pub fn note(&mut self, s: &str) {
    let line = format!("{:>12} {}", self.now / 1000, s);
    self.hash = fnv(self.hash, line.as_bytes());
    if let Some(l) = &mut self.log {
      l.push(line);
    }
  }

  // ---- choices ----

  /// A recorded choice among n; 0 is the plain one.
  pub fn choose(&mut self, n: usize, f: impl FnOnce(&mut Rng) -> usize) -> usize {
    if n <= 1 {
      return 0;
    }
    let v = match self.mode {
      RMode::Replay => {
        let v = self.replay.get(self.pos).copied().unwrap_or(0) as usize;
        if v < n {
          v
        } else {
          0
        }
      }
      RMode::Random => f(&mut self.sched_rng),
    };
    self.pos += 1;
    self.trace.push(v as u16);
    v
  }

  // ---- memory of the programs ----

  fn real_pid(&self, p: usize) -> i32 {
    match self.procs[p].kind {
      PKind::Real { pid, .. } => pid,
      _ => panic!("actor has no memory"),
    }
  }

  pub fn rd(&mut self, p: usize, addr: i64, len: usize) -> Option<Vec<u8>> {
    if len == 0 {
      return Some(vec![]);
    }
    let mut v = vec![0u8; len];
    let l = libc::iovec { iov_base: v.as_mut_ptr() as *mut _, iov_len: len };
    let r = libc::iovec { iov_base: addr as *mut _, iov_len: len };
    let n = unsafe { libc::process_vm_readv(self.real_pid(p), &l, 1, &r, 1, 0) };
    if n as i64 != len as i64 {
      if n < 0 && std::io::Error::last_os_error().raw_os_error() == Some(libc::EPERM) {
        self.harness_error = Some("process_vm_readv not permitted".into());
      }
      return None;
    }
    Some(v)
  }
  pub fn wr(&mut self, p: usize, addr: i64, data: &[u8]) -> bool {
    if data.is_empty() {
      return true;
    }
    let l = libc::iovec { iov_base: data.as_ptr() as *mut _, iov_len: data.len() };
    let r = libc::iovec { iov_base: addr as *mut _, iov_len: data.len() };
    let n = unsafe { libc::process_vm_writev(self.real_pid(p), &l, 1, &r, 1, 0) };
    n as i64 == data.len() as i64
  }
  fn rd_cstr(&mut self, p: usize, addr: i64) -> Option<Vec<u8>> {
    if addr == 0 {
      return None;
    }
    let mut out = vec![];
    let mut a = addr;
    loop {
      let n = (4096 - (a & 4095)).min(256) as usize;
      let v = self.rd(p, a, n)?;
      if let Some(z) = v.iter().position(|b| *b == 0) {
        out.extend_from_slice(&v[..z]);
        return Some(out);
      }
      out.extend_from_slice(&v);
      a += n as i64;
      if out.len() > 1 << 20 {
        return None;
      }
    }
  }
  fn rd_u64(&mut self, p: usize, addr: i64) -> Option<u64> {
    self.rd(p, addr, 8).map(|v| u64::from_le_bytes(v.try_into().unwrap()))
  }
  fn rd_i32(&mut self, p: usize, addr: i64) -> Option<i32> {
    self.rd(p, addr, 4).map(|v| i32::from_le_bytes(v.try_into().unwrap()))
  }
  fn rd_ts(&mut self, p: usize, addr: i64) -> Option<i64> {
    let v = self.rd(p, addr, 16)?;
    let s = i64::from_le_bytes(v[..8].try_into().unwrap());
    let n = i64::from_le_bytes(v[8..].try_into().unwrap());
    Some(s.saturating_mul(SEC).saturating_add(n))
  }
  fn rd_strv(&mut self, p: usize, addr: i64) -> Vec<String> {
    let mut out = vec![];
    if addr == 0 {
      return out;
    }
    let mut a = addr;
    while let Some(x) = self.rd_u64(p, a) {
      if x == 0 {
        break;
      }
      out.push(String::from_utf8_lossy(&self.rd_cstr(p, x as i64).unwrap_or_default()).into_owned());
      a += 8;
    }
    out
  }
  fn rd_iov(&mut self, p: usize, addr: i64, n: usize) -> Option<Vec<(i64, usize)>> {
    let v = self.rd(p, addr, n * 16)?;
    Some(
      v.chunks(16)
        .map(|c| {
          (
            i64::from_le_bytes(c[..8].try_into().unwrap()),
            u64::from_le_bytes(c[8..].try_into().unwrap()) as usize,
          )
        })
        .collect(),
    )
  }

  // ---- open file descriptions ----

  pub fn new_ofd(&mut self, kind: OKind, nonblock: bool, path: &str) -> usize {
    self.ofds.push(Some(Ofd { kind, refs: 0, nonblock, path: path.to_string() }));
    self.ofds.len() - 1
  }
  pub fn new_pipe(&mut self, cap: usize) -> usize {
    self.pipes.push(Pipe { cap, ..Default::default() });
    self.pipes.len() - 1
  }
  /// Both ends of a pipe as ofds (read, write).
  pub fn pipe_pair(&mut self, cap: usize, nonblock: bool) -> (usize, usize) {
    let p = self.new_pipe(cap);
    self.pipes[p].readers = 1;
    self.pipes[p].writers = 1;
    (self.new_ofd(OKind::PipeR(p), nonblock, "pipe:"), self.new_ofd(OKind::PipeW(p), nonblock, "pipe:"))
  }
  pub fn o(&mut self, i: usize) -> &mut Ofd {
    self.ofds[i].as_mut().expect("closed ofd")
  }
  pub fn hold(&mut self, o: usize) {
    self.o(o).refs += 1;
  }
  pub fn drop_ofd(&mut self, o: usize) {
    let of = self.o(o);
    of.refs -= 1;
    if of.refs > 0 {
      return;
    }
    let of = self.ofds[o].take().unwrap();
    match of.kind {
      OKind::PipeR(p) => self.close_r(p),
      OKind::PipeW(p) => self.close_w(p),
      OKind::Sock { rx, tx, .. } => {
        if let Some(rx) = rx {
          self.close_r(rx)
        }
        if let Some(tx) = tx {
          self.close_w(tx)
        }
      }
      OKind::Listener { backlog, .. } => {
        for b in backlog {
          self.drop_ofd(b);
        }
      }
      _ => {}
    }
    for e in &mut self.epolls {
      e.retain(|r| r.ofd != o);
    }
    for l in self.flocks.values_mut() {
      l.retain(|x| x.0 != o);
    }
  }
  fn close_r(&mut self, p: usize) {
    self.pipes[p].readers -= 1;
    self.pipes[p].gen_out += 1;
  }
  pub fn close_w(&mut self, p: usize) {
    self.pipes[p].writers -= 1;
    self.pipes[p].gen_in += 1;
  }
  fn next_fd(&self, p: usize, min: i32) -> i32 {
    let mut fd = min;
    while self.procs[p].fds.contains_key(&fd) {
      fd += 1;
    }
    fd
  }
  pub fn add_fd(&mut self, p: usize, ofd: usize, cloexec: bool) -> i32 {
    let fd = self.next_fd(p, VFD_BASE);
    self.set_fd(p, fd, ofd, cloexec);
    fd
  }
  pub fn set_fd(&mut self, p: usize, fd: i32, ofd: usize, cloexec: bool) {
    self.hold(ofd);
    if let Some((old, _)) = self.procs[p].fds.insert(fd, (ofd, cloexec)) {
      self.drop_ofd(old);
    }
  }
  pub fn close_fd(&mut self, p: usize, fd: i32) -> bool {
    match self.procs[p].fds.remove(&fd) {
      Some((o, _)) => {
        self.drop_ofd(o);
        true
      }
      None => false,
    }
  }
  pub fn ofd_of(&self, p: usize, fd: i32) -> Option<usize> {
    self.procs[p].fds.get(&fd).map(|x| x.0)
  }

  /// Readiness mask (EPOLL bits), and the generation of each direction.
  pub fn ready(&self, o: usize) -> (u32, u64, u64) {
    let of = match &self.ofds[o] {
      Some(of) => of,
      None => return (libc::EPOLLHUP as u32, 0, 0),
    };
    match &of.kind {
      OKind::PipeR(p) => {
        let p = &self.pipes[*p];
        let mut m = 0;
        if !p.buf.is_empty() {
          m |= IN;
        }
        if p.writers == 0 {
          m |= libc::EPOLLHUP as u32;
        }
        (m, p.gen_in, 0)
      }
      OKind::PipeW(p) => {
        let p = &self.pipes[*p];
        let mut m = 0;
        if p.buf.len() < p.cap {
          m |= OUT;
        }
        if p.readers == 0 {
          m |= libc::EPOLLERR as u32 | OUT;
        }
        (m, 0, p.gen_out)
      }
      OKind::Sock { rx, tx, .. } => {
        let mut m = 0;
        let (mut gi, mut go) = (0, 0);
        match rx {
          Some(rx) => {
            let p = &self.pipes[*rx];
            gi = p.gen_in;
            if !p.buf.is_empty() {
              m |= IN;
            }
            if p.writers == 0 {
              m |= IN | libc::EPOLLRDHUP as u32;
            }
          }
          None => m |= IN | libc::EPOLLRDHUP as u32,
        }
        match tx {
          Some(tx) => {
            let p = &self.pipes[*tx];
            go = p.gen_out;
            if p.buf.len() < p.cap || p.readers == 0 {
              m |= OUT;
            }
            if p.readers == 0 {
              if m & libc::EPOLLRDHUP as u32 != 0 {
                m |= libc::EPOLLHUP as u32;
              }
              m |= libc::EPOLLERR as u32;
            }
          }
          None => m |= OUT,
        }
        (m, gi, go)
      }
      OKind::Listener { backlog, gen, .. } => (if backlog.is_empty() { 0 } else { IN }, *gen, 0),
      OKind::Event { count, gen_in, .. } => (if *count > 0 { IN | OUT } else { OUT }, *gen_in, 0),
      OKind::Epoll(e) => (if self.epoll_ready(*e).is_empty() { 0 } else { IN }, 0, 0),
      OKind::NewSock { .. } => (libc::EPOLLHUP as u32 | OUT, 0, 0),
      _ => (IN | OUT, 0, 0),
    }
  }

  fn epoll_ready(&self, e: usize) -> Vec<(usize, u32)> {
    let mut out = vec![];
    for (i, r) in self.epolls[e].iter().enumerate() {
      if r.disabled {
        continue;
      }
      let (m, gi, go) = self.ready(r.ofd);
      let m = m & (r.events | libc::EPOLLHUP as u32 | libc::EPOLLERR as u32);
      if m == 0 {
        continue;
      }
      if r.events & libc::EPOLLET as u32 != 0 {
        if let Some(s) = r.seen {
          if s == (gi, go) {
            continue;
          }
        }
      }
      out.push((i, m));
    }
    out
  }

  fn blocked_ok(&self, mask: u32, want: u32) -> bool {
    mask & (want | libc::EPOLLHUP as u32 | libc::EPOLLERR as u32) != 0
  }

  // ---- enabledness ----

  fn thread_enabled(&self, t: usize) -> bool {
    let th = &self.threads[t];
    if !th.alive || th.stalled > self.now {
      return false;
    }
    if th.start || !th.waiting {
      return true;
    }
    if self.sig_ready(t) && self.interruptible(t) {
      return true;
    }
    if let Some(d) = th.deadline {
      if d <= self.now {
        return true;
      }
    }
    match &th.cond {
      Cond::None => true,
      Cond::Ofd(o, m) => self.blocked_ok(self.ready(*o).0, *m),
      Cond::Poll(v) => v.iter().any(|(fd, m)| match self.ofd_of(th.proc, *fd) {
        Some(o) => self.blocked_ok(self.ready(o).0, *m),
        None => true,
      }),
      Cond::Epoll(e) => !self.epoll_ready(*e).is_empty(),
      Cond::Futex => th.woken,
      Cond::Child(pid) => self.find_zombie(th.proc, *pid).is_some() || !self.has_child(th.proc, *pid),
      Cond::ThreadExit(tid) => !self
        .threads
        .iter()
        .any(|x| x.proc == th.proc && x.alive && unsafe { (*self.shm.h).slots[x.slot].real_tid } == *tid as i64),
      Cond::Flock(_) => true,
      Cond::Time | Cond::Never => false,
    }
  }

  fn actor_enabled(&self, a: usize) -> bool {
    let p = &self.procs[a];
    if p.actor.is_none() || p.status.is_some() {
      return false;
    }
    match &p.wake {
      Wake::At(t) => *t <= self.now,
      Wake::Ofd(o, m) => self.blocked_ok(self.ready(*o).0, *m),
      Wake::Child(pid) => self.find_zombie(a, *pid).is_some(),
      Wake::Never => false,
    }
  }

  fn next_event(&self) -> Option<i64> {
    let mut t: Option<i64> = None;
    let mut add = |x: i64| {
      if x > self.now {
        t = Some(t.map_or(x, |y: i64| y.min(x)))
      }
    };
    for th in self.threads.iter().filter(|t| t.alive) {
      if th.stalled > self.now {
        add(th.stalled);
      } else if let (true, Some(d)) = (th.waiting, th.deadline) {
        add(d);
      }
    }
    for p in &self.procs {
      if p.actor.is_some() && p.status.is_none() {
        if let Wake::At(x) = p.wake {
          add(x);
        }
      }
    }
    t
  }

  fn sig_ready(&self, t: usize) -> bool {
    let th = &self.threads[t];
    let p = &self.procs[th.proc];
    if p.pending.is_empty() {
      return false;
    }
    let mask = unsafe { (*self.shm.h).slots[th.slot].sigmask };
    p.pending.iter().any(|s| mask & (1 << (s - 1)) == 0 && p.handlers.get(s).map_or(false, |h| h.0 > 1))
  }
  fn interruptible(&self, t: usize) -> bool {
    // A thread that has been passed over may still take the signal at its next call.
    matches!(
      self.threads[t].cond,
      Cond::Poll(_) | Cond::Epoll(_) | Cond::Time | Cond::Ofd(..) | Cond::Child(_) | Cond::Futex
    )
  }

  // ---- children ----
  fn find_zombie(&self, p: usize, pid: i32) -> Option<usize> {
    self.procs.iter().position(|c| {
      c.ppid == Some(p) && c.status.is_some() && !c.reaped && (pid == -1 || c.vpid == pid || (pid < -1 && c.pgid == -pid))
    })
  }
  fn has_child(&self, p: usize, pid: i32) -> bool {
    self
      .procs
      .iter()
      .any(|c| c.ppid == Some(p) && !c.reaped && (pid == -1 || c.vpid == pid || (pid < -1 && c.pgid == -pid)))
  }

  /// The process ends: descriptors closed, parent told.
  pub fn proc_exit(&mut self, p: usize, st: Status) {
    if self.procs[p].status.is_some() {
      return;
    }
    let name = self.procs[p].name.clone();
    self.note(&format!("exit p{p} {name} {st:?}"));
    self.procs[p].status = Some(st);
    self.procs[p].ended_at = self.now;
    let fds: Vec<i32> = self.procs[p].fds.keys().copied().collect();
    for f in fds {
      self.close_fd(p, f);
    }
    self.procs[p].actor = None;
    for t in &mut self.threads {
      if t.proc == p {
        t.alive = false;
      }
    }
    if let PKind::Real { pid, forked } = self.procs[p].kind {
      unsafe {
        libc::kill(pid, libc::SIGKILL);
        if !forked {
          let mut st = 0;
          libc::waitpid(pid, &mut st, 0);
        }
      }
    }
    // orphans go to nobody
    for c in 0..self.procs.len() {
      if self.procs[c].ppid == Some(p) {
        self.procs[c].ppid = None;
      }
    }
    if let Some(pp) = self.procs[p].ppid {
      if self.procs[pp].handlers.get(&libc::SIGCHLD).map_or(false, |h| h.0 > 1)
        && !self.procs[pp].pending.contains(&libc::SIGCHLD)
      {
        self.procs[pp].pending.push(libc::SIGCHLD);
      }
    }
  }

  pub fn signal(&mut self, target: usize, sig: i32) {
    if self.procs[target].status.is_some() || sig == 0 {
      return;
    }
    match self.procs[target].kind {
      PKind::Actor => {
        let ignored = sig != libc::SIGKILL && self.procs[target].handlers.get(&sig).map_or(false, |h| h.0 == 1);
        if !ignored && matches!(sig, libc::SIGKILL | libc::SIGTERM | libc::SIGINT | libc::SIGHUP | libc::SIGQUIT) {
          self.procs[target].killed_by = Some(sig);
          self.proc_exit(target, Status::Signal(sig));
        }
      }
      PKind::Real { .. } => {
        let h = self.procs[target].handlers.get(&sig).map_or(0, |h| h.0);
        if sig == libc::SIGKILL || (h == 0 && sig != libc::SIGCHLD) {
          self.proc_exit(target, Status::Signal(sig));
        } else if h > 1 {
          self.procs[target].pending.push(sig);
        }
      }
    }
  }

  pub fn kill_all(&mut self) {
    for p in 0..self.procs.len() {
      if let (PKind::Real { pid, forked }, true) = (&self.procs[p].kind, self.procs[p].status.is_none()) {
        unsafe {
          libc::kill(*pid, libc::SIGKILL);
          if !*forked {
            let mut st = 0;
            libc::waitpid(*pid, &mut st, 0);
          }
        }
      }
      self.procs[p].status.get_or_insert(Status::Signal(9));
      self.procs[p].actor = None;
    }
  }

  fn blank_proc(&mut self, kind: PKind, name: &str, ppid: Option<usize>, cwd: Ino) -> usize {
    let vpid = self.next_pid;
    self.next_pid += 1;
    let pgid = ppid.map_or(vpid, |p| self.procs[p].pgid);
    let prio = self.rng.next();
    self.procs.push(Proc {
      vpid,
      ppid,
      pgid,
      kind,
      name: name.to_string(),
      fds: BTreeMap::new(),
      cwd,
      umask: 0o022,
      status: None,
      reaped: false,
      handlers: BTreeMap::new(),
      pending: vec![],
      actor: None,
      wake: Wake::Never,
      launch: -1,
      syscalls: 0,
      crash_at: None,
      argv: vec![],
      env: vec![],
      started_at: self.now,
      ended_at: 0,
      prio,
      last_run: 0,
      killed_by: None,
    });
    self.procs.len() - 1
  }

  pub fn add_actor(&mut self, a: Box<dyn Actor>, name: &str, ppid: Option<usize>, cwd: Ino, at: i64) -> usize {
    let p = self.blank_proc(PKind::Actor, name, ppid, cwd);
    self.procs[p].actor = Some(a);
    self.procs[p].wake = Wake::At(at);
    p
  }

  fn new_thread(&mut self, p: usize, slot: usize) -> usize {
    let n = self.threads.iter().filter(|t| t.proc == p).count() as i32;
    let vtid = self.procs[p].vpid + n * 10_000;
    let prio = self.rng.next() | 1 << 63;
    self.threads.push(Thread {
      proc: p,
      slot,
      vtid,
      alive: true,
      nr: 0,
      args: [0; 6],
      waiting: false,
      first: true,
      cond: Cond::None,
      deadline: None,
      woken: false,
      futex: None,
      futex_seq: 0,
      stalled: 0,
      sigstack: vec![],
      start: true,
      prio,
      last_run: 0,
    });
    self.threads.len() - 1
  }

  /// Starts a real program under the simulator, with stdin, stdout, stderr as given ofds.
  pub fn start_real(&mut self, bin: &str, argv: &[&str], env: &[(String, String)], cwd: &str, stdio: [usize; 3]) -> usize {
    let slot = self.next_slot;
    self.next_slot += 1;
    self.shm_clock();
    let cwd_i = self.vfs.mkdir_p(cwd);
    let mut args: Vec<CString> = vec![CString::new(argv[0]).unwrap()];
    args.extend(argv[1..].iter().map(|a| CString::new(*a).unwrap()));
    let mut envs: Vec<CString> = env.iter().map(|(k, v)| CString::new(format!("{k}={v}")).unwrap()).collect();
    envs.push(CString::new(format!("LD_PRELOAD={}", self.stub_path)).unwrap());
    envs.push(CString::new(format!("SIM_SHM_FD={}", 901)).unwrap());
    envs.push(CString::new(format!("SIM_SLOT={slot}")).unwrap());
    envs.push(CString::new("MALLOC_ARENA_MAX=1").unwrap());
    if let Some(l) = self.layout {
      envs.push(CString::new(format!("SIM_LAYOUT={l}")).unwrap());
    }
    let av: Vec<*const i8> = args.iter().map(|a| a.as_ptr()).chain([std::ptr::null()]).collect();
    let ev: Vec<*const i8> = envs.iter().map(|a| a.as_ptr()).chain([std::ptr::null()]).collect();
    let path = CString::new(bin).unwrap();
    let pid = unsafe {
      let pid = libc::fork();
      if pid == 0 {
        let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDWR);
        libc::dup2(null, 0);
        libc::dup2(null, 1);
        if std::env::var_os("SIM_STDERR").is_none() {
          libc::dup2(null, 2);
        }
        libc::dup2(self.shm.fd, 901);
        libc::syscall(libc::SYS_close_range, 3, 900, 0);
        libc::personality(0x0040000);
        libc::execve(path.as_ptr(), av.as_ptr(), ev.as_ptr());
        libc::_exit(198);
      }
      pid
    };
    assert!(pid > 0, "fork");
    let p = self.blank_proc(PKind::Real { pid, forked: false }, argv[0], None, cwd_i);
    self.procs[p].argv = argv.iter().map(|s| s.to_string()).collect();
    self.procs[p].env = env.iter().map(|(k, v)| format!("{k}={v}")).collect();
    self.procs[p].launch = self.launches;
    self.launches += 1;
    for (i, o) in stdio.iter().enumerate() {
      self.set_fd(p, i as i32, *o, false);
    }
    let t = self.new_thread(p, slot);
    self.threads[t].start = false;
    // wait for its hello
    self.current = None;
    self.wait_event(t);
    p
  }

  fn shm_clock(&mut self) {
    unsafe {
      (*self.shm.h).now_mono = self.now;
      (*self.shm.h).now_real = self.now + self.real_offset;
    }
  }

  /// Waits until thread t (the only one running) posts its next request, or its process dies.
  fn wait_event(&mut self, t: usize) {
    let h = self.shm.h;
    let start = std::time::Instant::now();
    let mut cpu0: Option<f64> = None;
    let p = self.threads[t].proc;
    loop {
      unsafe {
        let ev = &(*h).event;
        if ev.load(Ordering::Acquire) == 1 {
          ev.store(0, Ordering::Release);
          let s = (*h).event_slot as usize;
          if s != self.threads[t].slot {
            self.harness_error = Some(format!("event from slot {s}, expected {}", self.threads[t].slot));
            return;
          }
          let sl = &(*h).slots[s];
          let th = &mut self.threads[t];
          th.nr = sl.nr;
          th.args = sl.args;
          th.waiting = false;
          th.first = true;
          th.deadline = None;
          th.woken = false;
          th.futex = None;
          th.cond = Cond::None;
          return;
        }
        futex_wait(ev, 0, 20);
        if (*h).event.load(Ordering::Acquire) == 1 {
          continue;
        }
        if let PKind::Real { pid, forked: false } = self.procs[p].kind {
          let mut st = 0;
          let r = libc::waitpid(pid, &mut st, libc::WNOHANG);
          if r == pid {
            if (*h).event.load(Ordering::Acquire) == 1 {
              continue;
            }
            let status = if libc::WIFSIGNALED(st) {
              Status::Signal(libc::WTERMSIG(st))
            } else {
              Status::Exit(libc::WEXITSTATUS(st))
            };
            if status == Status::Exit(199) || status == Status::Exit(198) {
              self.harness_error = Some("the stub could not start".into());
            }
            // already reaped: keep proc_exit from waiting for it
            self.procs[p].kind = PKind::Real { pid: i32::MAX, forked: true };
            self.proc_exit(p, status);
            return;
          }
        }
        // what counts is the time it computes, not how long it waits for a processor
        let waited = start.elapsed().as_secs();
        if waited > 20 {
          let tid = unsafe { (*h).slots[self.threads[t].slot].real_tid };
          let pid = self.real_pid(p);
          if cpu_seconds(pid, tid) - *cpu0.get_or_insert_with(|| cpu_seconds(pid, tid)) > 20.0 {
            self.note("target does not yield");
            self.probe("cpu_spin");
            self.proc_exit(p, Status::Signal(libc::SIGXCPU));
            return;
          }
          if waited > 150 {
            self.harness_error = Some(format!("stalled: last call {}, {}", self.threads[t].nr, task_state(pid)));
            self.proc_exit(p, Status::Signal(libc::SIGKILL));
            return;
          }
        }
      }
    }
  }

  /// Lets thread t go with this reply, until its next request.
  fn resume(&mut self, t: usize, r: Reply) {
    let p = self.threads[t].proc;
    if self.procs[p].status.is_some() {
      return;
    }
    let period = self.sched.malloc_period;
    let mallocs = if period > 0 {
      let n = self.choose(4096, |g| if g.chance(1, 3) { 0 } else { 1 + g.below(period.min(4000)) as usize });
      n as i64
    } else {
      0
    };
    self.shm_clock();
    let s = self.threads[t].slot;
    let h = self.shm.h;
    // signals first
    if let Reply::Ret(_) = r {
      // (not where the new thread is not there yet)
      let creates = matches!(self.threads[t].nr, X_THREAD_NEW | X_FORK | X_FORKED);
      if !creates && self.sig_ready(t) && self.threads[t].sigstack.len() < 4 {
        let mask = unsafe { (*h).slots[s].sigmask };
        let i = self.procs[p]
          .pending
          .iter()
          .position(|s| mask & (1 << (s - 1)) == 0 && self.procs[p].handlers.get(s).map_or(false, |h| h.0 > 1))
          .unwrap();
        let sig = self.procs[p].pending.remove(i);
        self.note(&format!("p{p} t{t} signal {sig}"));
        self.threads[t].sigstack.push(r);
        unsafe {
          let sl = &mut (*h).slots[s];
          sl.op = OP_SIG;
          sl.ret = sig as i64;
          sl.mallocs = 0;
          sl.resp.store(1, Ordering::Release);
          futex_wake(&sl.resp);
        }
        self.wait_event(t);
        return;
      }
    }
    unsafe {
      let sl = &mut (*h).slots[s];
      sl.mallocs = mallocs;
      match &r {
        Reply::Ret(v) => {
          sl.op = OP_RET;
          sl.ret = *v;
        }
        Reply::Raw => {
          sl.op = OP_RAWRET;
          sl.raw_nr = self.threads[t].nr;
          sl.raw_args = self.threads[t].args;
        }
        Reply::RawArgs(nr, a) => {
          sl.op = OP_RAWRET;
          sl.raw_nr = *nr;
          sl.raw_args = *a;
        }
        Reply::Join(addr) => {
          sl.op = OP_JOIN;
          sl.raw_args[0] = *addr;
        }
        Reply::Exit(nr, code) => {
          sl.op = OP_EXIT;
          sl.raw_nr = *nr;
          sl.raw_args[0] = *code;
        }
      }
      sl.resp.store(1, Ordering::Release);
      futex_wake(&sl.resp);
    }
    if let Reply::Exit(..) = r {
      // until it is really gone, whether a join finds it so would depend on real time
      let (pid, tid) = (self.real_pid(self.threads[t].proc), unsafe { (*h).slots[s].real_tid } as i32);
      let t0 = std::time::Instant::now();
      while unsafe { libc::syscall(libc::SYS_tgkill, pid, tid, 0) } == 0 && t0.elapsed().as_millis() < 2000 {
        std::thread::yield_now();
      }
      return;
    }
    self.wait_event(t);
  }

  // ---- the scheduler ----

  pub fn enabled(&self) -> Vec<Task> {
    let mut v = vec![];
    for t in 0..self.threads.len() {
      if self.thread_enabled(t) {
        v.push(Task::T(t));
      }
    }
    for a in 0..self.procs.len() {
      if self.actor_enabled(a) {
        v.push(Task::A(a));
      }
    }
    v
  }

  fn last_run(&self, t: Task) -> u64 {
    match t {
      Task::T(i) => self.threads[i].last_run,
      Task::A(i) => self.procs[i].last_run,
    }
  }

  fn prio(&self, t: Task) -> u64 {
    match t {
      Task::T(i) => self.threads[i].prio,
      Task::A(i) => self.procs[i].prio,
    }
  }

  /// Runs until `done` or nothing can happen any more.
  pub fn run(&mut self, mut done: impl FnMut(&Kernel) -> bool, max_steps: u64, until: i64) -> End {
    let lim = self.steps + max_steps;
    loop {
      if self.harness_error.is_some() || done(self) {
        return End::Done;
      }
      if self.steps >= lim {
        return End::Steps;
      }
      if self.now > until {
        return End::Time;
      }
      self.vfs.now = self.now;
      let mut en = self.enabled();
      if en.is_empty() {
        match self.next_event() {
          Some(t) => {
            if t > until {
              self.now = until + 1;
              return End::Time;
            }
            self.now = t;
            self.idle_steps = 0;
            continue;
          }
          None => return End::Deadlock,
        }
      }
      // busy waiting: let time pass
      self.idle_steps += 1;
      let starved = self.idle_steps > 300 && self.idle_steps % 50 == 0;
      if self.idle_steps > 3000 && !en.iter().any(|t| matches!(t, Task::A(_))) {
        if let Some(t) = self.next_event() {
          self.now = t;
          self.probe("busy_wait_skip");
        }
        self.idle_steps = 0;
        continue;
      }
      // option 0: the task that ran last
      if let Some(c) = self.current {
        if let Some(i) = en.iter().position(|x| *x == c) {
          en.remove(i);
          en.insert(0, c);
        }
      }
      let strategy = self.sched.strategy.clone();
      let steps = self.steps;
      let pick = if starved && en.len() > 1 {
        // fairness under spinning: the one that has waited longest
        (0..en.len()).min_by_key(|i| self.last_run(en[*i])).unwrap()
      } else if en.len() > 1 {
        self.switch_points += 1;
        let prios: Vec<u64> = en.iter().map(|t| self.prio(*t)).collect();
        let pct = self.pct_points.contains(&steps);
        let i = self.choose(en.len(), |g| match strategy.as_str() {
          "sticky" => {
            if g.chance(9, 10) {
              0
            } else {
              g.below(prios.len() as u64) as usize
            }
          }
          "pct" => (0..prios.len()).max_by_key(|i| prios[*i]).unwrap(),
          "rr" => prios.len() - 1,
          _ => g.below(prios.len() as u64) as usize,
        });
        if pct {
          let low = self.sched_rng.below(1 << 40);
          match en[i] {
            Task::T(t) => self.threads[t].prio = low,
            Task::A(a) => self.procs[a].prio = low,
          }
        }
        i
      } else {
        0
      };
      let task = en[pick];
      if self.current != Some(task) {
        self.context_switches += 1;
      }
      self.current = Some(task);
      match task {
        Task::T(t) => self.threads[t].last_run = self.steps,
        Task::A(a) => self.procs[a].last_run = self.steps,
      }
      self.steps += 1;
      self.now += 1000;
      self.sched_hash = fnv(self.sched_hash, &[pick as u8, en.len() as u8]);
      match task {
        Task::A(a) => {
          self.idle_steps = 0;
          let mut act = self.procs[a].actor.take().unwrap();
          act.step(self, a);
          if self.procs[a].status.is_none() {
            self.procs[a].actor = Some(act);
          }
        }
        Task::T(t) => self.step_thread(t),
      }
    }
  }

  fn step_thread(&mut self, t: usize) {
    let p = self.threads[t].proc;
    if self.threads[t].start {
      self.threads[t].start = false;
      self.note(&format!("p{p} t{t} starts"));
      self.resume(t, Reply::Ret(0));
      return;
    }
    if self.sched.stall > 0 {
      let n = self.sched.stall;
      let c = self.choose(4, |g| if g.below(n) == 0 { 1 + g.below(3) as usize } else { 0 });
      if c > 0 {
        self.threads[t].stalled = self.now + [0, MS, 20 * MS, 200 * MS][c];
        self.fire("thread_stall");
        return;
      }
    }
    if self.threads[t].first {
      self.procs[p].syscalls += 1;
      if let Some(c) = self.procs[p].crash_at {
        if self.procs[p].syscalls >= c {
          self.note(&format!("p{p} crashes"));
          self.fire("crash_at_step");
          self.proc_exit(p, Status::Signal(libc::SIGKILL));
          return;
        }
      }
    }
    let first = self.threads[t].first;
    let interrupted = self.threads[t].waiting && self.sig_ready(t) && self.interruptible(t) && {
      // only if nothing else woke it
      let pend = std::mem::take(&mut self.procs[p].pending);
      let e = self.thread_enabled(t);
      self.procs[p].pending = pend;
      !e
    };
    if interrupted {
      self.eintr += 1;
      let restart = match self.threads[t].cond {
        Cond::Ofd(..) | Cond::Child(_) => true, // SA_RESTART
        Cond::Futex => true,
        _ => false,
      };
      if restart {
        // handler runs, then the call is made again
        let s = self.threads[t].slot;
        let i = self.procs[p].pending.iter().position(|s| self.procs[p].handlers.get(s).map_or(false, |h| h.0 > 1));
        if let Some(i) = i {
          let sig = self.procs[p].pending.remove(i);
          let (nr, args) = (self.threads[t].nr, self.threads[t].args);
          let saved = self.threads[t].deadline;
          self.threads[t].futex = None;
          self.threads[t].woken = false;
          self.note(&format!("p{p} t{t} signal {sig} (restart)"));
          self.threads[t].sigstack.push(Reply::RawArgs(-1, [0; 6]));
          self.restarts.push((t, nr, args, saved));
          let h = self.shm.h;
          self.shm_clock();
          unsafe {
            let sl = &mut (*h).slots[s];
            sl.op = OP_SIG;
            sl.ret = sig as i64;
            sl.mallocs = 0;
            sl.resp.store(1, Ordering::Release);
            futex_wake(&sl.resp);
          }
          self.wait_event(t);
        }
        return;
      }
      self.fire("eintr");
      self.note(&format!("p{p} t{t} EINTR"));
      self.threads[t].futex = None;
      self.resume(t, err(libc::EINTR));
      return;
    }
    let r = self.perform(t);
    if self.procs[p].status.is_some() {
      return;
    }
    match r {
      None => {
        let th = &mut self.threads[t];
        th.waiting = true;
        th.first = false;
        if first {
          let nr = self.threads[t].nr;
          let c = match &self.threads[t].cond {
            Cond::ThreadExit(_) => "ThreadExit".into(), // a number of the real kernel
            c => format!("{c:?}"),
          };
          self.note(&format!("p{p} t{t} {} blocks {}", sysname(nr), c));
        }
      }
      Some(r) => {
        let nr = self.threads[t].nr;
        if nr != libc::SYS_futex && nr != X_YIELD {
          self.note(&format!("p{p} t{t} {} {:?}", sysname(nr), r));
        }
        if !(nr == libc::SYS_wait4 || nr == libc::SYS_sched_yield || nr == libc::SYS_waitid) {
          // progress of a sort; loops over waits alone count as idle
          if nr != libc::SYS_futex && nr != X_YIELD && nr != libc::SYS_epoll_wait && nr != libc::SYS_poll {
            self.idle_steps = self.idle_steps.saturating_sub(2);
          }
        }
        self.resume(t, r);
      }
    }
  }

  // ---- faults ----

  pub fn fault(&mut self, p: usize, op: &str, path: &str) -> Option<Act> {
    let launch = self.procs[p].launch;
    for (f, e) in &self.persist {
      if (f.op == op || f.op == "any") && path.contains(&f.path) && (f.proc < 0 || f.proc == launch) {
        return Some(Act::Errno(*e));
      }
    }
    let mut hit = None;
    for i in 0..self.faults.len() {
      let f = &self.faults[i];
      if (f.op == op || f.op == "any") && path.contains(&f.path) && (f.proc < 0 || f.proc == launch) {
        self.fault_counts[i] += 1;
        if self.fault_counts[i] == f.nth + 1 && hit.is_none() {
          hit = Some(f.clone());
        }
      }
    }
    let f = hit?;
    let (kind, act) = match &f.act {
      Act::Errno(e) => (format!("{op}_{}", errno_name(*e)), f.act.clone()),
      Act::Short(_) => (format!("{op}_short"), f.act.clone()),
      Act::Crash => (format!("{op}_crash"), f.act.clone()),
      Act::CrashAfter(_) => (format!("{op}_torn_crash"), f.act.clone()),
      Act::Persist(e) => {
        self.persist.push((f.clone(), *e));
        (format!("{op}_{}_persistent", errno_name(*e)), Act::Errno(*e))
      }
    };
    self.fire(&kind);
    self.note(&format!("fault p{p} {op} {path} {:?}", f.act));
    if act == Act::Crash {
      self.proc_exit(p, Status::Signal(libc::SIGKILL));
    }
    Some(act)
  }

  // ---- system calls ----

  fn is_real_path(&self, path: &[u8]) -> bool {
    let s = String::from_utf8_lossy(path);
    self.real_prefixes.iter().any(|p| s.starts_with(p.as_str()))
  }

  /// What a descriptor of the real kernel stands for
  fn real_fd_path(&self, p: usize, fd: i64) -> String {
    let l = format!("/proc/{}/fd/{}", self.real_pid(p), fd as i32);
    std::fs::read_link(l).map(|p| p.to_string_lossy().into_owned()).unwrap_or_default()
  }

  /// A call about a real file: left to the real kernel unless a fault is due.
  fn real_call(&mut self, p: usize, nr: i64, path: &str) -> Option<Reply> {
    use libc::*;
    let op = match nr {
      SYS_open | SYS_openat => "open",
      SYS_read | SYS_pread64 => "read",
      SYS_mmap => "mmap",
      SYS_stat | SYS_lstat | SYS_newfstatat | SYS_statx | SYS_fstat => "stat",
      SYS_getdents64 => "getdents",
      _ => return Some(Reply::Raw),
    };
    match self.fault(p, op, path) {
      Some(Act::Errno(e)) => fail(e),
      Some(_) if self.procs[p].status.is_some() => fail(EIO),
      _ => Some(Reply::Raw),
    }
  }

  fn at(&self, p: usize, dirfd: i64, path: &[u8]) -> Result<Ino, i32> {
    if path.first() == Some(&b'/') || dirfd as i32 == libc::AT_FDCWD {
      return Ok(self.procs[p].cwd);
    }
    match self.ofd_of(p, dirfd as i32) {
      Some(o) => match &self.ofds[o].as_ref().unwrap().kind {
        OKind::Dir { ino, .. } => Ok(*ino),
        OKind::File { ino, .. } if path.is_empty() => Ok(*ino),
        _ => Err(libc::ENOTDIR),
      },
      None => Err(libc::EBADF),
    }
  }

  fn perform(&mut self, t: usize) -> Option<Reply> {
    let p = self.threads[t].proc;
    let nr = self.threads[t].nr;
    let a = self.threads[t].args;
    let first = self.threads[t].first;
    match nr {
      X_HELLO | X_YIELD => ok(0),
      X_DONE => {
        let r = self.threads[t].sigstack.pop().unwrap_or(Reply::Ret(0));
        if let Reply::RawArgs(-1, _) = r {
          // restart the interrupted call
          let i = self.restarts.iter().rposition(|x| x.0 == t).expect("restart");
          let (_, nr, args, dl) = self.restarts.remove(i);
          let th = &mut self.threads[t];
          th.nr = nr;
          th.args = args;
          th.first = true;
          th.waiting = false;
          let r = self.perform(t);
          if r.is_none() {
            self.threads[t].deadline = dl;
          }
          return r;
        }
        Some(r)
      }
      X_THREAD_NEW => {
        if self.next_slot >= MAX_SLOTS {
          self.harness_error = Some("too many threads".into());
          return fail(libc::EAGAIN);
        }
        if let Some(Act::Errno(e)) = self.fault(p, "thread", "") {
          return fail(e);
        }
        let s = self.next_slot;
        self.next_slot += 1;
        self.new_thread(p, s);
        ok(s as i64)
      }
      X_FORK => {
        let s = self.next_slot;
        self.next_slot += 1;
        ok(s as i64)
      }
      X_FORKED => {
        let (cwd, name) = (self.procs[p].cwd, format!("{}:fork", self.procs[p].name));
        let c = self.blank_proc(PKind::Real { pid: a[0] as i32, forked: true }, &name, Some(p), cwd);
        self.procs[c].env = self.procs[p].env.clone();
        let fds: Vec<_> = self.procs[p].fds.iter().map(|(k, v)| (*k, *v)).collect();
        for (fd, (o, ce)) in fds {
          self.set_fd(c, fd, o, ce);
        }
        self.new_thread(c, a[1] as usize);
        ok(self.procs[c].vpid as i64)
      }
      X_SPAWN => self.sys_spawn(t, p, a),
      _ => self.sys(t, p, nr, a, first),
    }
  }

  fn sys_spawn(&mut self, _t: usize, p: usize, a: [i64; 6]) -> Option<Reply> {
    let path = String::from_utf8_lossy(&self.rd_cstr(p, a[0])?).into_owned();
    let argv = self.rd_strv(p, a[1]);
    let env = self.rd_strv(p, a[2]);
    let ex = self.rd(p, a[4], 32)?;
    let g = |i: usize| i64::from_le_bytes(ex[i * 8..i * 8 + 8].try_into().unwrap());
    let (nact, flags, pgroup) = (g(1) as usize, g(2), g(3));
    if let Some(act) = self.fault(p, "spawn", &argv.join(" ")) {
      if let Act::Errno(e) = act {
        return fail(e);
      }
      if self.procs[p].status.is_some() {
        return fail(libc::ECHILD);
      }
    }
    // the child's descriptors and directory
    let mut fds = self.procs[p].fds.clone();
    let mut cwd = self.procs[p].cwd;
    let mut extra = vec![];
    for i in 0..nact {
      let r = self.rd(p, a[3] + i as i64 * 48, 48)?;
      let f = |i: usize| i64::from_le_bytes(r[i * 8..i * 8 + 8].try_into().unwrap());
      match f(0) {
        1 => {
          fds.remove(&(f(1) as i32));
        }
        2 => match fds.get(&(f(1) as i32)).copied() {
          Some((o, _)) => {
            fds.insert(f(2) as i32, (o, false));
          }
          None => return fail(libc::EBADF),
        },
        3 => {
          let path = self.rd_cstr(p, f(3))?;
          match self.open(p, cwd, &path, f(4) as i32, f(5) as u32) {
            Ok(o) => {
              extra.push(o);
              fds.insert(f(1) as i32, (o, false));
            }
            Err(e) => return fail(e),
          }
        }
        4 => {
          let path = self.rd_cstr(p, f(3))?;
          match self.vfs.lookup(cwd, &path, true) {
            Ok((_, _, Some(i))) if self.vfs.is_dir(i) => cwd = i,
            Ok((_, _, Some(_))) => return fail(libc::ENOTDIR),
            Ok(_) => return fail(libc::ENOENT),
            Err(e) => return fail(e),
          }
        }
        _ => return fail(libc::EINVAL),
      }
    }
    let r = self.spawn_actor(p, &path, argv, env, cwd, fds);
    for o in extra {
      if self.ofds[o].as_ref().map_or(false, |x| x.refs == 0) {
        self.hold(o);
        self.drop_ofd(o);
      }
    }
    match r {
      Ok(c) => {
        if flags & 2 != 0 {
          self.procs[c].pgid = if pgroup == 0 { self.procs[c].vpid } else { pgroup as i32 };
        }
        ok(self.procs[c].vpid as i64)
      }
      Err(e) => fail(e),
    }
  }

  fn spawn_actor(
    &mut self,
    p: usize,
    path: &str,
    argv: Vec<String>,
    env: Vec<String>,
    cwd: Ino,
    fds: BTreeMap<i32, (usize, bool)>,
  ) -> Result<usize, i32> {
    let req = SpawnReq { parent: p, path: path.to_string(), argv: argv.clone(), env: env.clone(), cwd };
    let mut w = self.world.take().expect("world");
    let r = w.exec(self, &req);
    self.world = Some(w);
    let actor = match r {
      Ok(a) => a,
      Err(e) => {
        self.note(&format!("p{p} spawn {path} {argv:?} fails {e}"));
        return Err(e);
      }
    };
    let name = argv.join(" ");
    let at = self.now;
    let c = self.add_actor(actor, &name, Some(p), cwd, at);
    for (fd, (o, ce)) in fds {
      if !ce {
        self.set_fd(c, fd, o, false);
      }
    }
    self.procs[c].argv = argv;
    self.procs[c].env = env;
    self.note(&format!("p{p} spawn p{c} {name}"));
    Ok(c)
  }

  fn open(&mut self, p: usize, base: Ino, path: &[u8], flags: i32, mode: u32) -> Result<usize, i32> {
    let s = String::from_utf8_lossy(path).into_owned();
    let nonblock = flags & libc::O_NONBLOCK != 0;
    if s == "/dev/null" {
      return Ok(self.new_ofd(OKind::Null, nonblock, &s));
    }
    if s == "/dev/urandom" || s == "/dev/random" {
      return Ok(self.new_ofd(OKind::Random, nonblock, &s));
    }
    let acc = flags & libc::O_ACCMODE;
    let (r, w) = (acc != libc::O_WRONLY, acc != libc::O_RDONLY);
    match self.fault(p, "open", &s) {
      Some(Act::Errno(e)) => return Err(e),
      Some(_) if self.procs[p].status.is_some() => return Err(libc::EIO),
      _ => {}
    }
    let (dir, name, found) = self.vfs.lookup(base, path, flags & libc::O_NOFOLLOW == 0)?;
    let ino = match found {
      Some(i) => {
        if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
          return Err(libc::EEXIST);
        }
        i
      }
      None => {
        if flags & libc::O_CREAT == 0 {
          return Err(libc::ENOENT);
        }
        if path.last() == Some(&b'/') {
          return Err(libc::EISDIR);
        }
        self.vfs.new_file(dir, &name, mode & !self.procs[p].umask)
      }
    };
    if let Kind::Link { .. } = self.vfs.inodes[ino].kind {
      return Err(libc::ELOOP);
    }
    if self.vfs.is_dir(ino) {
      if w {
        return Err(libc::EISDIR);
      }
      return Ok(self.new_ofd(OKind::Dir { ino, list: None, pos: 0 }, nonblock, &s));
    }
    if flags & libc::O_DIRECTORY != 0 {
      return Err(libc::ENOTDIR);
    }
    if w && self.vfs.inodes[ino].mode & 0o200 == 0 && false {
      return Err(libc::EACCES);
    }
    if flags & libc::O_TRUNC != 0 && w {
      self.vfs.data_mut(ino).clear();
    }
    Ok(self.new_ofd(OKind::File { ino, pos: 0, append: flags & libc::O_APPEND != 0, r, w }, nonblock, &s))
  }

  /// Takes up to len bytes from a stream; None: nothing there yet.
  pub fn pipe_take(&mut self, p: usize, len: usize) -> Option<Vec<u8>> {
    let pi = &mut self.pipes[p];
    if pi.buf.is_empty() {
      return if pi.writers == 0 { Some(vec![]) } else { None };
    }
    let n = len.min(pi.buf.len());
    let v: Vec<u8> = pi.buf.drain(..n).collect();
    pi.gen_out += 1;
    Some(v)
  }
  /// Puts what fits; None: full; Err: nobody reads.
  pub fn pipe_put(&mut self, p: usize, data: &[u8]) -> Result<Option<usize>, i32> {
    let pi = &mut self.pipes[p];
    if pi.readers == 0 {
      return Err(libc::EPIPE);
    }
    let room = pi.cap - pi.buf.len();
    if room == 0 && !data.is_empty() {
      return Ok(None);
    }
    let n = room.min(data.len());
    pi.buf.extend(&data[..n]);
    pi.gen_in += 1;
    pi.total += n as u64;
    Ok(Some(n))
  }

  /// Reads from a descriptor: Err(EAGAIN) means it would block.
  fn read_ofd(&mut self, p: usize, o: usize, len: usize, at: Option<usize>) -> Result<Vec<u8>, i32> {
    let path = self.o(o).path.clone();
    if matches!(self.o(o).kind, OKind::File { .. } | OKind::PipeR(_) | OKind::Sock { .. }) {
      match self.fault(p, "read", &path) {
        Some(Act::Errno(e)) => return Err(e),
        Some(Act::Short(n)) => return self.read_ofd2(o, len.min(n.max(1)), at),
        Some(_) if self.procs[p].status.is_some() => return Err(libc::EIO),
        _ => {}
      }
    }
    self.read_ofd2(o, len, at)
  }
  fn read_ofd2(&mut self, o: usize, len: usize, at: Option<usize>) -> Result<Vec<u8>, i32> {
    match &mut self.ofds[o].as_mut().unwrap().kind {
      OKind::File { ino, pos, r, .. } => {
        if !*r {
          return Err(libc::EBADF);
        }
        let d = self.vfs.data(*ino);
        let s = at.unwrap_or(*pos).min(d.len());
        let n = len.min(d.len() - s);
        let v = d[s..s + n].to_vec();
        if at.is_none() {
          *pos = s + n;
        }
        Ok(v)
      }
      OKind::Dir { .. } => Err(libc::EISDIR),
      OKind::PipeR(pp) => {
        let pp = *pp;
        self.pipe_take(pp, len).ok_or(libc::EAGAIN)
      }
      OKind::Sock { rx, .. } => match *rx {
        Some(rx) => self.pipe_take(rx, len).ok_or(libc::EAGAIN),
        None => Ok(vec![]),
      },
      OKind::Event { count, sem, gen_in } => {
        if len < 8 {
          return Err(libc::EINVAL);
        }
        if *count == 0 {
          return Err(libc::EAGAIN);
        }
        let v = if *sem { 1 } else { *count };
        *count -= v;
        *gen_in += 1;
        Ok(v.to_le_bytes().to_vec())
      }
      OKind::Null => Ok(vec![]),
      OKind::Random => Ok((0..len).map(|_| self.rng.next() as u8).collect()),
      _ => Err(libc::EINVAL),
    }
  }

  fn write_ofd(&mut self, p: usize, o: usize, data: &[u8], at: Option<usize>) -> Result<usize, i32> {
    let path = self.o(o).path.clone();
    let mut data = data;
    let mut die = false;
    if matches!(self.o(o).kind, OKind::File { .. } | OKind::PipeW(_) | OKind::Sock { .. }) {
      match self.fault(p, "write", &path) {
        Some(Act::Errno(e)) => return Err(e),
        Some(Act::Short(n)) => data = &data[..data.len().min(n.max(1))],
        Some(Act::CrashAfter(n)) => {
          data = &data[..data.len().min(n)];
          die = true;
        }
        _ => {}
      }
      if self.procs[p].status.is_some() {
        return Err(libc::EIO);
      }
    }
    let r = self.write_ofd2(o, data, at);
    if die {
      self.proc_exit(p, Status::Signal(libc::SIGKILL));
    }
    r
  }
  pub fn write_ofd2(&mut self, o: usize, data: &[u8], at: Option<usize>) -> Result<usize, i32> {
    match &mut self.ofds[o].as_mut().unwrap().kind {
      OKind::File { ino, pos, append, w, .. } => {
        if !*w {
          return Err(libc::EBADF);
        }
        let d = self.vfs.data_mut(*ino);
        let s = if *append { d.len() } else { at.unwrap_or(*pos) };
        if d.len() < s + data.len() {
          d.resize(s + data.len(), 0);
        }
        d[s..s + data.len()].copy_from_slice(data);
        if at.is_none() {
          *pos = s + data.len();
        }
        Ok(data.len())
      }
      OKind::PipeW(pp) => {
        let pp = *pp;
        self.pipe_put(pp, data)?.ok_or(libc::EAGAIN)
      }
      OKind::Sock { tx, .. } => match *tx {
        Some(tx) => self.pipe_put(tx, data)?.ok_or(libc::EAGAIN),
        None => Err(libc::EPIPE),
      },
      OKind::Event { count, gen_in, .. } => {
        if data.len() < 8 {
          return Err(libc::EINVAL);
        }
        let v = u64::from_le_bytes(data[..8].try_into().unwrap());
        if count.checked_add(v).map_or(true, |x| x == u64::MAX) {
          return Err(libc::EAGAIN);
        }
        *count += v;
        *gen_in += 1;
        Ok(8)
      }
      OKind::Null | OKind::Random => Ok(data.len()),
      OKind::Dir { .. } | OKind::PipeR(_) => Err(libc::EBADF),
      _ => Err(libc::EINVAL),
    }
  }

  fn block(&mut self, t: usize, c: Cond) -> Option<Reply> {
    self.threads[t].cond = c;
    None
  }

  fn stat_of(&mut self, o: Option<usize>, ino: Option<Ino>) -> (u32, u64, u64, u32, i64) {
    // mode, size, inode number, nlink, mtime
    let i = match (o, ino) {
      (_, Some(i)) => i,
      (Some(o), None) => match &self.ofds[o].as_ref().unwrap().kind {
        OKind::File { ino, .. } | OKind::Dir { ino, .. } => *ino,
        OKind::PipeR(_) | OKind::PipeW(_) => return (libc::S_IFIFO | 0o600, 0, 900_000 + o as u64, 1, 0),
        OKind::Sock { .. } | OKind::NewSock { .. } | OKind::Listener { .. } => {
          return (libc::S_IFSOCK | 0o777, 0, 900_000 + o as u64, 1, 0)
        }
        OKind::Null | OKind::Random => return (libc::S_IFCHR | 0o666, 0, 4, 1, 0),
        _ => return (0o600, 0, 900_000 + o as u64, 1, 0),
      },
      _ => unreachable!(),
    };
    let n = &self.vfs.inodes[i];
    let (m, sz) = match &n.kind {
      Kind::File { data, .. } => (libc::S_IFREG, data.len()),
      Kind::Dir { .. } => (libc::S_IFDIR, 4096),
      Kind::Link { target } => (libc::S_IFLNK, target.len()),
    };
    (m | n.mode, sz as u64, i as u64 + 10, n.nlink, n.mtime + self.real_offset)
  }

  fn put_stat(&mut self, p: usize, addr: i64, s: (u32, u64, u64, u32, i64)) -> bool {
    let mut b = [0u8; 144];
    b[0..8].copy_from_slice(&42u64.to_le_bytes());
    b[8..16].copy_from_slice(&s.2.to_le_bytes());
    b[16..24].copy_from_slice(&(s.3 as u64).to_le_bytes());
    b[24..28].copy_from_slice(&s.0.to_le_bytes());
    b[48..56].copy_from_slice(&s.1.to_le_bytes());
    b[56..64].copy_from_slice(&4096u64.to_le_bytes());
    b[64..72].copy_from_slice(&s.1.div_ceil(512).to_le_bytes());
    for o in [72, 88, 104] {
      b[o..o + 8].copy_from_slice(&(s.4 / SEC).to_le_bytes());
      b[o + 8..o + 16].copy_from_slice(&(s.4 % SEC).to_le_bytes());
    }
    self.wr(p, addr, &b)
  }
  fn put_statx(&mut self, p: usize, addr: i64, s: (u32, u64, u64, u32, i64)) -> bool {
    let mut b = [0u8; 256];
    b[0..4].copy_from_slice(&0xfffu32.to_le_bytes());
    b[4..8].copy_from_slice(&4096u32.to_le_bytes());
    b[16..20].copy_from_slice(&s.3.to_le_bytes());
    b[28..30].copy_from_slice(&(s.0 as u16).to_le_bytes());
    b[32..40].copy_from_slice(&s.2.to_le_bytes());
    b[40..48].copy_from_slice(&s.1.to_le_bytes());
    b[48..56].copy_from_slice(&s.1.div_ceil(512).to_le_bytes());
    for o in [64, 80, 96, 112] {
      b[o..o + 8].copy_from_slice(&(s.4 / SEC).to_le_bytes());
      b[o + 8..o + 12].copy_from_slice(&((s.4 % SEC) as u32).to_le_bytes());
    }
    self.wr(p, addr, &b)
  }

  fn put_sockaddr(&mut self, p: usize, addr: i64, lenp: i64, port: u16) {
    if addr == 0 || lenp == 0 {
      return;
    }
    let mut b = [0u8; 16];
    b[0..2].copy_from_slice(&(libc::AF_INET as u16).to_le_bytes());
    b[2..4].copy_from_slice(&port.to_be_bytes());
    b[4..8].copy_from_slice(&[127, 0, 0, 1]);
    let max = self.rd_i32(p, lenp).unwrap_or(0).max(0) as usize;
    self.wr(p, addr, &b[..16.min(max)]);
    self.wr(p, lenp, &16i32.to_le_bytes());
  }

  pub fn listener(&self, port: u16) -> Option<usize> {
    self.ofds.iter().position(|o| matches!(o, Some(Ofd { kind: OKind::Listener { port: q, .. }, .. }) if *q == port))
  }

  /// A client connects: the ofd of its end.
  pub fn connect(&mut self, port: u16, cap: usize, client_port: u16) -> Result<usize, i32> {
    let l = self.listener(port).ok_or(libc::ECONNREFUSED)?;
    let (a, b) = self.sock_pair(cap, client_port);
    self.hold(b);
    if let OKind::Listener { backlog, gen, .. } = &mut self.o(l).kind {
      backlog.push_back(b);
      *gen += 1;
    }
    Ok(a)
  }
  pub fn sock_pair(&mut self, cap: usize, peer_port: u16) -> (usize, usize) {
    let x = self.new_pipe(cap);
    let y = self.new_pipe(cap);
    for q in [x, y] {
      self.pipes[q].readers = 1;
      self.pipes[q].writers = 1;
    }
    (
      self.new_ofd(OKind::Sock { rx: Some(x), tx: Some(y), peer_port: 0 }, false, "socket:"),
      self.new_ofd(OKind::Sock { rx: Some(y), tx: Some(x), peer_port }, false, "socket:"),
    )
  }

  fn path_arg(&mut self, p: usize, dirfd: i64, addr: i64) -> Result<(Ino, Vec<u8>), i32> {
    let path = self.rd_cstr(p, addr).ok_or(libc::EFAULT)?;
    let base = self.at(p, dirfd, &path)?;
    Ok((base, path))
  }

  fn sys(&mut self, t: usize, p: usize, nr: i64, a: [i64; 6], first: bool) -> Option<Reply> {
    use libc::*;
    // calls on real descriptors or real paths go to the real kernel
    let real_fd = |k: &Kernel, fd: i64| (fd as i32) > 2 && (fd as i32) < VFD_BASE && !k.procs[p].fds.contains_key(&(fd as i32));
    macro_rules! fd {
      ($x:expr) => {{
        if real_fd(self, $x) {
          return self.real_call(p, nr, &self.real_fd_path(p, $x));
        }
        match self.ofd_of(p, $x as i32) {
          Some(o) => o,
          None => return fail(EBADF),
        }
      }};
    }
    macro_rules! tri {
      ($e:expr) => {
        match $e {
          Ok(v) => v,
          Err(e) => return fail(e),
        }
      };
    }
    macro_rules! mem {
      ($e:expr) => {
        match $e {
          Some(v) => v,
          None => return fail(EFAULT),
        }
      };
    }
    // (dirfd, path address) -> (base, path), with real paths passed through
    macro_rules! path {
      ($d:expr, $a:expr) => {{
        if real_fd(self, $d) && $d as i32 != AT_FDCWD {
          return Some(Reply::Raw);
        }
        let path = mem!(self.rd_cstr(p, $a));
        if self.is_real_path(&path) {
          return self.real_call(p, nr, &String::from_utf8_lossy(&path));
        }
        let base = tri!(self.at(p, $d, &path));
        (base, path)
      }};
    }
    const CWD: i64 = AT_FDCWD as i64;
    match nr {
      SYS_read | SYS_pread64 | SYS_recvfrom | SYS_readv => {
        let o = fd!(a[0]);
        let at = if nr == SYS_pread64 { Some(a[3] as usize) } else { None };
        let iov = if nr == SYS_readv {
          mem!(self.rd_iov(p, a[1], a[2] as usize))
        } else {
          vec![(a[1], a[2] as usize)]
        };
        let len: usize = iov.iter().map(|x| x.1).sum();
        let peek = nr == SYS_recvfrom && a[3] & MSG_PEEK as i64 != 0;
        if peek {
          if let OKind::Sock { rx: Some(rx), .. } = self.o(o).kind {
            let pi = &self.pipes[rx];
            if !pi.buf.is_empty() || pi.writers == 0 {
              let v: Vec<u8> = pi.buf.iter().copied().take(len).collect();
              self.wr(p, a[1], &v);
              return ok(v.len() as i64);
            }
          }
        }
        match self.read_ofd(p, o, len, at) {
          Ok(v) => {
            let mut off = 0;
            for (ad, l) in iov {
              let n = l.min(v.len() - off);
              if !self.wr(p, ad, &v[off..off + n]) {
                return fail(EFAULT);
              }
              off += n;
            }
            ok(v.len() as i64)
          }
          Err(EAGAIN) if !self.o(o).nonblock && !(nr == SYS_recvfrom && a[3] & MSG_DONTWAIT as i64 != 0) => {
            self.block(t, Cond::Ofd(o, IN))
          }
          Err(e) => fail(e),
        }
      }
      SYS_write | SYS_pwrite64 | SYS_sendto | SYS_writev => {
        let o = fd!(a[0]);
        let at = if nr == SYS_pwrite64 { Some(a[3] as usize) } else { None };
        let mut data = vec![];
        if nr == SYS_writev {
          for (ad, l) in mem!(self.rd_iov(p, a[1], a[2] as usize)) {
            data.extend(mem!(self.rd(p, ad, l)));
          }
        } else {
          data = mem!(self.rd(p, a[1], a[2] as usize));
        }
        match self.write_ofd(p, o, &data, at) {
          Ok(n) => {
            if (a[0] == 1 || a[0] == 2) && self.log.is_some() {
              let s = String::from_utf8_lossy(&data[..n.min(300)]).into_owned();
              self.note_nohash(&format!("p{p} output {s:?}"));
            }
            ok(n as i64)
          }
          Err(EAGAIN) if !self.o(o).nonblock && !(nr == SYS_sendto && a[3] & MSG_DONTWAIT as i64 != 0) => {
            self.block(t, Cond::Ofd(o, OUT))
          }
          Err(EPIPE) => {
            if nr != SYS_sendto && self.procs[p].handlers.get(&SIGPIPE).map_or(0, |h| h.0) == 0 {
              self.proc_exit(p, Status::Signal(SIGPIPE));
            }
            fail(EPIPE)
          }
          Err(e) => fail(e),
        }
      }
      SYS_open | SYS_openat | SYS_creat => {
        let (d, pa, fl, mo) = match nr {
          SYS_open => (CWD, a[0], a[1], a[2]),
          SYS_creat => (CWD, a[0], (O_CREAT | O_WRONLY | O_TRUNC) as i64, a[1]),
          _ => (a[0], a[1], a[2], a[3]),
        };
        let (base, path) = path!(d, pa);
        let o = tri!(self.open(p, base, &path, fl as i32, mo as u32));
        let fd = self.add_fd(p, o, fl as i32 & O_CLOEXEC != 0);
        self.note(&format!("p{p} open {} -> {fd}", String::from_utf8_lossy(&path)));
        ok(fd as i64)
      }
      SYS_close => {
        if real_fd(self, a[0]) {
          return Some(Reply::Raw);
        }
        if self.close_fd(p, a[0] as i32) {
          ok(0)
        } else {
          fail(EBADF)
        }
      }
      SYS_close_range => ok(0),
      SYS_mmap => {
        let _ = fd!(a[4]);
        fail(ENODEV)
      }
      SYS_lseek => {
        let o = fd!(a[0]);
        let size = match &self.o(o).kind {
          OKind::File { ino, .. } => {
            let i = *ino;
            self.vfs.data(i).len() as i64
          }
          OKind::Dir { .. } => 0,
          _ => return fail(ESPIPE),
        };
        match &mut self.o(o).kind {
          OKind::File { pos, .. } => {
            let np = match a[2] as i32 {
              SEEK_SET => a[1],
              SEEK_CUR => *pos as i64 + a[1],
              SEEK_END => size + a[1],
              _ => return fail(EINVAL),
            };
            if np < 0 {
              return fail(EINVAL);
            }
            *pos = np as usize;
            ok(np)
          }
          OKind::Dir { pos, list, .. } => {
            *pos = a[1] as usize;
            if a[1] == 0 {
              *list = None;
            }
            ok(a[1])
          }
          _ => unreachable!(),
        }
      }
      SYS_fstat => {
        let o = fd!(a[0]);
        let s = self.stat_of(Some(o), None);
        self.put_stat(p, a[1], s);
        ok(0)
      }
      SYS_stat | SYS_lstat | SYS_newfstatat => {
        let (d, pa, buf, nofollow, empty) = match nr {
          SYS_stat => (CWD, a[0], a[1], false, false),
          SYS_lstat => (CWD, a[0], a[1], true, false),
          _ => (a[0], a[1], a[2], a[3] as i32 & AT_SYMLINK_NOFOLLOW != 0, a[3] as i32 & AT_EMPTY_PATH != 0),
        };
        if empty && mem!(self.rd_cstr(p, pa)).is_empty() {
          let o = fd!(d);
          let s = self.stat_of(Some(o), None);
          self.put_stat(p, buf, s);
          return ok(0);
        }
        let (base, path) = path!(d, pa);
        match tri!(self.vfs.lookup(base, &path, !nofollow)).2 {
          Some(i) => {
            let s = self.stat_of(None, Some(i));
            self.put_stat(p, buf, s);
            ok(0)
          }
          None => fail(ENOENT),
        }
      }
      SYS_statx => {
        if a[1] == 0 {
          return fail(EFAULT);
        }
        let fl = a[2] as i32;
        if fl & AT_EMPTY_PATH != 0 && mem!(self.rd_cstr(p, a[1])).is_empty() {
          let o = fd!(a[0]);
          let s = self.stat_of(Some(o), None);
          self.put_statx(p, a[4], s);
          return ok(0);
        }
        let (base, path) = path!(a[0], a[1]);
        match tri!(self.vfs.lookup(base, &path, fl & AT_SYMLINK_NOFOLLOW == 0)).2 {
          Some(i) => {
            let s = self.stat_of(None, Some(i));
            self.put_statx(p, a[4], s);
            ok(0)
          }
          None => fail(ENOENT),
        }
      }
      SYS_ftruncate | SYS_truncate => {
        let ino = if nr == SYS_ftruncate {
          let o = fd!(a[0]);
          let path = self.o(o).path.clone();
          if let Some(Act::Errno(e)) = self.fault(p, "ftruncate", &path) {
            return fail(e);
          }
          if self.procs[p].status.is_some() {
            return fail(EIO);
          }
          match &self.o(o).kind {
            OKind::File { ino, w: true, .. } => *ino,
            _ => return fail(EINVAL),
          }
        } else {
          let (base, path) = path!(CWD, a[0]);
          match tri!(self.vfs.lookup(base, &path, true)).2 {
            Some(i) => i,
            None => return fail(ENOENT),
          }
        };
        self.vfs.data_mut(ino).resize(a[1] as usize, 0);
        ok(0)
      }
      SYS_fallocate => ok(0),
      SYS_fsync | SYS_fdatasync | SYS_syncfs | SYS_sync_file_range => {
        let o = fd!(a[0]);
        let path = self.o(o).path.clone();
        if let Some(Act::Errno(e)) = self.fault(p, "fsync", &path) {
          return fail(e);
        }
        if let OKind::File { ino, .. } = self.o(o).kind {
          self.vfs.sync(ino);
        }
        ok(0)
      }
      SYS_sync => {
        for i in self.vfs.dirty_files() {
          self.vfs.sync(i);
        }
        ok(0)
      }
      SYS_fcntl => {
        let o = fd!(a[0]);
        match a[1] as i32 {
          F_DUPFD | F_DUPFD_CLOEXEC => {
            let fd = self.next_fd(p, (a[2] as i32).max(VFD_BASE));
            self.set_fd(p, fd, o, a[1] as i32 == F_DUPFD_CLOEXEC);
            ok(fd as i64)
          }
          F_GETFD => ok(self.procs[p].fds[&(a[0] as i32)].1 as i64),
          F_SETFD => {
            self.procs[p].fds.get_mut(&(a[0] as i32)).unwrap().1 = a[2] & 1 != 0;
            ok(0)
          }
          F_GETFL => {
            let nb = if self.o(o).nonblock { O_NONBLOCK } else { 0 };
            let m = match &self.o(o).kind {
              OKind::File { r, w, append, .. } => {
                (match (r, w) {
                  (true, true) => O_RDWR,
                  (false, true) => O_WRONLY,
                  _ => O_RDONLY,
                }) | if *append { O_APPEND } else { 0 }
              }
              OKind::PipeW(_) => O_WRONLY,
              OKind::PipeR(_) | OKind::Dir { .. } => O_RDONLY,
              _ => O_RDWR,
            };
            ok((m | nb) as i64)
          }
          F_SETFL => {
            self.o(o).nonblock = a[2] as i32 & O_NONBLOCK != 0;
            if let OKind::File { append, .. } = &mut self.o(o).kind {
              *append = a[2] as i32 & O_APPEND != 0;
            }
            ok(0)
          }
          F_GETPIPE_SZ => ok(65536),
          F_SETPIPE_SZ => {
            if let OKind::PipeR(q) | OKind::PipeW(q) = self.o(o).kind {
              self.pipes[q].cap = (a[2] as usize).max(4096);
            }
            ok(a[2])
          }
          // record locks: held by nobody else in these workloads within one process
          F_SETLK | F_SETLKW | F_OFD_SETLK | F_OFD_SETLKW => {
            let kind = mem!(self.rd(p, a[2], 2));
            let kind = i16::from_le_bytes(kind.try_into().unwrap()) as i32;
            let wait = a[1] as i32 == F_SETLKW || a[1] as i32 == F_OFD_SETLKW;
            self.do_flock(t, o, kind != F_UNLCK, kind == F_WRLCK, wait, EAGAIN)
          }
          _ => fail(EINVAL),
        }
      }
      SYS_flock => {
        let o = fd!(a[0]);
        let op = a[1] as i32;
        let wait = op & LOCK_NB == 0;
        self.do_flock(t, o, op & LOCK_UN == 0, op & LOCK_EX != 0, wait, EWOULDBLOCK)
      }
      SYS_ioctl => {
        let o = fd!(a[0]);
        match a[1] as u64 {
          FIONBIO => {
            let v = mem!(self.rd_i32(p, a[2]));
            self.o(o).nonblock = v != 0;
            ok(0)
          }
          FIOCLEX => {
            self.procs[p].fds.get_mut(&(a[0] as i32)).unwrap().1 = true;
            ok(0)
          }
          FIONREAD => {
            let n = match &self.ofds[o].as_ref().unwrap().kind {
              OKind::PipeR(q) => self.pipes[*q].buf.len(),
              OKind::Sock { rx: Some(q), .. } => self.pipes[*q].buf.len(),
              _ => 0,
            };
            self.wr(p, a[2], &(n as i32).to_le_bytes());
            ok(0)
          }
          _ => fail(ENOTTY),
        }
      }
      SYS_dup => {
        let o = fd!(a[0]);
        ok(self.add_fd(p, o, false) as i64)
      }
      SYS_dup2 | SYS_dup3 => {
        let o = fd!(a[0]);
        if a[0] != a[1] {
          self.set_fd(p, a[1] as i32, o, nr == SYS_dup3 && a[2] as i32 & O_CLOEXEC != 0);
        }
        ok(a[1])
      }
      SYS_pipe2 | SYS_pipe => {
        let fl = if nr == SYS_pipe2 { a[1] as i32 } else { 0 };
        if let Some(Act::Errno(e)) = self.fault(p, "pipe", "") {
          return fail(e);
        }
        let (r, w) = self.pipe_pair(65536, fl & O_NONBLOCK != 0);
        let fr = self.add_fd(p, r, fl & O_CLOEXEC != 0);
        let fw = self.add_fd(p, w, fl & O_CLOEXEC != 0);
        let mut b = fr.to_le_bytes().to_vec();
        b.extend(fw.to_le_bytes());
        self.wr(p, a[0], &b);
        ok(0)
      }
      SYS_poll | SYS_ppoll => {
        let n = a[1] as usize;
        let raw = mem!(self.rd(p, a[0], n * 8));
        if first {
          let to = if nr == SYS_poll {
            let ms = a[2] as i32;
            if ms < 0 {
              None
            } else {
              Some(ms as i64 * MS)
            }
          } else if a[2] == 0 {
            None
          } else {
            Some(mem!(self.rd_ts(p, a[2])))
          };
          self.threads[t].deadline = to.map(|x| self.now + x);
        }
        let mut want = vec![];
        let mut out = raw.clone();
        let mut count = 0;
        for i in 0..n {
          let fd = i32::from_le_bytes(raw[i * 8..i * 8 + 4].try_into().unwrap());
          let ev = u16::from_le_bytes(raw[i * 8 + 4..i * 8 + 6].try_into().unwrap()) as u32;
          let mut rev = 0u32;
          if fd >= 0 {
            match self.ofd_of(p, fd) {
              Some(o) => {
                let m = self.ready(o).0;
                rev = m & (ev | POLLHUP as u32 | POLLERR as u32);
                want.push((fd, ev));
              }
              None => {
                if !real_fd(self, fd as i64) {
                  rev = POLLNVAL as u32;
                }
              }
            }
          }
          if rev != 0 {
            count += 1;
          }
          out[i * 8 + 6..i * 8 + 8].copy_from_slice(&(rev as u16).to_le_bytes());
        }
        let due = self.threads[t].deadline.map_or(false, |d| d <= self.now);
        if count > 0 || due {
          self.wr(p, a[0], &out);
          return ok(count);
        }
        self.block(t, Cond::Poll(want))
      }
      SYS_epoll_create1 | SYS_epoll_create => {
        self.epolls.push(vec![]);
        let e = self.epolls.len() - 1;
        let o = self.new_ofd(OKind::Epoll(e), false, "epoll:");
        ok(self.add_fd(p, o, true) as i64)
      }
      SYS_epoll_ctl => {
        let eo = fd!(a[0]);
        let e = match self.o(eo).kind {
          OKind::Epoll(e) => e,
          _ => return fail(EINVAL),
        };
        let fd = a[2] as i32;
        let o = fd!(a[2]);
        let (mut ev, mut data) = (0, 0);
        if a[1] as i32 != EPOLL_CTL_DEL {
          let b = mem!(self.rd(p, a[3], 12));
          ev = u32::from_le_bytes(b[..4].try_into().unwrap());
          data = u64::from_le_bytes(b[4..12].try_into().unwrap());
        }
        let pos = self.epolls[e].iter().position(|r| r.fd == fd && r.ofd == o);
        if matches!(self.o(o).kind, OKind::File { .. } | OKind::Dir { .. }) {
          return fail(EPERM);
        }
        match a[1] as i32 {
          EPOLL_CTL_ADD => {
            if pos.is_some() {
              return fail(EEXIST);
            }
            self.epolls[e].push(Reg { fd, ofd: o, events: ev, data, seen: None, disabled: false });
          }
          EPOLL_CTL_MOD => match pos {
            Some(i) => {
              let r = &mut self.epolls[e][i];
              r.events = ev;
              r.data = data;
              r.seen = None;
              r.disabled = false;
            }
            None => return fail(ENOENT),
          },
          EPOLL_CTL_DEL => match pos {
            Some(i) => {
              self.epolls[e].remove(i);
            }
            None => return fail(ENOENT),
          },
          _ => return fail(EINVAL),
        }
        ok(0)
      }
      SYS_epoll_wait | SYS_epoll_pwait | SYS_epoll_pwait2 => {
        let eo = fd!(a[0]);
        let e = match self.o(eo).kind {
          OKind::Epoll(e) => e,
          _ => return fail(EINVAL),
        };
        if first {
          let to = if nr == SYS_epoll_pwait2 {
            if a[3] == 0 {
              None
            } else {
              Some(mem!(self.rd_ts(p, a[3])))
            }
          } else if (a[3] as i32) < 0 {
            None
          } else {
            Some(a[3] as i32 as i64 * MS)
          };
          self.threads[t].deadline = to.map(|x| self.now + x);
        }
        let mut rd = self.epoll_ready(e);
        if rd.len() > 1 {
          let n = rd.len();
          let k = self.choose(n, |g| g.below(n as u64) as usize);
          rd.rotate_left(k);
        }
        rd.truncate(a[2] as usize);
        let due = self.threads[t].deadline.map_or(false, |d| d <= self.now);
        if rd.is_empty() && !due {
          return self.block(t, Cond::Epoll(e));
        }
        let mut b = vec![];
        for (i, m) in &rd {
          let (_, gi, go) = self.ready(self.epolls[e][*i].ofd);
          let r = &mut self.epolls[e][*i];
          r.seen = Some((gi, go));
          if r.events & EPOLLONESHOT as u32 != 0 {
            r.disabled = true;
          }
          b.extend(m.to_le_bytes());
          b.extend(r.data.to_le_bytes());
        }
        self.wr(p, a[1], &b);
        ok(rd.len() as i64)
      }
      SYS_eventfd2 | SYS_eventfd => {
        let fl = if nr == SYS_eventfd2 { a[1] as i32 } else { 0 };
        let o = self.new_ofd(
          OKind::Event { count: a[0] as u32 as u64, gen_in: 0, sem: fl & EFD_SEMAPHORE != 0 },
          fl & EFD_NONBLOCK != 0,
          "eventfd:",
        );
        ok(self.add_fd(p, o, fl & EFD_CLOEXEC != 0) as i64)
      }
      SYS_socketpair => {
        let (x, y) = self.sock_pair(212_992, 0);
        let ty = a[1] as i32;
        for o in [x, y] {
          self.o(o).nonblock = ty & SOCK_NONBLOCK != 0;
        }
        let f1 = self.add_fd(p, x, ty & SOCK_CLOEXEC != 0);
        let f2 = self.add_fd(p, y, ty & SOCK_CLOEXEC != 0);
        let mut b = f1.to_le_bytes().to_vec();
        b.extend(f2.to_le_bytes());
        self.wr(p, a[3], &b);
        ok(0)
      }
      SYS_socket => {
        let ty = a[1] as i32;
        if a[0] as i32 != AF_INET || ty & 0xf != SOCK_STREAM {
          return fail(EAFNOSUPPORT);
        }
        let o = self.new_ofd(OKind::NewSock { port: 0 }, ty & SOCK_NONBLOCK != 0, "socket:");
        ok(self.add_fd(p, o, ty & SOCK_CLOEXEC != 0) as i64)
      }
      SYS_bind => {
        let o = fd!(a[0]);
        let b = mem!(self.rd(p, a[1], 4));
        let pt = u16::from_be_bytes([b[2], b[3]]);
        if self.listener(pt).is_some() {
          return fail(EADDRINUSE);
        }
        match &mut self.o(o).kind {
          OKind::NewSock { port } => {
            *port = pt;
            ok(0)
          }
          _ => fail(EINVAL),
        }
      }
      SYS_listen => {
        let o = fd!(a[0]);
        let of = self.o(o);
        match of.kind {
          OKind::NewSock { port } => {
            of.kind = OKind::Listener { port, backlog: VecDeque::new(), gen: 0 };
            ok(0)
          }
          _ => fail(EINVAL),
        }
      }
      SYS_accept4 | SYS_accept => {
        let o = fd!(a[0]);
        let fl = if nr == SYS_accept4 { a[3] as i32 } else { 0 };
        let has = match &self.o(o).kind {
          OKind::Listener { backlog, .. } => !backlog.is_empty(),
          _ => return fail(EINVAL),
        };
        if !has {
          if self.o(o).nonblock {
            return fail(EAGAIN);
          }
          return self.block(t, Cond::Ofd(o, IN));
        }
        if let Some(Act::Errno(e)) = self.fault(p, "accept", "") {
          return fail(e);
        }
        let c = match &mut self.o(o).kind {
          OKind::Listener { backlog, .. } => backlog.pop_front().unwrap(),
          _ => unreachable!(),
        };
        let port = match self.o(c).kind {
          OKind::Sock { peer_port, .. } => peer_port,
          _ => 0,
        };
        self.o(c).nonblock = fl & SOCK_NONBLOCK != 0;
        let fd = self.add_fd(p, c, fl & SOCK_CLOEXEC != 0);
        self.drop_ofd(c); // the backlog's reference
        self.put_sockaddr(p, a[1], a[2], port);
        ok(fd as i64)
      }
      SYS_getsockname | SYS_getpeername => {
        let o = fd!(a[0]);
        let port = match &self.o(o).kind {
          OKind::Listener { port, .. } | OKind::NewSock { port } => *port,
          OKind::Sock { peer_port, .. } => {
            if nr == SYS_getpeername {
              *peer_port
            } else {
              8008
            }
          }
          _ => return fail(ENOTSOCK),
        };
        self.put_sockaddr(p, a[1], a[2], port);
        ok(0)
      }
      SYS_setsockopt => {
        let _ = fd!(a[0]);
        ok(0)
      }
      SYS_getsockopt => {
        let _ = fd!(a[0]);
        self.wr(p, a[3], &0i32.to_le_bytes());
        self.wr(p, a[4], &4i32.to_le_bytes());
        ok(0)
      }
      SYS_connect => {
        let _ = fd!(a[0]);
        fail(ECONNREFUSED)
      }
      SYS_shutdown => {
        let o = fd!(a[0]);
        let how = a[1] as i32;
        let (mut cr, mut cw) = (None, None);
        if let OKind::Sock { rx, tx, .. } = &mut self.o(o).kind {
          if how != SHUT_WR {
            cr = rx.take();
          }
          if how != SHUT_RD {
            cw = tx.take();
          }
        } else {
          return fail(ENOTCONN);
        }
        if let Some(r) = cr {
          self.close_r(r);
        }
        if let Some(w) = cw {
          self.close_w(w);
        }
        ok(0)
      }
      SYS_mkdir | SYS_mkdirat => {
        let (d, pa, mo) = if nr == SYS_mkdir { (CWD, a[0], a[1]) } else { (a[0], a[1], a[2]) };
        let (base, path) = path!(d, pa);
        let s = String::from_utf8_lossy(&path).into_owned();
        if let Some(Act::Errno(e)) = self.fault(p, "mkdir", &s) {
          return fail(e);
        }
        let (dir, name, f) = tri!(self.vfs.lookup(base, &path, false));
        if f.is_some() {
          return fail(EEXIST);
        }
        let um = self.procs[p].umask;
        self.vfs.new_dir(dir, &name, mo as u32 & !um);
        self.note(&format!("p{p} mkdir {s}"));
        ok(0)
      }
      SYS_rmdir | SYS_unlink | SYS_unlinkat => {
        let (d, pa, isdir) = match nr {
          SYS_rmdir => (CWD, a[0], true),
          SYS_unlink => (CWD, a[0], false),
          _ => (a[0], a[1], a[2] as i32 & AT_REMOVEDIR != 0),
        };
        let (base, path) = path!(d, pa);
        let s = String::from_utf8_lossy(&path).into_owned();
        if let Some(Act::Errno(e)) = self.fault(p, if isdir { "rmdir" } else { "unlink" }, &s) {
          return fail(e);
        }
        if self.procs[p].status.is_some() {
          return fail(EIO);
        }
        let (dir, name, f) = tri!(self.vfs.lookup(base, &path, false));
        let i = match f {
          Some(i) => i,
          None => return fail(ENOENT),
        };
        if isdir {
          if !self.vfs.is_dir(i) {
            return fail(ENOTDIR);
          }
          if !self.vfs.ents(i).is_empty() {
            return fail(ENOTEMPTY);
          }
        } else if self.vfs.is_dir(i) {
          return fail(EISDIR);
        }
        self.vfs.ents_mut(dir).remove(&name);
        ok(0)
      }
      SYS_rename | SYS_renameat | SYS_renameat2 => {
        let (d1, p1, d2, p2) = if nr == SYS_rename { (CWD, a[0], CWD, a[1]) } else { (a[0], a[1], a[2], a[3]) };
        let fl = if nr == SYS_renameat2 { a[4] } else { 0 };
        let (b1, s1) = path!(d1, p1);
        let (b2, s2) = path!(d2, p2);
        let n2 = String::from_utf8_lossy(&s2).into_owned();
        if let Some(Act::Errno(e)) = self.fault(p, "rename", &n2) {
          return fail(e);
        }
        if self.procs[p].status.is_some() {
          return fail(EIO);
        }
        let (da, na, fa) = tri!(self.vfs.lookup(b1, &s1, false));
        let (db, nb, fb) = tri!(self.vfs.lookup(b2, &s2, false));
        let i = match fa {
          Some(i) => i,
          None => return fail(ENOENT),
        };
        if fl & 1 != 0 && fb.is_some() {
          return fail(EEXIST);
        }
        if let Some(x) = fb {
          if self.vfs.is_dir(x) != self.vfs.is_dir(i) {
            return fail(if self.vfs.is_dir(x) { EISDIR } else { ENOTDIR });
          }
          if self.vfs.is_dir(x) && !self.vfs.ents(x).is_empty() {
            return fail(ENOTEMPTY);
          }
        }
        self.vfs.ents_mut(da).remove(&na);
        self.vfs.ents_mut(db).insert(nb, i);
        if let Kind::Dir { parent, .. } = &mut self.vfs.inodes[i].kind {
          *parent = db;
        }
        self.note(&format!("p{p} rename {} {n2}", String::from_utf8_lossy(&s1)));
        ok(0)
      }
      SYS_link | SYS_linkat => {
        let (d1, p1, d2, p2) = if nr == SYS_link { (CWD, a[0], CWD, a[1]) } else { (a[0], a[1], a[2], a[3]) };
        let (b1, s1) = path!(d1, p1);
        let (b2, s2) = path!(d2, p2);
        let f = tri!(self.vfs.lookup(b1, &s1, false)).2;
        let (db, nb, fb) = tri!(self.vfs.lookup(b2, &s2, false));
        match (f, fb) {
          (None, _) => fail(ENOENT),
          (_, Some(_)) => fail(EEXIST),
          (Some(i), None) => {
            self.vfs.ents_mut(db).insert(nb, i);
            ok(0)
          }
        }
      }
      SYS_symlink | SYS_symlinkat => {
        let (ta, d, pa) = if nr == SYS_symlink { (a[0], CWD, a[1]) } else { (a[0], a[1], a[2]) };
        let target = mem!(self.rd_cstr(p, ta));
        let (base, path) = path!(d, pa);
        let (dir, name, f) = tri!(self.vfs.lookup(base, &path, false));
        if f.is_some() {
          return fail(EEXIST);
        }
        self.vfs.create(dir, &name, Kind::Link { target }, 0o777);
        ok(0)
      }
      SYS_readlink | SYS_readlinkat => {
        let (d, pa, buf, len) = if nr == SYS_readlink { (CWD, a[0], a[1], a[2]) } else { (a[0], a[1], a[2], a[3]) };
        let (base, path) = path!(d, pa);
        match tri!(self.vfs.lookup(base, &path, false)).2 {
          Some(i) => {
            let tgt = match &self.vfs.inodes[i].kind {
              Kind::Link { target } => target.clone(),
              _ => return fail(EINVAL),
            };
            let n = tgt.len().min(len as usize);
            self.wr(p, buf, &tgt[..n]);
            ok(n as i64)
          }
          None => fail(ENOENT),
        }
      }
      SYS_getdents64 => {
        let o = fd!(a[0]);
        let cap = a[2] as usize;
        let (ino, have) = match &self.o(o).kind {
          OKind::Dir { ino, list, .. } => (*ino, list.is_some()),
          _ => return fail(ENOTDIR),
        };
        if !have {
          let mut l = vec![(b".".to_vec(), ino), (b"..".to_vec(), ino)];
          l.extend(self.vfs.ents(ino).iter().map(|(k, v)| (k.clone(), *v)));
          if let OKind::Dir { list, .. } = &mut self.o(o).kind {
            *list = Some(l);
          }
        }
        let mut b = vec![];
        loop {
          let (name, i, off) = match &mut self.ofds[o].as_mut().unwrap().kind {
            OKind::Dir { list: Some(l), pos, .. } => {
              if *pos >= l.len() {
                break;
              }
              let x = (l[*pos].0.clone(), l[*pos].1, *pos + 1);
              x
            }
            _ => unreachable!(),
          };
          let rl = (19 + name.len() + 1).div_ceil(8) * 8;
          if b.len() + rl > cap {
            break;
          }
          let ty = match self.vfs.inodes[i].kind {
            Kind::File { .. } => 8u8,
            Kind::Dir { .. } => 4,
            Kind::Link { .. } => 10,
          };
          let s = b.len();
          b.extend((i as u64 + 10).to_le_bytes());
          b.extend((off as u64).to_le_bytes());
          b.extend((rl as u16).to_le_bytes());
          b.push(ty);
          b.extend(&name);
          b.resize(s + rl, 0);
          if let OKind::Dir { pos, .. } = &mut self.o(o).kind {
            *pos = off;
          }
        }
        self.wr(p, a[1], &b);
        ok(b.len() as i64)
      }
      SYS_access | SYS_faccessat | SYS_faccessat2 => {
        let (d, pa) = if nr == SYS_access { (CWD, a[0]) } else { (a[0], a[1]) };
        let (base, path) = path!(d, pa);
        match tri!(self.vfs.lookup(base, &path, true)).2 {
          Some(_) => ok(0),
          None => fail(ENOENT),
        }
      }
      SYS_chmod | SYS_fchmodat | SYS_chown | SYS_fchownat | SYS_lchown => {
        let (d, pa, mo) = if nr == SYS_fchmodat || nr == SYS_fchownat { (a[0], a[1], a[2]) } else { (CWD, a[0], a[1]) };
        let (base, path) = path!(d, pa);
        match tri!(self.vfs.lookup(base, &path, true)).2 {
          Some(i) => {
            if nr == SYS_chmod || nr == SYS_fchmodat {
              self.vfs.inodes[i].mode = mo as u32 & 0o7777;
            }
            ok(0)
          }
          None => fail(ENOENT),
        }
      }
      SYS_fchmod | SYS_fchown => {
        let o = fd!(a[0]);
        if let OKind::File { ino, .. } | OKind::Dir { ino, .. } = self.o(o).kind {
          if nr == SYS_fchmod {
            self.vfs.inodes[ino].mode = a[1] as u32 & 0o7777;
          }
        }
        ok(0)
      }
      SYS_utimensat => ok(0),
      SYS_chdir => {
        let (base, path) = path!(CWD, a[0]);
        match tri!(self.vfs.lookup(base, &path, true)).2 {
          Some(i) if self.vfs.is_dir(i) => {
            self.procs[p].cwd = i;
            ok(0)
          }
          Some(_) => fail(ENOTDIR),
          None => fail(ENOENT),
        }
      }
      SYS_fchdir => {
        let o = fd!(a[0]);
        match self.o(o).kind {
          OKind::Dir { ino, .. } => {
            self.procs[p].cwd = ino;
            ok(0)
          }
          _ => fail(ENOTDIR),
        }
      }
      SYS_getcwd => {
        let s = self.dir_path(self.procs[p].cwd);
        let mut b = s.into_bytes();
        b.push(0);
        if b.len() > a[1] as usize {
          return fail(ERANGE);
        }
        self.wr(p, a[0], &b);
        ok(b.len() as i64)
      }
      SYS_umask => {
        let o = self.procs[p].umask;
        self.procs[p].umask = a[0] as u32 & 0o777;
        ok(o as i64)
      }
      SYS_sendfile => {
        // from a file only; std falls back to read and write otherwise
        fail(EINVAL)
      }
      SYS_copy_file_range => fail(EXDEV),
      SYS_splice => fail(EINVAL),
      SYS_memfd_create => fail(ENOSYS),
      SYS_inotify_init1 | SYS_timerfd_create | SYS_signalfd4 | SYS_pidfd_open | SYS_io_uring_setup => fail(ENOSYS),
      SYS_wait4 | SYS_waitid => {
        let (pid, hang) = if nr == SYS_wait4 {
          (a[0] as i32, a[2] as i32 & WNOHANG == 0)
        } else {
          let pid = match a[0] as u32 {
            P_ALL => -1,
            P_PID => a[1] as i32,
            P_PGID => -(a[1] as i32),
            _ => return fail(EINVAL),
          };
          (pid, a[3] as i32 & WNOHANG == 0)
        };
        if let Some(z) = self.find_zombie(p, pid) {
          let st = self.procs[z].status.clone().unwrap();
          let vpid = self.procs[z].vpid;
          if nr == SYS_wait4 {
            let w = match st {
              Status::Exit(c) => (c & 0xff) << 8,
              Status::Signal(s) => s,
            };
            if a[1] != 0 {
              self.wr(p, a[1], &w.to_le_bytes());
            }
            self.procs[z].reaped = true;
            self.note(&format!("p{p} reaps p{z}"));
            return ok(vpid as i64);
          }
          let (code, v) = match st {
            Status::Exit(c) => (CLD_EXITED, c),
            Status::Signal(s) => (CLD_KILLED, s),
          };
          if a[2] != 0 {
            let mut b = [0u8; 128];
            b[0..4].copy_from_slice(&SIGCHLD.to_le_bytes());
            b[8..12].copy_from_slice(&code.to_le_bytes());
            b[12..16].copy_from_slice(&vpid.to_le_bytes());
            b[20..24].copy_from_slice(&v.to_le_bytes());
            b[24..28].copy_from_slice(&v.to_le_bytes());
            // si_pid 12, si_uid 16, si_status 20 (x86-64: 16, 20, 24)
            b[16..20].copy_from_slice(&vpid.to_le_bytes());
            b[20..24].copy_from_slice(&0i32.to_le_bytes());
            b[12..16].copy_from_slice(&0i32.to_le_bytes());
            self.wr(p, a[2], &b);
          }
          if a[3] as i32 & WNOWAIT == 0 {
            self.procs[z].reaped = true;
          }
          return ok(0);
        }
        if !self.has_child(p, pid) {
          return fail(ECHILD);
        }
        if !hang {
          if nr == SYS_waitid && a[2] != 0 {
            self.wr(p, a[2], &[0u8; 128]);
          }
          return ok(0);
        }
        self.block(t, Cond::Child(pid))
      }
      SYS_kill | SYS_tkill | SYS_tgkill => {
        let (pid, sig) = if nr == SYS_tgkill { (a[0] as i32, a[2] as i32) } else { (a[0] as i32, a[1] as i32) };
        if nr != SYS_kill || pid == self.procs[p].vpid {
          // raised on itself
          let h = self.procs[p].handlers.get(&sig).map_or(0, |h| h.0);
          if sig == 0 || h == 1 {
            return ok(0);
          }
          if h == 0 {
            self.proc_exit(p, Status::Signal(sig));
            return ok(0);
          }
          self.procs[p].pending.push(sig);
          return ok(0);
        }
        let tg: Vec<usize> = (0..self.procs.len())
          .filter(|q| {
            let x = &self.procs[*q];
            !x.reaped && (if pid > 0 { x.vpid == pid } else { x.pgid == if pid == 0 { self.procs[p].pgid } else { -pid } })
          })
          .collect();
        if tg.is_empty() {
          return fail(ESRCH);
        }
        self.note(&format!("p{p} kill {pid} {sig}"));
        for q in tg {
          self.signal(q, sig);
        }
        ok(0)
      }
      SYS_setpgid => {
        if a[0] == 0 || a[0] as i32 == self.procs[p].vpid {
          self.procs[p].pgid = if a[1] == 0 { self.procs[p].vpid } else { a[1] as i32 };
        } else if let Some(q) = self.procs.iter().position(|x| x.vpid == a[0] as i32) {
          self.procs[q].pgid = if a[1] == 0 { self.procs[q].vpid } else { a[1] as i32 };
        }
        ok(0)
      }
      SYS_setsid => {
        self.procs[p].pgid = self.procs[p].vpid;
        ok(self.procs[p].vpid as i64)
      }
      SYS_getpgid | SYS_getpgrp | SYS_getsid => ok(self.procs[p].pgid as i64),
      SYS_execve => {
        let path = String::from_utf8_lossy(&mem!(self.rd_cstr(p, a[0]))).into_owned();
        let argv = self.rd_strv(p, a[1]);
        let env = self.rd_strv(p, a[2]);
        let pp = self.procs[p].ppid.unwrap_or(p);
        if let Some(Act::Errno(e)) = self.fault(pp, "spawn", &argv.join(" ")) {
          return fail(e);
        }
        let req = SpawnReq { parent: p, path, argv: argv.clone(), env: env.clone(), cwd: self.procs[p].cwd };
        let mut w = self.world.take().unwrap();
        let r = w.exec(self, &req);
        self.world = Some(w);
        let actor = tri!(r);
        // the real child is done; the process goes on as an actor
        if let PKind::Real { pid, .. } = self.procs[p].kind {
          unsafe { libc::kill(pid, SIGKILL) };
        }
        for x in &mut self.threads {
          if x.proc == p {
            x.alive = false;
          }
        }
        self.procs[p].kind = PKind::Actor;
        self.procs[p].name = argv.join(" ");
        self.procs[p].argv = argv;
        self.procs[p].env = env;
        let ce: Vec<i32> = self.procs[p].fds.iter().filter(|x| x.1 .1).map(|x| *x.0).collect();
        for f in ce {
          self.close_fd(p, f);
        }
        self.procs[p].actor = Some(actor);
        self.procs[p].wake = Wake::At(self.now);
        ok(0)
      }
      SYS_getrandom => {
        let n = a[1] as usize;
        let v: Vec<u8> = (0..n).map(|_| self.rng.next() as u8).collect();
        self.wr(p, a[0], &v);
        ok(n as i64)
      }
      SYS_clock_gettime => {
        let v = if a[0] == CLOCK_REALTIME as i64 { self.now + self.real_offset } else { self.now };
        let mut b = (v / SEC).to_le_bytes().to_vec();
        b.extend((v % SEC).to_le_bytes());
        self.wr(p, a[1], &b);
        ok(0)
      }
      SYS_clock_getres => Some(Reply::Raw),
      SYS_nanosleep | SYS_clock_nanosleep => {
        if first {
          let (ad, abs) = if nr == SYS_nanosleep { (a[0], false) } else { (a[2], a[1] & 1 != 0) };
          let d = mem!(self.rd_ts(p, ad));
          let dl = if abs {
            if a[0] == CLOCK_REALTIME as i64 {
              d - self.real_offset
            } else {
              d
            }
          } else {
            self.now + d
          };
          self.threads[t].deadline = Some(dl);
        }
        if self.threads[t].deadline.unwrap() <= self.now {
          return ok(0);
        }
        self.block(t, Cond::Time)
      }
      SYS_sched_yield => ok(0),
      SYS_sched_getaffinity => {
        let n = (a[1] as usize).min(128);
        let mut b = vec![0u8; n];
        for c in 0..self.cpus {
          b[c / 8] |= 1 << (c % 8);
        }
        self.wr(p, a[2], &b);
        ok(n.min(8) as i64)
      }
      SYS_sched_setaffinity | SYS_setpriority | SYS_sched_setscheduler => ok(0),
      SYS_getpid => ok(self.procs[p].vpid as i64),
      SYS_getppid => ok(1),
      SYS_gettid => ok(self.threads[t].vtid as i64),
      SYS_rt_sigaction => {
        self.procs[p].handlers.insert(a[0] as i32, (a[1] as u64, a[2] as u64));
        ok(0)
      }
      SYS_prctl => {
        if a[0] == PR_SET_NAME as i64 || a[0] == PR_SET_PDEATHSIG as i64 {
          ok(0)
        } else {
          Some(Reply::Raw)
        }
      }
      SYS_futex => self.sys_futex(t, p, a, first),
      SYS_exit => {
        self.threads[t].alive = false;
        self.note(&format!("p{p} t{t} ends"));
        if !self.threads.iter().any(|x| x.proc == p && x.alive) {
          self.proc_exit(p, Status::Exit((a[0] & 0xff) as i32));
          return ok(0);
        }
        Some(Reply::Exit(SYS_exit, 0))
      }
      SYS_exit_group => {
        self.proc_exit(p, Status::Exit((a[0] & 0xff) as i32));
        ok(0)
      }
      SYS_getuid | SYS_geteuid | SYS_getgid | SYS_getegid | SYS_uname | SYS_sysinfo | SYS_prlimit64 | SYS_getrlimit
      | SYS_getrusage | SYS_capget | SYS_getgroups | SYS_times => Some(Reply::Raw),
      _ => {
        *self.unknown.entry(nr).or_insert(0) += 1;
        self.note(&format!("p{p} unknown system call {nr}"));
        fail(ENOSYS)
      }
    }
  }

  fn do_flock(&mut self, t: usize, o: usize, lock: bool, ex: bool, wait: bool, e: i32) -> Option<Reply> {
    let ino = match self.o(o).kind {
      OKind::File { ino, .. } | OKind::Dir { ino, .. } => ino,
      _ => return fail(libc::EBADF),
    };
    let l = self.flocks.entry(ino).or_default();
    if !lock {
      l.retain(|x| x.0 != o);
      return ok(0);
    }
    if l.iter().any(|x| x.0 != o && (ex || x.1)) {
      if wait {
        self.threads[t].deadline = Some(self.now + 500_000);
        return self.block(t, Cond::Time);
      }
      return fail(e);
    }
    l.retain(|x| x.0 != o);
    l.push((o, ex));
    ok(0)
  }

  fn note_nohash(&mut self, s: &str) {
    let line = format!("{:>12} {}", self.now / 1000, s);
    if let Some(l) = &mut self.log {
      l.push(line);
    }
  }

  pub fn dir_path(&self, mut i: Ino) -> String {
    let mut parts = vec![];
    while i != ROOT {
      let par = match &self.vfs.inodes[i].kind {
        Kind::Dir { parent, .. } => *parent,
        _ => break,
      };
      let n = self.vfs.ents(par).iter().find(|x| *x.1 == i).map(|x| String::from_utf8_lossy(x.0).into_owned());
      parts.push(n.unwrap_or_else(|| "(deleted)".into()));
      i = par;
    }
    parts.reverse();
    format!("/{}", parts.join("/"))
  }

  fn sys_futex(&mut self, t: usize, p: usize, a: [i64; 6], first: bool) -> Option<Reply> {
    use libc::*;
    let op = a[1] as i32 & 0x7f;
    let private = a[1] as i32 & 128 != 0;
    let realtime = a[1] as i32 & 256 != 0;
    let addr = a[0] as u64;
    match op {
      FUTEX_WAIT | FUTEX_WAIT_BITSET => {
        let val = a[2] as u32;
        let bits = if op == FUTEX_WAIT { u32::MAX } else { a[5] as u32 };
        if !first && self.threads[t].woken {
          self.threads[t].futex = None;
          return ok(0);
        }
        if !private {
          // pthread_join waits for the kernel to clear the thread id
          let alive = |k: &Kernel| {
            k.threads.iter().any(|x| {
              x.proc == p && x.alive && unsafe { (*k.shm.h).slots[x.slot].real_tid } as u32 == val
            })
          };
          let known = self
            .threads
            .iter()
            .any(|x| x.proc == p && unsafe { (*self.shm.h).slots[x.slot].real_tid } as u32 == val);
          if known {
            if alive(self) {
              return self.block(t, Cond::ThreadExit(val as i32));
            }
            return Some(Reply::Join(a[0]));
          }
        }
        if first {
          if dbg() {
            let cur = self.rd_i32(p, a[0]);
            eprintln!("{} p{p} t{t} wait {addr:x} val={val} cur={cur:?}", self.steps);
          }
          match self.rd_i32(p, a[0]) {
            Some(v) if v as u32 == val => {}
            Some(_) => return fail(EAGAIN),
            None => return fail(EFAULT),
          }
          if a[3] != 0 {
            let ts = match self.rd_ts(p, a[3]) {
              Some(x) => x,
              None => return fail(EFAULT),
            };
            let d = if op == FUTEX_WAIT {
              self.now.saturating_add(ts)
            } else if realtime {
              ts - self.real_offset
            } else {
              ts
            };
            self.threads[t].deadline = Some(d);
          }
          self.threads[t].futex = Some((addr, bits));
          self.futex_seq += 1;
          self.threads[t].futex_seq = self.futex_seq;
        }
        if self.threads[t].deadline.map_or(false, |d| d <= self.now) {
          self.threads[t].futex = None;
          return fail(ETIMEDOUT);
        }
        self.block(t, Cond::Futex)
      }
      FUTEX_WAKE | FUTEX_WAKE_BITSET => {
        let bits = if op == FUTEX_WAKE { u32::MAX } else { a[5] as u32 };
        let mut w: Vec<usize> = (0..self.threads.len())
          .filter(|i| {
            let x = &self.threads[*i];
            x.alive && x.proc == p && !x.woken && x.futex.map_or(false, |f| f.0 == addr && f.1 & bits != 0)
          })
          .collect();
        w.sort_by_key(|i| self.threads[*i].futex_seq);
        w.truncate((a[2] as i32).max(0) as usize);
        for i in &w {
          self.threads[*i].woken = true;
        }
        if dbg() {
          eprintln!("{} p{p} t{t} wake {addr:x} n={} -> {w:?}", self.steps, a[2] as i32);
        }
        ok(w.len() as i64)
      }
      _ => fail(ENOSYS),
    }
  }

  pub fn alive_real(&self) -> Vec<usize> {
    (0..self.procs.len())
      .filter(|p| matches!(self.procs[*p].kind, PKind::Real { .. }) && self.procs[*p].status.is_none())
      .collect()
  }

  /// Power goes: every file that was not synced keeps its durable content, its current
  /// content, or something torn in between.
  pub fn power_loss(&mut self) {
    for i in self.vfs.dirty_files() {
      let c = self.choose(4, |g| g.below(4) as usize);
      let cut = self.choose(64, |g| g.below(64) as usize);
      if let Kind::File { data, durable, dirty } = &mut self.vfs.inodes[i].kind {
        match c {
          0 => *data = durable.clone(),
          1 => {}
          2 => {
            // length updated, tail never written
            let n = data.len() * cut / 64;
            for b in &mut data[n..] {
              *b = 0;
            }
          }
          _ => {
            let n = data.len() * cut / 64;
            data.truncate(n);
          }
        }
        *durable = data.clone();
        *dirty = false;
      }
    }
    self.fire("power_loss");
    self.note("power loss");
  }
}

impl Drop for Kernel {
  fn drop(&mut self) {
    if !self.shm.h.is_null() {
      self.kill_all();
    }
  }
}

fn dbg() -> bool {
  std::env::var_os("SIM_DBG").is_some()
}

pub fn errno_name(e: i32) -> String {
  match e {
    libc::ENOSPC => "ENOSPC".into(),
    libc::EIO => "EIO".into(),
    libc::EINTR => "EINTR".into(),
    libc::EACCES => "EACCES".into(),
    libc::EAGAIN => "EAGAIN".into(),
    libc::ENOENT => "ENOENT".into(),
    libc::ENOMEM => "ENOMEM".into(),
    libc::EMFILE => "EMFILE".into(),
    libc::EEXIST => "EEXIST".into(),
    libc::EROFS => "EROFS".into(),
    _ => format!("E{e}"),
  }
}

pub fn sysname(nr: i64) -> String {
  use libc::*;
  let s = match nr {
    SYS_read => "read",
    SYS_write => "write",
    SYS_openat => "openat",
    SYS_close => "close",
    SYS_futex => "futex",
    SYS_poll => "poll",
    SYS_wait4 => "wait4",
    SYS_kill => "kill",
    SYS_epoll_wait => "epoll_wait",
    SYS_epoll_ctl => "epoll_ctl",
    SYS_ftruncate => "ftruncate",
    SYS_lseek => "lseek",
    SYS_statx => "statx",
    SYS_unlinkat => "unlinkat",
    SYS_mkdir => "mkdir",
    SYS_rename => "rename",
    SYS_recvfrom => "recv",
    SYS_sendto => "send",
    SYS_getdents64 => "getdents",
    SYS_sched_yield => "sched_yield",
    SYS_clock_nanosleep => "nanosleep",
    X_SPAWN => "spawn",
    X_THREAD_NEW => "thread_create",
    X_HELLO => "hello",
    X_YIELD => "yield",
    X_DONE => "sigreturn",
    _ => return format!("sys{nr}"),
  };
  s.into()
}

fn cpu_seconds(pid: i32, tid: i64) -> f64 {
  let Ok(s) = std::fs::read_to_string(format!("/proc/{pid}/task/{tid}/stat")) else { return 0.0 };
  let Some((_, rest)) = s.rsplit_once(") ") else { return 0.0 };
  let f: Vec<&str> = rest.split(' ').collect();
  let ticks: f64 = f.iter().skip(11).take(2).filter_map(|x| x.parse::<f64>().ok()).sum();
  ticks / 100.0
}

fn task_state(pid: i32) -> String {
  let mut v = vec![];
  for e in std::fs::read_dir(format!("/proc/{pid}/task")).into_iter().flatten().flatten() {
    let get = |f: &str| std::fs::read_to_string(e.path().join(f)).unwrap_or_default().trim().to_string();
    let st = get("stat").rsplit_once(") ").map_or(String::new(), |x| x.1.chars().take(1).collect());
    v.push(format!("{} {st} {} [{}]", e.file_name().to_string_lossy(), get("wchan"), get("syscall")));
  }
  v.join("; ")
}
