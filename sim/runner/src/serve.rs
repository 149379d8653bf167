//! Requests handled by the real aquascope_serve binary under the simulator.
use crate::{
  kernel::*,
  mdbook::{clip, gen_sched},
  rng::Rng,
  scenario::{env_path, Meta, Outcome, Violation},
  world::*,
};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::{
  cell::RefCell,
  collections::{BTreeMap, BTreeSet},
  rc::Rc,
};

pub const PORT: u16 = 8008;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Kind {
  /// An analysis of this program; config as given, if any.
  Analyse { op: String, tag: usize, text: String, config: Option<Value> },
  Hi,
  NoRoute,
  WrongMethod,
  Preflight,
  /// Not what the route expects.
  Bad(String),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Req {
  pub kind: Kind,
  /// bytes per send (0: all at once)
  #[serde(default)]
  pub chunk: usize,
  #[serde(default)]
  pub gap_ms: u64,
  /// body in HTTP chunks
  #[serde(default)]
  pub chunked: bool,
  #[serde(default)]
  pub pause_ms: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Leave {
  /// after the last response
  Never,
  /// in the last request, when this part of it (of 1000) is out
  MidSend(u32),
  /// this long after the last request is out, without reading
  AfterSend(u64),
  /// stops sending, but goes on reading
  HalfClose,
  /// after part of the last response was read
  MidRead(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Conn {
  pub at_ms: u64,
  pub reqs: Vec<Req>,
  pub leave: Leave,
  /// all requests at once
  #[serde(default)]
  pub pipelined: bool,
  /// bytes the connection buffers
  pub cap: usize,
  /// bytes per read, pause between reads
  #[serde(default)]
  pub read: usize,
  #[serde(default)]
  pub read_gap_us: u64,
  #[serde(default)]
  pub close_header: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Case {
  pub property: String,
  pub seed: u64,
  pub cpus: usize,
  pub sched: Sched,
  pub env_sysroot: bool,
  pub log: String,
  pub conns: Vec<Conn>,
  pub plan: BTreeMap<String, Vec<Behav>>,
  pub pads: BTreeMap<String, usize>,
  pub default_behav: Behav,
  pub new_plan: Vec<Behav>,
  pub tools: BTreeMap<String, Behav>,
  pub faults: Vec<Fault>,
}

const BLANK: &str = "(blank)";
const RAW: &str = "(raw)";

fn code_of(tag: usize, text: &str) -> String {
  if text == BLANK {
    return " ".repeat(tag) + if tag > 0 { "\n" } else { "" };
  }
  if let Some(raw) = text.strip_prefix(RAW) {
    return format!("{raw}/*id:r{tag}*/");
  }
  format!("fn main() {{ /*id:r{tag}*/{text}}}\n")
}

impl Req {
  /// how much goes out at a time
  fn piece(&self, len: usize) -> usize {
    self.chunk.max(len / 400)
  }
  fn bytes(&self, close: bool) -> Vec<u8> {
    let (method, path, ctype, body): (&str, String, Option<&str>, Option<Vec<u8>>) = match &self.kind {
      Kind::Analyse { op, tag, text, config } => {
        let mut b = json!({"code": code_of(*tag, text)});
        if let Some(c) = config {
          b["config"] = c.clone();
        }
        ("POST", format!("/{op}"), Some("application/json"), Some(serde_json::to_vec(&b).unwrap()))
      }
      Kind::Hi => ("GET", "/hi".into(), None, None),
      Kind::NoRoute => ("GET", "/nothing/here".into(), None, None),
      Kind::WrongMethod => ("GET", "/permissions".into(), None, None),
      Kind::Preflight => ("OPTIONS", "/interpreter".into(), None, None),
      Kind::Bad(s) => {
        let (ct, b): (Option<&str>, Vec<u8>) = match s.as_str() {
          "truncated" => (Some("application/json"), b"{\"code\":\"fn main".to_vec()),
          "type" => (Some("application/json"), b"{\"code\":7}".to_vec()),
          "missing" => (Some("application/json"), b"{\"config\":{}}".to_vec()),
          "array" => (Some("application/json"), b"[]".to_vec()),
          "empty" => (Some("application/json"), vec![]),
          "nonutf8" => (Some("application/json"), b"{\"code\":\"\xff\xfe\"}".to_vec()),
          "ctype" => (Some("text/plain"), b"{\"code\":\"fn main(){}\"}".to_vec()),
          _ => (None, b"{\"code\":\"fn main(){}\"}".to_vec()),
        };
        ("POST", "/interpreter".into(), ct, Some(b))
      }
    };
    let mut h = format!("{method} {path} HTTP/1.1\r\nHost: 127.0.0.1:8008\r\n");
    if self.kind == Kind::Preflight {
      h += "Origin: http://localhost:8000\r\nAccess-Control-Request-Method: POST\r\nAccess-Control-Request-Headers: content-type\r\n";
    }
    if let Some(c) = ctype {
      h += &format!("Content-Type: {c}\r\n");
    }
    if close {
      h += "Connection: close\r\n";
    }
    let mut v;
    match body {
      Some(b) if self.chunked && !b.is_empty() => {
        h += "Transfer-Encoding: chunked\r\n\r\n";
        v = h.into_bytes();
        for c in b.chunks((b.len() / 3).max(1)) {
          v.extend(format!("{:x}\r\n", c.len()).bytes());
          v.extend(c);
          v.extend(b"\r\n");
        }
        v.extend(b"0\r\n\r\n");
      }
      Some(b) => {
        h += &format!("Content-Length: {}\r\n\r\n", b.len());
        v = h.into_bytes();
        v.extend(b);
      }
      None => {
        h += "\r\n";
        v = h.into_bytes();
      }
    }
    v
  }
}

#[derive(Clone, Debug, Default)]
struct Response {
  status: u32,
  headers: BTreeMap<String, String>,
  body: Vec<u8>,
}

/// A response at the start of the buffer: None: more is needed.
fn parse_response(b: &[u8], eof: bool) -> Result<Option<(Response, usize)>, String> {
  let he = match b.windows(4).position(|w| w == b"\r\n\r\n") {
    Some(i) => i,
    None => {
      if b.len() > 8 && !b.starts_with(b"HTTP/1.1 ") {
        return Err(format!("not an HTTP response: {:?}", clip(&String::from_utf8_lossy(b))));
      }
      return Ok(None);
    }
  };
  let head = std::str::from_utf8(&b[..he]).map_err(|_| "headers are not UTF-8")?;
  let mut lines = head.split("\r\n");
  let l0 = lines.next().unwrap();
  if !l0.starts_with("HTTP/1.1 ") {
    return Err(format!("not an HTTP response: {l0:?}"));
  }
  let status: u32 = l0[9..].split(' ').next().unwrap_or("").parse().map_err(|_| format!("bad status line {l0:?}"))?;
  let mut headers = BTreeMap::new();
  for l in lines {
    let (k, v) = l.split_once(':').ok_or_else(|| format!("bad header {l:?}"))?;
    headers.insert(k.to_ascii_lowercase(), v.trim().to_string());
  }
  let st = he + 4;
  let rest = &b[st..];
  if let Some(n) = headers.get("content-length") {
    let n: usize = n.parse().map_err(|_| "bad content length")?;
    if rest.len() < n {
      return Ok(None);
    }
    return Ok(Some((Response { status, headers, body: rest[..n].to_vec() }, st + n)));
  }
  if headers.get("transfer-encoding").map_or(false, |v| v.contains("chunked")) {
    let mut i = 0;
    let mut body = vec![];
    loop {
      let e = match rest[i..].windows(2).position(|w| w == b"\r\n") {
        Some(e) => e,
        None => return Ok(None),
      };
      let s = std::str::from_utf8(&rest[i..i + e]).map_err(|_| "bad chunk")?;
      let n = usize::from_str_radix(s.trim(), 16).map_err(|_| format!("bad chunk size {s:?}"))?;
      i += e + 2;
      if rest.len() < i + n + 2 {
        return Ok(None);
      }
      body.extend(&rest[i..i + n]);
      i += n + 2;
      if n == 0 {
        return Ok(Some((Response { status, headers, body }, st + i)));
      }
    }
  }
  if status == 204 || status == 304 {
    return Ok(Some((Response { status, headers, body: vec![] }, st)));
  }
  if eof {
    return Ok(Some((Response { status, headers, body: rest.to_vec() }, b.len())));
  }
  Ok(None)
}

#[derive(Clone, Debug, Default)]
struct Answer {
  sent_at: Option<i64>,
  response: Option<Response>,
  at: i64,
}

#[derive(Default)]
struct Log {
  answers: Vec<Answer>,
  done: bool,
  problem: Option<String>,
  refused: bool,
  eof_at: Option<i64>,
  left: bool,
}

struct Client {
  conn: Conn,
  log: Rc<RefCell<Log>>,
  state: u32, // 0 connect, 1 send, 2 read, 3 done
  ofd: usize,
  rx: usize,
  tx: usize,
  cur: usize,
  out: Vec<u8>,
  off: usize,
  /// ends of the requests in out
  marks: Vec<usize>,
  inbuf: Vec<u8>,
  tries: u32,
  port: u16,
  leave_at: Option<i64>,
}

impl Client {
  fn close(&mut self, k: &mut Kernel, me: usize) {
    k.drop_ofd(self.ofd);
    self.log.borrow_mut().done = true;
    self.state = 3;
    k.proc_exit(me, Status::Exit(0));
  }
  fn load(&mut self) {
    let last = self.conn.reqs.len() - 1;
    self.out.clear();
    self.marks.clear();
    self.off = 0;
    if self.conn.pipelined {
      for (i, r) in self.conn.reqs.iter().enumerate() {
        self.out.extend(r.bytes(self.conn.close_header && i == last));
        self.marks.push(self.out.len());
      }
    } else {
      self.out = self.conn.reqs[self.cur].bytes(self.conn.close_header && self.cur == last);
      self.marks.push(self.out.len());
    }
  }
  fn is_last(&self) -> bool {
    self.conn.pipelined || self.cur + 1 == self.conn.reqs.len()
  }
}

impl Actor for Client {
  fn step(&mut self, k: &mut Kernel, me: usize) {
    k.procs[me].wake = Wake::At(k.now);
    match self.state {
      0 => match k.connect(PORT, self.conn.cap, self.port) {
        Err(_) => {
          self.tries += 1;
          if self.tries > 300 {
            let mut l = self.log.borrow_mut();
            l.refused = true;
            l.done = true;
            drop(l);
            k.proc_exit(me, Status::Exit(1));
            return;
          }
          k.procs[me].wake = Wake::At(k.now + 10 * MS);
        }
        Ok(o) => {
          self.ofd = o;
          k.hold(o);
          if let OKind::Sock { rx, tx, .. } = &k.o(o).kind {
            self.rx = rx.unwrap();
            self.tx = tx.unwrap();
          }
          k.note(&format!("client {} connects", self.port));
          self.log.borrow_mut().answers = vec![Answer::default(); self.conn.reqs.len()];
          self.load();
          self.state = 1;
          k.procs[me].wake = Wake::At(k.now + self.conn.reqs[0].pause_ms as i64 * MS);
        }
      },
      1 => {
        let r = &self.conn.reqs[self.cur];
        let mut end = self.out.len();
        if r.chunk > 0 {
          end = end.min(self.off + r.piece(self.out.len()));
        }
        let gap = r.gap_ms as i64 * MS;
        let mut leave_here = false;
        if let (Leave::MidSend(n), true) = (&self.conn.leave, self.is_last()) {
          let lim = (self.out.len() * *n as usize / 1000).min(self.out.len() - 1);
          if end >= lim {
            end = lim.max(self.off);
            leave_here = true;
          }
        }
        if end > self.off {
          match k.pipe_put(self.tx, &self.out[self.off..end]) {
            Err(_) => {
              // the server closed the connection
              self.state = 2;
              return;
            }
            Ok(None) => {
              k.procs[me].wake = Wake::Ofd(self.ofd, OUT);
              return;
            }
            Ok(Some(n)) => {
              self.off += n;
              leave_here = leave_here && self.off >= end;
            }
          }
        }
        let base = if self.conn.pipelined { 0 } else { self.cur };
        for (i, m) in self.marks.iter().enumerate() {
          let mut l = self.log.borrow_mut();
          if *m <= self.off && l.answers[base + i].sent_at.is_none() {
            l.answers[base + i].sent_at = Some(k.now);
          }
        }
        if leave_here {
          k.fire("client_leaves_mid_request");
          k.note(&format!("client {} leaves in the middle of its request", self.port));
          self.log.borrow_mut().left = true;
          self.close(k, me);
          return;
        }
        if self.off >= self.out.len() {
          self.state = 2;
          if self.is_last() {
            match self.conn.leave {
              Leave::AfterSend(ms) => {
                self.leave_at = Some(k.now + ms as i64 * MS);
                k.procs[me].wake = Wake::At(self.leave_at.unwrap());
              }
              Leave::HalfClose => {
                k.fire("client_half_closes");
                let mut c = None;
                if let OKind::Sock { tx, .. } = &mut k.o(self.ofd).kind {
                  c = tx.take();
                }
                if let Some(c) = c {
                  k.close_w(c);
                }
              }
              _ => {}
            }
          }
          return;
        }
        k.procs[me].wake = Wake::At(k.now + gap);
      }
      2 => {
        if let Some(t) = self.leave_at {
          if k.now >= t {
            k.fire("client_leaves");
            k.note(&format!("client {} leaves", self.port));
            self.log.borrow_mut().left = true;
            self.close(k, me);
          } else {
            k.procs[me].wake = Wake::At(t);
          }
          return;
        }
        let n = if self.conn.read > 0 { self.conn.read } else { 1 << 20 };
        let eof;
        match k.pipe_take(self.rx, n) {
          None => {
            k.procs[me].wake = Wake::Ofd(self.ofd, IN);
            return;
          }
          Some(v) => {
            eof = v.is_empty();
            self.inbuf.extend(v);
          }
        }
        if let (Leave::MidRead(n), true) = (&self.conn.leave, self.is_last()) {
          if self.inbuf.len() >= *n {
            k.fire("client_leaves_mid_response");
            self.log.borrow_mut().left = true;
            self.close(k, me);
            return;
          }
        }
        loop {
          match parse_response(&self.inbuf, eof) {
            Err(e) => {
              self.log.borrow_mut().problem = Some(e);
              self.close(k, me);
              return;
            }
            Ok(None) => break,
            Ok(Some((r, n))) => {
              self.inbuf.drain(..n);
              let mut l = self.log.borrow_mut();
              if self.cur >= self.conn.reqs.len() {
                l.problem = Some(format!("one response too many: {} {}", r.status, clip(&String::from_utf8_lossy(&r.body))));
                drop(l);
                self.close(k, me);
                return;
              }
              if l.answers[self.cur].sent_at.is_none() {
                k.probe("answered_before_complete");
              }
              l.answers[self.cur].response = Some(r);
              l.answers[self.cur].at = k.now;
              self.cur += 1;
              drop(l);
              if !self.conn.pipelined && self.cur < self.conn.reqs.len() {
                if !self.inbuf.is_empty() {
                  self.log.borrow_mut().problem = Some("bytes beyond the response".into());
                }
                self.load();
                self.state = 1;
                k.procs[me].wake = Wake::At(k.now + self.conn.reqs[self.cur].pause_ms as i64 * MS);
                return;
              }
            }
          }
        }
        if eof {
          let mut l = self.log.borrow_mut();
          l.eof_at = Some(k.now);
          if !self.inbuf.is_empty() {
            l.problem = Some(format!("the connection ended in the middle of a response: {}", clip(&String::from_utf8_lossy(&self.inbuf))));
          }
          drop(l);
          self.close(k, me);
          return;
        }
        if self.cur >= self.conn.reqs.len() {
          if !self.inbuf.is_empty() {
            self.log.borrow_mut().problem = Some("bytes beyond the last response".into());
          }
          self.close(k, me);
          return;
        }
        k.procs[me].wake = Wake::At(k.now + self.conn.read_gap_us as i64 * 1000);
      }
      _ => k.procs[me].wake = Wake::Never,
    }
  }
}

// ---------------------------------------------------------------- generation

fn some_mode(r: &mut Rng) -> Mode {
  match r.below(11) {
    0 => Mode::ErrObj,
    1 => Mode::BuildError,
    2 => Mode::ExitAfter(*r.pick(&[1, 101])),
    3 => Mode::Exit(*r.pick(&[1, 101, 255])),
    4 => Mode::Signal(*r.pick(&[6, 9, 11])),
    5 => Mode::SignalMid(*r.pick(&[6, 9])),
    6 => Mode::Garbage,
    7 => Mode::NonUtf8,
    8 => Mode::Empty,
    9 => Mode::ExitNonUtf8(101),
    _ => Mode::SpawnFails(*r.pick(&[2, 11, 12])),
  }
}

fn behav(r: &mut Rng) -> Behav {
  Behav {
    mode: Mode::Ok,
    delay_ms: *r.pick(&[0, 1, 5, 40, 700, 3000]),
    pad: 0,
    stderr: *r.pick(&[0, 0, 30, 3000]),
    chunk: *r.pick(&[0, 0, 0, 1, 23, 4096]),
    gap_us: *r.pick(&[0, 0, 50, 2000]),
  }
}

fn gen_req(r: &mut Rng, tag: &mut usize, programs: &mut Vec<(usize, String)>, analyse: bool) -> Req {
  let kind = if analyse || r.chance(2, 3) {
    let op = r.pick(&["permissions", "interpreter"]).to_string();
    let (t, text) = if !programs.is_empty() && r.chance(1, 6) {
      r.pick(programs).clone()
    } else {
      *tag += 1;
      let text = match r.below(7) {
        0 => String::new(),
        // (5) nothing at all, or next to nothing; (6) not much of a program
        5 => {
          if r.chance(1, 2) && !programs.iter().any(|p| p.0 == 0) {
            programs.push((0, BLANK.into()));
          } else {
            programs.push((*tag, BLANK.into()));
          }
          BLANK.into()
        }
        6 => {
          RAW.to_string()
            + &match r.below(10) {
              0 => "".into(),
              1 => "// nothing\n".into(),
              2 => "\u{feff}fn main() {}\r\n".into(),
              3 => "#!/usr/bin/env x\r\nfn main() {}\n\n\n".into(),
              4 => "\0\u{1}\u{7f}\u{85}\u{2028}".into(),
              5 => "}{)( \"unterminated /* ".into(),
              6 => "fn main() { let s = r#\"{\"code\": \"\\u0000\"}\"#; }".into(),
              7 => "é🦀".repeat(20_000),
              8 => "fn f() {}\n".repeat(20_000),
              _ => "pub fn library() {}\n\t".into(),
            }
        }
        1 => " let s = \"<é&\\\"🦀\\n\"; ".to_string(),
        2 => "\n// a\n\n let x = 1;\n".to_string(),
        3 => "x".repeat(1 + r.below(3000) as usize),
        _ => format!(" let y = {}; ", r.below(1000)),
      };
      if text != BLANK {
        programs.push((*tag, text));
      }
      programs.last().unwrap().clone()
    };
    let config = match r.below(7) {
      0 => Some(json!({})),
      1 => Some(json!({"shouldFail": true})),
      2 => Some(json!({"stepper": "true", "n": 1})),
      3 => Some(Value::Null),
      4 => Some(json!({"shouldFail": "true", "boundaries": true})),
      5 => Some(json!({"shouldFail": false})),
      _ => None,
    };
    Kind::Analyse { op, tag: t, text, config }
  } else {
    match r.below(8) {
      0 | 1 => Kind::Hi,
      2 => Kind::NoRoute,
      3 => Kind::WrongMethod,
      4 => Kind::Preflight,
      _ => Kind::Bad(r.pick(&["truncated", "type", "missing", "array", "empty", "nonutf8", "ctype", "noctype"]).to_string()),
    }
  };
  Req {
    kind,
    chunk: *r.pick(&[0, 0, 0, 1, 7, 100]),
    gap_ms: *r.pick(&[0, 0, 1, 30]),
    chunked: r.chance(1, 6),
    pause_ms: *r.pick(&[0, 0, 10, 2000]),
  }
}

pub fn generate(property: &str, seed: u64) -> Case {
  let mut r = Rng::derive(seed, property);
  let mut tag = 0;
  let mut programs = vec![];
  let mut case = Case {
    property: property.into(),
    seed,
    cpus: *r.pick(&[1, 2, 3, 4, 8]),
    sched: gen_sched(&mut r),
    env_sysroot: r.chance(2, 3),
    log: r.pick(&["", "", "error", "trace"]).to_string(),
    conns: vec![],
    plan: BTreeMap::new(),
    pads: BTreeMap::new(),
    default_behav: behav(&mut r),
    new_plan: vec![],
    tools: BTreeMap::new(),
    faults: vec![],
  };
  let nc = 1 + r.below(5);
  for _ in 0..nc {
    let nr = if r.chance(2, 3) { 1 } else { 1 + r.below(3) };
    let reqs: Vec<Req> = (0..nr).map(|_| gen_req(&mut r, &mut tag, &mut programs, property == "S02")).collect();
    let mut pipelined = nr > 1 && r.chance(1, 4);
    let leave = if r.chance(if property == "S03" { 2 } else { 1 }, 5) {
      match r.below(5) {
        0 => Leave::MidSend(r.below(1000) as u32),
        1 | 2 => Leave::AfterSend(*r.pick(&[0, 1, 50, 1000, 5000])),
        3 => Leave::MidRead(1 + r.below(200) as usize),
        _ => Leave::HalfClose,
      }
    } else {
      Leave::Never
    };
    if leave == Leave::HalfClose {
      pipelined = false;
    }
    case.conns.push(Conn {
      at_ms: *r.pick(&[0, 0, 1, 20, 500, 4000]),
      reqs,
      leave,
      pipelined,
      // who sends all before reading anything must fit into the buffers
      cap: if pipelined { 2 << 20 } else { *r.pick(&[4096, 65_536, 1 << 20]) },
      read: *r.pick(&[0, 0, 0, 1000, 37]),
      read_gap_us: *r.pick(&[0, 0, 100, 5000]),
      close_header: r.chance(1, 4),
    });
  }
  // many at once, most of whom leave
  if property != "S02" && r.chance(1, 12) {
    for _ in 0..15 + r.below(30) {
      tag += 1;
      let kind = Kind::Analyse { op: r.pick(&["permissions", "interpreter"]).to_string(), tag, text: String::new(), config: None };
      case.conns.push(Conn {
        at_ms: r.below(3000),
        reqs: vec![Req { kind, chunk: 0, gap_ms: 0, chunked: false, pause_ms: 0 }],
        leave: if r.chance(3, 4) { Leave::AfterSend(r.below(1500)) } else { Leave::Never },
        pipelined: false,
        cap: 65_536,
        read: 0,
        read_gap_us: 0,
        close_header: false,
      });
    }
  }
  for t in 0..=tag {
    for op in ["permissions", "interpreter"] {
      let key = format!("r{t}:{op}");
      let mut b = if r.chance(1, 2) { behav(&mut r) } else { case.default_behav.clone() };
      let p = match property {
        "S01" => 3,
        "S02" => 3,
        _ => 2,
      };
      if r.chance(p, 6) {
        b.mode = match property {
          "S03" => r.pick(&[Mode::Hang, Mode::Stubborn, Mode::HangAfter, Mode::HangAfter, Mode::HangDeep, Mode::Exit(101), Mode::Empty]).clone(),
          "S01" if r.chance(1, 5) => r.pick(&[Mode::Hang, Mode::HangAfter]).clone(),
          _ => some_mode(&mut r),
        };
      } else if property == "S03" && r.chance(1, 5) {
        b.delay_ms = *r.pick(&[8000, 15_000]);
      }
      if r.chance(1, 6) {
        case.pads.insert(key.clone(), *r.pick(&[100, 5000, 70_000, 200_000]));
      }
      if r.chance(1, 8) {
        b.stderr = *r.pick(&[66_000, 150_000]);
      }
      case.plan.insert(key, vec![b]);
    }
  }
  if property != "S02" && r.chance(1, 4) {
    case.new_plan = (0..r.below(3)).map(|_| Behav::default()).collect();
    let m = match r.below(6) {
      0 => Mode::Exit(101),
      1 => Mode::Signal(9),
      2 => Mode::SpawnFails(libc::EAGAIN),
      3 => Mode::ExitNonUtf8(101),
      4 => Mode::Hang,
      _ => Mode::ExitAfter(101),
    };
    let e = if m == Mode::ExitAfter(101) { 20 } else { 0 };
    case.new_plan.push(Behav { mode: m, stderr: e, ..Behav::default() });
    case.new_plan.push(Behav::default());
  } else if property == "S03" && r.chance(1, 4) {
    case.new_plan = (0..r.below(4)).map(|_| Behav { delay_ms: *r.pick(&[0, 1, 4000, 9000, 15_000]), ..Behav::default() }).collect();
  }
  if !case.env_sysroot {
    let mut b = Behav { delay_ms: *r.pick(&[1, 50, 900]), ..Behav::default() };
    if property != "S02" && r.chance(1, 4) {
      b.mode = r.pick(&[Mode::Exit(1), Mode::SpawnFails(2), Mode::NonUtf8, Mode::ExitNonUtf8(1), Mode::Signal(9)]).clone();
    }
    if property == "S03" && r.chance(1, 3) {
      b.mode = Mode::Ok;
      b.delay_ms = *r.pick(&[5000, 15_000]);
    }
    case.tools.insert("miri".into(), b);
  }
  if property != "S02" && r.chance(1, 3) {
    for _ in 0..1 + r.below(2) {
      let (op, path) = *r.pick(&[
        ("write", "main.rs"),
        ("open", "main.rs"),
        ("mkdir", "tmp"),
        ("spawn", "cargo"),
        ("pipe", ""),
        ("accept", ""),
        ("accept", ""),
      ]);
      let e = match op {
        "write" => *r.pick(&[libc::ENOSPC, libc::EIO]),
        "spawn" => *r.pick(&[libc::EAGAIN, libc::ENOMEM, libc::ENOENT]),
        "pipe" => libc::EMFILE,
        "accept" => *r.pick(&[libc::EMFILE, libc::ECONNABORTED, libc::ENFILE]),
        _ => *r.pick(&[libc::EMFILE, libc::EACCES, libc::ENOSPC]),
      };
      case.faults.push(Fault { op: op.into(), path: path.into(), proc: -1, nth: r.below(5), act: Act::Errno(e) });
    }
  }
  case
}

// ---------------------------------------------------------------- running

fn wants_should_fail(op: &str, config: &Option<Value>) -> bool {
  op == "interpreter" && config.as_ref().and_then(|c| c.as_object()).map_or(false, |c| c.get("shouldFail").map_or(false, |v| v != &Value::Bool(false)))
}

pub fn run(k: &mut Kernel, case: &Case) -> Outcome {
  let bin = &env_path("SIM_SERVE");
  let mut out = Outcome::default();
  let st: Shared = Rc::new(RefCell::new(State {
    plan: case.plan.clone(),
    pads: case.pads.clone(),
    new_plan: case.new_plan.clone(),
    tool_plan: case.tools.clone(),
    default_behav: case.default_behav.clone(),
    ..Default::default()
  }));
  k.world = Some(Box::new(AnalysisWorld(st.clone())));
  k.vfs.mkdir_p("/tmp");
  k.vfs.mkdir_p("/sim/srv");
  let mut env: Vec<(String, String)> = vec![("PATH".into(), "/usr/bin:/bin".into()), ("HOME".into(), "/sim/home".into())];
  if case.env_sysroot {
    env.push(("MIRI_SYSROOT".into(), "/sim/env-sysroot".into()));
  }
  if !case.log.is_empty() {
    env.push(("RUST_LOG".into(), case.log.clone()));
  }
  let want_sysroot = if case.env_sysroot { "/sim/env-sysroot" } else { "/sim/miri-sysroot" };
  macro_rules! bad {
    ($p:expr, $c:expr, $($a:tt)*) => {
      out.violations.push(Violation { property: $p.to_string(), class: $c.to_string(), detail: format!($($a)*) })
    };
  }
  let sin = k.new_ofd(OKind::Null, false, "stdin");
  let mut outs = vec![];
  for n in ["stdout", "stderr"] {
    let po = k.new_pipe(usize::MAX);
    k.pipes[po].writers = 1;
    k.pipes[po].readers = 1;
    outs.push((k.new_ofd(OKind::PipeW(po), false, n), po));
  }
  let p = k.start_real(bin, &["aquascope_serve"], &env, "/sim/srv", [sin, outs[0].0, outs[1].0]);
  let end = k.run(|k| k.listener(PORT).is_some() || k.procs[p].status.is_some(), 100_000, k.now + 5 * SEC);
  if k.harness_error.is_some() {
    return out;
  }
  if end != End::Done || k.procs[p].status.is_some() {
    bad!(&case.property, "no-start", "the server did not start listening: {end:?}, {:?}", k.procs[p].status);
    return out;
  }
  let open = |k: &Kernel| {
    k.procs[p].fds.iter().filter(|(fd, (o, _))| **fd > 2 && matches!(k.ofds[*o].as_ref().map(|o| &o.kind), Some(OKind::PipeR(_) | OKind::PipeW(_) | OKind::File { .. } | OKind::Dir { .. })) || matches!(k.ofds[*o].as_ref().map(|o| &o.kind), Some(OKind::Sock { peer_port, .. }) if *peer_port >= 40_000)).count()
  };
  let open_before = open(k);
  k.set_faults(case.faults.clone());
  let fired_before = k.fired.clone();
  let root = k.procs[p].cwd;
  let mut clients = vec![];
  for (i, c) in case.conns.iter().enumerate() {
    let log = Rc::new(RefCell::new(Log::default()));
    let a = client(c.clone(), log.clone(), 40_000 + i as u16);
    let at = k.now + c.at_ms as i64 * MS;
    let pr = k.add_actor(Box::new(a), &format!("client {i}"), None, root, at);
    clients.push((pr, log));
  }
  let t0 = k.now;
  let slow_tool = case.tools.get("miri").map_or(0, |b| b.delay_ms as i64 * MS);
  let n_req: i64 = case.conns.iter().map(|c| c.reqs.len() as i64).max().unwrap_or(1);
  let sending: i64 = (case.conns.iter())
    .map(|c| c.reqs.iter().map(|q| (q.pause_ms as i64 + if q.chunk > 0 { (q.bytes(false).len() / q.piece(q.bytes(false).len()) + 1) as i64 * q.gap_ms as i64 } else { 0 }) * MS).sum())
    .max()
    .unwrap_or(0);
  let limit = t0 + 30 * SEC + n_req * (60 * SEC + slow_tool) + sending;
  let prs: Vec<usize> = clients.iter().map(|c| c.0).collect();
  let end = k.run(|k| k.procs[p].status.is_some() || prs.iter().all(|c| k.procs[*c].status.is_some()), 600_000 + 100_000 * case.conns.len() as u64, limit);
  if k.harness_error.is_some() {
    return out;
  }
  let faulted = k.fired.iter().any(|(n, c)| {
    fired_before.get(n).copied().unwrap_or(0) < *c && ["write_", "open_", "mkdir_", "spawn_", "pipe_", "accept_"].iter().any(|x| n.starts_with(x))
  });
  let stderr = |k: &Kernel| String::from_utf8_lossy(&k.pipes[outs[1].1].buf.iter().copied().collect::<Vec<u8>>()).into_owned();
  if let Some(s) = k.procs[p].status.clone() {
    bad!("S01", "server-died", "the server ended with {s:?}: {}", clip(&stderr(k)));
    return out;
  }
  out.count("requests", case.conns.iter().map(|c| c.reqs.len() as u64).sum());
  let invs: Vec<Invocation> = st.borrow().inv.clone();
  let aq: Vec<&Invocation> = invs.iter().filter(|i| i.kind == "aquascope").collect();
  out.count("analyses", aq.len() as u64);
  out.nontrivial = !aq.is_empty();

  // --- every request has its answer
  let mut expected_runs: BTreeMap<(String, String, bool), (u64, u64)> = BTreeMap::new();
  for (ci, (c, (_, log))) in case.conns.iter().zip(&clients).enumerate() {
    let l = log.borrow();
    // Having refused a body by its type, hyper may close the connection instead of reading the rest of that body, or
    // of flushing its answer if the client is slow to read; so too if the client has closed its side.
    let refuses = |q: &Req| matches!(&q.kind, Kind::Bad(b) if b.contains("ctype")) && (q.chunked || q.chunk > 0 || c.pipelined);
    let cut_off = |ri: usize| c.leave == Leave::HalfClose || c.reqs[..(ri + 1).min(c.reqs.len())].iter().any(refuses);
    let next = l.answers.iter().filter(|a| a.response.is_some()).count();
    if let (Some(pr), false) = (&l.problem, l.eof_at.is_some() && cut_off(next)) {
      bad!("S01", "malformed", "client {ci}: {pr}");
    }
    if l.refused {
      bad!("S01", "refused", "client {ci} could not connect");
    }
    for (ri, rq) in c.reqs.iter().enumerate() {
      let what = format!("client {ci} request {ri} ({})", clip(&format!("{:?}", rq.kind)));
      let a = match l.answers.get(ri) {
        Some(a) => a,
        None => continue,
      };
      let complete = a.sent_at.is_some();
      if let Kind::Analyse { op, tag, config, .. } = &rq.kind {
        if complete {
          let e = expected_runs.entry((format!("r{tag}"), op.clone(), wants_should_fail(op, config))).or_insert((0, 0));
          e.1 += 1;
          if a.response.as_ref().map_or(false, |r| r.status == 200) {
            e.0 += 1;
          }
        }
      }
      let resp = match &a.response {
        Some(r) => r,
        None => {
          let excused = !complete || l.left || cut_off(ri);
          if !excused {
            if end != End::Done && l.eof_at.is_none() {
              bad!("S03", "no-answer-in-time", "{what}: no response after {} s", (k.now - a.sent_at.unwrap()) / SEC);
              bad!("S01", "no-answer", "{what}: no response after {} s", (k.now - a.sent_at.unwrap()) / SEC);
            } else {
              bad!("S01", "no-answer", "{what}: the connection was closed without a response: {}", clip(stderr(k).lines().filter(|l| l.contains("panicked")).last().unwrap_or("")));
            }
          }
          continue;
        }
      };
      out.count("responses", 1);
      let sent = a.sent_at.unwrap_or(a.at);
      let took = a.at - sent;
      let text = String::from_utf8_lossy(&resp.body).into_owned();
      match &rq.kind {
        Kind::Hi => {
          if resp.status != 200 || text != "HELLO!" {
            bad!("S01", "wrong-answer", "{what}: {} {}", resp.status, clip(&text));
          }
        }
        Kind::NoRoute => {
          if resp.status != 404 {
            bad!("S01", "wrong-answer", "{what}: {} {}", resp.status, clip(&text));
          }
        }
        Kind::WrongMethod => {
          if resp.status != 405 {
            bad!("S01", "wrong-answer", "{what}: {} {}", resp.status, clip(&text));
          }
        }
        Kind::Preflight => {
          if resp.status != 200 || resp.headers.get("access-control-allow-origin").map(|s| s.as_str()) != Some("*") {
            bad!("S01", "wrong-answer", "{what}: {} {:?}", resp.status, resp.headers);
          }
        }
        Kind::Bad(_) => {
          let v: Value = serde_json::from_slice(&resp.body).unwrap_or(Value::Null);
          if v.get("error").and_then(|e| e.as_str()).map_or(true, |s| s.is_empty()) {
            bad!("S01", "wrong-answer", "{what}: {} {}", resp.status, clip(&text));
          }
        }
        Kind::Analyse { op, tag, text: t, config } => {
          let code = code_of(*tag, t);
          let sf = wants_should_fail(op, config);
          let key = format!("r{tag}:{op}");
          let b = case.plan.get(&key).map(|v| v[0].clone()).unwrap_or(case.default_behav.clone());
          let mine: Vec<&&Invocation> = aq.iter().filter(|i| i.code_id == format!("r{tag}") && i.op == *op && i.should_fail == sf).collect();
          let runs_wrong = mine.iter().find(|i| !i.code.is_empty() && i.code != code);
          if let Some(w) = runs_wrong {
            bad!("S02", "wrong-program", "{what}: the analysed program is not the one sent: {}", clip(&w.code));
          }
          for i in &mine {
            if i.env.get("MIRI_SYSROOT").map(|s| s.as_str()) != Some(want_sysroot) {
              bad!("S02", "environment", "{what}: analysed with MIRI_SYSROOT={:?}", i.env.get("MIRI_SYSROOT"));
            }
          }
          match resp.status {
            200 => {
              let v: Value = match serde_json::from_slice(&resp.body) {
                Ok(v) => v,
                Err(e) => {
                  bad!("S01", "malformed", "{what}: not JSON: {e}: {}", clip(&text));
                  continue;
                }
              };
              let (s, o, e) = (v["success"].as_bool(), v["stdout"].as_str(), v["stderr"].as_str());
              if s.is_none() || o.is_none() || e.is_none() {
                bad!("S01", "malformed", "{what}: {}", clip(&text));
                continue;
              }
              let good: Vec<&&&Invocation> = mine.iter().filter(|i| i.done && !i.mode.hangs()).collect();
              if !good.iter().any(|i| o == Some(&*String::from_utf8_lossy(&i.stdout))) {
                bad!("S02", "wrong-output", "{what}: stdout is {:?} instead of {:?}", clip(o.unwrap()), good.first().map(|i| clip(&String::from_utf8_lossy(&i.stdout))));
              } else if !good.iter().any(|i| e == Some(&*String::from_utf8_lossy(&i.stderr))) {
                bad!("S02", "wrong-stderr", "{what}: stderr is {:?}", clip(e.unwrap()));
              } else if s == Some(o.unwrap().trim().is_empty()) {
                bad!("S02", "wrong-success", "{what}: success={s:?} with stdout {:?}", clip(o.unwrap()));
              }
              if b.mode == Mode::Ok {
                let want = serde_json::to_string(&response(&code, op, sf, false, case.pads.get(&key).copied().unwrap_or(0) + b.pad)).unwrap() + "\n";
                if o != Some(&want) {
                  bad!("S02", "wrong-result", "{what}: stdout is {:?} instead of {:?}", clip(o.unwrap()), clip(&want));
                }
              }
              out.count("results", 1);
            }
            500 => {
              let new_bad = case.new_plan.iter().any(|b| b.mode != Mode::Ok);
              let tool_bad = case.tools.values().any(|b| b.mode != Mode::Ok);
              let caused = faulted || new_bad || tool_bad || b.mode.hangs() || matches!(b.mode, Mode::SpawnFails(_));
              if !caused {
                bad!("S01", "spurious-error", "{what}: {}", clip(&text));
              }
              if text.trim().is_empty() {
                bad!("S01", "silent-error", "{what}: no message");
              }
              out.count("errors_reported", 1);
            }
            s => bad!("S01", "wrong-answer", "{what}: {s} {}", clip(&text)),
          }
        }
      }
      // --- in time, whatever others do
      if !c.pipelined && complete {
        let own = match &rq.kind {
          Kind::Analyse { op, tag, config, .. } => {
            let b = case.plan.get(&format!("r{tag}:{op}")).map(|v| v[0].clone()).unwrap_or(case.default_behav.clone());
            // if it came to the analysis, its own `cargo new` did not hang
            let sf = wants_should_fail(op, config);
            let mine: Vec<&str> = (aq.iter()).filter(|i| i.code_id == format!("r{tag}") && i.op == *op && i.should_fail == sf).map(|i| &i.dir[..]).collect();
            let same = (case.conns.iter().flat_map(|c| &c.reqs))
              .filter(|q| matches!(&q.kind, Kind::Analyse { op: o, tag: t, config: c, .. } if o == op && t == tag && wants_should_fail(o, c) == sf))
              .count();
            let known = mine.len() >= same;
            let own_new = |n: &Invocation| mine.iter().any(|d| *d == n.dir || d.strip_prefix(&n.dir[..]).map_or(false, |r| r.starts_with('/')));
            let news: Vec<(&Invocation, &Behav)> = invs.iter().filter(|i| i.kind == "new").zip(&case.new_plan).collect();
            let nd = news.iter().filter(|(n, _)| !known || own_new(n)).map(|(_, b)| if b.mode.hangs() { 20 * SEC } else { b.delay_ms as i64 * MS }).max().unwrap_or(0);
            let op_t = if b.mode.hangs() { 20 * SEC } else { b.delay_ms as i64 * MS + 2 * SEC };
            op_t + nd + slow_tool
          }
          _ => 0,
        };
        let read_slack = if c.read > 0 { (resp.body.len() / c.read + 8) as i64 * (c.read_gap_us as i64 * 1000 + 1000) } else { 0 };
        if took > own + read_slack + 3 * SEC + if faulted { 3 * SEC } else { 0 } {
          bad!("S03", "late", "{what}: answered after {} ms", took / MS);
        }
      }
    }
  }
  // --- each request is one analysis
  for ((id, op, sf), (done, sent)) in &expected_runs {
    let n = aq.iter().filter(|i| i.code_id == *id && i.op == *op && i.should_fail == *sf && !matches!(i.mode, Mode::SpawnFails(_))).count() as u64;
    if n < *done || n > *sent {
      bad!("S02", "runs", "{id} {op}: {sent} requests, {done} answered with a result, but {n} analyses");
    }
  }
  let requested: BTreeSet<(String, String, bool)> = expected_runs.keys().cloned().collect();
  for i in &aq {
    if !requested.contains(&(i.code_id.clone(), i.op.clone(), i.should_fail)) {
      bad!("S02", "unrequested", "`{}` was run on {:?} though nobody asked for it", i.argv.join(" "), i.code_id);
    }
  }
  for i in &invs {
    if let (Some(pr), false) = (&i.problem, faulted || case.new_plan.iter().any(|b| b.mode != Mode::Ok)) {
      bad!("S02", "bad-invocation", "`{}`: {pr}", i.argv.join(" "));
    }
  }
  let mut dirs: BTreeMap<&str, usize> = BTreeMap::new();
  for i in &aq {
    *dirs.entry(&i.dir).or_insert(0) += 1;
  }
  if let Some((d, n)) = dirs.iter().find(|d| *d.1 > 1) {
    bad!("S02", "shared-directory", "{n} analyses ran in {d}");
  }
  if !out.violations.is_empty() {
    return out;
  }

  // --- once the clients are gone, so is everything made for them
  let kids = |k: &Kernel| -> Vec<usize> {
    (0..k.procs.len()).filter(|q| matches!(k.procs[*q].kind, PKind::Actor) && k.procs[*q].status.is_none() && invs_has(&st, *q)).collect()
  };
  let t1 = k.now;
  k.run(
    |k| k.procs[p].status.is_some() || (kids(k).is_empty() && k.vfs.walk("/tmp").is_empty()),
    600_000,
    t1 + 45 * SEC + slow_tool,
  );
  if k.harness_error.is_some() {
    return out;
  }
  if k.procs[p].status.is_some() {
    bad!("S01", "server-died", "the server ended: {}", clip(&stderr(k)));
    return out;
  }
  let live = kids(k);
  if let Some(q) = live.first() {
    bad!("S03", "left-running", "`{}` still runs {} s after the last client left", k.procs[*q].name, (k.now - t1) / SEC);
  }
  let left = k.vfs.walk("/tmp");
  if !left.is_empty() && live.is_empty() {
    bad!("S03", "left-files", "{} entries left in the temporary directory, first {}", left.len(), left[0]);
  }
  for i in st.borrow().inv.iter().filter(|i| i.mode.hangs() && i.proc < k.procs.len()) {
    let q = &k.procs[i.proc];
    if q.status.is_some() && q.ended_at - q.started_at > 24 * SEC {
      bad!("S03", "late-cutoff", "`{}` was stopped only after {} ms", i.argv.join(" "), (q.ended_at - q.started_at) / MS);
    }
  }
  let orphan = st.borrow().descendants.iter().find(|(i, q)| st.borrow().inv[*i].mode == Mode::HangDeep && k.procs[*q].status.is_none()).copied();
  if let Some((i, _)) = orphan {
    bad!("S03", "orphan-left-running", "a process started by `{}`, which timed out, still runs after the request ended", st.borrow().inv[i].argv.join(" "));
  }

  // --- and the server still serves
  k.set_faults(vec![]);
  for (_, b) in st.borrow_mut().tool_plan.iter_mut() {
    b.mode = Mode::Ok;
    b.delay_ms = 1;
  }
  st.borrow_mut().new_plan.clear();
  st.borrow_mut().default_behav = Behav::default();
  let reqs = [
    Kind::Hi,
    Kind::Analyse { op: "permissions".into(), tag: 900, text: " last ".into(), config: None },
    Kind::Analyse { op: "interpreter".into(), tag: 901, text: " last ".into(), config: None },
  ];
  let conn = Conn {
    at_ms: 0,
    reqs: reqs.iter().map(|q| Req { kind: q.clone(), chunk: 0, gap_ms: 0, chunked: false, pause_ms: 0 }).collect(),
    leave: Leave::Never,
    pipelined: false,
    cap: 65_536,
    read: 0,
    read_gap_us: 0,
    close_header: true,
  };
  let log = Rc::new(RefCell::new(Log::default()));
  let at = k.now;
  let pr = k.add_actor(Box::new(client(conn, log.clone(), 50_000)), "last client", None, root, at);
  k.run(|k| k.procs[p].status.is_some() || k.procs[pr].status.is_some(), 200_000, at + 10 * SEC);
  if k.harness_error.is_some() {
    return out;
  }
  {
    let l = log.borrow();
    let ok = |i: usize| l.answers.get(i).and_then(|a| a.response.as_ref()).map_or(false, |r| r.status == 200);
    if !(ok(0) && ok(1) && ok(2)) || l.problem.is_some() {
      let st: Vec<String> = l.answers.iter().map(|a| a.response.as_ref().map_or("no response".into(), |r| format!("{} {}", r.status, clip(&String::from_utf8_lossy(&r.body))))).collect();
      bad!("S01", "unavailable", "after it all, the server does not serve any more: {st:?} {:?}", l.problem);
    }
  }
  // --- nothing leaks
  let t2 = k.now;
  k.run(|k| k.procs[p].status.is_some() || (open(k) <= open_before && k.vfs.walk("/tmp").is_empty()), 100_000, t2 + 45 * SEC);
  if k.harness_error.is_some() {
    return out;
  }
  let n = open(k).saturating_sub(open_before);
  if n > 0 && live.is_empty() {
    bad!("S03", "leaked-descriptors", "{n} descriptors of connections and pipes stay open when nobody is connected ({:?})", k.procs[p].fds.iter().map(|(f, (o, _))| format!("{f}:{}", k.ofds[*o].as_ref().map_or("", |o| &o.path))).collect::<Vec<_>>());
  }
  out
}

fn invs_has(st: &Shared, q: usize) -> bool {
  st.borrow().inv.iter().any(|i| i.proc == q && !matches!(i.mode, Mode::SpawnFails(_)))
}

fn client(conn: Conn, log: Rc<RefCell<Log>>, port: u16) -> Client {
  Client { conn, log, state: 0, ofd: 0, rx: 0, tx: 0, cur: 0, out: vec![], off: 0, marks: vec![], inbuf: vec![], tries: 0, port, leave_at: None }
}

// ---------------------------------------------------------------- shrinking

pub fn shrink(c: &Case) -> Vec<Case> {
  let mut v = vec![];
  let mut push = |f: &dyn Fn(&mut Case)| {
    let mut d = c.clone();
    f(&mut d);
    if d != *c && !d.conns.is_empty() && d.conns.iter().all(|c| !c.reqs.is_empty()) {
      v.push(d);
    }
  };
  for i in 0..c.conns.len() {
    push(&|d| {
      d.conns.remove(i);
    });
  }
  for i in 0..c.conns.len() {
    for j in 0..c.conns[i].reqs.len() {
      push(&|d| {
        d.conns[i].reqs.remove(j);
      });
    }
  }
  push(&|d| d.faults.clear());
  for i in 0..c.faults.len() {
    push(&|d| {
      d.faults.remove(i);
    });
  }
  push(&|d| d.new_plan.clear());
  push(&|d| d.tools.clear());
  push(&|d| d.env_sysroot = true);
  push(&|d| d.default_behav = Behav::default());
  for key in c.plan.keys() {
    push(&|d| {
      d.plan.remove(key);
    });
    push(&|d| {
      let b = &mut d.plan.get_mut(key).unwrap()[0];
      *b = Behav { mode: b.mode.clone(), ..Behav::default() };
    });
  }
  for key in c.pads.keys() {
    push(&|d| {
      d.pads.remove(key);
    });
  }
  for i in 0..c.conns.len() {
    push(&|d| {
      let n = &mut d.conns[i];
      n.pipelined = false;
      n.cap = n.cap.max(65_536);
      n.read = 0;
      n.read_gap_us = 0;
      n.close_header = false;
      n.at_ms = 0;
    });
    push(&|d| d.conns[i].leave = Leave::Never);
    for j in 0..c.conns[i].reqs.len() {
      push(&|d| {
        let q = &mut d.conns[i].reqs[j];
        q.chunk = 0;
        q.gap_ms = 0;
        q.chunked = false;
        q.pause_ms = 0;
      });
      push(&|d| {
        if let Kind::Analyse { text, config, .. } = &mut d.conns[i].reqs[j].kind {
          text.clear();
          *config = None;
        }
      });
    }
  }
  push(&|d| d.log = String::new());
  push(&|d| d.sched.stall = 0);
  push(&|d| d.sched.malloc_period = 0);
  push(&|d| d.cpus = 1);
  push(&|d| d.cpus = 2);
  v
}

pub fn meta(_property: &str) -> Meta {
  Meta {
    level: "exploration",
    rule: "seed -> clients, their requests, when and how they send, read and leave, behaviour of every started program, failing system calls, CPU count and schedule; non-trivial: at least one analysis was started; distinct by the hash of the whole execution (every system call with its result, and every scheduling decision)",
    real: &["aquascope_serve binary built from /repo (routes, containers, axum, hyper, tokio with its worker threads and process reaper, tower, serde_json, env_logger, std)"],
    stub: &[
      "kernel: processes, threads, futexes, sockets, epoll, eventfd, pipes, signals, file system, clocks, getrandom (simulated)",
      "HTTP clients (actors)",
      "cargo new, cargo aquascope, cargo miri (actors answering with a pure function of the code, or misbehaving as planned)",
    ],
    assumptions: &[
      "preemption happens at system calls and at allocation points, not between arbitrary instructions; memory is sequentially consistent",
      "the analysis is a pure function of the code and its options",
    ],
    quick: 4000,
    thorough: 400_000,
  }
}
