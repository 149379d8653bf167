//! Books built by the real mdbook-aquascope binary under the simulator.
use crate::{
  kernel::*,
  rng::Rng,
  scenario::{env_path, Meta, Outcome, Violation},
  vfs::Vfs,
  world::*,
};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::{
  cell::RefCell,
  collections::{BTreeMap, BTreeSet},
  io::Write,
  rc::Rc,
};

pub const ROOT_DIR: &str = "/sim/book";
pub const CACHE: &str = "/sim/book/.aquascope-cache";

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Line {
  pub text: String,
  /// 0 none, 1 hidden (#), 2 state marker, 3 stepper focus, 4 boundaries, 5 stepper paths, 6 escaped #,
  /// 7 state markers at both sides of a character and at the end, 8 stepper paths without focus, 9 one of each kind
  #[serde(default)]
  pub ann: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Block {
  /// Variants of one program share it.
  pub tag: usize,
  pub ops: Vec<String>,
  pub config: Vec<(String, Option<String>)>,
  pub lines: Vec<Line>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Piece {
  Text(String),
  Block(usize),
  Perm(String, Option<String>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Chapter {
  pub path: String,
  pub pieces: Vec<Piece>,
  #[serde(default)]
  pub sub: Vec<Chapter>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Build {
  pub chapters: Vec<Chapter>,
  /// dies at this many system calls
  #[serde(default)]
  pub crash_at: Option<u64>,
  #[serde(default)]
  pub faults: Vec<Fault>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Step {
  /// One build, or several at once.
  Builds(Vec<Build>),
  Corrupt(Corrupt),
  PowerLoss,
  /// The wall clock jumps.
  ClockJump(i64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Corrupt {
  /// keep the first n/256 of the file
  Truncate(u32),
  /// flip a bit at position n/65536
  Flip(u32, u8),
  /// zeros from n/256 on
  Zero(u32),
  /// old bytes followed by themselves
  Double,
  Random(u64, usize),
  /// a valid gzip file with this in it
  Gzip(String),
  Remove,
  Append(Vec<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Case {
  pub property: String,
  pub seed: u64,
  pub cpus: usize,
  pub sched: Sched,
  /// MIRI_SYSROOT / RUSTC_PATH given in the environment
  pub env_sysroot: bool,
  pub env_rustc: bool,
  pub blocks: Vec<Block>,
  pub steps: Vec<Step>,
  /// "block index:op" -> behaviours of its attempts
  pub plan: BTreeMap<String, Vec<Behav>>,
  pub pads: BTreeMap<String, usize>,
  pub default_behav: Behav,
  pub new_plan: Vec<Behav>,
  pub tools: BTreeMap<String, Behav>,
}

impl Line {
  /// before, at and after some character in the middle
  fn split(&self) -> (&str, &str, &str) {
    let v: Vec<usize> = self.text.char_indices().map(|c| c.0).chain([self.text.len()]).collect();
    let m = v.len() / 2;
    let n = (m + 1).min(v.len() - 1);
    (&self.text[..v[m]], &self.text[v[m]..v[n]], &self.text[v[n]..])
  }
}

/// as the editor counts
fn width(s: &str) -> usize {
  s.encode_utf16().count()
}

impl Block {
  pub fn id(&self) -> String {
    format!("b{}", self.tag)
  }
  /// What stands in the chapter.
  pub fn source(&self) -> String {
    let mut s = format!("```aquascope,{}", self.ops.join("+"));
    for (k, v) in &self.config {
      match v {
        Some(v) => s += &format!(",{k}={v}"),
        None => s += &format!(",{k}"),
      }
    }
    s.push('\n');
    for l in self.all_lines() {
      match l.ann {
        1 => s += &format!("#{}", l.text),
        2 => s += &format!("{}`[]`", l.text),
        3 => s += &format!("{}`(focus)`", l.text),
        4 => s += &format!("`{{}}`{}", l.text),
        5 => s += &format!("{}`(focus,paths:x)`", l.text),
        6 => s += &format!("\\{}", l.text),
        7 => {
          let (a, c, b) = l.split();
          s += &format!("{a}`[]`{c}`[]`{b}`[]`");
        }
        8 => s += &format!("`(paths:x.0,rxpaths:^y[{{}}]$)`{}", l.text),
        9 => {
          let (a, c, b) = l.split();
          s += &format!("{a}`{{}}`{c}`(focus,rxpaths:*)`{b}`[]`");
        }
        _ => s += &l.text,
      }
      s.push('\n');
    }
    s + "```"
  }
  fn all_lines(&self) -> Vec<Line> {
    let mut v = vec![Line { text: format!("fn main() {{ /*id:{}*/", self.id()), ann: 0 }];
    v.extend(self.lines.iter().cloned());
    v.push(Line { text: "}".into(), ann: 0 });
    v
  }
  pub fn code(&self) -> String {
    self.all_lines().iter().map(|l| l.text.clone()).collect::<Vec<_>>().join("\n")
  }
  pub fn annotations(&self) -> Value {
    let (mut hidden, mut states, mut focused, mut bounds) = (vec![], vec![], vec![], vec![]);
    let mut paths = serde_json::Map::new();
    let mut idx = 0;
    for (n, l) in self.all_lines().iter().enumerate() {
      let ln = n + 1;
      match l.ann {
        1 => hidden.push(ln),
        2 => states.push(idx + width(&l.text)),
        3 => focused.push(ln),
        4 => bounds.push(ln),
        5 => {
          focused.push(ln);
          paths.insert(ln.to_string(), json!([{"type": "Literal", "value": "x"}]));
        }
        7 => {
          let (a, c, _) = l.split();
          states.extend([idx + width(a), idx + width(a) + width(c), idx + width(&l.text)]);
        }
        8 => {
          paths.insert(ln.to_string(), json!([{"type": "Literal", "value": "x.0"}, {"type": "Regex", "value": "^y[{}]$"}]));
        }
        9 => {
          bounds.push(ln);
          focused.push(ln);
          paths.insert(ln.to_string(), json!([{"type": "Regex", "value": "*"}]));
          states.push(idx + width(&l.text));
        }
        _ => {}
      }
      idx += width(&l.text) + 1;
    }
    json!({
      "hidden_lines": hidden,
      "interp": {"state_locations": states},
      "stepper": {"focused_lines": focused, "focused_paths": paths},
      "boundaries": {"focused_lines": bounds},
    })
  }
  fn has(&self, k: &str) -> bool {
    self.config.iter().any(|c| c.0 == k)
  }
  pub fn expected(&self, pads: &BTreeMap<String, usize>) -> Value {
    let mut m = serde_json::Map::new();
    for op in &self.ops {
      let pad = pads.get(&format!("{}:{op}", self.id())).copied().unwrap_or(0);
      m.insert(op.clone(), response(&self.code(), op, self.has("shouldFail"), self.has("showFlows"), pad));
    }
    Value::Object(m)
  }
  /// What distinguishes one analysis from another.
  pub fn key(&self) -> String {
    format!("{:?}|{:?}|{}", self.ops, self.config, self.code())
  }
}

fn perm_html(p: &str, opt: &Option<String>) -> String {
  let letter = p.chars().next().unwrap().to_ascii_uppercase();
  let html = format!(r#"<span class="perm {p}">{letter}</span>"#);
  match opt.as_deref() {
    Some("gained") => format!(r#"<span><span class="perm-diff-add">+</span>{html}</span>"#),
    Some("lost") => {
      format!(r#"<span class="perm-diff-sub-container"><div class="perm-diff-sub"></div>{html}</span>"#)
    }
    Some(_) => format!(r#"<span class="perm missing {p}">{letter}</span>"#),
    None => html,
  }
}

impl Chapter {
  fn content(&self, blocks: &[Block]) -> String {
    self
      .pieces
      .iter()
      .map(|p| match p {
        Piece::Text(t) => t.clone(),
        Piece::Block(i) => blocks[*i].source(),
        Piece::Perm(p, None) => format!("@Perm{{{p}}}"),
        Piece::Perm(p, Some(o)) => format!("@Perm[{o}]{{{p}}}"),
      })
      .collect()
  }
  fn to_json(&self, blocks: &[Block]) -> Value {
    json!({"Chapter": {
      "name": self.path, "content": self.content(blocks), "number": null,
      "sub_items": self.sub.iter().map(|c| c.to_json(blocks)).collect::<Vec<_>>(),
      "path": self.path, "source_path": self.path, "parent_names": [],
    }})
  }
  fn walk<'a>(&'a self, out: &mut Vec<&'a Chapter>) {
    out.push(self);
    for c in &self.sub {
      c.walk(out);
    }
  }
}

impl Build {
  fn all(&self) -> Vec<&Chapter> {
    let mut v = vec![];
    for c in &self.chapters {
      c.walk(&mut v);
    }
    v
  }
  fn stdin(&self, blocks: &[Block]) -> Vec<u8> {
    let ctx = json!({
      "root": ROOT_DIR,
      "config": {"book": {"authors": [], "language": "en", "multilingual": false, "src": "src", "title": "t"},
                 "preprocessor": {"aquascope": {}}},
      "renderer": "html", "mdbook_version": "0.4.45"});
    let book = json!({
      "sections": self.chapters.iter().map(|c| c.to_json(blocks)).collect::<Vec<_>>(),
      "__non_exhaustive": null});
    serde_json::to_vec(&json!([ctx, book])).unwrap()
  }
  fn block_ids(&self) -> BTreeSet<usize> {
    self
      .all()
      .iter()
      .flat_map(|c| c.pieces.iter().filter_map(|p| if let Piece::Block(i) = p { Some(*i) } else { None }))
      .collect()
  }
}

fn unescape(s: &str) -> String {
  s.replace("&quot;", "\"").replace("&#x27;", "'").replace("&#39;", "'").replace("&lt;", "<").replace("&gt;", ">").replace("&amp;", "&")
}

/// Parses `<div class="aquascope-embed" data-…="…"…></div>` at the start of s.
fn parse_embed(s: &str) -> Result<(BTreeMap<String, String>, usize), String> {
  let b = s.as_bytes();
  if !s.starts_with("<div") {
    return Err(format!("no embed element at {:?}", &s[..s.len().min(60)]));
  }
  let mut i = 4;
  let mut attrs = BTreeMap::new();
  loop {
    while i < b.len() && (b[i] as char).is_whitespace() {
      i += 1;
    }
    if i >= b.len() {
      return Err("unterminated element".into());
    }
    if b[i] == b'>' {
      i += 1;
      break;
    }
    let st = i;
    while i < b.len() && b[i] != b'=' && b[i] != b'>' {
      i += 1;
    }
    let name = s[st..i].to_string();
    if i >= b.len() || b[i] != b'=' || b.get(i + 1) != Some(&b'"') {
      return Err(format!("malformed attribute {name}"));
    }
    i += 2;
    let st = i;
    while i < b.len() && b[i] != b'"' {
      i += 1;
    }
    if attrs.insert(name.clone(), unescape(s.get(st..i).ok_or("char boundary")?)).is_some() {
      return Err(format!("attribute {name} twice"));
    }
    i += 1;
  }
  if !s[i..].starts_with("</div>") {
    return Err("element not closed".into());
  }
  Ok((attrs, i + 6))
}

fn check_chapter(ch: &Chapter, out: &str, case: &Case) -> Result<(), String> {
  let mut rest = out;
  let mut replaced = false;
  for p in &ch.pieces {
    match p {
      Piece::Text(t) => {
        rest = rest
          .strip_prefix(t.as_str())
          .ok_or_else(|| format!("text {:?} became {:?}", clip(t), clip(rest)))?;
      }
      Piece::Perm(p, o) => {
        replaced = true;
        let h = perm_html(p, o);
        rest = rest.strip_prefix(h.as_str()).ok_or_else(|| format!("permission marker became {:?}", clip(rest)))?;
      }
      Piece::Block(i) => {
        replaced = true;
        let b = &case.blocks[*i];
        let (attrs, n) = parse_embed(rest)?;
        rest = &rest[n..];
        let get = |k: &str| -> Result<Value, String> {
          let s = attrs.get(&format!("data-{k}")).ok_or_else(|| format!("block b{i}: no data-{k}"))?;
          serde_json::from_str(s).map_err(|e| format!("block b{i}: data-{k}: {e}"))
        };
        if attrs.get("class").map(|s| s.as_str()) != Some("aquascope-embed") {
          return Err(format!("block b{i}: class {:?}", attrs.get("class")));
        }
        let want = [
          ("code", json!(b.code())),
          ("annotations", b.annotations()),
          ("operations", json!(b.ops)),
          ("responses", b.expected(&case.pads)),
          (
            "config",
            Value::Object(
              b.config.iter().map(|(k, v)| (k.clone(), json!(v.clone().unwrap_or("true".into())))).collect(),
            ),
          ),
        ];
        for (k, w) in want {
          let g = get(k)?;
          if g != w {
            return Err(format!("block b{i}: data-{k} is {} instead of {}", clip(&g.to_string()), clip(&w.to_string())));
          }
        }
      }
    }
  }
  if replaced {
    if !rest.contains("embed.iife.js") || !rest.contains("style.css") {
      return Err(format!("asset links missing: {:?}", clip(rest)));
    }
  } else if !rest.is_empty() {
    return Err(format!("trailing {:?}", clip(rest)));
  }
  Ok(())
}

pub fn clip(s: &str) -> String {
  if s.chars().count() > 160 {
    let t: String = s.chars().take(160).collect();
    format!("{t}…")
  } else {
    s.to_string()
  }
}

fn strip_content(v: &mut Value, out: &mut Vec<String>) {
  if let Some(items) = v.as_array_mut() {
    for it in items {
      if let Some(c) = it.get_mut("Chapter") {
        if let Some(s) = c.get("content").and_then(|x| x.as_str()) {
          out.push(s.to_string());
        }
        c["content"] = Value::Null;
        strip_content(&mut c["sub_items"], out);
      }
    }
  }
}

/// The emitted book against the input.
fn check_book(stdout: &[u8], build: &Build, case: &Case) -> Result<(), String> {
  let mut got: Value = serde_json::from_slice(stdout)
    .map_err(|e| format!("output is not a book: {e}: {}", clip(&String::from_utf8_lossy(stdout))))?;
  let inp: Value = serde_json::from_slice(&build.stdin(&case.blocks)).unwrap();
  let mut want = inp[1].clone();
  let (mut gc, mut wc) = (vec![], vec![]);
  strip_content(&mut got["sections"], &mut gc);
  strip_content(&mut want["sections"], &mut wc);
  if got != want {
    return Err("the book's structure changed".into());
  }
  let chs = build.all();
  if gc.len() != chs.len() {
    return Err("number of chapters changed".into());
  }
  for (c, g) in chs.iter().zip(gc) {
    check_chapter(c, &g, case).map_err(|e| format!("chapter {}: {e}", c.path))?;
  }
  Ok(())
}

// ---------------------------------------------------------------- generation

const WORDS: [&str; 12] = [
  "Some text.\n\n",
  "# Heading\n\n",
  "A `code` span and *emphasis* — ünïcode 🦀.\n\n",
  "```rust\nfn f() {}\n```\n\n",
  "- item\n- item two\n\n",
  "<div class=\"x\">html &amp; more</div>\n\n",
  "Ends with backticks ``` ` ``` here\n\n",
  "@Permission is no marker, nor is @Perm alone\n\n",
  "{{#include foo.rs}}\n\n",
  "| a | b |\n|---|---|\n\n",
  "\\\\escaped \"quotes\"\n\n",
  "x\n",
];

fn gen_block(r: &mut Rng, n: usize) -> Block {
  let ops = match r.below(6) {
    0 | 1 => vec!["permissions"],
    2 | 3 => vec!["interpreter"],
    4 => vec!["permissions", "interpreter"],
    _ => vec!["interpreter", "permissions"],
  };
  let mut config = vec![];
  for (k, v) in [
    ("shouldFail", None),
    ("showFlows", None),
    ("stepper", None),
    ("boundaries", Some("true")),
    ("horizontal", None),
    ("concreteTypes", Some("1")),
  ] {
    if r.chance(1, 5) {
      config.push((k.to_string(), v.map(String::from)));
    }
  }
  let mut lines = vec![];
  for j in 0..r.below(4) {
    let mut text = match r.below(5) {
      0 => format!("  let x{j} = {};", r.below(100)),
      1 => "  let s = String::from(\"<é&\\\"'>\");".to_string(),
      2 => "  println!(\"{}\", n);".to_string(),
      3 => (*r.pick(&["  // a comment 🦀", "  // needs @Perm{write} and @Perm[lost]{own}", "  // @Perm{other}"])).to_string(),
      _ => format!("  let y = {n};"),
    };
    let ann = if r.chance(1, 2) { 1 + r.below(9) as u8 } else { 0 };
    if ann == 6 {
      text = "#[allow(unused)] // é🦀 `[]`".to_string();
    }
    lines.push(Line { text, ann });
  }
  Block { tag: n, ops: ops.into_iter().map(String::from).collect(), config, lines }
}

fn gen_chapter(r: &mut Rng, path: &str, blocks: &[usize]) -> Chapter {
  let mut pieces = vec![];
  let mut queue: Vec<usize> = blocks.to_vec();
  if r.chance(4, 5) {
    pieces.push(Piece::Text(format!("# {path}\n\n")));
  }
  while !queue.is_empty() || r.chance(1, 3) {
    match r.below(5) {
      0 if pieces.len() < 30 => pieces.push(Piece::Text(r.pick(&WORDS).to_string())),
      1 if pieces.len() < 30 => {
        pieces.push(Piece::Text("see ".into()));
        let o = if r.chance(1, 2) { Some(r.pick(&["gained", "lost", "missing"]).to_string()) } else { None };
        pieces.push(Piece::Perm(r.pick(&["read", "write", "own", "flow"]).to_string(), o));
        pieces.push(Piece::Text(" there\n\n".into()));
      }
      _ => {
        if !queue.is_empty() {
          pieces.push(Piece::Block(queue.remove(0)));
          pieces.push(Piece::Text("\n\n".into()));
        }
      }
    }
  }
  Chapter { path: path.into(), pieces, sub: vec![] }
}

/// A book over these blocks (each appears at least once).
fn gen_book(r: &mut Rng, ids: &[usize]) -> Vec<Chapter> {
  let n = 1 + r.below(3) as usize;
  let mut parts: Vec<Vec<usize>> = vec![vec![]; n];
  for b in ids {
    let c = r.below(n as u64) as usize;
    parts[c].push(*b);
    if r.chance(1, 12) {
      parts[r.below(n as u64) as usize].push(*b);
    }
  }
  let mut chs: Vec<Chapter> = vec![];
  for (i, p) in parts.iter().enumerate() {
    let path = match i {
      0 => "intro.md".to_string(),
      1 => "part/one.md".to_string(),
      i => format!("part/deep/c{i}.md"),
    };
    let c = gen_chapter(r, &path, p);
    if i > 0 && r.chance(1, 3) {
      chs[0].sub.push(c);
    } else {
      chs.push(c);
    }
  }
  chs
}

pub fn gen_sched(r: &mut Rng) -> Sched {
  Sched {
    strategy: r.pick(&["random", "random", "sticky", "pct", "rr"]).to_string(),
    malloc_period: *r.pick(&[0, 0, 50, 500, 3000]),
    stall: *r.pick(&[0, 0, 0, 300]),
    seed: r.next(),
  }
}

fn fail_mode(r: &mut Rng) -> Mode {
  match r.below(12) {
    0 => Mode::ErrObj,
    1 => r.pick(&[Mode::ErrArr, Mode::ErrFirst]).clone(),
    2 => Mode::BuildError,
    3 => Mode::ExitAfter(*r.pick(&[1, 101, 2])),
    4 => Mode::Exit(*r.pick(&[1, 101, 255])),
    5 => Mode::Signal(*r.pick(&[6, 9, 11, 15])),
    6 => r.pick(&[Mode::SignalMid(6), Mode::SignalMid(9), Mode::SignalMid(11), Mode::SignalAfter(9), Mode::SignalAfter(6)]).clone(),
    7 => Mode::Truncated,
    8 => Mode::Garbage,
    9 => Mode::NonUtf8,
    10 => Mode::Empty,
    _ => {
      if r.chance(1, 2) {
        Mode::SpawnFails(*r.pick(&[2, 11, 12]))
      } else {
        Mode::ExitNonUtf8(101)
      }
    }
  }
}

fn gen_behav(r: &mut Rng, fast: bool) -> Behav {
  Behav {
    mode: Mode::Ok,
    delay_ms: if fast { r.below(5) } else { *r.pick(&[0, 1, 20, 300, 2500]) },
    pad: 0,
    stderr: *r.pick(&[0, 0, 10, 3000]),
    chunk: *r.pick(&[0, 0, 0, 1, 17, 4096]),
    gap_us: *r.pick(&[0, 0, 50, 3000]),
  }
}

fn cache_fault(r: &mut Rng) -> Fault {
  let (op, act) = match r.below(10) {
    0 => ("write", Act::Errno(libc::ENOSPC)),
    1 => ("write", Act::Persist(libc::ENOSPC)),
    2 => ("write", Act::CrashAfter(r.below(400) as usize)),
    3 => ("write", Act::Crash),
    4 => ("ftruncate", Act::Crash),
    5 => ("write", Act::Errno(libc::EIO)),
    6 => ("read", Act::Errno(libc::EIO)),
    7 => ("write", Act::Short(1 + r.below(50) as usize)),
    8 => ("open", Act::Errno(*r.pick(&[libc::EIO, libc::EACCES, libc::EMFILE]))),
    _ => ("ftruncate", Act::Errno(libc::EIO)),
  };
  Fault { op: op.into(), path: ".aquascope-cache".into(), proc: -1, nth: r.below(2), act }
}

fn gen_corrupt(r: &mut Rng) -> Corrupt {
  match r.below(9) {
    0 => Corrupt::Truncate(r.below(256) as u32),
    1 | 2 => Corrupt::Flip(r.below(65536) as u32, r.below(8) as u8),
    3 => Corrupt::Zero(r.below(256) as u32),
    4 => Corrupt::Double,
    5 => Corrupt::Random(r.next(), 1 + r.below(300) as usize),
    6 => Corrupt::Gzip(
      r.pick(&["", "null", "[]", "{\"1\":2}", "{\"a\":\"b\"}", "{", "{\"1\":\"x\"", "\"x\"", "{\"1\":\"{}\"}"]).to_string(),
    ),
    7 => Corrupt::Append((0..1 + r.below(20)).map(|_| r.next() as u8).collect()),
    _ => Corrupt::Remove,
  }
}

/// The workload and fault plan of a seed, for the property in question.
pub fn generate(property: &str, seed: u64) -> Case {
  let mut r = Rng::derive(seed, property);
  let nb = 1 + r.below(if r.clone().chance(1, 4) { 7 } else { 4 }) as usize;
  let mut blocks: Vec<Block> = (0..nb).map(|i| gen_block(&mut r, i)).collect();
  // variants: the same program under other options, annotations or operations
  for i in 0..nb {
    if r.chance(1, 4) {
      let mut b = gen_block(&mut r, i);
      let base = &blocks[i];
      match r.below(5) {
        4 => {
          // a small edit
          b.lines = base.lines.clone();
          b.config = base.config.clone();
          b.ops = base.ops.clone();
          let n = r.below(b.lines.len() as u64 + 1) as usize;
          match r.below(6) {
            0 => b.lines.insert(n, Line { text: String::new(), ann: 0 }),
            1 => b.lines.insert(n, Line { text: "  // X".into(), ann: 0 }),
            _ if n == b.lines.len() => b.lines.push(Line { text: "  ;".into(), ann: 0 }),
            _ if b.lines[n].ann == 6 => b.lines[n].text.push('.'),
            2 => b.lines[n].text.insert(0, ' '),
            3 => b.lines[n].text = b.lines[n].text.trim_start().to_string(),
            4 => b.lines[n].text = b.lines[n].text.replace(' ', "  "),
            _ => b.lines[n].text = b.lines[n].text.to_uppercase(),
          }
        }
        0 => b.lines = base.lines.clone(),
        1 => {
          b.lines = base.lines.clone();
          b.ops = base.ops.clone();
        }
        2 => {
          b.lines = base.lines.clone();
          b.config = base.config.clone();
        }
        _ => {
          b.lines = base.lines.clone();
          b.config = base.config.clone();
          b.ops = base.ops.clone();
          for l in &mut b.lines {
            l.ann = if r.chance(1, 2) && l.ann != 6 { *r.pick(&[0, 1, 2, 3, 4, 5, 7, 8, 9]) } else { l.ann };
          }
        }
      }
      blocks.push(b);
    }
  }
  let ids: Vec<usize> = (0..blocks.len()).collect();
  let mut case = Case {
    property: property.into(),
    seed,
    cpus: *r.pick(&[1, 2, 3, 4, 8]),
    sched: gen_sched(&mut r),
    env_sysroot: r.chance(2, 3),
    env_rustc: r.chance(2, 3),
    blocks,
    steps: vec![],
    plan: BTreeMap::new(),
    pads: BTreeMap::new(),
    default_behav: gen_behav(&mut r, true),
    new_plan: vec![],
    tools: BTreeMap::new(),
  };
  // normal variety: delays, sizes, stream shapes
  for i in 0..nb {
    for op in case.blocks[i].ops.clone() {
      if r.chance(1, 3) {
        let fast = r.chance(1, 2);
        let b = gen_behav(&mut r, fast);
        case.plan.insert(format!("b{i}:{op}"), vec![b]);
      }
      if r.chance(1, 8) {
        case.pads.insert(format!("b{i}:{op}"), *r.pick(&[100, 5000, 30_000]));
      }
    }
  }
  let plain = |r: &mut Rng, ids: &[usize]| Build { chapters: gen_book(r, ids), crash_at: None, faults: vec![] };
  let sub = |r: &mut Rng| {
    let v: Vec<usize> = ids.iter().copied().filter(|_| r.chance(2, 3)).collect();
    if v.is_empty() {
      ids.clone()
    } else {
      v
    }
  };
  match property {
    "C01" => {
      for _ in 0..1 + r.below(3) {
        let v = sub(&mut r);
        let n = if r.chance(1, 4) { 2 } else { 1 };
        let b = (0..n).map(|_| plain(&mut r, &v)).collect();
        case.steps.push(Step::Builds(b));
        if r.chance(1, 5) {
          case.steps.push(Step::ClockJump(r.range(-100_000, 100_000)));
        }
      }
    }
    "C08" => {
      let v = sub(&mut r);
      let b = plain(&mut r, &v);
      for _ in 0..2 + r.below(3) {
        match r.below(5) {
          0 => case.steps.push(Step::Builds(vec![b.clone(), b.clone()])),
          1 => {
            // another book's build in between: its results are in the cache, too
            let w = sub(&mut r);
            let c = plain(&mut r, &w);
            case.steps.push(Step::Builds(vec![c]));
            case.steps.push(Step::Builds(vec![b.clone()]));
          }
          2 => {
            case.steps.push(Step::Corrupt(gen_corrupt(&mut r)));
            case.steps.push(Step::Builds(vec![b.clone()]));
          }
          3 => {
            case.steps.push(Step::Corrupt(Corrupt::Remove));
            case.steps.push(Step::ClockJump(r.range(-1_000_000, 1_000_000)));
            case.steps.push(Step::Builds(vec![b.clone()]));
          }
          _ => case.steps.push(Step::Builds(vec![b.clone()])),
        }
      }
    }
    "C02" => {
      let bad = r.below(nb as u64) as usize;
      for i in 0..nb {
        for op in case.blocks[i].ops.clone() {
          if i == bad || r.chance(1, 6) {
            let mut b = case.plan.get(&format!("b{i}:{op}")).map(|v| v[0].clone()).unwrap_or(case.default_behav.clone());
            let good = b.clone();
            b.mode = fail_mode(&mut r);
            let mut v = vec![b.clone()];
            if r.chance(1, 3) {
              // first well, then ill
              v.insert(0, good.clone());
            }
            if r.chance(1, 3) {
              b.mode = fail_mode(&mut r);
              v.push(b);
            }
            v.push(good);
            case.plan.insert(format!("b{i}:{op}"), v);
          }
        }
      }
      if r.chance(1, 10) {
        let m = *r.pick(&["exit", "sig", "spawn"]);
        let mode = match m {
          "exit" => Mode::Exit(101),
          "sig" => Mode::Signal(9),
          _ => Mode::SpawnFails(libc::ENOENT),
        };
        case.new_plan = (0..r.below(4)).map(|_| Behav::default()).collect();
        case.new_plan.push(Behav { mode, ..Behav::default() });
      }
      let v = if r.chance(1, 2) { ids.clone() } else { sub(&mut r) };
      let b = plain(&mut r, &v);
      for _ in 0..2 + r.below(3) {
        case.steps.push(Step::Builds(vec![b.clone()]));
      }
      case.steps.push(Step::Builds(vec![plain(&mut r, &ids)]));
    }
    "C03" => {
      for _ in 0..1 + r.below(3) {
        let v = sub(&mut r);
        match r.below(7) {
          0 | 1 => {
            let mut b = plain(&mut r, &v);
            b.faults.push(cache_fault(&mut r));
            case.steps.push(Step::Builds(vec![b]));
          }
          2 => {
            let mut b = plain(&mut r, &v);
            b.crash_at = Some(1 + r.below(900));
            case.steps.push(Step::Builds(vec![b]));
          }
          3 => {
            case.steps.push(Step::Builds(vec![plain(&mut r, &v)]));
            if r.chance(2, 3) {
              case.steps.push(Step::PowerLoss);
            } else {
              case.steps.push(Step::ClockJump(r.range(-1_000_000, 1_000_000)));
            }
          }
          4 => {
            let w = sub(&mut r);
            let mut b1 = plain(&mut r, &v);
            let b2 = plain(&mut r, &w);
            if r.chance(1, 3) {
              b1.crash_at = Some(1 + r.below(900));
            }
            case.steps.push(Step::Builds(vec![b1, b2]));
          }
          _ => {
            case.steps.push(Step::Builds(vec![plain(&mut r, &v)]));
            case.steps.push(Step::Corrupt(gen_corrupt(&mut r)));
            if r.chance(1, 3) {
              case.steps.push(Step::Corrupt(gen_corrupt(&mut r)));
            }
          }
        }
        if r.chance(1, 5) {
          case.steps.push(Step::PowerLoss);
        }
      }
      let v = sub(&mut r);
      case.steps.push(Step::Builds(vec![plain(&mut r, &v)]));
      case.steps.push(Step::Builds(vec![plain(&mut r, &ids)]));
    }
    "C04" => {
      let v = sub(&mut r);
      case.steps.push(Step::Builds(vec![plain(&mut r, &v)]));
      for _ in 0..1 + r.below(3) {
        match r.below(4) {
          0 => {
            // the same again
            let l = case.steps.iter().rev().find_map(|s| if let Step::Builds(b) = s { Some(b.clone()) } else { None });
            case.steps.push(Step::Builds(l.unwrap()));
          }
          1 => {
            // other layout
            let w = sub(&mut r);
            case.steps.push(Step::Builds(vec![plain(&mut r, &w)]));
          }
          2 => {
            // a build that fails in between
            let i = r.below(nb as u64) as usize;
            let op = case.blocks[i].ops[0].clone();
            let key = format!("b{i}:{op}");
            let good = case.plan.get(&key).map(|v| v.last().unwrap().clone()).unwrap_or(case.default_behav.clone());
            let mut b = good.clone();
            b.mode = fail_mode(&mut r);
            let mut v = vec![good.clone(); r.below(2) as usize];
            v.push(b);
            v.push(good);
            case.plan.insert(key, v);
            case.steps.push(Step::Builds(vec![plain(&mut r, &ids)]));
          }
          _ => {
            let w = sub(&mut r);
            case.steps.push(Step::Builds(vec![plain(&mut r, &w)]));
            if r.chance(1, 2) {
              case.steps.push(Step::ClockJump(r.range(-1_000_000, 1_000_000)));
            }
          }
        }
      }
      let b = plain(&mut r, &ids);
      case.steps.push(Step::Builds(vec![b.clone()]));
      case.steps.push(Step::Builds(vec![b]));
    }
    "C05" => {
      let hang = r.chance(1, 2);
      for i in 0..nb {
        for op in case.blocks[i].ops.clone() {
          let key = format!("b{i}:{op}");
          let mut b = case.plan.get(&key).map(|v| v[0].clone()).unwrap_or(case.default_behav.clone());
          if r.chance(1, 2) {
            case.pads.insert(key.clone(), *r.pick(&[60_000, 65_536, 66_000, 140_000, 300_000]));
          }
          if r.chance(1, 3) {
            b.stderr = *r.pick(&[60_000, 65_536, 70_000, 200_000]);
          }
          if r.chance(1, 4) {
            b.delay_ms = *r.pick(&[4000, 7000, 8500]);
          }
          if hang && r.chance(1, 2) {
            let good = b.clone();
            b.mode = r.pick(&[Mode::Hang, Mode::HangAfter, Mode::HangDeep, Mode::ExitDeep, Mode::Stubborn]).clone();
            case.plan.insert(key, vec![b, good]);
          } else {
            case.plan.insert(key, vec![b]);
          }
        }
      }
      let v = if r.chance(1, 2) { ids.clone() } else { sub(&mut r) };
      let b = plain(&mut r, &v);
      for _ in 0..1 + r.below(2) {
        case.steps.push(Step::Builds(vec![b.clone()]));
      }
    }
    "C06" => {
      for i in 0..nb {
        for op in case.blocks[i].ops.clone() {
          if r.chance(1, 3) {
            let mut b = case.default_behav.clone();
            let good = b.clone();
            b.mode = match r.below(6) {
              0 => Mode::Hang,
              1 => r.pick(&[Mode::HangAfter, Mode::Stubborn]).clone(),
              2 => Mode::HangDeep,
              3 => Mode::ExitDeep,
              _ => fail_mode(&mut r),
            };
            case.plan.insert(format!("b{i}:{op}"), vec![b, good]);
          }
        }
      }
      if r.chance(1, 4) {
        case.new_plan = (0..r.below(3)).map(|_| Behav::default()).collect();
        case.new_plan.push(Behav { mode: Mode::ExitAfter(101), ..Behav::default() });
      }
      for _ in 0..1 + r.below(3) {
        let v = sub(&mut r);
        let mut b = plain(&mut r, &v);
        if r.chance(1, 4) {
          let (op, path) = *r.pick(&[
            ("write", "main.rs"),
            ("open", "main.rs"),
            ("open", "null"),
            ("mkdir", "tmp"),
            ("spawn", "cargo"),
            ("spawn", "cargo"),
            ("pipe", ""),
            ("write", ".aquascope-cache"),
            ("open", ".aquascope-cache"),
          ]);
          let e = match op {
            "write" => *r.pick(&[libc::ENOSPC, libc::EIO]),
            "spawn" => *r.pick(&[libc::EAGAIN, libc::ENOMEM, libc::ENOENT]),
            "pipe" => libc::EMFILE,
            _ => *r.pick(&[libc::EMFILE, libc::EACCES, libc::ENOSPC]),
          };
          b.faults.push(Fault { op: op.into(), path: path.into(), proc: -1, nth: r.below(6), act: Act::Errno(e) });
        }
        case.steps.push(Step::Builds(vec![b]));
      }
    }
    "C07" => {
      case.env_sysroot = r.chance(1, 3);
      case.env_rustc = r.chance(1, 3);
      for t in ["miri", "rustup", "rustc", "which"] {
        if r.chance(1, 3) {
          let mode = match r.below(7) {
            0 => Mode::Exit(1),
            1 => Mode::Signal(9),
            2 => Mode::SpawnFails(libc::ENOENT),
            3 => Mode::ExitAfter(1),
            4 => Mode::ExitNonUtf8(1),
            5 => Mode::NonUtf8,
            _ => Mode::Ok,
          };
          case.tools.insert(
            t.into(),
            Behav { mode, delay_ms: r.below(3000), stderr: *r.pick(&[0, 100, 90_000]), chunk: *r.pick(&[0, 1]), ..Behav::default() },
          );
        }
      }
      let b = plain(&mut r, &ids);
      case.steps.push(Step::Builds(vec![b]));
    }
    _ => panic!("unknown property {property}"),
  }
  case
}

// ---------------------------------------------------------------- running

fn apply_corrupt(vfs: &mut Vfs, c: &Corrupt) -> bool {
  let old = vfs.read(CACHE);
  let data = match (c, old) {
    (Corrupt::Remove, Some(_)) => {
      vfs.remove(CACHE);
      return true;
    }
    (Corrupt::Random(s, n), _) => {
      let mut r = Rng::new(*s);
      (0..*n).map(|_| r.next() as u8).collect()
    }
    (Corrupt::Gzip(s), _) => {
      let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::best());
      e.write_all(s.as_bytes()).unwrap();
      e.finish().unwrap()
    }
    (_, None) => return false,
    (Corrupt::Truncate(n), Some(mut d)) => {
      let l = d.len() * *n as usize / 256;
      d.truncate(l);
      d
    }
    (Corrupt::Flip(p, b), Some(mut d)) => {
      if d.is_empty() {
        return false;
      }
      let i = (d.len() * *p as usize / 65536).min(d.len() - 1);
      d[i] ^= 1 << b;
      d
    }
    (Corrupt::Zero(n), Some(mut d)) => {
      let l = d.len() * *n as usize / 256;
      for x in &mut d[l..] {
        *x = 0;
      }
      d
    }
    (Corrupt::Double, Some(mut d)) => {
      let e = d.clone();
      d.extend(e);
      d
    }
    (Corrupt::Append(v), Some(mut d)) => {
      d.extend(v);
      d
    }
  };
  vfs.put(CACHE, &data);
  true
}

/// Runs one case; every oracle is evaluated, violations carry the property they break.
pub fn run(k: &mut Kernel, case: &Case) -> Outcome {
  let bin = &env_path("SIM_MDBOOK");
  let mut out = Outcome::default();
  let st: Shared = Rc::new(RefCell::new(State {
    plan: case.plan.clone(),
    pads: case.pads.clone(),
    new_plan: case.new_plan.clone(),
    tool_plan: case.tools.clone(),
    default_behav: case.default_behav.clone(),
    ..Default::default()
  }));
  k.world = Some(Box::new(AnalysisWorld(st.clone())));
  k.vfs.mkdir_p("/tmp");
  k.vfs.mkdir_p("/sim/book/src");
  let prop = case.property.clone();
  let mut cached: BTreeSet<String> = BTreeSet::new();
  let mut books: BTreeMap<Vec<u8>, (String, Vec<u8>)> = BTreeMap::new();
  let mut leftover: BTreeSet<String> = BTreeSet::new();
  let mut cache_known = true; // nothing has happened that the effectiveness rules exclude
  let mut env: Vec<(String, String)> = vec![
    ("PATH".into(), "/usr/bin:/bin".into()),
    ("HOME".into(), "/sim/home".into()),
  ];
  if case.env_sysroot {
    env.push(("MIRI_SYSROOT".into(), "/sim/env-sysroot".into()));
  }
  if case.env_rustc {
    env.push(("RUSTC_PATH".into(), "/sim/other/bin/rustc".into()));
  }
  let want_sysroot = if case.env_sysroot { "/sim/env-sysroot" } else { "/sim/miri-sysroot" };
  let want_libdir = if case.env_rustc { "/sim/other/target-libdir" } else { "/sim/toolchain/target-libdir" };

  macro_rules! bad {
    ($p:expr, $c:expr, $($a:tt)*) => {
      out.violations.push(Violation { property: $p.to_string(), class: $c.to_string(), detail: format!($($a)*) })
    };
  }

  for (sn, step) in case.steps.iter().enumerate() {
    match step {
      Step::Corrupt(c) => {
        if apply_corrupt(&mut k.vfs, c) {
          let name = format!("{c:?}");
          k.fire(&format!("cache_{}", name.split(['(', ' ']).next().unwrap().to_lowercase()));
          cache_known = false;
          cached.clear();
        }
      }
      Step::PowerLoss => {
        k.power_loss();
        cache_known = false;
        cached.clear();
      }
      Step::ClockJump(s) => {
        k.real_offset += s * SEC;
        k.fire("clock_jump");
      }
      Step::Builds(builds) => {
        let before_inv = st.borrow().inv.len();
        let fired_before = k.fired.clone();
        let mut faults = vec![];
        for (i, b) in builds.iter().enumerate() {
          for f in &b.faults {
            let mut f = f.clone();
            f.proc = k.launches + i as i32;
            faults.push(f);
          }
        }
        k.set_faults(faults);
        let cache_before = k.vfs.read(CACHE);
        let mut procs = vec![];
        for b in builds {
          let stdin = b.stdin(&case.blocks);
          let pi = k.new_pipe(usize::MAX);
          k.pipes[pi].buf.extend(&stdin);
          k.pipes[pi].readers = 1;
          let sin = k.new_ofd(OKind::PipeR(pi), false, "stdin");
          let mut outs = vec![];
          for n in ["stdout", "stderr"] {
            let po = k.new_pipe(usize::MAX);
            k.pipes[po].writers = 1;
            k.pipes[po].readers = 1;
            let o = k.new_ofd(OKind::PipeW(po), false, n);
            outs.push((o, po));
          }
          let p = k.start_real(bin, &["mdbook-aquascope"], &env, ROOT_DIR, [sin, outs[0].0, outs[1].0]);
          k.procs[p].crash_at = b.crash_at;
          procs.push((p, outs[0].1, outs[1].1));
          out.count("builds", 1);
        }
        let t0 = k.now;
        // the longest a build may take: every analysis in turn hits its limit
        let total_ops: usize =
          builds.iter().map(|b| b.all().iter().map(|c| c.pieces.iter().map(|p| if let Piece::Block(i) = p { case.blocks[*i].ops.len() } else { 0 }).sum::<usize>()).sum::<usize>()).sum();
        let limit = t0 + (60 + 40 * total_ops as i64) * SEC;
        let ps: Vec<usize> = procs.iter().map(|p| p.0).collect();
        let end = k.run(|k| ps.iter().all(|p| k.procs[*p].status.is_some()), 400_000, limit);
        if k.harness_error.is_some() {
          return out;
        }
        let new_faults: Vec<String> = k
          .fired
          .iter()
          .filter(|(n, c)| fired_before.get(*n).copied().unwrap_or(0) < **c && !n.starts_with("child_"))
          .map(|(n, _)| n.clone())
          .filter(|n| n != "eintr" && n != "thread_stall")
          .collect();
        let invs: Vec<Invocation> = st.borrow().inv[before_inv..].to_vec();
        out.count("programs_started", invs.len() as u64);
        let n_aq = invs.iter().filter(|i| i.kind == "aquascope").count();
        out.count("analyses", n_aq as u64);
        if n_aq > 0 {
          out.nontrivial = true;
        }
        if end != End::Done {
          let stuck: Vec<String> = ps
            .iter()
            .filter(|p| k.procs[**p].status.is_none())
            .map(|p| format!("p{p}"))
            .collect();
          let live: Vec<String> = invs
            .iter()
            .filter(|i| i.proc < k.procs.len() && k.procs[i.proc].status.is_none())
            .map(|i| format!("{} {:?}", i.argv.join(" "), i.mode))
            .collect();
          bad!("C05", "no-termination", "step {sn}: build {} did not end within {} simulated seconds ({end:?}); live: {}", stuck.join(","), (k.now - t0) / SEC, live.join("; "));
          return out;
        }
        if k.probes.contains_key("cpu_spin") {
          bad!("C05", "cpu-spin", "step {sn}: the program ran without ever making a call");
          return out;
        }
        let single = builds.len() == 1;
        let crashed = builds.iter().zip(&ps).any(|(_, p)| matches!(k.procs[*p].status, Some(Status::Signal(9))));
        for (bi, (b, (p, po, pe))) in builds.iter().zip(&procs).enumerate() {
          let status = k.procs[*p].status.clone().unwrap();
          let stdout: Vec<u8> = k.pipes[*po].buf.iter().copied().collect();
          let stderr: Vec<u8> = k.pipes[*pe].buf.iter().copied().collect();
          let err = String::from_utf8_lossy(&stderr).into_owned();
          let mine: Vec<&Invocation> = invs.iter().filter(|i| i.parent == *p).collect();
          let aq: Vec<&&Invocation> = mine.iter().filter(|i| i.kind == "aquascope").collect();
          let failed: Vec<&&Invocation> = mine
            .iter()
            .filter(|i| {
              !matches!(i.mode, Mode::Ok | Mode::ExitDeep)
                && !(i.kind != "aquascope" && matches!(i.mode, Mode::HangAfter))
                && !(i.kind == "new" && matches!(i.mode, Mode::Truncated | Mode::NonUtf8 | Mode::Garbage | Mode::Empty | Mode::ErrObj | Mode::ErrArr | Mode::ErrFirst | Mode::BuildError))
            })
            .collect();
          let what = format!("step {sn} build {bi} ({status:?})");
          let died = matches!(status, Status::Signal(9));
          if died {
            continue;
          }
          for i in &mine {
            if let Some(pr) = &i.problem {
              bad!(&prop, "bad-invocation", "{what}: {pr}: {}", i.argv.join(" "));
            }
          }
          // --- toolchain environment (C07)
          for i in &aq {
            let e = |k: &str| i.env.get(k).map(|s| s.as_str()).unwrap_or("");
            if e("SYSROOT") != want_sysroot || e("MIRI_SYSROOT") != want_sysroot || e("LD_LIBRARY_PATH") != want_libdir || e("DYLD_LIBRARY_PATH") != want_libdir {
              bad!("C07", "environment", "{what}: analysis ran with SYSROOT={} MIRI_SYSROOT={} LD_LIBRARY_PATH={} instead of {want_sysroot}, {want_libdir}", e("SYSROOT"), e("MIRI_SYSROOT"), e("LD_LIBRARY_PATH"));
            }
          }
          let tool_failed: Vec<&&&Invocation> = failed.iter().filter(|i| !matches!(i.kind.as_str(), "aquascope" | "new")).collect();
          if !tool_failed.is_empty() {
            if status == Status::Exit(0) {
              bad!("C07", "masked", "{what}: {} failed ({:?}) but the build succeeded", tool_failed[0].argv.join(" "), tool_failed[0].mode);
            } else if !aq.is_empty() {
              bad!("C07", "analysed-anyway", "{what}: {} failed but blocks were analysed", tool_failed[0].argv.join(" "));
            } else if err.trim().is_empty() {
              bad!("C07", "silent", "{what}: no message");
            } else if err.contains("panicked at") {
              bad!("C07", "panic", "{what}: {}", clip(&err));
            }
          }
          match status {
            Status::Exit(0) => {
              out.count("successful_builds", 1);
              // --- C02: nothing masked
              if let Some(f) = failed.iter().find(|f| f.kind == "aquascope") {
                bad!("C02", "masked", "{what}: {} on {} ended with {:?} but the build succeeded", f.argv.join(" "), f.code_id, f.mode);
              }
              if let Some(f) = failed.iter().find(|f| f.kind == "new") {
                bad!("C02", "masked-new", "{what}: cargo new ended with {:?} but the build succeeded", f.mode);
              }
              if let Err(e) = check_book(&stdout, b, case) {
                bad!(&prop, "wrong-book", "{what}: {e}");
              }
              // --- C08: the same book, the same output
              if let Some((other, book)) = books.get(&b.stdin(&case.blocks)) {
                if *book != stdout {
                  let at = book.iter().zip(&stdout).take_while(|(a, b)| a == b).count();
                  let show = |d: &[u8]| clip(&String::from_utf8_lossy(&d[at.saturating_sub(40).min(d.len())..(at + 60).min(d.len())])).into_bytes();
                  bad!("C08", "differs", "{what}: the same input gave {:?}… in {other}, now {:?}…", String::from_utf8_lossy(&show(book)), String::from_utf8_lossy(&show(&stdout)));
                }
              } else {
                books.insert(b.stdin(&case.blocks), (what.clone(), stdout.clone()));
              }
              if prop == "C01" && new_faults.is_empty() {
                for a in ["embed.iife.js", "style.css"] {
                  if k.vfs.get(&format!("{ROOT_DIR}/src/aquascope/{a}")).is_none() {
                    bad!("C01", "assets", "{what}: asset {a} not copied");
                  }
                }
              }
            }
            _ => {
              // --- a failure needs a cause
              if failed.is_empty() && new_faults.is_empty() {
                bad!(&prop, "spurious-failure", "{what}: nothing went wrong but the build failed: {}", clip(&err));
              }
              if err.trim().is_empty() {
                bad!("C02", "silent", "{what}: failed without a message");
              }
              if !stdout.is_empty() && !new_faults.iter().any(|f| f.starts_with("write_")) {
                bad!("C02", "partial-book", "{what}: failed but emitted {} bytes on stdout", stdout.len());
              }
              // an analysis that failed must be named by its message, unless something else failed first
              if new_faults.is_empty() && failed.len() == 1 && failed[0].kind == "aquascope" && match failed[0].mode {
                Mode::Exit(_) => !err.contains("it failed"),
                Mode::ExitNonUtf8(_) => !err.contains("bad"),
                _ => false,
              } {
                bad!("C02", "lost-message", "{what}: the analysis' own message is not reported: {}", clip(&err));
              }
            }
          }
          // --- C04: only what is new is analysed
          if single && cache_known {
            let ids = b.block_ids();
            let keys: BTreeMap<String, usize> = ids.iter().map(|i| (case.blocks[*i].key(), *i)).collect();
            for (key, i) in &keys {
              let blk = &case.blocks[*i];
              let sig = |o: &Block, op: &String| (o.tag, op.clone(), o.code(), o.has("shouldFail"), o.has("showFlows"));
              for op in &blk.ops {
                let mine = sig(blk, op);
                let n = aq.iter().filter(|v| (v.code_id == blk.id()) && v.op == *op && v.code == mine.2 && v.should_fail == mine.3 && v.show_flows == mine.4).count();
                // others that ask for the very same run
                let shared_new = keys.iter().any(|(k2, j)| k2 != key && !cached.contains(k2) && case.blocks[*j].ops.iter().any(|o| sig(&case.blocks[*j], o) == mine));
                let shared_old = cached.iter().any(|k2| k2 != key && case.blocks.iter().any(|o| o.key() == *k2 && o.ops.iter().any(|x| sig(o, x) == mine)));
                if cached.contains(key) && n > 0 && !shared_new && new_faults.is_empty() {
                  bad!("C04", "re-analysed", "{what}: block {i} ({op}) was analysed again ({n} runs) though its result was cached");
                }
                if !cached.contains(key) && n == 0 && status == Status::Exit(0) && !shared_old && !shared_new {
                  bad!("C04", "not-analysed", "{what}: block {i} ({op}) was never analysed and not cached");
                }
              }
            }
            let cache_now = k.vfs.read(CACHE);
            if status == Status::Exit(0) && new_faults.is_empty() {
              if keys.keys().all(|x| cached.contains(x)) && sn > 0 && cache_before.is_some() && cache_now != cache_before {
                bad!("C04", "cache-rewritten", "{what}: nothing new, but the cache file changed");
              }
              cached.extend(keys.into_keys());
            } else if !new_faults.is_empty() {
              cache_known = false;
            }
          }
          // --- C05: prompt analyses are not cut off
          let hung = mine.iter().any(|i| i.mode.hangs());
          if hung && status == Status::Exit(0) {
            bad!("C05", "hang-masked", "{what}: an analysis never ended but the build succeeded");
          }
          for i in mine.iter().filter(|i| i.mode.hangs() && i.proc < k.procs.len() && k.procs[i.proc].status.is_some()) {
            let lived = k.procs[i.proc].ended_at - k.procs[i.proc].started_at;
            if lived > 13 * SEC {
              bad!("C05", "late-cutoff", "{what}: `{}` was stopped only after {} ms", i.argv.join(" "), lived / MS);
            }
          }
          if new_faults.is_empty() {
            if let Some(i) = mine.iter().find(|i| i.mode.hangs() && i.proc < k.procs.len() && k.procs[i.proc].status.is_none()) {
              bad!("C05", "not-stopped", "{what}: `{}` ({:?}) was not stopped", i.argv.join(" "), i.mode);
            }
          }
          // --- C06: nothing is left behind
          let unlinked = new_faults.iter().any(|f| f.contains("unlink") || f.contains("rmdir") || f.contains("crash"));
          if !unlinked {
            let live: Vec<&&Invocation> =
              mine.iter().filter(|i| i.proc < k.procs.len() && !i.done && k.procs[i.proc].status.is_none()).collect();
            if let Some(l) = live.first() {
              bad!("C06", "left-running", "{what}: `{}` ({:?}) still runs after the build ended", l.argv.join(" "), l.mode);
            }
            // what the analysis started and waited for goes with it
            let orphan = st.borrow().descendants.iter().find(|(i, p)| {
              let s = &st.borrow().inv[*i];
              s.parent == procs[bi].0 && s.mode == Mode::HangDeep && k.procs[*p].status.is_none()
            }).copied();
            if let Some((i, _)) = orphan {
              bad!("C06", "orphan-left-running", "{what}: a process started by `{}`, which timed out, still runs after the build ended", st.borrow().inv[i].argv.join(" "));
            }
          }
        }
        if !single || crashed {
          cache_known = false;
        }
        if !crashed && !new_faults.iter().any(|f| f.contains("unlink") || f.contains("rmdir") || f.contains("crash") || f.contains("open") || f.contains("EMFILE") || f.contains("ENOMEM")) {
          let left: Vec<String> = k.vfs.walk("/tmp").into_iter().filter(|f| !leftover.contains(f)).collect();
          if !left.is_empty() {
            bad!("C06", "left-files", "step {sn}: {} entries left in the temporary directory, first {}", left.len(), left[0]);
          }
        } else {
          // a crash may leave its directories; the next build finds them there
          leftover = k.vfs.walk("/tmp").into_iter().collect();
          if crashed && !leftover.is_empty() {
            k.probe("leftover_tmp_after_crash");
          }
        }
        // processes that outlived their parents end here
        for p in 0..k.procs.len() {
          if matches!(k.procs[p].kind, PKind::Actor) && k.procs[p].status.is_none() {
            k.proc_exit(p, Status::Signal(9));
          }
        }
        if out.violations.iter().any(|v| v.class != "orphan-left-running") {
          return out;
        }
      }
    }
  }
  out
}

// ---------------------------------------------------------------- shrinking

/// Simpler cases, the most drastic first.
pub fn shrink(c: &Case) -> Vec<Case> {
  let mut v = vec![];
  let mut push = |f: &dyn Fn(&mut Case)| {
    let mut d = c.clone();
    f(&mut d);
    if d != *c {
      v.push(d);
    }
  };
  for i in 0..c.steps.len() {
    push(&|d| {
      d.steps.remove(i);
    });
  }
  for i in 0..c.steps.len() {
    if let Step::Builds(b) = &c.steps[i] {
      for j in 0..b.len() {
        if b.len() > 1 {
          push(&|d| {
            if let Step::Builds(b) = &mut d.steps[i] {
              b.remove(j);
            }
          });
        }
        push(&|d| {
          if let Step::Builds(b) = &mut d.steps[i] {
            b[j].faults.clear();
            b[j].crash_at = None;
          }
        });
        for ch in 0..b[j].chapters.len() {
          if b[j].chapters.len() > 1 {
            push(&|d| {
              if let Step::Builds(b) = &mut d.steps[i] {
                b[j].chapters.remove(ch);
              }
            });
          }
          push(&|d| {
            if let Step::Builds(b) = &mut d.steps[i] {
              b[j].chapters[ch].sub.clear();
            }
          });
          push(&|d| {
            if let Step::Builds(b) = &mut d.steps[i] {
              b[j].chapters[ch].pieces.retain(|p| matches!(p, Piece::Block(_)));
            }
          });
          for pc in 0..b[j].chapters[ch].pieces.len() {
            push(&|d| {
              if let Step::Builds(b) = &mut d.steps[i] {
                b[j].chapters[ch].pieces.remove(pc);
              }
            });
          }
        }
      }
    }
  }
  for key in c.plan.keys() {
    push(&|d| {
      d.plan.remove(key);
    });
  }
  for key in c.pads.keys() {
    push(&|d| {
      d.pads.remove(key);
    });
  }
  for key in c.tools.keys() {
    push(&|d| {
      d.tools.remove(key);
    });
  }
  push(&|d| d.new_plan.clear());
  push(&|d| d.default_behav = Behav::default());
  for i in 0..c.blocks.len() {
    push(&|d| d.blocks[i].lines.clear());
    push(&|d| d.blocks[i].config.clear());
    push(&|d| {
      d.blocks[i].ops.truncate(1);
    });
  }
  push(&|d| d.sched.stall = 0);
  push(&|d| d.sched.malloc_period = 0);
  push(&|d| d.cpus = 1);
  push(&|d| d.cpus = 2);
  push(&|d| {
    d.env_sysroot = true;
    d.env_rustc = true;
  });
  for key in c.plan.keys() {
    for i in 0..c.plan[key].len() {
      push(&|d| {
        let b = &mut d.plan.get_mut(key).unwrap()[i];
        *b = Behav { mode: b.mode.clone(), ..Behav::default() };
      });
    }
  }
  v
}

pub fn meta(property: &str) -> Meta {
  let (quick, thorough) = match property {
    "C05" => (2500, 200_000),
    _ => (4000, 400_000),
  };
  Meta {
    level: "exploration",
    rule: "seed -> book, block variants, behaviour of every started program, faults, CPU count and schedule; non-trivial: at least one analysis was started; distinct by the hash of the whole execution (every system call with its result, and every scheduling decision)",
    real: &["mdbook-aquascope binary built from /repo (preprocessor, cache, block parser, rayon, wait-timeout, tempfile, flate2, serde_json, mdbook-preprocessor-utils, std)"],
    stub: &[
      "kernel: processes, threads, futexes, pipes, poll, signals, file system, clocks, getrandom (simulated)",
      "cargo new, cargo aquascope, cargo miri, rustup, rustc, which (actors answering with a pure function of the code, or misbehaving as planned)",
      "mdbook itself (the harness writes the preprocessor's stdin and reads its stdout)",
    ],
    assumptions: &[
      "preemption happens at system calls and at allocation points, not between arbitrary instructions; memory is sequentially consistent",
      "the analysis is a pure function of the code and its options",
    ],
    quick,
    thorough,
  }
}
