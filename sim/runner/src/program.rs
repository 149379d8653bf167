//! Rust programs about ownership: they type-check (mostly) and move, borrow and mutate what they like,
//! whether the borrow checker allows it or not.
use crate::{driver::Program, rng::Rng};

#[derive(Clone, Debug, PartialEq)]
enum T {
  S,
  V,
  I,
  Rec,
  Pt,
  Bx,
  Opt,
  Tup,
  Sh,
  Ref(Box<T>, bool),
}
use T::*;

#[derive(Clone)]
struct Var {
  name: String,
  ty: T,
  mutable: bool,
}

pub const HEAD: &str = r#"#[derive(Clone, Copy)]
struct Pt { x: i32, y: i32 }
struct Rec { a: String, b: String, c: Vec<i32>, d: (String, String), p: Pt }
enum Sh { A(String), B { x: String, y: Vec<i32> }, C }
fn eat<T>(_: T) {}
fn look<T: ?Sized>(_: &T) {}
fn poke<T: ?Sized>(_: &mut T) {}
fn longer<'a>(x: &'a String, y: &'a String) -> &'a String { if x.len() > y.len() { x } else { y } }
fn cond() -> bool { true }
impl Rec {
  fn new() -> Rec { Rec { a: String::new(), b: String::new(), c: vec![1, 2], d: (String::new(), String::new()), p: Pt { x: 1, y: 2 } } }
  fn name(&self) -> &String { &self.a }
  fn list(&mut self) -> &mut Vec<i32> { &mut self.c }
  fn into(self) -> String { self.b }
}
"#;

fn name(t: &T) -> String {
  match t {
    S => "String".into(),
    V => "Vec<i32>".into(),
    I => "i32".into(),
    Rec => "Rec".into(),
    Pt => "Pt".into(),
    Bx => "Box<Rec>".into(),
    Opt => "Option<String>".into(),
    Tup => "(String, String)".into(),
    Sh => "Sh".into(),
    Ref(t, m) => format!("&{}{}", if *m { "mut " } else { "" }, name(t)),
  }
}

fn fields(t: &T) -> Vec<(&'static str, T)> {
  match t {
    Rec | Bx => vec![("a", S), ("b", S), ("c", V), ("d", Tup), ("p", Pt)],
    Pt => vec![("x", I), ("y", I)],
    Tup => vec![("0", S), ("1", S)],
    Ref(t, _) => fields(t),
    _ => vec![],
  }
}

struct Gen<'r> {
  r: &'r mut Rng,
  n: usize,
  vars: Vec<Var>,
  out: String,
  depth: usize,
  loops: usize,
  budget: usize,
  /// With characters of more than one byte (which a dependency of the analysis does not always survive)
  odd: bool,
}

impl Gen<'_> {
  fn fresh(&mut self) -> String {
    self.n += 1;
    // a name that is used again now and then
    let c = ["v", "w", "x", if self.odd { "é" } else { "e" }, "name", "r#final"][if self.r.chance(1, 12) { 3 + self.r.below(3) as usize } else { self.r.below(3) as usize }];
    format!("{c}{}", if self.r.chance(1, 12) { 0 } else { self.n })
  }
  fn line(&mut self, s: &str) {
    for _ in 0..=self.depth {
      self.out.push_str("  ");
    }
    self.out.push_str(s);
    if self.r.chance(1, 25) && self.odd {
      self.out.push_str(" // héllo 🦀");
    }
    // several statements on a line, now and then
    self.out.push_str(if self.r.chance(1, 10) { " " } else { "\n" });
    if self.out.ends_with("🦀 ") {
      self.out.push('\n');
    }
  }

  /// A place: its text, its type, whether it is behind a shared reference
  fn places(&self) -> Vec<(String, T)> {
    let mut v = vec![];
    fn sub(at: String, t: &T, depth: usize, v: &mut Vec<(String, T)>) {
      v.push((at.clone(), t.clone()));
      if let Ref(i, _) = t {
        v.push((format!("*{at}"), (**i).clone()));
      }
      if depth < 3 {
        for (f, ft) in fields(t) {
          sub(format!("{at}.{f}"), &ft, depth + 1, v);
        }
      }
    }
    let mut seen = std::collections::BTreeSet::new();
    for x in self.vars.iter().rev() {
      if seen.insert(x.name.clone()) {
        sub(x.name.clone(), &x.ty, 0, &mut v);
      }
    }
    v
  }
  fn place(&mut self, f: impl Fn(&T) -> bool) -> Option<(String, T)> {
    let v: Vec<(String, T)> = self.places().into_iter().filter(|p| f(&p.1)).collect();
    if v.is_empty() {
      None
    } else {
      Some(self.r.pick(&v).clone())
    }
  }
  fn any_ty(&mut self) -> T {
    self.r.pick(&[S, S, V, I, Rec, Rec, Pt, Bx, Opt, Tup, Sh]).clone()
  }

  fn value(&mut self, t: &T) -> String {
    if self.r.chance(1, 3) {
      if let Some((p, _)) = self.place(|x| x == t) {
        return p;
      }
    }
    match t {
      S => match self.r.below(5) {
        0 => format!("String::from(\"{}\")", if self.odd { 'é' } else { 'e' }),
        1 => "format!(\"{}\", 1)".into(),
        2 => match self.place(|x| *x == Rec || *x == Bx) {
          Some((p, Rec)) => format!("{p}.into()"),
          _ => "String::new()".into(),
        },
        _ => "String::new()".into(),
      },
      V => if self.r.chance(1, 4) { "vec![1, 2, 3].into_iter().map(|x| x + 1).collect::<Vec<i32>>()".into() } else { "vec![1, 2, 3]".into() },
      I => match (self.r.below(3), self.place(|x| *x == V)) {
        (0, Some((p, _))) => format!("({p})[0]"),
        _ => "7".into(),
      },
      Rec => {
        if self.r.chance(1, 3) {
          let (a, b) = (self.value(&S), self.value(&V));
          match self.place(|x| *x == Rec) {
            Some((p, _)) => format!("Rec {{ a: {a}, c: {b}, ..{p} }}"),
            None => format!("Rec {{ a: {a}, c: {b}, ..Rec::new() }}"),
          }
        } else {
          "Rec::new()".into()
        }
      }
      Pt => format!("Pt {{ x: {}, y: 2 }}", self.value(&I)),
      Bx => format!("Box::new({})", self.value(&Rec)),
      Opt => if self.r.chance(1, 4) { "None".into() } else { format!("Some({})", self.value(&S)) },
      Tup => format!("({}, {})", self.value(&S), self.value(&S)),
      Sh => match self.r.below(3) {
        0 => format!("Sh::A({})", self.value(&S)),
        1 => format!("Sh::B {{ x: {}, y: {} }}", self.value(&S), self.value(&V)),
        _ => "Sh::C".into(),
      },
      Ref(t, m) => self.borrow(t, *m),
    }
  }

  fn borrow(&mut self, t: &T, m: bool) -> String {
    let k = if m { "&mut " } else { "&" };
    if !m && *t == S && self.r.chance(1, 4) {
      let (a, b) = (self.borrow(&S, false), self.borrow(&S, false));
      return format!("longer({a}, {b})");
    }
    if self.r.chance(1, 5) {
      if let Some((p, _)) = self.place(|x| *x == Rec) {
        if *t == S && !m {
          return format!("{p}.name()");
        }
        if *t == V && m {
          return format!("{p}.list()");
        }
      }
    }
    match self.place(|x| x == t) {
      Some((p, _)) => format!("{k}{p}"),
      None => format!("{k}{}", self.value(t)),
    }
  }

  fn bind(&mut self, t: T) -> String {
    let n = self.fresh();
    let m = self.r.chance(1, 2);
    self.vars.push(Var { name: n.clone(), ty: t, mutable: m });
    format!("{}{n}", if m { "mut " } else { "" })
  }

  fn block(&mut self, head: &str, tail: &str, looped: bool, bound: Vec<Var>) {
    self.line_raw(head);
    let keep = self.vars.len();
    self.vars.extend(bound);
    self.depth += 1;
    self.loops += looped as usize;
    let n = 1 + self.r.below(3);
    for _ in 0..n {
      self.stmt();
    }
    self.loops -= looped as usize;
    self.depth -= 1;
    self.vars.truncate(keep);
    self.line_raw(tail);
  }
  fn line_raw(&mut self, s: &str) {
    if !self.out.ends_with('\n') {
      self.out.push('\n');
    }
    for _ in 0..=self.depth {
      self.out.push_str("  ");
    }
    self.out.push_str(s);
    self.out.push('\n');
  }

  fn use_of(&mut self, p: &str, t: &T) -> String {
    match (t, self.r.below(8)) {
      (S, 0) => format!("{p}.push('c');"),
      (S, 1) => format!("println!(\"{{}}\", {p});"),
      (V, 0) => format!("({p}).push(1);"),
      (V, 1) => format!("println!(\"{{}}\", ({p})[0]);"),
      (V, 2) => format!("for e in ({p}).iter_mut() {{ *e += 1; }}"),
      (V, 3) => format!("({p})[0] = 3;"),
      (I, 0) => format!("println!(\"{{}}\", {p} + 1);"),
      (Ref(i, _), 0) if **i == S => format!("println!(\"{{}}\", {p});"),
      (Ref(i, true), 1) if **i == S => format!("{p}.push('d');"),
      (Ref(i, true), 1) if **i == V => format!("{p}.push(4);"),
      (_, 2 | 3) => format!("eat({p});"),
      (_, 4) => format!("poke(&mut {p});"),
      (_, 5 | 6) => format!("look(&{p});"),
      _ => format!("drop({p});"),
    }
  }

  fn stmt(&mut self) {
    if self.budget == 0 {
      return;
    }
    self.budget -= 1;
    let deep = self.depth < 3;
    match self.r.below(27) {
      0..=3 => {
        let t = self.any_ty();
        let v = self.value(&t);
        let b = self.bind(t.clone());
        let ann = if self.r.chance(1, 4) { format!(": {}", name(&t)) } else { String::new() };
        self.line(&format!("let {b}{ann} = {v};"));
      }
      4..=7 => {
        if let Some((_, t)) = self.place(|t| !matches!(t, Ref(..)) || true) {
          let t = if let Ref(i, _) = &t { (**i).clone() } else { t };
          let m = self.r.chance(1, 2);
          let v = self.borrow(&t, m);
          let b = self.bind(Ref(Box::new(t), m));
          self.line(&format!("let {b} = {v};"));
        }
      }
      8..=11 => {
        if let Some((p, t)) = self.place(|_| true) {
          let s = self.use_of(&p, &t);
          self.line(&s);
        }
      }
      12 | 13 => {
        let refs = self.r.chance(1, 4);
        if let Some((p, t)) = self.place(|t| refs == matches!(t, Ref(..))) {
          let v = self.value(&t);
          if p != v {
            self.line(&format!("{p} = {v};"));
          }
        }
      }
      14 | 15 if deep => {
        let c = if self.r.chance(1, 3) {
          match self.place(|t| *t == V) {
            Some((p, _)) => format!("{p}.len() > 1"),
            None => "cond()".into(),
          }
        } else {
          "cond()".into()
        };
        if self.r.chance(1, 2) {
          self.block(&format!("if {c} {{"), "} else {", false, vec![]);
          self.block("", "}", false, vec![]);
        } else {
          self.block(&format!("if {c} {{"), "}", false, vec![]);
        }
      }
      16 if deep => match self.r.below(4) {
        0 => self.block("while cond() {", "}", true, vec![]),
        1 => self.block("loop {", "  if cond() { break; }\n}", true, vec![]),
        2 => {
          let n = self.fresh();
          self.block(&format!("for {n} in 0..3 {{"), "}", true, vec![Var { name: n, ty: I, mutable: false }]);
        }
        _ => {
          if let Some((p, _)) = self.place(|t| *t == V) {
            let n = self.fresh();
            let (h, t) = match self.r.below(3) {
              0 => (format!("for {n} in {p} {{"), I),
              1 => (format!("for {n} in ({p}).iter() {{"), Ref(Box::new(I), false)),
              _ => (format!("for {n} in ({p}).iter_mut() {{"), Ref(Box::new(I), true)),
            };
            self.block(&h, "}", true, vec![Var { name: n, ty: t, mutable: false }]);
          }
        }
      },
      17 if deep => {
        if let Some((p, t)) = self.place(|t| *t == Opt || *t == Sh) {
          let (how, by) = match self.r.below(4) {
            0 => ("&", Some(false)),
            1 => ("&mut ", Some(true)),
            _ => ("", None),
          };
          let w = |t: T| match by {
            Some(m) => Ref(Box::new(t), m),
            None => t,
          };
          let n = self.fresh();
          let v = |n: &str, t: T| Var { name: n.into(), ty: t, mutable: false };
          if t == Opt {
            if self.r.chance(1, 2) {
              self.block(&format!("if let Some({n}) = {how}{p} {{"), "}", false, vec![v(&n, w(S))]);
            } else {
              self.block(&format!("match {how}{p} {{ Some({n}) => {{"), "}", false, vec![v(&n, w(S))]);
              self.block("None => {", "} }", false, vec![]);
            }
          } else {
            let m = self.fresh();
            self.block(&format!("match {how}{p} {{ Sh::A({n}) => {{"), "}", false, vec![v(&n, w(S))]);
            if self.r.chance(1, 2) {
              self.block(&format!("Sh::B {{ x: {n}, y: {m} }} => {{"), "}", false, vec![v(&n, w(S)), v(&m, w(V))]);
            } else {
              self.block(&format!("Sh::B {{ y: {m}, .. }} => {{"), "}", false, vec![v(&m, w(V))]);
            }
            self.block("_ => {", "} }", false, vec![]);
          }
        }
      }
      18 => {
        if let Some((p, t)) = self.place(|t| *t == Rec || *t == Tup || *t == Pt) {
          let (how, by) = match self.r.below(4) {
            0 => ("&", Some(false)),
            1 => ("&mut ", Some(true)),
            _ => ("", None),
          };
          let w = |t: T| match by {
            Some(m) => Ref(Box::new(t), m),
            None => t,
          };
          let fs = fields(&t);
          if t == Tup {
            let (a, b) = (self.fresh(), self.fresh());
            self.line(&format!("let ({a}, {b}) = {how}{p};"));
            if a != b {
              for n in [a, b] {
                self.vars.push(Var { name: n, ty: w(S), mutable: false });
              }
            }
          } else {
            let mut pat = vec![];
            let mut new = vec![];
            for (f, ft) in fs {
              if self.r.chance(2, 3) {
                let n = format!("{f}_{}", self.n);
                self.n += 1;
                pat.push(format!("{f}: {n}"));
                new.push(Var { name: n, ty: w(ft), mutable: false });
              }
            }
            pat.push("..".into());
            self.line(&format!("let {} {{ {} }} = {how}{p};", name(&t), pat.join(", ")));
            self.vars.extend(new);
          }
        }
      }
      19 => {
        if let Some((p, t)) = self.place(|_| true) {
          let n = self.fresh();
          let mv = if self.r.chance(1, 3) { "move " } else { "" };
          let u = self.use_of(&p, &t);
          self.line(&format!("let mut {n} = {mv}|| {{ {u} }};"));
          for _ in 0..self.r.below(2) {
            self.stmt();
          }
          self.line(&format!("{n}();"));
        }
      }
      24 if deep => match self.r.below(5) {
        0 => {
          if let Some((p, _)) = self.place(|t| *t == V) {
            let n = self.fresh();
            self.block(&format!("while let Some({n}) = ({p}).pop() {{"), "}", true, vec![Var { name: n, ty: I, mutable: false }]);
          }
        }
        1 => {
          if let Some((p, _)) = self.place(|t| *t == Opt) {
            let n = self.fresh();
            let how = *self.r.pick(&["", "&", "&mut "]);
            self.line(&format!("let Some({n}) = {how}{p} else {{ panic!() }};"));
            let ty = match how {
              "" => S,
              h => Ref(Box::new(S), h == "&mut "),
            };
            self.vars.push(Var { name: n, ty, mutable: false });
          }
        }
        2 => {
          if let Some((p, _)) = self.place(|t| *t == Opt) {
            let n = self.fresh();
            let m = self.r.chance(1, 2);
            self.block(&format!("match {p} {{ Some(ref {}{n}) => {{", if m { "mut " } else { "" }), "} _ => {} }", false, vec![Var { name: n, ty: Ref(Box::new(S), m), mutable: false }]);
          }
        }
        3 => {
          let k = self.n;
          self.n += 1;
          self.block(&format!("'l{k}: loop {{"), &format!("  break 'l{k};\n}}"), true, vec![]);
        }
        _ => {
          if let Some((p, t)) = self.place(|t| *t == S || *t == V) {
            let u = self.use_of(&p, &t);
            let n = self.fresh();
            self.line(&format!("let {n} = {{ {u} 1 }};"));
            self.vars.push(Var { name: n, ty: I, mutable: false });
          }
        }
      },
      25 => {
        // several things at once
        if let Some((p, t)) = self.place(|t| !matches!(t, Ref(..))) {
          let (a, b) = (self.value(&t), self.borrow(&t, false));
          let m = self.r.chance(1, 2);
          self.line(&format!("{}", if m { format!("eat((&mut {p}, {a}));") } else { format!("eat(({a}, {b}, &{p}));") }));
        }
      }
      20 if self.loops > 0 => {
        let k = if self.r.chance(1, 2) { "break" } else { "continue" };
        self.line(&format!("if cond() {{ {k}; }}"));
      }
      21 if self.r.chance(1, 3) => self.line("if cond() { return; }"),
      22 if deep => self.block("{", "}", false, vec![]),
      _ => {
        // a choice between borrows
        if let Some((_, t)) = self.place(|t| !matches!(t, Ref(..))) {
          let m = self.r.chance(1, 2);
          let (a, b) = (self.borrow(&t, m), self.borrow(&t, m));
          let n = self.bind(Ref(Box::new(t), m));
          self.line(&format!("let {n} = if cond() {{ {a} }} else {{ {b} }};"));
        }
      }
    }
  }
}

/// What others can get from a function: the types of its arguments, and how it is declared.
#[derive(Clone)]
enum Maker {
  Fn(Vec<T>),
  Iter(Vec<T>),
  Const,
}

const CONSTS: &[&str] = &[
  "let mut n = 1; let r = &mut n; *r += 1; n",
  "let mut n = 1;\n  let r = &mut n;\n  n += 1;\n  *r += 1;\n  n",
  "let n = 1;\n  n = 2;\n  let m = n;\n  m",
  "let t = (1, 2);\n  let r = &t;\n  r.0 = 2;\n  let q = &r.1;\n  *q",
];

/// One function.
fn function(r: &mut Rng, i: usize, calls: &[(usize, Maker)], make: Option<&Maker>, flows: bool) -> String {
  let odd = r.chance(1, 20);
  let mut g = Gen { r, n: 0, vars: vec![], out: String::new(), depth: 0, loops: 0, budget: 0, odd };
  // a short one is more likely to be right, and what comes after an error is not shown
  g.budget = if g.r.chance(2, 5) { 1 + g.r.below(4) as usize } else { 4 + g.r.below(16) as usize };
  if let Some(Maker::Const) = make {
    return format!("const fn f{i}() -> usize {{\n  {}\n}}\n", g.r.pick(CONSTS));
  }
  // a method of Rec, now and then
  let method = make.is_none() && g.r.chance(1, 6);
  g.depth = method as usize;
  let mut params = vec![];
  if method {
    let by = g.r.below(3);
    let me = match by {
      0 => Rec,
      1 => Ref(Box::new(Rec), false),
      _ => Ref(Box::new(Rec), true),
    };
    g.vars.push(Var { name: "self".into(), ty: me, mutable: false });
    params.push(["mut self", "&self", "&mut self"][by as usize].to_string());
  }
  // flows are between named lifetimes
  let named = make.is_none() && g.r.chance(if flows { 2 } else { 1 }, 3);
  let mut lives = 0;
  if let Some(Maker::Fn(ts) | Maker::Iter(ts)) = make {
    for t in ts {
      let b = g.bind(t.clone());
      params.push(format!("{b}: {}", name(t)));
    }
  }
  let many = flows && named && g.r.chance(1, 3);
  for _ in 0..if make.is_some() { 0 } else if many { 3 + g.r.below(4) } else { g.r.below(4) } {
    let t = if many { S } else { g.any_ty() };
    let t = match if many { 0 } else { g.r.below(3) } {
      0 => Ref(Box::new(t), false),
      1 => Ref(Box::new(t), true),
      _ => t,
    };
    let b = g.bind(t.clone());
    let mut ty = name(&t);
    if named && matches!(t, Ref(..)) {
      ty = format!("&'{} {}", if lives > 0 && g.r.chance(1, 3) { 'a' } else { (b'a' + lives) as char }, &ty[1..]);
      lives += 1;
    }
    params.push(format!("{b}: {ty}"));
  }
  let mut generics: Vec<String> = (0..lives)
    .map(|l| {
      let l = (b'a' + l) as char;
      if l > 'a' && g.r.chance(1, 4) {
        format!("'{l}: 'a")
      } else {
        format!("'{l}")
      }
    })
    .collect();
  // what a type parameter allows differs from function to function
  let mut generic = vec![];
  if make.is_none() && g.r.chance(if lives == 0 { 3 } else { 2 }, 4) {
    for t in ["T", "U"] {
      if t == "T" || g.r.chance(1, 3) {
        generics.push(format!("{t}{}", g.r.pick(&["", ": Copy", ": Clone", ": Copy + PartialEq"])));
        let n = format!("g{}", t.to_lowercase());
        params.push(format!("{}{n}: {t}", if g.r.chance(1, 2) { "mut " } else { "" }));
        generic.push(n);
      }
    }
  }
  let mut seen = std::collections::BTreeSet::new();
  // what outlives the call
  let sink = lives > 0 && g.r.chance(1, 2);
  if sink {
    params.push("sink: &mut Vec<(&'a String, &'a String)>".into());
  }
  params.retain(|p| seen.insert(p.split(':').next().unwrap().trim_start_matches("mut ").to_string()));
  if !g.vars.iter().any(|v| v.ty == Rec) {
    let b = g.bind(Rec);
    g.line(&format!("let {b} = Rec::new();"));
  }
  // in any order
  let first = g.r.chance(1, 3);
  while g.budget > 0 {
    if !calls.is_empty() && g.r.chance(1, 6) {
      let (j, m) = g.r.pick(calls).clone();
      let k = g.n;
      g.n += 1;
      let s = match m {
        Maker::Const => format!("let k{k} = [0u8; f{j}()];"),
        Maker::Fn(ts) | Maker::Iter(ts) => {
          let args: Vec<String> = ts.iter().map(|t| g.value(t)).collect();
          let args = args.join(", ");
          match g.r.below(3) {
            0 => format!("let k{k} = f{j}({args});"),
            1 => format!("eat(f{j}({args}));"),
            _ => format!("let mut k{k} = f{j}({args}); look(&k{k});"),
          }
        }
      };
      g.line(&s);
    }
    if sink && g.r.chance(1, 5) {
      let (x, y) = (g.borrow(&S, false), g.borrow(&S, false));
      g.line(&format!("sink.push(({x}, {y}));"));
    }
    if !generic.is_empty() && (first || g.r.chance(1, 3)) {
      let p = g.r.pick(&generic).clone();
      let s = match g.r.below(5) {
        0 => format!("let h{} = &{p};", g.n),
        1 => format!("let h{} = {p};", g.n),
        2 => format!("look(&{p});"),
        3 => format!("let h{} = || {{ look(&{p}); }};", g.n),
        _ => format!("eat({p});"),
      };
      g.n += 1;
      g.line(&s);
    }
    g.stmt();
  }
  // something that does not compile
  if g.r.chance(1, 15) {
    let s = *g.r.pick(&["let z: i32 = String::new();", "nothing();", "let q = 1; q.none();", "let z: &str = 5;"]);
    g.line(s);
  }
  if g.r.chance(1, 12) {
    g.line_raw("fn inner(s: &mut String) -> usize { let t = &*s; let n = t.len(); s.push('i'); n }");
  }
  let mut ret = String::new();
  match make {
    Some(Maker::Fn(_)) => {
      ret = " -> impl Fn(usize) -> usize".into();
      let v = g.value(&S);
      g.line_raw(&format!("let kept = {v};"));
      g.line_raw("move |n| kept.len() + n");
    }
    Some(Maker::Iter(_)) => {
      ret = " -> impl Iterator<Item = i32>".into();
      let v = g.value(&V);
      g.line_raw(&format!("({v}).into_iter().map(|x| x + 1)"));
    }
    _ => {}
  }
  if lives > 0 && g.r.chance(2, 3) {
    let of = 1 + g.r.below(3);
    let ts: Vec<String> = (0..of).map(|_| format!("&'{} String", (b'a' + g.r.below(lives as u64) as u8) as char)).collect();
    let vs: Vec<String> = (0..of).map(|_| g.borrow(&S, false)).collect();
    ret = format!(" -> {}", if of == 1 { ts[0].clone() } else { format!("({})", ts.join(", ")) });
    let v = if of == 1 { vs[0].clone() } else { format!("({})", vs.join(", ")) };
    if g.r.chance(1, 3) {
      g.line_raw(&format!("let kept = {v};"));
      g.line_raw("kept");
    } else {
      g.line_raw(&v);
    }
  }
  if !g.out.ends_with('\n') {
    g.out.push('\n');
  }
  let body = g.out;
  let generics = if generics.is_empty() { String::new() } else { format!("<{}>", generics.join(", ")) };
  if method {
    format!("impl Rec {{\n  fn f{i}{generics}({}){ret} {{\n{body}  }}\n}}\n", params.join(", "))
  } else {
    format!("fn f{i}{generics}({}){ret} {{\n{body}}}\n", params.join(", "))
  }
}

pub fn program(r: &mut Rng, n: usize) -> Program {
  let flows = r.chance(1, 2);
  let makers: Vec<Option<Maker>> = (0..n)
    .map(|_| {
      let mut ts = || (0..r.below(3)).map(|_| r.pick(&[S, V, I, Rec]).clone()).collect::<Vec<_>>();
      let ts = ts();
      match r.below(12) {
        0 => Some(Maker::Fn(ts)),
        1 => Some(Maker::Iter(ts)),
        2 => Some(Maker::Const),
        _ => None,
      }
    })
    .collect();
  let calls: Vec<(usize, Maker)> = makers.iter().enumerate().filter_map(|(i, m)| Some((i, m.clone()?))).collect();
  let fns = (0..n)
    .map(|i| {
      // nothing that makes itself
      let others: Vec<_> = calls.iter().filter(|c| makers[i].is_none() && c.0 != i).cloned().collect();
      function(r, i, &others, makers[i].as_ref(), flows)
    })
    .collect();
  Program { head: HEAD.into(), fns, flows, mode: r.pick(&[None, Some("All".to_string()), Some("Changes".to_string())]).clone(), flaw: None }
}
