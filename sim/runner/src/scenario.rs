//! What a seed stands for: a workload, a fault plan and a schedule, for one of the programs.
use crate::{
  driver,
  kernel::{Kernel, Sched},
  mdbook, serve,

};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
  pub property: String,
  pub class: String,
  pub detail: String,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Case {
  Book(mdbook::Case),
  Serve(serve::Case),
  Driver(driver::Case),
}

/// What a run reports.
#[derive(Default, Clone, Debug, Serialize, Deserialize)]
pub struct Outcome {
  pub violations: Vec<Violation>,
  /// Measures of what was exercised; summed into the evidence.
  pub counts: BTreeMap<String, u64>,
  /// Exercised what the property is about.
  pub nontrivial: bool,
}

impl Outcome {
  pub fn count(&mut self, k: &str, n: u64) {
    *self.counts.entry(k.into()).or_insert(0) += n;
  }
}

pub struct Meta {
  pub level: &'static str,
  pub rule: &'static str,
  pub real: &'static [&'static str],
  pub stub: &'static [&'static str],
  pub assumptions: &'static [&'static str],
  pub quick: u64,
  pub thorough: u64,
}

pub fn meta(property: &str) -> Meta {
  match property.as_bytes()[0] {
    b'C' => mdbook::meta(property),
    b'S' => serve::meta(property),
    b'D' => driver::meta(property),
    _ => panic!("unknown property {property}"),
  }
}

impl Case {
  pub fn generate(property: &str, seed: u64) -> Case {
    match property.as_bytes()[0] {
      b'C' => Case::Book(mdbook::generate(property, seed)),
      b'S' => Case::Serve(serve::generate(property, seed)),
      b'D' => Case::Driver(driver::generate(property, seed)),
      _ => panic!("unknown property {property}"),
    }
  }
  pub fn seed(&self) -> u64 {
    match self {
      Case::Book(c) => c.seed,
      Case::Serve(c) => c.seed,
      Case::Driver(c) => c.seed,
    }
  }
  pub fn sched(&self) -> &Sched {
    match self {
      Case::Book(c) => &c.sched,
      Case::Serve(c) => &c.sched,
      Case::Driver(c) => &c.sched,
    }
  }
  pub fn sched_mut(&mut self) -> &mut Sched {
    match self {
      Case::Book(c) => &mut c.sched,
      Case::Serve(c) => &mut c.sched,
      Case::Driver(c) => &mut c.sched,
    }
  }
  pub fn cpus(&self) -> usize {
    match self {
      Case::Book(c) => c.cpus,
      Case::Serve(c) => c.cpus,
      Case::Driver(c) => c.cpus,
    }
  }
  pub fn run(&self, k: &mut Kernel) -> Outcome {
    match self {
      Case::Book(c) => mdbook::run(k, c),
      Case::Serve(c) => serve::run(k, c),
      Case::Driver(c) => driver::run(k, c),
    }
  }
  pub fn shrink(&self) -> Vec<Case> {
    match self {
      Case::Book(c) => mdbook::shrink(c).into_iter().map(Case::Book).collect(),
      Case::Serve(c) => serve::shrink(c).into_iter().map(Case::Serve).collect(),
      Case::Driver(c) => driver::shrink(c).into_iter().map(Case::Driver).collect(),
    }
  }
}

pub fn env_path(var: &str) -> String {
  std::env::var(var).unwrap_or_else(|_| panic!("{var} is not set"))
}
