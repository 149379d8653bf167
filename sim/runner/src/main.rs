#![allow(dead_code, non_upper_case_globals)]
//! Seeded search over schedules and faults: deterministic simulation of the real programs.
mod driver;
mod kernel;
mod mdbook;
mod program;
mod rng;
mod scenario;
mod search;
mod serve;
mod shm;
mod vfs;
mod world;

fn main() {
  let a: Vec<String> = std::env::args().skip(1).collect();
  let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
  let code = match a.as_slice() {
    ["check", prop] => search::check(prop),
    ["worker", prop, rest @ ..] => search::worker(prop, rest),
    ["replay", file] => search::replay(file),
    ["run", prop, lo, hi] => search::show(prop, lo.parse().unwrap(), hi.parse().unwrap()),
    ["determinism", prop, lo, hi] => search::hashes(prop, lo.parse().unwrap(), hi.parse().unwrap()),
    _ => {
      eprintln!("usage: simrunner check PROPERTY | replay FILE | run PROPERTY LO HI | determinism PROPERTY LO HI");
      2
    }
  };
  std::process::exit(code);
}
