//! The simulated file system: one tree, with the last synced content of each file kept
//! beside its current content so that a power loss can take unsynced data away.
use std::collections::BTreeMap;

pub type Ino = usize;

#[derive(Clone, Debug)]
pub enum Kind {
  File { data: Vec<u8>, durable: Vec<u8>, dirty: bool },
  Dir { ents: BTreeMap<Vec<u8>, Ino>, parent: Ino },
  Link { target: Vec<u8> },
}

#[derive(Clone, Debug)]
pub struct Inode {
  pub kind: Kind,
  pub mode: u32,
  pub nlink: u32,
  pub mtime: i64,
}

#[derive(Clone)]
pub struct Vfs {
  pub inodes: Vec<Inode>,
  pub now: i64,
}

pub const ROOT: Ino = 0;

impl Vfs {
  pub fn new() -> Vfs {
    Vfs {
      inodes: vec![Inode {
        kind: Kind::Dir { ents: BTreeMap::new(), parent: ROOT },
        mode: 0o755,
        nlink: 2,
        mtime: 0,
      }],
      now: 0,
    }
  }

  pub fn is_dir(&self, i: Ino) -> bool {
    matches!(self.inodes[i].kind, Kind::Dir { .. })
  }

  /// Resolves a path to (parent directory, last name, inode if it exists).
  pub fn lookup(&self, cwd: Ino, path: &[u8], follow: bool) -> Result<(Ino, Vec<u8>, Option<Ino>), i32> {
    self.lookup_n(cwd, path, follow, 0)
  }

  fn lookup_n(&self, cwd: Ino, path: &[u8], follow: bool, depth: u32) -> Result<(Ino, Vec<u8>, Option<Ino>), i32> {
    if depth > 20 {
      return Err(libc::ELOOP);
    }
    if path.is_empty() {
      return Err(libc::ENOENT);
    }
    let mut cur = if path[0] == b'/' { ROOT } else { cwd };
    let comps: Vec<&[u8]> = path.split(|b| *b == b'/').filter(|c| !c.is_empty() && *c != b".").collect();
    if comps.is_empty() {
      return Ok((cur, b".".to_vec(), Some(cur)));
    }
    for (n, c) in comps.iter().enumerate() {
      let last = n + 1 == comps.len();
      if c.len() > 255 {
        return Err(libc::ENAMETOOLONG);
      }
      let (ents, parent) = match &self.inodes[cur].kind {
        Kind::Dir { ents, parent } => (ents, *parent),
        _ => return Err(libc::ENOTDIR),
      };
      if *c == b".." {
        cur = parent;
        if last {
          return Ok((parent, b"..".to_vec(), Some(cur)));
        }
        continue;
      }
      match ents.get(*c) {
        None => {
          return if last { Ok((cur, c.to_vec(), None)) } else { Err(libc::ENOENT) };
        }
        Some(&i) => {
          if let Kind::Link { target } = &self.inodes[i].kind {
            if !last || follow {
              let mut p = target.clone();
              for rest in &comps[n + 1..] {
                p.push(b'/');
                p.extend_from_slice(rest);
              }
              return self.lookup_n(cur, &p, follow, depth + 1);
            }
          }
          if last {
            return Ok((cur, c.to_vec(), Some(i)));
          }
          cur = i;
        }
      }
    }
    unreachable!()
  }

  pub fn get(&self, path: &str) -> Option<Ino> {
    self.lookup(ROOT, path.as_bytes(), true).ok().and_then(|r| r.2)
  }

  pub fn ents_mut(&mut self, dir: Ino) -> &mut BTreeMap<Vec<u8>, Ino> {
    match &mut self.inodes[dir].kind {
      Kind::Dir { ents, .. } => ents,
      _ => panic!("not a directory"),
    }
  }
  pub fn ents(&self, dir: Ino) -> &BTreeMap<Vec<u8>, Ino> {
    match &self.inodes[dir].kind {
      Kind::Dir { ents, .. } => ents,
      _ => panic!("not a directory"),
    }
  }

  pub fn create(&mut self, dir: Ino, name: &[u8], kind: Kind, mode: u32) -> Ino {
    let i = self.inodes.len();
    let nlink = if matches!(kind, Kind::Dir { .. }) { 2 } else { 1 };
    let mtime = self.now;
    self.inodes.push(Inode { kind, mode, nlink, mtime });
    self.ents_mut(dir).insert(name.to_vec(), i);
    i
  }

  pub fn new_file(&mut self, dir: Ino, name: &[u8], mode: u32) -> Ino {
    self.create(dir, name, Kind::File { data: vec![], durable: vec![], dirty: false }, mode)
  }
  pub fn new_dir(&mut self, dir: Ino, name: &[u8], mode: u32) -> Ino {
    self.create(dir, name, Kind::Dir { ents: BTreeMap::new(), parent: dir }, mode)
  }

  pub fn mkdir_p(&mut self, path: &str) -> Ino {
    let mut cur = ROOT;
    for c in path.split('/').filter(|c| !c.is_empty()) {
      cur = match self.ents(cur).get(c.as_bytes()) {
        Some(&i) => i,
        None => self.new_dir(cur, c.as_bytes(), 0o755),
      };
    }
    cur
  }

  /// Writes a file from outside the programs under test: durable at once.
  pub fn put(&mut self, path: &str, content: &[u8]) {
    let (dir, name) = path.rsplit_once('/').unwrap();
    let d = self.mkdir_p(dir);
    let i = match self.ents(d).get(name.as_bytes()) {
      Some(&i) => i,
      None => self.new_file(d, name.as_bytes(), 0o644),
    };
    self.inodes[i].kind = Kind::File { data: content.to_vec(), durable: content.to_vec(), dirty: false };
  }

  pub fn read(&self, path: &str) -> Option<Vec<u8>> {
    match &self.inodes[self.get(path)?].kind {
      Kind::File { data, .. } => Some(data.clone()),
      _ => None,
    }
  }

  pub fn remove(&mut self, path: &str) {
    if let Ok((d, n, Some(_))) = self.lookup(ROOT, path.as_bytes(), false) {
      self.ents_mut(d).remove(&n);
    }
  }

  pub fn data(&self, i: Ino) -> &Vec<u8> {
    match &self.inodes[i].kind {
      Kind::File { data, .. } => data,
      _ => panic!("not a file"),
    }
  }
  pub fn data_mut(&mut self, i: Ino) -> &mut Vec<u8> {
    let now = self.now;
    self.inodes[i].mtime = now;
    match &mut self.inodes[i].kind {
      Kind::File { data, dirty, .. } => {
        *dirty = true;
        data
      }
      _ => panic!("not a file"),
    }
  }
  pub fn sync(&mut self, i: Ino) {
    if let Kind::File { data, durable, dirty } = &mut self.inodes[i].kind {
      if *dirty {
        *durable = data.clone();
        *dirty = false;
      }
    }
  }

  /// Every path below `dir`, directories with a trailing slash.
  pub fn walk(&self, path: &str) -> Vec<String> {
    let mut out = vec![];
    if let Some(i) = self.get(path) {
      self.walk_n(i, path.trim_end_matches('/').to_string(), &mut out);
    }
    out
  }
  fn walk_n(&self, i: Ino, p: String, out: &mut Vec<String>) {
    if let Kind::Dir { ents, .. } = &self.inodes[i].kind {
      for (n, c) in ents {
        let q = format!("{p}/{}", String::from_utf8_lossy(n));
        if self.is_dir(*c) {
          out.push(format!("{q}/"));
          self.walk_n(*c, q, out);
        } else {
          out.push(q);
        }
      }
    }
  }

  pub fn dirty_files(&self) -> Vec<Ino> {
    (0..self.inodes.len())
      .filter(|i| matches!(&self.inodes[*i].kind, Kind::File { dirty: true, .. }))
      .collect()
  }
}
