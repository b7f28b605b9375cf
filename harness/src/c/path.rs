//! paths. Paths as written are arrays of bytes (Unix). Handles `h` hold clean paths, `s` stores. Ids
//! are opaque: the n-th different id seen of a store is called n. The real file system is used in a
//! scratch directory only, which the scenario's paths are relative to.

use crate::guard;
use crate::json::{J, a, cps, fatal, i, o, opt, s};
use paths::{CleanPathBuf, FileSystem as _, MemoryFileSystem, PathId, PathMap, RealFileSystem, Store};
use std::collections::{BTreeSet, HashMap, HashSet};
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt as _;
use std::path::{Component, Path, PathBuf};
use std::sync::OnceLock;

pub static SCRATCH: OnceLock<PathBuf> = OnceLock::new();

fn bytes(j: &J) -> Vec<u8> {
  j.arr().iter().map(|b| u8::try_from(b.int()).unwrap_or_else(|_| fatal("byte"))).collect()
}
fn path(b: &[u8]) -> &Path {
  Path::new(OsStr::from_bytes(b))
}
fn raw(p: &Path) -> J {
  bs(p.as_os_str().as_bytes())
}
fn bs(b: &[u8]) -> J {
  a(b.iter().map(|&b| i(b)))
}
/// The contents an operation puts somewhere: as they are, or something many times.
fn contents(op: &J) -> Vec<u8> {
  op.get("rep").map_or_else(|| bytes(op.at("bytes")), |x| bytes(x).repeat(op.at("times").us()))
}
const CRC: [u32; 256] = {
  let mut ret = [0; 256];
  let mut n = 0;
  while n < 256 {
    let mut crc = n as u32;
    let mut k = 0;
    while k < 8 {
      crc = if crc & 1 == 1 { crc >> 1 ^ 0xedb8_8320 } else { crc >> 1 };
      k += 1;
    }
    ret[n] = crc;
    n += 1;
  }
  ret
};
/// Contents as they are, or big ones by a checksum.
fn show(b: &[u8]) -> J {
  if b.len() <= 4096 {
    return bs(b);
  }
  let mut crc = u32::MAX;
  for &x in b {
    crc = crc >> 8 ^ CRC[(crc as u8 ^ x) as usize];
  }
  crc = !crc;
  a([i(-1), i(b.len()), i(crc >> 16), i(crc & 0xffff)])
}
fn show_text(x: &str) -> J {
  if x.len() <= 4096 { cps(x) } else { show(x.as_bytes()) }
}
fn io<T>(r: std::io::Result<T>, f: impl FnOnce(T) -> J) -> J {
  match r {
    Ok(x) => o([("r", f(x))]),
    Err(e) => {
      o([("err", s(if e.kind() == std::io::ErrorKind::NotFound { "NotFound" } else { "other" }))])
    }
  }
}

#[derive(Default)]
struct Known {
  store: Store,
  ids: Vec<PathId>,
  by_id: PathMap<usize>,
}

/// The name of an id. Ids are told apart as a user would: by comparing, or as keys of a map.
fn name(ids: &mut Vec<PathId>, by_id: &mut PathMap<usize>, id: PathId) -> usize {
  let n = if ids.len() % 2 == 0 { ids.iter().position(|x| *x == id) } else { by_id.get(&id).copied() };
  n.unwrap_or_else(|| {
    ids.push(id);
    by_id.insert(id, ids.len() - 1);
    ids.len() - 1
  }) + 1
}

/// The same for many.
fn name_of(ids: &mut Vec<PathId>, by_id: &mut PathMap<usize>, id: PathId) -> usize {
  1 + *by_id.entry(id).or_insert_with(|| {
    ids.push(id);
    ids.len() - 1
  })
}

fn numbered(n: i64) -> CleanPathBuf {
  let mut p = MemoryFileSystem::root();
  p.push(format!("d{}", n % 11));
  p.push(format!("{n}"));
  p
}
fn number(p: &Path) -> i64 {
  p.file_name().and_then(OsStr::to_str).and_then(|x| x.parse().ok()).unwrap_or(-1)
}

struct Root(PathBuf);
impl Root {
  fn new() -> Root {
    let base = SCRATCH.get().unwrap_or_else(|| fatal("no scratch"));
    let p = base.join(format!("scratch-{}", std::process::id()));
    std::fs::create_dir(&p).unwrap_or_else(|e| fatal(&format!("scratch: {e}")));
    Root(p.canonicalize().unwrap_or_else(|_| fatal("scratch")))
  }
  /// no use of `join`: what follows counts as written
  fn at(&self, rel: &[u8]) -> PathBuf {
    let mut b = self.0.as_os_str().as_bytes().to_vec();
    b.push(b'/');
    b.extend(rel);
    path(&b).to_owned()
  }
  fn rel(&self, p: &Path) -> J {
    match p.strip_prefix(&self.0) {
      Ok(r) => {
        let mut b = Vec::new();
        for c in r.components() {
          if c != Component::CurDir {
            b.push(b'/');
            b.extend(c.as_os_str().as_bytes());
          }
        }
        if b.is_empty() {
          b.push(b'/');
        }
        bs(&b)
      }
      Err(_) => raw(p),
    }
  }
}
impl Drop for Root {
  fn drop(&mut self) {
    let _ = std::fs::remove_dir_all(&self.0);
  }
}

/// Neither a file nor a directory.
fn special(kind: &str, at: &Path) {
  unsafe extern "C" {
    fn mkfifo(path: *const std::ffi::c_char, mode: u32) -> std::ffi::c_int;
  }
  let bad = |e: std::io::Error| fatal(&format!("scratch: {e}"));
  match kind {
    "fifo" => {
      let p = std::ffi::CString::new(at.as_os_str().as_bytes()).unwrap_or_else(|_| fatal("nul"));
      // SAFETY: the path ends in a nul
      if unsafe { mkfifo(p.as_ptr(), 0o600) } != 0 {
        bad(std::io::Error::last_os_error());
      }
    }
    "socket" => {
      // paths of sockets must be short
      let (dir, name) = (at.parent().unwrap_or(at), at.file_name().unwrap_or(at.as_os_str()));
      std::env::set_current_dir(dir).unwrap_or_else(bad);
      let r = std::os::unix::net::UnixListener::bind(name);
      std::env::set_current_dir("/").unwrap_or_else(bad);
      r.map(drop).unwrap_or_else(bad);
    }
    "device" => std::os::unix::fs::symlink("/dev/null", at).unwrap_or_else(bad),
    x => fatal(x),
  }
}

/// How paths compare, in each of their forms, and what sets made of every other one of them have.
fn order(ps: &[CleanPathBuf]) -> J {
  use std::borrow::Borrow as _;
  use std::hash::BuildHasher as _;
  let h = fast_hash::FxBuildHasher;
  let std_h = std::hash::RandomState::new();
  let n = ps.len();
  let grid = |f: &dyn Fn(usize, usize) -> J| a((0..n).map(|x| a((0..n).map(|y| f(x, y)))));
  let cmp = |x: usize, y: usize| {
    let (c, d) = (ps[x].as_clean_path(), ps[y].as_clean_path());
    let r = ps[x].cmp(&ps[y]);
    let agree = c.cmp(d) == r
      && c.partial_cmp(d) == Some(r)
      && ps[x].partial_cmp(&ps[y]) == Some(r)
      && ps[x].clone().max(ps[y].clone()) == (if r.is_gt() { ps[x].clone() } else { ps[y].clone() });
    if agree { i(r as i8) } else { i(9) }
  };
  let eq = |x: usize, y: usize| {
    let (c, d) = (ps[x].as_clean_path(), ps[y].as_clean_path());
    let r = ps[x] == ps[y];
    let hash = !r || h.hash_one(&ps[x]) == h.hash_one(&ps[y]) && std_h.hash_one(c) == std_h.hash_one(d);
    // hashing as what it can be looked up by
    let c2: &paths::CleanPath = ps[x].borrow();
    let p2: &Path = ps[x].borrow();
    let same = h.hash_one(&ps[x]) == h.hash_one(c2) && std_h.hash_one(&ps[x]) == std_h.hash_one(p2);
    if (c == d) == r && hash && same && c.to_owned() == ps[x] { i(u8::from(r)) } else { i(9) }
  };
  let mut hash_set = HashSet::with_hasher(fast_hash::FxBuildHasher);
  hash_set.extend(ps.iter().step_by(2).cloned());
  let tree: BTreeSet<CleanPathBuf> = ps.iter().step_by(2).cloned().collect();
  let has = |p: &CleanPathBuf| {
    let xs = [
      hash_set.contains(p),
      hash_set.contains(p.as_clean_path()),
      hash_set.contains(p.as_path()),
      tree.contains(p),
      tree.contains(p.as_clean_path()),
      tree.contains(p.as_path()),
    ];
    if xs.iter().all(|x| *x == xs[0]) { i(u8::from(xs[0])) } else { i(9) }
  };
  o([(
    "r",
    o([
      ("cmp", grid(&cmp)),
      ("eq", grid(&eq)),
      ("has", a(ps.iter().map(has))),
      ("sorted", a(tree.iter().map(|p| raw(p.as_path())))),
    ]),
  )])
}

pub fn run(sc: &J, obs: &mut Vec<J>) {
  let mut hs = HashMap::<i64, CleanPathBuf>::new();
  let mut stores = HashMap::<i64, Known>::new();
  let mut mem = MemoryFileSystem::default();
  let mut root = None::<Root>;
  for op in sc.at("ops").arr() {
    let to = |hs: &mut HashMap<i64, CleanPathBuf>, p: Option<CleanPathBuf>| {
      let r = o([("r", opt(p.as_ref().map(|p| raw(p.as_path()))))]);
      if let Some(p) = p {
        hs.insert(op.get("to").unwrap_or_else(|| op.at("h")).int(), p);
      }
      r
    };
    let mut h = None;
    if let Some(n) = op.get("h") {
      match hs.get(&n.int()) {
        Some(p) => h = Some(p.clone()),
        None => {
          obs.push(crate::nohandle());
          return;
        }
      }
    }
    let h = || h.clone().unwrap_or_else(|| fatal("no h"));
    let r = || bytes(op.at("raw"));
    let alt = op.get("alt").is_some_and(J::bool);
    if obs.len() % 2 == 1 {
      // made of the same entries
      mem = MemoryFileSystem::new(std::mem::take(&mut mem.inner));
    }
    let ob = match op.at("o").str() {
      "new" => guard(|| {
        let r = r();
        to(&mut hs, if alt { CleanPathBuf::new(path(&r).to_owned()) } else { CleanPathBuf::new(path(&r)) })
      }),
      "root" => guard(|| to(&mut hs, Some(MemoryFileSystem::root()))),
      "push" => guard(|| {
        let mut p = h();
        p.push(path(&r()));
        to(&mut hs, Some(p))
      }),
      "join" => guard(|| to(&mut hs, Some(h().as_clean_path().join(path(&r()))))),
      "parent" => guard(|| to(&mut hs, h().as_clean_path().parent().map(ToOwned::to_owned))),
      "show" => guard(|| {
        let p = h();
        let q = if alt { p.into_path_buf() } else { p.as_clean_path().as_path().to_owned() };
        o([("r", opt(Some(raw(&q))))])
      }),
      "order" => {
        let mut ps = Vec::new();
        for n in op.at("hs").arr() {
          match hs.get(&n.int()) {
            Some(p) => ps.push(p.clone()),
            None => {
              obs.push(crate::nohandle());
              return;
            }
          }
        }
        guard(|| order(&ps))
      }
      "id" => guard(|| {
        let k = stores.entry(op.at("s").int()).or_default();
        let id = if alt { k.store.get_id_owned(h()) } else { k.store.get_id(h().as_clean_path()) };
        o([("r", i(name(&mut k.ids, &mut k.by_id, id)))])
      }),
      "path" => guard(|| {
        let k = stores.entry(op.at("s").int()).or_default();
        let n = op.at("id").us();
        match k.ids.get(n - 1) {
          Some(id) => o([("r", raw(k.store.get_path(*id).as_path()))]),
          None => crate::nohandle(),
        }
      }),
      "combine" => guard(|| {
        let mut other = stores.remove(&op.at("t").int()).unwrap_or_default();
        let k = stores.entry(op.at("s").int()).or_default();
        let mut pairs = Vec::new();
        let (ids, by_id) = (&mut k.ids, &mut k.by_id);
        k.store.combine(other.store, &mut |old, new| {
          let old = name(&mut other.ids, &mut other.by_id, old);
          pairs.push(a([i(old), i(name(ids, by_id, new))]));
        });
        o([("r", J::A(pairs))])
      }),
      // many paths, numbered
      "bigstores" => J::B(true),
      "bigids" => guard(|| {
        let k = stores.entry(op.at("s").int()).or_default();
        let ids = (op.at("lo").int()..=op.at("hi").int()).map(|x| {
          let p = numbered(x);
          let id = if x % 3 == 0 { k.store.get_id_owned(p) } else { k.store.get_id(p.as_clean_path()) };
          i(name_of(&mut k.ids, &mut k.by_id, id))
        });
        o([("r", a(ids))])
      }),
      "bigpaths" => guard(|| {
        let k = stores.entry(op.at("s").int()).or_default();
        o([("r", a(k.ids.iter().map(|id| i(number(k.store.get_path(*id).as_path())))))])
      }),
      "bigcombine" => guard(|| {
        let mut other = stores.remove(&1).unwrap_or_default();
        let k = stores.entry(0).or_default();
        let mut pairs = Vec::new();
        let (ids, by_id) = (&mut k.ids, &mut k.by_id);
        k.store.combine(other.store, &mut |old, new| {
          let old = name_of(&mut other.ids, &mut other.by_id, old);
          pairs.push(a([i(old), i(name_of(ids, by_id, new))]));
        });
        o([("r", J::A(pairs))])
      }),
      "mput" => {
        mem.inner.insert(h(), String::from_utf8(contents(op)).unwrap_or_else(|_| fatal("text")));
        J::B(true)
      }
      "mdel" => {
        mem.inner.remove(&h());
        J::B(true)
      }
      "mread" => guard(|| io(mem.read_to_string(path(&r())), |x| show_text(&x))),
      "mbytes" => guard(|| io(mem.read_to_bytes(path(&r())), |x| show(&x))),
      "mdir" => guard(|| io(mem.read_dir(path(&r())), |x| a(x.iter().map(|p| raw(p))))),
      "mfile" => guard(|| o([("r", J::B(mem.is_file(path(&r()))))])),
      "mcwd" => guard(|| io(mem.current_dir(), |x| raw(x.as_path()))),
      real => {
        let root = root.get_or_insert_with(Root::new);
        let ok = |r: std::io::Result<()>| r.unwrap_or_else(|e| fatal(&format!("scratch: {e}")));
        let at = |f: &str| root.at(&bytes(op.at(f)));
        let fs = RealFileSystem::default();
        match real {
          "mkdir" => ok(std::fs::create_dir(at("at"))),
          "mkfile" => ok(std::fs::write(at("at"), contents(op))),
          "mklink" => ok(std::os::unix::fs::symlink(at("dest"), at("at"))),
          "mkspecial" => special(op.at("kind").str(), &at("at")),
          "rm" => ok(std::fs::remove_file(at("at"))),
          _ => {}
        }
        match real {
          "rread" => guard(|| io(fs.read_to_string(&at("raw")), |x| show_text(&x))),
          "rbytes" => guard(|| io(fs.read_to_bytes(&at("raw")), |x| show(&x))),
          "rdir" => guard(|| io(fs.read_dir(&at("raw")), |x| a(x.iter().map(|p| root.rel(p))))),
          "rfile" => guard(|| o([("r", J::B(fs.is_file(&at("raw"))))])),
          "rcwd" => {
            ok(std::env::set_current_dir(at("dir")));
            let r = guard(|| io(fs.current_dir(), |x| root.rel(x.as_path())));
            ok(std::env::set_current_dir("/"));
            r
          }
          "mkdir" | "mkfile" | "mklink" | "mkspecial" | "rm" => J::B(true),
          x => fatal(&format!("path op {x}")),
        }
      }
    };
    obs.push(ob);
  }
}
