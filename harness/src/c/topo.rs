//! topo-sort. `{"o": "sort", "graph": [[n, [n, ...]], ...]}` sorts a graph; `{"o": "run", "work":
//! [...], "reqs": [[x, [...]], ...], "skip": [[x, n], ...], "set": "btree" | "hash" | "fx"}` runs a
//! traversal whose visitor answers from the tables (an element is skipped the first n times,
//! or if it is one of "refuse" and in progress), and
//! records all that the visitor sees.

use crate::guard;
use crate::json::{J, a, fatal, i, o, opt, s};
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::marker::PhantomData;
use topo_sort::{Set, Visitor, Work};

/// What is sorted.
trait El: Clone {
  fn mk(n: i64) -> Self;
  fn n(&self) -> i64;
}
impl El for i64 {
  fn mk(n: i64) -> Self {
    n
  }
  fn n(&self) -> i64 {
    *self
  }
}
impl El for String {
  fn mk(n: i64) -> Self {
    format!("element {n}")
  }
  fn n(&self) -> i64 {
    self[8..].parse().unwrap_or(-99)
  }
}
impl El for std::cmp::Reverse<i64> {
  fn mk(n: i64) -> Self {
    Self(n)
  }
  fn n(&self) -> i64 {
    self.0
  }
}
/// All hashes are the same; the order is that of something else.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
struct Same(i64);
impl std::hash::Hash for Same {
  fn hash<H: std::hash::Hasher>(&self, _: &mut H) {}
}
impl Same {
  fn key(&self) -> (u64, i64) {
    ((self.0 as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 40, self.0)
  }
}
impl Ord for Same {
  fn cmp(&self, other: &Self) -> std::cmp::Ordering {
    self.key().cmp(&other.key())
  }
}
impl PartialOrd for Same {
  fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
    Some(self.cmp(other))
  }
}
impl El for Same {
  fn mk(n: i64) -> Self {
    Same(n)
  }
  fn n(&self) -> i64 {
    self.0
  }
}

/// A set of ours.
struct Own<T>(Vec<T>);
impl<T> Default for Own<T> {
  fn default() -> Self {
    Own(Vec::new())
  }
}
impl<T: PartialEq> Set for Own<T> {
  type Elem = T;
  fn contains(&self, x: &T) -> bool {
    self.0.contains(x)
  }
  fn insert(&mut self, x: T) -> bool {
    let new = !self.0.contains(&x);
    if new {
      self.0.push(x);
    }
    new
  }
  fn remove(&mut self, x: &T) -> bool {
    self.0.iter().position(|y| y == x).map(|k| self.0.swap_remove(k)).is_some()
  }
  fn is_empty(&self) -> bool {
    self.0.is_empty()
  }
}
impl<T> IntoIterator for Own<T> {
  type Item = T;
  type IntoIter = std::vec::IntoIter<T>;
  fn into_iter(self) -> Self::IntoIter {
    self.0.into_iter()
  }
}

fn sort<T: El + Copy + Ord>(op: &J) -> J {
  let g: topo_sort::graph::Graph<T> = op
    .at("graph")
    .arr()
    .iter()
    .map(|p| (T::mk(p.arr()[0].int()), p.arr()[1].ints().into_iter().map(T::mk).collect()))
    .collect();
  match topo_sort::graph::get(&g) {
    Ok(xs) => o([("ok", a(xs.into_iter().map(|x| i(x.n()))))]),
    Err(e) => o([("cycle", i(e.witness().n()))]),
  }
}

struct Vis<S> {
  reqs: HashMap<i64, Vec<i64>>,
  skip: HashMap<i64, i64>,
  refuse: HashSet<i64>,
  open: HashSet<i64>,
  calls: RefCell<(i64, HashMap<i64, i64>)>,
  log: RefCell<Vec<J>>,
  bulk: bool,
  /// More than what happens if every request is processed.
  most: usize,
  _s: PhantomData<S>,
}

impl<S> Vis<S> {
  fn log(&self, j: J) {
    let mut l = self.log.borrow_mut();
    // a traversal of finitely many elements that never ends
    assert!(l.len() < self.most, "endless");
    l.push(j);
  }
}

impl<S: Set<Elem: El>> Visitor for Vis<S> {
  type Elem = S::Elem;
  type Data = i64;
  type Set = S;
  fn enter(&self, x: S::Elem) -> Option<i64> {
    let x = x.n();
    let mut c = self.calls.borrow_mut();
    c.0 += 1;
    let data = c.0;
    let n = c.1.entry(x).or_insert(0);
    *n += 1;
    let skip = *n <= self.skip.get(&x).copied().unwrap_or(0) || self.refuse.contains(&x) && self.open.contains(&x);
    let ret = if skip { None } else { Some(data) };
    self.log(o([("o", s("enter")), ("x", i(x)), ("data", opt(ret.map(i)))]));
    ret
  }
  fn process(&mut self, x: S::Elem, data: i64, work: &mut Work<S::Elem>) {
    let x = x.n();
    self.open.insert(x);
    let reqs = self.reqs.get(&x).cloned().unwrap_or_default();
    self.log(o([
      ("o", s("process")),
      ("x", i(x)),
      ("data", i(data)),
      ("reqs", a(reqs.iter().map(|&y| i(y)))),
    ]));
    let reqs: Vec<S::Elem> = reqs.into_iter().map(El::mk).collect();
    if self.bulk {
      let via = x.rem_euclid(5);
      work.extend(super::misc::given(reqs, via));
    } else {
      for y in reqs {
        work.push(y);
      }
    }
  }
  fn exit(&mut self, x: S::Elem, level: usize) {
    let x = x.n();
    self.open.remove(&x);
    self.log(o([("o", s("exit")), ("x", i(x)), ("level", i(level))]));
  }
}

fn go<S: Set<Elem: El> + IntoIterator<Item = S::Elem>>(op: &J) -> J {
  let table = |f: &str| {
    op.at(f).arr().iter().map(|p| (p.arr()[0].int(), p.arr()[1].clone())).collect::<Vec<_>>()
  };
  let bulk = op.at("bulk").bool();
  let mut vis = Vis::<S> {
    reqs: table("reqs").into_iter().map(|(x, y)| (x, y.ints())).collect(),
    skip: table("skip").into_iter().map(|(x, y)| (x, y.int())).collect(),
    refuse: op.at("refuse").ints().into_iter().collect(),
    open: HashSet::new(),
    calls: RefCell::default(),
    log: RefCell::default(),
    bulk,
    most: 0,
    _s: PhantomData,
  };
  vis.most = 16 + 3 * (op.at("work").arr().len() + vis.reqs.values().map(Vec::len).sum::<usize>());
  let end = guard(|| {
    let elems: Vec<S::Elem> = op.at("work").ints().into_iter().map(El::mk).collect();
    let work: Work<S::Elem> = if bulk {
      let via = elems.len() as i64 % 5;
      super::misc::given(elems, via).collect()
    } else {
      let mut w = Work::default();
      for x in elems {
        w.push(x);
      }
      w
    };
    let ret = work.run(&mut vis);
    let mut done: Vec<i64> = ret.done.into_iter().map(|x| x.n()).collect();
    done.sort_unstable();
    o([("o", s("end")), ("done", a(done.into_iter().map(i))), ("cycle", opt(ret.cycle.map(|x| i(x.n()))))])
  });
  let mut log = vis.log.into_inner();
  log.push(if end.get("panic").is_some() { o([("o", s("panic"))]) } else { end });
  o([("log", J::A(log))])
}

pub fn run(sc: &J, obs: &mut Vec<J>) {
  for op in sc.at("ops").arr() {
    let ob = match op.at("o").str() {
      "sort" | "bigsort" => guard(|| match op.get("of").map_or("", J::str) {
        "reverse" => sort::<std::cmp::Reverse<i64>>(op),
        "same" => sort::<Same>(op),
        _ => sort::<i64>(op),
      }),
      "run" => match op.at("set").str() {
        "btree" => go::<BTreeSet<i64>>(op),
        "hash" => go::<HashSet<i64, std::hash::BuildHasherDefault<rustc_hash::FxHasher>>>(op),
        "fx" => go::<fast_hash::FxHashSet<i64>>(op),
        "texts" => go::<BTreeSet<String>>(op),
        "fx texts" => go::<fast_hash::FxHashSet<String>>(op),
        "reverse" => go::<BTreeSet<std::cmp::Reverse<i64>>>(op),
        "same" => go::<fast_hash::FxHashSet<Same>>(op),
        "same order" => go::<BTreeSet<Same>>(op),
        "own" => go::<Own<i64>>(op),
        "own texts" => go::<Own<String>>(op),
        x => fatal(x),
      },
      x => fatal(&format!("topo op {x}")),
    };
    obs.push(ob);
  }
}
