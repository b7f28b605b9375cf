//! chain-map: `ChainMap`, several maps at once.
//!
//! Scenario: `n` maps numbered from 0, initially empty; keys and values are integers; `str` uses
//! string keys (looked up as `&str`), `same` keys of equal hashes. After every operation the contents of all maps are recorded,
//! as iteration gives them (sorted, repetitions kept), unless `snap` is false.

use super::misc::given;
use crate::guard;
use crate::json::{J, a, fatal, i, o, opt};
use chain_map::ChainMap;
use std::borrow::Borrow;
use std::hash::Hash;

trait Key: Hash + Eq + Clone + Borrow<Self::Q> {
  type Q: ?Sized + Hash + Eq;
  fn mk(n: i64) -> Self;
  fn n(&self) -> i64;
}

impl Key for i64 {
  type Q = i64;
  fn mk(n: i64) -> Self {
    n
  }
  fn n(&self) -> i64 {
    *self
  }
}

impl Key for String {
  type Q = str;
  fn mk(n: i64) -> Self {
    format!("k{n}")
  }
  fn n(&self) -> i64 {
    self[1..].parse().unwrap_or(-99)
  }
}

/// Keys that all have the same hash.
#[derive(Debug, Clone, PartialEq, Eq)]
struct Same(i64);
impl Hash for Same {
  fn hash<H: std::hash::Hasher>(&self, _: &mut H) {}
}
impl Key for Same {
  type Q = Same;
  fn mk(n: i64) -> Self {
    Same(n)
  }
  fn n(&self) -> i64 {
    self.0
  }
}

fn pairs<K: Key>(it: impl Iterator<Item = (K, i64)>) -> J {
  let mut xs: Vec<_> = it.map(|(k, v)| (k.n(), v)).collect();
  xs.sort_unstable();
  a(xs.into_iter().map(|(k, v)| a([i(k), i(v)])))
}

/// What an iterator gives, asked for in one of several ways.
fn taken<T>(mut it: impl Iterator<Item = T>, via: i64) -> Vec<T> {
  let mut xs = Vec::new();
  match via {
    1 => {
      while let Some(x) = it.next() {
        xs.push(x);
      }
      // nothing after the end
      xs.extend(it.next());
      xs.extend(it.next());
    }
    2 => it.fold((), |(), x| xs.push(x)),
    3 => {
      while let Some(x) = it.nth(0) {
        xs.push(x);
      }
    }
    4 => {
      xs.extend(it.by_ref().take(1));
      let (lo, hi) = it.size_hint();
      let k = xs.len();
      it.for_each(|x| xs.push(x));
      if lo > xs.len() - k || hi.is_some_and(|hi| hi < xs.len() - k) {
        xs.clear();
      }
    }
    _ => xs = it.collect(),
  }
  xs
}

fn snap<K: Key>(m: &ChainMap<K, i64>) -> J {
  pairs(m.iter().map(|(k, v)| (k.clone(), *v)))
}

pub fn run(sc: &J, obs: &mut Vec<J>) {
  if sc.get("same").is_some_and(J::bool) {
    go::<Same>(sc, obs)
  } else if sc.get("str").is_some_and(J::bool) {
    go::<String>(sc, obs)
  } else {
    go::<i64>(sc, obs)
  }
}

/// What an operation on one map gives.
fn single<K: Key>(m: &mut ChainMap<K, i64>, op: &J) -> J {
  let f = |x: &str| op.at(x).int();
  let key = || K::mk(f("k"));
  let kvs = || -> Vec<(K, i64)> {
    op.at("xs").arr().iter().map(|p| (K::mk(p.arr()[0].int()), p.arr()[1].int())).collect()
  };
  let via = op.get("via").map_or(0, J::int);
  match op.at("o").str() {
    "new" => {
      *m = ChainMap::default();
      i(0)
    }
    "insert" => J::B(m.insert(key(), f("v"))),
    "get" => opt(m.get(key().borrow()).map(|&v| i(v))),
    "empty" => J::B(m.is_empty()),
    "iter" => pairs(taken(m.iter().map(|(k, v)| (k.clone(), *v)), via).into_iter()),
    "iterpart" => {
      let xs: Vec<_> = m.iter().take(op.at("c").us()).map(|(k, v)| (k.clone(), *v)).collect();
      pairs(xs.into_iter())
    }
    "getmut" => {
      let r = m.get_mut(key().borrow());
      match r {
        None => opt(None),
        Some(x) => {
          let old = *x;
          *x = f("v");
          opt(Some(i(old)))
        }
      }
    }
    "remove" => opt(m.remove(key().borrow()).map(i)),
    "itermut" => {
      let mut seen = Vec::new();
      for (k, v) in taken(m.iter_mut(), via) {
        seen.push((k.clone(), *v));
        *v += f("v");
      }
      pairs(seen.into_iter())
    }
    "drain" => {
      let xs = taken(m.drain(), via);
      pairs(xs.into_iter())
    }
    "drainpart" => {
      let xs: Vec<_> = m.drain().take(op.at("c").us()).collect();
      pairs(xs.into_iter())
    }
    "consolidate" => {
      m.consolidate();
      i(0)
    }
    "extend" => {
      m.extend(given(kvs(), via));
      i(0)
    }
    "churn" => {
      i((0..f("n")).filter(|x| m.insert(K::mk(x % f("mod")), f("v") + x)).count())
    }
    "fill" => {
      m.extend((f("lo")..=f("hi")).map(|k| (K::mk(k), f("v") + k)));
      i(0)
    }
    "collect" => {
      *m = given(kvs(), via).collect();
      i(0)
    }
    "array" => {
      let xs = kvs();
      *m = match xs.len() {
        0 => ChainMap::from([]),
        1 => ChainMap::from([xs[0].clone()]),
        2 => ChainMap::from([xs[0].clone(), xs[1].clone()]),
        3 => ChainMap::from([xs[0].clone(), xs[1].clone(), xs[2].clone()]),
        _ => fatal("array too long"),
      };
      i(0)
    }
    "intoiter" => {
      let x = std::mem::take(m);
      pairs(taken(x.into_iter(), via).into_iter())
    }
    "intoiterpart" => {
      let x = std::mem::take(m);
      pairs(x.into_iter().take(op.at("c").us()))
    }
    x => fatal(&format!("chain op {x}")),
  }
}

/// One thread per map, each doing its operations at the same time as the others.
#[cfg(feature = "sync")]
fn parallel<K: Key + Send + Sync>(ms: &mut [ChainMap<K, i64>], runs: &[J]) -> J {
  let start = std::sync::Barrier::new(runs.len());
  let res: Vec<J> = std::thread::scope(|sc| {
    let ths: Vec<_> = ms
      .iter_mut()
      .zip(runs)
      .map(|(m, run)| {
        let start = &start;
        sc.spawn(move || {
          start.wait();
          a(run.arr().iter().map(|op| guard(|| o([("r", single(m, op))]))))
        })
      })
      .collect();
    ths.into_iter().map(|t| t.join().unwrap_or_else(|_| fatal("thread"))).collect()
  });
  J::A(res)
}
#[cfg(not(feature = "sync"))]
fn parallel<K: Key>(_: &mut [ChainMap<K, i64>], _: &[J]) -> J {
  fatal("not this build")
}

fn go<K: Key + Send + Sync>(sc: &J, obs: &mut Vec<J>) {
  let n = sc.at("n").us();
  let snaps = sc.get("snap").is_none_or(J::bool);
  let mut ms: Vec<ChainMap<K, i64>> = (0..n).map(|_| ChainMap::default()).collect();
  for op in sc.at("ops").arr() {
    let m = op.at("m").us();
    let ret = guard(|| {
      let r = match op.at("o").str() {
        "append" => {
          let b = op.at("b").us();
          let mut other = std::mem::take(&mut ms[b]);
          ms[m].append(&mut other);
          ms[b] = other;
          i(0)
        }
        "clone" => {
          let b = op.at("b").us();
          if op.get("into").is_some_and(J::bool) {
            let mut x = std::mem::take(&mut ms[b]);
            x.clone_from(&ms[m]);
            ms[b] = x;
          } else {
            ms[b] = ms[m].clone();
          }
          i(0)
        }
        "par" => parallel(&mut ms, op.at("runs").arr()),
        _ => single(&mut ms[m], op),
      };
      o([("r", r)])
    });
    let ret = match ret {
      J::O(mut kvs) => {
        if snaps {
          kvs.push(("snap".to_owned(), a(ms.iter().map(|m| match guard(|| snap(m)) {
            J::A(x) => J::A(x),
            _ => a([a([i(-999), i(-999)])]),
          }))));
        }
        J::O(kvs)
      }
      x => x,
    };
    obs.push(ret);
  }
}
