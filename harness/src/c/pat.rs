//! pattern-match, for languages whose types are those of a signature.
//!
//! `{"o": "check", "sig": [{"lit", "size", "cons": [{"c", "args"}, ...]}, ...], "ty", "pats", "lang"}`
//! with patterns `{"c", "args", "i"}`: `c` is 0 for any, -2 for or, -3 (only in answers) for any
//! literal but the arguments, between 1000 and 2000 for a literal, 2000 + 100 * lo + hi for a range,
//! else a constructor; `i` is the index, -1 for none. `lang` is "full" for a language that splits as
//! much as needed, "fewer" for one that gives only one of the constructors not seen when it is not at
//! the top, "deep" for one that splits even if no constructor was seen.

use crate::guard;
use crate::json::{J, a, fatal, i, o};
use pattern_match::{CheckError, ConPat, Lang, Pat, RawPat, Result};

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
enum Con {
  Any,
  C(i64),
  But(Vec<i64>),
}

struct Ty {
  lit: bool,
  size: i64,
  cons: Vec<(i64, Vec<usize>)>,
}

struct Cx {
  sig: Vec<Ty>,
  inh: Vec<bool>,
  fewer: bool,
  deep: bool,
}

const LIT: std::ops::Range<i64> = 1001..2000;
fn range(c: i64) -> (i64, i64) {
  ((c - 2000) / 100, (c - 2000) % 100)
}
fn ranged(lo: i64, hi: i64) -> Con {
  Con::C(2000 + 100 * lo + hi)
}

struct L;

impl Lang for L {
  type Cx = Cx;
  type PatIdx = i64;
  type Con = Con;
  type Ty = usize;

  fn any() -> Con {
    Con::Any
  }

  fn split<'a, I>(cx: &mut Cx, ty: &usize, con: &Con, cons: I, depth: usize) -> Result<Vec<Con>>
  where
    Con: 'a,
    I: Iterator<Item = &'a Con>,
  {
    let t = &cx.sig[*ty];
    let mut seen: Vec<i64> = Vec::new();
    for c in cons {
      match c {
        Con::Any => {}
        Con::C(c) if !seen.contains(c) => seen.push(*c),
        Con::C(_) => {}
        // a witness's constructor is never in a matrix
        Con::But(_) => return Err(CheckError("odd constructor")),
      }
    }
    let pieces = |lo: i64, hi: i64| {
      let mut cuts: Vec<i64> = seen.iter().flat_map(|&c| [range(c).0, range(c).1 + 1]).collect();
      cuts.retain(|&x| lo < x && x <= hi);
      cuts.push(lo);
      cuts.sort_unstable();
      cuts.dedup();
      let ends: Vec<i64> = cuts.iter().skip(1).map(|x| x - 1).chain([hi]).collect();
      cuts.into_iter().zip(ends).map(|(x, y)| ranged(x, y)).collect::<Vec<_>>()
    };
    match con {
      Con::But(_) => Err(CheckError("odd constructor")),
      Con::C(c) => {
        let ok = if t.lit {
          LIT.contains(c)
        } else if t.size > 0 {
          *c >= 2000 && range(*c).0 <= range(*c).1 && range(*c).1 < t.size
        } else {
          t.cons.iter().any(|(x, _)| x == c)
        };
        if !ok {
          Err(CheckError("constructor not of this type"))
        } else if t.size > 0 {
          Ok(pieces(range(*c).0, range(*c).1))
        } else {
          Ok(vec![con.clone()])
        }
      }
      Con::Any => {
        if !cx.inh[*ty] {
          return Ok(Vec::new());
        }
        if seen.is_empty() && !cx.deep {
          return Ok(vec![Con::Any]);
        }
        if t.lit {
          let but = Con::But(seen.clone());
          return Ok(seen.into_iter().map(Con::C).chain([but]).collect());
        }
        if t.size > 0 {
          return Ok(pieces(0, t.size - 1));
        }
        let all = t.cons.iter().filter(|(_, ts)| ts.iter().all(|&x| cx.inh[x])).map(|&(c, _)| c);
        if cx.fewer && depth > 0 {
          let mut first = true;
          let some = all.filter(|c| seen.contains(c) || std::mem::take(&mut first));
          return Ok(some.map(Con::C).collect());
        }
        Ok(all.map(Con::C).collect())
      }
    }
  }

  fn get_arg_tys(cx: &mut Cx, ty: &usize, con: &Con) -> Result<Vec<usize>> {
    match con {
      Con::Any | Con::But(_) => Ok(Vec::new()),
      Con::C(c) if *c > 1000 => Ok(Vec::new()),
      Con::C(c) => match cx.sig[*ty].cons.iter().find(|(x, _)| x == c) {
        None => Err(CheckError("constructor not of this type")),
        Some((_, ts)) => Ok(ts.clone()),
      },
    }
  }

  fn covers(lhs: &Con, rhs: &Con) -> bool {
    match (lhs, rhs) {
      (Con::Any, _) => true,
      (Con::C(x), Con::C(y)) if *x >= 2000 && *y >= 2000 => {
        range(*x).0 <= range(*y).0 && range(*y).1 <= range(*x).1
      }
      _ => lhs == rhs,
    }
  }
}

fn pat(j: &J) -> Pat<L> {
  let args = j.at("args").arr().iter().map(pat).collect();
  let raw = match j.at("c").int() {
    -2 => RawPat::Or(args),
    0 => RawPat::Con(ConPat { con: Con::Any, args }),
    c => RawPat::Con(ConPat { con: Con::C(c), args }),
  };
  let idx = j.at("i").int();
  match (raw, idx) {
    (raw, -1) => Pat { raw, idx: None },
    // as one would make them
    (RawPat::Or(args), i) => Pat::or(args, i),
    (RawPat::Con(ConPat { con, args }), i) if args.is_empty() => Pat::zero(con, i),
    (RawPat::Con(ConPat { con, args }), i) => Pat::con(con, args, i),
  }
}

fn lit(c: i64) -> J {
  o([("c", i(c)), ("args", a([])), ("i", i(-1))])
}

fn out(p: &Pat<L>) -> J {
  let (c, args) = match &p.raw {
    RawPat::Or(ps) => (-2, a(ps.iter().map(out))),
    RawPat::Con(ConPat { con, args }) => match con {
      Con::Any => (0, a(args.iter().map(out))),
      Con::C(c) => (*c, a(args.iter().map(out))),
      // a literal's arguments would be a mistake
      Con::But(ls) => (-3, a(ls.iter().map(|&l| lit(l)).chain(args.iter().map(out)))),
    },
  };
  o([("c", i(c)), ("args", args), ("i", i(p.idx.unwrap_or(-1)))])
}

pub fn run(sc: &J, obs: &mut Vec<J>) {
  for op in sc.at("ops").arr() {
    let sig: Vec<Ty> = op
      .at("sig")
      .arr()
      .iter()
      .map(|t| Ty {
        lit: t.at("lit").bool(),
        size: t.at("size").int(),
        cons: t
          .at("cons")
          .arr()
          .iter()
          .map(|k| (k.at("c").int(), k.at("args").arr().iter().map(|x| x.us() - 1).collect()))
          .collect(),
      })
      .collect();
    let mut inh = vec![false; sig.len()];
    for _ in 0..sig.len() {
      inh = sig
        .iter()
        .map(|t| t.lit || t.size > 0 || t.cons.iter().any(|(_, ts)| ts.iter().all(|&x| inh[x])))
        .collect();
    }
    let (fewer, deep) = match op.at("lang").str() {
      "full" => (false, false),
      "fewer" => (true, false),
      "deep" => (false, true),
      x => fatal(x),
    };
    let mut cx = Cx { sig, inh, fewer, deep };
    let pats: Vec<Pat<L>> = op.at("pats").arr().iter().map(pat).collect();
    let ty = op.at("ty").us() - 1;
    obs.push(guard(|| match pattern_match::check::<L>(&mut cx, pats, ty) {
      Err(_) => o([("err", J::B(true))]),
      Ok(ck) => {
        let mut un: Vec<i64> = ck.unreachable.into_iter().collect();
        un.sort_unstable();
        let r = [("unreachable", a(un.into_iter().map(i))), ("missing", a(ck.missing.iter().map(out)))];
        o([("r", o(r))])
      }
    }));
  }
}
