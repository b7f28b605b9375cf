//! The components whose answers depend on their arguments alone, makers of unique identifiers, and
//! assertions. Text is code points, big numbers are decimal digits (as text) or bytes (most
//! significant first).

use crate::guard;
use crate::json::{J, a, cps, fatal, i, o, opt, s};
use always::always;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt;
use std::hash::BuildHasher as _;
use std::sync::Mutex;
use str_util::{Name, SmolStr};
use text_pos::{PositionUtf16, RangeUtf16};
use uniq::{Uniq, UniqMk};

static LOGS: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());

struct Logger;
impl log::Log for Logger {
  fn enabled(&self, _: &log::Metadata<'_>) -> bool {
    true
  }
  fn log(&self, r: &log::Record<'_>) {
    let rec = (r.level().to_string(), r.args().to_string());
    LOGS.lock().unwrap_or_else(|e| e.into_inner()).push(rec);
  }
  fn flush(&self) {}
}

pub fn init_log() {
  static L: Logger = Logger;
  let _ = log::set_logger(&L);
  log::set_max_level(log::LevelFilter::Trace);
}

pub fn logs() -> J {
  let ls = std::mem::take(&mut *LOGS.lock().unwrap_or_else(|e| e.into_inner()));
  a(ls.into_iter().map(|(l, m)| a([s(l), cps(&m)])))
}

/// While something else has panicked already.
fn unwinding(f: impl FnOnce() -> J) -> J {
  struct Late<'a, F: FnOnce() -> J>(Option<F>, &'a mut Option<J>);
  impl<F: FnOnce() -> J> Drop for Late<'_, F> {
    fn drop(&mut self) {
      *self.1 = self.0.take().map(|f| f());
    }
  }
  let mut r = None;
  let _ = guard(|| {
    let _late = Late(Some(f), &mut r);
    std::panic::panic_any("something else")
  });
  r.unwrap_or_else(|| fatal("not unwound"))
}

/// Adds what else was seen to an observation.
fn with<const N: usize>(ob: J, more: [(&str, J); N]) -> J {
  match ob {
    J::O(mut kvs) => {
      kvs.extend(more.into_iter().map(|(k, v)| (k.to_owned(), v)));
      J::O(kvs)
    }
    x => x,
  }
}

fn num(j: &J) -> u32 {
  j.text().parse().unwrap_or_else(|_| fatal("number"))
}
fn big(j: &J) -> u64 {
  j.arr().iter().fold(0, |n, b| n << 8 | u64::try_from(b.int()).unwrap_or_else(|_| fatal("byte")))
}
fn bytes8(n: u64) -> J {
  a(n.to_be_bytes().map(i))
}
fn pos(x: &J) -> PositionUtf16 {
  PositionUtf16 { line: num(&x.arr()[0]), col: num(&x.arr()[1]) }
}
fn range(x: &J) -> RangeUtf16 {
  let x = x.arr();
  RangeUtf16 {
    start: PositionUtf16 { line: num(&x[0]), col: num(&x[1]) },
    end: PositionUtf16 { line: num(&x[2]), col: num(&x[3]) },
  }
}

struct Sep<'a>(Option<&'a str>, &'a [String]);
impl fmt::Display for Sep<'_> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    match self.0 {
      Some(sep) => fmt_util::sep_seq(f, sep, self.1.iter()),
      None => fmt_util::comma_seq(f, self.1.iter()),
    }
  }
}

/// A language whose constructors are text, to show patterns of.
struct Texts;
impl pattern_match::Lang for Texts {
  type Cx = ();
  type PatIdx = usize;
  type Con = String;
  type Ty = ();
  fn any() -> String {
    "_".to_owned()
  }
  fn split<'a, I>((): &mut (), (): &(), con: &String, _: I, _: usize) -> pattern_match::Result<Vec<String>>
  where
    I: Iterator<Item = &'a String>,
  {
    Ok(vec![con.clone()])
  }
  fn get_arg_tys((): &mut (), (): &(), _: &String) -> pattern_match::Result<Vec<()>> {
    Ok(Vec::new())
  }
  fn covers(x: &String, y: &String) -> bool {
    x == y
  }
}
fn pat(j: &J) -> pattern_match::Pat<Texts> {
  use pattern_match::{ConPat, Pat, RawPat};
  let args: Vec<_> = j.at("args").arr().iter().map(pat).collect();
  let con = j.at("con").text();
  match (j.at("or").bool(), j.at("i").int()) {
    (true, -1) => Pat { raw: RawPat::Or(args), idx: None },
    (true, _) => Pat::or(args, 7),
    (false, -1) if con == "_" && args.is_empty() => Pat::any_no_idx(),
    (false, -1) => Pat { raw: RawPat::Con(ConPat { con, args }), idx: None },
    (false, _) if args.is_empty() => Pat::zero(con, 0),
    (false, _) => Pat::con(con, args, 0),
  }
}

fn names(xs: &[J], qs: &[J]) -> J {
  let ts: Vec<String> = xs.iter().map(J::text).collect();
  let ns: Vec<Name> = ts.iter().map(|t| Name::new(t.as_str())).collect();
  let grid = |f: &dyn Fn(usize, usize) -> J| {
    a((0..ns.len()).map(|x| a((0..ns.len()).map(|y| f(x, y)))))
  };
  let h = fast_hash::FxBuildHasher;
  let std_h = std::hash::RandomState::new();
  // a name's own hash, equal ones having equal hashes and the text's hash
  let hash = |x: usize, y: usize| {
    let same = |n: &Name, t: &str| h.hash_one(n) == h.hash_one(t) && std_h.hash_one(n) == std_h.hash_one(t);
    J::B((ns[x] != ns[y] || h.hash_one(&ns[x]) == h.hash_one(&ns[y])) && same(&ns[x], &ts[x]))
  };
  let mut map = HashMap::<Name, usize>::new();
  let mut tree = BTreeMap::<Name, usize>::new();
  for (n, x) in ns.iter().enumerate() {
    map.insert(x.clone(), n + 1);
    tree.insert(x.clone(), n + 1);
  }
  o([(
    "r",
    o([
      ("eq", grid(&|x, y| J::B(ns[x] == ns[y]))),
      ("cmp", grid(&|x, y| i(ns[x].cmp(&ns[y]) as i8))),
      ("hash", grid(&|x, y| hash(x, y))),
      ("at", a(qs.iter().map(|q| i(map.get(q.text().as_str()).copied().unwrap_or(0))))),
      ("tree", a(qs.iter().map(|q| i(tree.get(q.text().as_str()).copied().unwrap_or(0))))),
      ("shown", a(ns.iter().map(|n| cps(&n.to_string())))),
    ]),
  )])
}

macro_rules! arrays {
  ($xs:expr, $f:path, $($n:literal)*) => {
    match $xs.len() {
      $($n => { let xs: [_; $n] = $xs.try_into().unwrap_or_else(|_| fatal("array")); $f(xs) })*
      n => fatal(&format!("no arrays of {n}")),
    }
  };
}

/// With room for large arrays.
fn roomy<T: Send>(f: impl FnOnce() -> T + Send) -> T {
  std::thread::scope(|s| {
    let t = std::thread::Builder::new().stack_size(128 << 20).spawn_scoped(s, f);
    let t = t.unwrap_or_else(|e| fatal(&format!("no thread: {e}")));
    t.join().unwrap_or_else(|e| std::panic::resume_unwind(e))
  })
}

fn map_of(xs: Vec<(i64, i64)>) -> J {
  let m = roomy(|| arrays!(xs, fast_hash::map, 0 1 2 3 4 5 6 7 8 20 64 300 5000 66000));
  // what iteration and what lookups say must agree
  let mut out: Vec<_> = m.iter().map(|(k, v)| (*k, *v)).collect();
  out.retain(|(k, v)| m.get(k) == Some(v));
  o([("r", a(out.into_iter().map(|(k, v)| a([i(k), i(v)]))))])
}
fn set_of(xs: Vec<i64>) -> J {
  let m = roomy(|| arrays!(xs, fast_hash::set, 0 1 2 3 4 5 6 7 8 20 64 300 5000 66000));
  let mut out: Vec<_> = m.iter().copied().collect();
  out.retain(|k| m.contains(k));
  o([("r", a(out.into_iter().map(i)))])
}

fn chars(from: u32, to: u32) -> J {
  let mut opts = Vec::new();
  let mut gets = Vec::new();
  for c in (from..=to).filter_map(char::from_u32) {
    let n = char_name::get_opt(c);
    if let Some(n) = n {
      opts.push(a([i(u32::from(c)), cps(n)]));
    }
    if u32::from(c) < 0x3000 || n.is_some() {
      if let Ok(n) = std::panic::catch_unwind(|| char_name::get(c)) {
        gets.push(a([i(u32::from(c)), cps(n)]));
      }
    }
  }
  o([("r", o([("opt", J::A(opts)), ("get", J::A(gets))]))])
}

#[derive(Default)]
struct Maker {
  mk: UniqMk,
  made: Vec<Uniq>,
}

impl Maker {
  /// How many pairs of different ones, at many distances, are equal.
  #[allow(clippy::eq_op, clippy::nonminimal_bool)]
  fn same(&self) -> usize {
    let (n, mut ret) = (self.made.len(), 0);
    let same = |x: &Uniq, y: &Uniq| x == y || y == x || !(x != y) || x.cmp(y) == std::cmp::Ordering::Equal;
    for d in (0..32).flat_map(|k| [1_usize << k, 3 << k, (1 << k) + 1, (2 << k) - 1]).filter(|d| *d < n) {
      let step = ((n - d) / 5000).max(1);
      ret += (0..n - d).step_by(step).filter(|k| same(&self.made[*k], &self.made[k + d])).count();
    }
    ret
  }
  fn make(&mut self, n: usize, show: bool) -> J {
    for _ in 0..n {
      self.made.push(self.mk.mk());
    }
    let mut sorted = self.made.clone();
    sorted.sort_unstable();
    sorted.dedup();
    let mut set = HashSet::with_hasher(fast_hash::FxBuildHasher);
    set.extend(self.made.iter().copied());
    let copies = self.made.iter().take(1000).all(|x| { let y = *x; y == *x && set.contains(&y) });
    let same = i(self.same());
    let mut r = o([("eq", i(sorted.len())), ("hash", i(set.len())), ("copies", J::B(copies)), ("same", same)]);
    if show {
      let shown: HashSet<String> = self.made.iter().map(ToString::to_string).collect();
      r = with(r, [("shown", i(shown.len()))]);
    }
    o([("r", r)])
  }
}

/// The forms in which the macro is used. `evals` counts evaluations of the condition.
fn assertion(form: &str, c: bool, msg: &str, n: i64, evals: &std::cell::Cell<i64>) -> bool {
  let eval = || {
    evals.set(evals.get() + 1);
    c
  };
  match form {
    "bare" => always!(eval()),
    "bare_op" => always!(eval() && c == true),
    "bare_cmp" => always!(i64::from(eval()) == 1),
    "literal" => always!(eval(), "just so"),
    "braces" => always!(eval(), "{{}} braces {{{n}}}"),
    "arg" => always!(eval(), "{}", msg),
    "args" => always!(eval(), "{}: {} and {0}", msg, n),
    "named" => always!(eval(), "{m}/{n}", m = msg, n = n + 1),
    "inline" => always!(eval(), "{msg} {n:>5}"),
    // the user's own variable of that name
    "hygiene" => {
      let cond = n;
      always!(eval(), "cond {cond} {}", cond)
    }
    "nested" => if always!(eval(), "{msg}") { true } else { false },
    "expr" => !!always!(if n > 0 { eval() } else { eval() }, "{}", msg.len()),
    "trailing" => always!(eval(), "{}", msg,),
    x => fatal(&format!("form {x}")),
  }
}

pub fn run(sc: &J, obs: &mut Vec<J>) {
  let mut makers: Vec<Maker> = (0..8).map(|_| Maker::default()).collect();
  for op in sc.at("ops").arr() {
    let alt = op.get("alt").is_some_and(J::bool);
    let show = |x: &dyn fmt::Display| if alt { format!("{x:#}") } else { x.to_string() };
    let xs = |f: &dyn Fn(&J) -> J| o([("r", a(op.at("xs").arr().iter().map(f)))]);
    logs();
    let ob = match op.at("o").str() {
      "s2p" => guard(|| xs(&|x| cps(&identifier_case::snake_to_pascal(&x.text())))),
      "p2s" => guard(|| xs(&|x| cps(&identifier_case::pascal_to_snake(&x.text())))),
      "md" => guard(|| {
        let md = op.at("md").text();
        let (pre, suf) = (op.at("pre").text(), op.at("suf").text());
        let m = code_h2_md_map::get(&md, |k| format!("{pre}{k}{suf}"));
        o([("r", a(m.iter().map(|(k, v)| a([cps(k), cps(v)]))))])
      }),
      "pos" => guard(|| xs(&|x| cps(&show(&pos(x))))),
      "range" => guard(|| xs(&|x| cps(&show(&range(x))))),
      "diag" => guard(|| {
        let d = diagnostic::Diagnostic {
          range: range(op.at("range")),
          message: op.at("msg").text(),
          severity: [diagnostic::Severity::Warning, diagnostic::Severity::Error][op.at("sev").us() - 1],
        };
        o([("r", cps(&show(&d)))])
      }),
      "sev" => guard(|| {
        let (w, e) = (diagnostic::Severity::Warning, diagnostic::Severity::Error);
        let more = e > w && w < e && e != w && w == w && e.cmp(&w) == std::cmp::Ordering::Greater;
        o([(
          "r",
          o([
            ("shown", a([cps(&w.to_string()), cps(&e.to_string())])),
            ("more", J::B(more)),
            ("max", cps(&w.max(e).to_string())),
          ]),
        )])
      }),
      "sep" | "comma" => guard(|| {
        let sep = op.get("sep").map(J::text);
        let items: Vec<String> = op.at("items").arr().iter().map(J::text).collect();
        o([("r", cps(&show(&Sep(sep.as_deref(), &items))))])
      }),
      "pat" => guard(|| xs(&|x| {
        let p = pat(x);
        cps(&show(&p.clone()))
      })),
      "codes" => guard(|| {
        let r = (op.at("from").int()..=op.at("to").int()).map(|n| {
          let c = diagnostic::Code::n(u16::try_from(n).unwrap_or_else(|_| fatal("code")));
          let t = c.to_string();
          let back = t.parse::<diagnostic::Code>().ok();
          let back = back.filter(|b| *b == c && b.cmp(&c).is_eq());
          a([cps(&t), opt(back.map(|b| i(b.as_i32()))), i(c.as_i32())])
        });
        o([("r", a(r))])
      }),
      "read" => guard(|| xs(&|x| opt(x.text().parse::<diagnostic::Code>().ok().map(|c| i(c.as_i32()))))),
      "trynames" => guard(|| {
        xs(&|x| {
          let t = x.text();
          let n = match t.len() % 3 {
            0 => Name::try_new(t),
            1 => Name::try_new(t.as_str()),
            _ => Name::try_new(SmolStr::new(t)),
          };
          opt(n.map(|n| cps(n.as_str())))
        })
      }),
      "name" => guard(|| o([("r", cps(Name::new(op.at("t").text()).as_str()))])),
      "names" => guard(|| names(op.at("xs").arr(), op.at("qs").arr())),
      "map" => guard(|| {
        map_of(op.at("xs").arr().iter().map(|p| (p.arr()[0].int(), p.arr()[1].int())).collect())
      }),
      "set" => guard(|| set_of(op.at("xs").ints())),
      "idx" => guard(|| {
        let n = usize::try_from(big(op.at("n"))).unwrap_or_else(|_| fatal("usize"));
        let x = match u32::try_from(n) {
          Ok(n) if n % 2 == 1 => idx::Idx::new_u32(n),
          _ => idx::Idx::new(n),
        };
        o([("r", bytes8(x.to_usize() as u64))])
      }),
      "size" => guard(|| {
        let n = usize::try_from(big(op.at("n"))).unwrap_or_else(|_| fatal("usize"));
        o([("r", bytes8(u64::from(u32::from(text_size_util::mk_text_size(n)))))])
      }),
      "wrap" => guard(|| {
        let r = range(op.at("range"));
        let n = |x: u32| cps(&x.to_string());
        let p = |x: PositionUtf16| a([n(x.line), n(x.col)]);
        let z = RangeUtf16::zero(r.start);
        let located = text_size_util::TextRange::new(r.start.line.min(r.end.line).into(), r.start.line.max(r.end.line).into());
        let w = text_size_util::WithRange { val: 5, range: located }.wrap(op.at("t").text());
        let kept = w.range == located && w.val == op.at("t").text();
        let ends = |r: RangeUtf16| a([p(r.start), p(r.end)]);
        let mut st = paths::Store::new();
        let root = paths::MemoryFileSystem::root();
        let ids = [st.get_id(root.as_clean_path()), st.get_id(root.as_clean_path().join("a").as_clean_path())];
        let ws = ids.map(|id| id.wrap(op.at("t").text()));
        let same = kept && (0..2).all(|k| ws[k].path == ids[k] && ws[k] == ids[k].wrap(op.at("t").text())) && ws[0] != ws[1];
        o([("r", o([
          ("zero", ends(z)),
          ("vals", a(ws.iter().map(|w| cps(&w.val)))),
          ("same", J::B(same)),
        ]))])
      }),
      "ords" => guard(|| {
        fn grid<T: Ord + std::hash::Hash>(xs: &[T]) -> J {
          let h = fast_hash::FxBuildHasher;
          let ok = |x: &T, y: &T| {
            (x == y) == (x.cmp(y).is_eq()) && (x != y || h.hash_one(x) == h.hash_one(y)) && x.partial_cmp(y) == Some(x.cmp(y))
          };
          a(xs.iter().map(|x| a(xs.iter().map(|y| if ok(x, y) { i(x.cmp(y) as i8) } else { i(9) }))))
        }
        let xs = op.at("xs").arr();
        let one = |x: &J| num(&x.arr()[0]);
        let r = match op.at("kind").str() {
          "pos" => grid(&xs.iter().map(pos).collect::<Vec<_>>()),
          "range" => grid(&xs.iter().map(range).collect::<Vec<_>>()),
          "idx" => grid(&xs.iter().map(|x| idx::Idx::new(one(x) as usize)).collect::<Vec<_>>()),
          "code" => grid(&xs.iter().map(|x| diagnostic::Code::n(one(x) as u16)).collect::<Vec<_>>()),
          x => fatal(x),
        };
        o([("r", r)])
      }),
      "chars" => guard(|| {
        let cp = |f: &str| u32::try_from(op.at(f).int()).unwrap_or_else(|_| fatal("char"));
        chars(cp("from"), cp("to"))
      }),
      "mk" => guard(|| makers[op.at("maker").us()].make(op.at("n").us(), op.at("show").bool())),
      // very many of a new maker, compared with the first ones, recent ones and the one before
      "far" => guard(|| {
        let mut mk = UniqMk::default();
        let first: [Uniq; 4] = std::array::from_fn(|_| mk.mk());
        let (mut recent, mut last) = (first, first[3]);
        let (mut same, mut next) = (0_i64, 8_u64);
        let n = (1_u64 << op.at("p").us()).min((1 << 32) - 1);
        for k in 4..n {
          let x = mk.mk();
          same += i64::from(first.contains(&x) || recent.contains(&x) || last == x);
          last = x;
          if k == next {
            recent.rotate_left(1);
            recent[3] = x;
            next *= 2;
          }
        }
        o([("r", i(same.min(1000)))])
      }),
      "always" => {
        let evals = std::cell::Cell::new(0);
        let (form, c) = (op.at("form").str(), op.at("c").bool());
        let (msg, n) = (op.at("m").text(), op.at("n").int());
        let go = || guard(|| o([("r", J::B(assertion(form, c, &msg, n, &evals)))]));
        let r = if op.get("late").is_some_and(J::bool) { unwinding(go) } else { go() };
        with(r, [("evals", i(evals.get())), ("logs", logs())])
      }
      "assertions" => {
        let evals = std::cell::Cell::new(0);
        let form = op.at("form").str();
        let (mut panics, mut no, mut seen) = (0_i64, 0_i64, 0_usize);
        let count = || LOGS.lock().unwrap_or_else(|e| e.into_inner()).drain(..).count();
        for _ in 0..op.at("n").us() {
          match guard(|| J::B(assertion(form, false, "m", 1, &evals))) {
            J::B(false) => no += 1,
            J::B(true) => {}
            _ => panics += 1,
          }
          seen += count();
        }
        let ns = [("evals", evals.get()), ("panics", panics), ("no", no), ("logs", seen as i64)];
        o([("r", o(ns.map(|(k, x)| (k, i(x)))))])
      }
      "u32" => {
        let n = usize::try_from(big(op.at("n"))).unwrap_or_else(|_| fatal("usize"));
        let r = guard(|| o([("r", bytes8(u64::from(always::convert::usize_to_u32(n))))]));
        with(r, [("logs", logs())])
      }
      "usize" => {
        let n = u32::try_from(big(op.at("n"))).unwrap_or_else(|_| fatal("u32"));
        let r = guard(|| o([("r", bytes8(always::convert::u32_to_usize(n) as u64))]));
        with(r, [("logs", logs())])
      }
      x => fatal(&format!("misc op {x}")),
    };
    obs.push(ob);
  }
}

/// The same elements from one of several kinds of iterators, not all of which know how many there are.
pub fn given<'a, T: 'a>(xs: Vec<T>, via: i64) -> Box<dyn Iterator<Item = T> + 'a> {
  let n = xs.len();
  match via {
    1 => Box::new(xs.into_iter().filter(|_| true)),
    2 => {
      let mut it = xs.into_iter();
      Box::new(std::iter::from_fn(move || it.next()))
    }
    3 => {
      let mut front = xs;
      let back = front.split_off(n / 2);
      Box::new(front.into_iter().chain(back))
    }
    4 => Box::new(xs.into_iter().flat_map(|x| [x])),
    _ => Box::new(xs.into_iter()),
  }
}
