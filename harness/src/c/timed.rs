//! elapsed. A scenario's operations are calls `{"how": "time"|"log", "m": message, "us": busy time,
//! "kids": [call...], "panic": bool}`, where the timed function makes the calls `kids` itself.
//! The observation has the calls that came back, in that order, and all log records. Times are
//! nanoseconds; `inner` is measured in the timed function, `outer` around the call.

use crate::json::{J, fatal, i, o};
use std::cell::{Cell, RefCell};
use std::time::{Duration, Instant};

fn ns(d: Duration) -> J {
  i(d.as_nanos().min(2_000_000_000))
}

/// What a timed function gives. It can be neither copied nor made by the code under test.
struct Token(String, usize);

struct Cx {
  done: RefCell<Vec<J>>,
  next: Cell<usize>,
}

fn call(cx: &Cx, c: &J) {
  let me = cx.next.get();
  cx.next.set(me + 1);
  let evals = Cell::new(0);
  let inner = Cell::new(Duration::ZERO);
  let msg = c.at("m").text();
  let body = || {
    let start = Instant::now();
    evals.set(evals.get() + 1);
    let us = Duration::from_micros(c.at("us").us() as u64);
    while start.elapsed() < us {
      std::hint::spin_loop();
    }
    for k in c.at("kids").arr() {
      call(cx, k);
    }
    if c.at("panic").bool() {
      std::panic::panic_any(me);
    }
    let ret = Token(msg.clone(), me);
    inner.set(start.elapsed());
    ret
  };
  let start = Instant::now();
  let (ret, took) = match c.at("how").str() {
    "time" => {
      let (x, d) = elapsed::time(body);
      (x, ns(d))
    }
    "log" => (elapsed::log(&msg, body), i(-1)),
    x => fatal(x),
  };
  let outer = start.elapsed();
  cx.done.borrow_mut().push(o([
    ("call", i(me)),
    ("evals", i(evals.get())),
    ("same", J::B(ret.0 == msg && ret.1 == me)),
    ("inner", ns(inner.get())),
    ("took", took),
    ("outer", ns(outer)),
  ]));
}

pub fn run(sc: &J, obs: &mut Vec<J>) {
  for op in sc.at("ops").arr() {
    super::misc::logs();
    let level = match op.at("level").str() {
      "off" => log::LevelFilter::Off,
      "error" => log::LevelFilter::Error,
      "warn" => log::LevelFilter::Warn,
      "info" => log::LevelFilter::Info,
      "debug" => log::LevelFilter::Debug,
      "trace" => log::LevelFilter::Trace,
      x => fatal(x),
    };
    log::set_max_level(level);
    let cx = Cx { done: RefCell::default(), next: Cell::new(0) };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| call(&cx, op.at("call"))));
    log::set_max_level(log::LevelFilter::Trace);
    // which call's panic came through: -1 for none, -2 for another one
    let panic = match r {
      Ok(()) => i(-1),
      Err(p) => p.downcast_ref::<usize>().map_or(i(-2), |x| i(*x)),
    };
    obs.push(o([("done", J::A(cx.done.take())), ("panic", panic), ("logs", super::misc::logs())]));
  }
}
