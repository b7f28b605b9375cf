//! Markers of event-parse and str-process: what happens when they are given back, dropped, or
//! dropped while another panic is coming through. They are numbered from 1 as they are made.

use crate::guard;
use crate::json::{J, fatal, o};
use event_parse::{Entered, Exited, Expected, Parser};
use str_process::{Marker, St};
use token::{Token, Triviable};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
struct K(bool);

impl Triviable for K {
  fn is_trivia(&self) -> bool {
    self.0
  }
}

#[derive(Debug)]
struct E;

impl Expected<K> for E {
  fn expected(_: K) -> Self {
    E
  }
}

enum M {
  P(Entered),
  S(Marker),
}

/// Drops `x` while a panic is coming through.
fn lost<T>(x: T) -> J {
  struct Ours;
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
    let _x = x;
    std::panic::panic_any(Ours);
  }));
  o([("ours", J::B(r.is_err_and(|e| e.is::<Ours>())))])
}

pub fn run(sc: &J, obs: &mut Vec<J>) {
  let toks: Vec<_> =
    sc.at("toks").arr().iter().map(|t| Token { kind: K(t.bool()), text: "x" }).collect();
  let text = sc.at("text").text();
  let mut p = Parser::<K, E>::new(&toks);
  let mut st = St::new(&text);
  let mut ms: Vec<Option<M>> = Vec::new();
  let mut ex: Option<Exited> = None;
  for op in sc.at("ops").arr() {
    let mut take = || {
      ms.get_mut(op.at("m").us() - 1).and_then(Option::take).unwrap_or_else(|| fatal("no such marker"))
    };
    let mut made: Option<M> = None;
    let ob = match op.at("o").str() {
      "enter" => guard(|| {
        made = Some(M::P(p.enter()));
        J::B(true)
      }),
      "precede" => guard(|| {
        made = Some(M::P(p.precede(ex.unwrap_or_else(|| fatal("nothing to precede")))));
        J::B(true)
      }),
      "mark" => guard(|| {
        made = Some(M::S(st.mark()));
        J::B(true)
      }),
      "save" => guard(|| {
        drop(p.save());
        J::B(true)
      }),
      "bump" => guard(|| {
        if p.peek().is_some() {
          p.bump();
        }
        if st.cur().is_some() {
          st.next_str();
        }
        J::B(true)
      }),
      "error" => guard(|| {
        p.error(E);
        J::B(true)
      }),
      how => match (how, take()) {
        ("exit", M::P(en)) => guard(|| {
          ex = Some(p.exit(en, K(false)));
          J::B(true)
        }),
        ("abandon", M::P(en)) => guard(|| {
          p.abandon(en);
          J::B(true)
        }),
        ("since", M::S(m)) => guard(|| {
          let _ = st.since(m);
          J::B(true)
        }),
        ("did", M::S(m)) => guard(|| {
          let _ = st.did_bump_since(m);
          J::B(true)
        }),
        ("drop", M::P(x)) => guard(|| {
          drop(x);
          J::B(true)
        }),
        ("drop", M::S(x)) => guard(|| {
          drop(x);
          J::B(true)
        }),
        ("lost", M::P(x)) => lost(x),
        ("lost", M::S(x)) => lost(x),
        (x, _) => fatal(&format!("mark op {x}")),
      },
    };
    if op.at("o").str() == "enter" || op.at("o").str() == "precede" || op.at("o").str() == "mark" {
      ms.push(made);
    }
    obs.push(if ob.get("panic").is_some() || ob.get("ours").is_some() { ob } else { o([("r", ob)]) });
  }
  // what was not used would panic
  std::mem::forget(ms);
}
