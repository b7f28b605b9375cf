//! event-parse: `Parser`, `Sink`, `RowanSink`.
//!
//! Scenario: `toks`: `[[kind, text, byte_len], ...]`, kinds < 50 ordinary, 50..100 trivia, nodes are
//! 100 and up.

use crate::json::{J, a, fatal, i, o, opt, s};
use crate::{guard, nohandle};
use event_parse::rowan_sink::RowanSink;
use event_parse::{Entered, Exited, Expected, Parser, Save, Sink};
use rowan::NodeOrToken;
use std::collections::HashMap;
use token::{Token, Triviable};

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct K(u16);

impl Triviable for K {
  fn is_trivia(&self) -> bool {
    (50..100).contains(&self.0)
  }
}

impl From<K> for rowan::SyntaxKind {
  fn from(k: K) -> Self {
    rowan::SyntaxKind(k.0)
  }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum Lang {}

impl rowan::Language for Lang {
  type Kind = K;
  fn kind_from_raw(raw: rowan::SyntaxKind) -> K {
    K(raw.0)
  }
  fn kind_to_raw(kind: K) -> rowan::SyntaxKind {
    kind.into()
  }
}

#[derive(Debug, Clone, Copy)]
struct E(i64);

impl Expected<K> for E {
  fn expected(kind: K) -> Self {
    E(10_000 + i64::from(kind.0))
  }
}

enum Call {
  Enter(K),
  Token(K, String),
  Exit,
  Error(E),
}

#[derive(Default)]
struct Rec(Vec<Call>);

impl Sink<K, E> for Rec {
  fn enter(&mut self, kind: K) {
    self.0.push(Call::Enter(kind));
  }
  fn token(&mut self, token: Token<'_, K>) {
    self.0.push(Call::Token(token.kind, token.text.to_owned()));
  }
  fn exit(&mut self) {
    self.0.push(Call::Exit);
  }
  fn error(&mut self, error: E) {
    self.0.push(Call::Error(error));
  }
}

fn tok(t: Option<Token<'_, K>>) -> J {
  opt(t.map(|t| a([i(t.kind.0), s(t.text)])))
}

fn kind(j: &J) -> K {
  K(u16::try_from(j.int()).unwrap_or_else(|_| fatal("kind")))
}

pub fn run(sc: &J, obs: &mut Vec<J>) {
  let src: Vec<(K, String)> = sc
    .at("toks")
    .arr()
    .iter()
    .map(|t| (kind(&t.arr()[0]), t.arr()[1].str().to_owned()))
    .collect();
  let toks: Vec<Token<'_, K>> = src.iter().map(|(k, t)| Token { kind: *k, text: t }).collect();
  let mut p = Some(Parser::<K, E>::new(&toks));
  let mut ent = HashMap::<i64, Entered>::new();
  let mut exd = HashMap::<i64, Exited>::new();
  let mut sav = HashMap::<i64, Save>::new();
  for op in sc.at("ops").arr() {
    let n = |f: &str| op.at(f).int();
    let ret = if op.at("o").str() == "finish" {
      match p.take() {
        None => nohandle(),
        Some(p) => finish(p),
      }
    } else if let Some(p) = p.as_mut() {
      match op.at("o").str() {
        "enter" => guard(|| {
          ent.insert(n("h"), p.enter());
          o([("r", i(0))])
        }),
        "exit" => match ent.remove(&n("h")) {
          None => nohandle(),
          Some(en) => guard(|| {
            let ex = p.exit(en, kind(op.at("k")));
            exd.insert(n("h"), ex);
            o([("r", J::B(ex.is_empty()))])
          }),
        },
        "abandon" => match ent.remove(&n("h")) {
          None => nohandle(),
          Some(en) => guard(|| {
            p.abandon(en);
            o([("r", i(0))])
          }),
        },
        "precede" => match exd.get(&n("x")).copied() {
          None => nohandle(),
          Some(ex) => guard(|| {
            ent.insert(n("h"), p.precede(ex));
            o([("r", i(0))])
          }),
        },
        "peek" => guard(|| o([("r", tok(p.peek()))])),
        "peek_n" => guard(|| o([("r", tok(p.peek_n(op.at("n").us())))])),
        "at" => guard(|| o([("r", J::B(p.at(kind(op.at("k")))))])),
        "at_n" => guard(|| o([("r", J::B(p.at_n(op.at("n").us(), kind(op.at("k")))))])),
        "bump" => guard(|| o([("r", tok(Some(p.bump())))])),
        "eat" => guard(|| o([("r", tok(p.eat(kind(op.at("k")))))])),
        "error" => guard(|| {
          p.error(E(n("e")));
          o([("r", i(0))])
        }),
        "bumps" => guard(|| o([("r", a((0..n("n")).map(|_| tok(Some(p.bump())))))])),
        "errors" => guard(|| {
          (0..n("n")).for_each(|x| p.error(E(n("e") + x)));
          o([("r", i(0))])
        }),
        "leaves" => guard(|| {
          let empty = (0..n("n")).map(|x| {
            let en = p.enter();
            if *op.at("full") == J::B(true) {
              p.bump();
            }
            let ex = p.exit(en, kind(op.at("k")));
            exd.insert(n("h") + x, ex);
            J::B(ex.is_empty())
          });
          o([("r", J::A(empty.collect()))])
        }),
        "save" => guard(|| {
          sav.insert(n("h"), p.save());
          o([("r", i(0))])
        }),
        "ok_since" => match sav.remove(&n("h")) {
          None => nohandle(),
          Some(sv) => guard(|| o([("r", J::B(p.ok_since(sv)))])),
        },
        x => fatal(&format!("parse op {x}")),
      }
    } else {
      nohandle()
    };
    obs.push(ret);
  }
  // the bombs are not under test here
  ent.into_values().for_each(std::mem::forget);
}

fn finish(p: Parser<'_, K, E>) -> J {
  let mut rec = Rec::default();
  let fin = guard(|| {
    p.finish(&mut rec);
    i(0)
  });
  if fin != i(0) {
    return fin;
  }
  let mut toks = Vec::new();
  let mut lens = Vec::new();
  let mut shape = Vec::new();
  let mut errs = Vec::new();
  let mut sink = RowanSink::<K, E>::default();
  for c in &rec.0 {
    match c {
      Call::Enter(k) => shape.push(i(k.0)),
      Call::Token(k, t) => {
        toks.push(a([i(k.0), s(t.as_str())]));
        lens.push(i(t.len()));
        shape.push(i(k.0));
      }
      Call::Exit => shape.push(i(-1)),
      Call::Error(e) => errs.push(a([i(e.0), i(toks.len())])),
    }
  }
  // what `finish` would have done with this sink: `Sink` is all it knows of it
  let calls = std::mem::take(&mut rec.0);
  let rowan = guard(|| {
    for c in &calls {
      match c {
        Call::Enter(k) => sink.enter(*k),
        Call::Token(k, t) => sink.token(Token { kind: *k, text: t }),
        Call::Exit => sink.exit(),
        Call::Error(e) => sink.error(*e),
      }
    }
    let (root, errors) = sink.finish::<Lang>();
    let mut rshape = Vec::new();
    let mut rtoks = Vec::new();
    for ev in root.preorder_with_tokens() {
      match ev {
        rowan::WalkEvent::Enter(NodeOrToken::Node(n)) => rshape.push(i(n.kind().0)),
        rowan::WalkEvent::Leave(NodeOrToken::Node(_)) => rshape.push(i(-1)),
        rowan::WalkEvent::Enter(NodeOrToken::Token(t)) => {
          rshape.push(i(t.kind().0));
          let r = t.text_range();
          rtoks.push(a([i(t.kind().0), s(t.text()), i(u32::from(r.start())), i(u32::from(r.end()))]));
        }
        rowan::WalkEvent::Leave(NodeOrToken::Token(_)) => {}
      }
    }
    let rerrs = errors.iter().map(|e| {
      a([
        i(e.inner.0),
        i(u32::from(e.range.start())),
        i(u32::from(e.range.end())),
        i(e.kind.map_or(-1, |k| i64::from(k.0))),
      ])
    });
    o([("rshape", J::A(rshape)), ("rtoks", J::A(rtoks)), ("rerrs", a(rerrs))])
  });
  let mut ret = vec![
    ("toks".to_owned(), J::A(toks)),
    ("lens".to_owned(), J::A(lens)),
    ("shape".to_owned(), J::A(shape)),
    ("errs".to_owned(), J::A(errs)),
  ];
  match rowan.get("panic") {
    Some(_) => ret.push(("rpanic".to_owned(), J::B(true))),
    None => {
      let J::O(kvs) = rowan else { fatal("rowan") };
      ret.extend(kvs);
    }
  }
  J::O(ret)
}
