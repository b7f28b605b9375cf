//! What the programs made from generated code have in common.

use crate::json::{self, J, a, cps, fatal, i, o, opt};
use crate::kind::{SyntaxKind, SyntaxNode, SyntaxToken};
use std::io::Write as _;

pub fn guard<F: FnOnce() -> J>(f: F) -> J {
  match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
    Ok(x) => o([("r", x)]),
    Err(_) => o([("panic", J::B(true))]),
  }
}

pub fn name(k: SyntaxKind) -> J {
  cps(&format!("{k:?}"))
}

/// Where an element is among its siblings, from 1; 0 if it is not a child of `n`.
pub fn at_n(n: &SyntaxNode, x: &SyntaxNode) -> J {
  i(if x.parent().as_ref() == Some(n) { x.index() + 1 } else { 0 })
}
pub fn at_t(n: &SyntaxNode, x: &SyntaxToken) -> J {
  i(if x.parent().as_ref() == Some(n) { x.index() + 1 } else { 0 })
}

fn build(b: &mut rowan::GreenNodeBuilder<'_>, t: &J, kinds: &[(String, u16)]) {
  let k = t.at("k").text();
  let k = kinds.iter().find(|x| x.0 == k).map_or_else(|| panic!("no such kind"), |x| x.1);
  if t.at("tok").bool() {
    b.token(rowan::SyntaxKind(k), "x");
  } else {
    b.start_node(rowan::SyntaxKind(k));
    for x in t.at("ch").arr() {
      build(b, x, kinds);
    }
    b.finish_node();
  }
}

fn kinds<L: rowan::Language<Kind = SyntaxKind>>(max: u16) -> Vec<SyntaxKind> {
  let mut ks = Vec::new();
  for raw in 0..max {
    match std::panic::catch_unwind(|| L::kind_from_raw(rowan::SyntaxKind(raw))) {
      Ok(k) => ks.push(k),
      Err(_) => break,
    }
  }
  ks
}

pub fn run<L: rowan::Language<Kind = SyntaxKind>>(
  trivia: fn(&SyntaxKind) -> bool,
  cast: fn(&SyntaxNode) -> J,
  fields: fn(&SyntaxNode) -> J,
  toks: fn(&SyntaxToken) -> J,
  root: fn(&SyntaxNode) -> J,
  by: [&str; 2],
) {
  std::panic::set_hook(Box::new(|_| {}));
  let args: Vec<String> = std::env::args().collect();
  let text = std::fs::read_to_string(&args[1]).unwrap_or_else(|_| fatal("no IN"));
  let mut out = std::fs::File::create(&args[2]).unwrap_or_else(|_| fatal("no OUT"));
  for line in text.lines() {
    let sc = json::parse(line);
    // one more than there should be is enough to tell
    let ks = kinds::<L>(u16::try_from(sc.at("kinds").int()).unwrap_or_else(|_| fatal("kinds")));
    let named: Vec<(String, u16)> =
      ks.iter().map(|&k| (format!("{k:?}"), L::kind_to_raw(k).0)).collect();
    let mut obs = Vec::new();
    for op in sc.at("ops").arr() {
      obs.push(guard(|| match op.at("o").str() {
        "kinds" => a(ks.iter().enumerate().map(|(raw, k)| {
          o([
            ("n", name(*k)),
            ("raw", i(raw)),
            ("back", i(L::kind_to_raw(*k).0)),
            ("triv", J::B(trivia(k))),
            ("desc", opt(k.token_desc().map(cps))),
            ("doc", opt(k.token_doc().map(cps))),
            ("show", cps(&k.to_string())),
          ])
        })),
        "punct" => a(SyntaxKind::PUNCTUATION.iter().map(|&(t, k)| {
          a([a(t.iter().map(|&b| i(b))), name(k)])
        })),
        "keyword" => a(op.at("ts").arr().iter().map(|t| {
          let bs: Vec<u8> = t.ints().into_iter().map(|x| x as u8).collect();
          opt(SyntaxKind::keyword(&bs).map(name))
        })),
        "tree" => {
          let mut b = rowan::GreenNodeBuilder::new();
          build(&mut b, op.at("t"), &named);
          let tree = SyntaxNode::new_root(b.finish());
          a(tree.descendants().map(|n| {
            let ts = n.children_with_tokens().map(|e| e.as_token().map_or(a([]), toks));
            o([("cast", cast(&n)), ("fields", fields(&n)), ("toks", a(ts)), ("root", root(&n))])
          }))
        }
        "by" => a(by.iter().map(|x| cps(x))),
        x => fatal(x),
      }));
    }
    let mut buf = String::new();
    json::write(&o([("obs", J::A(obs))]), &mut buf);
    buf.push('\n');
    out.write_all(buf.as_bytes()).unwrap_or_else(|_| fatal("write"));
  }
}
