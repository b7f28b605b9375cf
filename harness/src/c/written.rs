//! write-rs-tokens. `{"o": "write", "src": Rust tokens, "base": file name, "out": "dir"|"none"|"gone"}`
//! writes into a scratch directory, `{"o": "again", "from": file name, ...}` what is in a file there;
//! `{"o": "put", "base", "text"}` puts a file there. The observation
//! has all files there, with their text and their tokens, and the given tokens.

use crate::guard;
use crate::json::{J, a, cps, fatal, i, o, s};
use proc_macro2::{Delimiter, TokenStream, TokenTree};

/// Kinds of token: 0 a word, literal or punctuation, 1 an opening and 2 a closing delimiter.
fn flat(ts: TokenStream, out: &mut Vec<J>) {
  for t in ts {
    match t {
      TokenTree::Group(g) => {
        let (x, y) = match g.delimiter() {
          Delimiter::Parenthesis => ("(", ")"),
          Delimiter::Brace => ("{", "}"),
          Delimiter::Bracket => ("[", "]"),
          Delimiter::None => ("", ""),
        };
        out.push(a([i(1), s(x)]));
        flat(g.stream(), out);
        out.push(a([i(2), s(y)]));
      }
      t => out.push(a([i(0), s(t.to_string())])),
    }
  }
}
fn tokens(src: &str) -> J {
  match src.parse::<TokenStream>() {
    Ok(ts) => {
      let mut out = Vec::new();
      flat(ts, &mut out);
      a([J::A(out)])
    }
    Err(_) => a([]),
  }
}

fn literals(ts: TokenStream, out: &mut Vec<String>) {
  for t in ts {
    match t {
      TokenTree::Group(g) => literals(g.stream(), out),
      TokenTree::Literal(l) => out.push(l.to_string()),
      _ => {}
    }
  }
}

/// The lines of the source; what is inside a literal is no matter of layout.
fn lines(src: &str) -> J {
  let mut lits = Vec::new();
  if let Ok(ts) = src.parse() {
    literals(ts, &mut lits);
  }
  let mut out = String::new();
  let mut rest = src;
  for l in lits.iter().filter(|l| l.contains(['"', '\''])) {
    // docs are written as comments
    if let Some(k) = rest.find(l.as_str()) {
      out.push_str(&rest[..k]);
      out.push_str("\"\"");
      rest = &rest[k + l.len()..];
    }
  }
  out.push_str(rest);
  a(out.split('\n').map(cps))
}

pub fn run(sc: &J, obs: &mut Vec<J>) {
  let base = super::path::SCRATCH.get().unwrap_or_else(|| fatal("no scratch"));
  let root = base.join(format!("written-{}", std::process::id()));
  let ok = |r: std::io::Result<()>| r.unwrap_or_else(|e| fatal(&format!("scratch: {e}")));
  // what is written elsewhere than asked for should not get out of the scratch directory
  ok(std::fs::create_dir_all(root.join("cwd")));
  ok(std::env::set_current_dir(root.join("cwd")));
  let link = base.join(format!("écrit-{}", std::process::id()));
  ok(std::os::unix::fs::symlink(&root, &link));
  // a name that is no text
  let odd: &std::ffi::OsStr = std::os::unix::ffi::OsStrExt::from_bytes(b"w\xff \xc3");
  let odd = base.join(odd).with_extension(std::process::id().to_string());
  ok(std::os::unix::fs::symlink(&root, &odd));
  for op in sc.at("ops").arr() {
    let base = op.at("base").text();
    if base.is_empty() || base.contains("..") || base.starts_with('/') {
      fatal("base");
    }
    let ob = match op.at("o").str() {
      "put" => {
        ok(std::fs::write(root.join(&base), op.at("text").text()));
        o([("given", a([]))])
      }
      "write" | "again" => {
        // again: what is in a file already
        let src = match op.get("from") {
          Some(f) => std::fs::read_to_string(root.join(f.text())).unwrap_or_default(),
          None => op.at("src").text(),
        };
        let Ok(ts) = src.parse::<TokenStream>() else {
          obs.push(crate::nohandle());
          break;
        };
        let given = tokens(&src);
        // SAFETY: no other thread uses the environment
        unsafe {
          match op.at("out").str() {
            "dir" => match op.get("style").map_or("plain", J::str) {
              "plain" => std::env::set_var("OUT_DIR", &root),
              "slash" => std::env::set_var("OUT_DIR", root.join("")),
              "dot" => std::env::set_var("OUT_DIR", root.join("cwd/../.")),
              "relative" => std::env::set_var("OUT_DIR", ".."),
              "link" => std::env::set_var("OUT_DIR", &link),
              "bytes" => std::env::set_var("OUT_DIR", &odd),
              x => fatal(x),
            },
            "gone" => std::env::set_var("OUT_DIR", root.join("no such directory")),
            "none" => std::env::remove_var("OUT_DIR"),
            x => fatal(x),
          }
        }
        let r = guard(|| {
          write_rs_tokens::go(ts, &base);
          o([("r", J::B(true))])
        });
        match r {
          J::O(mut kvs) => {
            kvs.push(("given".to_owned(), given));
            J::O(kvs)
          }
          x => x,
        }
      }
      x => fatal(x),
    };
    let mut files = Vec::new();
    let mut walk = vec![root.clone()];
    while let Some(d) = walk.pop() {
      for e in std::fs::read_dir(&d).unwrap_or_else(|_| fatal("scratch")) {
        let p = e.unwrap_or_else(|_| fatal("scratch")).path();
        if p.is_dir() {
          walk.push(p);
          continue;
        }
        let name = p.strip_prefix(&root).unwrap_or_else(|_| fatal("scratch")).to_string_lossy().into_owned();
        // text that is no UTF-8 was never written by us
        let text = std::fs::read(&p).map(|b| String::from_utf8_lossy(&b).into_owned());
        let text = text.unwrap_or_else(|_| fatal("scratch"));
        files.push((name, text));
      }
    }
    files.sort();
    let files = a(files.into_iter().map(|(n, t)| {
      o([("name", cps(&n)), ("lines", lines(&t)), ("tokens", tokens(&t))])
    }));
    let J::O(mut kvs) = ob else { fatal("ob") };
    kvs.push(("files".to_owned(), files));
    obs.push(J::O(kvs));
  }
  ok(std::env::set_current_dir("/"));
  ok(std::fs::remove_file(&link));
  ok(std::fs::remove_file(&odd));
  ok(std::fs::remove_dir_all(&root));
}
