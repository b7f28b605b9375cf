//! Runs syntax-gen. `syngen IN`: each line of IN is `{"dir", "lang", "trivia", "grammar", "doc",
//! "special", "file"}`; the files are made in `dir`, or a file `panic` if that failed. With no
//! argument, prints the names of characters.

#[allow(dead_code)]
#[path = "../../harness/src/json.rs"]
mod json;

use json::{J, fatal};
use std::collections::HashMap;

fn table(j: &J) -> Vec<(String, String)> {
  j.arr().iter().map(|x| (x.arr()[0].text(), x.arr()[1].text())).collect()
}

fn main() {
  let Some(inp) = std::env::args().nth(1) else {
    let all = (0..=u32::from(char::MAX)).filter_map(char::from_u32);
    let named = all.filter_map(|c| char_name::get_opt(c).map(|n| (c, n)));
    let j = json::a(named.map(|(c, n)| json::o([("c", json::i(u32::from(c))), ("n", json::cps(n))])));
    let mut out = String::new();
    json::write(&j, &mut out);
    println!("{out}");
    return;
  };
  for line in std::fs::read_to_string(inp).unwrap_or_else(|_| fatal("no IN")).lines() {
    let j = json::parse(line);
    let dir = j.at("dir").text();
    // SAFETY: this is the only thread
    unsafe { std::env::set_var("OUT_DIR", &dir) };
    let trivia: Vec<String> = j.at("trivia").arr().iter().map(J::text).collect();
    let trivia: Vec<&str> = trivia.iter().map(String::as_str).collect();
    let doc = table(j.at("doc"));
    let special = table(j.at("special"));
    let doc: HashMap<&str, &str> = doc.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
    let special: HashMap<&str, &str> = special.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
    let res = std::panic::catch_unwind(|| {
      syntax_gen::get(&syntax_gen::Options {
        lang: &j.at("lang").text(),
        trivia: &trivia,
        grammar: &j.at("grammar").text(),
        doc: &doc,
        special: &special,
        file: &j.at("file").text(),
      });
    });
    if let Err(e) = res {
      let msg = e.downcast_ref::<String>().map(String::as_str).or(e.downcast_ref::<&str>().copied());
      std::fs::write(format!("{dir}/panic"), msg.unwrap_or("?")).unwrap_or_else(|_| fatal("write"));
    }
  }
}
