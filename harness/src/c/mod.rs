pub mod chain;
pub mod cursor;
pub mod mark;
pub mod misc;
pub mod parse;
pub mod pat;
pub mod path;
pub mod text;
pub mod timed;
pub mod topo;
pub mod written;

use crate::json::{J, fatal};

pub fn run(sc: &J, obs: &mut Vec<J>) {
  match sc.at("c").str() {
    "chain" => chain::run(sc, obs),
    "cursor" => cursor::run(sc, obs),
    "mark" => mark::run(sc, obs),
    "misc" => misc::run(sc, obs),
    "parse" => parse::run(sc, obs),
    "pat" => pat::run(sc, obs),
    "path" => path::run(sc, obs),
    "text" => text::run(sc, obs),
    "timed" => timed::run(sc, obs),
    "topo" => topo::run(sc, obs),
    "written" => written::run(sc, obs),
    c => fatal(&format!("no component {c}")),
  }
}
