//! text-pos and apply-changes. Scenario: `text`: code points.

use crate::guard;
use crate::json::{J, a, cps, fatal, i, o, opt};
use text_pos::{PositionDb, PositionUtf16, RangeUtf16};
use text_size_util::{TextRange, TextSize};

/// A negative number n stands for 2^32 + n.
fn u(j: &J) -> u32 {
  let n = j.int();
  u32::try_from(if n < 0 { n + (1 << 32) } else { n }).unwrap_or_else(|_| fatal("u32"))
}

fn pos(p: PositionUtf16) -> [J; 2] {
  [i(p.line), i(p.col)]
}

pub fn range(x: &[J]) -> RangeUtf16 {
  RangeUtf16 {
    start: PositionUtf16 { line: u(&x[0]), col: u(&x[1]) },
    end: PositionUtf16 { line: u(&x[2]), col: u(&x[3]) },
  }
}

pub fn run(sc: &J, obs: &mut Vec<J>) {
  let mut text = sc.at("text").text();
  let db = PositionDb::new(&text);
  for op in sc.at("ops").arr() {
    let xs = |f: &dyn Fn(&J) -> J| a(op.at("xs").arr().iter().map(f));
    let ob = match op.at("o").str() {
      "pos" => guard(|| {
        o([("r", xs(&|x| opt(db.position_utf16(TextSize::from(u(x))).map(|p| a(pos(p))))))])
      }),
      "off" => guard(|| {
        o([("r", xs(&|x| {
          let p = PositionUtf16 { line: u(&x.arr()[0]), col: u(&x.arr()[1]) };
          opt(db.text_size_utf16(p).map(|t| i(u32::from(t))))
        }))])
      }),
      "range" => guard(|| {
        o([("r", xs(&|x| {
          let r = TextRange::new(u(&x.arr()[0]).into(), u(&x.arr()[1]).into());
          opt(db.range_utf16(r).map(|r| a(pos(r.start).into_iter().chain(pos(r.end)))))
        }))])
      }),
      "offs" => guard(|| {
        o([("r", xs(&|x| {
          let r = db.text_range_utf16(range(x.arr()));
          opt(r.map(|r| a([i(u32::from(r.start())), i(u32::from(r.end()))])))
        }))])
      }),
      "lines" => guard(|| {
        o([("r", xs(&|x| {
          let r = TextRange::new(u(&x.arr()[0]).into(), u(&x.arr()[1]).into());
          // an endless iterator is cut off (and then is no tiling)
          a(db.lines(r).take(1 << 20).map(|r| a([i(u32::from(r.start())), i(u32::from(r.end()))])))
        }))])
      }),
      "end" => guard(|| {
        let p = db.end_position_utf16();
        o([("r", a([i(u32::from(db.len())), i(p.line), i(p.col)]))])
      }),
      "apply" => guard(|| {
        let changes = op.at("changes").arr().iter().map(|c| apply_changes::Change {
          range: c.at("r").arr().first().map(|r| range(r.arr())),
          text: c.at("t").text(),
        });
        apply_changes::get(&mut text, changes.collect());
        o([("r", cps(&text))])
      }),
      x => fatal(&format!("text op {x}")),
    };
    obs.push(ob);
  }
}
