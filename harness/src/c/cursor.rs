//! str-process. After every operation the index and the current byte are observed.

use crate::guard;
use crate::json::{J, a, fatal, i, o, opt};
use str_process::{Marker, St};

pub fn run(sc: &J, obs: &mut Vec<J>) {
  let text = String::from_utf8(sc.at("bytes").ints().iter().map(|&b| b as u8).collect())
    .unwrap_or_else(|_| fatal("not UTF-8"));
  let mut st = St::new(&text);
  let mut marks: Vec<Option<Marker>> = Vec::new();
  let bytes = |f: &J| f.ints().iter().map(|&b| b as u8).collect::<Vec<u8>>();
  for op in sc.at("ops").arr() {
    let mut mark = || {
      let m = marks.get_mut(op.at("m").us() - 1).and_then(Option::take);
      m.unwrap_or_else(|| fatal("no such mark"))
    };
    let ob = match op.at("o").str() {
      "bump" => guard(|| {
        st.bump();
        J::B(true)
      }),
      "while" => guard(|| {
        let set = bytes(op.at("set"));
        st.bump_while(|b| set.contains(&b));
        J::B(true)
      }),
      "eat" => guard(|| J::B(st.eat_prefix(&bytes(op.at("p"))))),
      "next_str" => guard(|| {
        st.next_str();
        J::B(true)
      }),
      "mark" => {
        marks.push(Some(st.mark()));
        J::B(true)
      }
      "since" => {
        let m = mark();
        guard(|| a(st.since(m).iter().map(|&b| i(b))))
      }
      "non_empty" => {
        let m = mark();
        guard(|| a(st.non_empty_since(m).iter().map(|&b| i(b))))
      }
      "did" => {
        let m = mark();
        guard(|| J::B(st.did_bump_since(m)))
      }
      x => fatal(&format!("cursor op {x}")),
    };
    obs.push(if ob.get("panic").is_some() {
      ob
    } else {
      o([("r", ob), ("idx", i(st.cur_idx())), ("cur", opt(st.cur().map(i)))])
    });
  }
  // marks not used would panic when dropped
  for m in marks.into_iter().flatten() {
    let _ = guard(|| J::B(st.did_bump_since(m)));
  }
}
