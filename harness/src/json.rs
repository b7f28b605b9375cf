//! A small JSON reader and writer (no crates beyond the repository's own are assumed).

#[derive(Debug, Clone, PartialEq)]
pub enum J {
  B(bool),
  I(i64),
  S(String),
  A(Vec<J>),
  O(Vec<(String, J)>),
}

impl J {
  pub fn get(&self, k: &str) -> Option<&J> {
    match self {
      J::O(kvs) => kvs.iter().find(|(x, _)| x == k).map(|(_, v)| v),
      _ => None,
    }
  }
  pub fn at(&self, k: &str) -> &J {
    self.get(k).unwrap_or_else(|| fatal(&format!("no field {k} in {self:?}")))
  }
  pub fn int(&self) -> i64 {
    match self {
      J::I(n) => *n,
      _ => fatal(&format!("not an int: {self:?}")),
    }
  }
  pub fn us(&self) -> usize {
    usize::try_from(self.int()).unwrap_or_else(|_| fatal("negative"))
  }
  pub fn str(&self) -> &str {
    match self {
      J::S(s) => s,
      _ => fatal(&format!("not a string: {self:?}")),
    }
  }
  pub fn bool(&self) -> bool {
    match self {
      J::B(b) => *b,
      _ => fatal(&format!("not a bool: {self:?}")),
    }
  }
  pub fn arr(&self) -> &[J] {
    match self {
      J::A(xs) => xs,
      _ => fatal(&format!("not an array: {self:?}")),
    }
  }
  /// `[cp, cp, ...]` as a string.
  pub fn text(&self) -> String {
    self.arr().iter().map(|c| char::from_u32(u32::try_from(c.int()).unwrap()).unwrap()).collect()
  }
  pub fn ints(&self) -> Vec<i64> {
    self.arr().iter().map(J::int).collect()
  }
}

/// The machinery is broken (not the code under test).
pub fn fatal(msg: &str) -> ! {
  eprintln!("HARNESS-FATAL: {msg}");
  std::process::exit(70)
}

pub fn i<N: TryInto<i64>>(n: N) -> J {
  J::I(n.try_into().unwrap_or(-2))
}
pub fn s<S: Into<String>>(x: S) -> J {
  J::S(x.into())
}
pub fn cps(x: &str) -> J {
  J::A(x.chars().map(|c| J::I(i64::from(u32::from(c)))).collect())
}
pub fn a<I: IntoIterator<Item = J>>(xs: I) -> J {
  J::A(xs.into_iter().collect())
}
pub fn o<const N: usize>(xs: [(&str, J); N]) -> J {
  J::O(xs.into_iter().map(|(k, v)| (k.to_owned(), v)).collect())
}
/// Options are arrays of length 0 or 1.
pub fn opt(x: Option<J>) -> J {
  J::A(x.into_iter().collect())
}

pub fn write(j: &J, out: &mut String) {
  match j {
    J::B(b) => out.push_str(if *b { "true" } else { "false" }),
    J::I(n) => out.push_str(&n.to_string()),
    J::S(s) => {
      out.push('"');
      for c in s.chars() {
        match c {
          '"' => out.push_str("\\\""),
          '\\' => out.push_str("\\\\"),
          c if (c as u32) < 32 || (c as u32) > 126 => {
            let mut buf = [0u16; 2];
            for u in c.encode_utf16(&mut buf) {
              out.push_str(&format!("\\u{u:04x}"));
            }
          }
          c => out.push(c),
        }
      }
      out.push('"');
    }
    J::A(xs) => {
      out.push('[');
      for (n, x) in xs.iter().enumerate() {
        if n != 0 {
          out.push(',');
        }
        write(x, out);
      }
      out.push(']');
    }
    J::O(kvs) => {
      out.push('{');
      for (n, (k, v)) in kvs.iter().enumerate() {
        if n != 0 {
          out.push(',');
        }
        write(&J::S(k.clone()), out);
        out.push(':');
        write(v, out);
      }
      out.push('}');
    }
  }
}

pub fn parse(s: &str) -> J {
  let mut p = P { b: s.as_bytes(), i: 0 };
  let v = p.val();
  p.ws();
  if p.i != p.b.len() {
    fatal("trailing junk in JSON");
  }
  v
}

struct P<'a> {
  b: &'a [u8],
  i: usize,
}

impl P<'_> {
  fn ws(&mut self) {
    while self.i < self.b.len() && self.b[self.i].is_ascii_whitespace() {
      self.i += 1;
    }
  }
  fn peek(&mut self) -> u8 {
    self.ws();
    *self.b.get(self.i).unwrap_or_else(|| fatal("JSON ends early"))
  }
  fn eat(&mut self, c: u8) {
    if self.peek() != c {
      fatal(&format!("JSON: expected {} at {}", c as char, self.i));
    }
    self.i += 1;
  }
  fn word(&mut self, w: &str, j: J) -> J {
    if self.b[self.i..].starts_with(w.as_bytes()) {
      self.i += w.len();
      j
    } else {
      fatal("JSON: bad word")
    }
  }
  fn val(&mut self) -> J {
    match self.peek() {
      b'{' => {
        self.i += 1;
        let mut kvs = Vec::new();
        if self.peek() == b'}' {
          self.i += 1;
          return J::O(kvs);
        }
        loop {
          self.ws();
          let k = self.string();
          self.eat(b':');
          let v = self.val();
          kvs.push((k, v));
          if self.peek() == b',' {
            self.i += 1;
          } else {
            self.eat(b'}');
            return J::O(kvs);
          }
        }
      }
      b'[' => {
        self.i += 1;
        let mut xs = Vec::new();
        if self.peek() == b']' {
          self.i += 1;
          return J::A(xs);
        }
        loop {
          xs.push(self.val());
          if self.peek() == b',' {
            self.i += 1;
          } else {
            self.eat(b']');
            return J::A(xs);
          }
        }
      }
      b'"' => J::S(self.string()),
      b't' => self.word("true", J::B(true)),
      b'f' => self.word("false", J::B(false)),
      _ => {
        let st = self.i;
        while self.i < self.b.len() && matches!(self.b[self.i], b'-' | b'0'..=b'9') {
          self.i += 1;
        }
        let t = std::str::from_utf8(&self.b[st..self.i]).unwrap();
        J::I(t.parse().unwrap_or_else(|_| fatal(&format!("JSON: bad number {t:?}"))))
      }
    }
  }
  fn string(&mut self) -> String {
    self.eat(b'"');
    let mut out = Vec::<u8>::new();
    loop {
      let c = *self.b.get(self.i).unwrap_or_else(|| fatal("JSON: string ends early"));
      self.i += 1;
      match c {
        b'"' => return String::from_utf8(out).unwrap_or_else(|_| fatal("JSON: not UTF-8")),
        b'\\' => {
          let e = self.b[self.i];
          self.i += 1;
          match e {
            b'n' => out.push(b'\n'),
            b't' => out.push(b'\t'),
            b'r' => out.push(b'\r'),
            b'u' => {
              let mut n = self.hex();
              if (0xd800..0xdc00).contains(&n) {
                self.i += 2;
                let m = self.hex();
                n = 0x10000 + ((n - 0xd800) << 10) + (m - 0xdc00);
              }
              let c = char::from_u32(n).unwrap_or_else(|| fatal("JSON: bad escape"));
              out.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
            }
            e => out.push(e),
          }
        }
        c => out.push(c),
      }
    }
  }
  fn hex(&mut self) -> u32 {
    let t = std::str::from_utf8(&self.b[self.i..self.i + 4]).unwrap();
    self.i += 4;
    u32::from_str_radix(t, 16).unwrap_or_else(|_| fatal("JSON: bad escape"))
  }
}
