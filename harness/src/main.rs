//! Drives the real language-util crates through scenarios and records what they do.
//!
//! `drive IN OUT`: IN has one scenario per line, `{"c": component, ..., "ops": [op, ...]}`; OUT gets
//! one line per scenario, `{"obs": [observation, ...]}`, with one observation per operation. A panic
//! inside an operation is data: the observation is `{"panic": true}`. Nothing here decides whether
//! an observation is right: the TLA+ specifications do.

mod json;
mod c;

use json::{J, fatal};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering};

static PROGRESS: AtomicU64 = AtomicU64::new(0);

/// Runs one operation on the code under test.
pub fn guard<F: FnOnce() -> J>(f: F) -> J {
  match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
    Ok(x) => x,
    Err(_) => json::o([("panic", J::B(true))]),
  }
}

/// An operation refers to a handle that an earlier (panicked) operation should have made.
pub fn nohandle() -> J {
  json::o([("nohandle", J::B(true))])
}

/// The processor time this process has had.
fn cpu_secs() -> u64 {
  let stat = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
  let after = stat.rsplit(')').next().unwrap_or_default();
  let nums: Vec<u64> = after.split_whitespace().map(|x| x.parse().unwrap_or(0)).collect();
  (nums.get(11).unwrap_or(&0) + nums.get(12).unwrap_or(&0)) / 100
}

fn main() {
  let args: Vec<String> = std::env::args().collect();
  if args.len() < 3 {
    fatal("usage: drive IN OUT [LIMIT_S]");
  }
  let limit: u64 = args.get(3).map_or(60, |x| x.parse().unwrap());
  std::panic::set_hook(Box::new(|_| {}));
  c::misc::init_log();
  let outdir = std::path::Path::new(&args[2]).parent().unwrap_or_else(|| fatal("OUT has no directory"));
  let _ = c::path::SCRATCH.set(outdir.to_owned());
  std::thread::spawn(move || {
    let mut last = u64::MAX;
    let mut secs = 0;
    let mut cpu = cpu_secs();
    loop {
      std::thread::sleep(std::time::Duration::from_secs(1));
      let now = PROGRESS.load(Ordering::SeqCst);
      if now == last {
        secs += 1;
        // on a busy machine little work may be done in much time.
        if cpu_secs() - cpu > limit || secs > limit * 4 {
          eprintln!("HANG");
          std::process::exit(71);
        }
      } else {
        last = now;
        secs = 0;
        cpu = cpu_secs();
      }
    }
  });
  let inp = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap_or_else(|_| fatal("no IN")));
  let mut out =
    std::io::BufWriter::new(std::fs::File::create(&args[2]).unwrap_or_else(|_| fatal("no OUT")));
  // a deep (legitimate) recursion in a big scenario is no violation
  let th = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
    for line in inp.lines() {
      let line = line.unwrap_or_else(|_| fatal("cannot read"));
      let sc = json::parse(&line);
      let mut obs = Vec::new();
      c::run(&sc, &mut obs);
      let mut buf = String::new();
      json::write(&json::o([("obs", J::A(obs))]), &mut buf);
      buf.push('\n');
      out.write_all(buf.as_bytes()).and_then(|()| out.flush()).unwrap_or_else(|_| fatal("write"));
      PROGRESS.fetch_add(1, Ordering::SeqCst);
    }
  });
  th.unwrap().join().unwrap_or_else(|_| fatal("driver thread panicked"));
}
