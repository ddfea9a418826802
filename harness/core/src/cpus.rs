//! X05: the worker count for every NUM_CPUS text of the forms below.
use vh::*;

const MAX: usize = bd_rt::MAX_RT_THREADPOOL_SIZE;

/// Up to `n` characters out of a numeric alphabet; every text over that alphabet of length 0..=n.
fn run(text: &str) -> usize {
  std::env::set_var("NUM_CPUS", text);
  let n = bd_rt::num_cpus();
  check(n >= 1, "at_least_one");
  check(n <= MAX, "at_most_max");
  n
}

// "<d><d>" digits, optionally with a fraction: honoured by rounding down.
entry!(x05_digits, {
  let n = choose("digits", 4) + 1;
  let mut s = String::new();
  let mut v: u64 = 0;
  for _ in 0..n {
    let d = range("d", 0, 9);
    v = v * 10 + d;
    s.push((b'0' + d as u8) as char);
  }
  if n <= 2 && boolv("frac") {
    let f = range("f", 0, 9);
    s.push('.');
    s.push((b'0' + f as u8) as char);
    if v == 0 {
      // a fraction of a CPU still gives one worker
      let r = run(&s);
      if f != 0 { check(r == 1, "fraction_is_one"); }
      reach("frac");
      return;
    }
  }
  let r = run(&s);
  if v >= 1 {
    out(r as u64);
    reach("valid");
    check(r as u64 == if v > MAX as u64 { MAX as u64 } else { v }, "rounded_down");
  }
});

entry!(x05_special, {
  std::env::remove_var("NUM_CPUS");
  let fallback = bd_rt::num_cpus();
  const T: [&str; 16] = [
    "", "abc", "nan", "inf", "-inf", "0", "-0", "-1", "-0.5", "1e-320", "1e400", "1e30", "18446744073709551616", "4096", "4097", "1e3",
  ];
  let k = choose("k", T.len() as u64) as usize;
  let r = run(T[k]);
  match k {
    0..=6 | 9 | 10 => { reach("ignored"); check(r == fallback, "unusable_is_ignored"); },
    7 | 8 => {},
    11 | 12 | 13 | 14 => { reach("clamped"); check(r == MAX, "clamped"); },
    _ => check(r == 1000, "exponent"),
  }
});
