//! X04: warnings are spaced by at least their interval.
use bd_log::rate_limit_log::WarnTracker;
use vh::*;

entry!(x04_warn, {
  let ds = range("interval_s", 0, 1 << 20);
  let dn = range("interval_ns", 0, 999_999_999);
  let dur = time::Duration::new(ds as i64, dn as i32);
  let (mut s, mut n) = (1000u64, 0u64);
  let tr = WarnTracker::default();
  let mut last: Option<(u64, u64)> = None;
  for i in 0..param("calls", 3) {
    // any later instant
    let (s2, n2) = (range("s", 1000, 1 << 22), range("ns", 0, 999_999_999));
    assume(s2 > s || (s2 == s && n2 >= n));
    s = s2;
    n = n2;
    clock(s, n, s, n);
    let w = tr.should_warn(dur);
    let expect = match last {
      None => true,
      Some((ls, ln)) => {
        // now > last + interval
        let mut es = ls + ds;
        let mut en = ln + dn;
        if en >= 1_000_000_000 { en -= 1_000_000_000; es += 1; }
        s > es || (s == es && n > en)
      },
    };
    if i == 0 { check(w, "first_use_warns"); }
    check(w == expect, "fires_iff_interval_passed");
    if w { last = Some((s, n)); if i > 0 { reach("fired_again"); } } else { reach("suppressed"); }
  }
});

// callers on several threads at one instant: exactly one of them fires
entry!(x04_threads, {
  let tr = WarnTracker::default();
  clock(2000, 0, 2000, 0);
  let dur = time::Duration::seconds(range("interval_s", 0, 1 << 20) as i64);
  let before = choose("used_before", 2) == 1;
  if before {
    check(tr.should_warn(dur), "first_use_warns");
    let s = 2000 + range("later", 0, 1 << 21);
    clock(s, 0, s, 0);
  }
  let fired = std::sync::atomic::AtomicUsize::new(0);
  let due = std::sync::atomic::AtomicUsize::new(0);
  par(2, &|_| {
    due.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    if tr.should_warn(dur) { fired.fetch_add(1, std::sync::atomic::Ordering::SeqCst); }
  });
  let n = fired.load(std::sync::atomic::Ordering::SeqCst);
  if before { check(n <= 1, "threads_at_most_one"); reach(if n == 1 { "threads_again" } else { "threads_none" }); }
  else { check(n == 1, "threads_exactly_one"); }
});
