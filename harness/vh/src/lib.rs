//! The interface between harness code and the two things that execute it: the symbolic engine (which
//! intercepts these externs) and the native replay shim (which reads recorded inputs).
#![allow(clippy::all)]

mod ffi {
  extern "C" {
    pub fn symx_var(n: *const u8, l: usize, bits: u32, lo: u64, hi: u64) -> u64;
    pub fn symx_choose(n: *const u8, l: usize, k: u64) -> u64;
    pub fn symx_concrete(v: u64) -> u64;
    pub fn symx_assume(c: u32);
    pub fn symx_assert(c: u32, n: *const u8, l: usize);
    pub fn symx_fail(n: *const u8, l: usize);
    pub fn symx_reach(n: *const u8, l: usize);
    pub fn symx_out(v: u64);
    pub fn symx_clock(ms: u64, mn: u64, rs: u64, rn: u64);
    pub fn symx_bytes(p: *mut u8, n: usize, name: *const u8, l: usize);
    pub fn symx_crash_run(f: extern "C" fn(*mut u8), a: *mut u8, region: *const u8, n: usize) -> u32;
    pub fn symx_disk(mode: u32, n: u64);
  pub fn symx_par(f: extern "C" fn(*const u8, u64), a: *const u8, n: u64);
    pub fn symx_done();
    pub fn symx_param(n: *const u8, l: usize, d: u64) -> u64;
  }
}

/// A symbolic value of `bits` bits with `lo <= v <= hi`.
#[inline(never)]
pub fn var(name: &str, bits: u32, lo: u64, hi: u64) -> u64 {
  unsafe { ffi::symx_var(name.as_ptr(), name.len(), bits, lo, hi) }
}
pub fn u8v(name: &str) -> u8 { var(name, 8, 0, 255) as u8 }
pub fn u16v(name: &str) -> u16 { var(name, 16, 0, 65535) as u16 }
pub fn u32v(name: &str) -> u32 { var(name, 32, 0, u64::from(u32::MAX)) as u32 }
pub fn u64v(name: &str) -> u64 { var(name, 64, 0, u64::MAX) }
pub fn i64v(name: &str) -> i64 { var(name, 64, 0, u64::MAX) as i64 }
pub fn boolv(name: &str) -> bool { var(name, 8, 0, 1) != 0 }
pub fn range(name: &str, lo: u64, hi: u64) -> u64 { var(name, 64, lo, hi) }
/// A symbolic choice in 0..k explored by explicit path splitting (returns a concrete value per path).
pub fn choose(name: &str, k: u64) -> u64 {
  unsafe { ffi::symx_choose(name.as_ptr(), name.len(), k) }
}
/// Splits the path over every feasible value.
pub fn concrete(v: u64) -> u64 { unsafe { ffi::symx_concrete(v) } }
pub fn assume(c: bool) { unsafe { ffi::symx_assume(u32::from(c)) } }
#[inline(never)]
pub fn check(c: bool, name: &str) { unsafe { ffi::symx_assert(u32::from(c), name.as_ptr(), name.len()) } }
#[inline(never)]
pub fn fail(name: &str) -> ! {
  unsafe { ffi::symx_fail(name.as_ptr(), name.len()) };
  loop {}
}
#[inline(never)]
pub fn reach(name: &str) { unsafe { ffi::symx_reach(name.as_ptr(), name.len()) } }
/// A bound of the exploration (quick and thorough runs set it differently).
pub fn param(name: &str, default: u64) -> u64 { unsafe { ffi::symx_param(name.as_ptr(), name.len(), default) } }
pub fn out(v: u64) { unsafe { ffi::symx_out(v) } }
/// Sets what CLOCK_MONOTONIC and CLOCK_REALTIME return from now on.
pub fn clock(mono_s: u64, mono_ns: u64, real_s: u64, real_ns: u64) {
  unsafe { ffi::symx_clock(mono_s, mono_ns, real_s, real_ns) }
}
pub fn bytes(buf: &mut [u8], name: &str) {
  unsafe { ffi::symx_bytes(buf.as_mut_ptr(), buf.len(), name.as_ptr(), name.len()) }
}
/// Runs `f`; on some paths stops it right before one of its stores to `region` (a symbolic crash point).
/// Returns true when it was stopped.
pub fn crash_run<F: FnMut()>(f: &mut F, region: *const u8, len: usize) -> bool {
  extern "C" fn tramp<F: FnMut()>(p: *mut u8) {
    let f: &mut F = unsafe { &mut *(p as *mut F) };
    f();
  }
  unsafe { ffi::symx_crash_run(tramp::<F>, f as *mut F as *mut u8, region, len) != 0 }
}
/// The disk from now on: no limit.
pub fn disk_good() { unsafe { ffi::symx_disk(0, 0) } }
/// The disk from now on: full after `n` more bytes (files can still be removed, renamed, emptied).
pub fn disk_full(n: u64) { unsafe { ffi::symx_disk(1, n) } }
/// The disk from now on: `n` more changes (a byte written, a file created, emptied, removed, renamed) take effect and
/// nothing after them, as when the process is killed there.
pub fn disk_dies(n: u64) { unsafe { ffi::symx_disk(2, n) } }
/// Runs `f(0)`..`f(n - 1)` on n threads, in every interleaving (at atomic instructions, within the bound on
/// preemptions); returns when all have finished.
pub fn par<F: Fn(usize) + Sync>(n: usize, f: &F) {
  extern "C" fn tramp<F: Fn(usize)>(p: *const u8, i: u64) {
    let f: &F = unsafe { &*(p as *const F) };
    f(i as usize);
  }
  unsafe { ffi::symx_par(tramp::<F>, f as *const F as *const u8, n as u64) }
}
/// Ends the path (nothing after this is executed).
pub fn done() -> ! {
  unsafe { ffi::symx_done() };
  loop {}
}

/// Polls a future with a waker that does nothing, at most `n` times.
pub fn poll_n<F: std::future::Future>(f: F, n: usize) -> Option<F::Output> {
  let mut f = std::pin::pin!(f);
  let w = std::task::Waker::noop_compat();
  let mut cx = std::task::Context::from_waker(&w);
  for _ in 0..n {
    if let std::task::Poll::Ready(v) = f.as_mut().poll(&mut cx) {
      return Some(v);
    }
  }
  None
}
pub fn poll_pinned<F: std::future::Future + ?Sized>(f: std::pin::Pin<&mut F>) -> Option<F::Output> {
  let w = std::task::Waker::noop_compat();
  let mut cx = std::task::Context::from_waker(&w);
  match f.poll(&mut cx) {
    std::task::Poll::Ready(v) => Some(v),
    std::task::Poll::Pending => None,
  }
}

trait NoopCompat {
  fn noop_compat() -> std::task::Waker;
}
impl NoopCompat for std::task::Waker {
  fn noop_compat() -> std::task::Waker {
    use std::task::{RawWaker, RawWakerVTable, Waker};
    fn c(_: *const ()) -> RawWaker { RawWaker::new(std::ptr::null(), &VT) }
    fn n(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(c, n, n, n);
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
  }
}

/// Declares an entry point of the harness.
#[macro_export]
macro_rules! entry {
  ($name:ident, $body:block) => {
    #[no_mangle]
    pub extern "C" fn $name() $body
  };
}

/// Waits for a future on the current thread of a parallel section (parks it when it has to wait).
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
  struct W(std::thread::Thread);
  impl std::task::Wake for W {
    fn wake(self: std::sync::Arc<Self>) { self.0.unpark(); }
  }
  let w = std::task::Waker::from(std::sync::Arc::new(W(std::thread::current())));
  let mut cx = std::task::Context::from_waker(&w);
  let mut f = std::pin::pin!(f);
  let mut n = 0u32;
  loop {
    n += 1;
    // what wakes itself until another thread gets on (tokio's AtomicWaker) lets it
    if n > 8 { std::thread::yield_now(); }
    match f.as_mut().poll(&mut cx) {
      std::task::Poll::Ready(v) => return v,
      std::task::Poll::Pending => std::thread::park(),
    }
  }
}
