//! Stands for std::thread where the code under check starts threads of its own: what it would run on a new
//! thread waits here until the harness runs it on one of its own threads (`run_next`).
pub use std::thread::*;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};

type Job = Box<dyn FnOnce() + Send>;
static JOBS: Mutex<Vec<(usize, Job)>> = Mutex::new(Vec::new());
static NEXT: AtomicUsize = AtomicUsize::new(0);
static INLINE: AtomicBool = AtomicBool::new(false);

/// From now on a thread nobody has started runs when it is joined, on the joiner's.
pub fn run_when_joined() { INLINE.store(true, Ordering::SeqCst); }

pub struct JoinHandle<T> {
  slot: Arc<(Mutex<Option<T>>, Condvar)>,
  id: usize,
}

impl<T> JoinHandle<T> {
  pub fn join(self) -> Result<T> {
    if INLINE.load(Ordering::SeqCst) {
      let job = {
        let mut jobs = JOBS.lock().unwrap();
        jobs.iter().position(|j| j.0 == self.id).map(|i| jobs.remove(i).1)
      };
      if let Some(j) = job { j(); }
    }
    let mut g = self.slot.0.lock().unwrap();
    loop {
      if let Some(v) = g.take() {
        return Ok(v);
      }
      g = self.slot.1.wait(g).unwrap();
    }
  }
  pub fn is_finished(&self) -> bool { self.slot.0.lock().unwrap().is_some() }
}

#[derive(Default)]
pub struct Builder;

impl Builder {
  pub fn new() -> Self { Self }
  pub fn name(self, _: String) -> Self { self }
  pub fn stack_size(self, _: usize) -> Self { self }
  pub fn spawn<F: FnOnce() -> T + Send + 'static, T: Send + 'static>(self, f: F) -> std::io::Result<JoinHandle<T>> { Ok(spawn(f)) }
}

pub fn spawn<F: FnOnce() -> T + Send + 'static, T: Send + 'static>(f: F) -> JoinHandle<T> {
  let slot = Arc::new((Mutex::new(None), Condvar::new()));
  let s = slot.clone();
  let id = NEXT.fetch_add(1, Ordering::SeqCst);
  JOBS.lock().unwrap().push((id, Box::new(move || {
    let v = f();
    *s.0.lock().unwrap() = Some(v);
    s.1.notify_all();
  })));
  JoinHandle { slot, id }
}

/// How many threads wait to be started.
pub fn waiting() -> usize { JOBS.lock().unwrap().len() }

/// Is the next thread, on the caller's.
pub fn run_next() {
  let j = JOBS.lock().unwrap().remove(0);
  (j.1)();
}
