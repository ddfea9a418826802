use super::{HTTPTrafficDataUsageTracker, TimeProvider};
use bd_log_primitives::{AnnotatedLogFields, LogInterceptor, LogMessage, LogType};
use bd_network_quality::NetworkQualityProvider;
use std::sync::{Arc, Mutex};

pub struct Usage {
  tracker: HTTPTrafficDataUsageTracker,
  now: Arc<Now>,
}

struct Now(Mutex<std::time::Instant>);
impl TimeProvider for Now {
  fn now(&self) -> std::time::Instant { *self.0.lock().unwrap() }
}

impl Usage {
  pub fn new(p: Arc<dyn NetworkQualityProvider>) -> Self {
    let now = Arc::new(Now(Mutex::new(std::time::Instant::now())));
    Self { tracker: HTTPTrafficDataUsageTracker::new(now.clone(), p), now }
  }
  pub fn later(&self, d: std::time::Duration) { *self.now.0.lock().unwrap() += d; }
  pub fn log(&self, t: LogType, m: &LogMessage, f: &mut AnnotatedLogFields) { self.tracker.process(2, t, m, f); }
}
