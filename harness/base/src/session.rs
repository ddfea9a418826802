//! S02: the activity based session strategy.
use bd_key_value::{Storage, Store};
use bd_session::activity_based::{Callbacks, Strategy};
use bd_session::verif_inside::{flush, session_id, start_new_session};
use bd_time::{TestTimeProvider, TimeProvider};
use std::sync::Arc;
use time::Duration;

#[derive(Clone, Default)]
struct Mem(Arc<parking_lot::Mutex<Vec<(String, String)>>>);

impl Storage for Mem {
  fn set_string(&self, key: &str, value: &str) -> anyhow::Result<()> {
    let mut g = self.0.lock();
    g.retain(|(k, _)| k != key);
    g.push((key.to_string(), value.to_string()));
    Ok(())
  }
  fn get_string(&self, key: &str) -> anyhow::Result<Option<String>> {
    Ok(self.0.lock().iter().find(|(k, _)| k == key).map(|(_, v)| v.clone()))
  }
  fn delete(&self, key: &str) -> anyhow::Result<()> {
    self.0.lock().retain(|(k, _)| k != key);
    Ok(())
  }
}

#[derive(Default)]
struct Announced(parking_lot::Mutex<Vec<String>>);
impl Callbacks for Announced {
  fn session_id_changed(&self, id: &str) { self.0.lock().push(id.to_string()); }
}

const THRESHOLD: i64 = 30;
const WRITES: i64 = 15;
const SEC: u64 = 1_000_000_000;

struct Model {
  id: Option<String>,
  /// last activity, and whether it is certainly what the store holds
  last: i64,
  exact: bool,
  loaded: bool,
  previous: Option<String>,
}

vh::entry!(s02_history, {
  let day = time::Date::from_ordinal_date(2024, 60).unwrap();
  let clock = TestTimeProvider::new(day.with_time(time::Time::from_hms(12, 1, 0).unwrap()).assume_utc());
  let mem = Mem::default();
  let calls = Arc::new(Announced::default());
  let run = || {
    Strategy::new(
      Duration::seconds(THRESHOLD),
      Arc::new(Store::new(Box::new(mem.clone()))),
      calls.clone(),
      Arc::new(clock.clone()) as Arc<dyn TimeProvider>,
    )
  };
  let mut s = run();
  let mut m = Model { id: None, last: 0, exact: true, loaded: false, previous: None };
  let mut seen: Vec<String> = vec![];
  let mut now = (60 * SEC) as i64;
  for _ in 0 .. vh::param("ops", 4) {
    match vh::choose("op", 5) {
      0 => {
        // time passes, or the clock is set back: to any second of three minutes and the nanosecond after it
        let (m, s, n) = (vh::range("minute", 0, 2), vh::range("second", 0, 59), vh::choose("nanos", vh::param("nanos", 2)));
        now = ((m * 60 + s) * SEC + n) as i64;
        let t = time::Time::from_hms_nano(12, m as u8, s as u8, n as u32).unwrap_or_else(|_| vh::fail("time"));
        clock.set_time(day.with_time(t).assume_utc());
      },
      1 => {
        let before = calls.0.lock().len();
        let id = session_id(&s);
        let said = calls.0.lock().len() - before;
        let gone = now - m.last;
        match &m.id {
          None => {
            vh::check(!seen.contains(&id), "fresh");
            vh::check(said == 1 && calls.0.lock()[before] == id, "announced_once");
            vh::reach("first");
          },
          Some(old) => {
            let new = gone < 0 || gone > THRESHOLD * SEC as i64;
            // how far behind the store's record of the last activity may be after a restart
            let slack = if m.exact || m.loaded { 0 } else { WRITES * SEC as i64 };
            if slack == 0 {
              vh::check((id != *old) == new, "new_exactly_after_the_threshold");
            } else if gone > THRESHOLD * SEC as i64 {
              vh::check(id != *old, "new_after_the_threshold");
            } else if gone >= 0 && gone + slack <= THRESHOLD * SEC as i64 {
              vh::check(id == *old, "survives_a_restart");
              vh::reach("survived");
            }
            if id != *old {
              vh::check(!seen.contains(&id), "fresh");
              vh::check(said == 1 && calls.0.lock()[before] == id, "announced_once");
              vh::reach("expired");
            } else {
              vh::check(said == 0, "no_change_not_announced");
              vh::reach("kept");
            }
          },
        }
        if !seen.contains(&id) {
          seen.push(id.clone());
        }
        m.id = Some(id);
        m.last = now;
        m.loaded = true;
        m.exact = false;
      },
      2 => {
        let id = start_new_session(&s);
        vh::check(!seen.contains(&id), "fresh");
        seen.push(id.clone());
        m.id = Some(id);
        m.last = now;
        m.loaded = true;
        m.exact = true;
      },
      3 => {
        flush(&s);
        m.exact |= m.loaded;
      },
      _ => {
        s = run();
        m.loaded = false;
        m.previous.clone_from(&m.id);
        vh::reach("restarted");
      },
    }
    vh::check(s.previous_process_session_id() == m.previous, "previous_unchanged_throughout_a_run");
  }
});
