//! S01: the fixed session strategy.
use crate::storage::{ascii, Mem};
use bd_key_value::Store;
use bd_session::fixed::{Callbacks, State, Strategy, STATE_KEY};
use bd_session::verif_inside::{session_id, start_new_session};
use std::sync::{Arc, Weak};

#[derive(Default)]
struct Inner {
  calls: usize,
  fail: bool,
  reenter: u64,
  inner_result: Option<bool>,
  strategy: Weak<Strategy>,
}
#[derive(Default)]
struct Cb(parking_lot::Mutex<Inner>);

impl Callbacks for Cb {
  fn generate_session_id(&self) -> anyhow::Result<String> {
    let (n, fail, re, s) = {
      let mut g = self.0.lock();
      g.calls += 1;
      (g.calls, g.fail, g.reenter, g.strategy.upgrade())
    };
    if let Some(s) = s {
      match re {
        1 => {
          // the identifier is not known yet: any answer, but no deadlock and no change of state
          let _ = session_id(&s);
        },
        2 => {
          let r = start_new_session(&s).is_err();
          self.0.lock().inner_result = Some(r);
        },
        _ => {},
      }
    }
    if fail {
      anyhow::bail!("no id");
    }
    Ok(format!("s{n}"))
  }
}

struct Run {
  strategy: Arc<Strategy>,
  current: Option<String>,
  previous: Option<String>,
}

vh::entry!(s01_history, {
  let m = Mem::default();
  let cb = Arc::new(Cb::default());
  let new = |previous: Option<String>| Run {
    strategy: Arc::new(Strategy::new(Arc::new(m.store()), cb.clone())),
    current: None,
    previous,
  };
  let mut stored: Option<String> = None;
  if vh::choose("stored", 2) == 1 {
    let v = ascii("id", 2);
    m.store().set(&STATE_KEY, &State { session_id: v.clone() });
    stored = Some(v);
  }
  let mut run = new(stored.clone());
  let mut calls = 0usize;
  for _ in 0..vh::param("ops", 4) {
    let op = vh::choose("op", 4);
    let generates = op == 1 || (op == 0 && run.current.is_none());
    if generates {
      let mode = vh::choose("callback", 4);
      let mut g = cb.0.lock();
      g.fail = mode == 3;
      g.reenter = if mode < 3 { mode } else { 0 };
      g.inner_result = None;
      g.strategy = Arc::downgrade(&run.strategy);
    }
    match op {
      0 => {
        let id = session_id(&run.strategy);
        match &run.current {
          Some(c) => {
            vh::check(*c == id, "query_is_stable");
            vh::reach("stable");
          },
          None => {
            calls += 1;
            expect(&cb, calls, &id);
            vh::reach("first_query");
          },
        }
        run.current = Some(id.clone());
        stored = Some(id);
      },
      1 => {
        let id = start_new_session(&run.strategy).unwrap();
        calls += 1;
        expect(&cb, calls, &id);
        vh::check(run.current.as_ref() != Some(&id), "new_identifier");
        run.current = Some(id.clone());
        stored = Some(id);
        vh::reach("new_session");
      },
      2 => {
        vh::check(run.strategy.previous_process_session_id() == run.previous, "previous_as_last_active_of_earlier_run");
        vh::reach("previous");
      },
      _ => {
        run = new(stored.clone());
        vh::reach("restart");
      },
    }
    vh::check(cb.0.lock().calls == calls, "callback_count");
    vh::check(cb.0.lock().inner_result != Some(false), "start_within_callback_refused");
    // what a next run would find is the last active identifier
    let s: Store = m.store();
    vh::check(s.get(&STATE_KEY).map(|s| s.session_id) == stored, "stored_is_last_active");
  }
});

fn expect(cb: &Cb, calls: usize, id: &str) {
  if cb.0.lock().fail {
    vh::check(id.len() == 36, "fallback_is_uuid");
    vh::reach("callback_failed");
  } else {
    vh::check(id == format!("s{calls}"), "identifier_from_callback");
  }
}

// the callback keeps working after it was entered once (the re-entrancy mark is taken back)
vh::entry!(s01_damaged, {
  let m = Mem::default();
  m.put(STATE_KEY.key(), &ascii("t", vh::choose("len", 5) as usize));
  let s = Strategy::new(Arc::new(m.store()), Arc::new(bd_session::fixed::UUIDCallbacks));
  let p = s.previous_process_session_id();
  vh::check(p.is_none(), "damaged_previous_is_absent");
  let id = session_id(&s);
  vh::check(session_id(&s) == id, "stable");
  vh::check(m.store().get(&STATE_KEY).map(|s| s.session_id) == Some(id), "stored");
  vh::reach("damaged");
});

// two threads using one strategy: as if one had gone first
vh::entry!(s01_threads, {
  let m = Mem::default();
  let cb = Arc::new(Cb::default());
  let stored = vh::choose("stored", 2) == 1;
  if stored {
    m.store().set(&STATE_KEY, &State { session_id: "old".to_string() });
  }
  let s = Strategy::new(Arc::new(m.store()), cb.clone());
  let ops = [vh::choose("op0", 2), vh::choose("op1", 2)];
  let started = vh::choose("started", 2) == 1;
  let first = if started { Some(session_id(&s)) } else { None };
  let got = [parking_lot::Mutex::new(None), parking_lot::Mutex::new(None)];
  vh::par(2, &|i| {
    let v = if ops[i] == 0 { session_id(&s) } else { start_new_session(&s).unwrap_or_default() };
    *got[i].lock() = Some(v);
  });
  let a = got[0].lock().take().unwrap();
  let b = got[1].lock().take().unwrap();
  let calls = cb.0.lock().calls;
  let end = session_id(&s);
  vh::check(cb.0.lock().calls == calls, "query_is_stable");
  // either order, one after the other
  let run = |order: [usize; 2]| {
    let (mut cur, mut n) = (first.clone(), usize::from(started));
    let mut out = [String::new(), String::new()];
    for i in order {
      if ops[i] == 1 || cur.is_none() {
        n += 1;
        cur = Some(format!("s{n}"));
      }
      out[i] = cur.clone().unwrap();
    }
    (out, cur.unwrap(), n)
  };
  let have = ([a, b], end.clone(), calls);
  vh::check(have == run([0, 1]) || have == run([1, 0]), "as_one_after_the_other");
  vh::check(m.store().get(&STATE_KEY).map(|s| s.session_id) == Some(end), "stored_is_last_active");
  vh::check(s.previous_process_session_id() == stored.then(|| "old".to_string()), "previous_as_last_active_of_earlier_run");
  vh::reach("threads");
});
