//! W01-W03: traversal accounting, exclusive runs, match counting.
use crate::graph::*;
use bd_proto::protos::workflow::workflow::workflow as wf;
use bd_workflows::config::Config;
use bd_workflows::verif_inside::config::aim;
use bd_workflows::verif_inside::workflow::Flow;

const FINAL: usize = 3;

/// Three states with two transitions each and a final one; targets are open, counts are open.
/// State s has predicates s and s+1 (mod 3).
fn graph(exclusive: bool, most: u64, match_limit: bool, duration: bool, back: bool) -> (Config, Vec<Vec<(usize, u32)>>) {
  let mut counts = vec![];
  let states = (0 .. FINAL)
    .map(|s| {
      let ts = (0 .. 2)
        .map(|t| {
          let c = vh::var("count", 32, 0, most) as u32;
          counts.push(c);
          edge("z", KEYS[(s + t) % 3], c, vec![metric(&format!("{s}{t}"))])
        })
        .collect();
      state(["a", "b", "c"][s], ts)
    })
    .chain([state("z", vec![])])
    .collect();
  let mut w = flow("w", exclusive, states);
  if match_limit {
    w.limit_matched_logs_count =
      Some(wf::LimitMatchedLogsCount { count: vh::var("match_limit", 32, 1, 6) as u32, ..Default::default() }).into();
  }
  if duration {
    w.limit_duration = Some(wf::LimitDuration { duration_ms: 2000, ..Default::default() }).into();
  }
  let mut c = Config::new(&w).unwrap();
  let mut model = vec![];
  for s in 0 .. FINAL {
    let mut ts = vec![];
    for t in 0 .. 2 {
      let to = vh::range("to", if back { 0 } else { 1 }, FINAL as u64) as usize;
      aim(&mut c, s, t, to);
      ts.push((to, counts[s * 2 + t]));
    }
    model.push(ts);
  }
  (c, model)
}

fn account(f: &Flow, before: u32, s: &bd_workflows::verif_inside::workflow::Step) {
  vh::check(f.count as usize == f.traversals(), "count_is_the_number_of_traversals");
  vh::check(f.count <= f.limit, "within_the_limit");
  vh::check(before + s.created == f.count + s.completed + s.stopped, "created_less_gone_is_the_change");
}

vh::entry!(w01_flow, {
  let exclusive = vh::choose("exclusive", 2) == 1;
  let (c, _) = graph(exclusive, 2, true, false, vh::param("back", 0) == 1);
  let mut f = Flow::new(c, vh::var("limit", 32, 0, 4) as u32);
  for i in 0 .. vh::param("steps", 3) {
    let before = f.count;
    let fits = f.count + 1 <= f.limit;
    let wanted = f.needs_new_run();
    let a = answers(3);
    // a first log nothing matches only delays the rest
    vh::assume(i > 0 || a[0] == b'1' || a[1] == b'1');
    let s = with_log(&a, "s", 1_700_000_000, |l| f.log(l));
    account(&f, before, &s);
    if wanted {
      vh::check((s.created_runs == 1) == fits, "a_run_starts_exactly_when_there_is_room");
      if !fits {
        vh::check(s.limit_hits >= 1, "a_run_not_started_is_a_limit_hit");
        vh::reach("no_room");
      }
    } else {
      vh::check(s.created_runs == 0, "no_run_out_of_nothing");
    }
    if s.limit_hits > 0 { vh::reach("limit_hit"); }
    if s.stopped_runs > 0 && s.limit_hits == 0 && s.resets == 0 { vh::reach("match_limit"); }
    if s.created > 1 { vh::reach("forked"); }
    if s.completed > 0 { vh::reach("completed"); }
    if s.resets > 0 { vh::reach("reset"); }
    let _ = f.in_initial_state();
  }
});

#[derive(Clone)]
struct Run {
  at: Vec<(usize, Vec<u32>)>,
  matched: u32,
  since: Option<i64>,
}

/// What a run does with a log: the actions, or none if it is stopped.
fn walk(g: &[Vec<(usize, u32)>], r: &mut Run, a: &[bool], now: i64, most: Option<u32>, long: Option<i64>) -> Option<Vec<String>> {
  if let (Some(l), Some(t)) = (long, r.since) {
    if now - t > l { return None; }
  }
  let mut actions = vec![];
  let mut next = vec![];
  for (s, mut n) in std::mem::take(&mut r.at) {
    let mut left = false;
    for t in 0 .. 2 {
      if !a[(s + t) % 3] { continue; }
      n[t] += 1;
      r.matched += 1;
      r.since.get_or_insert(now);
      if n[t] == g[s][t].1 {
        left = true;
        actions.push(format!("{s}{t}"));
        let to = vh::concrete(g[s][t].0 as u64) as usize;
        if to != FINAL { next.push((to, vec![0, 0])); }
      }
    }
    if !left { next.push((s, n)); }
  }
  r.at = next;
  if most.map_or(false, |m| r.matched > m) { None } else { Some(actions) }
}

vh::entry!(w03_counts, { counts(false, false) });

vh::entry!(w03_limited, { counts(true, false) });

vh::entry!(w03_expired, { counts(false, true) });

fn counts(limited: bool, long: bool) {
  let (c, g) = graph(false, u64::from(u32::MAX), limited, long, false);
  let most = c.verif_matches();
  let mut f = Flow::new(c, 1000);
  let mut runs: Vec<Run> = vec![];
  let mut now = 1_700_000_000;
  for i in 0 .. vh::param("steps", 3) {
    let a = answers(3);
    vh::assume(i > 0 || a[0] == b'1' || a[1] == b'1');
    if long { now += [0, 2, 3, -5][vh::choose("later", 4) as usize]; }
    let s = with_log(&a, "s", now, |l| f.log(l));
    if !runs.iter().any(|r| r.matched == 0) { runs.push(Run { at: vec![(0, vec![0, 0])], matched: 0, since: None }); }
    let a: Vec<bool> = a.iter().map(|x| *x == b'1').collect();
    let mut actions = vec![];
    let mut kept = vec![];
    for mut r in runs {
      match walk(&g, &mut r, &a, now, most, long.then_some(2)) {
        None => vh::reach("stopped"),
        Some(mut x) => {
          actions.append(&mut x);
          if r.at.is_empty() { vh::reach("completed") } else { kept.push(r) }
        },
      }
    }
    runs = kept;
    let mut got = s.actions;
    got.sort();
    actions.sort();
    vh::check(got == actions, "actions_of_the_transitions_that_fired");
    if !actions.is_empty() { vh::reach("fired"); }
    vh::check(f.runs() == runs.len(), "runs");
    for (i, r) in runs.iter().enumerate() {
      let mut got = f.run(i);
      let mut want = r.at.clone();
      got.sort();
      want.sort();
      vh::check(got == want, "states_and_counts");
      if want.len() > 1 { vh::reach("several"); }
    }
  }
}

vh::entry!(w02_exclusive, {
  let (c, _) = graph(true, 2, vh::choose("limited", 2) == 1, false, false);
  let mut f = Flow::new(c, vh::var("limit", 32, 1, 4) as u32);
  for i in 0 .. vh::param("steps", 3) {
    let a = answers(3);
    vh::assume(i > 0 || a[0] == b'1' || a[1] == b'1');
    let two = f.runs() == 2;
    let s = with_log(&a, "s", 1_700_000_000, |l| f.log(l));
    let (waiting, moving) = f.waiting_and_moving();
    vh::check(waiting <= 1, "at_most_one_waiting");
    vh::check(moving <= 1, "at_most_one_moving");
    if moving == 1 && waiting == 1 {
      vh::check(f.run(0).len() == 1 && f.run(0)[0].0 == 0 && f.run(0)[0].1 == [0, 0], "the_waiting_run_comes_first");
      vh::reach("both");
    }
    if s.resets > 0 {
      vh::check(f.runs() == 1, "a_restart_replaces_the_run");
      vh::reach("reset");
    }
    if two && s.completed_runs > 0 { vh::reach("completed"); }
  }
});

// what each of the two runs does with a log
vh::entry!(w02_steps, {
  let limited = vh::choose("limited", 2) == 1;
  let (c, g) = graph(true, 2, limited, false, false);
  let most = c.verif_matches();
  let mut f = Flow::new(c, 1000);
  let mut active: Option<Run> = None;
  let fresh = || Run { at: vec![(0, vec![0, 0])], matched: 0, since: None };
  let mut waiting: Option<Run> = None;
  for i in 0 .. vh::param("steps", 3) {
    let a = answers(3);
    vh::assume(i > 0 || a[0] == b'1' || a[1] == b'1');
    let s = with_log(&a, "s", 1_700_000_000, |l| f.log(l));
    let a: Vec<bool> = a.iter().map(|x| *x == b'1').collect();
    let mut w = waiting.take().unwrap_or_else(fresh);
    let mut actions = vec![];
    let mut seen = false;
    let mut first = true;
    if let Some(mut r) = active.take() {
      let before = r.matched;
      // a run that ends leaves the log to the waiting one as if it had not been there
      first = false;
      match walk(&g, &mut r, &a, 0, most, None) {
        None => {
          first = true;
          vh::reach("stopped");
        },
        Some(mut x) => {
          actions.append(&mut x);
          if r.at.is_empty() {
            first = true;
            vh::reach("completed");
          } else {
            seen = r.matched != before;
            active = Some(r);
          }
        },
      }
    }
    if seen {
      vh::reach("the_waiting_one_does_not_see_it");
      waiting = Some(w);
    } else {
      match walk(&g, &mut w, &a, 0, most, None) {
        None => {},
        Some(mut x) => {
          actions.append(&mut x);
          if w.at.is_empty() {
            vh::reach("at_once");
          } else if w.matched == 0 {
            waiting = Some(w);
          } else {
            if !first { vh::reach("replaced"); }
            active = Some(w);
          }
        },
      }
    }
    let mut got = s.actions;
    got.sort();
    actions.sort();
    vh::check(got == actions, "actions");
    let want: Vec<&Run> = waiting.iter().chain(&active).collect();
    vh::check(f.runs() == want.len(), "runs");
    for (i, r) in want.iter().enumerate() {
      let mut got = f.run(i);
      let mut at = r.at.clone();
      got.sort();
      at.sort();
      vh::check(got == at, "states_and_counts");
    }
  }
});
