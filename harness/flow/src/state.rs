//! W06: the state kept across restarts.
use crate::engine::*;
use crate::graph::*;
use bd_client_common::error::UnexpectedErrorHandler;
use bd_client_stats_store::Collector;
use bd_workflows::config::Config;
use bd_workflows::verif_inside::engine::{configuration, state_path, Config2, Engine};
use std::sync::Arc;

fn streaming(id: &str) -> Config {
  Config::new(&flow(
    id,
    true,
    vec![state("a", vec![edge("z", "r", 1, vec![flush("A", &["t"], Some((&["c"], vec![2])))])]), state("z", vec![])],
  ))
  .unwrap()
}

fn all() -> Config2 { configuration(vec![two("1", true), two("2", false), streaming("3")], &["t"], &["c"]) }

fn same(a: &mut Engine, b: &mut Engine) {
  vh::check(a.bytes().0 == b.bytes().0, "the_state_is_the_one_stored");
}

vh::entry!(w06_restore, {
  let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
  let _in = rt.enter();
  vh::clock(1000, 0, 0, 0);
  let stats = Collector::default();
  let mut e = engine(&stats);
  e.e.start(all());
  for i in 0 .. vh::param("steps", 3) {
    let a = answers(3);
    vh::assume(i > 0 || a.contains(&b'1'));
    with_log(&a, "s", 1_700_000_000, |l| e.log(l, &["t"]));
    if let Some(p) = e.ask() {
      match vh::choose("answer", 3) {
        0 => vh::reach("pending"),
        n => {
          vh::block_on(e.answered(p, n == 1));
          // a flush under way is not part of the state
          if let Ok(f) = e.flushes.try_recv() { let _ = f.response_tx.send(()); }
        },
      }
    }
  }
  // nothing is stored as long as there is nothing to lose
  let nothing = e.bytes().0 == Engine::new(&stats.scope(""), std::path::Path::new("sdk"), &bd_runtime::runtime::ConfigLoader::new(std::path::Path::new("."))).bytes().0;
  if nothing { vh::done(); }
  vh::check(e.dirty(), "something_to_store");
  e.saved().unwrap();
  let other = Collector::default();
  let mut f = engine(&other);
  f.e.start(all());
  vh::check(std::path::Path::new(state_path()).exists(), "the_file_is_kept");
  same(&mut e, &mut f);
  vh::check(f.count() == f.traversals(), "count_is_the_number_of_traversals");
  vh::check(f.streams() == e.streams(), "streams");
  if f.streams() > 0 { vh::reach("streaming"); }
  if f.traversals() > 1 { vh::reach("several"); }
  // what waits for an answer is asked again
  for p in f.pending() { vh::check(f.ask().map_or(false, |q| q == p), "asked_again"); }
  vh::check(f.ask().is_none(), "nothing_else_is_asked");
  // and both go on alike
  let a = answers(3);
  let (x, y) = with_log(&a, "s", 1_700_000_000, |l| (e.log(l, &["t"]), f.log(l, &["t"])));
  vh::check(x.to == y.to && x.flushes == y.flushes && x.actions == y.actions, "the_same_outcome");
  same(&mut e, &mut f);
  vh::check(e.count() == f.count(), "the_same_count");
});

struct Quiet;
impl bd_client_common::error::Reporter for Quiet {
  fn report(&self, _: &str, _: &Option<String>, _: &std::collections::HashMap<std::borrow::Cow<'_, str>, std::borrow::Cow<'_, str>>) {}
}

// a file that was cut short, or in which a byte is another
vh::entry!(w06_damaged, {
  UnexpectedErrorHandler::set_reporter(Arc::new(Quiet));
  let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
  let _in = rt.enter();
  vh::clock(1000, 0, 0, 0);
  let stats = Collector::default();
  let mut e = engine(&stats);
  e.e.start(all());
  // a fork, a pending action, a run under way
  with_log(b"110", "s", 1_700_000_000, |l| e.log(l, &["t"]));
  with_log(b"001", "s", 1_700_000_000, |l| e.log(l, &["t"]));
  let mut bytes = e.bytes().0;
  if vh::choose("how", 2) == 0 {
    bytes.truncate(vh::choose("length", bytes.len() as u64) as usize);
  } else {
    let at = vh::choose("at", bytes.len() as u64) as usize;
    bytes[at] = vh::u8v("byte");
  }
  std::fs::write(state_path(), &bytes).unwrap();
  let other = Collector::default();
  let mut f = engine(&other);
  f.e.start(all());
  vh::check(f.count() == f.traversals(), "count_is_the_number_of_traversals");
  if std::path::Path::new(state_path()).exists() {
    vh::reach("decoded");
  } else {
    vh::reach("discarded");
    vh::check(f.traversals() == 0 && f.streams() == 0 && f.pending().is_empty(), "afresh");
  }
  // it works
  with_log(b"111", "s", 1_700_000_000, |l| f.log(l, &["t"]));
  vh::check(f.count() == f.traversals(), "count_is_the_number_of_traversals");
});

// the same workflow as another version of the client understands it
vh::entry!(w06_outdated, {
  let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
  let _in = rt.enter();
  vh::clock(1000, 0, 0, 0);
  let stats = Collector::default();
  let mut e = engine(&stats);
  e.e.start(configuration(vec![two("1", vh::choose("exclusive", 2) == 1), two("2", true)], &[], &[]));
  for i in 0 .. 2 {
    let a = answers(3);
    vh::assume(i > 0 || a.contains(&b'1'));
    with_log(&a, "s", 1_700_000_000, |l| e.log(l, &[]));
  }
  e.saved().unwrap();
  let kept = e.traversals();
  let stats = Collector::default();
  let mut f = engine(&stats);
  f.set_limit(vh::range("limit", 0, 5) as u32);
  let edges = |s: usize| (0 .. vh::choose("edges", 4) as usize).map(|k| edge(["a", "b", "z"][(s + k) % 3], KEYS[k], 1, vec![])).collect::<Vec<_>>();
  let n = 1 + vh::choose("states", 2) as usize;
  let mut states: Vec<_> = (0 .. n).map(|s| state(["a", "b"][s], edges(s + 1))).collect();
  if n == 1 { states.push(state("b", vec![])); }
  states.push(state("z", vec![]));
  f.e.start(configuration(vec![Config::new(&flow("1", true, states)).unwrap(), two("2", true)], &[], &[]));
  vh::check(f.count() == f.traversals(), "count_is_the_number_of_traversals");
  vh::check(f.count() <= f.limit(), "within_the_limit");
  vh::reach(if f.traversals() < kept { "fewer" } else { "all" });
  with_log(&answers(3), "s", 1_700_000_000, |l| f.log(l, &[]));
  vh::check(f.count() == f.traversals(), "count_is_the_number_of_traversals");
});
