//! The engine as a whole.
use crate::graph::*;
use bd_client_stats_store::Collector;
use bd_runtime::runtime::ConfigLoader;
use bd_workflows::config::Config;
use bd_workflows::verif_inside::engine::{configuration, Engine};
use std::path::Path;

pub fn engine(stats: &Collector) -> Engine {
  std::fs::create_dir_all("sdk").unwrap();
  let loader = ConfigLoader::new(Path::new("."));
  Engine::new(&stats.scope(""), Path::new("sdk"), &loader)
}

pub fn two(id: &str, exclusive: bool) -> Config {
  Config::new(&flow(
    id,
    exclusive,
    vec![
      state("a", vec![edge("b", "p", 1, vec![]), edge("c", "q", 1, vec![])]),
      state("b", vec![edge("z", "r", 2, vec![])]),
      state("c", vec![edge("b", "p", 1, vec![]), edge("c", "q", 1, vec![])]),
      state("z", vec![]),
    ],
  ))
  .unwrap()
}

vh::entry!(w01_engine, {
  let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
  let _in = rt.enter();
  vh::clock(1000, 0, 0, 0);
  let stats = Collector::default();
  let mut e = engine(&stats);
  e.set_limit(vh::range("limit", 0, 5) as u32);
  e.e.start(configuration(vec![two("1", true), two("2", false)], &[], &[]));
  let mut session = "s";
  for _ in 0 .. vh::param("steps", 3) {
    match vh::choose("op", 5) {
      0 | 1 => {
        let a = answers(3);
        with_log(&a, session, 1_700_000_000, |l| e.log(l, &[]));
        vh::check(e.session() == session, "session");
        vh::reach("log");
      },
      2 => {
        session = if session == "s" { "t" } else { "s" };
        vh::reach("session");
      },
      3 => {
        e.saved().unwrap();
        let limit = if vh::choose("less", 2) == 1 { vh::range("limit", 0, 3) as u32 } else { e.limit() };
        let before = e.traversals();
        e = engine(&stats);
        e.set_limit(limit);
        e.e.start(configuration(vec![two("1", true), two("2", false)], &[], &[]));
        if e.traversals() > 0 { vh::reach("restored"); }
        if before > limit { vh::reach("less_room"); }
      },
      _ => {
        let some = match vh::choose("which", 4) {
          0 => vec![],
          1 => vec![two("1", true)],
          2 => vec![two("2", false), two("3", true)],
          // the same name for a workflow that is no longer the same
          _ => vec![two("1", false), two("2", false)],
        };
        e.e.update(configuration(some, &[], &[]));
        vh::reach("update");
      },
    }
    vh::check(e.count() == e.traversals(), "count_is_the_number_of_traversals");
    vh::check(e.count() <= e.limit(), "within_the_limit");
    if e.count() > 2 { vh::reach("several"); }
  }
});
