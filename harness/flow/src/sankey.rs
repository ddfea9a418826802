//! W04: recorded Sankey paths.
use crate::graph::*;
use bd_workflows::config::Config;
use bd_workflows::verif_inside::workflow::{Flow, Path};

const VALUES: [&str; 8] = ["a", "b", "c", "d", "e", "f", "g", "h"];

vh::entry!(w04_push, {
  let limit = vh::u64v("limit") as usize;
  let n = vh::param("pushes", 6) as usize;
  let mut p = Path::default();
  let mut kept: Vec<(usize, bool)> = vec![];
  let mut cut = false;
  for i in 0 .. n {
    let counts = vh::boolv("counts");
    p.push(VALUES[i].to_string(), limit, counts);
    kept.push((i, counts));
    if counts && kept.iter().filter(|k| k.1).count() > limit {
      // the oldest one that counts goes
      let oldest = kept.iter().position(|k| k.1).unwrap();
      kept.remove(oldest);
      cut = true;
    }
  }
  let (nodes, trimmed) = p.done();
  vh::check(trimmed == cut, "marked_exactly_when_cut");
  vh::check(nodes.len() == kept.len(), "length");
  vh::check(nodes.iter().zip(&kept).all(|(n, k)| n == VALUES[k.0]), "the_most_recent_in_order");
  vh::reach(if cut { "cut" } else { "whole" });
});

#[derive(Clone)]
struct At {
  state: usize,
  paths: [Vec<(&'static str, bool)>; 2],
  cut: [bool; 2],
}

impl At {
  fn push(&mut self, k: usize, v: &'static str, counts: bool, limit: u32) {
    self.paths[k].push((v, counts));
    if counts && self.paths[k].iter().filter(|n| n.1).count() as u32 > limit {
      let i = self.paths[k].iter().position(|n| n.1).unwrap();
      self.paths[k].remove(i);
      self.cut[k] = true;
    }
  }
}

// two diagrams recorded by traversals that fork:
//   a: p -> b (one: v), q -> c (one: "Q", two: v)
//   b: p -> c (one: v), q -> c (one: "B")
//   c: r -> c (one: v)  q -> z (one: "END", not counted; emits one)  p -> z (emits one)
vh::entry!(w04_flow, {
  let limit = vh::var("limit", 32, 0, 4) as u32;
  let counts = [vh::boolv("counts"), vh::boolv("counts")];
  let c = Config::new(&flow(
    "w",
    false,
    vec![
      state("a", vec![node(edge("b", "p", 1, vec![]), "one", None, true), node(node(edge("c", "q", 1, vec![]), "one", Some("Q"), counts[0]), "two", None, true)]),
      state("b", vec![node(edge("c", "p", 1, vec![]), "one", None, counts[1]), node(edge("c", "q", 1, vec![]), "one", Some("B"), true)]),
      state(
        "c",
        vec![
          node(edge("c", "r", 1, vec![]), "one", None, true),
          node(edge("z", "q", 1, vec![sankey("one", limit)]), "one", Some("END"), false),
          edge("z", "p", 1, vec![sankey("one", limit)]),
        ],
      ),
      state("z", vec![]),
      // nobody gets here
      state("y", vec![edge("z", "p", 1, vec![sankey("two", 2)])]),
    ],
  ))
  .unwrap();
  let mut f = Flow::new(c, 1000);
  let mut runs: Vec<Vec<At>> = vec![];
  let mut emitted: Vec<(Vec<&str>, String)> = vec![];
  for i in 0 .. vh::param("steps", 4) {
    let a = answers(3);
    vh::assume(i > 0 || a[0] == b'1' || a[1] == b'1');
    let v = VALUES[i as usize];
    let s = with_more(&a, &[("v", v)], "s", 1_700_000_000, |l| f.log(l));
    let a: Vec<bool> = a.iter().map(|x| *x == b'1').collect();
    if runs.iter().all(|r| r.iter().any(|t| t.state != 0)) { runs.push(vec![At { state: 0, paths: [vec![], vec![]], cut: [false; 2] }]); }
    let mut out: Vec<At> = vec![];
    for r in &mut runs {
      let mut next = vec![];
      for t in std::mem::take(r) {
        let mut left = false;
        let mut go = |fires: bool, to: usize, nodes: &[(usize, &'static str, bool)], emit: bool| {
          if !fires { return; }
          left = true;
          let mut n = t.clone();
          for (k, v, counts) in nodes { n.push(*k, v, *counts, if *k == 0 { limit } else { 2 }); }
          if emit { out.push(n.clone()); }
          n.state = to;
          if to != 3 { next.push(n); }
        };
        match t.state {
          0 => {
            go(a[0], 1, &[(0, v, true)], false);
            go(a[1], 2, &[(0, "Q", counts[0]), (1, v, true)], false);
          },
          1 => {
            go(a[0], 2, &[(0, v, counts[1])], false);
            go(a[1], 2, &[(0, "B", true)], false);
          },
          _ => {
            go(a[2], 2, &[(0, v, true)], false);
            go(a[1], 3, &[(0, "END", false)], true);
            go(a[0], 3, &[], true);
          },
        }
        if !left { next.push(t); }
      }
      *r = next;
    }
    runs.retain(|r| !r.is_empty());
    vh::check(s.sankeys.len() == out.len(), "one_path_per_emission");
    for o in &out {
      let nodes: Vec<&str> = o.paths[0].iter().map(|n| n.0).collect();
      let n = s.sankeys.iter().filter(|s| s.1 == nodes && s.2 == o.cut[0]).count();
      let m = out.iter().filter(|p| p.paths[0].iter().map(|n| n.0).eq(nodes.iter().copied()) && p.cut[0] == o.cut[0]).count();
      vh::check(n == m, "the_path_of_the_traversal");
      if out.len() > 1 { vh::reach("several"); }
      vh::reach(if o.cut[0] { "cut" } else { "whole" });
      if nodes.len() > 2 { vh::reach("long"); }
    }
    for (id, nodes, _, path) in &s.sankeys {
      vh::check(id == "one", "diagram");
      let nodes: Vec<&str> = nodes.iter().map(|n| VALUES.iter().chain(&["Q", "B", "END"]).find(|v| *v == n).copied().unwrap_or("")).collect();
      for (other, id) in &emitted { vh::check((*other == nodes) == (id == path), "paths_are_told_apart"); }
      emitted.push((nodes, path.clone()));
    }
  }
});
