//! W05: flushes and streaming.
use crate::engine::engine;
use crate::graph::*;
use bd_client_stats_store::Collector;
use bd_workflows::config::Config;
use bd_workflows::verif_inside::engine::configuration;
use bd_workflows::verif_inside::flush::Pending;
use std::collections::BTreeSet;

type Ids = BTreeSet<&'static str>;

struct Action {
  id: &'static str,
  buffers: Vec<&'static str>,
  streams: Option<(Vec<&'static str>, Option<u64>)>,
}

#[derive(Clone)]
struct Asked {
  id: &'static str,
  buffers: Ids,
  streams: Option<(Ids, Option<u64>)>,
  session: &'static str,
}

struct Stream {
  id: &'static str,
  session: &'static str,
  from: Ids,
  to: Ids,
  most: Option<u64>,
  n: u64,
}

fn set(v: &[&'static str]) -> Ids { v.iter().copied().collect() }

fn both(a: &Ids, b: &Ids) -> Ids { a.intersection(b).copied().collect() }

// triggers t and u, continuous c and d; the buffers there are can change
const WORLDS: [(&[&str], &[&str]); 3] = [(&["t", "u"], &["c", "d"]), (&["u"], &["c", "d"]), (&["t", "u"], &["d"])];
const TO: [&[&str]; 4] = [&["t"], &["u", "c"], &["t", "u"], &["x"]];

// from the start: a log that sets something off, then anything
vh::entry!(w05_flush, { run(false, vh::param("steps", 3)) });

// with an upload approved and streaming on: anything
vh::entry!(w05_stream, { run(true, vh::param("steps", 3)) });

fn run(streaming: bool, steps: u64) {
  let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
  let _in = rt.enter();
  vh::clock(1000, 0, 0, 0);
  let stats = Collector::default();
  let mut e = engine(&stats);
  let most = vh::choose("limited", 2).eq(&1).then(|| vh::range("most", 1, 3));
  let actions = [
    Action { id: "A", buffers: vec!["t"], streams: Some((vec![], most)) },
    Action { id: "B", buffers: vec![], streams: [None, Some((vec!["c", "d"], None))][vh::choose("streams", 2) as usize].clone() },
  ];
  let flows = || -> Vec<Config> {
    actions
      .iter()
      .zip(KEYS)
      .map(|(a, k)| {
        let s = a.streams.as_ref().map(|(to, n)| (to.as_slice(), n.iter().copied().collect()));
        Config::new(&flow(a.id, true, vec![state("a", vec![edge("z", k, 1, vec![flush(a.id, &a.buffers, s)])]), state("z", vec![])])).unwrap()
      })
      .collect()
  };
  let (mut triggers, mut continuous) = (set(WORLDS[0].0), set(WORLDS[0].1));
  e.e.start(configuration(flows(), WORLDS[0].0, WORLDS[0].1));

  let mut session = "s";
  let mut unanswered: Vec<(Asked, Pending)> = vec![];
  // the same, as the engine's own list has it after changes of the buffers
  let mut pending: Vec<Asked> = vec![];
  let mut streams: Vec<Stream> = vec![];
  let mut flushing: Vec<(&str, tokio::sync::oneshot::Sender<()>)> = vec![];
  for i in 0 .. steps + if streaming { 2 } else { 0 } {
    let op = match i {
      0 => 0,
      1 if streaming => 1,
      _ => vh::choose("op", 5),
    };
    match op {
      0 => {
        let a = answers(2);
        if i == 0 { vh::assume(if streaming { a[0] == b'1' && a[1] == b'0' } else { a[0] == b'1' || a[1] == b'1' }); }
        let dest = TO[if i == 0 { 3 } else { vh::choose("dest", 4) as usize }];
        let r = with_log(&a, session, 1_700_000_000, |l| e.log(l, dest));
        // streaming first
        streams.retain(|s| {
          let over = s.most.map_or(false, |m| s.n >= m) || s.session != session;
          let keep = !over || flushing.iter().any(|f| f.0 == s.id);
          if !keep { vh::reach("stream_over") }
          keep
        });
        let dest = set(dest);
        let mut plain: Ids = dest.iter().copied().filter(|b| triggers.contains(b) || continuous.contains(b)).collect();
        let mut to = Ids::new();
        for s in &mut streams {
          let hit = both(&s.from, &dest);
          if hit.is_empty() { continue; }
          plain.retain(|b| !hit.contains(b));
          to.extend(&s.to);
          s.n += 1;
          vh::reach("streamed");
        }
        to.extend(&plain);
        let got: Vec<&str> = r.to.iter().map(|s| s.as_str()).collect();
        vh::check(got == to.iter().copied().collect::<Vec<_>>(), "destinations");
        vh::check(e.streams() == streams.len(), "streams");
        // then what the log set off
        for (i, act) in actions.iter().enumerate() {
          let on = a[i] == b'1';
          vh::check(r.actions.iter().any(|x| x == act.id) == on, "set_off");
          if !on { continue; }
          let buffers = if act.buffers.is_empty() { triggers.clone() } else { both(&set(&act.buffers), &triggers) };
          if buffers.is_empty() { continue; }
          vh::check(buffers.iter().all(|b| r.flushes.iter().any(|x| x == b)), "marked_for_flush");
          if pending.iter().any(|p| p.id == act.id) {
            vh::reach("already_pending");
            continue;
          }
          if streams.iter().any(|s| s.id == act.id) {
            vh::reach("already_streaming");
            continue;
          }
          let streams = act.streams.as_ref().and_then(|(to, n)| {
            let to = if to.is_empty() { continuous.first().into_iter().copied().collect() } else { both(&set(to), &continuous) };
            (!to.is_empty()).then_some((to, *n))
          });
          let asked = Asked { id: act.id, buffers, streams, session };
          let Some(p) = e.ask() else { vh::fail("a_new_upload_is_negotiated") };
          vh::check(p.id() == act.id && p.buffers().iter().map(|s| s.as_str()).eq(asked.buffers.iter().copied()), "what_is_negotiated");
          unanswered.push((asked.clone(), p));
          pending.push(asked);
        }
        vh::check(e.ask().is_none(), "nothing_else_is_negotiated");
      },
      1 => {
        if unanswered.is_empty() { vh::assume(false); }
        let (asked, p) = unanswered.remove(0);
        let yes = (streaming && i == 1) || vh::choose("yes", 2) == 1;
        vh::block_on(e.answered(p, yes));
        pending.retain(|x| x.id != asked.id);
        let flush = e.flushes.try_recv().ok();
        if yes {
          let busy = flushing.iter().any(|f| f.0 == asked.id);
          vh::check(flush.is_some() == !busy, "one_flush_at_a_time");
          if let Some(f) = flush {
            vh::check(f.buffer_ids.iter().map(|s| s.as_ref()).eq(asked.buffers.iter().copied()), "what_is_flushed");
            flushing.push((asked.id, f.response_tx));
            vh::reach("flush");
          }
          if let Some((to, most)) = asked.streams {
            if !both(&to, &continuous).is_empty() {
              streams.push(Stream { id: asked.id, session: asked.session, from: asked.buffers, to, most, n: 0 });
            }
          }
        } else {
          vh::check(flush.is_none(), "no_flush_without_approval");
          vh::reach("refused");
        }
        vh::check(e.streams() == streams.len(), "streams");
      },
      2 => {
        if flushing.is_empty() { vh::assume(false); }
        let (_, tx) = flushing.remove(0);
        if vh::choose("told", 2) == 1 { let _ = tx.send(()); }
        vh::reach("flushed");
      },
      3 => session = if session == "s" { "t" } else { "s" },
      _ => {
        let w = WORLDS[vh::choose("world", 3) as usize];
        (triggers, continuous) = (set(w.0), set(w.1));
        e.e.update(configuration(flows(), w.0, w.1));
        pending.retain_mut(|p| {
          p.buffers = both(&p.buffers, &triggers);
          !p.buffers.is_empty()
        });
        streams.retain_mut(|s| {
          s.from = both(&s.from, &triggers);
          s.to = both(&s.to, &continuous);
          !s.from.is_empty() && !s.to.is_empty()
        });
        vh::check(e.streams() == streams.len(), "streams");
        vh::reach("update");
      },
    }
    let mut got: Vec<String> = e.pending().iter().map(|p| p.id().to_string()).collect();
    let mut want: Vec<String> = pending.iter().map(|p| p.id.to_string()).collect();
    got.sort();
    want.sort();
    vh::check(got == want, "pending");
  }
}
