//! W05/W04: what is asked before anything is uploaded.
use bd_api::upload::{IntentDecision, IntentResponse, UploadResponse};
use bd_api::DataUpload;
use bd_client_stats_store::Collector;
use bd_workflows::verif_inside::flush::Talk;
use bd_workflows::verif_inside::sankey::{Settled, Uploader};
use std::collections::BTreeSet;
use std::pin::pin;

const IDS: [&str; 2] = ["A", "B"];

fn decision(yes: bool) -> IntentDecision { if yes { IntentDecision::UploadImmediately } else { IntentDecision::Drop } }

vh::entry!(w05_talk, {
  let stats = Collector::default();
  let (tx, rx) = tokio::sync::mpsc::channel(2);
  let mut rx = Some(rx);
  let mut talk = Talk::new(tx, &stats.scope(""));
  let mut dropped = BTreeSet::new();
  for _ in 0 .. vh::param("steps", 3) {
    let id = IDS[vh::choose("id", 2) as usize];
    if vh::choose("gone", 4) == 0 { rx = None; }
    let mut yes = false;
    let mut answered = false;
    {
      let mut f = pin!(talk.about(id, &["t", "u"]));
      let mut uuid: Option<String> = None;
      let mut lost = 0;
      let mut over = vh::poll_pinned(f.as_mut()).is_some();
      if dropped.contains(id) || rx.is_none() {
        vh::check(over, "settled_at_once");
        if dropped.contains(id) { vh::reach("dropped_before"); } else { vh::reach("nobody_to_ask"); }
      }
      while !over {
        let Some(r) = &mut rx else { vh::fail("stuck") };
        let Ok(DataUpload::LogsUploadIntentRequest(t)) = r.try_recv() else { vh::fail("an_intent_is_sent") };
        vh::check(t.payload.intent_uuid == t.uuid, "uuid");
        vh::check(t.payload.workflow_action_upload().workflow_action_ids == [id], "about_the_action");
        vh::check(uuid.as_ref().map_or(true, |u| *u == t.uuid), "the_same_intent_again");
        uuid = Some(t.uuid.clone());
        vh::check(r.try_recv().is_err(), "one_intent");
        vh::check(vh::poll_pinned(f.as_mut()).is_none(), "waits_for_the_answer");
        if lost < 2 && vh::choose("lost", 2) == 1 {
          lost += 1;
          drop(t);
          over = vh::poll_pinned(f.as_mut()).is_some();
          vh::check(!over, "asks_again");
          vh::reach("lost");
          continue;
        }
        yes = vh::choose("yes", 2) == 1;
        answered = true;
        let _ = t.response_tx.send(IntentResponse { uuid: t.uuid, decision: decision(yes) });
        over = vh::poll_pinned(f.as_mut()).is_some();
        vh::check(over, "the_answer_settles_it");
        vh::reach(if yes { "approved" } else { "dropped" });
      }
    }
    if let Some(r) = &mut rx { vh::check(r.try_recv().is_err(), "no_more_intents"); }
    vh::check(talk.verdict() == Some((id.to_string(), yes)), "verdict");
    vh::check(talk.verdict().is_none(), "one_verdict");
    if answered && !yes { dropped.insert(id); }
  }
});

vh::entry!(w04_upload, {
  let stats = Collector::default();
  let (tx, rx) = tokio::sync::mpsc::channel(2);
  let mut rx = Some(rx);
  let mut up = Uploader::new(tx, &stats.scope(""));
  let mut settled = BTreeSet::new();
  for _ in 0 .. vh::param("steps", 3) {
    let sankey = IDS[vh::choose("sankey", 2) as usize];
    let path = ["x", "y"][vh::choose("path", 2) as usize];
    if vh::choose("gone", 4) == 0 { rx = None; }
    let known = settled.contains(&(sankey, path));
    {
      let mut f = pin!(up.path(sankey, path, &["n", "m"]));
      let over = vh::poll_pinned(f.as_mut()).is_some();
      vh::check(over == (known || rx.is_none()), "asks_unless_settled");
      if known { vh::reach("known"); }
      if let Some(r) = &mut rx {
        if !over {
          let Ok(DataUpload::SankeyPathUploadIntentRequest(t)) = r.try_recv() else { vh::fail("an_intent_is_sent") };
          vh::check(t.payload.intent_uuid == t.uuid && t.payload.sankey_diagram_id == sankey && t.payload.path_id == path, "about_the_path");
          vh::check(vh::poll_pinned(f.as_mut()).is_none(), "waits_for_the_answer");
          match vh::choose("answer", 3) {
            0 => drop(t),
            a => {
              let _ = t.response_tx.send(IntentResponse { uuid: t.uuid, decision: decision(a == 1) });
              if a == 2 {
                settled.insert((sankey, path));
                vh::reach("refused");
              }
            },
          }
          let over = vh::poll_pinned(f.as_mut()).is_some();
          let sent = r.try_recv();
          vh::check(sent.is_ok() == !over, "uploaded_or_over");
          if let Ok(u) = sent {
            let DataUpload::SankeyPathUpload(u) = u else { vh::fail("an_upload") };
            vh::check(!settled.contains(&(sankey, path)), "no_upload_of_a_refused_path");
            let p = &u.payload;
            vh::check(p.upload_uuid == u.uuid && p.id == sankey && p.path_id == path, "the_upload");
            vh::check(p.nodes.iter().map(|n| n.extracted_value.as_str()).eq(["n", "m"]), "nodes");
            vh::check(vh::poll_pinned(f.as_mut()).is_none(), "waits_for_the_upload");
            if vh::choose("uploaded", 2) == 1 {
              let uuid = u.uuid.clone();
              let _ = u.response_tx.send(UploadResponse { success: true, uuid });
              settled.insert((sankey, path));
              vh::reach("uploaded");
            } else {
              drop(u);
              vh::reach("lost");
            }
            vh::check(vh::poll_pinned(f.as_mut()).is_some(), "over");
          }
        }
      }
    }
    if let Some(r) = &mut rx { vh::check(r.try_recv().is_err(), "nothing_else"); }
  }
});

// the memory of settled paths: the most recent ones, whatever the order of use
vh::entry!(w04_settled, {
  let mut s = Settled::default();
  let mut model: Vec<u64> = vec![];
  // almost full
  for k in 0 .. Settled::MOST as u64 - 1 {
    s.insert(k);
    model.push(k);
  }
  for i in 0 .. vh::param("steps", 4) {
    let k = match vh::choose("which", 4) {
      0 => 0,
      1 => 1,
      2 => 50,
      _ => 1000 + i,
    };
    let at = model.iter().position(|x| *x == k);
    if let Some(i) = at {
      model.remove(i);
      model.push(k);
    }
    if vh::choose("look", 2) == 1 {
      vh::check(s.contains(k) == at.is_some(), "known");
    } else {
      s.insert(k);
      if at.is_none() { model.push(k); }
      if model.len() > Settled::MOST {
        model.remove(0);
        vh::reach("forgotten");
      }
    }
  }
  for k in [0, 1, 2, 50, 1000, 1001, 1002, 1003] { vh::check(s.contains(k) == model.contains(&k), "the_most_recent_ones"); }
});
