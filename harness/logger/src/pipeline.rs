//! L11: what happens to one log after another.
use bd_api::upload::{IntentDecision, IntentResponse};
use bd_api::{DataUpload, TriggerUpload};
use bd_buffer::buffer::RingBufferProducer;
use bd_buffer::{AbslCode, Error};
use bd_client_common::fb::root_as_log;
use bd_client_stats_store::Collector;
use bd_log_primitives::{log_level, Log, LogField, LogFields};
use bd_logger::verif_inside::{Pipe, Update};
use bd_proto::flatbuffers::buffer_log::bitdrift_public::fbs::logging::v_1::LogType;
use bd_proto::protos::bdtail::bdtail_config::{BdTailConfigurations, BdTailStream};
use bd_proto::protos::client::api::RuntimeUpdate;
use bd_proto::protos::client::runtime::runtime::{value, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_proto::protos::config::v1::config as select;
use bd_proto::protos::filter::filter::FiltersConfiguration;
use bd_proto::protos::log_matcher::log_matcher::log_matcher as lm;
use bd_proto::protos::log_matcher::log_matcher::LogMatcher;
use bd_proto::protos::workflow::workflow::workflow as wf;
use bd_proto::protos::workflow::workflow::{Workflow, WorkflowsConfiguration};
use bd_runtime::runtime::ConfigLoader;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::pin::pin;
use std::sync::{Arc, Mutex};

type Ids = BTreeSet<&'static str>;
fn set(v: &[&'static str]) -> Ids { v.iter().copied().collect() }

// c and d are uploaded all the time, t and u only when something says so; "tail" is for live viewers
const CONTINUOUS: [&str; 2] = ["c", "d"];
const TRIGGER: [&str; 2] = ["t", "u"];

type Written = Arc<Mutex<Vec<(&'static str, Vec<u8>)>>>;

struct P {
  name: &'static str,
  to: Written,
  fails: bool,
}
impl RingBufferProducer for P {
  fn reserve(&mut self, _: u32, _: bool) -> Result<&mut [u8], Error> { unreachable!() }
  fn commit(&mut self) -> Result<(), Error> { unreachable!() }
  fn write(&mut self, data: &[u8]) -> Result<(), Error> {
    self.to.lock().unwrap().push((self.name, data.to_vec()));
    if !self.fails { return Ok(()); }
    match vh::choose("write", 3) {
      0 => Ok(()),
      1 => {
        vh::reach("locked");
        Err(Error::AbslStatus(AbslCode::FailedPrecondition, "locked".to_string()))
      },
      _ => {
        vh::reach("no_room");
        Err(Error::AbslStatus(AbslCode::ResourceExhausted, "full".to_string()))
      },
    }
  }
}

fn when(key: &str) -> LogMatcher {
  LogMatcher {
    matcher: Some(lm::Matcher::BaseMatcher(lm::BaseLogMatcher {
      match_type: Some(lm::base_log_matcher::Match_type::TagMatch(lm::base_log_matcher::TagMatch {
        tag_key: key.to_string(),
        value_match: Some(lm::base_log_matcher::tag_match::Value_match::StringValueMatch(lm::base_log_matcher::StringValueMatch {
          operator: lm::base_log_matcher::Operator::OPERATOR_EQUALS.into(),
          match_value: "1".to_string(),
          ..Default::default()
        })),
        ..Default::default()
      })),
      ..Default::default()
    })),
    ..Default::default()
  }
}

// buffer `name` takes what has field `key` set
fn selects(name: &str, key: &str) -> select::BufferConfig {
  use select::log_matcher::{base_log_matcher as b, BaseLogMatcher, Match_type};
  let m = b::Match_type::TagMatch(b::TagMatch {
    match_type: b::StringMatchType::EXACT.into(),
    tag_key: key.to_string(),
    match_value: "1".to_string(),
    ..Default::default()
  });
  select::BufferConfig {
    id: name.to_string(),
    filters: vec![select::buffer_config::BufferFilter {
      id: "f".to_string(),
      filter: Some(select::LogMatcher {
        match_type: Some(Match_type::BaseMatcher(BaseLogMatcher { match_type: Some(m), ..Default::default() })),
        ..Default::default()
      })
      .into(),
      ..Default::default()
    }],
    ..Default::default()
  }
}

fn edge(to: &str, key: &str, actions: Vec<wf::Action>) -> wf::Transition {
  wf::Transition {
    target_state_id: to.to_string(),
    rule: Some(wf::Rule {
      rule_type: Some(wf::rule::Rule_type::RuleLogMatch(wf::RuleLogMatch { log_matcher: Some(when(key)).into(), count: 1, ..Default::default() })),
      ..Default::default()
    })
    .into(),
    actions,
    ..Default::default()
  }
}

fn flush(a: &Action) -> wf::Action {
  wf::Action {
    action_type: Some(wf::action::Action_type::ActionFlushBuffers(wf::action::ActionFlushBuffers {
      id: a.id.to_string(),
      buffer_ids: a.buffers.iter().map(|s| (*s).to_string()).collect(),
      streaming: a
        .streams
        .map(|to| wf::action::action_flush_buffers::Streaming {
          destination_streaming_buffer_ids: to.iter().map(|s| (*s).to_string()).collect(),
          ..Default::default()
        })
        .into(),
      ..Default::default()
    })),
    ..Default::default()
  }
}

fn shot() -> wf::Action {
  wf::Action { action_type: Some(wf::action::Action_type::ActionTakeScreenshot(wf::action::ActionTakeScreenshot { id: "s".to_string(), ..Default::default() })), ..Default::default() }
}

fn state(id: &str, transitions: Vec<wf::Transition>) -> wf::State { wf::State { id: id.to_string(), transitions, ..Default::default() } }

fn flow(id: &str, states: Vec<wf::State>) -> Workflow {
  Workflow {
    id: id.to_string(),
    states,
    execution: Some(wf::Execution { execution_type: Some(wf::execution::Execution_type::ExecutionExclusive(Default::default())), ..Default::default() }).into(),
    ..Default::default()
  }
}

#[derive(Clone)]
struct Action {
  id: &'static str,
  // the field that sets it off
  key: &'static str,
  buffers: &'static [&'static str],
  streams: Option<&'static [&'static str]>,
}

#[derive(Clone, Default)]
struct Setup {
  selection: Vec<(&'static str, &'static str)>,
  // those that are there
  buffers: Vec<&'static str>,
  actions: Vec<Action>,
  more: Vec<Workflow>,
  // live viewers: with the field they look for, if any
  tails: Vec<(&'static str, Option<&'static str>)>,
  fails: bool,
}

impl Setup {
  fn update(&self, to: &Written) -> Update {
    let p = |name| Box::new(P { name, to: to.clone(), fails: self.fails }) as bd_buffer::Producer;
    Update {
      buffers: self.buffers.iter().map(|b| (*b, CONTINUOUS.contains(b), p(*b))).collect(),
      selection: select::BufferConfigList { buffer_config: self.selection.iter().map(|(b, k)| selects(b, k)).collect(), ..Default::default() },
      workflows: WorkflowsConfiguration {
        workflows: self
          .actions
          .iter()
          .map(|a| flow(a.id, vec![state("a", vec![edge("z", a.key, vec![flush(a)])]), state("z", vec![])]))
          .chain(self.more.iter().cloned())
          .collect(),
        ..Default::default()
      },
      tails: BdTailConfigurations {
        active_streams: self
          .tails
          .iter()
          .map(|(id, k)| BdTailStream { stream_id: (*id).to_string().into(), matcher: k.map(when).into(), ..Default::default() })
          .collect(),
        ..Default::default()
      },
      tail: (!self.tails.is_empty()).then(|| p("tail")),
      filters: FiltersConfiguration::default(),
    }
  }

  fn of(&self, kind: &[&'static str]) -> Ids { self.buffers.iter().copied().filter(|b| kind.contains(b)).collect() }
  // what an action uploads
  fn uploads(&self, a: &Action) -> Ids {
    let all = self.of(&TRIGGER);
    if a.buffers.is_empty() { all } else { all.into_iter().filter(|b| a.buffers.contains(b)).collect() }
  }
}

fn configure(l: &ConfigLoader, workflows: bool) {
  let mut r = Runtime::default();
  r.values.insert("workflows.enabled".to_string(), Value { type_: Some(value::Type::BoolValue(workflows)), ..Default::default() });
  l.update_snapshot(&RuntimeUpdate { version_nonce: "n".to_string(), runtime: Some(r).into(), ..Default::default() });
}

struct World {
  rt: tokio::runtime::Runtime,
  loader: Arc<ConfigLoader>,
  stats: Collector,
  written: Written,
  setup: Setup,
  workflows: bool,
  pipe: Pipe,
  // buffers whose logs go elsewhere, and where
  redirected: Option<(Ids, Ids)>,
}

type Fields = BTreeMap<&'static str, u8>;
fn fields(keys: &[&'static str]) -> Fields { keys.iter().map(|k| (*k, vh::var(k, 8, u64::from(b'0'), u64::from(b'1')) as u8)).collect() }

impl World {
  fn new(setup: Setup, workflows: bool) -> Self {
    vh::clock(1000, 0, 0, 0);
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
    let stats = Collector::default();
    std::fs::create_dir_all("sdk").unwrap();
    let loader = ConfigLoader::new(Path::new("sdk"));
    configure(&loader, workflows);
    let written = Written::default();
    let pipe = {
      let _in = rt.enter();
      vh::block_on(Pipe::new(setup.update(&written), &loader, &stats.scope("")))
    };
    Self { rt, loader, stats, written, setup, workflows, pipe, redirected: None }
  }

  fn again(&mut self, setup: Setup) {
    let _in = self.rt.enter();
    self.pipe = vh::block_on(Pipe::new(setup.update(&self.written), &self.loader, &self.stats.scope("")));
    self.setup = setup;
  }

  /// One log with these fields, and all that should come of it.
  fn log(&mut self, f: &Fields, blocking: bool) {
    let is = |k: &str| f.get(k) == Some(&b'1');
    let of: LogFields = f.iter().map(|(k, v)| LogField { key: (*k).to_string(), value: String::from_utf8(vec![*v]).unwrap().into() }).collect();
    let log = Log {
      log_level: log_level::INFO,
      log_type: LogType::Normal,
      message: "m".into(),
      fields: of,
      matching_fields: LogFields::new(),
      session_id: "s".to_string(),
      occurred_at: time::OffsetDateTime::from_unix_timestamp(1_700_000_000).unwrap(),
    };
    self.written.lock().unwrap().clear();
    let (tx, mut rx) = tokio::sync::oneshot::channel();
    let _in = self.rt.enter();
    let mut asked: Option<Vec<String>> = None;
    {
      let (mut line, flushes, stats) = self.pipe.split();
      let mut fut = pin!(line.log(log, blocking.then_some(tx)));
      let mut r = vh::poll_pinned(fut.as_mut());
      // the workflows' state may be kept first
      if r.is_none() && flushes.is_empty() && stats.is_empty() { r = vh::poll_pinned(fut.as_mut()); }
      if blocking {
        if let Ok(b) = flushes.try_recv() {
          let (b, ack) = bd_buffer::verif_inside::open(b);
          vh::check(r.is_none() && rx.try_recv().is_err(), "not_over_before_it_is_on_disk");
          vh::check(stats.is_empty(), "one_after_the_other");
          let Some(ack) = ack else { vh::fail("somebody_waits") };
          asked = Some(b);
          ack.send(());
          r = vh::poll_pinned(fut.as_mut());
          vh::reach("flushed");
        }
        let Ok(Some(ack)) = stats.try_recv() else { vh::fail("its_numbers_are_kept") };
        vh::check(r.is_none() && rx.try_recv().is_err(), "not_over_before_its_numbers_are_on_disk");
        ack.send(());
        r = vh::poll_pinned(fut.as_mut());
        vh::check(rx.try_recv().is_ok(), "its_caller_goes_on");
      }
      vh::check(matches!(r, Some(Ok(()))), "processed");
      vh::check(flushes.is_empty() && stats.is_empty(), "nothing_more_is_flushed");
    }
    drop(_in);

    // where it belongs
    let selected: Ids = self.setup.selection.iter().filter(|(_, k)| is(k)).map(|(b, _)| *b).collect();
    let mut to = selected;
    let mut fired: Vec<Action> = vec![];
    if self.workflows {
      to.retain(|b| self.setup.buffers.contains(b));
      if let Some((from, dest)) = &self.redirected {
        if !to.is_disjoint(from) {
          vh::reach("redirected");
          to.retain(|b| !from.contains(b));
          to.extend(dest.iter().copied());
        }
      }
      fired = self.setup.actions.iter().filter(|a| is(a.key)).cloned().collect();
    }
    let ids: Vec<&str> = fired.iter().map(|a| a.id).collect();
    let flushed: Ids = fired.iter().flat_map(|a| self.setup.uploads(a)).collect();

    let w: Vec<_> = self.written.lock().unwrap().drain(..).collect();
    let mut synthetic = vec![];
    let mut got = Ids::new();
    let mut tail = None;
    for (b, data) in &w {
      let Ok(l) = root_as_log(data) else { vh::fail("a_log") };
      let s = |v: Option<flatbuffers::Vector<'_, flatbuffers::ForwardsUOffset<&str>>>| v.map_or(vec![], |v| v.iter().map(str::to_string).collect::<Vec<_>>());
      let (workflows, streams) = (s(l.workflow_action_ids()), s(l.stream_ids()));
      vh::check(l.message_as_string_data().map(|d| d.data()) == Some("m") && l.session_id() == Some("s"), "what_was_logged");
      let Some(fl) = l.fields() else { vh::fail("fields") };
      vh::check(fl.len() == f.len(), "fields");
      for (got, (k, v)) in fl.iter().zip(f) {
        vh::check(got.key() == *k && got.value_as_string_data().map(|d| d.data().as_bytes()) == Some(&[*v]), "fields");
      }
      if *b == "tail" {
        vh::check(tail.replace(streams).is_none() && workflows.is_empty(), "seen_live_once");
        continue;
      }
      vh::check(streams.is_empty() && workflows == ids, "what_it_set_off");
      if l.log_type() == LogType::InternalSDK {
        vh::check(l.log_level() == log_level::DEBUG, "a_stand_in");
        synthetic.push(*b);
      } else {
        vh::check(l.log_level() == log_level::INFO && l.log_type() == LogType::Normal, "what_was_logged");
        vh::check(got.insert(b), "once_in_a_buffer");
      }
    }
    vh::check(got == to, "in_the_buffers_that_take_it");
    let live: Vec<&str> = self.setup.tails.iter().filter(|(_, k)| k.map_or(true, is)).map(|(id, _)| *id).collect();
    vh::check(tail.unwrap_or_default() == live, "seen_live");
    if !live.is_empty() { vh::reach("live"); }
    // what sets off an upload is part of an upload
    let uploaded = to.iter().any(|b| CONTINUOUS.contains(b) || flushed.contains(b));
    if uploaded || flushed.is_empty() {
      vh::check(synthetic.is_empty(), "no_stand_in_needed");
    } else {
      vh::check(synthetic.len() == 1 && flushed.contains(synthetic[0]), "what_sets_off_an_upload_is_part_of_it");
      vh::reach(if to.is_empty() { "stand_in" } else { "stand_in_beside" });
    }
    if blocking {
      let on_disk = |b: &&str| asked.as_ref().map_or(false, |a| a.is_empty() || a.iter().any(|x| x == *b));
      vh::check(got.iter().all(|b| on_disk(b)) && synthetic.iter().all(|b| on_disk(b)), "on_disk_when_its_caller_goes_on");
    }
  }

  /// Lets everything run that can.
  fn settle(&mut self) {
    for _ in 0 .. 2 {
      self.rt.block_on(async { tokio::task::yield_now().await });
      let _in = self.rt.enter();
      let mut f = pin!(self.pipe.run());
      let _ = vh::poll_pinned(f.as_mut());
    }
  }

  /// The server is asked about an upload; what is uploaded once it has answered.
  fn answer(&mut self, yes: bool) -> Option<TriggerUpload> {
    self.settle();
    let Ok(DataUpload::LogsUploadIntentRequest(t)) = self.pipe.data.try_recv() else { vh::fail("the_server_is_asked") };
    let _ = t.response_tx.send(IntentResponse { uuid: t.uuid, decision: if yes { IntentDecision::UploadImmediately } else { IntentDecision::Drop } });
    self.settle();
    self.pipe.uploads.try_recv().ok()
  }
}

const SELECTION: [(&str, &str); 3] = [("c", "p"), ("t", "q"), ("u", "r")];
fn all() -> Vec<&'static str> { CONTINUOUS.iter().chain(&TRIGGER).copied().collect() }
const UPLOADS: [&[&str]; 4] = [&["t"], &["u"], &[], &["x"]];

vh::entry!(l11_log, {
  let setup = Setup {
    selection: SELECTION.to_vec(),
    buffers: all(),
    actions: vec![
      Action { id: "A", key: "x", buffers: UPLOADS[vh::choose("uploads", 4) as usize], streams: None },
      Action { id: "B", key: "y", buffers: &["u"], streams: None },
    ],
    ..Default::default()
  };
  let mut w = World::new(setup, vh::choose("workflows", 4) != 0);
  let f = fields(&["p", "q", "r", "x", "y"]);
  w.log(&f, vh::choose("blocking", 2) == 1);
});

vh::entry!(l11_failing, {
  let setup = Setup {
    selection: SELECTION.to_vec(),
    buffers: all(),
    actions: vec![Action { id: "A", key: "x", buffers: &["t"], streams: None }],
    tails: [vec![], vec![("1", None)], vec![("1", Some("q")), ("2", Some("r"))]][vh::choose("tails", 3) as usize].clone(),
    fails: true,
    ..Default::default()
  };
  let mut w = World::new(setup, vh::choose("workflows", 2) != 0);
  let f = fields(&["p", "q", "r", "x"]);
  w.log(&f, vh::choose("blocking", 2) == 1);
});

// an upload was asked for, maybe approved, and from then on logs go elsewhere
vh::entry!(l11_upload, {
  let a = Action { id: "A", key: "x", buffers: UPLOADS[vh::choose("uploads", 3) as usize], streams: [None, Some(&[][..]), Some(&["c", "d"][..])][vh::choose("streams", 3) as usize] };
  let b = Action { id: "B", key: "y", buffers: &["u"], streams: None };
  let setup = Setup { selection: SELECTION.to_vec(), buffers: all(), actions: vec![a.clone(), b], ..Default::default() };
  let up = setup.uploads(&a);
  let mut w = World::new(setup, true);
  w.log(&[("x", b'1')].into(), false);
  let yes = vh::choose("yes", 2) == 1;
  let t = w.answer(yes);
  if yes {
    let Some(t) = t else { vh::fail("uploaded") };
    vh::check(t.buffer_ids.iter().map(String::as_str).collect::<BTreeSet<_>>() == up, "those_it_names");
    vh::reach("uploaded");
    w.redirected = a.streams.map(|to| (up, if to.is_empty() { set(&["c"]) } else { set(to) }));
  } else {
    vh::check(t.is_none(), "not_uploaded");
    vh::reach("refused");
  }
  let f = fields(&["p", "q", "r", "y"]);
  w.log(&f, vh::choose("blocking", 2) == 1);
});

// what a log that was waited for led to is remembered by the next process
vh::entry!(l11_remembered, {
  let a = Action { id: "A", key: "y", buffers: &[], streams: None };
  let two = flow("A", vec![state("a", vec![edge("b", "x", vec![])]), state("b", vec![edge("z", "y", vec![flush(&a)])]), state("z", vec![])]);
  let other = flow("C", vec![state("a", vec![edge("b", "w", vec![])]), state("b", vec![edge("z", "v", vec![])]), state("z", vec![])]);
  let setup = Setup { selection: SELECTION.to_vec(), buffers: all(), more: vec![two, other], ..Default::default() };
  let mut w = World::new(setup.clone(), true);
  let f = fields(&["p", "x"]);
  let before = vh::choose("before", 2) == 1;
  if before {
    // the state was kept just before
    w.log(&[("w", b'1')].into(), vh::choose("blocking", 2) == 1);
    vh::reach("just_kept");
  }
  w.log(&f, true);
  w.again(setup);
  // there is an upload if both happened
  w.setup.actions = if f["x"] == b'1' { vec![a] } else { vec![] };
  if f["x"] == b'1' { vh::reach("remembered"); }
  w.log(&[("y", b'1')].into(), false);
});

// everything can change between two logs
vh::entry!(l11_changed, {
  let other = [("d", "p"), ("t", "r"), ("c", "q")];
  let first = Setup {
    selection: SELECTION.to_vec(),
    buffers: all(),
    actions: vec![Action { id: "A", key: "x", buffers: &["t"], streams: None }],
    tails: vec![("1", Some("q"))],
    ..Default::default()
  };
  let more = vec![flow("s", vec![state("a", vec![edge("z", "y", vec![shot()])]), state("z", vec![])])];
  let second = Setup {
    selection: other.to_vec(),
    buffers: vec!["c", "d", "t"],
    actions: vec![Action { id: "B", key: "x", buffers: &[], streams: None }],
    more,
    tails: if vh::choose("live", 2) == 1 { vec![("2", None)] } else { vec![] },
    ..Default::default()
  };
  let mut w = World::new(first, vh::choose("before", 2) == 1);
  w.log(&[("q", b'1')].into(), false);
  let on = vh::choose("on", 2) == 1;
  configure(&w.loader, on);
  if vh::choose("noticed", 2) == 1 {
    // turned off at once, turned on with the next configuration
    w.settle();
    w.workflows &= on;
    w.log(&[("x", b'1')].into(), false);
    let _ = w.pipe.data.try_recv();
  }
  {
    let _in = w.rt.enter();
    w.pipe.update(second.update(&w.written));
  }
  w.setup = second;
  w.workflows = on;
  let f = fields(&["p", "q", "r", "x", "y"]);
  w.log(&f, vh::choose("blocking", 2) == 1);
  let shot = w.pipe.shots.try_recv().is_ok();
  vh::check(shot == (on && f["y"] == b'1'), "a_screenshot_if_asked_for");
  vh::reach(if on { "with_workflows" } else { "without_workflows" });
  if shot { vh::reach("screenshot"); }
});
