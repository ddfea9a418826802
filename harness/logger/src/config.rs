//! L10: the configuration received from the server, applied and kept for the next start.
use bd_api::ConfigurationUpdate as _;
use bd_client_stats_store::Collector;
use bd_logger::verif_inside::{config, Sink};
use bd_proto::protos::bdtail::bdtail_config::BdTailStream;
use bd_proto::protos::client::api::api_request::Request_type;
use bd_proto::protos::client::api::api_response::Response_type;
use bd_proto::protos::client::api::configuration_update::{StateOfTheWorld, Update_type};
use bd_proto::protos::client::api::{ApiRequest, ApiResponse, ConfigurationUpdate, PongResponse, RuntimeUpdate};
use bd_proto::protos::config::v1::config::BufferConfig;
use bd_proto::protos::filter::filter::Filter;
use bd_proto::protos::workflow::workflow::Workflow;
use std::path::Path;
use std::sync::{Arc, Mutex};

const DIR: &str = "sdk";
const FILE: &str = "sdk/config.pb";

#[derive(Default)]
struct Seen {
  applied: Vec<StateOfTheWorld>,
  // the next one fails
  refuse: bool,
  // a configuration is being read from disk: it must be gone from there while it is tried
  loading: bool,
}
struct S(Arc<Mutex<Seen>>);
impl Sink for S {
  fn apply(&mut self, c: StateOfTheWorld) -> anyhow::Result<()> {
    let mut s = self.0.lock().unwrap();
    if s.loading {
      vh::check(!Path::new(FILE).exists(), "not_tried_again_if_it_kills");
    }
    s.applied.push(c);
    if s.refuse {
      anyhow::bail!("refused");
    }
    Ok(())
  }
}

// the i-th configuration: which of its parts it has
fn sow(parts: u64, i: u64) -> StateOfTheWorld {
  let mut s = StateOfTheWorld::default();
  let id = format!("c{i}");
  if parts & 1 != 0 {
    s.buffer_config_list.mut_or_insert_default().buffer_config.push(BufferConfig { id: id.clone(), name: "n".to_string(), ..Default::default() });
  }
  if parts & 2 != 0 {
    s.workflows_configuration.mut_or_insert_default().workflows.push(Workflow { id: id.clone(), ..Default::default() });
  }
  if parts & 4 != 0 {
    s.bdtail_configuration.mut_or_insert_default().active_streams.push(BdTailStream { stream_id: id.clone().into(), ..Default::default() });
  }
  if parts & 8 != 0 {
    s.filters_configuration.mut_or_insert_default().filters.push(Filter { transforms: vec![Default::default()], ..Default::default() });
  }
  s
}

// what is applied has every part
fn full(mut s: StateOfTheWorld) -> StateOfTheWorld {
  s.buffer_config_list.mut_or_insert_default();
  s.workflows_configuration.mut_or_insert_default();
  s.bdtail_configuration.mut_or_insert_default();
  s.filters_configuration.mut_or_insert_default();
  s
}

fn update(nonce: &str, s: Option<StateOfTheWorld>) -> ApiResponse {
  ApiResponse {
    response_type: Some(Response_type::ConfigurationUpdate(ConfigurationUpdate {
      version_nonce: nonce.to_string(),
      update_type: s.map(Update_type::StateOfTheWorld),
      ..Default::default()
    })),
    ..Default::default()
  }
}

fn start() -> (Arc<Mutex<Seen>>, impl bd_api::ConfigurationUpdate) {
  let seen = Arc::new(Mutex::new(Seen::default()));
  let c = config(Path::new(DIR), S(seen.clone()), &Collector::default().scope("t"));
  (seen, c)
}

fn version(c: &impl bd_api::ConfigurationUpdate) -> String {
  let h = c.partial_handshake();
  vh::check(h.runtime_version_nonce.is_empty(), "handshake_own_part");
  h.configuration_version_nonce
}

// loads what is on disk in a new process; returns what has been applied and the version told to the server
fn restart() -> (Vec<StateOfTheWorld>, String, Arc<Mutex<Seen>>, impl bd_api::ConfigurationUpdate) {
  let (seen, mut c) = start();
  vh::check(version(&c).is_empty(), "nothing_known_before_loading");
  seen.lock().unwrap().loading = true;
  vh::block_on(c.try_load_persisted_config());
  seen.lock().unwrap().loading = false;
  let a = std::mem::take(&mut seen.lock().unwrap().applied);
  let v = version(&c);
  (a, v, seen, c)
}

// an acknowledgement: of what, and what was wrong with it
fn ack(r: Option<ApiRequest>) -> (String, Option<(String, String)>) {
  match r.and_then(|r| r.request_type) {
    Some(Request_type::ConfigurationUpdateAck(a)) => {
      (a.last_applied_version_nonce.clone(), a.nack.as_ref().map(|n| (n.version_nonce.clone(), n.error_details.clone())))
    },
    _ => vh::fail("answered"),
  }
}

// updates of which some are refused or empty, and what the next start finds
vh::entry!(l10_updates, {
  std::fs::create_dir(DIR).unwrap();
  let n = vh::param("n", 2);
  let (mut seen, c) = start();
  let mut c: Box<dyn bd_api::ConfigurationUpdate> = Box::new(c);
  let mut cur: Option<(String, StateOfTheWorld)> = None;
  for i in 0 .. n {
    let nonce = format!("v{i}");
    match vh::choose("what", 5) {
      0 => {
        let s = sow(vh::choose("parts", 16), i);
        let a = ack(vh::block_on(c.try_apply_config(&update(&nonce, Some(s.clone())))));
        vh::check(a == (nonce.clone(), None), "acknowledged");
        let applied = std::mem::take(&mut seen.lock().unwrap().applied);
        vh::check(applied.len() == 1 && applied[0] == full(s.clone()), "applied_whole");
        cur = Some((nonce, s));
        vh::reach("applied");
      },
      1 => {
        let s = sow(15, i);
        seen.lock().unwrap().refuse = true;
        let (v, e) = ack(vh::block_on(c.try_apply_config(&update(&nonce, Some(s)))));
        seen.lock().unwrap().refuse = false;
        vh::check(e == Some((nonce, "refused".to_string())), "refusal_told");
        vh::check(v == cur.as_ref().map_or(String::new(), |c| c.0.clone()), "last_applied_is_the_one_before");
        seen.lock().unwrap().applied.clear();
        vh::reach("refused");
      },
      2 => {
        let (v, e) = ack(vh::block_on(c.try_apply_config(&update(&nonce, None))));
        vh::check(e.is_some_and(|e| e.0 == nonce && !e.1.is_empty()), "empty_refused");
        vh::check(v == cur.as_ref().map_or(String::new(), |c| c.0.clone()), "last_applied_is_the_one_before");
        vh::reach("empty");
      },
      3 => {
        let other = match vh::choose("other", 3) {
          0 => None,
          1 => Some(Response_type::RuntimeUpdate(RuntimeUpdate::default())),
          _ => Some(Response_type::Pong(PongResponse::default())),
        };
        let r = vh::block_on(c.try_apply_config(&ApiResponse { response_type: other, ..Default::default() }));
        vh::check(r.is_none(), "not_for_us");
      },
      _ => {
        let (a, v, s, d) = restart();
        check_loaded(&cur, &a, &v);
        seen = s;
        c = Box::new(d);
        vh::reach("restarted");
      },
    }
    vh::check(seen.lock().unwrap().applied.is_empty(), "nothing_else_applied");
    vh::check(version(&Dyn(&*c)) == cur.as_ref().map_or(String::new(), |c| c.0.clone()), "handshake_version");
  }
  drop(c);
  let (a, v, ..) = restart();
  check_loaded(&cur, &a, &v);
});

struct Dyn<'a>(&'a dyn bd_api::ConfigurationUpdate);
#[async_trait::async_trait]
impl bd_api::ConfigurationUpdate for Dyn<'_> {
  async fn try_apply_config(&mut self, _: &ApiResponse) -> Option<ApiRequest> { None }
  async fn try_load_persisted_config(&mut self) {}
  fn partial_handshake(&self) -> bd_proto::protos::client::api::HandshakeRequest { self.0.partial_handshake() }
  fn on_handshake_complete(&self) {}
}

fn check_loaded(cur: &Option<(String, StateOfTheWorld)>, a: &[StateOfTheWorld], v: &str) {
  match cur {
    Some((n, s)) => {
      vh::check(v == n, "kept_version");
      vh::check(a.len() == 1 && a[0] == full(s.clone()), "kept_whole");
    },
    None => vh::check(a.is_empty() && v.is_empty(), "nothing_kept"),
  }
}

// the process is killed, or the disk fills up, at any point of saving the second configuration or of a start
vh::entry!(l10_crash, {
  std::fs::create_dir(DIR).unwrap();
  let s1 = sow(15, 1);
  let s2 = sow([15, 4, 0][vh::choose("second", 3) as usize], 2);
  let (_, mut c) = start();
  ack(vh::block_on(c.try_apply_config(&update("v1", Some(s1.clone())))));
  let k = vh::choose("when", vh::param("points", 60));
  let full_disk = vh::choose("full", 2) == 1;
  if full_disk { vh::disk_full(k) } else { vh::disk_dies(k) }
  let during_start = vh::choose("start", 2) == 1;
  if during_start {
    drop(c);
    let (a, v, ..) = restart();
    // (what a killed process does afterwards does not matter)
    if full_disk {
      check_loaded(&Some(("v1".to_string(), s1.clone())), &a, &v);
    }
  } else {
    let a = ack(vh::block_on(c.try_apply_config(&update("v2", Some(s2.clone())))));
    vh::check(a == ("v2".to_string(), None), "applied_without_disk");
    vh::check(version(&c) == "v2", "version_without_disk");
    drop(c);
  }
  vh::disk_good();
  let (a, v, ..) = restart();
  vh::check(a.len() <= 1, "at_most_one");
  if a.is_empty() {
    vh::check(v.is_empty(), "nothing_told");
    vh::reach("lost");
  } else if v == "v1" {
    vh::check(a[0] == full(s1), "old_whole");
    vh::reach("old");
  } else {
    vh::check(v == "v2" && !during_start && a[0] == full(s2), "new_whole");
    vh::reach("new");
  }
});

// any damage to the file
vh::entry!(l10_damaged, {
  std::fs::create_dir(DIR).unwrap();
  let n = vh::choose("n", vh::param("n", 3));
  let mut b = vec![0u8; n as usize];
  vh::bytes(&mut b, "b");
  std::fs::write(FILE, &b).unwrap();
  let (a, v, ..) = restart();
  // no part of a configuration fits in so few bytes but an empty one
  vh::check(a.len() <= 1 && (!a.is_empty() || v.is_empty()), "ignored");
  if a.is_empty() {
    vh::check(!Path::new(FILE).exists(), "removed");
    vh::reach("ignored");
  }
});
