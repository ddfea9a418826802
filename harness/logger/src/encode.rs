//! L08: what a stored log says is what was logged.
use bd_client_common::fb::{make_log, root_as_log};
use bd_log_primitives::{LogField, LogFields, LogMessage, StringOrBytes};
use bd_proto::flatbuffers::buffer_log::bitdrift_public::fbs::logging::v_1::{Data, Log, LogType};
use flatbuffers::FlatBufferBuilder;
use time::OffsetDateTime;

fn text(name: &str) -> String {
  let mut b = vec![0; vh::choose("len", vh::param("len", 3)) as usize];
  vh::bytes(&mut b, name);
  for c in &b { vh::assume(*c < 0x80); }
  let mut s = String::from_utf8(b).unwrap();
  if vh::choose("wide", 2) == 1 { s.push('é'); }
  s
}

fn value(name: &str) -> LogMessage {
  if vh::choose("binary", 2) == 1 {
    let mut b = vec![0; vh::choose("len", vh::param("len", 3)) as usize];
    vh::bytes(&mut b, name);
    StringOrBytes::Bytes(b)
  } else {
    StringOrBytes::String(text(name))
  }
}

struct Case {
  level: u32,
  kind: u32,
  message: LogMessage,
  fields: LogFields,
  session: String,
  at: OffsetDateTime,
  actions: Vec<String>,
  streams: Vec<String>,
}

fn case(whole: bool) -> Case {
  let (s, n) = [(0i64, 0i64), (1_700_000_000, 1), (1_700_000_000, 999_999_999), (-1, 500_000_000), (253_402_300_799, 0)][vh::choose("at", 5) as usize];
  let few = |name: &str| (0 .. vh::choose(name, 3)).map(|i| format!("{name}{i}")).collect::<Vec<_>>();
  Case {
    level: vh::u32v("level"),
    kind: vh::range("kind", 0, 8) as u32,
    message: if whole { value("message") } else { "m".into() },
    fields: (0 .. vh::choose("fields", if whole { 2 } else { 3 })).map(|i| LogField { key: if whole { text("key") } else { format!("k{i}") }, value: if whole { value("value") } else { "v".into() } }).collect(),
    session: if whole { "session".to_string() } else { text("session") },
    at: OffsetDateTime::from_unix_timestamp_nanos(i128::from(s) * 1_000_000_000 + i128::from(n)).unwrap_or_else(|_| vh::fail("time")),
    actions: if whole { vec![] } else { few("action") },
    streams: if whole { vec![] } else { few("stream") },
  }
}

impl Case {
  fn encode(&self, b: &mut FlatBufferBuilder<'_>, fails: bool) -> Vec<u8> {
    let mut out = vec![];
    let r = make_log(b, self.level, LogType(self.kind), &self.message, &self.fields, &self.session, self.at, self.actions.iter().map(String::as_str), self.streams.iter().map(String::as_str), |x| {
      out = x.to_vec();
      if fails { anyhow::bail!("no room") }
      Ok(())
    });
    vh::check(r.is_ok() != fails, "reports_failure");
    out
  }
  fn check(&self, bytes: &[u8]) {
    let Ok(l) = root_as_log(bytes) else { vh::fail("readable") };
    vh::check(l.log_level() == self.level, "level");
    vh::check(l.log_type().0 == self.kind, "type");
    vh::check(l.session_id() == Some(self.session.as_str()), "session");
    let Some(t) = l.timestamp() else { vh::fail("timestamp") };
    vh::check(OffsetDateTime::from_unix_timestamp_nanos(i128::from(t.seconds()) * 1_000_000_000 + i128::from(t.nanos())) == Ok(self.at), "timestamp");
    vh::check(t.nanos() >= 0 && t.nanos() < 1_000_000_000, "nanos");
    match &self.message {
      StringOrBytes::String(s) => vh::check(l.message_as_string_data().map(|d| d.data()) == Some(s), "message"),
      StringOrBytes::Bytes(b) => vh::check(l.message_as_binary_data().map(|d| d.data().bytes()) == Some(b), "message"),
    }
    let fields: Vec<_> = l.fields().map_or(vec![], |f| f.iter().collect());
    vh::check(fields.len() == self.fields.len(), "fields");
    for (f, w) in fields.iter().zip(&self.fields) {
      vh::check(f.key() == w.key, "key");
      match &w.value {
        StringOrBytes::String(s) => vh::check(f.value_as_string_data().map(|d| d.data()) == Some(s), "value"),
        StringOrBytes::Bytes(b) => vh::check(f.value_as_binary_data().map(|d| d.data().bytes()) == Some(b), "value"),
      }
    }
    let ids = |v: Option<flatbuffers::Vector<'_, flatbuffers::ForwardsUOffset<&str>>>| v.map_or(vec![], |v| v.iter().map(ToString::to_string).collect::<Vec<_>>());
    vh::check(ids(l.workflow_action_ids()) == self.actions, "actions");
    vh::check(ids(l.stream_ids()) == self.streams, "streams");
  }
}

vh::entry!(l08_content, {
  let c = case(true);
  let b = c.encode(&mut FlatBufferBuilder::new(), false);
  c.check(&b);
  vh::reach("decoded");
});

// a builder is used for one log after another, whether or not the last could be stored
vh::entry!(l08_again, {
  let mut b = FlatBufferBuilder::new();
  let first = Case { level: 1, kind: 8, message: StringOrBytes::Bytes(vec![1, 2, 3]), fields: vec![LogField { key: "a".to_string(), value: "b".into() }], session: "first".to_string(), at: OffsetDateTime::UNIX_EPOCH, actions: vec!["x".to_string()], streams: vec!["y".to_string()] };
  first.encode(&mut b, vh::choose("fails", 2) == 1);
  let c = case(false);
  let bytes = c.encode(&mut b, false);
  c.check(&bytes);
  vh::reach("decoded");
});
