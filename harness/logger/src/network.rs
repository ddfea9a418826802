//! L09: what is attached to logs about the network.
use bd_log_primitives::{AnnotatedLogField, AnnotatedLogFields, LogField, LogFieldKind, LogInterceptor, LogType, StringOrBytes};
use bd_logger::verif_inside::{NetworkQualityInterceptor, Usage};
use bd_network_quality::{NetworkQuality, NetworkQualityProvider};
use std::sync::{Arc, Mutex};
use std::time::Duration;

struct Quality(Mutex<NetworkQuality>);
impl NetworkQualityProvider for Quality {
  fn get_network_quality(&self) -> NetworkQuality { *self.0.lock().unwrap() }
  fn set_network_quality(&self, q: NetworkQuality) { *self.0.lock().unwrap() = q; }
}

fn quality() -> NetworkQuality {
  match vh::choose("quality", 3) {
    0 => NetworkQuality::Unknown,
    1 => NetworkQuality::Offline,
    _ => NetworkQuality::Online,
  }
}

fn field(key: &str, v: StringOrBytes<String, Vec<u8>>) -> AnnotatedLogField {
  AnnotatedLogField { field: LogField { key: key.to_string(), value: v }, kind: LogFieldKind::Ootb }
}
fn text(key: &str, v: &str) -> AnnotatedLogField { field(key, StringOrBytes::String(v.to_string())) }

fn get(f: &AnnotatedLogFields, key: &str) -> Option<u64> {
  let mut i = f.iter().filter(|f| f.field.key == key);
  let v = i.next().map(|f| match &f.field.value {
    StringOrBytes::String(s) => s.parse().unwrap_or_else(|_| vh::fail("a_number")),
    StringOrBytes::Bytes(_) => vh::fail("a_number"),
  });
  vh::check(i.next().is_none(), "given_once");
  v
}

const KEYS: [&str; 4] = ["_request_body_bytes_sent_count", "_request_headers_bytes_count", "_response_body_bytes_received_count", "_response_headers_bytes_count"];
const SUMS: [&str; 4] = ["_request_body_bytes_per_min_count", "_request_headers_bytes_per_min_count", "_response_body_bytes_per_min_count", "_response_headers_bytes_per_min_count"];

// any log: which are marked as offline
vh::entry!(l09_offline, {
  let q = quality();
  let i = NetworkQualityInterceptor::new(Arc::new(Quality(Mutex::new(q))));
  let t = vh::range("type", 0, 16) as u32;
  let before = if vh::choose("fields", 2) == 1 { vec![text("a", "b")] } else { vec![] };
  let mut f = before.clone();
  i.process(2, LogType(t), &StringOrBytes::String("m".to_string()), &mut f);
  let internal = t == LogType::Resource.0 || t == LogType::Replay.0 || t == LogType::InternalSDK.0;
  if q == NetworkQuality::Offline && !internal {
    vh::check(f.len() == before.len() + 1 && f[.. before.len()] == before[..], "fields_kept");
    vh::check(f[before.len()] == text("_network_quality", "offline"), "marked");
    vh::reach("marked");
  } else {
    vh::check(f == before, "not_marked");
    vh::reach("not_marked");
  }
});

vh::entry!(l09_usage, {
  let q = NetworkQuality::Offline;
  let provider = Arc::new(Quality(Mutex::new(q)));
  let u = Usage::new(provider.clone());
  // the periods between two reports and what was received in them; the last one is under way
  let mut periods: Vec<(u64, [u128; 4])> = vec![(0, [0; 4])];
  let mut now = 0;
  let mut n = 0;
  let mut kind = None;
  for _ in 0 .. vh::param("ops", 5) {
    match vh::choose("op", 4) {
      0 => {
        // a response with one of the sizes
        let k = vh::choose("which", 4) as usize;
        n += 1;
        let v = if vh::choose("huge", 2) == 1 { u64::MAX } else { 10u64.pow(n) };
        let mut f = vec![text(KEYS[k], &v.to_string())];
        u.log(LogType::Span, &StringOrBytes::String("HTTPResponse".to_string()), &mut f);
        vh::check(f.len() == 1, "response_unchanged");
        periods.last_mut().unwrap().1[k] += u128::from(v);
      },
      1 => {
        let mut f = vec![text("other", "x")];
        u.log(LogType::Resource, &StringOrBytes::String(String::new()), &mut f);
        let all = periods.len();
        periods.retain(|(t, _)| now - t <= 60_000);
        if periods.len() < all {
          let mut sums = [0u128; 4];
          for p in &periods { for k in 0 .. 4 { sums[k] += p.1[k]; } }
          let cap = |v: u128| v.min(u128::from(u64::MAX)) as u64;
          for k in 0 .. 4 { vh::check(get(&f, SUMS[k]) == Some(cap(sums[k])), "bytes_of_the_last_minute"); }
          vh::check(get(&f, "_request_bytes_per_min_count") == Some(cap(sums[0] + sums[1])), "request_total");
          vh::check(get(&f, "_response_bytes_per_min_count") == Some(cap(sums[2] + sums[3])), "response_total");
          vh::check(f.len() == 7 && f[0] == text("other", "x"), "fields_kept");
          if sums != [0; 4] { vh::reach("some"); } else { vh::reach("none"); }
        } else {
          vh::check(f.len() == 1, "not_before_a_minute");
          vh::reach("too_early");
        }
        periods.push((now, [0; 4]));
      },
      2 => {
        let ms = [1000, 30_000, 60_000, 60_001][vh::choose("later", 4) as usize];
        now += ms;
        u.later(Duration::from_millis(ms));
      },
      _ => {
        // other logs leave no trace
        let (t, m) = [(LogType::Span, ""), (LogType::Normal, "HTTPResponse"), (LogType::Resource, "x"), (LogType::Normal, "")][*kind.get_or_insert_with(|| vh::choose("kind", 4) as usize)];
        let mut f = vec![text(KEYS[0], "5"), text("_status_code", "200")];
        let before = f.clone();
        u.log(t, &StringOrBytes::String(m.to_string()), &mut f);
        vh::check(f == before, "others_unchanged");
      },
    }
    vh::check(provider.get_network_quality() == q, "quality_kept");
  }
});

const TEXTS: [(&str, Option<u64>); 7] = [("7", Some(7)), ("", None), ("-1", None), ("12x", None), ("18446744073709551615", Some(u64::MAX)), ("18446744073709551616", None), ("0", Some(0))];

// how the fields of one response are read
vh::entry!(l09_response, {
  let q = quality();
  let provider = Arc::new(Quality(Mutex::new(q)));
  let u = Usage::new(provider.clone());
  let mut f = vec![];
  let (mut online, mut count) = (false, None);
  let mut stop = [false; 2];
  for _ in 0 .. vh::param("fields", 3) {
    let (key, i) = match vh::choose("key", 3) {
      0 => ("_status_code", 0),
      1 => (KEYS[0], 1),
      _ => ("_status_code_", 2),
    };
    if vh::choose("bytes", 2) == 1 {
      f.push(field(key, StringOrBytes::Bytes(vec![b'7'])));
      if i < 2 { stop[i] = true; }
      continue;
    }
    let (t, v) = TEXTS[vh::choose("text", TEXTS.len() as u64) as usize];
    f.push(text(key, t));
    if i < 2 && !stop[i] && v.is_some() {
      stop[i] = true;
      if i == 0 { online = true; } else { count = v; }
    }
  }
  let before = f.clone();
  u.log(LogType::Span, &StringOrBytes::String("HTTPResponse".to_string()), &mut f);
  vh::check(f == before, "response_unchanged");
  vh::check(provider.get_network_quality() == if online { NetworkQuality::Online } else { q }, "online_after_a_status");
  if online { vh::reach("online"); }
  // two reports later its period is complete
  let report = || {
    let mut f = vec![];
    u.log(LogType::Resource, &StringOrBytes::String(String::new()), &mut f);
    f
  };
  u.later(Duration::from_secs(50));
  report();
  let mut g = vec![text(KEYS[0], "100")];
  u.log(LogType::Span, &StringOrBytes::String("HTTPResponse".to_string()), &mut g);
  u.later(Duration::from_secs(11));
  vh::check(get(&report(), SUMS[0]) == Some(100), "older_than_a_minute_dropped");
  let u = Usage::new(provider);
  u.later(Duration::from_secs(50));
  vh::check({ let mut r = vec![]; u.log(LogType::Resource, &StringOrBytes::String(String::new()), &mut r); r.is_empty() }, "not_before_a_minute");
  u.log(LogType::Span, &StringOrBytes::String("HTTPResponse".to_string()), &mut f);
  u.later(Duration::from_secs(11));
  let mut r = vec![];
  u.log(LogType::Resource, &StringOrBytes::String(String::new()), &mut r);
  vh::check(get(&r, SUMS[0]) == Some(count.unwrap_or(0)), "counted");
  if count.is_some() { vh::reach("counted"); } else { vh::reach("no_count"); }
});
