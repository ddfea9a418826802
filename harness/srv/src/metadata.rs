//! I01: what identifies the SDK to the server cannot be overridden.
use bd_metadata::{Metadata, Platform};
use std::collections::HashMap;

const KEYS: [&str; 6] = ["config_version", "os", "kind", "sdk_version", "app_id", ""];

struct M(Platform, HashMap<String, String>, &'static str);
impl Metadata for M {
  fn sdk_version(&self) -> &'static str { self.2 }
  fn platform(&self) -> &Platform { &self.0 }
  fn collect_inner(&self) -> HashMap<String, String> { self.1.clone() }
}

vh::entry!(i01_collect, {
  let (p, os, kind) = match vh::choose("platform", 4) {
    0 => (Platform::Android, "android", "mobile"),
    1 => (Platform::Ios, "ios", "mobile"),
    2 => (Platform::Pulse, "pulse", "pulse"),
    _ => (Platform::Other("linux", "server"), "linux", "server"),
  };
  let n = vh::choose("extra", 4);
  let mut inner = HashMap::new();
  for _ in 0..n {
    let k = KEYS[vh::choose("key", 6) as usize];
    let mut b = [0u8; 2];
    vh::bytes(&mut b, "value");
    vh::assume(b[0] < 128);
    vh::assume(b[1] < 128);
    inner.insert(k.to_string(), unsafe { String::from_utf8_unchecked(b.to_vec()) });
  }
  let sdk = ["1.2.3", ""][vh::choose("sdk", 2) as usize];
  let m = M(p, inner.clone(), sdk);
  let out = m.collect();
  vh::check(out.get("os").is_some_and(|v| v == os), "os");
  vh::check(out.get("kind").is_some_and(|v| v == kind), "kind");
  vh::check(out.get("sdk_version").is_some_and(|v| v == sdk), "sdk_version");
  // the configuration version is this SDK's own, whatever the platform adds
  let plain = M(Platform::Ios, HashMap::new(), "x").collect();
  vh::check(plain.len() == 4, "nothing_else");
  let cv = plain.get("config_version").unwrap();
  vh::check(!cv.is_empty() && cv.bytes().all(|c| c.is_ascii_digit()), "config_version_is_a_number");
  vh::check(out.get("config_version") == Some(cv), "config_version");
  let mut own = 4;
  for (k, v) in &inner {
    if !["os", "kind", "sdk_version", "config_version"].contains(&k.as_str()) {
      own += 1;
      vh::check(out.get(k) == Some(v), "platform_fields_kept");
    } else {
      vh::reach("clash");
    }
  }
  vh::check(out.len() == own, "nothing_else");
  vh::reach("collected");
});
