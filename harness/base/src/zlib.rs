//! Z01: compressed protobuf files.
use bd_client_common::file::{read_compressed_protobuf, write_compressed_protobuf};
use bd_proto::protos::client::api::RuntimeUpdate;
use bd_proto::protos::client::runtime::runtime::{value, Value};
use bd_proto::protos::client::runtime::Runtime;

fn message(which: u64) -> RuntimeUpdate {
  let mut m = RuntimeUpdate::default();
  if which > 0 {
    m.version_nonce = "abababab".to_string();
  }
  if which > 1 {
    let mut r = Runtime::default();
    let v = Value { type_: Some(value::Type::UintValue(23)), ..Default::default() };
    r.values.insert("a.count".to_string(), v);
    m.runtime = Some(r).into();
  }
  if which > 2 {
    // well beyond the first chunk of output
    m.version_nonce = "0123456789".repeat(300);
  }
  m
}

// every message is read back; cut short anywhere it is refused
vh::entry!(z01_cut, {
  let m = message(vh::choose("message", 4));
  let f = write_compressed_protobuf(&m);
  vh::check(!f.is_empty(), "never_empty");
  let n = vh::choose("length", f.len() as u64 + 1) as usize;
  match read_compressed_protobuf::<RuntimeUpdate>(&f[.. n]) {
    Ok(x) => {
      vh::check(n == f.len(), "cut_short_is_refused");
      vh::check(x == m, "same_message");
      vh::reach("whole");
    },
    Err(_) => {
      vh::check(n < f.len(), "whole_file_is_read");
      vh::reach("cut");
    },
  }
});

// one byte holds any other value: refused, or the same message (a bit that zlib ignores)
vh::entry!(z01_damaged, {
  let m = message(vh::param("message", 1));
  let mut f = write_compressed_protobuf(&m);
  let at = vh::choose("at", f.len() as u64) as usize;
  let b = vh::u8v("byte");
  vh::assume(b != f[at]);
  f[at] = b;
  match read_compressed_protobuf::<RuntimeUpdate>(&f) {
    Ok(x) => vh::check(x == m, "damaged_is_refused"),
    Err(_) => vh::reach("refused"),
  }
});
