//! F01: filters transform only what they match, in order.
use crate::tree::{is_set, log_type};
use bd_log_filter::FilterChain;
use bd_log_primitives::{Log, LogField, LogFieldValue, LogFields, LogType, StringOrBytes};
use bd_proto::protos::filter::filter::filter::transform::set_field::set_field_value::{ExistingField, Value};
use bd_proto::protos::filter::filter::filter::transform::set_field::{FieldType, SetFieldValue};
use bd_proto::protos::filter::filter::filter::transform::{
  CaptureField, RegexMatchAndSubstituteField, RemoveField, SetField, Transform_type,
};
use bd_proto::protos::filter::filter::filter::Transform;
use bd_proto::protos::filter::filter::{Filter, FiltersConfiguration};
use protobuf::EnumOrUnknown;

const KEYS: [&str; 3] = ["a", "b", "c"];

/// One character of text or one byte.
#[derive(Clone, Copy)]
struct V {
  text: bool,
  c: u8,
}

#[derive(Clone, Copy)]
struct F {
  k: usize,
  v: V,
}

fn fields(name: &str, max: u64) -> Vec<F> {
  let mut f = vec![];
  for _ in 0 .. vh::choose(name, max + 1) {
    let k = vh::choose("key", vh::param("keys", 2)) as usize;
    let c = vh::range("c", u64::from(b'w'), u64::from(b'z')) as u8;
    f.push(F { k, v: V { text: vh::choose("text", 2) == 1, c } });
  }
  f
}

fn real(f: &[F]) -> LogFields {
  f.iter()
    .map(|f| LogField {
      key: KEYS[f.k].to_string(),
      value: if f.v.text {
        LogFieldValue::String(unsafe { String::from_utf8_unchecked(vec![f.v.c]) })
      } else {
        LogFieldValue::Bytes(vec![f.v.c])
      },
    })
    .collect()
}

fn same(f: &[LogField], m: &[F]) -> bool {
  let mut ok = f.len() == m.len();
  for (f, m) in f.iter().zip(m) {
    ok = ok
      & (f.key == KEYS[m.k])
      & match &f.value {
        StringOrBytes::String(s) => m.v.text && s.len() == 1 && s.as_bytes()[0] == m.v.c,
        StringOrBytes::Bytes(b) => !m.v.text && b.len() == 1 && b[0] == m.v.c,
      };
  }
  ok
}

struct M {
  captured: Vec<F>,
  matching: Vec<F>,
}

impl M {
  fn put(to: &mut Vec<F>, f: F) {
    to.retain(|x| x.k != f.k);
    to.push(f);
  }

  /// The value a copy of field `k` takes: that of the first field of the name, if it is text.
  fn value(&self, k: usize) -> Option<u8> {
    self.captured.iter().chain(&self.matching).find(|f| f.k == k).and_then(|f| f.v.text.then_some(f.v.c))
  }

  fn has(&self, k: usize) -> bool { self.captured.iter().chain(&self.matching).any(|f| f.k == k) }
}

/// A transformation and its effect.
fn transform(m: &mut Option<&mut M>) -> Transform {
  let k = vh::choose("key", vh::param("keys", 2)) as usize;
  let name = KEYS[k].to_string();
  let t = match vh::choose("transform", 4) {
    0 => {
      if let Some(m) = m {
        if let Some(i) = m.matching.iter().position(|f| f.k == k) {
          let f = m.matching.remove(i);
          M::put(&mut m.captured, f);
        }
      }
      Transform_type::CaptureField(CaptureField { name, ..Default::default() })
    },
    1 => {
      let mut v = None;
      let value = match vh::choose("from", 2) {
        0 => {
          v = Some(b'n');
          Value::StringValue("n".to_string())
        },
        _ => {
          let from = vh::choose("from_key", vh::param("keys", 2)) as usize;
          if let Some(m) = m {
            v = m.value(from);
          }
          Value::ExistingField(ExistingField { name: KEYS[from].to_string(), ..Default::default() })
        },
      };
      let captured = vh::choose("captured", 2) == 1;
      let allow_override = vh::choose("override", 2) == 1;
      if let Some(m) = m {
        if let Some(c) = v {
          if allow_override || !m.has(k) {
            let f = F { k, v: V { text: true, c } };
            M::put(if captured { &mut m.captured } else { &mut m.matching }, f);
          }
        }
      }
      Transform_type::SetField(SetField {
        name,
        value: Some(SetFieldValue { value: Some(value), ..Default::default() }).into(),
        field_type: if captured { FieldType::CAPTURED } else { FieldType::MATCHING_ONLY }.into(),
        allow_override,
        ..Default::default()
      })
    },
    2 => {
      if let Some(m) = m {
        m.captured.retain(|f| f.k != k);
        m.matching.retain(|f| f.k != k);
      }
      Transform_type::RemoveField(RemoveField { name, ..Default::default() })
    },
    _ => {
      // the first field of the name
      if let Some(m) = m {
        if let Some(f) = m.captured.iter_mut().chain(&mut m.matching).find(|f| f.k == k) {
          if f.v.text && (f.v.c == b'x' || f.v.c == b'y') {
            f.v.c = b's';
          }
        }
      }
      Transform_type::RegexMatchAndSubstituteField(RegexMatchAndSubstituteField {
        name,
        pattern: "[xy]".to_string(),
        substitution: "s".to_string(),
        ..Default::default()
      })
    },
  };
  Transform { transform_type: Some(t), ..Default::default() }
}

fn log(m: &M, ty: u32) -> Log {
  Log {
    log_level: 3,
    log_type: LogType(ty),
    message: "message".into(),
    fields: real(&m.captured),
    matching_fields: real(&m.matching),
    session_id: "session".to_string(),
    occurred_at: time::OffsetDateTime::UNIX_EPOCH,
  }
}

fn judge(l: &Log, m: &M, ty: u32) {
  vh::check(same(&l.fields, &m.captured), "captured_fields");
  vh::check(same(&l.matching_fields, &m.matching), "matching_fields");
  vh::check(l.log_level == 3 && l.log_type.0 == ty, "level_and_type_untouched");
  vh::check(l.message.as_str() == Some("message"), "message_untouched");
  vh::check(l.session_id == "session" && l.occurred_at == time::OffsetDateTime::UNIX_EPOCH, "rest_untouched");
}

// one filter with a sequence of transformations
vh::entry!(f01_transforms, {
  let ty = vh::u32v("type");
  let mut m = M { captured: fields("captured", vh::param("captured", 1)), matching: fields("matching", vh::param("matching", 1)) };
  let mut l = log(&m, ty);
  let want = vh::range("want", 0, 0x7fff_ffff) as i32;
  let matched = ty == want as u32;
  let mut f = Filter { matcher: Some(log_type(want)).into(), ..Default::default() };
  let mut to = if matched { Some(&mut m) } else { None };
  for _ in 0 .. vh::param("transforms", 2) {
    f.transforms.push(transform(&mut to));
  }
  let (chain, failed) = FilterChain::new(FiltersConfiguration { filters: vec![f], ..Default::default() });
  vh::check(failed == 0, "loaded");
  chain.process(&mut l);
  judge(&l, &m, ty);
  if matched {
    vh::reach("matched");
  } else {
    vh::reach("unmatched");
  }
});

// filters one after the other: each sees what those before it made of the log
vh::entry!(f01_chain, {
  let ty = 1;
  let mut m = M { captured: fields("captured", vh::param("captured", 1)), matching: fields("matching", vh::param("matching", 1)) };
  let mut l = log(&m, ty);
  let mut config = FiltersConfiguration::default();
  let mut bad = 0;
  for _ in 0 .. vh::param("filters", 2) {
    let k = vh::choose("if_set", vh::param("keys", 2)) as usize;
    // a field that is set: text under the name, captured ones hiding matching ones only if they are text
    let set = |f: &[F]| f.iter().find(|f| f.k == k).map_or(false, |f| f.v.text);
    let matched = set(&m.captured) || set(&m.matching);
    let mut f = Filter { matcher: Some(is_set(KEYS[k])).into(), ..Default::default() };
    // a filter with something in it that has no meaning is left out as a whole
    let broken = vh::choose("broken", 5);
    let mut to = if matched && broken == 0 { Some(&mut m) } else { None };
    if broken == 0 {
      f.transforms.push(transform(&mut to));
    } else {
      f.transforms.push(Transform {
        transform_type: Some(Transform_type::RemoveField(RemoveField { name: "a".to_string(), ..Default::default() })),
        ..Default::default()
      });
    }
    match broken {
      0 => {},
      1 => f.transforms.push(Transform::default()),
      2 => f.matcher = None.into(),
      3 => f.transforms.insert(
        0,
        Transform {
          transform_type: Some(Transform_type::SetField(SetField {
            name: "a".to_string(),
            value: Some(SetFieldValue { value: Some(Value::StringValue("v".to_string())), ..Default::default() }).into(),
            field_type: EnumOrUnknown::from_i32([0, 3][vh::choose("unknown", 2) as usize]),
            ..Default::default()
          })),
          ..Default::default()
        },
      ),
      _ => f.transforms.push(Transform {
        transform_type: Some(Transform_type::RegexMatchAndSubstituteField(RegexMatchAndSubstituteField {
          name: "a".to_string(),
          pattern: "(".to_string(),
          ..Default::default()
        })),
        ..Default::default()
      }),
    }
    bad += u64::from(broken != 0);
    config.filters.push(f);
  }
  let (chain, failed) = FilterChain::new(config);
  vh::check(failed == bad, "failures_counted");
  chain.process(&mut l);
  judge(&l, &m, ty);
  vh::reach("chain");
});
