//! R03: feature flags of a configuration file.
use bd_runtime_config::feature_flags::verif_inside::{Flags, Value};
use std::sync::Arc;

const NAMES: [&str; 4] = ["a", "b", "ab", ""];

fn value() -> Value {
  match vh::choose("type", 3) {
    0 => Value::Bool(vh::boolv("bool")),
    1 => Value::Integer(vh::u64v("integer")),
    _ => {
      let n = vh::choose("len", 3) as usize;
      let mut b = vec![0u8; n];
      vh::bytes(&mut b, "text");
      for c in &b {
        vh::assume(*c < 128);
      }
      Value::Text(unsafe { String::from_utf8_unchecked(b) })
    },
  }
}

// the documented rule, over the draw
fn rule(i: u64, draw: u64) -> bool { i != 0 && (i >= 10_000 || draw % 10_000 < i) }

vh::entry!(r03_default, {
  let f = Flags::new(&[("a", value()), ("b", Value::Integer(vh::u64v("other")))]);
  let d = vh::boolv("default");
  vh::check(f.with_draw("none", d, vh::u64v("draw")) == d, "absent_is_default");
  vh::reach("asked");
});

vh::entry!(r03_integer, {
  let i = vh::u64v("integer");
  let f = Flags::new(&[("a", Value::Integer(i))]);
  let d = vh::boolv("default");
  let draw = vh::u64v("draw");
  let e = f.with_draw("a", d, draw);
  vh::check(e == rule(i, draw), "documented_rule");
  // raising a flag never turns it off for the same draw
  let j = vh::u64v("raised");
  vh::assume(j >= i);
  let g = Flags::new(&[("a", Value::Integer(j))]);
  vh::check(!e || g.with_draw("a", d, draw), "monotone");
  vh::reach(if e { "enabled" } else { "disabled" });
});

// getters: the configured value of that type, else what the caller passed
vh::entry!(r03_getters, {
  let n = vh::choose("count", 3);
  let mut v: Vec<(&str, Value)> = vec![];
  for _ in 0..n {
    let k = NAMES[vh::choose("name", 4) as usize];
    if v.iter().any(|(o, _)| *o == k) {
      continue;
    }
    v.push((k, value()));
  }
  let flags = Flags::new(&v);
  let f = flags.as_dyn();
  let k = NAMES[vh::choose("asked", 4) as usize];
  let c = v.iter().find(|(o, _)| *o == k).map(|(_, v)| v.clone());
  let (db, di, ds) = (vh::boolv("db"), vh::u64v("di"), Arc::new("default".to_string()));
  let (b, i, s) = (f.get_bool(k, db), f.get_integer(k, di), f.get_string(k, &ds));
  let mut want = (db, di, "default".to_string());
  match &c {
    Some(Value::Bool(x)) => want.0 = *x,
    Some(Value::Integer(x)) => want.1 = *x,
    Some(Value::Text(x)) => want.2 = x.clone(),
    None => vh::reach("absent"),
  }
  vh::check(b == want.0, "get_bool");
  vh::check(i == want.1, "get_integer");
  vh::check(*s == want.2, "get_string");
  match c {
    Some(Value::Integer(x)) => {
      // any draw of the generator
      let e = f.feature_enabled(k, db);
      vh::check(x != 0 || !e, "zero_is_off");
      vh::check(x < 10_000 || e, "full_is_on");
      vh::reach("integer");
    },
    _ => vh::check(f.feature_enabled(k, db) == db, "not_an_integer_is_default"),
  }
});
