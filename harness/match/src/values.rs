//! M02: value comparisons follow their operator.
use crate::tree::{holds, int, message, string, version, OPS};
use bd_log_matcher::matcher::Tree;
use bd_log_primitives::{FieldsRef, LogField, LogFieldValue, LogMessage, LogType};
use bd_proto::protos::log_matcher::log_matcher::log_matcher::base_log_matcher::Operator;
use bd_proto::protos::log_matcher::log_matcher::LogMatcher;
use std::cmp::Ordering;

pub fn ascii(name: &str, n: usize) -> String {
  let mut b = vec![0u8; n];
  vh::bytes(&mut b, name);
  for c in &b {
    vh::assume(*c < 128);
  }
  unsafe { String::from_utf8_unchecked(b) }
}

/// The answer of the matcher for a field `x` (captured or matching-only, possibly shadowed) or the message.
fn field(m: &LogMatcher, value: LogFieldValue) -> bool {
  let t = Tree::new(m).unwrap_or_else(|_| vh::fail("loaded"));
  let other = LogField { key: "y".to_string(), value: "2".into() };
  let x = LogField { key: "x".to_string(), value };
  let stale = LogField { key: "x".to_string(), value: "1.".into() };
  let (captured, matching) = match vh::choose("where", 3) {
    0 => (vec![other, x], vec![]),
    1 => (vec![other], vec![x]),
    _ => (vec![x], vec![stale]),
  };
  t.do_match(2, LogType(0), &LogMessage::String("z".to_string()), &FieldsRef::new(&captured, &matching))
}

fn msg(m: &LogMatcher, value: LogMessage) -> bool {
  let t = Tree::new(m).unwrap_or_else(|_| vh::fail("loaded"));
  t.do_match(2, LogType(0), &value, &FieldsRef::new(&vec![], &vec![]))
}

vh::entry!(m02_level, {
  let level = vh::range("level", 0, 0x7fff_ffff) as u32;
  let v = vh::u32v("value") as i32;
  let op = vh::choose("op", 6) as usize;
  let t = Tree::new(&int("log_level", OPS[op].into(), v)).unwrap_or_else(|_| vh::fail("loaded"));
  let got = t.do_match(level, LogType(9), &LogMessage::String(String::new()), &FieldsRef::new(&vec![], &vec![]));
  vh::check(got == holds(op, (level as i32).cmp(&v)), "level_relation");
  vh::reach("level");
});

// a field holding the decimal text of an integer, or no number at all
vh::entry!(m02_int, {
  let v = vh::u32v("value") as i32;
  let op = vh::choose("op", 6) as usize;
  let m = int("x", OPS[op].into(), v);
  let n = vh::choose("digits", vh::param("digits", 3) + 1) as usize;
  let neg = vh::choose("negative", 2) == 1;
  let mut text = vec![];
  if neg {
    text.push(b'-');
  }
  let mut x = 0i64;
  for _ in 0 .. n {
    let d = vh::range("digit", 0, 9) as u8;
    x = x * 10 + i64::from(d);
    text.push(b'0' + d);
  }
  if neg {
    x = -x;
  }
  let junk = n == 0 || vh::choose("junk", 2) == 1;
  if junk {
    let c = vh::u8v("junk");
    vh::assume(c < 128 && c != b'.' && c != b'e' && c != b'E' && !c.is_ascii_digit());
    text.push(c);
  }
  let got = field(&m, LogFieldValue::String(unsafe { String::from_utf8_unchecked(text) }));
  if junk {
    vh::check(!got, "not_a_number_never_matches");
    vh::reach("junk");
  } else {
    vh::check(got == holds(op, x.cmp(&i64::from(v))), "integer_relation");
    vh::reach("integer");
  }
});

fn order(a: &[u8], b: &[u8]) -> Ordering {
  let mut i = 0;
  while i < a.len() && i < b.len() {
    if a[i] != b[i] {
      return if a[i] < b[i] { Ordering::Less } else { Ordering::Greater };
    }
    i += 1;
  }
  a.len().cmp(&b.len())
}

vh::entry!(m02_string, {
  let max = vh::param("len", 2) + 1;
  let c = ascii("candidate", vh::choose("clen", max) as usize);
  let v = ascii("value", vh::choose("vlen", max) as usize);
  let op = vh::choose("op", 6) as usize;
  let want = holds(op, order(c.as_bytes(), v.as_bytes()));
  match vh::choose("input", 4) {
    0 => vh::check(field(&string("x", OPS[op].into(), &v), c.into()) == want, "string_relation"),
    1 => vh::check(msg(&message(OPS[op].into(), &v), c.into()) == want, "message_relation"),
    2 => vh::check(!field(&string("q", OPS[op].into(), &v), c.into()), "absent_never_matches"),
    _ => vh::check(!msg(&message(OPS[op].into(), &v), LogMessage::Bytes(c.into_bytes())), "binary_never_matches"),
  }
  vh::reach("string");
});

// regular expressions (the engine is the regex crate's; that its answer and no other is used is decided here)
vh::entry!(m02_regex, {
  let c = ascii("candidate", vh::choose("clen", vh::param("len", 2) + 1) as usize);
  let b = c.as_bytes();
  let p = vh::choose("pattern", 3) as usize;
  let pattern = ["b", "^a", "^.[xy]$"][p];
  let want = match p {
    0 => b.iter().any(|x| *x == b'b'),
    1 => b.first() == Some(&b'a'),
    _ => b.len() == 2 && b[0] != b'\n' && (b[1] == b'x' || b[1] == b'y'),
  };
  let op = Operator::OPERATOR_REGEX.into();
  let got = match vh::choose("input", 3) {
    0 => field(&string("x", op, pattern), c.into()),
    1 => msg(&message(op, pattern), c.into()),
    _ => field(&version("x", op, pattern), c.into()),
  };
  vh::check(got == want, "regex_answer");
  if got {
    vh::reach("regex");
  }
});

/// A version of numeric components and what each is worth; sometimes with a pre-release or build suffix.
fn numeric(name: &str, digits: u64) -> (String, Vec<u64>) {
  let mut s = vec![];
  let mut v = vec![];
  let n = vh::choose("components", vh::param("components", 2)) + 1;
  for i in 0 .. n {
    if i > 0 {
      s.push(b'.');
    }
    let mut x = 0;
    for _ in 0 .. vh::choose("digits", digits) + 1 {
      let d = vh::range(name, 0, 9);
      s.push(b'0' + d as u8);
      x = x * 10 + d;
    }
    v.push(x);
  }
  s.extend_from_slice([&b""[..], b"-rc.9", b"+7"][vh::choose("suffix", 3) as usize]);
  (unsafe { String::from_utf8_unchecked(s) }, v)
}

fn versions(a: &[u64], b: &[u64]) -> Ordering {
  for i in 0 .. a.len().max(b.len()) {
    let x = if i < a.len() { a[i] } else { 0 };
    let y = if i < b.len() { b[i] } else { 0 };
    if x != y {
      return if x < y { Ordering::Less } else { Ordering::Greater };
    }
  }
  Ordering::Equal
}

vh::entry!(m02_version, {
  let digits = vh::param("digits", 2);
  let (a, x) = numeric("a", digits);
  let (b, y) = numeric("b", digits);
  let op = vh::choose("op", 6) as usize;
  let got = field(&version("x", OPS[op].into(), &b), a.into());
  vh::check(got == holds(op, versions(&x, &y)), "version_relation");
  vh::reach("version");
});

// any version texts: equal and not-equal are complements, so are the orderings
vh::entry!(m02_complement, {
  let max = vh::param("len", 2) + 1;
  let a = ascii("a", vh::choose("alen", max) as usize);
  let b = ascii("b", vh::choose("blen", max) as usize);
  let r = |op: Operator| field_plain(&version("x", op.into(), &b), a.clone().into());
  let eq = r(Operator::OPERATOR_EQUALS);
  let lt = r(Operator::OPERATOR_LESS_THAN);
  let gt = r(Operator::OPERATOR_GREATER_THAN);
  vh::check(r(Operator::OPERATOR_NOT_EQUALS) != eq, "equal_complements_not_equal");
  vh::check(r(Operator::OPERATOR_LESS_THAN_OR_EQUAL) != gt, "less_or_equal_complements_greater");
  vh::check(r(Operator::OPERATOR_GREATER_THAN_OR_EQUAL) != lt, "greater_or_equal_complements_less");
  vh::check(u8::from(eq) + u8::from(lt) + u8::from(gt) == 1, "exactly_one_relation");
  vh::reach("any_text");
});

fn field_plain(m: &LogMatcher, value: LogFieldValue) -> bool {
  let t = Tree::new(m).unwrap_or_else(|_| vh::fail("loaded"));
  let captured = vec![LogField { key: "x".to_string(), value }];
  t.do_match(2, LogType(0), &LogMessage::String("z".to_string()), &FieldsRef::new(&captured, &vec![]))
}
