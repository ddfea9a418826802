//! M01: boolean composition of log matchers, and refusal of configurations without a meaning.
use bd_log_matcher::matcher::Tree;
use bd_log_primitives::{FieldsRef, LogField, LogMessage, LogType};
use bd_proto::protos::log_matcher::log_matcher::log_matcher::base_log_matcher::{
  tag_match, IntValueMatch, IsSetMatch, Match_type, MessageMatch, Operator, SemVerValueMatch, StringValueMatch, TagMatch,
};
use bd_proto::protos::log_matcher::log_matcher::log_matcher::{BaseLogMatcher, Matcher, MatcherList};
use bd_proto::protos::log_matcher::log_matcher::LogMatcher;
use protobuf::EnumOrUnknown;

pub fn base(m: Option<Match_type>) -> LogMatcher {
  LogMatcher {
    matcher: Some(Matcher::BaseMatcher(BaseLogMatcher { match_type: m, ..Default::default() })),
    ..Default::default()
  }
}

pub fn tag(key: &str, value: Option<tag_match::Value_match>) -> LogMatcher {
  base(Some(Match_type::TagMatch(TagMatch { tag_key: key.to_string(), value_match: value, ..Default::default() })))
}

pub fn int(key: &str, operator: EnumOrUnknown<Operator>, v: i32) -> LogMatcher {
  tag(key, Some(tag_match::Value_match::IntValueMatch(IntValueMatch { operator, match_value: v, ..Default::default() })))
}

pub fn string(key: &str, operator: EnumOrUnknown<Operator>, v: &str) -> LogMatcher {
  tag(
    key,
    Some(tag_match::Value_match::StringValueMatch(StringValueMatch {
      operator,
      match_value: v.to_string(),
      ..Default::default()
    })),
  )
}

pub fn version(key: &str, operator: EnumOrUnknown<Operator>, v: &str) -> LogMatcher {
  tag(
    key,
    Some(tag_match::Value_match::SemVerValueMatch(SemVerValueMatch {
      operator,
      match_value: v.to_string(),
      ..Default::default()
    })),
  )
}

pub fn message(operator: EnumOrUnknown<Operator>, v: &str) -> LogMatcher {
  base(Some(Match_type::MessageMatch(MessageMatch {
    string_value_match: Some(StringValueMatch { operator, match_value: v.to_string(), ..Default::default() }).into(),
    ..Default::default()
  })))
}

pub fn is_set(key: &str) -> LogMatcher {
  tag(key, Some(tag_match::Value_match::IsSetMatch(IsSetMatch::default())))
}

pub fn log_type(t: i32) -> LogMatcher { int("log_type", Operator::OPERATOR_EQUALS.into(), t) }

pub const OPS: [Operator; 6] = [
  Operator::OPERATOR_LESS_THAN,
  Operator::OPERATOR_LESS_THAN_OR_EQUAL,
  Operator::OPERATOR_EQUALS,
  Operator::OPERATOR_GREATER_THAN,
  Operator::OPERATOR_GREATER_THAN_OR_EQUAL,
  Operator::OPERATOR_NOT_EQUALS,
];

pub fn holds(op: usize, o: std::cmp::Ordering) -> bool {
  match op {
    0 => o.is_lt(),
    1 => o.is_le(),
    2 => o.is_eq(),
    3 => o.is_gt(),
    4 => o.is_ge(),
    _ => !o.is_eq(),
  }
}

pub fn list(log_matchers: Vec<LogMatcher>) -> MatcherList { MatcherList { log_matchers, ..Default::default() } }

fn of(m: Matcher) -> LogMatcher { LogMatcher { matcher: Some(m), ..Default::default() } }

struct In {
  level: u32,
  ty: u32,
  fields: Vec<LogField>,
}

/// A tree and what it has to answer.
fn gen(depth: u64, width: u64, leaves: u64, l: &In) -> (LogMatcher, bool) {
  let kind = vh::choose("kind", if depth > 1 { leaves + 3 } else { leaves });
  let kind = if kind >= leaves { kind - leaves + 3 } else { kind };
  match kind {
    0 => {
      let t = vh::range("type", 0, 0x7fff_ffff) as i32;
      (log_type(t), l.ty == t as u32)
    },
    1 => {
      let op = vh::choose("op", 6) as usize;
      let v = vh::u32v("level") as i32;
      (int("log_level", OPS[op].into(), v), holds(op, (l.level as i32).cmp(&v)))
    },
    2 => {
      let k = ["a", "b"][vh::choose("key", 2) as usize];
      (is_set(k), l.fields.iter().any(|f| f.key == k))
    },
    3 => {
      let (m, r) = gen(depth - 1, width, leaves, l);
      (of(Matcher::NotMatcher(Box::new(m))), !r)
    },
    k => {
      let mut ms = vec![];
      let mut all = true;
      let mut any = false;
      for _ in 0 .. vh::choose("n", width + 1) {
        let (m, r) = gen(depth - 1, width, leaves, l);
        ms.push(m);
        all = all & r;
        any = any | r;
      }
      if k == 4 {
        (of(Matcher::AndMatcher(list(ms))), all)
      } else {
        (of(Matcher::OrMatcher(list(ms))), any)
      }
    },
  }
}

vh::entry!(m01_logic, { logic(vh::param("depth", 2), vh::param("width", 3), 3) });
vh::entry!(m01_nested, { logic(vh::param("depth", 3), vh::param("width", 2), 1) });

fn logic(depth: u64, width: u64, leaves: u64) {
  let l = In {
    level: vh::range("level", 0, 0x7fff_ffff) as u32,
    ty: vh::u32v("type"),
    fields: vec![LogField { key: "a".to_string(), value: "x".into() }],
  };
  let (m, want) = gen(depth, width, leaves, &l);
  let t = Tree::new(&m).unwrap_or_else(|_| vh::fail("loaded"));
  let none = vec![];
  let got = t.do_match(
    l.level,
    LogType(l.ty),
    &LogMessage::String("m".to_string()),
    &FieldsRef::new(&l.fields, &none),
  );
  vh::check(got == want, "boolean_combination");
  if got {
    vh::reach("accepted");
  } else {
    vh::reach("rejected");
  }
}

// configurations that cannot be interpreted
vh::entry!(m01_refused, {
  let code = vh::u32v("operator") as i32;
  let op: EnumOrUnknown<Operator> = EnumOrUnknown::from_i32(code);
  let known = code >= 1 && code <= 7;
  let kind = vh::choose("leaf", 10);
  let (m, ok) = match kind {
    0 => (int("log_level", op, vh::u32v("v") as i32), known && code != Operator::OPERATOR_REGEX as i32),
    1 => (int("x", op, vh::u32v("v") as i32), known && code != Operator::OPERATOR_REGEX as i32),
    2 => (string("x", op, "v"), known),
    3 => (message(op, "v"), known),
    4 => (version("x", op, "1"), known),
    5 => {
      let t = vh::u32v("v") as i32;
      (int("log_type", Operator::OPERATOR_EQUALS.into(), t), t >= 0)
    },
    6 => (tag("x", None), false),
    7 => (base(None), false),
    8 => (LogMatcher::default(), false),
    _ => (string("x", Operator::OPERATOR_REGEX.into(), ["(", "[a", "*", "a", "a|b"][vh::choose("regex", 5) as usize]), true),
  };
  let ok = if kind == 9 { !["(", "[a", "*"].iter().any(|r| is_value(&m, r)) } else { ok };
  let m = match vh::choose("under", 4) {
    0 => m,
    1 => of(Matcher::NotMatcher(Box::new(m))),
    2 => of(Matcher::AndMatcher(list(vec![is_set("a"), m]))),
    _ => of(Matcher::OrMatcher(list(vec![m, of(Matcher::NotMatcher(Box::new(is_set("a"))))]))),
  };
  vh::check(Tree::new(&m).is_ok() == ok, "uninterpretable_refused_and_only_those");
  if ok {
    vh::reach("loaded");
  } else {
    vh::reach("refused");
  }
});

fn is_value(m: &LogMatcher, r: &str) -> bool {
  if let Some(Matcher::BaseMatcher(b)) = &m.matcher {
    if let Some(Match_type::TagMatch(t)) = &b.match_type {
      if let Some(tag_match::Value_match::StringValueMatch(s)) = &t.value_match {
        return s.match_value == r;
      }
    }
  }
  false
}
