//! M03: which buffers a log goes to.
use crate::values::ascii;
use bd_log_primitives::{FieldsRef, LogField, LogMessage, LogType};
use bd_matcher::buffer_selector::BufferSelector;
use bd_matcher::matcher::Tree;
use bd_proto::protos::config::v1::config::log_matcher::base_log_matcher::log_level_match::{ComparisonOperator, LogLevel};
use bd_proto::protos::config::v1::config::log_matcher::base_log_matcher::{
  AnyMatch, LogLevelMatch, MessageMatch, StringMatchType, TagMatch, TypeMatch,
};
use bd_proto::protos::config::v1::config::log_matcher::{base_log_matcher, BaseLogMatcher, MatcherList, Match_type};
use bd_proto::protos::config::v1::config::{buffer_config, BufferConfig, BufferConfigList, LogMatcher};
use protobuf::EnumOrUnknown;

fn of(m: Match_type) -> LogMatcher { LogMatcher { match_type: Some(m), ..Default::default() } }
fn base(m: base_log_matcher::Match_type) -> LogMatcher {
  of(Match_type::BaseMatcher(BaseLogMatcher { match_type: Some(m), ..Default::default() }))
}

struct In {
  level: u32,
  ty: u32,
  message: Option<String>,
  captured: Vec<LogField>,
  matching: Vec<LogField>,
}

const OPS: [ComparisonOperator; 5] = [
  ComparisonOperator::LESS_THAN,
  ComparisonOperator::LESS_THAN_OR_EQUAL,
  ComparisonOperator::EQUALS,
  ComparisonOperator::GREATER_THAN,
  ComparisonOperator::GREATER_THAN_OR_EQUAL,
];
const LEVELS: [LogLevel; 6] =
  [LogLevel::TRACE, LogLevel::DEBUG, LogLevel::INFO, LogLevel::WARN, LogLevel::ERROR, LogLevel::CRITICAL];

fn starts(s: &str, p: &str) -> bool { s.len() >= p.len() && s.as_bytes()[.. p.len()] == *p.as_bytes() }

fn text(match_type: u64, v: &str, s: &str) -> bool { if match_type == 0 { s == v } else { starts(s, v) } }

fn leaf(l: &In) -> (LogMatcher, bool) {
  match vh::choose("leaf", 5) {
    0 => (base(base_log_matcher::Match_type::AnyMatch(AnyMatch::default())), true),
    1 => {
      let t = vh::u32v("type");
      (base(base_log_matcher::Match_type::TypeMatch(TypeMatch { type_: t, ..Default::default() })), l.ty == t)
    },
    2 => {
      let op = vh::choose("op", 5) as usize;
      let v = vh::choose("than", 6) as usize;
      let m = LogLevelMatch { operator: OPS[op].into(), log_level: LEVELS[v].into(), ..Default::default() };
      (base(base_log_matcher::Match_type::LogLevelMatch(m)), crate::tree::holds(op, l.level.cmp(&(v as u32))))
    },
    3 => {
      let v = ascii("value", vh::choose("vlen", 3) as usize);
      let k = vh::choose("how", 2);
      let want = l.message.as_ref().map_or(false, |m| text(k, &v, m));
      let m = MessageMatch {
        match_type: [StringMatchType::EXACT, StringMatchType::PREFIX][k as usize].into(),
        match_value: v,
        ..Default::default()
      };
      (base(base_log_matcher::Match_type::MessageMatch(m)), want)
    },
    _ => {
      let v = ascii("value", vh::choose("vlen", 3) as usize);
      let k = vh::choose("how", 2);
      let key = ["f", "g", "h"][vh::choose("key", 3) as usize];
      let found = l.captured.iter().chain(l.matching.iter()).find(|f| f.key == key).and_then(|f| f.value.as_str());
      let want = found.map_or(false, |s| text(k, &v, s));
      let m = TagMatch {
        match_type: [StringMatchType::EXACT, StringMatchType::PREFIX][k as usize].into(),
        tag_key: key.to_string(),
        match_value: v,
        ..Default::default()
      };
      (base(base_log_matcher::Match_type::TagMatch(m)), want)
    },
  }
}

fn input() -> In {
  In {
    level: vh::u32v("level"),
    ty: vh::u32v("type"),
    message: (vh::choose("message", 2) == 1).then(|| ascii("message", 2)),
    captured: vec![LogField { key: "f".to_string(), value: ascii("f", 2).into() }],
    matching: vec![
      LogField { key: "f".to_string(), value: "hidden".into() },
      LogField { key: "g".to_string(), value: ascii("g", 2).into() },
    ],
  }
}

impl In {
  fn message(&self) -> LogMessage {
    match &self.message {
      Some(m) => LogMessage::String(m.clone()),
      None => LogMessage::Bytes(b"ab".to_vec()),
    }
  }
}

// one rule of each kind
vh::entry!(m03_rule, {
  let l = input();
  let (m, want) = leaf(&l);
  let (m, want) = if vh::choose("not", 2) == 1 { (of(Match_type::NotMatcher(Box::new(m))), !want) } else { (m, want) };
  let t = Tree::new(&m).unwrap_or_else(|_| vh::fail("loaded"));
  let got = t.do_match(LogType(l.ty), l.level, &l.message(), &FieldsRef::new(&l.captured, &l.matching));
  vh::check(got == want, "rule");
  vh::reach("rule");
});

fn simple(l: &In, depth: u64) -> (LogMatcher, bool) {
  match vh::choose("kind", if depth > 0 { 5 } else { 2 }) {
    0 => {
      let t = vh::u32v("type");
      (base(base_log_matcher::Match_type::TypeMatch(TypeMatch { type_: t, ..Default::default() })), l.ty == t)
    },
    1 => {
      let op = vh::choose("op", 2) as usize * 2;
      let v = vh::choose("than", 2) as usize * 4;
      let m = LogLevelMatch { operator: OPS[op].into(), log_level: LEVELS[v].into(), ..Default::default() };
      (base(base_log_matcher::Match_type::LogLevelMatch(m)), crate::tree::holds(op, l.level.cmp(&(v as u32))))
    },
    2 => {
      let (m, r) = simple(l, depth - 1);
      (of(Match_type::NotMatcher(Box::new(m))), !r)
    },
    k => {
      let mut ms = vec![];
      let mut all = true;
      let mut any = false;
      for _ in 0 .. vh::choose("n", 3) {
        let (m, r) = simple(l, depth - 1);
        ms.push(m);
        all &= r;
        any |= r;
      }
      let list = MatcherList { matcher: ms, ..Default::default() };
      if k == 3 { (of(Match_type::AndMatcher(list)), all) } else { (of(Match_type::OrMatcher(list)), any) }
    },
  }
}

vh::entry!(m03_logic, {
  let l = input();
  let (m, want) = simple(&l, vh::param("depth", 2));
  let t = Tree::new(&m).unwrap_or_else(|_| vh::fail("loaded"));
  let got = t.do_match(LogType(l.ty), l.level, &l.message(), &FieldsRef::new(&l.captured, &l.matching));
  vh::check(got == want, "boolean_combination");
  vh::reach("logic");
});

vh::entry!(m03_buffers, {
  let l = input();
  let ids = ["one", "two", "three"];
  let mut list = BufferConfigList::default();
  let mut want = [false; 3];
  let n = vh::choose("buffers", vh::param("buffers", 3) + 1);
  for _ in 0 .. n {
    let id = vh::choose("id", 3) as usize;
    let mut b = BufferConfig { id: ids[id].to_string(), ..Default::default() };
    for _ in 0 .. vh::choose("rules", 3) {
      let mut rule = buffer_config::BufferFilter { id: "r".to_string(), ..Default::default() };
      let t = vh::u32v("type");
      let kind = vh::choose("kind", 3);
      if kind < 2 {
        let m = base(base_log_matcher::Match_type::TypeMatch(TypeMatch { type_: t, ..Default::default() }));
        let r = l.ty == t;
        let (m, r) = if kind == 1 { (of(Match_type::NotMatcher(Box::new(m))), !r) } else { (m, r) };
        rule.filter = Some(m).into();
        want[id] = want[id] | r;
      }
      b.filters.push(rule);
    }
    list.buffer_config.push(b);
  }
  let s = BufferSelector::new(&list).unwrap_or_else(|_| vh::fail("loaded"));
  let fields = FieldsRef::new(&l.captured, &l.matching);
  let got = s.buffers(LogType(l.ty), l.level, &l.message(), &fields);
  let mut n = 0;
  for i in 0 .. 3 {
    vh::check(got.contains(ids[i]) == want[i], "exactly_the_matching_buffers");
    n += usize::from(want[i]);
  }
  vh::check(got.len() == n, "no_other_buffer");
  // rules in the opposite order
  list.buffer_config.reverse();
  for b in &mut list.buffer_config {
    b.filters.reverse();
  }
  let s = BufferSelector::new(&list).unwrap_or_else(|_| vh::fail("loaded"));
  vh::check(s.buffers(LogType(l.ty), l.level, &l.message(), &fields) == got, "order_does_not_matter");
  vh::reach("selected");
});

// a rule that cannot be interpreted is refused
vh::entry!(m03_refused, {
  let code = vh::u32v("code") as i32;
  let (m, ok) = match vh::choose("leaf", 6) {
    0 => (
      base(base_log_matcher::Match_type::LogLevelMatch(LogLevelMatch {
        operator: EnumOrUnknown::from_i32(code),
        log_level: LogLevel::INFO.into(),
        ..Default::default()
      })),
      code >= 0 && code <= 4,
    ),
    1 => (
      base(base_log_matcher::Match_type::MessageMatch(MessageMatch {
        match_type: EnumOrUnknown::from_i32(code),
        match_value: "a".to_string(),
        ..Default::default()
      })),
      code >= 0 && code <= 2,
    ),
    2 => (
      base(base_log_matcher::Match_type::TagMatch(TagMatch {
        match_type: EnumOrUnknown::from_i32(code),
        tag_key: "f".to_string(),
        match_value: "a".to_string(),
        ..Default::default()
      })),
      code >= 0 && code <= 2,
    ),
    3 => (of(Match_type::BaseMatcher(BaseLogMatcher::default())), false),
    4 => (LogMatcher::default(), false),
    _ => (
      base(base_log_matcher::Match_type::MessageMatch(MessageMatch {
        match_type: StringMatchType::REGEX.into(),
        match_value: "(".to_string(),
        ..Default::default()
      })),
      false,
    ),
  };
  let m = if vh::choose("under", 2) == 1 { of(Match_type::NotMatcher(Box::new(m))) } else { m };
  let mut b = BufferConfig { id: "one".to_string(), ..Default::default() };
  b.filters.push(buffer_config::BufferFilter { filter: Some(m).into(), ..Default::default() });
  let list = BufferConfigList { buffer_config: vec![b], ..Default::default() };
  vh::check(BufferSelector::new(&list).is_ok() == ok, "uninterpretable_refused_and_only_those");
  vh::reach("refused");
});
