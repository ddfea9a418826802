//! Workflow configurations and logs.
use bd_log_primitives::{log_level, FieldsRef, LogField, LogFields, LogMessage, LogRef, LogType};
use bd_proto::protos::log_matcher::log_matcher::log_matcher::base_log_matcher::tag_match::Value_match;
use bd_proto::protos::log_matcher::log_matcher::log_matcher::base_log_matcher::{Match_type, Operator, StringValueMatch, TagMatch};
use bd_proto::protos::log_matcher::log_matcher::log_matcher::{BaseLogMatcher, Matcher};
use bd_proto::protos::log_matcher::log_matcher::LogMatcher;
use bd_proto::protos::workflow::workflow::workflow as wf;
use bd_proto::protos::workflow::workflow::Workflow;

/// Matches a log whose field `key` is "1".
pub fn when(key: &str) -> LogMatcher {
  LogMatcher {
    matcher: Some(Matcher::BaseMatcher(BaseLogMatcher {
      match_type: Some(Match_type::TagMatch(TagMatch {
        tag_key: key.to_string(),
        value_match: Some(Value_match::StringValueMatch(StringValueMatch {
          operator: Operator::OPERATOR_EQUALS.into(),
          match_value: "1".to_string(),
          ..Default::default()
        })),
        ..Default::default()
      })),
      ..Default::default()
    })),
    ..Default::default()
  }
}

pub fn edge(to: &str, key: &str, count: u32, actions: Vec<wf::Action>) -> wf::Transition {
  wf::Transition {
    target_state_id: to.to_string(),
    rule: Some(wf::Rule {
      rule_type: Some(wf::rule::Rule_type::RuleLogMatch(wf::RuleLogMatch {
        log_matcher: Some(when(key)).into(),
        count,
        ..Default::default()
      })),
      ..Default::default()
    })
    .into(),
    actions,
    ..Default::default()
  }
}

pub fn state(id: &str, transitions: Vec<wf::Transition>) -> wf::State {
  wf::State { id: id.to_string(), transitions, ..Default::default() }
}

pub fn metric(id: &str) -> wf::Action {
  wf::Action {
    action_type: Some(wf::action::Action_type::ActionEmitMetric(wf::action::ActionEmitMetric {
      id: id.to_string(),
      metric_type: Some(wf::action::action_emit_metric::Metric_type::Counter(Default::default())),
      value_extractor_type: Some(wf::action::action_emit_metric::Value_extractor_type::Fixed(1)),
      ..Default::default()
    })),
    ..Default::default()
  }
}

pub fn flow(id: &str, exclusive: bool, states: Vec<wf::State>) -> Workflow {
  Workflow {
    id: id.to_string(),
    states,
    execution: Some(wf::Execution {
      execution_type: Some(if exclusive {
        wf::execution::Execution_type::ExecutionExclusive(Default::default())
      } else {
        wf::execution::Execution_type::ExecutionParallel(Default::default())
      }),
      ..Default::default()
    })
    .into(),
    ..Default::default()
  }
}

pub const KEYS: [&str; 3] = ["p", "q", "r"];

/// What one log answers to each of the first `n` predicates, undecided until somebody looks.
pub fn answers(n: usize) -> Vec<u8> { (0 .. n).map(|i| vh::var(KEYS[i], 8, u64::from(b'0'), u64::from(b'1')) as u8).collect() }

pub fn with_log<R>(answers: &[u8], session: &str, at: i64, f: impl FnOnce(&LogRef<'_>) -> R) -> R {
  with_more(answers, &[], session, at, f)
}

pub fn with_more<R>(answers: &[u8], more: &[(&str, &str)], session: &str, at: i64, f: impl FnOnce(&LogRef<'_>) -> R) -> R {
  let fields: LogFields = answers
    .iter()
    .enumerate()
    .map(|(i, a)| LogField { key: KEYS[i].to_string(), value: String::from_utf8(vec![*a]).unwrap().into() })
    .chain(more.iter().map(|(k, v)| LogField { key: (*k).to_string(), value: (*v).into() }))
    .collect();
  let none = LogFields::new();
  let message = LogMessage::String(String::new());
  f(&LogRef {
    log_type: LogType::Normal,
    log_level: log_level::DEBUG,
    message: &message,
    fields: &FieldsRef::new(&fields, &none),
    session_id: session,
    occurred_at: time::OffsetDateTime::from_unix_timestamp(at).unwrap(),
  })
}

pub fn flush(id: &str, buffers: &[&str], streaming: Option<(&[&str], Vec<u64>)>) -> wf::Action {
  use wf::action::action_flush_buffers::streaming::{termination_criterion, TerminationCriterion};
  wf::Action {
    action_type: Some(wf::action::Action_type::ActionFlushBuffers(wf::action::ActionFlushBuffers {
      id: id.to_string(),
      buffer_ids: buffers.iter().map(|s| (*s).to_string()).collect(),
      streaming: streaming
        .map(|(to, most)| wf::action::action_flush_buffers::Streaming {
          destination_streaming_buffer_ids: to.iter().map(|s| (*s).to_string()).collect(),
          termination_criteria: most
            .into_iter()
            .map(|n| TerminationCriterion {
              type_: Some(termination_criterion::Type::LogsCount(termination_criterion::LogsCount {
                max_logs_count: n,
                ..Default::default()
              })),
              ..Default::default()
            })
            .collect(),
          ..Default::default()
        })
        .into(),
      ..Default::default()
    })),
    ..Default::default()
  }
}

/// Adds a node to the Sankey path `id`: the value of field `v`, or a fixed one.
pub fn node(mut t: wf::Transition, id: &str, fixed: Option<&str>, counts: bool) -> wf::Transition {
  use wf::transition_extension::{sankey_diagram_value_extraction::Value_type, Extension_type, SankeyDiagramValueExtraction};
  t.extensions.push(wf::TransitionExtension {
    extension_type: Some(Extension_type::SankeyDiagramValueExtraction(SankeyDiagramValueExtraction {
      sankey_diagram_id: id.to_string(),
      counts_toward_sankey_extraction_limit: counts,
      value_type: Some(match fixed {
        Some(f) => Value_type::Fixed(f.to_string()),
        None => Value_type::FieldExtracted(wf::FieldExtracted {
          field_name: "v".to_string(),
          extraction_type: Some(wf::field_extracted::Extraction_type::Exact(Default::default())),
          ..Default::default()
        }),
      }),
      ..Default::default()
    })),
    ..Default::default()
  });
  t
}

pub fn sankey(id: &str, limit: u32) -> wf::Action {
  wf::Action {
    action_type: Some(wf::action::Action_type::ActionEmitSankeyDiagram(wf::action::ActionEmitSankeyDiagram {
      id: id.to_string(),
      limit,
      ..Default::default()
    })),
    ..Default::default()
  }
}
