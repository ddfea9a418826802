use super::{FeatureFlagValue, FeatureFlags, MemoryFeatureFlags};
use std::sync::Arc;

/// Values of the three types, as a loaded file would give them.
#[derive(Clone)]
pub enum Value {
  Bool(bool),
  Integer(u64),
  Text(String),
}

pub struct Flags(MemoryFeatureFlags);

impl Flags {
  pub fn new(v: &[(&str, Value)]) -> Self {
    Self(MemoryFeatureFlags {
      values: v
        .iter()
        .map(|(k, v)| {
          ((*k).to_string(), match v {
            Value::Bool(b) => FeatureFlagValue::Bool(*b),
            Value::Integer(i) => FeatureFlagValue::Integer(*i),
            Value::Text(s) => FeatureFlagValue::String(Arc::new(s.clone())),
          })
        })
        .collect(),
    })
  }
  pub fn with_draw(&self, name: &str, default: bool, draw: u64) -> bool {
    self.0.feature_enabled(name, default, || draw)
  }
  pub fn as_dyn(&self) -> &dyn FeatureFlags { &self.0 }
}
