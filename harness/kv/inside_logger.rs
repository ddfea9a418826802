use bd_log_metadata::{AnnotatedLogFields, MetadataProvider};
use bd_log_primitives::LogField;
use std::sync::Arc;

pub use bd_proto::flatbuffers::buffer_log::bitdrift_public::fbs::logging::v_1::LogType;

pub struct Versions(crate::app_version::Repository);
pub enum Extra {
  Code(i64),
  Build(String),
}
#[derive(PartialEq, Eq)]
pub struct Version {
  inner: crate::app_version::AppVersion,
}
impl Version {
  pub fn new(v: &str, e: &Extra) -> Self {
    Self {
      inner: crate::app_version::AppVersion {
        app_version: v.to_string(),
        app_version_extra: match e {
          Extra::Code(c) => crate::AppVersionExtra::AppVersionCode(*c),
          Extra::Build(b) => crate::AppVersionExtra::BuildNumber(b.clone()),
        },
      },
    }
  }
  pub fn version(&self) -> &str { &self.inner.app_version }
  pub fn extra(&self) -> Extra {
    match &self.inner.app_version_extra {
      crate::AppVersionExtra::AppVersionCode(c) => Extra::Code(*c),
      crate::AppVersionExtra::BuildNumber(b) => Extra::Build(b.clone()),
    }
  }
  pub fn extra_name(&self) -> &str { self.inner.app_version_extra.name() }
  pub fn extra_text(&self) -> String { self.inner.app_version_extra.string_value() }
}
impl Versions {
  pub fn new(store: Arc<bd_key_value::Store>) -> Self { Self(crate::app_version::Repository::new(store)) }
  pub fn has_changed(&self, v: &Version) -> bool { self.0.has_changed(&v.inner) }
  pub fn set(&self, v: &Version) -> Option<Version> { self.0.set(&v.inner).map(|inner| Version { inner }) }
}

pub struct Collector(crate::metadata::MetadataCollector);
impl Collector {
  pub fn new(p: Arc<dyn MetadataProvider + Send + Sync>) -> Self { Self(crate::metadata::MetadataCollector::new(p)) }
  pub fn add_field(&mut self, f: LogField) -> anyhow::Result<()> { self.0.add_field(f) }
  pub fn remove_field(&mut self, k: &str) { self.0.remove_field(k) }
  pub fn collect(&self, f: AnnotatedLogFields, m: AnnotatedLogFields, t: LogType) -> anyhow::Result<crate::LogMetadata> {
    self.0.normalized_metadata_with_extra_fields(f, m, t)
  }
}
