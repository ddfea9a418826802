use super::{ApplyConfig, BdTailConfigurations, Config, Configuration, TailConfigurations};
use bd_proto::protos::client::api::configuration_update::StateOfTheWorld;
use std::path::Path;

/// Where a configuration goes once it has been received.
pub trait Sink: Send + Sync {
  fn apply(&mut self, c: StateOfTheWorld) -> anyhow::Result<()>;
}
pub struct To<S: Sink>(S);

#[async_trait::async_trait]
impl<S: Sink> ApplyConfig for To<S> {
  async fn apply_configuration(&mut self, c: Configuration) -> anyhow::Result<()> {
    let Configuration { buffer, workflows, bdtail, filters } = c;
    self.0.apply(StateOfTheWorld {
      buffer_config_list: Some(buffer).into(),
      workflows_configuration: Some(workflows).into(),
      bdtail_configuration: Some(bdtail).into(),
      filters_configuration: Some(filters).into(),
      ..Default::default()
    })
  }
}

pub fn config<S: Sink>(dir: &Path, s: S, scope: &bd_client_stats_store::Scope) -> impl bd_api::ConfigurationUpdate {
  Config::new(dir, To(s), scope).unwrap()
}

pub(crate) fn tails(c: BdTailConfigurations, p: Option<bd_buffer::Producer>) -> TailConfigurations {
  TailConfigurations::new(c, || p.unwrap(), || {}).unwrap()
}
