use super::*;

/// One workflow with the traversal accounting around it.
pub struct Flow {
  pub config: Config,
  flow: Workflow,
  pub count: u32,
  pub limit: u32,
}

#[derive(Default, Debug)]
pub struct Step {
  pub actions: Vec<String>,
  pub sankeys: Vec<(String, Vec<String>, bool, String)>,
  pub created_runs: u32,
  pub stopped_runs: u32,
  pub completed_runs: u32,
  pub created: u32,
  pub advanced: u32,
  pub completed: u32,
  pub stopped: u32,
  pub limit_hits: u32,
  pub resets: u32,
  pub matched: u32,
}

fn step(r: WorkflowResult<'_>) -> Step {
  let s = r.stats();
  let mut out = Step {
    created_runs: s.created_runs_count,
    stopped_runs: s.stopped_runs_count,
    completed_runs: s.completed_runs_count,
    created: s.created_traversals_count,
    advanced: s.advanced_traversals_count,
    completed: s.completed_traversals_count,
    stopped: s.stopped_traversals_count,
    limit_hits: s.traversals_count_limit_hit_count,
    resets: s.reset_exclusive_workflows_count,
    matched: s.matched_logs_count,
    ..Default::default()
  };
  for a in r.triggered_actions() {
    match a {
      TriggeredAction::FlushBuffers(a) => out.actions.push(a.id.clone()),
      TriggeredAction::EmitMetric(a) => out.actions.push(a.id.clone()),
      TriggeredAction::TakeScreenshot(_) => out.actions.push("screenshot".to_string()),
      TriggeredAction::SankeyDiagram(a) => out.sankeys.push((a.action.id().to_string(), a.path.nodes, a.path.is_trimmed, a.path.path_id)),
    }
  }
  out
}

impl Flow {
  pub fn new(config: Config, limit: u32) -> Self {
    Self { flow: Workflow::new(config.id().to_string()), config, count: 0, limit }
  }

  pub fn log(&mut self, log: &LogRef<'_>) -> Step {
    step(self.flow.process_log(&self.config, log, &mut self.count, self.limit))
  }

  pub fn needs_new_run(&self) -> bool { self.flow.needs_new_run() }
  pub fn runs(&self) -> usize { self.flow.runs.len() }
  /// Runs that have not matched anything yet, and the others.
  pub fn waiting_and_moving(&self) -> (usize, usize) {
    let w = self.flow.runs.iter().filter(|r| r.is_in_initial_state()).count();
    (w, self.flow.runs.len() - w)
  }
  /// Runs no log has touched, and the others.
  pub fn untouched_and_touched(&self) -> (usize, usize) {
    let w = self.flow.runs.iter().filter(|r| r.matched_logs_count == 0).count();
    (w, self.flow.runs.len() - w)
  }
  pub fn traversals(&self) -> usize { self.flow.runs.iter().map(|r| r.traversals.len()).sum() }
  /// State and counts of every traversal of run `i`.
  pub fn run(&self, i: usize) -> Vec<(usize, Vec<u32>)> {
    self.flow.runs[i].traversals.iter().map(|t| (t.state_index, t.matched_logs_counts.clone())).collect()
  }
  pub fn in_initial_state(&self) -> bool { self.flow.is_in_initial_state() }
}

/// A single Sankey path being recorded.
#[derive(Default)]
pub struct Path(SankeyState);

impl Path {
  pub fn push(&mut self, v: String, limit: usize, counts: bool) { self.0.push(v, limit, counts) }
  pub fn done(self) -> (Vec<String>, bool) {
    let p = SankeyPath::new("s", self.0);
    (p.nodes, p.is_trimmed)
  }
}
