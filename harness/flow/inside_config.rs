use super::*;

/// Makes transition `t` of state `s` lead to `target`, which may be symbolic.
pub fn aim(c: &mut Config, s: usize, t: usize, target: usize) { c.states[s].transitions[t].target_state_index = target; }

impl Config {
  pub fn verif_matches(&self) -> Option<u32> { self.matched_logs_count_limit }
}
