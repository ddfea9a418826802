pub fn session_id(s: &crate::fixed::Strategy) -> String { s.session_id() }
pub fn start_new_session(s: &crate::fixed::Strategy) -> anyhow::Result<String> { s.start_new_session() }
