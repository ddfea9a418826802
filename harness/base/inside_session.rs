pub fn session_id(s: &crate::activity_based::Strategy) -> String { s.session_id() }
pub fn start_new_session(s: &crate::activity_based::Strategy) -> String { s.start_new_session() }
pub fn flush(s: &crate::activity_based::Strategy) { s.flush() }
