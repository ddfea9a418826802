pub use crate::actions_flush_buffers::verif_inside as flush;
pub use crate::config::verif_inside as config;
pub use crate::engine::verif_inside as engine;
pub use crate::sankey_diagram::verif_inside as sankey;
pub use crate::workflow::verif_inside as workflow;
