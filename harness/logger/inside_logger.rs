pub use crate::consumer::verif_inside::*;
pub use crate::network::verif_inside::Usage;
pub use crate::network::NetworkQualityInterceptor;
pub use crate::client_config::verif_inside::*;
pub use crate::log_replay::verif_inside::*;
pub use crate::async_log_buffer::verif_inside::*;
