pub use crate::ring_buffer::verif_inside::*;
