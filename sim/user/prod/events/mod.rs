use super::*;
pub mod connected;
pub mod disconnected;
pub mod error;
pub mod ready;
pub mod shutdown;
pub mod tick;
pub mod deep_pulse;
