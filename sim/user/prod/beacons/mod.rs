use super::*;
pub mod ping;
pub mod deep_mark;
