//! The generated consumer (generated anew by every check from /repo's working tree) with its application.
#![allow(warnings)]
#[cfg_attr(not(variant), path = "../../../.build/gen/cons/gen/mod.rs")]
#[cfg_attr(variant, path = "../../../.build/genv/cons/gen/mod.rs")]
pub mod gen;
pub mod app;
#[cfg_attr(not(variant), path = "../../../.build/gen/calls.rs")]
#[cfg_attr(variant, path = "../../../.build/genv/calls.rs")]
pub mod calls;
simworld::blob_conversions!(crate::gen::protocol);
simworld::msg_content!(crate::gen::protocol);
