//! The generated Rust consumer of definitions that also have TypeScript peers, with the same application as `cons`.
#![allow(warnings)]
#[cfg_attr(not(variant), path = "../../../.build/x/src/cons/gen/rust/mod.rs")]
#[cfg_attr(variant, path = "../../../.build/xv/src/cons/gen/rust/mod.rs")]
pub mod gen;
#[path = "../../cons/src/app.rs"]
pub mod app;
#[cfg_attr(not(variant), path = "../../../.build/x/src/cons/calls.rs")]
#[cfg_attr(variant, path = "../../../.build/xv/src/cons/calls.rs")]
pub mod calls;
simworld::blob_conversions!(crate::gen::protocol);
simworld::msg_content!(crate::gen::protocol);
