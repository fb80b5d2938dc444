//! The generated Rust producer of definitions that also have TypeScript peers, with the same application as `prod`.
#![allow(warnings)]
#[cfg_attr(not(variant), path = "../../../.build/x/src/prod/gen/rust/mod.rs")]
#[cfg_attr(variant, path = "../../../.build/xv/src/prod/gen/rust/mod.rs")]
pub mod gen;
#[path = "../../prod/src/app.rs"]
pub mod app;
pub type Transport = simworld::bridge::ServerControl;
simworld::blob_conversions!(crate::gen::implementation::protocol);
simworld::msg_content!(crate::gen::implementation::protocol);
