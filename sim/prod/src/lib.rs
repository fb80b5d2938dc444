//! The generated producer (generated anew by every check from /repo's working tree) with the application
//! under test: handlers that record what they observe and act as the seeded plan says.
#![allow(warnings)]
#[cfg_attr(not(variant), path = "../../../.build/gen/prod/gen/mod.rs")]
#[cfg_attr(variant, path = "../../../.build/genv/prod/gen/mod.rs")]
pub mod gen;
pub mod app;
pub type Transport = simworld::net::SimServerControl;
simworld::blob_conversions!(crate::gen::implementation::protocol);
simworld::msg_content!(crate::gen::implementation::protocol);
