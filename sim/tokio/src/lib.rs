//! A stand-in for tokio 1.x: the synchronisation primitives are tokio's own, tasks and time belong to the
//! simulator, and every random start position of `select!` comes from the simulation's seed.
#![allow(clippy::all)]
pub use tokio_real::io;
pub use tokio_real::sync;

mod maybe_done;
mod poll_fn;
#[macro_use]
#[doc(hidden)]
pub mod macros;
pub mod runtime;
pub mod task;
pub mod time;

pub use task::spawn;
#[doc(hidden)]
pub use tokio_macros::{select_priv_clean_pattern, select_priv_declare_output_enum};
