#[macro_use]
mod select;
#[macro_use]
mod join;
#[macro_use]
mod try_join;
#[macro_use]
mod pin;
pub mod support {
    pub use crate::maybe_done::maybe_done;
    pub use crate::poll_fn::poll_fn;
    pub use simrt::sel_n as thread_rng_n;
    pub use std::future::Future;
    pub use std::pin::Pin;
    pub use std::task::Poll;
}
