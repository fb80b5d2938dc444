pub mod context;
pub mod implementation;

pub use context::Context;
pub use implementation::producer::run;
pub use implementation::producer::Options;
