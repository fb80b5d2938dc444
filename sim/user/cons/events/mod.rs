pub mod connected;
pub mod disconnected;
pub mod error;
pub mod reconnect;
pub mod shutdown;

use super::{
    context::Context,
    implementation::{controller, protocol, Consumer, ConsumerError},
};
