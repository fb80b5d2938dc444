use super::implementation::{controller, protocol, Consumer};

pub struct Context {
    pub c: usize,
}
