//! Only what library code may ask for.
#[derive(Clone, Debug)]
pub struct Handle;
impl Handle {
    pub fn current() -> Self {
        Handle
    }
    pub fn spawn<F>(&self, f: F) -> crate::task::JoinHandle<F::Output>
    where
        F: std::future::Future + 'static,
        F::Output: 'static,
    {
        crate::task::spawn(f)
    }
}
