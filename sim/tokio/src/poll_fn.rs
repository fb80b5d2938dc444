use std::{future::Future, pin::Pin, task::{Context, Poll}};
pub struct PollFn<F>(F);
impl<F> Unpin for PollFn<F> {}
pub fn poll_fn<T, F: FnMut(&mut Context<'_>) -> Poll<T>>(f: F) -> PollFn<F> {
    PollFn(f)
}
impl<T, F: FnMut(&mut Context<'_>) -> Poll<T>> Future for PollFn<F> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        (&mut self.0)(cx)
    }
}
