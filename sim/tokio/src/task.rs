use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

struct Shared<T> {
    out: Option<Result<T, JoinError>>,
    waker: Option<Waker>,
    done: bool,
}
pub struct JoinHandle<T> {
    shared: Arc<Mutex<Shared<T>>>,
    id: (usize, u32),
}
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}
impl<T> Unpin for JoinHandle<T> {}
#[derive(Debug)]
pub struct JoinError {
    panic: bool,
}
impl JoinError {
    pub fn is_panic(&self) -> bool {
        self.panic
    }
    pub fn is_cancelled(&self) -> bool {
        !self.panic
    }
}
impl fmt::Display for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(if self.panic { "panic" } else { "cancelled" })
    }
}
impl std::error::Error for JoinError {}
impl<T> fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("JoinHandle")
    }
}
impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        simrt::abort(self.id.0, self.id.1)
    }
    pub fn is_finished(&self) -> bool {
        self.shared.lock().unwrap().done
    }
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut s = self.shared.lock().unwrap();
        match s.out.take() {
            Some(v) => Poll::Ready(v),
            None => {
                s.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
struct Guard<T> {
    shared: Arc<Mutex<Shared<T>>>,
}
impl<T> Guard<T> {
    fn set(&self, v: Result<T, JoinError>) {
        let w = {
            let mut s = self.shared.lock().unwrap();
            if s.done {
                return;
            }
            s.done = true;
            s.out = Some(v);
            s.waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
}
impl<T> Drop for Guard<T> {
    fn drop(&mut self) {
        self.set(Err(JoinError { panic: std::thread::panicking() }));
    }
}
pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    let shared = Arc::new(Mutex::new(Shared { out: None, waker: None, done: false }));
    let guard = Guard { shared: shared.clone() };
    let id = simrt::spawn_raw(Box::pin(async move {
        let guard = guard;
        let v = f.await;
        guard.set(Ok(v));
    }));
    JoinHandle { shared, id }
}
pub fn spawn_local<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    spawn(f)
}
/// Runs inline: nothing blocks inside a simulation.
pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + 'static,
    R: 'static,
{
    spawn(async move { f() })
}
pub async fn yield_now() {
    simrt::yield_now().await
}
