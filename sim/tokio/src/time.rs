pub use std::time::Duration;
use std::fmt;
use std::future::Future;
use std::ops::{Add, AddAssign, Sub, SubAssign};
use std::pin::Pin;
use std::task::{Context, Poll};

fn ns(d: Duration) -> u64 {
    u64::try_from(d.as_nanos()).unwrap_or(u64::MAX / 4).min(u64::MAX / 4)
}
use std::convert::TryFrom;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instant(u64);
impl Instant {
    pub fn now() -> Self {
        Instant(simrt::now())
    }
    pub fn elapsed(&self) -> Duration {
        Duration::from_nanos(simrt::now().saturating_sub(self.0))
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        Duration::from_nanos(self.0.saturating_sub(o.0))
    }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration {
        self.duration_since(o)
    }
    pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
        self.0.checked_sub(o.0).map(Duration::from_nanos)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        self.0.checked_add(ns(d)).map(Instant)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        self.0.checked_sub(ns(d)).map(Instant)
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0.saturating_add(ns(d)))
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        Instant(self.0.saturating_sub(ns(d)))
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        *self = *self - d
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.duration_since(o)
    }
}

pub struct Sleep(simrt::Sleep);
impl Sleep {
    pub fn deadline(&self) -> Instant {
        Instant(self.0.deadline)
    }
    pub fn is_elapsed(&self) -> bool {
        simrt::now() >= self.0.deadline
    }
    pub fn reset(self: Pin<&mut Self>, d: Instant) {
        unsafe { self.get_unchecked_mut() }.0.reset(d.0)
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        Pin::new(&mut self.0).poll(cx)
    }
}
/// tokio's timer has millisecond granularity and rounds deadlines up.
fn round(t: u64) -> u64 {
    let ms = 1_000_000;
    t.saturating_add(ms - 1) / ms * ms
}
pub fn sleep(d: Duration) -> Sleep {
    sleep_until(Instant::now() + d)
}
pub fn sleep_until(i: Instant) -> Sleep {
    Sleep(simrt::Sleep::until(if i.0 <= simrt::now() { i.0 } else { round(i.0) }))
}
pub mod error {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(crate) ());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
}
pub struct Timeout<F> {
    fut: F,
    sleep: Sleep,
}
impl<F> fmt::Debug for Timeout<F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Timeout")
    }
}
impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, error::Elapsed>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let me = unsafe { self.get_unchecked_mut() };
        if let Poll::Ready(v) = unsafe { Pin::new_unchecked(&mut me.fut) }.poll(cx) {
            return Poll::Ready(Ok(v));
        }
        match Pin::new(&mut me.sleep.0).poll(cx) {
            Poll::Ready(()) => Poll::Ready(Err(error::Elapsed(()))),
            Poll::Pending => Poll::Pending,
        }
    }
}
pub fn timeout<F: Future>(d: Duration, fut: F) -> Timeout<F> {
    Timeout { fut, sleep: sleep(d) }
}
pub fn timeout_at<F: Future>(i: Instant, fut: F) -> Timeout<F> {
    Timeout { fut, sleep: sleep_until(i) }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum MissedTickBehavior {
    Burst,
    Delay,
    Skip,
}
pub struct Interval {
    next: Instant,
    period: Duration,
    behavior: MissedTickBehavior,
}
impl Interval {
    pub async fn tick(&mut self) -> Instant {
        sleep_until(self.next).await;
        let t = self.next;
        let n = Instant::now();
        self.next = match self.behavior {
            MissedTickBehavior::Burst => t + self.period,
            MissedTickBehavior::Delay => n + self.period,
            MissedTickBehavior::Skip => {
                let mut x = t + self.period;
                while x <= n {
                    x += self.period;
                }
                x
            }
        };
        t
    }
    pub fn reset(&mut self) {
        self.next = Instant::now() + self.period;
    }
    pub fn period(&self) -> Duration {
        self.period
    }
    pub fn set_missed_tick_behavior(&mut self, b: MissedTickBehavior) {
        self.behavior = b;
    }
}
pub fn interval(period: Duration) -> Interval {
    interval_at(Instant::now(), period)
}
pub fn interval_at(next: Instant, period: Duration) -> Interval {
    Interval { next, period, behavior: MissedTickBehavior::Burst }
}
pub async fn advance(d: Duration) {
    simrt::sleep(ns(d)).await
}
