use std::fmt;
use std::future::{Future, IntoFuture};
use std::ops::{Add, AddAssign, Sub, SubAssign};
use std::pin::Pin;
use std::task::{Context, Poll};
pub use std::time::Duration;

/// Monotonic virtual time.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Instant(u64);
fn ns(d: Duration) -> u64 {
    d.as_nanos().min((u64::MAX / 4) as u128) as u64
}
impl Instant {
    pub fn now() -> Self {
        Instant(simcore::now())
    }
    pub fn elapsed(&self) -> Duration {
        Duration::from_nanos(simcore::now().saturating_sub(self.0))
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        Duration::from_nanos(self.0.saturating_sub(o.0))
    }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration {
        self.duration_since(o)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        self.0.checked_add(ns(d)).map(Instant)
    }
    pub fn from_std(t: std::time::Instant) -> Self {
        let n = std::time::Instant::now();
        if t >= n {
            Instant(simcore::now() + ns(t - n))
        } else {
            Instant(simcore::now().saturating_sub(ns(n - t)))
        }
    }
    pub fn as_nanos(&self) -> u64 {
        self.0
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0 + ns(d))
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d;
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        Instant(self.0.saturating_sub(ns(d)))
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        *self = *self - d;
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.duration_since(o)
    }
}

/// tokio rounds deadlines up to the next millisecond.
fn round(t: u64) -> u64 {
    t.saturating_add(999_999) / 1_000_000 * 1_000_000
}

#[derive(Debug)]
pub struct Sleep {
    at: u64,
    key: Option<(u64, u64)>,
}
impl Sleep {
    pub fn deadline(&self) -> Instant {
        Instant(self.at)
    }
    pub fn is_elapsed(&self) -> bool {
        simcore::now() >= round(self.at)
    }
    pub fn reset(mut self: Pin<&mut Self>, t: Instant) {
        if let Some(k) = self.key.take() {
            simcore::cancel_timer(k);
        }
        self.at = t.0;
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.is_elapsed() {
            if let Some(k) = self.key.take() {
                simcore::cancel_timer(k);
            }
            return Poll::Ready(());
        }
        if let Some(k) = self.key {
            if simcore::update_timer(k, cx.waker()) {
                return Poll::Pending;
            }
        }
        self.key = Some(simcore::add_timer(round(self.at), cx.waker().clone()));
        Poll::Pending
    }
}
impl Drop for Sleep {
    fn drop(&mut self) {
        if let Some(k) = self.key.take() {
            simcore::cancel_timer(k);
        }
    }
}
pub fn sleep(d: Duration) -> Sleep {
    sleep_until(Instant::now() + d)
}
pub fn sleep_until(t: Instant) -> Sleep {
    Sleep { at: t.0, key: None }
}

pub mod error {
    use super::*;
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(crate) ());
    impl fmt::Display for Elapsed {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
    impl From<Elapsed> for std::io::Error {
        fn from(_: Elapsed) -> Self {
            std::io::ErrorKind::TimedOut.into()
        }
    }
}
pub struct Timeout<F> {
    fut: Pin<Box<F>>,
    sleep: Pin<Box<Sleep>>,
}
impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, error::Elapsed>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if let Poll::Ready(v) = self.fut.as_mut().poll(cx) {
            return Poll::Ready(Ok(v));
        }
        self.sleep.as_mut().poll(cx).map(|_| Err(error::Elapsed(())))
    }
}
pub fn timeout<F: IntoFuture>(d: Duration, f: F) -> Timeout<F::IntoFuture> {
    timeout_at(Instant::now() + d, f)
}
pub fn timeout_at<F: IntoFuture>(t: Instant, f: F) -> Timeout<F::IntoFuture> {
    Timeout { fut: Box::pin(f.into_future()), sleep: Box::pin(sleep_until(t)) }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub enum MissedTickBehavior {
    #[default]
    Burst,
    Delay,
    Skip,
}
#[derive(Debug)]
pub struct Interval {
    next: Instant,
    period: Duration,
    missed: MissedTickBehavior,
}
pub fn interval(period: Duration) -> Interval {
    interval_at(Instant::now(), period)
}
pub fn interval_at(start: Instant, period: Duration) -> Interval {
    Interval { next: start, period, missed: Default::default() }
}
impl Interval {
    pub fn set_missed_tick_behavior(&mut self, b: MissedTickBehavior) {
        self.missed = b;
    }
    pub fn period(&self) -> Duration {
        self.period
    }
    pub fn reset(&mut self) {
        self.next = Instant::now() + self.period;
    }
    pub async fn tick(&mut self) -> Instant {
        sleep_until(self.next).await;
        let t = self.next;
        self.next = match self.missed {
            MissedTickBehavior::Burst => t + self.period,
            MissedTickBehavior::Delay => Instant::now() + self.period,
            MissedTickBehavior::Skip => {
                let mut n = t + self.period;
                while n <= Instant::now() {
                    n += self.period;
                }
                n
            }
        };
        t
    }
}
