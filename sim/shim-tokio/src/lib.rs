//! The parts of tokio that overlord uses, on the simulator's executor and clock.

pub use futures_util::pin_mut as pin;
pub use futures_util::{join, try_join};

pub use task::spawn;

pub mod task {
    use std::cell::RefCell;
    use std::fmt;
    use std::future::Future;
    use std::pin::Pin;
    use std::rc::Rc;
    use std::task::{Context, Poll, Waker};

    struct Slot<T> {
        out: RefCell<Option<Result<T, JoinError>>>,
        waker: RefCell<Option<Waker>>,
    }
    pub struct JoinHandle<T> {
        slot: Rc<Slot<T>>,
        id: u64,
    }
    unsafe impl<T: Send> Send for JoinHandle<T> {}
    unsafe impl<T: Send> Sync for JoinHandle<T> {}
    impl<T> Unpin for JoinHandle<T> {}

    #[derive(Debug)]
    pub struct JoinError(());
    impl JoinError {
        pub fn is_cancelled(&self) -> bool {
            true
        }
        pub fn is_panic(&self) -> bool {
            false
        }
    }
    impl fmt::Display for JoinError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("task cancelled")
        }
    }
    impl std::error::Error for JoinError {}

    impl<T> fmt::Debug for JoinHandle<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("JoinHandle")
        }
    }
    impl<T> JoinHandle<T> {
        pub fn abort(&self) {
            simrt::abort_task(self.id);
            if self.slot.out.borrow().is_none() {
                *self.slot.out.borrow_mut() = Some(Err(JoinError(())));
            }
        }
        pub fn is_finished(&self) -> bool {
            self.slot.out.borrow().is_some()
        }
    }
    impl<T> Future for JoinHandle<T> {
        type Output = Result<T, JoinError>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            if let Some(r) = self.slot.out.borrow_mut().take() {
                return Poll::Ready(r);
            }
            *self.slot.waker.borrow_mut() = Some(cx.waker().clone());
            Poll::Pending
        }
    }

    /// Spawn on the node whose task is running.
    pub fn spawn<F>(fut: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        let slot = Rc::new(Slot {
            out: RefCell::new(None),
            waker: RefCell::new(None),
        });
        let s = slot.clone();
        let id = simrt::spawn_raw(Box::pin(async move {
            let out = fut.await;
            *s.out.borrow_mut() = Some(Ok(out));
            let w = s.waker.borrow_mut().take();
            if let Some(w) = w {
                w.wake();
            }
        }));
        JoinHandle { slot, id }
    }

    pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        spawn(async move { f() })
    }

    pub fn block_in_place<F: FnOnce() -> R, R>(f: F) -> R {
        f()
    }

    pub async fn yield_now() {
        simrt::yield_now().await
    }
}

pub mod time {
    use std::fmt;
    use std::future::{Future, IntoFuture};
    use std::ops::{Add, AddAssign, Sub, SubAssign};
    use std::pin::Pin;
    use std::task::{Context, Poll};
    pub use std::time::Duration;

    pub mod error {
        #[derive(Debug, PartialEq, Eq)]
        pub struct Elapsed(pub(super) ());
        impl std::fmt::Display for Elapsed {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("deadline has elapsed")
            }
        }
        impl std::error::Error for Elapsed {}
    }

    /// An instant of the node's clock (std's, which the simulator answers).
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
    pub struct Instant(std::time::Instant);
    impl Instant {
        pub fn now() -> Self {
            Instant(std::time::Instant::now())
        }
        pub fn from_std(i: std::time::Instant) -> Self {
            Instant(i)
        }
        pub fn into_std(self) -> std::time::Instant {
            self.0
        }
        pub fn elapsed(&self) -> Duration {
            self.0.elapsed()
        }
        pub fn duration_since(&self, e: Instant) -> Duration {
            self.0.saturating_duration_since(e.0)
        }
        pub fn saturating_duration_since(&self, e: Instant) -> Duration {
            self.0.saturating_duration_since(e.0)
        }
        pub fn checked_duration_since(&self, e: Instant) -> Option<Duration> {
            self.0.checked_duration_since(e.0)
        }
        pub fn checked_add(&self, d: Duration) -> Option<Instant> {
            self.0.checked_add(d).map(Instant)
        }
        pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
            self.0.checked_sub(d).map(Instant)
        }
    }
    impl From<std::time::Instant> for Instant {
        fn from(i: std::time::Instant) -> Self {
            Instant(i)
        }
    }
    impl From<Instant> for std::time::Instant {
        fn from(i: Instant) -> Self {
            i.0
        }
    }
    impl Add<Duration> for Instant {
        type Output = Instant;
        fn add(self, d: Duration) -> Instant {
            Instant(self.0 + d)
        }
    }
    impl AddAssign<Duration> for Instant {
        fn add_assign(&mut self, d: Duration) {
            self.0 += d
        }
    }
    impl Sub for Instant {
        type Output = Duration;
        fn sub(self, o: Instant) -> Duration {
            self.0.saturating_duration_since(o.0)
        }
    }
    impl Sub<Duration> for Instant {
        type Output = Instant;
        fn sub(self, d: Duration) -> Instant {
            Instant(self.0 - d)
        }
    }
    impl SubAssign<Duration> for Instant {
        fn sub_assign(&mut self, d: Duration) {
            self.0 -= d
        }
    }

    pub struct Sleep {
        deadline: Instant,
        inner: simrt::Sleep,
    }
    impl fmt::Debug for Sleep {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Sleep")
        }
    }
    impl Future for Sleep {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            Pin::new(&mut self.inner).poll(cx)
        }
    }
    fn ns(d: Duration) -> u64 {
        u64::try_from(d.as_nanos()).unwrap_or(u64::MAX / 4)
    }
    impl Sleep {
        pub fn deadline(&self) -> Instant {
            self.deadline
        }
        pub fn is_elapsed(&self) -> bool {
            self.inner.is_elapsed()
        }
        pub fn reset(mut self: Pin<&mut Self>, deadline: Instant) {
            self.deadline = deadline;
            self.inner = simrt::sleep(ns(deadline - Instant::now()));
        }
    }
    pub fn sleep(d: Duration) -> Sleep {
        let now = Instant::now();
        Sleep {
            deadline: now.checked_add(d).unwrap_or(now),
            inner: simrt::sleep(ns(d).min(u64::MAX / 4)),
        }
    }
    pub fn sleep_until(deadline: Instant) -> Sleep {
        Sleep {
            deadline,
            inner: simrt::sleep(ns(deadline - Instant::now())),
        }
    }

    pub struct Timeout<F> {
        fut: F,
        sleep: Sleep,
    }
    impl<F: Future> Future for Timeout<F> {
        type Output = Result<F::Output, error::Elapsed>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            let this = unsafe { self.get_unchecked_mut() };
            if let Poll::Ready(v) = unsafe { Pin::new_unchecked(&mut this.fut) }.poll(cx) {
                return Poll::Ready(Ok(v));
            }
            match Pin::new(&mut this.sleep).poll(cx) {
                Poll::Ready(()) => Poll::Ready(Err(error::Elapsed(()))),
                Poll::Pending => Poll::Pending,
            }
        }
    }
    pub fn timeout<F: IntoFuture>(d: Duration, f: F) -> Timeout<F::IntoFuture> {
        Timeout {
            fut: f.into_future(),
            sleep: sleep(d),
        }
    }
    pub fn timeout_at<F: IntoFuture>(t: Instant, f: F) -> Timeout<F::IntoFuture> {
        Timeout {
            fut: f.into_future(),
            sleep: sleep_until(t),
        }
    }

    #[derive(Debug)]
    pub struct Interval {
        next: Instant,
        period: Duration,
    }
    impl Interval {
        pub async fn tick(&mut self) -> Instant {
            let at = self.next;
            sleep_until(at).await;
            self.next = at + self.period;
            at
        }
        pub fn period(&self) -> Duration {
            self.period
        }
    }
    pub fn interval(period: Duration) -> Interval {
        Interval {
            next: Instant::now(),
            period,
        }
    }
    pub fn interval_at(start: Instant, period: Duration) -> Interval {
        Interval {
            next: start,
            period,
        }
    }
}
