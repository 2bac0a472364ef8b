//! Stand-in for `governor`: a direct rate limiter.
use std::future::Future;
use std::marker::PhantomData;
use std::num::NonZeroU32;
use std::pin::Pin;
use std::sync::Mutex;
use std::task::{Context, Poll};
use std::time::{Duration, Instant};

pub mod clock {
    #[derive(Debug, Clone, Default)]
    pub struct DefaultClock;
}
pub mod state {
    #[derive(Debug, Default)]
    pub struct InMemoryState;
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub struct NotKeyed;
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Quota {
    burst: u32,
    per: Duration,
}
impl Quota {
    const fn every(n: NonZeroU32, nanos: u64) -> Self {
        Self { burst: n.get(), per: Duration::from_nanos(nanos / n.get() as u64) }
    }
    pub const fn per_second(n: NonZeroU32) -> Self {
        Self::every(n, 1_000_000_000)
    }
    pub const fn per_minute(n: NonZeroU32) -> Self {
        Self::every(n, 60_000_000_000)
    }
    pub const fn per_hour(n: NonZeroU32) -> Self {
        Self::every(n, 3_600_000_000_000)
    }
    pub const fn with_period(per: Duration) -> Option<Self> {
        if per.as_nanos() == 0 {
            None
        } else {
            Some(Self { burst: 1, per })
        }
    }
    pub const fn allow_burst(self, n: NonZeroU32) -> Self {
        Self { burst: n.get(), ..self }
    }
    pub const fn burst_size(&self) -> NonZeroU32 {
        NonZeroU32::new(self.burst).unwrap()
    }
    pub const fn replenish_interval(&self) -> Duration {
        self.per
    }
}
#[derive(Debug, Clone, Copy, Default)]
pub struct Jitter(Duration);
impl Jitter {
    pub fn up_to(d: Duration) -> Self {
        Self(d)
    }
    pub fn new(min: Duration, interval: Duration) -> Self {
        Self(min + interval)
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct InsufficientCapacity(pub u32);
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct NotUntil(Instant);
impl NotUntil {
    pub fn wait_time_from(&self, now: Instant) -> Duration {
        self.0.saturating_duration_since(now)
    }
}
pub struct RateLimiter<K, S, C> {
    quota: Quota,
    /// the theoretical arrival time of the next request
    tat: Mutex<Instant>,
    _p: PhantomData<(fn(K), fn(S), fn(C))>,
}
pub type DefaultDirectRateLimiter = RateLimiter<state::NotKeyed, state::InMemoryState, clock::DefaultClock>;
impl RateLimiter<state::NotKeyed, state::InMemoryState, clock::DefaultClock> {
    pub fn direct(quota: Quota) -> Self {
        Self { quota, tat: Mutex::new(Instant::now()), _p: PhantomData }
    }
    /// takes n cells, or tells how long to wait for them
    fn take(&self, n: u32) -> Result<(), Duration> {
        let mut tat = self.tat.lock().unwrap();
        let now = Instant::now();
        let base = (*tat).max(now);
        let ahead = base - now;
        let room = self.quota.per * (self.quota.burst - n);
        if ahead <= room {
            *tat = base + self.quota.per * n;
            return Ok(());
        }
        Err(ahead - room)
    }
    pub fn check(&self) -> Result<(), NotUntil> {
        self.take(1).map_err(|d| NotUntil(Instant::now() + d))
    }
    pub fn check_n(&self, n: NonZeroU32) -> Result<Result<(), NotUntil>, InsufficientCapacity> {
        if n.get() > self.quota.burst {
            return Err(InsufficientCapacity(self.quota.burst));
        }
        Ok(self.take(n.get()).map_err(|d| NotUntil(Instant::now() + d)))
    }
    pub async fn until_ready(&self) {
        while let Err(d) = self.take(1) {
            Sleep(Instant::now() + d).await;
        }
    }
    pub async fn until_ready_with_jitter(&self, j: Jitter) {
        while let Err(d) = self.take(1) {
            Sleep(Instant::now() + d + j.0).await;
        }
    }
    pub async fn until_n_ready(&self, n: NonZeroU32) -> Result<(), InsufficientCapacity> {
        if n.get() > self.quota.burst {
            return Err(InsufficientCapacity(self.quota.burst));
        }
        while let Err(d) = self.take(n.get()) {
            Sleep(Instant::now() + d).await;
        }
        Ok(())
    }
}
/// woken by a thread of its own
struct Sleep(Instant);
impl Future for Sleep {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let now = Instant::now();
        if now >= self.0 {
            return Poll::Ready(());
        }
        let (w, d) = (cx.waker().clone(), self.0 - now);
        std::thread::spawn(move || {
            std::thread::sleep(d);
            w.wake();
        });
        Poll::Pending
    }
}
