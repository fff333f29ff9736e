//! Timers on the simulator's clock.
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::Duration;

/// Resolves once the given duration of simulated time has passed.
pub struct Delay {
    at: u64,
}

impl Delay {
    pub fn new(dur: Duration) -> Delay {
        Delay { at: deadline(dur) }
    }

    pub fn reset(&mut self, dur: Duration) {
        self.at = deadline(dur);
    }
}

fn deadline(dur: Duration) -> u64 {
    simcore::now().saturating_add(u64::try_from(dur.as_nanos()).unwrap_or(u64::MAX / 2))
}

impl Future for Delay {
    type Output = ();

    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if simcore::now() >= self.at {
            return Poll::Ready(());
        }
        simcore::timer_at(self.at, cx.waker().clone());
        Poll::Pending
    }
}

impl fmt::Debug for Delay {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("Delay").finish()
    }
}
