//! Ties every task to the simulated process that spawned it.
use std::future::Future;
use std::mem::ManuallyDrop;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::task::{Context, Poll};

pub(crate) struct ProcFuture<F> {
    proc: simcore::ProcId,
    inner: ManuallyDrop<F>,
}

impl<F> ProcFuture<F> {
    pub(crate) fn new(inner: F) -> Self {
        Self {
            proc: if simcore::active() { simcore::current_proc() } else { 0 },
            inner: ManuallyDrop::new(inner),
        }
    }
}

impl<F: Future> Future for ProcFuture<F> {
    type Output = F::Output;

    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        let this = unsafe { self.get_unchecked_mut() };
        let inner = unsafe { Pin::new_unchecked(&mut *this.inner) };
        if this.proc == 0 {
            return inner.poll(cx);
        }
        if let simcore::Enter::Blocked = simcore::may_run(this.proc, cx.waker()) {
            return Poll::Pending;
        }
        let _guard = simcore::enter_proc(this.proc);
        match catch_unwind(AssertUnwindSafe(|| inner.poll(cx))) {
            // What a process computed after its death does not count.
            Ok(_) if !simcore::is_alive(this.proc) => Poll::Pending,
            Ok(r) => r,
            Err(_) => {
                simcore::proc_panicked("panic".to_string());
                Poll::Pending
            }
        }
    }
}

impl<F> Drop for ProcFuture<F> {
    fn drop(&mut self) {
        if self.proc == 0 {
            unsafe { ManuallyDrop::drop(&mut self.inner) }
        } else if simcore::enabled() && simcore::is_alive(self.proc) {
            let _guard = simcore::enter_proc(self.proc);
            unsafe { ManuallyDrop::drop(&mut self.inner) }
        }
    }
}
