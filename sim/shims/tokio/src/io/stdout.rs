use crate::io::blocking::Blocking;
use crate::io::stdio_common::SplitByUtf8BoundaryIfWindows;
use crate::io::AsyncWrite;
use std::io;
use std::pin::Pin;
use std::task::Context;
use std::task::Poll;

cfg_io_std! {
    /// A handle to the standard output stream of a process.
    ///
    /// Concurrent writes to stdout must be executed with care: Only individual
    /// writes to this [`AsyncWrite`] are guaranteed to be intact. In particular
    /// you should be aware that writes using [`write_all`] are not guaranteed
    /// to occur as a single write, so multiple threads writing data with
    /// [`write_all`] may result in interleaved output.
    ///
    /// Created by the [`stdout`] function.
    ///
    /// [`stdout`]: stdout()
    /// [`AsyncWrite`]: AsyncWrite
    /// [`write_all`]: crate::io::AsyncWriteExt::write_all()
    ///
    /// # Examples
    ///
    /// ```
    /// use tokio::io::{self, AsyncWriteExt};
    ///
    /// #[tokio::main]
    /// async fn main() -> io::Result<()> {
    ///     let mut stdout = io::stdout();
    ///     stdout.write_all(b"Hello world!").await?;
    ///     Ok(())
    /// }
    /// ```
    ///
    /// The following is an example of using `stdio` with loop.
    ///
    /// ```
    /// use tokio::io::{self, AsyncWriteExt};
    ///
    /// #[tokio::main]
    /// async fn main() {
    ///     let messages = vec!["hello", " world\n"];
    ///
    ///     // When you use `stdio` in a loop, it is recommended to create
    ///     // a single `stdio` instance outside the loop and call a write
    ///     // operation against that instance on each loop.
    ///     //
    ///     // Repeatedly creating `stdout` instances inside the loop and
    ///     // writing to that handle could result in mangled output since
    ///     // each write operation is handled by a different blocking thread.
    ///     let mut stdout = io::stdout();
    ///
    ///     for message in &messages {
    ///         stdout.write_all(message.as_bytes()).await.unwrap();
    ///         stdout.flush().await.unwrap();
    ///     }
    /// }
    /// ```
    #[derive(Debug)]
    pub struct Stdout {
        std: SplitByUtf8BoundaryIfWindows<Blocking<std::io::Stdout>>,
        sim: Option<std::sync::Arc<SimStdout>>,
    }

    /// Constructs a new handle to the standard output of the current process.
    ///
    /// The returned handle allows writing to standard out from the within the
    /// Tokio runtime.
    ///
    /// Concurrent writes to stdout must be executed with care: Only individual
    /// writes to this [`AsyncWrite`] are guaranteed to be intact. In particular
    /// you should be aware that writes using [`write_all`] are not guaranteed
    /// to occur as a single write, so multiple threads writing data with
    /// [`write_all`] may result in interleaved output.
    ///
    /// [`AsyncWrite`]: AsyncWrite
    /// [`write_all`]: crate::io::AsyncWriteExt::write_all()
    ///
    /// # Examples
    ///
    /// ```
    /// use tokio::io::{self, AsyncWriteExt};
    ///
    /// #[tokio::main]
    /// async fn main() -> io::Result<()> {
    ///     let mut stdout = io::stdout();
    ///     stdout.write_all(b"Hello world!").await?;
    ///     Ok(())
    /// }
    /// ```
    ///
    /// The following is an example of using `stdio` with loop.
    ///
    /// ```
    /// use tokio::io::{self, AsyncWriteExt};
    ///
    /// #[tokio::main]
    /// async fn main() {
    ///     let messages = vec!["hello", " world\n"];
    ///
    ///     // When you use `stdio` in a loop, it is recommended to create
    ///     // a single `stdio` instance outside the loop and call a write
    ///     // operation against that instance on each loop.
    ///     //
    ///     // Repeatedly creating `stdout` instances inside the loop and
    ///     // writing to that handle could result in mangled output since
    ///     // each write operation is handled by a different blocking thread.
    ///     let mut stdout = io::stdout();
    ///
    ///     for message in &messages {
    ///         stdout.write_all(message.as_bytes()).await.unwrap();
    ///         stdout.flush().await.unwrap();
    ///     }
    /// }
    /// ```
    pub fn stdout() -> Stdout {
        let std = io::stdout();
        Stdout {
            std: SplitByUtf8BoundaryIfWindows::new(Blocking::new(std)),
            sim: SimStdout::take(),
        }
    }
}

#[cfg(unix)]
mod sys {
    use std::os::unix::io::{AsFd, AsRawFd, BorrowedFd, RawFd};

    use super::Stdout;

    impl AsRawFd for Stdout {
        fn as_raw_fd(&self) -> RawFd {
            std::io::stdout().as_raw_fd()
        }
    }

    impl AsFd for Stdout {
        fn as_fd(&self) -> BorrowedFd<'_> {
            unsafe { BorrowedFd::borrow_raw(self.as_raw_fd()) }
        }
    }
}

cfg_windows! {
    use crate::os::windows::io::{AsHandle, BorrowedHandle, AsRawHandle, RawHandle};

    impl AsRawHandle for Stdout {
        fn as_raw_handle(&self) -> RawHandle {
            std::io::stdout().as_raw_handle()
        }
    }

    impl AsHandle for Stdout {
        fn as_handle(&self) -> BorrowedHandle<'_> {
            unsafe { BorrowedHandle::borrow_raw(self.as_raw_handle()) }
        }
    }
}

impl AsyncWrite for Stdout {
    fn poll_write(
        mut self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &[u8],
    ) -> Poll<io::Result<usize>> {
        if let Some(sim) = &self.sim {
            return match sim.poll_idle(cx) {
                Poll::Ready(Ok(())) => {
                    if !buf.is_empty() {
                        SimStdout::begin(sim, buf);
                    }
                    Poll::Ready(Ok(buf.len()))
                }
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Pending => Poll::Pending,
            };
        }
        Pin::new(&mut self.std).poll_write(cx, buf)
    }

    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), io::Error>> {
        if let Some(sim) = &self.sim {
            return sim.poll_idle(cx);
        }
        Pin::new(&mut self.std).poll_flush(cx)
    }

    fn poll_shutdown(
        mut self: Pin<&mut Self>,
        cx: &mut Context<'_>,
    ) -> Poll<Result<(), io::Error>> {
        if let Some(sim) = &self.sim {
            return sim.poll_idle(cx);
        }
        Pin::new(&mut self.std).poll_shutdown(cx)
    }
}

/// The standard output of a simulated process. As with the real one, a piece that was accepted
/// is written by somebody else while the process goes on, and flushing waits for that.
#[derive(Debug)]
pub(crate) struct SimStdout {
    stream: simcore::net::Stream,
    state: std::sync::Mutex<SimState>,
}

#[derive(Debug, Default)]
struct SimState {
    pending: Vec<u8>,
    error: Option<io::ErrorKind>,
    wakers: Vec<std::task::Waker>,
}

impl SimStdout {
    fn take() -> Option<std::sync::Arc<Self>> {
        let stream = simcore::net::take_stdout()?;
        Some(std::sync::Arc::new(Self { stream, state: Default::default() }))
    }

    /// Ready once nothing is being written.
    fn poll_idle(&self, cx: &mut Context<'_>) -> Poll<Result<(), io::Error>> {
        let mut st = self.state.lock().unwrap();
        if !st.pending.is_empty() {
            st.wakers.push(cx.waker().clone());
            return Poll::Pending;
        }
        match st.error.take() {
            Some(e) => Poll::Ready(Err(e.into())),
            None => Poll::Ready(Ok(())),
        }
    }

    fn begin(me: &std::sync::Arc<Self>, buf: &[u8]) {
        me.state.lock().unwrap().pending = buf.to_vec();
        let me = me.clone();
        let _ = crate::spawn(std::future::poll_fn(move |cx| loop {
            let mut st = me.state.lock().unwrap();
            match me.stream.poll_write(cx, &st.pending) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Ok(n)) => {
                    st.pending.drain(..n);
                }
                Poll::Ready(Err(e)) => {
                    st.error = Some(e.kind());
                    st.pending.clear();
                }
            }
            if st.pending.is_empty() {
                for w in st.wakers.drain(..) {
                    w.wake();
                }
                return Poll::Ready(());
            }
        }));
    }
}
