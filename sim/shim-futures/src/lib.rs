//! Facade over the real futures crates (the real channels, streams, sinks and combinators), as in
//! futures 0.3.34, except that `select!` and `stream_select!` take their polling order from the
//! simulator's seeded generator instead of a thread-local one seeded from a process-wide counter.
#![no_std]
#[doc(no_inline)]
pub use futures_core::future::{Future, TryFuture};
#[doc(no_inline)]
pub use futures_core::stream::{Stream, TryStream};
#[doc(no_inline)]
pub use futures_io::{AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite};
#[doc(no_inline)]
pub use futures_sink::Sink;
#[doc(no_inline)]
pub use futures_util::future::{FutureExt, TryFutureExt};
#[doc(no_inline)]
pub use futures_util::sink::SinkExt;
#[doc(no_inline)]
pub use futures_util::stream::{StreamExt, TryStreamExt};
#[doc(no_inline)]
pub use futures_util::{AsyncBufReadExt, AsyncReadExt, AsyncSeekExt, AsyncWriteExt};

pub mod channel {
    pub use futures_channel::oneshot;

    /// The real channels, except that a receive may yield to the scheduler first (a spurious
    /// `Pending` with its wake-up already scheduled), so that tasks interleave between messages
    /// as they do on several threads.
    pub mod mpsc {
        use core::fmt;
        use core::pin::Pin;
        use core::task::{Context, Poll};
        use futures_channel::mpsc as real;
        use futures_core::stream::{FusedStream, Stream};
        pub use real::{RecvError, SendError, Sender, TryRecvError, TrySendError, UnboundedSender};

        macro_rules! receiver {
            ($name:ident) => {
                pub struct $name<T>(real::$name<T>);
                impl<T> Unpin for $name<T> {}
                impl<T> fmt::Debug for $name<T> {
                    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                        f.write_str(stringify!($name))
                    }
                }
                impl<T> Stream for $name<T> {
                    type Item = T;
                    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
                        if simrt::should_yield() {
                            cx.waker().wake_by_ref();
                            return Poll::Pending;
                        }
                        Pin::new(&mut self.0).poll_next(cx)
                    }
                    fn size_hint(&self) -> (usize, Option<usize>) {
                        self.0.size_hint()
                    }
                }
                impl<T> FusedStream for $name<T> {
                    fn is_terminated(&self) -> bool {
                        self.0.is_terminated()
                    }
                }
                impl<T> $name<T> {
                    pub fn close(&mut self) {
                        self.0.close()
                    }
                    #[allow(deprecated)]
                    pub fn try_next(&mut self) -> Result<Option<T>, TryRecvError> {
                        self.0.try_next()
                    }
                    pub fn try_recv(&mut self) -> Result<T, TryRecvError> {
                        self.0.try_recv()
                    }
                    pub async fn recv(&mut self) -> Result<T, RecvError> {
                        self.0.recv().await
                    }
                }
            };
        }
        receiver!(UnboundedReceiver);
        receiver!(Receiver);

        pub fn unbounded<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
            let (tx, rx) = real::unbounded();
            (tx, UnboundedReceiver(rx))
        }
        pub fn channel<T>(n: usize) -> (Sender<T>, Receiver<T>) {
            let (tx, rx) = real::channel(n);
            (tx, Receiver(rx))
        }
    }
}
pub use futures_core::ready;
pub use futures_util::io;
pub use futures_util::lock;
pub use futures_util::pin_mut;
pub use futures_util::{future, never, sink, stream, task};
pub use futures_util::{join, pending, poll, select_biased, try_join};

#[doc(hidden)]
pub use futures_util::{select_internal, stream_select_internal};

pub mod executor {
    pub use futures_executor::{
        block_on, block_on_stream, enter, BlockingStream, Enter, EnterError, LocalPool,
        LocalSpawner,
    };
}

#[doc(hidden)]
pub mod __private {
    pub use futures_util::__private::*;
    pub mod async_await {
        pub use futures_util::__private::async_await::*;
        pub fn shuffle<T>(slice: &mut [T]) {
            for i in (1..slice.len()).rev() {
                slice.swap(i, simrt::choose(i + 1));
            }
        }
    }
}

#[macro_export]
macro_rules! select {
    ($($tokens:tt)*) => {{
        use $crate::__private as __futures_crate;
        $crate::select_internal! {
            $( $tokens )*
        }
    }}
}

#[macro_export]
macro_rules! stream_select {
    ($($tokens:tt)*) => {{
        use $crate::__private as __futures_crate;
        $crate::stream_select_internal! {
            $( $tokens )*
        }
    }}
}

pub mod prelude {
    pub use crate::future::{self, Future, TryFuture};
    #[doc(no_inline)]
    pub use crate::future::{FutureExt as _, TryFutureExt as _};
    #[doc(no_inline)]
    pub use crate::io::{
        AsyncBufRead, AsyncBufReadExt as _, AsyncRead, AsyncReadExt as _, AsyncSeek,
        AsyncSeekExt as _, AsyncWrite, AsyncWriteExt as _,
    };
    #[doc(no_inline)]
    pub use crate::sink::SinkExt as _;
    pub use crate::sink::{self, Sink};
    #[doc(no_inline)]
    pub use crate::stream::{StreamExt as _, TryStreamExt as _};
    pub use crate::stream::{self, Stream, TryStream};
}
