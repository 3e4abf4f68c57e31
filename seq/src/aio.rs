//! Polling futures and streams by hand, on this thread.

use std::future::Future;
use std::pin::{Pin, pin};
use std::task::{Context, Poll, Waker};

use futures_util::Stream;

use crate::ctl::Bad;

/// Polls without sleeping: everything here is ready or wakes itself. Fails if it never finishes.
pub fn block<F: Future>(f: F) -> Result<F::Output, Bad> {
    let mut f = pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..1000 {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return Ok(r);
        }
    }
    Err(Bad { sig: "hang", what: "an operation does not finish".into() })
}

pub fn next<S: Stream + Unpin>(s: &mut S) -> Result<Option<S::Item>, Bad> {
    block(std::future::poll_fn(|cx| Pin::new(&mut *s).poll_next(cx)))
}

/// Pending once, then ready.
pub async fn yield_once() {
    let mut done = false;
    std::future::poll_fn(|cx| {
        if done {
            return Poll::Ready(());
        }
        done = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    })
    .await;
}
