//! A range server in memory: answers like a static file server (206 with the
//! available part of the range, 416 past the end), with scripted deviations.

use async_trait::async_trait;
use bytes::Bytes;
use http_range_client::{AsyncHttpRangeClient, HttpError};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fault {
    None,
    /// Request number k (0-based) fails with this status; later ones work.
    Status(usize, u16),
    /// Request number k and every later one fails.
    StatusFrom(usize, u16),
    /// Transport error at request k.
    Transport(usize),
    /// The answer to request k is cut to this many bytes.
    Cut(usize, usize),
    /// Every answer is cut to this many bytes.
    CutAll(usize),
    /// Request k deviates if bit k is set: 0 status, 1 transport, 2 nothing
    /// arrives, otherwise that many bytes less two arrive.
    Mask(u64, usize),
}

#[derive(Default)]
pub struct Log {
    pub ranges: Mutex<Vec<(usize, usize)>>,
    pub past_end: AtomicUsize,
}

pub struct Web {
    data: Arc<Vec<u8>>,
    pub log: Arc<Log>,
    fault: Fault,
    /// how often each answer is pending before it is ready
    pends: usize,
    k: AtomicUsize,
}

impl Web {
    pub fn new(data: Arc<Vec<u8>>, fault: Fault, pends: usize) -> (Web, Arc<Log>) {
        let log = Arc::new(Log::default());
        (
            Web {
                data,
                log: log.clone(),
                fault,
                pends,
                k: AtomicUsize::new(0),
            },
            log,
        )
    }
}

struct Pend(usize);
impl Future for Pend {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

#[async_trait]
impl AsyncHttpRangeClient for Web {
    async fn get_range(&self, _url: &str, range: &str) -> http_range_client::Result<Bytes> {
        let k = self.k.fetch_add(1, Ordering::Relaxed);
        let (a, b) = range
            .strip_prefix("bytes=")
            .and_then(|r| r.split_once('-'))
            .expect("range header");
        let a: usize = a.parse().expect("range start");
        let b: usize = b.parse().expect("range end");
        self.log.ranges.lock().unwrap().push((a, b));
        Pend(self.pends).await;
        match self.fault {
            Fault::Status(n, s) if n == k => return Err(HttpError::HttpStatus(s)),
            Fault::StatusFrom(n, s) if k >= n => return Err(HttpError::HttpStatus(s)),
            Fault::Transport(n) if n == k => {
                return Err(HttpError::HttpError("connection reset".into()))
            }
            Fault::Mask(m, 0) if k < 64 && m >> k & 1 == 1 => return Err(HttpError::HttpStatus(503)),
            Fault::Mask(m, 1) if k < 64 && m >> k & 1 == 1 => {
                return Err(HttpError::HttpError("connection reset".into()))
            }
            _ => {}
        }
        if a >= self.data.len() || b < a {
            self.log.past_end.fetch_add(1, Ordering::Relaxed);
            return Err(HttpError::HttpStatus(416));
        }
        let end = (b + 1).min(self.data.len());
        let mut out = &self.data[a..end];
        match self.fault {
            Fault::Cut(n, l) if n == k => out = &out[..l.min(out.len())],
            Fault::CutAll(l) => out = &out[..l.min(out.len())],
            Fault::Mask(m, l) if k < 64 && m >> k & 1 == 1 => out = &out[..(l - 2).min(out.len())],
            _ => {}
        }
        Ok(Bytes::copy_from_slice(out))
    }
    async fn head_response_header(
        &self,
        _url: &str,
        header: &str,
    ) -> http_range_client::Result<Option<String>> {
        Ok((header.eq_ignore_ascii_case("content-length")).then(|| self.data.len().to_string()))
    }
}

/// Polls to completion; every pending answer of `Web` becomes ready by polling.
pub fn block_on<F: Future>(f: F) -> F::Output {
    fn raw() -> RawWaker {
        fn clone(_: *const ()) -> RawWaker {
            raw()
        }
        fn nop(_: *const ()) {}
        static VT: RawWakerVTable = RawWakerVTable::new(clone, nop, nop, nop);
        RawWaker::new(std::ptr::null(), &VT)
    }
    let waker = unsafe { Waker::from_raw(raw()) };
    let mut cx = Context::from_waker(&waker);
    let mut f = std::pin::pin!(f);
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
}
