//! The library's own sources, run in the closed system: their client, their responses and their
//! reader are scripted, and what passes the `SourceStream` interface is logged like everything else.

use std::fmt;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, ready};

use bytes::Bytes;
use futures_util::Stream;
use stream_download::async_read::{AsyncReadStream, AsyncReadStreamParams};
use stream_download::http::{Client, ClientResponse, HttpStream, ResponseHeaders};
use stream_download::source::{SourceStream, StreamOutcome};
use tokio::io::{AsyncRead, ReadBuf};

use crate::world::*;

pub enum Any {
    Direct(Scripted),
    Net(Net),
}

impl Stream for Any {
    type Item = Result<Bytes, SrcErr>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        match &mut *self {
            Any::Direct(s) => Pin::new(s).poll_next(cx),
            Any::Net(s) => Pin::new(s).poll_next(cx),
        }
    }
}

impl SourceStream for Any {
    type Params = World;
    type StreamCreationError = SrcErr;

    async fn create(w: World) -> Result<Self, SrcErr> {
        Ok(match w.1.source {
            Source::Scripted => Any::Direct(Scripted::create(w).await?),
            _ => Any::Net(Net::create(w).await?),
        })
    }
    fn content_length(&self) -> Option<u64> {
        match self {
            Any::Direct(s) => s.content_length(),
            Any::Net(s) => s.inner.content_length(),
        }
    }
    async fn seek_range(&mut self, start: u64, end: Option<u64>) -> io::Result<()> {
        match self {
            Any::Direct(s) => s.seek_range(start, end).await,
            Any::Net(s) => s.seek_range(start, end).await,
        }
    }
    async fn reconnect(&mut self, current_position: u64) -> io::Result<()> {
        match self {
            Any::Direct(s) => s.reconnect(current_position).await,
            Any::Net(s) => s.reconnect(current_position).await,
        }
    }
    fn supports_seek(&self) -> bool {
        match self {
            Any::Direct(s) => s.supports_seek(),
            Any::Net(s) => s.inner.supports_seek(),
        }
    }
    async fn on_finish(&mut self, result: io::Result<()>, outcome: StreamOutcome) -> io::Result<()> {
        match self {
            Any::Direct(s) => s.on_finish(result, outcome).await,
            Any::Net(s) => s.on_finish(result, outcome).await,
        }
    }
}

enum Real {
    Http(HttpStream<NetClient>),
    Async(AsyncReadStream<NetReader>),
}

macro_rules! real {
    ($self:expr, $s:ident => $e:expr) => {
        match $self {
            Real::Http($s) => $e,
            Real::Async($s) => $e,
        }
    };
}

impl Real {
    fn content_length(&self) -> Option<u64> {
        real!(self, s => s.content_length())
    }
    fn supports_seek(&self) -> bool {
        real!(self, s => s.supports_seek())
    }
}

pub struct Net {
    inner: Real,
    w: World,
    pos: u64,
}

impl Drop for Net {
    fn drop(&mut self) {
        self.w.stream_dropped();
    }
}

impl Stream for Net {
    type Item = Result<Bytes, SrcErr>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        self.w.stamp();
        let w = self.w.clone();
        let item = match &mut self.inner {
            Real::Http(s) => ready!(Pin::new(s).poll_next(cx)),
            Real::Async(s) => ready!(Pin::new(s).poll_next(cx)).map(|r| r.map_err(|_| SrcErr)),
        };
        match &item {
            Some(Ok(b)) if b.is_empty() => w.log(Ev::EmptyChunk),
            Some(Ok(b)) => {
                w.log(Ev::Chunk { pos: self.pos, len: b.len() as u64 });
                self.pos += b.len() as u64;
            }
            Some(Err(_)) => w.log(Ev::ErrItem),
            None => {
                let early = w.get().net_early;
                w.log(Ev::EndItem { pos: self.pos, early });
            }
        }
        Poll::Ready(item)
    }
}

impl Net {
    async fn create(w: World) -> Result<Self, SrcErr> {
        let inner = match w.1.source {
            Source::Async => {
                let body = Scripted::body(w.clone(), 0, w.1.len);
                let p = AsyncReadStreamParams::new(NetReader { body, left: Bytes::new() })
                    .content_length(w.1.known.then_some(w.1.len));
                Real::Async(AsyncReadStream::create(p).await.map_err(|_| SrcErr)?)
            }
            _ => {
                let s = HttpStream::new(NetClient(Some(w.clone())), Url).await.map_err(|_| SrcErr)?;
                Real::Http(s)
            }
        };
        Ok(Self { inner, w, pos: 0 })
    }

    async fn seek_range(&mut self, start: u64, end: Option<u64>) -> io::Result<()> {
        let w = self.w.clone();
        w.stamp();
        w.log(Ev::SeekRange { start, end, stored: w.stored_map() });
        let r = real!(&mut self.inner, s => s.seek_range(start, end).await);
        if r.is_ok() {
            self.pos = start;
        }
        w.log(Ev::SeekRangeRet { ok: r.is_ok() });
        r
    }

    async fn reconnect(&mut self, current_position: u64) -> io::Result<()> {
        let w = self.w.clone();
        let next_write = w.get().writer_pos;
        w.stamp();
        w.log(Ev::Reconnect { pos: current_position, next_write });
        w.get().net_reconnect = Some(current_position);
        let mut d = ReconnectGuard(w.clone(), false);
        let r = real!(&mut self.inner, s => s.reconnect(current_position).await);
        d.1 = true;
        w.get().net_reconnect = None;
        if r.is_ok() {
            self.pos = current_position;
        }
        w.log(Ev::ReconnectRet { ok: r.is_ok() });
        r
    }

    async fn on_finish(&mut self, result: io::Result<()>, outcome: StreamOutcome) -> io::Result<()> {
        self.w.log(Ev::OnFinish {
            ok: result.is_ok(),
            cancelled: outcome == StreamOutcome::CancelledByUser,
        });
        let r = real!(&mut self.inner, s => s.on_finish(result, outcome).await);
        match self.w.fault(&[Fault::FinishFail, Fault::Panic]) {
            Some(Fault::Panic) => panic!("scripted panic"),
            Some(_) => Err(self.w.error("scripted finish failure")),
            None => r,
        }
    }
}

// ---------------------------------------------------------------------------------------------
// the reader below an AsyncReadStream

struct NetReader {
    body: Scripted,
    left: Bytes,
}

impl AsyncRead for NetReader {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        if self.left.is_empty() {
            match ready!(Pin::new(&mut self.body).poll_next(cx)) {
                Some(Ok(b)) => self.left = b,
                Some(Err(e)) => return Poll::Ready(Err(io::Error::other(e))),
                None => {}
            }
        }
        let n = self.left.len().min(buf.remaining());
        buf.put_slice(&self.left.split_to(n));
        Poll::Ready(Ok(()))
    }
}

// ---------------------------------------------------------------------------------------------
// the client below an HttpStream

pub struct NetClient(Option<World>);

pub struct Url;
impl fmt::Display for Url {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("scripted:")
    }
}

pub struct Headers {
    accept: bool,
    range: Option<String>,
}
impl ResponseHeaders for Headers {
    fn header(&self, name: &str) -> Option<&str> {
        match name.to_ascii_lowercase().as_str() {
            "accept-ranges" => self.accept.then_some("bytes"),
            "content-range" => self.range.as_deref(),
            _ => None,
        }
    }
}

pub struct Response {
    body: Scripted,
    accept: bool,
    range: Option<String>,
    length: Option<u64>,
    ok: bool,
}

impl ClientResponse for Response {
    type ResponseError = SrcErr;
    type StreamError = SrcErr;
    type Headers = Headers;

    fn content_length(&self) -> Option<u64> {
        self.length
    }
    fn content_type(&self) -> Option<&str> {
        None
    }
    fn headers(&self) -> Headers {
        Headers { accept: self.accept, range: self.range.clone() }
    }
    fn into_result(self) -> Result<Self, SrcErr> {
        if self.ok { Ok(self) } else { Err(SrcErr) }
    }
    fn stream(self) -> Box<dyn Stream<Item = Result<Bytes, SrcErr>> + Unpin + Send + Sync> {
        Box::new(self.body)
    }
}

impl NetClient {
    fn world(&self) -> World {
        self.0.clone().expect("world")
    }

    /// Everything that can happen to a request.
    async fn fate(&self, w: &World) -> Result<(), SrcErr> {
        let reconnecting = w.get().net_reconnect.is_some();
        let faults: &[Fault] = if reconnecting {
            &[Fault::ReconnectFail, Fault::ReconnectStall, Fault::Panic]
        } else {
            &[Fault::SeekFail, Fault::SeekSlow, Fault::SeekStall, Fault::Panic]
        };
        match w.fault(faults) {
            Some(Fault::Panic) => panic!("scripted panic"),
            Some(Fault::SeekFail | Fault::ReconnectFail) => Err(SrcErr),
            Some(Fault::SeekSlow) => {
                let gate = Arc::default();
                std::future::poll_fn(|cx| poll_gate(&gate, w, "answer", cx)).await;
                Ok(())
            }
            Some(Fault::SeekStall | Fault::ReconnectStall) => std::future::pending().await,
            _ => Ok(()),
        }
    }
}

impl Client for NetClient {
    type Url = Url;
    type Headers = Headers;
    type Response = Response;
    type Error = SrcErr;

    fn create() -> Self {
        Self(None)
    }

    fn get(&self, _: &Url) -> impl Future<Output = Result<Response, SrcErr>> + Send {
        let w = self.world();
        async move {
            let Source::Http { accept, .. } = w.1.source else { unreachable!() };
            let again = w.get().net_reconnect;
            if again.is_some() {
                self.fate(&w).await?;
            }
            // a live stream goes on where it is
            let from = if w.1.known { 0 } else { again.unwrap_or(0) };
            Ok(Response {
                body: Scripted::body(w.clone(), from, w.1.len),
                accept,
                range: None,
                length: w.1.known.then_some(w.1.len),
                ok: true,
            })
        }
    }

    fn get_range(&self, _: &Url, start: u64, end: Option<u64>) -> impl Future<Output = Result<Response, SrcErr>> + Send {
        let w = self.world();
        async move {
            let Source::Http { accept, whole } = w.1.source else { unreachable!() };
            self.fate(&w).await?;
            let len = w.1.len;
            let resp = |from: u64, to: u64, range: bool, ok: bool| Response {
                body: Scripted::body(w.clone(), from, to),
                accept,
                range: range.then(|| format!("bytes {from}-{}/{len}", to - 1)),
                length: (range || w.1.known).then_some(to - from),
                ok,
            };
            if whole {
                return Ok(resp(0, len, false, true));
            }
            if start >= len {
                w.log(Ev::Fault(Fault::SeekFail));
                return Ok(resp(0, 0, false, false));
            }
            let to = end.map_or(len, |e| e.saturating_add(1)).min(len);
            Ok(resp(start, to.max(start + 1), true, true))
        }
    }
}

struct ReconnectGuard(World, bool);
impl Drop for ReconnectGuard {
    fn drop(&mut self) {
        if !self.1 {
            self.0.stamp();
            self.0.get().net_reconnect = None;
            self.0.log(Ev::ReconnectDropped);
        }
    }
}
