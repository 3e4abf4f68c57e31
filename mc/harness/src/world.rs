//! The closed system: a scripted remote source, a logging storage, a reader program, optionally a
//! canceller, and everything they did in one total order.

use std::collections::{BTreeMap, BTreeSet};
use std::fmt;
use std::future::Future;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

use bytes::Bytes;
use futures_util::Stream;
use mcx::Kind;
use stream_download::source::{DecodeError, SourceStream, StreamOutcome};
use stream_download::storage::{StorageProvider, StorageReader, StorageWriter};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub enum Fault {
    /// an error item instead of a chunk; the stream continues
    ErrItem,
    /// an error item, and the chunk is lost: the stream ends there
    ErrThenEnd,
    /// no chunk until the source is reconnected or asked for a range
    Stall,
    /// a chunk of length zero
    EmptyChunk,
    /// the stream ends although the range is not complete
    EarlyEnd,
    SeekFail,
    /// seek_range does not answer before a later event
    SeekSlow,
    SeekStall,
    ReconnectFail,
    /// reconnect never answers (the timeout has to end it)
    ReconnectStall,
    WriteFail,
    FlushFail,
    WriterSeekFail,
    /// the storage accepts only one byte of a larger write
    PartialWrite,
    /// the storage accepts nothing once
    ZeroWrite,
    FinishFail,
    /// the source panics
    Panic,
    /// the runtime is shut down with the download task in it (not a choice: `Third::Shutdown`)
    Abort,
    ReaderFail,
    /// the storage returns one byte to a larger read
    ShortRead,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    // download task
    Chunk { pos: u64, len: u64 },
    EmptyChunk,
    ErrItem,
    EndItem { pos: u64, early: bool },
    Stalled { pos: u64 },
    SeekRange { start: u64, end: Option<u64>, stored: BTreeSet<u64> },
    SeekRangeRet { ok: bool },
    Reconnect { pos: u64, next_write: u64 },
    ReconnectRet { ok: bool },
    ReconnectDropped,
    ReconnectCallback,
    OnFinish { ok: bool, cancelled: bool },
    StreamDropped,
    /// the elapsed time in progress reports went backwards
    Backwards,
    /// the runtime is gone after `Fault::Abort`
    Gone,
    Write { pos: u64, offered: usize, accepted: usize, good: bool, unread: u64 },
    WriteErr,
    Flush,
    WriterSeek { to: u64 },
    Progress { phase: Phase, pos: u64, chunk: (u64, u64), stored: bool, contiguous_from: Option<u64> },
    Tick,
    /// virtual time from here on
    Time(Duration),
    // reader
    OpStart { i: usize },
    /// nothing can go on without the environment; the reader is inside this call
    Quiet { call: Call },
    Read { len: usize, pos: u64, got: Result<Vec<u8>, String>, stored: u64 },
    Seek { to: SeekFrom, pos: u64, got: Result<u64, String>, real: Option<u64> },
    Cancel,
    DropReader,
    ReaderDone,
    Completed,
    WaitDone { stream_dropped: bool },
    Fault(Fault),
    Leak,
    /// nothing can go on while the reader does not read: bytes in storage that are not read yet;
    /// some were read since the storage accepted nothing
    Idle { unread: u64, freed: bool },
    /// nothing can go on, but the stream beside this one is not finished
    Starved,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Call {
    Read { pos: u64, len: usize },
    Seek { to: u64 },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Phase {
    Prefetch(u64, usize),
    Download(usize),
    Complete,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub enum Store {
    Mem,
    /// memory whose writer keeps what it was given to itself until it is flushed or moved
    Lazy,
    Temp,
    Bounded(usize),
    BoundedTemp(usize),
    Adaptive(usize),
    AdaptiveTemp(usize),
}

impl Store {
    pub fn cap(self, known: Option<u64>) -> Option<usize> {
        match self {
            Store::Bounded(c) | Store::BoundedTemp(c) => Some(c),
            Store::Adaptive(c) | Store::AdaptiveTemp(c) if known.is_none() => Some(c),
            _ => None,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub enum Op {
    Read(usize),
    /// read with this buffer size until zero bytes are returned
    ReadToEnd(usize),
    Start(u64),
    Cur(i64),
    End(i64),
    Cancel,
    Drop,
    /// wait (without reading) until the download task has ended or cannot go on
    AwaitDownload,
}

/// What the download task reads from.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub enum Source {
    /// a source that does everything itself
    #[default]
    Scripted,
    /// the library's `HttpStream` with a scripted client: the server says that it accepts ranges,
    /// the server answers range requests with the whole content
    Http { accept: bool, whole: bool },
    /// the library's `AsyncReadStream` over a scripted reader
    Async,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct Spec {
    #[serde(default)]
    pub source: Source,
    pub len: u64,
    pub known: bool,
    pub seekable: bool,
    /// sizes of the chunks, the last one repeating
    pub chunks: Vec<u64>,
    /// chunks arrive one by one, only when nothing else can happen (or earlier at a cost)
    pub lazy: bool,
    pub faults: Vec<Fault>,
    pub fault_budget: u32,
    /// faults are no deviations: every combination within the budget is explored
    pub free_faults: bool,
    pub store: Store,
    pub prefetch: u64,
    pub batch: usize,
    pub program: Vec<Op>,
    /// a third thread: cancels, or waits for completion
    pub third: Third,
    pub cancel_on_drop: bool,
    pub bound: u32,
    pub weak: bool,
    pub early_timers: bool,
    /// scheduling points at storage operations
    pub storage_points: bool,
    pub cancel_points: bool,
    pub witness: bool,
    pub progress: bool,
    /// cancel from the progress callback at this report, or (0) from the reconnect callback
    pub cancel_in_callback: Option<u32>,
    /// what kind of errors there are (`ERRORS`)
    #[serde(default, skip_serializing_if = "is_zero")]
    pub error: u8,
    /// another stream on the same runtime
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub side: Option<Box<Spec>>,
}

pub const ERRORS: [io::ErrorKind; 6] = [
    io::ErrorKind::Other,
    io::ErrorKind::Interrupted,
    io::ErrorKind::StorageFull,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::WriteZero,
];

fn is_zero(x: &u8) -> bool {
    *x == 0
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub enum Third {
    None,
    Cancel,
    Wait,
    CancelAndWait,
    /// shuts the runtime down
    Shutdown,
}

impl Default for Spec {
    fn default() -> Self {
        Self {
            source: Source::Scripted,
            len: 6,
            known: true,
            seekable: true,
            chunks: vec![2],
            lazy: true,
            faults: vec![],
            fault_budget: 0,
            free_faults: false,
            store: Store::Mem,
            prefetch: 0,
            batch: 4096,
            program: vec![],
            third: Third::None,
            cancel_on_drop: true,
            bound: 1,
            weak: false,
            early_timers: false,
            storage_points: true,
            cancel_points: false,
            witness: false,
            progress: false,
            cancel_in_callback: None,
            error: 0,
            side: None,
        }
    }
}

pub fn byte(pos: u64) -> u8 {
    (pos % 251) as u8 + 1
}

#[derive(Default)]
pub struct Inner {
    pub log: Vec<Ev>,
    /// what the writer put at each absolute position
    pub stored: BTreeMap<u64, u8>,
    pub writer_pos: u64,
    pub reader_pos: u64,
    pub faults_left: u32,
    pub stream_dropped: bool,
    pub release: bool,
    /// bytes were read since the storage last accepted nothing
    pub freed: bool,
    pub main_waker: Option<Waker>,
    pub reader_done: bool,
    pub others_done: bool,
    pub awaiting: bool,
    pub idle_release: bool,
    pub start: Option<tokio::time::Instant>,
    pub now: Duration,
    pub tick: u64,
    pub tick_waker: Option<Waker>,
    pub tick_requested: bool,
    pub call: Option<Call>,
    pub reports: u32,
    /// this is the stream beside the main one
    pub beside: bool,
    /// a real source: the body of the current response has ended early
    pub net_early: bool,
    /// a real source: it is reconnecting at this position
    pub net_reconnect: Option<u64>,
}

#[derive(Clone)]
pub struct World(pub Arc<Mutex<Inner>>, pub Arc<Spec>);

impl World {
    pub fn new(spec: Arc<Spec>) -> Self {
        let inner = Inner {
            faults_left: spec.fault_budget,
            ..Inner::default()
        };
        Self(Arc::new(Mutex::new(inner)), spec)
    }
    pub fn get(&self) -> std::sync::MutexGuard<'_, Inner> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn log(&self, ev: Ev) {
        let mut g = self.get();
        let beside = g.beside;
        mcx::note(|| format!("{}{ev:?}", if beside { "beside: " } else { "" }));
        g.log.push(ev);
    }
    pub fn error(&self, what: &str) -> io::Error {
        io::Error::new(ERRORS[self.1.error as usize], what)
    }
    /// Lets the environment choose one of the enabled faults (cost 1 each), or none.
    pub fn fault(&self, among: &[Fault]) -> Option<Fault> {
        let opts: Vec<Fault> = {
            let g = self.get();
            if g.faults_left == 0 {
                return None;
            }
            among
                .iter()
                .copied()
                .filter(|f| self.1.faults.contains(f))
                .collect()
        };
        if opts.is_empty() {
            return None;
        }
        let cost = u32::from(!self.1.free_faults);
        let c = mcx::choose(Kind::Data, opts.len() + 1, cost);
        if c == 0 {
            return None;
        }
        let f = opts[c - 1];
        self.get().faults_left -= 1;
        self.log(Ev::Fault(f));
        Some(f)
    }
    fn elapsed(&self) -> Duration {
        let g = self.get();
        match g.start {
            Some(s) => tokio::time::Instant::now() - s,
            None => Duration::ZERO,
        }
    }
    /// Logs that virtual time went on (only on the download task's side).
    pub fn stamp(&self) {
        let t = self.elapsed();
        let mut g = self.get();
        if g.now != t {
            g.now = t;
            drop(g);
            self.log(Ev::Time(t));
        }
    }
    pub fn stored_map(&self) -> BTreeSet<u64> {
        self.get().stored.keys().copied().collect()
    }
    pub fn stream_dropped(&self) {
        self.log(Ev::StreamDropped);
        self.get().stream_dropped = true;
        self.check_release();
    }
    pub fn wake_main(&self) {
        let w = self.get().main_waker.take();
        if let Some(w) = w {
            w.wake();
        }
    }
    pub fn finished(&self) -> bool {
        let g = self.get();
        g.reader_done && g.others_done && g.stream_dropped
    }
    pub fn check_release(&self) {
        {
            let mut g = self.get();
            if !(g.reader_done && g.others_done && g.stream_dropped) {
                return;
            }
            g.release = true;
        }
        self.wake_main();
    }
}

/// Resolves when the execution may be torn down.
pub struct Released(pub World);
impl Future for Released {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let mut g = self.0.get();
        if g.release {
            Poll::Ready(())
        } else {
            g.main_waker = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}

#[derive(Debug)]
pub struct SrcErr;
impl fmt::Display for SrcErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("scripted error")
    }
}
impl std::error::Error for SrcErr {}
impl DecodeError for SrcErr {}

/// The event of the environment that the source waits for.
#[derive(Default)]
pub struct Gate {
    armed: bool,
    open: bool,
    waker: Option<Waker>,
}

pub struct Scripted {
    w: World,
    pos: u64,
    end: u64,
    chunk_i: usize,
    stalled: bool,
    ended_early: bool,
    gate: Arc<Mutex<Gate>>,
    /// only the body of a response: somebody else says what happens
    raw: bool,
}

/// Waits for an event of the environment.
pub fn poll_gate(gate: &Arc<Mutex<Gate>>, world: &World, label: &'static str, cx: &mut Context<'_>) -> Poll<()> {
    let mut g = gate.lock().unwrap();
    if g.open {
        g.open = false;
        g.armed = false;
        return Poll::Ready(());
    }
    g.waker = Some(cx.waker().clone());
    if !g.armed {
        g.armed = true;
        let gate = gate.clone();
        let world = world.clone();
        mcx::add_event(label, 0, move || {
            if mcx::quiescent() {
                let call = world.get().call;
                if let Some(call) = call {
                    world.log(Ev::Quiet { call });
                }
            }
            let w = {
                let mut g = gate.lock().unwrap();
                g.open = true;
                g.waker.take()
            };
            if let Some(w) = w {
                w.wake();
            }
        });
    }
    Poll::Pending
}

impl Scripted {
    /// The body of a response.
    pub fn body(w: World, pos: u64, end: u64) -> Self {
        w.get().net_early = false;
        Self {
            w,
            pos,
            end,
            chunk_i: 0,
            stalled: false,
            ended_early: false,
            gate: Arc::default(),
            raw: true,
        }
    }
    fn poll_gate(&self, label: &'static str, cx: &mut Context<'_>) -> Poll<()> {
        poll_gate(&self.gate, &self.w, label, cx)
    }
    fn log(&self, ev: Ev) {
        if !self.raw {
            self.w.log(ev);
        }
    }
    fn end_early(&mut self) {
        self.ended_early = true;
        if self.raw {
            self.w.get().net_early = true;
        }
    }
    fn next_len(&mut self) -> u64 {
        let c = &self.w.1.chunks;
        let l = c[self.chunk_i.min(c.len() - 1)];
        self.chunk_i += 1;
        l.min(self.end - self.pos)
    }
}

impl Drop for Scripted {
    fn drop(&mut self) {
        if !self.raw {
            self.w.stream_dropped();
        }
    }
}

impl Stream for Scripted {
    type Item = Result<Bytes, SrcErr>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        self.w.stamp();
        if self.stalled {
            return Poll::Pending;
        }
        let w = self.w.clone();
        let at_end = self.pos >= self.end || self.ended_early;
        if w.1.lazy && self.poll_gate("chunk", cx).is_pending() {
            return Poll::Pending;
        }
        if at_end {
            self.log(Ev::EndItem { pos: self.pos, early: self.ended_early });
            return Poll::Ready(None);
        }
        match w.fault(&[
            Fault::ErrItem,
            Fault::ErrThenEnd,
            Fault::Stall,
            Fault::EmptyChunk,
            Fault::EarlyEnd,
            Fault::Panic,
        ]) {
            Some(Fault::ErrItem) => {
                self.log(Ev::ErrItem);
                return Poll::Ready(Some(Err(SrcErr)));
            }
            Some(Fault::ErrThenEnd) => {
                self.log(Ev::ErrItem);
                self.end_early();
                return Poll::Ready(Some(Err(SrcErr)));
            }
            Some(Fault::Stall) => {
                w.log(Ev::Stalled { pos: self.pos });
                self.stalled = true;
                return Poll::Pending;
            }
            Some(Fault::EmptyChunk) => {
                self.log(Ev::EmptyChunk);
                return Poll::Ready(Some(Ok(Bytes::new())));
            }
            Some(Fault::EarlyEnd) => {
                self.end_early();
                self.log(Ev::EndItem { pos: self.pos, early: true });
                return Poll::Ready(None);
            }
            Some(Fault::Panic) => panic!("scripted panic"),
            _ => {}
        }
        let n = self.next_len();
        let b: Vec<u8> = (self.pos..self.pos + n).map(byte).collect();
        self.log(Ev::Chunk { pos: self.pos, len: n });
        self.pos += n;
        Poll::Ready(Some(Ok(Bytes::from(b))))
    }
}

impl SourceStream for Scripted {
    type Params = World;
    type StreamCreationError = SrcErr;

    async fn create(w: World) -> Result<Self, SrcErr> {
        let end = w.1.len;
        Ok(Self {
            w,
            pos: 0,
            end,
            chunk_i: 0,
            stalled: false,
            ended_early: false,
            gate: Arc::default(),
            raw: false,
        })
    }

    fn content_length(&self) -> Option<u64> {
        self.w.1.known.then_some(self.w.1.len)
    }

    async fn seek_range(&mut self, start: u64, end: Option<u64>) -> io::Result<()> {
        let w = self.w.clone();
        w.stamp();
        w.log(Ev::SeekRange {
            start,
            end,
            stored: w.stored_map(),
        });
        match w.fault(&[Fault::SeekFail, Fault::SeekSlow, Fault::SeekStall, Fault::Panic]) {
            Some(Fault::Panic) => panic!("scripted panic"),
            Some(Fault::SeekFail) => {
                w.log(Ev::SeekRangeRet { ok: false });
                return Err(w.error("scripted seek failure"));
            }
            Some(Fault::SeekSlow) => {
                *self.gate.lock().unwrap() = Gate::default();
                futures_util::future::poll_fn(|cx| self.poll_gate("seek answer", cx)).await;
            }
            Some(Fault::SeekStall) => {
                std::future::pending::<()>().await;
            }
            _ => {}
        }
        self.pos = start.min(w.1.len);
        self.end = end.unwrap_or(w.1.len).min(w.1.len).max(self.pos);
        self.stalled = false;
        self.ended_early = false;
        // an event that was armed for the previous connection is harmless: it only opens early
        w.log(Ev::SeekRangeRet { ok: true });
        Ok(())
    }

    async fn reconnect(&mut self, current_position: u64) -> io::Result<()> {
        let w = self.w.clone();
        let next_write = w.get().writer_pos;
        w.stamp();
        w.log(Ev::Reconnect {
            pos: current_position,
            next_write,
        });
        struct D(World, bool);
        impl Drop for D {
            fn drop(&mut self) {
                if !self.1 {
                    self.0.stamp();
                    self.0.log(Ev::ReconnectDropped);
                }
            }
        }
        let mut d = D(w.clone(), false);
        match w.fault(&[Fault::ReconnectFail, Fault::ReconnectStall, Fault::Panic]) {
            Some(Fault::Panic) => panic!("scripted panic"),
            Some(Fault::ReconnectFail) => {
                d.1 = true;
                w.log(Ev::ReconnectRet { ok: false });
                return Err(w.error("scripted reconnect failure"));
            }
            Some(Fault::ReconnectStall) => {
                std::future::pending::<()>().await;
            }
            _ => {}
        }
        d.1 = true;
        self.pos = current_position.min(w.1.len);
        self.end = w.1.len;
        self.stalled = false;
        self.ended_early = false;
        w.log(Ev::ReconnectRet { ok: true });
        Ok(())
    }

    fn supports_seek(&self) -> bool {
        self.w.1.seekable
    }

    async fn on_finish(&mut self, result: io::Result<()>, outcome: StreamOutcome) -> io::Result<()> {
        self.w.log(Ev::OnFinish {
            ok: result.is_ok(),
            cancelled: outcome == StreamOutcome::CancelledByUser,
        });
        match self.w.fault(&[Fault::FinishFail, Fault::Panic]) {
            Some(Fault::Panic) => panic!("scripted panic"),
            Some(_) => Err(self.w.error("scripted finish failure")),
            None => result,
        }
    }
}

// ---------------------------------------------------------------------------------------------
// storage

pub type BoxReader = Box<dyn StorageReader>;
pub type BoxWriter = Box<dyn StorageWriter>;

pub struct LogProvider {
    pub w: World,
    pub cap: Option<usize>,
    #[allow(clippy::type_complexity)]
    pub make: Box<dyn FnOnce(Option<u64>) -> io::Result<(BoxReader, BoxWriter)> + Send>,
}

impl LogProvider {
    pub fn wrap<P: StorageProvider + 'static>(w: World, p: P) -> Self
    where
        P::Reader: 'static,
    {
        let cap = provider_capacity(&p, w.1.known.then_some(w.1.len));
        Self {
            w,
            cap,
            make: Box::new(move |l| {
                let (r, w) = p.into_reader_writer(l)?;
                Ok((Box::new(r) as BoxReader, Box::new(w) as BoxWriter))
            }),
        }
    }
}

pub fn provider_capacity<P: StorageProvider>(p: &P, len: Option<u64>) -> Option<usize> {
    p.max_capacity_for(len)
}

pub struct LogReader {
    w: World,
    inner: BoxReader,
}
pub struct LogWriter {
    w: World,
    inner: BoxWriter,
    pos: u64,
}

impl StorageProvider for LogProvider {
    type Reader = LogReader;
    type Writer = LogWriter;
    fn into_reader_writer(self, len: Option<u64>) -> io::Result<(LogReader, LogWriter)> {
        let (r, w) = (self.make)(len)?;
        Ok((
            LogReader {
                w: self.w.clone(),
                inner: r,
            },
            LogWriter {
                w: self.w,
                inner: w,
                pos: 0,
            },
        ))
    }
    fn max_capacity(&self) -> Option<usize> {
        self.cap
    }
}

impl Read for LogReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.w.1.storage_points {
            mcx::point(Kind::Storage, 0);
        }
        let mut buf = buf;
        match self.w.fault(&[Fault::ReaderFail, Fault::ShortRead]) {
            Some(Fault::ReaderFail) => return Err(self.w.error("scripted storage read failure")),
            Some(_) if buf.len() > 1 => buf = &mut buf[..1],
            _ => {}
        }
        let r = self.inner.read(buf);
        if let Ok(n) = r {
            // the moment the bytes are consumed (the log entry of the operation comes later)
            let mut g = self.w.get();
            g.reader_pos += n as u64;
            g.freed |= n > 0;
        }
        r
    }
}
impl Seek for LogReader {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let r = self.inner.seek(p);
        if let Ok(n) = r {
            self.w.get().reader_pos = n;
        }
        r
    }
}

impl Write for LogWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.w.1.storage_points {
            mcx::point(Kind::Storage, 1);
        }
        let mut offered = buf;
        if !buf.is_empty() {
            match self.w.fault(&[Fault::WriteFail, Fault::PartialWrite, Fault::ZeroWrite, Fault::Panic]) {
                Some(Fault::Panic) => panic!("scripted panic"),
                Some(Fault::WriteFail) => {
                    self.w.log(Ev::WriteErr);
                    return Err(self.w.error("scripted write failure"));
                }
                Some(Fault::PartialWrite) => offered = &buf[..1],
                Some(Fault::ZeroWrite) => {
                    self.w.get().freed = false;
                    self.w.log(Ev::Write { pos: self.pos, offered: buf.len(), accepted: 0, good: true, unread: 0 });
                    return Ok(0);
                }
                _ => {}
            }
        }
        let n = match self.inner.write(offered) {
            Ok(n) => n,
            Err(e) => {
                self.w.log(Ev::WriteErr);
                return Err(e);
            }
        };
        let pos = self.pos;
        let mut good = true;
        let mut g = self.w.get();
        for (i, b) in buf[..n].iter().enumerate() {
            let p = pos + i as u64;
            good &= *b == byte(p) && p < self.w.1.len;
            g.stored.insert(p, *b);
        }
        self.pos += n as u64;
        g.writer_pos = self.pos;
        g.tick_requested = true;
        let tw = g.tick_waker.take();
        if n == 0 {
            g.freed = false;
        }
        let unread = self.pos.saturating_sub(g.reader_pos);
        drop(g);
        if let Some(tw) = tw {
            tw.wake();
        }
        self.w.log(Ev::Write {
            pos,
            offered: buf.len(),
            accepted: n,
            good,
            unread,
        });
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.w.fault(&[Fault::FlushFail]).is_some() {
            return Err(self.w.error("scripted flush failure"));
        }
        self.inner.flush()
    }
}
impl Seek for LogWriter {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        // stream_position() is a seek by zero: not a position change
        let query = p == SeekFrom::Current(0);
        if !query && self.w.fault(&[Fault::WriterSeekFail]).is_some() {
            return Err(self.w.error("scripted storage seek failure"));
        }
        let r = self.inner.seek(p)?;
        if !query {
            self.pos = r;
            self.w.get().writer_pos = r;
            self.w.log(Ev::WriterSeek { to: r });
        }
        Ok(r)
    }
}

/// Logs that it was polled after the storage was written to.
pub struct Witness(pub World);
impl Future for Witness {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let mut g = self.0.get();
        if g.release {
            return Poll::Ready(());
        }
        let req = std::mem::take(&mut g.tick_requested);
        g.tick_waker = Some(cx.waker().clone());
        drop(g);
        if req {
            self.0.log(Ev::Tick);
        }
        Poll::Pending
    }
}

// ---------------------------------------------------------------------------------------------
// a storage that buffers writes

pub struct LazyWriter {
    inner: BoxWriter,
    pos: u64,
    pending: Vec<u8>,
}

impl LazyWriter {
    pub fn new(inner: BoxWriter) -> Self {
        Self { inner, pos: 0, pending: vec![] }
    }
}

impl Write for LazyWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.pending.extend_from_slice(buf);
        self.pos += buf.len() as u64;
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        let p = std::mem::take(&mut self.pending);
        self.inner.write_all(&p)?;
        self.inner.flush()
    }
}

impl Seek for LazyWriter {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        if p == SeekFrom::Current(0) {
            return Ok(self.pos);
        }
        self.flush()?;
        self.pos = self.inner.seek(p)?;
        Ok(self.pos)
    }
}
