//! C25: every sequence of builder calls, observed on a running stream.

use std::io::{self, Read, Seek, SeekFrom, Write};
use std::num::NonZeroUsize;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;

use bytes::Bytes;
use futures_util::Stream;
use serde::{Deserialize, Serialize};
use stream_download::source::{SourceStream, StreamOutcome};
use stream_download::storage::StorageProvider;
use stream_download::storage::memory::{MemoryStorage, MemoryStorageProvider};
use stream_download::{Settings, StreamDownload, StreamPhase};
use tokio::time::Instant;

use crate::bad;
use crate::ctl::{Res, choose, note, saw, step};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Build {
    pub ops: Vec<Op>,
    pub depth: usize,
    /// time really passes while the source reconnects
    pub slow: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    Prefetch(u64),
    Batch(usize),
    Retry(u64),
    CancelOnDrop(bool),
    Progress(u8),
    Reconnect(u8),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Model {
    prefetch: u64,
    batch: usize,
    /// milliseconds
    retry: u64,
    cancel: bool,
    progress: Option<u8>,
    reconnect: Option<u8>,
}

const DEFAULT: Model = Model { prefetch: 262_144, batch: 4096, retry: 5000, cancel: true, progress: None, reconnect: None };
const SLOW: Duration = Duration::from_millis(1);
const CHUNK: usize = 20_000;
const CHUNKS: usize = 16;
/// before these chunks nothing comes until the source is reconnected
const STALLS: [usize; 2] = [0, 14];

#[derive(Default)]
struct Log {
    writes: Vec<usize>,
    stalls: Vec<(Instant, Option<Instant>)>,
    reports: Vec<(u8, StreamPhase, Duration)>,
    reconnects: Vec<u8>,
    finish: Vec<StreamOutcome>,
    dropped: bool,
    got: usize,
}

type Sh = Arc<Mutex<Log>>;

struct Src {
    log: Sh,
    i: usize,
    stalled: bool,
    passed: usize,
    slow: bool,
}

impl Drop for Src {
    fn drop(&mut self) {
        self.log.lock().unwrap().dropped = true;
    }
}

impl Stream for Src {
    type Item = io::Result<Bytes>;
    fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<io::Result<Bytes>>> {
        if self.stalled {
            return Poll::Pending;
        }
        if STALLS.get(self.passed) == Some(&self.i) {
            self.stalled = true;
            self.log.lock().unwrap().stalls.push((Instant::now(), None));
            return Poll::Pending;
        }
        if self.i == CHUNKS {
            return Poll::Ready(None);
        }
        self.i += 1;
        self.log.lock().unwrap().got += CHUNK;
        Poll::Ready(Some(Ok(Bytes::from(vec![7; CHUNK]))))
    }
}

impl SourceStream for Src {
    type Params = (Sh, bool);
    type StreamCreationError = std::convert::Infallible;
    async fn create((log, slow): (Sh, bool)) -> Result<Self, Self::StreamCreationError> {
        Ok(Src { log, i: 0, stalled: false, passed: 0, slow })
    }
    fn content_length(&self) -> Option<u64> {
        None
    }
    async fn seek_range(&mut self, _: u64, _: Option<u64>) -> io::Result<()> {
        Err(io::ErrorKind::Unsupported.into())
    }
    async fn reconnect(&mut self, _: u64) -> io::Result<()> {
        if let Some(s) = self.log.lock().unwrap().stalls.last_mut() {
            s.1 = Some(Instant::now());
        }
        if self.slow {
            std::thread::sleep(SLOW);
        }
        self.stalled = false;
        self.passed += 1;
        Ok(())
    }
    fn supports_seek(&self) -> bool {
        false
    }
    async fn on_finish(&mut self, r: io::Result<()>, o: StreamOutcome) -> io::Result<()> {
        self.log.lock().unwrap().finish.push(o);
        r
    }
}

struct Provider(Sh);
struct Writer(MemoryStorage, Sh);
impl StorageProvider for Provider {
    type Reader = MemoryStorage;
    type Writer = Writer;
    fn into_reader_writer(self, l: Option<u64>) -> io::Result<(MemoryStorage, Writer)> {
        let (r, w) = MemoryStorageProvider.into_reader_writer(l)?;
        Ok((r, Writer(w, self.0)))
    }
}
impl Write for Writer {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.1.lock().unwrap().writes.push(b.len());
        self.0.write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.flush()
    }
}
impl Seek for Writer {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.0.seek(p)
    }
}

fn apply(s: Settings<Src>, op: Op, log: &Sh) -> Settings<Src> {
    match op {
        Op::Prefetch(n) => s.prefetch_bytes(n),
        Op::Batch(n) => s.batch_write_size(NonZeroUsize::new(n).expect("batch")),
        Op::Retry(n) => s.retry_timeout(Duration::from_millis(n)),
        Op::CancelOnDrop(b) => s.cancel_on_drop(b),
        Op::Progress(id) => {
            let log = log.clone();
            s.on_progress(move |_: &Src, state, _| log.lock().unwrap().reports.push((id, state.phase, state.elapsed)))
        }
        Op::Reconnect(id) => {
            let log = log.clone();
            s.on_reconnect(move |_: &Src, _| log.lock().unwrap().reconnects.push(id))
        }
    }
}

fn model(m: &mut Model, op: Op) {
    match op {
        Op::Prefetch(n) => m.prefetch = n,
        Op::Batch(n) => m.batch = n,
        Op::Retry(n) => m.retry = n,
        Op::CancelOnDrop(b) => m.cancel = b,
        Op::Progress(id) => m.progress = Some(id),
        Op::Reconnect(id) => m.reconnect = Some(id),
    }
}

fn canonical(m: Model) -> Settings<Src> {
    Settings::default()
        .retry_timeout(Duration::from_millis(m.retry))
        .cancel_on_drop(m.cancel)
        .batch_write_size(NonZeroUsize::new(m.batch).expect("batch"))
        .prefetch_bytes(m.prefetch)
}

pub fn run(s: &Build) -> Res {
    let log: Sh = Arc::default();
    let mut m = DEFAULT;
    let mut st = Settings::<Src>::default();
    for _ in 0..s.depth {
        let i = choose(s.ops.len() + 1);
        let Some(op) = s.ops.get(i).copied() else { break };
        step();
        st = apply(st, op, &log);
        model(&mut m, op);
        saw(op);
    }
    // watch the phases
    if m.progress.is_none() && choose(2) == 1 {
        st = apply(st, Op::Progress(9), &log);
        m.progress = Some(9);
    }
    if st.get_prefetch_bytes() != m.prefetch || st.get_write_batch_size() != m.batch {
        bad!("getters", "getters give {} and {}, {m:?}", st.get_prefetch_bytes(), st.get_write_batch_size());
    }
    if st != canonical(m) {
        bad!("equality", "{st:?} is not equal to {:?}", canonical(m));
    }
    for other in [
        Model { prefetch: m.prefetch + 1, ..m },
        Model { batch: m.batch + 1, ..m },
        Model { retry: m.retry + 1, ..m },
        Model { cancel: !m.cancel, ..m },
    ] {
        if st == canonical(other) {
            bad!("equality", "{st:?} is equal to {:?}", canonical(other));
        }
    }
    // dropped in the second stall, or kept
    let drop_it = choose(2) == 1;
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().expect("runtime");
    step();
    let (data, done) = rt.block_on(async {
        let mut sd = StreamDownload::new::<Src>((log.clone(), s.slow), Provider(log.clone()), st).await.expect("open");
        let handle = sd.handle();
        let mut left = 10_000_000;
        while log.lock().unwrap().stalls.len() < 2 && left > 0 {
            tokio::time::sleep(Duration::from_millis(1)).await;
            left -= 1;
        }
        let mut data = None;
        let done = if drop_it {
            drop(sd);
            tokio::task::yield_now().await;
            tokio::time::timeout(Duration::from_secs(3600 * 24), handle.wait_for_completion()).await.is_ok()
        } else {
            let done = tokio::time::timeout(Duration::from_secs(3600 * 24), handle.wait_for_completion()).await.is_ok();
            let mut v = vec![];
            if done {
                data = Some(sd.read_to_end(&mut v).map(|n| (n, v.iter().all(|b| *b == 7))));
            }
            done
        };
        (data, done)
    });
    drop(rt);
    let l = log.lock().unwrap();
    note(|| format!("{m:?} drop {drop_it}: stalls {:?} writes {} reports {}", l.stalls, l.writes.len(), l.reports.len()));
    if !done {
        bad!("never", "the download did not end, {m:?}");
    }
    let cancelled = drop_it && m.cancel;
    let want = if cancelled { StreamOutcome::CancelledByUser } else { StreamOutcome::Completed };
    if l.finish != [want] || !l.dropped {
        bad!("drop", "dropping the reader ({drop_it}) with {m:?} ended with {:?}", l.finish);
    }
    if let Some(data) = data
        && !matches!(data, Ok((n, true)) if n == CHUNK * CHUNKS)
    {
        bad!("data", "read {data:?}");
    }
    // batches
    let chunks = l.got / CHUNK;
    if chunks > 0 && l.writes.iter().max() != Some(&m.batch) {
        bad!("batch", "{} writes of up to {:?} bytes for {chunks} chunks, {m:?}", l.writes.len(), l.writes.iter().max());
    }
    // reconnects
    let expected = if cancelled { 1 } else { 2 };
    for (i, (from, to)) in l.stalls.iter().enumerate() {
        let after = to.map(|t| t - *from);
        if i < expected && after != Some(Duration::from_millis(m.retry)) {
            bad!("retry", "reconnect after {after:?}, {m:?}");
        }
        if i >= expected && after.is_some() {
            bad!("retry", "reconnect after the download was cancelled");
        }
    }
    let ids = vec![m.reconnect; expected];
    if l.reconnects.iter().map(|i| Some(*i)).collect::<Vec<_>>() != if m.reconnect.is_some() { ids } else { vec![] } {
        bad!("on-reconnect", "reconnect callbacks {:?}, {m:?}", l.reconnects);
    }
    // reports
    match m.progress {
        None => {
            if !l.reports.is_empty() {
                bad!("on-progress", "{} reports without a callback", l.reports.len());
            }
        }
        Some(id) => {
            if l.reports.iter().any(|r| r.0 != id) || l.reports.len() < chunks {
                bad!("on-progress", "{} reports to {:?} for {chunks} chunks, {m:?}", l.reports.len(), l.reports.first().map(|r| r.0));
            }
            let prefetching = l.reports.iter().filter(|r| matches!(r.1, StreamPhase::Prefetching { .. })).count();
            if prefetching != (m.prefetch as usize).div_ceil(CHUNK) {
                bad!("prefetch", "{prefetching} chunks of {CHUNK} bytes were prefetched, {m:?}");
            }
            for r in &l.reports {
                if let StreamPhase::Prefetching { target, .. } = r.1
                    && target != m.prefetch
                {
                    bad!("prefetch", "prefetch target {target}, {m:?}");
                }
            }
            let mut last = Duration::ZERO;
            for r in &l.reports {
                if r.2 < last {
                    bad!("elapsed", "{:?} passed, and later only {:?}", last, r.2);
                }
                last = r.2;
            }
            let first = l.reports.first().map_or(last, |r| r.2);
            if s.slow && !cancelled && last - first < SLOW {
                bad!("elapsed", "the reports are {:?} apart, but {SLOW:?} passed in between", last - first);
            }
        }
    }
    Ok(())
}

pub fn specs(deep: bool) -> Vec<Build> {
    use Op::*;
    let ops = vec![
        Prefetch(0), Prefetch(70_000), Batch(100), Batch(5000), Retry(20), Retry(1500), Retry(40_000), CancelOnDrop(false), CancelOnDrop(true), Progress(1), Progress(2),
        Reconnect(1), Reconnect(2),
    ];
    // every order of all six
    let all = vec![Prefetch(70_000), Batch(100), Retry(750), CancelOnDrop(false), Progress(1), Reconnect(1)];
    vec![Build { ops, depth: if deep { 5 } else { 3 }, slow: false }, Build { ops: all, depth: if deep { 6 } else { 4 }, slow: true }]
}
