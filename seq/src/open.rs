//! C26: every way of opening a stream, and what can be done with what it returns.

use std::fmt;
use std::future::Future;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::num::NonZeroUsize;
use std::path::PathBuf;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

use bytes::Bytes;
use futures_util::Stream;
use serde::{Deserialize, Serialize};
use stream_download::source::{DecodeError, SourceStream, StreamOutcome};
use stream_download::storage::adaptive::AdaptiveStorageProvider;
use stream_download::storage::bounded::BoundedStorageProvider;
use stream_download::storage::memory::MemoryStorageProvider;
use stream_download::storage::temp::{TempStorageProvider, tempfile};
use stream_download::storage::{StorageProvider, StorageReader, StorageWriter};
use stream_download::{Settings, StreamDownload, StreamInitializationError};

use crate::ctl::{Bad, Res, choose, note, pick, saw, step};
use crate::bad;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Open {
    pub way: Way,
    pub len: Option<u64>,
    pub store: Store,
    /// bytes the source delivers before it ends, or for ever waits
    pub gives: usize,
    pub ends: bool,
    /// what is done with the reader afterwards
    pub depth: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Way {
    New,
    FromStream,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Store {
    Mem,
    TempIn,
    TempPrefix,
    TempBuilder,
    TempMissingDir,
    TempFails,
    Bounded(usize),
    BoundedFails(usize),
    /// (fails when small, fails when large), buffer
    Adaptive(bool, bool, usize),
    Custom,
    CustomFails,
}


#[derive(Default, Debug)]
struct Log {
    created: u32,
    polled: u32,
    dropped: u32,
    finish: Vec<StreamOutcome>,
    asked: Vec<Option<u64>>,
}
type Sh = Arc<Mutex<Log>>;

#[derive(Debug)]
struct NoSource(u32);
impl fmt::Display for NoSource {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "no source {}", self.0)
    }
}
impl std::error::Error for NoSource {}
impl DecodeError for NoSource {
    async fn decode_error(self) -> String {
        crate::aio::yield_once().await;
        format!("decoded {}", self.0)
    }
}

struct Params {
    log: Sh,
    spec: Open,
    fail: bool,
    late: bool,
}

struct Src {
    log: Sh,
    spec: Open,
    given: usize,
}
impl Drop for Src {
    fn drop(&mut self) {
        self.log.lock().unwrap().dropped += 1;
    }
}
impl Stream for Src {
    type Item = io::Result<Bytes>;
    fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<io::Result<Bytes>>> {
        self.log.lock().unwrap().polled += 1;
        if self.given < self.spec.gives {
            self.given += 1;
            return Poll::Ready(Some(Ok(Bytes::from(vec![self.given as u8]))));
        }
        if self.spec.ends { Poll::Ready(None) } else { Poll::Pending }
    }
}
impl SourceStream for Src {
    type Params = Params;
    type StreamCreationError = NoSource;
    async fn create(p: Params) -> Result<Self, NoSource> {
        if p.late {
            tokio::task::yield_now().await;
        }
        if p.fail {
            return Err(NoSource(7));
        }
        p.log.lock().unwrap().created += 1;
        Ok(Src { log: p.log, spec: p.spec, given: 0 })
    }
    fn content_length(&self) -> Option<u64> {
        self.spec.len
    }
    async fn seek_range(&mut self, _: u64, _: Option<u64>) -> io::Result<()> {
        Err(io::ErrorKind::Unsupported.into())
    }
    async fn reconnect(&mut self, _: u64) -> io::Result<()> {
        Ok(())
    }
    fn supports_seek(&self) -> bool {
        false
    }
    async fn on_finish(&mut self, r: io::Result<()>, o: StreamOutcome) -> io::Result<()> {
        self.log.lock().unwrap().finish.push(o);
        r
    }
}

type R = Box<dyn StorageReader>;
type W = Box<dyn StorageWriter>;

/// Counts what the storage provider is asked for.
struct Watch {
    log: Sh,
    cap: Box<dyn Fn(Option<u64>) -> Option<usize> + Send>,
    #[expect(clippy::type_complexity)]
    make: Box<dyn FnOnce(Option<u64>) -> io::Result<(R, W)> + Send>,
}
impl Watch {
    fn new<P: StorageProvider + Clone + 'static>(log: &Sh, p: P) -> Self
    where
        P::Reader: 'static,
        P: Sync,
    {
        let q = p.clone();
        Watch {
            log: log.clone(),
            cap: Box::new(move |l| q.max_capacity_for(l)),
            make: Box::new(move |l| {
                let (r, w) = p.into_reader_writer(l)?;
                Ok((Box::new(r) as R, Box::new(w) as W))
            }),
        }
    }
}
struct BR(R);
struct BW(W);
impl Read for BR {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.0.read(b)
    }
}
impl Seek for BR {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.0.seek(p)
    }
}
impl Write for BW {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.flush()
    }
}
impl Seek for BW {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.0.seek(p)
    }
}
impl StorageProvider for Watch {
    type Reader = BR;
    type Writer = BW;
    fn into_reader_writer(self, l: Option<u64>) -> io::Result<(BR, BW)> {
        self.log.lock().unwrap().asked.push(l);
        let (r, w) = (self.make)(l)?;
        Ok((BR(r), BW(w)))
    }
    fn max_capacity_for(&self, l: Option<u64>) -> Option<usize> {
        (self.cap)(l)
    }
}

struct Dir(PathBuf);
impl Dir {
    fn new() -> Self {
        static N: AtomicU64 = AtomicU64::new(0);
        let d = PathBuf::from(crate::storage::scratch()).join(format!("open-{}", N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).expect("scratch");
        Dir(d)
    }
    fn files(&self) -> Vec<String> {
        let mut v: Vec<String> = std::fs::read_dir(&self.0).expect("scratch").map(|e| e.expect("entry").file_name().to_string_lossy().into_owned()).collect();
        v.sort();
        v
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn provider(s: &Open, log: &Sh, dir: &Dir) -> Watch {
    let nz = |n| NonZeroUsize::new(n).expect("size");
    let fails = || TempStorageProvider::with_tempfile_builder(|| Err(io::Error::new(io::ErrorKind::PermissionDenied, "no room")));
    let d = dir.0.clone();
    let temp = TempStorageProvider::new_in(dir.0.clone());
    match s.store {
        Store::Mem => Watch::new(log, MemoryStorageProvider),
        Store::TempIn => Watch::new(log, temp),
        Store::TempPrefix => Watch::new(log, TempStorageProvider::with_prefix_in("pre-", dir.0.clone())),
        Store::TempBuilder => Watch::new(log, TempStorageProvider::with_tempfile_builder(move || tempfile::Builder::new().suffix("-suf").tempfile_in(&d))),
        Store::TempMissingDir => Watch::new(log, TempStorageProvider::new_in(dir.0.join("missing"))),
        Store::TempFails => Watch::new(log, fails()),
        Store::Bounded(n) => Watch::new(log, BoundedStorageProvider::new(temp, nz(n))),
        Store::BoundedFails(n) => Watch::new(log, BoundedStorageProvider::new(fails(), nz(n))),
        Store::Adaptive(a, b, n) => {
            let p = |f: bool| if f { fails() } else { TempStorageProvider::new_in(dir.0.clone()) };
            Watch::new(log, AdaptiveStorageProvider::with_fixed_and_variable(p(a), p(b), nz(n)))
        }
        Store::Custom => Watch::new(log, MemoryStorageProvider),
        Store::CustomFails => Watch {
            log: log.clone(),
            cap: Box::new(|_| None),
            make: Box::new(|_| Err(io::Error::new(io::ErrorKind::StorageFull, "no room"))),
        },
    }
}

/// Why the storage cannot be created: the kind of error and part of its text.
fn no_storage(s: &Open) -> Option<(Option<io::ErrorKind>, &'static str)> {
    match s.store {
        Store::Mem | Store::Custom if s.len.is_some_and(|l| l > isize::MAX as u64) => Some((None, "")),
        Store::TempMissingDir => Some((Some(io::ErrorKind::NotFound), "")),
        Store::TempFails | Store::BoundedFails(_) => Some((Some(io::ErrorKind::PermissionDenied), "no room")),
        // up to the buffer size, or unknown: the bounded one in a fixed buffer
        Store::Adaptive(a, b, n) => {
            let fixed = s.len.is_none_or(|l| l <= n as u64);
            (if fixed { a } else { b }).then_some((Some(io::ErrorKind::PermissionDenied), "no room"))
        }
        Store::CustomFails => Some((Some(io::ErrorKind::StorageFull), "no room")),
        _ => None,
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Do {
    Handle,
    CloneHandle,
    Token,
    CancelReader,
    CancelToken,
    DropReader,
    DropHandles,
}

/// Runs the tasks until nothing happens any more.
async fn settle() {
    for _ in 0..60 {
        tokio::task::yield_now().await;
    }
}

pub fn run(s: &Open) -> Res {
    let log: Sh = Arc::default();
    let dir = Dir::new();
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().expect("runtime");
    let res = rt.block_on(go(s, &log, &dir));
    drop(rt);
    res?;
    let l = log.lock().unwrap();
    if l.dropped != l.created {
        bad!("leak", "{} sources created, {} dropped", l.created, l.dropped);
    }
    if !dir.files().is_empty() {
        bad!("files", "files left: {:?}", dir.files());
    }
    Ok(())
}

async fn go(s: &Open, log: &Sh, dir: &Dir) -> Res {
    let cancel_on_drop = choose(2) == 0;
    let st = Settings::default().prefetch_bytes(0).cancel_on_drop(cancel_on_drop);
    let p = provider(s, log, dir);
    let fail = s.way == Way::New && choose(2) == 1;
    let params = Params { log: log.clone(), spec: s.clone(), fail, late: choose(2) == 1 };
    step();
    let res = match s.way {
        Way::New => StreamDownload::new::<Src>(params, p, st).await,
        Way::FromStream => {
            let src = Src::create(params).await.map_err(|_| Bad { sig: "harness", what: "create".into() })?;
            StreamDownload::from_stream(src, p, st).await
        }
    };
    let tasks = tokio::runtime::Handle::current().metrics().num_alive_tasks();
    saw((res.is_ok(), fail, s));
    let storage = no_storage(s);
    let sd = match res {
        Ok(sd) => {
            if fail || storage.is_some() {
                bad!("opened", "opening succeeded although the source or the storage could not be created");
            }
            sd
        }
        Err(e) => {
            note(|| format!("{e:?} / {e}"));
            let text = e.to_string();
            match &e {
                StreamInitializationError::StreamCreationFailure(_) => {
                    if !fail || !text.contains("no source 7") {
                        bad!("error", "{text}, but the source {}", if fail { "failed with 'no source 7'" } else { "was created" });
                    }
                    if !log.lock().unwrap().asked.is_empty() {
                        bad!("order", "storage was created without a source");
                    }
                }
                StreamInitializationError::StorageCreationFailure(e) => {
                    let Some((kind, part)) = storage.filter(|_| !fail) else {
                        bad!("error", "{text}, but the storage can be created");
                    };
                    if kind.is_some_and(|k| k != e.kind()) || !text.contains(part) {
                        bad!("error", "{e:?} instead of {kind:?} and {part:?}");
                    }
                }
            }
            let decoded = e.decode_error().await;
            if fail && decoded != "decoded 7" || !fail && decoded != text {
                bad!("decoded", "decoded to {decoded}");
            }
            settle().await;
            let l = log.lock().unwrap();
            if tasks > 0 || l.polled > 0 || !l.finish.is_empty() || l.dropped != l.created {
                bad!("goes-on", "after opening failed: {tasks} tasks, {l:?}");
            }
            return Ok(());
        }
    };
    if log.lock().unwrap().asked != [s.len] {
        bad!("length", "storage was created for {:?}, the content length is {:?}", log.lock().unwrap().asked, s.len);
    }
    if sd.content_length() != s.len {
        bad!("length", "content_length() is {:?} instead of {:?}", sd.content_length(), s.len);
    }
    let files = dir.files();
    let named = |f: &String| match s.store {
        Store::TempPrefix => f.starts_with("pre-"),
        Store::TempBuilder => f.ends_with("-suf"),
        _ => true,
    };
    let expected = usize::from(!matches!(s.store, Store::Mem | Store::Custom));
    if files.len() != expected || !files.iter().all(named) {
        bad!("files", "{files:?} with {:?}", s.store);
    }
    settle().await;
    if log.lock().unwrap().polled == 0 {
        bad!("started", "the download does not start");
    }
    // what can be done with it
    let mut ended = s.ends && !matches!(s.store, Store::Bounded(n) if n < s.gives) && !matches!(s.store, Store::Adaptive(_, _, n) if s.len.is_none() && n < s.gives);
    let (mut cancelled, mut sd) = (false, Some(sd));
    let mut tokens = vec![];
    let mut handles = vec![sd.as_ref().map(StreamDownload::handle).expect("handle")];
    type Wait = Pin<Box<dyn Future<Output = ()>>>;
    let mut waits: Vec<(Wait, bool)> = vec![];
    let mut outcome = if ended { Some(StreamOutcome::Completed) } else { None };
    for _ in 0..s.depth {
        let mut can = vec![];
        if sd.is_some() {
            can.extend([Do::Handle, Do::Token, Do::CancelReader, Do::DropReader]);
        }
        if !handles.is_empty() {
            can.extend([Do::CloneHandle, Do::DropHandles]);
        }
        if !tokens.is_empty() {
            can.push(Do::CancelToken);
        }
        if can.is_empty() {
            break;
        }
        let what = pick(&can);
        step();
        saw(what);
        match what {
            Do::Handle => {
                let h = sd.as_ref().map(StreamDownload::handle).expect("reader");
                waits.push((Box::pin(h.wait_for_completion()), false));
            }
            Do::CloneHandle => {
                let h = handles[0].clone();
                waits.push((Box::pin(h.clone().wait_for_completion()), false));
                handles.push(h);
            }
            Do::Token => tokens.push(sd.as_ref().map(StreamDownload::cancellation_token).expect("reader")),
            Do::CancelReader => {
                sd.as_ref().expect("reader").cancel_download();
                cancelled = true;
            }
            Do::CancelToken => {
                tokens.pop().expect("token").cancel();
                cancelled = true;
            }
            Do::DropReader => {
                sd = None;
                cancelled |= cancel_on_drop;
            }
            Do::DropHandles => handles.clear(),
        }
        // at any moment: nobody is told before it is over
        for (w, done) in &mut waits {
            if !*done {
                *done = w.as_mut().poll(&mut Context::from_waker(Waker::noop())).is_ready();
            }
            if *done && log.lock().unwrap().finish.is_empty() {
                bad!("waiter", "waiting for completion returned before the source was finished");
            }
        }
        settle().await;
        if cancelled && !ended {
            ended = true;
            outcome = Some(StreamOutcome::CancelledByUser);
        }
        // polled in every state, and again later: nothing may be forgotten
        for (w, done) in &mut waits {
            if !*done {
                *done = w.as_mut().poll(&mut Context::from_waker(Waker::noop())).is_ready();
            }
            if *done != ended {
                bad!("waiter", "waiting for completion returned: {done}, the download ended: {ended}");
            }
        }
        let l = log.lock().unwrap();
        if l.finish != outcome.into_iter().collect::<Vec<_>>() || (l.dropped == 1) != ended {
            bad!("state", "after {what:?} the source was finished with {:?}, dropped {}; expected {outcome:?}", l.finish, l.dropped);
        }
        if matches!(sd, None) && ended && !dir.files().is_empty() {
            bad!("files", "files left: {:?}", dir.files());
        }
    }
    // the reader of a completed download reads it
    if let (Some(sd), Some(StreamOutcome::Completed)) = (&mut sd, outcome) {
        let want: Vec<u8> = (1..=s.gives as u8).collect();
        let mut got = vec![];
        let mut buf = [0; 2];
        loop {
            match sd.read(&mut buf) {
                Ok(0) => break,
                Ok(n) => got.extend_from_slice(&buf[..n]),
                Err(e) => bad!("read", "read failed: {e}"),
            }
        }
        if got != want {
            bad!("read", "read {got:?} instead of {want:?}");
        }
    }
    Ok(())
}

pub fn specs(deep: bool) -> Vec<Open> {
    let mut v = vec![];
    let stores = [
        Store::Mem, Store::TempIn, Store::TempPrefix, Store::TempBuilder, Store::TempMissingDir, Store::TempFails, Store::Bounded(8), Store::BoundedFails(3),
        Store::Adaptive(false, false, 4), Store::Adaptive(true, false, 4), Store::Adaptive(false, true, 4), Store::Custom, Store::CustomFails,
    ];
    for way in [Way::New, Way::FromStream] {
        for store in stores {
            for (len, gives, ends) in [
                (None, 3, true), (None, 0, true), (None, 2, false), (Some(0), 0, true), (Some(0), 0, false), (Some(4), 4, true), (Some(4), 2, false), (Some(5), 5, true),
                (Some(u64::MAX), 1, false), (Some(1 << 63), 0, false),
            ] {
                let light = matches!(store, Store::Mem);
                let depth = if deep { 5 } else if light && way == Way::New { 4 } else { 3 };
                v.push(Open { way, len, store, gives, ends, depth });
            }
        }
    }
    v
}
