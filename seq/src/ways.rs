//! C25 and C26 with the sources that come with the library, opened by each constructor and read by a
//! thread of its own: what is delivered does not depend on how the threads happen to run.

use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};
use std::num::{NonZeroUsize};
use std::sync::{Arc, Mutex, mpsc};
use std::time::Duration;

use opendal::Operator;
use opendal::services::Memory;
use reqwest_middleware::{ClientBuilder, ClientWithMiddleware};
use serde::{Deserialize, Serialize};
use stream_download::async_read::{AsyncReadStream, AsyncReadStreamParams};
use stream_download::http::HttpStream;
use stream_download::http::reqwest::{self, Url};
use stream_download::process::{Command, ProcessStream, ProcessStreamParams};
use stream_download::source::{DecodeError, SourceStream};
use stream_download::storage::bounded::BoundedStorageProvider;
use stream_download::storage::memory::MemoryStorageProvider;
use stream_download::storage::temp::TempStorageProvider;
use stream_download::storage::StorageProvider;
use stream_download::storage::adaptive::AdaptiveStorageProvider;
use stream_download::{Settings, StreamDownload, StreamHandle, StreamInitializationError, StreamPhase};
use stream_download_opendal::{OpendalStream, OpendalStreamParams, StreamDownloadExt};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};

use crate::bad;
use crate::ctl::{Res, choose, note, pick, saw, step};

const TEXT: &[u8] = b"abcdefghijklmnopqrstuvwx";
const BATCH: usize = 3;
const PREFETCH: u64 = 5;
/// what arrives before a stall
const FIRST: usize = 9;
const LONG: Duration = Duration::from_secs(30);

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Way {
    pub kind: Kind,
    pub store: Store,
    pub depth: usize,
    pub ends: Vec<Ending>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Via {
    Constructor,
    New,
    FromStream,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Kind {
    Http { via: Via, middleware: bool, length: bool, ranges: bool, status: u16 },
    Reader { via: Via, length: bool },
    Process { via: Via, length: bool, exists: bool },
    Dal { via: Via, exists: bool },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Store {
    Mem,
    Temp,
    Bounded,
    Adaptive,
    Fails,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Ending {
    /// everything is read
    Read,
    /// the source stalls half way and is reconnected
    Stall,
    /// the reader is dropped while the source stalls
    Drop { cancel: bool },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Do {
    Read(usize),
    Seek(SeekFrom),
}

#[derive(Default)]
struct Log {
    writes: Vec<usize>,
    providers: usize,
    phases: Vec<StreamPhase>,
    reconnects: usize,
    requests: usize,
}

#[derive(Clone)]
struct Sh {
    log: Arc<Mutex<Log>>,
    ending: Ending,
    hold: tokio::sync::watch::Receiver<bool>,
    kind: Kind,
}

struct Rec<P>(P, Arc<Mutex<Log>>);
struct RecWriter<W>(W, Arc<Mutex<Log>>);
impl<P: StorageProvider> StorageProvider for Rec<P> {
    type Reader = P::Reader;
    type Writer = RecWriter<P::Writer>;
    fn into_reader_writer(self, l: Option<u64>) -> io::Result<(Self::Reader, Self::Writer)> {
        self.1.lock().unwrap().providers += 1;
        let (r, w) = self.0.into_reader_writer(l)?;
        Ok((r, RecWriter(w, self.1)))
    }
    fn max_capacity(&self) -> Option<usize> {
        self.0.max_capacity()
    }
    fn max_capacity_for(&self, l: Option<u64>) -> Option<usize> {
        self.0.max_capacity_for(l)
    }
}
impl<W: Write> Write for RecWriter<W> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.1.lock().unwrap().writes.push(b.len());
        self.0.write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.flush()
    }
}
impl<W: Seek> Seek for RecWriter<W> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.0.seek(p)
    }
}

struct NoStorage;
impl StorageProvider for NoStorage {
    type Reader = Cursor<Vec<u8>>;
    type Writer = Cursor<Vec<u8>>;
    fn into_reader_writer(self, _: Option<u64>) -> io::Result<(Self::Reader, Self::Writer)> {
        Err(io::Error::other("no storage today"))
    }
}

trait Stream: Read + Seek + Send {}
impl<T: Read + Seek + Send> Stream for T {}

struct Opened {
    reader: Box<dyn Stream>,
    handle: StreamHandle,
    content_length: Option<u64>,
}

/// Which part failed, the error, and the error decoded.
type Failed = (&'static str, String, String);

fn settings<S: 'static>(s: &Sh) -> Settings<S> {
    let retry = match s.ending {
        Ending::Stall => Duration::from_millis(60),
        _ => Duration::from_secs(3600),
    };
    let (a, b) = (s.log.clone(), s.log.clone());
    Settings::default()
        .prefetch_bytes(PREFETCH)
        .on_progress(move |_: &S, st, _| a.lock().unwrap().phases.push(st.phase))
        .retry_timeout(retry)
        .on_reconnect(move |_: &S, _| b.lock().unwrap().reconnects += 1)
        .batch_write_size(NonZeroUsize::new(BATCH).expect("batch"))
        .cancel_on_drop(!matches!(s.ending, Ending::Drop { cancel: false }))
}

async fn opened<S: SourceStream<Error: std::fmt::Debug + Send>, P: StorageProvider + 'static>(
    r: Result<StreamDownload<P>, StreamInitializationError<S>>,
) -> Result<Opened, Failed>
where
    P::Reader: 'static,
{
    match r {
        Ok(d) => Ok(Opened { handle: d.handle(), content_length: d.content_length(), reader: Box::new(d) }),
        Err(e) => {
            let which = match &e {
                StreamInitializationError::StorageCreationFailure(_) => "storage",
                StreamInitializationError::StreamCreationFailure(_) => "stream",
            };
            let text = e.to_string();
            Err((which, text, e.decode_error().await))
        }
    }
}

/// Half of the text, and the rest when it is released.
async fn feed(mut to: tokio::io::DuplexStream, s: Sh) {
    let stalls = s.ending != Ending::Read;
    let (a, b) = TEXT.split_at(if stalls { FIRST } else { TEXT.len() });
    let _ = to.write_all(a).await;
    if stalls {
        wait_release(&s).await;
        let _ = to.write_all(b).await;
    }
}

async fn wait_release(s: &Sh) {
    let mut hold = s.hold.clone();
    loop {
        if !*hold.borrow_and_update() || (s.ending == Ending::Stall && s.log.lock().unwrap().reconnects > 0) {
            return;
        }
        let _ = tokio::time::timeout(Duration::from_millis(3), hold.changed()).await;
    }
}

async fn serve(listener: TcpListener, s: Sh) {
    while let Ok((c, _)) = listener.accept().await {
        let s = s.clone();
        tokio::spawn(async move {
            let _ = answer(c, &s).await;
        });
    }
}

async fn answer(mut c: TcpStream, s: &Sh) -> io::Result<()> {
    let Kind::Http { length, ranges, status, .. } = s.kind else { return Ok(()) };
    let mut head = vec![];
    let mut buf = [0; 1024];
    while !head.ends_with(b"\r\n\r\n") {
        match c.read(&mut buf).await? {
            0 => return Ok(()),
            n => head.extend_from_slice(&buf[..n]),
        }
    }
    let head = String::from_utf8_lossy(&head).into_owned();
    let first = {
        let mut l = s.log.lock().unwrap();
        l.requests += 1;
        l.requests == 1
    };
    if status != 200 {
        c.write_all(format!("HTTP/1.1 {status} Nope\r\ncontent-length: 10\r\nconnection: close\r\n\r\nnot at all").as_bytes()).await?;
        return c.shutdown().await;
    }
    let range = head.lines().find_map(|l| l.to_ascii_lowercase().strip_prefix("range: bytes=").map(str::to_string)).filter(|_| ranges);
    let (from, to) = match &range {
        None => (0, TEXT.len()),
        Some(r) => {
            let (a, b) = r.split_once('-').expect("range");
            (a.parse::<usize>().expect("from"), b.parse::<usize>().map_or(TEXT.len(), |b| b + 1).min(TEXT.len()))
        }
    };
    let body = &TEXT[from.min(to)..to];
    let mut h = format!("HTTP/1.1 {} OK\r\nconnection: close\r\n", if range.is_some() { 206 } else { 200 });
    h += if ranges { "accept-ranges: bytes\r\n" } else { "accept-ranges: none\r\n" };
    if range.is_some() {
        h += &format!("content-range: bytes {from}-{}/{}\r\n", to.max(1) - 1, TEXT.len());
    }
    if length {
        h += &format!("content-length: {}\r\n", body.len());
    }
    c.write_all((h + "\r\n").as_bytes()).await?;
    if first && s.ending != Ending::Read {
        c.write_all(&body[..FIRST]).await?;
        c.flush().await?;
        let mut hold = s.hold.clone();
        let _ = hold.wait_for(|h| !*h).await;
        c.write_all(&body[FIRST..]).await?;
    } else {
        c.write_all(body).await?;
    }
    c.shutdown().await
}

async fn open<P: StorageProvider + 'static>(s: &Sh, p: P) -> Result<Opened, Failed>
where
    P::Reader: 'static,
{
    let p = Rec(p, s.log.clone());
    let n = TEXT.len() as u64;
    match s.kind {
        Kind::Http { via, middleware, .. } => {
            let listener = TcpListener::bind("127.0.0.1:0").await.expect("bind");
            let url: Url = format!("http://{}/x", listener.local_addr().expect("addr")).parse().expect("url");
            tokio::spawn(serve(listener, s.clone()));
            type M = ClientWithMiddleware;
            type C = reqwest::Client;
            match (via, middleware) {
                (Via::Constructor, false) => opened(StreamDownload::new_http(url, p, settings(s)).await).await,
                (Via::Constructor, true) => opened(StreamDownload::new_http_with_middleware(url, p, settings(s)).await).await,
                (Via::New, false) => opened(StreamDownload::new::<HttpStream<C>>(url, p, settings(s)).await).await,
                (Via::New, true) => opened(StreamDownload::new::<HttpStream<M>>(url, p, settings(s)).await).await,
                (Via::FromStream, false) => {
                    let h = HttpStream::new(C::new(), url).await.map_err(|_| ("stream", String::new(), String::new()))?;
                    opened(StreamDownload::from_stream(h, p, settings(s)).await).await
                }
                (Via::FromStream, true) => {
                    let client = ClientBuilder::new(C::new()).build();
                    let h = HttpStream::new(client, url).await.map_err(|_| ("stream", String::new(), String::new()))?;
                    opened(StreamDownload::from_stream(h, p, settings(s)).await).await
                }
            }
        }
        Kind::Reader { via, length } => {
            let (a, b) = tokio::io::duplex(64);
            tokio::spawn(feed(a, s.clone()));
            let params = AsyncReadStreamParams::new(b);
            let params = if length { params.content_length(n) } else { params };
            match via {
                Via::Constructor => opened(StreamDownload::new_async_read(params, p, settings(s)).await).await,
                Via::New => opened(StreamDownload::new::<AsyncReadStream<_>>(params, p, settings(s)).await).await,
                Via::FromStream => {
                    let (a, b) = tokio::io::duplex(64);
                    tokio::spawn(feed(a, s.clone()));
                    let r = AsyncReadStream::new(b, length.then_some(n));
                    opened(StreamDownload::from_stream(r, p, settings(s)).await).await
                }
            }
        }
        Kind::Process { via, length, exists } => {
            let c = Command::new(if exists { "/bin/echo" } else { "/nowhere/no-such-command" }).args(["-n", std::str::from_utf8(TEXT).expect("text")]);
            let params = match ProcessStreamParams::new(c) {
                Ok(p) => p,
                Err(e) => return Err(("stream", format!("Stream creation failure: {e}"), e.to_string())),
            };
            let params = if length { params.content_length(n) } else { params };
            match via {
                Via::Constructor => opened(StreamDownload::new_process(params, p, settings(s)).await).await,
                Via::New => opened(StreamDownload::new::<ProcessStream>(params, p, settings(s)).await).await,
                Via::FromStream => {
                    let r = ProcessStream::create(params).await.map_err(|e| ("stream", e.to_string(), e.to_string()))?;
                    opened(StreamDownload::from_stream(r, p, settings(s)).await).await
                }
            }
        }
        Kind::Dal { via, exists } => {
            let op = Operator::new(Memory::default()).expect("memory");
            op.write("it", TEXT.to_vec()).await.expect("write");
            let params = OpendalStreamParams::new(op, if exists { "it" } else { "nothing" });
            match via {
                Via::Constructor => opened(StreamDownload::new_opendal(params, p, settings(s)).await).await,
                Via::New => opened(StreamDownload::new::<OpendalStream>(params, p, settings(s)).await).await,
                Via::FromStream => {
                    let r = OpendalStream::new(params).await.map_err(|e| ("stream", e.to_string(), e.to_string()))?;
                    opened(StreamDownload::from_stream(r, p, settings(s)).await).await
                }
            }
        }
    }
}

type Results = Vec<Result<(u64, Vec<u8>), io::ErrorKind>>;

fn perform(reader: &mut dyn Stream, ops: &[Do], all: bool) -> Results {
    let mut v: Results = vec![];
    for op in ops {
        v.push(
            match *op {
                Do::Read(n) => {
                    let mut b = vec![0; n];
                    reader.read(&mut b).map(|n| (n as u64, b[..n].to_vec()))
                }
                Do::Seek(to) => reader.seek(to).map(|n| (n, vec![])),
            }
            .map_err(|e| e.kind()),
        );
    }
    if all {
        let mut b = vec![];
        let mut chunk = [0; 4];
        v.push(loop {
            match reader.read(&mut chunk) {
                Ok(0) => break Ok((b.len() as u64, b)),
                Ok(n) if b.len() < 1000 => b.extend_from_slice(&chunk[..n]),
                Ok(_) => break Ok((b.len() as u64, b)),
                Err(e) => break Err(e.kind()),
            }
        });
    }
    v
}

fn expect(kind: Kind) -> (Option<u64>, Option<&'static str>) {
    let n = Some(TEXT.len() as u64);
    match kind {
        Kind::Http { status, .. } if status != 200 => (None, Some("stream")),
        Kind::Process { exists: false, .. } | Kind::Dal { exists: false, .. } => (None, Some("stream")),
        Kind::Http { length, .. } | Kind::Reader { length, .. } | Kind::Process { length, .. } => (n.filter(|_| length), None),
        Kind::Dal { .. } => (n, None),
    }
}

pub fn run(w: &Way) -> Res {
    let ending = pick(&w.ends);
    let all = [Do::Read(5), Do::Seek(SeekFrom::Start(12)), Do::Seek(SeekFrom::End(-3)), Do::Seek(SeekFrom::Current(4)), Do::Seek(SeekFrom::Start(1))];
    let (length, fails) = expect(w.kind);
    // what was skipped is no longer there
    let forward = [Do::Read(5), Do::Seek(SeekFrom::Current(4))];
    let dropped = matches!(ending, Ending::Drop { .. });
    // what such a server sends in answer to a range request cannot be told from a range
    let plain = matches!(w.kind, Kind::Http { length: false, ranges: false, .. });
    let of: &[Do] = if dropped { &[Do::Read(4)] } else if plain { &all[..1] } else if w.store == Store::Bounded || (w.store == Store::Adaptive && length.is_none()) { &forward } else { &all };
    let mut ops = vec![];
    if fails.is_none() && w.store != Store::Fails {
        for _ in 0..if dropped { w.depth.min(2) } else { w.depth } {
            let i = choose(of.len() + 1);
            let Some(op) = of.get(i) else { break };
            ops.push(*op);
        }
    }
    saw((ending, format!("{ops:?}")));
    let (release, hold) = tokio::sync::watch::channel(true);
    let sh = Sh { log: Arc::default(), ending, hold, kind: w.kind };
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().expect("runtime");
    step();
    let opened = rt.block_on(async {
        let r = async {
            match w.store {
                Store::Mem => open(&sh, MemoryStorageProvider).await,
                Store::Temp => open(&sh, TempStorageProvider::new()).await,
                Store::Bounded => open(&sh, BoundedStorageProvider::new(MemoryStorageProvider, NonZeroUsize::new(32).expect("size"))).await,
                Store::Adaptive => open(&sh, AdaptiveStorageProvider::new(MemoryStorageProvider, NonZeroUsize::new(32).expect("size"))).await,
                Store::Fails => open(&sh, NoStorage).await,
            }
        };
        tokio::time::timeout(LONG, r).await
    });
    let out = judge(w, &sh, &ops, (length, fails), opened, release, &rt);
    rt.shutdown_background();
    out
}

fn judge(
    w: &Way,
    sh: &Sh,
    ops: &[Do],
    (length, fails): (Option<u64>, Option<&'static str>),
    opened: Result<Result<Opened, Failed>, tokio::time::error::Elapsed>,
    release: tokio::sync::watch::Sender<bool>,
    rt: &tokio::runtime::Runtime,
) -> Res {
    let Ok(opened) = opened else { bad!("open", "opening does not return") };
    let fails = if fails.is_none() && w.store == Store::Fails { Some("storage") } else { fails };
    let o = match (opened, fails) {
        (Ok(o), None) => o,
        (Ok(_), Some(f)) => bad!("open", "opened although the {f} cannot be created"),
        (Err(e), None) => bad!("open", "not opened: {e:?}"),
        (Err((which, text, decoded)), Some(f)) => {
            note(|| format!("{text} / {decoded}"));
            if which != f {
                bad!("error", "the {f} could not be created, reported is {which}: {text}");
            }
            let from_stream = matches!(
                w.kind,
                Kind::Http { via: Via::FromStream, .. } | Kind::Process { via: Via::FromStream, .. } | Kind::Dal { via: Via::FromStream, .. }
            );
            let (t, d) = match (w.kind, f) {
                (_, "storage") => ("Storage creation failure: no storage today", "no storage today"),
                (Kind::Http { .. }, _) => ("404", "not at all"),
                (Kind::Process { .. }, _) => ("No such file", "No such file"),
                _ => ("NotFound", "NotFound"),
            };
            if (!from_stream || f == "storage") && (!text.contains(t) || !decoded.contains(d)) {
                bad!("error", "the error reads {text:?}, decoded {decoded:?}");
            }
            let l = sh.log.lock().unwrap();
            if !l.writes.is_empty() || !l.phases.is_empty() || (f == "stream" && l.providers > 0) {
                bad!("error", "{} writes, {} reports, {} uses of the storage provider, but opening failed", l.writes.len(), l.phases.len(), l.providers);
            }
            return Ok(());
        }
    };
    if o.content_length != length {
        bad!("length", "content length {:?} instead of {length:?}", o.content_length);
    }
    // a thread of its own reads
    let (tx, rx) = mpsc::channel();
    let (mut reader, todo) = (o.reader, ops.to_vec());
    let all = !matches!(sh.ending, Ending::Drop { .. });
    std::thread::spawn(move || {
        let r = perform(&mut *reader, &todo, all);
        drop(reader);
        let _ = tx.send(r);
    });
    let Ok(results) = rx.recv_timeout(LONG) else { bad!("hangs", "the reader does not get through {ops:?}") };
    let mut pos = 0u64;
    let n = TEXT.len() as u64;
    let mut sought = false;
    for (i, r) in results.iter().enumerate() {
        step();
        let fine = match (ops.get(i), r) {
            (Some(Do::Read(max)), Ok((got, data))) => {
                let at = pos as usize;
                pos += got;
                (*got > 0 || at as u64 == n) && *got <= *max as u64 && TEXT.get(at..at + data.len()) == Some(&data[..])
            }
            (Some(Do::Seek(SeekFrom::End(_))), Err(e)) => length.is_none() && *e == io::ErrorKind::Unsupported,
            (Some(Do::Seek(to)), Ok((at, _))) => {
                sought = true;
                pos = match *to {
                    SeekFrom::Start(p) => p,
                    SeekFrom::Current(d) => pos.wrapping_add_signed(d),
                    SeekFrom::End(d) => n.wrapping_add_signed(d),
                };
                if length.is_some() {
                    pos = pos.min(n);
                }
                *at == pos
            }
            (None, Ok((_, data))) => TEXT.get(pos.min(n) as usize..) == Some(&data[..]),
            _ => false,
        };
        if !fine {
            bad!("results", "{ops:?} gave {results:?}");
        }
    }
    // the end
    let cancelled = sh.ending == Ending::Drop { cancel: true };
    if !cancelled {
        let _ = release.send(false);
    }
    if rt.block_on(async { tokio::time::timeout(LONG, o.handle.wait_for_completion()).await }).is_err() {
        bad!("completion", "the download does not end");
    }
    let l = sh.log.lock().unwrap();
    let complete = l.phases.iter().filter(|p| matches!(p, StreamPhase::Complete)).count();
    let last = matches!(l.phases.last(), Some(StreamPhase::Complete));
    if cancelled && complete > 0 {
        bad!("drop", "the reader was dropped, but the download went on to the end");
    }
    if !cancelled && (complete != 1 || !last) {
        bad!("completion", "the download ended with the reports {:?}", l.phases);
    }
    if l.writes.iter().any(|n| *n > BATCH) || (!cancelled && l.writes.iter().max() != Some(&BATCH)) {
        bad!("batch", "writes of {:?} bytes", l.writes);
    }
    let targets: Vec<u64> = l.phases.iter().filter_map(|p| if let StreamPhase::Prefetching { target, .. } = p { Some(*target) } else { None }).collect();
    if targets.iter().any(|t| *t != PREFETCH) || (targets.is_empty() && !sought && !cancelled) {
        bad!("prefetch", "the reports are {:?}", l.phases);
    }
    let enough = match sh.ending {
        Ending::Stall => sought || l.reconnects > 0,
        _ => l.reconnects == 0,
    };
    if !enough {
        bad!("reconnect", "{} reconnects with {:?}", l.reconnects, sh.ending);
    }
    Ok(())
}

pub fn specs(deep: bool, stores: bool) -> Vec<Way> {
    let mut v = vec![];
    let vias = [Via::Constructor, Via::New, Via::FromStream];
    let mut kinds = vec![];
    for via in vias {
        for middleware in [false, true] {
            for length in [true, false] {
                for ranges in [true, false] {
                    kinds.push((Kind::Http { via, middleware, length, ranges, status: 200 }, true));
                }
            }
            kinds.push((Kind::Http { via, middleware, length: true, ranges: true, status: 404 }, false));
        }
        for length in [true, false] {
            kinds.push((Kind::Reader { via, length }, true));
            kinds.push((Kind::Process { via, length, exists: true }, false));
        }
        kinds.push((Kind::Process { via, length: false, exists: false }, false));
        kinds.push((Kind::Dal { via, exists: true }, false));
        kinds.push((Kind::Dal { via, exists: false }, false));
    }
    for (kind, stalls) in kinds {
        for store in [Store::Mem, Store::Temp, Store::Bounded, Store::Adaptive, Store::Fails] {
            let mut ends = vec![Ending::Read];
            if stalls && store == Store::Mem {
                ends.extend([Ending::Drop { cancel: true }, Ending::Drop { cancel: false }]);
                // others cannot be reconnected, or go on where they are by then
                if matches!(kind, Kind::Http { length, ranges, .. } if length || ranges) {
                    ends.push(Ending::Stall);
                }
            }
            let main = matches!(
                kind,
                Kind::Http { via: Via::Constructor, .. } | Kind::Reader { via: Via::Constructor, .. } | Kind::Process { via: Via::Constructor, .. }
                    | Kind::Dal { via: Via::Constructor, .. }
            );
            if store != Store::Mem && !(stores && (main || deep)) {
                continue;
            }
            let depth = if deep { 3 } else if main && store == Store::Mem { 2 } else { 1 };
            v.push(Way { kind, store, depth, ends });
        }
    }
    v
}
