//! C21: every sequence of operations against a service that may fail at any point.

use std::fmt::{self, Debug};
use std::num::NonZeroUsize;
use std::ops::Range;
use std::sync::{Arc, Mutex};

use opendal::raw::*;
use opendal::{Buffer, BytesRange, OperationContext, Capability, EntryMode, Error, ErrorKind, Metadata, Operator, Result};
use serde::{Deserialize, Serialize};
use stream_download::source::{DecodeError, SourceStream};
use stream_download_opendal::{OpendalStream, OpendalStreamParams};

use crate::aio::{block, next, yield_once};
use crate::bad;
use crate::ctl::{Res, choose, note, saw, step};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Dal {
    pub size: u64,
    pub chunk: Option<usize>,
    /// bytes the service delivers at once
    pub pieces: Vec<u64>,
    pub content_type: Option<String>,
    pub fails: u32,
    pub depth: usize,
    /// the memory service of OpenDAL instead of a simulated one
    pub memory: bool,
    pub missing: bool,
}

struct World {
    spec: Dal,
    /// failures that are yet to be reported
    owed: u32,
    failed: u32,
}

#[derive(Clone)]
struct Mock(Arc<Mutex<World>>);

impl Debug for Mock {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("mock")
    }
}

thread_local! {
    static NEXT: std::cell::RefCell<Option<Mock>> = const { std::cell::RefCell::new(None) };
}

fn byte(p: u64) -> u8 {
    (p % 251) as u8 + 1
}

fn unsupported() -> Error {
    Error::new(ErrorKind::Unsupported, "unsupported")
}

impl Mock {
    /// The failure that happens here, if one does.
    fn fail(&self) -> Result<()> {
        let mut w = self.0.lock().unwrap();
        if w.failed < w.spec.fails {
            let kind = match choose(3) {
                0 => return Ok(()),
                1 => ErrorKind::Unexpected,
                _ => ErrorKind::RateLimited,
            };
            w.failed += 1;
            w.owed += 1;
            return Err(Error::new(kind, format!("fail-{}", w.failed)));
        }
        Ok(())
    }
}

#[derive(Default)]
struct MockBuilder;
impl opendal::Builder for MockBuilder {
    type Config = ();
    fn build(self) -> Result<impl Service> {
        Ok(NEXT.with_borrow(|n| n.clone().expect("service")))
    }
}

impl Service for Mock {
    type Reader = oio::StreamReader<MockReader>;
    type Writer = ();
    type Lister = ();
    type Deleter = ();
    type Copier = ();

    fn info(&self) -> ServiceInfo {
        ServiceInfo::with_scheme("mock")
    }
    fn capability(&self) -> Capability {
        Capability { read: true, stat: true, ..Default::default() }
    }
    async fn create_dir(&self, _: &OperationContext, _: &str, _: OpCreateDir) -> Result<RpCreateDir> {
        Err(unsupported())
    }
    async fn stat(&self, _: &OperationContext, path: &str, _: OpStat) -> Result<RpStat> {
        yield_once().await;
        self.fail()?;
        let s = self.0.lock().unwrap().spec.clone();
        if s.missing || path != "dir/object" {
            return Err(Error::new(ErrorKind::NotFound, "it is not there"));
        }
        let mut m = Metadata::new(EntryMode::FILE).with_content_length(s.size);
        if let Some(c) = s.content_type {
            m = m.with_content_type(c);
        }
        Ok(RpStat::new(m))
    }
    fn read(&self, _: &OperationContext, _: &str, _: OpRead) -> Result<Self::Reader> {
        Ok(oio::StreamReader::new(MockReader(self.clone())))
    }
    fn write(&self, _: &OperationContext, _: &str, _: OpWrite) -> Result<()> {
        Err(unsupported())
    }
    fn delete(&self, _: &OperationContext) -> Result<()> {
        Err(unsupported())
    }
    fn list(&self, _: &OperationContext, _: &str, _: OpList) -> Result<()> {
        Err(unsupported())
    }
    fn copy(&self, _: &OperationContext, _: &str, _: &str, _: OpCopy, _: OpCopier) -> Result<()> {
        Err(unsupported())
    }
    async fn rename(&self, _: &OperationContext, _: &str, _: &str, _: OpRename) -> Result<RpRename> {
        Err(unsupported())
    }
    async fn presign(&self, _: &OperationContext, _: &str, _: OpPresign) -> Result<RpPresign> {
        Err(unsupported())
    }
}

struct MockReader(Mock);

impl oio::StreamRead for MockReader {
    async fn open(&self, range: BytesRange) -> Result<(RpRead, Box<dyn oio::ReadStreamDyn>)> {
        yield_once().await;
        self.0.fail()?;
        let size = self.0.0.lock().unwrap().spec.size;
        let r = range.to_content_range(size as usize)?;
        let m = Metadata::new(EntryMode::FILE).with_content_length(size);
        Ok((RpRead::new(m), Box::new(Body { mock: self.0.clone(), left: r.start as u64..r.end as u64 })))
    }
}

struct Body {
    mock: Mock,
    left: Range<u64>,
}

impl oio::ReadStream for Body {
    async fn read(&mut self) -> Result<Buffer> {
        if self.left.is_empty() {
            return Ok(Buffer::new());
        }
        yield_once().await;
        self.mock.fail()?;
        let pieces = self.mock.0.lock().unwrap().spec.pieces.clone();
        let n = pieces[choose(pieces.len())].min(self.left.end - self.left.start);
        let b: Vec<u8> = (self.left.start..self.left.start + n).map(byte).collect();
        self.left.start += n;
        Ok(Buffer::from(b))
    }
}

struct Left {
    r: Range<u64>,
    /// nothing failed since the position was set
    exact: bool,
}

pub fn run(s: &Dal) -> Res {
    let mock = Mock(Arc::new(Mutex::new(World { spec: s.clone(), owed: 0, failed: 0 })));
    NEXT.with_borrow_mut(|n| *n = Some(mock.clone()));
    let op = if s.memory {
        let op = Operator::new(opendal::services::Memory::default()).expect("memory");
        if !s.missing {
            let data: Vec<u8> = (0..s.size).map(byte).collect();
            let w = op.write_with("dir/object", data);
            let w = match &s.content_type {
                Some(c) => w.content_type(c),
                None => w,
            };
            block(async { w.await })?.expect("write");
        }
        op
    } else {
        Operator::new(MockBuilder).expect("mock")
    };
    let mut params = OpendalStreamParams::new(op, "dir/object");
    if let Some(c) = s.chunk {
        params = params.chunk_size(NonZeroUsize::new(c).expect("chunk"));
    }
    step();
    let opened = block(OpendalStream::create(params))?;
    let owed = || std::mem::take(&mut mock.0.lock().unwrap().owed);
    let mut h = match opened {
        Ok(_) if s.missing => bad!("error-lost", "opening an object that is not there succeeded"),
        Ok(h) => {
            if owed() > 0 {
                bad!("error-lost", "opening succeeded although the service failed");
            }
            h
        }
        Err(e) => {
            let text = block(e.decode_error())?;
            saw(&text);
            let failed = owed();
            if !s.missing && failed == 0 {
                bad!("open", "opening failed: {text}");
            }
            if !(text.contains("fail-") && failed > 0) && !(s.missing && text.contains("NotFound")) {
                bad!("message", "the error of a failed opening is {text:?}");
            }
            return Ok(());
        }
    };
    let mut left = Left { r: 0..s.size, exact: true };
    let half = s.size / 2;
    let mut ops: Vec<(u64, Option<u64>, bool)> = vec![
        (0, None, false),
        (0, Some(1), false),
        (half, Some(s.size), false),
        (half, Some(half + 1), false),
        (s.size, None, false),
        (half, None, true),
        (s.size, None, true),
        (0, None, true),
    ];
    if s.size == 0 {
        ops.retain(|o| o.1.is_none());
    }
    if s.size > 2 {
        ops.push((1, Some(s.size - 1), false));
    }
    ops.dedup();
    for last in (0..=s.depth).map(|i| i == s.depth) {
        // an empty object has no length worth knowing
        if h.content_length() != (s.size > 0).then_some(s.size) {
            bad!("length", "content_length is {:?}, the object has {}", h.content_length(), s.size);
        }
        if h.content_type() != s.content_type.as_deref() {
            bad!("type", "content_type is {:?}, not {:?}", h.content_type(), s.content_type);
        }
        if !h.supports_seek() {
            bad!("seekable", "the stream says it cannot seek");
        }
        let c = if last { 1 } else { choose(ops.len() + 2) };
        if c < 2 {
            let n = if c == 0 { 1 } else { usize::MAX };
            // a stream that failed may stay failed
            let mut errors = 0;
            for _ in 0..n {
                step();
                let item = next(&mut h)?;
                note(|| format!("item {item:?}"));
                let due = owed();
                saw((item.is_some(), item.as_ref().is_some_and(|i| i.is_ok()), due));
                match item {
                    None if due > 0 => bad!("error-lost", "the stream ended although the service failed"),
                    None if left.exact && !left.r.is_empty() => bad!("short", "the stream ends at {}, not at {}", left.r.start, left.r.end),
                    None => break,
                    Some(Err(e)) if due == 0 && left.exact => bad!("error", "the stream fails with {e} although the service did not"),
                    Some(Err(e)) => {
                        if due > 0 && !e.to_string().contains("fail-") {
                            bad!("message", "the error of the stream is {e}");
                        }
                        left.exact = false;
                        errors += 1;
                        if errors > 4 {
                            break;
                        }
                    }
                    Some(Ok(_)) if due > 0 => bad!("error-lost", "the stream goes on although the service failed"),
                    Some(Ok(b)) => {
                        if b.is_empty() {
                            bad!("empty", "an empty item");
                        }
                        for x in b.iter() {
                            if left.r.is_empty() || *x != byte(left.r.start) {
                                bad!("wrong", "the stream yields {x} at {}, {} more expected", left.r.start, left.r.end - left.r.start);
                            }
                            left.r.start += 1;
                        }
                    }
                }
            }
            continue;
        }
        let (from, to, reconnect) = ops[c - 2];
        step();
        let got = if reconnect { block(h.reconnect(from))? } else { block(h.seek_range(from, to))? };
        note(|| format!("{} {from} {to:?}: {got:?}", if reconnect { "reconnect" } else { "seek_range" }));
        let due = owed();
        saw((got.is_ok(), due));
        match got {
            Ok(()) if due > 0 => bad!("error-lost", "seeking to {from} succeeded although the service failed"),
            Ok(()) => left = Left { r: from..to.unwrap_or(s.size), exact: true },
            Err(e) if due == 0 => bad!("error", "seeking to {from} {to:?} of {} failed: {e}", s.size),
            Err(e) => {
                if !e.to_string().contains("fail-") {
                    bad!("message", "the error of a failed seek is {e}");
                }
                left.exact = false;
            }
        }
    }
    Ok(())
}

pub fn specs(deep: bool) -> Vec<Dal> {
    let d = usize::from(deep);
    let mut v = vec![];
    for size in [0, 1, 2, 3, 7] {
        for chunk in [Some(1), Some(2), Some(3), Some(8), None] {
            for (fails, depth) in [(0, 3 + d), (1, 2 + d), (2, 2)] {
                if size == 7 && fails > 0 && chunk == Some(1) {
                    continue;
                }
                let content_type = (size % 2 == 1).then(|| "audio/mpeg".to_string());
                let pieces = if size > 3 { vec![2, 7] } else { vec![1, 2, 7] };
                v.push(Dal { size, chunk, pieces, content_type: content_type.clone(), fails, depth, memory: false, missing: false });
            }
            v.push(Dal { size, chunk, pieces: vec![1], content_type: None, fails: 0, depth: 4 + d, memory: true, missing: false });
        }
    }
    for size in [4095, 4096, 4097, 10_000] {
        for chunk in [Some(1000), None] {
            v.push(Dal { size, chunk, pieces: vec![1500, 4096, 10_000], content_type: None, fails: 1, depth: 1 + d, memory: false, missing: false });
            v.push(Dal { size, chunk, pieces: vec![1], content_type: Some("a/b".into()), fails: 0, depth: 3, memory: true, missing: false });
        }
    }
    for memory in [false, true] {
        v.push(Dal { size: 3, chunk: None, pieces: vec![1], content_type: None, fails: 1, depth: 1, memory, missing: true });
    }
    v
}
