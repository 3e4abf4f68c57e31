//! C08, C09, C10: every sequence of operations on a storage's reader and writer.

use std::collections::BTreeMap;
use std::io::{Read, Seek, SeekFrom, Write};
use std::num::NonZeroUsize;
use std::sync::{Arc, Mutex};

use serde::{Deserialize, Serialize};
use stream_download::storage::adaptive::AdaptiveStorageProvider;
use stream_download::storage::bounded::BoundedStorageProvider;
use stream_download::storage::memory::{MemoryStorage, MemoryStorageProvider};
use stream_download::storage::temp::TempStorageProvider;
use stream_download::storage::{StorageProvider, StorageReader, StorageWriter};

use crate::bad;
use crate::ctl::{Res, choose, note, saw, step};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Inner {
    Mem,
    Temp,
    /// keeps what is written until it is flushed, and does no more than two bytes at a time
    Buffering,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    Write(usize),
    Flush,
    WStart(u64),
    WCur(i64),
    WEnd(i64),
    Read(usize),
    RStart(u64),
    RCur(i64),
    REnd(i64),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Unbounded {
    pub inner: Inner,
    pub len: Option<u64>,
    pub ops: Vec<Op>,
    /// how many of them in a row
    pub depth: usize,
    /// operations before them
    pub setup: Vec<Op>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Bounded {
    pub inner: Inner,
    pub buffer: usize,
    pub len: Option<u64>,
    pub ops: Vec<Op>,
    pub depth: usize,
    pub setup: Vec<Op>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Adaptive {
    /// (fixed, variable)
    pub inner: (Inner, Inner),
    pub buffer: usize,
    pub len: Option<u64>,
    /// built with `new` instead of `with_fixed_and_variable`
    pub same: bool,
    pub ops: Vec<Op>,
    pub depth: usize,
}

thread_local! {
    static DIR: tempfile::TempDir = tempfile::Builder::new().prefix("verif-seq-").tempdir_in(scratch()).expect("scratch directory");
}

/// Memory-backed when there is such a place.
pub fn scratch() -> &'static str {
    if std::fs::metadata("/dev/shm").is_ok_and(|m| m.is_dir()) { "/dev/shm" } else { "/tmp" }
}

fn temp() -> TempStorageProvider {
    DIR.with(|d| TempStorageProvider::new_in(d.path()))
}

type R = Box<dyn StorageReader>;
type W = Box<dyn StorageWriter>;

fn open(p: impl StorageProvider<Reader: 'static>, len: Option<u64>) -> Result<(R, W), crate::ctl::Bad> {
    match p.into_reader_writer(len) {
        Ok((r, w)) => Ok((Box::new(r), Box::new(w))),
        Err(e) => bad!("create", "creating the storage for length {len:?} failed: {e}"),
    }
}

/// Written bytes tell apart different writes to the same position, and are never zero.
fn bytes(write: u64, pos: u64, n: usize) -> Vec<u8> {
    (0..n as u64).map(|i| (((pos + i) % 16) * 15 + write % 15 + 1) as u8).collect()
}

fn target(op: SeekFrom, at: u64) -> Option<u64> {
    match op {
        SeekFrom::Start(p) => Some(p),
        SeekFrom::Current(d) => at.checked_add_signed(d),
        SeekFrom::End(_) => None,
    }
}

/// A position no file system or memory can reach; refusing it is fine.
fn absurd(p: u64) -> bool {
    p > i64::MAX as u64 / 2
}

pub fn unbounded(s: &Unbounded) -> Res {
    let (mut r, mut w) = match s.inner {
        Inner::Mem => open(MemoryStorageProvider, s.len)?,
        Inner::Temp => open(temp(), s.len)?,
        Inner::Buffering => unreachable!("not the library's"),
    };
    let (mut rp, mut wp) = (0u64, 0u64);
    let mut data: BTreeMap<u64, u8> = BTreeMap::new();
    let mut furthest = 0u64;
    let mut writes = 0u64;
    for i in 0..s.setup.len() + s.depth {
        let op = s.setup.get(i).copied().unwrap_or_else(|| s.ops[choose(s.ops.len())]);
        step();
        match op {
            Op::Write(n) => {
                let b = bytes(writes, wp, n);
                writes += 1;
                let got = w.write(&b);
                saw((op, got.as_ref().ok()));
                match got {
                    Ok(k) if k <= n && (k > 0 || n == 0) => {
                        for (j, x) in b[..k].iter().enumerate() {
                            data.insert(wp + j as u64, *x);
                        }
                        wp += k as u64;
                        if k > 0 {
                            furthest = furthest.max(wp);
                        }
                    }
                    got => bad!("write", "write of {n} bytes at {wp}: {got:?}"),
                }
            }
            Op::Flush => {
                if let Err(e) = w.flush() {
                    bad!("flush", "flush: {e}");
                }
            }
            Op::WStart(_) | Op::WCur(_) | Op::WEnd(_) => {
                let f = seek_from(op);
                let got = w.seek(f).map_err(|e| e.to_string());
                saw((op, got.as_ref().ok()));
                wp = seek_result(f, wp, furthest, s.len, &got)?;
            }
            Op::RStart(_) | Op::RCur(_) | Op::REnd(_) => {
                let f = seek_from(op);
                let got = r.seek(f).map_err(|e| e.to_string());
                saw((op, got.as_ref().ok()));
                rp = seek_result(f, rp, furthest, s.len, &got)?;
            }
            Op::Read(n) => {
                let mut buf = vec![0xEE; n];
                let got = r.read(&mut buf);
                saw((op, got.as_ref().ok(), &buf));
                let available = furthest.saturating_sub(rp);
                match got {
                    Ok(k) if k as u64 > available.min(n as u64) => bad!(
                        "beyond",
                        "read({n}) at {rp} returned {k} bytes, but only {available} have been written up to {furthest}"
                    ),
                    Ok(0) if available > 0 && n > 0 => {
                        bad!("short", "read({n}) at {rp} returned nothing although {furthest} bytes have been written")
                    }
                    Ok(k) => {
                        for (j, got) in buf[..k].iter().enumerate() {
                            let p = rp + j as u64;
                            if let Some(want) = data.get(&p)
                                && want != got
                            {
                                bad!("wrong", "read({n}) at {rp} returned {got:#x} for position {p}, last written there is {want:#x}");
                            }
                        }
                        if let Some(j) = buf[k..].iter().position(|b| *b != 0xEE) {
                            note(|| format!("byte {j} past the result was changed"));
                        }
                        rp += k as u64;
                    }
                    Err(e) if absurd(rp) => note(|| format!("{e}")),
                    Err(e) => bad!("read-error", "read({n}) at {rp} failed: {e}"),
                }
            }
        }
    }
    // where they are now, and all of the content
    check_position(&mut *r, rp, "reader")?;
    check_position(&mut *w, wp, "writer")?;
    if s.depth > 0 && furthest <= 4096 {
        let mut all = vec![];
        if let Err(e) = r.seek(SeekFrom::Start(0)).and_then(|_| r.read_to_end(&mut all)) {
            bad!("read-error", "reading everything failed: {e}");
        }
        if all.len() as u64 != furthest {
            bad!("beyond", "reading everything yields {} bytes, the furthest write ends at {furthest}", all.len());
        }
        if let Some((p, want)) = data.iter().find(|(p, b)| all[**p as usize] != **b) {
            bad!("wrong", "position {p} has {:#x}, last written there is {want:#x}", all[*p as usize]);
        }
    }
    Ok(())
}

fn check_position(s: &mut (impl Seek + ?Sized), at: u64, who: &str) -> Res {
    if absurd(at) {
        return Ok(());
    }
    match s.stream_position() {
        Ok(p) if p == at => Ok(()),
        got => bad!("position", "the {who} is at {at}, it says {got:?}"),
    }
}

fn seek_from(op: Op) -> SeekFrom {
    match op {
        Op::WStart(p) | Op::RStart(p) => SeekFrom::Start(p),
        Op::WCur(d) | Op::RCur(d) => SeekFrom::Current(d),
        Op::WEnd(d) | Op::REnd(d) => SeekFrom::End(d),
        _ => unreachable!(),
    }
}

/// The position after a seek.
fn seek_result(f: SeekFrom, at: u64, furthest: u64, len: Option<u64>, got: &Result<u64, String>) -> Result<u64, crate::ctl::Bad> {
    let ok: Vec<u64> = match f {
        // a storage that was created for a known length may have that size from the start
        SeekFrom::End(d) => [furthest, len.unwrap_or(0).max(furthest)].iter().filter_map(|e| e.checked_add_signed(d)).collect(),
        _ => target(f, at).into_iter().collect(),
    };
    match got {
        Ok(p) if ok.contains(p) => Ok(*p),
        Err(_) if ok.is_empty() || ok.iter().any(|p| absurd(*p)) => Ok(at),
        // an end that is not known precisely
        Err(_) if matches!(f, SeekFrom::End(d) if furthest.checked_add_signed(d).is_none()) => Ok(at),
        _ => bad!("seek", "seek to {f:?} from {at} returned {got:?}, expected {ok:?}"),
    }
}

/// What a bounded storage must do.
struct Window {
    size: u64,
    max: u64,
    read: u64,
    write: u64,
    /// everything from here to `write` was written in one go
    start: u64,
    data: BTreeMap<u64, u8>,
}

impl Window {
    fn lowest(&self) -> u64 {
        self.start.max(self.write.saturating_sub(self.size))
    }
}

fn make_bounded(inner: Inner, buffer: usize, len: Option<u64>) -> Result<(R, W), crate::ctl::Bad> {
    let n = NonZeroUsize::new(buffer).expect("buffer size");
    match inner {
        Inner::Mem => open(BoundedStorageProvider::new(MemoryStorageProvider, n), len),
        Inner::Temp => open(BoundedStorageProvider::new(temp(), n), len),
        Inner::Buffering => open(BoundedStorageProvider::new(BufferingProvider, n), len),
    }
}

#[derive(Clone)]
struct BufferingProvider;

struct Buffering<T> {
    inner: T,
    pending: Vec<u8>,
}

impl StorageProvider for BufferingProvider {
    type Reader = Buffering<MemoryStorage>;
    type Writer = Buffering<MemoryStorage>;

    fn into_reader_writer(self, len: Option<u64>) -> std::io::Result<(Self::Reader, Self::Writer)> {
        let (r, w) = MemoryStorageProvider.into_reader_writer(len)?;
        Ok((Buffering { inner: r, pending: vec![] }, Buffering { inner: w, pending: vec![] }))
    }
}

impl Read for Buffering<MemoryStorage> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(2);
        self.inner.read(&mut b[..n])
    }
}

impl Write for Buffering<MemoryStorage> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(2);
        self.pending.extend_from_slice(&b[..n]);
        Ok(n)
    }

    fn flush(&mut self) -> std::io::Result<()> {
        let p = std::mem::take(&mut self.pending);
        self.inner.write_all(&p)?;
        self.inner.flush()
    }
}

impl Seek for Buffering<MemoryStorage> {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        self.flush()?;
        self.inner.seek(to)
    }
}

pub fn bounded(s: &Bounded) -> Res {
    let n = NonZeroUsize::new(s.buffer).expect("buffer size");
    let capacity = match s.inner {
        Inner::Mem => BoundedStorageProvider::new(MemoryStorageProvider, n).max_capacity(),
        Inner::Temp => BoundedStorageProvider::new(temp(), n).max_capacity(),
        Inner::Buffering => BoundedStorageProvider::new(BufferingProvider, n).max_capacity(),
    };
    if capacity != Some(s.buffer) {
        bad!("capacity", "the capacity of a buffer of {} is {capacity:?}", s.buffer);
    }
    let (mut r, mut w) = make_bounded(s.inner, s.buffer, s.len)?;
    let mut m = Window {
        size: s.len.unwrap_or(u64::MAX).min(s.buffer as u64),
        max: s.buffer as u64,
        read: 0,
        write: 0,
        start: 0,
        data: BTreeMap::new(),
    };
    let mut writes = 0;
    for i in 0..s.setup.len() + s.depth {
        let op = s.setup.get(i).copied().unwrap_or_else(|| s.ops[choose(s.ops.len())]);
        step();
        bounded_op(op, &mut *r, &mut *w, &mut m, &mut writes)?;
    }
    check_position(&mut *r, m.read, "reader")?;
    check_position(&mut *w, m.write, "writer")?;
    Ok(())
}

fn bounded_op(op: Op, r: &mut dyn StorageReader, w: &mut dyn StorageWriter, m: &mut Window, writes: &mut u64) -> Res {
    match op {
        Op::Write(n) => {
            let b = bytes(*writes, m.write, n);
            *writes += 1;
            let unread = m.write.saturating_sub(m.read);
            let room = m.size.saturating_sub(unread).min(n as u64);
            let got = w.write(&b);
            saw((op, got.as_ref().ok()));
            match got {
                Ok(k) if k as u64 == room => {
                    for (j, x) in b[..k].iter().enumerate() {
                        m.data.insert(m.write + j as u64, *x);
                    }
                    m.write += room;
                }
                Ok(k) if k as u64 > room => bad!(
                    "overwrite",
                    "write({n}) at {} accepted {k} bytes, there is room for {room} ({unread} unread in {})",
                    m.write, m.size
                ),
                Ok(k) => bad!("room", "write({n}) at {} accepted {k} bytes, there is room for {room}", m.write),
                Err(e) => bad!("write", "write({n}) at {} failed: {e}", m.write),
            }
        }
        Op::Flush => {
            if let Err(e) = w.flush() {
                bad!("flush", "flush: {e}");
            }
        }
        Op::WStart(_) | Op::WCur(_) => {
            let f = seek_from(op);
            let got = w.seek(f).map_err(|e| e.to_string());
            saw((op, got.as_ref().ok()));
            if let Some(to) = seek_bounded(f, m.write, &got)? {
                let low = m.lowest();
                m.start = if (low..=m.write).contains(&to) { low } else { to };
                m.write = to;
            }
        }
        Op::RStart(_) | Op::RCur(_) => {
            let f = seek_from(op);
            let got = r.seek(f).map_err(|e| e.to_string());
            saw((op, got.as_ref().ok()));
            if let Some(to) = seek_bounded(f, m.read, &got)? {
                m.read = to;
            }
        }
        Op::WEnd(_) | Op::REnd(_) => {
            // there is no end in a window over an unbounded stream
            let f = seek_from(op);
            let got = if matches!(op, Op::WEnd(_)) { w.seek(f) } else { r.seek(f) };
            if let Ok(p) = got {
                bad!("seek", "seek to {f:?} in a bounded storage returned {p}");
            }
        }
        Op::Read(n) => {
            let mut buf = vec![0xEE; n];
            let got = r.read(&mut buf).map_err(|e| e.to_string());
            saw((op, got.as_ref().ok(), &buf));
            let ahead = m.write.saturating_sub(m.read);
            let served = ahead > 0 && m.read >= m.lowest() && n as u64 <= m.max && n > 0;
            match got {
                Ok(k) if k as u64 > ahead.min(n as u64) => {
                    bad!("beyond", "read({n}) at {} returned {k} bytes, the writer is at {}", m.read, m.write)
                }
                Ok(0) if served => bad!("short", "read({n}) at {} returned nothing, the writer is at {}", m.read, m.write),
                Ok(k) => {
                    for (j, got) in buf[..k].iter().enumerate() {
                        let p = m.read + j as u64;
                        match m.data.get(&p) {
                            Some(want) if want == got => {}
                            want => bad!("wrong", "read({n}) at {} returned {got:#x} for position {p}, last written there is {want:?}", m.read),
                        }
                    }
                    m.read += k as u64;
                }
                Err(e) if served => bad!("read-error", "read({n}) at {} failed, the writer is at {}: {e}", m.read, m.write),
                Err(_) => {}
            }
        }
    }
    Ok(())
}

fn seek_bounded(f: SeekFrom, at: u64, got: &Result<u64, String>) -> Result<Option<u64>, crate::ctl::Bad> {
    match (target(f, at), got) {
        (Some(want), Ok(p)) if want == *p => Ok(Some(want)),
        (Some(want), Err(_)) if absurd(want) => Ok(None),
        (None, Err(_)) => Ok(None),
        (want, got) => bad!("seek", "seek to {f:?} from {at} returned {got:?}, expected {want:?}"),
    }
}

/// Remembers what it was asked for.
#[derive(Clone)]
struct Recorder {
    tag: &'static str,
    inner: Inner,
    asked: Arc<Mutex<Vec<(&'static str, Option<u64>)>>>,
}

impl StorageProvider for Recorder {
    type Reader = R2;
    type Writer = W2;

    fn max_capacity(&self) -> Option<usize> {
        Some(if self.tag == "fixed" { 1001 } else { 1002 })
    }

    fn into_reader_writer(self, len: Option<u64>) -> std::io::Result<(R2, W2)> {
        self.asked.lock().unwrap().push((self.tag, len));
        Ok(match self.inner {
            Inner::Mem => {
                let (r, w) = MemoryStorageProvider.into_reader_writer(len)?;
                (R2::M(r), W2::M(w))
            }
            Inner::Buffering => unreachable!("not the library's"),
            Inner::Temp => {
                let (r, w) = temp().into_reader_writer(len)?;
                (R2::T(Box::new(r)), W2::T(w))
            }
        })
    }
}

enum R2 {
    M(MemoryStorage),
    T(R),
}
enum W2 {
    M(MemoryStorage),
    T(std::fs::File),
}
impl Read for R2 {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        match self {
            R2::M(m) => m.read(b),
            R2::T(t) => t.read(b),
        }
    }
}
impl Seek for R2 {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        match self {
            R2::M(m) => m.seek(p),
            R2::T(t) => t.seek(p),
        }
    }
}
impl Write for W2 {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        match self {
            W2::M(m) => m.write(b),
            W2::T(t) => t.write(b),
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        match self {
            W2::M(m) => m.flush(),
            W2::T(t) => t.flush(),
        }
    }
}
impl Seek for W2 {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        match self {
            W2::M(m) => m.seek(p),
            W2::T(t) => t.seek(p),
        }
    }
}

pub fn adaptive(s: &Adaptive) -> Res {
    let asked = Arc::new(Mutex::new(vec![]));
    let fixed = Recorder { tag: "fixed", inner: s.inner.0, asked: asked.clone() };
    let variable = Recorder { tag: "variable", inner: s.inner.1, asked: asked.clone() };
    let n = NonZeroUsize::new(s.buffer).expect("buffer size");
    let (p, expect_tag) = if s.same {
        (AdaptiveStorageProvider::new(fixed, n), false)
    } else {
        (AdaptiveStorageProvider::with_fixed_and_variable(fixed, variable, n), true)
    };
    step();
    let small = s.len.is_none_or(|l| l <= s.buffer as u64);
    // the limit of what it picks
    let limit = p.max_capacity_for(s.len);
    let want_limit = match s.len {
        None => s.buffer,
        Some(_) if small || !expect_tag => 1001,
        Some(_) => 1002,
    };
    if limit != Some(want_limit) {
        bad!("capacity", "length {:?}, buffer {}: the capacity is {limit:?}, that of the storage it uses is {want_limit}", s.len, s.buffer);
    }
    let (mut r, mut w) = open(p, s.len)?;
    let want = (
        if small || !expect_tag { "fixed" } else { "variable" },
        s.len.or(Some(s.buffer as u64)),
    );
    let got = asked.lock().unwrap().clone();
    saw(&got);
    if got != [want] {
        bad!("pick", "length {:?}, buffer {}: it created {got:?}, expected {want:?}", s.len, s.buffer);
    }
    // the same operations on what it should have picked
    let picked = if small || !expect_tag { s.inner.0 } else { s.inner.1 };
    let (mut r2, mut w2) = match (s.len, picked) {
        (None, i) => make_bounded(i, s.buffer, None)?,
        (l, Inner::Mem) => open(MemoryStorageProvider, l)?,
        (l, Inner::Temp) => open(temp(), l)?,
        (_, Inner::Buffering) => unreachable!("not the library's"),
    };
    for i in 0..s.depth {
        let op = s.ops[choose(s.ops.len())];
        step();
        let a = apply(op, i as u64, &mut *r, &mut *w);
        let b = apply(op, i as u64, &mut *r2, &mut *w2);
        saw((op, &a));
        if a != b {
            bad!("differs", "{op:?}: {a:?}, the storage it uses gives {b:?}");
        }
    }
    Ok(())
}

/// Result, data, and both positions afterwards.
fn apply(op: Op, i: u64, r: &mut dyn StorageReader, w: &mut dyn StorageWriter) -> (Result<u64, String>, Vec<u8>, Option<u64>, Option<u64>) {
    let mut buf = vec![];
    let res = match op {
        Op::Write(n) => w.write(&bytes(i, 0, n)).map(|n| n as u64),
        Op::Flush => w.flush().map(|()| 0),
        Op::WStart(_) | Op::WCur(_) | Op::WEnd(_) => w.seek(seek_from(op)),
        Op::RStart(_) | Op::RCur(_) | Op::REnd(_) => r.seek(seek_from(op)),
        Op::Read(n) => {
            buf = vec![0; n];
            r.read(&mut buf).map(|n| n as u64)
        }
    };
    (res.map_err(|e| e.kind().to_string()), buf, r.stream_position().ok(), w.stream_position().ok())
}

/// All states of the reference window within some positions, each transition tried on the real
/// storage after the shortest way to its start.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Graph {
    pub inner: Inner,
    pub buffer: usize,
    pub len: Option<u64>,
    pub furthest: u64,
}

pub fn graph(s: &Graph) -> Res {
    let size = s.len.unwrap_or(u64::MAX).min(s.buffer as u64);
    let b = s.buffer;
    let mut ops = vec![Op::Write(1), Op::Write(2), Op::Write(b), Op::Read(1), Op::Read(2), Op::Read(b), Op::RCur(-1), Op::RCur(1), Op::WCur(-1), Op::WCur(1)];
    ops.extend([Op::RStart(0), Op::RStart(s.furthest), Op::WStart(0), Op::WStart(s.furthest - 1)]);
    ops.dedup();
    // which position is in which slot of the buffer
    type State = (u64, u64, u64, Vec<Option<u64>>);
    let mut seen: std::collections::HashSet<State> = Default::default();
    let mut frontier: Vec<(Vec<Op>, State)> = vec![(vec![], (0, 0, 0, vec![None; size as usize]))];
    seen.insert(frontier[0].1.clone());
    while !frontier.is_empty() {
        let mut next = vec![];
        for (path, state) in &frontier {
            for op in &ops {
                let (mut r, mut w) = make_bounded(s.inner, s.buffer, s.len)?;
                let mut m = Window { size, max: s.buffer as u64, read: 0, write: 0, start: 0, data: BTreeMap::new() };
                let mut writes = 0;
                let mut slots = state.3.clone();
                step();
                for (i, o) in path.iter().chain([op]).enumerate() {
                    let before = m.write;
                    if let Err(mut e) = bounded_op(*o, &mut *r, &mut *w, &mut m, &mut writes) {
                        e.what = format!("{} after {:?}", e.what, path.iter().chain([op]).take(i + 1).collect::<Vec<_>>());
                        return Err(e);
                    }
                    if i == path.len() && matches!(o, Op::Write(_)) {
                        for p in before..m.write {
                            slots[(p % size) as usize] = Some(p);
                        }
                    }
                }
                if m.read > s.furthest || m.write > s.furthest {
                    continue;
                }
                let new = (m.read, m.write, m.start, slots);
                if seen.insert(new.clone()) {
                    let mut p = path.clone();
                    p.push(*op);
                    next.push((p, new));
                }
            }
        }
        frontier = next;
    }
    crate::ctl::states(seen.len() as u64);
    Ok(())
}

/// The scratch directory of this thread; other threads remove theirs when they end.
pub fn remove_scratch() {
    DIR.with(|d| {
        let _ = std::fs::remove_dir_all(d.path());
    });
}
