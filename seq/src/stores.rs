//! C29: every stream gets a storage of its own.
//!
//! Storages are created from one provider (or clones of it), used and dropped in every order; each is
//! compared with its own reference, and the files in the scratch directory with what may be there.

use std::collections::BTreeSet;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::num::NonZeroUsize;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

use serde::{Deserialize, Serialize};
use stream_download::storage::adaptive::AdaptiveStorageProvider;
use stream_download::storage::bounded::BoundedStorageProvider;
use stream_download::storage::memory::MemoryStorageProvider;
use stream_download::storage::temp::{TempStorageProvider, tempfile};
use stream_download::storage::{StorageProvider, StorageReader, StorageWriter};

use crate::bad;
use crate::ctl::{Res, note, pick, saw, step};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Kind {
    Mem,
    TempIn,
    TempPrefix,
    TempPrefixIn,
    TempBuilder,
    BoundedMem(usize),
    BoundedTemp(usize),
    /// the same kind for both
    AdaptiveTemp(usize),
    /// memory, or a file if it's too large
    AdaptiveBoth(usize),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    Create,
    Write(usize),
    Read(usize),
    Rewind(usize),
    /// the writer goes back to 1
    Back(usize),
    DropReader(usize),
    DropWriter(usize),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Stores {
    pub kind: Kind,
    pub len: Option<u64>,
    pub ops: Vec<Op>,
    pub depth: usize,
}

/// What the innermost provider was asked for, and how far it was written to.
#[derive(Default, Debug)]
struct Asked {
    lens: Vec<Option<u64>>,
    furthest: u64,
}

#[derive(Clone)]
struct Watch<P>(P, Arc<Mutex<Asked>>);

struct WatchWriter<W>(W, Arc<Mutex<Asked>>);

impl<P: StorageProvider> StorageProvider for Watch<P> {
    type Reader = P::Reader;
    type Writer = WatchWriter<P::Writer>;

    fn into_reader_writer(self, len: Option<u64>) -> io::Result<(Self::Reader, Self::Writer)> {
        self.1.lock().unwrap().lens.push(len);
        let (r, w) = self.0.into_reader_writer(len)?;
        Ok((r, WatchWriter(w, self.1)))
    }
}

impl<W: Write + Seek> Write for WatchWriter<W> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.0.write(buf)?;
        let p = self.0.stream_position()?;
        let mut a = self.1.lock().unwrap();
        a.furthest = a.furthest.max(p);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.flush()
    }
}

impl<W: Seek> Seek for WatchWriter<W> {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        self.0.seek(to)
    }
}

/// What a storage must do.
struct One {
    r: Option<Box<dyn StorageReader>>,
    w: Option<Box<dyn StorageWriter>>,
    data: Vec<u8>,
    rp: usize,
    wp: usize,
    file: Option<PathBuf>,
}

trait Maker {
    fn make(&self, len: Option<u64>) -> io::Result<(Box<dyn StorageReader>, Box<dyn StorageWriter>)>;
}

impl<P: StorageProvider<Reader: 'static> + Clone> Maker for P {
    fn make(&self, len: Option<u64>) -> io::Result<(Box<dyn StorageReader>, Box<dyn StorageWriter>)> {
        let (r, w) = self.clone().into_reader_writer(len)?;
        Ok((Box::new(r), Box::new(w)))
    }
}

fn files(dir: &Path, prefix: &str) -> BTreeSet<PathBuf> {
    std::fs::read_dir(dir)
        .map(|d| d.filter_map(|e| Some(e.ok()?.path())).filter(|p| p.file_name().is_some_and(|n| n.to_string_lossy().starts_with(prefix))).collect())
        .unwrap_or_default()
}

pub fn run(s: &Stores) -> Res {
    static COUNT: AtomicU64 = AtomicU64::new(0);
    let dir = tempfile::Builder::new().prefix("verif-seq-").tempdir_in(crate::storage::scratch()).expect("scratch directory");
    let made = Arc::new(AtomicUsize::new(0));
    let asked = Arc::new(Mutex::new(Asked::default()));
    let unique = format!("verif-{}-{}-", std::process::id(), COUNT.fetch_add(1, Ordering::Relaxed));
    let nz = |n| NonZeroUsize::new(n).expect("size");
    let temp = TempStorageProvider::new_in(dir.path());
    let (mut root, mut prefix) = (dir.path().to_path_buf(), String::new());
    let maker: Box<dyn Maker> = match s.kind {
        Kind::Mem => Box::new(MemoryStorageProvider),
        Kind::TempIn => Box::new(temp),
        Kind::TempPrefix => {
            (root, prefix) = (std::env::temp_dir(), unique.clone());
            Box::new(TempStorageProvider::with_prefix(&unique))
        }
        Kind::TempPrefixIn => {
            prefix = unique.clone();
            Box::new(TempStorageProvider::with_prefix_in(&unique, dir.path()))
        }
        Kind::TempBuilder => {
            prefix = "made-".into();
            let (made, dir) = (made.clone(), dir.path().to_path_buf());
            Box::new(TempStorageProvider::with_tempfile_builder(move || {
                made.fetch_add(1, Ordering::SeqCst);
                tempfile::Builder::new().prefix("made-").tempfile_in(&dir)
            }))
        }
        Kind::BoundedMem(n) => Box::new(BoundedStorageProvider::new(Watch(MemoryStorageProvider, asked.clone()), nz(n))),
        Kind::BoundedTemp(n) => Box::new(BoundedStorageProvider::new(Watch(temp, asked.clone()), nz(n))),
        Kind::AdaptiveTemp(n) => Box::new(AdaptiveStorageProvider::new(temp, nz(n))),
        Kind::AdaptiveBoth(n) => Box::new(AdaptiveStorageProvider::with_fixed_and_variable(MemoryStorageProvider, temp, nz(n))),
    };
    // the size of the window, if there is one
    let window = match (s.kind, s.len) {
        (Kind::BoundedMem(n) | Kind::BoundedTemp(n), len) => Some(len.map_or(n, |l| n.min(l as usize))),
        (Kind::AdaptiveTemp(n) | Kind::AdaptiveBoth(n), None) => Some(n),
        _ => None,
    };
    let in_file = match (s.kind, s.len) {
        (Kind::Mem | Kind::BoundedMem(_), _) | (Kind::AdaptiveBoth(_), None) => false,
        (Kind::AdaptiveBoth(n), Some(l)) => l > n as u64,
        _ => true,
    };
    let mut all: Vec<One> = vec![];
    let mut tag = 0u8;
    for i in 0..s.depth {
        let can: Vec<Op> = s
            .ops
            .iter()
            .copied()
            .filter(|op| match op {
                Op::Create => all.len() < 3,
                Op::Write(i) | Op::DropWriter(i) => all.get(*i).is_some_and(|o| o.w.is_some()),
                Op::Read(i) | Op::DropReader(i) => all.get(*i).is_some_and(|o| o.r.is_some()),
                Op::Rewind(i) => window.is_none() && all.get(*i).is_some_and(|o| o.r.is_some() && o.rp > 0),
                Op::Back(i) => window.is_none() && all.get(*i).is_some_and(|o| o.w.is_some() && o.wp > 1),
            })
            .collect();
        if can.is_empty() {
            break;
        }
        let op = if i == 0 { Op::Create } else { pick(&can) };
        note(|| format!("{op:?}"));
        step();
        match op {
            Op::Create => {
                let before = files(&root, &prefix);
                let (r, w) = match maker.make(s.len) {
                    Ok(x) => x,
                    Err(e) => bad!("create", "creating storage {} failed: {e}", all.len()),
                };
                let new: Vec<_> = files(&root, &prefix).difference(&before).cloned().collect();
                if new.len() != usize::from(in_file) {
                    bad!("files", "creating storage {} made the files {new:?} in {root:?} with the prefix {prefix:?}", all.len());
                }
                all.push(One { r: Some(r), w: Some(w), data: vec![], rp: 0, wp: 0, file: new.into_iter().next() });
                if s.kind == Kind::TempBuilder && made.load(Ordering::SeqCst) != all.len() {
                    bad!("builder", "the builder ran {} times for {} storages", made.load(Ordering::SeqCst), all.len());
                }
                if let (Kind::BoundedMem(_) | Kind::BoundedTemp(_), Some(n)) = (s.kind, window) {
                    let a = asked.lock().unwrap();
                    if a.lens.len() != all.len() || a.lens.iter().any(|l| *l != Some(n as u64)) {
                        bad!("size", "the storage of a window of {n} bytes was created for {:?}", a.lens);
                    }
                }
            }
            Op::Write(i) => {
                let o = &mut all[i];
                tag = tag % 120 + 1;
                let b = [tag, tag + 121];
                let room = window.map_or(2, |n| (n - (o.wp - o.rp)).min(2));
                let got = o.w.as_mut().expect("writer").write(&b);
                saw((op, got.as_ref().ok()));
                match got {
                    Ok(k) if k == room => {
                        o.data.resize(o.data.len().max(o.wp + k), 0);
                        o.data[o.wp..o.wp + k].copy_from_slice(&b[..k]);
                        o.wp += k;
                    }
                    // nobody will read it
                    Ok(0) | Err(_) if o.r.is_none() => {}
                    got => bad!("write", "storage {i}: a write of 2 bytes at {} with room for {room} returned {got:?}", o.wp),
                }
                if let Err(e) = o.w.as_mut().expect("writer").flush() {
                    bad!("write", "storage {i}: flush failed: {e}");
                }
                if let (Kind::BoundedMem(_) | Kind::BoundedTemp(_), Some(n)) = (s.kind, window)
                    && asked.lock().unwrap().furthest > n as u64
                {
                    bad!("size", "a window of {n} bytes wrote up to {} of its storage", asked.lock().unwrap().furthest);
                }
            }
            Op::Read(i) => {
                let o = &mut all[i];
                let mut buf = vec![0; window.map_or(3, |_| 2)];
                if let (Kind::BoundedMem(n) | Kind::BoundedTemp(n) | Kind::AdaptiveTemp(n) | Kind::AdaptiveBoth(n), true) = (s.kind, window.is_some()) {
                    buf.truncate(n);
                }
                let want = &o.data[o.rp.min(o.data.len())..];
                let want = &want[..want.len().min(buf.len())];
                match o.r.as_mut().expect("reader").read(&mut buf) {
                    Ok(k) if buf[..k] == *want => {
                        saw((op, k));
                        o.rp += k;
                    }
                    got => bad!("read", "storage {i}: a read of {} bytes at {} returned {got:?} with {buf:?}, expected {want:?}", buf.len(), o.rp),
                }
            }
            Op::Rewind(i) | Op::Back(i) => {
                let o = &mut all[i];
                let (to, got) = match op {
                    Op::Back(_) => (1, o.w.as_mut().expect("writer").seek(SeekFrom::Start(1))),
                    _ => (0, o.r.as_mut().expect("reader").rewind().map(|()| 0)),
                };
                if !matches!(got, Ok(p) if p == to) {
                    bad!("seek", "storage {i}: a seek to {to} returned {got:?}");
                }
                if matches!(op, Op::Back(_)) { o.wp = 1 } else { o.rp = 0 }
            }
            Op::DropReader(i) => all[i].r = None,
            Op::DropWriter(i) => all[i].w = None,
        }
        let there = files(&root, &prefix);
        if let Some(f) = there.iter().find(|f| !all.iter().any(|o| o.file.as_ref() == Some(f) && (o.r.is_some() || o.w.is_some()))) {
            bad!("left-over", "the file {f:?} is there although its storage is gone");
        }
    }
    // what each has at the end
    for (i, o) in all.iter_mut().enumerate() {
        if let Some(mut r) = o.r.take() {
            let mut rest = vec![];
            let mut buf = [0; 1];
            loop {
                match r.read(&mut buf) {
                    Ok(0) => break,
                    Ok(_) => rest.push(buf[0]),
                    Err(e) => bad!("read", "storage {i}: reading the rest failed: {e}"),
                }
            }
            if rest != o.data[o.rp.min(o.data.len())..] {
                bad!("read", "storage {i}: the rest from {} is {rest:?}, expected {:?}", o.rp, &o.data[o.rp..]);
            }
        }
        o.w = None;
    }
    if let Some(f) = files(&root, &prefix).first() {
        bad!("left-over", "the file {f:?} is left");
    }
    Ok(())
}

pub fn specs(deep: bool) -> Vec<Stores> {
    use Op::*;
    let mut v = vec![];
    let two = vec![Create, Write(0), Read(0), Rewind(0), Back(0), DropReader(0), DropWriter(0), Write(1), Read(1), Back(1), DropReader(1), DropWriter(1), Write(2), Read(2)];
    for kind in [
        Kind::Mem,
        Kind::TempIn,
        Kind::TempPrefix,
        Kind::TempPrefixIn,
        Kind::TempBuilder,
        Kind::BoundedMem(2),
        Kind::BoundedMem(3),
        Kind::BoundedTemp(3),
        Kind::AdaptiveTemp(3),
        Kind::AdaptiveBoth(3),
    ] {
        for len in [None, Some(2), Some(5)] {
            let memory = matches!(kind, Kind::Mem | Kind::BoundedMem(_)) || matches!((kind, len), (Kind::AdaptiveBoth(_), None | Some(2)));
            let depth = if memory { 7 } else { 6 } + usize::from(deep);
            v.push(Stores { kind, len, ops: two.clone(), depth });
        }
    }
    v
}
