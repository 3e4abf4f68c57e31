//! C19: every behaviour of an asynchronous reader, poll by poll.

use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

use futures_util::Stream;
use serde::{Deserialize, Serialize};
use stream_download::async_read::{AsyncReadStream, AsyncReadStreamParams};
use stream_download::source::SourceStream;
use tokio::io::{AsyncRead, ReadBuf};

use crate::aio::block;
use crate::bad;
use crate::ctl::{Res, choose, note, saw, step};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Reader {
    /// how many bytes a read may return
    pub reads: Vec<usize>,
    pub size: usize,
    pub len: Option<u64>,
    pub via_create: bool,
    /// polls of the stream
    pub depth: usize,
    pub errors: bool,
    pub pending: bool,
    /// the stream is asked to seek and reconnect in between
    pub seeks: bool,
}

#[derive(Default)]
struct Log {
    given: usize,
    ended: bool,
    /// what the reader did since the stream was polled
    did: Vec<Did>,
    errors: u32,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Did {
    Gave(usize),
    End,
    Pend,
    Fail(io::ErrorKind),
}

struct Mock {
    spec: Reader,
    log: Arc<Mutex<Log>>,
}

fn byte(p: usize) -> u8 {
    (p % 251) as u8 + 1
}

const KINDS: [io::ErrorKind; 5] = [
    io::ErrorKind::Other,
    io::ErrorKind::Interrupted,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::BrokenPipe,
];

impl AsyncRead for Mock {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let s = &self.spec;
        let mut log = self.log.lock().unwrap();
        let left = s.size - log.given;
        let mut can = vec![];
        for n in &s.reads {
            let n = (*n).min(left).min(buf.remaining());
            if n > 0 && !can.contains(&Did::Gave(n)) {
                can.push(Did::Gave(n));
            }
        }
        can.push(Did::End);
        if s.pending && log.did.is_empty() {
            can.push(Did::Pend);
        }
        if s.errors && log.errors < 2 {
            can.extend(KINDS.map(Did::Fail));
        }
        if log.ended {
            can = vec![Did::End];
        }
        let did = can[choose(can.len())].clone();
        log.did.push(did.clone());
        match did {
            Did::Gave(n) => {
                for p in log.given..log.given + n {
                    buf.put_slice(&[byte(p)]);
                }
                log.given += n;
                Poll::Ready(Ok(()))
            }
            Did::End => {
                log.ended = true;
                Poll::Ready(Ok(()))
            }
            Did::Pend => Poll::Pending,
            Did::Fail(k) => {
                log.errors += 1;
                Poll::Ready(Err(io::Error::new(k, format!("fail-{}", log.errors))))
            }
        }
    }
}

pub fn run(s: &Reader) -> Res {
    let log = Arc::new(Mutex::new(Log::default()));
    let mock = Mock { spec: s.clone(), log: log.clone() };
    step();
    let mut h = if s.via_create {
        let mut p = AsyncReadStreamParams::new(mock);
        if s.len.is_some() {
            p = p.content_length(s.len);
        }
        block(AsyncReadStream::create(p))?.unwrap_or_else(|e| match e {})
    } else {
        AsyncReadStream::new(mock, s.len)
    };
    let mut got = 0;
    let mut over = false;
    let mut failures = vec![];
    for _ in 0..s.depth {
        if h.content_length() != s.len || h.supports_seek() {
            bad!("facts", "content_length {:?} for {:?}, supports_seek {}", h.content_length(), s.len, h.supports_seek());
        }
        if s.seeks {
            let before = log.lock().unwrap().given;
            let r = match choose(4) {
                0 => None,
                1 => Some(block(h.seek_range(got as u64, None))?),
                2 => Some(block(h.seek_range(0, Some(1)))?),
                _ => Some(block(h.reconnect(got as u64))?),
            };
            match r {
                Some(Ok(())) => bad!("accepted", "a seek or reconnect of a stream that cannot seek succeeded"),
                Some(Err(e)) if e.kind() != io::ErrorKind::Unsupported => bad!("accepted", "a seek or reconnect failed with {e:?}"),
                _ => {}
            }
            if log.lock().unwrap().given != before {
                bad!("disturbed", "a refused seek or reconnect read from the source");
            }
        }
        log.lock().unwrap().did.clear();
        step();
        let item = Pin::new(&mut h).poll_next(&mut Context::from_waker(Waker::noop()));
        let did = log.lock().unwrap().did.clone();
        note(|| format!("{item:?} when the reader did {did:?}"));
        saw((&did, item.is_ready()));
        // it may read ahead, as long as nothing is lost or out of order
        failures.extend(did.iter().filter_map(|d| if let Did::Fail(k) = d { Some(*k) } else { None }));
        let (given, ended) = {
            let l = log.lock().unwrap();
            (l.given, l.ended)
        };
        match item {
            Poll::Ready(Some(Ok(b))) => {
                if b.is_empty() {
                    bad!("empty", "an empty item");
                }
                for x in b.iter() {
                    if *x != byte(got) || got >= given {
                        bad!("wrong", "byte {got} is {x}");
                    }
                    got += 1;
                }
            }
            Poll::Ready(item) if got != given => bad!("dropped", "{item:?} after {got} bytes, {given} were read"),
            Poll::Ready(Some(Err(e))) => {
                let k = if failures.is_empty() { None } else { Some(failures.remove(0)) };
                if k != Some(e.kind()) || !e.to_string().contains("fail-") {
                    bad!("error", "{e:?} instead of the error of kind {k:?}");
                }
                over = true;
            }
            // nothing more after the end or an error
            Poll::Ready(None) if failures.is_empty() && (ended || over) => {}
            Poll::Pending if did.contains(&Did::Pend) => {}
            item => bad!("item", "the stream gives {item:?} when the reader did {did:?}"),
        }
    }
    Ok(())
}

pub fn specs(deep: bool) -> Vec<Reader> {
    let mut v = vec![];
    for via_create in [false, true] {
        for len in [None, Some(0), Some(4), Some(u64::MAX)] {
            let d = usize::from(deep);
            let base = Reader { reads: vec![1, 2, 64], size: 6, len, via_create, depth: 5 + d, errors: true, pending: true, seeks: false };
            v.push(base.clone());
            v.push(Reader { seeks: true, depth: 3 + d, ..base.clone() });
            v.push(Reader { reads: vec![1, 2047, 2048, 4095, 4096, 4097, 8192], size: 20_000, depth: 4 + d, ..base.clone() });
            v.push(Reader { reads: vec![1], size: 64, depth: 14 + 2 * d, errors: false, ..base.clone() });
            v.push(Reader { reads: vec![4096, 1 << 20], size: 1 << 16, depth: 7 + d, errors: false, ..base });
        }
    }
    v
}
