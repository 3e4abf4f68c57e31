//! What must hold in every execution. Each monitor reports (property, signature, description).

use std::collections::{BTreeMap, BTreeSet};
use std::io::SeekFrom;

use mcx::End;

use crate::world::*;

pub struct Exec<'a> {
    pub spec: &'a Spec,
    pub log: &'a [Ev],
    pub stored: &'a BTreeMap<u64, u8>,
    pub end: &'a End,
    pub panics: &'a [String],
    pub stream_dropped: bool,
}

type V = Vec<(String, String, String)>;

fn v(out: &mut V, p: &str, sig: &str, what: String) {
    if !out.iter().any(|(a, b, _)| a == p && b == sig) {
        out.push((p.into(), sig.into(), what));
    }
}

impl Exec<'_> {
    fn faults(&self) -> impl Iterator<Item = Fault> + '_ {
        self.log.iter().filter_map(|e| match e {
            Ev::Fault(f) => Some(*f),
            _ => None,
        })
    }
    fn has_fault(&self, f: Fault) -> bool {
        self.faults().any(|g| g == f)
    }
    fn has_bad_chunk(&self) -> bool {
        self.faults().any(|f| matches!(f, Fault::ErrItem | Fault::ErrThenEnd | Fault::EmptyChunk))
    }
    fn cancelled(&self) -> bool {
        self.log.iter().any(|e| matches!(e, Ev::Cancel))
    }
    fn cap(&self) -> Option<u64> {
        self.spec
            .store
            .cap(self.spec.known.then_some(self.spec.len))
            .map(|c| c as u64)
    }
    /// A fault after which the download may legitimately fail.
    fn may_fail(&self) -> bool {
        self.faults().any(fatal)
    }
    /// A fault after which the source cannot deliver the whole resource any more.
    fn may_be_short(&self) -> bool {
        let recoverable = self.spec.seekable && self.spec.known;
        self.faults()
            .any(|f| matches!(f, Fault::EarlyEnd | Fault::ErrThenEnd) && !recoverable)
    }
}

fn fatal(f: Fault) -> bool {
    matches!(
        f,
        Fault::SeekFail
            | Fault::WriteFail
            | Fault::FlushFail
            | Fault::WriterSeekFail
            | Fault::FinishFail
            | Fault::Panic
            | Fault::Abort
    )
}

pub fn judge(x: &Exec<'_>) -> V {
    let mut out = V::new();
    if let End::Divergence(_) = x.end {
        return out;
    }
    data(x, &mut out);
    hang(x, &mut out);
    seeks(x, &mut out);
    requests(x, &mut out);
    completion(x, &mut out);
    bounded(x, &mut out);
    failure(x, &mut out);
    cancellation(x, &mut out);
    death(x, &mut out);
    reconnect(x, &mut out);
    progress(x, &mut out);
    prefetch(x, &mut out);
    waiting(x, &mut out);
    batches(x, &mut out);
    if x.log.iter().any(|e| matches!(e, Ev::Starved)) {
        v(&mut out, "C27", "starved", "the stream beside this one cannot go on although nothing happened to it".into());
    }
    out
}

/// C27: the stream beside another one, to which nothing happens, behaves as if it was alone.
pub fn beside(x: &Exec<'_>) -> V {
    let mut out = V::new();
    for (p, sig, what) in judge(x) {
        v(&mut out, "C27", &format!("beside-{sig}"), format!("the stream beside the other one: {what} [{p}]"));
    }
    let failed = |m: &str| format!("the stream beside the other one: {m}, although nothing happened to it");
    for e in x.log {
        match e {
            Ev::Read { len, pos, got: Err(m), .. } => v(&mut out, "C27", "beside-failed", failed(&format!("read({len}) at {pos} failed: {m}"))),
            Ev::Seek { to, got: Err(m), .. } => v(&mut out, "C27", "beside-failed", failed(&format!("seek({to:?}) failed: {m}"))),
            Ev::OnFinish { ok: false, .. } => v(&mut out, "C27", "beside-failed", failed("its download failed")),
            _ => {}
        }
    }
    out
}

/// C01 (and C09-like storage positions), C03
fn data(x: &Exec<'_>, out: &mut V) {
    let s = x.spec;
    for e in x.log {
        if let Ev::Read { len, pos, got, .. } = e {
            match got {
                Ok(b) => {
                    for (i, c) in b.iter().enumerate() {
                        let p = pos + i as u64;
                        if p >= s.len {
                            v(out, "C03", "data-past-end", format!(
                                "read({len}) at {pos} returned {} bytes, past the end {}", b.len(), s.len));
                            v(out, "C01", "data-past-end", format!("byte at {p} past the end {}", s.len));
                            break;
                        }
                        if *c != byte(p) {
                            let what = format!(
                                "read({len}) at {pos} returned {b:?}: byte at {p} is {c}, resource has {}", byte(p));
                            v(out, "C01", "wrong-byte", what.clone());
                            if x.cap().is_some() {
                                v(out, "C07", "wrong-byte", what.clone());
                            }
                            if x.log.iter().any(|e| matches!(e, Ev::Seek { got: Ok(_), .. })) {
                                v(out, "C04", "wrong-byte-after-seek", what.clone());
                            }
                            if !s.seekable {
                                v(out, "C16", "wrong-byte", what.clone());
                            }
                            if x.has_bad_chunk() {
                                v(out, "C22", "wrong-byte", what.clone());
                            }
                            if x.log.iter().any(|e| matches!(e, Ev::Reconnect { .. })) {
                                v(out, "C13", "wrong-byte", what.clone());
                            }
                            if x.has_fault(Fault::PartialWrite) || s.batch < s.len as usize {
                                v(out, "C23", "wrong-byte", what);
                            }
                            break;
                        }
                    }
                    if b.is_empty() && *len > 0 && *pos < s.len && !x.cancelled() {
                        // a source that ended early for good: what it delivered is the end
                        // (a bounded storage may have had the position once)
                        let end = x.log.iter().rev().find_map(|e| match e {
                            Ev::EndItem { pos, early: true } => Some(*pos),
                            _ => None,
                        });
                        let gone = x.cap().is_some() && end.is_some_and(|e| e <= *pos);
                        let short = x.may_be_short() && (gone || !x.stored.contains_key(pos));
                        if !short {
                            let what = format!("read({len}) at {pos} returned 0 bytes, the resource has {}", s.len);
                            v(out, "C03", "early-eof", what.clone());
                            if x.cap().is_some() {
                                v(out, "C07", "early-eof", what.clone());
                            }
                            if !s.seekable {
                                v(out, "C16", "early-eof", what.clone());
                            }
                            if x.may_fail() {
                                v(out, "C11", "early-eof", what.clone());
                            }
                            if x.has_fault(Fault::Stall) {
                                v(out, "C13", "early-eof", what.clone());
                            }
                            if x.has_bad_chunk() {
                                v(out, "C22", "early-eof", what);
                            }
                        }
                    }
                    // stale bytes beyond what a source that ended early delivered
                    if x.may_be_short() {
                        for i in 0..b.len() as u64 {
                            if !x.stored.contains_key(&(pos + i)) {
                                v(out, "C03", "phantom", format!(
                                    "read({len}) at {pos} returned {b:?}, but position {} was never delivered", pos + i));
                                v(out, "C01", "phantom", format!(
                                    "read({len}) at {pos} returned {b:?}, but position {} was never delivered", pos + i));
                                break;
                            }
                        }
                    }
                }
                Err(m) => {
                    if m.starts_with("returned") {
                        v(out, "C01", "overlong", m.clone());
                    }
                }
            }
        }
        if let Ev::Write { pos, good: false, .. } = e {
            let what = format!("bytes stored at {pos} are not the resource's bytes at {pos}");
            v(out, "C01", "wrong-store", what.clone());
            v(out, "C06", "wrong-store", what.clone());
            if x.log.iter().any(|e| matches!(e, Ev::Reconnect { .. })) {
                v(out, "C13", "wrong-store", what.clone());
            }
            if x.has_bad_chunk() {
                v(out, "C22", "wrong-store", what.clone());
            }
            v(out, "C23", "wrong-store", what);
        }
    }
}

/// C02 and its relatives: an execution that does not end, or panics.
fn hang(x: &Exec<'_>, out: &mut V) {
    let s = x.spec;
    let mut props: Vec<&str> = vec!["C02"];
    if x.cap().is_some() {
        props.push("C07");
    }
    if x.may_fail() {
        props.push("C11");
    }
    if x.has_fault(Fault::Panic) || x.has_fault(Fault::Abort) {
        props.push("C24");
    }
    if x.cancelled() || s.program.contains(&Op::Drop) {
        props.push("C12");
    }
    if x.has_fault(Fault::Stall) || x.log.iter().any(|e| matches!(e, Ev::Reconnect { .. })) {
        props.push("C13");
    }
    if s.prefetch > 0 {
        props.push("C15");
    }
    if !s.seekable {
        props.push("C16");
    }
    if x.has_bad_chunk() {
        props.push("C22");
    }
    props.push("C03");
    if s.known && s.seekable && x.cap().is_none() && !x.stream_dropped && !x.may_fail() && !x.has_fault(Fault::SeekStall) {
        props.push("C05");
    }
    let what = match x.end {
        End::Finished | End::Divergence(_) => None,
        End::Deadlock(b) => Some(("deadlock", format!("nothing can proceed: {}", b.join(", ")))),
        End::Horizon(h) => Some(("livelock", format!("the execution does not end ({h})"))),
    };
    if let Some((sig, what)) = what {
        let last = x.log.iter().rev().find_map(|e| match e {
            Ev::OpStart { i } => Some(*i),
            _ => None,
        });
        let op = last.map(|i| format!("{:?}", s.program[i]));
        let what = format!("{what}; reader in operation {op:?}");
        for p in &props {
            v(out, p, sig, what.clone());
        }
    }
    let injected = x.has_fault(Fault::Panic);
    for p in x.panics {
        if injected && p.contains("scripted panic") {
            continue;
        }
        for q in props.iter().filter(|q| **q != "C03") {
            v(out, q, "panic", format!("panic in {p}"));
        }
    }
}

/// C04
fn seeks(x: &Exec<'_>, out: &mut V) {
    let s = x.spec;
    let failed_possible = x.may_fail() || x.cancelled();
    for e in x.log {
        let Ev::Seek { to, pos, got, real } = e else { continue };
        let want: Option<i128> = match to {
            SeekFrom::Start(p) => Some(i128::from(*p)),
            SeekFrom::Current(d) => Some(i128::from(*pos) + i128::from(*d)),
            SeekFrom::End(d) if s.known => Some(i128::from(s.len) + i128::from(*d)),
            SeekFrom::End(_) => None,
        };
        let want = want.filter(|w| *w >= 0).map(|w| {
            if s.known { w.min(i128::from(s.len)) } else { w }
        });
        match (want, got) {
            (None, Ok(p)) => v(out, "C04", "accepted", format!(
                "seek({to:?}) at {pos} returned Ok({p}), it must be an error (length {}known)", if s.known { "" } else { "un" })),
            (Some(w), Ok(p)) if i128::from(*p) != w => v(out, "C04", "position", format!(
                "seek({to:?}) at {pos} returned {p}, expected {w}")),
            (Some(w), Err(m)) if !failed_possible => {
                let cap = x.cap();
                let too_far = cap.is_some_and(|c| w > i128::from(*pos) + i128::from(c));
                let back = cap.is_some() && w < i128::from(*pos);
                if !too_far && !back {
                    v(out, "C04", "refused", format!("seek({to:?}) at {pos} failed: {m}"));
                    if cap.is_some() {
                        v(out, "C07", "refused", format!("seek({to:?}) at {pos} failed: {m}"));
                    }
                }
            }
            (Some(w), Ok(_)) => {
                if let Some(c) = x.cap().filter(|c| w > i128::from(*pos) + i128::from(*c)) {
                    v(out, "C07", "far-seek-accepted", format!(
                        "seek({to:?}) at {pos} goes {} bytes ahead, storage has a capacity of {c}, and was accepted", w - i128::from(*pos)));
                }
            }
            _ => {}
        }
        match (got, real) {
            (Ok(p), Some(r)) if p != r => v(out, "C04", "not-there", format!(
                "seek({to:?}) returned {p} but the reader is at {r}")),
            (Err(_), Some(r)) if r != pos => v(out, "C04", "moved-on-error", format!(
                "seek({to:?}) failed but moved the reader from {pos} to {r}")),
            _ => {}
        }
    }
}

/// C06, C16
fn requests(x: &Exec<'_>, out: &mut V) {
    let s = x.spec;
    let mut pending: Option<u64> = None;
    for e in x.log {
        match e {
            Ev::SeekRange { start, end, stored, .. } => {
                if !s.seekable {
                    v(out, "C16", "seek-range", format!("range request {start}..{end:?} on a source that cannot seek"));
                }
                let limit = if s.known { Some(s.len) } else { None };
                if let Some(end) = end {
                    if start >= end {
                        v(out, "C06", "empty-range", format!("range request {start}..{end}"));
                    }
                    if limit.is_some_and(|l| *end > l) {
                        v(out, "C06", "past-end", format!("range request {start}..{end}, length {}", s.len));
                    }
                }
                if limit.is_some_and(|l| *start >= l) {
                    v(out, "C06", "past-end", format!("range request {start}..{end:?}, length {}", s.len));
                }
                if x.cap().is_none() {
                    if stored.contains(start) {
                        v(out, "C06", "have-it", format!("range request {start}..{end:?}, but byte {start} is in storage"));
                    }
                    if s.known && end.is_none() {
                        v(out, "C06", "open-end", format!("range request {start}.. without an end, length {}", s.len));
                    }
                    if let Some(end) = end {
                        if let Some(p) = stored.range(*start..(*end).max(*start)).next() {
                            v(out, "C06", "overlap", format!("range request {start}..{end}, but byte {p} is in storage"));
                        }
                    }
                }
                pending = Some(*start);
            }
            Ev::SeekRangeRet { ok: false } => pending = None,
            Ev::Reconnect { .. } => pending = None,
            Ev::Write { pos, accepted, .. } if *accepted > 0 => {
                if let Some(st) = pending.take() {
                    if st != *pos {
                        v(out, "C06", "misplaced", format!("range request from {st}, but its first bytes are stored at {pos}"));
                    }
                }
            }
            _ => {}
        }
    }
}

/// C05
fn completion(x: &Exec<'_>, out: &mut V) {
    let s = x.spec;
    let completed = x.log.iter().any(|e| matches!(e, Ev::OnFinish { ok: true, cancelled: false }));
    if completed && s.known && s.seekable && x.cap().is_none() {
        for p in 0..s.len {
            if x.stored.get(&p) != Some(&byte(p)) {
                v(out, "C05", "gap", format!("the download completed, but byte {p} was never stored correctly"));
                if x.has_bad_chunk() {
                    v(out, "C22", "gap", format!("the download completed, but byte {p} was never stored correctly"));
                }
                break;
            }
        }
    }
    // the download ends by itself when nothing limits the storage
    let leak = x.log.iter().any(|e| matches!(e, Ev::Leak));
    let stalled = x.has_fault(Fault::SeekStall);
    if leak && x.cap().is_none() && !stalled && !x.has_fault(Fault::ZeroWrite) {
        v(out, "C05", "never-ends", "the download task stops without completing".into());
        v(out, "C02", "download-stuck", "the download task can never go on, although storage is unbounded".into());
    }
    // every unbounded, undisturbed download completes
    if matches!(x.end, End::Finished) && !x.cancelled() && !x.may_fail() && x.cap().is_none() && !leak
        && !dropped_early(x) && x.panics.is_empty() && !completed
    {
        v(out, "C05", "no-completion", "the download ended without reporting completion".into());
    }
}

fn dropped_early(x: &Exec<'_>) -> bool {
    // dropping the reader cancels unless the download finished before
    if !x.spec.cancel_on_drop {
        return false;
    }
    for e in x.log {
        match e {
            Ev::DropReader => return true,
            Ev::OnFinish { .. } => return false,
            _ => {}
        }
    }
    false
}

/// C07
fn bounded(x: &Exec<'_>, out: &mut V) {
    let Some(cap) = x.cap() else { return };
    let s = x.spec;
    let failed_possible = x.may_fail() || x.cancelled();
    // what the reader moved back to may have been overwritten
    let mut furthest = 0;
    let mut paused = false;
    for e in x.log {
        match e {
            Ev::Write { offered, accepted, .. } => paused = *offered > 0 && *accepted == 0,
            Ev::Idle { unread, freed: true } if paused && *unread < cap => v(out, "C07", "stays-paused", format!(
                "the download stays paused although the reader has consumed bytes and {} of {cap} are free", cap - unread)),
            Ev::Chunk { .. } | Ev::EmptyChunk | Ev::ErrItem | Ev::EndItem { .. } | Ev::Stalled { .. } | Ev::SeekRange { .. }
            | Ev::Reconnect { .. } | Ev::WriterSeek { .. } | Ev::OnFinish { .. } | Ev::StreamDropped => paused = false,
            _ => {}
        }
        match e {
            Ev::Read { pos, got: Ok(b), .. } => furthest = furthest.max(pos + b.len() as u64),
            Ev::Seek { got: Ok(p), .. } => furthest = furthest.max(*p),
            _ => {}
        }
        match e {
            Ev::Write { pos, accepted, unread, .. } if *accepted > 0 && *unread > cap => v(out, "C07", "overwrite", format!(
                "writing {accepted} bytes at {pos} leaves {unread} unread bytes in a buffer of {cap}")),
            Ev::Read { len, pos, got: Err(m), .. } if *len as u64 <= cap && !failed_possible && !x.has_fault(Fault::ReaderFail) && *pos >= furthest => {
                v(out, "C07", "read-error", format!("read({len}) at {pos} with capacity {cap} failed: {m}"));
                if s.store == Store::Adaptive(cap as usize) {
                    v(out, "C10", "read-error", format!("read({len}) at {pos} with capacity {cap} failed: {m}"));
                }
            }
            Ev::Read { len, pos, got: Ok(b), .. } if *len as u64 > cap && !x.cancelled() => v(out, "C07", "excess-accepted", format!(
                "read({len}) at {pos} exceeds the capacity {cap} and returned {} bytes", b.len())),
            _ => {}
        }
    }
}

/// C11
fn failure(x: &Exec<'_>, out: &mut V) {
    let s = x.spec;
    let mut finishes = 0;
    let mut fatal_seen = false;
    let mut finished_failed = false;
    let mut stream_after_finish = false;
    let mut after_finish = false;
    let mut dropped = false;
    for e in x.log {
        match e {
            Ev::Fault(f) if fatal(*f) => {
                fatal_seen = true;
                if after_finish {
                    // the hook itself failed
                    finished_failed = true;
                }
            }
            Ev::OnFinish { ok, cancelled } => {
                finishes += 1;
                after_finish = true;
                if *ok && fatal_seen && !*cancelled {
                    v(out, "C11", "hook-ok", "the completion hook got Ok after a failure".into());
                }
                if !*ok && !fatal_seen && !*cancelled {
                    let what = "the completion hook got an error without a failure".to_string();
                    v(out, "C11", "hook-err", what.clone());
                    if x.has_bad_chunk() {
                        v(out, "C22", "hook-err", what.clone());
                    }
                    if x.has_fault(Fault::Stall) {
                        v(out, "C13", "hook-err", what);
                    }
                }
                if fatal_seen {
                    finished_failed = true;
                }
            }
            Ev::Chunk { .. } | Ev::SeekRange { .. } | Ev::Reconnect { .. } if after_finish => stream_after_finish = true,
            Ev::StreamDropped => dropped = true,
            Ev::Read { len, pos, got, .. } => {
                if let Err(m) = got {
                    let excess = x.cap().is_some();
                    if !fatal_seen && !x.cancelled() && !x.has_fault(Fault::ReaderFail) && !excess {
                        let what = format!("read({len}) at {pos} failed without a failure: {m}");
                        v(out, "C11", "spurious", what.clone());
                        if x.has_bad_chunk() {
                            v(out, "C22", "spurious", what.clone());
                        }
                        if x.has_fault(Fault::Stall) {
                            v(out, "C13", "spurious", what);
                        }
                    }
                }
                if let Ok(b) = got {
                    // a read that has to wait gets everything it waited for, or the failure
                    let want = (*len as u64).min(s.len.saturating_sub(*pos));
                    if finished_failed && (b.len() as u64) < want && !x.may_be_short() {
                        v(out, "C11", "short", format!(
                            "read({len}) at {pos} returned {} bytes although the download had failed", b.len()));
                    }
                    // the failure was complete before this read returned with missing data
                    if dropped && finished_failed && b.is_empty() && *len > 0 && *pos < s.len {
                        v(out, "C11", "silent", format!("read({len}) at {pos} returned end of file after the download failed"));
                    }
                }
            }
            _ => {}
        }
    }
    // every operation that starts after the failed download ended must fail
    let mut failed_at: Option<usize> = None;
    let mut op_started_after = false;
    for (i, e) in x.log.iter().enumerate() {
        match e {
            Ev::StreamDropped if finished_failed && x.panics.is_empty() && !x.has_fault(Fault::Abort) => failed_at = Some(i),
            Ev::Gone => failed_at = Some(i),
            Ev::OpStart { .. } => op_started_after = failed_at.is_some(),
            Ev::Read { len, pos, got: Ok(b), .. } if op_started_after && failed_at.is_some() => v(out, "C11", "later-read-ok", format!(
                "read({len}) at {pos} returned {} bytes although the download had failed", b.len())),
            Ev::Seek { to, got: Ok(p), .. } if op_started_after => v(out, "C11", "later-seek-ok", format!(
                "seek({to:?}) returned {p} although the download had failed")),
            _ => {}
        }
    }
    if finishes > 1 {
        v(out, "C11", "hook-twice", format!("the completion hook ran {finishes} times"));
        v(out, "C12", "hook-twice", format!("the completion hook ran {finishes} times"));
    }
    if stream_after_finish {
        v(out, "C11", "after-hook", "the source was used after its completion hook".into());
    }
    let leak = x.log.iter().any(|e| matches!(e, Ev::Leak));
    if finishes == 0 && x.stream_dropped && !leak && !x.has_fault(Fault::Abort) && matches!(x.end, End::Finished) && x.panics.is_empty() {
        v(out, "C11", "hook-never", "the download ended without running the completion hook".into());
        v(out, "C12", "hook-never", "the download ended without running the completion hook".into());
    }
}

/// C24
fn death(x: &Exec<'_>, out: &mut V) {
    if !x.has_fault(Fault::Panic) && !x.has_fault(Fault::Abort) {
        return;
    }
    let s = x.spec;
    let (mut dying, mut dead, mut started_after) = (false, false, false);
    for e in x.log {
        match e {
            Ev::Fault(Fault::Panic | Fault::Abort) => dying = true,
            Ev::Gone => dead = true,
            Ev::WaitDone { .. } if dying => dead = true,
            Ev::OpStart { .. } => started_after = dead,
            Ev::Read { len, pos, got: Ok(b), .. } if started_after && *len > 0 => v(out, "C24", "later-read-ok", format!(
                "read({len}) at {pos} returned {} bytes although the download task had died", b.len())),
            Ev::Read { len, pos, got: Ok(b), .. } if dying && b.is_empty() && *len > 0 && *pos < s.len && !x.may_be_short() => v(out, "C24", "fake-eof", format!(
                "read({len}) at {pos} returned end of file although the download task had died")),
            Ev::Read { len, pos, got: Ok(b), .. } if b.iter().enumerate().any(|(i, b)| *b != byte(*pos + i as u64)) => v(out, "C24", "fake-data", format!(
                "read({len}) at {pos} returned {b:?}")),
            Ev::Seek { to, got: Ok(p), .. } if started_after => v(out, "C24", "later-seek-ok", format!(
                "seek({to:?}) returned {p} although the download task had died")),
            _ => {}
        }
    }
    if matches!(x.end, End::Finished) {
        if !x.stream_dropped || x.log.iter().any(|e| matches!(e, Ev::Leak)) {
            v(out, "C24", "leak", "the source is not dropped although the download task died".into());
        }
        if x.has_fault(Fault::Panic) && s.third == Third::Wait && !x.log.iter().any(|e| matches!(e, Ev::WaitDone { .. })) {
            v(out, "C24", "wait-never", "wait_for_completion did not return although the download task died".into());
        }
    }
}

/// C12
fn cancellation(x: &Exec<'_>, out: &mut V) {
    let s = x.spec;
    let leak = x.log.iter().any(|e| matches!(e, Ev::Leak));
    let mut cancel_at = None;
    for (i, e) in x.log.iter().enumerate() {
        match e {
            Ev::Cancel => {
                cancel_at.get_or_insert(i);
            }
            Ev::DropReader if s.cancel_on_drop => {
                cancel_at.get_or_insert(i);
            }
            _ => {}
        }
    }
    // a cancelled download takes no more than what had already arrived
    if let (Some(c), true) = (cancel_at, s.lazy) {
        let n = x.log[c..].iter().filter(|e| matches!(e, Ev::Chunk { .. } | Ev::EndItem { .. })).count();
        if n > s.bound as usize + 1 {
            v(out, "C12", "keeps-going", format!("the download took {n} more chunks after it was cancelled"));
        }
    }
    if cancel_at.is_some() && leak {
        v(out, "C12", "task-leak", "the download task never ends although it was cancelled".into());
    }
    if let Some(c) = cancel_at {
        for (i, e) in x.log.iter().enumerate() {
            if let Ev::OnFinish { ok, cancelled } = e {
                if i < c && *cancelled {
                    v(out, "C12", "cancelled-outcome", "cancelled outcome before any cancellation".into());
                }
                if *cancelled && *ok {
                    v(out, "C12", "cancelled-ok", "the hook got Ok with the cancelled outcome".into());
                }
            }
        }
    } else if x.log.iter().any(|e| matches!(e, Ev::OnFinish { cancelled: true, .. })) {
        v(out, "C12", "cancelled-outcome", "cancelled outcome without any cancellation".into());
    }
    // cancelled before the end: end of file must not be faked
    if let Some(c) = cancel_at {
        let finished_before = x.log[..c].iter().any(|e| matches!(e, Ev::OnFinish { .. }));
        for e in &x.log[c..] {
            if let Ev::Read { len, pos, got, .. } = e {
                match got {
                    Ok(b) if b.is_empty() && *len > 0 && *pos < s.len && !x.may_be_short() => {
                        v(out, "C12", "fake-eof", format!("read({len}) at {pos} returned end of file after cancellation"));
                    }
                    Err(m) if finished_before && !x.may_fail() && !x.has_fault(Fault::ReaderFail) && x.cap().is_none() => {
                        v(out, "C12", "late-cancel", format!("read({len}) at {pos} failed after cancelling a completed download: {m}"));
                    }
                    _ => {}
                }
            }
        }
    }
    // dropping without cancel-on-drop does not stop a download that can proceed
    if !s.cancel_on_drop && !x.cancelled() && x.cap().is_none() && !x.may_fail() && matches!(x.end, End::Finished)
        && !x.log.iter().any(|e| matches!(e, Ev::OnFinish { ok: true, cancelled: false })) && x.panics.is_empty()
    {
        v(out, "C12", "stopped", "the download did not complete although nobody cancelled it".into());
    }
    for e in x.log {
        if let Ev::WaitDone { stream_dropped: false } = e {
            v(out, "C12", "wait-early", "wait_for_completion returned before the download task ended".into());
        }
    }
    if matches!(s.third, Third::Wait | Third::CancelAndWait) && matches!(x.end, End::Finished) && x.stream_dropped && !leak
        && !x.log.iter().any(|e| matches!(e, Ev::WaitDone { .. })) && x.panics.is_empty()
    {
        v(out, "C12", "wait-never", "wait_for_completion did not return although the download task ended".into());
    }
}

/// C13: when attempts to reconnect happen.
fn retry_times(x: &Exec<'_>, out: &mut V) {
    use std::time::Duration;
    let retry = crate::sim::RETRY;
    // requests of the reader interrupt the wait for the next chunk
    let undisturbed = x.spec.program.iter().all(|o| matches!(o, Op::Read(_) | Op::ReadToEnd(_) | Op::AwaitDownload | Op::Drop | Op::Cancel));
    let mut now = Duration::ZERO;
    // since when nothing happened
    let mut since = Duration::ZERO;
    let mut attempt: Option<Duration> = None;
    for e in x.log {
        match e {
            Ev::Time(t) => now = *t,
            Ev::Chunk { .. } | Ev::EmptyChunk | Ev::ErrItem | Ev::EndItem { .. } | Ev::SeekRange { .. } | Ev::SeekRangeRet { .. } => since = now,
            Ev::Reconnect { .. } => {
                if now < since + retry {
                    v(out, "C13", "too-soon", format!(
                        "reconnect {:?} after the last sign of life, the timeout is {retry:?}", now - since));
                }
                if undisturbed && now > since + retry {
                    v(out, "C13", "too-late", format!(
                        "reconnect only {:?} after the last sign of life, the timeout is {retry:?}", now - since));
                }
                attempt = Some(now);
            }
            Ev::ReconnectRet { .. } => since = now,
            Ev::ReconnectDropped => {
                if let Some(a) = attempt.filter(|a| now > *a + retry) {
                    v(out, "C13", "attempt-too-long", format!("a reconnect attempt took {:?}", now - a));
                }
                since = now;
            }
            _ => {}
        }
    }
}

/// C13
fn reconnect(x: &Exec<'_>, out: &mut V) {
    retry_times(x, out);
    let mut callbacks = 0;
    let mut ok = 0;
    for e in x.log {
        match e {
            Ev::Reconnect { pos, next_write, .. } => {
                if pos != next_write {
                    v(out, "C13", "position", format!("reconnect at {pos}, the next byte to store is {next_write}"));
                }
            }
            Ev::ReconnectRet { ok: true } => ok += 1,
            Ev::ReconnectCallback => {
                callbacks += 1;
                if callbacks > ok {
                    v(out, "C13", "callback-on-failure", "the reconnect callback ran for an attempt that failed".into());
                }
            }
            _ => {}
        }
    }
    if callbacks < ok && matches!(x.end, End::Finished) && !x.cancelled() && !dropped_early(x) {
        v(out, "C13", "callback-missing", format!("{ok} successful reconnections, {callbacks} callbacks"));
    }
}

/// C14
fn progress(x: &Exec<'_>, out: &mut V) {
    if !x.spec.progress {
        return;
    }
    let mut complete = 0;
    let mut since_seek: Option<u64> = None;
    let mut accepted = 0u64;
    // bytes stored since the last report, unless a seek interrupted the chunk
    let mut unreported = 0u64;
    // the byte before the current position was written where it is
    let mut written = false;
    for e in x.log {
        match e {
            Ev::WriterSeek { .. } | Ev::Reconnect { .. } => {
                since_seek = None;
                written = false;
            }
            Ev::Write { accepted: a, .. } => {
                written |= *a > 0;
                accepted += *a as u64;
                unreported += *a as u64;
            }
            Ev::SeekRange { .. } => unreported = 0,
            Ev::Chunk { pos, .. } | Ev::EndItem { pos, .. } if unreported > 0 => {
                v(out, "C14", "unreported", format!("{unreported} bytes before {pos} were stored and not reported"));
                unreported = 0;
            }
            Ev::Backwards => v(out, "C14", "backwards", "the elapsed time went backwards".into()),
            Ev::Progress { phase, pos, chunk, stored, contiguous_from } => {
                if complete > 0 {
                    v(out, "C14", "after-complete", format!("report {phase:?} after completion"));
                }
                if !stored {
                    v(out, "C14", "not-stored", format!("report {phase:?}: chunk {chunk:?} is not in storage"));
                }
                if Some(*pos) != *contiguous_from {
                    v(out, "C14", "position", format!("report {phase:?}: position {pos}, storage is at {contiguous_from:?}"));
                }
                if let Some(last) = since_seek {
                    if *pos != last + accepted {
                        v(out, "C14", "growth", format!("position went from {last} to {pos}, {accepted} bytes were stored"));
                    }
                }
                if written && *pos > 0 && !(chunk.0 < *pos && chunk.1 >= *pos) {
                    v(out, "C14", "chunk", format!("report {phase:?} at {pos}: chunk {chunk:?} does not contain the last byte"));
                }
                if matches!(phase, Phase::Complete) && unreported > 0 {
                    v(out, "C14", "unreported", format!("{unreported} bytes were stored and not reported before the completion"));
                }
                since_seek = Some(*pos);
                accepted = 0;
                unreported = 0;
                if matches!(phase, Phase::Complete) {
                    complete += 1;
                }
                if let Phase::Prefetch(t, _) = phase {
                    if *t != x.spec.prefetch {
                        v(out, "C14", "target", format!("prefetch target {t}, configured {}", x.spec.prefetch));
                    }
                    if x.spec.prefetch == 0 && !x.log.iter().any(|e| matches!(e, Ev::Seek { .. })) {
                        v(out, "C14", "phase", "prefetch report without prefetching".into());
                    }
                }
            }
            _ => {}
        }
    }
    let fin = x.log.iter().find_map(|e| match e {
        Ev::OnFinish { ok, cancelled } => Some((*ok, *cancelled)),
        _ => None,
    });
    match fin {
        Some((true, false)) if complete != 1 => v(out, "C14", "completion", format!("{complete} completion reports for a completed download")),
        Some((false, _)) if complete != 0 => v(out, "C14", "completion", "completion report for a download that did not complete".into()),
        _ => {}
    }
}

/// C15
fn prefetch(x: &Exec<'_>, out: &mut V) {
    let s = x.spec;
    if s.prefetch == 0 {
        return;
    }
    // the stream ended, even if it goes on when the rest is requested
    if x.has_fault(Fault::EarlyEnd) || x.has_fault(Fault::ErrThenEnd) {
        return;
    }
    let cap = x.cap().unwrap_or(u64::MAX);
    let want = s.prefetch.min(s.len).min(cap);
    for e in x.log {
        match e {
            Ev::Seek { .. } => return,
            Ev::Read { len, got: Ok(b), stored, .. } if *len > 0 => {
                if *stored < want && !x.cancelled() && !x.may_be_short() {
                    v(out, "C15", "too-early", format!(
                        "read({len}) returned {} bytes when {stored} bytes were stored, prefetch is {}", b.len(), s.prefetch));
                }
                return;
            }
            _ => {}
        }
    }
}

/// C15 and C02: who sees what when. Follows what is stored and what the prefetch still hides.
fn waiting(x: &Exec<'_>, out: &mut V) {
    let s = x.spec;
    let bounded = x.cap().is_some();
    let end = |e: Option<u64>| e.unwrap_or(u64::MAX).min(s.len);
    // bytes the reader may see
    let mut avail: BTreeSet<u64> = BTreeSet::new();
    // stored, but hidden by the prefetch: start, end of the range
    let mut prefetching = (s.prefetch > 0).then_some((0u64, end(None)));
    let mut hidden: BTreeSet<u64> = BTreeSet::new();
    let mut next_write = 0;
    let mut ended = false;
    // end of the range being downloaded
    let mut range_end = s.len;
    for e in x.log {
        match e {
            // what happens after a failure is not about waiting any more
            Ev::Fault(f) if fatal(*f) => return,
            Ev::Cancel | Ev::DropReader => return,
            _ => {}
        }
        let mut finish_prefetch = false;
        match e {
            Ev::Write { pos, offered, accepted, .. } => {
                for p in *pos..*pos + *accepted as u64 {
                    if prefetching.is_some() && !avail.contains(&p) {
                        hidden.insert(p);
                    } else {
                        avail.insert(p);
                    }
                }
                next_write = *pos + *accepted as u64;
                if let Some((from, to)) = prefetching {
                    let done = next_write >= from.saturating_add(s.prefetch) || next_write >= to;
                    finish_prefetch = done || (*accepted == 0 && *offered > 0);
                }
                ended = false;
            }
            Ev::EndItem { .. } => {
                finish_prefetch = true;
                ended = true;
            }
            Ev::SeekRange { start, end: e, .. } => {
                range_end = end(*e);
                let again = prefetching.is_none() && !ended;
                avail.append(&mut hidden);
                prefetching = (again && s.prefetch > 0).then_some((*start, end(*e)));
                ended = false;
            }
            Ev::WriterSeek { to } => {
                if bounded && *to != next_write {
                    avail.clear();
                }
                next_write = *to;
            }
            Ev::Read { len, pos, got: Ok(b), .. } => {
                if let Some(p) = (*pos..*pos + b.len() as u64).find(|p| hidden.contains(p)) {
                    let (from, _) = prefetching.unwrap_or_default();
                    v(out, "C15", "before-prefetch", format!(
                        "read({len}) at {pos} returned {} bytes including {p}, but only {} of the {} bytes to prefetch from {from} are there",
                        b.len(), next_write - from.min(next_write), s.prefetch));
                }
            }
            Ev::Quiet { call } => {
                let (ready, what) = match call {
                    Call::Read { pos, len } => {
                        let to = (*pos + *len as u64).min(if s.known { s.len } else { u64::MAX });
                        // at the end of the stream it waits for the end of the download
                        (*pos < to && (*pos..to).all(|p| avail.contains(&p)), format!("read({len}) at {pos}"))
                    }
                    Call::Seek { to } => (avail.contains(to), format!("seek to {to}")),
                };
                // with the last byte of a range there, only its end is left to come
                if ready && (next_write < range_end || ended) {
                    let what = format!("{what} keeps waiting for the source although everything it needs is in storage");
                    v(out, "C02", "sleeps", what.clone());
                    if s.prefetch > 0 {
                        v(out, "C15", "waits-for-more", what.clone());
                    }
                    if bounded {
                        v(out, "C07", "sleeps", what.clone());
                    }
                    if !s.seekable {
                        v(out, "C16", "sleeps", what);
                    }
                }
            }
            _ => {}
        }
        if finish_prefetch {
            prefetching = None;
            avail.append(&mut hidden);
        }
    }
}

/// C23
fn batches(x: &Exec<'_>, out: &mut V) {
    let s = x.spec;
    let mut last_write: Option<(u64, usize)> = None;
    for e in x.log {
        match e {
            Ev::Write { pos, offered, accepted, .. } => {
                if *offered > s.batch {
                    v(out, "C23", "too-big", format!("a write of {offered} bytes, the batch size is {}", s.batch));
                }
                if s.witness {
                    if let Some((p, n)) = last_write {
                        if *accepted > 0 {
                            v(out, "C23", "no-yield", format!("no other task ran between the writes at {p} (+{n}) and {pos}"));
                        }
                    }
                    if *accepted > 0 {
                        last_write = Some((*pos, *accepted));
                    }
                }
            }
            Ev::Tick => last_write = None,
            _ => {}
        }
    }
}
