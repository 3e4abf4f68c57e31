//! The enumerated families of scenarios. Every family is a pure function of the tier, so that a
//! scenario is identified by its own description.

use crate::world::*;
use Op::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
use Tier::*;

impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Quick => q,
            Thorough => t,
        }
    }
}

/// All sequences over `ops` of length `lo..=hi`, each followed by `tail`.
pub fn programs(ops: &[Op], lo: usize, hi: usize, tail: &[Op]) -> Vec<Vec<Op>> {
    let mut out = vec![];
    let mut cur: Vec<Vec<Op>> = vec![vec![]];
    for n in 0..=hi {
        if n >= lo {
            out.extend(cur.iter().cloned().map(|mut p| {
                p.extend_from_slice(tail);
                p
            }));
        }
        if n < hi {
            cur = cur
                .iter()
                .flat_map(|p| {
                    ops.iter().map(move |o| {
                        let mut q = p.clone();
                        q.push(*o);
                        q
                    })
                })
                .collect();
        }
    }
    out
}

fn with(base: &Spec, programs: Vec<Vec<Op>>) -> Vec<Spec> {
    programs
        .into_iter()
        .map(|program| Spec { program, ..base.clone() })
        .collect()
}

/// Seekable source of known length in unbounded storage.
pub fn seek_known(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    let ops = [Read(2), Read(4), Start(0), Start(3), Start(5), Cur(1), End(-1)];
    for store in [Store::Mem, Store::Temp, Store::Lazy] {
        let deep = t == Thorough;
        let base = Spec { store, bound: if store == Store::Mem { 2 } else { 1 }, ..Spec::default() };
        if deep {
            v.extend(with(&base, programs(&ops, 1, 3, &[ReadToEnd(3)])));
            continue;
        }
        v.extend(with(&base, programs(&ops, 1, 2, &[ReadToEnd(3)])));
        if store == Store::Mem {
            v.extend(with(&base, programs(&[Read(3), Start(0), Start(3), Start(5)], 3, 3, &[ReadToEnd(3)])));
            let base = Spec { bound: 1, ..base };
            v.extend(with(&base, programs(&ops, 3, 3, &[ReadToEnd(3)])));
        }
    }
    // eager source: chunks are there without waiting
    let base = Spec { lazy: false, chunks: vec![1], len: 4, bound: 2, ..Spec::default() };
    v.extend(with(&base, programs(&[Read(1), Read(2), Start(3), Start(0), Start(2)], 1, t.pick(2, 3), &[ReadToEnd(2)])));
    if t == Thorough {
        let base = Spec { bound: 3, ..Spec::default() };
        v.extend(with(&base, programs(&ops, 1, 2, &[ReadToEnd(3)])));
        let base = Spec { bound: 2, chunks: vec![1, 3], ..Spec::default() };
        v.extend(with(&base, programs(&ops, 1, 3, &[ReadToEnd(3)])));
    }
    v
}

/// The last position, the position just past the end and beyond.
pub fn edges(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    for len in [0, 1, 4] {
        for known in [true, false] {
            for seekable in [true, false] {
                for store in [Store::Mem, Store::Temp] {
                    let l = len as i64;
                    let mut ops = vec![Read(2), Start(len), Start(len + 2), Cur(0), End(0), Start(0)];
                    if t == Thorough {
                        ops.extend([Cur(l), Cur(-1), End(1), End(-1), End(-l), End(-l - 1), Read(0)]);
                    } else {
                        ops.extend([Cur(-1), End(-l - 1)]);
                    }
                    let base = Spec { len, known, seekable, store, bound: t.pick(1, 2), ..Spec::default() };
                    v.extend(with(&base, programs(&ops, 1, 2, &[ReadToEnd(2), Read(1)])));
                }
            }
        }
    }
    v
}

pub fn extremes(_t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    let m = i64::MAX;
    let n = i64::MIN;
    let ops = [
        Start(u64::MAX), Start(m as u64), Start(m as u64 + 1), Cur(m), Cur(n), Cur(-3), End(m), End(n), End(-5), End(2),
    ];
    for known in [true, false] {
        for store in [Store::Mem, Store::Temp, Store::Bounded(3)] {
            for pre in [vec![], vec![Read(2)]] {
                for o in ops {
                    // far beyond the end of a stream of unknown length there is nothing to wait for
                    // but the end of the stream
                    if !known && matches!(o, Start(_) | Cur(i64::MAX)) {
                        continue;
                    }
                    let mut p = pre.clone();
                    p.push(o);
                    p.push(Read(1));
                    v.push(Spec { len: 4, known, store, bound: 1, program: p, ..Spec::default() });
                }
            }
        }
    }
    v
}

/// Seekable source of unknown length (an open-ended stream that serves ranges).
pub fn seek_unknown(t: Tier) -> Vec<Spec> {
    let ops = [Read(2), Read(4), Start(0), Start(3), Start(5), Cur(1)];
    let base = Spec { known: false, bound: 2, ..Spec::default() };
    let mut v = with(&base, programs(&ops, 1, t.pick(2, 3), &[ReadToEnd(3)]));
    if t == Thorough {
        let base = Spec { known: false, bound: 1, store: Store::Temp, ..Spec::default() };
        v.extend(with(&base, programs(&ops, 1, 3, &[ReadToEnd(3)])));
    }
    v
}

/// A source that cannot seek.
pub fn no_seek(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    let ops = [Read(2), Read(4), Start(0), Start(3), Start(5), Cur(2)];
    for known in [true, false] {
        let base = Spec { seekable: false, known, bound: 2, ..Spec::default() };
        v.extend(with(&base, programs(&ops, 1, t.pick(2, 3), &[ReadToEnd(3)])));
        let base = Spec { seekable: false, known, bound: 1, prefetch: 3, ..Spec::default() };
        v.extend(with(&base, programs(&ops, 1, 2, &[ReadToEnd(3)])));
        for store in [Store::Temp, Store::Lazy] {
            let base = Spec { seekable: false, known, bound: 1, store, ..Spec::default() };
            v.extend(with(&base, programs(&ops, 1, 2, &[ReadToEnd(3)])));
        }
        for c in [2, 4] {
            let base = Spec { seekable: false, known, bound: t.pick(1, 2), store: Store::Bounded(c), ..Spec::default() };
            v.extend(with(&base, programs(&[Read(1), Read(2), Cur(1), Cur(2)], 1, 2, &[ReadToEnd(2)])));
        }
    }
    v
}

pub fn prefetch(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    let ops = [Read(1), Read(4), Start(0), Start(3), Start(5)];
    for known in [true, false] {
        for prefetch in [1, 3, 6, 9, u64::MAX] {
            for chunks in [vec![2], vec![1], vec![4]] {
                let two = chunks == [2];
                if t == Quick && !two && prefetch != 3 {
                    continue;
                }
                let base = Spec { known, prefetch, chunks, bound: 2, ..Spec::default() };
                v.extend(with(&base, programs(&ops, 1, 1, &[ReadToEnd(3)])));
                let full = t == Thorough || (two && matches!(prefetch, 3 | 6));
                let base = Spec { bound: if full { 2 } else { 1 }, ..base };
                v.extend(with(&base, programs(&ops, 2, if t == Thorough && two { 3 } else { 2 }, &[ReadToEnd(3)])));
                if known {
                    let base = Spec { store: Store::Temp, bound: 1, ..base };
                    v.extend(with(&base, programs(&ops, 1, 2, &[ReadToEnd(3)])));
                }
                let base = Spec { known, prefetch, store: Store::Lazy, bound: 1, ..Spec::default() };
                v.extend(with(&base, programs(&ops, 1, 2, &[ReadToEnd(3)])));
            }
        }
    }
    v
}

/// Bounded storage, reading in order with reads that fit.
pub fn bounded(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    let d = t.pick(2, 3);
    for known in [true, false] {
        for seekable in [true, false] {
            for c in [1, 2, 3, 4, 8] {
                for chunks in [vec![2], vec![1], vec![3], vec![5]] {
                    for prefetch in [0, 2, 5] {
                        let base = Spec {
                            known,
                            seekable,
                            store: Store::Bounded(c),
                            chunks: chunks.clone(),
                            prefetch,
                            len: 6,
                            bound: t.pick(1, 2),
                            ..Spec::default()
                        };
                        let mut ops = vec![Read(1), Cur(0)];
                        if c >= 2 {
                            ops.push(Read(2));
                        }
                        if c >= 4 {
                            ops.push(Read(4));
                        }
                        v.extend(with(&base, programs(&ops, 0, d, &[ReadToEnd(c.min(2)), Read(1)])));
                    }
                }
            }
        }
    }
    v
}

/// Bounded storage with seeks.
pub fn bounded_seek(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    for known in [true, false] {
        for seekable in [true, false] {
            for c in [2, 3, 4] {
                for prefetch in [0, 2] {
                    let base = Spec {
                        known,
                        seekable,
                        store: Store::Bounded(c),
                        prefetch,
                        len: 8,
                        bound: t.pick(1, 2),
                        ..Spec::default()
                    };
                    let ops = [Read(1), Read(2), Cur(1), Cur(2), Cur(c as i64), Cur(-1), Start(0), Start(5)];
                    v.extend(with(&base, programs(&ops, 1, t.pick(2, 3), &[ReadToEnd(2)])));
                    // somebody reads a little and then nothing for a while
                    v.extend(with(&base, programs(&[Read(1), Cur(1), AwaitDownload], 2, t.pick(3, 4), &[AwaitDownload, ReadToEnd(2)])));
                }
            }
        }
    }
    // to the end, and in storage with more room than the stream needs
    for (c, len) in [(4, 4), (6, 6), (8, 6), (3, 6)] {
        for (known, seekable) in [(true, true), (true, false), (false, true)] {
            for prefetch in [0, 2, 5] {
                for chunks in [vec![2], vec![5]] {
                    let base = Spec {
                        known,
                        seekable,
                        store: Store::Bounded(c),
                        prefetch,
                        len,
                        chunks,
                        bound: t.pick(1, 2),
                        ..Spec::default()
                    };
                    let mut ops = vec![Read(2), Start(0), Start(3), Cur(1), AwaitDownload];
                    if known {
                        ops.extend([End(0), End(-1), Start(len + 1)]);
                    }
                    v.extend(with(&base, programs(&ops, 1, t.pick(2, 3), &[ReadToEnd(2), Start(2), Read(1)])));
                }
            }
        }
    }
    v
}

pub fn adaptive(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    for known in [true, false] {
        for c in [2, 4, 6, 8] {
            for temp in [false, true] {
                let store = if temp { Store::AdaptiveTemp(c) } else { Store::Adaptive(c) };
                let base = Spec { known, store, bound: t.pick(1, 2), ..Spec::default() };
                let ops = [Read(1), Read(2), Read(4), Read(9), Cur(1), Start(4)];
                v.extend(with(&base, programs(&ops, 1, 2, &[ReadToEnd(2)])));
            }
        }
    }
    v
}

pub const FATAL: [Fault; 5] = [Fault::SeekFail, Fault::WriteFail, Fault::FlushFail, Fault::WriterSeekFail, Fault::FinishFail];

/// One failure at every possible place.
pub fn failures(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    for known in [true, false] {
        for (store, prefetch) in [(Store::Mem, 0), (Store::Mem, 3), (Store::Bounded(3), 0), (Store::Temp, 0)] {
            let base = Spec {
                known,
                store,
                prefetch,
                faults: FATAL.to_vec(),
                fault_budget: 1,
                bound: t.pick(2, 3),
                ..Spec::default()
            };
            let ops = [Read(2), Read(3), Start(4), Start(0), AwaitDownload];
            v.extend(with(&base, programs(&ops, 1, t.pick(2, 3), &[ReadToEnd(3), Start(0), Read(1)])));
            // other kinds of errors
            for error in 1..ERRORS.len() as u8 {
                let base = Spec { error, bound: t.pick(1, 2), ..base.clone() };
                v.extend(with(&base, programs(&[Read(2), Start(4)], 1, t.pick(1, 2), &[ReadToEnd(3), Read(1)])));
            }
        }
    }
    v
}

/// A source that dies (panics) instead of answering.
pub fn deaths(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    for (known, seekable) in [(true, true), (false, true), (true, false)] {
        for (store, prefetch) in [(Store::Mem, 0), (Store::Mem, 3), (Store::Bounded(3), 0)] {
            let plain = known && seekable && store == Store::Mem && prefetch == 0;
            let base = Spec {
                known,
                seekable,
                store,
                prefetch,
                progress: true,
                third: if plain { Third::None } else { Third::Wait },
                faults: vec![Fault::Panic],
                fault_budget: 1,
                bound: t.pick(2, 3),
                ..Spec::default()
            };
            v.extend(with(&base, programs(&[Read(2), Start(4)], 0, t.pick(1, 2), &[ReadToEnd(3), Read(1), Start(0), Start(9)])));
            v.extend(with(&base, programs(&[Read(2), Start(4)], 0, t.pick(0, 1), &[AwaitDownload, Read(1), Start(0), Start(5)])));
            // while it reconnects
            let base = Spec { faults: vec![Fault::Stall, Fault::Panic], fault_budget: 2, ..base };
            v.extend(with(&base, programs(&[Read(2), Start(4)], 0, t.pick(0, 1), &[ReadToEnd(3), Start(0)])));
        }
    }
    v
}

/// Error items, empty chunks and early ends.
pub fn bad_chunks(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    for (known, seekable) in [(true, true), (true, false), (false, false), (false, true)] {
        for (store, prefetch) in [(Store::Mem, 0), (Store::Mem, 3), (Store::Temp, 0), (Store::Bounded(3), 0), (Store::Bounded(3), 5)] {
            for f in [Fault::ErrItem, Fault::ErrThenEnd, Fault::EmptyChunk, Fault::EarlyEnd] {
                let base = Spec {
                    known,
                    seekable,
                    store,
                    prefetch,
                    faults: vec![f],
                    fault_budget: t.pick(1, 2),
                    bound: 2,
                    progress: true,
                    ..Spec::default()
                };
                let ops = [Read(1), Read(3), Start(4), Start(2)];
                let ops = &ops[t.pick(1, 0)..];
                v.extend(with(&base, programs(ops, 1, 1, &[ReadToEnd(3)])));
                if store == Store::Mem {
                    let full = t == Thorough || (known && seekable) || prefetch == 0;
                    let base = Spec { bound: if full { 2 } else { 1 }, ..base };
                    v.extend(with(&base, programs(ops, 2, 2, &[ReadToEnd(3)])));
                }
            }
        }
    }
    v
}

/// Many bad chunks in one stream: every combination of places.
pub fn many_bad_chunks(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    for (known, seekable) in [(true, true), (true, false), (false, false), (false, true)] {
        for (store, prefetch) in [(Store::Mem, 0), (Store::Mem, 3), (Store::Bounded(3), 0), (Store::Bounded(3), 2)] {
            let base = Spec {
                known,
                seekable,
                store,
                prefetch,
                len: 4,
                faults: vec![Fault::ErrItem, Fault::EmptyChunk, Fault::EarlyEnd],
                fault_budget: t.pick(3, 5),
                free_faults: true,
                bound: 1,
                progress: true,
                ..Spec::default()
            };
            v.extend(with(&base, programs(&[Read(1), Read(2), Start(3)], 0, 1, &[ReadToEnd(2)])));
        }
    }
    v
}

pub fn stalls(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    for (known, seekable) in [(true, true), (false, true), (true, false), (false, false)] {
        for (store, prefetch) in [(Store::Mem, 0), (Store::Mem, 3), (Store::Bounded(3), 0), (Store::Bounded(3), 5)] {
            let base = Spec {
                known,
                seekable,
                store,
                prefetch,
                faults: vec![Fault::Stall, Fault::ReconnectFail, Fault::ReconnectStall],
                fault_budget: t.pick(2, 3),
                bound: t.pick(2, 3),
                early_timers: true,
                ..Spec::default()
            };
            let ops = [Read(2), Read(3), Start(4)];
            v.extend(with(&base, programs(&ops, 0, t.pick(1, 2), &[ReadToEnd(2)])));
        }
    }
    v
}

pub fn slow_seeks(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    for known in [true, false] {
        let base = Spec {
            known,
            faults: vec![Fault::SeekSlow],
            fault_budget: 1,
            bound: t.pick(2, 3),
            ..Spec::default()
        };
        v.extend(with(&base, programs(&[Read(2), Start(4), Start(0), Start(3)], 1, 2, &[ReadToEnd(3)])));
    }
    v
}

/// Cancellation from another thread, from the reader's thread, and by dropping the reader.
pub fn cancels(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    for known in [true, false] {
        for (store, prefetch) in [(Store::Mem, 0), (Store::Mem, 3), (Store::Bounded(3), 0), (Store::Bounded(3), 5)] {
            for third in [Third::Cancel, Third::CancelAndWait] {
                let base = Spec {
                    known,
                    store,
                    prefetch,
                    third,
                    bound: 2,
                    cancel_points: t == Thorough,
                    ..Spec::default()
                };
                v.extend(with(&base, programs(&[Read(2), Start(4), AwaitDownload], 0, t.pick(1, 2), &[ReadToEnd(2)])));
            }
            for cancel_on_drop in [true, false] {
                let base = Spec {
                    known,
                    store,
                    prefetch,
                    third: Third::Wait,
                    cancel_on_drop,
                    bound: t.pick(1, 2),
                    ..Spec::default()
                };
                v.extend(with(&base, programs(&[Read(2), Start(4), AwaitDownload], 0, 2, &[Drop])));
                v.extend(with(&base, programs(&[Read(2), Start(4), AwaitDownload], 0, 2, &[Cancel, ReadToEnd(2)])));
            }
        }
    }
    v
}

/// Cancellation while the source does not answer.
pub fn cancel_stalled(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    for f in [Fault::SeekStall, Fault::Stall, Fault::ReconnectStall] {
        for third in [Third::Cancel, Third::None] {
            for known in [true, false] {
                let mut faults = vec![f];
                let mut budget = 1;
                if f == Fault::ReconnectStall {
                    faults.push(Fault::Stall);
                    budget = 2;
                }
                let base = Spec {
                    known,
                    third,
                    faults,
                    fault_budget: budget,
                    bound: t.pick(2, 3),
                    ..Spec::default()
                };
                if third == Third::Cancel {
                    v.extend(with(&base, programs(&[Read(2), Start(4)], 1, 2, &[ReadToEnd(2)])));
                } else {
                    v.extend(with(&base, programs(&[Read(2)], 1, 2, &[Drop])));
                }
            }
        }
    }
    v
}

pub fn progress(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    for known in [true, false] {
        for prefetch in [0, 3, 9] {
            for chunks in [vec![2], vec![1, 3], vec![0, 2, 0, 1]] {
                for store in [Store::Mem, Store::Bounded(3)] {
                    for batch in [4096, 1] {
                        let base = Spec {
                            known,
                            prefetch,
                            chunks: chunks.clone(),
                            store,
                            batch,
                            progress: true,
                            bound: 1,
                            ..Spec::default()
                        };
                        let ops = [Read(2), Start(4), Start(1), Cancel];
                        let d = if store == Store::Mem { t.pick(2, 3) } else { 1 };
                        v.extend(with(&base, programs(&ops, 0, d, &[AwaitDownload, ReadToEnd(2)])));
                    }
                }
            }
        }
    }
    v
}

pub fn batches(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    for batch in [1, 2, 3, 5] {
        for chunks in [vec![1], vec![2], vec![4], vec![7], vec![3, 1]] {
            for (store, prefetch) in [(Store::Mem, 0), (Store::Mem, 5), (Store::Bounded(3), 0), (Store::Bounded(3), 2), (Store::Temp, 0)] {
                for known in [true, false] {
                    let base = Spec {
                        len: 7,
                        known,
                        batch,
                        chunks: chunks.clone(),
                        store,
                        prefetch,
                        faults: vec![Fault::PartialWrite],
                        fault_budget: 1,
                        witness: true,
                        bound: t.pick(1, 2),
                        ..Spec::default()
                    };
                    v.extend(with(&base, vec![vec![Read(1), ReadToEnd(2)]]));
                    // everything has arrived already
                    v.extend(with(&Spec { lazy: false, ..base }, vec![vec![Read(1), ReadToEnd(2)]]));
                }
            }
        }
    }
    v
}

/// Store buffering: stores of the source's relaxed atomics become visible late.
pub fn weak(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    for (known, store) in [(true, Store::Mem), (false, Store::Mem), (true, Store::Bounded(3)), (false, Store::Bounded(3))] {
        let base = Spec { known, store, weak: true, bound: t.pick(2, 3), chunks: vec![2], ..Spec::default() };
        let mut ops = vec![Read(2), Read(3), Cur(1)];
        if store == Store::Mem {
            ops.push(Start(4));
        }
        v.extend(with(&base, programs(&ops, 0, 2, &[ReadToEnd(2)])));
        if store != Store::Mem {
            let base = Spec { chunks: vec![5], ..base };
            v.extend(with(&base, programs(&ops, 0, 2, &[ReadToEnd(2)])));
        }
    }
    v
}

/// The runtime is shut down while the download is running.
pub fn shutdowns(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    for (known, seekable) in [(true, true), (false, true), (true, false)] {
        for (store, prefetch) in [(Store::Mem, 0), (Store::Mem, 3), (Store::Bounded(3), 0), (Store::Bounded(3), 5)] {
            let base = Spec { known, seekable, store, prefetch, third: Third::Shutdown, bound: t.pick(1, 2), ..Spec::default() };
            v.extend(with(&base, programs(&[Read(2), Start(4), Cur(1), AwaitDownload], 0, t.pick(1, 2), &[ReadToEnd(2), Read(1), Start(0)])));
        }
    }
    v
}

/// Cancellation from the callbacks.
pub fn callback_cancels(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    for known in [true, false] {
        for (store, prefetch) in [(Store::Mem, 0), (Store::Mem, 3), (Store::Bounded(3), 0)] {
            for n in 0..=4 {
                let base = Spec {
                    known,
                    store,
                    prefetch,
                    progress: true,
                    cancel_in_callback: Some(n),
                    faults: if n == 0 { vec![Fault::Stall, Fault::ReconnectFail] } else { vec![] },
                    fault_budget: 2,
                    bound: t.pick(2, 3),
                    ..Spec::default()
                };
                v.extend(with(&base, programs(&[Read(2), Start(4), AwaitDownload], 0, t.pick(1, 2), &[ReadToEnd(2), Read(1)])));
            }
        }
    }
    v
}

/// The storage cannot be read once.
pub fn reader_failures(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    for known in [true, false] {
        for (store, prefetch) in [(Store::Mem, 0), (Store::Mem, 3), (Store::Bounded(3), 0), (Store::Temp, 0)] {
            let base = Spec {
                known,
                store,
                prefetch,
                faults: vec![Fault::ReaderFail],
                fault_budget: 1,
                free_faults: true,
                bound: t.pick(1, 2),
                ..Spec::default()
            };
            v.extend(with(&base, programs(&[Read(1), Read(3), Start(4), Cur(1)], 1, t.pick(2, 3), &[ReadToEnd(2), ReadToEnd(2)])));
        }
    }
    v
}

/// The storage returns less than was asked for.
pub fn short_reads(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    for known in [true, false] {
        for (store, seekable) in [(Store::Mem, true), (Store::Bounded(2), true), (Store::Bounded(3), true), (Store::Bounded(3), false), (Store::Temp, true)] {
            for prefetch in [0, 3] {
                let base = Spec {
                    known,
                    store,
                    seekable,
                    prefetch,
                    faults: vec![Fault::ShortRead],
                    fault_budget: 2,
                    free_faults: true,
                    bound: t.pick(1, 2),
                    ..Spec::default()
                };
                v.extend(with(&base, programs(&[Read(2), Read(3), Start(4), Cur(1)], 1, t.pick(1, 2), &[ReadToEnd(2), ReadToEnd(2)])));
            }
        }
    }
    v
}

/// The storage takes less than it was given.
pub fn short_writes(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    for known in [true, false] {
        for (store, seekable) in [(Store::Mem, true), (Store::Mem, false), (Store::Lazy, true), (Store::Bounded(3), true), (Store::Temp, true)] {
            for prefetch in [0, 3, 5] {
                let base = Spec {
                    known,
                    store,
                    seekable,
                    prefetch,
                    chunks: vec![3],
                    faults: vec![Fault::PartialWrite],
                    fault_budget: 2,
                    free_faults: true,
                    bound: t.pick(1, 2),
                    ..Spec::default()
                };
                v.extend(with(&base, programs(&[Read(2), Start(4), Cur(1)], 1, t.pick(1, 2), &[ReadToEnd(2), ReadToEnd(2)])));
            }
        }
    }
    v
}

/// Positions beyond 32 bits. (The programs stay away from the end, where a read waits for the
/// whole download, and from holes that the download gets to by itself, but only much later.)
pub fn far(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    for b in [(1u64 << 32) - 2, 1 << 33] {
        for known in [true, false] {
            let base = Spec { len: b + 40, known, store: Store::Temp, bound: t.pick(1, 2), ..Spec::default() };
            let ops = [Read(3), Start(b + 3), Start(b), Cur(1)];
            for prefetch in [0, 3] {
                let base = Spec { prefetch, ..base.clone() };
                for tail in [vec![Read(2)], vec![Start(2), Read(2)]] {
                    for p in programs(&ops, 1, t.pick(2, 3), &tail) {
                        let mut program = vec![Start(b)];
                        program.extend(p);
                        v.push(Spec { program, ..base.clone() });
                    }
                }
            }
        }
    }
    v
}

/// The library's HTTP source over a scripted server: known or unknown length; the server says that
/// it accepts ranges or not, and answers range requests with the range or with everything.
pub fn http_source(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    let ops = [Read(2), Read(4), Start(0), Start(3), Start(5)];
    for (known, accept, whole) in [
        (true, true, false),
        (true, false, true),
        (true, true, true),
        (true, false, false),
        (false, true, false),
        (false, false, false),
    ] {
        let source = Source::Http { accept, whole };
        let main = known && accept != whole;
        let base = Spec { source, known, bound: 2, ..Spec::default() };
        v.extend(with(&base, programs(&ops, 0, 1, &[ReadToEnd(3)])));
        let base = Spec { bound: if main { 2 } else { 1 }, ..base };
        v.extend(with(&base, programs(&ops, 2, t.pick(2, 3), &[ReadToEnd(3)])));
        for (store, prefetch) in [(Store::Mem, 3), (Store::Temp, 0), (Store::Bounded(3), 0), (Store::Bounded(3), 2)] {
            let base = Spec { store, prefetch, progress: true, bound: t.pick(1, 2), ..base.clone() };
            v.extend(with(&base, programs(&[Read(2), Start(0), Start(5), Cur(2)], 1, t.pick(1, 2), &[ReadToEnd(2)])));
        }
        // what goes wrong with connections
        for (store, prefetch) in [(Store::Mem, 0), (Store::Mem, 3), (Store::Bounded(3), 0)] {
            let base = Spec {
                store,
                prefetch,
                faults: vec![Fault::Stall, Fault::ReconnectFail, Fault::ReconnectStall, Fault::EarlyEnd, Fault::ErrThenEnd],
                fault_budget: 2,
                bound: t.pick(2, 3),
                early_timers: t == Thorough,
                ..base.clone()
            };
            v.extend(with(&base, programs(&[Read(2), Start(4)], 0, 1, &[ReadToEnd(2)])));
            let base = Spec {
                faults: vec![Fault::SeekFail, Fault::SeekSlow, Fault::Panic, Fault::FinishFail],
                fault_budget: 1,
                bound: t.pick(1, 2),
                ..base
            };
            v.extend(with(&base, programs(&[Read(2), Start(4), Start(2)], 1, 2, &[ReadToEnd(2)])));
        }
        // cancelled
        let base = Spec { third: Third::CancelAndWait, bound: t.pick(1, 2), faults: vec![Fault::Stall, Fault::SeekStall, Fault::ReconnectStall], fault_budget: 2, ..base };
        v.extend(with(&base, programs(&[Read(2), Start(4)], 0, 1, &[ReadToEnd(2)])));
    }
    v
}

/// Two streams on one runtime: things happen to one of them, the other one must not notice.
pub fn side_by_side(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    let plain = Spec { len: 4, bound: t.pick(1, 2), ..Spec::default() };
    let others = [
        Spec { program: vec![ReadToEnd(2)], ..plain.clone() },
        Spec { program: vec![Start(3), ReadToEnd(2)], prefetch: t.pick(0, 2), progress: true, ..plain.clone() },
        Spec { program: vec![Read(1), ReadToEnd(2)], store: Store::Bounded(2), seekable: false, known: false, ..plain.clone() },
    ];
    let stuck = vec![Fault::Stall, Fault::ReconnectStall, Fault::ReconnectFail];
    let mains = [
        // what it does alone
        Spec { program: vec![Start(3), ReadToEnd(2)], ..plain.clone() },
        Spec { program: vec![Read(2), Cancel, Read(2)], third: Third::Wait, ..plain.clone() },
        Spec { program: vec![Read(1), Drop], third: Third::Wait, ..plain.clone() },
        Spec { program: vec![Read(1), Drop], cancel_on_drop: false, third: Third::Wait, ..plain.clone() },
        Spec { program: vec![ReadToEnd(2)], cancel_in_callback: Some(1), progress: true, ..plain.clone() },
        Spec { program: vec![ReadToEnd(2)], third: Third::CancelAndWait, ..plain.clone() },
        // full, and nobody reads
        Spec { program: vec![AwaitDownload, ReadToEnd(2)], store: Store::Bounded(2), ..plain.clone() },
        Spec { program: vec![AwaitDownload], store: Store::Bounded(1), prefetch: 3, ..plain.clone() },
        Spec { program: vec![AwaitDownload, Drop], store: Store::Bounded(2), third: Third::Wait, ..plain.clone() },
        // the reader, the source or the storage
        Spec { program: vec![Start(3), ReadToEnd(2)], faults: FATAL.to_vec(), fault_budget: 1, ..plain.clone() },
        Spec { program: vec![Start(3), ReadToEnd(2)], faults: vec![Fault::Panic], fault_budget: 1, progress: true, ..plain.clone() },
        Spec { program: vec![ReadToEnd(2)], faults: vec![Fault::ErrItem, Fault::EmptyChunk, Fault::EarlyEnd], fault_budget: 1, ..plain.clone() },
        Spec { program: vec![ReadToEnd(2)], faults: stuck.clone(), fault_budget: 2, bound: 2, ..plain.clone() },
        Spec { program: vec![Start(3), ReadToEnd(2)], faults: vec![Fault::SeekStall], fault_budget: 1, third: Third::Cancel, ..plain.clone() },
        Spec { program: vec![ReadToEnd(2)], faults: stuck, fault_budget: 2, third: Third::Cancel, ..plain.clone() },
        // one large chunk in small batches
        Spec { program: vec![ReadToEnd(2)], chunks: vec![6], batch: 1, lazy: false, ..plain.clone() },
        Spec { program: vec![Start(3), ReadToEnd(2)], store: Store::Temp, ..plain.clone() },
    ];
    for main in &mains {
        let mut others = others.to_vec();
        if main.store == Store::Temp {
            others.push(Spec { program: vec![Read(1), Start(2), ReadToEnd(2)], store: Store::Temp, ..plain.clone() });
        }
        for other in &others {
            for lazy in [true, false] {
                let side = Some(Box::new(Spec { lazy, ..other.clone() }));
                v.push(Spec { lazy: main.lazy && lazy, side: side.clone(), bound: main.bound.max(t.pick(1, 2)), ..main.clone() });
                if lazy {
                    v.push(Spec { lazy: false, side, ..main.clone() });
                }
            }
        }
    }
    v
}

/// The library's adapter for asynchronous readers.
pub fn async_source(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    for known in [true, false] {
        let base = Spec { source: Source::Async, seekable: false, known, bound: 2, ..Spec::default() };
        let ops = [Read(2), Read(4), Start(0), Start(3), Start(5), Cur(2)];
        v.extend(with(&base, programs(&ops, 1, t.pick(1, 2), &[ReadToEnd(3)])));
        for (store, prefetch) in [(Store::Mem, 3), (Store::Temp, 0), (Store::Bounded(3), 0), (Store::Bounded(3), 2)] {
            let base = Spec { store, prefetch, bound: t.pick(1, 2), progress: true, ..base.clone() };
            v.extend(with(&base, programs(&[Read(2), Read(1), Start(0), Start(3)], 1, 2, &[ReadToEnd(2)])));
            for f in [Fault::ErrThenEnd, Fault::EarlyEnd, Fault::Panic, Fault::FinishFail] {
                let base = Spec { faults: vec![f], fault_budget: 1, bound: t.pick(1, 2), ..base.clone() };
                v.extend(with(&base, programs(&[Read(2), Start(4)], 0, 1, &[ReadToEnd(2)])));
            }
        }
        let base = Spec { third: Third::CancelAndWait, bound: t.pick(1, 2), ..base };
        v.extend(with(&base, programs(&[Read(2)], 0, 1, &[ReadToEnd(2)])));
    }
    v
}

/// All of the settings together: a covering array in which every combination of the values of any
/// three (four when thorough) of the parameters below occurs. A row is a polynomial over a prime
/// field, a parameter its value at one point; any three values at different points determine a
/// quadratic polynomial.
pub fn mixed(t: Tier) -> Vec<Spec> {
    const P: usize = 13;
    let stores = [
        Store::Mem,
        Store::Bounded(3),
        Store::Lazy,
        Store::Adaptive(3),
        Store::Temp,
        Store::Bounded(2),
        Store::Adaptive(2),
        Store::BoundedTemp(3),
        Store::AdaptiveTemp(3),
        Store::Bounded(5),
    ];
    let prefetches = [0, 3, 0, 2, 5, 1, 9];
    let kinds = [(true, true), (false, true), (true, false), (false, false)];
    let chunks: [&[u64]; 7] = [&[2], &[3], &[1], &[1, 3], &[3, 1], &[8], &[2, 0, 2]];
    let faults: [(&[Fault], u32); P] = [
        (&[], 0),
        (&[Fault::ErrItem, Fault::EmptyChunk], 1),
        (&[Fault::EarlyEnd], 1),
        (&[Fault::ErrThenEnd], 1),
        (&[Fault::Stall, Fault::ReconnectFail], 2),
        (&[Fault::Stall, Fault::EarlyEnd, Fault::ReconnectStall], 2),
        (&[Fault::SeekFail, Fault::WriterSeekFail], 1),
        (&[Fault::SeekSlow], 1),
        (&[Fault::WriteFail, Fault::FlushFail], 1),
        (&[Fault::PartialWrite], 2),
        (&[Fault::Panic], 1),
        (&[Fault::FinishFail], 1),
        (&[Fault::ShortRead, Fault::ReaderFail], 1),
    ];
    let programs: [&[Op]; P] = [
        &[Read(2), Start(4), ReadToEnd(2)],
        &[ReadToEnd(3), Read(1)],
        &[Start(3), Read(2), Start(0), ReadToEnd(3)],
        &[AwaitDownload, Read(2), ReadToEnd(2)],
        &[Cur(3), Read(1), Cur(-2), ReadToEnd(2)],
        &[Read(3), Start(5), Start(1), ReadToEnd(2)],
        &[Read(1), Cancel, ReadToEnd(2)],
        &[Start(2), Read(1), Drop],
        &[End(-2), Read(1), Start(1), ReadToEnd(4)],
        &[Read(2), AwaitDownload, Start(0), ReadToEnd(2), Start(4), ReadToEnd(2)],
        &[Start(4), AwaitDownload, Start(0), ReadToEnd(3)],
        &[Start(7), Read(1), Start(2), ReadToEnd(2)],
        &[Read(4), Cur(0), ReadToEnd(1), Start(0), Read(2)],
    ];
    let thirds = [Third::None, Third::Wait, Third::Cancel, Third::None, Third::CancelAndWait, Third::Shutdown];
    let batches = [4096, 1, 2, 3];
    let callbacks = [None, None, None, Some(0), Some(1), Some(2), Some(3)];
    let lens = [6, 6, 7, 8];
    let rows: Vec<Vec<usize>> = {
        let mut v = vec![];
        for a in 0..P {
            for b in 0..P {
                for c in 0..P {
                    if t == Quick {
                        v.push(vec![a, b, c]);
                    } else {
                        v.extend((0..P).map(|d| vec![a, b, c, d]));
                    }
                }
            }
        }
        v
    };
    let mut v: Vec<Spec> = vec![];
    for row in rows {
        let at = |x: usize, levels: usize| {
            let y = row.iter().rev().fold(0, |acc, c| (acc * x + c) % P);
            y % levels
        };
        let (known, seekable) = kinds[at(2, 4)];
        let flags = at(9, 8);
        let (fs, fault_budget) = faults[at(4, P)];
        v.push(Spec {
            store: stores[at(0, 10)],
            prefetch: prefetches[at(1, 7)],
            known,
            seekable,
            chunks: chunks[at(3, 7)].to_vec(),
            faults: fs.to_vec(),
            fault_budget,
            third: thirds[at(5, 6)],
            program: programs[at(6, P)].to_vec(),
            batch: batches[at(7, 4)],
            cancel_in_callback: callbacks[at(8, 7)],
            progress: flags & 1 == 0,
            cancel_on_drop: flags & 2 == 0,
            lazy: flags & 4 == 0,
            len: lens[at(10, 4)],
            error: at(11, ERRORS.len()) as u8,
            bound: if t == Thorough && row.get(3) == Some(&0) { 2 } else { 1 },
            ..Spec::default()
        });
    }
    v
}

pub type Family = (&'static str, fn(Tier) -> Vec<Spec>);
pub const ALL: &[Family] = &[
    ("seek_known", seek_known),
    ("edges", edges),
    ("extremes", extremes),
    ("seek_unknown", seek_unknown),
    ("no_seek", no_seek),
    ("prefetch", prefetch),
    ("bounded", bounded),
    ("bounded_seek", bounded_seek),
    ("adaptive", adaptive),
    ("failures", failures),
    ("deaths", deaths),
    ("bad_chunks", bad_chunks),
    ("many_bad_chunks", many_bad_chunks),
    ("stalls", stalls),
    ("slow_seeks", slow_seeks),
    ("cancels", cancels),
    ("cancel_stalled", cancel_stalled),
    ("progress", progress),
    ("batches", batches),
    ("weak", weak),
    ("shutdowns", shutdowns),
    ("callback_cancels", callback_cancels),
    ("reader_failures", reader_failures),
    ("short_reads", short_reads),
    ("short_writes", short_writes),
    ("far", far),
    ("http_source", http_source),
    ("async_source", async_source),
    ("mixed", mixed),
    ("side_by_side", side_by_side),
];

/// The families that decide a property.
pub fn of_property(p: &str, t: Tier) -> Option<(&'static str, Vec<&'static str>)> {
    let deep = t == Thorough;
    let (id, mut v, more): (&'static str, Vec<&'static str>, Vec<&'static str>) = match p {
        "C01" => (
            "C01",
            vec!["seek_known", "seek_unknown", "no_seek", "prefetch", "bounded", "bounded_seek", "adaptive", "batches", "weak", "slow_seeks", "reader_failures", "short_reads", "short_writes", "far", "async_source"],
            vec!["http_source", "edges", "bad_chunks", "stalls", "failures"],
        ),
        "C02" => (
            "C02",
            vec!["seek_known", "seek_unknown", "no_seek", "prefetch", "bounded", "bounded_seek", "edges", "extremes", "deaths", "slow_seeks", "weak", "short_writes"],
            vec!["adaptive", "stalls", "bad_chunks", "failures", "batches", "cancels"],
        ),
        "C03" => (
            "C03",
            vec!["edges", "short_reads", "seek_known", "seek_unknown", "no_seek", "bounded", "bounded_seek", "extremes", "adaptive", "slow_seeks"],
            vec!["bad_chunks", "prefetch"],
        ),
        "C04" => (
            "C04",
            vec!["seek_known", "seek_unknown", "no_seek", "edges", "extremes", "bounded_seek", "slow_seeks", "far"],
            vec!["prefetch", "failures"],
        ),
        "C05" => ("C05", vec!["seek_known", "prefetch", "slow_seeks", "edges", "http_source"], vec!["bad_chunks", "failures", "stalls"]),
        "C06" => ("C06", vec!["seek_known", "seek_unknown", "prefetch", "bounded_seek", "slow_seeks", "edges", "far"], vec!["bad_chunks", "stalls"]),
        "C07" => ("C07", vec!["short_reads", "short_writes", "bounded", "bounded_seek", "adaptive", "stalls", "no_seek", "weak"], vec![]),
        "C11" => ("C11", vec!["failures", "deaths", "shutdowns", "no_seek"], vec!["seek_known"]),
        "C12" => ("C12", vec!["cancels", "cancel_stalled", "callback_cancels", "deaths"], vec!["http_source", "async_source"]),
        "C13" => ("C13", vec!["stalls", "http_source"], vec!["no_seek"]),
        "C14" => ("C14", vec!["progress", "callback_cancels", "bad_chunks"], vec![]),
        "C15" => ("C15", vec!["prefetch", "no_seek", "bounded", "bounded_seek", "stalls", "short_writes"], vec![]),
        "C16" => ("C16", vec!["no_seek", "edges", "stalls", "bounded", "bounded_seek", "async_source"], vec!["bad_chunks"]),
        "C22" => ("C22", vec!["bad_chunks", "many_bad_chunks", "async_source"], vec!["http_source"]),
        "C23" => ("C23", vec!["batches", "progress"], vec![]),
        "C24" => ("C24", vec!["deaths", "shutdowns"], vec![]),
        "C27" => ("C27", vec!["side_by_side"], vec![]),
        _ => return None,
    };
    if deep {
        v.extend(more);
        if id != "C27" {
            v.push("mixed");
        }
    }
    Some((id, v))
}
