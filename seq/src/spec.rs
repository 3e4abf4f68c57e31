//! The scenarios of every property.

use serde::{Deserialize, Serialize};

use crate::ctl::{Res, Scenario};
use crate::http;
use crate::registry;
use crate::storage::{self, Adaptive, Bounded, Graph, Inner, Op, Unbounded};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Spec {
    Unbounded(Unbounded),
    Bounded(Bounded),
    Graph(Graph),
    Adaptive(Adaptive),
    Registry(registry::Reg),
    Http(http::Http),
    RangeHeader(http::RangeHeader),
    Wire(crate::wire::Wire),
    Reader(crate::reader::Reader),
    Dal(crate::dal::Dal),
    Pipe(crate::proc::Pipe),
    Args(crate::proc::Args),
    Missing(crate::proc::Missing),
    Build(crate::settings::Build),
    Open(crate::open::Open),
    Middleware(crate::middleware::Uses),
    Way(crate::ways::Way),
    Stores(crate::stores::Stores),
}

impl Scenario for Spec {
    fn describe(&self) -> String {
        serde_json::to_string(self).expect("spec")
    }

    fn run(&self) -> Res {
        match self {
            Spec::Unbounded(s) => storage::unbounded(s),
            Spec::Bounded(s) => storage::bounded(s),
            Spec::Graph(s) => storage::graph(s),
            Spec::Adaptive(s) => storage::adaptive(s),
            Spec::Registry(s) => registry::run(s),
            Spec::Http(s) => http::run(s),
            Spec::Wire(s) => crate::wire::run(s),
            Spec::Reader(s) => crate::reader::run(s),
            Spec::Dal(s) => crate::dal::run(s),
            Spec::Open(s) => crate::open::run(s),
            Spec::Way(s) => crate::ways::run(s),
            Spec::Stores(s) => crate::stores::run(s),
            Spec::Middleware(s) => crate::middleware::run(s),
            Spec::Build(s) => crate::settings::run(s),
            Spec::Pipe(s) => crate::proc::run(s),
            Spec::Args(a) => crate::proc::args(*a),
            Spec::Missing(_) => crate::proc::missing(),
            Spec::RangeHeader(_) => http::range_header(),
        }
    }
}

/// Scenarios and what their bounds are.
pub fn of_property(p: &str, deep: bool) -> Option<(Vec<Spec>, &'static str)> {
    Some(match p {
        "C08" => (c08(deep), "all operation sequences of the given depth over the given operations, for every buffer size and content length; and all states of the reference window within the given positions, every transition replayed on the real storage"),
        "C09" => (c09(deep), "all operation sequences of the given depth over the given operations, for every initial content length"),
        "C10" => (c10(deep), "all operation sequences of the given depth over the given operations, for every buffer size and content length around it"),
        "C17" => (registry::specs(deep).into_iter().map(Spec::Registry).collect(), "all inputs of the list against all sets of entries with the given numbers of rules and priorities"),
        "C18" => (http::all(deep), "all operation sequences of the given depth, with every answer of the server to every request, for every combination of headers"),
        "C19" => (crate::reader::specs(deep).into_iter().map(Spec::Reader).collect(), "all behaviours of the reader, poll by poll, for the given number of polls of the stream, with refused seeks and reconnects in between"),
        "C21" => (crate::dal::specs(deep).into_iter().map(Spec::Dal).collect(), "all operation sequences of the given depth, with up to the given number of failures at any point and every size of delivered piece, for every object and chunk size"),
        "C20" => (crate::proc::specs(deep), "all pipelines of up to the given number of scripted commands, read and finished in every way; all sequences of up to four uses of the builders"),
        "C26" => (crate::open::specs(deep).into_iter().map(Spec::Open).chain(crate::ways::specs(deep, true).into_iter().map(Spec::Way)).collect(), "all combinations of source creation, content length, storage provider and way of opening, followed by all sequences of up to the given number of uses of the reader, its handles and tokens; and every constructor with every bundled source, read by all short programs of a thread of its own"),
        "C25" => (crate::settings::specs(deep).into_iter().map(Spec::Build).chain(crate::ways::specs(deep, false).into_iter().map(Spec::Way)).collect(), "all sequences of builder calls of up to the given length over the given calls, each with the reader dropped or kept, with and without another observer; and all settings together with every constructor and bundled source"),
        "C29" => (crate::stores::specs(deep).into_iter().map(Spec::Stores).collect(), "all sequences of the given length of creating up to three storages from one provider, writing, reading, going back and dropping readers and writers"),
        "C28" => (crate::middleware::specs(deep).into_iter().map(Spec::Middleware).collect(), "all sequences of the given length over additions of default middleware, ways of opening streams and requests of streams opened before, each in a process of its own"),
        _ => return None,
    })
}

fn c08(deep: bool) -> Vec<Spec> {
    use Op::*;
    let mut v = vec![];
    let sizes: &[usize] = &[1, 2, 3, 4];
    for &buffer in sizes {
        let mut lens = vec![None, Some(buffer as u64 + 3)];
        if buffer > 1 {
            lens.push(Some(buffer as u64 - 1));
        }
        if buffer == 2 {
            lens.extend([Some(0), Some(2)]);
        }
        for len in lens {
            let b = buffer as u64;
            let ops = vec![
                Write(1), Write(2), Write(buffer + 1), Read(1), Read(buffer), RStart(0), RStart(b + 1), RCur(-1), RCur(1),
                WStart(1), WCur(-1), WCur(2),
            ];
            let odd = vec![
                Write(0), Write(1), Write(buffer), Read(0), Read(1), Read(buffer), Read(buffer + 1), Flush, REnd(0), WEnd(-1), RCur(i64::MIN), RCur(i64::MAX),
                RStart(u64::MAX), RStart(1), WCur(-9), RCur(-2),
            ];
            v.push(Spec::Bounded(Bounded { inner: Inner::Mem, buffer, len, ops: ops.clone(), depth: if deep { 6 } else { 5 }, setup: vec![] }));
            v.push(Spec::Bounded(Bounded { inner: Inner::Mem, buffer, len, ops: odd, depth: if deep { 5 } else { 4 }, setup: vec![] }));
            v.push(Spec::Bounded(Bounded { inner: Inner::Temp, buffer, len, ops: ops.clone(), depth: if deep { 5 } else { 4 }, setup: vec![] }));
            v.push(Spec::Bounded(Bounded { inner: Inner::Buffering, buffer, len, ops: ops.clone(), depth: if deep { 6 } else { 5 }, setup: vec![] }));
            // far along, the buffer wrapped around
            let setup = vec![Write(buffer), RCur(buffer as i64), Write(buffer), RCur(buffer as i64), Write(1)];
            v.push(Spec::Bounded(Bounded { inner: Inner::Mem, buffer, len, ops: ops.clone(), depth: if deep { 5 } else { 4 }, setup }));
        }
        for len in [None, Some(buffer as u64 - 1)] {
            let furthest = buffer as u64 + if deep { 8 } else { 4 };
            v.push(Spec::Graph(Graph { inner: Inner::Mem, buffer, len, furthest }));
        }
    }
    v
}

fn c09(deep: bool) -> Vec<Spec> {
    use Op::*;
    let mut v = vec![];
    let ops = vec![
        Write(1), Write(3), Read(1), Read(4), RStart(0), RStart(2), RStart(6), RCur(-1), RCur(2), WStart(0), WStart(1), WStart(5), WCur(-2), WCur(1),
    ];
    let odd = vec![
        Write(0), Write(2), Read(0), Read(64), Flush, REnd(0), REnd(-1), REnd(1), WEnd(0), WEnd(-1), RStart(u64::MAX), RStart(3), RCur(i64::MIN), RCur(i64::MAX),
        WCur(-9), RCur(-9), RStart(1 << 40), WStart(3),
    ];
    for inner in [Inner::Mem, Inner::Temp] {
        for len in [None, Some(0), Some(1), Some(4), Some(9)] {
            let d = match inner {
                Inner::Mem => 5,
                _ => 4,
            } + usize::from(deep);
            let d = if len.is_none_or(|l| l == 4) { d } else { d - 1 };
            v.push(Spec::Unbounded(Unbounded { inner, len, ops: ops.clone(), depth: d, setup: vec![] }));
            v.push(Spec::Unbounded(Unbounded { inner, len, ops: odd.clone(), depth: d - 1, setup: vec![Write(2)] }));
        }
        // around the size of buffers and pages
        for n in [4095, 4096, 8191, 8192, 8193] {
            let ops = vec![Write(n), Write(1), Read(1), Read(n), RStart(n as u64 - 1), RStart(0), WStart(n as u64), WStart(0), RCur(1)];
            v.push(Spec::Unbounded(Unbounded { inner, len: None, ops, depth: if deep { 5 } else { 4 }, setup: vec![] }));
        }
    }
    v
}

fn c10(deep: bool) -> Vec<Spec> {
    use Op::*;
    let mut v = vec![];
    for buffer in [1usize, 2, 3, 5] {
        let b = buffer as u64;
        for len in [None, Some(0), Some(1), Some(b - 1), Some(b), Some(b + 1), Some(3 * b), Some(1 << 20)] {
            for inner in [(Inner::Mem, Inner::Temp), (Inner::Temp, Inner::Mem), (Inner::Mem, Inner::Mem)] {
                let ops = vec![
                    Write(1), Write(buffer), Write(buffer + 1), Read(1), Read(buffer), Read(buffer + 1), RStart(0), RStart(b), RCur(1), RCur(-1), REnd(0),
                    WStart(0), WStart(b + 1), WCur(-1), WEnd(0), Flush,
                ];
                let mem = inner == (Inner::Mem, Inner::Mem) || (inner.0 == Inner::Mem && len.is_none_or(|l| l <= b));
                let depth = if mem { 4 } else { 3 } - usize::from(buffer != 2) + usize::from(deep);
                v.push(Spec::Adaptive(Adaptive { inner, buffer, len, same: false, ops: ops.clone(), depth }));
                if inner.0 == inner.1 {
                    v.push(Spec::Adaptive(Adaptive { inner, buffer, len, same: true, ops, depth: 2 }));
                }
            }
        }
    }
    v
}
