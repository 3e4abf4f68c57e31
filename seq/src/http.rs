//! C18: every sequence of operations and server answers, with a simulated client.

use std::collections::HashMap;
use std::fmt;
use std::sync::{Arc, Mutex};

use bytes::Bytes;
use futures_util::Stream;
use serde::{Deserialize, Serialize};
use stream_download::http::{Client, ClientResponse, HttpStream, HttpStreamError, ResponseHeaders, format_range_header_bytes};
use stream_download::source::{DecodeError, SourceStream};

use crate::aio::{block, next, yield_once};
use crate::bad;
use crate::ctl::{Res, choose, note, saw, step};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Http {
    pub len: Option<u64>,
    pub accept_ranges: Option<String>,
    pub content_type: Option<String>,
    /// actual size of the resource
    pub size: u64,
    pub depth: usize,
    pub via_create: bool,
    /// sizes of the chunks of a body, the last one repeating
    #[serde(default)]
    pub pieces: Vec<usize>,
    /// error items in the bodies
    #[serde(default)]
    pub hiccups: u32,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Request {
    Get,
    Range(u64, Option<u64>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Answer {
    Fine,
    Refused,
    Status,
    /// the whole content in answer to a range request
    Whole,
}

struct World {
    spec: Http,
    requests: Vec<Request>,
    answers: Vec<Answer>,
    hiccups: u32,
    /// error items that the current body has given and the stream has not
    errors: usize,
}

#[derive(Clone)]
struct Mock(Arc<Mutex<World>>);

thread_local! {
    static NEXT: std::cell::RefCell<Option<Mock>> = const { std::cell::RefCell::new(None) };
}

#[derive(Debug)]
struct Refused(usize);
impl fmt::Display for Refused {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "refused-{}", self.0)
    }
}
impl std::error::Error for Refused {}

#[derive(Debug)]
struct BadStatus(usize);
impl fmt::Display for BadStatus {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "status-undecoded-{}", self.0)
    }
}
impl std::error::Error for BadStatus {}
impl DecodeError for BadStatus {
    async fn decode_error(self) -> String {
        yield_once().await;
        format!("decoded-{}", self.0)
    }
}

#[derive(Debug)]
struct Headers(HashMap<String, String>);
impl ResponseHeaders for Headers {
    fn header(&self, name: &str) -> Option<&str> {
        self.0.get(&name.to_ascii_lowercase()).map(String::as_str)
    }
}

struct Response {
    world: Arc<Mutex<World>>,
    headers: HashMap<String, String>,
    request: usize,
    status: bool,
    length: Option<u64>,
    body: std::ops::Range<u64>,
}

const ERROR_BODY: u8 = 0xEB;
const ITEM: usize = 99;

impl ClientResponse for Response {
    type ResponseError = BadStatus;
    type StreamError = Refused;
    type Headers = Headers;

    fn content_length(&self) -> Option<u64> {
        self.length
    }
    fn content_type(&self) -> Option<&str> {
        self.headers.get("content-type").map(String::as_str)
    }
    fn headers(&self) -> Headers {
        Headers(self.headers.clone())
    }
    fn into_result(self) -> Result<Self, BadStatus> {
        if self.status { Ok(self) } else { Err(BadStatus(self.request)) }
    }
    fn stream(self) -> Box<dyn Stream<Item = Result<Bytes, Refused>> + Unpin + Send + Sync> {
        let mut body: Vec<Result<Bytes, Refused>> = vec![];
        if self.status {
            let (mut at, mut pieces) = (self.body.start, self.world.lock().unwrap().spec.pieces.clone().into_iter());
            let mut piece = 1;
            let mut hiccup = || {
                let mut w = self.world.lock().unwrap();
                let c = w.hiccups > 0 && choose(2) == 1;
                w.hiccups -= u32::from(c);
                c
            };
            while at < self.body.end {
                piece = pieces.next().unwrap_or(piece);
                let to = (at + piece as u64).min(self.body.end);
                if hiccup() {
                    body.push(Err(Refused(ITEM)));
                }
                body.push(Ok((at..to).map(|p| p as u8 + 1).collect()));
                at = to;
            }
            if hiccup() {
                body.push(Err(Refused(ITEM)));
            }
        } else {
            body.push(Ok(Bytes::from(vec![ERROR_BODY; 3])));
        }
        let world = self.world;
        world.lock().unwrap().errors = 0;
        Box::new(futures_util::stream::iter(body.into_iter().inspect(move |i| {
            world.lock().unwrap().errors += usize::from(i.is_err());
        })))
    }
}

impl Mock {
    async fn answer(&self, request: Request) -> Result<Response, Refused> {
        let (index, spec) = {
            let mut w = self.0.lock().unwrap();
            w.requests.push(request.clone());
            (w.requests.len() - 1, w.spec.clone())
        };
        yield_once().await;
        let whole = spec.len.is_some() && matches!(request, Request::Range(..));
        let answer = [Answer::Fine, Answer::Refused, Answer::Status, Answer::Whole][choose(3 + usize::from(whole))];
        self.0.lock().unwrap().answers.push(answer);
        let mut headers = HashMap::from([("x-other".to_string(), format!("v{index}"))]);
        let body = match request {
            Request::Get => 0..spec.size,
            _ if answer == Answer::Whole => 0..spec.size,
            // both ends of the range are included
            Request::Range(s, e) => s.min(spec.size)..e.map_or(spec.size, |e| (e + 1).min(spec.size)),
        };
        let length = spec.len.map(|_| body.end - body.start);
        if answer == Answer::Fine && matches!(request, Request::Range(..)) {
            headers.insert("content-range".into(), format!("bytes {}-{}/{}", body.start, body.end.max(1) - 1, spec.size));
        }
        if let Some(a) = spec.accept_ranges {
            headers.insert("accept-ranges".into(), a);
        }
        if let Some(c) = spec.content_type {
            headers.insert("content-type".into(), c);
        }
        match answer {
            Answer::Refused => Err(Refused(index)),
            a => Ok(Response { world: self.0.clone(), headers, request: index, status: a != Answer::Status, length, body }),
        }
    }
}

impl Client for Mock {
    type Url = String;
    type Headers = Headers;
    type Response = Response;
    type Error = Refused;

    fn create() -> Self {
        NEXT.with_borrow(|n| n.clone().expect("client"))
    }
    async fn get(&self, url: &String) -> Result<Response, Refused> {
        assert_eq!(url, "mock://resource");
        self.answer(Request::Get).await
    }
    async fn get_range(&self, url: &String, start: u64, end: Option<u64>) -> Result<Response, Refused> {
        assert_eq!(url, "mock://resource");
        self.answer(Request::Range(start, end)).await
    }
}

/// Bytes the stream has yet to deliver.
#[derive(Clone, Debug, PartialEq, Eq)]
enum Rest {
    Exactly(std::ops::Range<u64>),
    /// after a failure: nothing, or more of what came before
    AtMost(std::ops::Range<u64>),
}

pub fn run(s: &Http) -> Res {
    let world = Arc::new(Mutex::new(World { spec: s.clone(), requests: vec![], answers: vec![], hiccups: s.hiccups, errors: 0 }));
    let mock = Mock(world.clone());
    NEXT.with_borrow_mut(|n| *n = Some(mock.clone()));
    step();
    let opened = if s.via_create {
        block(<HttpStream<Mock> as SourceStream>::create("mock://resource".into()))?
    } else {
        block(HttpStream::new(mock, "mock://resource".to_string()))?
    };
    let last = |n: usize| {
        let w = world.lock().unwrap();
        (w.requests[n..].to_vec(), w.answers.last().copied())
    };
    let (requests, answer) = last(0);
    if requests != [Request::Get] {
        bad!("requests", "opening sent {requests:?}");
    }
    let mut h = match (answer, opened) {
        (Some(Answer::Fine), Ok(h)) => h,
        (Some(Answer::Fine), Err(e)) => bad!("open", "opening failed: {e:?}"),
        (a, Ok(_)) => bad!("error-lost", "opening succeeded although the answer was {a:?}"),
        (a, Err(e)) => {
            let fits = matches!((a, &e), (Some(Answer::Refused), HttpStreamError::FetchFailure(_)) | (Some(Answer::Status), HttpStreamError::ResponseFailure(_)));
            let text = block(e.decode_error())?;
            saw(&text);
            let want = if a == Some(Answer::Refused) { "refused-0" } else { "decoded-0" };
            if !fits || !text.contains(want) {
                bad!("message", "opening with {a:?} failed with {text:?}, which should say {want:?}");
            }
            return Ok(());
        }
    };
    let kind = |h: &HttpStream<Mock>| h.content_type().as_ref().map(|c| format!("{}/{}", c.r#type, c.subtype));
    let want_kind = match s.content_type.as_deref() {
        Some("audio/mpeg") => Some("audio/mpeg"),
        Some("Text/Plain; charset=utf-8") => Some("Text/Plain"),
        Some("application/dash+xml; q=1") => Some("application/dash+xml"),
        Some("audio/vnd.a-b.c") => Some("audio/vnd.a-b.c"),
        _ => None,
    };
    let unchanged = |h: &HttpStream<Mock>| -> Res {
        if h.content_length() != s.len {
            bad!("length", "content_length is {:?}, the header said {:?}", h.content_length(), s.len);
        }
        if kind(h).map(|k| k.to_lowercase()) != want_kind.map(str::to_lowercase) {
            bad!("type", "content_type is {:?} for {:?}", kind(h), s.content_type);
        }
        if h.header("Accept-Ranges") != s.accept_ranges.as_deref() || h.header("X-Other") != Some("v0") {
            bad!("header", "the headers are {:?}", h.headers());
        }
        if !h.supports_seek() {
            bad!("seekable", "the stream says it cannot seek");
        }
        Ok(())
    };
    unchanged(&h)?;
    let ranges = s.accept_ranges.as_deref().is_some_and(|v| v != "none");
    let mut rest = Rest::Exactly(0..s.size);
    let mut failed = false;
    for _ in 0..s.depth {
        let n = world.lock().unwrap().requests.len();
        // what it may ask for, whether it has to be asked, and what the stream is then
        let all = choose(8);
        let (want, then, got) = match all {
            0 => {
                read_some(&mut h, &world, &mut rest, 1)?;
                continue;
            }
            1 => {
                read_some(&mut h, &world, &mut rest, 2)?;
                continue;
            }
            2..=5 => {
                let (from, to) = [(0, Some(1)), (1, Some(s.size)), (2, None), (s.size, None)][all - 2];
                step();
                let got = block(h.seek_range(from, to))?;
                note(|| format!("seek_range({from}, {to:?}): {got:?}"));
                if Some(from) == s.len {
                    (None, from..from, got)
                } else {
                    (Some(Request::Range(from, to.map(|t| t - 1))), from.min(s.size)..to.unwrap_or(s.size).min(s.size), got)
                }
            }
            _ => {
                let at = [1, s.size][all - 6];
                step();
                let got = block(h.reconnect(at))?;
                note(|| format!("reconnect({at}): {got:?}"));
                if !ranges {
                    // a live stream goes on with whatever comes next
                    (Some(Request::Get), if s.len.is_some() { at..s.size } else { 0..s.size }, got)
                } else if Some(at) == s.len {
                    (None, at..at, got)
                } else {
                    (Some(Request::Range(at, None)), at..s.size, got)
                }
            }
        };
        let (requests, answer) = last(n);
        saw((&requests, got.is_ok()));
        if requests != want.clone().into_iter().collect::<Vec<_>>() {
            bad!("requests", "choice {all}: it sent {requests:?}, expected {want:?}");
        }
        let fine = want.is_none() || matches!(answer, Some(Answer::Fine | Answer::Whole));
        let then = match (&want, answer) {
            (Some(Request::Range(..)), Some(Answer::Whole)) => then.start..s.size,
            _ => then,
        };
        match got {
            Ok(()) if fine => {
                rest = Rest::Exactly(then);
                failed = false;
            }
            Ok(()) => bad!("error-lost", "{want:?} was answered with {answer:?}, and it succeeded"),
            Err(e) if fine => bad!("error", "{want:?} was answered, and it failed with {e}"),
            Err(e) => {
                let want = format!("{}-{n}", if answer == Some(Answer::Refused) { "refused" } else { "decoded" });
                if !e.to_string().contains(&want) {
                    bad!("message", "the error is {:?}, which should say {want:?}", e.to_string());
                }
                rest = match rest {
                    Rest::Exactly(r) | Rest::AtMost(r) => Rest::AtMost(r),
                };
                failed = true;
            }
        }
        unchanged(&h)?;
    }
    saw(failed);
    read_some(&mut h, &world, &mut rest, usize::MAX)?;
    Ok(())
}

fn read_some(h: &mut HttpStream<Mock>, world: &Mutex<World>, rest: &mut Rest, n: usize) -> Res {
    for _ in 0..n {
        step();
        let item = next(h)?;
        let (exact, r) = match rest {
            Rest::Exactly(r) => (true, r),
            Rest::AtMost(r) => (false, r),
        };
        if !matches!(item, Some(Err(_))) && world.lock().unwrap().errors > 0 {
            bad!("error-item-lost", "the response failed, the stream yields {item:?}");
        }
        match item {
            None if exact && !r.is_empty() => bad!("short", "the stream ends at {}, not at {}", r.start, r.end),
            None => return Ok(()),
            Some(Err(e)) => {
                let mut w = world.lock().unwrap();
                if w.errors == 0 {
                    bad!("stream-error", "the stream yields an error: {e}");
                }
                w.errors -= 1;
            }
            Some(Ok(b)) => {
                for x in b.iter() {
                    if r.start >= r.end || *x as u64 != r.start + 1 {
                        bad!("wrong", "the stream yields {x:#x} where position {} is expected ({r:?} left)", r.start);
                    }
                    r.start += 1;
                }
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct RangeHeader;

pub fn range_header() -> Res {
    let values = [0, 1, 2, 9, 10, 99, 255, 256, 1 << 20, u32::MAX as u64, 1 << 32, i64::MAX as u64, u64::MAX - 1, u64::MAX];
    let from = values[choose(values.len())];
    let to = match choose(values.len() + 1) {
        0 => None,
        i => Some(values[i - 1]),
    };
    step();
    let got = format_range_header_bytes(from, to);
    saw(&got);
    let want = match to {
        Some(t) => format!("bytes={from}-{t}"),
        None => format!("bytes={from}-"),
    };
    if got != want {
        bad!("range-header", "the header for {from} to {to:?} is {got:?}, not {want:?}");
    }
    Ok(())
}

pub fn specs(deep: bool) -> Vec<Http> {
    let mut v = vec![];
    for size in [0, 1, 3, 6] {
        for len in [None, Some(size)] {
            for accept_ranges in [None, Some("bytes"), Some("none")] {
                for (i, content_type) in [None, Some("audio/mpeg"), Some("Text/Plain; charset=utf-8"), Some("nonsense"), Some(""), Some("application/dash+xml; q=1"), Some("audio/vnd.a-b.c")].into_iter().enumerate() {
                    if i > 1 && (size != 3 || accept_ranges.is_none()) {
                        continue;
                    }
                    v.push(Http {
                        len,
                        accept_ranges: accept_ranges.map(String::from),
                        content_type: content_type.map(String::from),
                        // a range that ends where it starts is never asked for
                        size: size.max(2),
                        depth: if deep { 5 } else { 4 } - usize::from(i > 0),
                        via_create: i % 2 == 1,
                        pieces: if i % 2 == 0 { vec![1] } else { vec![2, 1] },
                        hiccups: 0,
                    });
                }
            }
        }
    }
    for accept_ranges in [None, Some("bytes".to_string())] {
        for pieces in [vec![1], vec![2], vec![3, 1]] {
            for known in [true, false] {
                let h = Http {
                    len: known.then_some(5),
                    accept_ranges: accept_ranges.clone(),
                    content_type: None,
                    size: 5,
                    depth: if deep { 3 } else { 2 },
                    via_create: false,
                    pieces: pieces.clone(),
                    hiccups: if deep { 3 } else { 2 },
                };
                v.push(h);
            }
        }
    }
    for h in &mut v {
        if h.len.is_some() {
            h.len = Some(h.size);
        }
    }
    v.sort_by_key(|h| format!("{h:?}"));
    v.dedup();
    v
}

pub fn all(deep: bool) -> Vec<crate::spec::Spec> {
    use crate::spec::Spec;
    let mut v = vec![Spec::RangeHeader(RangeHeader)];
    v.extend(specs(deep).into_iter().map(Spec::Http));
    v.extend(crate::wire::specs(deep).into_iter().map(Spec::Wire));
    v
}
