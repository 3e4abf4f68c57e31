//! C18 with the clients that come with the library, against a server on the loopback network.

use std::sync::{Arc, Mutex};
use std::time::Duration;

use serde::{Deserialize, Serialize};
use stream_download::http::reqwest::Url;
use stream_download::http::{Client, HttpStream, HttpStreamError};
use stream_download::source::{DecodeError, SourceStream};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};

use crate::bad;
use crate::ctl::{Bad, Res, choose, note, saw, step};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Via {
    New,
    Create,
    Middleware,
    MiddlewareCreate,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Length {
    Header,
    Chunked,
    UntilClose,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Wire {
    pub via: Via,
    pub length: Length,
    pub accept_ranges: Option<String>,
    pub content_type: Option<String>,
    /// the names of headers are sent in upper case
    pub upper: bool,
    pub size: u64,
    pub depth: usize,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Request {
    Get,
    Range(String),
    Other(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Answer {
    Fine(std::ops::Range<u64>),
    Status(u16),
    HangUp,
    /// the whole content in answer to a range request
    Whole,
}

/// No answer has more bytes than this; a longer one stops there and does not end.
const FAR_SENT: u64 = 1000;

impl Wire {
    fn far(&self) -> bool {
        self.size > FAR_SENT
    }
}

#[derive(Default)]
struct Log {
    requests: Vec<Request>,
    answers: Vec<Answer>,
    trouble: Option<String>,
}

fn byte(p: u64) -> u8 {
    (p % 200) as u8 + 1
}

/// First and last byte, both included.
fn parse_range(v: &str) -> Option<(u64, Option<u64>)> {
    let (from, to) = v.strip_prefix("bytes=")?.split_once('-')?;
    let to = if to.is_empty() { None } else { Some(to.parse().ok()?) };
    Some((from.parse().ok()?, to))
}

async fn serve(listener: TcpListener, spec: Wire, log: Arc<Mutex<Log>>) {
    loop {
        let Ok((s, _)) = listener.accept().await else { return };
        if let Err(e) = answer(s, &spec, &log).await {
            log.lock().unwrap().trouble = Some(e.to_string());
        }
    }
}

async fn answer(mut s: TcpStream, spec: &Wire, log: &Mutex<Log>) -> std::io::Result<()> {
    let mut head = vec![];
    let mut buf = [0; 1024];
    while !head.ends_with(b"\r\n\r\n") {
        match s.read(&mut buf).await? {
            0 => return Ok(()),
            n => head.extend_from_slice(&buf[..n]),
        }
    }
    let head = String::from_utf8_lossy(&head).into_owned();
    let range = head.lines().find_map(|l| {
        let (n, v) = l.split_once(':')?;
        n.eq_ignore_ascii_case("range").then(|| v.trim().to_string())
    });
    let first = head.lines().next().unwrap_or_default();
    let request = match range {
        _ if first != "GET /r?q=1 HTTP/1.1" => Request::Other(first.into()),
        Some(r) => Request::Range(r),
        None => Request::Get,
    };
    let n = {
        let mut l = log.lock().unwrap();
        l.requests.push(request.clone());
        l.requests.len() - 1
    };
    let whole = !spec.far() && spec.length == Length::Header && matches!(request, Request::Range(_));
    let mut a = match choose(6 + usize::from(whole)) {
        0 => Answer::Fine(0..spec.size),
        1 => Answer::Status(404),
        2 => Answer::Status(500),
        3 => Answer::Status(503),
        4 => Answer::Status(403),
        6 => Answer::Whole,
        _ => Answer::HangUp,
    };
    let mut code = 200;
    if let (Answer::Fine(_), Request::Range(r)) = (&a, &request) {
        code = 206;
        a = match parse_range(r) {
            Some((from, to)) if from < spec.size && to.is_none_or(|t| t >= from) => Answer::Fine(from..to.map_or(spec.size, |t| t + 1).min(spec.size)),
            _ => Answer::Status(416),
        };
    }
    log.lock().unwrap().answers.push(a.clone());
    let range = match &a {
        Answer::Fine(r) if code == 206 => Some(format!("bytes {}-{}/{}", r.start, r.end - 1, spec.size)),
        _ => None,
    };
    let mut rest = 0;
    let (code, body) = match a {
        Answer::HangUp => return Ok(()),
        Answer::Whole => (200, (0..spec.size).map(byte).collect()),
        Answer::Status(c) => (c, format!("reason-{n}").into_bytes()),
        Answer::Fine(r) => {
            rest = r.end.saturating_sub(r.start + FAR_SENT);
            (code, (r.start..r.end - rest).map(byte).collect::<Vec<u8>>())
        }
    };
    let mut headers = vec![("Connection", "close".to_string()), ("X-Other", format!("v{n}"))];
    if let Some(v) = range {
        headers.push(("Content-Range", v));
    }
    if let Some(v) = &spec.accept_ranges {
        headers.push(("Accept-Ranges", v.clone()));
    }
    if let Some(v) = &spec.content_type {
        headers.push(("Content-Type", v.clone()));
    }
    match spec.length {
        Length::Header => headers.push(("Content-Length", (body.len() as u64 + rest).to_string())),
        Length::Chunked => headers.push(("Transfer-Encoding", "chunked".into())),
        Length::UntilClose => {}
    }
    let mut out = format!("HTTP/1.1 {code} Whatever\r\n").into_bytes();
    for (k, v) in headers {
        let k = if spec.upper { k.to_uppercase() } else { k.to_lowercase() };
        out.extend(format!("{k}: {v}\r\n").bytes());
    }
    out.extend(b"\r\n");
    if spec.length == Length::Chunked {
        for c in body.chunks(2) {
            out.extend(format!("{:x}\r\n", c.len()).bytes());
            out.extend(c);
            out.extend(b"\r\n");
        }
        out.extend(b"0\r\n\r\n");
    } else {
        out.extend(body);
    }
    s.write_all(&out).await?;
    if rest > 0 {
        // the client gives up on the connection
        tokio::spawn(async move { while matches!(s.read(&mut buf).await, Ok(1..)) {} });
        return Ok(());
    }
    s.shutdown().await
}

pub fn run(s: &Wire) -> Res {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
    rt.block_on(async {
        match tokio::time::timeout(Duration::from_secs(50), go(s)).await {
            Ok(r) => r,
            Err(_) => bad!("hang", "an operation does not finish"),
        }
    })
}

async fn go(s: &Wire) -> Res {
    use stream_download::http::reqwest;
    let listener = TcpListener::bind("127.0.0.1:0").await.expect("bind");
    let url: Url = format!("http://{}/r?q=1", listener.local_addr().expect("addr")).parse().expect("url");
    let log = Arc::new(Mutex::new(Log::default()));
    let server = tokio::spawn(serve(listener, s.clone(), log.clone()));
    step();
    let plain = || reqwest::Client::builder().build().expect("client");
    let r = match s.via {
        Via::New => ops(s, &log, HttpStream::new(plain(), url).await).await,
        Via::Create => ops(s, &log, <HttpStream<reqwest::Client> as SourceStream>::create(url).await).await,
        Via::Middleware => ops(s, &log, HttpStream::new(reqwest_middleware::ClientBuilder::new(plain()).build(), url).await).await,
        Via::MiddlewareCreate => ops(s, &log, <HttpStream<reqwest_middleware::ClientWithMiddleware> as SourceStream>::create(url).await).await,
    };
    server.abort();
    if let Err(e) = server.await
        && e.is_panic()
    {
        std::panic::resume_unwind(e.into_panic());
    }
    r
}

fn since(log: &Mutex<Log>, n: usize) -> Result<(Vec<Request>, Option<Answer>), Bad> {
    let l = log.lock().unwrap();
    if let Some(t) = &l.trouble {
        bad!("io", "the server could not answer: {t}");
    }
    Ok((l.requests[n..].to_vec(), l.answers.get(n).cloned()))
}

async fn ops<C: Client<Url = Url>>(s: &Wire, log: &Mutex<Log>, opened: Result<HttpStream<C>, HttpStreamError<C>>) -> Res {
    let (requests, answer) = since(log, 0)?;
    if requests != [Request::Get] {
        bad!("requests", "opening sent {requests:?}");
    }
    let mut h = match (answer, opened) {
        (Some(Answer::Fine(_)), Ok(h)) => h,
        (Some(Answer::Fine(_)), Err(e)) => bad!("open", "opening failed: {e}"),
        (a, Ok(_)) => bad!("error-lost", "opening succeeded although the answer was {a:?}"),
        (a, Err(e)) => {
            let text = e.decode_error().await;
            if let Some(Answer::Status(c)) = a
                && !(text.contains("reason-0") && text.contains(&c.to_string()))
            {
                bad!("message", "opening was answered with status {c} and text \"reason-0\", the error says {text:?}");
            }
            if text.is_empty() {
                bad!("message", "the error has no text");
            }
            return Ok(());
        }
    };
    let len = (s.length == Length::Header).then_some(s.size);
    let want_kind = match s.content_type.as_deref() {
        Some("audio/mpeg") => Some("audio/mpeg"),
        Some("Text/Plain; charset=utf-8") => Some("text/plain"),
        _ => None,
    };
    let ranges = s.accept_ranges.as_deref().is_some_and(|v| v != "none");
    let base = if s.far() { s.size - 5 } else { 0 };
    let mut rest = 0..s.size;
    let mut exact = true;
    for last in (0..=s.depth).map(|i| i == s.depth) {
        if h.content_length() != len {
            bad!("length", "content_length is {:?}, expected {len:?}", h.content_length());
        }
        let kind = h.content_type().as_ref().map(|c| format!("{}/{}", c.r#type, c.subtype).to_lowercase());
        if kind.as_deref() != want_kind {
            bad!("type", "content_type is {kind:?} for {:?}", s.content_type);
        }
        if h.header("Accept-Ranges") != s.accept_ranges.as_deref() || h.header("x-oTher") != Some("v0") || h.header("nothing").is_some() {
            bad!("header", "wrong headers: {:?}, {:?}", h.header("Accept-Ranges"), h.header("X-Other"));
        }
        if !h.supports_seek() {
            bad!("seekable", "the stream says it cannot seek");
        }
        let n = log.lock().unwrap().requests.len();
        let op = if last { 0 } else { choose(7) };
        step();
        let (want, then, got) = match op {
            0 => {
                if s.far() {
                    rest.end = rest.end.min(rest.start + FAR_SENT);
                }
                while !(s.far() && rest.is_empty()) && let Some(item) = std::future::poll_fn(|cx| futures_util::Stream::poll_next(std::pin::Pin::new(&mut h), cx)).await {
                    match item {
                        Err(e) => bad!("stream-error", "the stream yields an error: {e}"),
                        Ok(b) => {
                            for x in b.iter() {
                                if rest.is_empty() || *x != byte(rest.start) {
                                    bad!("wrong", "the stream yields {x:#x} at {}, {} more expected", rest.start, rest.end - rest.start);
                                }
                                rest.start += 1;
                            }
                        }
                    }
                }
                if exact && !rest.is_empty() {
                    bad!("short", "the stream ends at {}, not at {}", rest.start, rest.end);
                }
                rest.start = rest.end;
                continue;
            }
            1..=4 => {
                let (from, to) = [(base, Some(base + 1)), (base + 1, Some(s.size)), (base + 2, None), (s.size, None)][op - 1];
                let got = h.seek_range(from, to).await;
                note(|| format!("seek_range({from}, {to:?}): {got:?}"));
                if Some(from) == len {
                    (None, from..from, got)
                } else {
                    let want = match to {
                        Some(t) => format!("bytes={from}-{}", t - 1),
                        None => format!("bytes={from}-"),
                    };
                    (Some(Request::Range(want)), from..to.unwrap_or(s.size), got)
                }
            }
            _ => {
                let at = [base + 1, s.size][op - 5];
                let got = h.reconnect(at).await;
                note(|| format!("reconnect({at}): {got:?}"));
                if !ranges {
                    (Some(Request::Get), if len.is_some() { at..s.size } else { 0..s.size }, got)
                } else if Some(at) == len {
                    (None, at..at, got)
                } else {
                    (Some(Request::Range(format!("bytes={at}-"))), at..s.size, got)
                }
            }
        };
        let (requests, answer) = since(log, n)?;
        saw((&requests, &answer, got.is_ok()));
        if requests != want.clone().into_iter().collect::<Vec<_>>() {
            bad!("requests", "operation {op}: it sent {requests:?}, expected {want:?}");
        }
        match (answer, got) {
            (None, Ok(())) => {
                rest = then;
                exact = true;
            }
            (Some(Answer::Whole), Ok(())) => {
                rest = then.start..s.size;
                exact = true;
            }
            (Some(Answer::Fine(r)), Ok(())) => {
                if r != then && want != Some(Request::Get) {
                    bad!("requests", "it asked for {r:?} instead of {then:?}");
                }
                rest = then;
                exact = true;
            }
            (a @ (None | Some(Answer::Fine(_) | Answer::Whole)), Err(e)) => bad!("error", "{want:?} was answered with {a:?}, and it failed: {e}"),
            (a, Ok(())) => bad!("error-lost", "{want:?} was answered with {a:?}, and it succeeded"),
            (Some(a), Err(e)) => {
                let text = e.to_string();
                if let Answer::Status(c) = a
                    && !(text.contains(&format!("reason-{n}")) && text.contains(&c.to_string()))
                {
                    bad!("message", "{want:?} was answered with status {c} and text \"reason-{n}\", the error says {text:?}");
                }
                exact = false;
            }
        }
    }
    Ok(())
}

pub fn specs(deep: bool) -> Vec<Wire> {
    let mut v = vec![];
    for via in [Via::New, Via::Create, Via::Middleware, Via::MiddlewareCreate] {
        for length in [Length::Header, Length::Chunked, Length::UntilClose] {
            for (i, accept_ranges) in [None, Some("bytes"), Some("none")].into_iter().enumerate() {
                let content_type = [Some("audio/mpeg"), None, Some("Text/Plain; charset=utf-8"), Some("nonsense")][(i + length as usize) % 4];
                v.push(Wire {
                    via,
                    length,
                    accept_ranges: accept_ranges.map(String::from),
                    content_type: content_type.map(String::from),
                    upper: i % 2 == 0,
                    size: 5,
                    depth: if deep && via == Via::New { 3 } else if deep || via == Via::New { 2 } else { 1 },
                });
            }
        }
    }
    for (via, size) in [(Via::New, (1 << 32) + 3), (Via::Create, (1 << 53) + 2), (Via::Middleware, (1 << 31) + 3), (Via::MiddlewareCreate, i64::MAX as u64)] {
        v.push(Wire {
            via,
            length: Length::Header,
            accept_ranges: Some("bytes".into()),
            content_type: None,
            upper: true,
            size,
            depth: if deep { 2 } else { 1 },
        });
    }
    v
}
