//! C28: default middleware, a setting of the whole process. Every history runs in a process of its
//! own: this program again, which performs the operations and reports what the server received.

use std::sync::{Arc, Mutex};

use serde::{Deserialize, Serialize};
use stream_download::Settings;
use stream_download::StreamDownload;
use stream_download::http::HttpStream;
use stream_download::http::reqwest::{self, Url};
use stream_download::source::{DecodeError, SourceStream};
use stream_download::storage::memory::MemoryStorageProvider;
use reqwest_middleware::{ClientBuilder, ClientWithMiddleware, Middleware, Next};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};

use crate::bad;
use crate::ctl::{Res, note, pick, saw, step};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Uses {
    /// default middleware added before
    pub before: usize,
    pub depth: usize,
    pub ops: Vec<Use>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Use {
    /// add a default middleware that passes everything on
    Add,
    /// add one that refuses everything
    AddRefusing,
    /// open a stream with a client of the library's making
    Create,
    Download,
    Http,
    /// open a stream with the caller's client, which has its own middleware
    Own,
    /// open a stream without middleware
    Plain,
    /// a request of the first, the last stream
    SeekFirst,
    SeekLast,
    ReconnectFirst,
    ReconnectLast,
}
use Use::*;

/// What the server received and how it ended.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Seen {
    requests: Vec<Vec<String>>,
    error: Option<String>,
}

struct Mark(String, bool);

#[async_trait::async_trait]
impl Middleware for Mark {
    async fn handle(
        &self,
        mut req: reqwest::Request,
        ext: &mut http::Extensions,
        next: Next<'_>,
    ) -> reqwest_middleware::Result<reqwest::Response> {
        if self.1 {
            return Err(reqwest_middleware::Error::Middleware(std::io::Error::other(format!("refused by {}", self.0)).into()));
        }
        req.headers_mut().append("x-mark", self.0.parse().expect("header"));
        next.run(req, ext).await
    }
}

type Log = Arc<Mutex<Vec<Vec<String>>>>;

async fn serve(listener: TcpListener, log: Log) {
    while let Ok((s, _)) = listener.accept().await {
        let _ = answer(s, &log).await;
    }
}

async fn answer(mut s: TcpStream, log: &Log) -> std::io::Result<()> {
    let mut head = vec![];
    let mut buf = [0; 1024];
    while !head.ends_with(b"\r\n\r\n") {
        match s.read(&mut buf).await? {
            0 => return Ok(()),
            n => head.extend_from_slice(&buf[..n]),
        }
    }
    let head = String::from_utf8_lossy(&head).into_owned();
    let marks = head.lines().filter_map(|l| l.strip_prefix("x-mark: ").map(|v| v.trim().to_string())).collect();
    log.lock().unwrap().push(marks);
    let range = head.lines().any(|l| l.starts_with("range:"));
    let (code, body, more) = if range { (206, "bcde", "content-range: bytes 1-4/5\r\n") } else { (200, "abcde", "") };
    let text = format!("HTTP/1.1 {code} OK\r\nconnection: close\r\naccept-ranges: bytes\r\n{more}content-length: {}\r\n\r\n{body}", body.len());
    s.write_all(text.as_bytes()).await?;
    s.shutdown().await
}

enum Open {
    Mw(HttpStream<ClientWithMiddleware>),
    Plain(HttpStream<reqwest::Client>),
}

impl Open {
    async fn request(&mut self, seek: bool) -> Option<String> {
        let r = match (self, seek) {
            (Open::Mw(s), true) => s.seek_range(1, Some(5)).await,
            (Open::Mw(s), false) => s.reconnect(1).await,
            (Open::Plain(s), true) => s.seek_range(1, Some(5)).await,
            (Open::Plain(s), false) => s.reconnect(1).await,
        };
        r.err().map(|e| e.to_string())
    }
}

/// The process of one history.
pub fn child(ops: &str) -> i32 {
    let ops: Vec<Use> = serde_json::from_str(ops).expect("operations");
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
    rt.block_on(async {
        let listener = TcpListener::bind("127.0.0.1:0").await.expect("bind");
        let url: Url = format!("http://{}/", listener.local_addr().expect("addr")).parse().expect("url");
        let log = Log::default();
        tokio::spawn(serve(listener, log.clone()));
        let mut added = 0;
        let mut open: Vec<Option<Open>> = vec![];
        for op in ops {
            let error = match op {
                Add | AddRefusing => {
                    Settings::<HttpStream<ClientWithMiddleware>>::add_default_middleware(Mark(added.to_string(), op == AddRefusing));
                    added += 1;
                    None
                }
                Create => match <HttpStream<ClientWithMiddleware> as SourceStream>::create(url.clone()).await {
                    Ok(s) => {
                        open.push(Some(Open::Mw(s)));
                        None
                    }
                    Err(e) => Some(e.decode_error().await),
                },
                Own => {
                    let client = ClientBuilder::new(reqwest::Client::new()).with(Mark("own".into(), false)).build();
                    match HttpStream::new(client, url.clone()).await {
                        Ok(s) => {
                            open.push(Some(Open::Mw(s)));
                            None
                        }
                        Err(e) => Some(e.decode_error().await),
                    }
                }
                Plain => match <HttpStream<reqwest::Client> as SourceStream>::create(url.clone()).await {
                    Ok(s) => {
                        open.push(Some(Open::Plain(s)));
                        None
                    }
                    Err(e) => Some(e.decode_error().await),
                },
                Download => {
                    match StreamDownload::new_http_with_middleware(url.clone(), MemoryStorageProvider, Settings::default()).await {
                        Ok(s) => {
                            let h = s.handle();
                            h.wait_for_completion().await;
                            None
                        }
                        Err(e) => Some(e.decode_error().await),
                    }
                }
                Http => match StreamDownload::new_http(url.clone(), MemoryStorageProvider, Settings::default()).await {
                    Ok(s) => {
                        let h = s.handle();
                        h.wait_for_completion().await;
                        None
                    }
                    Err(e) => Some(e.decode_error().await),
                },
                SeekFirst | ReconnectFirst => match open.first_mut() {
                    Some(Some(s)) => s.request(op == SeekFirst).await,
                    _ => None,
                },
                SeekLast | ReconnectLast => match open.last_mut() {
                    Some(Some(s)) => s.request(op == SeekLast).await,
                    _ => None,
                },
            };
            let requests = std::mem::take(&mut *log.lock().unwrap());
            println!("{}", serde_json::to_string(&Seen { requests, error }).expect("report"));
        }
        0
    })
}

pub fn run(s: &Uses) -> Res {
    let mut ops = vec![Add; s.before];
    for _ in 0..s.depth {
        ops.push(pick(&s.ops));
    }
    step();
    let out = std::process::Command::new(std::env::current_exe().expect("program"))
        .args(["middleware", &serde_json::to_string(&ops).expect("operations")])
        .output()
        .expect("process");
    let lines: Vec<Seen> = String::from_utf8_lossy(&out.stdout).lines().filter_map(|l| serde_json::from_str(l).ok()).collect();
    note(|| format!("{ops:?}: {lines:?}"));
    if !out.status.success() || lines.len() != ops.len() {
        bad!("died", "{ops:?}: {} after {lines:?}: {}", out.status, String::from_utf8_lossy(&out.stderr));
    }
    saw(&lines);
    // the marks of the default middleware in order, and whether one refuses
    let mut defaults: Vec<(String, bool)> = vec![];
    let mut open: Vec<Vec<(String, bool)>> = vec![];
    for (i, (op, seen)) in ops.iter().zip(&lines).enumerate() {
        let chain = match op {
            Add | AddRefusing => {
                defaults.push((defaults.len().to_string(), *op == AddRefusing));
                None
            }
            Create | Download => Some(defaults.clone()),
            Own => Some(vec![("own".into(), false)]),
            Plain | Http => Some(vec![]),
            SeekFirst | ReconnectFirst => open.first().cloned(),
            SeekLast | ReconnectLast => open.last().cloned(),
        };
        let Some(chain) = chain else {
            if seen.requests.is_empty() && seen.error.is_none() {
                continue;
            }
            bad!("unexpected", "{ops:?}: operation {i} ({op:?}) sent {:?}", seen.requests);
        };
        let marks: Vec<String> = chain.iter().map(|c| c.0.clone()).collect();
        match chain.iter().find(|c| c.1) {
            Some(_) if !seen.requests.is_empty() => {
                bad!("not-refused", "{ops:?}: operation {i} ({op:?}) sent {:?} although a middleware refuses", seen.requests);
            }
            Some((by, _)) => match &seen.error {
                Some(e) if e.contains(&format!("refused by {by}")) => {}
                e => bad!("refusal-lost", "{ops:?}: operation {i} ({op:?}) was refused by {by}, the error is {e:?}"),
            },
            None => {
                if seen.requests != [marks.clone()] || seen.error.is_some() {
                    bad!("chain", "{ops:?}: operation {i} ({op:?}) sent {:?} ({:?}), expected one request through {marks:?}", seen.requests, seen.error);
                }
                if matches!(op, Create | Own | Plain) {
                    open.push(chain);
                }
            }
        }
    }
    Ok(())
}

pub fn specs(deep: bool) -> Vec<Uses> {
    let all = vec![Add, AddRefusing, Create, Download, Http, Own, Plain, SeekFirst, SeekLast, ReconnectFirst, ReconnectLast];
    let some = vec![Add, Create, Own, SeekFirst, ReconnectLast];
    vec![
        Uses { before: 0, depth: if deep { 4 } else { 3 }, ops: all },
        Uses { before: 0, depth: if deep { 5 } else { 4 }, ops: some.clone() },
        Uses { before: 9, depth: if deep { 3 } else { 2 }, ops: some.clone() },
        Uses { before: 40, depth: if deep { 3 } else { 2 }, ops: some },
    ]
}
