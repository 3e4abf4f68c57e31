//! C20: pipelines of scripted commands, with every way of ending.
//!
//! Every command is this program under another name (`stub-N`, see `stub`): it does what the script
//! beside it says and reports how it was started.

use std::ffi::OsString;
use std::io::{Read, Write};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::symlink;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};
use std::{fs, io};

use serde::{Deserialize, Serialize};
use stream_download::process::{Command, CommandBuilder, FfmpegConvertAudioCommand, ProcessStream, ProcessStreamParams, YtDlpCommand};
use stream_download::source::{SourceStream, StreamOutcome};

use crate::bad;
use crate::ctl::{Bad, Res, choose, note, pick, saw, step};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Do {
    Emit(usize),
    Pass(usize),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Then {
    Exit(i32),
    Abort,
    Sleep,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Talk {
    Nothing,
    Plain,
    Large,
    NotText,
    /// to a handle of the caller
    Elsewhere,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Script {
    index: usize,
    what: Do,
    then: Then,
    talk: Talk,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Report {
    pid: u32,
    args: Vec<Vec<u8>>,
    stderr: PathBuf,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Pipe {
    pub stages: usize,
    pub emits: Vec<usize>,
    pub passes: Vec<usize>,
    pub thens: Vec<Then>,
    pub talks: Vec<Talk>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Args {
    Plain,
    YtDlp,
    Ffmpeg,
}

const ALL: usize = usize::MAX;

fn source(p: usize) -> u8 {
    (p % 251) as u8
}

fn transform(index: usize, b: u8) -> u8 {
    b.wrapping_mul(3).wrapping_add(index as u8)
}

fn talk(index: usize, t: Talk) -> Vec<u8> {
    let mark = format!("said-by-stage-{index};");
    match t {
        Talk::Nothing => vec![],
        Talk::Plain | Talk::Elsewhere => mark.into_bytes(),
        Talk::Large => [vec![b'x'; 200_000], mark.into_bytes()].concat(),
        Talk::NotText => [b"\xff\xfe".to_vec(), mark.into_bytes(), b"\xc3".to_vec()].concat(),
    }
}

/// What the program does as a command of a pipeline.
pub fn stub() -> Option<i32> {
    let mut args = std::env::args_os();
    let me = PathBuf::from(args.next()?);
    if !me.file_name()?.to_str()?.starts_with("stub-") {
        return None;
    }
    let script: Script = serde_json::from_slice(&fs::read(me.with_extension("json")).ok()?).ok()?;
    let report = Report {
        pid: std::process::id(),
        args: args.map(|a| a.into_vec()).collect(),
        stderr: fs::read_link("/proc/self/fd/2").ok()?,
    };
    io::stderr().write_all(&talk(script.index, script.talk)).ok()?;
    let tmp = me.with_extension("tmp");
    fs::write(&tmp, serde_json::to_vec(&report).ok()?).ok()?;
    fs::rename(tmp, me.with_extension("report")).ok()?;
    let mut out = io::stdout().lock();
    let mut copy = || -> io::Result<()> {
        match script.what {
            Do::Emit(n) => out.write_all(&(0..n).map(source).collect::<Vec<_>>())?,
            Do::Pass(mut n) => {
                let mut from = io::stdin().lock();
                let mut buf = vec![0; 65536];
                while n > 0 {
                    let k = n.min(buf.len());
                    let got = from.read(&mut buf[..k])?;
                    if got == 0 {
                        break;
                    }
                    for b in &mut buf[..got] {
                        *b = transform(script.index, *b);
                    }
                    out.write_all(&buf[..got])?;
                    out.flush()?;
                    n -= got;
                }
            }
        }
        out.flush()
    };
    if copy().is_err() {
        return Some(9);
    }
    match script.then {
        Then::Exit(c) => Some(c),
        Then::Abort => unsafe {
            libc::kill(libc::getpid(), libc::SIGKILL);
            Some(1)
        },
        Then::Sleep => {
            std::thread::sleep(Duration::from_secs(100));
            Some(0)
        }
    }
}

struct Scratch {
    dir: PathBuf,
    stages: usize,
}

static NUMBER: AtomicU64 = AtomicU64::new(0);

pub fn scratch_root() -> PathBuf {
    std::env::temp_dir().join(format!("seq-{}", std::process::id()))
}

impl Scratch {
    fn new() -> Self {
        let dir = scratch_root().join(format!("{}", NUMBER.fetch_add(1, Relaxed)));
        fs::create_dir_all(&dir).expect("scratch");
        Self { dir, stages: 0 }
    }

    fn stub(&mut self, script: Script) -> PathBuf {
        let p = self.dir.join(format!("stub-{}", self.stages));
        self.stages += 1;
        symlink(std::env::current_exe().expect("exe"), &p).expect("link");
        fs::write(p.with_extension("json"), serde_json::to_vec(&script).expect("json")).expect("script");
        p
    }

    /// What the commands say about themselves, once they are all running.
    async fn reports(&self) -> Result<Vec<Report>, Bad> {
        let mut v = vec![];
        let start = Instant::now();
        for i in 0..self.stages {
            let p = self.dir.join(format!("stub-{i}.report"));
            loop {
                if let Ok(b) = fs::read(&p) {
                    v.push(serde_json::from_slice(&b).expect("report"));
                    break;
                }
                if start.elapsed() > Duration::from_secs(20) {
                    bad!("not-started", "command {i} is not running");
                }
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
        }
        Ok(v)
    }
}

/// Whether the process is one of the commands of this scratch directory, and has not ended.
fn alive(dir: &Path, pid: u32) -> bool {
    let Ok(cmd) = fs::read(format!("/proc/{pid}/cmdline")) else { return false };
    // a process that ended has no command line
    cmd.starts_with(dir.as_os_str().as_bytes())
}

impl Drop for Scratch {
    fn drop(&mut self) {
        for i in 0..self.stages {
            if let Ok(b) = fs::read(self.dir.join(format!("stub-{i}.report")))
                && let Ok(r) = serde_json::from_slice::<Report>(&b)
                && alive(&self.dir, r.pid)
            {
                unsafe { libc::kill(r.pid as i32, libc::SIGKILL) };
            }
        }
        let _ = fs::remove_dir_all(&self.dir);
    }
}

thread_local! {
    static LOGGED: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(vec![]) };
}

struct Collect;
struct Fields(String);
impl tracing::field::Visit for Fields {
    fn record_debug(&mut self, _: &tracing::field::Field, v: &dyn std::fmt::Debug) {
        self.0 += &format!("{v:?} ");
    }
}
impl<S: tracing::Subscriber> tracing_subscriber::Layer<S> for Collect {
    fn on_event(&self, e: &tracing::Event<'_>, _: tracing_subscriber::layer::Context<'_, S>) {
        // what only shows up when debugging is not a report
        if *e.metadata().level() <= tracing::Level::WARN {
            let mut f = Fields(String::new());
            e.record(&mut f);
            LOGGED.with_borrow_mut(|l| l.push(f.0));
        }
    }
}

fn collect_logs() {
    use tracing_subscriber::layer::SubscriberExt;
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let s = tracing_subscriber::registry().with(Collect);
        tracing::subscriber::set_global_default(s).expect("subscriber");
    });
    LOGGED.take();
}

fn in_runtime<T>(f: impl Future<Output = Result<T, Bad>>) -> Result<T, Bad> {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
    rt.block_on(async {
        match tokio::time::timeout(Duration::from_secs(40), f).await {
            Ok(r) => r,
            Err(_) => bad!("hang", "the pipeline does not get anywhere"),
        }
    })
}

async fn next(h: &mut ProcessStream) -> Option<io::Result<bytes::Bytes>> {
    futures_util::StreamExt::next(h).await
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Finish {
    Fine,
    Failed,
    Cancelled,
    Dropped,
}

pub fn run(s: &Pipe) -> Res {
    collect_logs();
    in_runtime(pipe(s))
}

async fn pipe(s: &Pipe) -> Res {
    let mut scratch = Scratch::new();
    let mut scripts = vec![];
    let mut builder: Option<CommandBuilder> = None;
    for index in 0..s.stages {
        let what = if index == 0 { Do::Emit(pick(&s.emits)) } else { Do::Pass(pick(&s.passes)) };
        let script = Script { index, what, then: pick(&s.thens), talk: pick(&s.talks) };
        let mut c = Command::new(scratch.stub(script)).arg(format!("a{index}"));
        if script.talk == Talk::Elsewhere {
            c = c.stderr_handle(fs::File::create(scratch.dir.join(format!("elsewhere-{index}"))).expect("file"));
        }
        builder = Some(match builder {
            None => CommandBuilder::new(c),
            Some(b) => b.pipe(c),
        });
        scripts.push(script);
    }
    // what comes out of each command, whether it then ends
    let mut out: Vec<u8> = vec![];
    let mut ends = true;
    let mut upstream_fine = true;
    // these have nothing left to do with the pipeline, but take longer
    let mut busy = vec![];
    for (i, c) in scripts.iter().enumerate() {
        (out, ends) = match c.what {
            Do::Emit(n) => ((0..n).map(source).collect(), true),
            Do::Pass(n) => {
                let k = n.min(out.len());
                upstream_fine &= k == out.len();
                if k < out.len() {
                    // what comes before it cannot get rid of its output
                    busy.clear();
                } else if scripts[i - 1].then == Then::Sleep {
                    busy.push(i - 1);
                }
                (out[..k].iter().map(|b| transform(i, *b)).collect(), ends || k == n)
            }
        };
        ends &= c.then != Then::Sleep;
        upstream_fine &= i + 1 == s.stages || c.then == Then::Exit(0);
    }
    let last = *scripts.last().expect("stage");

    step();
    let params = match ProcessStreamParams::new(builder.expect("stage")) {
        Ok(p) => p,
        Err(e) => bad!("spawn", "the pipeline does not start: {e}"),
    };
    let mut h = match ProcessStream::create(params.content_length(Some(77))).await {
        Ok(h) => h,
        Err(e) => match e {},
    };
    if h.content_length() != Some(77) || h.supports_seek() {
        bad!("facts", "content_length {:?}, supports_seek {}", h.content_length(), h.supports_seek());
    }
    let reports = scratch.reports().await?;
    for (i, r) in reports.iter().enumerate() {
        if r.args != [format!("a{i}").into_bytes()] {
            bad!("args", "command {i} was started with {:?}", r.args);
        }
        if (r.stderr == scratch.dir.join(format!("elsewhere-{i}"))) != (scripts[i].talk == Talk::Elsewhere) {
            bad!("stderr", "command {i} writes its errors to {:?}", r.stderr);
        }
    }

    // how much is read before it finishes
    let items = [0, 1, ALL][choose(3)];
    let mut got = 0;
    let mut over = false;
    let mut n = 0;
    while n < items && !over && (ends || got < out.len()) {
        step();
        match next(&mut h).await {
            None if !ends || got < out.len() => bad!("short", "the stream ends after {got} of {} bytes", out.len()),
            None => over = true,
            Some(Err(e)) => bad!("error", "the stream fails: {e}"),
            Some(Ok(b)) => {
                if b.is_empty() || out.get(got..got + b.len()) != Some(&b[..]) {
                    bad!("wrong", "the stream yields {} wrong bytes after {got} of {}", b.len(), out.len());
                }
                got += b.len();
                n += 1;
            }
        }
    }
    let finish = if over {
        pick(&[Finish::Fine, Finish::Failed, Finish::Cancelled, Finish::Dropped])
    } else {
        pick(&[Finish::Failed, Finish::Cancelled, Finish::Dropped])
    };
    saw((&scripts, items, finish));
    if h.seek_range(0, None).await.is_ok() || h.reconnect(0).await.is_ok() {
        bad!("accepted", "a seek or reconnect of a process succeeded");
    }
    LOGGED.take();
    step();
    let result = match finish {
        Finish::Fine => Some(h.on_finish(Ok(()), StreamOutcome::Completed).await),
        Finish::Failed => Some(h.on_finish(Err(io::Error::new(io::ErrorKind::AddrInUse, "it-failed")), StreamOutcome::Completed).await),
        Finish::Cancelled => Some(h.on_finish(Err(io::Error::new(io::ErrorKind::Interrupted, "cancelled")), StreamOutcome::CancelledByUser).await),
        Finish::Dropped => None,
    };
    let logged = LOGGED.take().join("\n");
    note(|| format!("{finish:?}: {result:?}, logged {logged:.300}"));
    match (finish, result) {
        (Finish::Fine, Some(Ok(()))) | (Finish::Dropped, None) => {}
        (Finish::Failed, Some(Err(e))) if e.kind() == io::ErrorKind::AddrInUse && e.to_string() == "it-failed" => {}
        (Finish::Cancelled, Some(Err(e))) if e.kind() == io::ErrorKind::Interrupted && e.to_string() == "cancelled" => {}
        (_, r) => bad!("outcome", "on_finish was called for {finish:?} and returned {r:?}"),
    }
    let dropped = finish == Finish::Dropped;
    if dropped {
        drop(h);
    }
    let must = finish == Finish::Failed || finish == Finish::Fine && last.then != Then::Exit(0);
    let must_not = finish == Finish::Cancelled || finish == Finish::Fine && !must && upstream_fine;
    for (i, c) in scripts.iter().enumerate() {
        let mark = format!("said-by-stage-{i};");
        let said = logged.contains(&mark);
        if must && !said && !matches!(c.talk, Talk::Elsewhere | Talk::Nothing) {
            bad!("unreported", "{finish:?}, the last command {:?}: what command {i} ({:?}) wrote to its error output is not in the log", last.then, c.talk);
        }
        if must_not && said {
            bad!("reported", "{finish:?}: the log shows what command {i} wrote to its error output");
        }
    }
    for (i, r) in reports.iter().enumerate() {
        if scripts[i].talk == Talk::Elsewhere {
            if fs::read(&r.stderr).ok() != Some(talk(i, Talk::Elsewhere)) {
                bad!("stderr", "the file given for the error output of command {i} does not have it");
            }
        } else if r.stderr.exists() {
            bad!("left-over", "{finish:?}: the temporary file of command {i} is still there");
        }
    }
    if finish == Finish::Fine && last.then == Then::Exit(0) && !busy.is_empty() {
        tokio::time::sleep(Duration::from_millis(10)).await;
        for i in busy {
            if !alive(&scratch.dir, reports[i].pid) {
                bad!("ended", "the last command succeeded: command {i}, which takes longer, was ended");
            }
        }
    }
    if finish != Finish::Fine {
        let start = Instant::now();
        while let Some(i) = reports.iter().position(|r| alive(&scratch.dir, r.pid)) {
            // being killed takes a moment
            if start.elapsed() > Duration::from_secs(3) {
                bad!("running", "{finish:?}: command {i} of {} is still running", s.stages);
            }
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
    }
    Ok(())
}

pub fn args(a: Args) -> Res {
    collect_logs();
    in_runtime(async {
        match a {
            Args::Plain => plain_args().await,
            Args::YtDlp => yt_dlp().await,
            Args::Ffmpeg => ffmpeg().await,
        }
    })
}

fn lines(v: &[Vec<u8>]) -> Vec<String> {
    v.iter().map(|a| String::from_utf8_lossy(a).into_owned()).collect()
}

async fn finish(mut h: ProcessStream, want: &[u8]) -> Res {
    let mut got = vec![];
    while let Some(b) = next(&mut h).await {
        match b {
            Ok(b) => got.extend_from_slice(&b),
            Err(e) => bad!("error", "the stream fails: {e}"),
        }
    }
    if got != want {
        bad!("wrong", "the stream yields {got:?}, not {want:?}");
    }
    if let Err(e) = h.on_finish(Ok(()), StreamOutcome::Completed).await {
        bad!("outcome", "on_finish failed: {e}");
    }
    Ok(())
}

const SCRIPT: Script = Script { index: 0, what: Do::Emit(3), then: Then::Exit(0), talk: Talk::Nothing };

async fn start(p: io::Result<ProcessStreamParams>) -> Result<ProcessStream, Bad> {
    step();
    let p = match p {
        Ok(p) => p,
        Err(e) => bad!("spawn", "the command does not start: {e}"),
    };
    match ProcessStream::create(p).await {
        Ok(h) => Ok(h),
        Err(e) => match e {},
    }
}

/// Every sequence of up to four ways to add arguments.
async fn plain_args() -> Res {
    let mut scratch = Scratch::new();
    let mut c = Command::new(scratch.stub(SCRIPT));
    let mut want: Vec<Vec<u8>> = vec![];
    let odd: Vec<OsString> = ["", " a  b ", "-", "--x='y'\"z\"\n", "$HOME;*"].into_iter().map(OsString::from).chain([OsString::from_vec(b"\xffq".to_vec())]).collect();
    for _ in 0..4 {
        match choose(5) {
            0 => break,
            1 => {
                let a = odd[choose(odd.len())].clone();
                want.push(a.clone().into_vec());
                c = c.arg(a);
            }
            2 => {
                want.extend(odd[..3].iter().map(|a| a.clone().into_vec()));
                c = c.args(odd[..3].to_vec());
            }
            3 => {
                want.insert(0, b"first".to_vec());
                c = c.insert_arg(0, "first");
            }
            _ => {
                let at = want.len() / 2;
                want.insert(at, b"middle".to_vec());
                c = c.insert_arg(at, "middle");
            }
        }
    }
    let h = match choose(2) {
        0 => start(ProcessStreamParams::new(c)).await?,
        _ => start(ProcessStreamParams::new(CommandBuilder::new(c))).await?,
    };
    let r = scratch.reports().await?;
    saw(&r[0].args);
    if r[0].args != want {
        bad!("args", "the command was started with {:?}, not {:?}", lines(&r[0].args), lines(&want));
    }
    finish(h, &[0, 1, 2]).await
}

/// Takes the option and its value out.
fn option(v: &mut Vec<String>, name: &str, value: Option<&str>) -> bool {
    let at = (0..v.len()).find(|i| v[*i] == name && value.is_none_or(|x| v.get(i + 1).is_some_and(|y| y == x)));
    if let Some(i) = at {
        v.drain(i..i + 1 + usize::from(value.is_some()));
    }
    at.is_some()
}

async fn yt_dlp() -> Res {
    let mut scratch = Scratch::new();
    let mut script = SCRIPT;
    script.index = 5;
    let path = scratch.stub(script);
    let url = pick(&["https://example.org/watch?v=1&x=y z", "", "-odd"]);
    let mut c = YtDlpCommand::new(url);
    let mut audio = false;
    let mut format = None;
    let mut located = false;
    for _ in 0..4 {
        c = match choose(6) {
            0 => {
                audio = true;
                c.extract_audio(true)
            }
            1 => {
                audio = false;
                c.extract_audio(false)
            }
            2 => {
                format = Some("ba/b[ext=m4a]");
                c.format("ba/b[ext=m4a]")
            }
            3 => {
                format = Some("");
                c.format(String::new())
            }
            4 => {
                located = true;
                c.yt_dlp_path(&path)
            }
            _ => break,
        };
    }
    if !located {
        c = c.yt_dlp_path(path);
    }
    let h = match choose(3) {
        0 => start(ProcessStreamParams::new(c)).await?,
        1 => start(ProcessStreamParams::new(c.into_command())).await?,
        _ => start(ProcessStreamParams::new(CommandBuilder::new(c.clone()))).await?,
    };
    let got = lines(&scratch.reports().await?[0].args);
    saw(&got);
    let mut v = got.clone();
    let wrong = if !option(&mut v, "-o", Some("-")) {
        "does not write to its standard output"
    } else if format.is_some_and(|f| !option(&mut v, "-f", Some(f))) {
        "does not use the given format"
    } else if option(&mut v, "-x", None) != audio {
        "extracts audio or not, against the setting"
    } else if !option(&mut v, url, None) {
        "is not given the URL"
    } else if !option(&mut v, "--quiet", None) || !option(&mut v, "--no-part", None) || !option(&mut v, "--no-continue", None) {
        "lacks an option"
    } else if !v.is_empty() {
        "has further arguments"
    } else {
        return finish(h, &[0, 1, 2]).await;
    };
    bad!("args", "url {url:?}, audio {audio}, format {format:?}: yt-dlp {wrong}: {got:?}");
}

async fn ffmpeg() -> Res {
    let mut scratch = Scratch::new();
    let first = scratch.stub(SCRIPT);
    let path = scratch.stub(Script { index: 1, what: Do::Pass(ALL), ..SCRIPT });
    let format = pick(&["mp3", "adts", ""]);
    let mut c = FfmpegConvertAudioCommand::new(format);
    let mut extra = vec![];
    let mut located = false;
    for _ in 0..4 {
        c = match choose(5) {
            0 => {
                extra.push("-vn");
                c.arg("-vn")
            }
            1 => {
                extra.extend(["-b:a", "128k"]);
                c.args(["-b:a", "128k"])
            }
            2 => {
                located = true;
                c.ffmpeg_path(&path)
            }
            3 => c.args(Vec::<String>::new()),
            _ => break,
        };
    }
    if !located {
        c = c.ffmpeg_path(path);
    }
    let b = match choose(2) {
        0 => CommandBuilder::new(YtDlpCommand::new("u").yt_dlp_path(first)).pipe(c),
        _ => CommandBuilder::new(Command::new(first).arg("z")).pipe(c),
    };
    let h = start(ProcessStreamParams::new(b)).await?;
    let got = lines(&scratch.reports().await?[1].args);
    saw(&got);
    let mut v = got.clone();
    let input = got.iter().position(|a| a == "-i");
    let given = (0..got.len()).find(|i| got[*i..].iter().map(String::as_str).take(extra.len()).eq(extra.iter().copied()));
    let wrong = if v.pop().as_deref() != Some("-") {
        "does not end with the output"
    } else if !option(&mut v, "-i", Some("pipe:")) {
        "does not read its standard input"
    } else if !option(&mut v, "-map", Some("a")) || !option(&mut v, "-f", Some(format)) || !option(&mut v, "-loglevel", Some("error")) {
        "lacks an option"
    } else if v != extra || !extra.is_empty() && (given.is_none() || given < input) {
        "is not given the arguments in their order, between input and output"
    } else {
        return finish(h, &[1, 4, 7]).await;
    };
    bad!("args", "format {format:?}, arguments {extra:?}: ffmpeg {wrong}: {got:?}");
}

/// The pipeline cannot start because a command does not exist.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Missing;

pub fn missing() -> Res {
    collect_logs();
    in_runtime(async {
        let mut scratch = Scratch::new();
        let n = 1 + choose(3);
        let gone = choose(n);
        let mut builder: Option<CommandBuilder> = None;
        for index in 0..n {
            let c = if index == gone {
                Command::new(scratch.dir.join("no-such-program"))
            } else if index > gone {
                Command::new(std::env::current_exe().expect("exe"))
            } else {
                let what = if index == 0 { Do::Emit(5) } else { Do::Pass(ALL) };
                Command::new(scratch.stub(Script { index, what, then: Then::Exit(0), talk: Talk::Plain }))
            };
            builder = Some(match builder {
                None => CommandBuilder::new(c),
                Some(b) => b.pipe(c),
            });
        }
        step();
        match ProcessStreamParams::new(builder.expect("command")) {
            Ok(_) => bad!("error-lost", "the pipeline started although command {gone} does not exist"),
            Err(e) if e.kind() != io::ErrorKind::NotFound => bad!("error", "command {gone} does not exist, and the error is {e}"),
            Err(e) => saw(e.to_string()),
        }
        Ok(())
    })
}

pub fn specs(deep: bool) -> Vec<crate::spec::Spec> {
    use crate::spec::Spec;
    let thens = vec![Then::Exit(0), Then::Exit(3), Then::Abort, Then::Sleep];
    let mut v = vec![Spec::Args(Args::Plain), Spec::Args(Args::YtDlp), Spec::Args(Args::Ffmpeg), Spec::Missing(Missing)];
    let base = Pipe { stages: 1, emits: vec![0, 5, 200_000], passes: vec![0, 3, ALL], thens, talks: vec![Talk::Plain] };
    let talks = vec![Talk::Nothing, Talk::Plain, Talk::Large, Talk::NotText, Talk::Elsewhere];
    v.push(Spec::Pipe(Pipe { talks: talks.clone(), ..base.clone() }));
    v.push(Spec::Pipe(Pipe { stages: 2, ..base.clone() }));
    v.push(Spec::Pipe(Pipe { stages: 2, talks, emits: vec![5], passes: vec![ALL], thens: vec![Then::Exit(0), Then::Exit(3)] }));
    let some = vec![Then::Exit(0), Then::Exit(3), Then::Sleep];
    if deep {
        v.push(Spec::Pipe(Pipe { stages: 3, ..base.clone() }));
        v.push(Spec::Pipe(Pipe { stages: 4, emits: vec![5], passes: vec![3, ALL], thens: some, ..base }));
    } else {
        v.push(Spec::Pipe(Pipe { stages: 3, emits: vec![5, 200_000], passes: vec![3, ALL], thens: some, ..base }));
    }
    v
}
