//! Runs one execution of a `Spec` under the explorer and judges it with every monitor.

use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::io::{Read, Seek, SeekFrom};
use std::num::NonZeroUsize;
use std::sync::{Arc, Mutex};
use std::time::Duration;

use mcx::explore::{Scenario, Verdict};
use mcx::{Config, End, Idle, Kind, RunResult, Setup, bit};
use stream_download::storage::adaptive::AdaptiveStorageProvider;
use stream_download::storage::bounded::BoundedStorageProvider;
use stream_download::storage::memory::MemoryStorageProvider;
use stream_download::storage::temp::TempStorageProvider;
use stream_download::{Settings, StreamDownload, StreamPhase};
use tokio_util::sync::CancellationToken;

use crate::monitors;
use crate::net::Any;
use crate::world::*;

pub const RETRY: Duration = Duration::from_secs(5);

pub struct Sim {
    pub spec: Arc<Spec>,
    /// judge only this property
    pub only: Option<&'static str>,
}

impl Sim {
    pub fn boxed(spec: Spec, only: Option<&'static str>) -> Box<dyn Scenario> {
        Box::new(Sim { spec: Arc::new(spec), only })
    }
}

fn provider(w: &World) -> LogProvider {
    let nz = |c: usize| NonZeroUsize::new(c).unwrap();
    let temp = || TempStorageProvider::new_in(scratch());
    match w.1.store {
        Store::Mem => LogProvider::wrap(w.clone(), MemoryStorageProvider),
        Store::Lazy => {
            let p = LogProvider::wrap(w.clone(), MemoryStorageProvider);
            let make = p.make;
            LogProvider {
                make: Box::new(move |l| {
                    let (r, w) = make(l)?;
                    Ok((r, Box::new(LazyWriter::new(w)) as BoxWriter))
                }),
                ..p
            }
        }
        Store::Temp => LogProvider::wrap(w.clone(), temp()),
        Store::Bounded(c) => {
            LogProvider::wrap(w.clone(), BoundedStorageProvider::new(MemoryStorageProvider, nz(c)))
        }
        Store::BoundedTemp(c) => {
            LogProvider::wrap(w.clone(), BoundedStorageProvider::new(temp(), nz(c)))
        }
        Store::Adaptive(c) => {
            LogProvider::wrap(w.clone(), AdaptiveStorageProvider::new(MemoryStorageProvider, nz(c)))
        }
        Store::AdaptiveTemp(c) => LogProvider::wrap(
            w.clone(),
            AdaptiveStorageProvider::with_fixed_and_variable(MemoryStorageProvider, temp(), nz(c)),
        ),
    }
}

/// Scratch directory for temporary files (memory backed where possible).
pub fn scratch() -> std::path::PathBuf {
    static DIR: std::sync::OnceLock<std::path::PathBuf> = std::sync::OnceLock::new();
    DIR.get_or_init(|| {
        let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        let d = std::path::PathBuf::from(format!("{base}/mcx-{}", std::process::id()));
        std::fs::create_dir_all(&d).expect("scratch directory");
        d
    })
    .clone()
}
pub fn remove_scratch() {
    let _ = std::fs::remove_dir_all(scratch());
}

#[derive(Default)]
struct Shared {
    sd: Mutex<Option<StreamDownload<LogProvider>>>,
    token: Mutex<Option<CancellationToken>>,
    failed: Mutex<Option<String>>,
}

fn settings(w: &World) -> Settings<Any> {
    let s = &w.1;
    let mut st = Settings::default()
        .prefetch_bytes(s.prefetch)
        .batch_write_size(NonZeroUsize::new(s.batch).unwrap())
        .retry_timeout(RETRY)
        .cancel_on_drop(s.cancel_on_drop);
    let w2 = w.clone();
    st = st.on_reconnect(move |_: &Any, token| {
        w2.log(Ev::ReconnectCallback);
        if w2.fault(&[Fault::Panic]).is_some() {
            panic!("scripted panic");
        }
        if w2.1.cancel_in_callback == Some(0) {
            w2.log(Ev::Cancel);
            token.cancel();
        }
    });
    if s.progress {
        let w2 = w.clone();
        let mut last = Duration::ZERO;
        st = st.on_progress(move |_: &Any, state, token| {
            if state.elapsed < last {
                w2.log(Ev::Backwards);
            }
            last = state.elapsed;
            let phase = match state.phase {
                StreamPhase::Prefetching { target, chunk_size, .. } => Phase::Prefetch(target, chunk_size),
                StreamPhase::Downloading { chunk_size, .. } => Phase::Download(chunk_size),
                _ => Phase::Complete,
            };
            let g = w2.get();
            let c = state.current_chunk.clone();
            let mut stored = c.start <= c.end;
            let mut p = c.start;
            while p < c.end {
                stored &= g.stored.contains_key(&p);
                p += 1;
            }
            let wp = g.writer_pos;
            drop(g);
            w2.log(Ev::Progress {
                phase,
                pos: state.current_position,
                chunk: (c.start, c.end),
                stored,
                contiguous_from: Some(wp),
            });
            let n = {
                let mut g = w2.get();
                g.reports += 1;
                g.reports
            };
            if w2.fault(&[Fault::Panic]).is_some() {
                panic!("scripted panic");
            }
            if w2.1.cancel_in_callback == Some(n) {
                w2.log(Ev::Cancel);
                token.cancel();
            }
        });
    }
    st
}

fn run_program(w: &World, sd: StreamDownload<LogProvider>, token: &CancellationToken) {
    let mut sd = Some(sd);
    let err = |e: std::io::Error| format!("{:?}: {e}", e.kind());
    for (i, op) in w.1.program.iter().enumerate() {
        w.log(Ev::OpStart { i });
        let Some(s) = sd.as_mut() else { break };
        match *op {
            Op::Read(n) => {
                do_read(w, s, n);
            }
            Op::ReadToEnd(n) => {
                // the number of reads that can return data is bounded by the length
                for _ in 0..(w.1.len + 3) * 2 {
                    if !matches!(do_read(w, s, n), Some(k) if k > 0) {
                        break;
                    }
                }
            }
            Op::Start(_) | Op::Cur(_) | Op::End(_) => {
                let to = match *op {
                    Op::Start(p) => SeekFrom::Start(p),
                    Op::Cur(p) => SeekFrom::Current(p),
                    Op::End(p) => SeekFrom::End(p),
                    _ => unreachable!(),
                };
                let pos = w.get().reader_pos;
                w.get().call = match to {
                    SeekFrom::Start(p) => Some(Call::Seek { to: p }),
                    SeekFrom::Current(d) => pos.checked_add_signed(d).map(|to| Call::Seek { to }),
                    SeekFrom::End(d) => w.1.len.checked_add_signed(d).map(|to| Call::Seek { to }),
                };
                let got = s.seek(to).map_err(err);
                w.get().call = None;
                let real = Some(w.get().reader_pos);
                w.log(Ev::Seek { to, pos, got, real });
            }
            Op::Cancel => {
                w.log(Ev::Cancel);
                token.cancel();
            }
            Op::Drop => {
                w.log(Ev::DropReader);
                sd = None;
            }
            Op::AwaitDownload => {
                mcx::note(|| "waiting for the download".into());
                w.get().awaiting = true;
                let w2 = w.clone();
                mcx::block_until(
                    Kind::User,
                    &|| {
                        let g = w2.get();
                        g.stream_dropped || g.idle_release
                    },
                    false,
                );
                let mut g = w.get();
                g.awaiting = false;
                g.idle_release = false;
            }
        }
    }
    if sd.is_some() {
        w.log(Ev::DropReader);
    }
    drop(sd);
}

fn do_read(w: &World, s: &mut StreamDownload<LogProvider>, n: usize) -> Option<usize> {
    let mut buf = vec![0xEE; n];
    let pos = w.get().reader_pos;
    w.get().call = Some(Call::Read { pos, len: n });
    let got = s.read(&mut buf);
    w.get().call = None;
    let stored = {
        let g = w.get();
        g.stored.len() as u64
    };
    let res = match &got {
        Ok(k) if *k <= n => Ok(buf[..*k].to_vec()),
        Ok(k) => Err(format!("returned {k} for a buffer of {n}")),
        Err(e) => Err(format!("{:?}: {e}", e.kind())),
    };
    w.log(Ev::Read { len: n, pos, got: res, stored });
    got.ok()
}

impl Scenario for Sim {
    fn name(&self) -> String {
        serde_like(&self.spec)
    }

    fn config(&self) -> Config {
        let s = &self.spec;
        let mut mask = mcx::ALL;
        if !s.cancel_points {
            mask &= !(bit(Kind::IsCancelled));
        }
        Config {
            bound: s.bound,
            horizon: 6_000,
            mask,
            weak: s.weak,
            timer_limit: 40,
            early_timers: s.early_timers,
            early_events: true,
            trace: false,
        }
    }

    fn execute(
        &self,
        run: &mut dyn FnMut(&Config, &mut dyn FnMut(&mut Setup)) -> RunResult,
    ) -> Verdict {
        let w = World::new(self.spec.clone());
        let sh = Arc::new(Shared::default());
        let side = self.spec.side.as_ref().map(|s| {
            let w = World::new(Arc::new((**s).clone()));
            w.get().beside = true;
            (w, Arc::new(Shared::default()))
        });
        let cfg = self.config();
        let r = run(&cfg, &mut |setup| build(setup, &w, &sh, side.as_ref()));
        let log = w.get().log.clone();
        let g = w.get();
        let x = monitors::Exec {
            spec: &self.spec,
            log: &log,
            stored: &g.stored,
            end: &r.end,
            panics: &r.panics,
            stream_dropped: g.stream_dropped,
        };
        let mut violations = monitors::judge(&x);
        if let Some((side, _)) = &side {
            let g = side.get();
            let panics: Vec<String> = r.panics.iter().filter(|p| !p.contains("scripted panic")).cloned().collect();
            let x = monitors::Exec {
                spec: &side.1,
                log: &g.log,
                stored: &g.stored,
                end: &r.end,
                panics: &panics,
                stream_dropped: g.stream_dropped,
            };
            violations.extend(monitors::beside(&x));
        }
        if let Some(p) = self.only {
            violations.retain(|v| v.0 == p);
        }
        let error = sh.failed.lock().unwrap().clone().or_else(|| side.as_ref()?.1.failed.lock().unwrap().clone());
        let mut h = DefaultHasher::new();
        let mut obs = String::new();
        let beside = side.as_ref().map(|s| s.0.get().log.clone()).unwrap_or_default();
        for e in log.iter().chain(&beside) {
            match e {
                Ev::Read { .. } | Ev::Seek { .. } | Ev::SeekRange { .. } | Ev::Reconnect { .. } | Ev::OnFinish { .. } => {
                    let s = match e {
                        Ev::Read { len, pos, got, .. } => format!("read({len})@{pos}={got:?};"),
                        Ev::Seek { to, got, .. } => format!("seek({to:?})={got:?};"),
                        Ev::SeekRange { start, end, .. } => format!("range({start},{end:?});"),
                        Ev::Reconnect { pos, .. } => format!("reconnect({pos});"),
                        e => format!("{e:?};"),
                    };
                    s.hash(&mut h);
                    if obs.len() < 600 {
                        obs.push_str(&s);
                    }
                }
                Ev::Write { pos, accepted, .. } => (7u8, pos, accepted).hash(&mut h),
                _ => {}
            }
        }
        format!("{:?}", r.end).hash(&mut h);
        Verdict {
            outcome: h.finish(),
            nontrivial: log.iter().any(|e| matches!(e, Ev::Write { accepted, .. } if *accepted > 0)),
            violations,
            error,
            observed: obs,
        }
    }
}

async fn open(w: &World, sh: &Shared) {
    w.get().start = Some(tokio::time::Instant::now());
    if w.1.witness {
        tokio::spawn(Witness(w.clone()));
    }
    let p = provider(w);
    match StreamDownload::new::<Any>(w.clone(), p, settings(w)).await {
        Ok(sd) => {
            *sh.token.lock().unwrap() = Some(sd.cancellation_token());
            if matches!(w.1.third, Third::Wait | Third::CancelAndWait) {
                let h = sd.handle();
                let w2 = w.clone();
                tokio::spawn(async move {
                    h.wait_for_completion().await;
                    let d = w2.get().stream_dropped;
                    w2.log(Ev::WaitDone { stream_dropped: d });
                });
            }
            *sh.sd.lock().unwrap() = Some(sd);
        }
        Err(e) => {
            *sh.failed.lock().unwrap() = Some(format!("creation failed: {e:?}"));
        }
    }
}

fn spawn_reader(setup: &mut Setup, name: &'static str, w: &World, sh: &Arc<Shared>) {
    let (w, sh) = (w.clone(), sh.clone());
    setup.spawn(name, move || {
        struct Done(World);
        impl Drop for Done {
            fn drop(&mut self) {
                self.0.log(Ev::ReaderDone);
                self.0.get().reader_done = true;
                self.0.check_release();
            }
        }
        let _done = Done(w.clone());
        mcx::block_until(
            Kind::User,
            &|| sh.sd.lock().unwrap().is_some() || sh.failed.lock().unwrap().is_some(),
            false,
        );
        let Some(sd) = sh.sd.lock().unwrap().take() else { return };
        let token = sh.token.lock().unwrap().clone().expect("token");
        run_program(&w, sd, &token);
    });
}

fn build(setup: &mut Setup, w: &World, sh: &Arc<Shared>, side: Option<&(World, Arc<Shared>)>) {
    // virtual thread 0: the runtime that runs the download task
    {
        let (w, sh) = (w.clone(), sh.clone());
        let side = side.cloned();
        setup.spawn("download", move || {
            let rt = tokio::runtime::Builder::new_current_thread()
                .enable_time()
                .start_paused(true)
                .build()
                .expect("runtime");
            rt.block_on(async {
                open(&w, &sh).await;
                if let Some((w, sh)) = &side {
                    open(w, sh).await;
                    Released(w.clone()).await;
                }
                Released(w.clone()).await;
            });
            let abort = !w.get().stream_dropped && w.1.third == Third::Shutdown && sh.failed.lock().unwrap().is_none();
            if abort {
                w.log(Ev::Fault(Fault::Abort));
            }
            drop(rt);
            if abort {
                w.log(Ev::Gone);
            }
        });
    }
    // virtual thread 1: the reader
    spawn_reader(setup, "reader", w, sh);
    if let Some((w, sh)) = side {
        w.get().others_done = true;
        spawn_reader(setup, "reader beside", w, sh);
    }
    // virtual thread 2: somebody else holding the cancellation token
    if matches!(w.1.third, Third::Cancel | Third::CancelAndWait) {
        let (w, sh) = (w.clone(), sh.clone());
        setup.spawn("canceller", move || {
            mcx::block_until(
                Kind::User,
                &|| sh.token.lock().unwrap().is_some() || sh.failed.lock().unwrap().is_some(),
                false,
            );
            let t = sh.token.lock().unwrap().clone();
            if let Some(t) = t {
                mcx::point(Kind::User, 0);
                w.log(Ev::Cancel);
                t.cancel();
            }
            w.get().others_done = true;
            w.check_release();
        });
    } else if w.1.third == Third::Shutdown {
        let (w, sh) = (w.clone(), sh.clone());
        setup.spawn("shutdown", move || {
            mcx::block_until(
                Kind::User,
                &|| sh.token.lock().unwrap().is_some() || sh.failed.lock().unwrap().is_some(),
                false,
            );
            mcx::point(Kind::User, 0);
            {
                let mut g = w.get();
                g.others_done = true;
                g.release = true;
            }
            w.wake_main();
        });
    } else {
        w.get().others_done = true;
    }
    let w = w.clone();
    let side = side.map(|s| s.0.clone());
    setup.on_idle(move |_blocked| {
        if let Some(side) = &side {
            // it depends on nobody but its own source and reader
            if !side.finished() {
                w.log(Ev::Starved);
                return Idle::Stop;
            }
        }
        let g = w.get();
        let idle = Ev::Idle { unread: g.writer_pos.saturating_sub(g.reader_pos), freed: g.freed };
        let known = (g.awaiting && !g.idle_release) || (g.reader_done && g.others_done && !g.release);
        drop(g);
        if known {
            w.log(idle);
        }
        let mut g = w.get();
        if g.awaiting && !g.idle_release {
            g.idle_release = true;
            return Idle::Retry;
        }
        if g.reader_done && g.others_done && !g.release {
            // everybody left, the download task cannot go on
            g.release = true;
            drop(g);
            w.log(Ev::Leak);
            w.wake_main();
            return Idle::Retry;
        }
        Idle::Stop
    });
}

/// A compact, parseable name of a scenario.
pub fn serde_like(s: &Spec) -> String {
    serde_json::to_string(s).expect("spec")
}
