//! Operations in progress at the same time: interleaved, nested and parallel.
use crate::engine::*;
use crate::gen::{self, G};
use crate::generic::*;
use crate::hostile::*;
use crate::io::*;
use crate::model::*;
use crate::schema::*;
use crate::util::*;
use crate::{alloc, ensure, fail};
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::thrift::Error;
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

pub fn props() -> Vec<Prop> {
    let p = |id, run: PropFn, quick, thorough, rule| Prop { id, run, quick, thorough, rule };
    vec![p("C34", c34, 150_000, 4_000_000, "2 to 5 operations (sequences of typed and generic reads, skips, envelopes, typed and generic writes; valid, damaged and cut-off input), each on its own transport, first alone, then in progress together: as asynchronous tasks polled in a drawn order, as synchronous operations inside one another's transport calls, or as threads; non-trivial: at least two operations were in progress at the same time")]
}

enum Step {
    Typed(&'static Root),
    Proto(What),
}

enum Job {
    Read { steps: Vec<Step>, bytes: Vec<u8>, limit: usize },
    Write { calls: Vec<Out1>, flush: bool },
}
enum Out1 {
    Typed(BV),
    Value(TV),
    Message(String, u8, u32),
}

/// The values read before the first error, the error, and how far the transport got; or the bytes written.
#[derive(Clone, PartialEq, Debug)]
struct Done {
    values: Vec<TV>,
    error: Option<Sig>,
    moved: usize,
    bytes: Vec<u8>,
}

impl Job {
    fn show(&self) -> String {
        match self {
            Job::Read { steps, bytes, limit } => {
                let st: Vec<String> = steps
                    .iter()
                    .map(|x| match x {
                        Step::Typed(r) => r.name.to_string(),
                        Step::Proto(w) => format!("{w:?}"),
                    })
                    .collect();
                format!("read {} limit {limit}: {}", st.join(", "), hx(bytes))
            }
            Job::Write { calls, .. } => {
                let c: Vec<String> = calls
                    .iter()
                    .map(|x| match x {
                        Out1::Typed(v) => v.dbg(),
                        Out1::Value(v) => format!("{v:?}"),
                        Out1::Message(n, t, q) => format!("message {n:?} {t} {q}"),
                    })
                    .collect();
                format!("write {}", cut(&c.join(", "), 300))
            }
        }
    }
}

fn job(s: &mut Source) -> Job {
    if s.weighted(&[3, 2]) == 0 {
        let mut bytes = vec![];
        let mut steps = vec![];
        for _ in 0..1 + s.below(3) {
            if s.chance(2, 3) {
                let root = pick_root(s);
                let mut g = G::of(s, root, 4, 100);
                let mut v = (root.gen)(s, &mut g).tv();
                if s.chance(1, 3) {
                    inject_unknown(s, &mut v, (root.ft)(), 3);
                }
                bytes.extend(encode_canonical(&v));
                steps.push(Step::Typed(root));
            } else {
                let (what, b) = some_bytes(s);
                bytes.extend(b);
                steps.push(Step::Proto(match what {
                    // there is no asynchronous decoder of exceptions
                    What::Exception => What::Value(TT::Struct),
                    w => w,
                }));
            }
        }
        let mut limit = if s.chance(1, 4) { s.below(2000) } else { usize::MAX };
        match s.weighted(&[4, 1, 1]) {
            0 => {}
            1 => {
                let n = s.below(bytes.len() + 1);
                bytes.truncate(n);
            }
            _ => {
                let at = s.below(bytes.len());
                bytes[at] = s.byte();
                // a length made up by this stays below what the harness lets a case allocate
                limit = limit.min(4 << 20);
            }
        }
        Job::Read { steps, bytes, limit }
    } else {
        let calls = (0..1 + s.below(3))
            .map(|_| match s.weighted(&[4, 2, 1]) {
                0 => {
                    let root = pick_root(s);
                    let mut g = G::of(s, root, 4, 100);
                    Out1::Typed((root.gen)(s, &mut g))
                }
                1 => {
                    let d = 1 + s.below(4);
                    let mut g = G::small(s);
                    let t = gen::elem_tt(s, d);
                    Out1::Value(gen::tv(s, &mut g, t, d))
                }
                _ => {
                    let n = s.below(20);
                    Out1::Message(gen::text(s, n), 1 + s.below(4) as u8, gen::int(s, 64) as u32)
                }
            })
            .collect();
        Job::Write { calls, flush: s.bool() }
    }
}

fn msg(m: TMessageIdentifier) -> TV {
    TV::Struct(vec![(1, TV::Bin(m.name.into_bytes())), (2, TV::I8(u8::from(m.message_type) as i8)), (3, TV::I64(m.sequence_number as i64))])
}

fn run_sync(job: &Job, t: &mut (impl io::Read + io::Seek + io::Write + Pos)) -> Done {
    let mut values = vec![];
    let mut bytes = vec![];
    let r = match job {
        Job::Read { steps, limit, .. } => {
            let mut p: SyncIn = TCompactInputProtocol::new(&mut *t as &mut dyn RS, *limit);
            steps.iter().try_for_each(|x| {
                values.push(match x {
                    Step::Typed(root) => (root.read)(&mut p)?.tv(),
                    Step::Proto(What::Value(t)) => read_value(&mut p, *t)?,
                    Step::Proto(What::Skip(t, d)) => p.skip_till_depth(tt_to_ttype(*t), d.unwrap_or(64)).map(|_| TV::Bool(true))?,
                    Step::Proto(_) => msg(p.read_message_begin()?),
                });
                Ok(())
            })
        }
        Job::Write { calls, flush } => {
            let r = {
                let mut p: SyncOut = TCompactOutputProtocol::new(&mut *t as &mut dyn io::Write);
                calls.iter().try_for_each(|x| {
                    let n = match x {
                        Out1::Typed(v) => v.write(&mut p)?,
                        Out1::Value(v) => write_value(&mut p, v)?,
                        Out1::Message(n, t, q) => p.write_message_begin(&TMessageIdentifier::new(n.as_str(), super::faults::message_type(*t), *q))? + p.write_message_end()?,
                    };
                    values.push(TV::I64(n as i64));
                    if *flush {
                        p.flush()?;
                    }
                    Ok(())
                })
            };
            bytes = t.written();
            r
        }
    };
    Done { values, error: r.map_err(|e: Error| sig(&e)).err(), moved: t.moved(), bytes }
}

/// What a transport of this file tells about itself.
trait Pos {
    fn moved(&self) -> usize;
    fn written(&mut self) -> Vec<u8>;
}

/// A source and sink that runs something else in the middle of its `at`-th call.
struct Nest<'a> {
    data: &'a [u8],
    pos: usize,
    out: Vec<u8>,
    piece: usize,
    calls: usize,
    inside: Option<(usize, &'a mut dyn FnMut())>,
}
impl Nest<'_> {
    fn call(&mut self) {
        self.calls += 1;
        if matches!(&self.inside, Some((at, _)) if *at == self.calls) {
            (self.inside.take().unwrap().1)();
        }
    }
}
impl io::Read for Nest<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.call();
        let n = piece_of(self.piece, self.data.len()).min(b.len()).min(self.data.len() - self.pos);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl io::Write for Nest<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.call();
        let n = piece_of(self.piece, b.len()).min(b.len());
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.call();
        Ok(())
    }
}
impl io::Seek for Nest<'_> {
    fn seek(&mut self, p: io::SeekFrom) -> io::Result<u64> {
        let at = match p {
            io::SeekFrom::Start(n) => n as i64,
            io::SeekFrom::End(d) => self.data.len() as i64 + d,
            io::SeekFrom::Current(d) => self.pos as i64 + d,
        };
        self.pos = (at.max(0) as usize).min(self.data.len());
        Ok(self.pos as u64)
    }
}
impl Pos for Nest<'_> {
    fn moved(&self) -> usize {
        self.pos
    }
    fn written(&mut self) -> Vec<u8> {
        std::mem::take(&mut self.out)
    }
}
/// Large values in few enough pieces: `futures` zeroes the rest of a buffer again after each pending answer.
fn piece_of(n: usize, have: usize) -> usize {
    if have > 100_000 {
        n.saturating_mul(have / 2000)
    } else {
        n
    }
}
fn source(job: &Job) -> &[u8] {
    match job {
        Job::Read { bytes, .. } => bytes,
        Job::Write { .. } => &[],
    }
}
fn nested(jobs: &[Job], at: &[usize], piece: usize, deepest: &mut usize) -> Vec<Done> {
    let mut inner: Option<Vec<Done>> = None;
    let first = {
        let mut go = || {
            *deepest += 1;
            inner = Some(nested(&jobs[1..], &at[1..], piece, deepest));
        };
        let inside: Option<(usize, &mut dyn FnMut())> = if jobs.len() > 1 { Some((at[0], &mut go)) } else { None };
        let mut t = Nest { data: source(&jobs[0]), pos: 0, out: vec![], piece, calls: 0, inside };
        run_sync(&jobs[0], &mut t)
    };
    let mut all = vec![first];
    match inner {
        Some(v) => all.extend(v),
        None if jobs.len() > 1 => all.extend(nested(&jobs[1..], &at[1..], piece, deepest)),
        None => {}
    }
    all
}

/// What the scheduler sees of a task's transport.
#[derive(Default)]
struct Shared {
    waiting: bool,
    ready: bool,
    waker: Option<Waker>,
    out: Vec<u8>,
    pos: usize,
}

/// An asynchronous transport. When it has nothing to give it keeps the waker of the last poll, and
/// the scheduler wakes that one later (or it does so at once).
struct TaskIo {
    sh: Arc<Mutex<Shared>>,
    jobs: Arc<Vec<Job>>,
    who: usize,
    plan: Vec<Act>,
    step: usize,
    later: bool,
    flushes: usize,
    /// a synchronous operation made within a poll of this transport, and its outcome
    inside: Option<(usize, usize)>,
    made: Arc<Mutex<Vec<(usize, Done)>>>,
}
impl TaskIo {
    fn go(&mut self, cx: &mut Context<'_>) -> Poll<usize> {
        {
            let mut sh = self.sh.lock().unwrap();
            if sh.waiting && !sh.ready {
                sh.waker = Some(cx.waker().clone());
                return Poll::Pending;
            }
            if sh.waiting {
                sh.waiting = false;
                sh.ready = false;
            }
        }
        // a long operation is interrupted often enough by then
        let a = if self.step < 20_000 { self.plan[self.step % self.plan.len()] } else { Act::Take(4096) };
        self.step += 1;
        if matches!(self.inside, Some((at, _)) if at == self.step) {
            let (_, who) = self.inside.take().unwrap();
            let mut t = Nest { data: source(&self.jobs[who]), pos: 0, out: vec![], piece: usize::MAX, calls: 0, inside: None };
            let d = run_sync(&self.jobs[who], &mut t);
            self.made.lock().unwrap().push((who, d));
        }
        match a {
            Act::Take(n) => Poll::Ready(n),
            Act::Stall => {
                let mut sh = self.sh.lock().unwrap();
                sh.waiting = true;
                sh.ready = !self.later;
                if self.later {
                    sh.waker = Some(cx.waker().clone());
                } else {
                    cx.waker().wake_by_ref();
                }
                Poll::Pending
            }
        }
    }
}
impl futures::io::AsyncRead for TaskIo {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
        let Poll::Ready(n) = self.go(cx) else { return Poll::Pending };
        let this = &mut *self;
        let data = source(&this.jobs[this.who]);
        let mut sh = this.sh.lock().unwrap();
        let n = piece_of(n, data.len()).min(b.len()).min(data.len() - sh.pos);
        b[..n].copy_from_slice(&data[sh.pos..sh.pos + n]);
        sh.pos += n;
        Poll::Ready(Ok(n))
    }
}
impl futures::io::AsyncWrite for TaskIo {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        let Poll::Ready(n) = self.go(cx) else { return Poll::Pending };
        let n = piece_of(n, b.len()).min(b.len());
        self.sh.lock().unwrap().out.extend_from_slice(&b[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let Poll::Ready(_) = self.go(cx) else { return Poll::Pending };
        self.flushes += 1;
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

type Task = Pin<Box<dyn std::future::Future<Output = Done>>>;

fn task(jobs: Arc<Vec<Job>>, who: usize, mut io: TaskIo) -> Task {
    let sh = io.sh.clone();
    Box::pin(async move {
        let mut values = vec![];
        let r: Result<(), Error> = match &jobs[who] {
            Job::Read { steps, limit, .. } => {
                let mut p: AsyncIn = TCompactInputStreamProtocol::new(&mut io as &mut dyn AR, *limit);
                async {
                    for x in steps {
                        values.push(match x {
                            Step::Typed(root) => (root.read_async)(&mut p).await?.tv(),
                            Step::Proto(What::Value(t)) => read_value_async(&mut p, *t).await?,
                            Step::Proto(What::Skip(t, d)) => p.skip_till_depth(tt_to_ttype(*t), d.unwrap_or(64)).await.map(|_| TV::Bool(true))?,
                            Step::Proto(_) => msg(p.read_message_begin().await?),
                        });
                    }
                    Ok(())
                }
                .await
            }
            Job::Write { calls, flush } => {
                let mut p: AsyncOut = TCompactOutputStreamProtocol::new(&mut io as &mut dyn AW);
                async {
                    for x in calls {
                        let n = match x {
                            Out1::Typed(v) => v.write_async(&mut p).await?,
                            Out1::Value(v) => write_value_async(&mut p, v).await?,
                            Out1::Message(n, t, q) => {
                                let id = TMessageIdentifier::new(n.as_str(), super::faults::message_type(*t), *q);
                                p.write_message_begin(&id).await? + p.write_message_end().await?
                            }
                        };
                        values.push(TV::I64(n as i64));
                        if *flush {
                            p.flush().await?;
                        }
                    }
                    Ok(())
                }
                .await
            }
        };
        let mut sh = sh.lock().unwrap();
        Done { values, error: r.map_err(|e| sig(&e)).err(), moved: sh.pos, bytes: std::mem::take(&mut sh.out) }
    })
}

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

fn alone(jobs: &Arc<Vec<Job>>, who: usize, asyn: bool) -> Done {
    if asyn {
        let io = TaskIo { sh: Default::default(), jobs: jobs.clone(), who, plan: vec![Act::Take(usize::MAX)], step: 0, later: false, flushes: 0, inside: None, made: Default::default() };
        block_on(task(jobs.clone(), who, io))
    } else {
        run_sync(&jobs[who], &mut Nest { data: source(&jobs[who]), pos: 0, out: vec![], piece: usize::MAX, calls: 0, inside: None })
    }
}

/// An error leaves the source wherever it had to be to find it.
fn same(a: &Done, b: &Done) -> bool {
    a.values == b.values && a.error == b.error && a.bytes == b.bytes && (a.error.is_some() || a.moved == b.moved)
}

fn c34(s: &mut Source, c: &mut Ctx) -> R {
    // several values, each with several outcomes
    alloc::raise_ceiling(2 << 30);
    let n = 2 + s.below(4);
    let jobs: Arc<Vec<Job>> = Arc::new((0..n).map(|_| job(s)).collect());
    c.sample(|| jobs.iter().map(|j| cut(&j.show(), 140)).collect::<Vec<_>>().join(" | "));
    let sync: Vec<Done> = (0..n).map(|i| alone(&jobs, i, false)).collect();
    let asyn: Vec<Done> = (0..n).map(|i| alone(&jobs, i, true)).collect();
    for i in 0..n {
        c.note(source(&jobs[i]));
        c.note(&sync[i].bytes);
        ensure!(same(&sync[i], &asyn[i]), "alone: synchronously {:?}, asynchronously {:?}: {}", sync[i], asyn[i], jobs[i].show());
    }
    // inside one another
    {
        let at: Vec<usize> = (0..n).map(|_| 1 + if s.bool() { s.below(6) } else { s.below(60) }).collect();
        let piece = if s.bool() { usize::MAX } else { 1 + s.below(4) };
        let mut deepest = 0;
        let outs = nested(&jobs, &at, piece, &mut deepest);
        c.nontrivial |= deepest > 0;
        c.label_if(deepest > 0, "nested");
        for i in 0..n {
            ensure!(same(&outs[i], &sync[i]), "nested at the transport calls {at:?} in pieces of {piece}: operation {i} ends in {:?}, alone in {:?}; operations {}", outs[i], sync[i], all(&jobs));
            c.oracle_calls += 1;
        }
    }
    // as tasks
    let made: Arc<Mutex<Vec<(usize, Done)>>> = Default::default();
    let mut shared = vec![];
    let mut tasks: Vec<Option<Task>> = vec![];
    for i in 0..n {
        let sh: Arc<Mutex<Shared>> = Default::default();
        let inside = if s.chance(1, 4) { Some((1 + s.below(8), s.below(n))) } else { None };
        let io = TaskIo { sh: sh.clone(), jobs: jobs.clone(), who: i, plan: plan(s, true), step: 0, later: s.bool(), flushes: 0, inside, made: made.clone() };
        shared.push(sh);
        tasks.push(Some(task(jobs.clone(), i, io)));
    }
    let mut flags: Vec<Option<Arc<Flag>>> = vec![None; n];
    let mut started = vec![false; n];
    let fresh = s.bool();
    // a poll nobody asked for, an operation between the polls, a task given up
    let (spurious, between, give_up) = (s.chance(1, 3), s.chance(1, 3), s.chance(1, 4));
    let (mut steps, mut betweens) = (0u64, 0);
    loop {
        let live: Vec<usize> = (0..n).filter(|i| tasks[*i].is_some()).collect();
        if live.is_empty() {
            break;
        }
        steps += 1;
        ensure!(steps < 10_000_000, "tasks do not end: {}", all(&jobs));
        let ready: Vec<usize> = live.iter().copied().filter(|i| flags[*i].as_ref().map_or(true, |f| f.0.load(Ordering::SeqCst))).collect();
        let asleep: Vec<usize> = live
            .iter()
            .copied()
            .filter(|i| {
                let sh = shared[*i].lock().unwrap();
                sh.waiting && !sh.ready && sh.waker.is_some()
            })
            .collect();
        if ready.is_empty() && asleep.is_empty() {
            fail!("tasks {live:?} are pending, and no transport will wake them; operations {}", all(&jobs));
        }
        if between && betweens < 8 && s.chance(1, 8) {
            betweens += 1;
            let i = s.below(n);
            let d = alone(&jobs, i, false);
            ensure!(same(&d, &sync[i]), "between polls operation {i} ends in {d:?}, alone in {:?}; operations {}", sync[i], all(&jobs));
        }
        if give_up && live.len() > 1 && s.chance(1, 16) {
            let i = live[s.below(live.len())];
            tasks[i] = None;
            c.label("dropped in the middle");
            let sh = shared[i].lock().unwrap();
            ensure!(asyn[i].bytes.starts_with(&sh.out), "task {i}, dropped, wrote {}, alone {}; operations {}", hx(&sh.out), hx(&asyn[i].bytes), all(&jobs));
            ensure!(asyn[i].error.is_some() || sh.pos <= asyn[i].moved, "task {i}, dropped, took {} bytes, alone {}; operations {}", sh.pos, asyn[i].moved, all(&jobs));
            c.oracle_calls += 1;
            continue;
        }
        let k = if spurious && s.chance(1, 8) {
            s.below(live.len() + asleep.len())
        } else {
            usize::MAX
        };
        let (wake, i) = if k < live.len() {
            (false, live[k])
        } else {
            let k = s.below(ready.len() + asleep.len());
            if k < ready.len() {
                (false, ready[k])
            } else {
                (true, asleep[k - ready.len()])
            }
        };
        if wake {
            let w = {
                let mut sh = shared[i].lock().unwrap();
                sh.ready = true;
                sh.waker.take()
            };
            w.unwrap().wake();
            continue;
        }
        let flag = match &flags[i] {
            Some(f) if !fresh => f.clone(),
            _ => Arc::new(Flag(AtomicBool::new(false))),
        };
        flag.0.store(false, Ordering::SeqCst);
        flags[i] = Some(flag.clone());
        started[i] = true;
        c.nontrivial |= live.iter().filter(|j| started[**j]).count() > 1;
        let waker = Waker::from(flag);
        let r = tasks[i].as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&waker));
        if let Poll::Ready(d) = r {
            tasks[i] = None;
            ensure!(same(&d, &asyn[i]), "as a task operation {i} ends in {d:?}, alone in {:?}; operations {}", asyn[i], all(&jobs));
            c.oracle_calls += 1;
        }
    }
    for (i, d) in made.lock().unwrap().iter() {
        c.label("inside a poll");
        ensure!(same(d, &sync[*i]), "inside a poll operation {i} ends in {d:?}, alone in {:?}; operations {}", sync[*i], all(&jobs));
        c.oracle_calls += 1;
    }
    // as threads
    if s.chance(1, 40) {
        c.label("threads");
        let gate = std::sync::Barrier::new(n);
        let outs: Vec<Result<Vec<Done>, _>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..n)
                .map(|i| {
                    let (jobs, gate) = (&jobs, &gate);
                    sc.spawn(move || {
                        gate.wait();
                        (0..6).map(|k| alone(jobs, i, k % 2 == 1)).collect()
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join()).collect()
        });
        for (i, o) in outs.into_iter().enumerate() {
            let Ok(ds) = o else { fail!("panic in a thread: operation {i} of {}", all(&jobs)) };
            for d in ds {
                ensure!(same(&d, &sync[i]), "in a thread operation {i} ends in {d:?}, alone in {:?}; operations {}", sync[i], all(&jobs));
                c.oracle_calls += 1;
            }
        }
    }
    Ok(())
}

fn all(jobs: &[Job]) -> String {
    jobs.iter().map(|j| j.show()).collect::<Vec<_>>().join(" | ")
}
