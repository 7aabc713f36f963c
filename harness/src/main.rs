//! Property-based checks of parquet-format-safe.
//!
//!   harness check <PROPERTY> [--tier quick|thorough] [--seed N] [--cases N]
//!   harness replay <FILE>
//!   harness list
//!   harness audit <CASES> <LEAST>   how often the typed generator meets given conditions
//!   harness dict                    the literals of the crate's source, as in dict.baseline
//!
//! `check` runs the cases in a worker process (so that an abort or a stack overflow in the code
//! under test is an outcome and not the end of the check), over all cores.
use pfs_harness::engine::*;
use pfs_harness::{alloc, props};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, ExitCode, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

const THREADS: usize = 8;
/// a case that has not finished after this long is a hang (they take milliseconds)
const HANG: Duration = Duration::from_secs(60);
const STACK: usize = 64 << 20;
/// at most so many earlier cases go into a replay
const HISTORY: usize = 16384;

fn verif() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn find(id: &str) -> Prop {
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no such property: {id}");
        std::process::exit(2)
    })
}

fn case_seed(p: &Prop, seed: u64, idx: u64) -> u64 {
    mix(&[seed, hash_bytes(p.id.as_bytes()), idx])
}

fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join().unwrap()
}

struct Replay {
    prop: String,
    msg: String,
    tape: Vec<u64>,
    /// cases of the seed to run first, in the same process, for a failure that depends on them
    before: Vec<u64>,
    seed: u64,
}
impl Replay {
    fn save(&self, path: &Path, seed: u64) -> std::io::Result<()> {
        let mut s = format!("property {}\nseed {seed}\ntape", self.prop);
        for x in &self.tape {
            s.push_str(&format!(" {x}"));
        }
        if !self.before.is_empty() {
            s.push_str("\nbefore");
            for x in &self.before {
                s.push_str(&format!(" {x}"));
            }
        }
        s.push_str(&format!("\nmessage {}\n", self.msg.replace('\n', " ")));
        std::fs::write(path, s)
    }
    fn load(path: &Path) -> Replay {
        let s = std::fs::read_to_string(path).unwrap_or_else(|e| {
            eprintln!("{}: {e}", path.display());
            std::process::exit(2)
        });
        let mut r = Replay { prop: String::new(), msg: String::new(), tape: vec![], before: vec![], seed: 0 };
        let numbers = |x: &str| -> Vec<u64> { x.split_whitespace().map(|x| x.parse().unwrap()).collect() };
        for l in s.lines() {
            if let Some(x) = l.strip_prefix("property ") {
                r.prop = x.to_string();
            } else if let Some(x) = l.strip_prefix("tape") {
                r.tape = numbers(x);
            } else if let Some(x) = l.strip_prefix("before") {
                r.before = numbers(x);
            } else if let Some(x) = l.strip_prefix("seed ") {
                r.seed = x.trim().parse().unwrap();
            } else if let Some(x) = l.strip_prefix("message ") {
                r.msg = x.to_string();
            }
        }
        r
    }
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Run {
    prop: Prop,
    tier: String,
    seed: u64,
    cases: u64,
}

fn evidence(run: &Run, st: &Stats, wall: f64, violations: u64, note: &str) {
    let mut o = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"nontrivial\": {},\n  \"oracle_comparisons\": {},\n  \"labels\": {{",
        json(run.prop.id),
        json(&run.tier),
        run.seed,
        st.evaluations,
        st.distinct.len(),
        json(run.prop.rule),
        st.nontrivial,
        st.oracle_calls
    );
    let mut first = true;
    for (k, v) in &st.labels {
        o.push_str(&format!("{}\n   {}: {v}", if first { "" } else { "," }, json(k)));
        first = false;
    }
    o.push_str("\n  },\n  \"samples\": [");
    let mut all: Vec<_> = st.samples.iter().collect();
    all.sort();
    let step = (all.len() / 8).max(1);
    first = true;
    for (idx, s) in all.iter().step_by(step).take(10) {
        o.push_str(&format!("{}\n   {}", if first { "" } else { "," }, json(&format!("case {idx}: {s}"))));
        first = false;
    }
    o.push_str(&format!("\n  ]\n }},\n \"violations\": {violations},\n \"note\": {},\n \"wall_s\": {wall:.3}\n}}\n", json(note)));
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", run.prop.id)), o) {
        eprintln!("evidence: {e}");
        std::process::exit(2);
    }
}

/// The worker: all cases on all cores. Exit 0: held; 1: failure recorded in `fail`.
fn worker(run: Run, status: PathBuf, failf: PathBuf) -> i32 {
    install_panic_hook();
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let lowest = AtomicU64::new(u64::MAX);
    let failure: Mutex<Option<(u64, Vec<u64>, String, Vec<u64>)>> = Mutex::new(None);
    let total: Mutex<Stats> = Mutex::new(Stats::default());
    let status = std::fs::OpenOptions::new().write(true).open(&status).unwrap();
    std::thread::scope(|sc| {
        for t in 0..THREADS {
            let (next, lowest, failure, total, status, run) = (&next, &lowest, &failure, &total, &status, &run);
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(sc, move || {
                    let mut st = Stats::default();
                    let mut slot = [0u8; 16];
                    let mut ran: std::collections::VecDeque<u64> = Default::default();
                    loop {
                        let idx = next.fetch_add(1, Ordering::Relaxed);
                        if idx >= run.cases || idx > lowest.load(Ordering::Relaxed) {
                            break;
                        }
                        slot[..8].copy_from_slice(&(idx + 1).to_le_bytes());
                        slot[8..].copy_from_slice(&st.evaluations.to_le_bytes());
                        let _ = status.write_at(&slot, t as u64 * 16);
                        let mut src = Source::random(case_seed(&run.prop, run.seed, idx));
                        let mut ctx = Ctx { want_sample: idx < 64 || idx % 4999 == 0, ..Default::default() };
                        let r = run_case(&run.prop, &mut src, &mut ctx);
                        if let Err(f) = r {
                            let mut g = failure.lock().unwrap();
                            if g.as_ref().map_or(true, |x| idx < x.0) {
                                *g = Some((idx, src.used.clone(), f.msg, ran.iter().copied().collect()));
                                lowest.fetch_min(idx, Ordering::Relaxed);
                            }
                        }
                        st.add(idx, ctx);
                        if ran.len() == HISTORY {
                            ran.pop_front();
                        }
                        ran.push_back(idx);
                    }
                    let _ = status.write_at(&[0u8; 8], t as u64 * 16);
                    total.lock().unwrap().merge(st);
                })
                .unwrap();
        }
    });
    let st = total.into_inner().unwrap();
    let found = failure.into_inner().unwrap();
    evidence(&run, &st, t0.elapsed().as_secs_f64(), found.is_some() as u64, "");
    let Some((idx, tape, msg, before)) = found else { return 0 };
    let mut rep = Replay { prop: run.prop.id.to_string(), msg: format!("case {idx}: {msg}"), tape, before, seed: run.seed };
    rep.save(&failf.with_extension("whole"), run.seed).unwrap();
    rep.before.clear();
    rep.save(&failf, run.seed).unwrap();
    // shrink; bounded in time and tries
    let seed = run.seed;
    on_big_stack(move || {
        let t0 = Instant::now();
        let prop = run.prop;
        let mut last = rep.msg.clone();
        let best = shrink(rep.tape.clone(), 20_000, |cand| {
            if t0.elapsed() > Duration::from_secs(40) {
                return None;
            }
            let mut src = Source::tape(cand.to_vec());
            match run_case(&prop, &mut src, &mut Ctx::default()) {
                // the harness's own complaints are not what we are shrinking towards
                Err(f) if f.msg.starts_with("harness:") => None,
                Err(_) => Some(src.used),
                Ok(()) => None,
            }
        });
        let mut src = Source::tape(best.clone());
        if let Err(f) = run_case(&prop, &mut src, &mut Ctx::default()) {
            last = format!("case {idx}, shrunk: {}", f.msg);
            rep.tape = best;
        }
        rep.msg = last;
        rep.save(&failf, seed).unwrap();
    });
    1
}

/// Outcome of one tape in a process of its own.
fn in_process(prop: &str, rep: &Path) -> Option<String> {
    let exe = std::env::current_exe().unwrap();
    let mut ch = Command::new(exe).args(["replay", "--quiet"]).arg(rep).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
    let t0 = Instant::now();
    loop {
        match ch.try_wait().unwrap() {
            Some(s) => {
                let mut out = String::new();
                let _ = std::io::Read::read_to_string(&mut ch.stdout.take().unwrap(), &mut out);
                return match (s.code(), s.signal()) {
                    (Some(0), _) => None,
                    (Some(1), _) => Some(out.trim().to_string()),
                    (_, Some(n)) if n == 6 || n == 11 || n == 7 || n == 4 => Some(format!("the process is ended by signal {n} (abort, stack overflow or refused allocation)")),
                    (c, n) => {
                        eprintln!("{prop}: replay ended with code {c:?} signal {n:?}");
                        std::process::exit(2)
                    }
                };
            }
            None if t0.elapsed() > HANG => {
                let _ = ch.kill();
                let _ = ch.wait();
                return Some(format!("does not return within {HANG:?}"));
            }
            None => std::thread::sleep(Duration::from_millis(2)),
        }
    }
}

fn check(run: Run) -> i32 {
    let tmp = std::env::temp_dir().join(format!("pfs-{}-{}", run.prop.id, std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let code = check_in(&run, &tmp);
    let _ = std::fs::remove_dir_all(&tmp);
    code
}

fn check_in(run: &Run, tmp: &Path) -> i32 {
    let t0 = Instant::now();
    let id = run.prop.id;
    let _ = std::fs::remove_file(verif().join("evidence").join(format!("{id}.json")));
    let (status, failf) = (tmp.join("status"), tmp.join("fail"));
    std::fs::write(&status, [0u8; 16 * THREADS]).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut ch = Command::new(&exe)
        .args(["worker", id, &run.tier, &run.seed.to_string(), &run.cases.to_string()])
        .arg(&status)
        .arg(&failf)
        .stderr(Stdio::inherit())
        .spawn()
        .unwrap();
    let slots = || -> Vec<(u64, u64)> {
        let b = std::fs::read(&status).unwrap_or_default();
        b.chunks_exact(16).map(|c| (u64::from_le_bytes(c[..8].try_into().unwrap()), u64::from_le_bytes(c[8..].try_into().unwrap()))).collect()
    };
    let mut seen: Vec<(u64, Instant)> = vec![(0, Instant::now()); THREADS];
    let mut hung = false;
    let end = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break s;
        }
        for (i, (idx, _)) in slots().iter().enumerate() {
            if *idx != seen[i].0 {
                seen[i] = (*idx, Instant::now());
            } else if *idx != 0 && seen[i].1.elapsed() > HANG {
                hung = true;
            }
        }
        if hung {
            let _ = ch.kill();
            break ch.wait().unwrap();
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let replays = verif().join("replays");
    let _ = std::fs::create_dir_all(&replays);
    let dest = replays.join(format!("{id}-{}.replay", run.seed));
    let report = |rep: &Path| -> i32 {
        std::fs::copy(rep, &dest).unwrap();
        let r = Replay::load(&dest);
        println!("{id}: {}", r.msg);
        println!("VIOLATION property={id} replay={}", dest.display());
        1
    };
    if !hung && end.code() == Some(0) {
        println!("{id}: held on all {} cases ({:.1} s)", run.cases, t0.elapsed().as_secs_f64());
        return 0;
    }
    let whole = failf.with_extension("whole");
    if whole.exists() && end.code() == Some(1) && in_process(id, &failf).is_none() {
        // it does not fail alone: not shrunk, then after more and more of the cases before it
        let mut w = Replay::load(&whole);
        let before = std::mem::take(&mut w.before);
        let mut n = 0;
        loop {
            w.before = before[before.len() - n..].to_vec();
            w.save(&failf, run.seed).unwrap();
            if n == before.len() || in_process(id, &failf).is_some() {
                break;
            }
            n = (n * 4).max(1).min(before.len());
        }
    }
    if failf.exists() && (end.code() == Some(1) || end.signal().is_some()) {
        // (a death while shrinking leaves the unshrunk failure)
        return report(&failf);
    }
    let died = matches!(end.signal(), Some(4 | 6 | 7 | 11));
    if !hung && !died {
        eprintln!("{id}: the worker ended with {end:?}: the check could not be carried out");
        return 2;
    }
    // the process died or hangs: find the case among those that were running
    let mut running: Vec<u64> = slots().iter().filter(|x| x.0 > 0).map(|x| x.0 - 1).collect();
    running.sort();
    let done: u64 = slots().iter().map(|x| x.1).sum();
    for idx in running {
        // first the tape of the case: drawn again in a process that logs every draw
        let trace = tmp.join("trace");
        let mut c = Command::new(&exe)
            .args(["trace", id, &run.seed.to_string(), &idx.to_string()])
            .arg(&trace)
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .unwrap();
        let t1 = Instant::now();
        let ok = loop {
            if let Some(s) = c.try_wait().unwrap() {
                break s.code() == Some(0);
            }
            if t1.elapsed() > HANG {
                let _ = c.kill();
                let _ = c.wait();
                break false;
            }
            std::thread::sleep(Duration::from_millis(5));
        };
        if ok {
            continue;
        }
        let tape: Vec<u64> = std::fs::read(&trace).unwrap_or_default().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        let mut rep = Replay { prop: id.to_string(), msg: String::new(), tape, before: vec![], seed: run.seed };
        rep.save(&failf, run.seed).unwrap();
        let Some(msg) = in_process(id, &failf) else { continue };
        rep.msg = format!("case {idx}: {msg}");
        if !msg.starts_with("does not return") {
            let t2 = Instant::now();
            let cand_file = tmp.join("cand");
            let best = shrink(rep.tape.clone(), 3000, |cand| {
                if t2.elapsed() > Duration::from_secs(40) {
                    return None;
                }
                Replay { prop: id.to_string(), msg: String::new(), tape: cand.to_vec(), before: vec![], seed: run.seed }.save(&cand_file, run.seed).unwrap();
                in_process(id, &cand_file).map(|_| cand.to_vec())
            });
            rep.tape = best;
        }
        rep.save(&failf, run.seed).unwrap();
        let mut st = Stats::default();
        st.evaluations = done;
        evidence(run, &st, t0.elapsed().as_secs_f64(), 1, "the worker process was ended by the code under test; cases completed until then are counted, not classified");
        return report(&failf);
    }
    eprintln!("{id}: the worker ended with {end:?} (hung: {hung}), but no case reproduces it");
    2
}

fn replay(path: &Path, quiet: bool) -> i32 {
    install_panic_hook();
    let r = Replay::load(path);
    let prop = find(&r.prop);
    let (tape, before, seed) = (r.tape, r.before, r.seed);
    on_big_stack(move || {
        for idx in before {
            let _ = run_case(&prop, &mut Source::random(case_seed(&prop, seed, idx)), &mut Ctx::default());
        }
        let mut ctx = Ctx { want_sample: true, ..Default::default() };
        let res = run_case(&prop, &mut Source::tape(tape), &mut ctx);
        if !quiet {
            if let Some(s) = ctx.sample {
                println!("case: {s}");
            }
        }
        match res {
            Ok(()) => {
                if !quiet {
                    println!("{}: holds on this case", prop.id);
                }
                0
            }
            Err(f) => {
                println!("{}", f.msg);
                1
            }
        }
    })
}

fn main() -> ExitCode {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    let env = |k: &str, d: &str| std::env::var(k).unwrap_or_else(|_| d.to_string());
    let code = match a.as_slice() {
        ["list"] => {
            for p in props::all() {
                println!("{} quick {} thorough {}: {}", p.id, p.quick, p.thorough, p.rule);
            }
            0
        }
        ["check", id, rest @ ..] => {
            let mut tier = env("VERIF_TIER", "quick");
            let mut seed: u64 = env("VERIF_SEED", "1").parse().unwrap_or(1);
            let mut cases = None;
            for p in rest.chunks(2) {
                match p {
                    ["--tier", t] => tier = t.to_string(),
                    ["--seed", n] => seed = n.parse().expect("seed"),
                    ["--cases", n] => cases = Some(n.parse().expect("cases")),
                    x => {
                        eprintln!("unknown option {x:?}");
                        return ExitCode::from(2);
                    }
                }
            }
            let prop = find(id);
            let n = cases.unwrap_or(if tier == "thorough" { prop.thorough } else { prop.quick });
            check(Run { prop, tier, seed, cases: n })
        }
        ["worker", id, tier, seed, cases, status, failf] => {
            let run = Run { prop: find(id), tier: tier.to_string(), seed: seed.parse().unwrap(), cases: cases.parse().unwrap() };
            worker(run, PathBuf::from(status), PathBuf::from(failf))
        }
        ["trace", id, seed, idx, out] => {
            install_panic_hook();
            let prop = find(id);
            let f = std::fs::File::create(out).unwrap();
            let (seed, idx): (u64, u64) = (seed.parse().unwrap(), idx.parse().unwrap());
            on_big_stack(move || {
                let mut s = Source::random(case_seed(&prop, seed, idx));
                s.trace_to(f);
                run_case(&prop, &mut s, &mut Ctx::default()).is_err() as i32
            })
        }
        ["dict"] => {
            pfs_harness::dict::print();
            0
        }
        ["audit", n, least] => {
            pfs_harness::audit::audit(n.parse().unwrap(), least.parse().unwrap());
            0
        }
        ["replay", "--quiet", f] => replay(Path::new(f), true),
        ["replay", f] => replay(Path::new(f), false),
        _ => {
            eprintln!("usage: harness check <PROPERTY> [--tier quick|thorough] [--seed N] [--cases N] | replay <FILE> | list");
            2
        }
    };
    let _ = std::io::stdout().flush();
    ExitCode::from(code as u8)
}
