//! What the crate asks of any protocol implementation: complete and balanced calls, boxes that
//! forward, errors that come back.
use crate::anyproto::*;
use crate::engine::*;
use crate::gen::{self, G};
use crate::hostile::*;
use crate::io::*;
use crate::model::*;
use crate::schema::*;
use crate::util::*;
use crate::{ensure, fail};
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::thrift::{ApplicationError, ApplicationErrorKind, Error, Result as TR};

pub fn props() -> Vec<Prop> {
    let p = |id, run: PropFn, quick, thorough, rule| Prop { id, run, quick, thorough, rule };
    vec![
        p("C28", c28, 800_000, 20_000_000, "one random value of a random Parquet type (or an application exception) written to a recording protocol, directly, boxed and asynchronously, and rebuilt from the recorded calls; non-trivial: at least 4 calls"),
        p("C29", c29, 1_500_000, 37_500_000, "one random value of a random Parquet type with permuted and unknown fields (or an application exception, or a generic value to skip) played by a protocol that objects to every call out of place, directly, boxed and asynchronously; non-trivial: at least 4 calls"),
        p("C30", c30, 3_000_000, 75_000_000, "one random value written to, read from or skipped on a protocol that refuses one call chosen at random; non-trivial: the call is neither the first nor beyond the last one"),
        p("C31", c31, 1_000_000, 25_000_000, "1 to 40 random protocol calls with random arguments made through one or two boxes; non-trivial: at least 3 different kinds of calls"),
    ]
}

fn digest(evs: &[Ev]) -> u64 {
    struct Sum(u64);
    impl std::fmt::Write for Sum {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            self.0 = mix(&[self.0, hash_bytes(s.as_bytes())]);
            Ok(())
        }
    }
    let mut h = Sum(0);
    let _ = std::fmt::Write::write_fmt(&mut h, format_args!("{evs:?}"));
    h.0
}

const KINDS: [ApplicationErrorKind; 11] = [
    ApplicationErrorKind::Unknown,
    ApplicationErrorKind::UnknownMethod,
    ApplicationErrorKind::InvalidMessageType,
    ApplicationErrorKind::WrongMethodName,
    ApplicationErrorKind::BadSequenceId,
    ApplicationErrorKind::MissingResult,
    ApplicationErrorKind::InternalError,
    ApplicationErrorKind::ProtocolError,
    ApplicationErrorKind::InvalidTransform,
    ApplicationErrorKind::InvalidProtocol,
    ApplicationErrorKind::UnsupportedClientType,
];

/// The three ways of writing a value to a recorder.
fn record(v: &dyn Val, rec: &mut Rec, way: usize) -> TR<usize> {
    match way {
        0 => v.write_rec(&mut RecP(rec)),
        1 => {
            let mut p: DynOut = Box::new(RecP(rec));
            v.write_dyn(&mut p)
        }
        _ => block_on(v.write_rec_async(&mut RecA(rec))),
    }
}
const WAYS: [&str; 3] = ["directly", "boxed", "asynchronously"];

fn play(root: &Root, sc: &mut Script, way: usize) -> TR<BV> {
    match way {
        0 => (root.read_play)(&mut PlayP(sc)),
        1 => (root.read_play_boxed)(&mut Box::new(PlayP(sc))),
        _ => block_on((root.read_play_async)(&mut PlayA(sc))),
    }
}

fn play_skip(t: TType, depth: Option<i8>, sc: &mut Script, way: usize) -> TR<()> {
    match (way, depth) {
        (0, None) => PlayP(sc).skip(t),
        (0, Some(d)) => PlayP(sc).skip_till_depth(t, d),
        (1, None) => Box::new(PlayP(sc)).skip(t),
        (1, Some(d)) => Box::new(PlayP(sc)).skip_till_depth(t, d),
        (_, None) => block_on(PlayA(sc).skip(t)),
        (_, Some(d)) => block_on(PlayA(sc).skip_till_depth(t, d)),
    }
}

fn exception(s: &mut Source) -> ApplicationError {
    let n = s.below(12);
    ApplicationError { kind: s.pick(&KINDS), message: gen::text(s, n) }
}

fn c28(s: &mut Source, c: &mut Ctx) -> R {
    if s.chance(1, 16) {
        let e = exception(s);
        let mut rec = Rec::new(s.u64(), None, false);
        let r = if s.bool() { Error::write_application_error_to_out_protocol(&e, &mut RecP(&mut rec)) } else { Error::write_application_error_to_out_protocol(&e, &mut Box::new(RecP(&mut rec))) };
        ensure!(r.is_ok(), "writing an application exception fails on a protocol that takes everything: {r:?}");
        let want = vec![
            Ev::Struct(Some("TApplicationException".to_string())),
            Ev::Field(Some("message".to_string()), TType::String, Some(1)),
            Ev::Str(e.message.clone()),
            Ev::FieldEnd,
            Ev::Field(Some("type".to_string()), TType::I32, Some(2)),
            Ev::I32(KINDS.iter().position(|k| *k == e.kind).unwrap() as i32),
            Ev::FieldEnd,
            Ev::Stop,
            Ev::StructEnd,
            Ev::Flush,
        ];
        let mut got = rec.evs.clone();
        // the order of the two fields is free
        if matches!(got.get(1), Some(Ev::Field(_, _, Some(2)))) && got.len() == 10 {
            got[1..7].rotate_left(3);
        }
        ensure!(got == want, "an application exception is written with the calls {:?}", rec.evs);
        c.nontrivial = true;
        c.hash = digest(&rec.evs);
        c.label("application exception");
        c.oracle_calls += 1;
        return Ok(());
    }
    let root = pick_root(s);
    let mut g = G::of(s, root, 4, 300);
    let v = (root.gen)(s, &mut g);
    c.sample(|| format!("{}: {}", root.name, v.dbg()));
    let want = v.tv().sorted();
    let (salt, stall) = (s.u64(), s.bool());
    for way in 0..3 {
        let mut rec = Rec::new(salt, None, stall);
        let r = record(&*v, &mut rec, way);
        let n = match r {
            Ok(n) => n,
            Err(e) => fail!("{} {}: writing fails on a protocol that takes everything: {e:?}", root.name, WAYS[way]),
        };
        c.nontrivial = rec.evs.len() >= 4;
        c.hash = digest(&rec.evs);
        let evs: Vec<Ev> = rec.evs.iter().filter(|e| **e != Ev::Flush).cloned().collect();
        let mut it = evs.iter();
        match parse_log(&mut it, (root.ft)()) {
            Ok(got) => {
                ensure!(it.len() == 0, "{} {}: {} calls follow the end of the value", root.name, WAYS[way], it.len());
                ensure!(got.sorted() == want, "{} {}: the calls describe {got:?}, the value is {want:?}", root.name, WAYS[way]);
            }
            Err(e) => fail!("{} {}: {e}; calls {}", root.name, WAYS[way], cut(&format!("{evs:?}"), 600)),
        }
        ensure!(n == rec.total, "{} {}: reports {n}, the protocol's own counts add up to {}", root.name, WAYS[way], rec.total);
        c.oracle_calls += 2;
    }
    c.label(root.name);
    Ok(())
}

/// A value of a Parquet type and the script that plays it, fields permuted, unknown fields added.
fn scripted(s: &mut Source) -> (&'static Root, TV, Vec<Ev>) {
    let root = pick_root(s);
    let mut g = G::of(s, root, 4, 300);
    let v = (root.gen)(s, &mut g);
    let want = v.tv();
    let mut wire = want.clone();
    if s.bool() {
        let rate = 1 + s.below(8) as u64;
        inject_unknown(s, &mut wire, (root.ft)(), rate);
    }
    permute(s, &mut wire, (root.ft)());
    let mut evs = vec![];
    script_of(&wire, Some((root.ft)()), &mut evs);
    (root, want, evs)
}

/// A generic value to skip, and a depth that suffices (`None`: the default).
fn skippable(s: &mut Source) -> (TV, Option<i8>) {
    let v = if s.chance(1, 4) {
        let d = if s.bool() { 1 + s.below(12) } else { 55 + s.below(72) };
        gen::spine(s, d)
    } else {
        let mut g = G::small(s);
        let t = gen::elem_tt(s, 5);
        gen::tv(s, &mut g, t, 5)
    };
    let d = v.depth();
    let depth = if d > 64 || s.bool() { Some(d.max(s.range(d as i64, 127) as usize) as i8) } else { None };
    (v, depth)
}

/// The script of an application exception, and what has to be read.
fn exception_script(s: &mut Source) -> (Vec<Ev>, ApplicationErrorKind, Option<String>) {
    let e = exception(s);
    let code = if s.chance(1, 4) { gen::int(s, 32) as i32 } else { KINDS.iter().position(|k| *k == e.kind).unwrap() as i32 };
    let mut fs = vec![];
    let (m, k) = (s.chance(4, 5), s.chance(4, 5));
    if m {
        fs.push((1i16, TV::Bin(e.message.clone().into_bytes())));
    }
    if k {
        fs.push((2, TV::I32(code)));
    }
    for _ in 0..s.below(4) {
        let mut g = G::small(s);
        let t = gen::elem_tt(s, 4);
        let x = gen::tv(s, &mut g, t, 4);
        let at = s.below(fs.len() + 1);
        fs.insert(at, (3 + s.below(30) as i16, x));
    }
    if s.bool() {
        fs.reverse();
    }
    let mut evs = vec![];
    fn schema() -> &'static Schema {
        static S: std::sync::OnceLock<Schema> = std::sync::OnceLock::new();
        S.get_or_init(|| Schema { name: "TApplicationException", union: false, fields: vec![Field { id: 1, name: "message", req: false, ft: FT::Str }, Field { id: 2, name: "type", req: false, ft: FT::I32 }] })
    }
    script_of(&TV::Struct(fs), Some(FT::Struct(schema)), &mut evs);
    let kind = if k { KINDS.get(code as usize).copied().unwrap_or(ApplicationErrorKind::Unknown) } else { ApplicationErrorKind::Unknown };
    (evs, kind, m.then_some(e.message))
}

fn check_script(what: &str, way: usize, sc: &Script, evs: &[Ev]) -> R {
    if let Some(b) = &sc.bad {
        fail!("{what} {}: {b}; script {}", WAYS[way], cut(&format!("{evs:?}"), 600));
    }
    ensure!(sc.evs.is_empty(), "{what} {}: ends before {:?}, with {} calls to go; script {}", WAYS[way], sc.evs[0], sc.evs.len(), cut(&format!("{evs:?}"), 600));
    Ok(())
}

fn c29(s: &mut Source, c: &mut Ctx) -> R {
    let (salt, stall) = (s.u64(), s.bool());
    match s.weighted(&[12, 3, 1]) {
        0 => {
            let (root, want, evs) = scripted(s);
            c.sample(|| format!("{}: {want:?}", root.name));
            c.hash = digest(&evs);
            c.nontrivial = evs.len() >= 4;
            c.label(root.name);
            for way in 0..3 {
                let mut sc = Script::new(&evs, salt, None, stall);
                let r = play(root, &mut sc, way);
                // the complaint about the calls says more than the error it leads to
                match r {
                    Ok(v) => {
                        check_script(root.name, way, &sc, &evs)?;
                        let got = v.tv();
                        ensure!(got == want, "{} {}: read {got:?}, played {want:?}", root.name, WAYS[way]);
                    }
                    Err(e) => {
                        check_script(root.name, way, &sc, &evs)?;
                        fail!("{} {}: a valid value is rejected with {e:?}; script {}", root.name, WAYS[way], cut(&format!("{evs:?}"), 600));
                    }
                }
                c.oracle_calls += 1;
            }
        }
        1 => {
            let (v, depth) = skippable(s);
            let mut evs = vec![];
            script_of(&v, None, &mut evs);
            c.sample(|| format!("skip {v:?}"));
            c.hash = digest(&evs);
            c.nontrivial = evs.len() >= 4;
            c.label("skip");
            for way in 0..3 {
                let mut sc = Script::new(&evs, salt, None, stall);
                let r = play_skip(tt_to_ttype(v.tt()), depth, &mut sc, way);
                check_script("skip", way, &sc, &evs)?;
                ensure!(r.is_ok(), "skip {}: {r:?}; script {evs:?}", WAYS[way]);
                c.oracle_calls += 1;
            }
        }
        _ => {
            let (evs, kind, message) = exception_script(s);
            c.hash = digest(&evs);
            c.nontrivial = true;
            c.label("application exception");
            for way in 0..2 {
                let mut sc = Script::new(&evs, salt, None, stall);
                let r = if way == 0 { Error::read_application_error_from_in_protocol(&mut PlayP(&mut sc)) } else { Error::read_application_error_from_in_protocol(&mut Box::new(PlayP(&mut sc))) };
                check_script("application exception", way, &sc, &evs)?;
                match r {
                    Ok(e) => ensure!(e.kind == kind && message.as_ref().map_or(true, |m| *m == e.message), "an application exception is read as {e:?}, expected {kind:?} {message:?}"),
                    Err(e) => fail!("reading an application exception: {e:?}"),
                }
                c.oracle_calls += 1;
            }
        }
    }
    Ok(())
}

fn c30(s: &mut Source, c: &mut Ctx) -> R {
    let (salt, stall) = (s.u64(), s.bool());
    let way = s.below(3);
    let check = |what: &str, calls: usize, k: usize, after: usize, ok: bool, err: Option<Error>| -> R {
        match err {
            None => ensure!(ok, "{what} {}: call {k} of {calls} was refused, yet the result is a success", WAYS[way]),
            Some(e) => ensure!(same_error(&e, &marker(k)), "{what} {}: call {k} was refused with {:?}, the caller gets {e:?}", WAYS[way], marker(k)),
        }
        ensure!(after == 0, "{what} {}: {after} calls are made after call {k} was refused", WAYS[way]);
        Ok(())
    };
    c.label(WAYS[way]);
    match s.weighted(&[4, 4, 2, 1, 1]) {
        0 => {
            let root = pick_root(s);
            let mut g = G::small(s);
            let v = (root.gen)(s, &mut g);
            let mut rec = Rec::new(salt, None, stall);
            if let Err(e) = record(&*v, &mut rec, way) {
                fail!("{}: {e:?}", root.name);
            }
            let n = rec.calls;
            let k = s.below(n);
            c.sample(|| format!("{}: refuse call {k} of {n} writing {}", root.name, v.dbg()));
            c.hash = mix(&[digest(&rec.evs), k as u64]);
            c.nontrivial = k > 0;
            c.label("write");
            let mut rec = Rec::new(salt, Some(k), stall);
            let r = record(&*v, &mut rec, way);
            check(root.name, n, k, rec.after_failure, false, r.err())?;
        }
        1 => {
            let (root, _, evs) = scripted(s);
            let n = evs.len();
            let k = s.below(n);
            c.sample(|| format!("{}: refuse call {k} of {evs:?}", root.name));
            c.hash = mix(&[digest(&evs), k as u64]);
            c.nontrivial = k > 0;
            c.label("read");
            let mut sc = Script::new(&evs, salt, Some(k), stall);
            let r = play(root, &mut sc, way);
            check_refused(root.name, way, &sc)?;
            check(root.name, n, k, sc.after_failure, false, r.err())?;
        }
        2 => {
            let (v, depth) = skippable(s);
            let mut evs = vec![];
            script_of(&v, None, &mut evs);
            let n = evs.len();
            let k = s.below(n);
            c.sample(|| format!("skip, refuse call {k} of {evs:?}"));
            c.hash = mix(&[digest(&evs), k as u64]);
            c.nontrivial = k > 0;
            c.label("skip");
            let mut sc = Script::new(&evs, salt, Some(k), stall);
            let r = play_skip(tt_to_ttype(v.tt()), depth, &mut sc, way);
            check_refused("skip", way, &sc)?;
            check("skip", n, k, sc.after_failure, false, r.err())?;
        }
        3 => {
            let e = exception(s);
            let k = s.below(10);
            let mut rec = Rec::new(salt, Some(k), false);
            let r = Error::write_application_error_to_out_protocol(&e, &mut RecP(&mut rec));
            c.hash = mix(&[hash_bytes(e.message.as_bytes()), e.kind as u64, k as u64]);
            c.nontrivial = k > 0;
            c.label("write exception");
            check("application exception", 10, k, rec.after_failure, false, r.err())?;
        }
        _ => {
            let (evs, _, _) = exception_script(s);
            let k = s.below(evs.len());
            let mut sc = Script::new(&evs, salt, Some(k), false);
            let r = Error::read_application_error_from_in_protocol(&mut PlayP(&mut sc));
            c.hash = mix(&[digest(&evs), k as u64]);
            c.nontrivial = k > 0;
            c.label("read exception");
            check_refused("application exception", 0, &sc)?;
            check("application exception", evs.len(), k, sc.after_failure, false, r.err())?;
        }
    }
    c.oracle_calls += 1;
    Ok(())
}

fn check_refused(what: &str, way: usize, sc: &Script) -> R {
    if let Some(b) = &sc.bad {
        fail!("{what} {}: {b}", WAYS[way]);
    }
    Ok(())
}

fn c31(s: &mut Source, c: &mut Ctx) -> R {
    let n = 1 + s.below(40);
    let calls: Vec<Ev> = (0..n).map(|_| any_call(s)).collect();
    let fail_at = if s.chance(1, 4) { Some(s.below(n)) } else { None };
    let salt = s.u64();
    c.sample(|| format!("{calls:?}"));
    c.hash = digest(&calls);
    let kinds: std::collections::BTreeSet<String> = calls.iter().map(|e| format!("{e:?}").split('(').next().unwrap().to_string()).collect();
    c.nontrivial = kinds.len() >= 3;
    // output: the same log, the same answers as without the box
    let drive = |p: &mut dyn TOutputProtocol| -> Vec<String> { calls.iter().map(|e| format!("{:?}", call_out(p, e))).collect() };
    let mut plain = Rec::new(salt, fail_at, false);
    let want = drive(&mut RecP(&mut plain));
    for depth in 0..3 {
        let mut rec = Rec::new(salt, fail_at, false);
        let got = match depth {
            0 => drive(&mut Box::new(RecP(&mut rec))),
            1 => {
                let inner: Box<dyn TOutputProtocol + '_> = Box::new(RecP(&mut rec));
                let mut outer = Box::new(inner);
                drive(&mut outer)
            }
            _ => {
                let mut b: Box<dyn TOutputProtocol + '_> = Box::new(RecP(&mut rec));
                drive(&mut b)
            }
        };
        ensure!(rec.evs == plain.evs, "calls {calls:?} through a box arrive as {:?}", rec.evs);
        ensure!(got == want, "calls {calls:?} are answered {want:?}, through a box {got:?}");
        c.oracle_calls += 2;
    }
    // input
    let calls: Vec<Ev> = calls.into_iter().filter(|e| *e != Ev::Flush && !matches!(e, Ev::Field(_, TType::Stop, _))).collect();
    let run = |boxed: bool| -> (Vec<String>, Option<String>) {
        let mut sc = Script::new(&calls, salt, fail_at, false);
        let out = if boxed {
            let mut p = Box::new(PlayP(&mut sc));
            calls.iter().map(|e| format!("{:?}", call_in(&mut p, e))).collect()
        } else {
            let mut p = PlayP(&mut sc);
            calls.iter().map(|e| format!("{:?}", call_in(&mut p, e))).collect()
        };
        (out, sc.bad)
    };
    let (want, _) = run(false);
    let (got, bad) = run(true);
    if let Some(b) = bad {
        fail!("through a box {b}");
    }
    ensure!(got == want, "calls {calls:?} are answered {want:?}, through a box {got:?}");
    c.oracle_calls += 1;
    Ok(())
}
