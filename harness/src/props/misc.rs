//! Enumerations and error codes.
use crate::engine::*;
use crate::gen;
use crate::io::*;
use crate::model::*;
use crate::schema::*;
use crate::util::*;
use crate::ensure;
use parquet_format_safe::thrift::*;
use std::convert::TryFrom;

pub fn props() -> Vec<Prop> {
    let p = |id, run: PropFn, quick, thorough, rule| Prop { id, run, quick, thorough, rule };
    vec![
        p("C22", c22, 2_000_000, 50_000_000, "one 32-bit code (known or not) for each of the seven enumerations, converted, written and read, alone and inside a containing value; non-trivial: the code is not a listed constant of at least one of them"),
        p("C24", c24, 3_000_000, 75_000_000, "one 32-bit error code, one transport error kind and one message; non-trivial: the code is outside at least one enumeration or the message is not empty"),
        p("C32", c32, 1_500_000, 37_500_000, "three values of one random Parquet type, the second and third often differing from the first in one place, compared, ordered, hashed and copied; non-trivial: not all three are equal and the first has at least 2 encoded bytes"),
    ]
}

/// Change `v` in one place, staying within the type.
fn edit(s: &mut Source, v: &mut TV, ft: FT) {
    match (v, ft) {
        (TV::Bool(x), _) => *x = !*x,
        (TV::I8(x), _) => *x = gen::int(s, 8) as i8,
        (TV::I16(x), _) => *x = gen::int(s, 16) as i16,
        (TV::I32(x), _) => *x = if s.bool() { x.wrapping_add(1) } else { gen::int(s, 32) as i32 },
        (TV::I64(x), _) => *x = if s.bool() { x.wrapping_add(1) } else { gen::int(s, 64) },
        (TV::Bin(b), _) => match s.below(3) {
            0 => b.push(b'a'),
            1 if !b.is_empty() && b.is_ascii() => {
                let i = s.below(b.len());
                b[i] ^= 1;
            }
            _ => b.clear(),
        },
        (TV::List(_, xs), FT::List(e)) => match s.below(4) {
            0 if !xs.is_empty() => {
                let x = xs[s.below(xs.len())].clone();
                xs.push(x);
            }
            1 => {
                xs.pop();
            }
            2 if xs.len() > 1 => xs.swap(0, 1),
            _ => {
                if !xs.is_empty() {
                    let i = s.below(xs.len());
                    edit(s, &mut xs[i], *e);
                }
            }
        },
        (TV::Struct(fs), FT::Struct(sc)) => {
            let sc = sc();
            if fs.is_empty() {
                return;
            }
            let i = s.below(fs.len());
            let Some(fd) = sc.fields.iter().find(|d| d.id == fs[i].0) else { return };
            if sc.union && s.chance(1, 3) {
                // another member, if it is as empty as this one
                if let TV::Struct(inner) = &fs[i].1 {
                    if inner.is_empty() {
                        let d = &sc.fields[s.below(sc.fields.len())];
                        if let FT::Struct(k) = d.ft {
                            if k().fields.iter().all(|f| !f.req) && !k().union {
                                fs[i].0 = d.id;
                                return;
                            }
                        }
                    }
                }
            }
            if !fd.req && !sc.union && s.chance(1, 3) {
                fs.remove(i);
            } else {
                edit(s, &mut fs[i].1, fd.ft);
            }
        }
        _ => {}
    }
}

fn c32(s: &mut Source, c: &mut Ctx) -> R {
    use std::cmp::Ordering;
    let root = pick_root(s);
    let mut g = crate::gen::G::of(s, root, 8, 900);
    let a = (root.gen)(s, &mut g);
    let mut vs: Vec<BV> = vec![a];
    for _ in 0..2 {
        let v = match s.weighted(&[6, 1, 2]) {
            0 => {
                let mut t = vs[s.below(vs.len())].tv();
                edit(s, &mut t, (root.ft)());
                match (root.from_tv)(&t) {
                    Ok(v) => v,
                    Err(e) => crate::fail!("harness: an edited {} is not one: {e:?} {t:?}", root.name),
                }
            }
            1 => {
                let t = vs[0].tv();
                match (root.from_tv)(&t) {
                    Ok(v) => v,
                    Err(e) => crate::fail!("harness: {e:?}"),
                }
            }
            _ => {
                let mut g = crate::gen::G::small(s);
                (root.gen)(s, &mut g)
            }
        };
        vs.push(v);
    }
    let tvs: Vec<TV> = vs.iter().map(|v| v.tv()).collect();
    c.sample(|| format!("{}: {}", root.name, vs.iter().map(|v| cut(&v.dbg(), 180)).collect::<Vec<_>>().join(" | ")));
    c.hash = hash_bytes(root.name.as_bytes());
    for t in &tvs {
        c.note(&encode_canonical(t));
    }
    c.label(root.name);
    c.nontrivial = encode_canonical(&tvs[0]).len() >= 2 && (tvs[0] != tvs[1] || tvs[0] != tvs[2]);
    let n = root.name;
    for i in 0..3 {
        let copy = vs[i].copied();
        ensure!(copy.tv() == tvs[i] && copy.eq_any(&*vs[i]), "{n}: a copy is {}, the original {}", cut(&copy.dbg(), 300), cut(&vs[i].dbg(), 300));
        ensure!(copy.hash_of() == vs[i].hash_of(), "{n}: a copy hashes differently: {}", cut(&vs[i].dbg(), 300));
        for j in 0..3 {
            let same = tvs[i] == tvs[j];
            let (x, y) = (&*vs[i], &*vs[j]);
            let both = || format!("{n}: {} and {}", cut(&x.dbg(), 300), cut(&y.dbg(), 300));
            ensure!(x.eq_any(y) == same, "{} have {} contents, == says {}", both(), if same { "the same" } else { "different" }, !same);
            let (o, p) = x.cmp_any(y);
            ensure!(p == Some(o), "{}: cmp says {o:?}, partial_cmp {p:?}", both());
            ensure!((o == Ordering::Equal) == same, "{} compare as {o:?}", both());
            ensure!(o.reverse() == y.cmp_any(x).0, "{} compare as {o:?} one way and {:?} the other", both(), y.cmp_any(x).0);
            ensure!(!same || x.hash_of() == y.hash_of(), "{} are equal and hash differently", both());
            c.oracle_calls += 4;
            for k in 0..3 {
                let (xz, yz) = (x.cmp_any(&*vs[k]).0, y.cmp_any(&*vs[k]).0);
                ensure!(!(o == Ordering::Less && yz == Ordering::Less) || xz == Ordering::Less, "{} and {}: the order is not transitive", both(), cut(&vs[k].dbg(), 300));
            }
        }
    }
    Ok(())
}

fn c22(s: &mut Source, c: &mut Ctx) -> R {
    let x = match s.weighted(&[3, 2]) {
        0 => s.range(0, 25) as i32,
        _ => gen::int(s, 32) as i32,
    };
    c.hash = x as u32 as u64;
    c.sample(|| format!("code {x}"));
    for e in enums() {
        c.nontrivial |= !e.members.iter().any(|m| m.1 == x);
        ensure!((e.from_val)(x) == x && (e.from_ref)(&x) == x && (e.into_val)(x) == x && (e.into_ref)(x) == x, "{}: code {x} is changed by a conversion", e.name);
        for (name, code, actual) in &e.members {
            ensure!(code == actual, "{}::{name} is {actual}, the format says {code}", e.name);
        }
        let mut listed = e.listed.clone();
        listed.sort();
        let mut want: Vec<i32> = e.members.iter().map(|m| m.1).collect();
        want.sort();
        ensure!(listed == want, "{} lists {listed:?}, the format has {want:?}", e.name);
        let r = root(e.root);
        let v = match (r.from_tv)(&TV::I32(x)) {
            Ok(v) => v,
            Err(e) => crate::fail!("harness: {e:?}"),
        };
        let want = encode_canonical(&TV::I32(x));
        for asyn in [false, true] {
            let (b, n) = write(&*v, asyn)?;
            ensure!(b == want && n == b.len(), "{}: code {x} written as {}, expected {}", e.name, hx(&b), hx(&want));
            let (o, pos) = read(r, &b, usize::MAX, asyn);
            expect_ok(e.name, &o, pos, &TV::I32(x), b.len(), &b)?;
            c.oracle_calls += 2;
        }
    }
    // inside a value, in required, optional and list positions
    let fields = vec![(1, TV::I32(x)), (2, TV::List(TT::I32, vec![TV::I32(x), TV::I32(0), TV::I32(x)])), (3, TV::List(TT::Bin, vec![])), (4, TV::I32(x)), (5, TV::I64(0)), (6, TV::I64(0)), (7, TV::I64(0)), (9, TV::I64(0)), (13, TV::List(TT::Struct, vec![TV::Struct(vec![(1, TV::I32(x)), (2, TV::I32(x)), (3, TV::I32(1))])]))];
    let v = TV::Struct(fields);
    let b = encode_canonical(&v);
    let e = TV::Struct(vec![(1, TV::I32(x)), (3, TV::I32(x)), (4, TV::Bin(vec![])), (6, TV::I32(x))]);
    let eb = encode_canonical(&e);
    for asyn in [false, true] {
        let (o, pos) = read(root("ColumnMetaData"), &b, usize::MAX, asyn);
        expect_ok("a column with unlisted codes", &o, pos, &v, b.len(), &b)?;
        let (o, pos) = read(root("SchemaElement"), &eb, usize::MAX, asyn);
        expect_ok("a schema element with unlisted codes", &o, pos, &e, eb.len(), &eb)?;
        c.oracle_calls += 2;
    }
    Ok(())
}

pub fn app_kinds() -> Vec<(i32, ApplicationErrorKind)> {
    use ApplicationErrorKind::*;
    vec![
        (0, Unknown),
        (1, UnknownMethod),
        (2, InvalidMessageType),
        (3, WrongMethodName),
        (4, BadSequenceId),
        (5, MissingResult),
        (6, InternalError),
        (7, ProtocolError),
        (8, InvalidTransform),
        (9, InvalidProtocol),
        (10, UnsupportedClientType),
    ]
}
fn protocol_kinds() -> Vec<(i32, ProtocolErrorKind)> {
    use ProtocolErrorKind::*;
    vec![(0, Unknown), (1, InvalidData), (2, NegativeSize), (3, SizeLimit), (4, BadVersion), (5, NotImplemented), (6, DepthLimit)]
}
fn transport_kinds() -> Vec<(i32, TransportErrorKind)> {
    use TransportErrorKind::*;
    vec![(0, Unknown), (1, NotOpen), (2, AlreadyOpen), (3, TimedOut), (4, EndOfFile), (5, NegativeSize), (6, SizeLimit)]
}

fn c24(s: &mut Source, c: &mut Ctx) -> R {
    let x = match s.weighted(&[3, 1]) {
        0 => s.range(-2, 13) as i32,
        _ => gen::int(s, 32) as i32,
    };
    let n = s.below(20);
    let text = gen::text(s, n);
    c.hash = mix(&[x as u32 as u64, hash_bytes(text.as_bytes())]);
    c.nontrivial = !(0..7).contains(&x) || n > 0;
    c.sample(|| format!("code {x}, text {text:?}"));
    macro_rules! kinds {
        ($all:expr, $t:ty, $refusal:expr) => {{
            let all = $all;
            for (k, v) in &all {
                ensure!(*v as i32 == *k, "{v:?} has code {}, expected {k}", *v as i32);
            }
            let want = all.iter().find(|k| k.0 == x).map(|k| k.1);
            let got = <$t>::try_from(x);
            ensure!(got.as_ref().ok() == want.as_ref(), "code {x} converts to {got:?}, expected {want:?}");
            if let Err(e) = &got {
                ensure!(sig(e) == $refusal, "code {x} is refused with {:?}, expected {:?}", sig(e), $refusal);
            }
            c.oracle_calls += 1;
        }};
    }
    kinds!(app_kinds(), ApplicationErrorKind, Sig::A(ApplicationErrorKind::Unknown));
    kinds!(protocol_kinds(), ProtocolErrorKind, Sig::P(ProtocolErrorKind::Unknown));
    kinds!(transport_kinds(), TransportErrorKind, Sig::P(ProtocolErrorKind::Unknown));
    use parquet_format_safe::thrift::protocol::TMessageType;
    if let Ok(b) = u8::try_from(x) {
        let got = TMessageType::try_from(b).ok();
        ensure!(got == (1..=4).contains(&b).then(|| super::faults::message_type(b)), "message type {b} converts to {got:?}");
        if let Some(t) = got {
            ensure!(u8::from(t) == b, "message type {b} converts back to {}", u8::from(t));
        }
    }
    // transport errors keep their meaning and their text
    let k = s.pick(&KINDS);
    let e = Error::from(std::io::Error::new(k, text.clone()));
    ensure!(sig(&e) == expect_io(k), "{k:?} becomes {:?}", sig(&e));
    match &e {
        Error::Transport(t) => ensure!(t.message == text, "{k:?}: text {:?}, expected {text:?}", t.message),
        _ => crate::fail!("{k:?} is not a transport error"),
    }
    let ak = app_kinds()[s.below(11)].1;
    let pk = protocol_kinds()[s.below(7)].1;
    let tk = transport_kinds()[s.below(7)].1;
    let full = |e: &Error| match e {
        Error::Transport(t) => (sig(e), t.message.clone()),
        Error::Protocol(t) => (sig(e), t.message.clone()),
        Error::Application(t) => (sig(e), t.message.clone()),
    };
    let t = text.as_str();
    for (e, want) in [
        (new_application_error(ak, t), Sig::A(ak)),
        (Error::from(ApplicationError::new(ak, t)), Sig::A(ak)),
        (new_protocol_error(pk, t), Sig::P(pk)),
        (Error::from(ProtocolError::new(pk, t)), Sig::P(pk)),
        (new_transport_error(tk, t), Sig::T(tk)),
        (Error::from(TransportError::new(tk, t)), Sig::T(tk)),
        (Error::from(t), Sig::A(ApplicationErrorKind::Unknown)),
        (Error::from(text.clone()), Sig::A(ApplicationErrorKind::Unknown)),
    ] {
        ensure!(full(&e) == (want, text.clone()), "error {:?}, expected {want:?} with {text:?}", full(&e));
        ensure!(!format!("{e}").is_empty() && !format!("{e:?}").is_empty(), "an error prints as nothing");
        c.oracle_calls += 1;
    }
    // different kinds tell themselves apart when shown
    let (ak2, pk2, tk2) = (app_kinds()[s.below(11)].1, protocol_kinds()[s.below(7)].1, transport_kinds()[s.below(7)].1);
    for (a, b, same) in [
        (new_application_error(ak, t), new_application_error(ak2, t), ak == ak2),
        (new_protocol_error(pk, t), new_protocol_error(pk2, t), pk == pk2),
        (new_transport_error(tk, t), new_transport_error(tk2, t), tk == tk2),
    ] {
        ensure!((a.to_string() == b.to_string()) == same, "{a:?} and {b:?} are shown as {a} and {b}");
        c.oracle_calls += 1;
    }
    let num = u8::try_from(300i32).unwrap_err();
    ensure!(sig(&Error::from(num)) == INVALID, "a number out of range is not bad data");
    let res = Vec::<u8>::new().try_reserve(usize::MAX).unwrap_err();
    ensure!(sig(&Error::from(res)) == Sig::P(ProtocolErrorKind::SizeLimit), "a refused reservation is not over the size limit");
    let bad = String::from_utf8(vec![0xff]).unwrap_err();
    ensure!(sig(&Error::from(bad)) == INVALID, "text that is not UTF-8 is not bad data");
    Ok(())
}
