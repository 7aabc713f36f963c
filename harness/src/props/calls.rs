//! C35: calls that make no value. C36: identifiers and the helpers that judge them.
use crate::engine::*;
use crate::gen::{self, G};
use crate::generic::*;
use crate::io::*;
use crate::model::*;
use crate::util::*;
use crate::{ensure, fail};
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::thrift::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn props() -> Vec<Prop> {
    let p = |id, run: PropFn, quick, thorough, rule| Prop { id, run, quick, thorough, rule };
    vec![
        p("C35", c35, 600_000, 15_000_000, "a valid sequence of writing calls, cut at a drawn place and followed by one of ten kinds of misuse, on the synchronous, boxed and asynchronous writer; non-trivial: at least three valid calls come before it"),
        p("C36", c36, 2_000_000, 50_000_000, "one identifier of each kind from drawn parts in each form the constructors take, and an edit of each; non-trivial: a name that is not empty"),
    ]
}

#[derive(Clone, Debug, PartialEq)]
enum Call {
    MsgBegin(String, u8, u32),
    MsgEnd,
    StructBegin,
    StructEnd,
    FieldBegin(TType, Option<i16>),
    FieldEnd,
    FieldStop,
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    Double(f64),
    Bytes(Vec<u8>),
    ListBegin(TType, u32),
    ListEnd,
    SetBegin(TType, u32),
    SetEnd,
    MapBegin(Option<TType>, Option<TType>, u32),
    MapEnd,
    Flush,
}

fn calls(v: &TV, out: &mut Vec<Call>) {
    match v {
        TV::Bool(x) => out.push(Call::Bool(*x)),
        TV::I8(x) => out.push(Call::I8(*x)),
        TV::I16(x) => out.push(Call::I16(*x)),
        TV::I32(x) => out.push(Call::I32(*x)),
        TV::I64(x) => out.push(Call::I64(*x)),
        TV::Double(x) => out.push(Call::Double(f64::from_bits(*x))),
        TV::Bin(x) => out.push(Call::Bytes(x.clone())),
        TV::List(t, xs) => {
            out.push(Call::ListBegin(tt_to_ttype(*t), xs.len() as u32));
            xs.iter().for_each(|x| calls(x, out));
            out.push(Call::ListEnd);
        }
        TV::Set(t, xs) => {
            out.push(Call::SetBegin(tt_to_ttype(*t), xs.len() as u32));
            xs.iter().for_each(|x| calls(x, out));
            out.push(Call::SetEnd);
        }
        TV::Map(k, t, xs) => {
            out.push(Call::MapBegin(Some(tt_to_ttype(*k)), Some(tt_to_ttype(*t)), xs.len() as u32));
            for (a, b) in xs {
                calls(a, out);
                calls(b, out);
            }
            out.push(Call::MapEnd);
        }
        TV::Struct(fs) => {
            out.push(Call::StructBegin);
            for (id, x) in fs {
                out.push(Call::FieldBegin(tt_to_ttype(x.tt()), Some(*id)));
                calls(x, out);
                out.push(Call::FieldEnd);
            }
            out.push(Call::FieldStop);
            out.push(Call::StructEnd);
        }
    }
}

macro_rules! perform {
    ($p:expr, $call:expr $(, $aw:tt)*) => {{
        let p = $p;
        match $call {
            Call::MsgBegin(n, t, s) => p.write_message_begin(&TMessageIdentifier::new(n.as_str(), super::faults::message_type(*t), *s))$(.$aw)*,
            Call::MsgEnd => p.write_message_end()$(.$aw)*,
            Call::StructBegin => p.write_struct_begin(&TStructIdentifier::new("s"))$(.$aw)*,
            Call::StructEnd => p.write_struct_end(),
            Call::FieldBegin(t, id) => p.write_field_begin(&TFieldIdentifier::new("f", *t, *id))$(.$aw)*,
            Call::FieldEnd => p.write_field_end(),
            Call::FieldStop => p.write_field_stop()$(.$aw)*,
            Call::Bool(x) => p.write_bool(*x)$(.$aw)*,
            Call::I8(x) => p.write_i8(*x)$(.$aw)*,
            Call::I16(x) => p.write_i16(*x)$(.$aw)*,
            Call::I32(x) => p.write_i32(*x)$(.$aw)*,
            Call::I64(x) => p.write_i64(*x)$(.$aw)*,
            Call::Double(x) => p.write_double(*x)$(.$aw)*,
            Call::Bytes(x) => p.write_bytes(x)$(.$aw)*,
            Call::ListBegin(t, n) => p.write_list_begin(&TListIdentifier::new(*t, *n))$(.$aw)*,
            Call::ListEnd => p.write_list_end()$(.$aw)*,
            Call::SetBegin(t, n) => p.write_set_begin(&TSetIdentifier::new(*t, *n))$(.$aw)*,
            Call::SetEnd => p.write_set_end()$(.$aw)*,
            Call::MapBegin(k, t, n) => p.write_map_begin(&TMapIdentifier::new(*k, *t, *n))$(.$aw)*,
            Call::MapEnd => p.write_map_end()$(.$aw)*,
            Call::Flush => p.flush()$(.$aw)*.map(|_| 0),
        }
    }};
}

fn one<P: TOutputProtocol>(p: &mut P, call: &Call) -> Result<usize> {
    perform!(p, call)
}
async fn one_async<P: TOutputStreamProtocol>(p: &mut P, call: &Call) -> Result<usize> {
    perform!(p, call, await)
}

/// types the wire format does not have
const FOREIGN: [TType; 4] = [TType::Void, TType::Utf7, TType::Utf8, TType::Utf16];

fn c35(s: &mut Source, c: &mut Ctx) -> R {
    let mut g = G::small(s);
    let d = 1 + s.below(4);
    let t = if s.chance(3, 4) { TT::Struct } else { gen::elem_tt(s, d) };
    let mut v = vec![];
    let message = s.chance(1, 6);
    if message {
        let n = s.below(5);
        v.push(Call::MsgBegin(gen::text(s, n), 1 + s.below(4) as u8, gen::int(s, 32) as u32));
    }
    let values = 1 + s.below(3);
    for _ in 0..values {
        calls(&gen::tv(s, &mut g, t, d), &mut v);
    }
    // where a call may come: not between a boolean field and its value
    let pending = |v: &[Call], i: usize| i > 0 && matches!(v[i - 1], Call::FieldBegin(TType::Bool, _));
    let mut places: Vec<usize> = (0..=v.len()).filter(|i| !pending(&v, *i)).collect();
    let kind = s.below(10);
    let id = |s: &mut Source| Some(gen::int(s, 16) as i16);
    let n = |s: &mut Source| 1 + s.below(40) as u32;
    let fine = |s: &mut Source| tt_to_ttype(s.pick(&ALL_TT));
    let tail: Vec<Call> = match kind {
        // a boolean field whose value is not written before ..
        0..=4 => {
            // where a field may come
            let p: Vec<usize> = places.iter().copied().filter(|i| *i > 0 && matches!(v[i - 1], Call::StructBegin | Call::FieldEnd)).collect();
            if !p.is_empty() {
                places = p;
            }
            let mut t = vec![Call::FieldBegin(TType::Bool, id(s))];
            // calls that write nothing and change nothing
            for _ in 0..s.below(3) {
                t.push(match s.below(4) {
                    0 => Call::ListEnd,
                    1 => Call::SetEnd,
                    2 => Call::MapEnd,
                    _ => Call::Flush,
                });
            }
            t.push(match kind {
                0 => Call::FieldEnd,
                1 => Call::FieldStop,
                2 => Call::StructEnd,
                3 => Call::MsgEnd,
                _ => Call::FieldBegin(TType::Bool, id(s)),
            });
            t
        }
        // a struct that was not begun
        5 => {
            places = vec![v.len()];
            vec![Call::StructEnd]
        }
        6 => vec![Call::FieldBegin(s.pick(&FOREIGN), id(s))],
        7 => match s.below(2) {
            0 => {
                let t = tt_to_ttype(s.pick(&ALL_TT[1..]));
                vec![Call::FieldBegin(t, None)]
            }
            _ => vec![Call::FieldBegin(TType::Bool, None), Call::Bool(s.bool())],
        },
        8 => match s.below(2) {
            0 => vec![Call::ListBegin(s.pick(&FOREIGN), n(s))],
            _ => vec![Call::SetBegin(s.pick(&FOREIGN), n(s))],
        },
        _ => {
            let (a, b) = (Some(fine(s)), Some(fine(s)));
            let bad = if s.bool() { None } else { Some(s.pick(&FOREIGN)) };
            let n = n(s);
            vec![match s.below(3) {
                0 => Call::MapBegin(bad, b, n),
                1 => Call::MapBegin(a, bad, n),
                _ => Call::MapBegin(None, None, n),
            }]
        }
    };
    let at = places[s.below(places.len())];
    v.truncate(at);
    let before = v.len();
    v.extend(tail);
    c.hash = mix(&[hash_bytes(format!("{v:?}").as_bytes())]);
    c.nontrivial = before >= 3;
    c.label(["boolean field, field end", "boolean field, stop", "boolean field, struct end", "boolean field, message end", "boolean field, boolean field", "struct end", "foreign field type", "no field id", "foreign element type", "map without types"][kind]);
    c.sample(|| format!("{v:?}"));
    for how in 0..3 {
        let name = ["sync", "boxed", "async"][how];
        let mut w = vec![];
        let mut results = vec![];
        {
            let mut sync = TCompactOutputProtocol::new(&mut w);
            let attempt = |call: &Call, out: &mut TCompactOutputProtocol<&mut Vec<u8>>| catch_unwind(AssertUnwindSafe(|| one(out, call)));
            match how {
                0 => v.iter().for_each(|call| results.push(attempt(call, &mut sync))),
                1 => {
                    let mut p = Box::new(sync);
                    v.iter().for_each(|call| results.push(catch_unwind(AssertUnwindSafe(|| one(&mut p, call)))));
                }
                _ => {
                    drop(sync);
                    let mut p = TCompactOutputStreamProtocol::new(&mut w);
                    v.iter().for_each(|call| results.push(catch_unwind(AssertUnwindSafe(|| block_on(async { one_async(&mut p, call).await })))));
                }
            }
        }
        let mut sum = 0;
        for (i, r) in results.iter().enumerate() {
            let last = i + 1 == results.len();
            match r {
                Ok(Ok(n)) => {
                    ensure!(!last, "{name}: after {before} valid calls, {:?} is accepted (count {n})", &v[before..]);
                    sum += n;
                }
                Ok(Err(e)) => ensure!(last, "{name}: call {i} of {v:?} is refused with {e:?}"),
                Err(_) => ensure!(last, "{name}: call {i} of {v:?} panics: {}", last_panic()),
            }
        }
        ensure!(sum <= w.len(), "{name}: the calls before the refused one report {sum} bytes, {} are there; calls {v:?}", w.len());
        c.oracle_calls += 1;
    }
    // a reader whose struct is ended once more than it was begun
    let b = encode_canonical(&gen::tv(s, &mut g, t, d));
    for how in 0..3 {
        let mut rd = Reader::new(&b);
        let r = match how {
            0 => {
                let mut p = TCompactInputProtocol::new(&mut rd, usize::MAX);
                read_value(&mut p, t).map_err(|e| Fail { msg: format!("reading {} gives {e:?}", hx(&b)) })?;
                catch_unwind(AssertUnwindSafe(|| p.read_struct_end()))
            }
            1 => {
                let mut p = Box::new(TCompactInputProtocol::new(&mut rd, usize::MAX));
                read_value(&mut p, t).map_err(|e| Fail { msg: format!("reading {} gives {e:?}", hx(&b)) })?;
                catch_unwind(AssertUnwindSafe(|| p.read_struct_end()))
            }
            _ => {
                let mut p = TCompactInputStreamProtocol::new(&mut rd, usize::MAX);
                block_on(async { read_value_async(&mut p, t).await }).map_err(|e| Fail { msg: format!("reading {} gives {e:?}", hx(&b)) })?;
                catch_unwind(AssertUnwindSafe(|| block_on(async { p.read_struct_end().await })))
            }
        };
        ensure!(!matches!(r, Ok(Ok(_))), "reader {how} (0 sync, 1 boxed, 2 async) ends a struct that was not begun, after {}", hx(&b));
        c.oracle_calls += 1;
    }
    Ok(())
}

fn c36(s: &mut Source, c: &mut Ctx) -> R {
    let mut g = if s.chance(1, 20) { G::new(s) } else { G::small(s) };
    let n = g.str_len(s);
    let name = gen::text(s, n);
    let other = match s.below(3) {
        0 => name.clone(),
        1 => {
            // one character apart
            let mut x: Vec<char> = name.chars().collect();
            let at = s.below(x.len() + 1);
            match s.below(3) {
                0 => x.insert(at, s.pick(&['a', ' ', '\0', 'é'])),
                _ if at < x.len() => x[at] = s.pick(&['a', ' ', '\0', 'é', 'A']),
                _ => x.push('b'),
            }
            x.into_iter().collect()
        }
        _ => {
            let n = g.str_len(s);
            gen::text(s, n)
        }
    };
    let all: [TType; 16] = {
        use TType::*;
        [Stop, Void, Bool, I08, Double, I16, I32, I64, String, Utf7, Struct, Map, Set, List, Utf8, Utf16]
    };
    let (t, u) = (s.pick(&all), s.pick(&all));
    let id = gen::int(s, 16) as i16;
    let id2 = if s.bool() { id } else { gen::int(s, 16) as i16 };
    let (k, k2) = (gen::int(s, 33) as u32, gen::int(s, 33) as u32);
    let (m, m2) = (1 + s.below(4) as u8, 1 + s.below(4) as u8);
    c.hash = mix(&[hash_bytes(name.as_bytes()), hash_bytes(other.as_bytes()), id as u64, k as u64]);
    c.nontrivial = !name.is_empty();
    c.sample(|| format!("{name:?} {t:?} {id} {k}"));
    // messages
    let a = TMessageIdentifier::new(name.clone(), super::faults::message_type(m), k);
    let b = TMessageIdentifier::new(name.as_str(), super::faults::message_type(m), k);
    ensure!(a.name == name && a.message_type == super::faults::message_type(m) && a.sequence_number == k, "message identifier {a:?} from {name:?}, type {m}, number {k}");
    ensure!(a == b && a == a.clone(), "message identifiers {a:?} and {b:?}");
    let b = TMessageIdentifier::new(other.as_str(), super::faults::message_type(m2), k2);
    ensure!((a == b) == (name == other && m == m2 && k == k2), "message identifiers {a:?} and {b:?}: equal: {}", a == b);
    // structs
    let a = TStructIdentifier::new(name.as_str());
    let b = TStructIdentifier::new(other.clone());
    ensure!(a.name == name && b.name == other && a == a.clone(), "struct identifiers {a:?} and {b:?} from {name:?} and {other:?}");
    ensure!((a == b) == (name == other), "struct identifiers {a:?} and {b:?}: equal: {}", a == b);
    // fields, in each form
    let forms = [
        (TFieldIdentifier::new(name.as_str(), t, id), Some(&name), Some(id)),
        (TFieldIdentifier::new(name.clone(), t, id), Some(&name), Some(id)),
        (TFieldIdentifier::new::<Option<&str>, &str, Option<i16>>(Some(name.as_str()), t, Some(id)), Some(&name), Some(id)),
        (TFieldIdentifier::new::<Option<String>, String, Option<i16>>(None, t, Some(id)), None, Some(id)),
        (TFieldIdentifier::new::<Option<String>, String, Option<i16>>(None, t, None), None, None),
        (TFieldIdentifier::new(name.as_str(), t, None), Some(&name), None),
    ];
    for (f, wn, wi) in &forms {
        ensure!(f.name.as_ref() == *wn && f.field_type == t && f.id == *wi, "field identifier {f:?}, expected name {wn:?}, type {t:?}, id {wi:?}");
        ensure!(f == &f.clone(), "field identifier {f:?} and its copy");
        match (field_id(f), wi) {
            (Ok(x), Some(y)) if x == *y => {}
            (Err(e), None) if matches!(sig(&e), Sig::P(_)) => {}
            (r, _) => fail!("the id of {f:?} is {r:?}"),
        }
        for (h, vn, vi) in &forms {
            ensure!((f == h) == (wn == vn && wi == vi), "field identifiers {f:?} and {h:?}: equal: {}", f == h);
        }
    }
    let b = TFieldIdentifier::new(other.as_str(), u, id2);
    ensure!((forms[0].0 == b) == (name == other && t == u && id == id2), "field identifiers {:?} and {b:?}: equal: {}", forms[0].0, forms[0].0 == b);
    // collections
    let a = TListIdentifier::new(t, k);
    ensure!(a.element_type == t && a.size == k && a == a.clone(), "list identifier {a:?} from {t:?} and {k}");
    ensure!((a == TListIdentifier::new(u, k2)) == (t == u && k == k2), "list identifiers {a:?}");
    let a = TSetIdentifier::new(t, k);
    ensure!(a.element_type == t && a.size == k && a == a.clone(), "set identifier {a:?} from {t:?} and {k}");
    ensure!((a == TSetIdentifier::new(u, k2)) == (t == u && k == k2), "set identifiers {a:?}");
    let a = TMapIdentifier::new(t, Some(u), k);
    ensure!(a.key_type == Some(t) && a.value_type == Some(u) && a.size == k && a == a.clone(), "map identifier {a:?} from {t:?}, {u:?} and {k}");
    let b = TMapIdentifier::new(None, u, k2);
    ensure!(b.key_type.is_none() && b.value_type == Some(u) && b.size == k2 && a != b, "map identifier {b:?} from none, {u:?} and {k2}");
    let b = TMapIdentifier::new(Some(u), t, k2);
    ensure!((a == b) == (t == u && k == k2), "map identifiers {a:?} and {b:?}: equal: {}", a == b);
    // what they are shown as tells them apart
    ensure!((t.to_string() == u.to_string()) == (t == u) && !t.to_string().is_empty(), "types {t:?} and {u:?} are shown as {t} and {u}");
    let (x, y) = (super::faults::message_type(m), super::faults::message_type(m2));
    ensure!((x.to_string() == y.to_string()) == (x == y) && !x.to_string().is_empty(), "message types {x:?} and {y:?} are shown as {x} and {y}");
    // required fields
    ensure!(verify_required_field_exists(&name, &Some(&name)).is_ok(), "a field that is there is reported as missing");
    match verify_required_field_exists::<String>(&name, &None) {
        Err(Error::Protocol(_)) => {}
        r => fail!("a missing field gives {r:?}"),
    }
    c.oracle_calls += 20;
    Ok(())
}
