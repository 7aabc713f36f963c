//! The protocol layer itself: generic values, skipping, messages, varints, histories.
use crate::engine::*;
use crate::gen::{self, G};
use crate::generic::*;
use crate::io::*;
use crate::model::*;
use crate::schema::*;
use crate::util::*;
use crate::{ensure, fail};
use super::deep;
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::thrift::varint::*;
use parquet_format_safe::thrift::*;

pub fn props() -> Vec<Prop> {
    let p = |id, run: PropFn, quick, thorough, rule| Prop { id, run, quick, thorough, rule };
    vec![
        p("C17", c17, 2_000_000, 50_000_000, "eight integers (around every length boundary, extremes, uniform) in each of the eight widths, plus one arbitrary byte string; non-trivial: at least one integer needs more than one byte"),
        p("C18", c18, 1_000_000, 25_000_000, "one random Thrift value (all eleven wire types, arbitrary 16-bit field ids in any order, nested up to 6 levels, some up to 270) written and read by every protocol implementation; in some cases a list read element by element, or a tower of up to 65,700 structs; non-trivial: it contains a container"),
        p("C19", c19, 800_000, 20_000_000, "one random or deep-spined Thrift value skipped at its exact depth, one less, random limits and the default limit, between two other values; non-trivial: nested at least 2 deep"),
        p("C20", c20, 1_500_000, 37_500_000, "one message envelope with a payload struct or an application exception, and one damaged envelope; non-trivial: the name is not empty or the sequence number exceeds one byte"),
        p("C21", c21, 400_000, 10_000_000, "a history of 2 to 10 operations (some histories up to 400) on one writer and then one reader (typed values, generic structs, messages, each typed-read, generically read or skipped, then re-read after seeking to random positions); non-trivial: at least 3 operations of at least 2 kinds"),
        p("C33", c33, 2_000_000, 50_000_000, "one source holding 1 to 4 values with other bytes around them, on one reader: values read in part, or bytes at another place or of another type accepted, each followed by a seek to a value and its reading; non-trivial: at least one read was left in the middle of a value, or foreign bytes were accepted"),
    ]
}

macro_rules! width {
    ($s:ident, $c:ident, $t:ty, $bits:expr, $raw:expr, $to_wire:expr) => {{
        let v: $t = $raw as $t;
        let wire: u64 = $to_wire(v);
        let mut want = vec![];
        put_varint(&mut want, wire);
        $c.nontrivial |= want.len() > 1;
        ensure!(v.required_space() == want.len(), "{}: {v} needs {} bytes, reported {}", stringify!($t), want.len(), v.required_space());
        let e = v.encode_var_vec();
        ensure!(e == want, "{}: {v} encodes to {}, expected {}", stringify!($t), hex(&e), hex(&want));
        let mut slot = [0xAAu8; 16];
        let n = v.encode_var(&mut slot[..]);
        ensure!(slot[..n] == want[..] && slot[n..].iter().all(|x| *x == 0xAA), "{}: {v} into a slice: {}", stringify!($t), hex(&slot));
        let mut exact = vec![0u8; want.len()];
        ensure!(v.encode_var(&mut exact) == want.len() && exact == want, "{}: {v} into an exact slice", stringify!($t));
        let mut long = want.clone();
        long.extend_from_slice(&$s.u64().to_le_bytes());
        ensure!(<$t>::decode_var(&long) == Some((v, want.len())), "{}: {v} from a slice with more behind: {:?}", stringify!($t), <$t>::decode_var(&long));
        for k in 0..want.len() {
            ensure!(<$t>::decode_var(&want[..k]).is_none(), "{}: {v} cut to {k} bytes decodes", stringify!($t));
        }
        let pl = plan($s, true);
        let mut r = Reader::planned(&long, pl.clone());
        let x = r.read_varint::<$t>();
        ensure!(matches!(x, Ok(y) if y == v) && r.pos == want.len(), "{}: {v} from a reader (plan {pl:?}): {x:?} after {} bytes", stringify!($t), r.pos);
        let mut r = Reader::planned(&long, pl.clone());
        let x = block_on(r.read_varint_async::<$t>());
        ensure!(matches!(x, Ok(y) if y == v) && r.pos == want.len(), "{}: {v} from an async reader: {x:?} after {} bytes", stringify!($t), r.pos);
        let k = $s.below(want.len());
        let mut r = Reader::new(&want[..k]);
        let x = r.read_varint::<$t>();
        ensure!(matches!(&x, Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof), "{}: {v} cut to {k} bytes from a reader: {x:?}", stringify!($t));
        let mut r = Reader::new(&want[..k]);
        let x = block_on(r.read_varint_async::<$t>());
        ensure!(matches!(&x, Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof), "{}: {v} cut to {k} bytes from an async reader: {x:?}", stringify!($t));
        let mut w = Writer::planned(pl.clone());
        let x = w.write_varint(v);
        ensure!(matches!(x, Ok(n) if n == want.len()) && w.out == want, "{}: {v} to a writer: {x:?} {}", stringify!($t), hex(&w.out));
        let mut w = Writer::planned(pl.clone());
        let x = block_on(w.write_varint_async(v));
        ensure!(matches!(x, Ok(n) if n == want.len()) && w.out == want, "{}: {v} to an async writer: {x:?} {}", stringify!($t), hex(&w.out));
        // never more continuation bytes than the width allows
        let most = (($bits + 7) / 7) as usize;
        let over = vec![0x80u8 | ($s.byte()); most + 1 + $s.below(12)];
        let mut r = Reader::new(&over);
        let x = r.read_varint::<$t>();
        ensure!(matches!(&x, Err(e) if e.kind() == std::io::ErrorKind::InvalidData), "{}: {} continuation bytes: {x:?}", stringify!($t), over.len());
        ensure!(r.pos <= most + 1, "{}: an unterminated integer took {} bytes", stringify!($t), r.pos);
        let mut r = Reader::new(&over);
        let x = block_on(r.read_varint_async::<$t>());
        ensure!(matches!(&x, Err(e) if e.kind() == std::io::ErrorKind::InvalidData), "{}: {} continuation bytes, async: {x:?}", stringify!($t), over.len());
        $c.oracle_calls += 12;
    }};
}

fn c17(s: &mut Source, c: &mut Ctx) -> R {
    let bits = s.pick(&[64u32, 32, 16, 8]);
    let raw = gen::int(s, bits);
    c.hash = raw as u64 ^ ((bits as u64) << 56);
    c.sample(|| format!("{raw} ({bits} bits)"));
    width!(s, c, i64, 64, raw, |v: i64| zigzag(v));
    width!(s, c, i32, 32, raw, |v: i32| zigzag(v as i64));
    width!(s, c, i16, 16, raw, |v: i16| zigzag(v as i64));
    width!(s, c, i8, 8, raw, |v: i8| zigzag(v as i64));
    width!(s, c, u64, 64, raw, |v: u64| v);
    width!(s, c, u32, 32, raw, |v: u32| v as u64);
    width!(s, c, u16, 16, raw, |v: u16| v as u64);
    width!(s, c, u8, 8, raw, |v: u8| v as u64);
    // arbitrary bytes: slice, reader and async reader agree
    let n = s.below(13);
    let b: Vec<u8> = (0..n).map(|_| if s.bool() { s.byte() | 0x80 } else { s.byte() }).collect();
    let a = u64::decode_var(&b);
    let mut r = Reader::new(&b);
    let x = r.read_varint::<u64>();
    let mut q = Reader::new(&b);
    let y = block_on(q.read_varint_async::<u64>());
    match a {
        Some((v, n)) => ensure!(matches!(x, Ok(z) if z == v) && r.pos == n && matches!(y, Ok(z) if z == v) && q.pos == n, "{}: slice {a:?}, reader {x:?}, async {y:?}", hex(&b)),
        None => ensure!(matches!((&x, &y), (Err(p), Err(q)) if p.kind() == q.kind()), "{}: slice {a:?}, reader {x:?}, async {y:?}", hex(&b)),
    }
    // .. and the reference, for what fits the width (not minimal encodings included)
    let end = b.iter().position(|x| *x < 0x80);
    if let Some(e) = end {
        if e < 9 {
            let v = b[..=e].iter().enumerate().fold(0u64, |v, (i, x)| v | ((*x & 0x7f) as u64) << (7 * i));
            ensure!(a == Some((v, e + 1)), "{}: decodes to {a:?}, expected {v} in {} bytes", hex(&b), e + 1);
        }
    } else {
        ensure!(a.is_none(), "{}: incomplete, decodes to {a:?}", hex(&b));
    }
    let i = i64::decode_var(&b);
    ensure!(i == a.map(|(v, n)| (unzigzag(v), n)), "{}: signed {i:?}, unsigned {a:?}", hex(&b));
    Ok(())
}

fn generic_value(s: &mut Source) -> TV {
    let mut g = if s.chance(1, 6) { G::new(s) } else { G::small(s) };
    let d = 1 + s.below(6);
    let t = if s.chance(1, 2) { TT::Struct } else { gen::elem_tt(s, d) };
    gen::tv(s, &mut g, t, d)
}

fn c18(s: &mut Source, c: &mut Ctx) -> R {
    let v = if s.chance(1, 60) {
        // deep and narrow; as deep as a protocol may have to remember
        let d = match s.weighted(&[4, 2, 1]) {
            0 => 7 + s.below(60),
            1 => 60 + s.below(80),
            _ => 250 + s.below(20),
        };
        gen::spine(s, d)
    } else {
        generic_value(s)
    };
    c.label_if(v.depth() > 10, "deep");
    let want = v.norm();
    let b = encode_canonical(&v);
    c.note(&b);
    c.nontrivial = matches!(v, TV::List(..) | TV::Set(..) | TV::Map(..) | TV::Struct(..));
    c.sample(|| format!("{v:?}"));
    let flushes = s.pick(&[0, 0, u64::MAX, 0x5555_5555_5555_5555, 0x8421_0842_1084_2108, 0x0100_0010_0000_4000]);
    let on = flushing(flushes);
    let mut outs = vec![];
    let mut w = vec![];
    let r = write_value(&mut TCompactOutputProtocol::new(&mut w), &v).map_err(|e| sig(&e));
    outs.push(("sync", w, r));
    let mut w = vec![];
    let r = write_value(&mut Box::new(TCompactOutputProtocol::new(&mut w)), &v).map_err(|e| sig(&e));
    outs.push(("boxed", w, r));
    let mut w = vec![];
    let r = block_on(async { write_value_async(&mut TCompactOutputStreamProtocol::new(&mut w), &v).await }).map_err(|e| sig(&e));
    outs.push(("async", w, r));
    drop(on);
    for (name, w, r) in outs {
        ensure!(r.is_ok(), "{name} writer failed with {r:?} on {v:?}");
        if let Err(e) = conforms(&w, &v, false) {
            fail!("{name} writer wrote {}: {e}; value {v:?}", hx(&w));
        }
        ensure!(r == Ok(w.len()), "{name} writer reports {r:?} for {} bytes; value {v:?}", w.len());
        c.oracle_calls += 1;
    }
    // also with the unusual encodings a writer may choose
    let mut odd = vec![];
    let rate = s.below(4) as u64;
    encode(&v, &mut odd, &mut Drawn { src: s, rate, used: 0 });
    for bytes in [&b, &odd] {
        for how in 0..3 {
            let texts = s.bool() && textual(&v);
            let (r, pos) = match how {
                0 => as_texts(texts, || read_generic(bytes, v.tt(), usize::MAX, false)),
                1 => as_texts(texts, || read_generic(bytes, v.tt(), usize::MAX, true)),
                _ => {
                    let mut rd = Reader::new(bytes);
                    let r = as_texts(texts, || read_value(&mut Box::new(TCompactInputProtocol::new(&mut rd, usize::MAX)), v.tt())).map_err(|e| sig(&e));
                    (r, rd.pos)
                }
            };
            ensure!(r.as_ref() == Ok(&want), "reader {how} (0 sync, 1 async, 2 boxed): {r:?}, expected {want:?}; input {}", hx(bytes));
            ensure!(pos == bytes.len(), "reader {how} took {pos} of {} bytes; input {}", bytes.len(), hx(bytes));
            c.oracle_calls += 1;
        }
    }
    // text, bytes that are not text, and a bare byte, with their own calls
    let mut g = if s.chance(1, 20) { G::new(s) } else { G::small(s) };
    let n = g.str_len(s);
    let text = gen::text(s, n);
    let n = g.str_len(s);
    let bin = gen::fill(s, n);
    let byte = s.byte();
    let mut want = vec![];
    put_varint(&mut want, text.len() as u64);
    want.extend_from_slice(text.as_bytes());
    put_varint(&mut want, bin.len() as u64);
    want.extend_from_slice(&bin);
    want.push(byte);
    let mut w = vec![];
    let mut p = TCompactOutputProtocol::new(&mut w);
    let r = p.write_string(&text).and_then(|a| Ok(a + p.write_bytes(&bin)? + p.write_byte(byte)?)).map_err(|e| sig(&e));
    ensure!(r == Ok(want.len()) && w == want, "string, bytes and byte: {r:?}, wrote {}, expected {}", hx(&w), hx(&want));
    let mut w = vec![];
    let r: Result<usize> = block_on(async {
        let mut p = TCompactOutputStreamProtocol::new(&mut w);
        Ok(p.write_string(&text).await? + p.write_bytes(&bin).await? + p.write_byte(byte).await?)
    });
    let r = r.map_err(|e| sig(&e));
    ensure!(r == Ok(want.len()) && w == want, "async: string, bytes and byte: {r:?}, wrote {}, expected {}", hx(&w), hx(&want));
    let mut rd = Reader::new(&want);
    let mut p = Box::new(TCompactInputProtocol::new(&mut rd, usize::MAX));
    let r = p.read_string().and_then(|a| Ok((a, p.read_bytes()?, p.read_byte()?))).map_err(|e| sig(&e));
    ensure!(matches!(&r, Ok((a, b, x)) if *a == text && *b == bin && *x == byte), "string, bytes and byte read as {r:?}; input {}", hx(&want));
    let mut rd = Reader::new(&want);
    let r: Result<_> = block_on(async {
        let mut p = TCompactInputStreamProtocol::new(&mut rd, usize::MAX);
        Ok((p.read_string().await?, p.read_bytes().await?, p.read_byte().await?))
    });
    let r = r.map_err(|e| sig(&e));
    ensure!(matches!(&r, Ok((a, b, x)) if *a == text && *b == bin && *x == byte), "async: string, bytes and byte read as {r:?}; input {}", hx(&want));
    // bytes read as text
    let mut raw = vec![];
    put_varint(&mut raw, bin.len() as u64);
    raw.extend_from_slice(&bin);
    let expect = String::from_utf8(bin.clone()).map_err(|_| INVALID);
    let x = TCompactInputProtocol::new(&raw[..], usize::MAX).read_string().map_err(|e| sig(&e));
    let y = block_on(async { TCompactInputStreamProtocol::new(&raw[..], usize::MAX).read_string().await }).map_err(|e| sig(&e));
    ensure!(x == expect && y == expect, "bytes {} read as text: {x:?}, async {y:?}", hx(&bin));
    c.oracle_calls += 5;
    if s.chance(1, 8) {
        deep::lists(s, c)?;
    }
    if s.chance(1, 300) {
        deep::tower(s, c)?;
    }
    Ok(())
}

fn c19(s: &mut Source, c: &mut Ctx) -> R {
    let v = if s.chance(1, 2) {
        let d = match s.weighted(&[4, 3, 2]) {
            0 => 1 + s.below(10),
            1 => 60 + s.below(9),
            _ => 1 + s.below(140),
        };
        gen::spine(s, d)
    } else {
        generic_value(s)
    };
    let depth = v.depth();
    let t = v.tt();
    let mut b = vec![];
    let rate = s.below(3) as u64;
    encode(&v, &mut b, &mut Drawn { src: s, rate, used: 0 });
    let n = b.len();
    let k = s.below(20);
    b.extend(gen::fill(s, k));
    c.note(&b);
    c.nontrivial = depth >= 2;
    c.label_if(depth > 64, "deeper than the default limit");
    c.sample(|| format!("depth {depth}: {}", hx(&b)));
    let mut limits: Vec<Option<i8>> = vec![None, Some(s.range(-128, 127) as i8)];
    if depth <= 127 {
        limits.push(Some(depth as i8));
        limits.push(Some(depth as i8 - 1));
    }
    for l in limits {
        let fits = depth as i64 <= l.unwrap_or(64) as i64;
        for asyn in [false, true] {
            let (r, pos) = skip_generic(&b, t, usize::MAX, l, asyn);
            if fits {
                ensure!(r == Ok(()) && pos == n, "async {asyn}: skipping a value of depth {depth} with limit {l:?}: {r:?} after {pos} of {n} bytes; input {}", hx(&b));
            } else {
                ensure!(r == Err(DEPTH), "async {asyn}: skipping a value of depth {depth} with limit {l:?}: {r:?}; input {}", hx(&b));
            }
            c.oracle_calls += 1;
        }
    }
    // skipping charges the size limit exactly as reading does
    if depth <= 64 {
        for asyn in [false, true] {
            let (p, e, st) = v.footprint();
            let lim = s.below(p + 8 * e + 2 * st + 2);
            let (x, xp) = read_generic(&b, t, lim, asyn);
            let (y, yp) = skip_generic(&b, t, lim, None, asyn);
            ensure!(x.as_ref().map(|_| ()) == y.as_ref().map(|_| ()) && (x.is_err() || xp == yp), "async {asyn}: with limit {lim} reading gives {x:?}, skipping {y:?}; input {}", hx(&b));
        }
    }
    // inside a struct: the fields after a skipped one keep their ids
    let after = gen::int(s, 32) as i32;
    let (i, j) = (gen::next_id(s, 0), 0i16);
    let mut i = i;
    if i == 0 {
        i = 1;
    }
    let j = gen::next_id(s, i.wrapping_add(j));
    let mut w = vec![];
    encode(&TV::Struct(vec![(i, v.clone()), (j, TV::I32(after)), (s.range(-5, 20) as i16, TV::Bool(true))]), &mut w, &mut Canonical);
    if depth <= 64 {
        for asyn in [false, true] {
            let mut rd = Reader::new(&w);
            let r: Result<(Option<i16>, Option<i16>, i32)> = if asyn {
                let mut p = TCompactInputStreamProtocol::new(&mut rd, usize::MAX);
                block_on(async {
                    p.read_struct_begin().await?;
                    let f = p.read_field_begin().await?;
                    p.skip(f.field_type).await?;
                    p.read_field_end().await?;
                    let g = p.read_field_begin().await?;
                    Ok((f.id, g.id, p.read_i32().await?))
                })
            } else {
                let mut p = TCompactInputProtocol::new(&mut rd, usize::MAX);
                (|| {
                    p.read_struct_begin()?;
                    let f = p.read_field_begin()?;
                    p.skip(f.field_type)?;
                    p.read_field_end()?;
                    let g = p.read_field_begin()?;
                    Ok((f.id, g.id, p.read_i32()?))
                })()
            };
            let r = r.map_err(|e| sig(&e));
            ensure!(r == Ok((Some(i), Some(j), after)), "async {asyn}: fields around a skipped one: {r:?}, expected ids {i}, {j} and {after}; input {}", hx(&w));
            c.oracle_calls += 1;
        }
    }
    // types that have no wire form are refused
    let odd = s.pick(&[TType::Stop, TType::Void, TType::Utf7, TType::Utf8, TType::Utf16]);
    let r = TCompactInputProtocol::new(&b[..], usize::MAX).skip(odd).map_err(|e| sig(&e));
    ensure!(matches!(r, Err(Sig::P(_))), "skipping {odd:?}: {r:?}");
    let q = block_on(async { TCompactInputStreamProtocol::new(&b[..], usize::MAX).skip(odd).await }).map_err(|e| sig(&e));
    ensure!(q == r, "skipping {odd:?}: {r:?}, async {q:?}");
    Ok(())
}

fn c20(s: &mut Source, c: &mut Ctx) -> R {
    let n = match s.weighted(&[2, 4, 2]) {
        0 => 0,
        1 => 1 + s.below(20),
        _ => 100 + s.below(200),
    };
    let name = gen::text(s, n);
    let ty = 1 + s.below(4) as u8;
    let seq = gen::int(s, 64) as u32;
    let id = TMessageIdentifier::new(name.as_str(), crate::props::faults::message_type(ty), seq);
    let kinds = crate::props::misc::app_kinds();
    let kind = kinds[s.below(kinds.len())].1;
    let text_n = s.below(40);
    let text = gen::text(s, text_n);
    let payload = if s.bool() { generic_value(s) } else { TV::Struct(vec![(1, TV::Bin(text.clone().into_bytes())), (2, TV::I32(kind as i32))]) };
    let payload = TV::Struct(match payload {
        TV::Struct(f) => f,
        x => vec![(3, x)],
    });
    let mut want = vec![0x82, ty << 5 | 1];
    put_varint(&mut want, seq as u64);
    put_varint(&mut want, name.len() as u64);
    want.extend_from_slice(name.as_bytes());
    let head = want.len();
    encode(&payload, &mut want, &mut Canonical);
    c.note(&want);
    c.nontrivial = !name.is_empty() || seq > 127;
    c.sample(|| format!("{id:?} {payload:?}"));

    let mut w = vec![];
    let r: Result<usize> = (|| {
        let mut p = TCompactOutputProtocol::new(&mut w);
        let mut n = p.write_message_begin(&id)?;
        n += write_value(&mut p, &payload)?;
        n += p.write_message_end()?;
        Ok(n)
    })();
    ensure!(matches!(r, Ok(n) if n == w.len()) && w.len() >= head && w[..head] == want[..head] && conforms(&w[head..], &payload, false).is_ok(), "sync: message {id:?}: {:?}, wrote {}, for example {} is right", r.map_err(|e| sig(&e)), hx(&w), hx(&want));
    let mut w = vec![];
    let r: Result<usize> = block_on(async {
        let mut p = TCompactOutputStreamProtocol::new(&mut w);
        let mut n = p.write_message_begin(&id).await?;
        n += write_value_async(&mut p, &payload).await?;
        n += p.write_message_end().await?;
        Ok(n)
    });
    ensure!(matches!(r, Ok(n) if n == w.len()) && w.len() >= head && w[..head] == want[..head] && conforms(&w[head..], &payload, false).is_ok(), "async: message {id:?}: {:?}, wrote {}, for example {} is right", r.map_err(|e| sig(&e)), hx(&w), hx(&want));
    let norm = payload.norm();
    // also after unfinished field traffic: a message starts afresh
    for how in 0..3 {
        let mut rd = Reader::new(&want);
        let r: Result<(TMessageIdentifier, TV)> = match how {
            0 => {
                let mut p = TCompactInputProtocol::new(&mut rd, usize::MAX);
                p.read_message_begin().and_then(|m| {
                    let v = read_value(&mut p, TT::Struct)?;
                    p.read_message_end()?;
                    Ok((m, v))
                })
            }
            1 => {
                let mut p = Box::new(TCompactInputProtocol::new(&mut rd, usize::MAX));
                p.read_message_begin().and_then(|m| {
                    let v = read_value(&mut p, TT::Struct)?;
                    p.read_message_end()?;
                    Ok((m, v))
                })
            }
            _ => {
                let mut p = TCompactInputStreamProtocol::new(&mut rd, usize::MAX);
                block_on(async {
                    let m = p.read_message_begin().await?;
                    let v = read_value_async(&mut p, TT::Struct).await?;
                    p.read_message_end().await?;
                    Ok((m, v))
                })
            }
        };
        let r = r.map_err(|e| sig(&e));
        ensure!(matches!(&r, Ok((m, v)) if *m == id && *v == norm) && rd.pos == want.len(), "reader {how}: {r:?}, expected {id:?} {norm:?}; input {}", hx(&want));
        c.oracle_calls += 1;
    }
    // damaged envelopes
    let mut bad = want.clone();
    let expect = match s.below(3) {
        0 => {
            let x = s.byte();
            bad[0] = if x == 0x82 { 0x83 } else { x };
            Sig::P(ProtocolErrorKind::BadVersion)
        }
        1 => {
            let x = s.below(32) as u8;
            bad[1] = (bad[1] & 0xe0) | if x == 1 { 2 } else { x };
            Sig::P(ProtocolErrorKind::BadVersion)
        }
        _ => {
            bad[1] = 1 | s.pick(&[0u8, 5, 6, 7]) << 5;
            INVALID
        }
    };
    let k = s.below(head);
    for (bytes, expect) in [(&bad[..], expect), (&want[..k], EOF)] {
        let x = TCompactInputProtocol::new(bytes, usize::MAX).read_message_begin().map_err(|e| sig(&e));
        let y = block_on(async { TCompactInputStreamProtocol::new(bytes, usize::MAX).read_message_begin().await }).map_err(|e| sig(&e));
        ensure!(x == Err(expect) && y == Err(expect), "envelope {}: sync {x:?}, async {y:?}, expected {expect:?}", hx(bytes));
        c.oracle_calls += 1;
    }
    // application exceptions
    let e = ApplicationError::new(kind, text.as_str());
    let mut w = Writer::new();
    let r = Error::write_application_error_to_out_protocol(&e, &mut TCompactOutputProtocol::new(&mut w)).map_err(|e| sig(&e));
    let body = TV::Struct(vec![(1, TV::Bin(text.clone().into_bytes())), (2, TV::I32(kind as i32))]);
    ensure!(r.is_ok() && conforms(&w.out, &body, true).is_ok() && w.flushes > 0, "exception {e:?}: {r:?}, wrote {}, for example {} is right", hx(&w.out), hx(&encode_canonical(&body)));
    let mut wire = TV::Struct(vec![]);
    let code = if s.bool() { kind as i32 } else { gen::int(s, 32) as i32 };
    let (has_text, has_code) = (s.chance(3, 4), s.chance(3, 4));
    if let TV::Struct(f) = &mut wire {
        if has_text {
            f.push((1, TV::Bin(text.clone().into_bytes())));
        }
        if has_code {
            let at = s.below(f.len() + 1);
            f.insert(at, (2, TV::I32(code)));
        }
        if s.bool() {
            let at = s.below(f.len() + 1);
            let mut g = G::small(s);
            let t = gen::elem_tt(s, 3);
            let x = gen::tv(s, &mut g, t, 3);
            let id = s.pick(&[3i16, 0, -1, 20, 300]);
            f.insert(at, (id, x));
        }
    }
    let b = encode_canonical(&wire);
    let mut rd = Reader::new(&b);
    let got = Error::read_application_error_from_in_protocol(&mut TCompactInputProtocol::new(&mut rd, usize::MAX)).map_err(|e| sig(&e));
    let want_kind = if has_code { kinds.iter().find(|k| k.0 == code).map(|k| k.1).unwrap_or(ApplicationErrorKind::Unknown) } else { ApplicationErrorKind::Unknown };
    match &got {
        Ok(g) => {
            ensure!(g.kind == want_kind, "exception code {code} (present {has_code}) read as {:?}, expected {want_kind:?}; input {}", g.kind, hx(&b));
            ensure!(!has_text || g.message == text, "exception text {:?}, expected {text:?}; input {}", g.message, hx(&b));
            ensure!(rd.pos == b.len(), "exception took {} of {} bytes", rd.pos, b.len());
        }
        Err(e) => fail!("exception rejected with {e:?}; input {}", hx(&b)),
    }
    // the envelope verifiers
    let (a, z) = (seq as i32, if s.bool() { seq as i32 } else { gen::int(s, 32) as i32 });
    let r = verify_expected_sequence_number(a, z).map_err(|e| sig(&e));
    ensure!(r == if a == z { Ok(()) } else { Err(Sig::A(ApplicationErrorKind::BadSequenceId)) }, "sequence {a} against {z}: {r:?}");
    let other = if s.bool() { name.clone() } else { text.clone() };
    let r = verify_expected_service_call(&name, &other).map_err(|e| sig(&e));
    ensure!(r == if name == other { Ok(()) } else { Err(Sig::A(ApplicationErrorKind::WrongMethodName)) }, "call {name:?} against {other:?}: {r:?}");
    let t2 = 1 + s.below(4) as u8;
    let mt = crate::props::faults::message_type;
    let r = verify_expected_message_type(mt(ty), mt(t2)).map_err(|e| sig(&e));
    ensure!(r == if ty == t2 { Ok(()) } else { Err(Sig::A(ApplicationErrorKind::InvalidMessageType)) }, "message type {ty} against {t2}: {r:?}");
    c.oracle_calls += 6;
    Ok(())
}

enum Op {
    Typed(&'static Root, BV),
    Struct(TV),
    Bare(TV),
    Message(TMessageIdentifier),
}

fn operation(s: &mut Source, g: &mut G) -> Op {
    match s.weighted(&[4, 3, 2, 1]) {
        0 => {
            let root = pick_root(s);
            Op::Typed(root, (root.gen)(s, g))
        }
        1 => {
            let d = 1 + s.below(5);
            Op::Struct(gen::strukt(s, g, d))
        }
        2 => {
            let t = gen::elem_tt(s, 4);
            Op::Bare(gen::tv(s, g, t, 4))
        }
        _ => Op::Message(TMessageIdentifier::new(gen::text(s, 4), TMessageType::Reply, s.u64() as u32)),
    }
}

fn c21(s: &mut Source, c: &mut Ctx) -> R {
    let long = s.chance(1, 300);
    let n = if long { 100 + s.below(300) } else { 2 + s.below(9) };
    c.label_if(long, "long history");
    let mut ops = vec![];
    for _ in 0..n {
        let mut g = G::small(s);
        if long {
            g.fuel = 12;
        }
        ops.push(operation(s, &mut g));
    }
    let kinds = [
        ops.iter().any(|o| matches!(o, Op::Typed(..))),
        ops.iter().any(|o| matches!(o, Op::Struct(..))),
        ops.iter().any(|o| matches!(o, Op::Bare(..))),
        ops.iter().any(|o| matches!(o, Op::Message(..))),
    ];
    c.nontrivial = n >= 3 && kinds.iter().filter(|k| **k).count() >= 2;
    // expected bytes and the model value at each step
    let mut want = vec![];
    let mut starts = vec![];
    let mut model = vec![];
    for o in &ops {
        starts.push(want.len());
        match o {
            Op::Typed(_, v) => {
                model.push(v.tv());
                encode_into(&v.tv(), &mut want);
            }
            Op::Struct(v) | Op::Bare(v) => {
                model.push(v.norm());
                encode_into(v, &mut want);
            }
            Op::Message(m) => {
                model.push(TV::Bool(true));
                want.extend([0x82, 0x41]);
                put_varint(&mut want, m.sequence_number as u64);
                encode_into(&TV::Bin(m.name.clone().into_bytes()), &mut want);
            }
        }
    }
    starts.push(want.len());
    c.note(&want);
    c.sample(|| format!("{} operations at {starts:?}: {}", ops.len(), hx(&want)));
    let flushes = s.pick(&[0, 0, 0, u64::MAX, 0x5555_5555_5555_5555, 0x0100_0010_0000_4000]);
    let _on = flushing(flushes);
    // one writer for the whole history
    for asyn in [false, true] {
        let mut w = Writer::new();
        let mut counts = vec![];
        if asyn {
            let mut p: AsyncOut = TCompactOutputStreamProtocol::new(&mut w as &mut dyn AW);
            for o in &ops {
                counts.push(match o {
                    Op::Typed(_, v) => block_on(v.write_async(&mut p)),
                    Op::Struct(v) | Op::Bare(v) => block_on(write_value_async(&mut p, v)),
                    Op::Message(m) => block_on(p.write_message_begin(m)),
                });
            }
        } else {
            let mut p: SyncOut = TCompactOutputProtocol::new(&mut w as &mut dyn std::io::Write);
            for o in &ops {
                counts.push(match o {
                    Op::Typed(_, v) => v.write(&mut p),
                    Op::Struct(v) | Op::Bare(v) => write_value(&mut p, v),
                    Op::Message(m) => p.write_message_begin(m),
                });
            }
        }
        let mut at = 0;
        for (i, r) in counts.into_iter().enumerate() {
            let end = match r {
                Ok(n) => at + n,
                Err(e) => fail!("async {asyn}: writing operation {i} failed with {:?}", sig(&e)),
            };
            ensure!(end <= w.out.len(), "async {asyn}: after operation {i} the counts sum to {end}, {} bytes were written", w.out.len());
            let part = &w.out[at..end];
            let r = match &ops[i] {
                Op::Typed(..) => conforms(part, &model[i], true),
                Op::Struct(v) | Op::Bare(v) => conforms(part, v, false),
                Op::Message(_) => {
                    if part == &want[starts[i]..starts[i + 1]] {
                        Ok(())
                    } else {
                        Err("wrong envelope".to_string())
                    }
                }
            };
            if let Err(e) = r {
                fail!("async {asyn}: operation {i} wrote {}: {e}; for example {} is right", hx(part), hx(&want[starts[i]..starts[i + 1]]));
            }
            at = end;
            c.oracle_calls += 1;
        }
        ensure!(at == w.out.len(), "async {asyn}: the counts sum to {at}, {} bytes were written", w.out.len());
    }
    // one reader for the whole history; the position is checked through what comes next
    let modes: Vec<u64> = ops.iter().map(|_| s.draw(4)).collect();
    {
        let mut rd = Reader::planned(&want, plan(s, false));
        let mut p: AsyncIn = TCompactInputStreamProtocol::new(&mut rd as &mut dyn AR, usize::MAX);
        for (i, o) in ops.iter().enumerate() {
            let r = block_on(async {
                Ok::<_, Error>(match o {
                    Op::Message(m) => TV::Bool(p.read_message_begin().await? == *m),
                    _ => step_async(&mut p, o, modes[i], &model[i]).await?,
                })
            });
            let r = r.map_err(|e| sig(&e));
            ensure!(r.as_ref() == Ok(&model[i]), "async: operation {i} read as {r:?}, expected {:?}; bytes {}", model[i], hx(&want));
            c.oracle_calls += 1;
        }
        drop(p);
        ensure!(rd.pos == want.len(), "async: the history took {} of {} bytes", rd.pos, want.len());
    }
    let mut rd = Reader::planned(&want, plan(s, false));
    {
        let mut p: SyncIn = TCompactInputProtocol::new(&mut rd as &mut dyn RS, usize::MAX);
        for (i, o) in ops.iter().enumerate() {
            let r = step(&mut p, o, modes[i], &model[i]).map_err(|e| sig(&e));
            ensure!(r.as_ref() == Ok(&model[i]), "sync: operation {i} read as {r:?}, expected {:?}; bytes {}", model[i], hx(&want));
            let at = std::io::Seek::stream_position(&mut p).unwrap_or(u64::MAX);
            ensure!(at == starts[i + 1] as u64, "sync: after operation {i} the source is at {at}, expected {}", starts[i + 1]);
            c.oracle_calls += 1;
        }
        // random access between complete values
        let k = s.below(6);
        for _ in 0..k {
            let i = s.below(ops.len());
            let to = match s.below(3) {
                0 => std::io::SeekFrom::Start(starts[i] as u64),
                1 => std::io::SeekFrom::End(starts[i] as i64 - want.len() as i64),
                _ => {
                    let at = std::io::Seek::stream_position(&mut p).unwrap_or(0);
                    std::io::SeekFrom::Current(starts[i] as i64 - at as i64)
                }
            };
            let at = std::io::Seek::seek(&mut p, to);
            ensure!(matches!(at, Ok(x) if x == starts[i] as u64), "seek {to:?} answers {at:?}, expected {}", starts[i]);
            let m = s.draw(4);
            let r = step(&mut p, &ops[i], m, &model[i]).map_err(|e| sig(&e));
            ensure!(r.as_ref() == Ok(&model[i]), "sync: operation {i} re-read after a seek as {r:?}, expected {:?}; bytes {}", model[i], hx(&want));
            c.oracle_calls += 1;
        }
    }
    // whatever bytes were accepted before, the next value is not affected
    let root = pick_struct(s);
    let (b, _) = crate::hostile::hostile(s, root);
    let (x, xp) = read(root, &b, usize::MAX, false);
    if let (Ok(x), Some(i)) = (x, ops.iter().position(|o| !matches!(o, Op::Message(_)))) {
        c.label("after foreign bytes");
        let mut data = b[..xp].to_vec();
        data.extend_from_slice(&want[starts[i]..starts[i + 1]]);
        let m = s.draw(4);
        let mut rd = Reader::new(&data);
        let mut p: SyncIn = TCompactInputProtocol::new(&mut rd as &mut dyn RS, usize::MAX);
        let r = (root.read)(&mut p).and_then(|v| Ok((v.tv(), step(&mut p, &ops[i], m, &model[i])?))).map_err(|e| sig(&e));
        let ok = matches!(&r, Ok((v, w)) if *v == x.tv() && *w == model[i]);
        ensure!(ok, "sync: {} and then a value read as {r:?}, expected {:?}, {:?}; bytes {}", root.name, x.tv(), model[i], hx(&data));
        let mut rd = Reader::new(&data);
        let mut p: AsyncIn = TCompactInputStreamProtocol::new(&mut rd as &mut dyn AR, usize::MAX);
        let r: Result<_> = block_on(async { Ok(((root.read_async)(&mut p).await?.tv(), step_async(&mut p, &ops[i], m, &model[i]).await?)) });
        let r = r.map_err(|e| sig(&e));
        let ok = matches!(&r, Ok((v, w)) if *v == x.tv() && *w == model[i]);
        ensure!(ok, "async: {} and then a value read as {r:?}, expected {:?}, {:?}; bytes {}", root.name, x.tv(), model[i], hx(&data));
        c.oracle_calls += 2;
    }
    Ok(())
}

/// Make up to `fuel` calls of reading a value of type `t`; true if it was read to its end.
fn peek(p: &mut SyncIn<'_>, t: TT, fuel: &mut usize, ask: &mut u64) -> Result<bool> {
    macro_rules! call {
        ($e:expr) => {{
            if *fuel == 0 {
                return Ok(false);
            }
            *fuel -= 1;
            let x = $e?;
            if *ask & 1 == 1 {
                // asking for the position moves nothing
                let _ = std::io::Seek::stream_position(p);
            }
            *ask = ask.rotate_right(1);
            x
        }};
    }
    macro_rules! sub {
        ($t:expr) => {
            match ttype_to_tt($t) {
                Some(t) => {
                    if !peek(p, t, fuel, ask)? {
                        return Ok(false);
                    }
                }
                None => return Ok(false),
            }
        };
    }
    match t {
        TT::Bool => _ = call!(p.read_bool()),
        TT::I8 => _ = call!(p.read_i8()),
        TT::I16 => _ = call!(p.read_i16()),
        TT::I32 => _ = call!(p.read_i32()),
        TT::I64 => _ = call!(p.read_i64()),
        TT::Double => _ = call!(p.read_double()),
        TT::Bin => _ = call!(p.read_bytes()),
        TT::Struct => {
            call!(p.read_struct_begin());
            loop {
                let f = call!(p.read_field_begin());
                if f.field_type == TType::Stop {
                    break;
                }
                sub!(f.field_type);
                call!(p.read_field_end());
            }
            call!(p.read_struct_end());
        }
        TT::List => {
            let l = call!(p.read_list_begin());
            for _ in 0..l.size {
                sub!(l.element_type);
            }
            call!(p.read_list_end());
        }
        TT::Set => {
            let l = call!(p.read_set_begin());
            for _ in 0..l.size {
                sub!(l.element_type);
            }
            call!(p.read_set_end());
        }
        TT::Map => {
            let m = call!(p.read_map_begin());
            for _ in 0..m.size {
                if let (Some(k), Some(v)) = (m.key_type, m.value_type) {
                    sub!(k);
                    sub!(v);
                }
            }
            call!(p.read_map_end());
        }
    }
    Ok(true)
}

/// Seek to `at` in one of the ways there are; the answer is the new position.
fn goto(s: &mut Source, p: &mut SyncIn<'_>, at: usize, len: usize) -> u64 {
    use std::io::{Seek, SeekFrom};
    let now = match s.below(4) {
        0 => return p.seek(SeekFrom::Start(at as u64)).unwrap_or(u64::MAX),
        1 => return p.seek(SeekFrom::End(at as i64 - len as i64)).unwrap_or(u64::MAX),
        2 => p.stream_position().unwrap_or(u64::MAX),
        // by way of somewhere else
        _ => {
            let now = p.stream_position().unwrap_or(u64::MAX);
            let mut by = s.below(len + 1) as u64;
            if by == now {
                by += 1;
            }
            if p.seek_relative(by.wrapping_sub(now) as i64).is_err() {
                return u64::MAX;
            }
            by
        }
    };
    if now == at as u64 {
        // a move by nothing is no seek
        return p.seek(SeekFrom::Start(at as u64)).unwrap_or(u64::MAX);
    }
    p.seek(SeekFrom::Current((at as u64).wrapping_sub(now) as i64)).unwrap_or(u64::MAX)
}

fn c33(s: &mut Source, c: &mut Ctx) -> R {
    use std::io::Seek;
    let n = 1 + s.below(4);
    let mut ops = vec![];
    let mut data = vec![];
    let mut starts = vec![];
    let mut lens = vec![];
    let mut model = vec![];
    for _ in 0..n {
        // bytes that belong to no value
        match s.below(3) {
            0 => {}
            1 => {
                let k = s.below(12);
                data.extend(gen::fill(s, k));
            }
            _ => {
                let r = pick_struct(s);
                let (b, _) = crate::hostile::hostile(s, r);
                data.extend_from_slice(&b[..b.len().min(200)]);
            }
        }
        let mut g = G::small(s);
        let op = match s.weighted(&[5, 3, 2]) {
            0 => {
                let root = if s.chance(1, 3) { root("ColumnIndex") } else { pick_root(s) };
                Op::Typed(root, (root.gen)(s, &mut g))
            }
            1 => {
                let d = 1 + s.below(4);
                Op::Struct(gen::strukt(s, &mut g, d))
            }
            _ => {
                let t = gen::elem_tt(s, 4);
                Op::Bare(gen::tv(s, &mut g, t, 4))
            }
        };
        starts.push(data.len());
        match &op {
            Op::Typed(_, v) => {
                model.push(v.tv());
                encode_into(&v.tv(), &mut data);
            }
            Op::Struct(v) | Op::Bare(v) => {
                model.push(v.norm());
                encode_into(v, &mut data);
            }
            Op::Message(_) => unreachable!(),
        }
        lens.push(data.len() - starts[starts.len() - 1]);
        ops.push(op);
    }
    c.note(&data);
    c.sample(|| format!("{n} values at {starts:?}: {}", hx(&data)));
    let mut rd = Reader::planned(&data, plan(s, false));
    let mut p: SyncIn = TCompactInputProtocol::new(&mut rd as &mut dyn RS, usize::MAX);
    let long = s.chance(1, 300);
    c.label_if(long, "long history");
    let k = if long { 700 } else { 1 + s.below(4) };
    let mut trail = String::new();
    for _ in 0..k {
        let i = s.below(n);
        let foreign = !long && s.chance(1, 3);
        let at = if foreign { s.below(data.len() + 1) } else { starts[i] };
        let to = goto(s, &mut p, at, data.len());
        ensure!(to == at as u64, "seek to {at} answers {to}");
        let (label, r) = if foreign {
            match s.below(3) {
                0 => {
                    let r = pick_struct(s);
                    (r.name.to_string(), (r.read)(&mut p).map(|_| true))
                }
                1 => {
                    let t = ALL_TT[s.below(ALL_TT.len())];
                    (format!("{t:?}"), read_value(&mut p, t).map(|_| true))
                }
                _ => {
                    let t = ALL_TT[s.below(ALL_TT.len())];
                    (format!("skip {t:?}"), p.skip(tt_to_ttype(t)).map(|_| true))
                }
            }
        } else {
            let fuel = s.below(40);
            let mut left = fuel;
            let t = wire_type(&ops[i], &model[i]);
            let mut ask = s.pick(&[0, 0, u64::MAX, 0x5555_5555_5555_5555, 0x8421_0842_1084_2108]);
            let r = peek(&mut p, t, &mut left, &mut ask);
            if left > 0 {
                let at = p.stream_position().unwrap_or(u64::MAX);
                let end = starts[i] + lens[i];
                ensure!(!matches!(r, Ok(true)) || at == end as u64, "after {trail}the value at {} ends at {at}, expected {end}", starts[i]);
            }
            (format!("{} calls of {t:?}", fuel - left), r)
        };
        match &r {
            Ok(end) => {
                c.nontrivial |= !end || foreign;
                c.label(if foreign { "foreign bytes accepted" } else if *end { "read to its end" } else { "left in the middle" });
                trail.push_str(&format!("{label} at {at}; "));
            }
            Err(e) => {
                // a protocol that answered an error is to be given up
                ensure!(foreign, "after {trail}{label} of the value at {at} fails with {:?}; bytes {}", sig(e), hx(&data));
                c.label("given up");
                return Ok(());
            }
        }
        // then a value
        let i = s.below(n);
        let to = goto(s, &mut p, starts[i], data.len());
        ensure!(to == starts[i] as u64, "seek to {} answers {to}", starts[i]);
        let m = s.draw(4);
        let r = step(&mut p, &ops[i], m, &model[i]).map_err(|e| sig(&e));
        ensure!(r.as_ref() == Ok(&model[i]), "after {trail}the value at {} reads as {r:?}, expected {:?}; bytes {}", starts[i], model[i], hx(&data));
        c.oracle_calls += 1;
    }
    Ok(())
}

fn encode_into(v: &TV, out: &mut Vec<u8>) {
    encode(v, out, &mut Canonical)
}

/// read one operation typed (0), generically (1) or by skipping (2); a skip answers the model
fn step(p: &mut SyncIn<'_>, o: &Op, mode: u64, model: &TV) -> Result<TV> {
    Ok(match o {
        Op::Message(m) => TV::Bool(p.read_message_begin()? == *m),
        Op::Typed(root, _) if mode == 0 => (root.read)(p)?.tv(),
        _ => {
            let t = wire_type(o, model);
            if mode == 2 {
                p.skip(tt_to_ttype(t))?;
                model.clone()
            } else {
                as_texts(mode == 3 && textual(model), || read_value(p, t))?
            }
        }
    })
}
async fn step_async(p: &mut AsyncIn<'_>, o: &Op, mode: u64, model: &TV) -> Result<TV> {
    Ok(match o {
        Op::Message(m) => TV::Bool(p.read_message_begin().await? == *m),
        Op::Typed(root, _) if mode == 0 => (root.read_async)(p).await?.tv(),
        _ => {
            let t = wire_type(o, model);
            if mode == 2 {
                p.skip(tt_to_ttype(t)).await?;
                model.clone()
            } else {
                let _on = reading_texts(mode == 3 && textual(model));
                read_value_async(p, t).await?
            }
        }
    })
}
fn wire_type(o: &Op, model: &TV) -> TT {
    match o {
        Op::Struct(_) => TT::Struct,
        _ => model.tt(),
    }
}
