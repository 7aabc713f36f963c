//! Arbitrary and hostile bytes: agreement of the two readers, termination, memory, normal form,
//! agreement with the reference decoder.
use crate::counting::Counting;
use crate::engine::*;
use crate::generic::*;
use crate::hostile::*;
use crate::io::*;
use crate::model::*;
use crate::schema::*;
use crate::util::*;
use crate::{alloc, ensure, fail};
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::thrift::Error;

pub fn props() -> Vec<Prop> {
    let p = |id, run: PropFn, quick, thorough, rule| Prop { id, run, quick, thorough, rule };
    vec![
        p("C04", c04, 1_500_000, 37_500_000, "one byte string (valid, wrongly structured, damaged, foreign, deeply nested or arbitrary) and a size limit, read as a random Parquet type, as generic values, as a message and skipped, by both APIs; non-trivial: the readers got past the first two bytes or accepted"),
        p("C06", c06, 700_000, 17_500_000, "as C04's byte strings, driven through every reading entry point and through random balanced call sequences; non-trivial: the reader got past the first two bytes"),
        p("C07", c07, 300_000, 7_500_000, "hostile byte strings, half of them with an inflated collection count or payload length, read under size limits from 16 bytes to unlimited, with the peak of allocated memory measured; non-trivial: the reader allocated"),
        p("C23", c23, 1_000_000, 25_000_000, "one byte string as in C04; non-trivial: the crate accepts it as a value of the type"),
        p("C26", c26, 2_400_000, 60_000_000, "one byte string as in C04, decoded by the crate and by the reference decoder with the Parquet schema; non-trivial: the reference decoder finds the bytes well formed"),
    ]
}

fn case(s: &mut Source, c: &mut Ctx) -> (&'static Root, Vec<u8>) {
    let root = pick_struct(s);
    let (b, family) = hostile(s, root);
    c.label(family);
    c.hash = mix(&[hash_bytes(root.name.as_bytes()), hash_bytes(&b)]);
    c.sample(|| format!("{} ({family}): {}", root.name, hex(&b)));
    (root, b)
}

fn c04(s: &mut Source, c: &mut Ctx) -> R {
    let (root, b) = case(s, c);
    let lim = budget(s);
    let (x, xp) = read(root, &b, lim, false);
    let (y, yp) = read(root, &b, lim, true);
    c.nontrivial = x.is_ok() || xp > 2;
    c.label_if(x.is_ok(), "accepted");
    same_outcome(&format!("{} with limit {lim}: sync and async readers disagree", root.name), &x, xp, &y, yp, &b)?;
    let (z, zp) = read_boxed(root, &b, lim);
    same_outcome(&format!("{} with limit {lim}: plain and boxed readers disagree", root.name), &x, xp, &z, zp, &b)?;
    c.oracle_calls += 2;
    if b.len() < 3000 {
        let t = ALL_TT[s.below(ALL_TT.len())];
        let lim = if lim == usize::MAX { 1 << 24 } else { lim };
        let (x, xp) = read_generic(&b, t, lim, false);
        let (y, yp) = read_generic(&b, t, lim, true);
        ensure!(agree(&x, xp, &y, yp), "generic {t:?} with limit {lim}: sync {x:?} after {xp}, async {y:?} after {yp}; input {}", hx(&b));
        let d = match s.below(3) {
            0 => None,
            1 => Some(s.range(0, 6) as i8),
            _ => Some(s.range(-128, 127) as i8),
        };
        let (x, xp) = skip_generic(&b, t, lim, d, false);
        let (y, yp) = skip_generic(&b, t, lim, d, true);
        ensure!(agree(&x, xp, &y, yp), "skip {t:?} to depth {d:?} with limit {lim}: sync {x:?} after {xp}, async {y:?} after {yp}; input {}", hx(&b));
        let mut m = vec![0x82];
        if s.chance(1, 8) {
            m[0] = s.byte();
        }
        m.push(if s.chance(1, 8) { s.byte() } else { 1 | (s.below(6) as u8) << 5 });
        m.extend_from_slice(&b[..b.len().min(40)]);
        let mut r1 = Reader::new(&m);
        let x = TCompactInputProtocol::new(&mut r1, lim).read_message_begin().map_err(|e| sig(&e));
        let mut r2 = Reader::new(&m);
        let y = block_on(async { TCompactInputStreamProtocol::new(&mut r2, lim).read_message_begin().await.map_err(|e| sig(&e)) });
        ensure!(agree(&x, r1.pos, &y, r2.pos), "message: sync {x:?}, async {y:?}; input {}", hx(&m));
        c.oracle_calls += 3;
    }
    Ok(())
}

/// An unknown field nested deeper than any stack is: a few bytes over and over.
fn bottomless(s: &mut Source) -> Vec<u8> {
    // each continues the nesting in a list or set of one, a map of one pair, a struct's field
    const LEVELS: [&[u8]; 8] = [&[0x19], &[0x1a], &[0x1c, 0x19], &[0x1c, 0x1c], &[0x1b, 0x01, 0xbb], &[0x29], &[0xf9, 0x01], &[0x1c]];
    let field = s.below(5);
    let mut b = vec![[0xf9, 0xfa, 0xfb, 0xfc, 0xf9][field]];
    // what the level before announced: a list, a set, a map or a struct
    let mut unit = vec![];
    if s.bool() {
        // one and the same level
        unit.extend_from_slice([&[0x19][..], &[0x1a], &[0x01, 0xbb], &[0x1c], &[0x19]][field]);
    }
    let k = if unit.is_empty() { 1 + s.below(2) } else { 0 };
    for _ in 0..k {
        unit.extend_from_slice(match field {
            3 => s.pick(&[&[0x1c][..], &[0x1c, 0x1c]]),
            2 => s.pick(&[&[0x01, 0xbb][..], &[0x01, 0x3b, 0x00]]),
            1 => s.pick(&[&[0x1a][..], &[0xfa, 0x01]]),
            _ => s.pick(&LEVELS[..]),
        });
    }
    let n = 150_000 + s.below(250_000);
    while b.len() < n {
        b.extend_from_slice(&unit);
    }
    b
}

/// The bound on all that is ever allocated in one read, several times what is needed. A read that
/// fails may have reserved for a value that never came, once.
fn most(lim: usize, b: &[u8], ok: bool) -> usize {
    2048 * b.len() + (64 << 10) + if ok { 0 } else { 3 * lim.min(256 << 20) }
}

fn c06(s: &mut Source, c: &mut Ctx) -> R {
    let (root, b) = if s.chance(1, 2000) {
        let b = bottomless(s);
        c.label("bottomless");
        c.note(&b);
        (pick_struct(s), b)
    } else {
        case(s, c)
    };
    let lim = budget(s);
    // typed readers; every protocol call is counted
    let limit = 200 + 24 * b.len();
    let mut rd = Reader::new(&b);
    let ok;
    {
        let inner: SyncIn = TCompactInputProtocol::new(&mut rd as &mut dyn RS, lim);
        let mut p = Counting { inner, calls: 0, limit };
        let v;
        (ok, v) = alloc::volume(|| (root.read_counting)(&mut p).is_ok());
        // (a reservation can be as large as the limit, once)
        let most = most(lim, &b, ok);
        ensure!(v <= most, "{}: {v} bytes allocated in total for {} bytes of input; input {}", root.name, b.len(), hx(&b));
    }
    c.nontrivial = rd.pos > 2;
    c.label_if(ok, "accepted");
    ensure!(rd.calls <= 400 + 48 * b.len(), "{} source reads for {} bytes; input {}", rd.calls, b.len(), hx(&b));
    let mut rd = Reader::new(&b);
    let (k, v) = alloc::volume(|| read_from(root, &mut rd, lim, true).is_ok());
    let most = most(lim, &b, k);
    ensure!(v <= most, "{}, async: {v} bytes allocated in total for {} bytes of input; input {}", root.name, b.len(), hx(&b));
    ensure!(rd.calls <= 400 + 48 * b.len(), "async: {} source reads for {} bytes; input {}", rd.calls, b.len(), hx(&b));
    c.oracle_calls += 2;
    // skipping any type
    let t = ALL_TT[s.below(ALL_TT.len())];
    {
        let mut rd = Reader::new(&b);
        let mut p = Counting { inner: TCompactInputProtocol::new(&mut rd, lim), calls: 0, limit };
        let _ = p.skip(tt_to_ttype(t));
        ensure!(rd.calls <= 400 + 48 * b.len(), "skip {t:?}: {} source reads for {} bytes; input {}", rd.calls, b.len(), hx(&b));
        let mut rd = Reader::new(&b);
        let _ = run_from(&mut rd, What::Skip(t, None), lim, true);
        ensure!(rd.calls <= 400 + 48 * b.len(), "async: skip {t:?}: {} source reads for {} bytes; input {}", rd.calls, b.len(), hx(&b));
    }
    // the application error decoder
    {
        let mut rd = Reader::new(&b);
        let mut p = Counting { inner: TCompactInputProtocol::new(&mut rd, lim), calls: 0, limit };
        let _ = Error::read_application_error_from_in_protocol(&mut p);
    }
    // a random balanced sequence of primitive reads; errors are ignored on purpose
    let n = s.below(30);
    let mut p = TCompactInputProtocol::new(Reader::new(&b), lim);
    let mut q = TCompactInputStreamProtocol::new(Reader::new(&b), lim);
    let mut depth = 0;
    for _ in 0..n {
        let op = s.below(19);
        match op {
            0 => {
                depth += p.read_struct_begin().is_ok() as usize;
                let _ = block_on(q.read_struct_begin());
            }
            1 if depth > 0 => {
                // both were entered the same number of times unless their limits differ
                depth -= 1;
                let _ = p.read_struct_end();
            }
            2 => drop((p.read_field_begin(), block_on(q.read_field_begin()))),
            3 => drop((p.read_bool(), block_on(q.read_bool()))),
            4 => drop((p.read_bytes(), block_on(q.read_bytes()))),
            5 => drop((p.read_i8(), block_on(q.read_i8()))),
            6 => drop((p.read_i16(), block_on(q.read_i16()))),
            7 => drop((p.read_i32(), block_on(q.read_i32()))),
            8 => drop((p.read_i64(), block_on(q.read_i64()))),
            9 => drop((p.read_double(), block_on(q.read_double()))),
            10 => drop((p.read_string(), block_on(q.read_string()))),
            11 => drop((p.read_list_begin(), block_on(q.read_list_begin()))),
            12 => drop((p.read_set_begin(), block_on(q.read_set_begin()))),
            13 => drop((p.read_map_begin(), block_on(q.read_map_begin()))),
            14 => drop((p.read_byte(), block_on(q.read_byte()))),
            15 => drop((p.read_message_begin(), block_on(q.read_message_begin()))),
            16 => {
                let all = [
                    TType::Stop, TType::Void, TType::Bool, TType::I08, TType::Double, TType::I16, TType::I32, TType::I64,
                    TType::String, TType::Utf7, TType::Struct, TType::Map, TType::Set, TType::List, TType::Utf8, TType::Utf16,
                ];
                let t = all[s.below(all.len())];
                let d = s.range(-128, 127) as i8;
                drop((p.skip_till_depth(t, d), block_on(q.skip_till_depth(t, d))));
            }
            17 => drop((p.read_list::<Statistics_>(), block_on(q.read_list::<Statistics_>()))),
            _ => drop((p.read_list::<bool>(), block_on(q.read_list::<i64>()))),
        }
    }
    c.oracle_calls += 3;
    Ok(())
}
use parquet_format_safe::Statistics as Statistics_;

/// Bytes whose outermost structure promises far more than follows.
fn inflated(s: &mut Source, root: &'static Root, lim: usize) -> Vec<u8> {
    fn paths(sc: &Schema, depth: usize, at: &mut Vec<(i16, bool)>, out: &mut Vec<(Vec<(i16, bool)>, FT)>) {
        for f in &sc.fields {
            let (is_list, inner) = match f.ft {
                FT::List(e) => (true, Some(*e)),
                x => (false, Some(x)),
            };
            at.push((f.id, is_list));
            if is_list || matches!(f.ft, FT::Str | FT::Bin) {
                out.push((at.clone(), f.ft));
            }
            if depth > 0 {
                if let Some(FT::Struct(g)) = inner {
                    paths(g(), depth - 1, at, out);
                }
            }
            at.pop();
        }
    }
    let Some(sc) = root.schema() else { return vec![] };
    let mut all = vec![];
    paths(sc, 3, &mut vec![], &mut all);
    let mut b = vec![];
    if all.is_empty() {
        return b;
    }
    let (path, ft) = all[s.below(all.len())].clone();
    for (i, (id, is_list)) in path.iter().enumerate() {
        let end = i + 1 == path.len();
        let code = if *is_list { 9 } else if end { 8 } else { 12 };
        put_field_header(&mut b, 0, *id, code, false);
        if *is_list && !end {
            // a list of one struct
            b.push(0x1c);
        }
    }
    let count = match s.weighted(&[4, 2, 2]) {
        0 => (lim / 8).min(u32::MAX as usize) as u64,
        1 => lim.min(u32::MAX as usize) as u64,
        _ => s.pick(&[u32::MAX as u64, 1 << 31, 1 << 24, 1 << 20, 1 << 16]),
    };
    let code = match ft {
        FT::List(e) => match e {
            FT::Bool => 1,
            FT::I8 => 3,
            FT::I16 => 4,
            FT::I32 => 5,
            FT::I64 => 6,
            FT::Str | FT::Bin => 8,
            FT::List(_) => 9,
            FT::Struct(_) => 12,
        },
        _ => 0,
    };
    if code > 0 {
        b.push(0xf0 | code);
    }
    put_varint(&mut b, count);
    let n = s.below(40);
    for _ in 0..n {
        b.push(s.pick(&[0, 0, 1, 2, 5, 0x15, 0x18]));
    }
    b
}

fn c07(s: &mut Source, c: &mut Ctx) -> R {
    let lim = match s.weighted(&[3, 3, 3, 2, 1, 1]) {
        0 => s.below(2000),
        1 => s.below(1 << 16),
        2 => s.below(1 << 20),
        3 => s.below(1 << 24),
        4 => s.below(1 << 26),
        _ => usize::MAX,
    };
    let root = pick_struct(s);
    let b = if s.bool() {
        c.label("inflated count");
        inflated(s, root, lim)
    } else {
        let (b, f) = hostile(s, root);
        c.label(f);
        b
    };
    c.hash = mix(&[hash_bytes(root.name.as_bytes()), hash_bytes(&b), lim as u64]);
    c.sample(|| format!("{} limit {lim}: {}", root.name, hex(&b)));
    c.label_if(lim == usize::MAX, "no limit");
    let bound = lim.saturating_mul(3).saturating_add(2048 * b.len()).saturating_add(64 << 10);
    for asyn in [false, true] {
        let mut rd = Reader::new(&b);
        let (o, peak) = alloc::measure(|| read_from(root, &mut rd, lim, asyn));
        c.nontrivial |= peak > 0;
        ensure!(
            peak <= bound,
            "{} (async {asyn}): {peak} bytes allocated at once for {} bytes of input under a limit of {lim} ({}); input {}",
            root.name,
            b.len(),
            show(&o),
            hx(&b)
        );
        let t = ALL_TT[s.below(ALL_TT.len())];
        let (_, peak) = alloc::measure(|| skip_generic(&b, t, lim, None, asyn));
        ensure!(peak <= bound, "skip {t:?} (async {asyn}): {peak} bytes allocated at once for {} bytes of input under a limit of {lim}; input {}", b.len(), hx(&b));
        c.oracle_calls += 2;
    }
    // at the protocol level: envelopes, exceptions, strings and collections that declare too much
    let mut m = vec![];
    let what = match s.below(5) {
        0 => {
            m.extend([0x82, 1 | 1 << 5, s.byte() & 0x7f]);
            What::Message
        }
        1 => {
            m.push(s.pick(&[0x18, 0x28, 0x38, 0x39, 0x3b]));
            What::Exception
        }
        2 => What::Value(TT::Bin),
        3 => {
            let t = s.pick(&[TT::List, TT::Set]);
            m.push(0xf0 | s.pick(&[1, 3, 5, 7, 8, 9, 11, 12]));
            if s.bool() { What::Value(t) } else { What::Skip(t, None) }
        }
        _ => {
            if s.bool() { What::Value(TT::Map) } else { What::Skip(TT::Map, None) }
        }
    };
    put_varint(&mut m, s.pick(&[lim as u64, (lim / 8) as u64, (lim / 16) as u64, u32::MAX as u64, 1 << 31, 1 << 24, 1 << 18]).min(u32::MAX as u64));
    m.extend_from_slice(&b[..b.len().min(60)]);
    // this harness's own generic values take up to 100 bytes per byte of input
    let bound = lim.saturating_mul(3).saturating_add(2048 * m.len()).saturating_add(64 << 10);
    for asyn in [false, true] {
        let mut rd = Reader::new(&m);
        let (o, peak) = alloc::measure(|| run_from(&mut rd, what, lim, asyn));
        ensure!(peak <= bound, "{what:?} (async {asyn}): {peak} bytes allocated at once for {} bytes of input under a limit of {lim} ({o:?}); input {}", m.len(), hx(&m));
        c.oracle_calls += 1;
    }
    Ok(())
}

fn c23(s: &mut Source, c: &mut Ctx) -> R {
    let (root, b) = case(s, c);
    let asyn = s.bool();
    let (x, xp) = read(root, &b, usize::MAX, asyn);
    let (again, ap) = read(root, &b, usize::MAX, asyn);
    same_outcome("reading the same bytes twice", &x, xp, &again, ap, &b)?;
    let Ok(v) = x else { return Ok(()) };
    c.nontrivial = true;
    let want = v.tv();
    let (b1, _) = write(&*v, asyn)?;
    let (y, yp) = read(root, &b1, usize::MAX, asyn);
    expect_ok("reading the re-encoded value", &y, yp, &want, b1.len(), &b)?;
    let (b2, _) = write(&**y.as_ref().unwrap(), !asyn)?;
    ensure!(b1 == b2, "{}: the normal form is not stable: {} / {}; input {}", root.name, hx(&b1), hx(&b2), hx(&b));
    // only what was consumed matters
    let (z, zp) = read(root, &b[..xp], usize::MAX, asyn);
    expect_ok("reading only the consumed bytes", &z, zp, &want, xp, &b)?;
    c.oracle_calls += 4;
    Ok(())
}

fn c26(s: &mut Source, c: &mut Ctx) -> R {
    let (root, b) = case(s, c);
    let Ok((wire, n)) = decode_struct(&b) else { return Ok(()) };
    if wire.depth() > 60 {
        return Ok(());
    }
    let want = (root.from_tv)(&wire);
    if matches!(want, Err(Rej::Type)) {
        return Ok(());
    }
    c.nontrivial = true;
    c.label(if want.is_ok() { "valid value" } else { "invalid value" });
    for asyn in [false, true] {
        let (o, pos) = read(root, &b, usize::MAX, asyn);
        match &want {
            Ok(w) => expect_ok("reference decoder accepts", &o, pos, &w.tv(), n, &b)?,
            Err(r) => {
                if let Ok(v) = &o {
                    fail!("{}: reference decoder rejects ({r:?}), the crate reads {}; input {}", root.name, cut(&v.dbg(), 300), hx(&b));
                }
            }
        }
        c.oracle_calls += 1;
    }
    Ok(())
}
