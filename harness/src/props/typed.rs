//! Values of the Parquet types: round trips, conformance, tolerated encodings, rejections, budget.
use crate::engine::*;
use crate::gen::{self, G};
use crate::generic::*;
use crate::hostile::*;
use crate::io::*;
use crate::model::*;
use crate::schema::*;
use crate::util::*;
use crate::{ensure, fail};
use parquet_format_safe::thrift::protocol::*;

pub fn props() -> Vec<Prop> {
    let p = |id, run: PropFn, quick, thorough, rule| Prop { id, run, quick, thorough, rule };
    vec![
        p("C01", c01, 800_000, 20_000_000, "one random value of a random Parquet type (all 49 types, sizes from empty to lists of 66,000 elements), written and read back with the synchronous API, plain and boxed; non-trivial: the value has at least 4 encoded bytes"),
        p("C02", c02, 200_000, 5_000_000, "as C01 with the asynchronous API, over a transport that splits the bytes at random points and interleaves pending answers; non-trivial: at least 4 encoded bytes"),
        p("C03", c03, 1_000_000, 25_000_000, "one random value written by the synchronous, boxed and asynchronous writers; non-trivial: at least 4 encoded bytes"),
        p("C09", c09, 800_000, 20_000_000, "one random value written by the crate and decoded by the reference decoder of the compact protocol; non-trivial: at least 4 encoded bytes"),
        p("C10", c10, 1_000_000, 25_000_000, "one random value encoded by the reference encoder with permuted fields and randomly chosen alternative encodings; non-trivial: at least one permutation or alternative encoding was used"),
        p("C11", c11, 1_200_000, 30_000_000, "one random value with unknown fields of every wire type (nested up to 64 levels) inserted at random places of its structs; non-trivial: at least one unknown field"),
        p("C12", c12, 3_000_000, 75_000_000, "one random value made invalid at one random place (required field dropped, union with no, two or an unknown member, string that is not UTF-8); non-trivial: the place exists"),
        p("C13", c13, 240_000, 6_000_000, "one random value and one protocol-level input (generic value, skip, message, exception), encoded, cut at up to 40 places (all of them when short); non-trivial: at least 4 cuts"),
        p("C08", c08, 250_000, 6_250_000, "a history of one to three values (some with unknown fields) read from one reader at the smallest sufficient size limit (found by search), one below it and at random limits, and one declared length or count over a limit; non-trivial: the footprint is above 8 bytes"),
        p("C25", c25, 2_000_000, 50_000_000, "one random value rebuilt from its own parts through the type's constructor; non-trivial: the type has a constructor with at least one argument"),
    ]
}

fn value(s: &mut Source, c: &mut Ctx) -> (&'static Root, BV) {
    let (root, mut g) = if s.chance(1, 300) { G::spotted(s) } else { (pick_root(s), G::new(s)) };
    let v = (root.gen)(s, &mut g);
    c.sample(|| format!("{}: {}", root.name, v.dbg()));
    (root, v)
}

fn about(c: &mut Ctx, root: &Root, b: &[u8]) {
    c.nontrivial = b.len() >= 4;
    c.hash = mix(&[hash_bytes(root.name.as_bytes()), hash_bytes(b)]);
    c.label(root.name);
    c.label_if(b.len() > 1000, "over 1000 bytes");
    c.label_if(b.len() > 60_000, "over 60000 bytes");
}

fn c01(s: &mut Source, c: &mut Ctx) -> R {
    let (root, v) = value(s, c);
    let want = v.tv();
    let (b, _) = write(&*v, false)?;
    about(c, root, &b);
    let (o, pos) = read(root, &b, usize::MAX, false);
    expect_ok("sync round trip", &o, pos, &want, b.len(), &b)?;
    ensure!(v.eq_any(&**o.as_ref().unwrap()), "sync round trip: {} != {}", show(&o), cut(&v.dbg(), 300));
    let (o, pos) = read_boxed(root, &b, usize::MAX);
    expect_ok("sync round trip through a boxed protocol", &o, pos, &want, b.len(), &b)?;
    let (b2, _) = write_dyn(&*v)?;
    let (o, pos) = read(root, &b2, usize::MAX, false);
    expect_ok("round trip of bytes written through a boxed protocol", &o, pos, &want, b2.len(), &b2)?;
    c.oracle_calls += 3;
    Ok(())
}

fn c02(s: &mut Source, c: &mut Ctx) -> R {
    let (root, v) = value(s, c);
    let want = v.tv();
    let mut w = Writer::planned(plan(s, true));
    let r = write_to(&*v, &mut w, true);
    ensure!(r.is_ok(), "async write failed: {r:?}");
    let b = w.out;
    about(c, root, &b);
    c.label_if(w.stalls > 0, "write was pending");
    let mut rd = Reader::planned(&b, plan(s, true));
    let o = read_from(root, &mut rd, usize::MAX, true);
    c.label_if(rd.stalls > 0, "read was pending");
    expect_ok("async round trip", &o, rd.pos, &want, b.len(), &b)?;
    ensure!(v.eq_any(&**o.as_ref().unwrap()), "async round trip: {} != {}", show(&o), cut(&v.dbg(), 300));
    c.oracle_calls += 1;
    Ok(())
}

fn c03(s: &mut Source, c: &mut Ctx) -> R {
    let (root, v) = value(s, c);
    let (a, an) = write(&*v, false)?;
    about(c, root, &a);
    let (b, bn) = write(&*v, true)?;
    ensure!(a == b, "{}: sync and async writers differ: {} / {}; value {}", root.name, hx(&a), hx(&b), cut(&v.dbg(), 300));
    ensure!(an == bn, "{}: sync writer reports {an}, async writer {bn}; value {}", root.name, cut(&v.dbg(), 300));
    let (d, dn) = write_dyn(&*v)?;
    ensure!(a == d && an == dn, "{}: boxed writer differs: {} / {}", root.name, hx(&a), hx(&d));
    let (a2, _) = write(&*v, false)?;
    ensure!(a == a2, "{}: writing twice gives different bytes", root.name);
    c.oracle_calls += 4;
    Ok(())
}

fn c09(s: &mut Source, c: &mut Ctx) -> R {
    let (root, v) = value(s, c);
    let want = v.tv();
    for asyn in [false, true] {
        let (b, _) = write(&*v, asyn)?;
        about(c, root, &b);
        let mut d = Dec::new(&b);
        match d.value(want.tt()) {
            Ok(got) => {
                ensure!(got.sorted() == want.norm().sorted(), "{}: the bytes decode to {got:?}, the value is {want:?}; bytes {}", root.name, hx(&b));
                ensure!(d.pos == b.len(), "{}: {} bytes written, the value ends after {}; {}", root.name, b.len(), d.pos, hx(&b));
            }
            Err(e) => fail!("{}: bytes are not compact protocol ({e} at {}): {}", root.name, d.pos, hx(&b)),
        }
        c.oracle_calls += 1;
    }
    Ok(())
}

fn c10(s: &mut Source, c: &mut Ctx) -> R {
    let (root, v) = value(s, c);
    let want = v.tv();
    let mut wire = want.clone();
    let p = permute(s, &mut wire, (root.ft)());
    let mut b = vec![];
    let rate = s.weighted(&[1, 3, 2, 2]) as u64;
    let mut st = Drawn { src: s, rate, used: 0 };
    encode(&wire, &mut b, &mut st);
    let odd = st.used;
    about(c, root, &b);
    c.nontrivial = p > 0 || odd > 0;
    c.label_if(p > 0, "fields permuted");
    c.label_if(odd > 0, "alternative encodings");
    for asyn in [false, true] {
        let (o, pos) = read(root, &b, usize::MAX, asyn);
        expect_ok("reading an alternative encoding", &o, pos, &want, b.len(), &b)?;
        c.oracle_calls += 1;
    }
    Ok(())
}

fn c11(s: &mut Source, c: &mut Ctx) -> R {
    let root = pick_struct(s);
    let mut g = G::of(s, root, 5, 300);
    let v = (root.gen)(s, &mut g);
    let want = v.tv();
    let mut wire = want.clone();
    let rate = 1 + s.below(8) as u64;
    let n = inject_unknown(s, &mut wire, (root.ft)(), rate);
    let b = encode_canonical(&wire);
    c.sample(|| format!("{}: {wire:?}", root.name));
    about(c, root, &b);
    c.nontrivial = n > 0;
    c.label_if(n > 1, "several unknown fields");
    for asyn in [false, true] {
        let (o, pos) = read(root, &b, usize::MAX, asyn);
        expect_ok("reading with unknown fields", &o, pos, &want, b.len(), &b)?;
        c.oracle_calls += 1;
    }
    Ok(())
}

fn c12(s: &mut Source, c: &mut Ctx) -> R {
    let root = pick_struct(s);
    let mut g = G::small(s);
    g.density = g.density.max(2);
    let v = (root.gen)(s, &mut g);
    let mut wire = v.tv();
    let ft = (root.ft)();
    let kind = s.below(3);
    let mut sites = 0usize;
    match kind {
        0 => for_structs(&mut wire, ft, &mut |fs, sc| sites += sc.fields.iter().filter(|d| d.req && fs.iter().any(|x| x.0 == d.id)).count()),
        1 => for_structs(&mut wire, ft, &mut |_, sc| sites += sc.union as usize),
        _ => for_strings(&mut wire, ft, &mut |_| sites += 1),
    }
    if sites == 0 {
        c.label("no place for this defect");
        return Ok(());
    }
    let at = s.below(sites);
    let mut k = 0usize;
    match kind {
        0 => for_structs(&mut wire, ft, &mut |fs, sc| {
            for d in sc.fields.iter().filter(|d| d.req) {
                if let Some(i) = fs.iter().position(|x| x.0 == d.id) {
                    if k == at {
                        fs.remove(i);
                        k += 1;
                        return;
                    }
                    k += 1;
                }
            }
        }),
        1 => for_structs(&mut wire, ft, &mut |fs, sc| {
            if sc.union {
                if k == at {
                    match s.below(5) {
                        4 => {
                            let d = &sc.fields[s.below(sc.fields.len())];
                            let mut g = G { fuel: 20, density: 1, big: false, spot: None, at: ("", 0), seen: Default::default() };
                            let x = typed(s, &mut g, d.ft);
                            let at = s.below(2);
                            fs.insert(at, (d.id, x));
                        }
                        0 => fs.clear(),
                        1 => fs[0].0 = 100,
                        2 => {
                            let x = fs[0].clone();
                            fs.push(x);
                        }
                        _ => {
                            let i = s.below(2);
                            fs.insert(i, (100, TV::Struct(vec![])));
                        }
                    }
                }
                k += 1;
            }
        }),
        _ => {
            let bad: &[&[u8]] = &[b"\x80", b"\xff", b"\xc0\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xe2\x82", b"\xf0\x9f\x98", b"\xc3("];
            let bad = s.pick(bad);
            for_strings(&mut wire, ft, &mut |b| {
                if k == at {
                    if s.bool() {
                        b.extend_from_slice(bad);
                    } else {
                        b.splice(0..0, bad.iter().copied());
                    }
                    // a multi-byte character could not swallow the defect: `bad` is complete on its left
                    if std::str::from_utf8(b).is_ok() {
                        b.push(0xff);
                    }
                }
                k += 1;
            });
        }
    }
    // the reference agrees that it is invalid, and why
    let rej = match (root.from_tv)(&wire) {
        Err(r) => r,
        Ok(_) => fail!("harness: the defect did not make the value invalid: {wire:?}"),
    };
    let b = encode_canonical(&wire);
    about(c, root, &b);
    c.nontrivial = true;
    c.sample(|| format!("{} {rej:?}: {wire:?}", root.name));
    c.label(match rej {
        Rej::Missing => "required field missing",
        Rej::Union => "union without exactly one known member",
        Rej::Utf8 => "string not UTF-8",
        Rej::Type => "type",
    });
    for asyn in [false, true] {
        let (o, _) = read(root, &b, usize::MAX, asyn);
        match &o {
            Err(Sig::P(k)) => {
                if rej == Rej::Utf8 {
                    ensure!(Sig::P(*k) == INVALID, "text that is not UTF-8 rejected with {k:?}, not as bad data; input {}", hx(&b));
                }
            }
            _ => fail!("{} ({rej:?}) should be rejected as a protocol error, got {}; input {}", root.name, show(&o), hx(&b)),
        }
        c.oracle_calls += 1;
    }
    Ok(())
}

fn c13(s: &mut Source, c: &mut Ctx) -> R {
    let (root, v) = {
        let root = pick_root(s);
        let mut g = G::of(s, root, 8, 1000);
        (root, (root.gen)(s, &mut g))
    };
    let mut wire = v.tv();
    if s.bool() {
        inject_unknown(s, &mut wire, (root.ft)(), 3);
    }
    let mut b = vec![];
    let rate = s.below(3) as u64;
    encode(&wire, &mut b, &mut Drawn { src: s, rate, used: 0 });
    about(c, root, &b);
    let cuts: Vec<usize> = if b.len() <= 40 { (0..b.len()).collect() } else { (0..40).map(|_| s.below(b.len())).collect() };
    c.nontrivial = cuts.len() >= 4;
    c.sample(|| format!("{} cut at {cuts:?}: {}", root.name, hx(&b)));
    for k in cuts {
        for asyn in [false, true] {
            let (o, _) = read(root, &b[..k], usize::MAX, asyn);
            ensure!(
                matches!(o, Err(EOF)),
                "{} (async {asyn}): the first {k} of {} bytes should be rejected as end of file, got {}; input {}",
                root.name,
                b.len(),
                show(&o),
                hx(&b)
            );
            c.oracle_calls += 1;
        }
    }
    // at the protocol level
    let (what, b) = some_bytes(s);
    for i in 0..b.len().min(12) {
        let k = if b.len() <= 12 { i } else { s.below(b.len()) };
        for asyn in [false, true] {
            let mut rd = Reader::new(&b[..k]);
            let r = run_from(&mut rd, what, usize::MAX, asyn);
            ensure!(r == Err(EOF), "{what:?} (async {asyn}): the first {k} of {} bytes should be rejected as end of file, got {r:?}; input {}", b.len(), hx(&b));
            c.oracle_calls += 1;
        }
    }
    Ok(())
}

/// Read the whole history from one protocol; Ok(true) when it all fits in the limit.
/// How a value of a history is taken from its bytes.
#[derive(Clone, Copy)]
enum Take {
    Typed(&'static Root),
    Calls(TT),
    Skip(TT),
}

fn history_fits(vals: &[(Take, TV)], b: &[u8], budget: usize, asyn: bool) -> R<bool> {
    let mut rd = Reader::new(b);
    let mut outs: Vec<Result<TV, Sig>> = vec![];
    let texts = b.len() % 2 == 0;
    if asyn {
        let mut p: AsyncIn = TCompactInputStreamProtocol::new(&mut rd as &mut dyn AR, budget);
        for (t, want) in vals {
            outs.push(
                match t {
                    Take::Typed(r) => block_on((r.read_async)(&mut p)).map(|v| v.tv()),
                    Take::Calls(t) => as_texts(texts && textual(want), || block_on(read_value_async(&mut p, *t))),
                    Take::Skip(t) => block_on(p.skip(tt_to_ttype(*t))).map(|_| want.clone()),
                }
                .map_err(|e| sig(&e)),
            );
            if outs.last().unwrap().is_err() {
                break;
            }
        }
    } else {
        let mut p: SyncIn = TCompactInputProtocol::new(&mut rd as &mut dyn RS, budget);
        for (t, want) in vals {
            outs.push(
                match t {
                    Take::Typed(r) => (r.read)(&mut p).map(|v| v.tv()),
                    Take::Calls(t) => as_texts(texts && textual(want), || read_value(&mut p, *t)),
                    Take::Skip(t) => p.skip(tt_to_ttype(*t)).map(|_| want.clone()),
                }
                .map_err(|e| sig(&e)),
            );
            if outs.last().unwrap().is_err() {
                break;
            }
        }
    }
    for (o, (_, want)) in outs.iter().zip(vals) {
        match o {
            Ok(v) => ensure!(v == want, "limit {budget}: wrong value {v:?} for {want:?}"),
            Err(e) => {
                ensure!(*e == SIZE, "limit {budget}: rejected with {e:?}, not as exceeding the size limit; input {}", hx(b));
                return Ok(false);
            }
        }
    }
    Ok(true)
}

fn c08(s: &mut Source, c: &mut Ctx) -> R {
    let n = 1 + s.weighted(&[5, 2, 1]);
    let mut vals = vec![];
    let mut b = vec![];
    let (mut payload, mut elems, mut structs) = (0, 0, 0);
    for _ in 0..n {
        let (take, want, wire) = if s.chance(3, 4) {
            let root = pick_root(s);
            let mut g = G::of(s, root, 6, 4000);
            let v = (root.gen)(s, &mut g);
            let want = v.tv();
            let mut wire = want.clone();
            if s.chance(1, 3) {
                inject_unknown(s, &mut wire, (root.ft)(), 3);
            }
            (Take::Typed(root), want, wire)
        } else {
            // any Thrift value, read call by call or skipped
            let wire = if s.chance(1, 4) {
                let d = 2 + s.below(60);
                c.label("deep");
                gen::spine(s, d)
            } else {
                let t = gen::elem_tt(s, 5);
                let mut g = G::small(s);
                gen::tv(s, &mut g, t, 5)
            };
            let t = wire.tt();
            (if s.bool() { Take::Calls(t) } else { Take::Skip(t) }, wire.norm(), wire)
        };
        let (p, e, t) = wire.footprint();
        payload += p;
        elems += e;
        structs += t;
        encode(&wire, &mut b, &mut Canonical);
        vals.push((take, want));
    }
    let lo = payload + 8 * elems;
    let hi = lo + 2 * structs;
    c.note(&b);
    c.nontrivial = lo > 8;
    c.label_if(n > 1, "several values on one reader");
    c.label_if(elems > 0, "has collections");
    c.sample(|| format!("{} payload bytes, {elems} elements, {structs} structs: {}", payload, hx(&b)));
    for asyn in [false, true] {
        ensure!(history_fits(&vals, &b, hi, asyn)?, "async {asyn}: {payload} payload bytes, {elems} elements and {structs} structs are refused at a limit of {hi}; input {}", hx(&b));
        if lo > 0 {
            ensure!(
                !history_fits(&vals, &b, lo - 1, asyn)?,
                "async {asyn}: {payload} payload bytes and {elems} collection elements are accepted at a limit of {}; input {}",
                lo - 1,
                hx(&b)
            );
        }
        // monotone: there is one threshold in lo..=hi
        let (mut a, mut z) = (lo, hi);
        while a < z {
            let m = a + (z - a) / 2;
            if history_fits(&vals, &b, m, asyn)? {
                z = m;
            } else {
                a = m + 1;
            }
        }
        for k in 0..4 {
            let x = match k {
                0 => z.saturating_sub(1),
                1 => z,
                2 => s.below(z + 1),
                _ => z.saturating_add(s.below(1 << 20)),
            };
            ensure!(history_fits(&vals, &b, x, asyn)? == (x >= z), "async {asyn}: limit {x} is not monotone around the threshold {z}; input {}", hx(&b));
        }
        c.oracle_calls += 6;
    }
    // a declared length or count over the limit is refused before anything behind it is looked at
    let lim = match s.weighted(&[3, 2, 1]) {
        0 => s.below(200),
        1 => s.below(1 << 20),
        _ => s.below(1 << 32),
    };
    let over = |unit: usize, s: &mut Source| {
        let least = lim / unit + 1;
        let most = u32::MAX as usize;
        match s.below(4) {
            0 => least,
            1 => (least + s.below(1000)).min(most),
            2 => s.pick(&[1usize << 29, 1 << 30, 1 << 31, most, 1 << 28]).max(least),
            _ => (least + s.below(most - least + 1)).min(most),
        }
    };
    let mut m = vec![];
    let mut head = 0;
    let what = match s.below(6) {
        0 => {
            put_varint(&mut m, over(1, s) as u64);
            head = m.len();
            if s.bool() { What::Value(TT::Bin) } else { What::Skip(TT::Bin, None) }
        }
        k @ (1 | 2) => {
            let t = [TT::List, TT::Set][k - 1];
            let n = over(8, s);
            let e = s.pick(&[1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]);
            if n < 15 && s.bool() {
                m.push((n as u8) << 4 | e);
            } else {
                m.push(0xf0 | e);
                put_varint(&mut m, n as u64);
            }
            head = m.len();
            if s.bool() { What::Value(t) } else { What::Skip(t, None) }
        }
        3 => {
            put_varint(&mut m, over(8, s) as u64);
            m.push(s.pick(&[0x11, 0x85, 0xcc, 0x8b, 0x39]));
            if s.bool() { What::Value(TT::Map) } else { What::Skip(TT::Map, None) }
        }
        _ => {
            // a known or unknown field of a Parquet value
            let (id, code, unit) = s.pick(&[(2i16, 9u8, 8usize), (5, 9, 8), (4, 9, 8), (6, 8, 1), (20, 8, 1), (21, 10, 8), (20, 9, 8)]);
            put_field_header(&mut m, 0, id, code, false);
            let n = over(unit, s);
            if unit == 8 {
                m.push(0xfc);
            }
            put_varint(&mut m, n as u64);
            What::Message
        }
    };
    let typed = matches!(what, What::Message);
    let k = s.below(12);
    m.extend(gen::fill(s, k));
    for asyn in [false, true] {
        let mut rd = Reader::new(&m);
        let r = if typed {
            read_from(root("FileMetaData"), &mut rd, lim, asyn).map(|_| TV::Bool(true))
        } else {
            run_from(&mut rd, what, lim, asyn)
        };
        let what = if typed { "FileMetaData".to_string() } else { format!("{what:?}") };
        ensure!(r == Err(SIZE), "{what} (async {asyn}): a limit of {lim} is exceeded by a declared length or count, the answer is {r:?}; input {}", hx(&m));
        ensure!(head == 0 || rd.pos == head, "{what} (async {asyn}): took {} bytes where the length that exceeds the limit of {lim} ends after {head}; input {}", rd.pos, hx(&m));
        c.oracle_calls += 1;
    }
    Ok(())
}

fn c25(s: &mut Source, c: &mut Ctx) -> R {
    let (root, v) = value(s, c);
    let want = v.tv();
    let b = encode_canonical(&want);
    about(c, root, &b);
    match v.rebuilt() {
        Some(t) => {
            c.nontrivial = want != TV::Struct(vec![]);
            ensure!(t == want, "{}: rebuilt through its constructor: {t:?}, parts {want:?}", root.name);
            c.oracle_calls += 1;
        }
        None => c.nontrivial = false,
    }
    // the model the harness holds of a value is the value itself
    match (root.from_tv)(&want) {
        Ok(x) => ensure!(x.eq_any(&*v), "{}: from parts {} != {}", root.name, cut(&x.dbg(), 300), cut(&v.dbg(), 300)),
        Err(e) => fail!("harness: {e:?} for {want:?}"),
    }
    Ok(())
}
