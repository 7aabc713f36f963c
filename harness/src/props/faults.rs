//! Transports: chunking, interruptions, pending answers, faults, full sinks.
use crate::engine::*;
use crate::gen::{self, G};
use crate::generic::*;
use crate::hostile::*;
use crate::io::*;
use crate::model::*;
use crate::schema::*;
use crate::util::*;
use crate::{alloc, ensure};
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::{BoundaryOrder, ColumnIndex};

pub fn props() -> Vec<Prop> {
    let p = |id, run: PropFn, quick, thorough, rule| Prop { id, run, quick, thorough, rule };
    vec![
        p("C05", c05, 1_600_000, 40_000_000, "one random Parquet value, or a random sequence of protocol calls (generic values with maps, sets and doubles, messages, primitives), written by every writer into a transport that takes short writes; non-trivial: at least 4 bytes were written"),
        p("C14", c14, 400_000, 10_000_000, "one byte string (valid followed by other data, or hostile) and one protocol-level input read in one piece and again split at random points with interruptions or pending answers; non-trivial: the split reader needed more than two source reads"),
        p("C15", c15, 300_000, 7_500_000, "one valid encoding of a Parquet value and one protocol-level input, and a read fault of a random kind at a random offset of it, over a random split; non-trivial: the fault was hit after at least one byte"),
        p("C16", c16, 800_000, 20_000_000, "one random value or generic call sequence written over a transport with random short writes, interruptions or pending answers, and for half of the cases a fault, a full sink at a random offset or a failing flush; non-trivial: the transport split or refused at least one write"),
        p("C27", c27, 2_000, 40_000, "one string or binary, and one list, of 2^32 bytes or elements and more, or one string or binary of just below 2^32 bytes; every case is non-trivial"),
    ]
}

/// A sequence of protocol-level calls with the bytes the specification gives for it.
#[derive(Debug)]
enum Call {
    Value(TV),
    Message(String, u8, u32),
    Typed(usize),
}

fn calls(s: &mut Source) -> Vec<Call> {
    let n = 1 + s.below(4);
    let mut g = if s.chance(1, 6) { G::new(s) } else { G::small(s) };
    (0..n)
        .map(|_| match s.weighted(&[6, 2]) {
            0 => {
                let d = 1 + s.below(5);
                let t = gen::elem_tt(s, d);
                Call::Value(gen::tv(s, &mut g, t, d))
            }
            _ => {
                let n = g.str_len(s);
                Call::Message(gen::text(s, n), 1 + s.below(4) as u8, gen::int(s, 64) as u32)
            }
        })
        .collect()
}

pub fn message_type(c: u8) -> TMessageType {
    match c {
        1 => TMessageType::Call,
        2 => TMessageType::Reply,
        3 => TMessageType::Exception,
        _ => TMessageType::OneWay,
    }
}

/// Perform the calls; the counts returned before the first error are summed up.
fn perform(cs: &[Call], vals: &[BV], w: &mut Writer, how: usize, flush: bool) -> (usize, Result<(), Sig>) {
    let mut n = 0;
    let r = match how {
        0 => {
            let mut p: SyncOut = TCompactOutputProtocol::new(w as &mut dyn std::io::Write);
            cs.iter()
                .try_for_each(|c| {
                    n += match c {
                        Call::Value(v) => write_value(&mut p, v)?,
                        Call::Message(name, t, q) => p.write_message_begin(&TMessageIdentifier::new(name.as_str(), message_type(*t), *q))? + p.write_message_end()?,
                        Call::Typed(i) => vals[*i].write(&mut p)?,
                    };
                    Ok(())
                })
                .and_then(|_| if flush { p.flush() } else { Ok(()) })
        }
        1 => {
            let inner: SyncOut = TCompactOutputProtocol::new(w as &mut dyn std::io::Write);
            let mut p: DynOut = Box::new(inner);
            cs.iter()
                .try_for_each(|c| {
                    n += match c {
                        Call::Value(v) => write_value(&mut p, v)?,
                        Call::Message(name, t, q) => p.write_message_begin(&TMessageIdentifier::new(name.as_str(), message_type(*t), *q))? + p.write_message_end()?,
                        Call::Typed(i) => vals[*i].write_dyn(&mut p)?,
                    };
                    Ok(())
                })
                .and_then(|_| if flush { p.flush() } else { Ok(()) })
        }
        _ => {
            let mut p: AsyncOut = TCompactOutputStreamProtocol::new(w as &mut dyn AW);
            block_on(async {
                for c in cs {
                    n += match c {
                        Call::Value(v) => write_value_async(&mut p, v).await?,
                        Call::Message(name, t, q) => {
                            let id = TMessageIdentifier::new(name.as_str(), message_type(*t), *q);
                            p.write_message_begin(&id).await? + p.write_message_end().await?
                        }
                        Call::Typed(i) => vals[*i].write_async(&mut p).await?,
                    };
                }
                if flush {
                    p.flush().await?;
                }
                Ok(())
            })
        }
    };
    (n, r.map_err(|e| sig(&e)))
}

fn script(s: &mut Source, c: &mut Ctx) -> (Vec<Call>, Vec<BV>) {
    let mut vals: Vec<BV> = vec![];
    let cs = if s.bool() {
        let n = 1 + s.below(3);
        for _ in 0..n {
            let root = pick_root(s);
            let mut g = G::of(s, root, 6, 600);
            vals.push((root.gen)(s, &mut g));
        }
        (0..n).map(Call::Typed).collect()
    } else {
        calls(s)
    };
    c.sample(|| format!("{cs:?} {}", vals.iter().map(|v| v.dbg()).collect::<Vec<_>>().join("; ")));
    (cs, vals)
}

fn c05(s: &mut Source, c: &mut Ctx) -> R {
    let (cs, vals) = script(s, c);
    let pl = plan(s, false);
    for how in 0..3 {
        let mut w = Writer::planned(pl.clone());
        let (n, r) = perform(&cs, &vals, &mut w, how, false);
        ensure!(r.is_ok(), "writer {how} failed: {r:?}");
        ensure!(n == w.out.len(), "writer {how} (0 sync, 1 boxed, 2 async) reports {n} bytes, {} reached the transport: {cs:?} {}", w.out.len(), hx(&w.out));
        c.nontrivial = n >= 4;
        c.hash = hash_bytes(&w.out);
        c.oracle_calls += 1;
    }
    // primitives alone
    let i = gen::int(s, 64);
    for how in 0..2 {
        let mut w = Writer::planned(pl.clone());
        let n = if how == 0 {
            let mut p = TCompactOutputProtocol::new(&mut w);
            p.write_byte(i as u8).and_then(|a| Ok(a + p.write_i8(i as i8)? + p.write_i16(i as i16)? + p.write_i32(i as i32)? + p.write_i64(i)? + p.write_field_stop()?))
        } else {
            let mut p = TCompactOutputStreamProtocol::new(&mut w);
            block_on(async {
                Ok(p.write_byte(i as u8).await?
                    + p.write_i8(i as i8).await?
                    + p.write_i16(i as i16).await?
                    + p.write_i32(i as i32).await?
                    + p.write_i64(i).await?
                    + p.write_field_stop().await?)
            })
        };
        let mut want = vec![i as u8, i as u8];
        put_varint(&mut want, zigzag(i as i16 as i64));
        put_varint(&mut want, zigzag(i as i32 as i64));
        put_varint(&mut want, zigzag(i));
        want.push(0);
        ensure!(matches!(&n, Ok(k) if *k == w.out.len()), "primitives of {i}: reported {n:?}, {} bytes written", w.out.len());
        ensure!(w.out == want, "primitives of {i}: wrote {}, expected {}", hx(&w.out), hx(&want));
        c.oracle_calls += 1;
    }
    Ok(())
}

fn c14(s: &mut Source, c: &mut Ctx) -> R {
    let root = pick_root(s);
    let (b, _) = if s.chance(2, 3) {
        let mut g = G::of(s, root, 6, 600);
        let mut v = (root.gen)(s, &mut g).tv();
        if s.chance(1, 4) {
            inject_unknown(s, &mut v, (root.ft)(), 3);
        }
        let mut b = encode_canonical(&v);
        let n = b.len();
        let k = s.below(40);
        b.extend(gen::fill(s, k));
        (b, n)
    } else {
        let (b, _) = hostile(s, root);
        let n = b.len();
        (b, n)
    };
    let lim = budget(s);
    let pl = plan(s, true);
    c.note(&b);
    c.sample(|| format!("{} limit {lim} plan {pl:?}: {}", root.name, hx(&b)));
    for asyn in [false, true] {
        let mut one = Reader::new(&b);
        let x = read_from(root, &mut one, lim, asyn);
        let mut many = Reader::planned(&b, pl.clone());
        let y = read_from(root, &mut many, lim, asyn);
        c.nontrivial |= many.calls > 2;
        c.label_if(many.stalls > 0, if asyn { "pending answers" } else { "interruptions" });
        c.label_if(x.is_ok(), "accepted");
        same_outcome(&format!("{} (async {asyn}, limit {lim}): one piece against plan {pl:?}", root.name), &x, one.pos, &y, many.pos, &b)?;
        c.oracle_calls += 1;
        if let Ok(v) = &x {
            // nothing after the value is touched: a source that ends right there serves as well
            let mut exact = Reader::planned(&b[..one.pos], pl.clone());
            let z = read_from(root, &mut exact, lim, asyn);
            expect_ok("a source that ends with the value", &z, exact.pos, &v.tv(), one.pos, &b)?;
            // .. and one that fails right after it
            let mut then = Reader::planned(&b, pl.clone());
            then.fault = Some((one.pos, std::io::ErrorKind::Other));
            let z = read_from(root, &mut then, lim, asyn);
            expect_ok("a source that fails after the value", &z, then.pos, &v.tv(), one.pos, &b)?;
            ensure!(!then.faulted, "{} (async {asyn}): the source was asked for more after the value was complete; input {}", root.name, hx(&b));
            c.oracle_calls += 2;
        }
    }
    // at the protocol level
    let (what, mut b) = some_bytes(s);
    let end = b.len();
    let k = s.below(20);
    b.extend(gen::fill(s, k));
    for asyn in [false, true] {
        let mut one = Reader::new(&b);
        let x = run_from(&mut one, what, lim, asyn);
        let mut many = Reader::planned(&b, pl.clone());
        if one.pos == end {
            many.fault = Some((end, std::io::ErrorKind::Other));
        }
        let y = run_from(&mut many, what, lim, asyn);
        ensure!(agree(&x, one.pos, &y, many.pos), "{what:?} (async {asyn}, limit {lim}): in one piece {x:?} after {}, plan {pl:?} {y:?} after {}; input {}", one.pos, many.pos, hx(&b));
        ensure!(x.is_err() || (one.pos == end && !many.faulted), "{what:?} (async {asyn}) took {} of {end} bytes or asked for more; input {}", one.pos, hx(&b));
        c.oracle_calls += 1;
    }
    Ok(())
}

fn c15(s: &mut Source, c: &mut Ctx) -> R {
    let root = pick_root(s);
    let mut g = G::of(s, root, 6, 600);
    let mut v = (root.gen)(s, &mut g).tv();
    if s.chance(1, 3) {
        inject_unknown(s, &mut v, (root.ft)(), 3);
    }
    let b = encode_canonical(&v);
    let pl = plan(s, true);
    c.note(&b);
    for k in 0..3 {
        let at = s.below(b.len());
        let kind = s.pick(&KINDS);
        if k == 0 {
            c.sample(|| format!("{} {kind:?} at {at} plan {pl:?}: {}", root.name, hx(&b)));
        }
        for asyn in [false, true] {
            let mut rd = Reader::planned(&b, pl.clone());
            rd.fault = Some((at, kind));
            let o = read_from(root, &mut rd, usize::MAX, asyn);
            c.nontrivial |= rd.faulted && at > 0;
            ensure!(
                matches!(&o, Err(e) if *e == expect_io(kind)),
                "{} (async {asyn}): the source fails with {kind:?} at byte {at} of {}, the reader answers {}; plan {pl:?}; input {}",
                root.name,
                b.len(),
                show(&o),
                hx(&b)
            );
            c.oracle_calls += 1;
        }
    }
    // at the protocol level
    let (what, b) = some_bytes(s);
    let at = s.below(b.len());
    let kind = s.pick(&KINDS);
    for asyn in [false, true] {
        let mut rd = Reader::planned(&b, pl.clone());
        rd.fault = Some((at, kind));
        let r = run_from(&mut rd, what, usize::MAX, asyn);
        ensure!(r == Err(expect_io(kind)), "{what:?} (async {asyn}): the source fails with {kind:?} at byte {at} of {}, the reader answers {r:?}; plan {pl:?}; input {}", b.len(), hx(&b));
        c.oracle_calls += 1;
    }
    Ok(())
}

fn c16(s: &mut Source, c: &mut Ctx) -> R {
    let (cs, vals) = script(s, c);
    // the bytes that reach a transport which takes everything at once
    let mut plain = vec![];
    for how in 0..3 {
        let mut w = Writer::new();
        let (n, r) = perform(&cs, &vals, &mut w, how, true);
        ensure!(r.is_ok() && n == w.out.len(), "writer {how}: {r:?}, reports {n} of {} bytes", w.out.len());
        plain.push(w.out);
    }
    let want = &plain[0];
    let pl = plan(s, true);
    c.hash = mix(&[hash_bytes(want), hash_bytes(format!("{pl:?}").as_bytes())]);
    let fault = match s.weighted(&[4, 2, 2, 1]) {
        0 => None,
        1 => Some(WFault::Err(s.pick(&KINDS))),
        2 => Some(WFault::Zero),
        _ => {
            // a failing flush
            let k = s.pick(&KINDS);
            for (how, want) in plain.iter().enumerate() {
                let mut w = Writer::planned(pl.clone());
                w.flush_fault = Some(k);
                let (_, r) = perform(&cs, &vals, &mut w, how, true);
                ensure!(r == Err(expect_io(k)), "writer {how}: flush fails with {k:?}, the writer answers {r:?}");
                ensure!(w.out == *want, "writer {how}: bytes before the flush differ");
                c.oracle_calls += 1;
            }
            c.nontrivial = true;
            c.label("failing flush");
            return Ok(());
        }
    };
    let at = s.u64();
    for (how, want) in plain.iter().enumerate() {
        let at = at as usize % want.len().max(1);
        let mut w = Writer::planned(pl.clone());
        w.fault = fault.map(|f| (at, f));
        let (n, r) = perform(&cs, &vals, &mut w, how, true);
        c.nontrivial |= w.shorts > 0 || w.stalls > 0 || w.hit;
        c.label_if(w.shorts > 0, "short writes");
        c.label_if(w.stalls > 0, "interrupted or pending");
        match fault {
            None => {
                ensure!(r.is_ok(), "writer {how}: plan {pl:?}: failed with {r:?}");
                ensure!(w.out == *want, "writer {how} (0 sync, 1 boxed, 2 async): plan {pl:?}: {} bytes reached the transport, expected {}: {} / {}", w.out.len(), want.len(), hx(&w.out), hx(want));
                ensure!(n == want.len(), "writer {how}: plan {pl:?}: reports {n}, wrote {}", want.len());
                ensure!(w.flushes > 0, "writer {how}: flush did not reach the transport");
            }
            Some(f) => {
                c.label(if f == WFault::Zero { "full sink" } else { "write fault" });
                ensure!(w.hit, "writer {how}: plan {pl:?}: only {} of {} bytes written", w.out.len(), want.len());
                match f {
                    WFault::Err(k) => ensure!(r == Err(expect_io(k)), "writer {how}: plan {pl:?}: the transport fails with {k:?} at byte {at} of {}, the writer answers {r:?}", want.len()),
                    WFault::Zero => ensure!(matches!(r, Err(Sig::T(_))), "writer {how}: plan {pl:?}: the sink takes {at} of {} bytes, the writer answers {r:?}", want.len()),
                }
                ensure!(w.out[..] == want[..at], "writer {how}: plan {pl:?}: {} reached the transport before the fault at {at}, expected {}", hx(&w.out), hx(want));
            }
        }
        c.oracle_calls += 1;
    }
    Ok(())
}

/// Counts and discards; remembers the first bytes.
struct Null {
    n: u64,
    head: Vec<u8>,
}
impl std::io::Write for Null {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let k = b.len().min(16usize.saturating_sub(self.head.len()));
        self.head.extend_from_slice(&b[..k]);
        self.n += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl futures::io::AsyncWrite for Null {
    fn poll_write(mut self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>, b: &[u8]) -> std::task::Poll<std::io::Result<usize>> {
        std::task::Poll::Ready(std::io::Write::write(&mut *self, b))
    }
    fn poll_flush(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<std::io::Result<()>> {
        std::task::Poll::Ready(Ok(()))
    }
    fn poll_close(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<std::io::Result<()>> {
        std::task::Poll::Ready(Ok(()))
    }
}

/// `head` and then zeros, `n` of them.
struct Zeros<'a> {
    head: &'a [u8],
    n: usize,
}
impl std::io::Read for Zeros<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if !self.head.is_empty() {
            return self.head.read(b);
        }
        let k = self.n.min(b.len());
        b[..k].fill(0);
        self.n -= k;
        Ok(k)
    }
}
impl futures::io::AsyncRead for Zeros<'_> {
    fn poll_read(mut self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>, b: &mut [u8]) -> std::task::Poll<std::io::Result<usize>> {
        std::task::Poll::Ready(std::io::Read::read(&mut *self, b))
    }
}

/// Strings and binaries of gigabytes are read back whole, or missed by a byte.
fn gigabytes(s: &mut Source, c: &mut Ctx) -> R {
    // one at a time: this takes the memory it says
    static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    let n = match s.below(3) {
        0 => (1usize << 31) + s.below(1000),
        1 => u32::MAX as usize - s.below(1000),
        _ => (1usize << 31) + s.below((1 << 31) - 1),
    };
    let mut head = vec![];
    put_varint(&mut head, n as u64);
    let missing = s.chance(1, 3) as usize;
    c.label("gigabytes read");
    let what = s.below(3);
    for asyn in [false, true] {
        let mut z = Zeros { head: &head, n: n + 7 - missing * 8 };
        let r = if asyn {
            let mut p = TCompactInputStreamProtocol::new(&mut z, usize::MAX);
            match what {
                0 => block_on(p.read_bytes()).map(|b| b.len()),
                1 => block_on(p.read_string()).map(|b| b.len()),
                _ => block_on(p.skip(TType::String)).map(|_| n),
            }
        } else {
            let mut p = TCompactInputProtocol::new(&mut z, usize::MAX);
            match what {
                0 => p.read_bytes().map(|b| b.len()),
                1 => p.read_string().map(|b| b.len()),
                _ => p.skip(TType::String).map(|_| n),
            }
        };
        let r = r.map_err(|e| sig(&e));
        let want = if missing == 1 { Err(EOF) } else { Ok(n) };
        ensure!(r == want && z.n == 7 - 7 * missing, "async {asyn}: reading {n} bytes, {missing} of them missing: {r:?}, {} left in the source", z.n);
        c.oracle_calls += 1;
    }
    Ok(())
}

fn c27(s: &mut Source, c: &mut Ctx) -> R {
    c.nontrivial = true;
    // never touched, so it costs address space only
    alloc::set_ceiling(16 << 30);
    if s.chance(1, 400) {
        return gigabytes(s, c);
    }
    let extra = match s.weighted(&[2, 2, 1, 2]) {
        0 => 0usize,
        1 => s.below(300),
        2 => s.below(1 << 31),
        _ => 0usize.wrapping_sub(1 + s.below(70000)),
    };
    let len = (1usize << 32).wrapping_add(extra);
    let big = vec![0u8; len];
    let head_n = s.below(100);
    c.hash = mix(&[len as u64, head_n as u64]);
    c.sample(|| format!("{len} bytes"));
    let text = s.bool();
    let fits = len <= u32::MAX as usize;
    c.label(if fits { "just fits" } else { "too long" });
    for asyn in [false, true] {
        let mut w = Null { n: 0, head: vec![] };
        let r = if asyn {
            let mut p = TCompactOutputStreamProtocol::new(&mut w);
            if text {
                block_on(p.write_string(unsafe { std::str::from_utf8_unchecked(&big) }))
            } else {
                block_on(p.write_bytes(&big))
            }
        } else {
            let mut p = TCompactOutputProtocol::new(&mut w);
            if text {
                // zero bytes are UTF-8; checking four gigabytes would only cost time
                p.write_string(unsafe { std::str::from_utf8_unchecked(&big) })
            } else {
                p.write_bytes(&big)
            }
        };
        let r = r.map_err(|e| sig(&e));
        if fits {
            ensure!(r == Ok(len + 5) && w.n == len as u64 + 5, "async {asyn}: {len} bytes: answer {r:?}, {} bytes reached the transport", w.n);
            let mut d = Dec::new(&w.head);
            ensure!(d.varint(32) == Ok(len as u64), "async {asyn}: {len} bytes: length prefix {}", hex(&w.head));
        } else {
            ensure!(matches!(r, Err(Sig::P(_))) && w.n == 0, "async {asyn}: {len} bytes do not fit the length prefix, but the answer is {r:?} after {} bytes", w.n);
        }
        c.oracle_calls += 1;
    }
    drop(big);
    if !fits {
        // a list of as many elements
        let v = ColumnIndex::new(vec![false; len], vec![], vec![], BoundaryOrder(0), None);
        for how in 0..3 {
            // a writer that starts on the elements is stopped soon
            let mut w = Writer::new();
            w.fault = Some((1 << 12, WFault::Err(std::io::ErrorKind::Other)));
            let r = match how {
                0 => v.write_to_out_protocol(&mut TCompactOutputProtocol::new(&mut w)),
                1 => v.write_to_out_protocol(&mut Box::new(TCompactOutputProtocol::new(&mut w))),
                _ => block_on(async { v.write_to_out_stream_protocol(&mut TCompactOutputStreamProtocol::new(&mut w)).await }),
            };
            let r = r.map_err(|e| sig(&e));
            ensure!(matches!(r, Err(Sig::P(_))) && w.out.len() < 8, "writer {how}: a list of {len} elements does not fit the count, but the answer is {r:?} after {} bytes", w.out.len());
            c.oracle_calls += 1;
        }
    }
    Ok(())
}
