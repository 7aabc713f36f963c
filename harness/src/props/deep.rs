//! Parts of C18: towers of structs of any height, call by call (no recursion), and lists read element by
//! element with `read_list`.
use crate::engine::*;
use crate::gen::{self, G};
use crate::io::*;
use crate::model::*;
use crate::util::*;
use crate::{ensure, fail};
use async_trait::async_trait;
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::thrift::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Val {
    Down,
    Bool(bool),
    Int(i32),
}

impl Val {
    fn ttype(self) -> TType {
        match self {
            Val::Down => TType::Struct,
            Val::Bool(_) => TType::Bool,
            Val::Int(_) => TType::I32,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev {
    Begin,
    Field(i16, Val),
    End,
}

/// the events of a tower of `n` structs, one in the other
fn events(rng: &mut Rng, n: usize) -> Vec<Ev> {
    let mut out = vec![];
    let mut lasts: Vec<i16> = vec![];
    let mut field = |out: &mut Vec<Ev>, last: &mut i16, down: bool| {
        let r = rng.next();
        let id = match r % 8 {
            0..=3 => last.wrapping_add(1),
            4 => last.wrapping_add((r >> 8) as i16 % 20),
            5 => (r >> 8) as i16,
            6 => last.wrapping_sub((r >> 8) as i16 % 20),
            _ => [0, -1, 1, i16::MAX, i16::MIN][(r >> 8) as usize % 5],
        };
        *last = id;
        let v = match (r >> 32) % 3 {
            _ if down => Val::Down,
            0 => Val::Bool(true),
            1 => Val::Bool(false),
            _ => Val::Int((r >> 34) as i32),
        };
        out.push(Ev::Field(id, v));
        r >> 60
    };
    for i in 0..n {
        out.push(Ev::Begin);
        let mut last = 0;
        if field(&mut out, &mut last, false) >= 8 {
            field(&mut out, &mut last, false);
        }
        if i + 1 < n {
            field(&mut out, &mut last, true);
        }
        lasts.push(last);
    }
    while let Some(mut last) = lasts.pop() {
        if field(&mut out, &mut last, false) >= 12 {
            field(&mut out, &mut last, false);
        }
        out.push(Ev::End);
    }
    out
}

fn encoded(evs: &[Ev], rng: &mut Rng, rate: u64) -> Vec<u8> {
    let mut b = vec![];
    let mut lasts = vec![0i16];
    for e in evs {
        match *e {
            Ev::Begin => lasts.push(0),
            Ev::Field(id, v) => {
                let code = match v {
                    Val::Down => 12,
                    Val::Bool(true) => 1,
                    Val::Bool(false) => 2,
                    Val::Int(_) => 5,
                };
                let last = lasts.last_mut().unwrap();
                put_field_header(&mut b, *last, id, code, rate > 0 && rng.next() % rate == 0);
                *last = id;
                if let Val::Int(i) = v {
                    put_varint(&mut b, zigzag(i as i64));
                }
            }
            Ev::End => {
                b.push(0);
                lasts.pop();
            }
        }
    }
    b
}

fn decoded(b: &[u8]) -> std::result::Result<Vec<Ev>, String> {
    let mut d = Dec::new(b);
    let mut evs = vec![Ev::Begin];
    let mut lasts = vec![0i16];
    while let Some(last) = lasts.last_mut() {
        let h = d.byte()?;
        if h & 15 == 0 {
            evs.push(Ev::End);
            lasts.pop();
            continue;
        }
        let id = match h >> 4 {
            0 => d.zz(16)? as i16,
            n => last.checked_add(n as i16).ok_or("field id over 32767")?,
        };
        *last = id;
        evs.push(Ev::Field(
            id,
            match h & 15 {
                1 => Val::Bool(true),
                2 => Val::Bool(false),
                5 => Val::Int(d.zz(32)? as i32),
                12 => Val::Down,
                x => return Err(format!("field of type {x}")),
            },
        ));
        if h & 15 == 12 {
            lasts.push(0);
            evs.push(Ev::Begin);
        }
    }
    if d.pos != b.len() {
        return Err("bytes after the value".into());
    }
    Ok(evs)
}

macro_rules! write_tower {
    ($p:expr, $evs:expr $(, $aw:tt)*) => {{
        let p = $p;
        let mut n = 0;
        let mut open = 0;
        for e in $evs {
            match *e {
                Ev::Begin => {
                    open += 1;
                    n += p.write_struct_begin(&TStructIdentifier::new("s"))$(.$aw)*?;
                }
                Ev::Field(id, v) => {
                    n += p.write_field_begin(&TFieldIdentifier::new("f", v.ttype(), id))$(.$aw)*?;
                    match v {
                        Val::Down => continue,
                        Val::Bool(b) => n += p.write_bool(b)$(.$aw)*?,
                        Val::Int(i) => n += p.write_i32(i)$(.$aw)*?,
                    }
                    n += p.write_field_end()?;
                }
                Ev::End => {
                    open -= 1;
                    n += p.write_field_stop()$(.$aw)*?;
                    n += p.write_struct_end()?;
                    if open > 0 {
                        n += p.write_field_end()?;
                    }
                }
            }
        }
        Ok(n)
    }};
}

macro_rules! read_tower {
    ($p:expr $(, $aw:tt)*) => {{
        let p = $p;
        let mut evs = vec![Ev::Begin];
        let mut open = 1;
        p.read_struct_begin()$(.$aw)*?;
        while open > 0 {
            let f = p.read_field_begin()$(.$aw)*?;
            let v = match f.field_type {
                TType::Stop => {
                    p.read_struct_end()$(.$aw)*?;
                    open -= 1;
                    if open > 0 {
                        p.read_field_end()$(.$aw)*?;
                    }
                    evs.push(Ev::End);
                    continue;
                }
                TType::Bool => Val::Bool(p.read_bool()$(.$aw)*?),
                TType::I32 => Val::Int(p.read_i32()$(.$aw)*?),
                TType::Struct => Val::Down,
                x => return Err(format!("a field of type {x:?}").into()),
            };
            evs.push(Ev::Field(f.id.ok_or("a field without id")?, v));
            if v == Val::Down {
                p.read_struct_begin()$(.$aw)*?;
                open += 1;
                evs.push(Ev::Begin);
            } else {
                p.read_field_end()$(.$aw)*?;
            }
        }
        Ok(evs)
    }};
}

fn w_sync<P: TOutputProtocol>(p: &mut P, evs: &[Ev]) -> Result<usize> {
    write_tower!(p, evs)
}
async fn w_async<P: TOutputStreamProtocol>(p: &mut P, evs: &[Ev]) -> Result<usize> {
    write_tower!(p, evs, await)
}
fn r_sync<P: TInputProtocol>(p: &mut P) -> Result<Vec<Ev>> {
    read_tower!(p)
}
async fn r_async<P: TInputStreamProtocol>(p: &mut P) -> Result<Vec<Ev>> {
    read_tower!(p, await)
}

/// Structs in structs, higher than any recursion goes: written and read call by call.
pub fn tower(s: &mut Source, c: &mut Ctx) -> R {
    let n = match s.weighted(&[40, 20, 4, 1]) {
        0 => 1 + s.below(40),
        1 => 1 + s.below(600),
        2 => 32_700 + s.below(140),
        _ => 65_400 + s.below(300),
    };
    c.label_if(n > 30_000, "tower of more than 30,000 structs");
    let mut rng = Rng::new(s.u64());
    let evs = events(&mut rng, n);
    let mut outs = vec![];
    let mut w = vec![];
    let r = w_sync(&mut TCompactOutputProtocol::new(&mut w), &evs).map_err(|e| sig(&e));
    outs.push(("sync", w, r));
    let mut w = vec![];
    let r = w_sync(&mut Box::new(TCompactOutputProtocol::new(&mut w)), &evs).map_err(|e| sig(&e));
    outs.push(("boxed", w, r));
    let mut w = vec![];
    let r = block_on(async { w_async(&mut TCompactOutputStreamProtocol::new(&mut w), &evs).await }).map_err(|e| sig(&e));
    outs.push(("async", w, r));
    for (name, w, r) in outs {
        ensure!(r == Ok(w.len()), "{name}: writing {n} structs in one another gives {r:?} for {} bytes", w.len());
        match decoded(&w) {
            Err(e) => fail!("{name}: {n} structs in one another are written as something else: {e}"),
            Ok(got) => {
                if got != evs {
                    let i = (0..).find(|i| got.get(*i) != evs.get(*i)).unwrap();
                    fail!("{name}: {n} structs in one another: event {i} is written as {:?}, not {:?}", got.get(i), evs.get(i));
                }
            }
        }
        c.oracle_calls += 1;
    }
    let rate = s.below(4) as u64;
    let b = encoded(&evs, &mut rng, rate);
    for how in 0..3 {
        let mut rd = Reader::new(&b);
        let r: std::result::Result<Vec<Ev>, Sig> = match how {
            0 => r_sync(&mut TCompactInputProtocol::new(&mut rd, usize::MAX)),
            1 => r_sync(&mut Box::new(TCompactInputProtocol::new(&mut rd, usize::MAX))),
            _ => block_on(async { r_async(&mut TCompactInputStreamProtocol::new(&mut rd, usize::MAX)).await }),
        }
        .map_err(|e| sig(&e));
        match r {
            Err(e) => fail!("reader {how} (0 sync, 1 boxed, 2 async): {n} structs in one another give {e:?}"),
            Ok(got) => {
                if got != evs {
                    let i = (0..).find(|i| got.get(*i) != evs.get(*i)).unwrap();
                    fail!("reader {how} (0 sync, 1 boxed, 2 async): {n} structs in one another: event {i} is read as {:?}, not {:?}", got.get(i), evs.get(i));
                }
            }
        }
        ensure!(rd.pos == b.len(), "reader {how} took {} of {} bytes of a tower of {n} structs", rd.pos, b.len());
        c.oracle_calls += 1;
    }
    Ok(())
}

/// A type of the user's own, for `read_list`.
#[derive(Clone, Debug, PartialEq)]
struct Pair {
    a: Option<i64>,
    b: Vec<String>,
}

impl ReadThrift for Pair {
    fn read_from_in_protocol<T: TInputProtocol>(p: &mut T) -> Result<Self> {
        p.read_struct_begin()?;
        let mut v = Pair { a: None, b: vec![] };
        loop {
            let f = p.read_field_begin()?;
            match (f.field_type, f.id) {
                (TType::Stop, _) => break,
                (_, Some(1)) => v.a = Some(i64::read_from_in_protocol(p)?),
                (_, Some(2)) => v.b = p.read_list()?,
                (t, _) => p.skip(t)?,
            }
            p.read_field_end()?;
        }
        p.read_struct_end()?;
        Ok(v)
    }
}

#[async_trait]
impl AsyncReadThrift for Pair {
    async fn stream_from_in_protocol<T: TInputStreamProtocol>(p: &mut T) -> Result<Self> {
        p.read_struct_begin().await?;
        let mut v = Pair { a: None, b: vec![] };
        loop {
            let f = p.read_field_begin().await?;
            match (f.field_type, f.id) {
                (TType::Stop, _) => break,
                (_, Some(1)) => v.a = Some(i64::stream_from_in_protocol(p).await?),
                (_, Some(2)) => v.b = p.read_list().await?,
                (t, _) => p.skip(t).await?,
            }
            p.read_field_end().await?;
        }
        p.read_struct_end().await?;
        Ok(v)
    }
}

fn whole<P: ReadThrift + AsyncReadThrift + Send + Clone + PartialEq + std::fmt::Debug>(want: &[P], as_model: &TV, s: &mut Source, c: &mut Ctx) -> R {
    let mut b = vec![];
    let rate = s.below(4) as u64;
    encode(as_model, &mut b, &mut Drawn { src: s, rate, used: 0 });
    let n = b.len();
    let k = s.below(5);
    b.extend(gen::fill(s, k));
    for how in 0..3 {
        let mut rd = Reader::new(&b);
        let r = match how {
            0 => TCompactInputProtocol::new(&mut rd, usize::MAX).read_list::<P>(),
            1 => Box::new(TCompactInputProtocol::new(&mut rd, usize::MAX)).read_list::<P>(),
            _ => block_on(async { TCompactInputStreamProtocol::new(&mut rd, usize::MAX).read_list::<P>().await }),
        }
        .map_err(|e| sig(&e));
        let pos = rd.pos;
        ensure!(matches!(&r, Ok(v) if v == want), "read_list (0 sync, 1 boxed, 2 async: {how}) gives {}, expected {}; input {}", short(&format!("{r:?}")), short(&format!("{want:?}")), hx(&b));
        ensure!(pos == n, "read_list ({how}) took {pos} of {n} bytes; input {}", hx(&b));
        c.oracle_calls += 1;
    }
    Ok(())
}

fn short(x: &str) -> String {
    x.chars().take(300).collect()
}

/// Lists of everything that can be read as an element.
pub fn lists(s: &mut Source, c: &mut Ctx) -> R {
    let mut g = if s.chance(1, 20) { G::new(s) } else { G::small(s) };
    let n = g.list_len(s, 1);
    match s.below(6) {
        0 => {
            let v: Vec<bool> = gen::many(s, &mut g, n, |s, _| s.bool());
            whole(&v, &TV::List(TT::Bool, v.iter().map(|x| TV::Bool(*x)).collect()), s, c)
        }
        1 => {
            let v: Vec<u8> = gen::many(s, &mut g, n, |s, _| s.byte());
            whole(&v, &TV::List(TT::I8, v.iter().map(|x| TV::I8(*x as i8)).collect()), s, c)
        }
        2 => {
            let v: Vec<i64> = gen::many(s, &mut g, n, |s, _| gen::int(s, 64));
            whole(&v, &TV::List(TT::I64, v.iter().map(|x| TV::I64(*x)).collect()), s, c)
        }
        3 => {
            let v: Vec<String> = gen::many(s, &mut g, n.min(2000), |s, g| {
                let k = g.str_len(s);
                gen::text(s, k)
            });
            whole(&v, &TV::List(TT::Bin, v.iter().map(|x| TV::Bin(x.clone().into_bytes())).collect()), s, c)
        }
        4 => {
            let v: Vec<Vec<u8>> = gen::many(s, &mut g, n.min(2000), |s, g| {
                let k = g.str_len(s);
                gen::fill(s, k)
            });
            whole(&v, &TV::List(TT::Bin, v.iter().map(|x| TV::Bin(x.clone())).collect()), s, c)
        }
        _ => {
            let v: Vec<Pair> = gen::many(s, &mut g, n.min(300), |s, _| {
                let k = s.below(4);
                Pair { a: s.bool().then(|| gen::int(s, 64)), b: (0..k).map(|_| { let k = s.below(5); gen::text(s, k) }).collect() }
            });
            let m = v
                .iter()
                .map(|x| {
                    let mut fs = vec![];
                    if let Some(a) = x.a {
                        fs.push((1, TV::I64(a)));
                    }
                    fs.push((2, TV::List(TT::Bin, x.b.iter().map(|t| TV::Bin(t.clone().into_bytes())).collect())));
                    TV::Struct(fs)
                })
                .collect();
            whole(&v, &TV::List(TT::Struct, m), s, c)
        }
    }
}
