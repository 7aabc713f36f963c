//! Generic values through the protocol-level API (no Parquet types involved).
use crate::io::block_on;
use crate::model::*;
use crate::util::*;
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::thrift::Result as TR;
use std::future::Future;
use std::pin::Pin;

std::thread_local! {
    static FLUSHES: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// As long as it lives, values are written with flushes among the calls, as the bits say.
pub struct Flushes;
pub fn flushing(pattern: u64) -> Flushes {
    FLUSHES.with(|f| f.set(pattern));
    Flushes
}
impl Drop for Flushes {
    fn drop(&mut self) {
        FLUSHES.with(|f| f.set(0))
    }
}
fn flush_now() -> bool {
    FLUSHES.with(|f| {
        let x = f.get().rotate_right(1);
        f.set(x);
        x >> 63 == 1
    })
}

/// Writes strings that are valid UTF-8 through the string call, others through the bytes call.
pub fn write_value(p: &mut dyn TOutputProtocol, v: &TV) -> TR<usize> {
    let mut n = 0;
    if flush_now() {
        p.flush()?;
    }
    match v {
        TV::Bool(b) => n += p.write_bool(*b)?,
        TV::I8(x) if x % 4 == 3 => n += p.write_byte(*x as u8)?,
        TV::I8(x) => n += p.write_i8(*x)?,
        TV::I16(x) => n += p.write_i16(*x)?,
        TV::I32(x) => n += p.write_i32(*x)?,
        TV::I64(x) => n += p.write_i64(*x)?,
        TV::Double(x) => n += p.write_double(f64::from_bits(*x))?,
        TV::Bin(b) => match std::str::from_utf8(b) {
            Ok(s) if b.len() % 2 == 0 => n += p.write_string(s)?,
            _ => n += p.write_bytes(b)?,
        },
        TV::List(t, xs) => {
            n += p.write_list_begin(&TListIdentifier::new(tt_to_ttype(*t), xs.len() as u32))?;
            for x in xs {
                n += write_value(p, x)?;
            }
            n += p.write_list_end()?;
        }
        TV::Set(t, xs) => {
            n += p.write_set_begin(&TSetIdentifier::new(tt_to_ttype(*t), xs.len() as u32))?;
            for x in xs {
                n += write_value(p, x)?;
            }
            n += p.write_set_end()?;
        }
        TV::Map(k, t, xs) => {
            n += p.write_map_begin(&TMapIdentifier::new(tt_to_ttype(*k), tt_to_ttype(*t), xs.len() as u32))?;
            for (a, b) in xs {
                n += write_value(p, a)?;
                n += write_value(p, b)?;
            }
            n += p.write_map_end()?;
        }
        TV::Struct(fs) => {
            n += p.write_struct_begin(&TStructIdentifier::new("s"))?;
            for (id, x) in fs {
                n += p.write_field_begin(&TFieldIdentifier::new("f", tt_to_ttype(x.tt()), *id))?;
                n += write_value(p, x)?;
                n += p.write_field_end()?;
            }
            n += p.write_field_stop()?;
            n += p.write_struct_end()?;
        }
    }
    Ok(n)
}

std::thread_local! {
    static TEXTS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// As long as it lives, binaries are read with the call for texts, and small integers with the call for a bare byte.
pub struct Texts;
pub fn reading_texts(on: bool) -> Texts {
    TEXTS.with(|t| t.set(on));
    Texts
}
impl Drop for Texts {
    fn drop(&mut self) {
        TEXTS.with(|t| t.set(false))
    }
}
pub fn as_texts<T>(on: bool, f: impl FnOnce() -> T) -> T {
    let _on = reading_texts(on);
    f()
}
fn texts() -> bool {
    TEXTS.with(|t| t.get())
}

/// all its binaries are texts
pub fn textual(v: &TV) -> bool {
    let mut ok = true;
    v.walk(&mut |x| {
        if let TV::Bin(b) = x {
            ok &= std::str::from_utf8(b).is_ok()
        }
    });
    ok
}

pub fn read_value<P: TInputProtocol>(p: &mut P, t: TT) -> TR<TV> {
    Ok(match t {
        TT::Bool => TV::Bool(p.read_bool()?),
        TT::I8 if texts() => TV::I8(p.read_byte()? as i8),
        TT::I8 => TV::I8(p.read_i8()?),
        TT::I16 => TV::I16(p.read_i16()?),
        TT::I32 => TV::I32(p.read_i32()?),
        TT::I64 => TV::I64(p.read_i64()?),
        TT::Double => TV::Double(p.read_double()?.to_bits()),
        TT::Bin if texts() => TV::Bin(p.read_string()?.into_bytes()),
        TT::Bin => TV::Bin(p.read_bytes()?),
        TT::List => {
            let h = p.read_list_begin()?;
            let et = elem(h.element_type)?;
            let mut v = vec![];
            for _ in 0..h.size {
                v.push(read_value(p, et)?);
            }
            p.read_list_end()?;
            TV::List(et, v)
        }
        TT::Set => {
            let h = p.read_set_begin()?;
            let et = elem(h.element_type)?;
            let mut v = vec![];
            for _ in 0..h.size {
                v.push(read_value(p, et)?);
            }
            p.read_set_end()?;
            TV::Set(et, v)
        }
        TT::Map => {
            let h = p.read_map_begin()?;
            if h.size == 0 {
                p.read_map_end()?;
                return Ok(TV::Map(TT::Bool, TT::Bool, vec![]));
            }
            let kt = elem(h.key_type.ok_or("map without key type")?)?;
            let vt = elem(h.value_type.ok_or("map without value type")?)?;
            let mut v = vec![];
            for _ in 0..h.size {
                let a = read_value(p, kt)?;
                v.push((a, read_value(p, vt)?));
            }
            p.read_map_end()?;
            TV::Map(kt, vt, v)
        }
        TT::Struct => {
            p.read_struct_begin()?;
            let mut v = vec![];
            loop {
                let f = p.read_field_begin()?;
                if f.field_type == TType::Stop {
                    break;
                }
                let id = field_id(&f)?;
                let ft = elem(f.field_type)?;
                v.push((id, read_value(p, ft)?));
                p.read_field_end()?;
            }
            p.read_struct_end()?;
            TV::Struct(v)
        }
    })
}

fn elem(t: TType) -> TR<TT> {
    ttype_to_tt(t).ok_or_else(|| format!("unexpected type {t}").into())
}

type Fut<'a, T> = Pin<Box<dyn Future<Output = TR<T>> + Send + 'a>>;

pub fn write_value_async<'a, P: TOutputStreamProtocol>(p: &'a mut P, v: &'a TV) -> Fut<'a, usize> {
    Box::pin(async move {
        let mut n = 0;
        if flush_now() {
            p.flush().await?;
        }
        match v {
            TV::Bool(b) => n += p.write_bool(*b).await?,
            TV::I8(x) if x % 4 == 3 => n += p.write_byte(*x as u8).await?,
            TV::I8(x) => n += p.write_i8(*x).await?,
            TV::I16(x) => n += p.write_i16(*x).await?,
            TV::I32(x) => n += p.write_i32(*x).await?,
            TV::I64(x) => n += p.write_i64(*x).await?,
            TV::Double(x) => n += p.write_double(f64::from_bits(*x)).await?,
            TV::Bin(b) => match std::str::from_utf8(b) {
                Ok(s) if b.len() % 2 == 0 => n += p.write_string(s).await?,
                _ => n += p.write_bytes(b).await?,
            },
            TV::List(t, xs) => {
                n += p.write_list_begin(&TListIdentifier::new(tt_to_ttype(*t), xs.len() as u32)).await?;
                for x in xs {
                    n += write_value_async(p, x).await?;
                }
                n += p.write_list_end().await?;
            }
            TV::Set(t, xs) => {
                n += p.write_set_begin(&TSetIdentifier::new(tt_to_ttype(*t), xs.len() as u32)).await?;
                for x in xs {
                    n += write_value_async(p, x).await?;
                }
                n += p.write_set_end().await?;
            }
            TV::Map(k, t, xs) => {
                n += p
                    .write_map_begin(&TMapIdentifier::new(tt_to_ttype(*k), tt_to_ttype(*t), xs.len() as u32))
                    .await?;
                for (a, b) in xs {
                    n += write_value_async(p, a).await?;
                    n += write_value_async(p, b).await?;
                }
                n += p.write_map_end().await?;
            }
            TV::Struct(fs) => {
                n += p.write_struct_begin(&TStructIdentifier::new("s")).await?;
                for (id, x) in fs {
                    n += p.write_field_begin(&TFieldIdentifier::new("f", tt_to_ttype(x.tt()), *id)).await?;
                    n += write_value_async(p, x).await?;
                    n += p.write_field_end()?;
                }
                n += p.write_field_stop().await?;
                n += p.write_struct_end()?;
            }
        }
        Ok(n)
    })
}

pub fn read_value_async<'a, P: TInputStreamProtocol>(p: &'a mut P, t: TT) -> Fut<'a, TV> {
    Box::pin(async move {
        Ok(match t {
            TT::Bool => TV::Bool(p.read_bool().await?),
            TT::I8 if texts() => TV::I8(p.read_byte().await? as i8),
            TT::I8 => TV::I8(p.read_i8().await?),
            TT::I16 => TV::I16(p.read_i16().await?),
            TT::I32 => TV::I32(p.read_i32().await?),
            TT::I64 => TV::I64(p.read_i64().await?),
            TT::Double => TV::Double(p.read_double().await?.to_bits()),
            TT::Bin if texts() => TV::Bin(p.read_string().await?.into_bytes()),
            TT::Bin => TV::Bin(p.read_bytes().await?),
            TT::List => {
                let h = p.read_list_begin().await?;
                let et = elem(h.element_type)?;
                let mut v = vec![];
                for _ in 0..h.size {
                    v.push(read_value_async(p, et).await?);
                }
                p.read_list_end().await?;
                TV::List(et, v)
            }
            TT::Set => {
                let h = p.read_set_begin().await?;
                let et = elem(h.element_type)?;
                let mut v = vec![];
                for _ in 0..h.size {
                    v.push(read_value_async(p, et).await?);
                }
                p.read_set_end().await?;
                TV::Set(et, v)
            }
            TT::Map => {
                let h = p.read_map_begin().await?;
                if h.size == 0 {
                    p.read_map_end().await?;
                    return Ok(TV::Map(TT::Bool, TT::Bool, vec![]));
                }
                let kt = elem(h.key_type.ok_or("map without key type")?)?;
                let vt = elem(h.value_type.ok_or("map without value type")?)?;
                let mut v = vec![];
                for _ in 0..h.size {
                    let a = read_value_async(p, kt).await?;
                    v.push((a, read_value_async(p, vt).await?));
                }
                p.read_map_end().await?;
                TV::Map(kt, vt, v)
            }
            TT::Struct => {
                p.read_struct_begin().await?;
                let mut v = vec![];
                loop {
                    let f = p.read_field_begin().await?;
                    if f.field_type == TType::Stop {
                        break;
                    }
                    let id = field_id(&f)?;
                    let ft = elem(f.field_type)?;
                    v.push((id, read_value_async(p, ft).await?));
                    p.read_field_end().await?;
                }
                p.read_struct_end().await?;
                TV::Struct(v)
            }
        })
    })
}

/// What is read at the protocol level.
#[derive(Clone, Copy, Debug)]
pub enum What {
    Value(TT),
    Skip(TT, Option<i8>),
    Message,
    Exception,
}

/// One protocol-level read; the answer is the value, where there is one.
pub fn run_from(rd: &mut crate::io::Reader, what: What, budget: usize, asyn: bool) -> Result<TV, Sig> {
    let unit = TV::Bool(true);
    let msg = |m: TMessageIdentifier| TV::Struct(vec![(1, TV::Bin(m.name.into_bytes())), (2, TV::I8(u8::from(m.message_type) as i8)), (3, TV::I64(m.sequence_number as i64))]);
    let r = if asyn {
        let mut p = TCompactInputStreamProtocol::new(rd, budget);
        block_on(async {
            Ok(match what {
                What::Value(t) => read_value_async(&mut p, t).await?,
                What::Skip(t, Some(d)) => p.skip_till_depth(tt_to_ttype(t), d).await.map(|_| unit)?,
                What::Skip(t, None) => p.skip(tt_to_ttype(t)).await.map(|_| unit)?,
                What::Message => msg(p.read_message_begin().await?),
                // there is no asynchronous decoder of exceptions
                What::Exception => read_value_async(&mut p, TT::Struct).await?,
            })
        })
    } else {
        let mut p = TCompactInputProtocol::new(rd, budget);
        (|| {
            Ok(match what {
                What::Value(t) => read_value(&mut p, t)?,
                What::Skip(t, Some(d)) => p.skip_till_depth(tt_to_ttype(t), d).map(|_| unit)?,
                What::Skip(t, None) => p.skip(tt_to_ttype(t)).map(|_| unit)?,
                What::Message => msg(p.read_message_begin()?),
                What::Exception => {
                    let e = parquet_format_safe::thrift::Error::read_application_error_from_in_protocol(&mut p)?;
                    TV::Struct(vec![(1, TV::Bin(e.message.into_bytes())), (2, TV::I32(e.kind as i32))])
                }
            })
        })()
    };
    r.map_err(|e: parquet_format_safe::thrift::Error| sig(&e))
}

/// Generic read of one value, without a protocol of its own.
pub fn read_generic(b: &[u8], t: TT, budget: usize, asyn: bool) -> (Result<TV, Sig>, usize) {
    let mut rd = crate::io::Reader::new(b);
    let r = run_from(&mut rd, What::Value(t), budget, asyn);
    (r, rd.pos)
}
pub fn skip_generic(b: &[u8], t: TT, budget: usize, depth: Option<i8>, asyn: bool) -> (Result<(), Sig>, usize) {
    let mut rd = crate::io::Reader::new(b);
    let r = run_from(&mut rd, What::Skip(t, depth), budget, asyn);
    (r.map(|_| ()), rd.pos)
}

/// A message envelope's bytes.
pub fn envelope(name: &str, ty: u8, seq: u32) -> Vec<u8> {
    let mut b = vec![0x82, ty << 5 | 1];
    put_varint(&mut b, seq as u64);
    put_varint(&mut b, name.len() as u64);
    b.extend_from_slice(name.as_bytes());
    b
}

/// Something valid to read at the protocol level, with its bytes.
pub fn some_bytes(s: &mut crate::engine::Source) -> (What, Vec<u8>) {
    use crate::gen::{self, G};
    let mut g = if s.chance(1, 8) { G::new(s) } else { G::small(s) };
    let mut b = vec![];
    match s.weighted(&[5, 3, 1, 1]) {
        k @ (0 | 1) => {
            let d = 1 + s.below(5);
            let v = if s.chance(1, 10) {
                let d = 1 + s.below(64);
                gen::spine(s, d)
            } else {
                let t = gen::elem_tt(s, d);
                gen::tv(s, &mut g, t, d)
            };
            let rate = s.below(3) as u64;
            encode(&v, &mut b, &mut Drawn { src: s, rate, used: 0 });
            (if k == 0 { What::Value(v.tt()) } else { What::Skip(v.tt(), None) }, b)
        }
        2 => {
            let n = g.str_len(s);
            let name = gen::text(s, n);
            (What::Message, envelope(&name, 1 + s.below(4) as u8, gen::int(s, 64) as u32))
        }
        _ => {
            let n = g.str_len(s);
            let text = gen::text(s, n);
            let code = if s.bool() { s.below(11) as i32 } else { gen::int(s, 32) as i32 };
            let mut f = vec![(1, TV::Bin(text.into_bytes())), (2, TV::I32(code))];
            if s.bool() {
                let t = gen::elem_tt(s, 3);
                let x = gen::tv(s, &mut g, t, 3);
                let at = s.below(3);
                f.insert(at, (7, x));
            }
            encode(&TV::Struct(f), &mut b, &mut Canonical);
            (What::Exception, b)
        }
    }
}
