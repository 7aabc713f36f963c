//! Independent model of Thrift values and of the Thrift compact protocol, written from the
//! protocol's specification; shares no code with the crate under test.
use crate::engine::Source;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum TT {
    Bool,
    I8,
    I16,
    I32,
    I64,
    Double,
    Bin,
    List,
    Set,
    Map,
    Struct,
}
pub const ALL_TT: [TT; 11] = [
    TT::Bool,
    TT::I8,
    TT::I16,
    TT::I32,
    TT::I64,
    TT::Double,
    TT::Bin,
    TT::List,
    TT::Set,
    TT::Map,
    TT::Struct,
];

impl TT {
    /// wire code of a struct field (booleans are 1/2 by value) and of a collection element
    pub fn code(self) -> u8 {
        match self {
            TT::Bool => 1,
            TT::I8 => 3,
            TT::I16 => 4,
            TT::I32 => 5,
            TT::I64 => 6,
            TT::Double => 7,
            TT::Bin => 8,
            TT::List => 9,
            TT::Set => 10,
            TT::Map => 11,
            TT::Struct => 12,
        }
    }
    pub fn from_elem_code(c: u8) -> Option<TT> {
        Some(match c {
            1 | 2 => TT::Bool,
            3 => TT::I8,
            4 => TT::I16,
            5 => TT::I32,
            6 => TT::I64,
            7 => TT::Double,
            8 => TT::Bin,
            9 => TT::List,
            10 => TT::Set,
            11 => TT::Map,
            12 => TT::Struct,
            _ => return None,
        })
    }
}

/// A Thrift value. Doubles are kept as bits.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum TV {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    Double(u64),
    Bin(Vec<u8>),
    List(TT, Vec<TV>),
    Set(TT, Vec<TV>),
    Map(TT, TT, Vec<(TV, TV)>),
    Struct(Vec<(i16, TV)>),
}

impl TV {
    pub fn tt(&self) -> TT {
        match self {
            TV::Bool(_) => TT::Bool,
            TV::I8(_) => TT::I8,
            TV::I16(_) => TT::I16,
            TV::I32(_) => TT::I32,
            TV::I64(_) => TT::I64,
            TV::Double(_) => TT::Double,
            TV::Bin(_) => TT::Bin,
            TV::List(..) => TT::List,
            TV::Set(..) => TT::Set,
            TV::Map(..) => TT::Map,
            TV::Struct(_) => TT::Struct,
        }
    }

    /// levels of nesting a skipper has to descend: a scalar or an empty container counts 1
    pub fn depth(&self) -> usize {
        1 + match self {
            TV::List(_, v) | TV::Set(_, v) => v.iter().map(|x| x.depth()).max().unwrap_or(0),
            TV::Map(_, _, v) => v.iter().map(|(k, x)| k.depth().max(x.depth())).max().unwrap_or(0),
            TV::Struct(v) => v.iter().map(|(_, x)| x.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }

    pub fn walk(&self, f: &mut dyn FnMut(&TV)) {
        f(self);
        match self {
            TV::List(_, v) | TV::Set(_, v) => v.iter().for_each(|x| x.walk(f)),
            TV::Map(_, _, v) => v.iter().for_each(|(k, x)| {
                k.walk(f);
                x.walk(f)
            }),
            TV::Struct(v) => v.iter().for_each(|(_, x)| x.walk(f)),
            _ => {}
        }
    }

    /// (payload bytes of strings/binaries, collection elements with a map entry counted once, structs)
    pub fn footprint(&self) -> (usize, usize, usize) {
        let (mut p, mut e, mut s) = (0, 0, 0);
        self.walk(&mut |x| match x {
            TV::Bin(b) => p += b.len(),
            TV::List(_, v) | TV::Set(_, v) => e += v.len(),
            TV::Map(_, _, v) => e += v.len(),
            TV::Struct(_) => s += 1,
            _ => {}
        });
        (p, e, s)
    }

    /// wire normal form: an empty map carries no types
    pub fn norm(&self) -> TV {
        match self {
            TV::List(t, v) => TV::List(*t, v.iter().map(|x| x.norm()).collect()),
            TV::Set(t, v) => TV::Set(*t, v.iter().map(|x| x.norm()).collect()),
            TV::Map(k, v, m) => {
                if m.is_empty() {
                    TV::Map(TT::Bool, TT::Bool, vec![])
                } else {
                    TV::Map(*k, *v, m.iter().map(|(a, b)| (a.norm(), b.norm())).collect())
                }
            }
            TV::Struct(v) => TV::Struct(v.iter().map(|(i, x)| (*i, x.norm())).collect()),
            x => x.clone(),
        }
    }
}

impl TV {
    /// fields of every struct in the order of their ids
    pub fn sorted(&self) -> TV {
        match self {
            TV::List(t, v) => TV::List(*t, v.iter().map(|x| x.sorted()).collect()),
            TV::Set(t, v) => TV::Set(*t, v.iter().map(|x| x.sorted()).collect()),
            TV::Map(k, v, m) => TV::Map(*k, *v, m.iter().map(|(a, b)| (a.sorted(), b.sorted())).collect()),
            TV::Struct(v) => {
                let mut v: Vec<(i16, TV)> = v.iter().map(|(i, x)| (*i, x.sorted())).collect();
                v.sort_by_key(|x| x.0);
                TV::Struct(v)
            }
            x => x.clone(),
        }
    }
}

pub fn put_varint(out: &mut Vec<u8>, mut v: u64) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}
pub fn zigzag(v: i64) -> u64 {
    if v < 0 {
        // -1 -> 1, -2 -> 3, ...
        ((-(v as i128)) * 2 - 1) as u64
    } else {
        (v as u64) * 2
    }
}
pub fn unzigzag(v: u64) -> i64 {
    if v & 1 == 1 {
        (-((v / 2) as i128) - 1) as i64
    } else {
        (v / 2) as i64
    }
}

/// Which of the encodings the specification allows to use where it allows several.
pub trait Style {
    fn long_field_header(&mut self) -> bool {
        false
    }
    fn long_list_header(&mut self) -> bool {
        false
    }
    fn bool_elem_code(&mut self) -> u8 {
        1
    }
    fn false_elem(&mut self) -> u8 {
        2
    }
}
pub struct Canonical;
impl Style for Canonical {}

/// Draws every free encoding choice.
pub struct Drawn<'a> {
    pub src: &'a mut Source,
    /// probability (in 8ths) of the unusual form
    pub rate: u64,
    pub used: u64,
}
impl Drawn<'_> {
    fn odd(&mut self) -> bool {
        let r = self.rate > 0 && self.src.chance(self.rate, 8);
        self.used += r as u64;
        r
    }
}
impl Style for Drawn<'_> {
    fn long_field_header(&mut self) -> bool {
        self.odd()
    }
    fn long_list_header(&mut self) -> bool {
        self.odd()
    }
    fn bool_elem_code(&mut self) -> u8 {
        if self.odd() {
            2
        } else {
            1
        }
    }
    fn false_elem(&mut self) -> u8 {
        if self.odd() {
            0
        } else {
            2
        }
    }
}

pub fn put_field_header(out: &mut Vec<u8>, last: i16, id: i16, code: u8, long: bool) {
    let d = id as i32 - last as i32;
    if (1..=15).contains(&d) && !long {
        out.push(((d as u8) << 4) | code);
    } else {
        out.push(code);
        put_varint(out, zigzag(id as i64));
    }
}

pub fn put_list_header(out: &mut Vec<u8>, code: u8, n: usize, long: bool) {
    if n < 15 && !long {
        out.push(((n as u8) << 4) | code);
    } else {
        out.push(0xF0 | code);
        put_varint(out, n as u64);
    }
}

pub fn encode(v: &TV, out: &mut Vec<u8>, st: &mut dyn Style) {
    match v {
        // only reached for collection elements; fields carry the value in their header
        TV::Bool(true) => out.push(1),
        TV::Bool(false) => out.push(st.false_elem()),
        TV::I8(x) => out.push(*x as u8),
        TV::I16(x) => put_varint(out, zigzag(*x as i64)),
        TV::I32(x) => put_varint(out, zigzag(*x as i64)),
        TV::I64(x) => put_varint(out, zigzag(*x)),
        TV::Double(b) => out.extend_from_slice(&b.to_le_bytes()),
        TV::Bin(b) => {
            put_varint(out, b.len() as u64);
            out.extend_from_slice(b);
        }
        TV::List(t, xs) | TV::Set(t, xs) => {
            let code = if *t == TT::Bool { st.bool_elem_code() } else { t.code() };
            put_list_header(out, code, xs.len(), st.long_list_header());
            for x in xs {
                encode(x, out, st);
            }
        }
        TV::Map(k, t, xs) => {
            put_varint(out, xs.len() as u64);
            if !xs.is_empty() {
                let kc = if *k == TT::Bool { st.bool_elem_code() } else { k.code() };
                let vc = if *t == TT::Bool { st.bool_elem_code() } else { t.code() };
                out.push((kc << 4) | vc);
                for (a, b) in xs {
                    encode(a, out, st);
                    encode(b, out, st);
                }
            }
        }
        TV::Struct(fs) => {
            let mut last = 0i16;
            for (id, x) in fs {
                let code = match x {
                    TV::Bool(b) => {
                        if *b {
                            1
                        } else {
                            2
                        }
                    }
                    _ => x.tt().code(),
                };
                put_field_header(out, last, *id, code, st.long_field_header());
                last = *id;
                if !matches!(x, TV::Bool(_)) {
                    encode(x, out, st);
                }
            }
            out.push(0);
        }
    }
}

pub fn encode_canonical(v: &TV) -> Vec<u8> {
    let mut out = vec![];
    encode(v, &mut out, &mut Canonical);
    out
}

/// Strict reference decoder.
pub struct Dec<'a> {
    pub b: &'a [u8],
    pub pos: usize,
}

type D<T> = Result<T, String>;

impl<'a> Dec<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Dec { b, pos: 0 }
    }
    pub fn byte(&mut self) -> D<u8> {
        let x = *self.b.get(self.pos).ok_or("eof")?;
        self.pos += 1;
        Ok(x)
    }
    pub fn take(&mut self, n: usize) -> D<&'a [u8]> {
        let e = self.pos.checked_add(n).filter(|e| *e <= self.b.len()).ok_or("eof")?;
        let r = &self.b[self.pos..e];
        self.pos = e;
        Ok(r)
    }
    pub fn varint(&mut self, bits: u32) -> D<u64> {
        let mut r: u128 = 0;
        let mut shift = 0;
        loop {
            let x = self.byte()?;
            r |= ((x & 0x7f) as u128) << shift;
            if x & 0x80 == 0 {
                if x == 0 && shift > 0 {
                    return Err("varint not minimal".into());
                }
                if r >> bits != 0 {
                    return Err("varint too wide".into());
                }
                return Ok(r as u64);
            }
            shift += 7;
            if shift >= 70 {
                return Err("varint too long".into());
            }
        }
    }
    pub fn zz(&mut self, bits: u32) -> D<i64> {
        Ok(unzigzag(self.varint(bits)?))
    }
    pub fn value(&mut self, t: TT) -> D<TV> {
        Ok(match t {
            TT::Bool => match self.byte()? {
                1 => TV::Bool(true),
                2 => TV::Bool(false),
                x => return Err(format!("bool element {x}")),
            },
            TT::I8 => TV::I8(self.byte()? as i8),
            TT::I16 => TV::I16(self.zz(16)? as i16),
            TT::I32 => TV::I32(self.zz(32)? as i32),
            TT::I64 => TV::I64(self.zz(64)?),
            TT::Double => TV::Double(u64::from_le_bytes(self.take(8)?.try_into().unwrap())),
            TT::Bin => {
                let n = self.varint(32)? as usize;
                TV::Bin(self.take(n)?.to_vec())
            }
            TT::List | TT::Set => {
                let h = self.byte()?;
                let et = TT::from_elem_code(h & 15).ok_or_else(|| format!("element code {}", h & 15))?;
                let n = if h >> 4 == 15 { self.varint(32)? as usize } else { (h >> 4) as usize };
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.value(et)?);
                }
                if t == TT::List {
                    TV::List(et, v)
                } else {
                    TV::Set(et, v)
                }
            }
            TT::Map => {
                let n = self.varint(32)? as usize;
                if n == 0 {
                    TV::Map(TT::Bool, TT::Bool, vec![])
                } else {
                    let h = self.byte()?;
                    let kt = TT::from_elem_code(h >> 4).ok_or("map key code")?;
                    let vt = TT::from_elem_code(h & 15).ok_or("map value code")?;
                    let mut v = vec![];
                    for _ in 0..n {
                        let a = self.value(kt)?;
                        v.push((a, self.value(vt)?));
                    }
                    TV::Map(kt, vt, v)
                }
            }
            TT::Struct => {
                let mut last = 0i16;
                let mut v = vec![];
                loop {
                    let h = self.byte()?;
                    if h & 15 == 0 {
                        if h != 0 {
                            return Err(format!("stop byte {h:#x}"));
                        }
                        return Ok(TV::Struct(v));
                    }
                    let id = if h >> 4 == 0 {
                        self.zz(16)? as i16
                    } else {
                        i16::try_from(last as i32 + (h >> 4) as i32).map_err(|_| "field id overflow")?
                    };
                    last = id;
                    let x = match h & 15 {
                        1 => TV::Bool(true),
                        2 => TV::Bool(false),
                        c => self.value(TT::from_elem_code(c).ok_or_else(|| format!("field code {c}"))?)?,
                    };
                    v.push((id, x));
                }
            }
        })
    }
}

pub fn decode_struct(b: &[u8]) -> D<(TV, usize)> {
    let mut d = Dec::new(b);
    let v = d.value(TT::Struct)?;
    Ok((v, d.pos))
}

/// The bytes are exactly one encoding the specification allows of the value (fields in any order
/// for values of a known type, in the given order otherwise).
pub fn conforms(b: &[u8], v: &TV, any_order: bool) -> Result<(), String> {
    let mut d = Dec::new(b);
    let got = d.value(v.tt()).map_err(|e| format!("not compact protocol ({e} at {})", d.pos))?;
    let same = if any_order { got.sorted() == v.norm().sorted() } else { got == v.norm() };
    if !same {
        return Err(format!("the bytes decode to {got:?}"));
    }
    if d.pos != b.len() {
        return Err(format!("the value ends after {} of {} bytes", d.pos, b.len()));
    }
    Ok(())
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}
