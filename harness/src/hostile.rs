//! Structural edits of model values along the schema, and hostile byte strings.
use crate::engine::*;
use crate::gen::{self, G};
use crate::model::*;
use crate::schema::*;

pub fn for_structs(v: &mut TV, ft: FT, f: &mut dyn FnMut(&mut Vec<(i16, TV)>, &Schema)) {
    match (v, ft) {
        (TV::Struct(fs), FT::Struct(sc)) => {
            let sc = sc();
            for (id, x) in fs.iter_mut() {
                if let Some(fd) = sc.fields.iter().find(|d| d.id == *id) {
                    for_structs(x, fd.ft, f);
                }
            }
            f(fs, sc);
        }
        (TV::List(_, xs), FT::List(e)) => xs.iter_mut().for_each(|x| for_structs(x, *e, f)),
        _ => {}
    }
}
pub fn for_strings(v: &mut TV, ft: FT, f: &mut dyn FnMut(&mut Vec<u8>)) {
    match (v, ft) {
        (TV::Struct(fs), FT::Struct(sc)) => {
            for (id, x) in fs.iter_mut() {
                if let Some(fd) = sc().fields.iter().find(|d| d.id == *id) {
                    for_strings(x, fd.ft, f);
                }
            }
        }
        (TV::List(_, xs), FT::List(e)) => xs.iter_mut().for_each(|x| for_strings(x, *e, f)),
        (TV::Bin(b), FT::Str) => f(b),
        _ => {}
    }
}

/// Insert unknown fields into the (non-union) structs of `v`; returns how many.
pub fn inject_unknown(s: &mut Source, v: &mut TV, ft: FT, rate: u64) -> usize {
    let mut n = 0;
    let mut g = G { fuel: 80, density: 2, big: false, spot: None, at: ("", 0), seen: Default::default() };
    for_structs(v, ft, &mut |fs, sc| {
        if sc.union || g.fuel <= 0 {
            return;
        }
        let k = if s.chance(rate, 8) { 1 + s.below(3) } else { 0 };
        for _ in 0..k {
            let taken = |id: i16, fs: &Vec<(i16, TV)>| sc.fields.iter().any(|d| d.id == id) || fs.iter().any(|(i, _)| *i == id);
            let mut id = match s.weighted(&[3, 3, 1, 1]) {
                0 => sc.fields.iter().map(|d| d.id).max().unwrap_or(0) + 1 + s.below(18) as i16,
                1 => s.range(1, 20) as i16,
                2 => gen::int(s, 16) as i16,
                _ => s.pick(&[0, -1, i16::MAX, i16::MIN]),
            };
            while taken(id, fs) {
                id = id.wrapping_add(1);
            }
            let x = match s.weighted(&[8, 1, 2]) {
                0 => {
                    let t = gen::elem_tt(s, 4);
                    gen::tv(s, &mut g, t, 4)
                }
                1 => {
                    let d = if s.bool() { 1 + s.below(12) } else { 55 + s.below(10) };
                    gen::spine(s, d)
                }
                // not text: the wire does not tell strings from binaries
                _ => {
                    let n = 1 + s.below(12);
                    TV::Bin(gen::fill(s, n))
                }
            };
            let at = s.below(fs.len() + 1);
            fs.insert(at, (id, x));
            n += 1;
        }
    });
    n
}

pub fn permute(s: &mut Source, v: &mut TV, ft: FT) -> usize {
    let mut n = 0;
    for_structs(v, ft, &mut |fs, _| {
        if fs.len() > 1 && s.bool() {
            let before: Vec<i16> = fs.iter().map(|x| x.0).collect();
            if s.chance(1, 3) {
                fs.reverse();
            } else {
                for i in (1..fs.len()).rev() {
                    let j = i - s.below(i + 1);
                    fs.swap(i, j);
                }
            }
            n += (before != fs.iter().map(|x| x.0).collect::<Vec<_>>()) as usize;
        }
    });
    n
}

/// A fresh value of the schema's type.
pub fn typed(s: &mut Source, g: &mut G, ft: FT) -> TV {
    g.fuel -= 1;
    match ft {
        FT::Bool => TV::Bool(s.bool()),
        FT::I8 => TV::I8(gen::int(s, 8) as i8),
        FT::I16 => TV::I16(gen::int(s, 16) as i16),
        FT::I32 => TV::I32(gen::int(s, 32) as i32),
        FT::I64 => TV::I64(gen::int(s, 64)),
        FT::Str => {
            let n = s.below(6);
            TV::Bin(gen::text(s, n).into_bytes())
        }
        FT::Bin => {
            let n = s.below(6);
            TV::Bin(gen::fill(s, n))
        }
        FT::List(e) => {
            let n = if g.fuel > 0 { s.below(4) } else { 0 };
            TV::List(elem_type(*e), (0..n).map(|_| typed(s, g, *e)).collect())
        }
        FT::Struct(sc) => {
            let sc = sc();
            if sc.union {
                let d = &sc.fields[s.below(sc.fields.len())];
                return TV::Struct(vec![(d.id, typed(s, g, d.ft))]);
            }
            let mut fs = vec![];
            for d in &sc.fields {
                if d.req || (g.fuel > 0 && g.some(s)) {
                    fs.push((d.id, typed(s, g, d.ft)));
                }
            }
            TV::Struct(fs)
        }
    }
}
pub fn elem_type(e: FT) -> TT {
    match e {
        FT::Bool => TT::Bool,
        FT::I8 => TT::I8,
        FT::I16 => TT::I16,
        FT::I32 => TT::I32,
        FT::I64 => TT::I64,
        FT::Str | FT::Bin => TT::Bin,
        FT::List(_) => TT::List,
        FT::Struct(_) => TT::Struct,
    }
}

/// Type confusions, duplicates, removals along the schema.
pub fn disturb(s: &mut Source, v: &mut TV, ft: FT) {
    let mut g = G { fuel: 40, density: 2, big: false, spot: None, at: ("", 0), seen: Default::default() };
    for_structs(v, ft, &mut |fs, sc| {
        if !s.chance(1, 3) || fs.is_empty() {
            return;
        }
        let i = s.below(fs.len());
        match s.weighted(&[1, 1, 1, 1, 1, 4]) {
            0 => {
                fs.remove(i);
            }
            1 => {
                let x = fs[i].clone();
                fs.push(x);
            }
            2 => {
                let t = gen::elem_tt(s, 3);
                fs[i].1 = gen::tv(s, &mut g, t, 3);
            }
            3 => fs[i].0 = fs[i].0.wrapping_add(s.range(-3, 3) as i16),
            4 => {
                let t = gen::elem_tt(s, 3);
                let id = fs[i].0;
                let x = gen::tv(s, &mut g, t, 3);
                fs.push((id, x));
            }
            5 if !sc.fields.is_empty() => {
                // the same field again with another value of its type; or a field that is absent
                let d = &sc.fields[s.below(sc.fields.len())];
                if sc.union && d.id != fs[i].0 && s.bool() {
                    return;
                }
                let x = typed(s, &mut g, d.ft);
                let at = s.below(fs.len() + 1);
                fs.insert(at, (d.id, x));
            }
            _ => {}
        }
    });
}

/// Fields that come twice, with another value of their type, and unknown fields; all valid.
pub fn repeat(s: &mut Source, v: &mut TV, ft: FT) {
    let mut g = G { fuel: 60, density: 2, big: false, spot: None, at: ("", 0), seen: Default::default() };
    for_structs(v, ft, &mut |fs, sc| {
        if sc.union || sc.fields.is_empty() || !s.chance(1, 2) {
            return;
        }
        let k = 1 + s.below(2);
        for _ in 0..k {
            let d = &sc.fields[s.below(sc.fields.len())];
            let x = typed(s, &mut g, d.ft);
            let at = s.below(fs.len() + 1);
            fs.insert(at, (d.id, x));
        }
    });
}

/// Byte-level damage.
pub fn damage(s: &mut Source, b: &mut Vec<u8>) {
    let n = 1 + s.below(4);
    for _ in 0..n {
        let len = b.len();
        match s.weighted(&[4, 3, 2, 2, 2, 2, 1]) {
            0 if len > 0 => {
                let i = s.below(len);
                b[i] ^= 1 << s.below(8);
            }
            1 if len > 0 => {
                let i = s.below(len);
                b[i] = s.pick(&[0, 1, 2, 0x7f, 0x80, 0xff, 0xf9, 0xfc, 0x19, 0x1c, 0x0c, 0x18, 0x15, 0xf8, 0x8c]);
            }
            2 => {
                let i = s.below(len + 1);
                let k = 1 + s.below(5);
                let x = gen::fill(s, k);
                b.splice(i..i, x);
            }
            3 if len > 0 => {
                let i = s.below(len);
                let k = (1 + s.below(6)).min(len - i);
                b.drain(i..i + k);
            }
            4 => {
                let k = s.below(len + 1);
                b.truncate(k);
            }
            5 => {
                // a huge length or count
                let i = s.below(len + 1);
                let mut x = vec![];
                put_varint(&mut x, s.pick(&[u32::MAX as u64, 1 << 31, (1 << 31) - 1, 1 << 28, 1 << 20, 1 << 16, u64::MAX, 1 << 35]));
                let k = x.len().min(len - i);
                if s.bool() {
                    b.splice(i..i, x);
                } else {
                    b.splice(i..i + k, x);
                }
            }
            _ if len > 1 => {
                let i = s.below(len);
                let k = (1 + s.below(30)).min(len - i);
                let piece: Vec<u8> = b[i..i + k].to_vec();
                let at = s.below(len);
                b.splice(at..at, piece);
            }
            _ => b.push(s.byte()),
        }
    }
}

/// Bytes for `root`, from valid to arbitrary. The label says which family.
pub fn hostile(s: &mut Source, root: &Root) -> (Vec<u8>, &'static str) {
    let mut g = G::of(s, root, 6, 600);
    match s.weighted(&[3, 3, 4, 2, 2, 2, 1, 2]) {
        0 => {
            let v = (root.gen)(s, &mut g).tv();
            let mut b = vec![];
            let rate = s.below(3) as u64;
            encode(&v, &mut b, &mut Drawn { src: s, rate, used: 0 });
            (b, "valid")
        }
        1 => {
            let mut v = (root.gen)(s, &mut g).tv();
            inject_unknown(s, &mut v, (root.ft)(), 4);
            disturb(s, &mut v, (root.ft)());
            let mut b = vec![];
            encode(&v, &mut b, &mut Drawn { src: s, rate: 1, used: 0 });
            (b, "wrong structure")
        }
        2 => {
            let mut v = (root.gen)(s, &mut g).tv();
            if s.bool() {
                inject_unknown(s, &mut v, (root.ft)(), 2);
            }
            let mut b = encode_canonical(&v);
            damage(s, &mut b);
            (b, "damaged bytes")
        }
        3 => {
            let v = gen::strukt(s, &mut g, 5);
            (encode_canonical(&v), "foreign struct")
        }
        4 => {
            // plausible headers
            let n = s.below(60);
            let b = (0..n)
                .map(|_| match s.weighted(&[3, 3, 2, 2]) {
                    0 => (s.below(4) as u8) << 4 | s.below(13) as u8,
                    1 => s.byte(),
                    2 => s.pick(&[0x19, 0x1c, 0x15, 0x18, 0x0c, 0x1b, 0x1a, 0xfc, 0x11, 0x12]),
                    _ => s.below(20) as u8,
                })
                .collect();
            (b, "plausible bytes")
        }
        5 => {
            // deep nesting in an unknown field
            let mut v = (root.gen)(s, &mut G { fuel: 10, density: 1, big: false, spot: None, at: ("", 0), seen: Default::default() }).tv();
            let d = 1 + s.below(200);
            let x = gen::spine(s, d);
            if let TV::Struct(fs) = &mut v {
                let at = s.below(fs.len() + 1);
                fs.insert(at, (s.pick(&[77, 30, 15, 3, -4]), x));
            }
            (encode_canonical(&v), "deep nesting")
        }
        7 => {
            let mut v = (root.gen)(s, &mut g).tv();
            repeat(s, &mut v, (root.ft)());
            let mut b = vec![];
            encode(&v, &mut b, &mut Drawn { src: s, rate: 1, used: 0 });
            (b, "repeated fields")
        }
        _ => {
            let n = s.below(200);
            ((0..n).map(|_| s.byte()).collect(), "random bytes")
        }
    }
}

pub fn budget(s: &mut Source) -> usize {
    match s.weighted(&[4, 2, 2, 1]) {
        0 => usize::MAX,
        1 => s.below(64),
        2 => s.below(4096),
        _ => s.below(1 << 22),
    }
}
