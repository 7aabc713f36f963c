//! Generators of scalars, strings and generic Thrift values.
use crate::dict::dict;
use crate::engine::Source;
use crate::model::*;
use crate::schema::{Root, FT};

/// Per-case generation context: `fuel` bounds the total size, `density` says how often optional
/// parts are present.
pub struct G {
    pub fuel: i64,
    /// 0: never, 1: rarely, 2: half, 3: mostly, 4: always
    pub density: u64,
    /// allow long strings / long lists
    pub big: bool,
    /// a size to be used for one list or string of the value
    pub spot: Option<Spot>,
    /// the field being generated
    pub at: (&'static str, i16),
    /// what the value has held so far, so that parts of it come to be equal
    pub seen: Seen,
}

#[derive(Default)]
pub struct Seen {
    ints: Vec<i64>,
    bins: Vec<Vec<u8>>,
    lists: Vec<usize>,
    n: usize,
}

fn keep<T>(v: &mut Vec<T>, n: &mut usize, x: T) {
    *n += 1;
    if v.len() < 8 {
        v.push(x);
    } else {
        v[*n % 8] = x;
    }
}

pub struct Spot {
    owner: &'static str,
    id: i16,
    list: bool,
    /// generic lists (strings) still to pass over
    skip: usize,
    size: usize,
}

/// a list, string or binary field (or the strings in a list field)
struct Target {
    owner: &'static str,
    id: i16,
    list: bool,
}
fn targets() -> &'static [Target] {
    static T: std::sync::OnceLock<Vec<Target>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut v = vec![];
        for sc in crate::schema::roots().iter().filter_map(|r| r.schema()) {
            for f in &sc.fields {
                let mut add = |list| v.push(Target { owner: sc.name, id: f.id, list });
                match f.ft {
                    FT::Str | FT::Bin => add(false),
                    FT::List(e) => {
                        add(true);
                        if matches!(e, FT::Str | FT::Bin) {
                            add(false);
                        }
                    }
                    _ => {}
                }
            }
        }
        v
    })
}
fn spots(often: u64) -> u64 {
    if dict().fresh.is_empty() {
        often
    } else {
        often / 3
    }
}

/// sizes at which something could change: widths of integers, encodings, plausible buffers, and
/// what the crate's source mentions
fn spot_size(s: &mut Source) -> usize {
    let d = dict();
    let w = if d.fresh.iter().any(|x| (2..=16 << 20).contains(x)) { 60 } else { 0 };
    match s.weighted(&[24, 12, 10, 4, 3, w, 1]) {
        6 => {
            let x = s.pick(&[1i64 << 20, 1 << 20, 1 << 20, 1 << 21]);
            (x + s.range(-1, 1)) as usize
        }
        0 => s.pick(&[15, 16, 31, 32, 63, 64, 127, 128, 129, 254, 255, 256, 257]),
        1 => s.range(129, 1100) as usize,
        2 => (s.pick(&[512i64, 1000, 1024, 2048, 4096, 5000, 8192, 10_000, 16_384]) + s.range(-1, 1)) as usize,
        3 => s.pick(&[32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 66_000, 70_000]),
        4 => s.range(1100, 70_000) as usize,
        _ => {
            let xs: Vec<i64> = d.fresh.iter().copied().filter(|x| (2..=16 << 20).contains(x)).collect();
            let x = s.pick(&xs);
            // the large ones are expensive
            if x > 20_000 && !s.chance(1, 4 + (x as u64 >> 17)) {
                return 300;
            }
            (x + s.range(-1, 2)) as usize
        }
    }
}

impl G {
    pub fn new(s: &mut Source) -> G {
        let density = s.weighted(&[3, 3, 5, 3, 4]) as u64;
        let k = s.weighted(&[12, 4, 1]);
        let mut g = G { fuel: [60, 400, 3000][k], density, big: k >= 1, spot: None, at: ("", 0), seen: Seen::default() };
        if g.big {
            crate::alloc::raise_ceiling(256 << 20);
        }
        if s.chance(1, spots(300)) {
            let list = s.chance(2, 3);
            let skip = s.below(4);
            g.aim("", 0, list, skip, s);
        }
        g
    }
    fn aim(&mut self, owner: &'static str, id: i16, list: bool, skip: usize, s: &mut Source) {
        let size = spot_size(s);
        crate::alloc::raise_ceiling(if size > 2000 { 2 << 30 } else { 256 << 20 });
        self.spot = Some(Spot { owner, id, list, skip, size });
    }
    /// for a value of this type: large in one of `large` cases, with one field of a special size in one of `often`
    pub fn of(s: &mut Source, root: &Root, large: u64, often: u64) -> G {
        let mut g = if s.chance(1, large) { G::new(s) } else { G::small(s) };
        if s.chance(1, spots(often)) {
            let own: Vec<&Target> = targets().iter().filter(|t| t.owner == root.name).collect();
            if !own.is_empty() {
                let t = own[s.below(own.len())];
                g.aim(t.owner, t.id, t.list, 0, s);
            }
        }
        g
    }
    /// a type and a context in which one field of it, or of a type inside it, has a special size
    pub fn spotted(s: &mut Source) -> (&'static Root, G) {
        let all = targets();
        let t = &all[s.below(all.len())];
        let mut g = G::small(s);
        g.aim(t.owner, t.id, t.list, 0, s);
        (crate::schema::root(t.owner), g)
    }
    /// an optional field is made present for its size
    pub fn wants(&self) -> bool {
        self.spot.as_ref().is_some_and(|p| (p.owner, p.id) == self.at)
    }
    /// the one-time size, if it is to be used here; `most` bounds it
    fn spot(&mut self, list: bool, most: usize) -> Option<usize> {
        let at = self.at;
        let p = self.spot.as_mut().filter(|p| p.list == list && (p.owner, p.id) == at)?;
        if p.skip > 0 {
            p.skip -= 1;
            return None;
        }
        let n = p.size.min(most);
        self.spot = None;
        Some(n)
    }
    pub fn small(s: &mut Source) -> G {
        G { fuel: 60, density: s.weighted(&[1, 1, 2, 1, 1]) as u64, big: false, spot: None, at: ("", 0), seen: Seen::default() }
    }
    /// an integer; now and then one that was there before, or one next to it
    pub fn int(&mut self, s: &mut Source, bits: u32) -> i64 {
        let old = &self.seen.ints;
        let x = if !old.is_empty() && s.chance(1, 12) {
            let x = old[s.below(old.len())];
            let x = match s.weighted(&[10, 1, 1, 1]) {
                0 => x,
                1 => x.wrapping_add(1),
                2 => x.wrapping_sub(1),
                _ => x.wrapping_neg(),
            };
            let max = i64::MAX >> (64 - bits);
            x.clamp(-max - 1, max)
        } else {
            int(s, bits)
        };
        keep(&mut self.seen.ints, &mut self.seen.n, x);
        x
    }
    /// a text or (`raw`) bytes; now and then what was there before, in full or in part
    pub fn string(&mut self, s: &mut Source, raw: bool) -> Vec<u8> {
        if let Some(t) = known_text(s) {
            return t.into_bytes();
        }
        let old = &self.seen.bins;
        if !old.is_empty() && s.chance(1, 12) && !(self.spot.is_some() && self.wants()) {
            let mut x = old[s.below(old.len())].clone();
            match s.weighted(&[8, 1, 1]) {
                0 => {}
                1 => x.push(b'x'),
                _ => drop(x.pop()),
            }
            if raw || std::str::from_utf8(&x).is_ok() {
                self.fuel -= x.len() as i64 / 8;
                return x;
            }
        }
        let n = self.str_len(s);
        let x = if raw { fill(s, n) } else { text(s, n).into_bytes() };
        if n <= 300 {
            keep(&mut self.seen.bins, &mut self.seen.n, x.clone());
        }
        x
    }
    pub fn some(&mut self, s: &mut Source) -> bool {
        match self.density {
            0 => false,
            1 => s.chance(1, 5),
            2 => s.chance(1, 2),
            3 => s.chance(4, 5),
            _ => true,
        }
    }
    /// length of a list whose elements cost `cost` fuel each
    pub fn list_len(&mut self, s: &mut Source, cost: i64) -> usize {
        if let Some(n) = self.spot(true, 70_100) {
            return n;
        }
        let old = &self.seen.lists;
        let n = match s.weighted(&[2, 4, 3, 3, 3, 2, 1, 1]) {
            0 => 0,
            // as long as another list
            7 if !old.is_empty() => old[s.below(old.len())],
            1 | 7 => 1,
            2 => 2,
            3 => s.range(3, 13) as usize,
            4 => s.range(14, 17) as usize,
            5 => s.range(17, 140) as usize,
            _ => {
                if self.big && cost <= 2 {
                    match s.weighted(&[8, 4, 2, 1]) {
                        0 => s.range(126, 131) as usize,
                        1 => s.range(250, 600) as usize,
                        2 => s.range(16380, 16390) as usize,
                        _ => s.range(65530, 66000) as usize,
                    }
                } else {
                    s.range(14, 18) as usize
                }
            }
        };
        let few = if self.fuel > -200 && s.chance(1, 6) { 4 } else { 1 };
        let room = if self.big && cost <= 2 { n } else { ((self.fuel / cost.max(1)).max(0) as usize).max(few) };
        let n = n.min(room);
        self.fuel -= (n as i64 * cost).min(2000);
        if n > 0 && n < 1000 {
            keep(&mut self.seen.lists, &mut self.seen.n, n);
            keep(&mut self.seen.ints, &mut self.seen.n, n as i64);
        }
        n
    }
    pub fn str_len(&mut self, s: &mut Source) -> usize {
        if let Some(n) = self.spot(false, 17 << 20) {
            return n;
        }
        let n = match s.weighted(&[4, 8, 3, 2, 1]) {
            0 => 0,
            1 => s.range(1, 12) as usize,
            2 => s.range(13, 60) as usize,
            3 => s.range(120, 135) as usize,
            _ => {
                if self.big {
                    match s.weighted(&[240, 120, 60, 1]) {
                        0 => s.range(250, 2000) as usize,
                        1 => s.range(16380, 16390) as usize,
                        2 => s.range(65530, 70000) as usize,
                        _ => {
                            let base = s.pick(&[1i64 << 20, 1 << 21]);
                            (base + s.range(-3, 3)) as usize
                        }
                    }
                } else {
                    s.range(126, 131) as usize
                }
            }
        };
        let n = if self.fuel <= 0 { n.min(3) } else { n };
        self.fuel -= (n as i64 / 8).min(100).max(n as i64 / 2000);
        n
    }
}

/// interesting integers of `bits` width: small, around every varint length boundary, powers of
/// two, extremes, uniform
pub fn int(s: &mut Source, bits: u32) -> i64 {
    let min = if bits == 64 { i64::MIN } else { -(1i64 << (bits - 1)) };
    let max = if bits == 64 { i64::MAX } else { (1i64 << (bits - 1)) - 1 };
    let d = dict();
    match s.weighted(&[24, 12, 24, 12, 8, 16, 2 + 8 * !d.fresh.is_empty() as u64]) {
        6 if !d.ints.is_empty() => {
            let x = if !d.fresh.is_empty() && s.chance(7, 8) { s.pick(&d.fresh) } else { s.pick(&d.ints) };
            let x = x.saturating_add(s.pick(&[0, 0, 0, 1, -1]));
            (if s.chance(1, 4) { -x } else { x }).clamp(min, max)
        }
        0 | 6 => s.range(0, 20),
        1 => s.range(-20, 20).clamp(min, max),
        2 => {
            // zigzag boundaries: varint length changes at 2^(7k-1)
            let k = 1 + s.below(((bits as usize) - 1) / 7);
            let e = 7 * k as u32 - 1;
            let base = if e >= 63 { i64::MAX } else { 1i64 << e };
            let d = s.range(-2, 2);
            let v = base.saturating_add(d);
            let v = if s.bool() { v.wrapping_neg() } else { v };
            v.clamp(min, max)
        }
        3 => {
            let e = s.below(bits as usize - 1) as u32;
            let v = (1i64 << e).saturating_add(s.range(-1, 1));
            let v = if s.bool() { v.wrapping_neg() } else { v };
            v.clamp(min, max)
        }
        4 => s.pick(&[max, min, max - 1, min + 1, -1]),
        _ => {
            // uniform within `bits`
            let r = s.u64();
            if bits == 64 {
                r as i64
            } else {
                (r as i64) >> (64 - bits)
            }
        }
    }
}

/// `n` bytes derived from one draw, so that long payloads keep the tape short
pub fn fill(s: &mut Source, n: usize) -> Vec<u8> {
    if n <= 8 {
        return (0..n).map(|_| s.byte()).collect();
    }
    let kind = s.below(3);
    let b = s.byte();
    match kind {
        0 => vec![b; n],
        1 => (0..n).map(|i| b.wrapping_add(i as u8)).collect(),
        _ => {
            let mut x = (b as u32).wrapping_mul(2654435761).wrapping_add(12345);
            (0..n)
                .map(|_| {
                    x = x.wrapping_mul(1664525).wrapping_add(1013904223);
                    (x >> 24) as u8
                })
                .collect()
        }
    }
}

pub fn text(s: &mut Source, n: usize) -> String {
    const ABC: &[char] = &['a', 'b', 'z', 'A', '0', '_', '.', ' ', '\0', '\n', '\u{7f}', 'é', 'ß', 'Ω', '中', '\u{feff}', '\u{fffd}', '😀', '\u{10ffff}'];
    if n <= 8 {
        return (0..n).map(|_| ABC[s.below(ABC.len())]).collect();
    }
    let a = s.below(ABC.len());
    let step = s.below(4);
    // `n` bytes at least, exactly `n` for one-byte alphabets
    let mut out = String::with_capacity(n + 4);
    let mut i = a;
    while out.len() < n {
        let c = ABC[i % ABC.len()];
        if out.len() + c.len_utf8() > n {
            out.push('x');
        } else {
            out.push(c);
        }
        i += step;
    }
    out
}

/// now and then, a text from the dictionary
pub fn known_text(s: &mut Source) -> Option<String> {
    let d = dict();
    let fresh = !d.fresh_texts.is_empty();
    if d.texts.is_empty() || !s.chance(1, if fresh { 12 } else { 60 }) {
        return None;
    }
    let xs = if fresh && s.chance(7, 8) { &d.fresh_texts } else { &d.texts };
    let mut t = xs[s.below(xs.len())].clone();
    match s.weighted(&[6, 1, 1, 1]) {
        0 => {}
        1 => {
            let n = s.below(6);
            t.push_str(&text(s, n))
        }
        2 => {
            let n = 1 + s.below(6);
            t = text(s, n) + &t
        }
        _ => t = t.repeat(2 + s.below(3)),
    }
    Some(t)
}

pub fn elem_tt(s: &mut Source, depth: usize) -> TT {
    if depth <= 1 {
        ALL_TT[s.below(7)]
    } else {
        ALL_TT[s.weighted(&[4, 3, 3, 3, 3, 3, 4, 3, 3, 3, 5])]
    }
}

/// a generic value of type `t` nested at most `depth` deep
pub fn tv(s: &mut Source, g: &mut G, t: TT, depth: usize) -> TV {
    g.fuel -= 1;
    match t {
        TT::Bool => TV::Bool(s.bool()),
        TT::I8 => TV::I8(g.int(s, 8) as i8),
        TT::I16 => TV::I16(g.int(s, 16) as i16),
        TT::I32 => TV::I32(g.int(s, 32) as i32),
        TT::I64 => TV::I64(g.int(s, 64)),
        TT::Double => TV::Double(match s.weighted(&[2, 2, 2]) {
            0 => 0,
            1 => s.pick(&[
                1.5f64.to_bits(),
                (-0.0f64).to_bits(),
                f64::INFINITY.to_bits(),
                f64::NEG_INFINITY.to_bits(),
                f64::NAN.to_bits(),
                0x7ff0_0000_0000_0001,
                1,
                f64::MAX.to_bits(),
            ]),
            _ => s.u64(),
        }),
        TT::Bin => {
            // generic strings are written with the string writer half of the time: keep them UTF-8
            TV::Bin(g.string(s, false))
        }
        TT::List | TT::Set => {
            let et = elem_tt(s, depth - 1);
            let n = if depth <= 1 { 0 } else { g.list_len(s, if (et as usize) < 7 { 1 } else { 8 }) };
            let n = if (et as usize) < 7 { n } else { n.min(2000) };
            let v = many(s, g, n, |s, g| tv(s, g, et, depth - 1));
            if t == TT::List {
                TV::List(et, v)
            } else {
                TV::Set(et, v)
            }
        }
        TT::Map => {
            let kt = elem_tt(s, depth - 1);
            let vt = elem_tt(s, depth - 1);
            let n = if depth <= 1 { 0 } else { g.list_len(s, 10) };
            let n = if (kt as usize).max(vt as usize) < 7 { n } else { n.min(2000) };
            TV::Map(kt, vt, many(s, g, n, |s, g| (tv(s, g, kt, depth - 1), tv(s, g, vt, depth - 1))))
        }
        TT::Struct => strukt(s, g, depth),
    }
}

/// `n` values; when they are many, a few drawn ones over and over
pub fn many<T: Clone>(s: &mut Source, g: &mut G, n: usize, mut one: impl FnMut(&mut Source, &mut G) -> T) -> Vec<T> {
    if n <= 150 {
        // now and then elements repeat
        let again = if n > 1 { s.weighted(&[9, 2, 1]) } else { 0 };
        let mut v: Vec<T> = Vec::with_capacity(n);
        // what the elements took of the fuel
        let mut cost: Vec<i64> = Vec::with_capacity(n);
        for i in 0..n {
            if again > 0 && i > 0 && (again > 1 || s.chance(1, 3)) {
                let j = if again > 1 || s.chance(2, 3) { i - 1 } else { s.below(i) };
                if cost[j] <= g.fuel.max(3) {
                    v.push(v[j].clone());
                    cost.push(cost[j]);
                    g.fuel -= cost[j];
                    continue;
                }
            }
            let (fuel, spot) = (g.fuel, g.spot.is_some());
            v.push(one(s, g));
            cost.push(if spot && g.spot.is_none() { i64::MAX } else { (fuel - g.fuel).max(0) });
        }
        return v;
    }
    // small ones
    let (fuel, density) = if n > 4000 { (3, g.density.min(1)) } else { (30, g.density.min(2)) };
    let mut small = G { fuel, density, big: false, spot: None, at: ("", 0), seen: Seen::default() };
    let k = 1 + s.below(7);
    let some: Vec<T> = (0..k).map(|_| one(s, &mut small)).collect();
    (0..n).map(|i| some[i % k].clone()).collect()
}

/// a generic struct: ids step by small or large deltas in both directions
pub fn strukt(s: &mut Source, g: &mut G, depth: usize) -> TV {
    g.fuel -= 1;
    if depth <= 1 {
        return TV::Struct(vec![]);
    }
    let n = match s.weighted(&[2, 4, 4, 2, 1]) {
        0 => 0,
        1 => 1,
        2 => s.range(2, 4) as usize,
        3 => s.range(5, 9) as usize,
        _ => s.range(10, 20) as usize,
    };
    let n = n.min((g.fuel.max(0) as usize).max(1));
    let mut fs: Vec<(i16, TV)> = vec![];
    let mut last = 0i16;
    for _ in 0..n {
        let mut id = next_id(s, last);
        while fs.iter().any(|(i, _)| *i == id) {
            id = id.wrapping_add(1);
        }
        let t = elem_tt(s, depth - 1);
        let v = tv(s, g, t, depth - 1);
        fs.push((id, v));
        last = id;
    }
    TV::Struct(fs)
}

pub fn next_id(s: &mut Source, last: i16) -> i16 {
    match s.weighted(&[6, 4, 2, 2, 1, 1]) {
        0 => last.wrapping_add(1),
        1 => last.wrapping_add(s.range(2, 17) as i16),
        2 => last.wrapping_add(s.range(14, 16) as i16),
        3 => int(s, 16) as i16,
        4 => last.wrapping_sub(s.range(1, 20) as i16),
        _ => s.pick(&[0, -1, i16::MAX, i16::MIN, i16::MAX - 1, i16::MIN + 1]),
    }
}

/// a value nested exactly `depth` deep along one spine
pub fn spine(s: &mut Source, depth: usize) -> TV {
    if depth <= 1 {
        return match s.below(7) {
            0 => TV::I32(7),
            1 => TV::Bool(s.bool()),
            2 => {
                let n = s.pick(&[1, 1, 3, 100, 300]);
                TV::Bin(vec![b'x'; n])
            }
            3 => TV::Struct(vec![]),
            4 => TV::List(TT::I64, vec![]),
            5 => TV::Map(TT::I8, TT::Bool, vec![]),
            _ => TV::Double(s.u64()),
        };
    }
    let inner = spine(s, depth - 1);
    let t = inner.tt();
    match s.below(5) {
        0 => {
            let mut v = vec![];
            if s.bool() {
                v.push((1, TV::Bool(s.bool())));
            }
            v.push((3, inner));
            if s.bool() {
                let x = match s.below(3) {
                    0 => TV::Bin(vec![b'y'; s.pick(&[0, 1, 20, 130])]),
                    1 if depth > 2 => TV::List(TT::I32, vec![TV::I32(5); s.pick(&[0, 1, 17])]),
                    _ => TV::I16(4),
                };
                v.push((9, x));
            }
            TV::Struct(v)
        }
        1 => TV::List(t, vec![inner]),
        2 => TV::Set(t, vec![inner]),
        3 => TV::Map(TT::I32, t, vec![(TV::I32(1), inner)]),
        _ => TV::Map(t, TT::Bool, vec![(inner, TV::Bool(s.bool()))]),
    }
}
