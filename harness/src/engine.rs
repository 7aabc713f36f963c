//! Choice-tape property engine: every random decision of a case is a draw from a `Source`, so a
//! case is fully described by its tape, shrinks generically, and replays bit for bit.
use std::collections::BTreeMap;
use std::io::Write;

/// xoshiro256** seeded through splitmix64; only the engine uses it.
#[derive(Clone)]
pub struct Rng([u64; 4]);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut s = 0x1234_5678_9ABC_DEF0u64;
    for p in parts {
        s ^= *p;
        s = splitmix(&mut s);
    }
    s
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x0000_0100_0000_01B3);
        h ^= h >> 29;
    }
    h ^ (b.len() as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15)
}

enum Mode {
    Random(Rng),
    Tape { tape: Vec<u64>, pos: usize },
    Bytes { data: Vec<u8>, pos: usize },
}

pub struct Source {
    mode: Mode,
    /// the draws made so far (normalised), i.e. the tape of this case
    pub used: Vec<u64>,
    trace: Option<std::fs::File>,
}

impl Source {
    pub fn random(seed: u64) -> Source {
        Source { mode: Mode::Random(Rng::new(seed)), used: vec![], trace: None }
    }
    pub fn tape(tape: Vec<u64>) -> Source {
        Source { mode: Mode::Tape { tape, pos: 0 }, used: vec![], trace: None }
    }
    pub fn bytes(data: Vec<u8>) -> Source {
        Source { mode: Mode::Bytes { data, pos: 0 }, used: vec![], trace: None }
    }
    pub fn trace_to(&mut self, f: std::fs::File) {
        self.trace = Some(f);
    }

    /// uniform in `0..n` (`n == 0` means the whole of u64)
    pub fn draw(&mut self, n: u64) -> u64 {
        let v = match &mut self.mode {
            Mode::Random(r) => {
                let x = r.next();
                if n == 0 {
                    x
                } else {
                    ((x as u128 * n as u128) >> 64) as u64
                }
            }
            Mode::Tape { tape, pos } => {
                let x = tape.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                if n == 0 {
                    x
                } else if x < n {
                    x
                } else {
                    x % n
                }
            }
            Mode::Bytes { data, pos } => {
                let width = match n {
                    1 => 0,
                    2..=0x100 => 1,
                    0x101..=0x1_0000 => 2,
                    0x1_0001..=0x1_0000_0000 => 4,
                    _ => 8,
                };
                let mut x = 0u64;
                for i in 0..width {
                    x |= (data.get(*pos + i).copied().unwrap_or(0) as u64) << (8 * i);
                }
                *pos += width;
                if n == 0 {
                    x
                } else {
                    x % n
                }
            }
        };
        self.used.push(v);
        if let Some(f) = &mut self.trace {
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }

    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo.wrapping_add(self.draw((hi.wrapping_sub(lo) as u64).wrapping_add(1)) as i64)
    }
    pub fn u64(&mut self) -> u64 {
        self.draw(0)
    }
    /// true with probability num/den; false is the simple outcome
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.draw(2) == 1
    }
    pub fn byte(&mut self) -> u8 {
        self.draw(256) as u8
    }
    /// index chosen by weight; index 0 is the simple outcome
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.draw(total);
        for (i, k) in w.iter().enumerate() {
            if x < *k {
                return i;
            }
            x -= *k;
        }
        unreachable!()
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())]
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub msg: String,
}

pub type R<T = ()> = Result<T, Fail>;

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::engine::Fail { msg: format!($($a)*) }) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::engine::Fail { msg: format!($($a)*) }) } };
}

/// What one case reports about itself.
#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub hash: u64,
    pub labels: Vec<&'static str>,
    pub want_sample: bool,
    pub sample: Option<String>,
    /// elementary checks made in this case (oracle comparisons)
    pub oracle_calls: u64,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }
    pub fn note(&mut self, bytes: &[u8]) {
        self.hash = mix(&[self.hash, hash_bytes(bytes)]);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.sample.is_none() {
            let c = crate::alloc::set_ceiling(isize::MAX as usize);
            let mut s = f();
            crate::alloc::set_ceiling(c);
            if s.len() > 600 {
                let mut cut = 600;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                s.push_str("...");
            }
            self.sample = Some(s);
        }
    }
}

pub type PropFn = fn(&mut Source, &mut Ctx) -> R;

pub struct Prop {
    pub id: &'static str,
    pub run: PropFn,
    /// cases in the quick and in the thorough tier
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Run one case; a panic that escapes the property counts as a failure of it.
pub fn run_case(prop: &Prop, src: &mut Source, ctx: &mut Ctx) -> R {
    crate::alloc::reset_thread();
    // values and their copies; a length in a damaged input is kept from as much as that
    if ["C01", "C02", "C03", "C05", "C09", "C10", "C11", "C28", "C29", "C31", "C32"].contains(&prop.id) {
        crate::alloc::raise_ceiling(1 << 30);
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (prop.run)(src, ctx)));
    crate::alloc::set_ceiling(isize::MAX as usize);
    match r {
        Ok(r) => r,
        Err(_) => Err(Fail { msg: format!("panic: {}", last_panic()) }),
    }
}

/// Generic tape shrinker: delete blocks, zero blocks, then minimise values.
pub fn shrink(tape: Vec<u64>, budget: usize, mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let mut best = tape;
    let mut left = budget;
    let mut try_ = |cand: Vec<u64>, best: &mut Vec<u64>, left: &mut usize| -> bool {
        if *left == 0 {
            return false;
        }
        *left -= 1;
        if let Some(used) = fails(&cand) {
            let key = |t: &Vec<u64>| (t.len(), t.iter().map(|x| *x as u128).sum::<u128>());
            let c = if key(&used) < key(&cand) { used } else { cand };
            if key(&c) < key(best) {
                *best = c;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                let mut cand = best.clone();
                cand.drain(i..end);
                if !try_(cand, &mut best, &mut left) {
                    let mut cand = best.clone();
                    let end = (i + size).min(cand.len());
                    if cand[i..end].iter().any(|x| *x != 0) {
                        cand[i..end].iter_mut().for_each(|x| *x = 0);
                        try_(cand, &mut best, &mut left);
                    }
                    i += size;
                }
                if left == 0 {
                    return best;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            while i < best.len() && lo < best[i] {
                let mid = lo + (best[i] - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                if !try_(cand, &mut best, &mut left) {
                    lo = mid + 1;
                }
                if left == 0 {
                    return best;
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub oracle_calls: u64,
    pub distinct: std::collections::HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<(u64, String)>,
}

impl Stats {
    pub fn add(&mut self, idx: u64, ctx: Ctx) {
        self.evaluations += 1;
        self.oracle_calls += ctx.oracle_calls;
        if ctx.nontrivial {
            self.nontrivial += 1;
            self.distinct.insert(ctx.hash);
            if let Some(s) = ctx.sample {
                self.samples.push((idx, s));
            }
        }
        for l in ctx.labels {
            *self.labels.entry(l).or_default() += 1;
        }
    }
    pub fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.nontrivial += o.nontrivial;
        self.oracle_calls += o.oracle_calls;
        self.distinct.extend(o.distinct);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
    }
}
