//! How often the typed generator meets given conditions on each field of each type (a report for
//! the maintainer of the generators, not a check).
use crate::engine::Source;
use crate::gen::G;
use crate::model::TV;
use crate::schema::*;
use std::collections::BTreeMap;

type Counts = BTreeMap<String, u64>;

fn sizes(n: usize) -> Vec<&'static str> {
    let mut v = vec![];
    for (k, name) in [(0, "=0"), (1, "=1"), (2, "=2"), (14, "=14"), (15, "=15"), (16, "=16"), (127, "=127"), (128, "=128"), (255, "=255"), (256, "=256"), (65535, "=65535"), (65536, "=65536")] {
        if n == k {
            v.push(name);
        }
    }
    for (k, name) in [(3, ">=3"), (20, ">=20"), (100, ">=100"), (257, ">=257"), (1001, ">1000"), (5000, ">=5000"), (16384, ">=16384"), (32768, ">=32768"), (65537, ">65536"), (1 << 20, ">=1M")] {
        if n >= k {
            v.push(name);
        }
    }
    v
}

fn visit(v: &TV, ft: &FT, path: &str, c: &mut Counts) {
    let mut hit = |p: &str| *c.entry(format!("{path} {p}")).or_default() += 1;
    match (v, ft) {
        (TV::Bool(b), _) => hit(if *b { "true" } else { "false" }),
        (TV::I8(x), _) => ints(*x as i64, 8, &mut hit),
        (TV::I16(x), _) => ints(*x as i64, 16, &mut hit),
        (TV::I32(x), _) => ints(*x as i64, 32, &mut hit),
        (TV::I64(x), _) => ints(*x, 64, &mut hit),
        (TV::Bin(b), _) => {
            sizes(b.len()).into_iter().for_each(&mut hit);
            if b.contains(&0) {
                hit("has NUL");
            }
            if !b.is_ascii() {
                hit("not ASCII");
            }
        }
        (TV::List(_, xs), FT::List(e)) => {
            sizes(xs.len()).into_iter().for_each(&mut hit);
            for x in xs.iter().take(50) {
                visit(x, e, &format!("{path}[]"), c);
            }
        }
        (TV::Struct(fs), FT::Struct(sc)) => {
            let sc = sc();
            for d in &sc.fields {
                let p = format!("{}.{}", sc.name, d.name);
                let x = fs.iter().find(|x| x.0 == d.id);
                if !d.req {
                    *c.entry(format!("{p} {}", if x.is_some() { "present" } else { "absent" })).or_default() += 1;
                    for e in sc.fields.iter().filter(|e| !e.req && e.id > d.id && !sc.union) {
                        let y = fs.iter().any(|y| y.0 == e.id);
                        *c.entry(format!("{p} {} and {} {}", x.is_some() as u8, e.name, y as u8)).or_default() += 1;
                    }
                }
                if let Some(x) = x {
                    visit(&x.1, &d.ft, &p, c);
                }
            }
        }
        _ => {}
    }
}

fn ints(x: i64, bits: u32, hit: &mut impl FnMut(&str)) {
    let z = ((x << 1) ^ (x >> 63)) as u64;
    let len = (64 - z.leading_zeros()).max(1).div_ceil(7);
    hit(&format!("{} {len} bytes", if x < 0 { "negative" } else { "positive" }));
    let max = (1i128 << (bits - 1)) - 1;
    for (k, name) in [(0, "=0"), (1, "=1"), (-1, "=-1"), (max, "=MAX"), (-max - 1, "=MIN")] {
        if x as i128 == k {
            hit(name);
        }
    }
}

/// every condition that could be met on a field, so that the ones never met are listed as well
fn expected() -> Vec<String> {
    let mut out = vec![];
    for r in roots() {
        let Some(sc) = r.schema() else { continue };
        for d in &sc.fields {
            let p = format!("{}.{}", sc.name, d.name);
            let mut want = |p: &str, ft: &FT| {
                let mut a = |x: &str| out.push(format!("{p} {x}"));
                let all = ["=0", "=1", "=2", "=14", "=15", "=16", "=127", "=128", "=255", "=256", "=65535", "=65536", ">=3", ">=20", ">=100", ">=257", ">1000", ">=5000", ">=16384", ">=32768", ">65536"];
                match ft {
                    FT::Bool => ["true", "false"].into_iter().for_each(&mut a),
                    FT::I8 | FT::I16 | FT::I32 | FT::I64 => {
                        let n = match ft {
                            FT::I8 => 2,
                            FT::I16 => 3,
                            FT::I32 => 5,
                            _ => 10,
                        };
                        for k in 1..=n {
                            a(&format!("positive {k} bytes"));
                            a(&format!("negative {k} bytes"));
                        }
                        ["=0", "=1", "=-1", "=MAX", "=MIN"].into_iter().for_each(&mut a)
                    }
                    FT::Str | FT::Bin => {
                        all.into_iter().for_each(&mut a);
                        ["has NUL", "not ASCII", ">=1M"].into_iter().for_each(&mut a)
                    }
                    FT::List(_) => all.into_iter().for_each(&mut a),
                    FT::Struct(_) => {}
                }
            };
            want(&p, &d.ft);
            if let FT::List(e) = d.ft {
                want(&format!("{p}[]"), e);
            }
            if !d.req {
                out.push(format!("{p} present"));
                if !sc.union {
                    out.push(format!("{p} absent"));
                    for e in sc.fields.iter().filter(|e| !e.req && e.id > d.id) {
                        for k in ["0", "1"] {
                            for l in ["0", "1"] {
                                out.push(format!("{p} {k} and {} {l}", e.name));
                            }
                        }
                    }
                }
            }
        }
    }
    out
}

pub fn audit(cases: u64, least: u64) {
    let n = std::thread::available_parallelism().map_or(4, |x| x.get()) as u64;
    let mut total: Counts = BTreeMap::new();
    let parts: Vec<Counts> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                sc.spawn(move || {
                    let mut c = Counts::new();
                    for i in (t..cases).step_by(n as usize) {
                        crate::alloc::reset_thread();
                        let mut s = Source::random(crate::engine::mix(&[7, i]));
                        let (root, mut g) = if s.chance(1, 300) { G::spotted(&mut s) } else { (pick_root(&mut s), G::new(&mut s)) };
                        let v = (root.gen)(&mut s, &mut g);
                        visit(&v.tv(), &(root.ft)(), root.name, &mut c);
                    }
                    c
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for p in parts {
        for (k, v) in p {
            *total.entry(k).or_default() += v;
        }
    }
    let want = expected();
    let mut low: Vec<(u64, &String)> = want.iter().map(|k| (total.get(k).copied().unwrap_or(0), k)).filter(|x| x.0 < least).collect();
    low.sort();
    println!("{} conditions, {} met fewer than {least} times in {cases} cases", want.len(), low.len());
    for (k, p) in low {
        println!("{k:6} {p}");
    }
}
