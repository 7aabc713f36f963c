//! Literals of the crate's source, as candidates for generated integers, lengths and texts (as a
//! fuzzer's dictionary). Literals that the reviewed tree did not have are tried more often. The
//! dictionary only steers generation: no oracle looks at it.
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    pub ints: Vec<i64>,
    pub fresh: Vec<i64>,
    pub texts: Vec<String>,
    pub fresh_texts: Vec<String>,
}

static BASELINE: &str = include_str!("../dict.baseline");

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let now = scan(Path::new(&std::env::var("PFS_REPO").unwrap_or_else(|_| "/repo".to_string())));
        let base: BTreeMap<&str, u64> = BASELINE.lines().filter_map(|l| l.split_once(' ')).map(|(n, k)| (k, n.parse().unwrap_or(0))).collect();
        let mut d = Dict::default();
        for (k, n) in &now {
            let fresh = *n > base.get(k.as_str()).copied().unwrap_or(0);
            match k.split_at(2) {
                ("i ", x) => {
                    let Ok(x) = x.parse::<i64>() else { continue };
                    if x > 20 {
                        d.ints.push(x);
                    }
                    if fresh {
                        d.fresh.push(x);
                    }
                }
                (_, x) => {
                    let x: String = x.replace("\\n", "\n").replace("\\\\", "\\");
                    if fresh {
                        d.fresh_texts.push(x.clone());
                    }
                    d.texts.push(x);
                }
            }
        }
        d
    })
}

pub fn print() {
    for (k, n) in scan(Path::new("/repo")) {
        println!("{n} {k}");
    }
}

fn files(d: &Path, out: &mut Vec<PathBuf>) {
    let Ok(rd) = std::fs::read_dir(d) else { return };
    let mut xs: Vec<PathBuf> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
    xs.sort();
    for x in xs {
        if x.is_dir() {
            files(&x, out);
        } else if x.extension().is_some_and(|e| e == "rs") {
            out.push(x);
        }
    }
}

/// "i <integer>" and "s <text>" with the number of their occurrences
fn scan(repo: &Path) -> BTreeMap<String, u64> {
    let mut fs = vec![];
    files(&repo.join("src"), &mut fs);
    let mut out = BTreeMap::new();
    for f in fs {
        if let Ok(t) = std::fs::read_to_string(&f) {
            literals(&t.chars().collect::<Vec<_>>(), &mut out);
        }
    }
    out
}

fn literals(t: &[char], out: &mut BTreeMap<String, u64>) {
    let at = |i: usize| t.get(i).copied().unwrap_or('\0');
    let mut add = |k: String| *out.entry(k).or_insert(0) += 1;
    let mut i = 0;
    // the number just read and the operator behind it
    let mut left: Option<(i128, char)> = None;
    while i < t.len() {
        let c = t[i];
        if c == '/' && at(i + 1) == '/' {
            while i < t.len() && t[i] != '\n' {
                i += 1;
            }
            continue;
        }
        if c == '/' && at(i + 1) == '*' {
            i += 2;
            while i < t.len() && !(t[i] == '*' && at(i + 1) == '/') {
                i += 1;
            }
            i += 2;
            continue;
        }
        if c == '"' {
            let mut s = String::new();
            i += 1;
            while i < t.len() && t[i] != '"' {
                if t[i] == '\\' {
                    i += 1;
                    match at(i) {
                        'n' => s.push('\n'),
                        't' => s.push('\t'),
                        '0' => s.push('\0'),
                        'x' => {
                            let h: String = [at(i + 1), at(i + 2)].iter().collect();
                            if let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                                s.push(c);
                            }
                            i += 2;
                        }
                        'u' => {
                            let h: String = t[(i + 2).min(t.len())..].iter().take_while(|c| **c != '}').collect();
                            if let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                                s.push(c);
                            }
                            i += h.len() + 2;
                        }
                        c => s.push(c),
                    }
                } else {
                    s.push(t[i]);
                }
                i += 1;
            }
            i += 1;
            if !s.is_empty() && s.len() <= 80 {
                add(format!("s {}", s.replace('\\', "\\\\").replace('\n', "\\n")));
            }
            continue;
        }
        if c == '\'' {
            // a character literal or a lifetime
            if at(i + 1) == '\\' {
                i += 2;
                while i < t.len() && t[i] != '\'' {
                    i += 1;
                }
                i += 1;
            } else if at(i + 2) == '\'' {
                add(format!("s {}", at(i + 1)));
                i += 3;
            } else {
                i += 1;
            }
            continue;
        }
        if c.is_alphabetic() || c == '_' {
            let from = i;
            while at(i).is_alphanumeric() || at(i) == '_' {
                i += 1;
            }
            // a narrow type: what no longer fits
            match t[from..i].iter().collect::<String>().as_str() {
                "i8" => add("i 128".to_string()),
                "u8" => add("i 256".to_string()),
                "i16" => add("i 32768".to_string()),
                "u16" => add("i 65536".to_string()),
                _ => {}
            }
            left = None;
            continue;
        }
        if c.is_ascii_digit() {
            let radix = match (c, at(i + 1)) {
                ('0', 'x') => 16,
                ('0', 'b') => 2,
                ('0', 'o') => 8,
                _ => 10,
            };
            if radix != 10 {
                i += 2;
            }
            let mut n: i128 = 0;
            while at(i) == '_' || at(i).is_digit(radix) {
                if let Some(d) = at(i).to_digit(radix) {
                    n = (n * radix as i128 + d as i128).min(1 << 100);
                }
                i += 1;
            }
            // a suffix
            while at(i).is_alphanumeric() || at(i) == '_' {
                i += 1;
            }
            let mut put = |n: i128| {
                if let Ok(n) = i64::try_from(n) {
                    add(format!("i {n}"));
                }
            };
            put(n);
            match left.take() {
                Some((a, '<')) if (0..63).contains(&n) && a < 1 << 40 => {
                    n = a << n;
                    put(n);
                }
                Some((a, '*')) if a < 1 << 40 && n < 1 << 40 => {
                    n *= a;
                    put(n);
                }
                Some((a, '-')) => put(a - n),
                _ => {}
            }
            let mut j = i;
            while at(j) == ' ' {
                j += 1;
            }
            match (at(j), at(j + 1)) {
                ('<', '<') => {
                    left = Some((n, '<'));
                    i = j + 2;
                }
                ('*', _) => {
                    left = Some((n, '*'));
                    i = j + 1;
                }
                ('-', _) => {
                    left = Some((n, '-'));
                    i = j + 1;
                }
                _ => {}
            }
            continue;
        }
        if !c.is_whitespace() && c != '(' {
            left = None;
        }
        i += 1;
    }
}
