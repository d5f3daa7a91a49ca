//! Numbers and words that occur in the source of the code under test. A generator that
//! tries them meets the cases the code treats specially, however rare they are among
//! all inputs. They only choose inputs; no oracle looks at them.
use proptest::prelude::*;
use proptest::sample::select;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default)]
struct Dict {
    /// not near a power of two, and not small
    ints: Vec<u64>,
    lens: Vec<usize>,
    words: Vec<String>,
}

/// Where the crates under test are: as the harness's manifest says.
fn sources() -> Vec<String> {
    let manifest = std::fs::read_to_string(concat!(env!("CARGO_MANIFEST_DIR"), "/Cargo.toml")).unwrap_or_default();
    let mut files = vec![];
    for line in manifest.lines().filter(|l| l.starts_with("at-")) {
        if let Some(dir) = line.split("path = \"").nth(1).and_then(|r| r.split('"').next()) {
            walk(&Path::new(dir).join("src"), &mut files);
        }
    }
    files.sort();
    files.iter().filter_map(|f| std::fs::read_to_string(f).ok()).collect()
}

fn walk(dir: &Path, files: &mut Vec<std::path::PathBuf>) {
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            walk(&p, files);
        } else if p.extension().is_some_and(|x| x == "rs") {
            files.push(p);
        }
    }
}

fn number(t: &str) -> Option<u64> {
    let t = t.replace('_', "");
    let (digits, radix) = match t.get(..2) {
        Some("0x") => (&t[2..], 16),
        Some("0b") => (&t[2..], 2),
        Some("0o") => (&t[2..], 8),
        _ => (&t[..], 10),
    };
    let end = digits.find(|c: char| !c.is_digit(radix)).unwrap_or(digits.len());
    u64::from_str_radix(&digits[..end], radix).ok()
}

/// The literals of one file, tests and comments left out.
fn literals(src: &str, ints: &mut Vec<u64>, words: &mut Vec<String>) {
    let src = src.split("#[cfg(test)]\nmod ").next().unwrap();
    let c: Vec<char> = src.chars().collect();
    let mut i = 0;
    while i < c.len() {
        let next = c.get(i + 1).copied();
        if c[i] == '/' && next == Some('/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if c[i] == '"' {
            let mut w = String::new();
            i += 1;
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' {
                    i += 1;
                    match c.get(i) {
                        Some('n') => w.push('\n'),
                        Some('t') => w.push('\t'),
                        Some('0') => w.push('\0'),
                        Some(x) => w.push(*x),
                        None => {}
                    }
                } else {
                    w.push(c[i]);
                }
                i += 1;
            }
            words.push(w);
            i += 1;
        } else if c[i] == '\'' && next.is_some_and(|x| x != '\\') && c.get(i + 2) == Some(&'\'') {
            words.push(c[i + 1].to_string());
            i += 3;
        } else if c[i] == '\'' && next == Some('\\') {
            // an escaped character
            i += 3;
        } else if c[i].is_alphanumeric() || c[i] == '_' {
            let start = i;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            if c[start].is_ascii_digit() {
                ints.extend(number(&c[start..i].iter().collect::<String>()));
            }
        } else {
            i += 1;
        }
    }
}

fn dict() -> &'static Dict {
    static DICT: OnceLock<Dict> = OnceLock::new();
    DICT.get_or_init(|| {
        let mut d = Dict::default();
        for s in sources() {
            literals(&s, &mut d.ints, &mut d.words);
        }
        d.ints.sort();
        d.ints.dedup();
        d.words.retain(|w| !w.is_empty() && w.len() <= 200);
        d.words.sort();
        d.words.dedup();
        d.lens = d.ints.iter().filter(|v| (2..=5000).contains(*v)).map(|v| *v as usize).collect();
        d.ints.retain(|v| {
            *v >= 300 && !(0..64).any(|k| ((1u64 << k).wrapping_sub(*v) as i64).abs() <= 3)
        });
        d
    })
}

/// All numbers, for enumerations.
pub fn ints() -> &'static [u64] {
    &dict().ints
}

/// A number of the source, or next to one.
pub fn int() -> BoxedStrategy<u64> {
    let mut v = dict().ints.clone();
    if v.is_empty() {
        v.push(0);
    }
    (select(v), prop_oneof![3 => Just(0i64), 1 => -2i64..=2], 0u8..8)
        .prop_map(|(v, d, k)| {
            let v = v.wrapping_add(d as u64);
            match k {
                0 => v.wrapping_neg(),
                1 => !v,
                _ => v,
            }
        })
        .boxed()
}

/// A length named in the source, or next to one, at most `max`.
pub fn len(max: usize) -> BoxedStrategy<usize> {
    let mut v: Vec<usize> = dict().lens.iter().copied().filter(|n| *n <= max).collect();
    if v.is_empty() {
        v.push(max.min(1));
    }
    (select(v), -1isize..=1).prop_map(move |(n, d)| (n as isize + d).clamp(0, max as isize) as usize).boxed()
}

/// A string of the source, by itself or within others.
pub fn word() -> BoxedStrategy<String> {
    let mut v = dict().words.clone();
    if v.is_empty() {
        v.push("x".into());
    }
    (select(v), "[a-c0-9_]{0,3}", 0u8..9)
        .prop_map(|(w, s, k)| match k {
            0 => format!("{}{}", s, w),
            1 => format!("{}{}", w, s),
            2 => format!("{}{}{}", s, w, s),
            3 => w.to_uppercase(),
            4 => w.to_lowercase(),
            5 => w.repeat(2),
            _ => w,
        })
        .boxed()
}

/// The same, as a name: letters, digits and what else names are made of.
pub fn name() -> BoxedStrategy<String> {
    prop_oneof![
        5 => word(),
        1 => (int(), "[a-c]?").prop_map(|(n, s)| format!("L{}{}", n, s)),
        1 => ("[a-z]", len(400)).prop_map(|(s, n)| s.repeat(n)),
    ]
    .prop_map(|w| {
        let w: String = w.chars().filter(|c| c.is_ascii_alphanumeric() || "_.$?@~#".contains(*c)).collect();
        if w.is_empty() || w.starts_with(|c: char| c.is_ascii_digit()) {
            format!("L{}", w)
        } else {
            w
        }
    })
    .boxed()
}
