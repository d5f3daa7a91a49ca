//! A01..A13: the assembler, as a library and as a command.
use crate::{
    engine::*,
    ensure,
    mo::File,
    prog::{self, *},
    sut::{self, Feed, Reply, Request, Scratch, SinkSpec},
    text::{self, Text, Verdict},
};
use proptest::collection::vec as pvec;
use proptest::prelude::*;
use proptest::sample::{select, Index};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::Command;

fn io_err(e: std::io::Error) -> Fail {
    Fail::Machinery(e.to_string())
}

/// A program and how it is written down.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub prog: Prog,
    pub style: Style,
}

/// Styles change nothing but presentation; `plain` keeps the canonical one often,
/// so that a presentation problem does not hide everything else.
pub fn case_of(p: BoxedStrategy<Prog>) -> BoxedStrategy<Case> {
    (p, prop_oneof![2 => Just(Style::canonical()), 1 => style()])
        .prop_map(|(prog, style)| Case { prog, style })
        .boxed()
}

fn notation_only() -> BoxedStrategy<Style> {
    pvec(pvec(any::<u8>(), 1..5), 1..6)
        .prop_map(|v| Style {
            lines: v
                .into_iter()
                .map(|nums| LineStyle {
                    nums,
                    ..LineStyle::default()
                })
                .collect(),
            after: vec![],
            final_newline: true,
        })
        .boxed()
}

struct Object {
    file: File,
    want: Expected,
    at: Located,
}

fn object(prog: &Prog, source: &str) -> Result<Object, Fail> {
    let b = sut::assemble_in_parts(source)?;
    judge(prog, &b).map_err(Fail::Violation)
}

fn judge(prog: &Prog, b: &[u8]) -> Result<Object, String> {
    let file = File::parse(b)?;
    let want = expected(prog);
    let at = walk(prog, &want, &file)?;
    Ok(Object { file, want, at })
}

fn mov_e(w: u8, dst: u8, v: u64) -> Stmt {
    Stmt::Mov {
        w,
        dst,
        src: Src::Expr(Expr::One(v)),
    }
}

// ------------------------------------------------------------------------ A01

fn a01(c: &Case) -> Checked {
    let (src, _) = c.prog.render(&c.style);
    object(&c.prog, &src)?;
    let widths: std::collections::HashSet<u8> = c
        .prog
        .stmts
        .iter()
        .filter_map(|s| match s {
            Stmt::Mov { w, .. } => Some(*w),
            _ => None,
        })
        .collect();
    Ok(Info::new(c.prog.stmts.len() >= 2)
        .class(widths.len() == 3, "all mov widths")
        .class(c.prog.stmts.iter().any(|s| matches!(s, Stmt::PushImm(_))), "push number")
        .class(c.prog.stmts.iter().any(|s| matches!(s, Stmt::PushReg(_))), "push register")
        .class(c.prog.stmts.len() > 50, "over 50 instructions"))
}

fn a01_forms(tier: Tier) -> Vec<Case> {
    let mut all: Vec<Stmt> = vec![Stmt::Ret, Stmt::Syscall];
    for w in [16u8, 32, 64] {
        for d in 0..16 {
            for s in 0..16 {
                all.push(Stmt::Mov {
                    w,
                    dst: d,
                    src: Src::Reg(s),
                });
            }
            let mask = u64::MAX >> (64 - w as u32);
            for k in 0..w as u32 {
                for e in [-2i64, -1, 0, 1] {
                    all.push(mov_e(w, d, (1u64 << k).wrapping_add(e as u64) & mask));
                }
            }
            all.push(mov_e(w, d, mask));
            all.push(mov_e(w, d, 0x8877_6655_4433_2211 & mask));
        }
    }
    for r in 0..16 {
        all.push(Stmt::PushReg(r));
    }
    let sweep = if tier == Tier::Quick { 70_000u32 } else { 2_000_000 };
    for v in 0..sweep {
        all.push(Stmt::PushImm(v));
    }
    for k in 0..32 {
        for e in -2i64..=2 {
            all.push(Stmt::PushImm(((1i64 << k) + e) as u32));
        }
    }
    all.chunks(500)
        .map(|c| Case {
            prog: Prog { stmts: c.to_vec() },
            style: Style::canonical(),
        })
        .collect()
}

const INSTRUCTIONS: Profile = Profile {
    section: 0,
    global: 0,
    label: 0,
    data: 0,
    data_label: 0,
    mov_label: 0,
    mov: 30,
    other: 20,
    max_stmts: 60,
    ..GENERAL
};

// ------------------------------------------------------------------------ A02

fn a02(c: &Case) -> Checked {
    let (src, _) = c.prog.render(&c.style);
    let o = object(&c.prog, &src)?;
    let mut strings = 0;
    let mut padded = false;
    let mut odd = false;
    let mut special = false;
    let mut lines = 0;
    for s in &c.prog.stmts {
        if let Stmt::Data { unit, items, .. } = s {
            lines += 1;
            for i in items {
                if let Item::S(t) = i {
                    strings += 1;
                    padded |= t.len() % unit.bytes() != 0;
                    odd |= !t.is_ascii();
                    special |= t.contains([';', ',', ':', ' ']);
                }
            }
        }
    }
    let _ = o;
    Ok(Info::new(lines > 0)
        .class(strings > 0, "string")
        .class(padded, "padding")
        .class(odd, "non-ASCII text")
        .class(special, "separator inside a string")
        .class(lines > 1, "several lines"))
}

fn data_stmt(label: Option<&str>, unit: Unit, items: Vec<Item>) -> Stmt {
    Stmt::Data {
        label: label.map(String::from),
        unit,
        items,
    }
}

/// Every unit with every string length, alone and between other items; every
/// character; every byte value and many words.
fn a02_grid(tier: Tier) -> Vec<Case> {
    let mut v = Vec::new();
    let mut push = |stmts: Vec<Stmt>| {
        v.push(Case {
            prog: Prog { stmts },
            style: Style::canonical(),
        })
    };
    for u in Unit::ALL {
        for n in 0..=if tier == Tier::Quick { 70usize } else { 600 } {
            let s: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
            for uni in [false, true] {
                let mut t = s.clone();
                if uni {
                    t.push('é');
                    t.push('日');
                }
                push(vec![
                    Stmt::Section(Sec::Data),
                    data_stmt(None, u, vec![Item::S(t.clone())]),
                    data_stmt(Some("x"), u, vec![Item::N(1), Item::S(t.clone()), Item::N(u.max()), Item::S(t)]),
                ]);
            }
        }
        // every character at the start, inside, at the end, and by itself
        let chars: Vec<char> = (0u32..0x180)
            .chain([0x3000, 0x2028, 0x2029, 0xfeff, 0x1f600, 0xffff, 0x10ffff, 0x200b, 0x0a00, 0x0d0a, 0x3b3b, 0x2c22])
            .filter_map(char::from_u32)
            .filter(|c| !matches!(c, '"' | '\n' | '\r'))
            .collect();
        for c in chars {
            push(vec![
                data_stmt(None, u, vec![Item::S(c.to_string())]),
                data_stmt(None, u, vec![Item::S(format!("{}ab", c)), Item::N(7), Item::S(format!("ab{}", c))]),
                data_stmt(Some("x"), u, vec![Item::S(format!("a{}b", c)), Item::S(format!("{}{}", c, c))]),
                data_stmt(None, u, vec![Item::N(9), Item::S(format!(" {} ", c))]),
            ]);
        }
        let max = u.max().min(if tier == Tier::Quick { 66_000 } else { 1 << 22 });
        let all: Vec<u64> = (0..=max).chain((0..2000).filter_map(|k| u.max().checked_sub(k)).filter(|v| *v > max)).collect();
        for c in all.chunks(4096) {
            push(c.chunks(16).map(|c| data_stmt(None, u, c.iter().map(|n| Item::N(*n)).collect())).collect());
        }
    }
    v
}

/// Lines, strings and sections whose size is around a power of two.
fn a02_sizes(tier: Tier) -> Vec<Case> {
    let mut v = Vec::new();
    let top = if tier == Tier::Quick { 17 } else { 22 };
    for k in 6..=top {
        for d in -2i64..=2 {
            let n = ((1i64 << k) + d) as usize;
            let s: String = (0..n).map(|i| (b'a' + (i % 23) as u8) as char).collect();
            for u in Unit::ALL {
                let mut push = |stmts: Vec<Stmt>| {
                    v.push(Case {
                        prog: Prog { stmts },
                        style: Style::canonical(),
                    })
                };
                // one string; a string that makes the next line start there; many items; many lines
                push(vec![
                    Stmt::Section(Sec::Data),
                    data_stmt(Some("x"), u, vec![Item::S(s.clone()), Item::N(1)]),
                    data_stmt(Some("y"), u, vec![Item::N(u.max())]),
                    Stmt::Mov {
                        w: 64,
                        dst: 1,
                        src: Src::Label("y".into()),
                    },
                ]);
                if n < 100_000 {
                    push(vec![data_stmt(None, u, (0..n).map(|i| Item::N(i as u64 & u.max())).collect()), Stmt::Label("end".into())]);
                }
                if n < 20_000 {
                    push((0..n).map(|i| data_stmt(None, u, vec![Item::N(i as u64 & u.max())])).chain([Stmt::Label("end".into())]).collect());
                }
            }
        }
    }
    v
}

const DATA: Profile = Profile {
    section: 4,
    global: 1,
    label: 2,
    data: 30,
    data_label: 20,
    mov: 1,
    mov_label: 1,
    other: 1,
    max_stmts: 12,
    max_items: 20,
    max_str: 400,
    ..GENERAL
};

// ------------------------------------------------------------------------ A03

fn a03(c: &Case) -> Checked {
    let (src, _) = c.prog.render(&c.style);
    let o = object(&c.prog, &src)?;
    check_symbols(&o.want, &o.at, &o.file)?;
    let secs: std::collections::HashSet<_> = o.want.labels.iter().map(|l| l.1).collect();
    let n = o.want.labels.len();
    let trailing = o
        .want
        .labels
        .iter()
        .any(|(_, s, k)| *k == o.want.pieces[s.idx()].len() && *k > 0);
    let first_def: std::collections::HashMap<&str, usize> = c
        .prog
        .stmts
        .iter()
        .enumerate()
        .filter_map(|(i, s)| s.defines().map(|d| (d, i)))
        .collect();
    let (mut before, mut after) = (false, false);
    for (i, s) in c.prog.stmts.iter().enumerate() {
        if let Stmt::Global(g) = s {
            if let Some(d) = first_def.get(g.as_str()) {
                before |= i < *d;
                after |= i > *d;
            }
        }
    }
    Ok(Info::new(n >= 2)
        .class(secs.len() == 3, "labels in three sections")
        .class(trailing, "label with nothing after it")
        .class(before, "global before the label")
        .class(after, "global after the label")
        .class(o.at.labels.values().any(|v| v.1 > 0xffff), "offset over 16 bits")
        .class(
            o.want.labels.iter().any(|(l, ..)| !o.want.exported.contains(l)) && !o.want.exported.is_empty(),
            "exported and local labels",
        ))
}

/// A label whose name holds characters a symbol table cannot store or that are
/// unusual in a name.
fn odd_label() -> BoxedStrategy<Case> {
    let odd = prop_oneof![
        3 => Just('\0'),
        2 => select(vec!['é', '語', 'ÿ', 'Ω', '\u{1f600}', '\u{301}']),
        2 => select(vec!['\x01', '\x02', '\x08', '\x0e', '\x1b', '\x7f']),
        1 => select(vec!['!', '%', '&', '~', '|', '{', '=', '/', '\\', '(', '-', '+', '\'', '#']),
    ];
    (program(Profile { max_stmts: 6, ..LABELS }), "[g-i_]{0,4}", odd, "[g-i_]{0,4}", 0u8..8, select(Sec::ALL.to_vec()), style())
        .prop_map(|(prog, a, c, b, mode, sec, style)| {
            let mut stmts = prog.stmts;
            let name = if mode & 4 == 0 { format!("{}{}{}", a, c, b) } else { format!("g{}{}{}", a, c, b) };
            let at = stmts.len();
            stmts.push(Stmt::Section(sec));
            if mode & 1 != 0 {
                stmts.push(Stmt::Label(name.clone()));
            } else if sec == Sec::Data {
                stmts.push(data_stmt(Some(&name), Unit::B, vec![Item::N(1)]));
            } else {
                stmts.push(Stmt::Label(name.clone()));
            }
            if mode & 2 != 0 {
                stmts.insert(at, Stmt::Global(name));
            }
            Case { prog: Prog { stmts }, style }
        })
        .boxed()
}

/// Such a program is refused, or the name is in the symbol table as it is.
fn a03_odd(c: &Case) -> Checked {
    let (src, _) = c.prog.render(&c.style);
    match sut::assemble_in_parts(&src) {
        Err(_) => Ok(Info::new(true).class(true, "refused")),
        Ok(b) => {
            let o = judge(&c.prog, &b)?;
            check_symbols(&o.want, &o.at, &o.file)?;
            Ok(Info::new(true).class(true, "stored"))
        }
    }
}

const LABELS: Profile = Profile {
    section: 14,
    global: 12,
    label: 22,
    data: 6,
    data_label: 14,
    mov: 4,
    mov_label: 4,
    other: 6,
    max_stmts: 40,
    ..GENERAL
};

/// Label names over the whole alphabet of plausible names, one per program, in
/// every section, exported or not.
fn a03_names(_: Tier) -> Vec<Case> {
    let mut names: Vec<String> = Vec::new();
    for c in (b'a'..=b'z').chain(b'A'..=b'Z').chain([b'_', b'.', b'$', b'?', b'@']) {
        let c = c as char;
        names.push(c.to_string());
        names.push(format!("{}1", c));
        names.push(format!("x{}", c));
        names.push(format!("{}_{}", c, c));
    }
    for r in RESERVED.iter().chain(&R64).chain(&R32).chain(&R16) {
        for n in [
            format!("{}_", r),
            format!("_{}", r),
            format!("{}1", r),
            format!("{}{}", r, r),
            r.to_uppercase(),
            r[..r.len() - 1].to_string(),
            r[1..].to_string(),
            format!("{}.{}", r, r),
        ] {
            names.push(n);
        }
    }
    for n in [1usize, 15, 16, 17, 31, 32, 63, 64, 127, 128, 255, 256, 257, 1000, 5000] {
        names.push("n".repeat(n));
    }
    names.retain(|n| !is_reserved(n) && !n.is_empty() && !n.starts_with(|c: char| c.is_ascii_digit()));
    names.sort();
    names.dedup();
    let mut v = Vec::new();
    for n in names {
        for sec in Sec::ALL {
            for global in [false, true] {
                let mut stmts = vec![Stmt::Label("zz_first".into()), Stmt::Ret, Stmt::Section(sec)];
                if global {
                    stmts.insert(0, Stmt::Global(n.clone()));
                }
                if sec == Sec::Data {
                    stmts.push(data_stmt(Some(&n), Unit::W, vec![Item::N(1)]));
                } else {
                    stmts.push(Stmt::Label(n.clone()));
                }
                stmts.push(Stmt::Section(Sec::Text));
                stmts.push(Stmt::Mov {
                    w: 64,
                    dst: 3,
                    src: Src::Label(n.clone()),
                });
                v.push(Case {
                    prog: Prog { stmts },
                    style: Style::canonical(),
                });
            }
        }
    }
    v
}

// ------------------------------------------------------------------------ A04

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LinkCase {
    prog: Prog,
    style: Style,
    bases: Vec<[u64; 3]>,
}

fn base() -> BoxedStrategy<[u64; 3]> {
    prop::array::uniform3(prop_oneof![
        2 => crate::gen::edge_u64(),
        1 => any::<u32>().prop_map(|v| v as u64),
        1 => Just(0x1_0000_0000u64),
        1 => (0u64..64).prop_map(|v| v * 0x1000),
    ])
    .boxed()
}

fn link_case(p: BoxedStrategy<Prog>) -> BoxedStrategy<LinkCase> {
    (case_of(p), pvec(base(), 3))
        .prop_map(|(c, bases)| LinkCase {
            prog: c.prog,
            style: c.style,
            bases,
        })
        .boxed()
}

fn a04(c: &LinkCase) -> Checked {
    let (src, _) = c.prog.render(&c.style);
    let o = object(&c.prog, &src)?;
    for b in &c.bases {
        check_link(&o.want, &o.at, &o.file, bases_for(&c.prog, *b))?;
    }
    check_link(&o.want, &o.at, &o.file, o.at.sect_addr)?;
    let defs: std::collections::HashMap<&str, usize> = c
        .prog
        .stmts
        .iter()
        .enumerate()
        .filter_map(|(i, s)| s.defines().map(|d| (d, i)))
        .collect();
    let far = |s: &Site| o.at.labels[&s.label].0 != s.sec;
    Ok(Info::new(!o.at.sites.is_empty())
        .class(o.at.sites.len() >= 3, "three or more label operands")
        .class(o.at.sites.iter().any(|s| defs[s.label.as_str()] > s.stmt), "forward reference")
        .class(o.at.sites.iter().any(|s| defs[s.label.as_str()] < s.stmt), "backward reference")
        .class(o.at.sites.iter().any(far), "other section")
        .class(o.at.sites.iter().any(|s| s.len == 4), "32-bit operand")
        .class(o.at.sites.iter().any(|s| s.sec == Sec::Data), "instruction in data")
        .class(o.at.sites.iter().any(|s| o.at.labels[&s.label].1 > 0xffff || s.off > 0xffff), "offset over 16 bits"))
}

const REFS: Profile = Profile {
    section: 8,
    global: 3,
    label: 14,
    data: 5,
    data_label: 8,
    mov: 6,
    mov_label: 30,
    other: 4,
    max_stmts: 40,
    ..GENERAL
};

/// Many labels whose names contain each other, with references to each of them.
fn a04_names(_: Tier) -> Vec<LinkCase> {
    let mut v = Vec::new();
    let families: Vec<Vec<String>> = vec![
        (1..30).map(|n| "a".repeat(n)).collect(),
        (1..30).rev().map(|n| "a".repeat(n)).collect(),
        (1..40).map(|n| format!("L{}", n)).collect(),
        (1..20).map(|n| format!("{}x", "b".repeat(n))).collect(),
        (0..10).map(|n| format!("{}{}", "q".repeat(100), n)).collect(),
        vec!["a".into(), "A".into(), "_a".into(), "a_".into(), "aa".into(), ".a".into(), "a.".into(), "a1".into()],
        {
            let mut v: Vec<String> = prog::ALIKE.iter().flat_map(|p| [p.0.to_string(), p.1.to_string()]).collect();
            v.sort();
            v.dedup();
            v
        },
    ];
    for names in families {
        for order in 0..3 {
            for w in [64u8, 32] {
                let mut stmts = vec![];
                let refs = |stmts: &mut Vec<Stmt>| {
                    for (i, n) in names.iter().enumerate() {
                        stmts.push(Stmt::Mov {
                            w,
                            dst: (i % 16) as u8,
                            src: Src::Label(n.clone()),
                        });
                    }
                };
                if order == 0 {
                    refs(&mut stmts);
                }
                for (i, n) in names.iter().enumerate() {
                    match (i + order) % 3 {
                        0 => {
                            stmts.push(Stmt::Section(Sec::Text));
                            stmts.push(Stmt::Label(n.clone()));
                            stmts.push(Stmt::Ret);
                        }
                        1 => {
                            stmts.push(Stmt::Section(Sec::Data));
                            stmts.push(data_stmt(Some(n), Unit::D, vec![Item::N(i as u64)]));
                        }
                        _ => {
                            stmts.push(Stmt::Section(Sec::Bss));
                            stmts.push(Stmt::Label(n.clone()));
                        }
                    }
                    if order == 2 && i == names.len() / 2 {
                        stmts.push(Stmt::Section(Sec::Text));
                        refs(&mut stmts);
                    }
                }
                if order == 1 {
                    stmts.push(Stmt::Section(Sec::Text));
                    refs(&mut stmts);
                }
                v.push(LinkCase {
                    prog: Prog { stmts },
                    style: Style::canonical(),
                    bases: vec![[0x1000, 0x200_0000, 0x3000_0000], [0x7fff_0000, 0x10, 0x5555_5555]],
                });
            }
        }
    }
    v
}

/// Labels and references far into big sections.
fn a04_far(tier: Tier) -> Vec<LinkCase> {
    let mut v = Vec::new();
    let sizes: &[usize] = if tier == Tier::Quick {
        &[100, 127, 128, 255, 256, 32_760, 65_530, 65_536, 1 << 20]
    } else {
        &[100, 127, 128, 255, 256, 32_760, 65_530, 65_536, 1 << 20, (1 << 24) - 3, 1 << 24, 50_000_001]
    };
    for n in sizes {
        for sec in [Sec::Text, Sec::Data] {
            let fill = || data_stmt(None, Unit::B, vec![Item::S("x".repeat(*n))]);
            let rf = |w: u8, d: u8, l: &str| Stmt::Mov {
                w,
                dst: d,
                src: Src::Label(l.into()),
            };
            let stmts = vec![
                Stmt::Label("start".into()),
                rf(64, 9, "far"),
                Stmt::Section(sec),
                fill(),
                Stmt::Label("mid".into()),
                rf(64, 1, "far"),
                rf(32, 12, "mid"),
                fill(),
                rf(64, 15, "start"),
                Stmt::Label("far".into()),
                rf(32, 0, "bb"),
                Stmt::Section(Sec::Bss),
                Stmt::Label("bb".into()),
                Stmt::Section(Sec::Text),
                rf(64, 2, "mid"),
            ];
            v.push(LinkCase {
                prog: Prog { stmts },
                style: Style::canonical(),
                bases: vec![[0x1000, 0x1000_0000, 0x2000_0000], [0x4000_0000, 0x1234, 0x99]],
            });
        }
    }
    v
}

// ------------------------------------------------------------- huge programs

/// Programs with very many of one thing, written down by their number.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Many {
    /// labels, with references to the first, the last and some in between
    Labels,
    /// labels with nothing in between, in all sections in turn
    BareLabels,
    /// lines `name db ...` in turn with instructions in text
    DataLabels,
    /// global lines, for three labels among other names
    Globals,
    /// section lines with little in between
    Switches,
    /// section lines with nothing in between
    BareSwitches,
    /// references to three labels
    Refs,
    Instructions,
    Data,
    /// one line with very many items
    Items,
    /// labels whose names are this long and differ in a few places only
    LongNames,
    /// pieces of 256 bytes, with labels and references on the way
    Pieces,
}

const MANY: [Many; 12] = [
    Many::Labels,
    Many::BareLabels,
    Many::DataLabels,
    Many::Globals,
    Many::Switches,
    Many::BareSwitches,
    Many::Refs,
    Many::Instructions,
    Many::Data,
    Many::Items,
    Many::LongNames,
    Many::Pieces,
];

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Huge {
    many: Many,
    n: usize,
}

impl Huge {
    fn prog(&self) -> Prog {
        let n = self.n;
        let mut v = vec![Stmt::Global("l7".into()), Stmt::Global("late".into())];
        let rf = |w: u8, i: usize, l: &str| Stmt::Mov {
            w,
            dst: (i % 16) as u8,
            src: Src::Label(l.into()),
        };
        // label numbers worth looking at
        let marks: Vec<usize> = [0, 1, 7, 254, 255, 256, 257, 65_534, 65_535, 65_536, n / 2, n - 1]
            .into_iter()
            .filter(|i| *i < n)
            .collect();
        match self.many {
            Many::Labels => {
                for i in 0..n {
                    v.push(Stmt::Label(format!("l{}", i)));
                    v.push(Stmt::Ret);
                }
                v.push(Stmt::Section(Sec::Data));
                v.push(data_stmt(Some("d"), Unit::W, vec![Item::N(1)]));
                for i in &marks {
                    v.push(rf(64, *i, &format!("l{}", i)));
                    v.push(rf(32, *i, "d"));
                    v.push(Stmt::Global(format!("l{}", i)));
                }
            }
            Many::BareLabels => {
                for i in 0..n {
                    if i * 3 % n < 3 {
                        v.push(Stmt::Section(Sec::ALL[i * 3 / n]));
                    }
                    v.push(Stmt::Label(format!("l{}", i)));
                }
                v.push(Stmt::Section(Sec::Text));
                for i in &marks {
                    v.push(rf(64, *i, &format!("l{}", i)));
                }
            }
            Many::DataLabels => {
                for i in 0..n {
                    if i % 8 == 0 {
                        v.push(Stmt::Section(if i % 16 == 0 { Sec::Data } else { Sec::Text }));
                    }
                    let u = Unit::ALL[i % 4];
                    v.push(data_stmt(Some(&format!("l{}", i)), u, vec![Item::N(i as u64 & u.max())]));
                    if i % 5 == 0 {
                        v.push(Stmt::PushReg((i % 16) as u8));
                    }
                }
                for i in &marks {
                    v.push(rf(64, *i, &format!("l{}", i)));
                    v.push(Stmt::Global(format!("l{}", i)));
                }
            }
            Many::Globals => {
                v.push(Stmt::Label("early".into()));
                v.push(Stmt::Ret);
                for i in 0..n {
                    v.push(Stmt::Global(if i == n / 2 { "early".into() } else { format!("l{}", i) }));
                }
                for l in ["l7", "l255", "l256", "l65535", "l65536", "local", "late"] {
                    v.push(Stmt::Label(l.into()));
                    v.push(Stmt::Syscall);
                }
                v.push(rf(64, 3, "late"));
            }
            Many::Switches => {
                v.push(Stmt::Label("first".into()));
                for i in 0..n {
                    v.push(Stmt::Section(Sec::ALL[(i * 7 + i / 3) % 3]));
                    if (i * 7 + i / 3) % 3 != 2 {
                        v.push(match i % 4 {
                            0 => Stmt::Ret,
                            1 => Stmt::PushReg((i % 16) as u8),
                            2 => data_stmt(None, Unit::B, vec![Item::N(i as u64 & 0xff)]),
                            _ => mov_e(16, (i % 16) as u8, i as u64 & 0xffff),
                        });
                    }
                }
                v.push(Stmt::Label("late".into()));
                v.push(Stmt::Section(Sec::Data));
                v.push(rf(64, 5, "first"));
                v.push(rf(32, 6, "late"));
            }
            Many::BareSwitches => {
                for i in 0..n {
                    v.push(Stmt::Section(Sec::ALL[i % 3]));
                }
                v.push(Stmt::Section(Sec::Data));
                v.push(Stmt::Label("late".into()));
                v.push(rf(64, 5, "late"));
            }
            Many::Refs => {
                v.push(Stmt::Label("a".into()));
                for i in 0..n {
                    if i == n / 3 {
                        v.push(Stmt::Section(Sec::Data));
                        v.push(data_stmt(Some("b"), Unit::B, vec![Item::N(3)]));
                    }
                    v.push(rf(if i % 3 == 0 { 32 } else { 64 }, i, ["a", "b", "late"][(i * i / 2) % 3]));
                }
                v.push(Stmt::Section(Sec::Bss));
                v.push(Stmt::Label("late".into()));
            }
            Many::Instructions => {
                for i in 0..n {
                    v.push(match i % 7 {
                        0 => Stmt::Ret,
                        1 => Stmt::PushReg((i % 16) as u8),
                        2 => mov_e(64, (i % 16) as u8, (i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15)),
                        3 => Stmt::PushImm(i as u32 & 0x7fff_ffff),
                        4 => Stmt::Mov { w: 64, dst: (i % 16) as u8, src: Src::Reg((i / 16 % 16) as u8) },
                        5 => mov_e(32, (i % 16) as u8, i as u64),
                        _ => Stmt::Syscall,
                    });
                }
                v.push(Stmt::Label("late".into()));
            }
            Many::Data => {
                v.push(Stmt::Section(Sec::Data));
                for i in 0..n {
                    let u = Unit::ALL[i % 4];
                    v.push(data_stmt(None, u, vec![Item::N(i as u64 & u.max()), Item::S(["x", "two", ""][i % 3].into())]));
                }
                v.push(Stmt::Label("late".into()));
                v.push(rf(64, 5, "late"));
            }
            Many::Items => {
                v.push(Stmt::Section(Sec::Data));
                for u in Unit::ALL {
                    let items = (0..n).map(|i| match i % 1000 {
                        999 => Item::S(["x", "two", ""][i / 1000 % 3].into()),
                        k => Item::N((i as u64).wrapping_mul(k as u64 + 1) & u.max()),
                    });
                    v.push(data_stmt(None, u, items.collect()));
                    v.push(Stmt::Label(format!("after_{}", u.name())));
                }
                v.push(rf(64, 5, "after_dw"));
                v.push(rf(32, 5, "after_dq"));
            }
            Many::LongNames => {
                let base = |d: usize, at: usize| {
                    let mut b = vec![b'n'; n];
                    b[at] = b'a' + d as u8;
                    String::from_utf8(b).unwrap()
                };
                let names: Vec<String> = (0..3).flat_map(|d| [0, n / 2, n - 1].map(|at| base(d, at))).chain([base(13, 0), "n".repeat(n + 1), "n".repeat(n - 1)]).collect();
                for (i, l) in names.iter().enumerate() {
                    v.push(Stmt::Section(Sec::ALL[i % 3]));
                    if i % 3 == 1 {
                        v.push(data_stmt(Some(l), Unit::D, vec![Item::N(i as u64)]));
                    } else {
                        v.push(Stmt::Label(l.clone()));
                    }
                    if i % 2 == 0 {
                        v.push(Stmt::Global(l.clone()));
                    }
                    v.push(Stmt::Section(Sec::Text));
                    v.push(Stmt::Ret);
                    v.push(rf(64, i, &names[(i * 5 + 2) % names.len()]));
                }
            }
            Many::Pieces => {
                for i in 0..n {
                    if i % (n / 8) == 0 {
                        v.push(Stmt::Section(if i / (n / 8) % 2 == 0 { Sec::Data } else { Sec::Text }));
                        v.push(Stmt::Label(format!("p{}", i / (n / 8))));
                        v.push(rf(if i % 2 == 0 { 64 } else { 32 }, i, "p0"));
                        v.push(rf(64, i + 1, "p7"));
                    }
                    let c = (b'a' + (i % 26) as u8) as char;
                    v.push(data_stmt(None, Unit::B, vec![Item::S(c.to_string().repeat(256))]));
                }
                v.push(Stmt::Label("late".into()));
                v.push(rf(64, 5, "late"));
            }
        }
        Prog { stmts: v }
    }

    fn case(&self) -> Case {
        Case {
            prog: self.prog(),
            style: Style::canonical(),
        }
    }
}

/// The symbol table is written in time quadratic in the number of labels, so only
/// one check goes far there in the quick tier.
fn huge(tier: Tier, kinds: &[Many], labels: usize) -> Vec<Huge> {
    let mut v = vec![];
    for many in kinds {
        if matches!(many, Many::Labels | Many::BareLabels | Many::DataLabels) {
            for n in [255usize, 256, 257, 1000, 4097, 10_000, 65_537] {
                if n <= labels || tier == Tier::Thorough {
                    v.push(Huge { many: *many, n });
                }
            }
            continue;
        }
        for n in [255usize, 256, 257, 1000, 4097, 32_769, 65_535, 65_536, 65_537, 70_000] {
            if *many == Many::Pieces && tier == Tier::Quick && ![257, 4097, 70_000].contains(&n) {
                continue;
            }
            // both sections beyond 2^24 bytes
            let n = if *many == Many::Pieces && n == 70_000 { 155_000 } else { n };
            v.push(Huge { many: *many, n });
        }
        if tier == Tier::Thorough {
            for n in [(1 << 17) + 1, 300_000, 1_000_000] {
                v.push(Huge { many: *many, n });
            }
        }
    }
    v
}

fn on_huge(check: fn(&Case) -> Checked) -> impl Fn(&Huge) -> Checked {
    move |h| sut::patiently(|| check(&h.case())).map(|i| i.class(h.n > 65_535, "more than 16 bits count"))
}

fn a04_huge(h: &Huge) -> Checked {
    let c = LinkCase {
        prog: h.prog(),
        style: Style::canonical(),
        bases: vec![[0x1000, 0x200_0000, 0x3000_0000]],
    };
    sut::patiently(|| a04(&c))
}

/// The same lines at once, in short reads, and in many inputs.
fn a09_huge(h: &Huge) -> Checked {
    let splits: Vec<u16> = (0..300).map(|i| (i * 211) as u16).collect();
    for (sizes, splits) in [(vec![4093], vec![]), (vec![], splits)] {
        let c = Delivery {
            prog: h.prog(),
            style: Style::canonical(),
            sizes,
            splits,
            bare: true,
            writes: 1,
            early: false,
            cli: h.n > 60_000 && !matches!(h.many, Many::Labels | Many::BareLabels | Many::DataLabels),
            twin: None,
        };
        sut::patiently(|| a09(&c))?;
    }
    Ok(Info::new(true))
}

// ------------------------------------------------------------------------ A05

fn a05(c: &Case) -> Checked {
    let (src, _) = c.prog.render(&c.style);
    object(&c.prog, &src)?;
    let mut sums = 0;
    let mut wraps = false;
    let mut numbers = 0;
    for s in &c.prog.stmts {
        match s {
            Stmt::Mov {
                src: Src::Expr(e), ..
            } => {
                numbers += 1;
                match e {
                    Expr::One(_) => {}
                    Expr::Add(a, b) => {
                        sums += 1;
                        wraps |= a.checked_add(*b).is_none();
                    }
                    Expr::Sub(a, b) => {
                        sums += 1;
                        wraps |= a < b;
                    }
                }
            }
            Stmt::Data { items, .. } => numbers += items.len(),
            Stmt::PushImm(_) => numbers += 1,
            _ => {}
        }
    }
    let notations = c.style.lines.iter().flat_map(|l| l.nums.iter()).count();
    Ok(Info::new(numbers > 0)
        .class(sums > 0, "sum or difference")
        .class(wraps, "wraps around 2^64")
        .class(notations > 0, "other notations"))
}

fn numbers_prog(max: usize) -> BoxedStrategy<Prog> {
    let line = prop_oneof![
        3 => (select(vec![16u8, 32, 64]), 0u8..16).prop_flat_map(|(w, dst)| prog::expr(w).prop_map(move |e| Stmt::Mov {
            w,
            dst,
            src: Src::Expr(e),
        })),
        3 => (0u8..16, crate::gen::edge_u64(), crate::gen::edge_u64(), any::<bool>()).prop_map(|(dst, a, b, add)| Stmt::Mov {
            w: 64,
            dst,
            src: Src::Expr(if add { Expr::Add(a, b) } else { Expr::Sub(a, b) }),
        }),
        1 => crate::gen::edge_u32().prop_map(Stmt::PushImm),
        3 => unit().prop_flat_map(|u| pvec(unit_value(u).prop_map(Item::N), 1..6).prop_map(move |items| Stmt::Data {
            label: None,
            unit: u,
            items,
        })),
    ];
    pvec(line, 1..max).prop_map(|stmts| Prog { stmts }).boxed()
}

/// Every notation of edge values in every place a number may stand.
fn a05_grid(_: Tier) -> Vec<Case> {
    let mut values: Vec<u64> = vec![0, 1, 7, 8, 9, 10, 15, 16, 17, 99, 100, 0xabcdef, 0xfedcba9876543210, u64::MAX];
    for k in 0..64 {
        for d in [-1i64, 0, 1] {
            values.push((1u64 << k).wrapping_add(d as u64));
        }
    }
    let mut p = 1u64;
    for _ in 0..19 {
        p *= 10;
        values.extend([p - 1, p, p + 1]);
    }
    for d in 0..16u64 {
        values.push(d * 0x1111_1111_1111_1111);
        values.push(d);
        values.push(d << 4);
    }
    values.sort();
    values.dedup();
    let mut v = Vec::new();
    for notation in 0u8..=80 {
        let style = Style {
            lines: vec![LineStyle {
                nums: vec![notation],
                ..LineStyle::default()
            }],
            after: vec![],
            final_newline: true,
        };
        let mut stmts = vec![];
        for x in &values {
            for u in Unit::ALL {
                if *x <= u.max() {
                    stmts.push(data_stmt(None, u, vec![Item::N(*x)]));
                }
            }
            for w in [16u8, 32, 64] {
                if *x <= u64::MAX >> (64 - w as u32) {
                    stmts.push(mov_e(w, 1, *x));
                    stmts.push(Stmt::Mov {
                        w,
                        dst: 2,
                        src: Src::Expr(Expr::Add(0, *x)),
                    });
                    stmts.push(Stmt::Mov {
                        w,
                        dst: 3,
                        src: Src::Expr(Expr::Sub(*x, 0)),
                    });
                    stmts.push(Stmt::Mov {
                        w,
                        dst: 3,
                        src: Src::Expr(Expr::Sub(*x, *x)),
                    });
                }
            }
            if *x <= u32::MAX as u64 {
                stmts.push(Stmt::PushImm(*x as u32));
            }
        }
        for c in stmts.chunks(300) {
            v.push(Case {
                prog: Prog { stmts: c.to_vec() },
                style: style.clone(),
            });
        }
    }
    v
}

// ------------------------------------------------------------------------ A06

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Layout {
    prog: Prog,
    style: Style,
    /// name the initial section
    first: bool,
    /// statement numbers in front of which the current section is named again
    repeats: Vec<u16>,
}

fn layout(p: BoxedStrategy<Prog>) -> BoxedStrategy<Layout> {
    (p, style(), any::<bool>(), prop_oneof![2 => Just(vec![]), 1 => pvec(any::<u16>(), 1..4)])
        .prop_map(|(prog, mut style, first, repeats)| {
            for l in style.lines.iter_mut() {
                l.nums.clear();
            }
            Layout {
                prog,
                style,
                first,
                repeats,
            }
        })
        .boxed()
}

fn a06(c: &Layout) -> Checked {
    let plain = sut::assemble(&c.prog.canonical())?;
    let mut other = Prog { stmts: vec![] };
    if c.first {
        other.stmts.push(Stmt::Section(Sec::Text));
    }
    let mut cur = Sec::Text;
    let n = c.prog.stmts.len() + 1;
    let at: Vec<usize> = c.repeats.iter().map(|r| *r as usize % n).collect();
    for i in 0..n {
        if at.contains(&i) {
            other.stmts.push(Stmt::Section(cur));
        }
        if let Some(s) = c.prog.stmts.get(i) {
            if let Stmt::Section(s) = s {
                cur = *s;
            }
            other.stmts.push(s.clone());
        }
    }
    let (src, _) = other.render(&c.style);
    let changed = sut::assemble(&src).map_err(|e| match e {
        Fail::Violation(m) => Fail::Violation(format!("accepted in plain layout, but: {}", m)),
        m => m,
    })?;
    if plain != changed {
        let d = plain.iter().zip(&changed).position(|(a, b)| a != b);
        return Err(format!(
            "another layout of the same program gives another object ({} and {} bytes, first difference {:?})",
            plain.len(),
            changed.len(),
            d
        )
        .into());
    }
    let st = &c.style.lines;
    Ok(Info::new(src != c.prog.canonical() && !c.prog.stmts.is_empty())
        .class(st.iter().any(|l| l.crlf), "CRLF")
        .class(st.iter().any(|l| l.comment.is_some()), "trailing comment")
        .class(st.iter().any(|l| l.comment.as_deref().map_or(false, |c| c.contains('"'))), "quote in a comment")
        .class(st.iter().any(|l| !l.before.is_empty()), "blank or comment lines")
        .class(!c.style.final_newline, "no final newline")
        .class(!c.repeats.is_empty(), "section named again")
        .class(c.first, "initial section named"))
}

fn every_statement() -> Prog {
    let m = |w, dst, src| Stmt::Mov { w, dst, src };
    Prog {
        stmts: vec![
            Stmt::Global("_main".into()),
            Stmt::Label("_main".into()),
            m(64, 0, Src::Expr(Expr::One(5))),
            m(32, 9, Src::Expr(Expr::Add(0x2000000, 4))),
            m(16, 3, Src::Expr(Expr::Sub(700, 8))),
            m(64, 7, Src::Reg(12)),
            m(64, 6, Src::Label("msg".into())),
            m(32, 6, Src::Label("b".into())),
            Stmt::PushReg(12),
            Stmt::PushImm(300),
            Stmt::Syscall,
            Stmt::Ret,
            Stmt::Section(Sec::Data),
            data_stmt(Some("msg"), Unit::B, vec![Item::S("Hi, \t; you: \u{e9}".into()), Item::N(10), Item::N(0)]),
            data_stmt(None, Unit::W, vec![Item::N(1), Item::S("abc".into())]),
            data_stmt(None, Unit::Q, vec![Item::N(u64::MAX)]),
            Stmt::Section(Sec::Bss),
            Stmt::Label("b".into()),
        ],
    }
}

/// One kind of layout carried to extremes.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Much {
    Indent,
    Tabs,
    Gaps,
    Trail,
    Comment,
    BlankLines,
    CommentLines,
    WideCommentLine,
    LinesAfter,
    Repeats,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct HugeLayout {
    much: Much,
    n: usize,
    crlf: bool,
}

fn a06_huge(h: &HugeLayout) -> Checked {
    let n = h.n;
    let mut l = LineStyle { crlf: h.crlf, ..Default::default() };
    let mut style = Style { lines: vec![], after: vec![], final_newline: !h.crlf };
    let mut repeats = vec![];
    let nl = if h.crlf { "\r" } else { "" };
    match h.much {
        Much::Indent => l.indent = " ".repeat(n),
        Much::Tabs => {
            l.indent = "\t".repeat(n);
            l.gaps = vec!["\t ".repeat(n / 2 + 1)];
        }
        Much::Gaps => l.gaps = vec![" ".repeat(n)],
        Much::Trail => l.trail = " ".repeat(n),
        Much::Comment => l.comment = Some("c \"; ".repeat(n / 5 + 1)),
        Much::BlankLines => l.before = vec![nl.to_string(); n],
        Much::CommentLines => l.before = vec![format!("; note \"{}", nl); n],
        Much::WideCommentLine => l.before = vec![format!(";{}{}", "x".repeat(n), nl)],
        Much::LinesAfter => style.after = [" ", "", "; x"].iter().map(|x| format!("{}{}", x, nl)).cycle().take(n).collect(),
        Much::Repeats => repeats = (0..n as u32 * 20).map(|i| i as u16).take(19).collect(),
    }
    style.lines = vec![l];
    let mut prog = every_statement();
    if let Much::Repeats = h.much {
        // between the statements, any number of times the same section
        let mut cur = Sec::Text;
        let mut stmts = vec![];
        for s in prog.stmts {
            if let Stmt::Section(s) = &s {
                cur = *s;
            }
            stmts.push(s);
            stmts.extend((0..n / 18 + 1).map(|_| Stmt::Section(cur)));
        }
        prog = Prog { stmts };
        let plain = sut::patiently(|| sut::assemble(&every_statement().canonical()))?;
        let more = sut::patiently(|| sut::assemble(&prog.canonical()))?;
        ensure!(plain == more, "{:?}: another object", h);
    }
    let c = Layout { prog, style, first: false, repeats };
    sut::patiently(|| a06(&c)).map(|i| i.class(n > 65_535, "more than 16 bits count"))
}

fn a06_extremes(t: Tier) -> Vec<HugeLayout> {
    use Much::*;
    let mut v = vec![];
    for much in [Indent, Tabs, Gaps, Trail, Comment, BlankLines, CommentLines, WideCommentLine, LinesAfter, Repeats] {
        let mut sizes = vec![127, 255, 256, 257, 1023, 4095, 4096, 8191, 8192, 8193, 32_769, 65_535, 65_537];
        if t == Tier::Thorough {
            sizes.extend([100_000, 300_000, 1_000_000]);
        }
        for n in sizes {
            let lines = matches!(much, BlankLines | CommentLines);
            // these stand in front of every one of the statements
            let n = if lines { n / 8 + 1 } else { n };
            for crlf in [false, true] {
                v.push(HugeLayout { much, n, crlf });
            }
        }
    }
    v
}

/// Each kind of variation alone, on a program with every kind of statement.
fn a06_single(_: Tier) -> Vec<Layout> {
    let all = every_statement;
    let wss = ["", " ", "\t", "  ", "\t\t", " \t \t "];
    let comments = [
        "", " c", "\"", " a \"b", "\"x\"", ";", " ; \" ;", "\\", " 日本", " section .bss", " mov", "'", "\0", "\t",
    ];
    let mut styles: Vec<LineStyle> = Vec::new();
    for w in wss {
        styles.push(LineStyle { indent: w.into(), ..Default::default() });
        styles.push(LineStyle { trail: w.into(), ..Default::default() });
        for x in wss {
            for y in wss {
                styles.push(LineStyle { gaps: vec![w.into(), x.into(), y.into()], ..Default::default() });
            }
        }
        for c in comments {
            styles.push(LineStyle { trail: w.into(), comment: Some(c.into()), ..Default::default() });
            styles.push(LineStyle { before: vec![format!("{};{}", w, c), w.into()], ..Default::default() });
        }
    }
    let mut v = Vec::new();
    for s in styles {
        for crlf in [false, true] {
            for final_newline in [false, true] {
                let mut s = s.clone();
                s.crlf = crlf;
                v.push(Layout {
                    prog: all(),
                    style: Style { lines: vec![s], after: vec![], final_newline },
                    first: crlf,
                    repeats: vec![],
                });
            }
        }
    }
    for r in 0..20u16 {
        v.push(Layout { prog: all(), style: Style::canonical(), first: false, repeats: vec![r] });
    }
    v
}

// ------------------------------------------------------------------------ A07

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bad {
    prog: Prog,
    style: Style,
    /// malformed lines, inserted in front of these statement numbers
    lines: Vec<(u16, String)>,
}

fn word() -> BoxedStrategy<String> {
    prop_oneof![
        2 => "[a-z]{1,8}",
        1 => "[A-Za-z_.$%#@!?*/&|^~<>=(){}\\[\\]-]{1,8}",
        1 => "[0-9]{1,4}",
        1 => select(vec!["rax", "eax", "ax", "db", "mov", "ret", "section", ".text", "0x10", ",", "+", "-"]).prop_map(String::from),
    ]
    .prop_map(|s| s.replace(['"', ';'], "_"))
    .boxed()
}

fn is_data(s: &str) -> bool {
    matches!(s, "db" | "dw" | "dd" | "dq")
}

fn not_number() -> BoxedStrategy<String> {
    prop_oneof![
        4 => select(vec![
            "0x", "0xg", "0x1g", "12h", "1a", "0b101", "0o7", "1.5", "1e3", "-1", "+1", "--1", "0x-1", "0x+1", "0x0x1", "1_000", "0X10",
            "x10", "'a'", "foo", "rax", "$", "$1", "#1", "%1", "(1)", "[1]", "1+2", "1-2", "1:", "٣", "１", "0x１", "1'", "0x 1", "1 2",
        ]).prop_map(String::from),
        1 => (any::<u32>(), "[g-zG-Z_.]").prop_map(|(n, s)| format!("{}{}", n, s)),
        1 => (any::<u32>(), "[g-zG-Z_.]").prop_map(|(n, s)| format!("0x{:x}{}", n, s)),
        1 => (any::<u32>(), "[a-fA-F]").prop_map(|(n, s)| format!("{}{}", n, s)),
    ]
    .boxed()
}

/// A line that is not a statement of the language, whatever surrounds it.
fn bad_line() -> BoxedStrategy<String> {
    let reg64 = || select(R64.to_vec());
    let any_reg = || select(R64.iter().chain(&R32).chain(&R16).copied().collect::<Vec<_>>());
    let unit = || select(vec!["db", "dw", "dd", "dq"]);
    let num = || crate::gen::edge_u64().prop_map(|v| format!("{}", v & 0xff));
    prop_oneof![
        // unknown opcode or directive
        4 => (word(), pvec(word(), 0..4)).prop_filter_map("would be a statement", |(op, rest)| {
            if is_reserved(&op) && RESERVED.contains(&op.as_str()) { return None; }
            if op.ends_with(':') { return None; }
            // "x db ..." is a data line, "x," is not a word
            if rest.first().map_or(false, |r| is_data(r)) { return None; }
            Some(format!("{} {}", op, rest.join(" ")).trim_end().to_string())
        }),
        3 => select(vec![
            "add rax, 1", "MOV rax, 1", "Mov rax, 1", "movq rax, 1", "mo rax, 1", "movs rax, 1", "PUSH rax", "RET", "Ret", "rets", "SYSCALL", "sysret x",
            "jmp foo", "call foo", "int 0x80", "lea rsi, foo", "resb 1", "x resb 4", "times 2 db 0", "x equ 5", "dt 1", "DB 1", "x DB 1", "Section .text",
            "SECTION .text", "segment .text", "extern foo", "GLOBAL foo", "globl foo", ".globl foo", ".text", "bits 64", "foo", "_main", "rax", "eax, 1", "5", "0x10",
            "\"abc\"", ", ", "+", "-", "mov,rax, 1", "mov: x", "foo :", "foo bar:", ":foo", ": foo", "foo: bar", "foo: mov rax, 1", "foo: ret", "# comment", "// comment", "* 5", "=",
        ]).prop_map(String::from),
        // sections
        2 => select(vec![
            "section", "section .rodata", "section text", "section .TEXT", "section .Text", "section .texts", "section .tex", "section .text .data", "section .data x", "section .bss 5",
            "section .text,", "section .", "section ..text", "section '.text'", "section \".text\"", "section __TEXT,__text", "section .datab", "section data", "section bss", "sections .text",
        ]).prop_map(String::from),
        // global
        1 => select(vec!["global", "global a b", "global _main _start x", "global a , b", "globals a"]).prop_map(String::from),
        // labels
        1 => select(vec![":", "::", "foo::", "foo:::", ": ret", "foo: bar:"]).prop_map(String::from),
        // ret, syscall
        1 => (select(vec!["ret", "syscall"]), word()).prop_filter_map("data line", |(a, b)| if is_data(&b) { None } else { Some(format!("{} {}", a, b)) }),
        // push
        3 => prop_oneof![
            Just("push".to_string()),
            (select(R32.iter().chain(&R16).copied().collect::<Vec<_>>())).prop_map(|r| format!("push {}", r)),
            not_number().prop_filter("a register", |n| n != "rax").prop_map(|n| format!("push {}", n)),
            (reg64(), any_reg()).prop_map(|(a, b)| format!("push {}, {}", a, b)),
            (reg64(), any_reg()).prop_map(|(a, b)| format!("push {} {}", a, b)),
            (num(), num()).prop_map(|(a, b)| format!("push {} {}", a, b)),
            (num(), num()).prop_map(|(a, b)| format!("push {} + {}", a, b)),
            select(vec!["push \"a\"", "push [rax]", "push foo", "push 4294967296", "push 18446744073709551616", "push 0x100000000", "push ,", "push rax,", "push RAX"]).prop_map(String::from),
        ],
        // mov
        5 => prop_oneof![
            select(vec!["mov", "mov rax", "mov rax,", "mov eax,", "mov ax,", "mov , rax", "mov ,", "mov rax rbx", "mov rax 5", "mov rax, ,", "mov rax,, rbx", "mov,", "mov rax:"]).prop_map(String::from),
            (select(vec!["al", "ah", "r8b", "xmm0", "cs", "foo", "5", "0x10", "[rax]", "\"a\"", "RAX", "Eax", "r16", "rip", "r8l", "sil"]), any_reg())
                .prop_map(|(d, s)| format!("mov {}, {}", d, s)),
            (select(R16.to_vec()), select(R64.iter().chain(&R32).copied().collect::<Vec<_>>())).prop_map(|(d, s)| format!("mov {}, {}", d, s)),
            (select(R16.to_vec()), not_number()).prop_filter("register", |(_, n)| n != "rax").prop_map(|(d, n)| format!("mov {}, {}", d, n)),
            (any_reg(), any_reg(), any_reg()).prop_map(|(a, b, c)| format!("mov {}, {}, {}", a, b, c)),
            (any_reg(), any_reg(), any_reg()).prop_map(|(a, b, c)| format!("mov {}, {} {}", a, b, c)),
            (any_reg(), any_reg()).prop_map(|(a, b)| format!("mov {} {}", a, b)),
            (any_reg(), num(), select(vec!["+", "-", "*", "/", "|", "&", "<<", "2", "rax", ""])).prop_filter_map("a number", |(r, n, o)| if o.is_empty() { None } else { Some(format!("mov {}, {} {}", r, n, o)) }),
            (any_reg(), num(), select(vec!["*", "/", "|", "&", "<<", "++", "--", "2", ","]), num()).prop_map(|(r, a, o, b)| format!("mov {}, {} {} {}", r, a, o, b)),
            (any_reg(), num(), not_number()).prop_map(|(r, a, b)| format!("mov {}, {} + {}", r, a, b)),
            (any_reg(), num(), num(), num()).prop_map(|(r, a, b, c)| format!("mov {}, {} + {} + {}", r, a, b, c)),
            (any_reg(), select(vec!["+", "-"]), num()).prop_map(|(r, o, a)| format!("mov {}, {} {}", r, o, a)),
            (any_reg(), num(), select(vec!["x", "ret", "5", ", 5", "mov"])).prop_map(|(r, a, t)| format!("mov {}, {} {}", r, a, t)),
            (any_reg(), select(vec!["foo bar", "foo + 1", "foo - 1", "1 + foo", "[rel foo]", "foo , bar", "foo,bar"])).prop_map(|(r, t)| format!("mov {}, {}", r, t)),
            (select(R32.to_vec()), select(vec!["4294967296", "0x100000000", "18446744073709551615", "0 - 1", "4294967295 + 1"])).prop_map(|(r, t)| format!("mov {}, {}", r, t)),
            (select(R16.to_vec()), select(vec!["65536", "0x10000", "4294967296", "0 - 1", "65535 + 1", "foo", "18446744073709551616"])).prop_map(|(r, t)| format!("mov {}, {}", r, t)),
        ],
        // data
        5 => (prop_oneof![2 => Just(""), 1 => Just("zz_bad ")], unit(), prop_oneof![
            select(vec![
                "", "foo", "\"abc", "abc\"", "\"a\" \"b\"", "\"a\"\"b\"", "\"a\"1", "1\"a\"", "1 2", "1,", ",1", ",", "1,,2", "1, ,2", "\"a\",,1", "\"a\",", "\"", "\"\"\"", "'a'", "1;2\"",
                "1, foo", "1, \"abc", "\"abc\", \"d", "1 + 2", "2 - 1", "1, 2 3", "\"a\", 1 2", "\"a\" b", "\"a\" + 1", "0x", "rax", "[1]", "1, rax", "(1)", "a, b", "18446744073709551616", "0x10000000000000000",
                "\"a\" db 1", "db 1", "1 db", "-1", "\"a;b", "1, \"x;",
            ]).prop_map(String::from),
            not_number(),
            (num(), not_number()).prop_map(|(a, b)| format!("{}, {}", a, b)),
            (not_number(), num()).prop_map(|(a, b)| format!("{}, {}", a, b)),
            ("[ -!#-~]{0,10}").prop_map(|s| format!("\"{}", s)),
            (num(), num()).prop_map(|(a, b)| format!("{} {}", a, b)),
        ]).prop_filter_map("comment cuts it", |(l, u, rest)| {
            if rest == "1;2\"" { return None; }
            Some(format!("{}{} {}", l, u, rest).trim_end().to_string())
        }),
        1 => select(vec!["db 256", "dw 65536", "dd 4294967296", "db 0x100", "dw 0x10000", "dd 0x100000000", "zz_bad db 1, 256", "db \"a\", 999", "a b db 1", "zz_bad db db 1"]).prop_map(String::from),
    ]
    .boxed()
}

fn bad_case() -> BoxedStrategy<Bad> {
    (
        program(Profile { max_stmts: 16, ..GENERAL }),
        prop_oneof![1 => Just(Style::canonical()), 1 => style()],
        prop_oneof![3 => pvec((any::<u16>(), bad_line()), 1..2), 1 => pvec((any::<u16>(), bad_line()), 2..4)],
    )
        .prop_map(|(prog, mut style, lines)| {
            // comments are attached to the good lines only
            for l in style.lines.iter_mut() {
                l.nums.clear();
            }
            Bad { prog, style, lines }
        })
        .boxed()
}

/// The source, and the line number of its first malformed line.
fn bad_source(b: &Bad) -> (String, usize) {
    let n = b.prog.stmts.len() + 1;
    let mut texts = Vec::new();
    let mut first = None;
    for i in 0..n {
        for (at, l) in &b.lines {
            if *at as usize % n == i {
                if first.is_none() {
                    first = Some(texts.len());
                }
                texts.push((l.clone(), true));
            }
        }
        if let Some(s) = b.prog.stmts.get(i) {
            texts.push((render_stmt(s, style_of(&b.style, texts.len())), false));
        }
    }
    // a malformed line gets indentation and line ending, but nothing that could
    // become part of it
    let mut style = b.style.clone();
    if !style.lines.is_empty() {
        let m = style.lines.len();
        style.lines = (0..texts.len())
            .map(|i| {
                let mut s = b.style.lines[i % m].clone();
                if texts[i].1 {
                    s.comment = None;
                    s.trail = String::new();
                }
                s
            })
            .collect();
    }
    let t: Vec<String> = texts.into_iter().map(|t| t.0).collect();
    let (src, at) = render_lines(&t, &style);
    (src, at[first.unwrap_or(0)])
}

fn numbers_in(s: &str) -> Vec<usize> {
    s.split(|c: char| !c.is_ascii_digit())
        .filter_map(|t| t.parse().ok())
        .collect()
}

/// Does the diagnostic name this line?
fn names_line(stderr: &str, line: usize) -> bool {
    let low = stderr.to_lowercase();
    // the first "line N" / "line: N" / ":N:" decides when there is one
    if let Some(p) = low.match_indices("line").find(|(i, _)| {
        low[i + 4..]
            .trim_start_matches(|c: char| c == ' ' || c == ':' || c == '#' || c == '\t')
            .starts_with(|c: char| c.is_ascii_digit())
    }) {
        return numbers_in(&low[p.0..]).first() == Some(&line);
    }
    numbers_in(&low).contains(&line)
}

fn must_fail(dir: &Scratch, src: &str) -> Result<sut::Ran, Fail> {
    let input = dir.path("in.s");
    std::fs::write(&input, src).map_err(io_err)?;
    let r = sut::cli(&dir.0, &["-o".into(), "out.o".into(), "in.s".into()])?;
    ensure!(
        r.code != Some(0),
        "a malformed program is accepted (status 0)"
    );
    ensure!(
        !dir.path("out.o").exists(),
        "a malformed program is refused (status {:?}) but an object is produced",
        r.code
    );
    Ok(r)
}

fn a07_line(b: &Bad) -> Checked {
    let (src, line) = bad_source(b);
    let dir = Scratch::new()?;
    let r = must_fail(&dir, &src).map_err(|e| match e {
        Fail::Violation(m) => Fail::Violation(format!("{}; first malformed line {}: `{}`", m, line, clip(src.lines().nth(line - 1).unwrap_or("")))),
        m => m,
    })?;
    ensure!(
        names_line(&r.stderr, line),
        "the first malformed line is {} (`{}`), but the diagnostic says: {}",
        line,
        clip(src.lines().nth(line - 1).unwrap_or("")),
        clip(r.stderr.trim())
    );
    let first = b.lines.iter().map(|l| l.1.split_whitespace().next().unwrap_or("").to_string()).next().unwrap_or_default();
    Ok(Info::new(true)
        .class(line > 1, "not the first line")
        .class(line > 9, "line number of two digits")
        .class(b.lines.len() > 1, "several malformed lines")
        .class(first == "mov", "mov")
        .class(first == "push", "push")
        .class(is_data(&first), "data")
        .class(first == "section", "section")
        .class(b.style.lines.iter().any(|l| l.crlf), "CRLF"))
}

/// Any text the reference reader calls malformed or refused.
fn a07_text(c: &Text) -> Checked {
    let line = match text::read(&c.text) {
        Verdict::Malformed(n) => Some(n),
        Verdict::Refused => None,
        Verdict::Valid(_) | Verdict::Open => return Ok(Info::new(false)),
    };
    // the worker first; whatever it does not settle is judged on the command
    let settled = match sut::ask(&Request {
        feeds: vec![Feed::whole(&c.text)],
        writes: vec![(1, SinkSpec::default())],
        twin: vec![], at_once: false,
    })? {
        Reply::Exited { code, stderr } => code != Some(0) && line.map_or(true, |n| names_line(&stderr, n)),
        Reply::Done(v) => line.is_none() && v.iter().all(|w| !w.returned),
        Reply::Panicked(_) => line.is_none(),
    };
    let split = sut::parts(&c.text).0.len() > 1;
    if split {
        match sut::ask_in_parts(&c.text)? {
            Reply::Done(v) => ensure!(
                v.last().is_some_and(|w| !w.returned),
                "a malformed program, handed over as several inputs, is assembled"
            ),
            Reply::Exited { code, .. } => ensure!(code != Some(0), "a malformed program, handed over as several inputs, ends with status 0"),
            Reply::Panicked(_) => {}
        }
    }
    if !settled {
        let dir = Scratch::new()?;
        let r = must_fail(&dir, &c.text)?;
        if let Some(n) = line {
            ensure!(
                names_line(&r.stderr, n),
                "the first malformed line is {} (`{}`), but the diagnostic says: {}",
                n,
                clip(c.text.lines().nth(n - 1).unwrap_or("")),
                clip(r.stderr.trim())
            );
        }
    }
    Ok(Info::new(true)
        .class(line.is_some(), "malformed line")
        .class(line.is_none(), "refused otherwise")
        .class(split, "also as several inputs")
        .class(line.map_or(false, |n| n > 1), "not the first line"))
}

/// Malformed lines in large programs.
fn bad_big() -> BoxedStrategy<Bad> {
    (
        prog::big_program(GENERAL, 150, 1500),
        prop_oneof![1 => Just(Style::canonical()), 3 => style()],
        pvec((any::<u16>(), bad_line()), 1..3),
    )
        .prop_map(|(prog, mut style, lines)| {
            for l in style.lines.iter_mut() {
                l.nums.clear();
            }
            Bad { prog, style, lines }
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Far {
    /// lines before the malformed one, cycling through `fill`
    before: usize,
    fill: Vec<String>,
    bad: String,
}

fn a07_far(c: &Far) -> Checked {
    let mut src = String::new();
    for i in 0..c.before {
        src += &c.fill[i % c.fill.len()];
        src.push('\n');
    }
    src += &c.bad;
    src += "\nret\n";
    let dir = Scratch::new()?;
    let r = must_fail(&dir, &src)?;
    ensure!(
        names_line(&r.stderr, c.before + 1),
        "the malformed line is {} (`{}`), but the diagnostic says: {}",
        c.before + 1,
        c.bad,
        clip(r.stderr.trim())
    );
    Ok(Info::new(true)
        .class(c.before > 255, "beyond line 256")
        .class(c.before > 65535, "beyond line 65536")
        .class(c.fill.len() == 1 && c.fill[0].is_empty(), "blank lines only"))
}

fn far_cases(_: Tier) -> Vec<Far> {
    let mut v = Vec::new();
    for before in [0usize, 1, 2, 9, 99, 126, 127, 128, 254, 255, 256, 257, 300, 511, 999, 1000, 4095, 9999, 32767, 32768, 65534, 65535, 65536, 100_000] {
        for fill in [
            vec![""],
            vec!["; comment"],
            vec!["ret"],
            vec!["  ", "\t", "\r"],
            vec!["", "ret"],
            vec!["section .data", "db 1", "", "section .text", "ret", "; x"],
        ] {
            for bad in ["bogus", "mov rax, 1 +", "db 256", "section .foo"] {
                v.push(Far {
                    before,
                    fill: fill.iter().map(|s| s.to_string()).collect(),
                    bad: bad.into(),
                });
            }
        }
    }
    v
}

/// Every malformed line of a fixed list at the first, a middle and the last line.
fn a07_fixed(_: Tier) -> Vec<Bad> {
    let lines = [
        "foo", "foo bar", "nop", "add rax, 1", "mov", "mov rax", "mov rax,", "mov rax, rbx rcx", "mov rax, rbx, rcx", "mov rax rbx", "mov ax, foo", "mov ax, 65536",
        "mov eax, 4294967296", "mov al, 1", "mov 5, rax", "mov rax, 1 + ", "mov rax, 1 2", "mov rax, 1 + 2 + 3", "mov rax, + 1", "mov rax, 1 * 2", "push", "push eax", "push foo",
        "push 4294967296", "push -1", "push 1 2", "push rax, rbx", "push 1 + 1", "ret 1", "ret ret", "syscall 5", "section", "section .rodata", "section .text x", "global", "global a b",
        "x: y", ":", "x::", "db", "db foo", "db 256", "dw 65536", "dd 4294967296", "dq 18446744073709551616", "db \"abc", "db abc\"", "db 1 2", "db 1,", "db ,1", "db 1,,2", "db 'a'",
        "x db", "x y", "x y db 1", "db 1 + 2", "db -1", "db 0x", "db 12h", "db \"a\" \"b\"", "db \"a\"1", "db \"a\",,1", "db \"a\",", "dw \"ab", "x dq \"", "DB 1", "Section .text", "MOV rax, 1",
    ];
    let mut v = Vec::new();
    for l in lines {
        for at in [0u16, 3, 6] {
            let prog = Prog {
                stmts: vec![
                    Stmt::Global("_main".into()),
                    Stmt::Label("_main".into()),
                    mov_e(64, 0, 1),
                    Stmt::Ret,
                    Stmt::Section(Sec::Data),
                    data_stmt(Some("m"), Unit::B, vec![Item::N(1)]),
                ],
            };
            v.push(Bad {
                prog,
                style: Style::canonical(),
                lines: vec![(at, l.into())],
            });
        }
    }
    v
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Undefined {
    prog: Prog,
    style: Style,
    at: u16,
    w: u8,
    dst: u8,
    target: String,
    /// write into bss instead of referring to an undefined label
    bss: Option<Stmt>,
    /// declared global before and after
    #[serde(default)]
    global: (bool, bool),
    /// further references to it
    #[serde(default)]
    again: Vec<u16>,
}

fn undefined_case() -> BoxedStrategy<Undefined> {
    (
        program(Profile { max_stmts: 16, ..LABELS }),
        prop_oneof![2 => Just(Style::canonical()), 1 => style()],
        any::<u16>(),
        select(vec![64u8, 32]),
        0u8..16,
        (any::<Index>(), 0u8..8, name()),
        (prop_oneof![2 => Just((false, false)), 1 => any::<(bool, bool)>()], prop_oneof![3 => Just(vec![]), 1 => pvec(any::<u16>(), 1..4)]),
        prop_oneof![
            2 => Just(None),
            1 => prop_oneof![
                Just(Stmt::Ret), Just(Stmt::Syscall), Just(Stmt::PushReg(3)), Just(Stmt::PushImm(700)), Just(mov_e(32, 1, 9)),
                Just(Stmt::Mov { w: 64, dst: 2, src: Src::Reg(1) }),
                Just(data_stmt(None, Unit::B, vec![Item::N(0)])),
                Just(data_stmt(Some("zz_in_bss"), Unit::Q, vec![Item::N(0)])),
                Just(data_stmt(None, Unit::W, vec![Item::S("text".into())])),
                Just(Stmt::Mov { w: 64, dst: 2, src: Src::Label(String::new()) }),
                Just(Stmt::Mov { w: 32, dst: 9, src: Src::Label(String::new()) }),
            ].prop_map(Some),
        ],
    )
        .prop_map(|(prog, style, at, w, dst, (i, mode, other), (global, again), mut bss)| {
            // a reference in bss, to a label of the program
            if let Some(Stmt::Mov { src: Src::Label(l), .. }) = &mut bss {
                let known: Vec<&str> = prog.stmts.iter().filter_map(|s| s.defines()).collect();
                *l = if known.is_empty() { "zz".into() } else { i.get(&known).to_string() };
            }
            let names: Vec<String> = prog.stmts.iter().filter_map(|s| s.defines().map(String::from)).collect();
            let mut target = if names.is_empty() {
                other
            } else {
                let n = i.get(&names).clone();
                match mode {
                    0 => other,
                    1 => n.to_uppercase(),
                    2 => n.to_lowercase(),
                    3 => n[..n.len() - 1].to_string(),
                    4 => n[1..].to_string(),
                    5 => format!("{}:", n),
                    6 => format!("_{}", n),
                    _ => format!("{}_", n),
                }
            };
            // one word that is neither a label of the program nor a register of that width
            if target.is_empty() || target.starts_with(|c: char| c.is_ascii_digit() || c == '+' || c == '-') {
                target = format!("u{}", target);
            }
            while names.contains(&target) || is_reserved(&target) {
                target.push('~');
            }
            Undefined {
                prog,
                style,
                at,
                w,
                dst,
                target,
                bss,
                global,
                again,
            }
        })
        .boxed()
}

fn a07_undefined(c: &Undefined) -> Checked {
    let mut p = c.prog.clone();
    let at = c.at as usize % (p.stmts.len() + 1);
    let cur = p.stmts[..at]
        .iter()
        .rev()
        .find_map(|s| match s {
            Stmt::Section(s) => Some(*s),
            _ => None,
        })
        .unwrap_or(Sec::Text);
    let new = match &c.bss {
        Some(s) => vec![Stmt::Section(Sec::Bss), s.clone(), Stmt::Section(cur)],
        None => {
            let there = Stmt::Mov {
                w: c.w,
                dst: c.dst,
                src: Src::Label(c.target.clone()),
            };
            if cur == Sec::Bss {
                vec![Stmt::Section(Sec::Text), there, Stmt::Section(Sec::Bss)]
            } else {
                vec![there]
            }
        }
    };
    p.stmts.splice(at..at, new);
    if c.bss.is_none() {
        for a in &c.again {
            // wherever something other than bss is current
            let a = *a as usize % (p.stmts.len() + 1);
            let cur = p.stmts[..a].iter().rev().find_map(|s| match s {
                Stmt::Section(s) => Some(*s),
                _ => None,
            });
            if cur != Some(Sec::Bss) {
                let there = Stmt::Mov { w: 96 - c.w, dst: 15 - c.dst, src: Src::Label(c.target.clone()) };
                p.stmts.insert(a, there);
            }
        }
        if c.global.0 {
            p.stmts.insert(0, Stmt::Global(c.target.clone()));
        }
        if c.global.1 {
            p.stmts.push(Stmt::Global(c.target.clone()));
        }
    }
    let (src, _) = p.render(&c.style);
    let dir = Scratch::new()?;
    must_fail(&dir, &src).map_err(|e| match e {
        Fail::Violation(m) => Fail::Violation(format!(
            "{}: {}",
            m,
            match &c.bss {
                Some(s) => format!("it writes into bss (`{}`)", render_stmt(s, None)),
                None => format!("it refers to `{}`, which is not defined", clip(&c.target)),
            }
        )),
        m => m,
    })?;
    Ok(Info::new(true)
        .class(c.bss.is_some(), "write into bss")
        .class(c.bss.is_none(), "undefined label")
        .class(p.stmts.iter().any(|s| matches!(s, Stmt::Global(g) if *g == c.target)), "undefined but declared global"))
}

// ------------------------------------------------------------------------ A08

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Place {
    Data(Unit),
    Mov(u8),
    Push,
}

impl Place {
    fn bits(self) -> u32 {
        match self {
            Place::Data(u) => 8 * u.bytes() as u32,
            Place::Mov(w) => w as u32,
            Place::Push => 32,
        }
    }
}

const PLACES: [Place; 8] = [
    Place::Data(Unit::B),
    Place::Data(Unit::W),
    Place::Data(Unit::D),
    Place::Data(Unit::Q),
    Place::Mov(16),
    Place::Mov(32),
    Place::Mov(64),
    Place::Push,
];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fits {
    place: Place,
    dst: u8,
    /// the literal, or the expression's value when `split` is given
    value: String,
    hex: bool,
    zeros: u8,
    /// write the value as `a + b` or `a - b` with this second operand
    split: Option<(bool, u64)>,
    /// good items in front of and behind it on a data line
    around: (u8, u8),
    lines: (u8, u8),
    /// digits 0 appended to the literal: a number far beyond 128 bits
    more: u16,
}

fn fits_value() -> BoxedStrategy<u128> {
    prop_oneof![
        4 => (select(vec![7u32, 8, 15, 16, 31, 32, 63, 64]), -3i128..=3).prop_map(|(k, d)| ((1i128 << k) + d) as u128),
        2 => (0u32..70, -2i128..=2).prop_map(|(k, d)| ((1i128 << k) + d).max(0) as u128),
        2 => crate::gen::edge_u64().prop_map(|v| v as u128),
        1 => (any::<u64>(), 1u128..300).prop_map(|(v, h)| (h << 64) | v as u128),
        1 => any::<u8>().prop_map(|k| (k as u128) << 64),
        1 => (select(vec![8u32, 16, 32]), any::<u32>()).prop_map(|(k, v)| ((v as u128) << k) | 5),
    ]
    .boxed()
}

fn fits_case() -> BoxedStrategy<Fits> {
    (
        select(PLACES.to_vec()),
        0u8..16,
        fits_value(),
        any::<bool>(),
        prop_oneof![3 => Just(0u8), 1 => 1u8..40],
        prop_oneof![2 => Just(None), 1 => (any::<bool>(), crate::gen::edge_u64()).prop_map(Some)],
        prop_oneof![9 => (0u8..3, 0u8..3), 1 => (any::<u8>(), any::<u8>())],
        prop_oneof![9 => (0u8..4, 0u8..4), 1 => (any::<u8>(), any::<u8>())],
        prop_oneof![20 => Just(0u16), 1 => 15u16..70, 1 => 70u16..700],
    )
        .prop_map(|(place, dst, v, hex, zeros, split, around, lines, more)| {
            let split = match place {
                Place::Mov(_) => split,
                _ => None,
            };
            let v = if split.is_some() { v & u64::MAX as u128 } else { v };
            Fits {
                place,
                dst,
                value: v.to_string(),
                hex,
                zeros,
                split,
                around,
                lines,
                more: if split.is_some() || v == 0 { 0 } else { more },
            }
        })
        .boxed()
}

fn literal_of(v: u128, hex: bool, zeros: u8) -> String {
    let z = "0".repeat(zeros as usize);
    if hex {
        format!("0x{}{:x}", z, v)
    } else {
        format!("{}{}", z, v)
    }
}

fn fits_source(c: &Fits) -> Result<(String, Prog, bool), Fail> {
    let v: u128 = c.value.parse().map_err(|_| Fail::Machinery("bad value".into()))?;
    // 15 digits more and up: at least 10^15, in hexadecimal 2^60
    let fits = match c.more {
        0 => v >> c.place.bits() == 0,
        n if v == 0 => n > 0,
        n => {
            let base = if c.hex { 16u128 } else { 10 };
            match base.checked_pow(n as u32).and_then(|p| p.checked_mul(v)) {
                Some(x) => x >> c.place.bits() == 0,
                None => false,
            }
        }
    };
    let low = match c.more {
        0 => v as u64,
        n => (if c.hex { 16u64 } else { 10 }).wrapping_pow(n as u32).wrapping_mul(v as u64),
    };
    let lit = match c.split {
        None => literal_of(v, c.hex, c.zeros) + &"0".repeat(c.more as usize),
        Some((true, b)) => format!(
            "{} + {}",
            literal_of((v as u64).wrapping_sub(b) as u128, c.hex, c.zeros),
            literal_of(b as u128, !c.hex, 0)
        ),
        Some((false, b)) => format!(
            "{} - {}",
            literal_of((v as u64).wrapping_add(b) as u128, c.hex, c.zeros),
            literal_of(b as u128, !c.hex, 0)
        ),
    };
    let mut stmts = vec![];
    let mut src = String::new();
    let add = |n: u8, stmts: &mut Vec<Stmt>, src: &mut String| {
        for k in 0..n {
            let s = mov_e(64, k % 16, k as u64);
            *src += &render_stmt(&s, None);
            src.push('\n');
            stmts.push(s);
        }
    };
    add(c.lines.0, &mut stmts, &mut src);
    match c.place {
        Place::Data(u) => {
            let mut items = vec![Item::N(1); c.around.0 as usize];
            items.push(Item::N(low));
            items.extend(vec![Item::N(2); c.around.1 as usize]);
            let mut t: Vec<String> = vec!["1".into(); c.around.0 as usize];
            t.push(lit);
            t.extend(vec!["2".to_string(); c.around.1 as usize]);
            src += &format!("{} {}\n", u.name(), t.join(", "));
            stmts.push(data_stmt(None, u, items));
        }
        Place::Mov(w) => {
            src += &format!("mov {}, {}\n", reg_name(w, c.dst), lit);
            stmts.push(mov_e(w, c.dst, low));
        }
        Place::Push => {
            src += &format!("push {}\n", lit);
            stmts.push(Stmt::PushImm(low as u32));
        }
    }
    add(c.lines.1, &mut stmts, &mut src);
    Ok((src, Prog { stmts }, fits))
}

fn fits_info(c: &Fits, fits: bool) -> Info {
    Info::new(true)
        .class(fits, "fits")
        .class(!fits, "does not fit")
        .class(c.split.is_some(), "expression")
        .class(c.hex, "hexadecimal")
        .class(c.value.len() > 20 || c.more > 20, "beyond 64 bits")
        .class(c.value.len() + c.more as usize > 39, "beyond 128 bits")
}

fn a08(c: &Fits) -> Checked {
    let (src, p, fits) = fits_source(c)?;
    if fits {
        let o = object(&p, &src).map_err(|e| match e {
            Fail::Violation(m) => Fail::Violation(format!("{} fits {} bits ({:?}) but: {}", c.value, c.place.bits(), c.place, m)),
            m => m,
        })?;
        let _ = o;
    } else {
        let r = sut::ask_in_parts(&src)?;
        match r {
            Reply::Done(w) if w.last().is_some_and(|w| w.returned) => {
                return Err(format!(
                    "{} does not fit {} bits ({:?}), yet the program is accepted",
                    c.value,
                    c.place.bits(),
                    c.place
                )
                .into())
            }
            Reply::Exited { code: Some(0), .. } => return Err("the assembler ended with status 0".into()),
            _ => {}
        }
    }
    Ok(fits_info(c, fits))
}

fn a08_grid(_: Tier) -> Vec<Fits> {
    let mut v = Vec::new();
    for place in PLACES {
        for k in [8u32, 16, 32, 64] {
            for d in -2i128..=2 {
                for hex in [false, true] {
                    for split in [None, Some((true, 1u64)), Some((false, 1)), Some((true, 0)), Some((false, u64::MAX))] {
                        if split.is_some() && !matches!(place, Place::Mov(_)) {
                            continue;
                        }
                        let x = (1i128 << k) + d;
                        if split.is_some() && x >> 64 != 0 {
                            continue;
                        }
                        for dst in [0u8, 9] {
                            v.push(Fits {
                                place,
                                dst,
                                value: x.to_string(),
                                hex,
                                zeros: 0,
                                split,
                                around: (dst & 1, dst & 1),
                                lines: (1, 1),
                                more: 0,
                            });
                        }
                    }
                }
            }
        }
    }
    v
}

/// A line with very much of one thing, and something wrong (or a limit) in it.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wide {
    kind: WideKind,
    n: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum WideKind {
    /// items of this unit, then this text, then as many items again
    Items(Unit, String),
    /// a string of n characters, followed by this text
    Str(Unit, String),
    /// this text, n blanks, that text
    Blanks(String, String),
    /// a word of n characters between two texts
    Word(String, char, String),
}

impl Wide {
    fn line(&self) -> String {
        let n = self.n;
        match &self.kind {
            WideKind::Items(u, t) => format!("{} {}{}{}", u.name(), "1, ".repeat(n), t, ", 2".repeat(if t.ends_with(',') { 0 } else { n })),
            WideKind::Str(u, t) => format!("{} \"{}{}", u.name(), "s".repeat(n), t),
            WideKind::Blanks(a, b) => format!("{}{}{}", a, " ".repeat(n), b),
            WideKind::Word(a, c, b) => format!("{}{}{}", a, c.to_string().repeat(n), b),
        }
    }
}

fn wide_lines(_: Tier) -> Vec<Wide> {
    let mut kinds = vec![];
    for u in Unit::ALL {
        let top = match u {
            Unit::Q => "18446744073709551616".to_string(),
            _ => (u.max() + 1).to_string(),
        };
        for t in [top.as_str(), "foo", "", "1 2", "\"a\" 1", "0x", "3,"] {
            kinds.push(WideKind::Items(u, t.into()));
        }
        for t in ["", "\" x", "\" \"y\"", "\",", "\"1", "\", foo"] {
            kinds.push(WideKind::Str(u, t.into()));
        }
    }
    for (a, b) in [
        ("ret", "x"), ("mov rax,", ""), ("mov rax, 1", "2"), ("mov", ""), ("push", ""), ("push 1", "x"), ("section", ".foo"), ("section .text", "x"),
        ("global", ""), ("global a", "b"), ("", "bogus"), ("x", "y"), ("mov eax,", "4294967296"), ("mov rax, 1 +", ""), ("db 1", "2"), ("db", ""), ("db 1,", "256"),
    ] {
        kinds.push(WideKind::Blanks(a.into(), b.into()));
    }
    for (a, c, b) in [
        ("", 'z', ""), ("", 'z', " 1"), ("z ", 'z', ""), ("mov ", 'r', ", 1"), ("mov ax, ", 'r', ""), ("push ", 'r', ""), ("section .", 't', ""), ("section .tex", 't', "t"),
        ("db ", 'r', ""), ("db 1", '0', ""), ("mov ax, 0x1", '0', ""), ("push 0x1", '0', ""), ("db 0", '0', "256"), ("db 0x0", '0', "100"),
        ("push 0", '0', "4294967296"), ("mov ax, 0", '0', "65536"), ("ret", 't', ""), ("", ':', ""), ("x: ", ':', ""), ("dq ", '9', ""), ("dq 0x", 'f', ""), 
        ("mov rax, 1 + ", '9', ""), ("mov rax, ", '1', " - 1"),
    ] {
        kinds.push(WideKind::Word(a.into(), c, b.into()));
    }
    let mut v = vec![];
    for kind in kinds {
        for n in [31usize, 64, 127, 128, 255, 256, 257, 300, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 16_385, 32_768, 65_535, 65_536, 65_537, 100_000] {
            v.push(Wide { kind: kind.clone(), n });
        }
    }
    v
}

fn a07_wide(c: &Wide) -> Checked {
    let line = c.line();
    let src = format!("section .data\n{}\nsection .text\nret\n", line);
    let dir = Scratch::new()?;
    let r = must_fail(&dir, &src).map_err(|e| match e {
        Fail::Violation(m) => Fail::Violation(format!("{}; line 2: `{}` … `{}`", m, clip(&line), tail(&line))),
        m => m,
    })?;
    ensure!(
        names_line(&r.stderr, 2),
        "the malformed line is 2 (`{}` … `{}`), but the diagnostic says: {}",
        clip(&line),
        tail(&line),
        clip(r.stderr.trim())
    );
    Ok(Info::new(true).class(c.n > 255, "over 8 bits").class(c.n > 65_535, "over 16 bits"))
}

fn tail(s: &str) -> &str {
    let at = s.len().saturating_sub(20);
    s.get(at..).unwrap_or("")
}

/// The same number of items, digits and blanks around values at the limit.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct WideFit {
    place: Place,
    hex: bool,
    /// one more than the largest value
    over: bool,
    n: usize,
    /// of items around it, else leading zeros
    items: bool,
}

fn wide_fits(_: Tier) -> Vec<WideFit> {
    let mut v = vec![];
    for place in PLACES {
        for n in [16usize, 32, 63, 64, 127, 255, 256, 257, 1023, 1024, 4095, 4096, 4097, 32_768, 65_535, 65_536, 65_537, 100_000] {
            for hex in [false, true] {
                for over in [false, true] {
                    for items in [false, true] {
                        if !items || matches!(place, Place::Data(_)) {
                            v.push(WideFit { place, hex, over, n, items });
                        }
                    }
                }
            }
        }
    }
    v
}

fn a08_wide(c: &WideFit) -> Checked {
    let top: u128 = (1u128 << c.place.bits()) - 1;
    let value = top + c.over as u128;
    let zeros = if c.items { 0 } else { c.n };
    let lit = match c.hex {
        true => format!("0x{}{:x}", "0".repeat(zeros), value),
        false => format!("{}{}", "0".repeat(zeros), value),
    };
    let (stmt, line) = match c.place {
        Place::Data(u) => {
            let n = if c.items { c.n } else { 0 };
            let mut items = vec![Item::N(1); n];
            items.push(Item::N(value as u64));
            items.extend(vec![Item::N(2); n]);
            (data_stmt(None, u, items), format!("{} {}{}{}", u.name(), "1, ".repeat(n), lit, ", 2".repeat(n)))
        }
        Place::Mov(w) => (mov_e(w, 3, value as u64), format!("mov {}, {}", reg_name(w, 3), lit)),
        Place::Push => (Stmt::PushImm(value as u32), format!("push {}", lit)),
    };
    let src = format!("{}\n", line);
    if !c.over {
        object(&Prog { stmts: vec![stmt] }, &src)?;
    } else {
        let r = sut::ask(&Request {
            feeds: vec![Feed::whole(&src)],
            writes: vec![(1, SinkSpec::default())],
            twin: vec![], at_once: false,
        })?;
        match r {
            Reply::Done(w) if w.iter().any(|w| w.returned) => {
                return Err(format!("{} does not fit {} bits ({:?}), yet `{}` … `{}` is accepted", value, c.place.bits(), c.place, clip(&line), tail(&line)).into())
            }
            Reply::Exited { code: Some(0), .. } => return Err("the assembler ended with status 0".into()),
            _ => {}
        }
    }
    Ok(Info::new(true).class(c.over, "does not fit").class(!c.over, "fits").class(c.items, "many items").class(!c.items, "many digits"))
}

fn a08_cli(c: &Fits) -> Checked {
    let (src, p, fits) = fits_source(c)?;
    let dir = Scratch::new()?;
    std::fs::write(dir.path("in.s"), &src).map_err(io_err)?;
    let r = sut::cli(&dir.0, &["in.s".into()])?;
    if fits {
        ensure!(r.ok(), "{} fits {} bits, but at-asm fails: {}", c.value, c.place.bits(), r.stderr.trim());
        let b = std::fs::read(dir.path("in.o")).map_err(|e| format!("no object: {}", e))?;
        judge(&p, &b)?;
    } else {
        ensure!(
            r.code != Some(0) && !dir.path("in.o").exists(),
            "{} does not fit {} bits ({:?}), yet at-asm ends with {:?}, object written: {}",
            c.value,
            c.place.bits(),
            c.place,
            r.code,
            dir.path("in.o").exists()
        );
    }
    Ok(fits_info(c, fits))
}

// ------------------------------------------------------------------------ A09

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Delivery {
    prog: Prog,
    style: Style,
    sizes: Vec<u32>,
    /// split in front of these line numbers
    splits: Vec<u16>,
    /// a piece of input loses its final newline
    bare: bool,
    /// write the object this many times
    writes: u8,
    /// write also in between
    early: bool,
    cli: bool,
    /// another program, fed to a second assembler in turns with the first, in
    /// inputs of this many lines
    #[serde(default)]
    twin: Option<(Prog, u8)>,
}

fn sizes() -> BoxedStrategy<Vec<u32>> {
    prop_oneof![
        1 => Just(vec![]),
        2 => Just(vec![1u32]),
        2 => pvec(1u32..8, 1..5),
        2 => pvec(0u32..4, 2..8),
        1 => pvec(0u32..300, 1..6),
        1 => select(vec![vec![8191u32], vec![8192], vec![8193], vec![4096, 0], vec![8191, 1, 0]]),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct AtOnce {
    progs: Vec<(Prog, Vec<u32>)>,
}

fn at_once() -> BoxedStrategy<AtOnce> {
    let steps = prop_oneof![
        2 => Just(vec![1u32]),
        3 => pvec(1u32..40, 1..5),
        1 => pvec(0u32..60, 2..6),
    ];
    pvec((program(Profile { max_stmts: 16, ..GENERAL }), steps), 2..4).prop_map(|progs| AtOnce { progs }).boxed()
}

/// Assemblers of several threads do not know of each other.
fn a09_at_once(c: &AtOnce) -> Checked {
    let mut feeds = vec![];
    let mut alone = vec![];
    for (p, sizes) in &c.progs {
        let text = p.canonical();
        alone.push(sut::assemble(&text)?);
        feeds.push(Feed { text, sizes: sizes.clone(), fail: None });
    }
    let some = feeds.iter().filter(|f| !f.text.is_empty()).count();
    match sut::ask(&Request { feeds, writes: vec![], twin: vec![], at_once: true })? {
        Reply::Done(v) => {
            for (i, (w, alone)) in v.iter().zip(&alone).enumerate() {
                ensure!(w.bytes == *alone, "source {}, assembled while other threads assemble the others, gives another object than alone", i + 1);
            }
        }
        Reply::Panicked(m) => return Err(format!("refused while other threads assemble other sources: {}", m).into()),
        Reply::Exited { stderr, .. } => return Err(format!("refused while other threads assemble other sources: {}", stderr.trim()).into()),
    }
    Ok(Info::new(some > 1).class(some > 2, "three threads"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CutShort {
    prog: Prog,
    style: Style,
    sizes: Vec<u32>,
    /// the reader fails behind this many lines (and bytes of the next one)
    lines: u16,
    bytes: Option<u16>,
    how: sut::ReadFailure,
    /// an input read before
    before: bool,
}

fn cut_short() -> BoxedStrategy<CutShort> {
    (
        case_of(program(Profile { max_stmts: 14, ..GENERAL })),
        sizes(),
        any::<u16>(),
        prop_oneof![3 => Just(None), 1 => any::<u16>().prop_map(Some)],
        select(sut::ReadFailure::ALL.to_vec()),
        prop::bool::weighted(0.2),
    )
        .prop_map(|(c, sizes, lines, bytes, how, before)| CutShort { prog: c.prog, style: c.style, sizes, lines, bytes, how, before })
        .boxed()
}

/// A source that cannot be read to its end is not assembled.
fn a09_cut_short(c: &CutShort) -> Checked {
    let (src, _) = c.prog.render(&c.style);
    let lines: Vec<&str> = src.split_inclusive('\n').collect();
    let n = c.lines as usize % (lines.len() + 1);
    let mut text = lines[..n].concat();
    if let (Some(b), Some(l)) = (c.bytes, lines.get(n)) {
        let mut b = b as usize % (l.len() + 1);
        while !l.is_char_boundary(b) {
            b -= 1;
        }
        text += &l[..b];
    }
    let got = text.len();
    let mut feeds = vec![];
    if c.before {
        feeds.push(Feed::whole("section .text\nret\n"));
    }
    feeds.push(Feed { text, sizes: c.sizes.clone(), fail: Some(c.how) });
    let at = feeds.len();
    match sut::ask(&Request { feeds, writes: vec![(at, SinkSpec::default())], twin: vec![], at_once: false })? {
        Reply::Done(v) => ensure!(
            v.iter().all(|w| !w.returned),
            "the input cannot be read ({:?}) behind {} of its {} bytes, and is assembled all the same",
            c.how,
            got,
            src.len()
        ),
        Reply::Panicked(_) => {}
        Reply::Exited { code, .. } => ensure!(code != Some(0), "the input cannot be read ({:?}), and the process ends with success", c.how),
    }
    Ok(Info::new(true).class(got == src.len(), "fails at the end").class(got == 0, "fails at once"))
}

fn delivery(p: BoxedStrategy<Prog>) -> BoxedStrategy<Delivery> {
    (
        case_of(p),
        sizes(),
        prop_oneof![1 => Just(vec![]), 2 => pvec(any::<u16>(), 1..6)],
        any::<bool>(),
        1u8..4,
        any::<bool>(),
        prop::bool::weighted(0.05),
        prop_oneof![3 => Just(None), 1 => (program(Profile { max_stmts: 12, ..GENERAL }), 1u8..6).prop_map(Some)],
    )
        .prop_map(|(c, sizes, splits, bare, writes, early, cli, twin)| Delivery {
            prog: c.prog,
            style: c.style,
            sizes,
            splits,
            bare,
            writes,
            early,
            cli,
            twin,
        })
        .boxed()
}

fn a09(c: &Delivery) -> Checked {
    let (src, _) = c.prog.render(&c.style);
    let whole = sut::assemble(&src)?;
    let lines: Vec<&str> = src.split_inclusive('\n').collect();
    let mut cuts: Vec<usize> = c.splits.iter().map(|s| *s as usize % (lines.len() + 1)).collect();
    cuts.sort();
    cuts.push(lines.len());
    let mut feeds = Vec::new();
    let mut from = 0;
    for cut in cuts {
        let mut text: String = lines[from..cut].concat();
        if c.bare && text.ends_with('\n') {
            text.pop();
        }
        feeds.push(Feed {
            text,
            sizes: c.sizes.clone(),
            fail: None,
        });
        from = cut;
    }
    let n = feeds.len();
    let mut writes = Vec::new();
    if c.early && n > 1 {
        for k in 1..n {
            writes.push((k, SinkSpec::default()));
        }
    }
    for _ in 0..c.writes {
        writes.push((n, SinkSpec::default()));
    }
    let describe = || {
        format!(
            "delivered in {} inputs, reads of {:?} bytes{}",
            n,
            if c.sizes.is_empty() { vec![u32::MAX] } else { c.sizes.clone() },
            if c.bare { ", without final newlines" } else { "" }
        )
    };
    let mut twin = vec![];
    let mut twin_alone = None;
    if let Some((p, step)) = &c.twin {
        let t = p.canonical();
        twin_alone = Some(sut::assemble(&t)?);
        let lines: Vec<&str> = t.split_inclusive('\n').collect();
        twin.extend(lines.chunks(*step as usize).map(|l| Feed {
            text: l.concat(),
            sizes: c.sizes.clone(),
            fail: None,
        }));
    }
    let twin_written = !twin.is_empty();
    let texts: Vec<String> = feeds.iter().map(|f| f.text.clone()).collect();
    match sut::ask(&Request { feeds, writes: writes.clone(), twin, at_once: false })? {
        Reply::Done(v) => {
            if let (true, Some(alone)) = (twin_written, &twin_alone) {
                let w = v.last().ok_or_else(|| Fail::Machinery("no output of the twin".into()))?;
                ensure!(
                    w.returned && w.bytes == *alone,
                    "a second assembler, fed in turns with the first, makes another object than alone"
                );
            }
            for (i, ((k, _), w)) in writes.iter().zip(&v).enumerate() {
                if *k < n {
                    // what has been read so far; references may be undefined yet
                    if w.returned && i < 3 {
                        let so_far = sut::assemble_feeds(texts[..*k].iter().map(|t| Feed::whole(t)).collect())?;
                        ensure!(
                            w.bytes == so_far,
                            "{}: the write after input {} differs from assembling the inputs so far",
                            describe(),
                            k
                        );
                    }
                    continue;
                }
                ensure!(w.returned, "{}: write {} fails", describe(), i);
                ensure!(
                    w.bytes == whole,
                    "{}: write {} gives another object ({} instead of {} bytes)",
                    describe(),
                    i,
                    w.bytes.len(),
                    whole.len()
                );
            }
        }
        Reply::Panicked(m) => return Err(format!("{}: refused: {}", describe(), m).into()),
        Reply::Exited { stderr, .. } => return Err(format!("{}: refused: {}", describe(), stderr.trim()).into()),
    }
    let again = sut::assemble(&src)?;
    ensure!(again == whole, "assembling the same source again gives another object");
    if c.cli {
        let dir = Scratch::new()?;
        std::fs::write(dir.path("x.s"), &src).map_err(io_err)?;
        let r = sut::cli(&dir.0, &["x.s".into()])?;
        ensure!(r.ok(), "at-asm fails on the same source: {}", r.stderr.trim());
        let b = std::fs::read(dir.path("x.o")).map_err(|e| format!("no object: {}", e))?;
        ensure!(b == whole, "at-asm writes another object than the library");
        let mut cmd = Command::new(sut::cli_path()?);
        cmd.current_dir(&dir.0).args(["/dev/stdin", "-o", "y.o"]).env("RUST_BACKTRACE", "0");
        let r = sut::run_fed(&mut cmd, Some((src.clone().into_bytes(), c.sizes.clone())))?;
        ensure!(r.ok(), "at-asm fails on the same source from a pipe: {}", r.stderr.trim());
        let b = std::fs::read(dir.path("y.o")).map_err(|e| format!("no object: {}", e))?;
        ensure!(b == whole, "at-asm writes another object when it reads a pipe");
    }
    Ok(Info::new(!c.prog.stmts.is_empty() && (n > 1 || !c.sizes.is_empty()))
        .class(n > 1, "several inputs")
        .class(c.sizes.iter().any(|s| *s == 0) && c.sizes.len() > 1, "interrupted reads")
        .class(c.sizes == [1], "one byte at a time")
        .class(c.writes > 1, "repeated writes")
        .class(c.early && n > 1, "writes in between")
        .class(src.len() > 8192, "source over 8 KiB")
        .class(c.twin.is_some(), "second assembler in turns")
        .class(c.cli, "command line and pipe as well"))
}

/// Long lines and files: text around the buffer boundaries, multi-byte characters
/// across them.
fn a09_long(tier: Tier) -> Vec<Delivery> {
    let mut v = Vec::new();
    let mut lens: Vec<usize> = vec![4095, 4096, 8170, 8180, 16_384, 65_536, 131_072];
    lens.extend(8183..8195);
    if tier == Tier::Thorough {
        lens.extend(8100..8300);
        lens.extend([1 << 20, 5_000_000]);
    }
    for len in lens {
        for unit in ["x", "é", "日", "\u{1F600}"] {
            for sz in [vec![], vec![1u32], vec![4096], vec![8192, 0]] {
                if sz == [1] && len > 20_000 {
                    continue;
                }
                let n = len / unit.len();
                let prog = Prog {
                    stmts: vec![
                        Stmt::Label("a".into()),
                        data_stmt(Some("m"), Unit::B, vec![Item::S(unit.repeat(n))]),
                        Stmt::Mov { w: 64, dst: 1, src: Src::Label("after".into()) },
                        data_stmt(None, Unit::D, vec![Item::S(unit.repeat(n + 1)), Item::N(5)]),
                        Stmt::Label("after".into()),
                        Stmt::Ret,
                    ],
                };
                v.push(Delivery {
                    prog,
                    style: Style::canonical(),
                    sizes: sz,
                    splits: vec![2],
                    bare: len % 2 == 0,
                    writes: 2,
                    early: false,
                    cli: len % 5 == 0,
                    twin: None,
                });
            }
        }
    }
    // the independent content check, for the same long lines
    v
}

fn a09_long_check(c: &Delivery) -> Checked {
    object(&c.prog, &c.prog.canonical())?;
    a09(c)
}

// ------------------------------------------------------------------------ A10

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Args {
    InOnly,
    OutFirst,
    OutLast,
    // wrong ones
    Nothing,
    TwoInputs,
    TwoInputsOut,
    NoOutValue,
    OnlyOut,
    TwoOuts,
    UnknownFlag,
    SameInputTwice,
    EmptyInput,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Input {
    Good,
    Malformed,
    Undefined,
    BssWrite,
    Missing,
    Directory,
    NotText,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Output {
    Plain,
    MissingDir,
    Directory,
    DevFull,
    /// -o /dev/stdout, a pipe
    Stdout,
    /// the output path is a symbolic link to this file (there already or not)
    Link(bool),
    /// the output is the input file
    Input,
    /// a directory of the output path is a file
    ThroughFile,
    /// file size limit: this share (of 256) of the object
    Limit(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cmdline {
    prog: Prog,
    args: Args,
    input: Input,
    output: Output,
    in_path: String,
    out_path: String,
    absolute: (bool, bool),
    /// length of what is in the output file before: relative to the object
    prior: Option<i32>,
    /// what it holds: filler, or the object with the byte at this place changed
    #[serde(default)]
    prior_like: Option<u32>,
    bystanders: Vec<String>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct HugeRun {
    huge: Huge,
    input: Input,
    output: Output,
    out: bool,
    prior: Option<i32>,
}

fn a10_huge(h: &HugeRun) -> Checked {
    let c = Cmdline {
        prog: h.huge.prog(),
        args: if h.out { Args::OutFirst } else { Args::InOnly },
        input: h.input,
        output: h.output,
        in_path: "d/a.s".into(),
        out_path: "d.x/out.bin".into(),
        absolute: (false, false),
        prior: h.prior,
        prior_like: h.out.then_some(u32::MAX / 3 * 2),
        bystanders: vec!["a.o".into(), "d/x".into()],
    };
    sut::patiently(|| a10(&c))
}

fn a10_large(t: Tier) -> Vec<HugeRun> {
    let mut v = vec![];
    for many in [Many::Data, Many::Instructions, Many::Refs, Many::BareLabels] {
        let mut sizes = vec![300, 1000, 4097, 9000];
        if many != Many::BareLabels {
            sizes.push(70_000);
            if t == Tier::Thorough {
                sizes.extend([300_000, 1_000_000]);
            }
        }
        for n in sizes {
            let huge = Huge { many, n };
            for prior in [None, Some(-1), Some(0), Some(1), Some(100_000)] {
                for out in [false, true] {
                    v.push(HugeRun { huge, input: Input::Good, output: Output::Plain, out, prior });
                }
            }
            for input in [Input::Malformed, Input::Undefined, Input::NotText, Input::BssWrite] {
                v.push(HugeRun { huge, input, output: Output::Plain, out: true, prior: Some(10) });
            }
            for output in [Output::Stdout, Output::DevFull, Output::Input, Output::Link(true)]
                .into_iter()
                .chain([0u8, 1, 20, 128, 250, 255].map(Output::Limit))
            {
                v.push(HugeRun { huge, input: Input::Good, output, out: true, prior: None });
            }
        }
    }
    v
}

/// A name in the scratch directory that is no directory there and not the option.
fn file_name() -> BoxedStrategy<String> {
    prop_oneof![
        "[a-co.-]{1,4}",
        "[a-z_-]{1,3}(\\.[a-zA-Z0-9]{0,3}){0,3}",
        crate::dict::word().prop_map(|w| w.replace(|c: char| !c.is_ascii_alphanumeric() && !"_.-+=@,".contains(c), "")),
        ("[a-z]", 30usize..200, "\\.?[a-z]{0,3}").prop_map(|(s, n, e)| s.repeat(n) + &e),
    ]
    .prop_map(|n| match n.as_str() {
        "" | "." | "-o" | "d" | "d.x" => format!("x{}", n),
        // std's own notion of the extension of those is peculiar
        _ if n.starts_with("..") => format!("x{}", n),
        _ => n,
    })
    .boxed()
}

/// Other files; `<O>` stands for the output, `<I>` for the input, `<o>` and `<i>` for them
/// without extension: files where a careless tool may keep something.
fn bystander() -> BoxedStrategy<String> {
    let suffix = prop_oneof![
        4 => select(vec![
            ".tmp", ".temp", ".bak", "~", ".part", ".new", ".old", ".swp", ".lock", ".obj", ".out", ".lst", ".d", ".orig", ".o.tmp", ".1", ".s", ".asm", ".o", "", "_",
            ".save", ".partial", ".log", ".sym", ".map", "tmp", ".in", ".tmp.o", ".cache",
        ]).prop_map(String::from),
        1 => crate::dict::word().prop_map(|w| w.replace(|c: char| !c.is_ascii_alphanumeric() && !"_.-+=@,".contains(c), "")),
        1 => crate::dict::word().prop_map(|w| format!(".{}", w.replace(|c: char| !c.is_ascii_alphanumeric() && !"_.-+=@,".contains(c), ""))),
    ];
    prop_oneof![
        2 => select(vec![
            "a.o", "b.s", "out.o2", "d/a.o", "d/x", "a", "other.o", "d.x/noext.s", "a.b.o", "prog.s", "prog", "tmp", "a.tmp", "out.tmp", "at-asm.tmp", ".tmp",
            "a.out.tmp", "tmp.o", "object.tmp", "output.tmp", "at-asm.lock", "at-asm.log",
        ]).prop_map(String::from),
        3 => (select(vec!["<O>", "<o>", "<O>", "<o>", "<I>", "<i>"]), suffix).prop_map(|(a, b)| format!("{}{}", a, b)),
        1 => (select(vec![".", "#", "~", "tmp.", "."]), select(vec!["<N>", "<n>"]), select(vec!["", "#", ".tmp", ".swp", ".lock", "~"])).prop_map(|(a, b, c)| format!("{}{}{}", a, b, c)),
    ]
    .boxed()
}

fn cmdline() -> BoxedStrategy<Cmdline> {
    (
        prop_oneof![
            30 => program(Profile { max_stmts: 14, ..GENERAL }),
            1 => big_program(GENERAL, 200, 1500),
        ],
        prop_oneof![
            4 => Just(Args::InOnly), 4 => Just(Args::OutFirst), 4 => Just(Args::OutLast),
            1 => select(vec![
                Args::Nothing, Args::TwoInputs, Args::TwoInputsOut, Args::NoOutValue, Args::OnlyOut, Args::TwoOuts, Args::UnknownFlag,
                Args::SameInputTwice, Args::EmptyInput,
            ]),
        ],
        prop_oneof![
            8 => Just(Input::Good),
            4 => select(vec![Input::Malformed, Input::Undefined, Input::BssWrite, Input::Missing, Input::Directory, Input::NotText]),
        ],
        prop_oneof![
            8 => Just(Output::Plain),
            5 => prop_oneof![
                Just(Output::MissingDir), Just(Output::Directory), Just(Output::DevFull), any::<u8>().prop_map(Output::Limit),
                Just(Output::Stdout), any::<bool>().prop_map(Output::Link), Just(Output::Input), Just(Output::ThroughFile),
            ],
        ],
        prop_oneof![
            8 => select(vec![
            "a.s", "prog.asm", "noext", "a.b.s", "a.b.c.asm", "d/a.s", "d/e/noext", "d.x/noext", "d.x/a.s", ".hidden", ".hidden.s", "with space.s", "日本.s", "a.S", "a.", "x.s.s", "./a.s", "d/../a.s", "é x/ü.s", "-x.s", "a.obj", "oo.s", "a-o.s", "a..s", "o", "a.o", "d/b.o", "a.b", "a.s.asm", "a.o.s",
        ]).prop_map(String::from),
            1 => select(vec![
                "-old.s", "-o.s", "-oo", "-", "--", "-O", "-h", "-v", "--help", "--version", "--output.s", "-O2.s", "*.s", "~.s", "$x.s", "a=b.s", "@a.s", "+x", "a,b.s",
                "a;b.s", "#a.s", "a.s~", "a.s.", "a s", " a.s", "a.s ", "A.ASM", "a.O", "a.o.o", "a...s", "con.s", "a\\b.s", "%s.s", "{}.s", "'a'.s",
            ]).prop_map(String::from),
            2 => file_name(),
        ],
        prop_oneof![
            8 => select(vec![
            "out.o", "out", "a.out", "d/out.o", "d.x/out.bin", "o p.o", "日本.o", "out.s.o", ".o", "./z.o", "d/../y.o", "out.asm", "-p.o", "é x/o",
        ]).prop_map(String::from),
            1 => select(vec!["-oo", "-", "--", "-x", "OUT.O", "x.s", "+", "a..o", "%s.o", "x y z", " x", "x ", "x.o~", "x\\y.o", "a.o", "prog.o"]).prop_map(String::from),
            2 => file_name(),
        ],
        (any::<bool>(), any::<bool>()),
        (
            prop_oneof![1 => Just(None), 3 => select(vec![-100_000i32, -50, -1, 0, 1, 50, 5000]).prop_map(Some)],
            prop_oneof![2 => Just(None), 2 => any::<u32>().prop_map(Some), 1 => Just(Some(u32::MAX))],
        ),
        pvec(bystander(), 0..5),
    )
        .prop_map(|(prog, args, input, output, in_path, out_path, absolute, (prior, prior_like), bystanders)| Cmdline {
            prog,
            args,
            input,
            output,
            in_path,
            out_path,
            absolute,
            prior,
            prior_like,
            bystanders,
        })
        .boxed()
}

fn snapshot(dir: &Path) -> Result<BTreeMap<PathBuf, Option<Vec<u8>>>, Fail> {
    fn go(d: &Path, root: &Path, m: &mut BTreeMap<PathBuf, Option<Vec<u8>>>) -> std::io::Result<()> {
        for e in std::fs::read_dir(d)? {
            let e = e?;
            let p = e.path();
            let rel = p.strip_prefix(root).unwrap().to_path_buf();
            if e.file_type()?.is_dir() {
                m.insert(rel, None);
                go(&p, root, m)?;
            } else if e.file_type()?.is_symlink() {
                m.insert(rel, Some(b"a symbolic link".to_vec()));
            } else {
                m.insert(rel, Some(std::fs::read(&p)?));
            }
        }
        Ok(())
    }
    let mut m = BTreeMap::new();
    go(dir, dir, &mut m).map_err(io_err)?;
    Ok(m)
}

/// The path with `d/..` and `.` resolved, relative to the scratch directory.
fn plain_path(p: &str) -> PathBuf {
    let mut v: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "." | "" => {}
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    v.iter().collect()
}

/// The documented default: the extension replaced by .o
fn default_out(input: &str) -> String {
    let (dir, name) = match input.rfind('/') {
        Some(i) => (&input[..=i], &input[i + 1..]),
        None => ("", input),
    };
    let stem = match name.rfind('.') {
        Some(0) | None => name,
        Some(i) => &name[..i],
    };
    format!("{}{}.o", dir, stem)
}

fn a10(c: &Cmdline) -> Checked {
    let source = c.prog.canonical();
    let object = sut::assemble(&source)?;
    let dir = Scratch::new()?;
    for d in ["d", "d/e", "d.x", "é x", "home/tmp"] {
        std::fs::create_dir_all(dir.path(d)).map_err(io_err)?;
    }
    let uses_out = matches!(c.args, Args::OutFirst | Args::OutLast | Args::TwoInputsOut | Args::OnlyOut | Args::TwoOuts);
    let in_rel = c.in_path.clone();
    let mut out_rel = if uses_out { c.out_path.clone() } else { default_out(&c.in_path) };
    if uses_out && c.output == Output::MissingDir {
        out_rel = format!("nosuch/{}", c.out_path);
    }
    if uses_out && c.output == Output::ThroughFile {
        std::fs::write(dir.path("plainfile"), b"a file").map_err(io_err)?;
        out_rel = format!("plainfile/{}", c.out_path);
    }
    if uses_out && c.output == Output::Input {
        out_rel = in_rel.clone();
    }
    let out_plain = plain_path(&out_rel);
    let in_plain = plain_path(&in_rel);
    // "a.o" without -o, too: the input is read before the output is written
    let same = out_plain == in_plain;
    if same && (matches!(c.output, Output::Directory | Output::Link(_)) || c.input == Input::Directory) {
        return Ok(Info::new(false));
    }
    let mut in_file = Some(source.clone().into_bytes());
    match c.input {
        Input::Good => {}
        Input::Malformed => in_file = Some(format!("{}section .text\nmov rax\n", source).into_bytes()),
        Input::Undefined => in_file = Some(format!("section .text\nmov rax, zz_nowhere\n{}", source).into_bytes()),
        Input::BssWrite => in_file = Some(format!("section .bss\ndb 1\nsection .text\n{}", source).into_bytes()),
        Input::NotText => {
            let mut b = source.clone().into_bytes();
            b.extend(b"section .data\ndb \"\xff\xfe\"\n");
            in_file = Some(b);
        }
        Input::Missing | Input::Directory => in_file = None,
    }
    for b in &c.bystanders {
        let text = |p: PathBuf| p.to_string_lossy().into_owned();
        let b = match (b.split_once('<'), b.split_once('>')) {
            (Some((front, _)), Some((place, back))) => match place.chars().last() {
                Some('O') => text(out_plain.clone()) + back,
                Some('o') => text(out_plain.with_extension("")) + back,
                Some('I') => text(in_plain.clone()) + back,
                Some('i') => text(in_plain.with_extension("")) + back,
                // in the same directory
                k => {
                    let name = if k == Some('N') { out_plain.file_name() } else { out_plain.file_stem() };
                    text(out_plain.with_file_name(format!("{}{}{}", front, name.unwrap_or_default().to_string_lossy(), back)))
                }
            },
            _ => b.clone(),
        };
        let p = plain_path(&b);
        let free = std::fs::symlink_metadata(dir.0.join(&p)).is_err() && dir.0.join(&p).parent().is_some_and(|d| d.is_dir());
        // nor what the run itself puts there
        let ours = ["link target", "plainfile", "nosuch", "second.o"].iter().any(|n| p.starts_with(n));
        let around = out_plain.starts_with(&p) || in_plain.starts_with(&p);
        let short = p.file_name().is_some_and(|n| n.len() < 250);
        if short && free && !ours && !around && p != out_plain && p != in_plain {
            std::fs::write(dir.0.join(&p), format!("bystander {}", b)).map_err(io_err)?;
        }
    }
    if let Some(b) = &in_file {
        std::fs::write(dir.0.join(&in_plain), b).map_err(io_err)?;
    } else if c.input == Input::Directory {
        std::fs::create_dir_all(dir.0.join(&in_plain)).map_err(io_err)?;
    }
    let out_abs = dir.0.join(&out_plain);
    let mut prior: Option<Vec<u8>> = None;
    let mut out_is_dir = false;
    let no_place = uses_out && matches!(c.output, Output::MissingDir | Output::ThroughFile);
    let target = PathBuf::from("link target");
    if let Output::Link(there) = c.output {
        // relative to nothing: an absolute target
        std::os::unix::fs::symlink(dir.0.join(&target), &out_abs).map_err(io_err)?;
        if there {
            std::fs::write(dir.0.join(&target), vec![0xBBu8; object.len() + 7]).map_err(io_err)?;
        }
    } else if c.output == Output::Directory {
        std::fs::create_dir_all(&out_abs).map_err(io_err)?;
        out_is_dir = true;
    } else if let (Some(d), false) = (c.prior, no_place || same) {
        let n = (object.len() as i64 + d as i64).max(0) as usize;
        let mut b = vec![0xAAu8; n];
        if let Some(at) = c.prior_like {
            // an older output: the same but for one byte
            let k = n.min(object.len());
            b[..k].copy_from_slice(&object[..k]);
            if k > 0 {
                b[at as usize % k] ^= 1 << (at % 8);
            }
        }
        std::fs::write(&out_abs, &b).map_err(io_err)?;
        prior = Some(b);
    }
    let s = |rel: &str, abs: bool| -> String {
        if abs {
            format!("{}/{}", dir.0.display(), rel)
        } else {
            rel.to_string()
        }
    };
    let dev_full = uses_out && c.output == Output::DevFull;
    let piped = uses_out && c.output == Output::Stdout;
    let in_arg = s(&in_rel, c.absolute.0);
    let out_arg = if dev_full {
        "/dev/full".to_string()
    } else if piped {
        "/dev/stdout".to_string()
    } else {
        s(&out_rel, c.absolute.1)
    };
    let args: Vec<String> = match c.args {
        Args::InOnly => vec![in_arg],
        Args::OutFirst => vec!["-o".into(), out_arg, in_arg],
        Args::OutLast => vec![in_arg, "-o".into(), out_arg],
        Args::Nothing => vec![],
        Args::TwoInputs => vec![in_arg, "b.s".into()],
        Args::TwoInputsOut => vec![in_arg, "-o".into(), out_arg, "b.s".into()],
        Args::NoOutValue => vec![in_arg, "-o".into()],
        Args::OnlyOut => vec!["-o".into(), out_arg],
        Args::TwoOuts => vec!["-o".into(), out_arg, "-o".into(), "second.o".into(), in_arg],
        Args::UnknownFlag => vec!["-z".into(), in_arg],
        Args::SameInputTwice => vec![in_arg.clone(), in_arg],
        Args::EmptyInput => vec!["".into()],
    };
    let before = snapshot(&dir.0)?;
    let mut cmd = Command::new(sut::cli_path()?);
    cmd.current_dir(&dir.0).args(&args).env("RUST_BACKTRACE", "0");
    // the places a program may leave something in are compared as well
    for (var, d) in [("TMPDIR", "home/tmp"), ("HOME", "home"), ("XDG_CACHE_HOME", "home"), ("XDG_CONFIG_HOME", "home"), ("XDG_RUNTIME_DIR", "home")] {
        cmd.env(var, dir.path(d));
    }
    let mut limited = false;
    if let Output::Limit(k) = c.output {
        let n = (object.len() as u64 * k as u64 / 256).min(object.len() as u64 - 1);
        limited = true;
        unsafe {
            cmd.pre_exec(move || {
                let l = libc::rlimit {
                    rlim_cur: n,
                    rlim_max: n,
                };
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                if libc::setrlimit(libc::RLIMIT_FSIZE, &l) != 0 {
                    return Err(std::io::Error::last_os_error());
                }
                Ok(())
            });
        }
    }
    let r = sut::run(&mut cmd)?;
    let after = snapshot(&dir.0)?;

    let good_args = matches!(c.args, Args::InOnly | Args::OutFirst | Args::OutLast);
    let assembles = good_args && c.input == Input::Good;
    let writable = !(limited && !(piped || dev_full) || out_is_dir || dev_full || no_place);
    let may_change = |p: &PathBuf| {
        assembles && !piped && !dev_full && !no_place && (*p == out_plain && !out_is_dir || matches!(c.output, Output::Link(_)) && *p == target)
    };
    let what = format!("at-asm {:?} (input {:?}, output {:?}, before {:?})", args, c.input, c.output, c.prior);
    if assembles && writable {
        ensure!(r.ok(), "{}: status {:?}: {}", what, r.code, r.stderr.trim());
        let got = if piped { Some(r.stdout.clone()) } else { std::fs::read(&out_abs).ok() };
        match got {
            None => return Err(format!("{}: status 0, but {:?} is not there", what, out_plain).into()),
            Some(g) => ensure!(
                g == object,
                "{}: the output has {} bytes, the object {} (equal up to {:?})",
                what,
                g.len(),
                object.len(),
                g.iter().zip(&object).position(|(a, b)| a != b)
            ),
        }
    } else {
        ensure!(!r.ok(), "{}: status 0", what);
    }
    for (p, b) in &before {
        if may_change(p) {
            continue;
        }
        ensure!(
            after.get(p) == Some(b),
            "{}: {:?} was {} (status {:?})",
            what,
            p,
            if after.contains_key(p) { "changed" } else { "removed" },
            r.code
        );
    }
    for p in after.keys() {
        ensure!(
            before.contains_key(p) || may_change(p),
            "{}: {:?} was created (status {:?})",
            what,
            p,
            r.code
        );
    }
    let longer = prior.as_ref().map_or(false, |p| p.len() > object.len());
    Ok(Info::new(true)
        .class(assembles && writable, "success")
        .class(!good_args, "wrong arguments")
        .class(c.input != Input::Good, "input that does not assemble")
        .class(assembles && !writable, "output that cannot be written")
        .class(same, "output over the input")
        .class(piped && assembles, "output to a pipe")
        .class(matches!(c.output, Output::Link(_)), "output through a symbolic link")
        .class(longer && assembles && writable, "longer old output")
        .class(prior.is_some() && !assembles, "old output kept")
        .class(assembles && limited, "write fails half-way"))
}

// ------------------------------------------------------------------------ A11

fn sections_of(f: &File) -> Vec<(String, u64, u64, u32, Vec<u8>)> {
    f.sects()
        .iter()
        .map(|s| {
            (
                s.sectname.clone(),
                s.addr,
                s.size,
                s.flags,
                f.content(s).map(|b| b.to_vec()).unwrap_or_default(),
            )
        })
        .collect()
}

fn regroup(p: &Prog) -> Prog {
    let mut by: [Vec<Stmt>; 3] = Default::default();
    let mut globals = vec![];
    let mut cur = Sec::Text;
    for s in &p.stmts {
        match s {
            Stmt::Section(s) => cur = *s,
            Stmt::Global(_) => globals.push(s.clone()),
            s => by[cur.idx()].push(s.clone()),
        }
    }
    let mut stmts = globals;
    for s in Sec::ALL {
        stmts.push(Stmt::Section(s));
        stmts.append(&mut by[s.idx()]);
    }
    Prog { stmts }
}

fn a11(c: &Case) -> Checked {
    let (src, _) = c.prog.render(&c.style);
    let o = object(&c.prog, &src)?;
    let g = regroup(&c.prog);
    let b = sut::assemble(&g.canonical())?;
    let f = File::parse(&b)?;
    ensure!(
        sections_of(&f) == sections_of(&o.file),
        "regrouping the program by sections changes the sections"
    );
    let syms = |f: &File| -> Vec<_> {
        f.syms
            .iter()
            .map(|s| (s.text(), s.typ, s.sect, s.desc, s.value))
            .collect()
    };
    ensure!(
        syms(&f) == syms(&o.file),
        "regrouping the program by sections changes the symbols: {:?} became {:?}",
        syms(&o.file).iter().map(|s| (&s.0, s.2, s.4)).take(12).collect::<Vec<_>>(),
        syms(&f).iter().map(|s| (&s.0, s.2, s.4)).take(12).collect::<Vec<_>>()
    );
    let rels = |f: &File| -> Vec<Vec<_>> {
        f.relocs
            .iter()
            .map(|v| {
                v.iter()
                    .map(|r| {
                        let t = if r.ext {
                            f.syms.get(r.num as usize).map(|s| s.text()).unwrap_or_default()
                        } else {
                            format!("section {}", r.num)
                        };
                        (r.addr, r.len, r.pcrel, r.ext, r.typ, t)
                    })
                    .collect()
            })
            .collect()
    };
    ensure!(
        rels(&f) == rels(&o.file),
        "regrouping the program by sections changes the references"
    );
    let switches = c
        .prog
        .stmts
        .iter()
        .filter(|s| matches!(s, Stmt::Section(_)))
        .count();
    let used = (0..3).filter(|k| !o.want.pieces[*k].is_empty()).count();
    Ok(Info::new(switches >= 2 && used == 2)
        .class(switches >= 5, "five or more switches")
        .class(!o.at.sites.is_empty(), "label operands")
        .class(
            matches!(c.prog.stmts.iter().find(|s| !matches!(s, Stmt::Global(_))), Some(s) if !matches!(s, Stmt::Section(_))),
            "starts in the initial section",
        ))
}

const SWITCHY: Profile = Profile {
    section: 25,
    max_stmts: 60,
    ..GENERAL
};

// ------------------------------------------------------------------------ A12

fn a12_bases(p: &Prog) -> Vec<[u64; 3]> {
    vec![
        bases_for(p, [0x1_0000_0f80, 0x1_0000_2000, 0x1_0000_3008]),
        bases_for(p, [0x7766_5544_3322_1100, 0x10, 0x00ff_00ff_00ff_00ff]),
    ]
}

fn a12_info(p: &Prog, l: &Located) -> Info {
    let kinds = [
        p.stmts.iter().any(|s| matches!(s, Stmt::Section(_))),
        p.stmts.iter().any(|s| matches!(s, Stmt::Global(_))),
        p.stmts.iter().any(|s| matches!(s, Stmt::Label(_))),
        p.stmts.iter().any(|s| matches!(s, Stmt::Data { .. })),
        p.stmts.iter().any(|s| matches!(s, Stmt::Mov { .. })),
    ];
    Info::new(kinds.iter().filter(|k| **k).count() >= 3)
        .class(kinds.iter().all(|k| *k), "all kinds of statements")
        .class(!l.sites.is_empty(), "label operands")
        .class(p.stmts.len() > 500, "over 500 statements")
        .class(l.bytes[0].len() + l.bytes[1].len() > 65_536, "over 64 KiB of contents")
        .class(l.labels.len() > 255, "over 255 labels")
}

fn a12(c: &Case) -> Checked {
    let (src, _) = c.prog.render(&c.style);
    let b = sut::assemble_in_parts(&src)?;
    let l = check_program(&c.prog, &b, &a12_bases(&c.prog))?;
    Ok(a12_info(&c.prog, &l))
}

/// Any text the reference reader calls valid.
fn a12_text(c: &Text) -> Checked {
    let Verdict::Valid(p) = text::read(&c.text) else {
        return Ok(Info::new(false));
    };
    let b = sut::assemble_in_parts(&c.text)?;
    let l = check_program(&p, &b, &a12_bases(&p))?;
    Ok(Info::new(c.text != c.original && !p.stmts.is_empty()).class(!l.sites.is_empty(), "label operands"))
}

fn a12_cli(c: &Case) -> Checked {
    let (src, _) = c.prog.render(&c.style);
    let dir = Scratch::new()?;
    std::fs::write(dir.path("p.s"), &src).map_err(io_err)?;
    let r = sut::cli(&dir.0, &["p.s".into()])?;
    ensure!(r.ok(), "a valid program is refused: {}", r.stderr.trim());
    let b = std::fs::read(dir.path("p.o")).map_err(|e| format!("no object: {}", e))?;
    let l = check_program(&c.prog, &b, &a12_bases(&c.prog))?;
    Ok(a12_info(&c.prog, &l))
}

const NASM: Profile = Profile {
    nasm: true,
    max_stmts: 60,
    ..GENERAL
};

/// The same source through NASM; both objects have to satisfy the same model.
fn a12_nasm(p: &Prog) -> Checked {
    let nasm = sut::tool(&["nasm"]).ok_or_else(|| Fail::Machinery("nasm is not installed".into()))?;
    // NASM wants exports in front of the definitions
    let (globals, rest): (Vec<Stmt>, Vec<Stmt>) = p.stmts.iter().cloned().partition(|s| matches!(s, Stmt::Global(_)));
    let p = Prog {
        stmts: globals.into_iter().chain(rest).collect(),
    };
    let src = p.canonical();
    let ours = sut::assemble(&src)?;
    let dir = Scratch::new()?;
    std::fs::write(dir.path("p.s"), &src).map_err(io_err)?;
    let r = sut::run(
        Command::new(nasm)
            .current_dir(&dir.0)
            .args(["-f", "macho64", "-w-all", "-o", "n.o", "p.s"]),
    )?;
    if !r.ok() {
        return Err(Fail::Machinery(format!("NASM refuses the program: {}", r.stderr.trim())));
    }
    let theirs = std::fs::read(dir.path("n.o")).map_err(io_err)?;
    let bases = a12_bases(&p);
    let e = expected(&p);
    let nf = File::parse(&theirs).map_err(|m| Fail::Machinery(format!("NASM's object: {}", m)))?;
    let nl = nasm_view(&p, &e, &nf, &bases).map_err(|m| Fail::Machinery(format!("NASM disagrees with the model: {}", m)))?;
    let l = check_program(&p, &ours, &bases)?;
    // same instructions, byte for byte the same data, in the same places relative
    // to the instructions: both follow from both having passed the model; what is
    // left is the set of symbols and exports
    let of = File::parse(&ours)?;
    let view = |f: &File| {
        let mut v: Vec<_> = f.syms.iter().map(|s| (s.text(), s.ext())).collect();
        v.sort();
        v
    };
    ensure!(
        view(&of) == view(&nf),
        "symbols or exports differ from NASM's: {:?} / {:?}",
        view(&of),
        view(&nf)
    );
    ensure!(nl.sites.len() == l.sites.len(), "label operands differ from NASM's");
    Ok(a12_info(&p, &l))
}

fn nasm_view(p: &Prog, e: &Expected, f: &File, bases: &[[u64; 3]]) -> Result<Located, String> {
    let l = walk(p, e, f)?;
    check_symbols(e, &l, f)?;
    for b in bases {
        check_link(e, &l, f, *b)?;
    }
    Ok(l)
}

const HUGE_ITEMS: Profile = Profile {
    max_items: 300,
    max_str: 20_000,
    ..GENERAL
};

/// Systematic small programs: every ordered selection of statements of one kind each.
fn a12_small(tier: Tier) -> Vec<Case> {
    let kinds: Vec<fn(usize) -> Vec<Stmt>> = vec![
        |_| vec![Stmt::Section(Sec::Text)],
        |_| vec![Stmt::Section(Sec::Data)],
        |_| vec![Stmt::Section(Sec::Bss)],
        |i| vec![Stmt::Label(format!("l{}", i))],
        |i| vec![data_stmt(Some(&format!("d{}", i)), Unit::W, vec![Item::S("odd".into()), Item::N(i as u64)])],
        |i| vec![data_stmt(None, Unit::B, vec![Item::N(i as u64)])],
        |i| vec![mov_e(32, i as u8, 0x1234_5678)],
        |_| vec![Stmt::Ret],
        |_| vec![Stmt::Mov { w: 64, dst: 12, src: Src::Label("l*".into()) }],
        |_| vec![Stmt::Mov { w: 32, dst: 3, src: Src::Label("d*".into()) }],
        |_| vec![Stmt::Global("l*".into())],
    ];
    let depth = if tier == Tier::Quick { 4 } else { 5 };
    let n = kinds.len();
    let mut v = Vec::new();
    for len in 0..=depth {
        for code in 0..n.pow(len as u32) {
            let mut x = code;
            let mut stmts = Vec::new();
            for i in 0..len {
                stmts.extend(kinds[x % n](i));
                x /= n;
            }
            // resolve "any label"; drop what is not valid
            let defs: Vec<String> = stmts.iter().filter_map(|s| s.defines().map(String::from)).collect();
            let mut cur = Sec::Text;
            let mut ok = true;
            for s in stmts.iter_mut() {
                match s {
                    Stmt::Section(x) => cur = *x,
                    Stmt::Global(l) | Stmt::Mov { src: Src::Label(l), .. } => {
                        let pick = if l.starts_with('l') { defs.first() } else { defs.last() };
                        match pick {
                            Some(d) => *l = d.clone(),
                            None => ok = false,
                        }
                    }
                    _ => {}
                }
                if s.emits() && cur == Sec::Bss {
                    ok = false;
                }
            }
            if ok {
                v.push(Case {
                    prog: Prog { stmts },
                    style: Style::canonical(),
                });
            }
        }
    }
    v
}

// ------------------------------------------------------------------------ A13

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Dup {
    prog: Prog,
    style: Style,
    /// which definition is repeated
    which: u16,
    /// where, after the first one
    at: u16,
    sec: Sec,
    data: bool,
    /// another repetition further on
    again: Option<u16>,
    /// the source is fed in as many inputs, cut between lines
    cuts: Vec<u16>,
}

fn dup_case(p: BoxedStrategy<Prog>) -> BoxedStrategy<Dup> {
    (
        p,
        prop_oneof![2 => Just(Style::canonical()), 1 => style()],
        (any::<u16>(), prop_oneof![2 => any::<u16>(), 1 => Just(0u16), 1 => Just(u16::MAX)]),
        select(Sec::ALL.to_vec()),
        any::<bool>(),
        prop_oneof![3 => Just(None), 1 => any::<u16>().prop_map(Some)],
        prop_oneof![3 => Just(vec![]), 1 => pvec(any::<u16>(), 1..4)],
    )
        .prop_map(|(mut prog, style, (which, at), sec, data, again, cuts)| {
            if !prog.stmts.iter().any(|s| s.defines().is_some()) {
                prog.stmts.insert(0, Stmt::Label("only".into()));
            }
            Dup { prog, style, which, at, sec, data, again, cuts }
        })
        .boxed()
}

/// Puts another definition of `name` somewhere behind statement `from`, leaving
/// the section of everything else as it is.
fn redefine(p: &mut Vec<Stmt>, from: usize, at: u16, name: &str, sec: Sec, data: bool) -> usize {
    let room = p.len() - from;
    let i = from + 1 + at as usize * room / (u16::MAX as usize + 1);
    let cur = p[..i]
        .iter()
        .rev()
        .find_map(|s| match s {
            Stmt::Section(s) => Some(*s),
            _ => None,
        })
        .unwrap_or(Sec::Text);
    let stmt = if data && sec != Sec::Bss {
        data_stmt(Some(name), Unit::W, vec![Item::N(7)])
    } else {
        Stmt::Label(name.into())
    };
    if cur == sec {
        p.insert(i, stmt);
        i
    } else {
        p.splice(i..i, [Stmt::Section(sec), stmt, Stmt::Section(cur)]);
        i + 1
    }
}

fn a13(c: &Dup) -> Checked {
    let mut p = c.prog.clone();
    let defs: Vec<usize> = (0..p.stmts.len()).filter(|i| p.stmts[*i].defines().is_some()).collect();
    let first = defs[c.which as usize % defs.len()];
    let name = p.stmts[first].defines().unwrap().to_string();
    let second = redefine(&mut p.stmts, first, c.at, &name, c.sec, c.data);
    if let Some(a) = c.again {
        redefine(&mut p.stmts, second, a, &name, c.sec, !c.data);
    }
    let (src, at) = p.render(&c.style);
    let line = at[second];
    // pieces between lines
    let lines: Vec<&str> = src.split_inclusive('\n').collect();
    let mut cuts: Vec<usize> = c.cuts.iter().map(|x| *x as usize % (lines.len() + 1)).collect();
    cuts.sort();
    let mut feeds = vec![];
    let mut from = 0;
    for k in cuts.into_iter().chain([lines.len()]) {
        feeds.push(Feed::whole(&lines[from..k].concat()));
        from = k;
    }
    let split = feeds.len() > 1;
    let n = feeds.len();
    let what = || format!("label `{}` is defined again in line {}", clip(&name), line);
    match sut::ask(&Request {
        feeds,
        writes: vec![(n, SinkSpec::default())],
        twin: vec![], at_once: false,
    })? {
        Reply::Done(v) => ensure!(v.iter().all(|w| !w.returned), "{}, and the program is assembled", what()),
        Reply::Panicked(_) => {}
        Reply::Exited { code, stderr } => {
            ensure!(code != Some(0), "{}, and the status is 0", what());
            if !split {
                ensure!(names_line(&stderr, line), "{}, but the diagnostic says: {}", what(), clip(stderr.trim()));
            }
        }
    }
    Ok(Info::new(true)
        .class(split, "over several inputs")
        .class(second == first + 1, "right behind the first definition")
        .class(line > 255, "beyond line 256")
        .class(c.again.is_some(), "defined three times")
        .class(c.sec == Sec::Bss, "repeated in bss"))
}

/// The command refuses such a program and leaves no object.
fn a13_cli(c: &Dup) -> Checked {
    let mut p = c.prog.clone();
    let defs: Vec<usize> = (0..p.stmts.len()).filter(|i| p.stmts[*i].defines().is_some()).collect();
    let first = defs[c.which as usize % defs.len()];
    let name = p.stmts[first].defines().unwrap().to_string();
    let second = redefine(&mut p.stmts, first, c.at, &name, c.sec, c.data);
    let (src, at) = p.render(&c.style);
    let dir = Scratch::new()?;
    let r = must_fail(&dir, &src)?;
    ensure!(
        names_line(&r.stderr, at[second]),
        "label `{}` is defined again in line {}, but the diagnostic says: {}",
        clip(&name),
        at[second],
        clip(r.stderr.trim())
    );
    Ok(Info::new(true))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Near {
    prog: Prog,
    style: Style,
    /// a label close to the one of that number, defined at that place
    near: Vec<(u16, u8, u16, Sec, bool)>,
}

/// Labels that are merely similar are different labels.
fn a13_near(c: &Near) -> Checked {
    let mut p = c.prog.clone();
    let mut names: std::collections::HashSet<String> = p.stmts.iter().filter_map(|s| s.defines().map(String::from)).collect();
    let base: Vec<String> = {
        let mut v: Vec<String> = names.iter().cloned().collect();
        v.sort();
        v
    };
    let mut added = 0;
    // both names of a pair, or one close to a label that is there
    let near = c.near.iter().flat_map(|x| match x.1 {
        11 => vec![(x, Some(prog::ALIKE[x.0 as usize % prog::ALIKE.len()].0)), (x, Some(prog::ALIKE[x.0 as usize % prog::ALIKE.len()].1))],
        _ => vec![(x, None)],
    });
    for ((which, how, at, sec, data), given) in near {
        if base.is_empty() {
            break;
        }
        let n = given.map_or(base[*which as usize % base.len()].clone(), String::from);
        let swap = |s: &str| -> String { s.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect() };
        let m = match how {
            0 => n.to_uppercase(),
            1 => n.to_lowercase(),
            2 => format!("_{}", n),
            3 => format!("{}_", n),
            4 => n[1..].to_string(),
            5 => n[..n.len() - 1].to_string(),
            6 => swap(&n),
            7 => format!("{}{}", n, n),
            8 => n.chars().rev().collect(),
            9 => format!("{}0", n),
            11 => n.clone(),
            _ => format!("{}{}", swap(&n[..1]), &n[1..]),
        };
        if m.is_empty() || is_reserved(&m) || m.starts_with(|c: char| c.is_ascii_digit()) || !names.insert(m.clone()) {
            continue;
        }
        added += 1;
        if p.stmts.is_empty() {
            break;
        }
        let last = p.stmts.len() - 1;
        redefine(&mut p.stmts, *at as usize % (last + 1), 0, &m, *sec, *data);
    }
    let (src, _) = p.render(&c.style);
    let o = object(&p, &src)?;
    check_symbols(&o.want, &o.at, &o.file)?;
    Ok(Info::new(added > 0).class(added > 1, "several similar labels"))
}

fn near_case() -> BoxedStrategy<Near> {
    (
        program(Profile { max_stmts: 16, ..LABELS }),
        style(),
        pvec((any::<u16>(), 0u8..12, any::<u16>(), select(Sec::ALL.to_vec()), any::<bool>()), 1..5),
    )
        .prop_map(|(prog, style, near)| Near { prog, style, near })
        .boxed()
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "A01",
            level: "exploration",
            rule: "A case is a program of mov/push/ret/syscall lines; every register pair, edge immediates of every register and a sweep of push values are enumerated, other sequences are random and written in varying layouts. The text section is decoded back and compared by effect. Non-trivial: at least two instructions.",
            assumptions: &["The harness's decoder is right (cross-checked with objdump)."],
            parts: || {
                vec![
                    listed("forms", a01_forms, a01),
                    random("sequences", (80_000, 1_500_000), |_| case_of(program(INSTRUCTIONS)), a01),
                    random("long", (60, 1_500), |_| case_of(big_program(INSTRUCTIONS, 300, 6000)), a01),
                    listed("huge", |t| huge(t, &[Many::Instructions], 10_000), on_huge(a01)),
                ]
            },
        },
        Property {
            id: "A02",
            level: "exploration",
            rule: "A case is a program of mostly data lines; every unit with every string length, every character in every position of a string and every small value are enumerated, other lines are random. Non-trivial: the program has a data line.",
            assumptions: &["Strings contain no double quote and no line break; items are separated by one comma."],
            parts: || {
                vec![
                    listed("grid", a02_grid, a02),
                    listed("sizes", a02_sizes, a02),
                    random("lines", (80_000, 1_500_000), |_| case_of(program(DATA)), a02),
                    random("wide", (1_500, 40_000), |_| case_of(program(Profile { max_items: 2_000, max_str: 40_000, ..DATA })), a02),
                    random("long", (60, 1_500), |_| case_of(big_program(DATA, 300, 3000)), a02),
                    listed("huge", |t| huge(t, &[Many::Data, Many::DataLabels, Many::Items, Many::Pieces], 10_000), on_huge(a02)),
                ]
            },
        },
        Property {
            id: "A03",
            level: "exploration",
            rule: "A case is a label-heavy program switching between sections; label names close to reserved words and of many shapes are enumerated in each section; names with NUL, control, punctuation or non-ASCII characters must be refused or come out right. Non-trivial: at least two labels.",
            assumptions: &["Labels are unique, not reserved words or registers, and do not start with a digit."],
            parts: || {
                vec![
                    listed("names", a03_names, a03),
                    random("odd-names", (15_000, 300_000), |_| odd_label(), a03_odd),
                    random("programs", (80_000, 1_500_000), |_| case_of(program(LABELS)), a03),
                    random("big", (60, 1_500), |_| case_of(big_program(LABELS, 300, 2500)), a03),
                    listed("huge", |t| huge(t, &[Many::Labels, Many::BareLabels, Many::DataLabels, Many::Globals, Many::LongNames, Many::Pieces], 70_000), on_huge(a03)),
                ]
            },
        },
        Property {
            id: "A04",
            level: "exploration",
            rule: "A case is a program with label operands and section placements; its relocations are applied as the Mach-O format defines them and the result compared with the contents holding the final addresses. Non-trivial: at least one label operand.",
            assumptions: &["Programs with 32-bit label operands are placed below 4 GiB."],
            parts: || {
                vec![
                    listed("similar-names", a04_names, a04),
                    listed("far", a04_far, a04),
                    listed("limits", crate::limits::programs, crate::limits::check),
                    random("programs", (80_000, 1_500_000), |_| link_case(program(REFS)), a04),
                    random("big", (60, 1_500), |_| link_case(big_program(REFS, 300, 2000)), a04),
                    listed("huge", |t| huge(t, &[Many::Labels, Many::BareLabels, Many::DataLabels, Many::Refs, Many::LongNames, Many::Pieces], 10_000), a04_huge),
                ]
            },
        },
        Property {
            id: "A05",
            level: "exploration",
            rule: "A case is a program of lines with numbers and sums in varying notations (decimal, hexadecimal in either case, leading zeros); every notation of edge values in every place is enumerated. Non-trivial: the program contains a number.",
            assumptions: &["The operators are surrounded by whitespace."],
            parts: || {
                vec![
                    listed("grid", a05_grid, a05),
                    random("numbers", (80_000, 1_500_000), |_| {
                        (numbers_prog(12), notation_only()).prop_map(|(prog, style)| Case { prog, style })
                    }, a05),
                    random("long", (100, 3_000), |_| {
                        (numbers_prog(3000), notation_only()).prop_map(|(prog, style)| Case { prog, style })
                    }, a05),
                ]
            },
        },
        Property {
            id: "A06",
            level: "exploration",
            rule: "A case is a program and another layout of it (whitespace, comments, blank lines, CRLF, missing final newline, sections named again); both are assembled and compared byte for byte. Each kind of variation is enumerated on a program with every kind of statement. Non-trivial: the two sources differ.",
            assumptions: &["Whitespace means spaces and tabs; + and - are surrounded by whitespace in both."],
            parts: || {
                vec![
                    listed("single-variations", a06_single, a06),
                    listed("huge", a06_extremes, a06_huge),
                    random("layouts", (80_000, 1_500_000), |_| layout(program(Profile { max_stmts: 20, ..GENERAL })), a06),
                    random("big", (100, 3_000), |_| layout(big_program(GENERAL, 200, 1500)), a06),
                ]
            },
        },
        Property {
            id: "A07",
            level: "exploration",
            rule: "A case is a valid program with malformed lines inserted (a fixed list at three positions, and random ones of every kind, and programs or arbitrary text whose characters, tokens and lines are edited, judged by an independent reader of the language), or with a reference to an undefined label or a write into bss; at-asm is run on it. Non-trivial: every case.",
            assumptions: &["A line counts as malformed only if it is no statement under any reading of the language; register names, reserved words and digits are not used as label names."],
            parts: || {
                vec![
                    listed("fixed", a07_fixed, a07_line),
                    random("malformed", (20_000, 300_000), |_| bad_case(), a07_line),
                    listed("far", far_cases, a07_far),
                    listed("wide", wide_lines, a07_wide),
                    random("big", (600, 10_000), |_| bad_big(), a07_line),
                    random("edited", (30_000, 1_000_000), |_| text::edited(program(Profile { max_stmts: 10, ..GENERAL }), false), a07_text),
                    random("soup", (30_000, 1_000_000), |_| text::soup(), a07_text),
                    random("undefined-or-bss", (3_000, 100_000), |_| undefined_case(), a07_undefined),
                ]
            },
        },
        Property {
            id: "A08",
            level: "exploration",
            rule: "A case is one number (up to 72 bits, both notations, leading zeros, or as a sum or difference) in one place of a small program; accepted exactly when it fits, and then with that value. All boundaries in all places are enumerated. Non-trivial: every case.",
            assumptions: &["Operands of a sum are themselves at most 64 bits."],
            parts: || {
                vec![
                    listed("boundaries", a08_grid, a08),
                    listed("wide", wide_fits, a08_wide),
                    random("numbers", (40_000, 500_000), |_| fits_case(), a08),
                    random("command-line", (1_500, 50_000), |_| fits_case(), a08_cli),
                ]
            },
        },
        Property {
            id: "A09",
            level: "exploration",
            rule: "A case is a source with a delivery (read sizes and interruptions, line-wise splits over several inputs, with or without final newlines, repeated and intermediate writes, sometimes at-asm as well), or several sources assembled by threads that take turns at every read and write, or one whose reader fails somewhere, which must not be assembled; long lines around buffer sizes with multi-byte characters are listed. Non-trivial: not delivered at once, two sources that are not empty, or a failing reader.",
            assumptions: &["Inputs are split between lines."],
            parts: || {
                vec![
                    listed("long-lines", a09_long, a09_long_check),
                    random("deliveries", (50_000, 800_000), |_| delivery(program(GENERAL)), a09),
                    random("big", (200, 5_000), |_| delivery(big_program(GENERAL, 200, 1200)), a09),
                    random("cut-short", (20_000, 300_000), |_| cut_short(), a09_cut_short),
                    random("at-once", (10_000, 200_000), |_| at_once(), a09_at_once),
                    listed("huge", |t| huge(t, &MANY, 10_000), a09_huge),
                ]
            },
        },
        Property {
            id: "A10",
            level: "fault_enumeration",
            rule: "A case is a run of at-asm in a scratch directory: argument order and mistakes, path shapes, kind of input, kind of output (plain, missing directory, directory, through a file, a symbolic link, a pipe, the input itself, full device, file size limit at any point), earlier contents of the output, other files. The directory is compared before and after. Non-trivial: every case.",
            assumptions: &["A symbolic link as output may be followed or replaced."],
            parts: || {
                vec![
                    random("runs", (8_000, 250_000), |_| cmdline(), a10),
                    listed("large", a10_large, a10_huge),
                ]
            },
        },
        Property {
            id: "A11",
            level: "exploration",
            rule: "A case is a program that switches sections often; it is compared with the model and with its own regrouping by section. Non-trivial: at least two section lines and contents in two sections.",
            assumptions: &[],
            parts: || {
                vec![
                    random("programs", (80_000, 1_500_000), |_| case_of(program(SWITCHY)), a11),
                    random("big", (60, 1_500), |_| case_of(big_program(SWITCHY, 300, 2500)), a11),
                    listed("huge", |t| huge(t, &[Many::Switches, Many::BareSwitches, Many::DataLabels], 10_000), on_huge(a11)),
                ]
            },
        },
        Property {
            id: "A12",
            level: "exploration",
            rule: "A case is a whole program; all statement sequences up to length 4 (thorough: 5) over 11 kinds are enumerated, others random, small to very large, through the library and at-asm; edited and arbitrary texts are judged by an independent reader; the subset NASM reads the same way is assembled by NASM as well. Non-trivial: at least three kinds of statements.",
            assumptions: &["NASM 2.16 is right on the common subset."],
            parts: || {
                vec![
                    listed("small", a12_small, a12),
                    random("programs", (80_000, 1_500_000), |_| case_of(program(GENERAL)), a12),
                    random("wide", (1_000, 40_000), |_| case_of(program(HUGE_ITEMS)), a12),
                    random("big", (80, 2_000), |_| case_of(big_program(GENERAL, 300, 4000)), a12),
                    listed("huge", |t| huge(t, &MANY, 10_000), on_huge(a12)),
                    random("edited", (100_000, 2_000_000), |_| text::edited(program(Profile { max_stmts: 10, ..GENERAL }), true), a12_text),
                    random("soup", (60_000, 1_000_000), |_| text::soup(), a12_text),
                    random("command-line", (1_500, 50_000), |_| case_of(program(GENERAL)), a12_cli),
                    random("nasm", (2_000, 60_000), |_| program(NASM), a12_nasm),
                    random("nasm-big", (40, 1_000), |_| big_program(NASM, 300, 2000), a12_nasm),
                ]
            },
        },
        Property {
            id: "A13",
            level: "exploration",
            rule: "A case is a valid program in which one label is defined a second time (right behind the first definition to thousands of lines later, with a colon or in front of data, in any section, in the same or a later input to the same assembler), which must be refused at that line; or one with additional labels that differ from existing ones in letter case, one character, an underscore or a repetition, which must be assembled with all of them. Non-trivial: a label is repeated, or a similar one was added.",
            assumptions: &["The line is only required of programs given in one input."],
            parts: || {
                vec![
                    random("twice", (40_000, 1_000_000), |_| dup_case(program(LABELS)), a13),
                    random("twice-big", (150, 4_000), |_| dup_case(big_program(LABELS, 200, 2500)), a13),
                    random("command-line", (1_500, 40_000), |_| dup_case(program(Profile { max_stmts: 16, ..LABELS })), a13_cli),
                    random("similar", (40_000, 1_000_000), |_| near_case(), a13_near),
                ]
            },
        },
    ]
}
