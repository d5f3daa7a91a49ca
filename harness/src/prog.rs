//! Assembly programs: syntax tree, generators, renderer (with presentation
//! styles) and the reference model that judges an assembled object.
//!
//! The model is independent of how instructions are encoded: it walks a
//! section's bytes with the independent decoder and compares effects.

use crate::dict;
use crate::mo;
use crate::x86::{self, Op};
use proptest::collection::vec as pvec;
use proptest::prelude::*;
use proptest::sample::{select, Index};
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet};

pub const R64: [&str; 16] = [
    "rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13",
    "r14", "r15",
];
pub const R32: [&str; 16] = [
    "eax", "ecx", "edx", "ebx", "esp", "ebp", "esi", "edi", "r8d", "r9d", "r10d", "r11d", "r12d",
    "r13d", "r14d", "r15d",
];
pub const R16: [&str; 16] = [
    "ax", "cx", "dx", "bx", "sp", "bp", "si", "di", "r8w", "r9w", "r10w", "r11w", "r12w", "r13w",
    "r14w", "r15w",
];

pub fn reg_name(w: u8, n: u8) -> &'static str {
    match w {
        64 => R64[n as usize],
        32 => R32[n as usize],
        16 => R16[n as usize],
        _ => unreachable!(),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Sec {
    Text,
    Data,
    Bss,
}

impl Sec {
    pub const ALL: [Sec; 3] = [Sec::Text, Sec::Data, Sec::Bss];
    pub fn idx(self) -> usize {
        self as usize
    }
    pub fn source(self) -> &'static str {
        [".text", ".data", ".bss"][self.idx()]
    }
    pub fn macho(self) -> (&'static str, &'static str) {
        [("__TEXT", "__text"), ("__DATA", "__data"), ("__DATA", "__bss")][self.idx()]
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Unit {
    B,
    W,
    D,
    Q,
}

impl Unit {
    pub const ALL: [Unit; 4] = [Unit::B, Unit::W, Unit::D, Unit::Q];
    pub fn bytes(self) -> usize {
        1 << self as usize
    }
    pub fn name(self) -> &'static str {
        ["db", "dw", "dd", "dq"][self as usize]
    }
    pub fn max(self) -> u64 {
        u64::MAX >> (64 - 8 * self.bytes())
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Item {
    N(u64),
    S(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Expr {
    One(u64),
    Add(u64, u64),
    Sub(u64, u64),
}

impl Expr {
    pub fn value(self) -> u64 {
        // the mathematical value modulo 2^64
        let m = 1i128 << 64;
        let v = match self {
            Expr::One(a) => a as i128,
            Expr::Add(a, b) => a as i128 + b as i128,
            Expr::Sub(a, b) => a as i128 - b as i128,
        };
        (((v % m) + m) % m) as u64
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Src {
    Expr(Expr),
    Reg(u8),
    Label(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Stmt {
    Section(Sec),
    Global(String),
    Label(String),
    Data {
        label: Option<String>,
        unit: Unit,
        items: Vec<Item>,
    },
    Mov {
        w: u8,
        dst: u8,
        src: Src,
    },
    PushReg(u8),
    PushImm(u32),
    Ret,
    Syscall,
}

impl Stmt {
    pub fn defines(&self) -> Option<&str> {
        match self {
            Stmt::Label(l) => Some(l),
            Stmt::Data { label: Some(l), .. } => Some(l),
            _ => None,
        }
    }
    pub fn refers(&self) -> Option<&str> {
        match self {
            Stmt::Mov {
                src: Src::Label(l), ..
            } => Some(l),
            _ => None,
        }
    }
    pub fn emits(&self) -> bool {
        !matches!(self, Stmt::Section(_) | Stmt::Global(_) | Stmt::Label(_))
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Prog {
    pub stmts: Vec<Stmt>,
}

// ------------------------------------------------------------------ rendering

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct LineStyle {
    /// whole lines put in front (blank or comment only)
    pub before: Vec<String>,
    pub indent: String,
    /// whitespace for successive gaps of the line, cycled
    pub gaps: Vec<String>,
    pub trail: String,
    pub comment: Option<String>,
    pub crlf: bool,
    /// notation of successive numbers, cycled: see `number`
    pub nums: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Style {
    /// cycled over the statements; empty = canonical presentation
    pub lines: Vec<LineStyle>,
    pub after: Vec<String>,
    pub final_newline: bool,
}

impl Style {
    pub fn canonical() -> Style {
        Style {
            lines: vec![],
            after: vec![],
            final_newline: true,
        }
    }
}

pub fn number(v: u64, style: u8) -> String {
    // up to 26 leading zeros, and two rare long runs
    let zeros = |n: u8| "0".repeat(match n { 27 => 120, 28 => 700, n => n as usize });
    let mixed = |s: String| -> String {
        s.chars()
            .enumerate()
            .map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c })
            .collect()
    };
    match style % 9 {
        0 => format!("{}", v),
        1 => format!("0x{:x}", v),
        2 => format!("0x{:X}", v),
        3 => format!("0x{}", mixed(format!("{:x}", v))),
        4 => format!("{}{}", zeros(1 + style / 9), v),
        5 => format!("0x{}{:x}", zeros(1 + style / 9), v),
        6 => format!("0x{:016X}", v),
        7 => format!("{:020}", v),
        _ => format!("0x{:02x}", v),
    }
}

struct Gaps<'a> {
    style: Option<&'a LineStyle>,
    g: usize,
    n: usize,
}

impl<'a> Gaps<'a> {
    fn next(&mut self) -> Option<&'a str> {
        let s = self.style?;
        if s.gaps.is_empty() {
            return None;
        }
        self.g += 1;
        Some(&s.gaps[(self.g - 1) % s.gaps.len()])
    }
    /// a gap that must not be empty
    fn must(&mut self) -> &'a str {
        match self.next() {
            Some(g) if !g.is_empty() => g,
            _ => " ",
        }
    }
    fn comma(&mut self) -> String {
        match (self.next(), self.next()) {
            (Some(a), Some(b)) => format!("{},{}", a, b),
            _ => ", ".to_string(),
        }
    }
    fn num(&mut self, v: u64) -> String {
        match self.style {
            Some(s) if !s.nums.is_empty() => {
                self.n += 1;
                number(v, s.nums[(self.n - 1) % s.nums.len()])
            }
            _ => format!("{}", v),
        }
    }
}

pub fn render_stmt(s: &Stmt, style: Option<&LineStyle>) -> String {
    let mut g = Gaps { style, g: 0, n: 0 };
    match s {
        Stmt::Section(s) => format!("section{}{}", g.must(), s.source()),
        Stmt::Global(n) => format!("global{}{}", g.must(), n),
        Stmt::Label(l) => format!("{}:", l),
        Stmt::Data { label, unit, items } => {
            let mut o = String::new();
            if let Some(l) = label {
                o += l;
                o += g.must();
            }
            o += unit.name();
            o += g.must();
            for (i, it) in items.iter().enumerate() {
                if i > 0 {
                    o += &g.comma();
                }
                match it {
                    Item::N(n) => o += &g.num(*n),
                    Item::S(s) => {
                        o.push('"');
                        o += s;
                        o.push('"');
                    }
                }
            }
            o
        }
        Stmt::Mov { w, dst, src } => {
            let mut o = format!("mov{}{}", g.must(), reg_name(*w, *dst));
            o += &g.comma();
            match src {
                Src::Reg(r) => o += reg_name(*w, *r),
                Src::Label(l) => o += l,
                Src::Expr(Expr::One(a)) => o += &g.num(*a),
                Src::Expr(Expr::Add(a, b)) => {
                    o += &g.num(*a);
                    o += g.must();
                    o.push('+');
                    o += g.must();
                    o += &g.num(*b);
                }
                Src::Expr(Expr::Sub(a, b)) => {
                    o += &g.num(*a);
                    o += g.must();
                    o.push('-');
                    o += g.must();
                    o += &g.num(*b);
                }
            }
            o
        }
        Stmt::PushReg(r) => format!("push{}{}", g.must(), R64[*r as usize]),
        Stmt::PushImm(v) => {
            let gap = g.must();
            format!("push{}{}", gap, g.num(*v as u64))
        }
        Stmt::Ret => "ret".into(),
        Stmt::Syscall => "syscall".into(),
    }
}

impl Prog {
    pub fn canonical(&self) -> String {
        self.render(&Style::canonical()).0
    }

    /// The source text and the 1-based line number of every statement.
    pub fn render(&self, style: &Style) -> (String, Vec<usize>) {
        let texts: Vec<String> = self
            .stmts
            .iter()
            .enumerate()
            .map(|(i, s)| render_stmt(s, style_of(style, i)))
            .collect();
        render_lines(&texts, style)
    }
}

pub fn style_of(style: &Style, i: usize) -> Option<&LineStyle> {
    if style.lines.is_empty() {
        None
    } else {
        Some(&style.lines[i % style.lines.len()])
    }
}

pub fn render_lines(texts: &[String], style: &Style) -> (String, Vec<usize>) {
    let mut out = String::new();
    let mut at = Vec::new();
    let mut line = 1;
    for (i, text) in texts.iter().enumerate() {
        let Some(st) = style_of(style, i) else {
            out += text;
            out.push('\n');
            at.push(line);
            line += 1;
            continue;
        };
        let eol = if st.crlf { "\r\n" } else { "\n" };
        for b in &st.before {
            out += b;
            out += eol;
            line += 1;
        }
        at.push(line);
        out += &st.indent;
        out += text;
        out += &st.trail;
        if let Some(c) = &st.comment {
            out.push(';');
            out += c;
        }
        out += eol;
        line += 1;
    }
    for b in &style.after {
        out += b;
        out.push('\n');
    }
    if !style.final_newline {
        if out.ends_with("\r\n") {
            out.truncate(out.len() - 2);
        } else if out.ends_with('\n') {
            out.truncate(out.len() - 1);
        }
    }
    (out, at)
}

// ----------------------------------------------------------------- generators

pub const RESERVED: &[&str] = &[
    "section", "global", "mov", "push", "ret", "syscall", "db", "dw", "dd", "dq",
];

/// Names that a common checksum cannot tell apart (FNV, polynomials in 31, 33, 37,
/// 131, 257, 65599, CRC-32, Adler, ELF, Jenkins, Murmur, rotations): they are different
/// names all the same.
pub const ALIKE: &[(&str, &str)] = &[
    ("C3ABH7", "CEIUx"), ("Bws2w", "G0oT9"), ("ECzeXI", "QNnuvN"), ("Vio_nW", "Vr1rV7"),
    ("aa", "bB"), ("ab", "bC"), ("ab", "bA"), ("ac", "bB"),
    ("bC", "cb"), ("bB", "cc"), ("FGuBz_", "JtWl9I"), ("AU1Pq", "LcTVQV"),
    ("Pc", "B3ras"), ("XJ", "B3riZ"), ("a90", "DeABB"), ("NSyB4", "NrFmu"),
    ("af", "bA"), ("ag", "bB"), ("Ahewg", "Bdksh"), ("An6Z0r", "BeP8Em"),
    ("ELFnj", "IzObhn"), ("FZla1", "UF98ve"), ("aca", "bab"), ("acb", "bac"),
    ("Clj1k", "D_9Imm"), ("BLeEoP", "G7VQaN"), ("aq", "ba"), ("ar", "bb"),
    ("a0", "bP"), ("a1", "bQ"), ("AtZMxp", "HBHw4"), ("K0rsDV", "SfKLdE"),
    ("DVIP3C", "EQrkhP"), ("FtzWG", "GIdGO2"),
];

pub fn alike() -> BoxedStrategy<String> {
    (select(ALIKE.to_vec()), any::<bool>()).prop_map(|(p, b)| if b { p.0 } else { p.1 }.to_string()).boxed()
}

pub fn is_reserved(s: &str) -> bool {
    RESERVED.contains(&s) || R64.contains(&s) || R32.contains(&s) || R16.contains(&s)
}

/// Label names: short ones (so that prefixes and repeats are common), names close
/// to reserved words and registers, punctuation, digits, long ones.
pub fn name() -> BoxedStrategy<String> {
    prop_oneof![
        6 => "[a-c_]{1,3}",
        2 => dict::name(),
        1 => alike(),
        4 => "[A-Za-z_][A-Za-z0-9_]{0,9}",
        2 => select(vec![
            "_main", "main", "start", "msg", "L1", "L2", "L10", "loop", "x", "buf", "end",
        ]).prop_map(String::from),
        3 => select(vec![
            "rax1", "xrax", "raxx", "eaxs", "r16", "r8x", "r8dd", "movx", "mov_", "xmov", "pushq",
            "push_", "retn", "ret1", "_ret", "syscalls", "xdb", "mdb", "dbx", "db1", "dwa", "dd_",
            "dq2", "section1", "sections", "globals", "xglobal", "a_db", "_db", "ds", "rip", "al",
            "text", "data", "bss", "e", "f", "abc", "deadbeef", "x0", "x10", "b1010",
        ]).prop_map(String::from),
        1 => select(vec![
            "RAX", "Rax", "MOV", "Mov", "DB", "RET", "Section", "GLOBAL", "EAX", "PUSH", "Syscall",
        ]).prop_map(String::from),
        2 => "[.$?@_][A-Za-z0-9_.$?@~#]{1,8}",
        1 => select(vec![".text", ".data", ".bss", ".L1", "$main", "?x", "@f", "a.b", "a.b.c"]).prop_map(String::from),
        1 => "[A-Za-z_][A-Za-z0-9_]{40,80}",
        // differing only in case
        2 => "[aA][bB]{0,2}",
        // long common prefixes or suffixes
        1 => (select(vec![7usize, 8, 15, 16, 30, 31, 32, 63, 64, 127, 128, 254, 255, 256, 400]), "[a-c]{1,2}", any::<bool>())
            .prop_map(|(n, s, front)| if front { format!("{}{}", s, "p".repeat(n)) } else { format!("{}{}", "p".repeat(n), s) }),
    ]
    .boxed()
}

/// Names that no assembler reserves.
pub fn plain_name() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "L_[a-c]{1,3}",
        2 => "L_[A-Za-z0-9_]{1,12}",
        1 => dict::name().prop_map(|n| format!("L_{}", n.replace(|c: char| !c.is_ascii_alphanumeric(), "_"))),
        1 => "L_[A-Za-z0-9_]{30,60}",
        1 => Just("_main".to_string()),
    ]
    .boxed()
}

/// Contents of a string literal: anything but a double quote or a line break.
pub fn literal(max: usize) -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[ -~]{0,12}".prop_map(|s| s.replace('"', "'")),
        2 => pvec(select(vec![
            ";", ",", ":", " ", "\t", "db", " db ", "mov", "section .bss", "global x", "'", "\\", "\\n",
            "a", "0x10", "1", "foo:", "ret", "%", "日", "é", "\u{1F600}", "\u{3000}", "\u{a0}", "\0", "+", "-", "[", "]", "$", "`", "#", "//", "/*",
        ]), 0..8).prop_map(|v| v.concat()),
        1 => pvec(any::<char>(), 0..8).prop_map(|v| v.into_iter().filter(|c| !matches!(c, '"' | '\n' | '\r')).collect()),
        1 => ("[a-z]", 0..max.max(2)).prop_map(|(s, n)| s.repeat(n)),
        1 => ("[a-z]", dict::len(max.max(2) - 1)).prop_map(|(s, n)| s.repeat(n)),
        1 => (dict::word(), "[ a-z]{0,3}").prop_map(|(w, s)| (w + &s).replace(['"', '\n', '\r'], "")),
        1 => Just(String::new()),
        1 => Just(";".to_string()),
    ]
    .boxed()
}

/// Printable ASCII only.
pub fn plain_literal() -> BoxedStrategy<String> {
    "[ -~]{0,20}".prop_map(|s| s.replace('"', "'").replace('\\', "/")).boxed()
}

pub fn unit_value(u: Unit) -> BoxedStrategy<u64> {
    let bits = 8 * u.bytes() as u32;
    prop_oneof![
        2 => any::<u64>().prop_map(move |v| v >> (64 - bits)),
        2 => (0..bits, -1i64..=1).prop_map(move |(k, d)| (1u64 << k).wrapping_add(d as u64) & u.max()),
        1 => 0u64..=11,
        1 => dict::int().prop_map(move |v| v & u.max()),
        1 => Just(u.max()),
        1 => Just(0),
    ]
    .boxed()
}

pub fn unit() -> BoxedStrategy<Unit> {
    select(Unit::ALL.to_vec()).boxed()
}

pub fn data_items(max_items: usize, max_str: usize, plain: bool) -> BoxedStrategy<(Unit, Vec<Item>)> {
    unit()
        .prop_flat_map(move |u| {
            let lit = if plain { plain_literal() } else { literal(max_str) };
            let item = prop_oneof![
                3 => unit_value(u).prop_map(Item::N),
                2 => lit.prop_map(Item::S),
            ]
            .boxed();
            let n = prop_oneof![
                6 => 1usize..5,
                2 => 5..max_items.max(6),
                1 => dict::len(max_items).prop_map(|n| n.max(1)),
            ];
            // one item many times: runs of zeroes, for example
            let run = (prop_oneof![Just(Item::N(0)), item.clone()], 5..max_items.max(6)).prop_map(|(i, n)| vec![i; n]);
            prop_oneof![
                20 => n.prop_flat_map(move |n| pvec(item.clone(), n)),
                1 => run,
            ]
            .prop_map(move |items| (u, items))
        })
        .boxed()
}

/// An expression whose value is at most `mask`.
pub fn expr(w: u8) -> BoxedStrategy<Expr> {
    let mask = u64::MAX >> (64 - w as u32);
    let val = prop_oneof![
        3 => crate::gen::edge_u64().prop_map(move |v| v & mask),
        1 => (0u64..4).prop_map(move |d| mask - d),
        1 => 0u64..260,
    ];
    (val, crate::gen::edge_u64(), 0u8..6)
        .prop_map(move |(v, o, k)| match k {
            // operands of any size; the sum or difference wraps to v
            0 => Expr::Add(v.wrapping_sub(o), o),
            1 => Expr::Sub(v.wrapping_add(o), o),
            2 => {
                let b = o & mask;
                if b <= v {
                    Expr::Add(v - b, b)
                } else {
                    Expr::Sub(v.wrapping_add(b), b)
                }
            }
            _ => Expr::One(v),
        })
        .boxed()
}

#[derive(Clone, Copy, Debug)]
pub struct Profile {
    pub max_stmts: usize,
    pub max_items: usize,
    pub max_str: usize,
    /// weights
    pub section: u32,
    pub global: u32,
    pub label: u32,
    pub data: u32,
    pub data_label: u32,
    pub mov: u32,
    pub mov_label: u32,
    pub other: u32,
    /// only what NASM reads the same way
    pub nasm: bool,
    /// data directives only outside .text / instructions only in .text
    pub tidy: bool,
}

pub const GENERAL: Profile = Profile {
    max_stmts: 40,
    max_items: 8,
    max_str: 60,
    section: 10,
    global: 6,
    label: 12,
    data: 10,
    data_label: 8,
    mov: 18,
    mov_label: 14,
    other: 10,
    nasm: false,
    tidy: false,
};

#[derive(Clone, Debug)]
enum Raw {
    Section(Sec),
    Global(Index, bool),
    Label(String),
    Data(Option<String>, Unit, Vec<Item>),
    MovE(u8, u8, Expr),
    MovR(u8, u8, u8),
    MovL(u8, u8, Index),
    PushReg(u8),
    PushImm(u32),
    Ret,
    Syscall,
    /// an earlier statement once more: any, or one of the last three
    Again(Index, bool),
}

fn raw(p: Profile) -> BoxedStrategy<Raw> {
    let names = move || if p.nasm { plain_name() } else { name() };
    let w = || select(vec![16u8, 32, 64]);
    let lw = move || {
        if p.nasm {
            select(vec![64u8])
        } else {
            select(vec![64u8, 64, 32])
        }
    };
    let reg = || 0u8..16;
    prop_oneof![
        p.other => prop_oneof![
            Just(Raw::Ret),
            Just(Raw::Syscall),
            reg().prop_map(Raw::PushReg),
            prop_oneof![crate::gen::edge_u32(), 100u32..300].prop_map(Raw::PushImm),
        ],
        p.mov => prop_oneof![
            (w(), reg(), reg()).prop_map(|(w, d, s)| Raw::MovR(w, d, s)),
            (w(), reg()).prop_flat_map(|(w, d)| expr(w).prop_map(move |e| Raw::MovE(w, d, e))),
        ],
        p.mov_label => (lw(), reg(), any::<Index>()).prop_map(|(w, d, i)| Raw::MovL(w, d, i)),
        p.label => names().prop_map(Raw::Label),
        p.data => data_items(p.max_items, p.max_str, p.nasm).prop_map(|(u, i)| Raw::Data(None, u, i)),
        p.data_label => (names(), data_items(p.max_items, p.max_str, p.nasm)).prop_map(|(n, (u, i))| Raw::Data(Some(n), u, i)),
        p.section => select(vec![Sec::Text, Sec::Text, Sec::Data, Sec::Data, Sec::Bss]).prop_map(Raw::Section),
        p.other / 3 => (any::<Index>(), any::<bool>()).prop_map(|(i, near)| Raw::Again(i, near)),
        p.global => (any::<Index>(), prop_oneof![9 => Just(true), 1 => Just(p.nasm)]).prop_map(|(i, e)| Raw::Global(i, e)),
    ]
    .boxed()
}

fn unique(used: &mut HashSet<String>, base: &str) -> String {
    let mut n = base.to_string();
    let mut k = 1;
    while is_reserved(&n) || used.contains(&n) {
        n = format!("{}_{}", base, k);
        k += 1;
    }
    used.insert(n.clone());
    n
}

/// Turn raw statements into a valid program: unique labels, every reference
/// defined, nothing written into bss.
fn build(raw: Vec<Raw>, p: Profile) -> Prog {
    let mut used = HashSet::new();
    let mut cur = Sec::Text;
    let mut kept: Vec<Raw> = Vec::new();
    for mut r in raw {
        match &mut r {
            Raw::Section(s) => cur = *s,
            Raw::Label(n) => *n = unique(&mut used, n),
            Raw::Data(l, ..) => {
                if cur == Sec::Bss || (p.tidy && cur == Sec::Text) {
                    continue;
                }
                if let Some(l) = l {
                    *l = unique(&mut used, l);
                }
            }
            Raw::Global(..) | Raw::Again(..) => {}
            _ => {
                if cur == Sec::Bss || (p.tidy && cur != Sec::Text) {
                    continue;
                }
            }
        }
        kept.push(r);
    }
    let labels: Vec<String> = kept
        .iter()
        .filter_map(|r| match r {
            Raw::Label(n) => Some(n.clone()),
            Raw::Data(Some(n), ..) => Some(n.clone()),
            _ => None,
        })
        .collect();
    let mut stmts: Vec<Stmt> = Vec::new();
    let mut cur = Sec::Text;
    let mut emitted: Vec<usize> = Vec::new();
    for r in kept {
        if let Some(s) = stmts.last() {
            if let Stmt::Section(s) = s {
                cur = *s;
            }
            if s.emits() {
                emitted.push(stmts.len() - 1);
            }
        }
        stmts.push(match r {
            Raw::Section(s) => Stmt::Section(s),
            Raw::Again(i, near) => {
                emitted.dedup();
                if cur == Sec::Bss || emitted.is_empty() {
                    continue;
                }
                let from = if near { &emitted[emitted.len().saturating_sub(3)..] } else { &emitted[..] };
                let mut s = stmts[*i.get(from)].clone();
                let data = matches!(s, Stmt::Data { .. });
                if p.tidy && data == (cur == Sec::Text) {
                    continue;
                }
                if let Stmt::Data { label, .. } = &mut s {
                    *label = None;
                }
                s
            }
            Raw::Label(n) => Stmt::Label(n),
            Raw::Data(label, unit, items) => Stmt::Data { label, unit, items },
            Raw::MovE(w, dst, e) => Stmt::Mov {
                w,
                dst,
                src: Src::Expr(e),
            },
            Raw::MovR(w, dst, s) => Stmt::Mov {
                w,
                dst,
                src: Src::Reg(s),
            },
            Raw::MovL(w, dst, i) => {
                if labels.is_empty() {
                    continue;
                }
                Stmt::Mov {
                    w,
                    dst,
                    src: Src::Label(i.get(&labels).clone()),
                }
            }
            Raw::Global(i, existing) => {
                if labels.is_empty() {
                    continue;
                }
                let n = i.get(&labels).clone();
                if existing {
                    Stmt::Global(n)
                } else {
                    // a name close to a defined one, but defined nowhere
                    let other = format!("{}_", n);
                    if labels.contains(&other) {
                        continue;
                    }
                    Stmt::Global(other)
                }
            }
            Raw::PushReg(r) => Stmt::PushReg(r),
            Raw::PushImm(v) => Stmt::PushImm(v),
            Raw::Ret => Stmt::Ret,
            Raw::Syscall => Stmt::Syscall,
        });
    }
    Prog { stmts }
}

pub fn program(p: Profile) -> BoxedStrategy<Prog> {
    let len = prop_oneof![
        3 => 0usize..8,
        3 => 0..p.max_stmts.max(9),
        1 => dict::len(p.max_stmts),
    ];
    len.prop_flat_map(move |n| pvec(raw(p), n))
        .prop_map(move |r| build(r, p))
        .boxed()
}

/// Any statement sequence in which no fixed pattern survives: used for big programs.
pub fn big_program(p: Profile, lo: usize, hi: usize) -> BoxedStrategy<Prog> {
    (lo..hi)
        .prop_flat_map(move |n| pvec(raw(p), n))
        .prop_map(move |r| build(r, p))
        .boxed()
}

pub fn ws() -> BoxedStrategy<String> {
    prop_oneof![
        4 => Just(String::new()),
        4 => Just(" ".to_string()),
        2 => Just("\t".to_string()),
        2 => "[ \t]{2,5}",
        1 => select(vec![70usize, 70, 70, 127, 128, 255, 256, 257, 1030]).prop_map(|n| " ".repeat(n)),
        1 => prop_oneof![9 => Just(1usize), 1 => dict::len(300)].prop_map(|n| " ".repeat(n)),
    ]
    .boxed()
}

pub fn comment_text() -> BoxedStrategy<String> {
    prop_oneof![
        2 => Just(String::new()),
        2 => "[ -~]{0,20}",
        3 => select(vec![
            " plain", "\"", "\"\"", " say \"hi\"", " \"a;b\" c", "; again", ";;", " it's", " mov rax, 1", " section .bss", " foo:",
            " global x", "\t tab", " 日本語のコメント", " é\u{1F600}", "\\", " back\\", " a, b, c", "0x", " db \"", "%include", "\0", " ", "/* */", "'",
        ]).prop_map(String::from),
        1 => pvec(any::<char>(), 0..12).prop_map(|v| v.into_iter().filter(|c| !matches!(c, '\n' | '\r')).collect()),
        1 => dict::word().prop_map(|w| w.replace(['\n', '\r'], "")),
        1 => Just("x".repeat(9000)),
    ]
    .boxed()
}

fn filler_line() -> BoxedStrategy<String> {
    prop_oneof![
        2 => ws(),
        2 => (ws(), comment_text()).prop_map(|(w, c)| format!("{};{}", w, c)),
    ]
    .boxed()
}

pub fn line_style() -> BoxedStrategy<LineStyle> {
    (
        prop_oneof![
            60 => Just(vec![]),
            20 => pvec(filler_line(), 1..4),
            1 => (ws(), 60usize..300).prop_map(|(w, n)| vec![w; n]),
        ],
        ws(),
        pvec(ws(), 0..5),
        ws(),
        prop_oneof![2 => Just(None), 1 => comment_text().prop_map(Some)],
        any::<bool>(),
        pvec(any::<u8>(), 0..3),
    )
        .prop_map(|(before, indent, gaps, trail, comment, crlf, nums)| LineStyle {
            before,
            indent,
            gaps,
            trail,
            comment,
            crlf,
            nums,
        })
        .boxed()
}

pub fn style() -> BoxedStrategy<Style> {
    (
        pvec(line_style(), 0..9),
        pvec(filler_line(), 0..3),
        any::<bool>(),
    )
        .prop_map(|(lines, after, final_newline)| Style {
            lines,
            after,
            final_newline,
        })
        .boxed()
}

// ------------------------------------------------------------ reference model

#[derive(Clone, Debug, PartialEq)]
pub enum Piece {
    Bytes(Vec<u8>),
    Ins(Want),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Want {
    /// exactly this effect
    Effect(Op),
    /// push of a number of 2^31 or more: 8 bytes, these low 32 bits
    PushLow32(u32),
    /// mov of a label's address
    Label { w: u8, dst: u8, label: String },
}

pub struct Expected {
    /// statement number and what it emits, per section
    pub pieces: [Vec<(usize, Piece)>; 3],
    /// name, section, number of pieces of that section in front of it
    pub labels: Vec<(String, Sec, usize)>,
    pub exported: HashSet<String>,
}

pub fn data_bytes(unit: Unit, items: &[Item]) -> Vec<u8> {
    let mut v = Vec::new();
    for it in items {
        match it {
            Item::N(n) => {
                for k in 0..unit.bytes() {
                    v.push((n >> (8 * k)) as u8);
                }
            }
            Item::S(s) => {
                let mut n = 0;
                for b in s.bytes() {
                    v.push(b);
                    n += 1;
                }
                while n % unit.bytes() != 0 {
                    v.push(0);
                    n += 1;
                }
            }
        }
    }
    v
}

pub fn expected(p: &Prog) -> Expected {
    let mut e = Expected {
        pieces: [vec![], vec![], vec![]],
        labels: vec![],
        exported: HashSet::new(),
    };
    let mut cur = Sec::Text;
    for (i, s) in p.stmts.iter().enumerate() {
        if let Some(l) = s.defines() {
            e.labels.push((l.to_string(), cur, e.pieces[cur.idx()].len()));
        }
        let piece = match s {
            Stmt::Section(s) => {
                cur = *s;
                continue;
            }
            Stmt::Global(n) => {
                e.exported.insert(n.clone());
                continue;
            }
            Stmt::Label(_) => continue,
            Stmt::Data { unit, items, .. } => Piece::Bytes(data_bytes(*unit, items)),
            Stmt::Mov { w, dst, src } => Piece::Ins(match src {
                Src::Reg(r) => Want::Effect(Op::MovRR {
                    w: *w,
                    dst: *dst,
                    src: *r,
                }),
                Src::Expr(x) => Want::Effect(x86::effect(&Op::MovImm {
                    w: *w,
                    dst: *dst,
                    val: x.value(),
                })),
                Src::Label(l) => Want::Label {
                    w: *w,
                    dst: *dst,
                    label: l.clone(),
                },
            }),
            Stmt::PushReg(r) => Piece::Ins(Want::Effect(Op::PushReg { bytes: 8, reg: *r })),
            Stmt::PushImm(v) if *v < 1 << 31 => Piece::Ins(Want::Effect(Op::PushImm {
                bytes: 8,
                val: *v as u64,
            })),
            Stmt::PushImm(v) => Piece::Ins(Want::PushLow32(*v)),
            Stmt::Ret => Piece::Ins(Want::Effect(Op::Ret)),
            Stmt::Syscall => Piece::Ins(Want::Effect(Op::Syscall)),
        };
        e.pieces[cur.idx()].push((i, piece));
    }
    e
}

pub struct Site {
    pub sec: Sec,
    pub off: usize,
    pub len: usize,
    pub label: String,
    pub stmt: usize,
}

/// Where everything of the program is in the assembled sections.
pub struct Located {
    pub bytes: [Vec<u8>; 3],
    pub sect_no: [Option<usize>; 3],
    pub sect_addr: [u64; 3],
    pub labels: HashMap<String, (Sec, u64)>,
    pub sites: Vec<Site>,
}

fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(24).map(|b| format!("{:02x}", b)).collect();
    if b.len() > 24 {
        s += "..";
    }
    s
}

/// Walk the sections of the object along the program; fails where the contents
/// are not what the source says.
pub fn walk(p: &Prog, e: &Expected, f: &mo::File) -> Result<Located, String> {
    let mut l = Located {
        bytes: [vec![], vec![], vec![]],
        sect_no: [None; 3],
        sect_addr: [0; 3],
        labels: HashMap::new(),
        sites: vec![],
    };
    let mut seen = 0;
    for s in Sec::ALL {
        let (seg, sect) = s.macho();
        if let Some((no, h)) = f.find(seg, sect) {
            seen += 1;
            l.sect_no[s.idx()] = Some(no + 1);
            l.sect_addr[s.idx()] = h.addr;
            if h.zerofill() {
                crate::ensure!(
                    h.size == 0,
                    "{} has {} bytes, the source reserves none",
                    s.source(),
                    h.size
                );
            } else {
                l.bytes[s.idx()] = f.content(h)?.to_vec();
            }
        }
    }
    crate::ensure!(
        seen == f.sects().len(),
        "the object has sections the source does not: {:?}",
        f.sects().iter().map(|s| (&s.segname, &s.sectname)).collect::<Vec<_>>()
    );
    for s in Sec::ALL {
        let b = &l.bytes[s.idx()];
        let pieces = &e.pieces[s.idx()];
        let mut at = 0usize;
        let mut starts = Vec::with_capacity(pieces.len() + 1);
        for (stmt, piece) in pieces {
            starts.push(at);
            let rest = &b[at..];
            let what = || format!("`{}`", clip(&render_stmt(&p.stmts[*stmt], None)));
            match piece {
                Piece::Bytes(want) => {
                    crate::ensure!(
                        rest.len() >= want.len() && &rest[..want.len()] == want.as_slice(),
                        "{} at {}+{:#x}: expected bytes {}, found {}",
                        what(),
                        s.source(),
                        at,
                        hex(want),
                        hex(&rest[..rest.len().min(want.len())])
                    );
                    at += want.len();
                }
                Piece::Ins(want) => {
                    let ins = x86::decode(rest).map_err(|m| {
                        format!("{} at {}+{:#x}: {} ({})", what(), s.source(), at, m, hex(rest))
                    })?;
                    let ok = match (want, &ins.op) {
                        (Want::Effect(w), o) => x86::effect(o) == *w,
                        (Want::PushLow32(v), Op::PushImm { bytes: 8, val }) => *val as u32 == *v,
                        (Want::Label { w, dst, .. }, Op::MovImm { w: w2, dst: d2, .. }) => {
                            w == w2 && dst == d2 && ins.imm.map(|i| i.1) == Some(*w as usize / 8)
                        }
                        _ => false,
                    };
                    crate::ensure!(
                        ok,
                        "{} at {}+{:#x}: assembled to {} = {:?}",
                        what(),
                        s.source(),
                        at,
                        hex(&rest[..ins.len]),
                        ins.op
                    );
                    if let Want::Label { label, .. } = want {
                        let (o, n) = ins.imm.unwrap();
                        l.sites.push(Site {
                            sec: s,
                            off: at + o,
                            len: n,
                            label: label.clone(),
                            stmt: *stmt,
                        });
                    }
                    at += ins.len;
                }
            }
        }
        starts.push(at);
        crate::ensure!(
            at == b.len(),
            "{} has {} bytes after the last statement: {}",
            s.source(),
            b.len() - at,
            hex(&b[at..])
        );
        for (name, sec, k) in &e.labels {
            if *sec == s {
                l.labels.insert(name.clone(), (s, starts[*k] as u64));
            }
        }
    }
    Ok(l)
}

pub fn clip(s: &str) -> String {
    let mut o: String = s.chars().take(60).collect();
    if s.chars().count() > 60 {
        o += "...";
    }
    o
}

/// Exactly the source's labels, each where it was written, external iff exported.
pub fn check_symbols(e: &Expected, l: &Located, f: &mo::File) -> Result<(), String> {
    let mut want: HashMap<&str, (Sec, u64, bool)> = HashMap::new();
    for (n, ..) in &e.labels {
        let (s, o) = l.labels[n];
        want.insert(n, (s, o, e.exported.contains(n)));
    }
    for sym in &f.syms {
        let n = sym.text();
        let Some((s, o, ext)) = want.remove(n.as_str()) else {
            return Err(format!("symbol `{}` is not in the source, or is there twice", clip(&n)));
        };
        crate::ensure!(
            !sym.stab() && sym.kind() == 0xe,
            "symbol `{}` is not defined in a section (type {:#x})",
            n,
            sym.typ
        );
        crate::ensure!(
            l.sect_no[s.idx()] == Some(sym.sect as usize),
            "label `{}` of {} is recorded in section {} of the object, {} is section {:?}",
            n,
            s.source(),
            sym.sect,
            s.source(),
            l.sect_no[s.idx()]
        );
        let at = l.sect_addr[s.idx()].wrapping_add(o);
        crate::ensure!(
            sym.value == at,
            "label `{}` is at {:#x} ({}+{:#x}), recorded as {:#x}",
            n,
            at,
            s.source(),
            o,
            sym.value
        );
        crate::ensure!(
            sym.ext() == ext && !sym.pext(),
            "label `{}` is {}declared global but recorded as {} (type {:#x})",
            n,
            if ext { "" } else { "not " },
            if sym.ext() { "external" } else { "local" },
            sym.typ
        );
    }
    if let Some(n) = want.keys().next() {
        return Err(format!("label `{}` is missing from the symbol table", clip(n)));
    }
    Ok(())
}

/// The sections' contents placed at `bases`, with the relocations applied as Mach-O
/// defines them.
pub fn link(
    f: &mo::File,
    bytes: &[Vec<u8>; 3],
    sect_no: [Option<usize>; 3],
    sect_addr: [u64; 3],
    bases: [u64; 3],
) -> Result<[Vec<u8>; 3], String> {
    let by_no: HashMap<usize, Sec> = Sec::ALL
        .iter()
        .filter_map(|s| sect_no[s.idx()].map(|n| (n, *s)))
        .collect();
    let place = |no: usize, old: u64| -> Result<u64, String> {
        let s = by_no.get(&no).ok_or("relocation against an unknown section")?;
        Ok(bases[s.idx()].wrapping_add(old.wrapping_sub(sect_addr[s.idx()])))
    };
    let mut got = bytes.clone();
    for (k, rels) in f.relocs.iter().enumerate() {
        let sec = by_no[&(k + 1)];
        for r in rels {
            crate::ensure!(r.typ == 0, "relocation type {} is not an absolute address", r.typ);
            crate::ensure!(!r.pcrel, "relocation is relative to the program counter");
            let n = 1usize << r.len;
            let b = &mut got[sec.idx()];
            let at = r.addr as usize;
            crate::ensure!(
                at.checked_add(n).map_or(false, |end| end <= b.len()),
                "relocation at {}+{:#x} is outside the section",
                sec.source(),
                at
            );
            let mut old = [0u8; 8];
            old[..n].copy_from_slice(&b[at..at + n]);
            let addend = u64::from_le_bytes(old);
            let v = if r.ext {
                let sym = f.syms.get(r.num as usize).ok_or("relocation symbol index out of range")?;
                crate::ensure!(sym.kind() == 0xe, "relocation against an undefined symbol");
                place(sym.sect as usize, sym.value)?.wrapping_add(addend)
            } else {
                let old_addr = addend;
                place(r.num as usize, old_addr)?
            };
            b[at..at + n].copy_from_slice(&v.to_le_bytes()[..n]);
        }
    }
    Ok(got)
}

/// Place the sections at `bases`, apply the relocations as Mach-O defines them,
/// and compare with the same sections holding the labels' final addresses.
pub fn check_link(e: &Expected, l: &Located, f: &mo::File, bases: [u64; 3]) -> Result<(), String> {
    // what must come out
    let mut want = l.bytes.clone();
    for s in &l.sites {
        let (sec, o) = l.labels[&s.label];
        let addr = bases[sec.idx()].wrapping_add(o);
        let le = addr.to_le_bytes();
        want[s.sec.idx()][s.off..s.off + s.len].copy_from_slice(&le[..s.len]);
    }
    let got = link(f, &l.bytes, l.sect_no, l.sect_addr, bases)?;
    for s in Sec::ALL {
        if got[s.idx()] == want[s.idx()] {
            continue;
        }
        let site = l.sites.iter().find(|x| {
            x.sec == s && got[s.idx()][x.off..x.off + x.len] != want[s.idx()][x.off..x.off + x.len]
        });
        return Err(match site {
            Some(x) => format!(
                "linked with sections at {:x?}: the operand of statement {} (label `{}`) is {} instead of {}",
                bases,
                x.stmt,
                clip(&x.label),
                hex(&got[s.idx()][x.off..x.off + x.len]),
                hex(&want[s.idx()][x.off..x.off + x.len])
            ),
            None => {
                let i = (0..want[s.idx()].len())
                    .find(|i| got[s.idx()][*i] != want[s.idx()][*i])
                    .unwrap();
                format!(
                    "relocation changes {}+{:#x}, which belongs to no label operand",
                    s.source(),
                    i
                )
            }
        });
    }
    let _ = e;
    Ok(())
}

/// Everything at once: structure, contents, symbols, references.
pub fn check_program(p: &Prog, obj: &[u8], bases: &[[u64; 3]]) -> Result<Located, String> {
    let f = mo::File::parse(obj)?;
    f.well_formed()?;
    let e = expected(p);
    let l = walk(p, &e, &f)?;
    check_symbols(&e, &l, &f)?;
    for b in bases {
        check_link(&e, &l, &f, *b)?;
    }
    Ok(l)
}

pub fn has_ref32(p: &Prog) -> bool {
    p.stmts.iter().any(|s| {
        matches!(
            s,
            Stmt::Mov {
                w: 32,
                src: Src::Label(_),
                ..
            }
        )
    })
}

/// Section bases; below 4 GiB when a 32-bit operand has to hold an address.
pub fn bases_for(p: &Prog, raw: [u64; 3]) -> [u64; 3] {
    if has_ref32(p) {
        raw.map(|b| b & 0x7fff_ffff)
    } else {
        raw
    }
}
