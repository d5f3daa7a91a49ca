//! Arbitrary source text: a reference reader of the language that says what a
//! text is (a valid program, refused, or outside what the properties claim), and
//! generators of texts close to and far from valid programs.

use crate::prog::{self, is_reserved, Expr, Item, Prog, Sec, Src, Stmt, Unit, R16, R32, R64};
use proptest::collection::vec as pvec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Valid(Prog),
    /// refused; this 1-based line is the first malformed one
    Malformed(usize),
    /// refused for another reason, or no particular line is to be named
    Refused,
    /// nothing is claimed about this text
    Open,
}

enum Kind {
    Empty,
    Stmt(Stmt),
    Malformed,
    Refused,
    Open,
}

const BLANK: [char; 2] = [' ', '\t'];

/// The text without its comment; None when the line uses characters about which
/// nothing is claimed.
fn body(line: &str) -> Option<&str> {
    let mut quoted = false;
    let mut end = line.len();
    for (i, c) in line.char_indices() {
        if c == '"' {
            quoted = !quoted;
        } else if c == ';' && !quoted {
            end = i;
            break;
        } else if c == '\r' && (quoted || i + 1 != line.len()) {
            return None;
        } else if !quoted && !(c == '\t' || c == '\r' || (' '..='~').contains(&c)) {
            return None;
        }
    }
    Some(line[..end].trim_matches(|c| c == '\r' || BLANK.contains(&c)))
}

fn words(s: &str) -> Vec<&str> {
    s.split(BLANK).filter(|w| !w.is_empty()).collect()
}

fn unit_of(w: &str) -> Option<Unit> {
    Unit::ALL.into_iter().find(|u| u.name() == w)
}

/// A name every reading of the language takes for a label.
fn is_name(w: &str) -> bool {
    !w.is_empty()
        && !w.starts_with(|c: char| c.is_ascii_digit())
        && w.chars().all(|c| c.is_ascii_alphanumeric() || "_.$?@~#".contains(c))
        && !is_reserved(w)
}

enum Num {
    Is(u64),
    Huge,
    Not,
}

fn num(w: &str) -> Num {
    let (digits, radix) = match w.strip_prefix("0x") {
        Some(d) => (d, 16),
        None => (w, 10),
    };
    if digits.is_empty() || !digits.bytes().all(|b| (b as char).is_digit(radix)) {
        return Num::Not;
    }
    let mut v: u128 = 0;
    for b in digits.bytes() {
        v = v * radix as u128 + (b as char).to_digit(radix).unwrap() as u128;
        if v > u64::MAX as u128 {
            return Num::Huge;
        }
    }
    Num::Is(v as u64)
}

fn reg_of(w: &str) -> Option<(u8, u8)> {
    [(64u8, &R64), (32, &R32), (16, &R16)]
        .into_iter()
        .find_map(|(b, t)| t.iter().position(|r| *r == w).map(|i| (b, i as u8)))
}

fn data(label: Option<&str>, unit: Unit, rest: &str) -> Kind {
    let mut s = rest.trim_matches(BLANK);
    let mut items = vec![];
    loop {
        let after;
        if let Some(t) = s.strip_prefix('"') {
            let Some((text, a)) = t.split_once('"') else {
                return Kind::Malformed;
            };
            items.push(Item::S(text.to_string()));
            after = a;
        } else {
            let n = s.find([' ', '\t', ',']).unwrap_or(s.len());
            match num(&s[..n]) {
                Num::Is(v) if v <= unit.max() => items.push(Item::N(v)),
                _ => return Kind::Malformed,
            }
            after = &s[n..];
        }
        let after = after.trim_start_matches(BLANK);
        if after.is_empty() {
            break;
        }
        match after.strip_prefix(',') {
            Some(a) => s = a.trim_start_matches(BLANK),
            None => return Kind::Malformed,
        }
    }
    Kind::Stmt(Stmt::Data {
        label: label.map(String::from),
        unit,
        items,
    })
}

fn mov(rest: &str) -> Kind {
    let Some((dst, src)) = rest.split_once(',') else {
        return Kind::Malformed;
    };
    let Some((w, dst)) = reg_of(dst.trim_matches(BLANK)) else {
        return Kind::Malformed;
    };
    if src.contains(',') {
        return Kind::Malformed;
    }
    let t = words(src);
    // whether signs need blanks around them is left open
    if t.first().map_or(false, |f| f.starts_with(|c: char| c.is_ascii_digit()))
        && t.iter().any(|x| x.len() > 1 && x.contains(['+', '-']))
    {
        return Kind::Open;
    }
    let fit = |e: Expr| {
        if e.value() <= u64::MAX >> (64 - w as u32) {
            Kind::Stmt(Stmt::Mov {
                w,
                dst,
                src: Src::Expr(e),
            })
        } else {
            Kind::Refused
        }
    };
    match t[..] {
        [a] => match (num(a), reg_of(a)) {
            (Num::Is(v), _) => fit(Expr::One(v)),
            (Num::Huge, _) => Kind::Refused,
            (_, Some((w2, r))) if w2 == w => Kind::Stmt(Stmt::Mov {
                w,
                dst,
                src: Src::Reg(r),
            }),
            _ if w == 16 => Kind::Malformed,
            _ if is_name(a) => Kind::Stmt(Stmt::Mov {
                w,
                dst,
                src: Src::Label(a.to_string()),
            }),
            _ => Kind::Refused,
        },
        [a, op, b] if op == "+" || op == "-" => match (num(a), num(b)) {
            (Num::Is(x), Num::Is(y)) => fit(if op == "+" { Expr::Add(x, y) } else { Expr::Sub(x, y) }),
            (Num::Not, _) | (_, Num::Not) => Kind::Malformed,
            _ => Kind::Refused,
        },
        _ => Kind::Malformed,
    }
}

fn line_kind(line: &str) -> Kind {
    let Some(s) = body(line) else {
        return Kind::Open;
    };
    let t = words(s);
    let Some(first) = t.first().copied() else {
        return Kind::Empty;
    };
    let tail = |s: &'_ str, w: &str| -> String { s[s.find(w).unwrap() + w.len()..].to_string() };
    let second = t.get(1).copied().and_then(unit_of);
    match (unit_of(first), second) {
        (Some(_), Some(_)) => return Kind::Open,
        (Some(u), None) => {
            return if t.len() == 1 {
                Kind::Malformed
            } else {
                data(None, u, &tail(s, first))
            }
        }
        (None, Some(u)) => {
            if !is_name(first) {
                return Kind::Open;
            }
            return if t.len() == 2 {
                Kind::Malformed
            } else {
                data(Some(first), u, &tail(&tail(s, first), u.name()))
            };
        }
        (None, None) => {}
    }
    if s.contains('"') {
        // a unit with the string right behind it is left open, and so is a
        // comment mark that may or may not be inside a string, or blanks of
        // other alphabets
        let glued = |w: &str| Unit::ALL.iter().any(|u| w.strip_prefix(u.name()).map_or(false, |r| r.starts_with('"')));
        if glued(first) || t.get(1).map_or(false, |w| glued(w)) || line.contains(';') || !s.chars().all(|c| c == '\t' || (' '..='~').contains(&c)) {
            return Kind::Open;
        }
    }
    match first {
        "section" => match t[..] {
            [_, ".text"] => Kind::Stmt(Stmt::Section(Sec::Text)),
            [_, ".data"] => Kind::Stmt(Stmt::Section(Sec::Data)),
            [_, ".bss"] => Kind::Stmt(Stmt::Section(Sec::Bss)),
            _ => Kind::Malformed,
        },
        "global" => match t[..] {
            [_, n] if is_name(n) => Kind::Stmt(Stmt::Global(n.to_string())),
            [_, _] => Kind::Open,
            _ => Kind::Malformed,
        },
        "mov" => mov(&tail(s, "mov")),
        "push" => match t[..] {
            [_, a] => match (num(a), reg_of(a)) {
                (Num::Is(v), _) if v <= u32::MAX as u64 => Kind::Stmt(Stmt::PushImm(v as u32)),
                (_, Some((64, r))) => Kind::Stmt(Stmt::PushReg(r)),
                _ => Kind::Malformed,
            },
            _ => Kind::Malformed,
        },
        "ret" | "syscall" if t.len() > 1 => Kind::Malformed,
        "ret" => Kind::Stmt(Stmt::Ret),
        "syscall" => Kind::Stmt(Stmt::Syscall),
        _ => match first.strip_suffix(':') {
            Some(_) if t.len() > 1 => Kind::Malformed,
            Some(n) if n.is_empty() || n.ends_with(':') => Kind::Malformed,
            Some(n) if is_name(n) => Kind::Stmt(Stmt::Label(n.to_string())),
            Some(_) => Kind::Open,
            None => Kind::Malformed,
        },
    }
}

pub fn read(text: &str) -> Verdict {
    let mut p = Prog { stmts: vec![] };
    let mut refused = false;
    let mut cur = Sec::Text;
    let mut defined = HashSet::new();
    for (i, line) in text.split('\n').enumerate() {
        match line_kind(line) {
            Kind::Empty => {}
            Kind::Open => return Verdict::Open,
            Kind::Malformed if refused => return Verdict::Refused,
            Kind::Malformed => return Verdict::Malformed(i + 1),
            Kind::Refused => refused = true,
            Kind::Stmt(s) => {
                if let Stmt::Section(n) = s {
                    cur = n;
                }
                if cur == Sec::Bss && s.emits() {
                    match &s {
                        Stmt::Data { unit, items, .. } if prog::data_bytes(*unit, items).is_empty() => return Verdict::Open,
                        _ => refused = true,
                    }
                }
                if let Some(l) = s.defines() {
                    if !defined.insert(l.to_string()) {
                        refused = true;
                    }
                }
                p.stmts.push(s);
            }
        }
    }
    if refused || p.stmts.iter().any(|s| s.refers().map_or(false, |l| !defined.contains(l))) {
        return Verdict::Refused;
    }
    Verdict::Valid(p)
}

// ----------------------------------------------------------------- generators

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Text {
    pub text: String,
    /// what it was made from
    pub original: String,
}

#[derive(Clone, Debug)]
enum Edit {
    Delete(usize),
    Insert(String),
    Replace(String),
    /// replace the word at the place
    Word(String),
    DropWord,
    DoubleWord,
    SwapWords,
    /// blank out or change the case of the character
    Case,
    DropLine,
    DoubleLine,
    SwapLines,
    Cut,
}

const VOCABULARY: &[&str] = &[
    " ", "  ", "\t", ",", ", ", " ,", ":", ";", "; x", "\"", "\"\"", "\n", "\r\n", "\r", "+", " + ", "-", " - ", "0", "1", "9", "00", "255", "256", "65535", "65536",
    "4294967295", "4294967296", "0x", "0xf", "0xFF", "0X1", "x", "a", "A", "f", "g", "_", ".", "$", "[", "]", "(", "'", "\\", "#", "//", "/*", "é", "日", "\0",
    "mov", "push", "ret", "syscall", "section", "global", "db", "dw", "dd", "dq", " db ", " dq ", ".text", ".data", ".bss", "rax", "r8", "r15", "eax", "r8d", "ax", "r9w", "al",
    "section .text", "section .data", "section .bss", "ret\n", "\nret", "global a", "a:", "b:", "a", "b", "18446744073709551615", "18446744073709551616", "\u{a0}", "\u{3000}", "\u{c}", "\u{b}",
];

fn vocabulary() -> BoxedStrategy<String> {
    prop_oneof![
        8 => select(VOCABULARY.to_vec()).prop_map(String::from),
        1 => crate::dict::word(),
    ]
    .boxed()
}

/// Pieces that tend to keep a program valid.
fn gentle() -> BoxedStrategy<String> {
    prop_oneof![
        3 => select(vec![" ", "\t", "  "]).prop_map(String::from),
        2 => "[0-9]",
        2 => "[a-z_]",
        1 => "[A-F]",
        1 => select(vec![";", "; x", ";\"", "\n", "\r\n", "0x", "0", "'", " ; db \"", "ret\n", "section .data\n"]).prop_map(String::from),
    ]
    .boxed()
}

fn edit(soft: bool) -> BoxedStrategy<Edit> {
    if soft {
        return prop_oneof![
            3 => (1usize..3).prop_map(Edit::Delete),
            8 => gentle().prop_map(Edit::Insert),
            4 => gentle().prop_map(Edit::Replace),
            2 => select(R64.iter().chain(&R32).chain(&R16).copied().collect::<Vec<_>>()).prop_map(|s| Edit::Word(s.to_string())),
            2 => select(vec!["1", "0x10", "0", "255", "db", "dw", "dd", "dq", ".text", ".data", "ret", "syscall", "a", "b"]).prop_map(|s| Edit::Word(s.to_string())),
            1 => Just(Edit::DropLine),
            1 => Just(Edit::DoubleLine),
            1 => Just(Edit::SwapLines),
            1 => Just(Edit::Cut),
        ]
        .boxed();
    }
    prop_oneof![
        4 => (1usize..4).prop_map(Edit::Delete),
        8 => vocabulary().prop_map(Edit::Insert),
        4 => vocabulary().prop_map(Edit::Replace),
        4 => vocabulary().prop_map(Edit::Word),
        2 => Just(Edit::DropWord),
        2 => Just(Edit::DoubleWord),
        2 => Just(Edit::SwapWords),
        2 => Just(Edit::Case),
        1 => Just(Edit::DropLine),
        1 => Just(Edit::DoubleLine),
        1 => Just(Edit::SwapLines),
        1 => Just(Edit::Cut),
        1 => any::<char>().prop_map(|c| Edit::Insert(c.to_string())),
    ]
    .boxed()
}

fn apply(text: &mut Vec<char>, at: u32, e: &Edit) {
    let n = text.len();
    let at = at as usize % (n + 1);
    let word = |c: char| !matches!(c, ' ' | '\t' | '\n' | '\r' | ',' | ':');
    // the word at or after the place, on one line
    let find = |text: &[char], from: usize| -> Option<(usize, usize)> {
        let mut a = from;
        while a > 0 && a < text.len() && word(text[a - 1]) && word(text[a]) {
            a -= 1;
        }
        while a < text.len() && !word(text[a]) {
            a += 1;
        }
        let mut b = a;
        while b < text.len() && word(text[b]) {
            b += 1;
        }
        (a < b).then_some((a, b))
    };
    let line = |text: &[char], at: usize| -> (usize, usize) {
        let a = text[..at].iter().rposition(|c| *c == '\n').map_or(0, |p| p + 1);
        let b = text[at..].iter().position(|c| *c == '\n').map_or(text.len(), |p| at + p + 1);
        (a, b)
    };
    match e {
        Edit::Delete(k) => {
            text.drain(at..(at + k).min(n));
        }
        Edit::Insert(s) => {
            text.splice(at..at, s.chars());
        }
        Edit::Replace(s) => {
            text.splice(at..(at + 1).min(n), s.chars());
        }
        Edit::Word(s) => {
            if let Some((a, b)) = find(text, at) {
                text.splice(a..b, s.chars());
            }
        }
        Edit::DropWord => {
            if let Some((a, b)) = find(text, at) {
                text.drain(a..b);
            }
        }
        Edit::DoubleWord => {
            if let Some((a, b)) = find(text, at) {
                let mut w: Vec<char> = text[a..b].to_vec();
                w.insert(0, ' ');
                text.splice(b..b, w);
            }
        }
        Edit::SwapWords => {
            if let Some((a, b)) = find(text, at) {
                if let Some((c, d)) = find(text, b) {
                    let mut w: Vec<char> = text[c..d].to_vec();
                    w.extend(&text[b..c]);
                    w.extend(&text[a..b]);
                    text.splice(a..d, w);
                }
            }
        }
        Edit::Case => {
            if let Some(c) = text.get_mut(at) {
                *c = if c.is_ascii_lowercase() {
                    c.to_ascii_uppercase()
                } else {
                    c.to_ascii_lowercase()
                };
            }
        }
        Edit::DropLine => {
            let (a, b) = line(text, at);
            text.drain(a..b);
        }
        Edit::DoubleLine => {
            let (a, b) = line(text, at);
            let l: Vec<char> = text[a..b].to_vec();
            text.splice(a..a, l);
        }
        Edit::SwapLines => {
            let (a, b) = line(text, at);
            if b < n {
                let (c, d) = line(text, b);
                let mut l: Vec<char> = text[c..d].to_vec();
                if l.last() != Some(&'\n') {
                    l.push('\n');
                }
                l.extend(&text[a..b]);
                text.splice(a..d, l);
            }
        }
        Edit::Cut => {
            let (_, b) = line(text, at);
            text.drain(at..if b > at && b <= n && text.get(b - 1) == Some(&'\n') { b - 1 } else { b });
        }
    }
}

/// A rendered program after a few edits of its text.
pub fn edited(p: BoxedStrategy<Prog>, soft: bool) -> BoxedStrategy<Text> {
    (
        p,
        prop_oneof![1 => Just(prog::Style::canonical()), 1 => prog::style()],
        prop_oneof![
            4 => pvec((any::<u32>(), edit(soft)), 1..2),
            3 => pvec((any::<u32>(), edit(soft)), 2..5),
            1 => pvec((any::<u32>(), edit(soft)), 5..20),
        ],
    )
        .prop_map(|(p, style, edits)| {
            let original = p.render(&style).0;
            let mut t: Vec<char> = original.chars().collect();
            for (at, e) in &edits {
                apply(&mut t, *at, e);
            }
            Text {
                text: t.into_iter().collect(),
                original,
            }
        })
        .boxed()
}

/// Lines made of words, numbers and marks in any order.
pub fn soup() -> BoxedStrategy<Text> {
    let line = prop_oneof![
        2 => pvec(vocabulary(), 0..6).prop_map(|v| v.concat()),
        3 => pvec((vocabulary(), select(vec![" ", " ", "", "\t", ", ", ","])), 0..7)
            .prop_map(|v| v.into_iter().map(|(a, b)| a + b).collect::<String>()),
        2 => (select(vec!["mov", "push", "ret", "syscall", "section", "global", "db", "dw", "x dd", "y dq", "z:"]),
              pvec((vocabulary(), select(vec![" ", "", ", "])), 0..5))
            .prop_map(|(h, v)| format!("{} {}", h, v.into_iter().map(|(a, b)| a + b).collect::<String>())),
        2 => select(vec!["mov rax, 1", "ret", "a:", "b: ", "push rbx", "section .data", "x db 1, \"a;b\"", "mov ecx, a", "global b", "; c", ""]).prop_map(String::from),
    ];
    (pvec(line, 1..6), select(vec!["\n", "\n", "\r\n"]))
        .prop_map(|(v, eol)| Text {
            text: v.join(eol),
            original: String::new(),
        })
        .boxed()
}
