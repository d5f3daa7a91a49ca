//! O01..O06: in-memory objects and the Mach-O files written from them.
use crate::{
    engine::*,
    ensure, limits,
    mo::{self, File},
    p_m,
    prog::{self, Prog, Profile, Sec, Src, Stmt},
    spec::Rec,
    sut::{self, Failure, Feed, Reply, Request, Scratch, Sink, SinkSpec},
    x86::{self, Op},
};
use at_obj::{macho, Object, Reloc, Symbol};
use proptest::collection::vec as pvec;
use proptest::prelude::*;
use proptest::sample::{select, Index};
use serde::{Deserialize, Serialize};
use std::process::Command;

// ------------------------------------------------------------------ the cases

/// Contents given by length and a seed (so that big ones stay small to write down);
/// seed 0 stands for all zeros.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Blob {
    pub len: u32,
    pub seed: u32,
}

impl Blob {
    pub fn bytes(&self) -> Vec<u8> {
        if self.seed == 0 {
            return vec![0; self.len as usize];
        }
        let mut x = (self.seed as u64) << 1 | 1;
        let mut next = || {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (x >> 32) as u32
        };
        if self.seed % 5 == 1 {
            // runs of one byte, and what is between them
            const RUNS: [usize; 16] = [1, 2, 7, 8, 9, 16, 64, 100, 255, 256, 511, 512, 1024, 2048, 4096, 5000];
            let mut v = Vec::with_capacity(self.len as usize);
            while v.len() < self.len as usize {
                let byte = match next() % 6 {
                    0..=2 => 0,
                    3 => 0xff,
                    4 => 0x90,
                    _ => next() as u8,
                };
                let run = RUNS[(next() >> 8) as usize % RUNS.len()] + (next() % 8 == 0) as usize;
                v.resize(v.len() + run, byte);
                v.push(next() as u8 | 1);
            }
            v.truncate(self.len as usize);
            return v;
        }
        (0..self.len).map(|_| (next() >> 24) as u8).collect()
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum SymKind {
    Undef,
    Abs(u64, bool),
    Ref(u64, bool),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Sym {
    pub name: String,
    pub kind: SymKind,
    /// this many copies of the symbol (for very long tables)
    pub copies: u32,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Rel {
    pub addr: i32,
    pub target: String,
    pub pcrel: bool,
    pub len: u8,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Obj {
    pub text: Blob,
    pub data: Blob,
    pub bss: u64,
    /// text, data, bss
    pub syms: [Vec<Sym>; 3],
    /// text, data
    pub rels: [Vec<Rel>; 2],
}

impl Obj {
    pub fn flat(&self, s: usize) -> Vec<(&str, &SymKind)> {
        self.syms[s]
            .iter()
            .flat_map(|y| std::iter::repeat((y.name.as_str(), &y.kind)).take(y.copies as usize))
            .collect()
    }

    fn lib_syms(&self, s: usize) -> Vec<Symbol> {
        self.flat(s)
            .into_iter()
            .map(|(n, k)| match k {
                SymKind::Undef => Symbol::Undef { name: n.into() },
                SymKind::Abs(val, ext) => Symbol::Abs {
                    name: n.into(),
                    val: *val,
                    ext: *ext,
                },
                SymKind::Ref(addr, ext) => Symbol::Ref {
                    name: n.into(),
                    addr: *addr,
                    ext: *ext,
                },
            })
            .collect()
    }

    fn lib_rels(&self, s: usize) -> Vec<Reloc> {
        self.rels[s]
            .iter()
            .map(|r| Reloc {
                addr: r.addr,
                symbol: r.target.clone(),
                pcrel: r.pcrel,
                len: r.len,
            })
            .collect()
    }

    pub fn lib(&self) -> Object {
        let mut o = Object::new();
        o.sections.text.bytes = self.text.bytes();
        o.sections.text.symbols = self.lib_syms(0);
        o.sections.text.relocs = self.lib_rels(0);
        o.sections.data.bytes = self.data.bytes();
        o.sections.data.symbols = self.lib_syms(1);
        o.sections.data.relocs = self.lib_rels(1);
        o.sections.bss.size = self.bss;
        o.sections.bss.symbols = self.lib_syms(2);
        o
    }

    pub fn size(&self, s: usize) -> u64 {
        [self.text.len as u64, self.data.len as u64, self.bss][s]
    }

    pub fn present(&self, s: usize) -> bool {
        self.size(s) > 0 || self.syms[s].iter().any(|y| y.copies > 0)
    }

    /// memory address of each section: contiguous from 0
    pub fn addr(&self, s: usize) -> u64 {
        (0..s).map(|k| self.size(k)).sum()
    }

    fn count(&self) -> usize {
        (0..3).filter(|s| self.present(*s)).count()
    }

    pub fn write(&self) -> Result<Vec<u8>, String> {
        let o = self.lib();
        sut(|| {
            let mut v = Vec::new();
            macho::write_into(&o, &mut v);
            v
        })
        .map_err(|m| format!("writing the object panicked: {}", m))
    }
}

use crate::engine::sut;

// ----------------------------------------------------------------- generators

#[derive(Clone, Copy)]
pub struct Shape {
    max_syms: usize,
    max_rels: usize,
    /// any section length up to about this
    big: u32,
    /// relocation addresses beyond the section, up to i32::MAX
    wild_addr: bool,
    kinds: bool,
}

pub const NORMAL: Shape = Shape {
    max_syms: 12,
    max_rels: 10,
    big: 70_000,
    wild_addr: false,
    kinds: true,
};

fn length(big: u32) -> BoxedStrategy<u32> {
    prop_oneof![
        3 => Just(0u32),
        6 => 1u32..40,
        2 => 250u32..260,
        1 => crate::dict::len(5000).prop_map(|n| n as u32),
        1 => 4090u32..4100,
        1 => (65530u32..65540).prop_map(move |v| v.min(big)),
        1 => (0u32..20).prop_flat_map(move |b| any::<u32>().prop_map(move |v| (v >> (31 - b)).min(big))),
    ]
    .boxed()
}

fn blob(big: u32) -> BoxedStrategy<Blob> {
    (length(big), prop_oneof![1 => Just(0u32), 8 => any::<u32>()]).prop_map(|(len, seed)| Blob { len, seed }).boxed()
}

fn bss_size() -> BoxedStrategy<u64> {
    prop_oneof![
        4 => Just(0u64),
        4 => 1u64..100,
        1 => crate::dict::int().prop_map(|v| v & 0xff_ffff_ffff),
        1 => crate::dict::len(5000).prop_map(|n| n as u64),
        2 => (0u32..40, -2i64..=2).prop_map(|(k, d)| (1u64 << k).wrapping_add(d as u64) & 0xff_ffff_ffff),
        1 => (1u64 << 32)..(1u64 << 40),
        1 => any::<u64>().prop_map(|v| v >> 2),
    ]
    .boxed()
}

/// Symbol names: short ones that are prefixes, suffixes and repeats of each
/// other, the empty one, long ones, and any printable ASCII.
fn sym_name() -> BoxedStrategy<String> {
    prop_oneof![
        5 => "[ab]{1,4}",
        3 => "_[a-z]{1,8}",
        1 => crate::dict::name(),
        1 => crate::prog::alike(),
        2 => "[ -~]{1,20}",
        1 => Just(String::new()),
        2 => select(vec!["_main", "main", "ain", "n", "_", "x", "_x", "__x", "msg", "_msg", "sg"]).prop_map(String::from),
        1 => (select(vec!["a", "long_name_", "\x01", "\x7f", " "]), 20usize..60).prop_map(|(s, n)| s.repeat(n)),
        2 => "[aA][bB]{0,2}",
        1 => (select(vec![7usize, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 300]), "[a-c]{1,2}", any::<bool>())
            .prop_map(|(n, s, front)| if front { format!("{}{}", s, "p".repeat(n)) } else { format!("{}{}", "p".repeat(n), s) }),
    ]
    .boxed()
}

fn raw_sym(kinds: bool) -> BoxedStrategy<(String, u8, u64, bool)> {
    let k = if kinds {
        prop_oneof![6 => Just(0u8), 2 => Just(1u8), 2 => Just(2u8)].boxed()
    } else {
        Just(0u8).boxed()
    };
    (sym_name(), k, crate::gen::edge_u64(), any::<bool>()).boxed()
}

type RawRel = (u32, Index, bool, u8);

fn raw_rel() -> BoxedStrategy<RawRel> {
    (any::<u32>(), any::<Index>(), any::<bool>(), 0u8..4).boxed()
}

pub fn object(sh: Shape) -> BoxedStrategy<Obj> {
    let few = |n: usize| prop_oneof![2 => Just(0usize), 3 => 1..4usize, 2 => 0..n];
    let syms = move || few(sh.max_syms).prop_flat_map(move |n| pvec(raw_sym(sh.kinds), n));
    let rels = move || few(sh.max_rels).prop_flat_map(move |n| pvec(raw_rel(), n));
    (
        blob(sh.big),
        blob(sh.big),
        bss_size(),
        (syms(), syms(), syms()),
        (rels(), rels()),
        prop_oneof![8 => Just(None), 1 => (0usize..3, 200u32..400).prop_map(Some)],
    )
        .prop_map(move |(text, data, bss, s, r, many)| {
            let mut o = Obj {
                text,
                data,
                bss,
                syms: [vec![], vec![], vec![]],
                rels: [vec![], vec![]],
            };
            for (k, list) in [s.0, s.1, s.2].into_iter().enumerate() {
                for (name, kind, v, ext) in list {
                    let size = o.size(k);
                    let kind = match kind {
                        0 => SymKind::Ref(if size == u64::MAX { v } else { v % (size + 1) }, ext),
                        1 => SymKind::Abs(v, ext),
                        _ => SymKind::Undef,
                    };
                    o.syms[k].push(Sym {
                        name,
                        kind,
                        copies: 1,
                    });
                }
            }
            if let Some((k, n)) = many {
                if let Some(y) = o.syms[k].first_mut() {
                    y.copies = n;
                }
            }
            let names: Vec<String> = (0..3)
                .flat_map(|k| o.syms[k].iter().map(|y| y.name.clone()).collect::<Vec<_>>())
                .collect();
            for (k, list) in [r.0, r.1].into_iter().enumerate() {
                let len = o.size(k);
                if names.is_empty() || len == 0 && !(sh.wild_addr && o.present(k)) {
                    continue;
                }
                for (a, i, pcrel, l) in list {
                    let addr = if sh.wild_addr && (a % 3 == 0 || len == 0) {
                        (a >> 1) as i32
                    } else {
                        (a as u64 % len) as i32
                    };
                    o.rels[k].push(Rel {
                        addr,
                        target: i.get(&names).clone(),
                        pcrel,
                        len: l,
                    });
                }
            }
            o
        })
        .boxed()
}

fn boundary_objects(_: Tier) -> Vec<Obj> {
    // every combination of which sections have content / symbols / relocations,
    // with contents around the padding boundary
    let mut v = Vec::new();
    for mask in 0u32..64 {
        for pad in 0..9u32 {
            let mut o = Obj {
                text: Blob {
                    len: if mask & 1 != 0 { 1 + pad } else { 0 },
                    seed: 3,
                },
                data: Blob {
                    len: if mask & 2 != 0 { 9 - pad } else { 0 },
                    seed: 5,
                },
                bss: if mask & 4 != 0 { 1 + pad as u64 } else { 0 },
                syms: [vec![], vec![], vec![]],
                rels: [vec![], vec![]],
            };
            for s in 0..3 {
                if mask & (8 << s) != 0 {
                    o.syms[s].push(Sym {
                        name: ["t", "dd", "bbb"][s].into(),
                        kind: SymKind::Ref(o.size(s), s != 1),
                        copies: 1,
                    });
                    if o.size(0) > 0 {
                        o.rels[0].push(Rel {
                            addr: (s as u64 % o.size(0)) as i32,
                            target: ["t", "dd", "bbb"][s].into(),
                            pcrel: s == 1,
                            len: s as u8,
                        });
                    }
                    if o.size(1) > 0 && s != 1 {
                        o.rels[1].push(Rel {
                            addr: (s as u64 % o.size(1)) as i32,
                            target: ["t", "dd", "bbb"][s].into(),
                            pcrel: false,
                            len: 3,
                        });
                    }
                }
            }
            v.push(o);
        }
    }
    v
}

/// A few objects whose counts or sizes need more than 8, 16 or 24 bits.
pub fn large_objects(tier: Tier) -> Vec<Obj> {
    let sym = |n: &str, k: SymKind, copies: u32| Sym {
        name: n.into(),
        kind: k,
        copies,
    };
    let rel = |addr: i32, t: &str, len: u8| Rel {
        addr,
        target: t.into(),
        pcrel: false,
        len,
    };
    let empty = Obj {
        text: Blob { len: 0, seed: 0 },
        data: Blob { len: 0, seed: 0 },
        bss: 0,
        syms: [vec![], vec![], vec![]],
        rels: [vec![], vec![]],
    };
    let mut v = vec![];
    // the last symbol has an index beyond 16 bits and is a relocation target
    for n in [255u32, 256, 257, 65_534, 65_536, 70_000] {
        let mut o = empty.clone();
        o.text = Blob { len: 32, seed: 1 };
        o.data = Blob { len: 16, seed: 2 };
        o.syms[0] = vec![sym("a", SymKind::Ref(0, false), n), sym("late", SymKind::Ref(7, true), 1)];
        o.syms[1] = vec![sym("d", SymKind::Ref(3, false), 3), sym("last", SymKind::Ref(8, false), 1)];
        o.rels[0] = vec![rel(0, "late", 3), rel(8, "last", 3), rel(16, "a", 2)];
        o.rels[1] = vec![rel(0, "last", 3)];
        v.push(o);
    }
    // string table beyond 16 bits; names that differ only far inside
    for n in [254usize, 255, 256, 4096, 66_000] {
        let mut o = empty.clone();
        o.text = Blob { len: 24, seed: 1 };
        o.syms[0] = vec![
            sym(&("x".repeat(n) + "1"), SymKind::Ref(1, true), 1),
            sym(&("x".repeat(n) + "2"), SymKind::Ref(2, false), 1),
            sym("short", SymKind::Ref(3, true), 1),
            sym("x", SymKind::Ref(4, true), 1),
        ];
        o.syms[2] = vec![sym(&("x".repeat(n)), SymKind::Ref(0, true), 1)];
        o.rels[0] = vec![
            rel(0, "short", 3),
            rel(8, "x", 3),
            rel(0, &("x".repeat(n) + "2"), 3),
            rel(16, &"x".repeat(n), 2),
        ];
        v.push(o);
    }
    // many relocations
    for n in [255usize, 256, 257, 65_535, 65_537, 70_000] {
        let mut o = empty.clone();
        o.text = Blob { len: 1 << 20, seed: 9 };
        o.data = Blob { len: 77, seed: 9 };
        o.syms[1] = vec![sym("d", SymKind::Ref(3, false), 1), sym("e", SymKind::Ref(4, false), 1)];
        o.rels[0] = (0..n).map(|i| rel((i * 8) as i32, if i % 3 == 0 { "d" } else { "e" }, 3)).collect();
        o.rels[1] = vec![rel(5, "e", 3)];
        // the other way round, alone, and in both
        let mut p = o.clone();
        std::mem::swap(&mut p.text, &mut p.data);
        p.rels.swap(0, 1);
        let mut q = o.clone();
        q.rels[0] = vec![];
        q.data = q.text.clone();
        q.text.len = 0;
        q.rels[1] = o.rels[0].clone();
        let mut r = p.clone();
        r.text = o.text.clone();
        r.rels[0] = o.rels[0].clone();
        r.bss = 12;
        v.extend([o, p, q, r]);
    }
    // very many symbols in the other sections, of different kinds and with different names
    for n in [255u32, 256, 257, 65_535, 65_537, 70_000] {
        for s in [1usize, 2] {
            let mut o = empty.clone();
            o.text = Blob { len: 24, seed: 3 };
            o.data = Blob { len: 19, seed: 2 };
            o.bss = 40;
            o.syms[0] = vec![sym("t", SymKind::Ref(3, true), 1)];
            o.syms[s] = vec![sym("many", SymKind::Ref(5, false), n), sym("next", SymKind::Ref(7, true), 1)];
            o.syms[2].push(sym("abs", SymKind::Abs(9, true), 1));
            o.syms[2].push(sym("very_last", SymKind::Ref(8, false), 1));
            o.rels[0] = vec![rel(0, "very_last", 3), rel(8, "next", 3), rel(16, "many", 3)];
            o.rels[1] = vec![rel(0, "abs", 3), rel(8, "t", 3)];
            v.push(o);
        }
    }
    for n in [255usize, 257, 1000, 3000] {
        for s in 0..3 {
            let mut o = empty.clone();
            o.text = Blob { len: 24, seed: 3 };
            o.data = Blob { len: 19, seed: 2 };
            o.bss = 40;
            o.syms[s] = (0..n).map(|i| sym(&format!("s{}", i), SymKind::Ref(i as u64 % 17, i % 3 == 0), 1)).collect();
            o.rels[0] = (0..n).step_by(n / 50).map(|i| rel((i % 16) as i32, &format!("s{}", i), 3)).collect();
            o.rels[1] = vec![rel(1, &format!("s{}", n - 1), 3)];
            v.push(o);
        }
    }
    // section sizes beyond 16 and 24 bits, addresses beyond 32
    let mut sizes = vec![(1u32 << 20, 3u32), ((1 << 24) + 5, 1), (7, (1 << 24) - 1), (65_535, 65_537)];
    if tier == Tier::Thorough {
        sizes.push((200_000_001, 100_000_003));
    }
    for (t, d) in sizes {
        for bss in [0u64, 1, 1 << 32, (1 << 33) + 1, 1 << 62] {
            let mut o = empty.clone();
            o.text = Blob { len: t, seed: 7 };
            o.data = Blob { len: d, seed: 8 };
            o.bss = bss;
            o.syms[0] = vec![sym("t0", SymKind::Ref(0, true), 1), sym("t1", SymKind::Ref(t as u64, false), 1)];
            o.syms[1] = vec![sym("d0", SymKind::Ref(0, true), 1), sym("d1", SymKind::Ref(d as u64, false), 1)];
            o.syms[2] = vec![sym("b0", SymKind::Ref(0, true), 1), sym("b1", SymKind::Ref(bss, false), 1)];
            o.rels[0] = vec![rel(t as i32 - 4, "b1", 2)];
            o.rels[1] = vec![rel(0, "d1", 0)];
            let mut p = o.clone();
            p.text.len = 0;
            p.syms[0] = vec![];
            p.rels[0] = vec![];
            v.extend([o, p]);
        }
    }
    v
}

fn shape_info(o: &Obj) -> Info {
    Info::new(o.count() >= 2 || o.syms.iter().any(|s| s.len() > 1))
        .class(o.count() == 3, "three sections")
        .class(o.count() == 0, "empty object")
        .class((0..3).any(|s| o.present(s) && o.size(s) == 0), "section with symbols only")
        .class((o.text.len + o.data.len) % 8 != 0, "padding needed")
        .class(o.rels.iter().any(|r| !r.is_empty()), "relocations")
        .class(o.rels.iter().all(|r| !r.is_empty()), "relocations in both sections")
        .class(o.bss >= 1 << 32, "bss over 4 GiB")
        .class(o.text.len > 65_535 || o.data.len > 65_535, "contents over 64 KiB")
        .class(o.syms.iter().flatten().map(|s| s.copies as u64).sum::<u64>() > 255, "over 255 symbols")
}

// ------------------------------------------------------------------------ O01

fn o01(o: &Obj) -> Checked {
    let b = o.write()?;
    let f = File::parse(&b)?;
    f.well_formed()?;
    // the tables the commands describe are the object's, not parts of them
    for k in 0..2 {
        let (seg, sect) = Sec::ALL[k].macho();
        if let Some((_, s)) = f.find(seg, sect) {
            ensure!(
                s.nreloc as usize == o.rels[k].len(),
                "{} is said to have {} relocations, but the object has {}",
                sect,
                s.nreloc,
                o.rels[k].len()
            );
        }
    }
    let symbols: usize = (0..3).map(|k| o.flat(k).len()).sum();
    let said = f.symtab.as_ref().map_or(0, |t| t.nsyms as usize);
    ensure!(said == symbols, "the symbol table is said to have {} entries, but the object has {} symbols", said, symbols);
    Ok(shape_info(o))
}

// ------------------------------------------------------------------------ O02

const ATTR_PURE: u32 = 0x8000_0000;
const ATTR_SOME: u32 = 0x400;
const ATTR_EXT: u32 = 0x200;
const ATTR_LOC: u32 = 0x100;

fn o02(o: &Obj) -> Checked {
    let b = o.write()?;
    let f = File::parse(&b)?;
    let sects = f.sects();
    let want: Vec<usize> = (0..3).filter(|s| o.present(*s)).collect();
    let names: Vec<_> = sects
        .iter()
        .map(|s| (s.segname.as_str(), s.sectname.as_str()))
        .collect();
    let want_names: Vec<_> = want.iter().map(|s| Sec::ALL[*s].macho()).collect();
    ensure!(
        names == want_names,
        "sections are {:?} instead of {:?}",
        names,
        want_names
    );
    for (i, k) in want.iter().enumerate() {
        let s = sects[i];
        let n = names[i].1;
        ensure!(s.size == o.size(*k), "{} has size {:#x} instead of {:#x}", n, s.size, o.size(*k));
        ensure!(
            s.addr == o.addr(*k),
            "{} is at address {:#x} instead of {:#x}",
            n,
            s.addr,
            o.addr(*k)
        );
        let nrel = if *k < 2 { o.rels[*k].len() } else { 0 };
        ensure!(
            s.nreloc as usize == nrel,
            "{} has {} relocations instead of {}",
            n,
            s.nreloc,
            nrel
        );
        ensure!(
            s.stype() == if *k == 2 { 1 } else { 0 },
            "{} has section type {}",
            n,
            s.stype()
        );
        let attrs = s.flags & 0xffff_ff00;
        ensure!(
            (attrs & ATTR_PURE != 0) == (*k == 0),
            "{}: pure-instructions attribute is wrong ({:#x})",
            n,
            s.flags
        );
        ensure!(
            *k == 0 || attrs & ATTR_SOME == 0,
            "{} is marked as containing instructions ({:#x})",
            n,
            s.flags
        );
        ensure!(
            (attrs & ATTR_EXT != 0) == (nrel > 0) && (attrs & ATTR_LOC != 0) == (nrel > 0),
            "{} with {} relocations has attributes {:#x}",
            n,
            nrel,
            s.flags
        );
        ensure!(
            attrs & !(ATTR_PURE | ATTR_SOME | ATTR_EXT | ATTR_LOC) == 0,
            "{} has attributes {:#x} nobody asked for",
            n,
            s.flags
        );
        match k {
            2 => {
                ensure!(s.zerofill(), "bss is not zero-fill");
                ensure!(s.offset == 0, "bss has file offset {:#x}", s.offset);
            }
            _ => {
                let c = f.content(s)?;
                let w = if *k == 0 { o.text.bytes() } else { o.data.bytes() };
                if c != w.as_slice() {
                    let at = c.iter().zip(&w).position(|(a, b)| a != b);
                    return Err(format!("{}: contents differ from byte {:?} on", n, at).into());
                }
            }
        }
    }
    Ok(shape_info(o))
}

// ------------------------------------------------------------------------ O03

fn o03(o: &Obj) -> Checked {
    let b = o.write()?;
    let f = File::parse(&b)?;
    let sects: Vec<_> = f.sects().into_iter().cloned().collect();
    let mut i = 0;
    let total: usize = (0..3).map(|k| o.flat(k).len()).sum();
    ensure!(
        f.syms.len() == total,
        "the symbol table has {} entries instead of {}",
        f.syms.len(),
        total
    );
    for k in 0..3 {
        let list = o.flat(k);
        if list.is_empty() {
            continue;
        }
        let (seg, sect) = Sec::ALL[k].macho();
        let Some((no, _)) = f.find(seg, sect) else {
            return Err(format!("section {} has symbols but is not in the file", sect).into());
        };
        for (name, kind) in list {
            let s = &f.syms[i];
            ensure!(
                s.name == name.as_bytes(),
                "symbol {} is named `{}` instead of `{}`",
                i,
                prog::clip(&s.text()),
                prog::clip(name)
            );
            ensure!(!s.stab() && !s.pext(), "symbol {} ({}) has type {:#x}", i, name, s.typ);
            ensure!(s.desc == 0, "symbol {} ({}) has description {:#x}", i, prog::clip(name), s.desc);
            let what = prog::clip(name);
            match kind {
                SymKind::Ref(a, ext) => {
                    ensure!(s.kind() == 0xe, "symbol {} ({}) is not section-defined: {:#x}", i, what, s.typ);
                    ensure!(
                        s.sect as usize == no + 1,
                        "symbol {} ({}) is in section {} instead of {}",
                        i,
                        what,
                        s.sect,
                        no + 1
                    );
                    ensure!(
                        s.value == sects[no].addr + a,
                        "symbol {} ({}) has value {:#x} instead of {:#x}+{:#x}",
                        i,
                        what,
                        s.value,
                        sects[no].addr,
                        a
                    );
                    ensure!(s.ext() == *ext, "symbol {} ({}): external flag is {}", i, what, s.ext());
                }
                SymKind::Abs(v, ext) => {
                    ensure!(s.kind() == 2, "symbol {} ({}) is not absolute: {:#x}", i, what, s.typ);
                    ensure!(s.sect == 0, "absolute symbol {} ({}) is in section {}", i, what, s.sect);
                    ensure!(s.value == *v, "symbol {} ({}) has value {:#x} instead of {:#x}", i, what, s.value, v);
                    ensure!(s.ext() == *ext, "symbol {} ({}): external flag is {}", i, what, s.ext());
                }
                SymKind::Undef => {
                    ensure!(s.kind() == 0, "symbol {} ({}) is not undefined: {:#x}", i, what, s.typ);
                    ensure!(s.sect == 0, "undefined symbol {} ({}) is in section {}", i, what, s.sect);
                    ensure!(s.value == 0, "undefined symbol {} ({}) has value {:#x}", i, what, s.value);
                    ensure!(s.ext(), "undefined symbol {} ({}) is not external", i, what);
                }
            }
            i += 1;
        }
    }
    // the object's own enumeration, read and modified
    let mut lib = o.lib();
    let all: Vec<Symbol> = (0..3).flat_map(|k| o.lib_syms(k)).collect();
    let listed = sut(|| lib.symbols().cloned().collect::<Vec<_>>())?;
    ensure!(listed == all, "the object's enumeration of its symbols gives {} of {} symbols", listed.len(), all.len());
    sut(|| {
        lib.symbols_mut().enumerate().for_each(|(i, s)| match s {
            Symbol::Undef { name } => *name = format!("n{}", i % 7),
            Symbol::Abs { val, ext, .. } => {
                *val = val.wrapping_add(1);
                *ext = !*ext;
            }
            Symbol::Ref { ext, .. } => *ext = !*ext,
        })
    })?;
    let changed: Vec<Symbol> = [&lib.sections.text.symbols, &lib.sections.data.symbols, &lib.sections.bss.symbols]
        .into_iter()
        .flatten()
        .cloned()
        .collect();
    let want: Vec<Symbol> = all
        .into_iter()
        .enumerate()
        .map(|(i, s)| match s {
            Symbol::Undef { .. } => Symbol::Undef { name: format!("n{}", i % 7) },
            Symbol::Abs { name, val, ext } => Symbol::Abs {
                name,
                val: val.wrapping_add(1),
                ext: !ext,
            },
            Symbol::Ref { name, addr, ext } => Symbol::Ref { name, addr, ext: !ext },
        })
        .collect();
    ensure!(changed == want, "changing the symbols through the object's enumeration does not change exactly those");
    for s in &want {
        let n = match s {
            Symbol::Undef { name } | Symbol::Abs { name, .. } | Symbol::Ref { name, .. } => name,
        };
        ensure!(sut(|| s.name().to_string())? == *n, "the name of {:?} is given as `{}`", s, s.name());
    }
    let names: Vec<_> = (0..3).flat_map(|k| o.syms[k].iter()).map(|s| &s.name).collect();
    let distinct: std::collections::HashSet<_> = names.iter().collect();
    Ok(Info::new(total >= 2)
        .class(distinct.len() < names.len(), "repeated name")
        .class(names.iter().any(|n| n.is_empty()), "empty name")
        .class(
            names.iter().any(|a| names.iter().any(|b| a.len() < b.len() && !a.is_empty() && b.ends_with(a.as_str()))),
            "name is a suffix of another",
        )
        .class((0..3).filter(|k| !o.syms[*k].is_empty()).count() == 3, "symbols in all sections")
        .class(o.syms.iter().flatten().any(|s| matches!(s.kind, SymKind::Abs(..))), "absolute")
        .class(o.syms.iter().flatten().any(|s| matches!(s.kind, SymKind::Undef)), "undefined"))
}

/// Objects one name of which a string table cannot hold.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct OddName {
    obj: Obj,
    section: u8,
    at: u16,
    name: String,
    kind: SymKind,
}

fn odd_name() -> BoxedStrategy<OddName> {
    let name = prop_oneof![
        3 => "[a-b_]{0,4}\\x00[a-b_]{0,4}",
        2 => "[a-b_]{0,4}[é語ÿ\u{80}][a-b_]{0,4}",
        1 => "\\PC{1,6}",
    ];
    (object(NORMAL), 0u8..3, any::<u16>(), name, 0u8..3, any::<bool>())
        .prop_map(|(obj, section, at, name, k, ext)| OddName {
            obj,
            section,
            at,
            name,
            kind: match k {
                0 => SymKind::Undef,
                1 => SymKind::Abs(at as u64, ext),
                _ => SymKind::Ref(at as u64, ext),
            },
        })
        .boxed()
}

/// Such an object is refused, or the name is in its file as it is.
fn o03_odd(c: &OddName) -> Checked {
    let mut o = c.obj.clone();
    let syms = &mut o.syms[c.section as usize];
    let at = c.at as usize % (syms.len() + 1);
    syms.insert(
        at,
        Sym {
            name: c.name.clone(),
            kind: c.kind.clone(),
            copies: 1,
        },
    );
    let nul = c.name.contains('\0');
    let info = Info::new(nul || !c.name.is_ascii())
        .class(nul, "name with a NUL")
        .class(!c.name.is_ascii(), "name that is not ASCII");
    match o.write() {
        Err(_) if nul || !c.name.is_ascii() => Ok(info.class(true, "refused")),
        Err(e) => Err(e.into()),
        Ok(_) => o03(&o).map(|_| info),
    }
}

// ------------------------------------------------------------------------ O04

fn o04(o: &Obj) -> Checked {
    let b = o.write()?;
    let f = File::parse(&b)?;
    let mut n = 0;
    for k in 0..2 {
        let want = &o.rels[k];
        let (seg, sect) = Sec::ALL[k].macho();
        let got = match f.find(seg, sect) {
            Some((no, _)) => f.relocs[no].clone(),
            None => vec![],
        };
        ensure!(
            got.len() == want.len(),
            "{} has {} relocations instead of {}",
            sect,
            got.len(),
            want.len()
        );
        for (i, (g, w)) in got.iter().zip(want).enumerate() {
            n += 1;
            ensure!(
                g.addr == w.addr as u32,
                "{} relocation {}: offset {:#x} instead of {:#x}",
                sect,
                i,
                g.addr,
                w.addr
            );
            ensure!(g.len == w.len, "{} relocation {}: width code {} instead of {}", sect, i, g.len, w.len);
            ensure!(g.pcrel == w.pcrel, "{} relocation {}: pc-relative is {}", sect, i, g.pcrel);
            ensure!(g.ext, "{} relocation {} is not external", sect, i);
            ensure!(g.typ == 0, "{} relocation {} has type {}", sect, i, g.typ);
            let s = f
                .syms
                .get(g.num as usize)
                .ok_or_else(|| format!("{} relocation {}: symbol {} of {}", sect, i, g.num, f.syms.len()))?;
            ensure!(
                s.name == w.target.as_bytes(),
                "{} relocation {} is against `{}` instead of `{}`",
                sect,
                i,
                prog::clip(&s.text()),
                prog::clip(&w.target)
            );
        }
    }
    Ok(Info::new(n >= 1)
        .class(n >= 2, "several")
        .class(o.rels.iter().all(|r| !r.is_empty()), "both sections")
        .class(o.rels.iter().flatten().any(|r| r.addr > 0xff_ffff), "offset over 24 bits")
        .class(o.rels.iter().flatten().any(|r| r.pcrel), "pc-relative")
        .class(f.syms.len() > 255, "over 255 symbols"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Missing {
    obj: Obj,
    target: String,
    at: u16,
    section: u8,
}

fn missing() -> BoxedStrategy<Missing> {
    (object(NORMAL), sym_name(), any::<u16>(), 0u8..2, any::<Index>(), 0u8..5)
        .prop_map(|(mut obj, other, at, section, i, mode)| {
            let names: Vec<String> = obj.syms.iter().flatten().map(|s| s.name.clone()).collect();
            // close to an existing name more often than not
            let mut target = if names.is_empty() {
                other
            } else {
                let n = i.get(&names);
                match mode {
                    0 => other,
                    1 => n.chars().skip(1).collect(),
                    2 => n[..n.len().saturating_sub(1)].to_string(),
                    3 => n.to_uppercase(),
                    _ => format!("{}x", n),
                }
            };
            while names.contains(&target) {
                target.push('!');
            }
            if obj.size(section as usize) == 0 {
                let b = Blob { len: 8, seed: 1 };
                if section == 0 {
                    obj.text = b
                } else {
                    obj.data = b
                }
            }
            Missing {
                obj,
                target,
                at,
                section,
            }
        })
        .boxed()
}

fn o04_missing(m: &Missing) -> Checked {
    let mut o = m.obj.clone();
    let rels = &mut o.rels[m.section as usize];
    let at = m.at as usize % (rels.len() + 1);
    rels.insert(
        at,
        Rel {
            addr: 0,
            target: m.target.clone(),
            pcrel: false,
            len: 3,
        },
    );
    match o.write() {
        Err(_) => Ok(Info::new(!o.syms.iter().all(|s| s.is_empty()))
            .class(o.syms.iter().all(|s| s.is_empty()), "object without symbols")),
        Ok(_) => Err(format!(
            "a relocation against `{}`, which the object does not have, was written",
            prog::clip(&m.target)
        )
        .into()),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct OddWidth {
    obj: Obj,
    section: u8,
    at: u16,
    len: u8,
    pcrel: bool,
}

/// A relocation whose width the format cannot express is refused.
fn o04_width(c: &OddWidth) -> Checked {
    let mut o = c.obj.clone();
    let k = c.section as usize;
    o.syms[k].push(Sym {
        name: "wide".into(),
        kind: SymKind::Ref(0, false),
        copies: 1,
    });
    let at = c.at as usize % (o.rels[k].len() + 1);
    o.rels[k].insert(
        at,
        Rel {
            addr: 0,
            target: "wide".into(),
            pcrel: c.pcrel,
            len: c.len,
        },
    );
    match o.write() {
        Err(_) => Ok(Info::new(true)),
        Ok(_) => Err(format!("a relocation with width code {} was written", c.len).into()),
    }
}

// ------------------------------------------------------------------------ O05

fn sink_sizes() -> BoxedStrategy<Vec<u32>> {
    prop_oneof![
        2 => Just(vec![1u32]),
        2 => pvec(1u32..9, 1..5),
        2 => pvec(0u32..5, 2..8),
        1 => pvec(0u32..200, 1..6),
        1 => Just(vec![0, 0, 1]),
        1 => Just(vec![7, 0, 1, 0, 0, 3]),
    ]
    .boxed()
}

fn spec_info(sizes: &[u32], fail: bool) -> Info {
    Info::new(!sizes.is_empty() || fail)
        .class(sizes.iter().any(|s| *s == 0) && sizes.iter().any(|s| *s != 0), "interrupted")
        .class(sizes == [1], "one byte at a time")
}

/// Judge one write against what memory received.
fn judge(full: &[u8], spec: &SinkSpec, got: &sut::Written) -> Result<(), String> {
    ensure!(
        !got.endless,
        "the sink failed after {:?} bytes and is tried again without end",
        spec.fail
    );
    if spec.once && got.sink_failed {
        // whether the failed piece is tried again is the writer's choice, but
        // bytes must not go missing silently
        ensure!(
            !got.returned || got.bytes == full,
            "the sink refused one call after {:?} bytes, the write returned normally and delivered {} of {} bytes",
            spec.fail.map(|f| f.0),
            got.bytes.len(),
            full.len()
        );
        return Ok(());
    }
    ensure!(
        got.bytes.len() <= full.len() && full[..got.bytes.len()] == got.bytes[..],
        "what was delivered ({} bytes) is not a prefix of the full output ({} bytes), sink {:?}",
        got.bytes.len(),
        full.len(),
        spec
    );
    match spec.fail {
        Some((n, _)) if (n as usize) < full.len() => {
            ensure!(
                !got.returned,
                "the sink stopped after {} of {} bytes, yet the write returned normally ({:?})",
                n,
                full.len(),
                spec
            );
        }
        _ => {
            ensure!(
                got.returned,
                "the write did not return normally though the sink accepts everything ({:?})",
                spec
            );
            ensure!(
                got.bytes.len() == full.len(),
                "only {} of {} bytes were delivered, sink {:?}",
                got.bytes.len(),
                full.len(),
                spec
            );
        }
    }
    Ok(())
}

fn write_to(spec: &SinkSpec, f: impl FnOnce(&mut Sink)) -> sut::Written {
    let mut s = Sink::new(spec);
    let returned = sut(|| f(&mut s)).is_ok();
    sut::Written {
        returned,
        sink_failed: s.failed,
        endless: s.endless,
        bytes: s.got,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SinkCase<T> {
    value: T,
    sizes: Vec<u32>,
    kind: Failure,
}

fn sink_case<T: Clone + std::fmt::Debug + 'static>(s: BoxedStrategy<T>) -> BoxedStrategy<SinkCase<T>> {
    (s, prop_oneof![1 => Just(vec![]), 4 => sink_sizes()], select(Failure::ALL.to_vec()))
        .prop_map(|(value, sizes, kind)| SinkCase { value, sizes, kind })
        .boxed()
}

/// The same write into a piecemeal sink, and into sinks failing at every byte.
fn every_position(full: &[u8], sizes: &[u32], kind: Failure, limit: usize, f: impl Fn(&mut Sink)) -> Result<(), String> {
    let piecemeal = SinkSpec {
        sizes: sizes.to_vec(),
        fail: None,
        once: false,
    };
    judge(full, &piecemeal, &write_to(&piecemeal, &f))?;
    let n = full.len();
    let step = n.div_ceil(limit).max(1);
    for at in (0..n).step_by(step).chain([n.saturating_sub(1), n]) {
        for once in [false, true] {
            let spec = SinkSpec {
                sizes: if at % 2 == 0 { sizes.to_vec() } else { vec![] },
                fail: Some((at as u64, kind)),
                once,
            };
            judge(full, &spec, &write_to(&spec, &f))?;
        }
    }
    Ok(())
}

fn o05_objects(c: &SinkCase<Obj>) -> Checked {
    let full = c.value.write()?;
    let lib = c.value.lib();
    every_position(&full, &c.sizes, c.kind, 400, |s| macho::write_into(&lib, s))?;
    Ok(spec_info(&c.sizes, true).class(c.kind == Failure::Full, "sink returns Ok(0)"))
}

fn o05_records(c: &SinkCase<Rec>) -> Checked {
    let lib = p_m::to_lib(&c.value);
    let full = sut(|| {
        let mut v = Vec::new();
        p_m::write_lib(&lib, &mut v);
        v
    })
    .map_err(|m| format!("writing the record panicked: {}", m))?;
    every_position(&full, &c.sizes, c.kind, 2000, |s| p_m::write_lib(&lib, s))?;
    Ok(spec_info(&c.sizes, true))
}

fn o05_programs(c: &SinkCase<Prog>) -> Checked {
    let feeds = vec![Feed::whole(&c.value.canonical())];
    let full = sut::assemble_feeds(feeds.clone())?;
    let n = full.len();
    let step = n.div_ceil(60).max(1);
    let mut writes = vec![(
        1,
        SinkSpec {
            sizes: c.sizes.clone(),
            fail: None,
            once: false,
        },
    )];
    for at in (0..n).step_by(step).chain([n - 1, n]) {
        writes.push((
            1,
            SinkSpec {
                sizes: if at % 2 == 0 { c.sizes.clone() } else { vec![] },
                fail: Some((at as u64, c.kind)),
                once: (at / step) % 3 == 1,
            },
        ));
    }
    match sut::ask(&Request {
        feeds,
        writes: writes.clone(),
        twin: vec![], at_once: false,
    })? {
        Reply::Done(v) => {
            for ((_, spec), w) in writes.iter().zip(&v) {
                judge(&full, spec, w)?;
            }
        }
        // the process ends as soon as a write fails: look at the piecemeal
        // delivery and one failure position on their own
        _ => {
            for (k, spec) in [&writes[0], &writes[writes.len() / 2]] {
                match sut::ask(&Request {
                    feeds: vec![Feed::whole(&c.value.canonical())],
                    writes: vec![(*k, spec.clone())],
                    twin: vec![], at_once: false,
                })? {
                    Reply::Done(v) => judge(&full, spec, &v[0])?,
                    Reply::Exited { code, .. } if spec.fail.is_some() && code != Some(0) => {}
                    r => return Err(format!("writing ended the process: {:?}", r).into()),
                }
            }
        }
    }
    Ok(spec_info(&c.sizes, true))
}

// ------------------------------------------------------------------------ O06

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LinkCase {
    pub prog: Prog,
}

const LINKABLE: Profile = Profile {
    max_stmts: 30,
    ..prog::GENERAL
};

pub fn link_case() -> BoxedStrategy<LinkCase> {
    prog::program(LINKABLE)
        .prop_map(|mut p| {
            // names the linker gives a meaning of its own stay out of the way
            for s in p.stmts.iter_mut() {
                let fix = |n: &mut String| {
                    *n = format!("v{}", n);
                };
                match s {
                    Stmt::Global(n) | Stmt::Label(n) => fix(n),
                    Stmt::Data { label: Some(n), .. } => fix(n),
                    Stmt::Mov {
                        src: Src::Label(n), ..
                    } => fix(n),
                    _ => {}
                }
            }
            let mut stmts = vec![Stmt::Global("_main".into()), Stmt::Label("_main".into())];
            stmts.append(&mut p.stmts);
            stmts.push(Stmt::Section(Sec::Text));
            stmts.push(Stmt::Ret);
            LinkCase {
                prog: Prog { stmts },
            }
        })
        .boxed()
}

pub fn need(names: &[&str]) -> Result<std::path::PathBuf, Fail> {
    sut::tool(names).ok_or_else(|| Fail::Machinery(format!("{} is not installed", names[0])))
}

fn o06(c: &LinkCase) -> Checked {
    let obj = sut::assemble_in_parts(&c.prog.canonical())?;
    let f = File::parse(&obj)?;
    let e = prog::expected(&c.prog);
    // contents before linking, and where the label operands are
    let l = prog::walk(&c.prog, &e, &f)?;
    let dir = Scratch::new()?;
    let input = dir.path("in.o");
    std::fs::write(&input, &obj).map_err(|e| Fail::Machinery(e.to_string()))?;

    let reader = need(&["llvm-readobj-18", "llvm-readobj"])?;
    let r = sut::run(
        Command::new(reader)
            .args(["--file-headers", "--sections", "--relocations", "--symbols", "--macho-segment", "--macho-version-min"])
            .arg(&input),
    )?;
    ensure!(
        r.ok() && r.stderr.trim().is_empty(),
        "llvm-readobj does not accept the object: {}",
        r.stderr.trim()
    );
    let shown = String::from_utf8_lossy(&r.stdout).matches("\n    Name: ").count();
    ensure!(
        shown == f.syms.len() + f.sects().len(),
        "llvm-readobj shows {} sections and symbols, the file has {} and {}",
        shown,
        f.sects().len(),
        f.syms.len()
    );

    let ld = need(&["ld64.lld-18", "ld64.lld"])?;
    let out = dir.path("out");
    let mut cmd = Command::new(ld);
    cmd.args(["-arch", "x86_64", "-platform_version", "macos", "10.14", "10.14", "-e", "_main"]);
    let ref32 = prog::has_ref32(&c.prog);
    if ref32 {
        cmd.args(["-no_pie", "-pagezero_size", "0x1000"]);
    }
    let r = sut::run(cmd.arg("-o").arg(&out).arg(&input))?;
    ensure!(
        r.ok(),
        "the linker does not accept the object: {}",
        r.stderr.trim()
    );
    ensure!(
        r.stderr.trim().is_empty(),
        "the linker complains about the object: {}",
        r.stderr.trim()
    );
    let image = std::fs::read(&out).map_err(|e| Fail::Machinery(e.to_string()))?;
    let img = File::parse(&image).map_err(|e| Fail::Machinery(format!("linked image: {}", e)))?;
    let mut base = [0u64; 3];
    let mut linked: [Vec<u8>; 3] = Default::default();
    for s in Sec::ALL {
        let (seg, sect) = s.macho();
        match img.find(seg, sect) {
            Some((_, h)) => {
                base[s.idx()] = h.addr;
                linked[s.idx()] = img.content(h)?.to_vec();
            }
            None => ensure!(
                l.bytes[s.idx()].is_empty() && !l.labels.values().any(|v| v.0 == s),
                "section {} is not in the linked image",
                s.source()
            ),
        }
    }
    let mut want = l.bytes.clone();
    for site in &l.sites {
        let (sec, o) = l.labels[&site.label];
        let a = (base[sec.idx()] + o).to_le_bytes();
        want[site.sec.idx()][site.off..site.off + site.len].copy_from_slice(&a[..site.len]);
    }
    for s in Sec::ALL {
        let (w, g) = (&want[s.idx()], &linked[s.idx()]);
        ensure!(
            g == w,
            "linked {} has {} bytes, expected {}; first difference at {:?}",
            s.source(),
            g.len(),
            w.len(),
            g.iter().zip(w.iter()).position(|(a, b)| a != b)
        );
    }
    for (name, (sec, o)) in &l.labels {
        if let Some(s) = img.syms.iter().find(|s| s.name == name.as_bytes()) {
            ensure!(
                s.value == base[sec.idx()] + o,
                "label `{}` is at {:#x} in the linked image, expected {:#x}",
                name,
                s.value,
                base[sec.idx()] + o
            );
        }
    }
    Ok(Info::new(!l.sites.is_empty())
        .class(ref32, "32-bit label operand")
        .class(l.sites.iter().any(|s| l.labels[&s.label].0 != s.sec), "label of another section")
        .class(l.sites.iter().any(|s| l.labels[&s.label].0 == Sec::Bss), "label in bss")
        .class(l.sites.len() > 3, "over 3 label operands")
        .class(c.prog.stmts.len() > 20, "over 20 statements"))
}

/// Every decoded 64-bit address operand of the image, for the sake of one more look
/// at text through a different decoder.
#[allow(dead_code)]
fn operands(b: &[u8]) -> Vec<u64> {
    x86::decode_all(b)
        .unwrap_or_default()
        .iter()
        .filter_map(|i| match i.op {
            Op::MovImm { val, .. } => Some(val),
            _ => None,
        })
        .collect()
}

pub fn properties() -> Vec<Property> {
    let _ = mo::File::parse;
    vec![
        Property {
            id: "O01",
            level: "exploration",
            rule: "A case is an in-memory object (contents, symbols, relocations, bss size); every combination of present/absent parts with contents around the padding boundary is enumerated, objects whose counts or sizes need more than 8/16/24/32 bits are listed, objects around the largest file offset and address the format can express are written in a process of its own (debug and release) and must be right or refused, others are random. Non-trivial: at least two sections or several symbols in one.",
            assumptions: &["Sections with relocations have contents."],
            parts: || {
                vec![
                    listed("combinations", boundary_objects, o01),
                    listed("large", large_objects, o01),
                    listed("limits", limits::sizes, limits::check),
                    random("objects", (100_000, 4_000_000), |_| object(NORMAL), o01),
                ]
            },
        },
        Property {
            id: "O02",
            level: "exploration",
            rule: "Same objects as O01; section headers and contents are compared with the object. Non-trivial: at least two sections or several symbols in one.",
            assumptions: &["Sections with relocations have contents."],
            parts: || {
                vec![
                    listed("combinations", boundary_objects, o02),
                    listed("large", large_objects, o02),
                    random("objects", (100_000, 4_000_000), |_| object(NORMAL), o02),
                ]
            },
        },
        Property {
            id: "O03",
            level: "exploration",
            rule: "Objects as in O01 with more symbols (names that are prefixes, suffixes or repeats of each other, empty, long; defined, absolute, undefined). Names with NUL or non-ASCII characters and values beyond 64 bits must be refused or come out right. Non-trivial: at least two symbols.",
            assumptions: &[],
            parts: || {
                vec![
                    listed("combinations", boundary_objects, o03),
                    listed("large", large_objects, o03),
                    listed("limits", limits::values, limits::check),
                    random("objects", (100_000, 4_000_000), |_| object(Shape { max_syms: 40, big: 300, ..NORMAL }), o03),
                    random("odd-names", (40_000, 1_000_000), |_| odd_name(), o03_odd),
                ]
            },
        },
        Property {
            id: "O04",
            level: "exploration",
            rule: "Objects as in O01 with more relocations, offsets up to i32::MAX, all widths and both pc-relative values; and objects with one relocation against a name the object lacks (usually close to one it has), with a width code above 3, or with a symbol number around 2^24. Non-trivial: at least one relocation (for refusals: the object has symbols).",
            assumptions: &["Relocation offsets are non-negative; several symbols with the target's name: the index may denote any of them."],
            parts: || {
                vec![
                    listed("combinations", boundary_objects, o04),
                    listed("large", large_objects, o04),
                    random(
                        "objects",
                        (100_000, 4_000_000),
                        |_| object(Shape { max_rels: 40, max_syms: 30, big: 300, wild_addr: true, ..NORMAL }),
                        o04,
                    ),
                    listed("limits", limits::numbers, limits::check),
                    random("missing-target", (60_000, 1_000_000), |_| missing(), o04_missing),
                    random(
                        "unfit-width",
                        (20_000, 500_000),
                        |_| {
                            (object(NORMAL), 0u8..2, any::<u16>(), prop_oneof![2 => 4u8..=255, 1 => Just(4u8), 1 => (2u32..8).prop_map(|k| 1 << k)], any::<bool>())
                                .prop_map(|(mut obj, section, at, len, pcrel)| {
                                    if obj.size(section as usize) == 0 {
                                        let b = Blob { len: 8, seed: 1 };
                                        if section == 0 { obj.text = b } else { obj.data = b }
                                    }
                                    OddWidth { obj, section, at, len, pcrel }
                                })
                        },
                        o04_width,
                    ),
                ]
            },
        },
        Property {
            id: "O05",
            level: "fault_enumeration",
            rule: "A case is an object, a record or a program, a pattern of accepted piece sizes and interruptions, and a kind of sink failure; within a case the failure is placed at every byte position (programs and large objects: at up to 60/400 evenly spaced ones). Non-trivial: every case (each contains failing sinks).",
            assumptions: &["A sink that failed either keeps failing or fails just once."],
            parts: || {
                vec![
                    random("objects", (3_000, 100_000), |_| {
                        sink_case(object(Shape { max_syms: 6, max_rels: 6, big: 80, ..NORMAL }))
                    }, o05_objects),
                    random("records", (20_000, 500_000), |_| sink_case(p_m::g_rec()), o05_records),
                    random("programs", (1_500, 40_000), |_| sink_case(prog::program(Profile { max_stmts: 15, ..prog::GENERAL })), o05_programs),
                ]
            },
        },
        Property {
            id: "O06",
            level: "exploration",
            rule: "A case is a random valid program with an exported _main; its object is read by llvm-readobj, linked by ld64.lld, and the linked image's sections, symbols and label operands are compared with the source. Non-trivial: the program has label operands.",
            assumptions: &["llvm-readobj and ld64.lld 18 are correct; label names start with a letter the linker gives no meaning to."],
            parts: || vec![random("link", (2_500, 40_000), |_| link_case(), o06)],
        },
    ]
}
