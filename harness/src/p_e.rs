//! E01..E05: the x86-64 encoder.
use crate::{
    engine::*,
    ensure,
    gen::*,
    objdump,
    x86::{self, Addr, Op},
};
use at_x64::{
    instruction::{Instruction, Lea, Mov, Pop, Push, Ret, Syscall},
    mem::Mem64,
    reg::{Reg, Reg16, Reg32, Reg64, Reg8},
    BytesAtMost,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

// Hardware numbers as the architecture manual assigns them.
pub const R64: [(Reg64, &str); 16] = [
    (Reg64::RAX, "rax"),
    (Reg64::RCX, "rcx"),
    (Reg64::RDX, "rdx"),
    (Reg64::RBX, "rbx"),
    (Reg64::RSP, "rsp"),
    (Reg64::RBP, "rbp"),
    (Reg64::RSI, "rsi"),
    (Reg64::RDI, "rdi"),
    (Reg64::R8, "r8"),
    (Reg64::R9, "r9"),
    (Reg64::R10, "r10"),
    (Reg64::R11, "r11"),
    (Reg64::R12, "r12"),
    (Reg64::R13, "r13"),
    (Reg64::R14, "r14"),
    (Reg64::R15, "r15"),
];
pub const R32: [(Reg32, &str); 16] = [
    (Reg32::EAX, "eax"),
    (Reg32::ECX, "ecx"),
    (Reg32::EDX, "edx"),
    (Reg32::EBX, "ebx"),
    (Reg32::ESP, "esp"),
    (Reg32::EBP, "ebp"),
    (Reg32::ESI, "esi"),
    (Reg32::EDI, "edi"),
    (Reg32::R8D, "r8d"),
    (Reg32::R9D, "r9d"),
    (Reg32::R10D, "r10d"),
    (Reg32::R11D, "r11d"),
    (Reg32::R12D, "r12d"),
    (Reg32::R13D, "r13d"),
    (Reg32::R14D, "r14d"),
    (Reg32::R15D, "r15d"),
];
pub const R16: [(Reg16, &str); 16] = [
    (Reg16::AX, "ax"),
    (Reg16::CX, "cx"),
    (Reg16::DX, "dx"),
    (Reg16::BX, "bx"),
    (Reg16::SP, "sp"),
    (Reg16::BP, "bp"),
    (Reg16::SI, "si"),
    (Reg16::DI, "di"),
    (Reg16::R8W, "r8w"),
    (Reg16::R9W, "r9w"),
    (Reg16::R10W, "r10w"),
    (Reg16::R11W, "r11w"),
    (Reg16::R12W, "r12w"),
    (Reg16::R13W, "r13w"),
    (Reg16::R14W, "r14w"),
    (Reg16::R15W, "r15w"),
];
pub const R8: [(Reg8, &str); 16] = [
    (Reg8::AL, "al"),
    (Reg8::CL, "cl"),
    (Reg8::DL, "dl"),
    (Reg8::BL, "bl"),
    (Reg8::SPL, "spl"),
    (Reg8::BPL, "bpl"),
    (Reg8::SIL, "sil"),
    (Reg8::DIL, "dil"),
    (Reg8::R8B, "r8b"),
    (Reg8::R9B, "r9b"),
    (Reg8::R10B, "r10b"),
    (Reg8::R11B, "r11b"),
    (Reg8::R12B, "r12b"),
    (Reg8::R13B, "r13b"),
    (Reg8::R14B, "r14b"),
    (Reg8::R15B, "r15b"),
];

pub fn reg_name(w: u8, n: u8) -> &'static str {
    match w {
        64 => R64[n as usize].1,
        32 => R32[n as usize].1,
        16 => R16[n as usize].1,
        _ => R8[n as usize].1,
    }
}

// ------------------------------------------------------------------------ E01

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ins {
    MovRR { w: u8, d: u8, s: u8 },
    MovImm { w: u8, d: u8, v: u64 },
    PushReg { w: u8, r: u8 },
    PopReg { w: u8, r: u8 },
    PushImm { w: u8, v: u32 },
    Ret,
    Syscall,
}

fn r64(n: u8) -> Reg64 {
    R64[n as usize].0
}
fn r32(n: u8) -> Reg32 {
    R32[n as usize].0
}
fn r16(n: u8) -> Reg16 {
    R16[n as usize].0
}

pub fn encode(i: &Ins) -> Result<Vec<u8>, String> {
    let b = sut(|| match *i {
        Ins::MovRR { w: 64, d, s } => Mov::new(r64(d), r64(s)).bytecode(),
        Ins::MovRR { w: 32, d, s } => Mov::new(r32(d), r32(s)).bytecode(),
        Ins::MovRR { d, s, .. } => Mov::new(r16(d), r16(s)).bytecode(),
        Ins::MovImm { w: 64, d, v } => Mov::new(r64(d), v).bytecode(),
        Ins::MovImm { w: 32, d, v } => Mov::new(r32(d), v as u32).bytecode(),
        Ins::MovImm { d, v, .. } => Mov::new(r16(d), v as u16).bytecode(),
        Ins::PushReg { w: 64, r } => Push::new(r64(r)).bytecode(),
        Ins::PushReg { r, .. } => Push::new(r16(r)).bytecode(),
        Ins::PopReg { w: 64, r } => Pop::new(r64(r)).bytecode(),
        Ins::PopReg { r, .. } => Pop::new(r16(r)).bytecode(),
        Ins::PushImm { w: 8, v } => Push::new(v as u8).bytecode(),
        Ins::PushImm { w: 16, v } => Push::new(v as u16).bytecode(),
        Ins::PushImm { v, .. } => Push::new(v).bytecode(),
        Ins::Ret => Ret::new().bytecode(),
        Ins::Syscall => Syscall::new().bytecode(),
    })
    .map_err(|p| format!("encoding {:?} panics: {}", i, p))?;
    let len = b.len();
    ensure!(
        len == b.as_ref().len() && b.is_empty() == (len == 0),
        "length {} of the encoding of {:?} disagrees with its bytes",
        len,
        i
    );
    Ok(b.as_ref().to_vec())
}

fn mask(w: u8) -> u64 {
    if w == 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}

fn expected(i: &Ins) -> Op {
    match *i {
        Ins::MovRR { w, d, s } => Op::MovRR { w, dst: d, src: s },
        Ins::MovImm { w, d, v } => Op::MovImm {
            w,
            dst: d,
            val: v & mask(w),
        },
        Ins::PushReg { w, r } => Op::PushReg {
            bytes: w / 8,
            reg: r,
        },
        Ins::PopReg { w, r } => Op::PopReg {
            bytes: w / 8,
            reg: r,
        },
        // push imm8 / imm32 sign-extend to 64 bits, push imm16 pushes two bytes
        Ins::PushImm { w: 8, v } => Op::PushImm {
            bytes: 8,
            val: v as u8 as i8 as i64 as u64,
        },
        Ins::PushImm { w: 16, v } => Op::PushImm {
            bytes: 2,
            val: v as u16 as u64,
        },
        Ins::PushImm { v, .. } => Op::PushImm {
            bytes: 8,
            val: v as i32 as i64 as u64,
        },
        Ins::Ret => Op::Ret,
        Ins::Syscall => Op::Syscall,
    }
}

fn check_ins(i: &Ins) -> Checked {
    let b = encode(i)?;
    let d = x86::decode(&b).map_err(|e| format!("{:?} encodes to {:02x?}: {}", i, b, e))?;
    ensure!(
        d.op == expected(i),
        "{:?} encodes to {:02x?}, which is {:?}",
        i,
        b,
        d.op
    );
    ensure!(
        d.len == b.len(),
        "{:?} encodes to {:02x?}; {} bytes are left over",
        i,
        b,
        b.len() - d.len
    );
    Ok(Info::new(true))
}

fn check_seq(seq: &Vec<Ins>) -> Checked {
    let mut all = vec![];
    for i in seq {
        all.extend(encode(i)?);
    }
    let ds = x86::decode_all(&all).map_err(|e| format!("{:?} -> {:02x?}: {}", seq, all, e))?;
    ensure!(
        ds.len() == seq.len(),
        "{} instructions decode as {}",
        seq.len(),
        ds.len()
    );
    for (k, (i, d)) in seq.iter().zip(&ds).enumerate() {
        ensure!(
            d.op == expected(i),
            "instruction {} ({:?}) decodes as {:?}",
            k,
            i,
            d.op
        );
    }
    let kinds = seq
        .iter()
        .map(|i| std::mem::discriminant(i))
        .collect::<std::collections::HashSet<_>>()
        .len();
    Ok(Info::new(seq.len() >= 2 && kinds >= 2)
        .class(seq.len() > 20, "more than 20 instructions")
        .class(kinds >= 5, "five or more kinds"))
}

pub fn any_ins() -> BoxedStrategy<Ins> {
    let w3 = prop_oneof![Just(64u8), Just(32), Just(16)];
    let w2 = prop_oneof![Just(64u8), Just(16)];
    let wi = prop_oneof![Just(8u8), Just(16), Just(32)];
    prop_oneof![
        4 => (w3.clone(), 0u8..16, 0u8..16).prop_map(|(w, d, s)| Ins::MovRR { w, d, s }),
        6 => (w3, 0u8..16, edge_u64()).prop_map(|(w, d, v)| Ins::MovImm { w, d, v: v & mask(w) }),
        2 => (w2.clone(), 0u8..16).prop_map(|(w, r)| Ins::PushReg { w, r }),
        2 => (w2, 0u8..16).prop_map(|(w, r)| Ins::PopReg { w, r }),
        3 => (wi, edge_u32()).prop_map(|(w, v)| Ins::PushImm { w, v: (v as u64 & mask(w)) as u32 }),
        1 => Just(Ins::Ret),
        1 => Just(Ins::Syscall),
    ]
    .boxed()
}

fn e01_parts() -> Vec<Box<dyn Part>> {
    vec![
        listed(
            "register-forms",
            |_| {
                let mut v = vec![Ins::Ret, Ins::Syscall];
                for w in [64u8, 32, 16] {
                    for d in 0..16 {
                        for s in 0..16 {
                            v.push(Ins::MovRR { w, d, s });
                        }
                        for x in edge_list_u32() {
                            for y in [x as u64, (x as i32) as u64, (x as u64) << 32] {
                                v.push(Ins::MovImm {
                                    w,
                                    d,
                                    v: y & mask(w),
                                });
                            }
                        }
                    }
                }
                for w in [64u8, 16] {
                    for r in 0..16 {
                        v.push(Ins::PushReg { w, r });
                        v.push(Ins::PopReg { w, r });
                    }
                }
                for x in 0..256 {
                    v.push(Ins::PushImm { w: 8, v: x });
                }
                v
            },
            check_ins,
        ),
        enumerated(
            "all-imm16",
            |_, shard, n| {
                Box::new(
                    (0u32..65536 * 17)
                        .filter(move |i| *i as usize % n == shard)
                        .map(|i| {
                            let (r, v) = (i / 65536, i % 65536);
                            if r == 16 {
                                Ins::PushImm { w: 16, v }
                            } else {
                                Ins::MovImm {
                                    w: 16,
                                    d: r as u8,
                                    v: v as u64,
                                }
                            }
                        }),
                )
            },
            check_ins,
        ),
        random("wide-immediates", (3_000_000, 100_000_000), |_| any_ins(), check_ins),
        random(
            "sequences",
            (150_000, 6_000_000),
            |_| prop::collection::vec(any_ins(), 0..60),
            check_seq,
        ),
        random(
            "objdump",
            (400, 10_000),
            |_| prop::collection::vec(any_ins(), 1..200),
            |v: &Vec<Ins>| {
                let codes = v.iter().map(encode).collect::<Result<Vec<_>, _>>()?;
                objdump::compare(&codes, &v.iter().map(expected).collect::<Vec<_>>())
            },
        ),
        enumerated(
            "imm32-sweep",
            |tier, shard, n| {
                // quick: every 307th value; thorough: all 2^32
                let step: u64 = if tier == Tier::Thorough { 1 } else { 307 };
                Box::new((shard as u64 * step..1 << 32).step_by(n * step as usize).flat_map(|v| {
                    let v = v as u32;
                    [
                        Ins::PushImm { w: 32, v },
                        Ins::MovImm {
                            w: 32,
                            d: (v % 16) as u8,
                            v: v as u64,
                        },
                    ]
                }))
            },
            check_ins,
        ),
    ]
}

// ------------------------------------------------------------------------ E02

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum M {
    Reg { base: u8, disp: u32 },
    Rip { disp: u32 },
    Sib { base: Option<u8>, index: u8, scale: u8, disp: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MemCase {
    pub lea: bool,
    pub reg: u8,
    pub m: M,
}

fn mem_of(m: &M, short: bool) -> Mem64 {
    match *m {
        M::Reg { base, disp: 0 } if short => Mem64::reg(r64(base)),
        M::Reg { base, disp } => Mem64::reg_offset(r64(base), disp),
        M::Rip { disp } => Mem64::rip_offset(disp),
        M::Sib {
            base,
            index,
            scale,
            disp,
        } => Mem64::sib(base.map(r64), disp, r64(index), scale),
    }
}

fn addr_of(m: &M) -> Addr {
    let mut a = Addr {
        regs: [0; 16],
        rip: false,
        disp: 0,
    };
    match *m {
        M::Reg { base, disp } => {
            a.regs[base as usize] += 1;
            a.disp = disp as i32 as i64;
        }
        M::Rip { disp } => {
            a.rip = true;
            a.disp = disp as i32 as i64;
        }
        M::Sib {
            base,
            index,
            scale,
            disp,
        } => {
            if let Some(b) = base {
                a.regs[b as usize] += 1;
            }
            // rsp as index means "no index"
            if index != 4 {
                a.regs[index as usize] += 1 << scale;
            }
            a.disp = disp as i32 as i64;
        }
    }
    a
}

pub fn encode_mem(c: &MemCase) -> Result<Vec<u8>, String> {
    sut(|| {
        // both ways to write a zero displacement
        let m = mem_of(&c.m, c.reg & 1 == 0);
        if c.lea {
            Lea::new(r64(c.reg), m).bytecode()
        } else {
            Mov::new(m, r64(c.reg)).bytecode()
        }
    })
    .map(|b| b.as_ref().to_vec())
    .map_err(|p| format!("encoding {:?} panics: {}", c, p))
}

fn wanted_mem(c: &MemCase) -> Op {
    if c.lea {
        Op::Lea {
            w: 64,
            dst: c.reg,
            mem: addr_of(&c.m),
        }
    } else {
        Op::Store {
            w: 64,
            src: c.reg,
            mem: addr_of(&c.m),
        }
    }
}

fn check_mem(c: &MemCase) -> Checked {
    let b = encode_mem(c)?;
    let d = x86::decode(&b).map_err(|e| format!("{:?} encodes to {:02x?}: {}", c, b, e))?;
    let want = wanted_mem(c);
    ensure!(
        d.op == want,
        "{:?} encodes to {:02x?}, which is {:?} instead of {:?}",
        c,
        b,
        d.op,
        want
    );
    ensure!(
        d.len == b.len(),
        "{:?} encodes to {:02x?}; {} bytes are left over",
        c,
        b,
        b.len() - d.len
    );
    let (disp, special) = match c.m {
        M::Reg { base, disp } => (disp, base & 7 == 4 || base & 7 == 5),
        M::Rip { disp } => (disp, false),
        M::Sib { base, index, disp, .. } => (
            disp,
            index & 7 == 4 || base.map_or(true, |b| b & 7 == 4 || b & 7 == 5),
        ),
    };
    Ok(Info::new(true)
        .class(special, "rsp/rbp/r12/r13/no-base special case")
        .class(disp as i32 > 127 && disp < 512, "displacement just above the 8-bit range")
        .class((disp as i32) < 0, "negative displacement"))
}

pub fn forms() -> Vec<M> {
    let mut v = vec![];
    for base in 0..16 {
        v.push(M::Reg { base, disp: 0 });
    }
    v.push(M::Rip { disp: 0 });
    for base in std::iter::once(None).chain((0..16).map(Some)) {
        for index in 0..16 {
            for scale in 0..4 {
                v.push(M::Sib {
                    base,
                    index,
                    scale,
                    disp: 0,
                });
            }
        }
    }
    v
}

fn with_disp(m: &M, disp: u32) -> M {
    let mut m = m.clone();
    match &mut m {
        M::Reg { disp: d, .. } | M::Rip { disp: d } | M::Sib { disp: d, .. } => *d = disp,
    }
    m
}

pub fn any_mem() -> BoxedStrategy<MemCase> {
                let disp = edge_u32();
                let m = prop_oneof![
                    3 => (0u8..16, disp.clone()).prop_map(|(base, disp)| M::Reg { base, disp }),
                    1 => disp.clone().prop_map(|disp| M::Rip { disp }),
                    5 => (prop::option::weighted(0.85, 0u8..16), 0u8..16, 0u8..4, disp)
                        .prop_map(|(base, index, scale, disp)| M::Sib { base, index, scale, disp }),
                ];
                (any::<bool>(), 0u8..16, m).prop_map(|(lea, reg, m)| MemCase { lea, reg, m })
        .boxed()
}

fn e02_parts() -> Vec<Box<dyn Part>> {
    vec![
        enumerated(
            "forms-x-registers-x-edges",
            |_, shard, n| {
                let disps: Vec<u32> = [
                    0u32, 1, 2, 42, 126, 127, 128, 129, 255, 256, 257, 0x7fff, 0x8000, 0xffff,
                    0x10000, 0x7fff_ffff, 0x8000_0000, 0xffff_ff7f, 0xffff_ff80, 0xffff_ff81,
                    0xffff_ffff, 0x1234_5678,
                ]
                .into_iter()
                .chain(crate::dict::ints().iter().take(40).map(|v| *v as u32))
                .collect();
                Box::new(
                    forms()
                        .into_iter()
                        .enumerate()
                        .filter(move |(i, _)| i % n == shard)
                        .flat_map(move |(_, m)| {
                            let disps = disps.clone();
                            (0..32u8).flat_map(move |k| {
                                let m = m.clone();
                                disps.clone().into_iter().map(move |d| MemCase {
                                    lea: k & 1 == 1,
                                    reg: k >> 1,
                                    m: with_disp(&m, d),
                                })
                            })
                        }),
                )
            },
            check_mem,
        ),
        enumerated(
            "forms-x-small-displacements",
            |_, shard, n| {
                Box::new(
                    forms()
                        .into_iter()
                        .enumerate()
                        .filter(move |(i, _)| i % n == shard)
                        .flat_map(|(i, m)| {
                            (-700i32..=700).map(move |d| MemCase {
                                lea: (d & 1 == 1) ^ (i & 1 == 1),
                                reg: ((i as i32 * 7 + d) & 15) as u8,
                                m: with_disp(&m, d as u32),
                            })
                        }),
                )
            },
            check_mem,
        ),
        listed(
            "scale-out-of-range",
            |_| {
                let mut v = vec![];
                for scale in 4..=255u8 {
                    for (i, base) in [None, Some(0), Some(13), Some(4)].into_iter().enumerate() {
                        for index in [0u8, 4, 12, 15] {
                            v.push(BadScale {
                                base,
                                index,
                                scale,
                                disp: [0, 8, 0x1000][i % 3],
                                variant: scale & 1 == 1,
                            });
                        }
                    }
                }
                v
            },
            check_scale,
        ),
        random(
            "random-operands",
            (3_000_000, 100_000_000),
            |_| any_mem(),
            check_mem,
        ),
        random(
            "objdump",
            (400, 10_000),
            |_| prop::collection::vec(any_mem(), 1..200),
            |v: &Vec<MemCase>| {
                let codes = v.iter().map(encode_mem).collect::<Result<Vec<_>, _>>()?;
                objdump::compare(&codes, &v.iter().map(wanted_mem).collect::<Vec<_>>())
            },
        ),
        enumerated(
            "all-displacements",
            |tier, shard, n| {
                // quick: every 1021st displacement; thorough: all 2^32
                let step: u64 = if tier == Tier::Thorough { 1 } else { 1021 };
                let picks = [
                    M::Reg { base: 0, disp: 0 },
                    M::Reg { base: 5, disp: 0 },
                    M::Reg { base: 12, disp: 0 },
                    M::Rip { disp: 0 },
                    M::Sib { base: Some(13), index: 12, scale: 2, disp: 0 },
                    M::Sib { base: Some(0), index: 4, scale: 0, disp: 0 },
                    M::Sib { base: None, index: 7, scale: 3, disp: 0 },
                ];
                Box::new(
                    (shard as u64 * step..1 << 32)
                        .step_by(n * step as usize)
                        .flat_map(move |d| {
                            let picks = picks.clone();
                            picks.into_iter().map(move |m| MemCase {
                                lea: d & 2 == 0,
                                reg: (d >> 3 & 15) as u8,
                                m: with_disp(&m, d as u32),
                            })
                        }),
                )
            },
            check_mem,
        ),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BadScale {
    base: Option<u8>,
    index: u8,
    scale: u8,
    disp: u32,
    /// built by the enum variant instead of the constructor
    variant: bool,
}

/// There is no encoding for a scale beyond 2^3.
fn check_scale(c: &BadScale) -> Checked {
    let r = sut(|| {
        let m = if c.variant {
            Mem64::Sib {
                base: c.base.map(r64),
                disp: c.disp,
                index: r64(c.index),
                scale: c.scale,
            }
        } else {
            Mem64::sib(c.base.map(r64), c.disp, r64(c.index), c.scale)
        };
        Lea::new(r64(1), m).bytecode()
    });
    match r {
        Err(_) => Ok(Info::new(true)),
        Ok(b) => Err(format!("scale {} is not refused: {:?} encodes to {:02x?}", c.scale, c, b.as_ref()).into()),
    }
}

// ------------------------------------------------------------------------ E03

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ImmCase {
    w: u8,
    reg: u8,
    a: u64,
    b: u64,
}

fn check_imm(c: &ImmCase) -> Checked {
    let n = (c.w / 8) as usize;
    let (a, b) = (c.a & mask(c.w), c.b & mask(c.w));
    let run = |v: u64| {
        sut(|| {
            if c.w == 64 {
                let m = Mov::new(r64(c.reg), v);
                (m.bytecode(), m.offset_to_imm_bytes())
            } else {
                let m = Mov::new(r32(c.reg), v as u32);
                (m.bytecode(), m.offset_to_imm_bytes())
            }
        })
    };
    let (ea, oa) = run(a).map_err(|p| format!("{:?} panics: {}", c, p))?;
    let (eb, ob) = run(b).map_err(|p| format!("{:?} panics: {}", c, p))?;
    let (ea, eb) = (ea.as_ref(), eb.as_ref());
    let off = oa as usize;
    ensure!(oa == ob, "offset depends on the value: {} and {}", oa, ob);
    ensure!(
        off + n == ea.len(),
        "{:?}: immediate at {} with {} bytes, but the encoding {:02x?} has {}",
        c,
        off,
        n,
        ea,
        ea.len()
    );
    ensure!(
        ea[off..] == a.to_le_bytes()[..n],
        "{:?}: bytes {:02x?} at offset {} of {:02x?} are not the immediate",
        c,
        &ea[off..],
        off,
        ea
    );
    let mut patched = ea.to_vec();
    patched[off..].copy_from_slice(&b.to_le_bytes()[..n]);
    ensure!(
        patched == eb,
        "{:?}: patching {:02x?} gives {:02x?}, not {:02x?}",
        c,
        ea,
        patched,
        eb
    );
    let d = x86::decode(&patched).map_err(|e| format!("{:02x?}: {}", patched, e))?;
    ensure!(
        d.op == Op::MovImm { w: c.w, dst: c.reg, val: b } && d.len == patched.len(),
        "{:?}: the patched bytes {:02x?} are {:?}",
        c,
        patched,
        d.op
    );
    Ok(Info::new(a != b).class(c.reg >= 8, "extended register"))
}

fn e03_parts() -> Vec<Box<dyn Part>> {
    vec![
        listed(
            "registers-x-edges",
            |_| {
                let mut v = vec![];
                let e = edge_list_u32();
                for w in [64u8, 32] {
                    for reg in 0..16 {
                        for (i, x) in e.iter().enumerate() {
                            let y = e[(i * 7 + 3) % e.len()];
                            v.push(ImmCase {
                                w,
                                reg,
                                a: (*x as u64) << (if w == 64 { i % 33 } else { 0 }),
                                b: y as i32 as u64,
                            });
                        }
                    }
                }
                v
            },
            check_imm,
        ),
        random(
            "random-pairs",
            (3_000_000, 60_000_000),
            |_| {
                (
                    prop_oneof![Just(64u8), Just(32)],
                    0u8..16,
                    edge_u64(),
                    edge_u64(),
                )
                    .prop_map(|(w, reg, a, b)| ImmCase {
                        w,
                        reg,
                        a: a & mask(w),
                        b: b & mask(w),
                    })
            },
            check_imm,
        ),
    ]
}

// ------------------------------------------------------------------------ E04

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RegPair {
    w1: u8,
    n1: u8,
    w2: u8,
    n2: u8,
}

fn shown(w: u8, n: u8) -> (String, String) {
    let n = n as usize;
    match w {
        64 => (R64[n].0.to_string(), Reg::Reg64(R64[n].0).to_string()),
        32 => (R32[n].0.to_string(), Reg::Reg32(R32[n].0).to_string()),
        16 => (R16[n].0.to_string(), Reg::Reg16(R16[n].0).to_string()),
        _ => (R8[n].0.to_string(), Reg::Reg8(R8[n].0).to_string()),
    }
}

fn code(w: u8, n: u8) -> Option<(u8, bool)> {
    let n = n as usize;
    match w {
        64 => Some((R64[n].0.register_code(), R64[n].0.is_extended())),
        32 => Some((R32[n].0.register_code(), R32[n].0.is_extended())),
        16 => Some((R16[n].0.register_code(), R16[n].0.is_extended())),
        _ => None,
    }
}

fn check_regs(p: &RegPair) -> Checked {
    let run = || -> Checked {
        for (w, n) in [(p.w1, p.n1), (p.w2, p.n2)] {
            let (a, b) = shown(w, n);
            let want = reg_name(w, n);
            ensure!(a == want, "the {}-bit register {} prints as {:?}", w, want, a);
            ensure!(b == want, "{} prints as {:?} through the width-generic type", want, b);
            if let Some((c, e)) = code(w, n) {
                ensure!(
                    c == n & 7 && e == (n >= 8),
                    "{} has number {} extended {}, expected {} {}",
                    want,
                    c,
                    e,
                    n & 7,
                    n >= 8
                );
            }
            match w {
                64 => {
                    let r = R64[n as usize].0;
                    ensure!(
                        r.rex_r_bit() == (n >= 8) && r.rex_b_bit() == (n >= 8),
                        "{}: REX extension bits are wrong",
                        want
                    );
                    ensure!(
                        r.reg_bits() == n & 7 && r.rm_bits() == n & 7 && r.mode_bits() == 3,
                        "{}: ModRM bits are wrong",
                        want
                    );
                }
                32 => {
                    let wide = R32[n as usize].0.to_reg64();
                    ensure!(
                        wide == R64[n as usize].0,
                        "{} widens to {}",
                        want,
                        wide
                    );
                }
                16 => {
                    let wide = R16[n as usize].0.to_reg32();
                    ensure!(wide == R32[n as usize].0, "{} widens to {}", want, wide);
                    ensure!(
                        wide.to_reg64() == R64[n as usize].0,
                        "{} widens twice to {}",
                        want,
                        wide.to_reg64()
                    );
                }
                _ => {}
            }
        }
        let same = p.w1 == p.w2 && p.n1 == p.n2;
        ensure!(
            (shown(p.w1, p.n1).0 == shown(p.w2, p.n2).0) == same,
            "different registers share the name {}",
            shown(p.w1, p.n1).0
        );
        if p.w1 == p.w2 && p.w1 != 8 {
            ensure!(
                (code(p.w1, p.n1) == code(p.w2, p.n2)) == same,
                "{} and {} share number {:?}",
                reg_name(p.w1, p.n1),
                reg_name(p.w2, p.n2),
                code(p.w1, p.n1)
            );
        }
        Ok(Info::new(!same))
    };
    match sut(run) {
        Ok(r) => r,
        Err(e) => Err(Fail::Violation(format!("{:?} panics: {}", p, e))),
    }
}

fn e04_parts() -> Vec<Box<dyn Part>> {
    vec![listed(
        "all-register-pairs",
        |_| {
            let ws = [64u8, 32, 16, 8];
            let mut v = vec![];
            for w1 in ws {
                for n1 in 0..16 {
                    for w2 in ws {
                        for n2 in 0..16 {
                            v.push(RegPair { w1, n1, w2, n2 });
                        }
                    }
                }
            }
            v
        },
        check_regs,
    )]
}

// ------------------------------------------------------------------------ E05

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Make {
    Len(u8),
    Array(Vec<u8>),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BufCase {
    cap: u8,
    a: Make,
    b: Make,
    /// (which buffer, position, byte); positions are taken modulo the length
    writes: Vec<(bool, u8, u8)>,
}

fn content(m: &Make) -> Vec<u8> {
    match m {
        Make::Len(n) => vec![0; *n as usize],
        Make::Array(v) => v.clone(),
        Make::U8(v) => v.to_le_bytes().to_vec(),
        Make::U16(v) => v.to_le_bytes().to_vec(),
        Make::U32(v) => v.to_le_bytes().to_vec(),
        Make::U64(v) => v.to_le_bytes().to_vec(),
    }
}

fn build<const CAP: usize>(m: &Make) -> Result<BytesAtMost<CAP>, String> {
    macro_rules! arr {
        ($v:expr; $($n:literal)*) => {
            match $v.len() {
                $($n => {
                    let mut a = [0u8; $n];
                    a.copy_from_slice(&$v);
                    sut(move || BytesAtMost::<CAP>::from(a))
                })*
                _ => unreachable!(),
            }
        };
    }
    match m {
        Make::Len(n) => {
            let n = *n as usize;
            sut(move || BytesAtMost::<CAP>::with_len(n))
        }
        Make::Array(v) => arr!(v; 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18),
        Make::U8(v) => sut(|| BytesAtMost::<CAP>::from(*v)),
        Make::U16(v) => sut(|| BytesAtMost::<CAP>::from(*v)),
        Make::U32(v) => sut(|| BytesAtMost::<CAP>::from(*v)),
        Make::U64(v) => sut(|| BytesAtMost::<CAP>::from(*v)),
    }
}

fn buf_case<const CAP: usize>(c: &BufCase) -> Checked {
    let mut made: Vec<(BytesAtMost<CAP>, Vec<u8>)> = vec![];
    let mut refused = false;
    for m in [&c.a, &c.b] {
        let want = content(m);
        match (build::<CAP>(m), want.len() <= CAP) {
            (Ok(b), true) => made.push((b, want)),
            (Err(_), false) => refused = true,
            (Ok(b), false) => {
                return Err(format!(
                    "{:?} in a buffer of capacity {} is not refused; it holds {:02x?}",
                    m,
                    CAP,
                    b.as_ref()
                )
                .into())
            }
            (Err(e), true) => {
                return Err(format!("{:?} in a buffer of capacity {}: {}", m, CAP, e).into())
            }
        }
    }
    let test = |made: &[(BytesAtMost<CAP>, Vec<u8>)]| -> Result<(), Fail> {
        for (b, want) in made {
            ensure!(
                b.as_ref() == &want[..],
                "buffer holds {:02x?} instead of {:02x?}",
                b.as_ref(),
                want
            );
            ensure!(
                b.len() == want.len() && b.is_empty() == want.is_empty(),
                "buffer of {} bytes reports length {} and is_empty {}",
                want.len(),
                b.len(),
                b.is_empty()
            );
            let copy = *b;
            ensure!(copy == *b, "a copy differs from the original");
        }
        if let [(a, wa), (b, wb)] = made {
            ensure!(
                (a == b) == (wa == wb) && (b == a) == (wa == wb),
                "equality of {:02x?} and {:02x?} is wrong",
                wa,
                wb
            );
        }
        Ok(())
    };
    test(&made)?;
    let mut written = 0;
    for (second, pos, byte) in &c.writes {
        let Some((b, want)) = made.get_mut(*second as usize) else {
            continue;
        };
        if want.is_empty() {
            continue;
        }
        let pos = *pos as usize % want.len();
        let slice = b.as_mut();
        ensure!(
            slice.len() == want.len(),
            "writable view has {} bytes instead of {}",
            slice.len(),
            want.len()
        );
        slice[pos] = *byte;
        want[pos] = *byte;
        written += 1;
        test(&made)?;
    }
    let longest = content(&c.a).len().max(content(&c.b).len());
    Ok(Info::new(longest > 0)
        .class(refused, "oversize refused")
        .class(written > 0, "written through")
        .class(longest == CAP, "exactly full")
        .class(made.len() == 2 && made[0].1 == made[1].1, "equal pair"))
}

fn check_buf(c: &BufCase) -> Checked {
    macro_rules! go {
        ($($m:literal)*) => { match c.cap { $($m => buf_case::<$m>(c),)* _ => Ok(Info::new(false)) } };
    }
    go!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15)
}

fn any_make() -> BoxedStrategy<Make> {
    prop_oneof![
        2 => (0u8..19).prop_map(Make::Len),
        4 => prop::collection::vec(any::<u8>(), 0..19).prop_map(Make::Array),
        2 => prop::collection::vec(0u8..2, 0..4).prop_map(Make::Array),
        1 => any::<u8>().prop_map(Make::U8),
        1 => edge_u16().prop_map(Make::U16),
        1 => edge_u32().prop_map(Make::U32),
        1 => edge_u64().prop_map(Make::U64),
    ]
    .boxed()
}

fn e05_parts() -> Vec<Box<dyn Part>> {
    // An integer or array longer than the capacity is refused at capacities below
    // its width; conversions of short integers into wider buffers always work.
    vec![
        listed(
            "capacities-x-lengths",
            |_| {
                let mut v = vec![];
                for cap in 0..=15u8 {
                    let mut makes: Vec<Make> = (0..19).map(Make::Len).collect();
                    makes.extend((0..19u8).map(|n| Make::Array((1..=n).collect())));
                    makes.extend([
                        Make::U8(0xA5),
                        Make::U16(0x1234),
                        Make::U32(0x12345678),
                        Make::U64(0x1122334455667788),
                    ]);
                    for a in &makes {
                        for b in &makes {
                            v.push(BufCase {
                                cap,
                                a: a.clone(),
                                b: b.clone(),
                                writes: vec![(false, 0, 7), (true, 255, 9)],
                            });
                        }
                    }
                }
                v
            },
            check_buf,
        ),
        random(
            "histories",
            (1_000_000, 30_000_000),
            |_| {
                let pair = prop_oneof![
                    3 => (any_make(), any_make()),
                    1 => any_make().prop_map(|m| (m.clone(), m)),
                    1 => any_make().prop_map(|m| (Make::Array(content(&m)), m)),
                ];
                (
                    0u8..=15,
                    pair,
                    prop::collection::vec((any::<bool>(), any::<u8>(), any::<u8>()), 0..20),
                )
                    .prop_map(|(cap, (a, b), writes)| BufCase { cap, a, b, writes })
            },
            check_buf,
        ),
    ]
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "E01",
            level: "exploration",
            rule: "Instructions are drawn over all registers, widths and immediates (register forms, imm8 and imm16 enumerated completely; wider immediates random around every power of two), alone and in sequences. Oracle: an independent decoder must return exactly that operation and consume every byte. A single instruction is always non-trivial; a sequence is when it has two or more instructions of two or more kinds.",
            assumptions: &["the decoder in x86.rs implements the manual's encodings (the objdump part compares with another decoder)"],
            parts: e01_parts,
        },
        Property {
            id: "E02",
            level: "exploration",
            rule: "Memory operands: every form (base, rip, base+index*scale, no base) x every register operand x store/lea x boundary displacements, every form x all displacements in -700..700, random operands, a sweep of the 32-bit displacement range (all of it in the thorough tier), and scales beyond 3, which must be refused. Oracle: independent decoder, effective address compared as a sum over registers. Every case is non-trivial.",
            assumptions: &["the decoder in x86.rs implements the manual's encodings (the objdump part compares with another decoder)"],
            parts: e02_parts,
        },
        Property {
            id: "E03",
            level: "exploration",
            rule: "Pairs of immediates for every 32/64-bit register; the encoding of one is patched at the reported offset with the other and must equal, and decode as, the other's encoding. Non-trivial when the two values differ.",
            assumptions: &[],
            parts: e03_parts,
        },
        Property {
            id: "E04",
            level: "exploration",
            rule: "All ordered pairs of the 64 registers (complete enumeration): names, widening, numbers, distinctness. Non-trivial when the two differ.",
            assumptions: &["8-bit registers only have names in the API"],
            parts: e04_parts,
        },
        Property {
            id: "E05",
            level: "exploration",
            rule: "Pairs of buffers of every capacity 0..15 built from lengths, arrays and integers (all combinations enumerated, and random ones), followed by byte writes; model: a byte vector. Non-trivial when at least one holds a byte.",
            assumptions: &[],
            parts: e05_parts,
        },
    ]
}
