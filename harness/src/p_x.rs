//! E06 and A14: what was encoded or assembled is run on the processor.
use crate::{
    engine::*,
    ensure,
    exec::{self, State, RSP},
    gen::edge_u64,
    mo::File,
    p_a::{self, Case},
    p_e::{self, Ins, MemCase, M},
    p_o,
    prog::{self, Profile, Sec, Src, Stmt},
    sut::{self, Scratch},
    x86,
};
use proptest::collection::vec as pvec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::process::Command;

// ------------------------------------------------------------ a model of it

/// Memory for pushes, pops and returns.
struct Stack {
    start: u64,
    bytes: Vec<u8>,
}

const STACK: u64 = 0x3210_0000_0000;

impl Stack {
    fn new(fill: u64) -> Stack {
        let mut x = fill | 1;
        let mut bytes: Vec<u8> = (0..4096)
            .map(|_| {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                (x >> 56) as u8
            })
            .collect();
        for address in bytes[4096 - 64..].chunks_mut(8) {
            address[5] &= 0x7f;
            address[6..].fill(0);
        }
        Stack { start: STACK, bytes }
    }
    fn part(&self) -> (u64, Vec<u8>) {
        (self.start, self.bytes.clone())
    }
    /// The stack pointer is brought back when it has left the stack, or come near its end.
    fn reach(&self, s: &mut State) {
        let o = s.regs[RSP].wrapping_sub(self.start);
        if !(64..self.bytes.len() as u64 - 64).contains(&o) {
            s.regs[RSP] = self.start + 2048 + s.regs[RSP] % 512;
        }
    }
    /// Before a return: its address is one the processor accepts.
    fn returns(&self, s: &mut State) {
        let mut there = s.clone();
        if self.pop(&mut there, 8) >> 47 != 0 {
            // the last of the stack, never pushed to
            s.regs[RSP] = self.start + self.bytes.len() as u64 - 64 + s.regs[RSP] % 7 * 8;
        }
    }
    fn push(&mut self, s: &mut State, v: u64, n: u64) -> Vec<(u64, Vec<u8>)> {
        s.regs[RSP] -= n;
        let b = v.to_le_bytes()[..n as usize].to_vec();
        let o = (s.regs[RSP] - self.start) as usize;
        self.bytes[o..o + n as usize].copy_from_slice(&b);
        vec![(s.regs[RSP], b)]
    }
    fn pop(&self, s: &mut State, n: u64) -> u64 {
        let o = (s.regs[RSP] - self.start) as usize;
        let mut b = [0; 8];
        b[..n as usize].copy_from_slice(&self.bytes[o..o + n as usize]);
        s.regs[RSP] += n;
        u64::from_le_bytes(b)
    }
}

/// A register as the processor writes the w low bits of it.
fn set(s: &mut State, w: u8, r: u8, v: u64) {
    let r = &mut s.regs[r as usize];
    *r = match w {
        64 => v,
        32 => v & 0xffff_ffff,
        _ => *r & !0xffff | v & 0xffff,
    };
}

fn differ(want: &State, got: &State) -> Option<String> {
    if want.rip != got.rip {
        return Some(format!("execution goes on at {:#x} instead of {:#x}", got.rip, want.rip));
    }
    (0..16).find(|r| want.regs[*r] != got.regs[*r]).map(|r| {
        format!("{} is {:#x} instead of {:#x}", prog::R64[r], got.regs[r], want.regs[r])
    })
}

/// What neither the registers nor the place tell.
fn side_effects(r: &exec::Stepped, syscall: Option<u64>) -> Result<(), String> {
    if let Some(n) = r.signal {
        return Err(format!("the processor does not carry it out (signal {})", n));
    }
    match (r.syscall, syscall) {
        (None, Some(_)) => return Err("it does not call the kernel".into()),
        (Some(_), None) => return Err("it calls the kernel".into()),
        (Some(a), Some(b)) if a != b => return Err(format!("it calls kernel function {:#x} instead of {:#x}", a, b)),
        _ => {}
    }
    if let Some((at, got, want)) = &r.memory {
        return Err(format!("memory at {:#x} holds {:02x?} instead of {:02x?}", at, got, want));
    }
    if r.flags != 0 {
        return Err(format!("it changes flags {:#x}", r.flags));
    }
    Ok(())
}

fn regs() -> BoxedStrategy<Vec<u64>> {
    pvec(prop_oneof![1 => edge_u64(), 2 => any::<u64>()], 16).boxed()
}

// ------------------------------------------------------------------------ E06

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Run {
    ins: Vec<Ins>,
    regs: Vec<u64>,
    at: u64,
}

/// A place to put code or data.
fn place(v: u64) -> u64 {
    0x1_0000_0000 + v % 0x2000_0000_0000
}

fn e06_registers(c: &Run) -> Checked {
    let codes = c.ins.iter().map(p_e::encode).collect::<Result<Vec<_>, _>>()?;
    let mut stack = Stack::new(c.at);
    let start = place(c.at);
    exec::memory(vec![stack.part(), (start, codes.concat())])?;
    let mut s = State {
        rip: start,
        regs: c.regs.clone().try_into().unwrap(),
    };
    let mut at = start;
    for (i, code) in c.ins.iter().zip(&codes) {
        let end = at + code.len() as u64;
        s.rip = at;
        if matches!(i, Ins::PushReg { .. } | Ins::PopReg { .. } | Ins::PushImm { .. } | Ins::Ret) {
            stack.reach(&mut s);
        }
        if matches!(i, Ins::Ret) {
            stack.returns(&mut s);
        }
        let before = s.clone();
        let mut call = None;
        let mut writes = vec![];
        s.rip = end;
        match *i {
            Ins::MovRR { w, d, s: src } => {
                let v = s.regs[src as usize];
                set(&mut s, w, d, v)
            }
            Ins::MovImm { w, d, v } => set(&mut s, w, d, v),
            Ins::PushReg { w, r } => {
                let v = s.regs[r as usize];
                writes = stack.push(&mut s, v, w as u64 / 8)
            }
            Ins::PopReg { w, r } => {
                let v = stack.pop(&mut s, w as u64 / 8);
                set(&mut s, w, r, v)
            }
            Ins::PushImm { w: 8, v } => writes = stack.push(&mut s, v as u8 as i8 as u64, 8),
            Ins::PushImm { w: 16, v } => writes = stack.push(&mut s, v as u64, 2),
            Ins::PushImm { v, .. } => writes = stack.push(&mut s, v as i32 as u64, 8),
            Ins::Ret => s.rip = stack.pop(&mut s, 8),
            Ins::Syscall => call = Some(s.regs[0]),
        }
        let r = exec::step(&before, writes)?;
        let mut got = r.state.clone();
        if call.is_some() {
            // the kernel's own: the result, and where to return to
            for n in [0, 1, 11] {
                got.regs[n] = s.regs[n];
            }
        }
        if let Err(m) = side_effects(&r, call).and(differ(&s, &got).map_or(Ok(()), Err)) {
            return Err(Fail::Violation(format!("{:?}, encoded as {:02x?}, run at {:#x}: {}", i, code, at, m)));
        }
        at = end;
    }
    Ok(Info::new(!c.ins.is_empty())
        .class(c.ins.iter().any(|i| matches!(i, Ins::PushReg { .. } | Ins::PopReg { .. } | Ins::PushImm { .. } | Ins::Ret)), "stack")
        .class(c.ins.iter().any(|i| matches!(i, Ins::Syscall)), "system call"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Access {
    c: MemCase,
    regs: Vec<u64>,
    code: u64,
    data: u64,
}

fn e06_memory(a: &Access) -> Checked {
    let code = p_e::encode_mem(&a.c)?;
    let at = place(a.code);
    let end = at + code.len() as u64;
    let mut s = State {
        rip: at,
        regs: a.regs.clone().try_into().unwrap(),
    };
    // the registers of the operand, with what each is multiplied by
    let (mut terms, disp): (Vec<(u8, u64)>, u32) = match a.c.m {
        M::Reg { base, disp } => (vec![(base, 1)], disp),
        M::Rip { disp } => (vec![], disp),
        M::Sib { base, index, scale, disp } => {
            let mut t: Vec<(u8, u64)> = base.map(|b| (b, 1)).into_iter().collect();
            if index != 4 {
                t.push((index, 1 << scale));
            }
            (t, disp)
        }
    };
    if terms.len() == 2 && terms[0].0 == terms[1].0 {
        terms = vec![(terms[0].0, 1 + terms[1].1)];
    }
    let disp = disp as i32 as i64 as u64;
    let fixed = disp.wrapping_add(if matches!(a.c.m, M::Rip { .. }) { end } else { 0 });
    if !a.c.lea {
        // the address is to be in memory: the first register makes up the rest
        if let Some((r, k)) = terms.first().copied() {
            let others = terms[1..].iter().fold(fixed, |v, (r, k)| v.wrapping_add(k.wrapping_mul(s.regs[*r as usize])));
            let mut v = place(a.data).wrapping_sub(others);
            // a multiple of k
            if k > 1 {
                v = place(a.data).wrapping_sub(fixed);
                v -= v % k;
            }
            s.regs[r as usize] = v / k;
        }
    }
    let address = terms.iter().fold(fixed, |v, (r, k)| v.wrapping_add(k.wrapping_mul(s.regs[*r as usize])));
    let before = s.clone();
    s.rip = end;
    let mapped = (0x10_0000..0x4000_0000_0000u64).contains(&address);
    let mut parts = vec![];
    let mut writes = vec![];
    if a.c.lea {
        set(&mut s, 64, a.c.reg, address);
    } else if mapped {
        parts.push((address - 8, a.data.to_be_bytes().repeat(3)));
        writes.push((address, s.regs[a.c.reg as usize].to_le_bytes().to_vec()));
    }
    parts.push((at, code.clone()));
    exec::memory(parts)?;
    let r = exec::step(&before, writes)?;
    let checked = if a.c.lea || mapped {
        side_effects(&r, None).and(differ(&s, &r.state).map_or(Ok(()), Err))
    } else if r.signal.is_none() {
        Err(format!("it does not fail, although nothing is at {:#x}", address))
    } else {
        Ok(())
    };
    if let Err(m) = checked {
        return Err(Fail::Violation(format!(
            "{:?} (address {:#x}), encoded as {:02x?}, run at {:#x}: {}",
            a.c, address, code, at, m
        )));
    }
    Ok(Info::new(a.c.lea || mapped)
        .class(!a.c.lea && mapped, "stored")
        .class(terms.len() == 2, "two registers")
        .class(terms.is_empty(), "no register"))
}

fn run(max: usize) -> BoxedStrategy<Run> {
    (pvec(p_e::any_ins(), 1..max), regs(), any::<u64>()).prop_map(|(ins, regs, at)| Run { ins, regs, at }).boxed()
}

fn access() -> BoxedStrategy<Access> {
    (p_e::any_mem(), regs(), any::<u64>(), any::<u64>()).prop_map(|(c, regs, code, data)| Access { c, regs, code, data }).boxed()
}

/// Registers filled with distinct values.
fn some_regs(k: u64) -> Vec<u64> {
    (0..16u64).map(|i| (i + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ k.wrapping_mul(0x0101_0101_0101_0101)).collect()
}

fn each_form(_: Tier) -> Vec<Run> {
    let mut v = vec![];
    for w in [64u8, 32, 16] {
        for d in 0..16 {
            let mut ins: Vec<Ins> = (0..16).map(|s| Ins::MovRR { w, d, s }).collect();
            for k in 0..w {
                let one = 1u64 << k;
                ins.extend([one, one - 1, one.wrapping_neg() << (64 - w) >> (64 - w)].map(|x| Ins::MovImm { w, d, v: x }));
            }
            v.push(ins);
        }
    }
    for w in [64u8, 16] {
        for r in 0..16 {
            v.push(vec![Ins::PushReg { w, r }, Ins::PopReg { w, r: 15 - r }, Ins::PopReg { w, r }, Ins::PushReg { w, r }]);
        }
    }
    v.push((0..256).map(|v| Ins::PushImm { w: 8, v }).collect());
    v.push((0..16).flat_map(|k| [1 << k, (1 << k) - 1, 0xffff - (1 << k)]).map(|v| Ins::PushImm { w: 16, v }).collect());
    v.push((0..32).flat_map(|k| [1 << k, (1u32 << k) - 1, !(1u32 << k)]).map(|v| Ins::PushImm { w: 32, v }).collect());
    v.push(vec![Ins::Ret, Ins::Syscall, Ins::Syscall, Ins::Ret]);
    v.into_iter()
        .enumerate()
        .map(|(i, ins)| Run {
            ins,
            regs: some_regs(i as u64),
            at: i as u64 * 0x1234_5678_9a,
        })
        .collect()
}

fn each_operand(_: Tier) -> Vec<Access> {
    let disps = [0u32, 1, 0x7f, 0x80, 0xffff_ff80, 0xffff_ff7f, 0x1234_5678, 0x8765_4321];
    let mut v = vec![];
    for m in p_e::forms() {
        for (k, disp) in disps.into_iter().enumerate() {
            let m = match m.clone() {
                M::Reg { base, .. } => M::Reg { base, disp },
                M::Rip { .. } => M::Rip { disp },
                M::Sib { base, index, scale, .. } => M::Sib { base, index, scale, disp },
            };
            let n = v.len() as u64;
            let reg = (n % 16) as u8;
            for lea in [false, true] {
                let c = MemCase { lea, reg, m: m.clone() };
                v.push(Access {
                    c,
                    regs: some_regs(n + k as u64),
                    code: n.wrapping_mul(0xdead_beef_cafe),
                    data: n.wrapping_mul(0xfeed_f00d_1234_5678),
                });
            }
        }
    }
    v
}

// ------------------------------------------------------------------------ A14

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Executed {
    case: Case,
    regs: Vec<u64>,
    bases: [u64; 3],
}

const RUNNABLE: Profile = Profile {
    max_stmts: 30,
    ..prog::GENERAL
};

fn executed(p: BoxedStrategy<prog::Prog>) -> BoxedStrategy<Executed> {
    (p_a::case_of(p), regs(), any::<[u64; 3]>()).prop_map(|(case, regs, bases)| Executed { case, regs, bases }).boxed()
}

/// Sections far enough from each other; below 2 GiB where a 32-bit operand names them.
fn spread(p: &prog::Prog, raw: [u64; 3]) -> [u64; 3] {
    let mut b = [0; 3];
    for (i, r) in raw.iter().enumerate() {
        b[i] = if prog::has_ref32(p) {
            0x1000_0000 + i as u64 * 0x2000_0000 + r % 0x1000_0000
        } else {
            0x1_0000_0000 + i as u64 * 0x1000_0000_0000 + r % 0x0f00_0000_0000
        };
    }
    b
}

/// The program's statements one by one, in each section, on the processor. Where an
/// instruction ends is what the processor says.
fn execute(p: &prog::Prog, memory: &[Vec<u8>; 3], bases: [u64; 3], regs: &[u64]) -> Result<usize, Fail> {
    let mut stack = Stack::new(regs[0]);
    let mut parts = vec![stack.part()];
    for (b, m) in bases.iter().zip(memory) {
        if !m.is_empty() {
            parts.push((*b, m.clone()));
        }
    }
    exec::memory(parts)?;
    let mut s = State {
        rip: 0,
        regs: regs.try_into().unwrap(),
    };
    let mut cur = Sec::Text;
    let mut at = bases;
    let mut labels: HashMap<&str, u64> = HashMap::new();
    // statement, label, the register and how much of it, what was found in it
    let mut operands: Vec<(usize, &str, u64)> = vec![];
    let mut executed = 0;
    for (k, stmt) in p.stmts.iter().enumerate() {
        if let Some(l) = stmt.defines() {
            labels.insert(l, at[cur.idx()]);
        }
        let i = cur.idx();
        let end = bases[i] + memory[i].len() as u64;
        let wrong = |m: String| {
            Err(Fail::Violation(format!("statement {} `{}` in {}: {}", k, prog::clip(&prog::render_stmt(stmt, None)), cur.source(), m)))
        };
        match stmt {
            Stmt::Section(s) => {
                cur = *s;
                continue;
            }
            Stmt::Global(_) | Stmt::Label(_) => continue,
            Stmt::Data { unit, items, .. } => {
                let want = prog::data_bytes(*unit, items);
                let o = (at[i] - bases[i]) as usize;
                if memory[i].get(o..o + want.len()) != Some(want.as_slice()) {
                    return wrong("its bytes are not in memory".into());
                }
                at[i] += want.len() as u64;
                continue;
            }
            _ => {}
        }
        executed += 1;
        if at[i] >= end {
            return wrong("nothing is there".into());
        }
        s.rip = at[i];
        if matches!(stmt, Stmt::PushReg(_) | Stmt::PushImm(_) | Stmt::Ret) {
            stack.reach(&mut s);
        }
        if matches!(stmt, Stmt::Ret) {
            stack.returns(&mut s);
        }
        let before = s.clone();
        let mut call = None;
        let mut writes = vec![];
        let mut operand = None;
        match stmt {
            Stmt::Mov { w, dst, src: Src::Reg(r) } => {
                let v = s.regs[*r as usize];
                set(&mut s, *w, *dst, v)
            }
            Stmt::Mov { w, dst, src: Src::Expr(x) } => set(&mut s, *w, *dst, x.value()),
            Stmt::Mov { dst, src: Src::Label(l), .. } => operand = Some((*dst, l.as_str())),
            Stmt::PushReg(r) => {
                let v = s.regs[*r as usize];
                writes = stack.push(&mut s, v, 8)
            }
            Stmt::PushImm(v) => writes = stack.push(&mut s, *v as i32 as u64, 8),
            Stmt::Ret => s.rip = stack.pop(&mut s, 8),
            Stmt::Syscall => call = Some(s.regs[0]),
            _ => unreachable!(),
        }
        let r = exec::step(&before, writes)?;
        let got = &r.state;
        if call.is_some() {
            for n in [0, 1, 11] {
                s.regs[n] = got.regs[n];
            }
        }
        if let Some((dst, l)) = operand {
            // compared when the place of the label is known
            s.regs[dst as usize] = got.regs[dst as usize];
            operands.push((k, l, got.regs[dst as usize]));
        }
        let len = if matches!(stmt, Stmt::Ret) {
            let o = (at[i] - bases[i]) as usize;
            x86::decode(&memory[i][o..]).map_or(1, |d| d.len as u64)
        } else {
            s.rip = got.rip;
            if !(1..=15).contains(&got.rip.wrapping_sub(at[i])) && r.signal.is_none() {
                return wrong(format!("execution goes on at {:#x}", got.rip));
            }
            got.rip.wrapping_sub(at[i])
        };
        if let Err(m) = side_effects(&r, call).and(differ(&s, got).map_or(Ok(()), Err)) {
            return wrong(m);
        }
        at[i] += len;
    }
    for i in 0..3 {
        ensure!(
            at[i] == bases[i] + memory[i].len() as u64,
            "{} has {} bytes, its statements take {}",
            Sec::ALL[i].source(),
            memory[i].len(),
            at[i] - bases[i]
        );
    }
    for (k, l, v) in operands {
        ensure!(
            Some(&v) == labels.get(l),
            "statement {}: label `{}` is {:#x} for it, and its place is {:x?}",
            k,
            prog::clip(l),
            v,
            labels.get(l)
        );
    }
    Ok(executed)
}

fn info(p: &prog::Prog, n: usize) -> Info {
    let has = |f: &dyn Fn(&Stmt) -> bool| p.stmts.iter().any(f);
    Info::new(n > 0)
        .class(has(&|s| matches!(s, Stmt::Mov { src: Src::Label(_), .. })), "label operand")
        .class(prog::has_ref32(p), "32-bit label operand")
        .class(has(&|s| matches!(s, Stmt::PushImm(_) | Stmt::PushReg(_) | Stmt::Ret)), "stack")
        .class(has(&|s| matches!(s, Stmt::Syscall)), "system call")
        .class(n > 20, "over 20 instructions")
}

/// Linked by the harness, at any addresses.
fn a14(c: &Executed) -> Checked {
    let p = &c.case.prog;
    let b = sut::assemble_in_parts(&p.render(&c.case.style).0)?;
    let f = File::parse(&b)?;
    let mut bytes: [Vec<u8>; 3] = Default::default();
    let (mut no, mut addr) = ([None; 3], [0; 3]);
    for s in Sec::ALL {
        let (seg, sect) = s.macho();
        if let Some((n, h)) = f.find(seg, sect) {
            no[s.idx()] = Some(n + 1);
            addr[s.idx()] = h.addr;
            if !h.zerofill() {
                bytes[s.idx()] = f.content(h)?.to_vec();
            }
        }
    }
    let bases = spread(p, c.bases);
    let memory = prog::link(&f, &bytes, no, addr, bases)?;
    Ok(info(p, execute(p, &memory, bases, &c.regs)?))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Linked {
    case: p_o::LinkCase,
    regs: Vec<u64>,
}

/// Linked by ld64.lld, loaded where the image says.
fn a14_linked(c: &Linked) -> Checked {
    let p = &c.case.prog;
    let b = sut::assemble_in_parts(&p.canonical())?;
    let io = |e: std::io::Error| Fail::Machinery(e.to_string());
    let dir = Scratch::new()?;
    std::fs::write(dir.path("in.o"), &b).map_err(io)?;
    let ld = p_o::need(&["ld64.lld-18", "ld64.lld"])?;
    let mut cmd = Command::new(ld);
    cmd.current_dir(&dir.0).args(["-arch", "x86_64", "-platform_version", "macos", "10.14", "10.14", "-e", "_main"]);
    if prog::has_ref32(p) {
        cmd.args(["-no_pie", "-pagezero_size", "0x1000000"]);
    }
    let r = sut::run(cmd.args(["-o", "out", "in.o"]))?;
    ensure!(r.ok(), "the linker does not accept the object: {}", r.stderr.trim());
    let image = std::fs::read(dir.path("out")).map_err(io)?;
    let img = File::parse(&image).map_err(|e| Fail::Machinery(format!("linked image: {}", e)))?;
    let mut bases = [0x7000_0000, 0x7100_0000, 0x7200_0000];
    let mut memory: [Vec<u8>; 3] = Default::default();
    for s in Sec::ALL {
        let (seg, sect) = s.macho();
        if let Some((_, h)) = img.find(seg, sect) {
            bases[s.idx()] = h.addr;
            if !h.zerofill() {
                memory[s.idx()] = img.content(h)?.to_vec();
            }
        }
    }
    Ok(info(p, execute(p, &memory, bases, &c.regs)?))
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "E06",
            level: "exploration",
            rule: "A case is a sequence of encoded register, stack and control instructions, or one store or lea, with the registers before it. It is carried out on this machine's processor one instruction at a time (ptrace, system calls suppressed); registers, flags, memory, the place of the next instruction and the system call about to be made are compared with the documented effect. Non-trivial: the instruction can be carried out (a store has an address that can be mapped).",
            assumptions: &["The processor is right."],
            parts: || {
                vec![
                    listed("each-form", each_form, e06_registers),
                    listed("each-operand", each_operand, e06_memory),
                    random("sequences", (10_000, 300_000), |_| run(40), e06_registers),
                    random("operands", (60_000, 2_000_000), |_| access(), e06_memory),
                ]
            },
        },
        Property {
            id: "A14",
            level: "exploration",
            rule: "A case is a program, assembled by at-asm, placed in memory (by the harness anywhere, or by ld64.lld) and carried out on this machine's processor statement by statement: registers, flags, memory and system calls are compared with what the line says, label operands with the place their label turned out to be at. Nothing decodes the instructions. Non-trivial: the program has an instruction.",
            assumptions: &["The processor is right.", "ld64.lld 18 is right (part linked)."],
            parts: || {
                vec![
                    random("placed", (20_000, 600_000), |_| executed(prog::program(RUNNABLE)), a14),
                    random("long", (60, 1_500), |_| executed(prog::big_program(RUNNABLE, 200, 1500)), a14),
                    random("linked", (2_000, 40_000), |_| (p_o::link_case(), regs()).prop_map(|(case, regs)| Linked { case, regs }).boxed(), a14_linked),
                ]
            },
        },
    ]
}
