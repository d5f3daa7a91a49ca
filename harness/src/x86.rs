//! An x86-64 decoder for the instructions this repository emits, written from the
//! architecture manuals (not from the encoder). It accepts every standard encoding
//! of those operations, not only the one the encoder happens to choose.

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Addr {
    /// multiplier of each general register 0..=15
    pub regs: [u8; 16],
    /// relative to the end of the instruction
    pub rip: bool,
    pub disp: i64,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    MovRR { w: u8, dst: u8, src: u8 },
    /// `val` has exactly `w` significant bits
    MovImm { w: u8, dst: u8, val: u64 },
    Store { w: u8, mem: Addr, src: u8 },
    Load { w: u8, dst: u8, mem: Addr },
    Lea { w: u8, dst: u8, mem: Addr },
    /// number of bytes pushed and the (sign-extended) 64-bit value
    PushImm { bytes: u8, val: u64 },
    PushReg { bytes: u8, reg: u8 },
    PopReg { bytes: u8, reg: u8 },
    Ret,
    Syscall,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Insn {
    pub op: Op,
    pub len: usize,
    /// (offset, length) of the immediate field
    pub imm: Option<(usize, usize)>,
}

struct Cur<'a> {
    b: &'a [u8],
    i: usize,
}

impl<'a> Cur<'a> {
    fn u8(&mut self) -> Result<u8, String> {
        let v = *self.b.get(self.i).ok_or("instruction is cut short")?;
        self.i += 1;
        Ok(v)
    }
    fn le(&mut self, n: usize) -> Result<u64, String> {
        let mut v = 0u64;
        for k in 0..n {
            v |= (self.u8()? as u64) << (8 * k);
        }
        Ok(v)
    }
}

fn sext(v: u64, bits: u32) -> i64 {
    ((v << (64 - bits)) as i64) >> (64 - bits)
}

enum Rm {
    Reg(u8),
    Mem(Addr),
}

fn modrm(c: &mut Cur, rex: u8) -> Result<(u8, Rm), String> {
    let m = c.u8()?;
    let (md, reg, rm) = (m >> 6, (m >> 3) & 7, m & 7);
    let reg = reg | ((rex & 4) << 1);
    let x = (rex & 2) << 2;
    let b = (rex & 1) << 3;
    if md == 3 {
        return Ok((reg, Rm::Reg(rm | b)));
    }
    let mut a = Addr {
        regs: [0; 16],
        rip: false,
        disp: 0,
    };
    let mut disp32_only = false;
    if rm == 4 {
        let s = c.u8()?;
        let (scale, index, base) = (s >> 6, ((s >> 3) & 7) | x, s & 7);
        if index != 4 {
            a.regs[index as usize] += 1 << scale;
        }
        if base == 5 && md == 0 {
            disp32_only = true;
        } else {
            a.regs[(base | b) as usize] += 1;
        }
    } else if rm == 5 && md == 0 {
        a.rip = true;
        disp32_only = true;
    } else {
        a.regs[(rm | b) as usize] += 1;
    }
    a.disp = match (md, disp32_only) {
        (0, false) => 0,
        (0, true) | (2, _) => sext(c.le(4)?, 32),
        (1, _) => sext(c.le(1)?, 8),
        _ => unreachable!(),
    };
    Ok((reg, Rm::Mem(a)))
}

pub fn decode(bytes: &[u8]) -> Result<Insn, String> {
    let mut c = Cur { b: bytes, i: 0 };
    let mut opsize = false;
    let mut op = c.u8()?;
    while op == 0x66 {
        if opsize {
            return Err("repeated operand-size prefix".into());
        }
        opsize = true;
        op = c.u8()?;
    }
    let mut rex = 0u8;
    if op & 0xf0 == 0x40 {
        rex = op;
        op = c.u8()?;
    }
    let rex_w = rex & 8 != 0;
    let w: u8 = if rex_w {
        64
    } else if opsize {
        16
    } else {
        32
    };
    // push/pop: 64-bit by default, 16-bit with the prefix
    let stack: u8 = if opsize && !rex_w { 2 } else { 8 };
    let b = (rex & 1) << 3;
    let mut imm = None;

    let op = match op {
        0x89 => match modrm(&mut c, rex)? {
            (reg, Rm::Reg(rm)) => Op::MovRR {
                w,
                dst: rm,
                src: reg,
            },
            (reg, Rm::Mem(mem)) => Op::Store { w, mem, src: reg },
        },
        0x8b => match modrm(&mut c, rex)? {
            (reg, Rm::Reg(rm)) => Op::MovRR {
                w,
                dst: reg,
                src: rm,
            },
            (reg, Rm::Mem(mem)) => Op::Load { w, dst: reg, mem },
        },
        0x8d => match modrm(&mut c, rex)? {
            (reg, Rm::Mem(mem)) => Op::Lea { w, dst: reg, mem },
            _ => return Err("lea with a register operand".into()),
        },
        0xb8..=0xbf => {
            let n = (w / 8) as usize;
            imm = Some((c.i, n));
            Op::MovImm {
                w,
                dst: (op & 7) | b,
                val: c.le(n)?,
            }
        }
        0xc7 => match modrm(&mut c, rex)? {
            (0 | 8, Rm::Reg(rm)) => {
                let n = if w == 16 { 2 } else { 4 };
                imm = Some((c.i, n));
                let raw = c.le(n)?;
                let val = if w == 64 { sext(raw, 32) as u64 } else { raw };
                Op::MovImm { w, dst: rm, val }
            }
            _ => return Err("unexpected form of opcode C7".into()),
        },
        0x50..=0x57 => Op::PushReg {
            bytes: stack,
            reg: (op & 7) | b,
        },
        0x58..=0x5f => Op::PopReg {
            bytes: stack,
            reg: (op & 7) | b,
        },
        0xff => match modrm(&mut c, rex)? {
            (6 | 14, Rm::Reg(rm)) => Op::PushReg {
                bytes: stack,
                reg: rm,
            },
            _ => return Err("unexpected form of opcode FF".into()),
        },
        0x8f => match modrm(&mut c, rex)? {
            (0 | 8, Rm::Reg(rm)) => Op::PopReg {
                bytes: stack,
                reg: rm,
            },
            _ => return Err("unexpected form of opcode 8F".into()),
        },
        0x6a => {
            imm = Some((c.i, 1));
            let v = sext(c.le(1)?, 8) as u64;
            Op::PushImm {
                bytes: stack,
                val: if stack == 2 { v & 0xffff } else { v },
            }
        }
        0x68 => {
            let n = if stack == 2 { 2 } else { 4 };
            imm = Some((c.i, n));
            let v = c.le(n)?;
            Op::PushImm {
                bytes: stack,
                val: if n == 2 { v } else { sext(v, 32) as u64 },
            }
        }
        0xc3 => Op::Ret,
        0x0f => match c.u8()? {
            0x05 => Op::Syscall,
            o => return Err(format!("unexpected opcode 0F {:02X}", o)),
        },
        o => return Err(format!("unexpected opcode {:02X}", o)),
    };
    if c.i > 15 {
        return Err("instruction longer than 15 bytes".into());
    }
    Ok(Insn {
        op,
        len: c.i,
        imm,
    })
}

/// Decode a whole byte string as an instruction sequence.
pub fn decode_all(mut bytes: &[u8]) -> Result<Vec<Insn>, String> {
    let mut v = Vec::new();
    while !bytes.is_empty() {
        let i = decode(bytes)?;
        bytes = &bytes[i.len..];
        v.push(i);
    }
    Ok(v)
}

/// Architectural effect: a 32-bit register write zero-extends, so encodings that
/// set a whole register to the same value are the same operation.
pub fn effect(op: &Op) -> Op {
    match op {
        Op::MovImm { w: 32, dst, val } => Op::MovImm {
            w: 64,
            dst: *dst,
            val: *val,
        },
        o => o.clone(),
    }
}
