//! A second opinion on instruction bytes: GNU objdump's text, parsed back.
use crate::{
    engine::{Checked, Fail},
    p_e,
    sut::{self, Scratch},
    x86::{Addr, Op},
};
use std::process::Command;

fn reg(name: &str) -> Option<(u8, u8)> {
    for w in [64u8, 32, 16, 8] {
        for n in 0..16 {
            if p_e::reg_name(w, n) == name {
                return Some((w, n));
            }
        }
    }
    None
}

fn number(t: &str) -> Option<u64> {
    let (neg, t) = match t.strip_prefix('-') {
        Some(t) => (true, t),
        None => (false, t),
    };
    let v = match t.strip_prefix("0x") {
        Some(h) => u64::from_str_radix(h, 16).ok()?,
        None => t.parse().ok()?,
    };
    Some(if neg { v.wrapping_neg() } else { v })
}

/// `QWORD PTR [a+b*4-0x10]`, `QWORD PTR ds:0x10` or, for lea, without the size.
fn mem(t: &str) -> Option<Addr> {
    let t = t.strip_prefix("QWORD PTR ").unwrap_or(t);
    let mut a = Addr {
        regs: [0; 16],
        rip: false,
        disp: 0,
    };
    if let Some(d) = t.strip_prefix("ds:") {
        a.disp = number(d)? as i64;
        return Some(a);
    }
    let t = t.strip_prefix('[')?.strip_suffix(']')?;
    for term in t.replace('-', "+-").split('+').filter(|s| !s.is_empty()) {
        if term == "rip" {
            a.rip = true;
        } else if term.starts_with("riz") {
            // no index
        } else if let Some((r, s)) = term.split_once('*') {
            a.regs[reg(r)?.1 as usize] += s.parse::<u8>().ok()?;
        } else if let Some((64, r)) = reg(term) {
            a.regs[r as usize] += 1;
        } else {
            a.disp = number(term)? as i64;
        }
    }
    Some(a)
}

fn parse(text: &str) -> Option<Op> {
    let (m, rest) = text.split_once(char::is_whitespace).unwrap_or((text, ""));
    let rest = rest.split('#').next().unwrap_or("").trim();
    match m {
        "ret" if rest.is_empty() => return Some(Op::Ret),
        "syscall" if rest.is_empty() => return Some(Op::Syscall),
        _ => {}
    }
    match m {
        "push" | "pushw" | "pop" | "popw" => {
            if let Some((w, r)) = reg(rest) {
                return Some(if m.starts_with("push") {
                    Op::PushReg { bytes: w / 8, reg: r }
                } else {
                    Op::PopReg { bytes: w / 8, reg: r }
                });
            }
            if m.starts_with("pop") {
                return None;
            }
            let v = number(rest)?;
            Some(if m == "pushw" {
                Op::PushImm { bytes: 2, val: v & 0xffff }
            } else {
                Op::PushImm { bytes: 8, val: v }
            })
        }
        "mov" | "movabs" | "lea" => {
            let (a, b) = rest.split_once(',')?;
            if m == "lea" {
                let (w, dst) = reg(a)?;
                return Some(Op::Lea { w, dst, mem: mem(b)? });
            }
            match (reg(a), reg(b)) {
                (Some((w, dst)), Some((v, src))) if v == w => Some(Op::MovRR { w, dst, src }),
                (Some((w, dst)), None) => match number(b) {
                    Some(val) => Some(Op::MovImm { w, dst, val }),
                    None => Some(Op::Load { w, dst, mem: mem(b)? }),
                },
                (None, Some((w, src))) => Some(Op::Store { w, mem: mem(a)?, src }),
                _ => None,
            }
        }
        _ => None,
    }
}

/// Disassemble the concatenation of `codes` and compare with `want`, one by one.
pub fn compare(codes: &[Vec<u8>], want: &[Op]) -> Checked {
    let Some(tool) = sut::tool(&["objdump"]) else {
        return Err(Fail::Machinery("objdump is not installed".into()));
    };
    let dir = Scratch::new()?;
    let f = dir.path("code");
    std::fs::write(&f, codes.concat()).map_err(|e| Fail::Machinery(e.to_string()))?;
    let r = sut::run(
        Command::new(tool)
            .args(["-D", "-z", "-w", "-b", "binary", "-m", "i386:x86-64", "-M", "intel", "--no-show-raw-insn"])
            .arg(&f),
    )?;
    if !r.ok() {
        return Err(Fail::Machinery(format!("objdump: {}", r.stderr)));
    }
    let text = String::from_utf8_lossy(&r.stdout).into_owned();
    let mut seen = text.lines().filter_map(|l| {
        let (at, t) = l.split_once(":\t")?;
        Some((usize::from_str_radix(at.trim(), 16).ok()?, t.trim().to_string()))
    });
    let mut at = 0;
    for (k, (code, want)) in codes.iter().zip(want).enumerate() {
        let Some((o, t)) = seen.next() else {
            return Err(Fail::Violation(format!("objdump shows {} instructions, not {}", k, codes.len())));
        };
        if o != at || parse(&t).as_ref() != Some(want) {
            return Err(Fail::Violation(format!(
                "instruction {} should be {:?} at {:#x}; objdump shows `{}` at {:#x} (bytes {:02x?})",
                k, want, at, t, o, code
            )));
        }
        at += code.len();
    }
    if let Some((o, t)) = seen.next() {
        return Err(Fail::Violation(format!("objdump shows one more instruction: `{}` at {:#x}", t, o)));
    }
    Ok(crate::engine::Info::new(codes.len() > 1))
}
