//! Objects and programs at the bounds of the file format: 32-bit file positions,
//! 64-bit addresses, 24-bit symbol numbers, 31-bit relocation offsets. Each is
//! written in a process of its own, with and without overflow checks, to a sink that
//! keeps only the pages that are not all zeros.
use crate::{engine::*, ensure};
use at_obj::{macho, Object, Reloc, Symbol};
use serde::{Deserialize, Serialize};
use std::{
    collections::HashMap,
    io::{Read, Write},
    process::{Command, Stdio},
};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Case {
    Object {
        /// sizes; the contents are zeros between two marks
        text: u64,
        data: u64,
        bss: u64,
        /// this many nameless symbols come first in text
        fill: u32,
        /// a symbol "target" in this section (0..3) at this offset
        target: Option<(u8, u64)>,
        /// a relocation in text that names it
        reloc: bool,
    },
    /// a text section of this many bytes of strings, then a label and a mov of it to a
    /// 64-bit or 32-bit register
    Program { size: u64, wide: bool },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Limit {
    pub case: Case,
    /// run the build without overflow checks
    pub release: bool,
}

#[derive(Debug, PartialEq)]
enum Expect {
    Written,
    Refused(&'static str),
    /// the tables fit but the end of the file is beyond 32 bits
    Either,
}

const MAX32: u64 = u32::MAX as u64;

impl Case {
    fn sizes(&self) -> [u64; 3] {
        match self {
            Case::Object { text, data, bss, .. } => [*text, *data, *bss],
            Case::Program { size, wide } => [size + if *wide { 10 } else { 5 }, 0, 0],
        }
    }

    fn has_symbols(&self, s: usize) -> bool {
        match self {
            Case::Object { fill, target, .. } => {
                (s == 0 && *fill > 0) || target.map_or(false, |t| t.0 as usize == s)
            }
            Case::Program { .. } => s == 0,
        }
    }

    fn present(&self) -> Vec<usize> {
        (0..3).filter(|s| self.sizes()[*s] > 0 || self.has_symbols(*s)).collect()
    }

    fn addr(&self, s: usize) -> u128 {
        self.sizes()[..s].iter().map(|n| *n as u128).sum()
    }

    /// name, section, offset, and its number among the symbols
    fn target(&self) -> Option<(usize, u64, u32)> {
        match self {
            Case::Object { fill, target, .. } => target.map(|(s, a)| (s as usize, a, *fill)),
            Case::Program { size, .. } => Some((0, *size, 0)),
        }
    }

    /// offset and length code of the relocation
    fn reloc(&self) -> Option<(u64, u32)> {
        match self {
            Case::Object { reloc: false, .. } => None,
            Case::Object { .. } => Some((1, 3)),
            Case::Program { size, wide: true } => Some((size + 2, 3)),
            Case::Program { size, wide: false } => Some((size + 1, 2)),
        }
    }

    fn expect(&self) -> Expect {
        let n = self.sizes();
        let fill = match self {
            Case::Object { fill, .. } => *fill as u64,
            _ => 0,
        };
        let head = 32 + 72 + 80 * self.present().len() as u64 + 24;
        let symbols = fill + self.target().is_some() as u64;
        let end = (head as u128 + n[0] as u128 + n[1] as u128 + 7) / 8 * 8
            + 8 * self.reloc().is_some() as u128
            + 16 * symbols as u128;
        let names = 1 + fill + 7 * self.target().is_some() as u64;
        if end > MAX32 as u128 || n[0] as u128 + n[1] as u128 > MAX32 as u128 {
            return Expect::Refused("file positions need more than 32 bits");
        }
        if self.addr(3) > u64::MAX as u128 {
            return Expect::Refused("the sections need more than 64-bit addresses");
        }
        if let Some((s, off, number)) = self.target() {
            if self.addr(s) + off as u128 > u64::MAX as u128 {
                return Expect::Refused("the symbol's value needs more than 64 bits");
            }
            if self.reloc().is_some() && number >= 1 << 24 {
                return Expect::Refused("the target's number needs more than 24 bits");
            }
        }
        if let Some((at, _)) = self.reloc() {
            if at > i32::MAX as u64 {
                return Expect::Refused("the relocation's offset needs more than 31 bits");
            }
        }
        if end + names as u128 > MAX32 as u128 {
            return Expect::Either;
        }
        Expect::Written
    }
}

// ---------------------------------------------------------------- the sink

const PAGE: usize = 4096;
static ZEROS: [u8; PAGE] = [0; PAGE];

#[derive(Default)]
struct Sparse {
    len: u64,
    pages: HashMap<u64, Vec<u8>>,
    current: Vec<u8>,
}

impl Sparse {
    fn close(&mut self) {
        if self.current.iter().any(|b| *b != 0) {
            let at = (self.len - self.current.len() as u64) / PAGE as u64;
            let page = std::mem::replace(&mut self.current, Vec::with_capacity(PAGE));
            self.pages.insert(at, page);
        } else {
            self.current.clear();
        }
    }

    fn get(&self, at: u64, n: usize) -> Result<Vec<u8>, String> {
        ensure!(at + n as u64 <= self.len, "{} bytes at {:#x} lie outside the file of {:#x} bytes", n, at, self.len);
        Ok((at..at + n as u64)
            .map(|i| {
                self.pages
                    .get(&(i / PAGE as u64))
                    .and_then(|p| p.get((i % PAGE as u64) as usize))
                    .copied()
                    .unwrap_or(0)
            })
            .collect())
    }

    fn word(&self, at: u64) -> Result<u64, String> {
        Ok(u32::from_le_bytes(self.get(at, 4)?.try_into().unwrap()) as u64)
    }

    fn quad(&self, at: u64) -> Result<u64, String> {
        Ok(u64::from_le_bytes(self.get(at, 8)?.try_into().unwrap()))
    }

    /// bytes up to the next NUL
    fn name(&self, at: u64) -> Result<Vec<u8>, String> {
        let n = (self.len.saturating_sub(at)).min(64) as usize;
        Ok(self.get(at, n)?.into_iter().take_while(|b| *b != 0).collect())
    }
}

impl Write for Sparse {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let mut rest = b;
        while !rest.is_empty() {
            if self.current.is_empty() && rest.len() >= PAGE && rest[..PAGE] == ZEROS {
                self.len += PAGE as u64;
                rest = &rest[PAGE..];
                continue;
            }
            let n = rest.len().min(PAGE - self.current.len());
            self.current.extend_from_slice(&rest[..n]);
            self.len += n as u64;
            rest = &rest[n..];
            if self.current.len() == PAGE {
                self.close();
            }
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

// --------------------------------------------------------------- the worker

struct Lines {
    line: Vec<u8>,
    /// how many of them
    n: u64,
    at: usize,
    tail: Vec<u8>,
}

impl Read for Lines {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.n == 0 {
            let k = b.len().min(self.tail.len());
            b[..k].copy_from_slice(&self.tail[..k]);
            self.tail.drain(..k);
            return Ok(k);
        }
        let k = b.len().min(self.line.len() - self.at);
        b[..k].copy_from_slice(&self.line[self.at..self.at + k]);
        self.at += k;
        if self.at == self.line.len() {
            self.at = 0;
            self.n -= 1;
        }
        Ok(k)
    }
}

fn contents(n: u64, mark: u8) -> Vec<u8> {
    let mut v = vec![0; n as usize];
    if let Some(b) = v.first_mut() {
        *b = mark;
    }
    if let Some(b) = v.last_mut() {
        *b = mark;
    }
    v
}

fn write(c: &Case) -> Result<Sparse, String> {
    let mut sink = Sparse::default();
    let done = match c {
        Case::Object { text, data, bss, fill, target, reloc } => {
            let mut o = Object::new();
            o.sections.text.bytes = contents(*text, 0xc3);
            o.sections.data.bytes = contents(*data, 0xd5);
            o.sections.bss.size = *bss;
            for _ in 0..*fill {
                o.sections.text.symbols.push(Symbol::Abs { name: String::new(), val: 1, ext: false });
            }
            if let Some((s, addr)) = target {
                let y = Symbol::Ref { name: "target".into(), addr: *addr, ext: true };
                match s {
                    0 => o.sections.text.symbols.push(y),
                    1 => o.sections.data.symbols.push(y),
                    _ => o.sections.bss.symbols.push(y),
                }
            }
            if *reloc {
                o.sections.text.relocs.push(Reloc { addr: 1, symbol: "target".into(), pcrel: false, len: 3 });
            }
            sut(|| macho::write_into(&o, &mut sink))
        }
        Case::Program { size, wide } => {
            let quoted = |n: u64| {
                let mut l = b"db \"".to_vec();
                l.resize(4 + n as usize, b'.');
                l.extend(b"\"\n");
                l
            };
            const MIB: u64 = 1 << 20;
            let mut tail = if size % MIB > 0 { quoted(size % MIB) } else { vec![] };
            let reg = if *wide { "rax" } else { "eax" };
            tail.extend(format!("target:\nmov {}, target\nglobal target\n", reg).as_bytes());
            let mut src = Lines { line: quoted(MIB), n: size / MIB, at: 0, tail };
            sut(|| {
                at_asm::Assembler::new().read_from(&mut src).write_into(&mut sink);
            })
        }
    };
    sink.close();
    done.map(|_| sink)
}

fn verify(c: &Case, f: &Sparse) -> Result<(), String> {
    let present = c.present();
    ensure!(f.word(0)? == 0xfeed_facf, "magic {:#x}", f.word(0)?);
    ensure!(f.word(32)? == 0x19, "the first command is {:#x}", f.word(32)?);
    let (vmsize, fileoff, filesize) = (f.quad(64)?, f.quad(72)?, f.quad(80)?);
    ensure!(vmsize as u128 == c.addr(3), "segment size {:#x} instead of {:#x}", vmsize, c.addr(3));
    ensure!(filesize <= vmsize, "segment claims {:#x} bytes of file for {:#x} of memory", filesize, vmsize);
    ensure!(f.word(96)? == present.len() as u64, "{} sections instead of {}", f.word(96)?, present.len());
    let symtab = 32 + f.word(36)?;
    ensure!(f.word(symtab)? == 2, "the second command is {:#x}", f.word(symtab)?);
    let (symoff, nsyms) = (f.word(symtab + 8)?, f.word(symtab + 12)?);
    let (stroff, strsize) = (f.word(symtab + 16)?, f.word(symtab + 20)?);
    let mut end = symtab + 24;
    for (i, s) in present.iter().enumerate() {
        let h = 104 + 80 * i as u64;
        let (addr, size) = (f.quad(h + 32)?, f.quad(h + 40)?);
        ensure!(addr as u128 == c.addr(*s), "section {} is at {:#x} instead of {:#x}", i + 1, addr, c.addr(*s));
        ensure!(size == c.sizes()[*s], "section {} has size {:#x} instead of {:#x}", i + 1, size, c.sizes()[*s]);
        let nreloc = f.word(h + 60)?;
        let want = (*s == 0 && c.reloc().is_some()) as u64;
        ensure!(nreloc == want, "section {} has {} relocations instead of {}", i + 1, nreloc, want);
        if *s < 2 && size > 0 {
            let off = f.word(h + 48)?;
            ensure!(off >= end, "contents of section {} overlap what is before them", i + 1);
            end = off + size;
            ensure!(end <= symoff, "contents of section {} overlap the symbol table", i + 1);
            ensure!(
                off >= fileoff && end <= fileoff + filesize,
                "contents of section {} are outside the segment",
                i + 1
            );
            if let Case::Object { .. } = c {
                let mark = [0xc3, 0xd5][*s];
                for at in [off, end - 1] {
                    ensure!(f.get(at, 1)?[0] == mark, "contents of section {} are not at {:#x}", i + 1, off);
                }
            } else {
                ensure!(f.get(off, 1)? == b".", "contents of section {} are not at {:#x}", i + 1, off);
            }
        }
        if nreloc > 0 {
            let at = f.word(h + 56)?;
            ensure!(at >= end && at + 8 <= symoff, "the relocation at {:#x} overlaps something", at);
            let (r, len) = c.reloc().unwrap();
            ensure!(f.word(at)? == r, "the relocation is for {:#x} instead of {:#x}", f.word(at)?, r);
            let info = f.word(at + 4)?;
            ensure!(info >> 24 == 0x8 | len as u64 * 2, "relocation attributes {:#x}", info >> 24);
            let entry = symoff + 16 * (info & 0xff_ffff);
            ensure!(info & 0xff_ffff < nsyms, "the relocation names symbol {} of {}", info & 0xff_ffff, nsyms);
            let name = f.name(stroff + f.word(entry)?)?;
            ensure!(name == b"target", "the relocation names {:?}", String::from_utf8_lossy(&name));
        }
    }
    ensure!(symoff % 8 == 0 && symoff + 16 * nsyms <= stroff, "symbol table at {:#x}, {} entries, overlaps", symoff, nsyms);
    ensure!(stroff + strsize == f.len, "the string table ends at {:#x} of {:#x}", stroff + strsize, f.len);
    if let Some((s, off, number)) = c.target() {
        ensure!(nsyms == number as u64 + 1, "{} symbols instead of {}", nsyms, number + 1);
        let entry = symoff + 16 * number as u64;
        let name = f.name(stroff + f.word(entry)?)?;
        ensure!(name == b"target", "the last symbol's name is {:?}", String::from_utf8_lossy(&name));
        let sect = present.iter().position(|k| *k == s).unwrap() as u8 + 1;
        let kind = f.get(entry + 4, 2)?;
        ensure!(kind == [0x0f, sect], "the last symbol has type {:#x}, section {}", kind[0], kind[1]);
        let want = (c.addr(s) + off as u128) as u64;
        ensure!(f.quad(entry + 8)? == want, "the last symbol's value is {:#x} instead of {:#x}", f.quad(entry + 8)?, want);
    }
    Ok(())
}

/// Reads a case, prints the verdict.
pub fn worker_main() -> i32 {
    crate::engine::limit_memory(u64::MAX);
    unsafe { libc::alarm(240) };
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).unwrap();
    let c: Case = serde_json::from_str(&text).unwrap();
    match write(&c) {
        Err(m) => println!("refused {}", m),
        Ok(f) => match verify(&c, &f) {
            Ok(()) => println!("right"),
            Err(m) => println!("wrong {}", m),
        },
    }
    0
}

// ----------------------------------------------------------------- the check

pub fn check(l: &Limit) -> Checked {
    let trouble = |e: String| Fail::Machinery(format!("limits worker: {}", e));
    let bin = if l.release {
        std::env::var("ATCHECK_RELEASE").map_err(|e| trouble(e.to_string()))?.into()
    } else {
        std::env::current_exe().map_err(|e| trouble(e.to_string()))?
    };
    let mut child = Command::new(bin)
        .arg("limits")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| trouble(e.to_string()))?;
    child
        .stdin
        .take()
        .unwrap()
        .write_all(serde_json::to_string(&l.case).unwrap().as_bytes())
        .map_err(|e| trouble(e.to_string()))?;
    let out = child.wait_with_output().map_err(|e| trouble(e.to_string()))?;
    let said = String::from_utf8_lossy(&out.stdout).trim().to_string();
    use std::os::unix::process::ExitStatusExt;
    if out.status.signal() == Some(libc::SIGKILL) {
        return Err(trouble("killed (out of memory?)".into()));
    }
    ensure!(out.status.signal() != Some(libc::SIGALRM), "writing did not end in 240 s");
    // a refusal may be a panic or an exit
    let refused = said.starts_with("refused") || !out.status.success();
    let expect = l.case.expect();
    if let Some(m) = said.strip_prefix("wrong ") {
        if let Expect::Refused(why) = expect {
            return Err(Fail::Violation(format!("not refused although {}; {}", why, m)));
        }
        return Err(Fail::Violation(m.to_string()));
    }
    ensure!(refused || said == "right", "the worker said {:?}", said);
    match expect {
        Expect::Written => ensure!(!refused, "refused although it can be expressed: {}", said),
        Expect::Refused(why) => ensure!(refused, "not refused although {}", why),
        Expect::Either => {}
    }
    Ok(Info::new(expect != Expect::Either)
        .class(matches!(expect, Expect::Refused(_)), "has to be refused")
        .class(expect == Expect::Written, "has to be written")
        .class(l.release, "without overflow checks"))
}

fn both(cases: Vec<Case>) -> Vec<Limit> {
    cases
        .into_iter()
        .flat_map(|case| [false, true].map(|release| Limit { case: case.clone(), release }))
        .collect()
}

fn object(text: u64, data: u64, bss: u64) -> Case {
    Case::Object { text, data, bss, fill: 0, target: None, reloc: false }
}

const G4: u64 = 1 << 32;

/// File positions and memory sizes around their bounds.
pub fn sizes(tier: Tier) -> Vec<Limit> {
    let mut v = vec![
        object(G4 + 5, 0, 0),
        object(G4, 0, 0),
        object(0, G4 + 8, 1),
        object(G4 - 4096, 0, 0),
        object(100, G4 - 4096, 7),
        object(G4 / 2, G4 / 2, 0),
        object(G4 / 2, G4 / 2 - 4096, 9),
        object(G4 / 2 + 1, 1, u64::MAX - G4),
        object(1, 0, u64::MAX),
        object(0, 0, u64::MAX),
        object(1, 0, u64::MAX - 1),
        object(3, 5, u64::MAX - 8),
        object(3, 5, u64::MAX - 7),
    ];
    // one section whose tables end just before and after the bound
    let head = 32 + 72 + 80 + 24;
    for k in if tier == Tier::Quick { 0..3u64 } else { 0..24 } {
        v.push(object(G4 - head - 8 * k, 0, 0));
        v.push(Case::Object {
            text: G4 - head - 48 - 8 * k,
            data: 0,
            bss: 0,
            fill: 1,
            target: Some((0, 5)),
            reloc: true,
        });
    }
    both(v)
}

/// Symbol values around 64 bits.
pub fn values(_: Tier) -> Vec<Limit> {
    let mut v = vec![];
    for (text, data, bss) in [(0, 0, 0), (16, 8, 4), (1, 0, 0), (0, 3, 1 << 40)] {
        for s in 0..3u8 {
            for k in [0u64, 1, 2, 15, 16, 17, 23, 24, 25] {
                for at in [u64::MAX - k, (1 << 63) - k, G4 - k] {
                    v.push(Case::Object { text, data, bss, fill: 0, target: Some((s, at)), reloc: false });
                }
            }
        }
    }
    // in a process each, so only every other one without overflow checks
    v.into_iter()
        .enumerate()
        .map(|(i, case)| Limit { case, release: i % 2 == 1 })
        .collect()
}

/// Symbol numbers around 24 bits.
pub fn numbers(tier: Tier) -> Vec<Limit> {
    const M: u32 = 1 << 24;
    let case = |fill: u32, reloc: bool| Case::Object { text: 16, data: 0, bss: 0, fill, target: Some((0, 3)), reloc };
    let mut v: Vec<Limit> = [(M - 1, true), (M, true), (M, false)]
        .into_iter()
        .map(|(n, r)| Limit { case: case(n, r), release: true })
        .collect();
    v.push(Limit { case: case(M, true), release: false });
    if tier == Tier::Thorough {
        for n in [M + 1, M + (M >> 1), 2 * M, 2 * M + 1] {
            v.extend(both(vec![case(n, true), case(n, false)]));
        }
    }
    v
}

/// Programs whose text reaches 2 GiB.
pub fn programs(tier: Tier) -> Vec<Limit> {
    const G2: u64 = 1 << 31;
    let p = |size: u64, wide: bool, release: bool| Limit { case: Case::Program { size, wide }, release };
    let mut v = vec![p(G2 - 2, true, true), p(G2 - 3, true, false), p(G2 + 7, false, false)];
    if tier == Tier::Thorough {
        for k in 0..4 {
            for wide in [false, true] {
                v.push(p(G2 - k, wide, true));
                v.push(p(G2 - k, wide, false));
            }
        }
    }
    v
}
