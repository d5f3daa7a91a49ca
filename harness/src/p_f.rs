//! M07: whole files, the toolkit's own and those of other tools, read with at-mac.
use crate::{
    engine::*,
    ensure,
    p_a,
    p_o::{self, Obj, SymKind},
    prog::{self, Sec, Stmt},
    spec,
    sut::{self, Scratch},
};
use at_mac::{
    header::Header64,
    load_command::{BuildToolVersion, BuildVersionCommand, DysymtabCommand, LoadCommand, Section64, SegmentCommand64, SymtabCommand},
    nlist::{NList64, NTypeField},
    reloc::RelocationInfo,
    string_table::StringTable,
};
use proptest::collection::vec as pvec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::process::Command;

// ------------------------------------------------------ a file seen by at-mac

type Fields = Vec<(&'static str, u64)>;

#[derive(Debug)]
struct SectionSeen {
    names: (String, String),
    fields: Fields,
    relocs: Vec<[u64; 6]>,
}

#[derive(Debug)]
struct CommandSeen {
    segname: Option<String>,
    fields: Fields,
    sections: Vec<SectionSeen>,
    tools: Vec<(u64, u64)>,
}

#[derive(Debug)]
struct SymbolSeen {
    strx: u32,
    typ: u8,
    sect: u8,
    desc: u16,
    value: u64,
    /// none: the string table is refused
    name: Option<String>,
}

struct Whole {
    /// none: refused
    header: Option<Fields>,
    /// none: refused
    commands: Vec<Option<CommandSeen>>,
    /// none: refused
    symbols: Vec<Option<SymbolSeen>>,
    refused_strings: bool,
}

fn rewritten(what: &str, write: impl FnOnce(&mut Vec<u8>), original: &[u8]) -> Result<(), String> {
    let again = sut(|| {
        let mut v = vec![];
        write(&mut v);
        v
    })
    .map_err(|m| format!("{} cannot be written again: {}", what, m))?;
    ensure!(
        again == original,
        "{} is written again as {:02x?} instead of {:02x?}",
        what,
        again,
        original
    );
    Ok(())
}

fn u32_at(b: &[u8], o: usize) -> Result<usize, String> {
    b.get(o..o.wrapping_add(4))
        .map(|s| u32::from_le_bytes([s[0], s[1], s[2], s[3]]) as usize)
        .ok_or_else(|| format!("the file ends before {:#x}", o))
}

fn piece(b: &[u8], at: usize, n: usize) -> Result<&[u8], String> {
    b.get(at..at.wrapping_add(n)).ok_or_else(|| format!("the file ends before {:#x}", at + n))
}

/// A header of the same byte order that holds nothing at-mac could refuse.
fn plain_header(b: &[u8]) -> Vec<u8> {
    let mut v = piece(b, 0, 4).unwrap_or(&[]).to_vec();
    for n in [0x1000007u32, 3, 1, 0, 0, 0, 0] {
        v.extend(n.to_le_bytes());
    }
    v
}

/// Reads everything. Each record read must be written again as the bytes it was read
/// from. Where the header is refused, the commands are read all the same.
fn whole(b: &[u8]) -> Result<Whole, String> {
    let mut r = b;
    let read = sut(|| Header64::read_from(&mut r));
    let (n_cmds, size_of_cmds) = (u32_at(b, 16)?, u32_at(b, 20)?);
    let mut header = None;
    let endian = match read {
        Ok((h, endian)) => {
            ensure!(b.len() - r.len() == 32, "the header took {} bytes", b.len() - r.len());
            rewritten("the header", |v| h.write_into(v), &b[..32])?;
            let (cpu, sub) = h.cpu_type.to_i32_i32();
            header = Some(vec![
                ("magic", h.magic.to_u32() as u64),
                ("cputype", cpu as u32 as u64),
                ("cpusubtype", sub as u32 as u64),
                ("filetype", h.file_type.to_u32() as u64),
                ("ncmds", h.n_cmds as u64),
                ("sizeofcmds", h.size_of_cmds as u64),
                ("flags", h.flags.to_u32() as u64),
            ]);
            endian
        }
        Err(_) => sut(|| Header64::read_from(&mut plain_header(b).as_slice())).map_err(|m| format!("the plain header is refused: {}", m))?.1,
    };
    let mut w = Whole {
        header,
        commands: vec![],
        symbols: vec![],
        refused_strings: false,
    };
    let mut at = 32;
    for i in 0..n_cmds {
        let what = format!("command {}", i);
        let mut r = piece(b, at, 8).and(Ok(&b[at..]))?;
        let left = r.len();
        let size = u32_at(b, at + 4)?;
        let Ok(c) = sut(|| LoadCommand::read_from_in(&mut r, endian)) else {
            w.commands.push(None);
            at += size;
            continue;
        };
        let used = left - r.len();
        ensure!(
            used == size && c.cmd_size() as usize == size,
            "{} of {} bytes took {} bytes and says {}",
            what,
            size,
            used,
            c.cmd_size()
        );
        ensure!(c.cmd() as usize == u32_at(b, at)?, "{} has code {:#x}", what, c.cmd());
        rewritten(&what, |v| c.write_into(v), piece(b, at, size)?)?;
        let mut seen = fields(&c);
        if let LoadCommand::Segment64(_, sects) = &c {
            for (s, out) in sects.iter().zip(&mut seen.sections) {
                for k in 0..s.nreloc as usize {
                    let p = piece(b, s.reloff as usize + 8 * k, 8)?;
                    let what = format!("relocation {} of {}", k, s.sectname);
                    let r = sut(|| RelocationInfo::read_from_in(&mut &p[..], endian)).map_err(|m| format!("{} is refused: {}", what, m))?;
                    rewritten(&what, |v| r.write_into(v), p)?;
                    out.relocs.push([
                        r.r_address as u32 as u64,
                        r.r_pcrel as u64,
                        r.r_length.to_u32() as u64,
                        r.r_extern as u64,
                        r.r_type as u64,
                        r.r_symbolnum as u64,
                    ]);
                }
            }
        }
        if let LoadCommand::Symtab(t) = &c {
            let table = piece(b, t.stroff as usize, t.strsize as usize)?.to_vec();
            let strings = sut(|| StringTable::from(table));
            w.refused_strings = strings.is_err();
            for k in 0..t.nsyms as usize {
                let p = piece(b, t.symoff as usize + 16 * k, 16)?;
                let what = format!("symbol {}", k);
                let Ok(n) = sut(|| NList64::read_from_in(&mut &p[..], endian)) else {
                    w.symbols.push(None);
                    continue;
                };
                rewritten(&what, |v| n.write_into(v), p)?;
                let name = match &strings {
                    Ok(t) => Some(sut(|| t.get(n.n_strx as usize).to_string()).map_err(|m| format!("the name of {} is refused: {}", what, m))?),
                    Err(_) => None,
                };
                w.symbols.push(Some(SymbolSeen {
                    strx: n.n_strx,
                    typ: match n.n_type {
                        NTypeField::Norm { n_pext, n_type, n_ext } => (n_pext as u8) << 4 | n_type.to_u8() | n_ext as u8,
                        NTypeField::Stab(s) => s.to_u8(),
                    },
                    sect: n.n_sect,
                    desc: n.n_desc,
                    value: n.n_value,
                    name,
                }));
            }
        }
        w.commands.push(Some(seen));
        at += size;
    }
    ensure!(
        at == 32 + size_of_cmds,
        "the commands end at {:#x}, but the header says {:#x}",
        at,
        32 + size_of_cmds
    );
    Ok(w)
}

fn fields(c: &LoadCommand) -> CommandSeen {
    let mut seen = CommandSeen {
        segname: None,
        fields: vec![],
        sections: vec![],
        tools: vec![],
    };
    match c {
        LoadCommand::Segment64(s, sects) => {
            let SegmentCommand64 {
                cmd: _,
                cmdsize,
                segname,
                vmaddr,
                vmsize,
                fileoff,
                filesize,
                maxprot,
                initprot,
                nsects,
                flags,
            } = s;
            seen.segname = Some(segname.clone());
            seen.fields = vec![
                ("cmdsize", *cmdsize as u64),
                ("vmaddr", *vmaddr),
                ("vmsize", *vmsize),
                ("fileoff", *fileoff),
                ("filesize", *filesize),
                ("maxprot", *maxprot as u32 as u64),
                ("initprot", *initprot as u32 as u64),
                ("nsects", *nsects as u64),
                ("flags", *flags as u64),
            ];
            for s in sects {
                let Section64 { addr, size, offset, align, reloff, nreloc, .. } = s;
                seen.sections.push(SectionSeen {
                    names: (s.segname.clone(), s.sectname.clone()),
                    fields: vec![
                        ("addr", *addr),
                        ("size", *size),
                        ("offset", *offset as u64),
                        ("align", *align as u64),
                        ("reloff", *reloff as u64),
                        ("nreloc", *nreloc as u64),
                        ("flags", (s.flags.0.to_u32() | s.flags.1.to_u32()) as u64),
                        ("reserved1", s.reserved1 as u64),
                        ("reserved2", s.reserved2 as u64),
                    ],
                    relocs: vec![],
                });
            }
        }
        LoadCommand::Symtab(t) => {
            let SymtabCommand { cmd: _, cmdsize, symoff, nsyms, stroff, strsize } = t;
            seen.fields = vec![
                ("cmdsize", *cmdsize as u64),
                ("symoff", *symoff as u64),
                ("nsyms", *nsyms as u64),
                ("stroff", *stroff as u64),
                ("strsize", *strsize as u64),
            ];
        }
        LoadCommand::Dysymtab(d) => {
            let d: &DysymtabCommand = d;
            seen.fields = vec![
                ("cmdsize", d.cmdsize as u64),
                ("ilocalsym", d.ilocalsym as u64),
                ("nlocalsym", d.nlocalsym as u64),
                ("iextdefsym", d.iextdefsym as u64),
                ("nextdefsym", d.nextdefsym as u64),
                ("iundefsym", d.iundefsym as u64),
                ("nundefsym", d.nundefsym as u64),
                ("tocoff", d.tocoff as u64),
                ("ntoc", d.ntoc as u64),
                ("modtaboff", d.modtaboff as u64),
                ("nmodtab", d.nmodtab as u64),
                ("extrefsymoff", d.extrefsymoff as u64),
                ("nextrefsyms", d.nextrefsyms as u64),
                ("indirectsymoff", d.indirectsymoff as u64),
                ("nindirectsyms", d.nindirectsyms as u64),
                ("extreloff", d.extreloff as u64),
                ("nextrel", d.nextrel as u64),
                ("locreloff", d.locreloff as u64),
                ("nlocrel", d.nlocrel as u64),
            ];
        }
        LoadCommand::BuildVersion(b, tools) => {
            let b: &BuildVersionCommand = b;
            let v = |v: &at_mac::load_command::build_version::Version| (v.major as u64) << 16 | (v.minor as u64) << 8 | v.release as u64;
            seen.fields = vec![
                ("cmdsize", b.cmdsize as u64),
                ("platform", b.platform.to_u32() as u64),
                ("minos", v(&b.minos)),
                ("sdk", v(&b.sdk)),
                ("ntools", b.ntools as u64),
            ];
            seen.tools = tools.iter().map(|t: &BuildToolVersion| (t.tool.to_u32() as u64, t.version as u64)).collect();
        }
    }
    seen
}

// ------------------------------------------------------------- own objects

/// An object written by at-obj, read with at-mac, compared with what it was made of.
fn own(o: &Obj) -> Checked {
    let b = o.write()?;
    let w = whole(&b)?;
    let header = w.header.as_ref().ok_or("the header of an object written by at-obj is refused")?;
    let get = |f: &Fields, k: &str| f.iter().find(|x| x.0 == k).map(|x| x.1).unwrap();
    ensure!(get(header, "filetype") == 1, "the file type is {}", get(header, "filetype"));
    let mut sections = vec![];
    for (i, c) in w.commands.iter().enumerate() {
        let c = c.as_ref().ok_or_else(|| format!("command {} of an object written by at-obj is refused", i))?;
        sections.extend(c.sections.iter());
    }
    let mut symbols = vec![];
    for (i, s) in w.symbols.iter().enumerate() {
        symbols.push(s.as_ref().ok_or_else(|| format!("symbol {} of an object written by at-obj is refused", i))?);
    }
    ensure!(!w.refused_strings, "the string table of an object written by at-obj is refused");
    let contents = [o.text.bytes(), o.data.bytes(), vec![]];
    let (mut next, mut no, mut relocs) = (0, 0, 0);
    for s in Sec::ALL {
        let k = s.idx();
        if !o.present(k) {
            continue;
        }
        let (seg, sect) = s.macho();
        let Some(h) = sections.get(no) else {
            return Err(format!("{} sections are read, {},{} is missing", sections.len(), seg, sect).into());
        };
        no += 1;
        ensure!(h.names == (seg.into(), sect.into()), "section {} is {:?}, not {},{}", no, h.names, seg, sect);
        ensure!(get(&h.fields, "size") == o.size(k), "{} has {} bytes instead of {}", sect, get(&h.fields, "size"), o.size(k));
        ensure!(get(&h.fields, "addr") == o.addr(k), "{} is at {:#x} instead of {:#x}", sect, get(&h.fields, "addr"), o.addr(k));
        if k < 2 {
            let at = get(&h.fields, "offset") as usize;
            ensure!(piece(&b, at, contents[k].len())? == contents[k], "the contents of {} differ", sect);
            ensure!(h.relocs.len() == o.rels[k].len(), "{} has {} relocations instead of {}", sect, h.relocs.len(), o.rels[k].len());
            for (r, want) in h.relocs.iter().zip(&o.rels[k]) {
                relocs += 1;
                let target = symbols.get(r[5] as usize).and_then(|s| s.name.clone());
                ensure!(target.as_deref() == Some(&want.target), "a relocation of {} names {:?} instead of {}", sect, target, want.target);
                ensure!(
                    r[..5] == [want.addr as u32 as u64, want.pcrel as u64, want.len as u64, 1, 0],
                    "a relocation of {} is {:?} instead of {:?}",
                    sect,
                    r,
                    want
                );
            }
        }
        for (name, kind) in o.flat(k) {
            let Some(s) = symbols.get(next) else {
                return Err(format!("{} symbols are read, `{}` is missing", symbols.len(), name).into());
            };
            next += 1;
            let want = match kind {
                SymKind::Undef => (1, 0, 0),
                SymKind::Abs(v, ext) => (2 | *ext as u8, 0, *v),
                SymKind::Ref(v, ext) => (0xe | *ext as u8, no as u8, o.addr(k) + v),
            };
            ensure!(
                s.name.as_deref() == Some(name) && (s.typ, s.sect, s.value) == want,
                "symbol {} is {:?} instead of `{}` {:?}",
                next - 1,
                s,
                name,
                want
            );
        }
    }
    ensure!(sections.len() == no, "{} sections are read instead of {}", sections.len(), no);
    ensure!(symbols.len() == next, "{} symbols are read instead of {}", symbols.len(), next);
    Ok(Info::new(no > 0)
        .class(no == 3, "three sections")
        .class(relocs > 0, "relocations")
        .class(next > 255, "over 255 symbols"))
}

/// The object of a program: labels by name, label operands by target.
fn own_program(c: &p_a::Case) -> Checked {
    let (src, _) = c.prog.render(&c.style);
    let b = sut::assemble_in_parts(&src)?;
    let w = whole(&b)?;
    ensure!(w.header.is_some(), "the header of an object written by at-asm is refused");
    ensure!(w.commands.iter().all(|c| c.is_some()), "a command of an object written by at-asm is refused");
    ensure!(w.symbols.iter().all(|c| c.is_some()) && !w.refused_strings, "a symbol of an object written by at-asm is refused");
    let names: Vec<String> = w.symbols.iter().flatten().filter_map(|s| s.name.clone()).collect();
    let mut want: Vec<&str> = c.prog.stmts.iter().filter_map(|s| s.defines()).collect();
    let mut got: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
    want.sort();
    got.sort();
    ensure!(got == want, "the symbols read are {:?} instead of {:?}", got, want);
    let mut targets = [vec![], vec![]];
    let mut cur = Sec::Text;
    for s in &c.prog.stmts {
        match s {
            Stmt::Section(s) => cur = *s,
            Stmt::Mov { src: prog::Src::Label(l), .. } if cur.idx() < 2 => targets[cur.idx()].push(l.as_str()),
            _ => {}
        }
    }
    for s in [Sec::Text, Sec::Data] {
        let (seg, sect) = s.macho();
        let found = w.commands.iter().flatten().flat_map(|c| &c.sections).find(|x| x.names == (seg.to_string(), sect.to_string()));
        let got: Vec<&str> = found.map_or(vec![], |h| h.relocs.iter().filter_map(|r| names.get(r[5] as usize)).map(|s| s.as_str()).collect());
        ensure!(got == targets[s.idx()], "the label operands read in {} are {:?} instead of {:?}", sect, got, targets[s.idx()]);
    }
    let n = targets[0].len() + targets[1].len();
    Ok(Info::new(!names.is_empty()).class(n > 0, "label operands").class(!names.is_empty(), "symbols"))
}

// --------------------------------------------------- objects of other tools

/// Assembly for LLVM's assembler.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Other {
    platform: u8,
    minos: (u16, u8, u8),
    sdk: Option<(u16, u8, u8)>,
    subsections: bool,
    sections: Vec<OtherSection>,
    /// absolute, common and zerofill symbols: kind, value or size, alignment, global
    extra: Vec<(u8, u32, u8, bool)>,
    /// link it: 1 a program, 2 a library, 3 a bundle
    link: u8,
    /// with debugging information for the assembly
    debug: bool,
    /// for another processor, which at-mac's header does not model
    arm: bool,
    /// fields given another value afterwards
    patches: Vec<Patch>,
}

/// A record of the file, a field of it, and what to put there.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Patch {
    record: u16,
    field: u16,
    code: u8,
    value: u64,
}

#[derive(Clone, Copy)]
enum Field {
    /// a number of this many bytes
    Any(usize),
    /// one of these codes
    Of(usize, &'static [u32]),
    /// some of these bits, and one of these codes
    Bits(&'static [u32], &'static [u32]),
    Name,
    /// what the low nibbles of relocation entries hold
    Reloc,
    SymbolType,
    /// the command takes the one after it in
    Swallow,
}

/// The records of a file: place of each and its fields (offset, kind).
fn records(b: &[u8]) -> Vec<(usize, Vec<(usize, Field)>)> {
    use Field::*;
    let at = |o: usize| u32_at(b, o).unwrap_or(0);
    let mut out = vec![(0, vec![(24, Bits(&spec::HEADER_FLAGS, &[0])), (24, Any(4)), (12, Of(4, &spec::FILE_TYPES)), (28, Any(4))])];
    // a negative place means another kind of entry on other processors
    let x86 = at(4) == 0x1000007;
    let mut c = 32;
    for _ in 0..at(16) {
        if at(c + 4) < 8 || c + at(c + 4) > b.len() {
            break;
        }
        match at(c) {
            0x19 => {
                out.push((c, vec![(8, Name), (24, Any(8)), (32, Any(8)), (56, Any(4)), (60, Any(4)), (68, Any(4))]));
                for k in 0..at(c + 64) {
                    let s = c + 72 + 80 * k;
                    let flags = Bits(&spec::SECTION_ATTRS, &spec::SECTION_TYPES);
                    out.push((s, vec![(0, Name), (16, Name), (32, Any(8)), (52, Any(4)), (64, flags), (64, flags), (68, Any(4)), (72, Any(4)), (76, Any(4))]));
                    for r in 0..at(s + 60) {
                        out.push((at(s + 56) + 8 * r, if x86 { vec![(4, Reloc), (0, Any(4))] } else { vec![(4, Reloc)] }));
                    }
                }
            }
            2 => {
                for k in 0..at(c + 12) {
                    out.push((at(c + 8) + 16 * k, vec![(4, SymbolType), (4, SymbolType), (5, Any(1)), (6, Any(2)), (8, Any(8))]));
                }
            }
            0x32 => {
                let version = [(12, Any(4)), (16, Any(4)), (8, Of(4, &spec::PLATFORMS)), (8, Of(4, &spec::PLATFORMS)), (0, Swallow), (0, Swallow)];
                out.extend((0..6).map(|_| (c, version.to_vec())));
                for t in 0..at(c + 20) {
                    out.extend((0..4).map(|_| (c + 24 + 8 * t, vec![(0, Of(4, &spec::TOOLS)), (4, Any(4))])));
                }
            }
            _ => {}
        }
        c += at(c + 4);
    }
    out
}

/// What at-mac refuses of everything the linker writes is made something it does not:
/// the tool, and the string table that begins with a blank.
fn modelled(b: &mut [u8], code: u8) {
    let mut c = 32;
    for _ in 0..u32_at(b, 16).unwrap_or(0) {
        let at = |o: usize| u32_at(b, c + o).unwrap_or(0);
        let (size, strings, tools) = (at(4), at(16), at(20));
        match at(0) {
            0x32 => (0..tools).for_each(|t| b[c + 24 + 8 * t] = 1 + code % 3),
            2 if b.get(strings) == Some(&b' ') => b[strings] = 0,
            _ => {}
        }
        c += size;
    }
}

impl Patch {
    fn apply(&self, b: &mut [u8]) {
        let all = records(b);
        let (at, fields) = &all[self.record as usize % all.len()];
        let (off, field) = fields[self.field as usize % fields.len()];
        let at = at + off;
        let mut put = |n: usize, v: u64| {
            if let Some(x) = b.get_mut(at..at + n) {
                x.copy_from_slice(&v.to_le_bytes()[..n]);
            }
        };
        let code = |l: &[u32]| match self.code {
            0..=219 => l[self.code as usize % l.len()] as u64,
            _ => self.value & 0xff,
        };
        match field {
            Field::Any(n) => put(n, self.value),
            Field::Of(n, l) => put(n, code(l)),
            Field::Bits(bits, l) => {
                let picked: u32 = bits.iter().enumerate().filter(|(i, _)| self.value >> i & 1 == 1).map(|x| *x.1).sum();
                put(4, picked as u64 | code(l))
            }
            Field::Name => {
                let n = self.value as usize % 17;
                let name: Vec<u8> = (0..16).map(|i| if i < n { b'a' + (self.value >> i) as u8 % 26 } else { 0 }).collect();
                if let Some(x) = b.get_mut(at..at + 16) {
                    x.copy_from_slice(&name);
                }
            }
            Field::Reloc => {
                // the number stays, as it must name something
                let old = u32_at(b, at).unwrap_or(0) as u64;
                let mut put = |v: u64| {
                    if let Some(x) = b.get_mut(at..at + 4) {
                        x.copy_from_slice(&v.to_le_bytes()[..4]);
                    }
                };
                put(old & 0xff_ffff | self.value << 24 & 0xff00_0000)
            }
            Field::SymbolType => {
                let t = spec::N_TYPES[self.code as usize % 5] as u64 | self.value & 0x11;
                put(1, [t, t, t, 0x20, self.value & 0xff][self.field as usize / 8 % 5])
            }
            Field::Swallow => {
                let (Ok(size), Ok(tools), Ok(n)) = (u32_at(b, at + 4), u32_at(b, at + 20), u32_at(b, 16)) else {
                    return;
                };
                let next = u32_at(b, at + size + 4).unwrap_or(0);
                if next % 8 == 0 && next > 0 && next < 200 && !matches!(u32_at(b, at + size), Ok(2) | Ok(0x19) | Ok(0xb)) {
                    for (o, v) in [(at + 4, size + next), (at + 20, tools + next / 8), (16, n - 1)] {
                        b[o..o + 4].copy_from_slice(&(v as u32).to_le_bytes());
                    }
                    for t in 0..next / 8 {
                        let o = at + size + 8 * t;
                        b[o..o + 4].copy_from_slice(&(1 + (self.value >> t) as u32 % 3).to_le_bytes());
                    }
                }
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct OtherSection {
    /// a place in SECTIONS, or a name of this many characters
    which: u8,
    attr: u8,
    parts: Vec<OtherPart>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum OtherPart {
    /// global, private extern, weak; characters of the name; n_desc
    Label(u8, u8, Option<u16>),
    Bytes(u8),
    Align(u8),
    /// width, to, addend
    Ref(bool, Index8, i32),
    Diff(bool, Index8, Index8),
    Call(Index8),
    Lea(Index8),
    Got(Index8),
    Movabs(Index8),
}

/// A label of the file, or one of three undefined ones.
type Index8 = u8;

const SECTIONS: [&str; 12] = [
    "__TEXT,__text,regular,pure_instructions",
    "__DATA,__data",
    "__TEXT,__const",
    "__DATA,__const",
    "__TEXT,__cstring,cstring_literals",
    "__TEXT,__literal4,4byte_literals",
    "__TEXT,__literal8,8byte_literals",
    "__DATA,__mod_init_func,mod_init_funcs",
    "__TEXT,__textcoal_nt,coalesced,pure_instructions",
    "__DATA,__objc_x,regular,no_dead_strip",
    "__DWARF,__debug_info,regular,debug",
    "__TEXT,__more,regular,pure_instructions",
];
const OTHER_ATTRS: [&str; 5] = ["", "regular", "regular,no_toc", "regular,strip_static_syms+no_toc", "regular,live_support"];
const PLATFORM_NAMES: [&str; 5] = ["macos", "ios", "tvos", "watchos", "driverkit"];

impl Other {
    fn source(&self) -> String {
        let mut o = String::new();
        let v = |v: (u16, u8, u8)| format!("{}, {}, {}", v.0, v.1, v.2);
        o += &format!(".build_version {}, {}", PLATFORM_NAMES[self.platform as usize % 5], v(self.minos));
        if let Some(s) = self.sdk {
            o += &format!(" sdk_version {}", v(s));
        }
        o += "\n";
        // names first: every label can be referred to from everywhere
        let mut names = vec![];
        for s in &self.sections {
            for p in &s.parts {
                if let OtherPart::Label(_, len, _) = p {
                    let n = names.len();
                    names.push(format!("_{}{}", "n".repeat(*len as usize % 70), n));
                }
            }
        }
        let mut all = names.clone();
        all.extend(["_u0".to_string(), "_u1".into(), "_undefined_with_a_longer_name".into()]);
        let defined = names.len();
        let pick = |i: &u8| all[*i as usize % all.len()].clone();
        let local = |i: &u8| names[*i as usize % defined.max(1)].clone();
        let mut next = 0;
        for (no, s) in self.sections.iter().enumerate() {
            if (s.which as usize) < SECTIONS.len() {
                o += &format!(".section {}\n", SECTIONS[s.which as usize]);
            } else {
                let n = 1 + s.which as usize % 16;
                let name: String = format!("{}________________", no).chars().take(n).collect();
                let attr = OTHER_ATTRS[s.attr as usize % OTHER_ATTRS.len()];
                o += &format!(".section __S{},{}{}{}\n", no, name, if attr.is_empty() { "" } else { "," }, attr);
            }
            let code = s.which != 4 && s.which != 5 && s.which != 6;
            for p in &s.parts {
                match p {
                    OtherPart::Label(scope, _, desc) => {
                        let n = &names[next];
                        next += 1;
                        match scope % 4 {
                            1 => o += &format!(".globl {}\n", n),
                            2 => o += &format!(".globl {0}\n.private_extern {0}\n", n),
                            3 => o += &format!(".globl {0}\n.weak_definition {0}\n", n),
                            _ => {}
                        }
                        if let Some(d) = desc {
                            o += &format!(".desc {}, {}\n", n, d);
                        }
                        o += &format!("{}:\n", n);
                    }
                    OtherPart::Bytes(n) if code => o += &format!(".fill {}, 1, 0x5a\n", n),
                    OtherPart::Bytes(n) => match s.which {
                        4 => o += &format!(".asciz \"{}\"\n", "c".repeat(*n as usize)),
                        5 => o += &format!(".long {}\n", n),
                        _ => o += &format!(".quad {}\n", n),
                    },
                    _ if !code => {}
                    OtherPart::Align(n) => o += &format!(".p2align {}\n", n % 6),
                    OtherPart::Ref(wide, i, add) => o += &format!("{} {} + {}\n", if *wide { ".quad" } else { ".long" }, pick(i), add),
                    OtherPart::Diff(wide, a, b) if defined > 0 => o += &format!("{} {} - {}\n", if *wide { ".quad" } else { ".long" }, pick(a), local(b)),
                    OtherPart::Diff(..) => {}
                    OtherPart::Call(i) if self.arm => o += &format!("bl {}\n", pick(i)),
                    OtherPart::Lea(i) if self.arm => o += &format!("adrp x1, {0}@PAGE\nadd x1, x1, {0}@PAGEOFF\n", pick(i)),
                    OtherPart::Got(i) if self.arm => o += &format!("adrp x2, {0}@GOTPAGE\nldr x2, [x2, {0}@GOTPAGEOFF]\n", pick(i)),
                    OtherPart::Movabs(i) if self.arm => o += &format!("adrp x3, {0}@PAGE + 8\n", pick(i)),
                    OtherPart::Call(i) => o += &format!("callq {}\n", pick(i)),
                    OtherPart::Lea(i) => o += &format!("leaq {}(%rip), %rdx\n", pick(i)),
                    OtherPart::Got(i) => o += &format!("movq {}@GOTPCREL(%rip), %r9\n", pick(i)),
                    OtherPart::Movabs(i) => o += &format!("movabsq ${}, %r12\n", pick(i)),
                }
            }
        }
        for (k, (kind, n, align, global)) in self.extra.iter().enumerate() {
            match kind % 3 {
                0 => {
                    if *global {
                        o += &format!(".globl _x{}\n", k);
                    }
                    o += &format!("_x{} = {}\n", k, n);
                }
                1 => o += &format!(".comm _x{}, {}, {}\n", k, n % 5000 + 1, align % 8),
                _ => o += &format!(".zerofill __DATA,__bss,_x{},{},{}\n", k, n % 5000 + 1, align % 8),
            }
        }
        if self.link == 1 {
            o += ".section __TEXT,__text,regular,pure_instructions\n.globl _main\n_main: ret\n";
        }
        if self.subsections {
            o += ".subsections_via_symbols\n";
        }
        o
    }
}

fn other() -> BoxedStrategy<Other> {
    let part = prop_oneof![
        4 => (any::<u8>(), prop_oneof![4 => 0u8..6, 1 => any::<u8>()], prop_oneof![4 => Just(None), 1 => any::<u16>().prop_map(|v| Some(v & 0xff))]).prop_map(|(a, b, c)| OtherPart::Label(a, b, c)),
        3 => any::<u8>().prop_map(OtherPart::Bytes),
        1 => any::<u8>().prop_map(OtherPart::Align),
        2 => (any::<bool>(), any::<u8>(), any::<i32>()).prop_map(|(w, i, a)| OtherPart::Ref(w, i, a >> 20)),
        1 => (any::<bool>(), any::<u8>(), any::<u8>()).prop_map(|(w, a, b)| OtherPart::Diff(w, a, b)),
        1 => any::<u8>().prop_map(OtherPart::Call),
        1 => any::<u8>().prop_map(OtherPart::Lea),
        1 => any::<u8>().prop_map(OtherPart::Got),
        1 => any::<u8>().prop_map(OtherPart::Movabs),
    ];
    let section = (prop_oneof![6 => 0u8..12, 3 => any::<u8>()], any::<u8>(), pvec(part, 0..8)).prop_map(|(which, attr, parts)| OtherSection { which, attr, parts });
    let version = || (prop_oneof![3 => 1u16..30, 1 => 1u16..=u16::MAX], prop_oneof![3 => 0u8..20, 1 => any::<u8>()], prop_oneof![3 => 0u8..20, 1 => any::<u8>()]);
    (
        prop_oneof![3 => Just(0u8), 2 => any::<u8>()],
        version(),
        prop_oneof![1 => Just(None), 2 => version().prop_map(Some)],
        any::<bool>(),
        pvec(section, 0..6),
        pvec((any::<u8>(), any::<u32>().prop_map(|v| v >> 1), any::<u8>(), any::<bool>()), 0..4),
        (select(vec![0u8, 0, 0, 1, 2, 3]), prop_oneof![3 => Just(false), 1 => Just(true)], prop_oneof![5 => Just(false), 1 => Just(true)]),
        prop_oneof![1 => Just(vec![]), 3 => pvec((any::<u16>(), any::<u16>(), any::<u8>(), crate::gen::edge_u64()).prop_map(|(record, field, code, value)| Patch { record, field, code, value }), 1..6)],
    )
        .prop_map(|(platform, minos, sdk, subsections, sections, extra, (link, debug, arm), patches)| Other {
            platform,
            minos,
            sdk,
            subsections,
            sections,
            extra,
            link,
            debug,
            arm,
            patches,
        })
        .boxed()
}

/// What llvm-objdump and llvm-nm show of a file.
struct Shown {
    header: Vec<u64>,
    commands: Vec<ShownCommand>,
    /// by section name
    relocs: Vec<(String, Vec<[u64; 6]>)>,
    /// value, type, section, description, place of the name, name
    symbols: Vec<(u64, u8, u8, u16, u32, String)>,
}

#[derive(Default)]
struct ShownCommand {
    name: String,
    lines: Vec<(String, String)>,
    sections: Vec<Vec<(String, String)>>,
    tools: Vec<(String, String)>,
}

fn number(s: &str) -> Option<u64> {
    match s.strip_prefix("0x") {
        Some(h) => u64::from_str_radix(h, 16).ok(),
        None => s.parse().ok(),
    }
}

fn show(path: &std::path::Path) -> Result<Option<Shown>, Fail> {
    let dump = p_o::need(&["llvm-objdump-18", "llvm-objdump"])?;
    let nm = p_o::need(&["llvm-nm-18", "llvm-nm"])?;
    let odd = |what: &str| Fail::Machinery(format!("llvm-objdump shows something else than expected: {}", what));
    let r = sut::run(Command::new(&dump).args(["--macho", "--private-headers", "--non-verbose"]).arg(path))?;
    if !r.ok() {
        return Ok(None);
    }
    let text = String::from_utf8_lossy(&r.stdout).into_owned();
    if text.contains("is not an object file") {
        return Ok(None);
    }
    let mut header = vec![];
    let mut commands: Vec<ShownCommand> = vec![];
    let mut in_section = false;
    for l in text.lines() {
        let mut w = l.split_whitespace();
        let (a, b) = (w.next().unwrap_or(""), w.next().unwrap_or(""));
        if a.starts_with("0x") && header.is_empty() {
            header = l.split_whitespace().filter_map(number).collect();
        } else if a == "Load" && b == "command" {
            commands.push(ShownCommand::default());
            in_section = false;
        } else if let Some(c) = commands.last_mut() {
            let value = l.trim().strip_prefix(a).unwrap_or("").trim().to_string();
            if a == "Section" && b.is_empty() {
                c.sections.push(vec![]);
                in_section = true;
            } else if a == "cmd" {
                c.name = b.into();
            } else if a == "tool" || (a == "version" && c.name == "LC_BUILD_VERSION") {
                c.tools.push((a.into(), value));
            } else if in_section {
                c.sections.last_mut().unwrap().push((a.into(), value));
            } else {
                c.lines.push((a.into(), value));
            }
        }
    }
    if header.len() != 8 {
        return Err(odd(&format!("header {:x?} in {}", header, text.lines().take(4).collect::<Vec<_>>().join(" / "))));
    }

    let r = sut::run(Command::new(&dump).args(["--macho", "-r", "--non-verbose"]).arg(path))?;
    if !r.ok() {
        return Ok(None);
    }
    let text = String::from_utf8_lossy(&r.stdout).into_owned();
    let mut relocs: Vec<(String, Vec<[u64; 6]>)> = vec![];
    for l in text.lines().filter(|_| header[4] == 1) {
        if let Some(s) = l.strip_prefix("Relocation information (") {
            relocs.push((s.split(')').next().unwrap_or("").into(), vec![]));
        } else if l.starts_with("address") || relocs.is_empty() || l.trim().is_empty() {
        } else {
            let w: Vec<&str> = l.split_whitespace().collect();
            let n: Vec<u64> = w[1..].iter().filter_map(|s| number(s)).collect();
            let a = u64::from_str_radix(w[0], 16).map_err(|_| odd(l))?;
            if n.len() != 6 || n[4] != 0 {
                return Err(odd(l));
            }
            relocs.last_mut().unwrap().1.push([a, n[0], n[1], n[2], n[3], n[5]]);
        }
    }

    let r = sut::run(Command::new(&nm).args(["-p", "-x", "-a", "--no-dyldinfo"]).arg(path))?;
    if !r.ok() {
        return Ok(None);
    }
    let text = String::from_utf8_lossy(&r.stdout).into_owned();
    let mut symbols = vec![];
    for l in text.lines().filter(|l| !l.trim().is_empty()) {
        let w: Vec<&str> = l.split_whitespace().collect();
        let h = |k: usize| w.get(k).and_then(|s| u64::from_str_radix(s, 16).ok()).ok_or_else(|| odd(l));
        // address, type, section, description, place of the name: 16 + 2 + 2 + 4 + 8 digits
        let mut name = l.trim_start().get(37..).unwrap_or("");
        if h(1)? & 0xee == 0xa {
            name = name.split("(indirect").next().unwrap();
        }
        symbols.push((h(0)?, h(1)? as u8, h(2)? as u8, h(3)? as u16, h(4)? as u32, name.trim().to_string()));
    }
    Ok(Some(Shown { header, commands, relocs, symbols }))
}

/// A field as LLVM writes it: versions, alignments and absent values have notations.
fn shown_number(key: &str, s: &str) -> Option<u64> {
    match key {
        "minos" | "sdk" => {
            if s == "n/a" {
                return Some(0);
            }
            let mut v = s.split('.').map(|p| p.parse::<u64>().ok());
            Some(v.next()?? << 16 | v.next()?? << 8 | v.next().map_or(Some(0), |p| p)?)
        }
        "align" => number(s.strip_prefix("2^")?.split(' ').next()?),
        _ => number(s.split(' ').next()?),
    }
}

const KNOWN_COMMANDS: [&str; 4] = ["LC_SEGMENT_64", "LC_SYMTAB", "LC_DYSYMTAB", "LC_BUILD_VERSION"];

/// The file, and then the file with the patches.
fn compare(path: &std::path::Path, what: &str, patches: &[Patch], info: &mut Vec<&'static str>) -> Result<(), Fail> {
    compare_one(path, what, info)?;
    if patches.is_empty() {
        return Ok(());
    }
    let io = |e: std::io::Error| Fail::Machinery(e.to_string());
    let mut bytes = std::fs::read(path).map_err(io)?;
    modelled(&mut bytes, patches[0].code);
    for p in patches {
        p.apply(&mut bytes);
    }
    let path = path.with_extension("patched");
    std::fs::write(&path, bytes).map_err(io)?;
    if compare_one(&path, &format!("patched {}", what), info)? {
        info.push("patched");
    }
    Ok(())
}

/// Whether LLVM reads it.
fn compare_one(path: &std::path::Path, what: &str, info: &mut Vec<&'static str>) -> Result<bool, Fail> {
    let bytes = std::fs::read(path).map_err(|e| Fail::Machinery(e.to_string()))?;
    let Some(shown) = show(path)? else {
        return Ok(false);
    };
    let h = &shown.header;
    // magic, cputype, cpusubtype, caps, filetype, ncmds, sizeofcmds, flags
    let sub = h[2] | h[3] << 24;
    let known_flags: u32 = spec::HEADER_FLAGS.iter().sum();
    let modelled = spec::CPUS.contains(&(h[1] as u32, sub as u32)) && spec::FILE_TYPES.contains(&(h[4] as u32)) && h[7] as u32 & !known_flags == 0;
    let w = whole(&bytes).map_err(|m| format!("{}: {}", what, m))?;
    let want: Fields = vec![
        ("magic", h[0]),
        ("cputype", h[1]),
        ("cpusubtype", sub),
        ("filetype", h[4]),
        ("ncmds", h[5]),
        ("sizeofcmds", h[6]),
        ("flags", h[7]),
    ];
    match &w.header {
        Some(got) => ensure!(*got == want, "{}: the header is read as {:x?}, llvm-objdump shows {:x?}", what, got, want),
        None => {
            ensure!(!modelled, "{}: the header {:x?} is refused", what, h);
            info.push("unmodelled header refused");
        }
    }
    if w.commands.len() != shown.commands.len() {
        return Err(Fail::Machinery(format!("llvm-objdump shows {} of {} commands", shown.commands.len(), w.commands.len())));
    }
    for (i, (got, want)) in w.commands.iter().zip(&shown.commands).enumerate() {
        let at = format!("{}: command {} ({})", what, i, want.name);
        let value = |l: &[(String, String)], k: &str| l.iter().find(|x| x.0 == k).and_then(|x| shown_number(k, &x.1));
        let text = |l: &[(String, String)], k: &str| {
            let t = l.iter().find(|x| x.0 == k).map_or("", |x| &x.1);
            t.strip_suffix("(does not match segment)").unwrap_or(t).trim_end().to_string()
        };
        let known = KNOWN_COMMANDS.contains(&want.name.as_str())
            && want.sections.iter().all(|s| {
                let f = value(s, "flags").unwrap_or(u64::MAX) as u32;
                let attrs: u32 = spec::SECTION_ATTRS.iter().sum();
                spec::SECTION_TYPES.contains(&(f & 0xff)) && f & !0xff & !attrs == 0
            })
            && want.tools.iter().all(|t| t.0 != "tool" || number(&t.1).map_or(false, |t| spec::TOOLS.contains(&(t as u32))))
            && (want.name != "LC_BUILD_VERSION" || value(&want.lines, "platform").map_or(false, |p| spec::PLATFORMS.contains(&(p as u32))));
        let Some(got) = got else {
            ensure!(!known, "{} is refused", at);
            info.push("unmodelled command refused");
            continue;
        };
        if !KNOWN_COMMANDS.contains(&want.name.as_str()) {
            continue;
        }
        if let Some(n) = &got.segname {
            ensure!(*n == text(&want.lines, "segname"), "{}: the name is {:?}, llvm-objdump shows {:?}", at, n, text(&want.lines, "segname"));
        }
        for (k, v) in &got.fields {
            let shown = value(&want.lines, k);
            ensure!(shown == Some(*v), "{}: {} is read as {:#x}, llvm-objdump shows {:x?}", at, k, v, shown);
        }
        ensure!(got.sections.len() == want.sections.len(), "{}: {} sections are read, llvm-objdump shows {}", at, got.sections.len(), want.sections.len());
        for (s, l) in got.sections.iter().zip(&want.sections) {
            let names = (text(l, "segname"), text(l, "sectname"));
            ensure!(s.names == names, "{}: a section is {:?}, llvm-objdump shows {:?}", at, s.names, names);
            for (k, v) in &s.fields {
                let shown = value(l, k);
                ensure!(shown == Some(*v), "{}: {} of {} is read as {:#x}, llvm-objdump shows {:x?}", at, k, names.1, v, shown);
            }
            let key = format!("{},{}", names.0, names.1);
            let relocs = shown.relocs.iter().find(|r| r.0 == key).map_or(vec![], |r| r.1.clone());
            // llvm-objdump looks elsewhere for those of linked files
            ensure!(h[4] != 1 || s.relocs == relocs, "{}: the relocations of {} are read as {:x?}, llvm-objdump shows {:x?}", at, key, s.relocs, relocs);
            if !relocs.is_empty() {
                info.push("relocations");
            }
        }
        let tools: Vec<u64> = want.tools.iter().filter_map(|t| shown_tool(&t.0, &t.1)).collect();
        let read: Vec<u64> = got.tools.iter().flat_map(|t| [t.0, t.1]).collect();
        if !read.is_empty() {
            info.push("build tools");
        }
        ensure!(read == tools, "{}: the tools are read as {:x?}, llvm-objdump shows {:x?}", at, read, want.tools);
    }
    if shown.symbols.len() != w.symbols.len() {
        return Err(Fail::Machinery(format!("llvm-nm shows {} of {} symbols", shown.symbols.len(), w.symbols.len())));
    }
    for (i, (got, want)) in w.symbols.iter().zip(&shown.symbols).enumerate() {
        let at = format!("{}: symbol {} (`{}`)", what, i, want.5);
        let known = match want.1 & 0xe0 {
            0 => spec::N_TYPES.contains(&(want.1 & 0xe)),
            _ => spec::STABS.contains(&want.1),
        };
        let Some(got) = got else {
            ensure!(!known, "{} is refused", at);
            continue;
        };
        ensure!(
            (got.value, got.typ, got.sect, got.desc, got.strx) == (want.0, want.1, want.2, want.3, want.4),
            "{}: read as {:x?}, llvm-nm shows {:x?}",
            at,
            got,
            want
        );
        if let Some(n) = &got.name {
            ensure!(n.trim() == want.5, "{}: the name is read as `{}`", at, n);
        }
    }
    if let (true, Some(t)) = (w.refused_strings, shown.commands.iter().find(|c| c.name == "LC_SYMTAB")) {
        let get = |k: &str| t.lines.iter().find(|l| l.0 == k).and_then(|l| number(&l.1)).unwrap_or(0) as usize;
        let table = piece(&bytes, get("stroff"), get("strsize")).map_err(Fail::Machinery)?;
        let fine = table.first() == Some(&0) && table.last() == Some(&0) && table.is_ascii();
        ensure!(!fine, "{}: the string table is refused", what);
    }
    if !w.symbols.is_empty() {
        info.push("symbols");
    }
    if w.symbols.iter().flatten().any(|s| s.typ & 0xe0 != 0) {
        info.push("debug symbols");
    }
    Ok(true)
}

fn shown_tool(key: &str, s: &str) -> Option<u64> {
    if key == "tool" {
        return number(s);
    }
    let mut v = s.split('.').map(|p| p.parse::<u64>().ok());
    Some(v.next()?? << 16 | v.next()?? << 8 | v.next().map_or(Some(0), |p| p)?)
}

fn others(c: &Other) -> Checked {
    let mc = p_o::need(&["llvm-mc-18", "llvm-mc"])?;
    let dir = Scratch::new()?;
    std::fs::write(dir.path("in.s"), c.source()).map_err(|e| Fail::Machinery(e.to_string()))?;
    let r = sut::run(
        Command::new(mc)
            .current_dir(&dir.0)
            .args(["-triple", if c.arm { "arm64-apple-macos11" } else { "x86_64-apple-macos10.14" }])
            .args(if c.debug { &["-g"][..] } else { &[] })
            .args(["-filetype=obj", "in.s", "-o", "in.o"]),
    )?;
    if !r.ok() {
        return Ok(Info::new(false).class(true, "not assembled"));
    }
    let mut seen = vec![];
    compare(&dir.path("in.o"), "object", &c.patches, &mut seen)?;
    if c.link > 0 {
        let ld = p_o::need(&["ld64.lld-18", "ld64.lld"])?;
        let mut l = Command::new(ld);
        l.current_dir(&dir.0).args(["-arch", if c.arm { "arm64" } else { "x86_64" }, "-platform_version", "macos", "10.14", "10.15", "-undefined", "dynamic_lookup"]);
        l.args(match c.link {
            1 => ["-e", "_main"],
            2 => ["-dylib", "-dead_strip_dylibs"],
            _ => ["-bundle", "-dead_strip_dylibs"],
        });
        let r = sut::run(l.args(["-o", "out", "in.o"]))?;
        if r.ok() {
            compare(&dir.path("out"), ["program", "library", "bundle"][c.link as usize % 4 - 1], &c.patches, &mut seen)?;
            seen.push("linked");
        }
    }
    let mut info = Info::new(true);
    for k in ["relocations", "symbols", "debug symbols", "unmodelled header refused", "unmodelled command refused", "linked", "patched", "build tools"] {
        info = info.class(seen.contains(&k), k);
    }
    Ok(info)
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "M07",
        level: "exploration",
        rule: "A case is a whole Mach-O file: an object of at-obj, the object of a program, or generated assembly put through llvm-mc and (half of them) ld64.lld. It is read with at-mac from the header on; every record is written again as the same bytes, and the values are compared with what the object was made of, or with what llvm-objdump and llvm-nm show. Records with codes at-mac does not model must be refused. Non-trivial: it has a section (own files), it assembles (others).",
        assumptions: &["llvm-mc, ld64.lld, llvm-objdump and llvm-nm 18 are correct."],
        parts: || {
            vec![
                listed("large", p_o::large_objects, own),
                random("own-objects", (60_000, 2_000_000), |_| p_o::object(p_o::NORMAL), own),
                random("own-programs", (20_000, 500_000), |_| p_a::case_of(prog::program(prog::GENERAL)), own_program),
                random("other-tools", (1_000, 60_000), |_| other(), others),
            ]
        },
    }]
}
