//! Mach-O records as plain numbers, and their byte images in either byte order,
//! written from mach-o/loader.h, nlist.h and reloc.h.

use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Rec {
    Header {
        magic: u32,
        cpu: u32,
        cpusub: u32,
        filetype: u32,
        ncmds: u32,
        sizeofcmds: u32,
        flags: u32,
        reserved: u32,
    },
    Segment(Segment),
    Section(Section),
    Symtab {
        cmdsize: u32,
        f: [u32; 4],
    },
    Dysymtab {
        cmdsize: u32,
        f: [u32; 18],
    },
    Build(Build),
    Tool(Tool),
    Nlist {
        strx: u32,
        typ: u8,
        sect: u8,
        desc: u16,
        value: u64,
    },
    Reloc {
        addr: u32,
        num: u32,
        pcrel: bool,
        len: u8,
        ext: bool,
        typ: u8,
    },
    /// whole load commands
    SegmentCmd(Segment, Vec<Section>),
    BuildCmd(Build, Vec<Tool>),
    SymtabCmd {
        cmdsize: u32,
        f: [u32; 4],
    },
    DysymtabCmd {
        cmdsize: u32,
        f: [u32; 18],
    },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Segment {
    pub cmdsize: u32,
    pub segname: String,
    pub vmaddr: u64,
    pub vmsize: u64,
    pub fileoff: u64,
    pub filesize: u64,
    pub maxprot: u32,
    pub initprot: u32,
    pub nsects: u32,
    pub flags: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Section {
    pub sectname: String,
    pub segname: String,
    pub addr: u64,
    pub size: u64,
    pub offset: u32,
    pub align: u32,
    pub reloff: u32,
    pub nreloc: u32,
    pub flags: u32,
    pub reserved: [u32; 3],
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Build {
    pub cmdsize: u32,
    pub platform: u32,
    pub minos: u32,
    pub sdk: u32,
    pub ntools: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Tool {
    pub tool: u32,
    pub version: u32,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Kind {
    Header,
    Segment,
    Section,
    Symtab,
    Dysymtab,
    Build,
    Tool,
    Nlist,
    Reloc,
    Command,
}

pub const KINDS: [Kind; 10] = [
    Kind::Header,
    Kind::Segment,
    Kind::Section,
    Kind::Symtab,
    Kind::Dysymtab,
    Kind::Build,
    Kind::Tool,
    Kind::Nlist,
    Kind::Reloc,
    Kind::Command,
];

impl Rec {
    pub fn kind(&self) -> Kind {
        match self {
            Rec::Header { .. } => Kind::Header,
            Rec::Segment(_) => Kind::Segment,
            Rec::Section(_) => Kind::Section,
            Rec::Symtab { .. } => Kind::Symtab,
            Rec::Dysymtab { .. } => Kind::Dysymtab,
            Rec::Build(_) => Kind::Build,
            Rec::Tool(_) => Kind::Tool,
            Rec::Nlist { .. } => Kind::Nlist,
            Rec::Reloc { .. } => Kind::Reloc,
            _ => Kind::Command,
        }
    }
}

pub const FILE_TYPES: [u32; 9] = [1, 2, 3, 4, 5, 6, 7, 8, 0xA];
pub const HEADER_FLAGS: [u32; 16] = [
    0x1, 0x2, 0x4, 0x8, 0x10, 0x20, 0x80, 0x100, 0x200, 0x400, 0x800, 0x1000, 0x2000, 0x4000,
    0x200000, 0x800000,
];
pub const SECTION_TYPES: [u32; 7] = [0, 1, 2, 3, 4, 5, 0xB];
pub const SECTION_ATTRS: [u32; 8] = [
    0x100,
    0x200,
    0x400,
    0x0200_0000,
    0x0800_0000,
    0x2000_0000,
    0x4000_0000,
    0x8000_0000,
];
pub const PLATFORMS: [u32; 10] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10];
pub const TOOLS: [u32; 3] = [1, 2, 3];
pub const N_TYPES: [u8; 5] = [0x0, 0x2, 0xe, 0xc, 0xa];
pub const STABS: [u8; 1] = [0x20];
pub const CPUS: [(u32, u32); 2] = [(7, 3), (0x0100_0007, 3)];

pub struct Out {
    pub big: bool,
    pub b: Vec<u8>,
}

impl Out {
    fn u8(&mut self, v: u8) {
        self.b.push(v);
    }
    fn u16(&mut self, v: u16) {
        if self.big {
            self.b.extend(v.to_be_bytes())
        } else {
            self.b.extend(v.to_le_bytes())
        }
    }
    fn u32(&mut self, v: u32) {
        if self.big {
            self.b.extend(v.to_be_bytes())
        } else {
            self.b.extend(v.to_le_bytes())
        }
    }
    fn u64(&mut self, v: u64) {
        if self.big {
            self.b.extend(v.to_be_bytes())
        } else {
            self.b.extend(v.to_le_bytes())
        }
    }
    fn name(&mut self, s: &str) {
        let mut n = [0u8; 16];
        n[..s.len()].copy_from_slice(s.as_bytes());
        self.b.extend(n);
    }
}

fn segment(o: &mut Out, s: &Segment) {
    o.u32(0x19);
    o.u32(s.cmdsize);
    o.name(&s.segname);
    o.u64(s.vmaddr);
    o.u64(s.vmsize);
    o.u64(s.fileoff);
    o.u64(s.filesize);
    o.u32(s.maxprot);
    o.u32(s.initprot);
    o.u32(s.nsects);
    o.u32(s.flags);
}

fn section(o: &mut Out, s: &Section) {
    o.name(&s.sectname);
    o.name(&s.segname);
    o.u64(s.addr);
    o.u64(s.size);
    o.u32(s.offset);
    o.u32(s.align);
    o.u32(s.reloff);
    o.u32(s.nreloc);
    o.u32(s.flags);
    for r in s.reserved {
        o.u32(r);
    }
}

fn build(o: &mut Out, b: &Build) {
    o.u32(0x32);
    o.u32(b.cmdsize);
    o.u32(b.platform);
    o.u32(b.minos);
    o.u32(b.sdk);
    o.u32(b.ntools);
}

fn tool(o: &mut Out, t: &Tool) {
    o.u32(t.tool);
    o.u32(t.version);
}

pub fn bytes(r: &Rec, big: bool) -> Vec<u8> {
    let mut o = Out { big, b: vec![] };
    match r {
        Rec::Header {
            magic,
            cpu,
            cpusub,
            filetype,
            ncmds,
            sizeofcmds,
            flags,
            reserved,
        } => {
            for v in [
                magic, cpu, cpusub, filetype, ncmds, sizeofcmds, flags, reserved,
            ] {
                o.u32(*v);
            }
        }
        Rec::Segment(s) => segment(&mut o, s),
        Rec::Section(s) => section(&mut o, s),
        Rec::Symtab { cmdsize, f } | Rec::SymtabCmd { cmdsize, f } => {
            o.u32(0x2);
            o.u32(*cmdsize);
            f.iter().for_each(|v| o.u32(*v));
        }
        Rec::Dysymtab { cmdsize, f } | Rec::DysymtabCmd { cmdsize, f } => {
            o.u32(0xb);
            o.u32(*cmdsize);
            f.iter().for_each(|v| o.u32(*v));
        }
        Rec::Build(b) => build(&mut o, b),
        Rec::Tool(t) => tool(&mut o, t),
        Rec::Nlist {
            strx,
            typ,
            sect,
            desc,
            value,
        } => {
            o.u32(*strx);
            o.u8(*typ);
            o.u8(*sect);
            o.u16(*desc);
            o.u64(*value);
        }
        Rec::Reloc {
            addr,
            num,
            pcrel,
            len,
            ext,
            typ,
        } => {
            o.u32(*addr);
            // bit fields are allocated from the low end on little-endian machines
            // and from the high end on big-endian ones
            let w = if big {
                num << 8
                    | (*pcrel as u32) << 7
                    | (*len as u32) << 5
                    | (*ext as u32) << 4
                    | *typ as u32
            } else {
                num | (*pcrel as u32) << 24
                    | (*len as u32) << 25
                    | (*ext as u32) << 27
                    | (*typ as u32) << 28
            };
            o.u32(w);
        }
        Rec::SegmentCmd(s, v) => {
            segment(&mut o, s);
            v.iter().for_each(|x| section(&mut o, x));
        }
        Rec::BuildCmd(b, v) => {
            build(&mut o, b);
            v.iter().for_each(|x| tool(&mut o, x));
        }
    }
    o.b
}

// ------------------------------------------------------------------- decoding

/// What the bytes of a record are.
#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    /// a record all of whose coded fields the library models; bytes used
    Valid(Rec, usize),
    /// a coded field has a value outside the library's vocabulary
    Unmodelled(&'static str),
    /// a command code or declared size contradicts the rest
    Inconsistent(&'static str),
    /// the bytes end too early
    Short,
    /// the format does not say (names that are not NUL-padded ASCII, ...)
    Unspecified,
}

struct In<'a> {
    b: &'a [u8],
    i: usize,
    big: bool,
    short: bool,
    odd_name: bool,
}

impl<'a> In<'a> {
    fn take(&mut self, n: usize) -> &'a [u8] {
        match self.b.get(self.i..self.i + n) {
            Some(s) => {
                self.i += n;
                s
            }
            None => {
                self.short = true;
                &[0; 16][..n]
            }
        }
    }
    fn u8(&mut self) -> u8 {
        self.take(1)[0]
    }
    fn u16(&mut self) -> u16 {
        let s = self.take(2);
        let a = [s[0], s[1]];
        if self.big {
            u16::from_be_bytes(a)
        } else {
            u16::from_le_bytes(a)
        }
    }
    fn u32(&mut self) -> u32 {
        let s = self.take(4);
        let a = [s[0], s[1], s[2], s[3]];
        if self.big {
            u32::from_be_bytes(a)
        } else {
            u32::from_le_bytes(a)
        }
    }
    fn u64(&mut self) -> u64 {
        let s = self.take(8);
        let a = [s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]];
        if self.big {
            u64::from_be_bytes(a)
        } else {
            u64::from_le_bytes(a)
        }
    }
    fn name(&mut self) -> String {
        let s = self.take(16);
        let n = s.iter().position(|c| *c == 0).unwrap_or(16);
        if s[n..].iter().any(|c| *c != 0) || !s.is_ascii() {
            self.odd_name = true;
        }
        String::from_utf8_lossy(&s[..n]).into_owned()
    }
}

struct Problems {
    unmodelled: Option<&'static str>,
    inconsistent: Option<&'static str>,
}

fn r_segment(i: &mut In, p: &mut Problems) -> Segment {
    if i.u32() != 0x19 {
        p.inconsistent = Some("command code");
    }
    let s = Segment {
        cmdsize: i.u32(),
        segname: i.name(),
        vmaddr: i.u64(),
        vmsize: i.u64(),
        fileoff: i.u64(),
        filesize: i.u64(),
        maxprot: i.u32(),
        initprot: i.u32(),
        nsects: i.u32(),
        flags: i.u32(),
    };
    if s.cmdsize as u64 != 72 + 80 * s.nsects as u64 {
        p.inconsistent = Some("segment command size");
    }
    s
}

fn r_section(i: &mut In, p: &mut Problems) -> Section {
    let s = Section {
        sectname: i.name(),
        segname: i.name(),
        addr: i.u64(),
        size: i.u64(),
        offset: i.u32(),
        align: i.u32(),
        reloff: i.u32(),
        nreloc: i.u32(),
        flags: i.u32(),
        reserved: [i.u32(), i.u32(), i.u32()],
    };
    if !SECTION_TYPES.contains(&(s.flags & 0xff)) {
        p.unmodelled = Some("section type");
    }
    if s.flags & 0xffff_ff00 & !SECTION_ATTRS.iter().fold(0, |a, b| a | b) != 0 {
        p.unmodelled = Some("section attribute");
    }
    s
}

fn r_build(i: &mut In, p: &mut Problems) -> Build {
    if i.u32() != 0x32 {
        p.inconsistent = Some("command code");
    }
    let b = Build {
        cmdsize: i.u32(),
        platform: i.u32(),
        minos: i.u32(),
        sdk: i.u32(),
        ntools: i.u32(),
    };
    if !PLATFORMS.contains(&b.platform) {
        p.unmodelled = Some("platform");
    }
    if b.cmdsize as u64 != 24 + 8 * b.ntools as u64 {
        p.inconsistent = Some("build version command size");
    }
    b
}

fn r_tool(i: &mut In, p: &mut Problems) -> Tool {
    let t = Tool {
        tool: i.u32(),
        version: i.u32(),
    };
    if !TOOLS.contains(&t.tool) {
        p.unmodelled = Some("tool");
    }
    t
}

fn r_symtab(i: &mut In, p: &mut Problems) -> (u32, [u32; 4]) {
    if i.u32() != 2 {
        p.inconsistent = Some("command code");
    }
    let n = i.u32();
    if n != 24 {
        p.inconsistent = Some("symtab command size");
    }
    let mut f = [0; 4];
    f.iter_mut().for_each(|x| *x = i.u32());
    (n, f)
}

fn r_dysymtab(i: &mut In, p: &mut Problems) -> (u32, [u32; 18]) {
    if i.u32() != 0xb {
        p.inconsistent = Some("command code");
    }
    let n = i.u32();
    if n != 80 {
        p.inconsistent = Some("dysymtab command size");
    }
    let mut f = [0; 18];
    f.iter_mut().for_each(|x| *x = i.u32());
    (n, f)
}

/// `big`: byte order of the record (for headers it follows from the magic).
pub fn classify(kind: Kind, b: &[u8], big: bool) -> Verdict {
    let mut i = In {
        b,
        i: 0,
        big,
        short: false,
        odd_name: false,
    };
    let mut p = Problems {
        unmodelled: None,
        inconsistent: None,
    };
    let rec = match kind {
        Kind::Header => {
            i.big = false;
            let m = i.u32();
            let magic = match m {
                0xfeedfacf | 0xfeedface => m,
                0xcffaedfe | 0xcefaedfe => {
                    i.big = true;
                    m.swap_bytes()
                }
                _ => {
                    p.unmodelled = Some("magic");
                    m
                }
            };
            let (cpu, cpusub) = (i.u32(), i.u32());
            if !CPUS.contains(&(cpu, cpusub)) {
                p.unmodelled = Some("cpu type");
            }
            let filetype = i.u32();
            if !FILE_TYPES.contains(&filetype) {
                p.unmodelled = Some("file type");
            }
            let (ncmds, sizeofcmds, flags, reserved) = (i.u32(), i.u32(), i.u32(), i.u32());
            if flags & !HEADER_FLAGS.iter().fold(0, |a, b| a | b) != 0 {
                p.unmodelled = Some("header flag");
            }
            Rec::Header {
                magic,
                cpu,
                cpusub,
                filetype,
                ncmds,
                sizeofcmds,
                flags,
                reserved,
            }
        }
        Kind::Segment => Rec::Segment(r_segment(&mut i, &mut p)),
        Kind::Section => Rec::Section(r_section(&mut i, &mut p)),
        Kind::Symtab => {
            let (cmdsize, f) = r_symtab(&mut i, &mut p);
            Rec::Symtab { cmdsize, f }
        }
        Kind::Dysymtab => {
            let (cmdsize, f) = r_dysymtab(&mut i, &mut p);
            Rec::Dysymtab { cmdsize, f }
        }
        Kind::Build => Rec::Build(r_build(&mut i, &mut p)),
        Kind::Tool => Rec::Tool(r_tool(&mut i, &mut p)),
        Kind::Nlist => {
            let (strx, typ, sect, desc, value) = (i.u32(), i.u8(), i.u8(), i.u16(), i.u64());
            if typ & 0xe0 != 0 {
                if !STABS.contains(&typ) {
                    p.unmodelled = Some("stab type");
                }
            } else if !N_TYPES.contains(&(typ & 0x0e)) {
                p.unmodelled = Some("symbol type");
            }
            Rec::Nlist {
                strx,
                typ,
                sect,
                desc,
                value,
            }
        }
        Kind::Reloc => {
            let addr = i.u32();
            let w = i.u32();
            if i.big {
                Rec::Reloc {
                    addr,
                    num: w >> 8,
                    pcrel: w >> 7 & 1 != 0,
                    len: (w >> 5 & 3) as u8,
                    ext: w >> 4 & 1 != 0,
                    typ: (w & 15) as u8,
                }
            } else {
                Rec::Reloc {
                    addr,
                    num: w & 0xff_ffff,
                    pcrel: w >> 24 & 1 != 0,
                    len: (w >> 25 & 3) as u8,
                    ext: w >> 27 & 1 != 0,
                    typ: (w >> 28) as u8,
                }
            }
        }
        Kind::Command => {
            let code = i.u32();
            i.i = 0;
            match code {
                _ if i.short => Rec::SymtabCmd {
                    cmdsize: 0,
                    f: [0; 4],
                },
                0x19 => {
                    let s = r_segment(&mut i, &mut p);
                    let mut v = vec![];
                    if p.inconsistent.is_none() && !i.short {
                        for _ in 0..s.nsects {
                            v.push(r_section(&mut i, &mut p));
                            if i.short {
                                break;
                            }
                        }
                    }
                    Rec::SegmentCmd(s, v)
                }
                0x2 => {
                    let (cmdsize, f) = r_symtab(&mut i, &mut p);
                    Rec::SymtabCmd { cmdsize, f }
                }
                0xb => {
                    let (cmdsize, f) = r_dysymtab(&mut i, &mut p);
                    Rec::DysymtabCmd { cmdsize, f }
                }
                0x32 => {
                    let b = r_build(&mut i, &mut p);
                    let mut v = vec![];
                    if p.inconsistent.is_none() && !i.short {
                        for _ in 0..b.ntools {
                            v.push(r_tool(&mut i, &mut p));
                            if i.short {
                                break;
                            }
                        }
                    }
                    Rec::BuildCmd(b, v)
                }
                _ => {
                    p.unmodelled = Some("load command");
                    Rec::SymtabCmd {
                        cmdsize: 0,
                        f: [0; 4],
                    }
                }
            }
        }
    };
    if i.short {
        return Verdict::Short;
    }
    if let Some(w) = p.inconsistent {
        return Verdict::Inconsistent(w);
    }
    if i.odd_name {
        return Verdict::Unspecified;
    }
    if let Some(w) = p.unmodelled {
        return Verdict::Unmodelled(w);
    }
    Verdict::Valid(rec, i.i)
}
