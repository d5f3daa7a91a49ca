//! M01..M06: Mach-O records.
use crate::{
    engine::*,
    ensure,
    gen::*,
    spec::{self, Build, Kind, Rec, Section, Segment, Tool, Verdict, KINDS},
    sut::{Failure, Sink, SinkSpec},
};
use at_mac::{
    header::{CpuSubTypeX86, CpuSubTypeX86_64, CpuType, FileType, Flag, Flags, Header64, Magic},
    load_command::{
        build_version::{
            BuildToolVersion, BuildVersionCommand, Platform, Tool as LibTool, Version,
        },
        dysymtab::DysymtabCommand,
        segment64::{Section64, SectionAttr, SectionAttrs, SectionType, SegmentCommand64},
        symtab::SymtabCommand,
        LoadCommand,
    },
    nlist::{DebugSymbol, NList64, NType, NTypeField},
    reloc::{RelocLength, RelocationInfo, X86RelocType, X86_64RelocType},
    string_table::StringTable,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::Read;

#[derive(Debug, PartialEq, Clone)]
pub enum Lib {
    Header(Header64),
    Segment(SegmentCommand64),
    Section(Section64),
    Symtab(SymtabCommand),
    Dysymtab(DysymtabCommand),
    Build(BuildVersionCommand),
    Tool(BuildToolVersion),
    Nlist(NList64),
    Reloc(RelocationInfo),
    Command(LoadCommand),
}

// The vocabulary: format constant <-> library enumerator, matched by name.
const FILE_TYPES: [(u32, FileType); 9] = [
    (1, FileType::Object),
    (2, FileType::Execute),
    (3, FileType::FVMLib),
    (4, FileType::Core),
    (5, FileType::Preload),
    (6, FileType::Dylib),
    (7, FileType::Dylinker),
    (8, FileType::Bundle),
    (0xA, FileType::Dsym),
];
const MAGICS: [(u32, Magic); 6] = [
    (0xfeedfacf, Magic::Magic64),
    (0xcffaedfe, Magic::Cigam64),
    (0xfeedface, Magic::Magic),
    (0xcefaedfe, Magic::Cigam),
    (0xcafebabe, Magic::FatMagic),
    (0xbebafeca, Magic::FatCigam),
];
const FLAGS: [(u32, Flag); 16] = [
    (0x1, Flag::NoUndefs),
    (0x2, Flag::IncrLink),
    (0x4, Flag::DyldLink),
    (0x8, Flag::BindAtLoad),
    (0x10, Flag::PreBound),
    (0x20, Flag::SplitSegs),
    (0x80, Flag::TwoLevel),
    (0x100, Flag::ForceFlat),
    (0x200, Flag::NoMultiDefs),
    (0x400, Flag::NoFixPreBinding),
    (0x800, Flag::PreBindable),
    (0x1000, Flag::AllModsBound),
    (0x2000, Flag::SubsectionsViaSymbols),
    (0x4000, Flag::Canonical),
    (0x200000, Flag::Pie),
    (0x800000, Flag::HasTlvDescriptors),
];
const STYPES: [(u32, SectionType); 7] = [
    (0, SectionType::Regular),
    (1, SectionType::Zerofill),
    (2, SectionType::CstringLiterals),
    (3, SectionType::FourByteLiterals),
    (4, SectionType::EightByteLiterals),
    (5, SectionType::LiteralPointers),
    (0xB, SectionType::Coalesced),
];
const SATTRS: [(u32, SectionAttr); 8] = [
    (0x100, SectionAttr::LocReloc),
    (0x200, SectionAttr::ExtReloc),
    (0x400, SectionAttr::SomeInstructions),
    (0x0200_0000, SectionAttr::Debug),
    (0x0800_0000, SectionAttr::LiveSupport),
    (0x2000_0000, SectionAttr::StripStaticSyms),
    (0x4000_0000, SectionAttr::NoToc),
    (0x8000_0000, SectionAttr::PureInstructions),
];
const PLATFORMS: [(u32, Platform); 10] = [
    (1, Platform::MacOS),
    (2, Platform::IOS),
    (3, Platform::TvOS),
    (4, Platform::WatchOS),
    (5, Platform::BridgeOS),
    (6, Platform::MacCatalyst),
    (7, Platform::IOSSimulator),
    (8, Platform::TvOSSimulator),
    (9, Platform::WatchOSSimulator),
    (10, Platform::Driverkit),
];
const TOOLS: [(u32, LibTool); 3] = [
    (1, LibTool::Clang),
    (2, LibTool::Swift),
    (3, LibTool::LD),
];
const NTYPES: [(u8, NType); 5] = [
    (0x0, NType::Undf),
    (0x2, NType::Abs),
    (0xe, NType::Sect),
    (0xc, NType::Pbud),
    (0xa, NType::Indr),
];
const RLENS: [(u32, RelocLength); 4] = [
    (0, RelocLength::Byte),
    (1, RelocLength::Word),
    (2, RelocLength::Long),
    (3, RelocLength::Quad),
];

fn look<A: PartialEq + Copy, B: Copy>(t: &[(A, B)], a: A) -> B {
    t.iter().find(|x| x.0 == a).expect("code in the vocabulary").1
}

fn header_flags(bits: u32) -> Flags {
    let mut f = Flags::new();
    for (b, x) in FLAGS {
        if bits & b != 0 {
            f.push(x);
        }
    }
    f
}

fn sect_attrs(bits: u32) -> SectionAttrs {
    let mut f = SectionAttrs::new();
    for (b, x) in SATTRS {
        if bits & b != 0 {
            f.push(x);
        }
    }
    f
}

fn version(n: u32) -> Version {
    Version {
        major: (n >> 16) as u16,
        minor: (n >> 8) as u8,
        release: n as u8,
    }
}

fn lib_segment(s: &Segment) -> SegmentCommand64 {
    SegmentCommand64 {
        cmd: SegmentCommand64::TYPE,
        cmdsize: s.cmdsize,
        segname: s.segname.clone(),
        vmaddr: s.vmaddr,
        vmsize: s.vmsize,
        fileoff: s.fileoff,
        filesize: s.filesize,
        maxprot: s.maxprot as i32,
        initprot: s.initprot as i32,
        nsects: s.nsects,
        flags: s.flags,
    }
}

fn lib_section(s: &Section) -> Section64 {
    Section64 {
        sectname: s.sectname.clone(),
        segname: s.segname.clone(),
        addr: s.addr,
        size: s.size,
        offset: s.offset,
        align: s.align,
        reloff: s.reloff,
        nreloc: s.nreloc,
        flags: (sect_attrs(s.flags), look(&STYPES, s.flags & 0xff)),
        reserved1: s.reserved[0],
        reserved2: s.reserved[1],
        reserved3: s.reserved[2],
    }
}

fn lib_build(b: &Build) -> BuildVersionCommand {
    BuildVersionCommand {
        cmd: BuildVersionCommand::TYPE,
        cmdsize: b.cmdsize,
        platform: look(&PLATFORMS, b.platform),
        minos: version(b.minos),
        sdk: version(b.sdk),
        ntools: b.ntools,
    }
}

fn lib_tool(t: &Tool) -> BuildToolVersion {
    BuildToolVersion {
        tool: look(&TOOLS, t.tool),
        version: t.version,
    }
}

fn lib_symtab(n: u32, f: &[u32; 4]) -> SymtabCommand {
    SymtabCommand {
        cmd: SymtabCommand::TYPE,
        cmdsize: n,
        symoff: f[0],
        nsyms: f[1],
        stroff: f[2],
        strsize: f[3],
    }
}

fn lib_dysymtab(n: u32, f: &[u32; 18]) -> DysymtabCommand {
    DysymtabCommand {
        cmd: DysymtabCommand::TYPE,
        cmdsize: n,
        ilocalsym: f[0],
        nlocalsym: f[1],
        iextdefsym: f[2],
        nextdefsym: f[3],
        iundefsym: f[4],
        nundefsym: f[5],
        tocoff: f[6],
        ntoc: f[7],
        modtaboff: f[8],
        nmodtab: f[9],
        extrefsymoff: f[10],
        nextrefsyms: f[11],
        indirectsymoff: f[12],
        nindirectsyms: f[13],
        extreloff: f[14],
        nextrel: f[15],
        locreloff: f[16],
        nlocrel: f[17],
    }
}

pub fn to_lib(r: &Rec) -> Lib {
    match r {
        Rec::Header {
            magic,
            cpu,
            filetype,
            ncmds,
            sizeofcmds,
            flags,
            reserved,
            ..
        } => Lib::Header(Header64 {
            magic: look(&MAGICS, *magic),
            cpu_type: if *cpu == 7 {
                CpuType::X86(CpuSubTypeX86::All)
            } else {
                CpuType::X86_64(CpuSubTypeX86_64::All)
            },
            file_type: look(&FILE_TYPES, *filetype),
            n_cmds: *ncmds,
            size_of_cmds: *sizeofcmds,
            flags: header_flags(*flags),
            reserved: *reserved,
        }),
        Rec::Segment(s) => Lib::Segment(lib_segment(s)),
        Rec::Section(s) => Lib::Section(lib_section(s)),
        Rec::Symtab { cmdsize, f } => Lib::Symtab(lib_symtab(*cmdsize, f)),
        Rec::Dysymtab { cmdsize, f } => Lib::Dysymtab(lib_dysymtab(*cmdsize, f)),
        Rec::Build(b) => Lib::Build(lib_build(b)),
        Rec::Tool(t) => Lib::Tool(lib_tool(t)),
        Rec::Nlist {
            strx,
            typ,
            sect,
            desc,
            value,
        } => Lib::Nlist(NList64 {
            n_strx: *strx,
            n_type: if typ & 0xe0 != 0 {
                NTypeField::Stab(DebugSymbol::Gsym)
            } else {
                NTypeField::Norm {
                    n_pext: typ & 0x10 != 0,
                    n_type: look(&NTYPES, typ & 0x0e),
                    n_ext: typ & 1 != 0,
                }
            },
            n_sect: *sect,
            n_desc: *desc,
            n_value: *value,
        }),
        Rec::Reloc {
            addr,
            num,
            pcrel,
            len,
            ext,
            typ,
        } => Lib::Reloc(RelocationInfo {
            r_address: *addr as i32,
            r_symbolnum: *num,
            r_pcrel: *pcrel,
            r_length: look(&RLENS, *len as u32),
            r_extern: *ext,
            r_type: *typ,
        }),
        Rec::SegmentCmd(s, v) => Lib::Command(LoadCommand::Segment64(
            lib_segment(s),
            v.iter().map(lib_section).collect(),
        )),
        Rec::BuildCmd(b, v) => Lib::Command(LoadCommand::BuildVersion(
            lib_build(b),
            v.iter().map(lib_tool).collect(),
        )),
        Rec::SymtabCmd { cmdsize, f } => {
            Lib::Command(LoadCommand::Symtab(lib_symtab(*cmdsize, f)))
        }
        Rec::DysymtabCmd { cmdsize, f } => {
            Lib::Command(LoadCommand::Dysymtab(lib_dysymtab(*cmdsize, f)))
        }
    }
}

pub fn write_lib(l: &Lib, w: &mut impl std::io::Write) {
    match l {
        Lib::Header(x) => x.write_into(w),
        Lib::Segment(x) => x.write_into(w),
        Lib::Section(x) => x.write_into(w),
        Lib::Symtab(x) => x.write_into(w),
        Lib::Dysymtab(x) => x.write_into(w),
        Lib::Build(x) => x.write_into(w),
        Lib::Tool(x) => x.write_into(w),
        Lib::Nlist(x) => x.write_into(w),
        Lib::Reloc(x) => x.write_into(w),
        Lib::Command(x) => x.write_into(w),
    }
}

/// A header image whose magic announces the wanted byte order (the library's
/// byte-order type is only obtainable by reading a header).
fn announcing(big: bool) -> Vec<u8> {
    spec::bytes(
        &Rec::Header {
            magic: 0xfeedfacf,
            cpu: 0x0100_0007,
            cpusub: 3,
            filetype: 1,
            ncmds: 0,
            sizeofcmds: 0,
            flags: 0,
            reserved: 0,
        },
        big,
    )
}

pub fn read_lib(kind: Kind, big: bool, r: &mut impl Read) -> Lib {
    if kind == Kind::Header {
        return Lib::Header(Header64::read_from(r).0);
    }
    let (_, e) = Header64::read_from(&mut announcing(big).as_slice());
    match kind {
        Kind::Header => unreachable!(),
        Kind::Segment => Lib::Segment(SegmentCommand64::read_from_in(r, e)),
        Kind::Section => Lib::Section(Section64::read_from_in(r, e)),
        Kind::Symtab => Lib::Symtab(SymtabCommand::read_from_in(r, e)),
        Kind::Dysymtab => Lib::Dysymtab(DysymtabCommand::read_from_in(r, e)),
        Kind::Build => Lib::Build(BuildVersionCommand::read_from_in(r, e)),
        Kind::Tool => Lib::Tool(BuildToolVersion::read_from_in(r, e)),
        Kind::Nlist => Lib::Nlist(NList64::read_from_in(r, e)),
        Kind::Reloc => Lib::Reloc(RelocationInfo::read_from_in(r, e)),
        Kind::Command => Lib::Command(LoadCommand::read_from_in(r, e)),
    }
}

/// A reader that hands out at most `step` bytes at a time, with an interruption
/// before every piece, and counts what it gave.
pub struct Drip<'a> {
    pub b: &'a [u8],
    pub pos: usize,
    pub step: usize,
    pub interrupt: bool,
    /// what a read past the last byte is answered with: an end of file, or this error
    pub fail: Option<std::io::ErrorKind>,
}

impl<'a> Read for Drip<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.step != usize::MAX {
            self.interrupt = !self.interrupt;
            if self.interrupt && !buf.is_empty() {
                return Err(std::io::ErrorKind::Interrupted.into());
            }
        }
        let n = buf.len().min(self.step).min(self.b.len() - self.pos);
        if let (0, Some(kind), false) = (n, self.fail, buf.is_empty()) {
            return Err(kind.into());
        }
        buf[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// (value, bytes consumed) or the refusal's message
pub fn try_read(kind: Kind, big: bool, b: &[u8], step: usize) -> Result<(Lib, usize), String> {
    try_read_failing(kind, big, b, step, None)
}

/// The same, from a source that answers a read past its last byte with an error.
pub fn try_read_failing(
    kind: Kind,
    big: bool,
    b: &[u8],
    step: usize,
    fail: Option<std::io::ErrorKind>,
) -> Result<(Lib, usize), String> {
    sut(|| {
        let mut d = Drip {
            b,
            pos: 0,
            step,
            interrupt: false,
            fail,
        };
        let l = read_lib(kind, big, &mut d);
        (l, d.pos)
    })
}

fn native_big() -> bool {
    cfg!(target_endian = "big")
}

// ------------------------------------------------------------------ generators

fn name16() -> BoxedStrategy<String> {
    prop_oneof![
        2 => prop::sample::select(vec!["", "__text", "__TEXT", "__data", "__DATA", "__bss", "__LINKEDIT", "sixteen_bytes_ok", "fifteen_bytes_x"])
            .prop_map(|s| s.to_string()),
        3 => prop::collection::vec(1u8..128, 0..17)
            .prop_map(|v| String::from_utf8(v).unwrap()),
        1 => crate::dict::name().prop_map(|mut s| {
            s.truncate(16);
            s
        }),
        1 => prop::collection::vec(33u8..127, 14..17)
            .prop_map(|v| String::from_utf8(v).unwrap()),
    ]
    .boxed()
}

fn subset(bits: &'static [u32]) -> BoxedStrategy<u32> {
    prop_oneof![
        3 => any::<u32>().prop_map(move |m| {
            bits.iter().enumerate().filter(|(i, _)| m >> i & 1 != 0).fold(0, |a, (_, b)| a | b)
        }),
        2 => prop::sample::select(bits),
        1 => Just(0),
        1 => Just(bits.iter().fold(0, |a, b| a | b)),
    ]
    .boxed()
}

fn g_segment(nsects: BoxedStrategy<u32>) -> BoxedStrategy<Segment> {
    (
        name16(),
        [edge_u64(), edge_u64(), edge_u64(), edge_u64()],
        [edge_u32(), edge_u32(), edge_u32()],
        nsects,
    )
        .prop_map(|(segname, q, d, nsects)| Segment {
            cmdsize: 72 + 80 * nsects,
            segname,
            vmaddr: q[0],
            vmsize: q[1],
            fileoff: q[2],
            filesize: q[3],
            maxprot: d[0],
            initprot: d[1],
            nsects,
            flags: d[2],
        })
        .boxed()
}

fn g_section() -> BoxedStrategy<Section> {
    (
        name16(),
        name16(),
        edge_u64(),
        edge_u64(),
        [edge_u32(), edge_u32(), edge_u32(), edge_u32()],
        (
            prop::sample::select(&spec::SECTION_TYPES[..]),
            subset(&spec::SECTION_ATTRS),
        ),
        [edge_u32(), edge_u32(), edge_u32()],
    )
        .prop_map(|(sectname, segname, addr, size, d, (t, a), reserved)| Section {
            sectname,
            segname,
            addr,
            size,
            offset: d[0],
            align: d[1],
            reloff: d[2],
            nreloc: d[3],
            flags: t | a,
            reserved,
        })
        .boxed()
}

fn g_build(ntools: BoxedStrategy<u32>) -> BoxedStrategy<Build> {
    (
        prop::sample::select(&spec::PLATFORMS[..]),
        edge_u32(),
        edge_u32(),
        ntools,
    )
        .prop_map(|(platform, minos, sdk, ntools)| Build {
            cmdsize: 24 + 8 * ntools,
            platform,
            minos,
            sdk,
            ntools,
        })
        .boxed()
}

fn g_tool() -> BoxedStrategy<Tool> {
    (prop::sample::select(&spec::TOOLS[..]), edge_u32())
        .prop_map(|(tool, version)| Tool { tool, version })
        .boxed()
}

fn g_fields<const N: usize>() -> BoxedStrategy<[u32; N]> {
    prop_oneof![
        3 => prop::array::uniform(edge_u32()),
        // all different, so that exchanged fields show
        1 => any::<u32>().prop_map(|b| std::array::from_fn(|i| b.wrapping_add(0x0101_0101u32.wrapping_mul(i as u32 + 1)))),
    ]
    .boxed()
}

pub fn g_command(max: usize) -> BoxedStrategy<Rec> {
    prop_oneof![
        3 => (prop::collection::vec(g_section(), 0..max)).prop_flat_map(|v| {
            g_segment(Just(v.len() as u32).boxed()).prop_map(move |s| Rec::SegmentCmd(s, v.clone()))
        }),
        2 => (prop::collection::vec(g_tool(), 0..max)).prop_flat_map(|v| {
            g_build(Just(v.len() as u32).boxed()).prop_map(move |b| Rec::BuildCmd(b, v.clone()))
        }),
        1 => g_fields::<4>().prop_map(|f| Rec::SymtabCmd { cmdsize: 24, f }),
        1 => g_fields::<18>().prop_map(|f| Rec::DysymtabCmd { cmdsize: 80, f }),
    ]
    .boxed()
}

fn g_header(magics: &'static [u32]) -> BoxedStrategy<Rec> {
    (
        prop::sample::select(magics),
        prop::sample::select(&spec::CPUS[..]),
        prop::sample::select(&spec::FILE_TYPES[..]),
        edge_u32(),
        edge_u32(),
        subset(&spec::HEADER_FLAGS),
        edge_u32(),
    )
        .prop_map(
            |(magic, (cpu, cpusub), filetype, ncmds, sizeofcmds, flags, reserved)| Rec::Header {
                magic,
                cpu,
                cpusub,
                filetype,
                ncmds,
                sizeofcmds,
                flags,
                reserved,
            },
        )
        .boxed()
}

const HOST_MAGICS: [u32; 2] = [0xfeedfacf, 0xfeedface];

pub fn g_rec() -> BoxedStrategy<Rec> {
    let many = prop_oneof![0u32..20, 0u32..=53_687_090, Just(53_687_090)].boxed();
    let tools = prop_oneof![0u32..20, 0u32..=536_870_908, Just(536_870_908)].boxed();
    prop_oneof![
        2 => g_header(&HOST_MAGICS),
        2 => g_segment(many).prop_map(Rec::Segment),
        3 => g_section().prop_map(Rec::Section),
        1 => g_fields::<4>().prop_map(|f| Rec::Symtab { cmdsize: 24, f }),
        1 => g_fields::<18>().prop_map(|f| Rec::Dysymtab { cmdsize: 80, f }),
        2 => g_build(tools).prop_map(Rec::Build),
        1 => g_tool().prop_map(Rec::Tool),
        3 => (edge_u32(), prop_oneof![
                4 => (prop::sample::select(&spec::N_TYPES[..]), any::<bool>(), any::<bool>())
                    .prop_map(|(t, p, e)| t | (p as u8) << 4 | e as u8),
                1 => Just(0x20u8)],
              any::<u8>(), edge_u16(), edge_u64())
            .prop_map(|(strx, typ, sect, desc, value)| Rec::Nlist { strx, typ, sect, desc, value }),
        3 => (edge_u32(), prop_oneof![0u32..1 << 24, 0u32..300, Just((1 << 24) - 1), (0u32..24).prop_map(|k| 1 << k)],
              any::<bool>(), 0u8..4, any::<bool>(), 0u8..16)
            .prop_map(|(addr, num, pcrel, len, ext, typ)| Rec::Reloc { addr, num, pcrel, len, ext, typ }),
        3 => g_command(5),
    ]
    .boxed()
}

fn doc_size(r: &Rec) -> usize {
    // "the documented number of bytes": the library's own size constants
    match r {
        Rec::Header { .. } => Header64::SIZE as usize,
        Rec::Segment(_) => SegmentCommand64::SIZE as usize,
        Rec::Section(_) => Section64::SIZE as usize,
        Rec::Symtab { .. } | Rec::SymtabCmd { .. } => SymtabCommand::SIZE as usize,
        Rec::Dysymtab { .. } | Rec::DysymtabCmd { .. } => DysymtabCommand::SIZE as usize,
        Rec::Build(_) => BuildVersionCommand::SIZE as usize,
        Rec::Tool(_) => BuildToolVersion::SIZE as usize,
        Rec::Nlist { .. } => NList64::SIZE as usize,
        Rec::Reloc { .. } => RelocationInfo::SIZE as usize,
        Rec::SegmentCmd(_, v) => {
            SegmentCommand64::SIZE as usize + v.len() * Section64::SIZE as usize
        }
        Rec::BuildCmd(_, v) => {
            BuildVersionCommand::SIZE as usize + v.len() * BuildToolVersion::SIZE as usize
        }
    }
}

fn kind_class(k: Kind) -> &'static str {
    match k {
        Kind::Header => "header",
        Kind::Segment => "segment",
        Kind::Section => "section",
        Kind::Symtab => "symtab",
        Kind::Dysymtab => "dysymtab",
        Kind::Build => "build version",
        Kind::Tool => "tool",
        Kind::Nlist => "symbol entry",
        Kind::Reloc => "relocation entry",
        Kind::Command => "whole load command",
    }
}

// ------------------------------------------------------------------------ M01

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RtCase {
    rec: Rec,
    /// bytes that follow the record in the stream
    tail: Vec<u8>,
    /// largest piece the reader hands out (0: everything)
    step: u8,
}

fn write_bytes(l: &Lib) -> Result<Vec<u8>, String> {
    sut(|| {
        let mut v = Vec::new();
        write_lib(l, &mut v);
        v
    })
    .map_err(|p| format!("writing {:?} panics: {}", l, p))
}

fn check_rt(c: &RtCase) -> Checked {
    let l = to_lib(&c.rec);
    let b = write_bytes(&l)?;
    ensure!(
        b.len() == doc_size(&c.rec),
        "{:?} is written as {} bytes instead of {}",
        l,
        b.len(),
        doc_size(&c.rec)
    );
    let mut stream = b.clone();
    stream.extend(&c.tail);
    let step = if c.step == 0 { usize::MAX } else { c.step as usize };
    let (back, used) = try_read(c.rec.kind(), native_big(), &stream, step)
        .map_err(|p| format!("reading back {:?} panics: {}", l, p))?;
    ensure!(back == l, "{:?} reads back as {:?}", l, back);
    ensure!(
        used == b.len(),
        "reading {:?} consumes {} bytes of its {}",
        l,
        used,
        b.len()
    );
    if c.step != 0 {
        // a sink that takes it in pieces, with interruptions, and one that gives up
        let mut spec = SinkSpec {
            sizes: vec![0, c.step as u32],
            ..Default::default()
        };
        let mut sink = Sink::new(&spec);
        sut(|| write_lib(&l, &mut sink)).map_err(|p| format!("writing {:?} in pieces of {} bytes panics: {}", l, c.step, p))?;
        ensure!(
            sink.got == b,
            "{:?} is written as {:02x?} in pieces of {} bytes, as {:02x?} at once",
            l,
            sink.got,
            c.step,
            b
        );
        let h = b.iter().chain(&c.tail).fold(c.step as u32, |h, x| h.wrapping_mul(31) + *x as u32);
        let limit = h % b.len() as u32;
        let kinds = Failure::ALL;
        spec.fail = Some((limit as u64, kinds[(h >> 16) as usize % kinds.len()]));
        let mut sink = Sink::new(&spec);
        ensure!(
            sut(|| write_lib(&l, &mut sink)).is_err(),
            "writing {:?} succeeds although the sink fails ({:?}) after {} bytes",
            l,
            spec.fail,
            limit
        );
        ensure!(!sink.endless, "writing {:?} tries for ever to write to a sink that fails", l);
        ensure!(b.starts_with(&sink.got), "{:?} is written as {:02x?} to a sink that fails later, else as {:02x?}", l, sink.got, b);
    }
    let nz = b.iter().filter(|x| **x != 0).count();
    Ok(Info::new(nz > 4)
        .class(true, kind_class(c.rec.kind()))
        .class(c.step != 0, "written in pieces and to a failing sink")
        .class(!c.tail.is_empty(), "more data follows")
        .class(c.step != 0, "delivered in pieces with interruptions"))
}

/// Records one field of which holds a value its place in the format cannot.
fn g_unfit() -> BoxedStrategy<Rec> {
    let name = || {
        prop_oneof![
            2 => "[!-~]{17,40}",
            1 => "[a-z_]{17}",
            2 => "[a-z_]{0,8}\\x00[a-z_]{0,7}",
            1 => "[a-z]{0,6}[é語ÿ][a-z]{0,6}",
            1 => "[a-z]{0,15}[é語ÿ][a-z]{0,16}",
        ]
        .boxed()
    };
    let seg = || (g_segment(Just(0u32).boxed()), name()).prop_map(|(mut s, n)| {
        s.segname = n;
        s
    });
    let sect = || (g_section(), name(), 0u8..3).prop_map(|(mut s, n, w)| {
        if w != 1 {
            s.sectname = n.clone();
        }
        if w != 0 {
            s.segname = n;
        }
        s
    });
    prop_oneof![
        2 => seg().prop_map(Rec::Segment),
        1 => seg().prop_map(|s| Rec::SegmentCmd(s, vec![])),
        3 => sect().prop_map(Rec::Section),
        1 => (g_segment(Just(2u32).boxed()), g_section(), sect(), any::<bool>())
            .prop_map(|(s, a, b, first)| Rec::SegmentCmd(s, if first { vec![b, a] } else { vec![a, b] })),
        4 => (edge_u32(), prop_oneof![
                2 => 0u32..1 << 24,
                2 => Just(1u32 << 24),
                2 => (24u32..32, 0u32..1 << 24).prop_map(|(k, n)| 1 << k | n),
                1 => (1u32 << 24)..=u32::MAX,
            ], any::<bool>(), 0u8..4, any::<bool>(), prop_oneof![2 => 0u8..16, 2 => 16u8..=255, 1 => (4u32..8).prop_map(|k| 1 << k)])
            .prop_filter("one does not fit", |(_, num, _, _, _, typ)| *num >> 24 != 0 || *typ > 15)
            .prop_map(|(addr, num, pcrel, len, ext, typ)| Rec::Reloc { addr, num, pcrel, len, ext, typ }),
    ]
    .boxed()
}

/// A record that cannot be expressed is refused, never written as another one.
fn check_unfit(r: &Rec) -> Checked {
    let l = to_lib(r);
    let refused = match sut(|| {
        let mut v = Vec::new();
        write_lib(&l, &mut v);
        v
    }) {
        Err(_) => true,
        Ok(b) => {
            let (back, used) = try_read(r.kind(), native_big(), &b, usize::MAX)
                .map_err(|p| format!("{:?} is written as {:02x?}, which cannot be read: {}", l, b, p))?;
            ensure!(
                back == l && used == b.len(),
                "{:?} is not refused but written as {:?}",
                l,
                back
            );
            false
        }
    };
    Ok(Info::new(true)
        .class(true, kind_class(r.kind()))
        .class(refused, "refused"))
}

fn g_flag_order() -> BoxedStrategy<FlagOrder> {
    (
        prop::collection::vec(0u8..16, 0..20),
        prop::collection::vec(0u8..8, 0..12),
        edge_u32(),
    )
        .prop_map(|(header, attrs, n)| FlagOrder { header, attrs, n })
        .boxed()
}

fn m01_parts() -> Vec<Box<dyn Part>> {
    vec![
        random(
            "roundtrip",
            (600_000, 30_000_000),
            |_| {
                (
                    g_rec(),
                    prop::collection::vec(any::<u8>(), 0..20),
                    prop_oneof![2 => Just(0u8), 1 => 1u8..20],
                )
                    .prop_map(|(rec, tail, step)| RtCase { rec, tail, step })
            },
            check_rt,
        ),
        random("flag-sets", (40_000, 1_500_000), |_| g_flag_order(), check_flag_history),
        random("unfit-values", (60_000, 2_000_000), |_| g_unfit(), check_unfit),
        listed("enumerators", |_| enumerator_records(), |r: &Rec| {
            check_rt(&RtCase {
                rec: r.clone(),
                tail: vec![],
                step: 0,
            })
        }),
    ]
}

/// One record per enumerator and per single flag, and all pairs of flags.
fn enumerator_records() -> Vec<Rec> {
    let mut v = vec![];
    for magic in HOST_MAGICS {
        for (cpu, cpusub) in spec::CPUS {
            for filetype in spec::FILE_TYPES {
                for a in spec::HEADER_FLAGS {
                    for b in spec::HEADER_FLAGS {
                        v.push(Rec::Header {
                            magic,
                            cpu,
                            cpusub,
                            filetype,
                            ncmds: 1,
                            sizeofcmds: 2,
                            flags: a | b,
                            reserved: 0,
                        });
                    }
                }
            }
        }
    }
    let sect = |flags| Section {
        sectname: "a".into(),
        segname: "b".into(),
        addr: 1,
        size: 2,
        offset: 3,
        align: 4,
        reloff: 5,
        nreloc: 6,
        flags,
        reserved: [7, 8, 9],
    };
    for t in spec::SECTION_TYPES {
        for m in 0..256u32 {
            let a = spec::SECTION_ATTRS
                .iter()
                .enumerate()
                .filter(|(i, _)| m >> i & 1 != 0)
                .fold(0, |x, (_, b)| x | b);
            v.push(Rec::Section(sect(t | a)));
        }
    }
    for platform in spec::PLATFORMS {
        for k in 0..32 {
            v.push(Rec::Build(Build {
                cmdsize: 24,
                platform,
                minos: 1 << k,
                sdk: 0x0102_0304u32.rotate_left(k),
                ntools: 0,
            }));
        }
    }
    for tool in spec::TOOLS {
        v.push(Rec::Tool(Tool { tool, version: 77 }));
    }
    for typ in 0..=255u8 {
        let ok = if typ & 0xe0 != 0 {
            spec::STABS.contains(&typ)
        } else {
            spec::N_TYPES.contains(&(typ & 0xe))
        };
        if ok {
            for sect in [0u8, 1, 127, 128, 255] {
                v.push(Rec::Nlist {
                    strx: 1,
                    typ,
                    sect,
                    desc: 0x0102,
                    value: 3,
                });
            }
        }
    }
    for k in 0..24 {
        for m in 0..256u32 {
            v.push(Rec::Reloc {
                addr: 0x01020304,
                num: 1 << k,
                pcrel: m & 1 != 0,
                len: (m >> 1 & 3) as u8,
                ext: m >> 3 & 1 != 0,
                typ: (m >> 4) as u8,
            });
        }
    }
    v
}

// ------------------------------------------------------------------------ M02

fn check_layout(r: &Rec) -> Checked {
    let l = to_lib(r);
    let b = write_bytes(&l)?;
    let want = spec::bytes(r, native_big());
    if b != want {
        let at = b
            .iter()
            .zip(&want)
            .position(|(x, y)| x != y)
            .unwrap_or(b.len().min(want.len()));
        return Err(format!(
            "{:?} is written as {:02x?}; the format prescribes {:02x?} (first difference at offset {})",
            l, b, want, at
        )
        .into());
    }
    Ok(Info::new(b.iter().filter(|x| **x != 0).count() > 4).class(true, kind_class(r.kind())))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FlagOrder {
    /// indices into the flag vocabulary, any order, with repetitions
    header: Vec<u8>,
    attrs: Vec<u8>,
    n: u32,
}

/// Flag sets written in any order (and repeated) are the union of their bits.
fn check_flag_order(c: &FlagOrder) -> Checked {
    let mut f = Flags::new();
    let mut bits = 0;
    for i in &c.header {
        let (b, x) = FLAGS[*i as usize % FLAGS.len()];
        f.push(x);
        bits |= b;
    }
    let got = sut(|| f.to_u32()).map_err(|p| format!("{:?}: {}", f, p))?;
    ensure!(got == bits, "{:?} is {:#x}, not {:#x}", f, got, bits);
    let again = sut(|| Flags::from_u32(bits).to_u32()).map_err(|p| format!("{:#x}: {}", bits, p))?;
    ensure!(again == bits, "{:#x} read and written is {:#x}", bits, again);
    ensure!(
        sut(|| Flags::from_u32(bits)).ok() == Some(header_flags(bits)),
        "{:#x} is read as {:?}",
        bits,
        Flags::from_u32(bits)
    );
    let mut a = SectionAttrs::new();
    let mut bits = 0;
    for i in &c.attrs {
        let (b, x) = SATTRS[*i as usize % SATTRS.len()];
        a.push(x);
        bits |= b;
    }
    let got = sut(|| a.to_u32()).map_err(|p| format!("{:?}: {}", a, p))?;
    ensure!(got == bits, "{:?} is {:#x}, not {:#x}", a, got, bits);
    ensure!(
        sut(|| SectionAttrs::from_u32(bits)).ok() == Some(sect_attrs(bits)),
        "{:#x} is read as {:?}",
        bits,
        sut(|| SectionAttrs::from_u32(bits))
    );
    let v = version(c.n);
    ensure!(
        v.to_u32() == c.n && Version::from_u32(c.n) == v,
        "version {:#x} converts to {:?} and back to {:#x}",
        c.n,
        Version::from_u32(c.n),
        v.to_u32()
    );
    Ok(Info::new(c.header.len() + c.attrs.len() > 1))
}

/// Records whose flags were collected in any order (and repeated) read back equal.
fn check_flag_history(c: &FlagOrder) -> Checked {
    let Lib::Header(mut h) = announced_header(c.n) else { unreachable!() };
    let mut flags = 0;
    for i in &c.header {
        let (b, x) = FLAGS[*i as usize % FLAGS.len()];
        h.flags.push(x);
        flags |= b;
    }
    let mut s = lib_section(&Section {
        sectname: "__text".into(),
        segname: "__TEXT".into(),
        addr: c.n as u64,
        size: 0,
        offset: 0,
        align: 0,
        reloff: 0,
        nreloc: 0,
        flags: 0,
        reserved: [0; 3],
    });
    let mut attrs = 0;
    for i in &c.attrs {
        let (b, x) = SATTRS[*i as usize % SATTRS.len()];
        s.flags.0.push(x);
        attrs |= b;
    }
    let (mut hb, mut sb) = (vec![], vec![]);
    sut(|| h.write_into(&mut hb)).map_err(|p| format!("writing {:?}: {}", h, p))?;
    sut(|| s.write_into(&mut sb)).map_err(|p| format!("writing {:?}: {}", s, p))?;
    let (h2, _) = try_read(Kind::Header, native_big(), &hb, usize::MAX)?;
    let (s2, _) = try_read(Kind::Section, native_big(), &sb, usize::MAX)?;
    let (h, s) = (Lib::Header(h), Lib::Section(s));
    ensure!(h == h2, "{:?} reads back as the different {:?}", h, h2);
    ensure!(s == s2, "{:?} reads back as the different {:?}", s, s2);
    // and nothing else is equal to them
    for bit in 0..16 {
        let (b, _) = FLAGS[bit % FLAGS.len()];
        let Lib::Header(mut other) = announced_header(c.n) else { unreachable!() };
        other.flags = header_flags(flags ^ b);
        ensure!(h != Lib::Header(other), "{:?} is equal to one with flags {:#x}", h, flags ^ b);
        let (b, _) = SATTRS[bit % SATTRS.len()];
        ensure!(
            match &s {
                Lib::Section(s) => s.flags.0 != sect_attrs(attrs ^ b),
                _ => true,
            },
            "attributes {:?} are equal to {:#x}",
            s,
            attrs ^ b
        );
    }
    let mut h = c.header.clone();
    h.sort();
    Ok(Info::new(c.header.len() > 1 && c.attrs.len() > 1).class(h != c.header, "another order").class(h.windows(2).any(|w| w[0] == w[1]), "repeated"))
}

fn announced_header(reserved: u32) -> Lib {
    to_lib(&Rec::Header {
        magic: 0xfeedfacf,
        cpu: 0x0100_0007,
        cpusub: 3,
        filetype: 1,
        ncmds: 0,
        sizeofcmds: 0,
        flags: 0,
        reserved,
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CodeCase {
    n: u64,
}

/// Both directions of every numeric conversion at one number.
fn check_codes(c: &CodeCase) -> Checked {
    let n = c.n as u32;
    let mut hits = 0;
    macro_rules! conv {
        ($table:expr, $from:expr, $to:expr, $num:expr, $name:expr) => {{
            let num = $num;
            let got = sut(|| ($from)(num)).ok();
            match $table.iter().find(|x| x.0 == num) {
                Some((code, val)) => {
                    hits += 1;
                    ensure!(
                        got == Some(*val),
                        "{} {:#x} is {:?} instead of {:?}",
                        $name,
                        num,
                        got,
                        val
                    );
                    let back = ($to)(*val);
                    ensure!(
                        back == *code,
                        "{} {:?} is {:#x} instead of {:#x}",
                        $name,
                        val,
                        back,
                        code
                    );
                }
                // a number outside the vocabulary is refused (or, should the
                // vocabulary grow, converted without loss)
                None => {
                    if let Some(v) = got {
                        ensure!(
                            ($to)(v) == num && !$table.iter().any(|x| x.1 == v),
                            "{} {:#x} is read as {:?}",
                            $name,
                            num,
                            v
                        );
                    }
                }
            }
        }};
    }
    conv!(FILE_TYPES, FileType::from_u32, |x: FileType| x.to_u32(), n, "file type");
    conv!(MAGICS, Magic::from_u32, |x: Magic| x.to_u32(), n, "magic");
    ensure!(
        Magic::from_u32_checked(n) == MAGICS.iter().find(|x| x.0 == n).map(|x| x.1),
        "magic {:#x} is {:?}",
        n,
        Magic::from_u32_checked(n)
    );
    conv!(FLAGS, Flag::from_u32, |x: Flag| x.to_u32(), n, "header flag");
    conv!(STYPES, SectionType::from_u32, |x: SectionType| x.to_u32(), n, "section type");
    conv!(SATTRS, SectionAttr::from_u32, |x: SectionAttr| x.to_u32(), n, "section attribute");
    conv!(PLATFORMS, Platform::from_u32, |x: Platform| x.to_u32(), n, "platform");
    conv!(TOOLS, LibTool::from_u32, |x: LibTool| x.to_u32(), n, "tool");
    conv!(RLENS, RelocLength::from_u32, |x: RelocLength| x.to_u32(), n, "relocation length");
    if c.n < 256 {
        let n = n as u8;
        conv!(NTYPES, NType::from_u8, |x: NType| x.to_u8(), n, "symbol type");
        conv!([(0x20u8, DebugSymbol::Gsym)], DebugSymbol::from_u8, |x: DebugSymbol| x.to_u8(), n, "debug symbol");
        use {X86RelocType as A, X86_64RelocType as B};
        let a = [
            (0u8, A::Vanilla),
            (1, A::Pair),
            (2, A::Sectdiff),
            (3, A::PbLaPtr),
            (4, A::LocalSectdiff),
            (5, A::Tlv),
        ];
        let b = [
            (0u8, B::Unsigned),
            (1, B::Signed),
            (2, B::Branch),
            (3, B::GotLoad),
            (4, B::Got),
            (5, B::Subtractor),
            (6, B::Signed1),
            (7, B::Signed2),
            (8, B::Signed4),
            (9, B::Tlv),
        ];
        conv!(a, A::from_u8, |x: A| x.to_u8(), n, "x86 relocation type");
        conv!(b, B::from_u8, |x: B| x.to_u8(), n, "x86-64 relocation type");
        // the composite symbol type byte
        let got = sut(|| NTypeField::from_u8(n)).ok();
        let modelled = if n & 0xe0 != 0 {
            n == 0x20
        } else {
            spec::N_TYPES.contains(&(n & 0xe))
        };
        match got {
            Some(v) => ensure!(
                sut(|| v.to_u8()) == Ok(n),
                "symbol type byte {:#x} is read as {:?}",
                n,
                v
            ),
            None => ensure!(!modelled, "symbol type byte {:#x} is refused", n),
        }
    }
    // CPU types
    for sub in [0u32, 1, 2, 3, 4, 5, 6, 7, 8, 0x8000_0003, n] {
        let got = sut(|| CpuType::from_i32_i32(n as i32, sub as i32)).ok();
        let want = match (n, sub) {
            (7, 3) => Some(CpuType::X86(CpuSubTypeX86::All)),
            (0x0100_0007, 3) => Some(CpuType::X86_64(CpuSubTypeX86_64::All)),
            _ => None,
        };
        match (got, want) {
            (_, Some(w)) => {
                ensure!(got == want, "cpu {:#x}/{} is {:?}", n, sub, got);
                ensure!(
                    w.to_i32_i32() == (n as i32, sub as i32),
                    "{:?} is {:?}",
                    w,
                    w.to_i32_i32()
                );
            }
            (Some(g), None) => ensure!(
                g.to_i32_i32() == (n as i32, sub as i32),
                "cpu {:#x}/{} is read as {:?}",
                n,
                sub,
                g
            ),
            (None, None) => {}
        }
    }
    Ok(Info::new(hits > 0))
}

fn m02_parts() -> Vec<Box<dyn Part>> {
    vec![
        random("layout", (600_000, 30_000_000), |_| g_rec(), check_layout),
        listed("enumerators", |_| {
            let mut v = enumerator_records();
            // every magic may be written
            for (magic, _) in MAGICS {
                v.push(Rec::Header {
                    magic,
                    cpu: 7,
                    cpusub: 3,
                    filetype: 1,
                    ncmds: 1,
                    sizeofcmds: 2,
                    flags: 0,
                    reserved: 0,
                });
            }
            v
        }, check_layout),
        listed(
            "numeric-conversions",
            |tier| {
                let top = if tier == Tier::Thorough { 1u64 << 20 } else { 3000 };
                let mut v: Vec<CodeCase> = (0..top).map(|n| CodeCase { n }).collect();
                for x in edge_list_u32() {
                    v.push(CodeCase { n: x as u64 });
                }
                for (m, _) in MAGICS {
                    for d in [0u32, 1, 0xffff_ffff] {
                        v.push(CodeCase {
                            n: m.wrapping_add(d) as u64,
                        });
                    }
                }
                for b in 0..32 {
                    for c in 0..32 {
                        v.push(CodeCase {
                            n: 1u64 << b | 1 << c,
                        });
                    }
                }
                for n in [0x0100_0007u64, 0x0100_000c, 0x8100_0007] {
                    v.push(CodeCase { n });
                }
                v
            },
            check_codes,
        ),
        random(
            "flag-sets",
            (60_000, 2_000_000),
            |_| g_flag_order(),
            check_flag_order,
        ),
    ]
}

// ------------------------------------------------------------------------ M03

fn check_swapped(c: &RtCase) -> Checked {
    let mut want = to_lib(&c.rec);
    let big = !native_big();
    // the magic is read as its mirror image
    if let Lib::Header(h) = &mut want {
        h.magic = match h.magic {
            Magic::Magic64 => Magic::Cigam64,
            Magic::Magic => Magic::Cigam,
            m => m,
        };
    }
    let native = spec::bytes(&c.rec, native_big());
    let image = spec::bytes(&c.rec, big);
    let mut stream = image.clone();
    stream.extend(&c.tail);
    let step = if c.step == 0 { usize::MAX } else { c.step as usize };
    let (got, used) = try_read(c.rec.kind(), big, &stream, step).map_err(|p| {
        format!(
            "reading the opposite-endian image of {:?} panics: {}",
            c.rec, p
        )
    })?;
    ensure!(
        got == want,
        "the opposite-endian image of {:?} reads as {:?}",
        want,
        got
    );
    ensure!(used == image.len(), "consumes {} of {} bytes", used, image.len());
    let (same, _) = try_read(c.rec.kind(), native_big(), &native, usize::MAX)
        .map_err(|p| format!("reading the native image of {:?} panics: {}", c.rec, p))?;
    ensure!(
        same == to_lib(&c.rec),
        "the native image of {:?} reads as {:?}",
        c.rec,
        same
    );
    if let Rec::Header { .. } = &c.rec {
        // what the header reader reports is the order in which the rest reads
        for (b, order) in [(&native, native_big()), (&image, big)] {
            let probe = spec::bytes(
                &Rec::Tool(Tool {
                    tool: 2,
                    version: 0x0102_0304,
                }),
                order,
            );
            let t = sut(|| {
                let (_, e) = Header64::read_from(&mut b.as_slice());
                BuildToolVersion::read_from_in(&mut probe.as_slice(), e)
            })
            .map_err(|p| format!("byte order reported for {:02x?}: {}", b, p))?;
            ensure!(
                t.version == 0x0102_0304,
                "the reader reports the wrong byte order for the header {:02x?}",
                b
            );
        }
    }
    Ok(Info::new(native != image).class(true, kind_class(c.rec.kind())))
}

fn m03_parts() -> Vec<Box<dyn Part>> {
    vec![
        random(
            "swapped-images",
            (500_000, 30_000_000),
            |_| {
                (
                    g_rec(),
                    prop::collection::vec(any::<u8>(), 0..8),
                    prop_oneof![3 => Just(0u8), 1 => 1u8..20],
                )
                    .prop_map(|(rec, tail, step)| RtCase { rec, tail, step })
            },
            check_swapped,
        ),
        listed("enumerators", |_| enumerator_records(), |r: &Rec| {
            check_swapped(&RtCase {
                rec: r.clone(),
                tail: vec![],
                step: 0,
            })
        }),
    ]
}

// ------------------------------------------------------------------------ M04

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Foreign {
    kind: Kind,
    big: bool,
    bytes: Vec<u8>,
}

pub fn check_foreign(c: &Foreign) -> Checked {
    let v = spec::classify(c.kind, &c.bytes, c.big);
    let got = try_read(c.kind, c.big, &c.bytes, usize::MAX);
    let info = Info::new(true).class(true, kind_class(c.kind));
    match (v, got) {
        (Verdict::Valid(rec, n), Ok((l, used))) => {
            let mut want = to_lib(&rec);
            let swapped_header = c.kind == Kind::Header && c.bytes[..4] != 0xfeedfacfu32.to_le_bytes() && c.bytes[..4] != 0xfeedfaceu32.to_le_bytes();
            if let (Lib::Header(h), true) = (&mut want, swapped_header) {
                h.magic = if h.magic == Magic::Magic64 {
                    Magic::Cigam64
                } else {
                    Magic::Cigam
                };
            }
            ensure!(
                l == want,
                "{:?} bytes {:02x?} are {:?} but read as {:?}",
                c.kind,
                c.bytes,
                want,
                l
            );
            ensure!(
                used == n,
                "{:?}: {} bytes consumed instead of {}",
                c.kind,
                used,
                n
            );
            let again = write_bytes(&l)?;
            if c.big == native_big() && !swapped_header {
                ensure!(
                    again == c.bytes[..n],
                    "{:?} bytes {:02x?} are rewritten as {:02x?}",
                    c.kind,
                    c.bytes,
                    again
                );
            } else if !swapped_header {
                let native = spec::bytes(&rec, native_big());
                ensure!(
                    again == native,
                    "{:?} (opposite order) {:02x?} is rewritten as {:02x?} instead of {:02x?}",
                    c.kind,
                    c.bytes,
                    again,
                    native
                );
            }
            Ok(info.class(true, "valid, read back losslessly"))
        }
        (Verdict::Valid(rec, _), Err(p)) => Err(format!(
            "{:?} bytes {:02x?} are a valid {:?} but are refused: {}",
            c.kind, c.bytes, rec, p
        )
        .into()),
        (Verdict::Unmodelled(what), Ok((l, used))) => {
            // A vocabulary that has grown is fine as long as nothing is lost.
            let again = write_bytes(&l)?;
            ensure!(
                c.big == native_big() && again == c.bytes[..used],
                "{:?} bytes {:02x?} have an unmodelled {} but read as {:?}, which stands for {:02x?}",
                c.kind,
                c.bytes,
                what,
                l,
                again
            );
            Ok(info.class(true, "unmodelled code accepted losslessly"))
        }
        (Verdict::Unmodelled(_), Err(_)) => Ok(info.class(true, "unmodelled code refused")),
        (Verdict::Inconsistent(what), Ok((l, _))) => Err(format!(
            "{:?} bytes {:02x?} have an inconsistent {} but read as {:?}",
            c.kind, c.bytes, what, l
        )
        .into()),
        (Verdict::Inconsistent(_), Err(_)) => Ok(info.class(true, "inconsistent size or code refused")),
        (Verdict::Short, Ok((l, _))) => Err(format!(
            "{:?}: {} bytes {:02x?} are too short but read as {:?}",
            c.kind,
            c.bytes.len(),
            c.bytes,
            l
        )
        .into()),
        (Verdict::Short, Err(_)) => {
            // The bytes end just as early for a source that breaks off with an error.
            for fail in [
                std::io::ErrorKind::UnexpectedEof,
                std::io::ErrorKind::ConnectionReset,
                std::io::ErrorKind::Other,
            ] {
                if let Ok((l, _)) = try_read_failing(c.kind, c.big, &c.bytes, usize::MAX, Some(fail)) {
                    return Err(format!(
                        "{:?}: reading fails ({:?}) after the bytes {:02x?}, too few, which still read as {:?}",
                        c.kind, fail, c.bytes, l
                    )
                    .into());
                }
            }
            Ok(info.class(true, "truncation refused"))
        }
        (Verdict::Unspecified, _) => Ok(Info::new(false).class(true, "unspecified name bytes")),
    }
}

#[derive(Clone, Debug)]
enum Mutation {
    None,
    Flip(Vec<(u16, u8)>),
    Set(Vec<(u16, u8)>),
    Word(u8, u32),
    Cut(u16),
    Extend(Vec<u8>),
}

fn foreign() -> BoxedStrategy<Foreign> {
    let mutation = prop_oneof![
        2 => Just(Mutation::None),
        3 => prop::collection::vec((any::<u16>(), 0u8..8), 1..4).prop_map(Mutation::Flip),
        3 => prop::collection::vec((any::<u16>(), any::<u8>()), 1..4).prop_map(Mutation::Set),
        3 => (any::<u8>(), prop_oneof![edge_u32(), 0u32..64]).prop_map(|(i, v)| Mutation::Word(i, v)),
        3 => any::<u16>().prop_map(Mutation::Cut),
        1 => prop::collection::vec(any::<u8>(), 1..40).prop_map(Mutation::Extend),
    ];
    let from_rec = (g_rec(), any::<bool>(), mutation).prop_map(|(rec, big, m)| {
        let kind = rec.kind();
        let big = if kind == Kind::Header { native_big() } else { big };
        let mut b = spec::bytes(&rec, big);
        let n = b.len();
        match m {
            Mutation::None => {}
            Mutation::Flip(v) => {
                for (p, k) in v {
                    b[p as usize % n] ^= 1 << k;
                }
            }
            Mutation::Set(v) => {
                for (p, x) in v {
                    b[p as usize % n] = x;
                }
            }
            Mutation::Word(i, v) => {
                let p = i as usize % (n / 4) * 4;
                let w = if big { v.to_be_bytes() } else { v.to_le_bytes() };
                b[p..p + 4].copy_from_slice(&w);
            }
            Mutation::Cut(k) => b.truncate(k as usize % n),
            Mutation::Extend(v) => b.extend(v),
        }
        Foreign {
            kind,
            big,
            bytes: b,
        }
    });
    let noise = (
        prop::sample::select(&KINDS[1..]),
        any::<bool>(),
        prop::collection::vec(prop_oneof![any::<u8>(), 0u8..4, Just(0u8)], 0..120),
    )
        .prop_map(|(kind, big, bytes)| Foreign { kind, big, bytes });
    // headers in the opposite order, with and without damage
    let swapped = (g_header(&HOST_MAGICS), any::<u16>(), any::<u8>(), any::<bool>()).prop_map(
        |(rec, p, x, damage)| {
            let mut b = spec::bytes(&rec, !native_big());
            if damage {
                let n = b.len();
                b[p as usize % n] = x;
            }
            Foreign {
                kind: Kind::Header,
                big: native_big(),
                bytes: b,
            }
        },
    );
    prop_oneof![8 => from_rec, 1 => noise, 1 => swapped]
        .prop_filter("would allocate a huge section list", |f| modest(f))
        .boxed()
}

/// Whole commands that consistently declare an enormous number of entries only
/// cost memory; they are left out.
fn modest(f: &Foreign) -> bool {
    if f.kind != Kind::Command {
        return true;
    }
    let word = |i: usize| {
        f.bytes.get(i..i + 4).map_or(0, |s| {
            let a = [s[0], s[1], s[2], s[3]];
            if f.big {
                u32::from_be_bytes(a)
            } else {
                u32::from_le_bytes(a)
            }
        })
    };
    word(4) < 1 << 22
}

fn small_records() -> Vec<Rec> {
    let sect = |flags| Section {
        sectname: "__text".into(),
        segname: "__TEXT".into(),
        addr: 0x1122334455667788,
        size: 0x99,
        offset: 3,
        align: 4,
        reloff: 5,
        nreloc: 6,
        flags,
        reserved: [7, 8, 9],
    };
    let seg = |n: u32| Segment {
        cmdsize: 72 + 80 * n,
        segname: "__DATA".into(),
        vmaddr: 1,
        vmsize: 2,
        fileoff: 3,
        filesize: 4,
        maxprot: 7,
        initprot: 5,
        nsects: n,
        flags: 1,
    };
    let build = |n: u32| Build {
        cmdsize: 24 + 8 * n,
        platform: 1,
        minos: 0x000a_0f01,
        sdk: 0x000b_0001,
        ntools: n,
    };
    let tool = Tool {
        tool: 3,
        version: 0x0102_0304,
    };
    vec![
        Rec::Header {
            magic: 0xfeedfacf,
            cpu: 0x0100_0007,
            cpusub: 3,
            filetype: 1,
            ncmds: 2,
            sizeofcmds: 256,
            flags: 0x2001,
            reserved: 0,
        },
        Rec::Segment(seg(2)),
        Rec::Section(sect(0x8000_0700)),
        Rec::Symtab {
            cmdsize: 24,
            f: [1, 2, 3, 4],
        },
        Rec::Dysymtab {
            cmdsize: 80,
            f: std::array::from_fn(|i| i as u32),
        },
        Rec::Build(build(2)),
        Rec::Tool(tool.clone()),
        Rec::Nlist {
            strx: 1,
            typ: 0xf,
            sect: 1,
            desc: 0x0102,
            value: 0x1122334455667788,
        },
        Rec::Reloc {
            addr: 4,
            num: 0x010203,
            pcrel: true,
            len: 2,
            ext: true,
            typ: 5,
        },
        Rec::SegmentCmd(seg(0), vec![]),
        Rec::SegmentCmd(seg(2), vec![sect(0x8000_0400), sect(1)]),
        Rec::BuildCmd(build(0), vec![]),
        Rec::BuildCmd(build(3), vec![tool.clone(), tool.clone(), tool]),
        Rec::SymtabCmd {
            cmdsize: 24,
            f: [1, 2, 3, 4],
        },
        Rec::DysymtabCmd {
            cmdsize: 80,
            f: std::array::from_fn(|i| i as u32),
        },
    ]
}

/// Every truncation, and every byte replaced by every value, of one instance of
/// each record, in both byte orders.
fn exhaustive_damage() -> Vec<Foreign> {
    let mut v = vec![];
    for rec in small_records() {
        for big in [false, true] {
            let b = spec::bytes(&rec, big);
            let kind = rec.kind();
            let order = if kind == Kind::Header { native_big() } else { big };
            for n in 0..b.len() {
                v.push(Foreign {
                    kind,
                    big: order,
                    bytes: b[..n].to_vec(),
                });
            }
            for i in 0..b.len() {
                for x in 0..=255u8 {
                    let mut b = b.clone();
                    b[i] = x;
                    let f = Foreign {
                        kind,
                        big: order,
                        bytes: b,
                    };
                    if modest(&f) {
                        v.push(f);
                    }
                }
            }
        }
    }
    v
}

/// Declared sizes that only agree with the counts modulo 2^32.
fn wrapping_counts() -> Vec<Foreign> {
    let mut v = vec![];
    for big in [false, true] {
        for n in 0..6u64 {
            for k in 1..6u64 {
                // 80 * nsects = 80 * n (mod 2^32)
                let nsects = (n + k * (1 << 28)) as u32;
                let ntools = (n + k * (1 << 29)) as u32;
                v.push(Foreign {
                    kind: Kind::Segment,
                    big,
                    bytes: spec::bytes(
                        &Rec::Segment(Segment {
                            cmdsize: (72 + 80 * n) as u32,
                            segname: "x".into(),
                            vmaddr: 0,
                            vmsize: 0,
                            fileoff: 0,
                            filesize: 0,
                            maxprot: 7,
                            initprot: 7,
                            nsects,
                            flags: 0,
                        }),
                        big,
                    ),
                });
                v.push(Foreign {
                    kind: Kind::Build,
                    big,
                    bytes: spec::bytes(
                        &Rec::Build(Build {
                            cmdsize: (24 + 8 * n) as u32,
                            platform: 1,
                            minos: 0,
                            sdk: 0,
                            ntools,
                        }),
                        big,
                    ),
                });
            }
        }
    }
    v
}

fn m04_parts() -> Vec<Box<dyn Part>> {
    vec![
        listed("every-truncation-and-byte", |_| exhaustive_damage(), check_foreign),
        listed("wrapping-counts", |_| wrapping_counts(), check_foreign),
        random("mutations", (500_000, 30_000_000), |_| foreign(), check_foreign),
        listed("release-build", |_| vec![0u8], check_release),
    ]
}

/// The same damage against a build without overflow checks (what users run).
fn check_release(_: &u8) -> Checked {
    let Ok(bin) = std::env::var("ATCHECK_RELEASE") else {
        return Err(Fail::Machinery("ATCHECK_RELEASE is not set".into()));
    };
    let out = std::process::Command::new(bin)
        .arg("m04-release")
        .output()
        .map_err(|e| Fail::Machinery(format!("release build: {}", e)))?;
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    match out.status.code() {
        Some(0) => Ok(Info::new(true)),
        Some(1) => Err(Fail::Violation(format!("without overflow checks: {}", text.trim()))),
        _ => Err(Fail::Machinery(format!("release build: {}", text))),
    }
}

pub fn release_main() -> i32 {
    for f in wrapping_counts().iter().chain(exhaustive_damage().iter()) {
        match check_foreign(f) {
            Ok(_) => {}
            Err(Fail::Violation(m)) => {
                println!("{}", m);
                return 1;
            }
            Err(Fail::Machinery(m)) => {
                println!("{}", m);
                return 2;
            }
        }
    }
    0
}

// ------------------------------------------------------------------------ M05

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Strings {
    v: Vec<String>,
}

fn table_matches(t: &StringTable, model: &[String], raw: &[u8], when: &str) -> Result<(), String> {
    ensure!(
        t.as_ref() == raw,
        "{}: raw bytes are {:?} instead of {:?}",
        when,
        String::from_utf8_lossy(t.as_ref()),
        String::from_utf8_lossy(raw)
    );
    ensure!(t.len() == raw.len(), "{}: length {}", when, t.len());
    let got: Vec<String> = sut(|| t.iter().map(|s| s.to_string()).collect())
        .map_err(|p| format!("{}: enumeration panics: {}", when, p))?;
    ensure!(
        got == model,
        "{}: enumeration yields {:?} instead of {:?}",
        when,
        got,
        model
    );
    Ok(())
}

fn check_strings(c: &Strings) -> Checked {
    let mut raw = vec![0u8];
    let mut t = StringTable::with_null();
    table_matches(&t, &[], &raw, "new table")?;
    let mut offs = vec![];
    for (i, s) in c.v.iter().enumerate() {
        offs.push(raw.len());
        sut(|| t.push_with_null(s)).map_err(|p| format!("storing {:?} panics: {}", s, p))?;
        raw.extend(s.as_bytes());
        raw.push(0);
        if i < 20 || i + 1 == c.v.len() {
            table_matches(&t, &c.v[..=i], &raw, &format!("after {} strings", i + 1))?;
        }
    }
    let rebuilt = sut(|| StringTable::from(raw.clone()))
        .map_err(|p| format!("rebuilding from {:?} panics: {}", raw, p))?;
    table_matches(&rebuilt, &c.v, &raw, "rebuilt table")?;
    for (which, t) in [("table", &t), ("rebuilt table", &rebuilt)] {
        let at = |o: usize| {
            sut(|| t.get(o).to_string()).map_err(|p| format!("{}: offset {}: {}", which, o, p))
        };
        ensure!(at(0)? == "", "{}: offset 0 is {:?}", which, at(0)?);
        for (o, s) in offs.iter().zip(&c.v) {
            let ks: Vec<usize> = if s.len() <= 40 {
                (0..=s.len()).collect()
            } else {
                vec![0, 1, s.len() / 2, s.len() - 1, s.len()]
            };
            for k in ks {
                let g = at(o + k)?;
                ensure!(
                    g == s[k..],
                    "{}: offset {}+{} gives {:?} instead of {:?}",
                    which,
                    o,
                    k,
                    g,
                    &s[k..]
                );
            }
        }
    }
    let rel = c.v.iter().enumerate().any(|(i, a)| {
        c.v.iter()
            .enumerate()
            .any(|(j, b)| i != j && !a.is_empty() && b.ends_with(a.as_str()))
    });
    Ok(Info::new(c.v.len() >= 2)
        .class(rel, "suffix-related or repeated")
        .class(c.v.iter().any(|s| s.is_empty()), "empty string stored")
        .class(raw.len() > 65536, "table longer than 64 KiB"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawTable {
    bytes: Vec<u8>,
    bad: String,
}

fn check_raw(c: &RawTable) -> Checked {
    let framed = c.bytes.first() == Some(&0) && c.bytes.last() == Some(&0);
    let ok = framed && c.bytes.is_ascii();
    match sut(|| StringTable::from(c.bytes.clone())) {
        Ok(t) => {
            ensure!(ok, "raw table {:?} is not refused", c.bytes);
            // split by NUL, independently of the library
            let model: Vec<String> = c.bytes[1..]
                .split_inclusive(|b| *b == 0)
                .map(|s| String::from_utf8(s[..s.len() - 1].to_vec()).unwrap())
                .collect();
            table_matches(&t, &model, &c.bytes, "raw table")?;
            for o in 0..c.bytes.len() {
                let end = o + c.bytes[o..].iter().position(|b| *b == 0).unwrap();
                let g = sut(|| t.get(o).to_string()).map_err(|p| format!("offset {}: {}", o, p))?;
                ensure!(
                    g.as_bytes() == &c.bytes[o..end],
                    "raw table {:?}: offset {} gives {:?}",
                    c.bytes,
                    o,
                    g
                );
            }
        }
        Err(p) => ensure!(!ok, "raw table {:?} is refused: {}", c.bytes, p),
    }
    let storable = c.bad.is_ascii() && !c.bad.contains('\0');
    let r = sut(|| {
        let mut t = StringTable::with_null();
        t.push_with_null(&c.bad);
        t.as_ref().to_vec()
    });
    match r {
        Ok(b) => {
            ensure!(storable, "{:?} is stored as {:?}", c.bad, b);
        }
        Err(p) => ensure!(!storable, "{:?} is refused: {}", c.bad, p),
    }
    Ok(Info::new(c.bytes.len() > 1)
        .class(ok, "valid raw table")
        .class(!ok, "refused raw table")
        .class(!c.bad.is_ascii(), "non-ASCII text refused")
        .class(c.bad.contains('\0'), "text with a NUL refused"))
}

fn ascii_name() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[a-c_]{0,4}",
        1 => crate::dict::name(),
        2 => "[\\x01-\\x7f]{0,12}",
        1 => "[ -~]{30,300}",
    ]
    .boxed()
}

/// A table too large to be written out: `count` strings of `len` characters.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HugeTable {
    count: usize,
    len: usize,
}

fn check_huge_table(c: &HugeTable) -> Checked {
    let name = |i: usize| -> String {
        let mut s = format!("{}_", i);
        while s.len() < c.len {
            s.push((b'a' + ((s.len() * 7 + i) % 26) as u8) as char);
        }
        s.truncate(c.len);
        s
    };
    let mut raw = vec![0u8];
    let mut t = StringTable::with_null();
    let mut offs = vec![];
    for i in 0..c.count {
        let s = name(i);
        offs.push(raw.len());
        sut(|| t.push_with_null(&s)).map_err(|p| format!("storing string {} panics: {}", i, p))?;
        raw.extend(s.as_bytes());
        raw.push(0);
    }
    let rebuilt = sut(|| StringTable::from(raw.clone()))
        .map_err(|p| format!("rebuilding panics: {}", p))?;
    for (which, t) in [("table", &t), ("rebuilt table", &rebuilt)] {
        ensure!(t.as_ref() == raw, "{}: raw bytes differ", which);
        ensure!(t.len() == raw.len(), "{}: length {} of {}", which, t.len(), raw.len());
        let wrong = sut(|| {
            let mut n = 0;
            for (i, s) in t.iter().enumerate() {
                if i >= c.count || s != name(i) {
                    return Some(i);
                }
                n += 1;
            }
            (n != c.count).then_some(n)
        })
        .map_err(|p| format!("{}: enumeration panics: {}", which, p))?;
        ensure!(wrong.is_none(), "{}: enumeration is wrong at string {:?}", which, wrong);
        for (i, o) in offs.iter().enumerate() {
            let s = name(i);
            let ks = [0, 1.min(s.len()), s.len() / 2, s.len().saturating_sub(1), s.len()];
            for k in ks {
                let same = sut(|| t.get(o + k) == &s[k..])
                    .map_err(|p| format!("{}: offset {}+{}: {}", which, o, k, p))?;
                ensure!(same, "{}: offset {}+{} gives something else", which, o, k);
            }
        }
        ensure!(sut(|| t.get(0).is_empty()).unwrap_or(false), "{}: offset 0", which);
    }
    Ok(Info::new(c.count * (c.len + 1) > 255)
        .class(c.count > 65_535, "more than 65535 strings")
        .class(c.len > 65_535, "strings longer than 65535 characters")
        .class(raw.len() > 1 << 24, "table longer than 16 MiB"))
}

fn huge_tables(t: Tier) -> Vec<HugeTable> {
    let mut v = vec![];
    for e in [8, 12, 15, 16, 20] {
        for len in [(1usize << e) - 2, (1 << e) - 1, 1 << e, (1 << e) + 1] {
            v.push(HugeTable { count: 1, len });
            v.push(HugeTable { count: 3, len });
        }
    }
    for count in [255usize, 256, 257, 4096, 32_768, 65_535, 65_536, 65_537, 70_000] {
        for len in [0, 1, 7] {
            v.push(HugeTable { count, len });
        }
    }
    v.push(HugeTable { count: 3, len: 1 << 24 });
    v.push(HugeTable { count: 70_000, len: 300 });
    if t == Tier::Thorough {
        v.push(HugeTable { count: 3_000_000, len: 10 });
        v.push(HugeTable { count: 20_000, len: 10_000 });
        v.push(HugeTable { count: 5, len: 1 << 28 });
    }
    v
}

fn m05_parts() -> Vec<Box<dyn Part>> {
    vec![
        listed("huge", huge_tables, check_huge_table),
        random(
            "histories",
            (120_000, 5_000_000),
            |_| {
                prop_oneof![
                    8 => prop::collection::vec(ascii_name(), 0..12),
                    2 => ("[a-d]{1,8}", prop::collection::vec((0usize..9, any::<bool>()), 1..10)).prop_map(|(s, cuts)| {
                        // prefixes and suffixes of one string
                        cuts.into_iter().map(|(k, suf)| {
                            let k = k.min(s.len());
                            if suf { s[k..].to_string() } else { s[..k].to_string() }
                        }).collect()
                    }),
                ]
                .prop_map(|v| Strings { v })
            },
            check_strings,
        ),
        random(
            "large-tables",
            (64, 4000),
            |_| {
                prop::collection::vec(prop_oneof![4 => "[a-z]{0,8}", 1 => "[a-z]{200,900}"], 300..900)
                    .prop_map(|v| Strings { v })
            },
            check_strings,
        ),
        random(
            "raw-tables",
            (200_000, 8_000_000),
            |_| {
                let byte = prop_oneof![3 => Just(0u8), 5 => b'a'..=b'd', 1 => 1u8..128];
                let odd = prop_oneof![10 => byte.clone(), 1 => any::<u8>()];
                let bytes = prop_oneof![
                    3 => prop::collection::vec(byte, 0..24).prop_map(|mut v| { v.insert(0, 0); v.push(0); v }),
                    2 => prop::collection::vec(odd.clone(), 0..16).prop_map(|mut v| { v.insert(0, 0); v.push(0); v }),
                    2 => prop::collection::vec(odd, 0..10),
                    1 => Just(vec![0u8]),
                ];
                let bad = prop_oneof![
                    "[a-z]{0,6}[é語\u{80}ÿ][a-z]{0,6}",
                    "[\\x01-\\x7f]{0,6}",
                    "\\PC{0,6}",
                    "[a-z]{0,4}\\x00[a-z]{0,4}",
                ];
                (bytes, bad).prop_map(|(bytes, bad)| RawTable { bytes, bad })
            },
            check_raw,
        ),
    ]
}

// ------------------------------------------------------------------------ M06

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Stream {
    cmds: Vec<Rec>,
    big: bool,
    step: u8,
    tail: Vec<u8>,
}

fn check_stream(c: &Stream) -> Checked {
    // Native order: as the library writes it; opposite order: as the format says.
    let mut image = vec![];
    for r in &c.cmds {
        let Lib::Command(lc) = to_lib(r) else {
            unreachable!()
        };
        let b = write_bytes(&Lib::Command(lc.clone()))?;
        ensure!(
            b.len() >= 8
                && lc.cmd() == u32::from_ne_bytes([b[0], b[1], b[2], b[3]])
                && lc.cmd_size() == u32::from_ne_bytes([b[4], b[5], b[6], b[7]]),
            "{:?} reports command {:#x} size {} but is written as {:02x?}",
            lc,
            lc.cmd(),
            lc.cmd_size(),
            &b[..b.len().min(8)]
        );
        ensure!(
            b.len() == lc.cmd_size() as usize,
            "{:?} is {} bytes long",
            lc,
            b.len()
        );
        if c.big == native_big() {
            image.extend(b);
        } else {
            image.extend(spec::bytes(r, c.big));
        }
    }
    image.extend(&c.tail);
    let (_, e) = sut(|| Header64::read_from(&mut announcing(c.big).as_slice()))
        .map_err(|p| format!("reading a header panics: {}", p))?;
    let mut d = Drip {
        b: &image,
        pos: 0,
        step: if c.step == 0 { usize::MAX } else { c.step as usize },
        interrupt: false,
        fail: None,
    };
    for (i, r) in c.cmds.iter().enumerate() {
        let start = d.pos;
        let got = sut(|| LoadCommand::read_from_in(&mut d, e))
            .map_err(|p| format!("reading command {} ({:?}) panics: {}", i, r, p))?;
        let Lib::Command(want) = to_lib(r) else {
            unreachable!()
        };
        ensure!(
            got == want,
            "command {} {:?} reads back as {:?}",
            i,
            want,
            got
        );
        ensure!(
            d.pos - start == want.cmd_size() as usize,
            "reading command {} consumes {} bytes instead of {}",
            i,
            d.pos - start,
            want.cmd_size()
        );
    }
    let nested = c.cmds.iter().any(|r| match r {
        Rec::SegmentCmd(_, v) => !v.is_empty(),
        Rec::BuildCmd(_, v) => !v.is_empty(),
        _ => false,
    });
    Ok(Info::new(c.cmds.len() >= 2)
        .class(c.big != native_big(), "opposite byte order")
        .class(nested, "with sections or tools")
        .class(c.cmds.len() >= 6, "six or more commands"))
}

/// Commands too long to be written out: each with `n` sections or tools.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HugeStream {
    /// number of entries and whether they are sections
    cmds: Vec<(u32, bool)>,
    big: bool,
}

pub fn many_entries(n: u32, sections: bool) -> Rec {
    let mix = |i: u32, k: u32| {
        let mut x = i.wrapping_mul(0x9e37_79b9) ^ k.wrapping_mul(0x85eb_ca6b);
        x ^= x >> 15;
        x = x.wrapping_mul(0x2c1b_3c6d);
        x ^ x >> 12
    };
    if sections {
        Rec::SegmentCmd(
            Segment {
                cmdsize: 72 + 80 * n,
                segname: "__BIG".into(),
                vmaddr: 1,
                vmsize: 2,
                fileoff: 3,
                filesize: 4,
                maxprot: 5,
                initprot: 6,
                nsects: n,
                flags: 7,
            },
            (0..n)
                .map(|i| Section {
                    sectname: format!("s{}", i),
                    segname: format!("g{}", i % 7),
                    addr: (mix(i, 1) as u64) << 32 | mix(i, 2) as u64,
                    size: (mix(i, 3) as u64) << 32 | mix(i, 4) as u64,
                    offset: mix(i, 5),
                    align: mix(i, 6),
                    reloff: mix(i, 7),
                    nreloc: mix(i, 8),
                    flags: spec::SECTION_TYPES[mix(i, 9) as usize % spec::SECTION_TYPES.len()]
                        | spec::SECTION_ATTRS[mix(i, 10) as usize % spec::SECTION_ATTRS.len()],
                    reserved: [mix(i, 11), mix(i, 12), mix(i, 13)],
                })
                .collect(),
        )
    } else {
        Rec::BuildCmd(
            Build {
                cmdsize: 24 + 8 * n,
                platform: spec::PLATFORMS[0],
                minos: 0x000a_0b0c,
                sdk: 0x000d_0e0f,
                ntools: n,
            },
            (0..n)
                .map(|i| Tool {
                    tool: spec::TOOLS[mix(i, 1) as usize % spec::TOOLS.len()],
                    version: mix(i, 2),
                })
                .collect(),
        )
    }
}

/// The same checks as for short streams; messages are shortened.
fn check_huge_stream(c: &HugeStream) -> Checked {
    let cmds: Vec<Rec> = c.cmds.iter().map(|(n, s)| many_entries(*n, *s)).collect();
    let short = |e: Fail| match e {
        Fail::Violation(m) => Fail::Violation(format!(
            "commands with {:?} entries: {} ...",
            c.cmds,
            m.chars().take(300).collect::<String>()
        )),
        e => e,
    };
    for r in &cmds {
        let b = write_bytes(&to_lib(r)).map_err(Fail::Violation).map_err(short)?;
        ensure!(
            b == spec::bytes(r, native_big()),
            "a command of {:?} entries is not written as the format says",
            c.cmds
        );
    }
    let s = Stream {
        cmds,
        big: c.big,
        step: 0,
        tail: vec![1, 2, 3],
    };
    check_stream(&s).map_err(short)?;
    Ok(Info::new(true)
        .class(c.cmds.iter().any(|(n, s)| n * if *s { 80 } else { 8 } > 65_535), "command longer than 64 KiB")
        .class(c.cmds.iter().any(|(n, _)| *n > 65_535), "more than 65535 entries"))
}

fn huge_streams(t: Tier) -> Vec<HugeStream> {
    let mut v = vec![];
    let mut counts = vec![
        127, 128, 254, 255, 256, 257, 408, 409, 410, 511, 512, 513, 817, 818, 819, 820, 1023, 1024, 1025, 4093, 4096, 8188, 8189,
        8190, 8193, 32_767, 32_768, 65_535, 65_536, 65_537, 70_000,
    ];
    if t == Tier::Thorough {
        counts.extend([209_714, 209_716, 524_288, 1_000_000, 2_097_150, 2_097_152]);
    }
    for big in [false, true] {
        for n in &counts {
            for s in [true, false] {
                v.push(HugeStream { cmds: vec![(*n, s)], big });
            }
        }
        v.push(HugeStream { cmds: vec![(3, true), (9000, false), (900, true), (2, false)], big });
        v.push(HugeStream { cmds: vec![(1, false); 300], big });
        v.push(HugeStream { cmds: vec![(1, true); 5000], big });
        v.push(HugeStream { cmds: vec![(0, true); 66_000], big });
    }
    v
}

fn m06_parts() -> Vec<Box<dyn Part>> {
    let strat = |cmds: std::ops::Range<usize>, entries: usize| {
        (
            prop::collection::vec(g_command(entries), cmds),
            any::<bool>(),
            prop_oneof![3 => Just(0u8), 1 => 1u8..30],
            prop::collection::vec(any::<u8>(), 0..12),
        )
            .prop_map(|(cmds, big, step, tail)| Stream {
                cmds,
                big,
                step,
                tail,
            })
    };
    vec![
        random(
            "streams",
            (60_000, 3_000_000),
            move |_| strat(0..9, 5),
            check_stream,
        ),
        listed("huge", huge_streams, check_huge_stream),
        random(
            "many-entries",
            (400, 20_000),
            move |_| strat(1..4, 300),
            check_stream,
        ),
    ]
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "M01",
            level: "exploration",
            rule: "Records of every kind with boundary-heavy field values, written by the library and read back (also in small interrupted pieces, with other data following), plus one record per enumerator, flag pair, attribute set and relocation bit pattern. Oracle: equality, documented size, exact consumption. Records one field of which does not fit its place (names over 16 bytes, with NUL or non-ASCII, symbol numbers over 24 bits, types over 4 bits) must be refused, or read back equal. Non-trivial: more than four non-zero bytes.",
            assumptions: &[],
            parts: m01_parts,
        },
        Property {
            id: "M02",
            level: "exploration",
            rule: "Same records; oracle: an independent serializer written from the format's headers must give the same bytes; numeric conversions of all enumerations compared with the format's constants in both directions over 0..3000 (2^20 in thorough) and boundary values. Non-trivial: more than four non-zero bytes, or a number some enumeration models.",
            assumptions: &["spec.rs transcribes loader.h, nlist.h and reloc.h"],
            parts: m02_parts,
        },
        Property {
            id: "M03",
            level: "exploration",
            rule: "Byte images of records in the opposite order from the independent serializer; the library must read the same values and consume the same bytes; header magic decides the order. Non-trivial: the two images differ.",
            assumptions: &["big-endian relocation entries mirror the bit-field order, as the source documents"],
            parts: m03_parts,
        },
        Property {
            id: "M04",
            level: "exploration",
            rule: "Bytes of each record kind: every truncation and every single-byte replacement of an instance of each kind in both orders (complete), sizes that only match modulo 2^32, random multi-byte damage and noise; repeated against a build without overflow checks. Oracle: an independent classifier (valid / unmodelled / inconsistent / short). Non-trivial: everything but cases the format leaves open.",
            assumptions: &["names that are not NUL-padded ASCII are left out", "whole commands declaring more than 4 MiB of entries are left out"],
            parts: m04_parts,
        },
        Property {
            id: "M05",
            level: "exploration",
            rule: "Histories of strings (empty, repeated, prefix/suffix-related, long) compared after each step with a byte-vector model, and arbitrary raw tables. Non-trivial: two or more strings, or more than one raw byte.",
            assumptions: &[],
            parts: m05_parts,
        },
        Property {
            id: "M06",
            level: "exploration",
            rule: "Sequences of whole load commands with 0..300 sections or tools each, in both byte orders, read one after another from one stream. Non-trivial: at least two commands.",
            assumptions: &[],
            parts: m06_parts,
        },
    ]
}
