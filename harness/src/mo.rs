//! An independent reader of x86-64 Mach-O files (little endian), written from
//! mach-o/loader.h, nlist.h and reloc.h. It never panics on malformed input.

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Sect {
    pub sectname: String,
    pub segname: String,
    pub addr: u64,
    pub size: u64,
    pub offset: u32,
    pub align: u32,
    pub reloff: u32,
    pub nreloc: u32,
    pub flags: u32,
    pub reserved: [u32; 3],
}

impl Sect {
    pub fn stype(&self) -> u32 {
        self.flags & 0xff
    }
    pub fn zerofill(&self) -> bool {
        matches!(self.stype(), 0x1 | 0xc | 0x12)
    }
    pub fn is(&self, seg: &str, sect: &str) -> bool {
        self.segname == seg && self.sectname == sect
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Seg {
    pub name: String,
    pub vmaddr: u64,
    pub vmsize: u64,
    pub fileoff: u64,
    pub filesize: u64,
    pub maxprot: u32,
    pub initprot: u32,
    pub flags: u32,
    pub sects: Vec<Sect>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Sym {
    pub strx: u32,
    pub name: Vec<u8>,
    pub typ: u8,
    pub sect: u8,
    pub desc: u16,
    pub value: u64,
}

impl Sym {
    pub fn ext(&self) -> bool {
        self.typ & 1 != 0
    }
    pub fn pext(&self) -> bool {
        self.typ & 0x10 != 0
    }
    pub fn stab(&self) -> bool {
        self.typ & 0xe0 != 0
    }
    /// N_UNDF 0, N_ABS 2, N_SECT 0xe
    pub fn kind(&self) -> u8 {
        self.typ & 0x0e
    }
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.name).into_owned()
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Rel {
    pub addr: u32,
    pub num: u32,
    pub pcrel: bool,
    pub len: u8,
    pub ext: bool,
    pub typ: u8,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Cmd {
    pub cmd: u32,
    pub size: u32,
    pub off: usize,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Symtab {
    pub symoff: u32,
    pub nsyms: u32,
    pub stroff: u32,
    pub strsize: u32,
}

#[derive(Clone, Debug)]
pub struct File {
    pub cpu: u32,
    pub cpusub: u32,
    pub filetype: u32,
    pub flags: u32,
    pub cmds: Vec<Cmd>,
    pub cmds_end: usize,
    pub segs: Vec<Seg>,
    pub symtab: Option<Symtab>,
    pub syms: Vec<Sym>,
    pub relocs: Vec<Vec<Rel>>, // per section, in order of all sections
    pub bytes: Vec<u8>,
}

fn u32at(b: &[u8], o: usize) -> Result<u32, String> {
    match b.get(o..o.wrapping_add(4)) {
        Some(s) if s.len() == 4 => Ok(u32::from_le_bytes([s[0], s[1], s[2], s[3]])),
        _ => Err(format!("offset {:#x} is outside the file", o)),
    }
}
fn u64at(b: &[u8], o: usize) -> Result<u64, String> {
    Ok(u32at(b, o)? as u64 | (u32at(b, o + 4)? as u64) << 32)
}
fn name16(b: &[u8], o: usize) -> Result<String, String> {
    let s = b
        .get(o..o + 16)
        .ok_or_else(|| format!("offset {:#x} is outside the file", o))?;
    let n = s.iter().position(|c| *c == 0).unwrap_or(16);
    if s[n..].iter().any(|c| *c != 0) {
        return Err(format!("name at {:#x} is not NUL-padded", o));
    }
    String::from_utf8(s[..n].to_vec()).map_err(|_| format!("name at {:#x} is not text", o))
}

impl File {
    pub fn sects(&self) -> Vec<&Sect> {
        self.segs.iter().flat_map(|s| s.sects.iter()).collect()
    }

    pub fn find(&self, seg: &str, sect: &str) -> Option<(usize, &Sect)> {
        self.segs
            .iter()
            .flat_map(|s| s.sects.iter())
            .enumerate()
            .find(|(_, s)| s.is(seg, sect))
    }

    /// File contents of a section (empty for zero-fill).
    pub fn content(&self, s: &Sect) -> Result<&[u8], String> {
        if s.zerofill() {
            return Ok(&[]);
        }
        let start = s.offset as u64;
        let end = start
            .checked_add(s.size)
            .ok_or("section size overflows")?;
        if end > self.bytes.len() as u64 {
            return Err(format!(
                "section {},{} ({:#x}..{:#x}) is outside the file of {:#x} bytes",
                s.segname,
                s.sectname,
                start,
                end,
                self.bytes.len()
            ));
        }
        Ok(&self.bytes[start as usize..end as usize])
    }

    pub fn parse(b: &[u8]) -> Result<File, String> {
        if u32at(b, 0)? != 0xfeedfacf {
            return Err(format!("bad magic {:#x}", u32at(b, 0)?));
        }
        let mut f = File {
            cpu: u32at(b, 4)?,
            cpusub: u32at(b, 8)?,
            filetype: u32at(b, 12)?,
            flags: u32at(b, 24)?,
            cmds: vec![],
            cmds_end: 0,
            segs: vec![],
            symtab: None,
            syms: vec![],
            relocs: vec![],
            bytes: b.to_vec(),
        };
        let ncmds = u32at(b, 16)?;
        let total = u32at(b, 20)? as usize;
        let end = 32usize + total;
        if end > b.len() {
            return Err(format!(
                "load commands ({} bytes) extend past the end of the file ({} bytes)",
                total,
                b.len()
            ));
        }
        f.cmds_end = end;
        let mut o = 32usize;
        for i in 0..ncmds {
            if o + 8 > end {
                return Err(format!("load command {} is outside sizeofcmds", i));
            }
            let (cmd, size) = (u32at(b, o)?, u32at(b, o + 4)?);
            if size < 8 || size % 8 != 0 || o + size as usize > end {
                return Err(format!("load command {} has bad size {}", i, size));
            }
            match cmd {
                0x19 => {
                    if size < 72 {
                        return Err("segment command is too small".into());
                    }
                    let nsects = u32at(b, o + 64)?;
                    if size as u64 != 72 + 80 * nsects as u64 {
                        return Err(format!(
                            "segment command of size {} cannot hold {} sections",
                            size, nsects
                        ));
                    }
                    let mut seg = Seg {
                        name: name16(b, o + 8)?,
                        vmaddr: u64at(b, o + 24)?,
                        vmsize: u64at(b, o + 32)?,
                        fileoff: u64at(b, o + 40)?,
                        filesize: u64at(b, o + 48)?,
                        maxprot: u32at(b, o + 56)?,
                        initprot: u32at(b, o + 60)?,
                        flags: u32at(b, o + 68)?,
                        sects: vec![],
                    };
                    for k in 0..nsects as usize {
                        let p = o + 72 + 80 * k;
                        seg.sects.push(Sect {
                            sectname: name16(b, p)?,
                            segname: name16(b, p + 16)?,
                            addr: u64at(b, p + 32)?,
                            size: u64at(b, p + 40)?,
                            offset: u32at(b, p + 48)?,
                            align: u32at(b, p + 52)?,
                            reloff: u32at(b, p + 56)?,
                            nreloc: u32at(b, p + 60)?,
                            flags: u32at(b, p + 64)?,
                            reserved: [u32at(b, p + 68)?, u32at(b, p + 72)?, u32at(b, p + 76)?],
                        });
                    }
                    f.segs.push(seg);
                }
                0x2 => {
                    if size != 24 {
                        return Err(format!("symtab command of size {}", size));
                    }
                    if f.symtab.is_some() {
                        return Err("two symtab commands".into());
                    }
                    f.symtab = Some(Symtab {
                        symoff: u32at(b, o + 8)?,
                        nsyms: u32at(b, o + 12)?,
                        stroff: u32at(b, o + 16)?,
                        strsize: u32at(b, o + 20)?,
                    });
                }
                _ => {}
            }
            f.cmds.push(Cmd { cmd, size, off: o });
            o += size as usize;
        }
        if o != end {
            return Err(format!(
                "the {} load commands take {} bytes but the header says {}",
                ncmds,
                o - 32,
                total
            ));
        }
        if let Some(t) = f.symtab.clone() {
            let send = t.symoff as u64 + 16 * t.nsyms as u64;
            let strend = t.stroff as u64 + t.strsize as u64;
            if send > b.len() as u64 || strend > b.len() as u64 {
                return Err(format!(
                    "symbol table (..{:#x}) or string table (..{:#x}) is outside the file ({:#x})",
                    send,
                    strend,
                    b.len()
                ));
            }
            let strs = &b[t.stroff as usize..strend as usize];
            for i in 0..t.nsyms as usize {
                let p = t.symoff as usize + 16 * i;
                let strx = u32at(b, p)?;
                let rest = strs.get(strx as usize..).unwrap_or(&[]);
                let Some(n) = rest.iter().position(|c| *c == 0) else {
                    return Err(format!(
                        "symbol {}: name offset {} is not a string in the string table of {} bytes",
                        i, strx, t.strsize
                    ));
                };
                f.syms.push(Sym {
                    strx,
                    name: rest[..n].to_vec(),
                    typ: b[p + 4],
                    sect: b[p + 5],
                    desc: u16::from_le_bytes([b[p + 6], b[p + 7]]),
                    value: u64at(b, p + 8)?,
                });
            }
        }
        let mut relocs = vec![];
        for s in f.sects() {
            let mut v = vec![];
            for i in 0..s.nreloc as usize {
                let p = s.reloff as usize + 8 * i;
                let w = u32at(b, p + 4).map_err(|e| {
                    format!("relocation {} of {}: {}", i, s.sectname, e)
                })?;
                v.push(Rel {
                    addr: u32at(b, p)?,
                    num: w & 0xff_ffff,
                    pcrel: w >> 24 & 1 != 0,
                    len: (w >> 25 & 3) as u8,
                    ext: w >> 27 & 1 != 0,
                    typ: (w >> 28) as u8,
                });
            }
            relocs.push(v);
        }
        f.relocs = relocs;
        Ok(f)
    }

    /// Structural well-formedness of a relocatable object (property O01).
    pub fn well_formed(&self) -> Result<(), String> {
        let b = &self.bytes;
        let len = b.len() as u64;
        crate::ensure!(
            self.cpu == 0x0100_0007 && self.cpusub & 0xff_ffff == 3,
            "cpu type {:#x}/{:#x} is not x86-64",
            self.cpu,
            self.cpusub
        );
        crate::ensure!(self.filetype == 1, "file type {} is not MH_OBJECT", self.filetype);
        crate::ensure!(
            self.segs.len() == 1,
            "an object has one segment, found {}",
            self.segs.len()
        );
        crate::ensure!(self.flags == 0, "the header has flags {:#x}", self.flags);
        crate::ensure!(u32at(b, 28)? == 0, "the header's reserved word is not zero");
        let Some(t) = &self.symtab else {
            return Err("no symbol table command".into());
        };
        let mut ranges: Vec<(u64, u64, String)> = vec![(0, self.cmds_end as u64, "header and commands".into())];
        let seg = &self.segs[0];
        crate::ensure!(
            seg.fileoff.checked_add(seg.filesize).map_or(false, |e| e <= len),
            "segment file range {:#x}+{:#x} is outside the file of {:#x} bytes",
            seg.fileoff,
            seg.filesize,
            len
        );
        crate::ensure!(
            seg.filesize <= seg.vmsize,
            "segment claims {:#x} file bytes but only {:#x} memory bytes",
            seg.filesize,
            seg.vmsize
        );
        crate::ensure!(
            seg.maxprot == 7 && seg.initprot == 7,
            "the segment's protections are {}/{}, not read, write and execute",
            seg.maxprot,
            seg.initprot
        );
        crate::ensure!(seg.flags == 0, "the segment has flags {:#x}", seg.flags);
        let mut mem: Vec<(u64, u64, String)> = vec![];
        for (k, s) in seg.sects.iter().enumerate() {
            let n = format!("section {},{}", s.segname, s.sectname);
            crate::ensure!(
                s.reserved == [0; 3],
                "{} has reserved fields {:?}",
                n,
                s.reserved
            );
            crate::ensure!(
                s.align <= 15 && s.addr % (1 << s.align) == 0,
                "{} at address {:#x} is not aligned to 2^{}",
                n,
                s.addr,
                s.align
            );
            let vend = s.addr.checked_add(s.size).ok_or("section wraps")?;
            crate::ensure!(
                s.addr >= seg.vmaddr && vend - seg.vmaddr <= seg.vmsize,
                "{} at {:#x}..{:#x} is outside the segment's memory {:#x}+{:#x}",
                n,
                s.addr,
                vend,
                seg.vmaddr,
                seg.vmsize
            );
            mem.push((s.addr, vend, n.clone()));
            if !s.zerofill() {
                self.content(s)?;
                let end = s.offset as u64 + s.size;
                crate::ensure!(
                    s.offset as u64 >= seg.fileoff && end <= seg.fileoff + seg.filesize,
                    "{} contents {:#x}..{:#x} are outside the segment's file range {:#x}+{:#x}",
                    n,
                    s.offset,
                    end,
                    seg.fileoff,
                    seg.filesize
                );
                ranges.push((s.offset as u64, end, n.clone()));
            }
            if s.nreloc > 0 {
                crate::ensure!(
                    s.reloff % 8 == 0,
                    "{} relocation table at {:#x} is not 8-byte aligned",
                    n,
                    s.reloff
                );
                let e = s.reloff as u64 + 8 * s.nreloc as u64;
                ranges.push((s.reloff as u64, e, format!("relocations of {}", n)));
            } else {
                crate::ensure!(
                    s.reloff as u64 <= len,
                    "{} relocation offset {:#x} is outside the file",
                    n,
                    s.reloff
                );
            }
            for (i, r) in self.relocs[k].iter().enumerate() {
                if r.ext {
                    crate::ensure!(
                        r.num < t.nsyms,
                        "relocation {} of {} refers to symbol {} of {}",
                        i,
                        n,
                        r.num,
                        t.nsyms
                    );
                } else {
                    crate::ensure!(
                        r.num >= 1 && r.num as usize <= seg.sects.len(),
                        "relocation {} of {} refers to section {} of {}",
                        i,
                        n,
                        r.num,
                        seg.sects.len()
                    );
                }
            }
        }
        if t.nsyms > 0 {
            crate::ensure!(
                t.symoff % 8 == 0,
                "symbol table at {:#x} is not 8-byte aligned",
                t.symoff
            );
        }
        ranges.push((
            t.symoff as u64,
            t.symoff as u64 + 16 * t.nsyms as u64,
            "symbol table".into(),
        ));
        ranges.push((
            t.stroff as u64,
            t.stroff as u64 + t.strsize as u64,
            "string table".into(),
        ));
        for (what, list) in [("file", &mut ranges), ("memory", &mut mem)] {
            list.sort();
            let full: Vec<_> = list.iter().filter(|r| r.0 < r.1).collect();
            for w in full.windows(2) {
                crate::ensure!(
                    w[0].1 <= w[1].0,
                    "{} ranges overlap: {} {:#x}..{:#x} and {} {:#x}..{:#x}",
                    what,
                    w[0].2,
                    w[0].0,
                    w[0].1,
                    w[1].2,
                    w[1].0,
                    w[1].1
                );
            }
            for r in list.iter() {
                crate::ensure!(
                    what == "memory" || r.1 <= len,
                    "{} {:#x}..{:#x} is outside the file of {:#x} bytes",
                    r.2,
                    r.0,
                    r.1,
                    len
                );
            }
        }
        crate::ensure!(
            t.stroff as u64 + t.strsize as u64 == len,
            "the string table ends at {:#x} but the file at {:#x}",
            t.stroff as u64 + t.strsize as u64,
            len
        );
        for (i, s) in self.syms.iter().enumerate() {
            if s.kind() == 0xe && !s.stab() {
                crate::ensure!(
                    s.sect >= 1 && s.sect as usize <= seg.sects.len(),
                    "symbol {} ({}) is defined in section {} of {}",
                    i,
                    s.text(),
                    s.sect,
                    seg.sects.len()
                );
            } else {
                crate::ensure!(
                    s.sect as usize <= seg.sects.len(),
                    "symbol {} ({}) names section {} of {}",
                    i,
                    s.text(),
                    s.sect,
                    seg.sects.len()
                );
            }
        }
        Ok(())
    }
}
