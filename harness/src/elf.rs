//! Minimal ELF writer (little endian, 32 or 64 bit) and `ar` writer.

#[derive(Clone, Debug)]
pub struct Section {
    pub name: String,
    pub ty: u32,
    pub flags: u64,
    pub addr: u64,
    pub data: Vec<u8>,
    pub link: u32,
    pub info: u32,
    pub entsize: u64,
    pub align: u64,
    /// size of a NOBITS section
    pub nobits: u64,
}

pub const PROGBITS: u32 = 1;
pub const NOBITS: u32 = 8;
pub const A: u64 = 2;
pub const X: u64 = 4;
pub const W: u64 = 1;

pub const STT_NOTYPE: u8 = 0;
pub const STT_OBJECT: u8 = 1;
pub const STT_FUNC: u8 = 2;
pub const STT_SECTION: u8 = 3;
pub const STT_FILE: u8 = 4;

#[derive(Clone, Debug)]
pub struct Sym {
    pub name: String,
    pub value: u64,
    pub size: u64,
    pub ty: u8,
    pub global: bool,
    pub shndx: u16,
}

#[derive(Clone, Debug)]
pub struct Elf {
    pub is64: bool,
    pub machine: u16,
    pub exec: bool,
    pub sections: Vec<Section>,
    pub syms: Vec<Sym>,
    /// relocations: (section that is relocated, is rela, entries); emitted right after it
    pub relocs: Vec<(usize, bool, Vec<(u64, usize, u32)>)>,
    /// position of `.symtab` among the sections: false = at the end
    pub symtab_first: bool,
    pub symtab: bool,
}

impl Elf {
    pub fn new(is64: bool, machine: u16, exec: bool) -> Self {
        Elf {
            is64,
            machine,
            exec,
            sections: vec![],
            syms: vec![],
            relocs: vec![],
            symtab_first: false,
            symtab: true,
        }
    }

    /// returns the section index a symbol would use
    pub fn section(&mut self, name: &str, ty: u32, flags: u64, addr: u64, data: Vec<u8>) -> usize {
        self.sections.push(Section {
            name: name.to_string(),
            ty,
            flags,
            addr,
            data,
            link: 0,
            info: 0,
            entsize: 0,
            align: if ty == PROGBITS && flags & X != 0 { 2 } else { 1 },
            nobits: 0,
        });
        self.sections.len() - 1
    }

    /// Symbols refer to sections through the index in `sections`; shndx in the file is computed
    /// here. `Sym::shndx` 0 = undefined, 0xfff1 = absolute, otherwise index in `sections` + 1.
    pub fn build(&self) -> Vec<u8> {
        // layout of section headers: null, [symtab strtab], sections (each followed by its
        // relocations), [symtab strtab], shstrtab
        enum S<'a> {
            Real(usize),
            Rel(&'a (usize, bool, Vec<(u64, usize, u32)>)),
            Symtab,
            Strtab,
            Shstrtab,
        }
        let mut order: Vec<S> = vec![];
        if self.symtab && self.symtab_first {
            order.push(S::Symtab);
            order.push(S::Strtab);
        }
        let mut shidx = vec![0u32; self.sections.len()];
        for i in 0..self.sections.len() {
            shidx[i] = order.len() as u32 + 1;
            order.push(S::Real(i));
            for r in self.relocs.iter().filter(|r| r.0 == i) {
                order.push(S::Rel(r));
            }
        }
        if self.symtab && !self.symtab_first {
            order.push(S::Symtab);
            order.push(S::Strtab);
        }
        order.push(S::Shstrtab);
        let symtab_idx = order
            .iter()
            .position(|s| matches!(s, S::Symtab))
            .map(|i| i as u32 + 1)
            .unwrap_or(0);
        let shstr_idx = order.len() as u16;

        // locals go first; keep the relative order
        let mut sym_order: Vec<usize> = (0..self.syms.len()).collect();
        sym_order.sort_by_key(|i| self.syms[*i].global);
        let mut sym_pos = vec![0usize; self.syms.len()];
        for (p, i) in sym_order.iter().enumerate() {
            sym_pos[*i] = p + 1;
        }
        let nlocal = self.syms.iter().filter(|s| !s.global).count() as u32 + 1;

        let mut strtab = vec![0u8];
        let mut symtab: Vec<u8> = vec![];
        let put = |b: &mut Vec<u8>, v: u64, n: usize| b.extend(&v.to_le_bytes()[..n]);
        symtab.extend(vec![0u8; if self.is64 { 24 } else { 16 }]);
        for i in &sym_order {
            let s = &self.syms[*i];
            let name = if s.name.is_empty() {
                0
            } else {
                let n = strtab.len();
                strtab.extend(s.name.as_bytes());
                strtab.push(0);
                n
            };
            let info = s.ty | if s.global { 1 << 4 } else { 0 };
            let shndx = match s.shndx {
                0 => 0,
                x if x >= 0xff00 => x,
                x => shidx[x as usize - 1] as u16,
            };
            put(&mut symtab, name as u64, 4);
            if self.is64 {
                symtab.push(info);
                symtab.push(0);
                put(&mut symtab, shndx as u64, 2);
                put(&mut symtab, s.value, 8);
                put(&mut symtab, s.size, 8);
            } else {
                put(&mut symtab, s.value, 4);
                put(&mut symtab, s.size, 4);
                symtab.push(info);
                symtab.push(0);
                put(&mut symtab, shndx as u64, 2);
            }
        }

        let mut shstr = vec![0u8];
        let mut shname = |n: &str| {
            let p = shstr.len();
            shstr.extend(n.as_bytes());
            shstr.push(0);
            p as u64
        };
        struct H {
            name: u64,
            ty: u32,
            flags: u64,
            addr: u64,
            off: u64,
            size: u64,
            link: u32,
            info: u32,
            align: u64,
            ent: u64,
        }
        let mut hs: Vec<H> = vec![];
        let ehsize = if self.is64 { 64 } else { 52 };
        let mut body: Vec<u8> = vec![];
        for s in &order {
            while (ehsize + body.len()) % 16 != 0 {
                body.push(0);
            }
            let off = (ehsize + body.len()) as u64;
            match s {
                S::Real(i) => {
                    let x = &self.sections[*i];
                    let size = if x.ty == NOBITS {
                        x.nobits
                    } else {
                        body.extend(&x.data);
                        x.data.len() as u64
                    };
                    hs.push(H {
                        name: shname(&x.name),
                        ty: x.ty,
                        flags: x.flags,
                        addr: x.addr,
                        off,
                        size,
                        link: x.link,
                        info: x.info,
                        align: x.align,
                        ent: x.entsize,
                    });
                }
                S::Rel((i, rela, entries)) => {
                    let start = body.len();
                    for (o, sym, ty) in entries {
                        let sym = sym_pos[*sym] as u64;
                        if self.is64 {
                            put(&mut body, *o, 8);
                            put(&mut body, (sym << 32) | *ty as u64, 8);
                            if *rela {
                                put(&mut body, 0, 8);
                            }
                        } else {
                            put(&mut body, *o, 4);
                            put(&mut body, (sym << 8) | *ty as u64, 4);
                            if *rela {
                                put(&mut body, 0, 4);
                            }
                        }
                    }
                    let ent = match (self.is64, rela) {
                        (true, true) => 24,
                        (true, false) => 16,
                        (false, true) => 12,
                        (false, false) => 8,
                    };
                    let name = format!(
                        ".rel{}{}",
                        if *rela { "a" } else { "" },
                        self.sections[*i].name
                    );
                    hs.push(H {
                        name: shname(&name),
                        ty: if *rela { 4 } else { 9 },
                        flags: 0x40,
                        addr: 0,
                        off,
                        size: (body.len() - start) as u64,
                        link: symtab_idx,
                        info: shidx[*i],
                        align: 8,
                        ent,
                    });
                }
                S::Symtab => {
                    body.extend(&symtab);
                    hs.push(H {
                        name: shname(".symtab"),
                        ty: 2,
                        flags: 0,
                        addr: 0,
                        off,
                        size: symtab.len() as u64,
                        link: symtab_idx + 1,
                        info: nlocal,
                        align: 8,
                        ent: if self.is64 { 24 } else { 16 },
                    });
                }
                S::Strtab => {
                    body.extend(&strtab);
                    hs.push(H {
                        name: shname(".strtab"),
                        ty: 3,
                        flags: 0,
                        addr: 0,
                        off,
                        size: strtab.len() as u64,
                        link: 0,
                        info: 0,
                        align: 1,
                        ent: 0,
                    });
                }
                S::Shstrtab => {
                    hs.push(H {
                        name: shname(".shstrtab"),
                        ty: 3,
                        flags: 0,
                        addr: 0,
                        off,
                        size: 0,
                        link: 0,
                        info: 0,
                        align: 1,
                        ent: 0,
                    });
                }
            }
        }
        let n = hs.len();
        hs[n - 1].size = shstr.len() as u64;
        body.extend(&shstr);
        while (ehsize + body.len()) % 16 != 0 {
            body.push(0);
        }
        let shoff = (ehsize + body.len()) as u64;

        let mut out: Vec<u8> = vec![];
        out.extend(b"\x7fELF");
        out.extend([if self.is64 { 2 } else { 1 }, 1, 1, 0]);
        out.extend([0u8; 8]);
        put(&mut out, if self.exec { 2 } else { 1 }, 2);
        put(&mut out, self.machine as u64, 2);
        put(&mut out, 1, 4);
        let w = if self.is64 { 8 } else { 4 };
        put(&mut out, 0, w); // entry
        put(&mut out, 0, w); // phoff
        put(&mut out, shoff, w);
        put(&mut out, 0, 4); // flags
        put(&mut out, ehsize as u64, 2);
        put(&mut out, 0, 2); // phentsize
        put(&mut out, 0, 2); // phnum
        put(&mut out, if self.is64 { 64 } else { 40 }, 2);
        put(&mut out, n as u64 + 1, 2);
        put(&mut out, shstr_idx as u64, 2);
        assert_eq!(out.len(), ehsize);
        out.extend(&body);
        // null section header
        out.extend(vec![0u8; if self.is64 { 64 } else { 40 }]);
        for h in &hs {
            put(&mut out, h.name, 4);
            put(&mut out, h.ty as u64, 4);
            put(&mut out, h.flags, w);
            put(&mut out, h.addr, w);
            put(&mut out, h.off, w);
            put(&mut out, h.size, w);
            put(&mut out, h.link as u64, 4);
            put(&mut out, h.info as u64, 4);
            put(&mut out, h.align, w);
            put(&mut out, h.ent, w);
        }
        out
    }
}

pub fn uleb(mut v: u64, pad: usize) -> Vec<u8> {
    let mut out = vec![];
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            out.push(b);
            break;
        }
        out.push(b | 0x80);
    }
    for _ in 0..pad {
        let n = out.len();
        out[n - 1] |= 0x80;
        out.push(0);
    }
    out
}

/// GNU archive
pub fn archive(members: &[(String, Vec<u8>)], symbol_table: bool) -> Vec<u8> {
    let mut out = b"!<arch>\n".to_vec();
    let header = |out: &mut Vec<u8>, name: &str, len: usize| {
        out.extend(format!("{:<16}{:<12}{:<6}{:<6}{:<8}{:<10}`\n", name, 0, 0, 0, "644", len).bytes());
    };
    if symbol_table {
        // an empty table is enough: nobody looks symbols up
        header(&mut out, "/", 4);
        out.extend([0u8; 4]);
    }
    let mut long: Vec<u8> = vec![];
    let mut names = vec![];
    for (name, _) in members {
        if name.len() > 15 {
            names.push(format!("/{}", long.len()));
            long.extend(name.as_bytes());
            long.extend(b"/\n");
        } else {
            names.push(format!("{}/", name));
        }
    }
    if !long.is_empty() {
        header(&mut out, "//", long.len());
        out.extend(&long);
        if long.len() % 2 != 0 {
            out.push(b'\n');
        }
    }
    for (n, (_, data)) in names.iter().zip(members) {
        header(&mut out, n, data.len());
        out.extend(data);
        if data.len() % 2 != 0 {
            out.push(b'\n');
        }
    }
    out
}
