//! Thumb code: symbolic instructions, an assembler, and the reference analysis (what the properties
//! say about a function's code).
use crate::tape::Noise;
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Enc {
    T1(u8), // conditional, 16-bit
    T2,     // 16-bit
    T3(u8), // conditional, 32-bit
    T4,     // 32-bit
    Bl,
}

impl Enc {
    pub fn size(self) -> u32 {
        match self {
            Enc::T1(_) | Enc::T2 => 2,
            _ => 4,
        }
    }
    /// offsets (from the instruction's address + 4) that can be encoded
    pub fn range(self) -> (i64, i64) {
        match self {
            Enc::T1(_) => (-256, 254),
            Enc::T2 => (-2048, 2046),
            Enc::T3(_) => (-1048576, 1048574),
            Enc::T4 | Enc::Bl => (-16777216, 16777214),
        }
    }
    pub fn bits(self) -> u32 {
        match self {
            Enc::T1(_) => 9,
            Enc::T2 => 12,
            Enc::T3(_) => 21,
            Enc::T4 | Enc::Bl => 25,
        }
    }
    pub fn encode(self, off: i64) -> Vec<u16> {
        let (lo, hi) = self.range();
        assert!(off % 2 == 0 && off >= lo && off <= hi, "{:?} {}", self, off);
        let o = off as i32 as u32;
        match self {
            Enc::T1(c) => vec![0xd000 | (c as u16) << 8 | (o >> 1 & 0xff) as u16],
            Enc::T2 => vec![0xe000 | (o >> 1 & 0x7ff) as u16],
            Enc::T3(c) => {
                let s = o >> 20 & 1;
                let j2 = o >> 19 & 1;
                let j1 = o >> 18 & 1;
                let imm6 = o >> 12 & 0x3f;
                let imm11 = o >> 1 & 0x7ff;
                vec![
                    (0xf000 | s << 10 | (c as u32) << 6 | imm6) as u16,
                    (0x8000 | j1 << 13 | j2 << 11 | imm11) as u16,
                ]
            }
            Enc::T4 | Enc::Bl => {
                let s = o >> 24 & 1;
                let i1 = o >> 23 & 1;
                let i2 = o >> 22 & 1;
                let j1 = 1 ^ i1 ^ s;
                let j2 = 1 ^ i2 ^ s;
                let imm10 = o >> 12 & 0x3ff;
                let imm11 = o >> 1 & 0x7ff;
                let op = if self == Enc::Bl { 0xd000 } else { 0x9000 };
                vec![
                    (0xf000 | s << 10 | imm10) as u16,
                    (op | j1 << 13 | j2 << 11 | imm11) as u16,
                ]
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Target {
    Func(usize),
    /// an item of the same function
    Item(usize),
}

#[derive(Clone, Debug)]
pub enum Item {
    /// instruction that matters to no property
    H(u16),
    W(u16, u16),
    /// allocates that many bytes
    Alloc(Vec<u16>, u64),
    /// changes SP by an amount held in a register
    RegSp(Vec<u16>),
    Branch(Enc, Target),
    /// compare and branch; always forward within the function
    Cbz(bool, u8, usize),
    /// `tbb`/`tbh`, followed by its table
    Table(Vec<u16>),
    /// `blx rN`, `bx rN`
    Indirect(u16),
    Data(Vec<u8>),
    /// `movw`/`movt ip, #address` and `bx ip`: a thunk of the linker
    Thunk(usize),
    /// the literal of a thunk
    Address(usize),
}

impl Item {
    pub fn size(&self) -> u32 {
        match self {
            Item::H(_) | Item::Cbz(..) | Item::Indirect(_) => 2,
            Item::W(..) => 4,
            Item::Alloc(w, _) | Item::RegSp(w) | Item::Table(w) => 2 * w.len() as u32,
            Item::Branch(e, _) => e.size(),
            Item::Data(d) => d.len() as u32,
            Item::Thunk(_) => 10,
            Item::Address(_) => 4,
        }
    }
}

pub type Code = Vec<Item>;

pub fn size(code: &[Item]) -> u32 {
    code.iter().map(|i| i.size()).sum()
}

pub fn offsets(code: &[Item]) -> Vec<u32> {
    let mut o = 0;
    code.iter()
        .map(|i| {
            let x = o;
            o += i.size();
            x
        })
        .collect()
}

/// what LLD inserts to reach a function that is too far away for a branch
pub fn thunk(target: usize, v7: bool) -> Code {
    if v7 {
        return vec![Item::Thunk(target)];
    }
    vec![
        Item::Alloc(vec![0xb403], 8),
        Item::H(0x4801),
        Item::H(0x9001),
        Item::H(0xbd01),
        Item::Address(target),
    ]
}

pub fn thunk_prefix(n: usize, v7: bool) -> &'static str {
    if v7 {
        ["__Thumbv7ABSLongThunk_", "__ThumbV7PILongThunk_"][n % 2]
    } else {
        ["__Thumbv6MABSLongThunk_", "__Thumbv6MPILongThunk_"][n % 2]
    }
}

/// bytes, and the mapping symbols needed: (offset, is data)
pub fn assemble(code: &[Item], addr: u64, addr_of: &dyn Fn(usize) -> u64) -> (Vec<u8>, Vec<(u32, bool)>) {
    let offs = offsets(code);
    let mut out: Vec<u8> = vec![];
    let mut tags = vec![];
    let mut data = None;
    for (i, item) in code.iter().enumerate() {
        let here = addr + offs[i] as u64;
        let is_data = matches!(item, Item::Data(_) | Item::Address(_));
        if data != Some(is_data) {
            tags.push((offs[i], is_data));
            data = Some(is_data);
        }
        let mut put = |ws: &[u16]| {
            for w in ws {
                out.extend(w.to_le_bytes())
            }
        };
        match item {
            Item::H(h) | Item::Indirect(h) => put(&[*h]),
            Item::W(a, b) => put(&[*a, *b]),
            Item::Alloc(w, _) | Item::RegSp(w) | Item::Table(w) => put(w),
            Item::Branch(e, t) => {
                let dest = match t {
                    Target::Func(f) => addr_of(*f),
                    Target::Item(j) => addr + offs[*j] as u64,
                };
                put(&e.encode(dest as i64 - (here as i64 + 4)))
            }
            Item::Cbz(nz, rn, j) => {
                let off = addr + offs[*j] as u64 - (here + 4);
                assert!(off <= 126);
                let o = off as u16 >> 1;
                put(&[0xb100 | (*nz as u16) << 11 | (o >> 5) << 9 | (o & 31) << 3 | *rn as u16])
            }
            Item::Data(d) => out.extend(d),
            Item::Thunk(f) => {
                let a = addr_of(*f) as u32 | 1;
                for (op, v) in [(0xf240, a & 0xffff), (0xf2c0, a >> 16)] {
                    let v = v as u16;
                    put(&[op | (v >> 11 & 1) << 10 | v >> 12, (v >> 8 & 7) << 12 | 12 << 8 | v & 0xff]);
                }
                put(&[0x4760]);
            }
            Item::Address(f) => out.extend((addr_of(*f) as u32 | 1).to_le_bytes()),
        }
    }
    (out, tags)
}

#[derive(Clone, Debug, PartialEq)]
pub struct Facts {
    /// functions that are called or jumped to
    pub callees: Vec<usize>,
    pub internal: bool,
    pub regsp: bool,
    pub alloc: u64,
    pub allocates: bool,
    /// how many of the allocations are LR saved around the call of an outlined function
    pub lr_saves: u64,
    pub indirect: bool,
}

impl Facts {
    /// total stack usage, if the code is straight
    pub fn straight(&self) -> Option<u64> {
        if self.internal || self.regsp {
            None
        } else {
            Some(self.alloc)
        }
    }
    pub fn modifies(&self) -> bool {
        self.allocates || self.regsp
    }
    /// what the outliner adds to what the compiler recorded
    pub fn lr_extra(&self) -> u64 {
        if self.lr_saves > 0 {
            8
        } else {
            0
        }
    }
    /// usage if the compiler recorded nothing
    pub fn unrecorded(&self) -> Option<u64> {
        match self.straight() {
            Some(n) => Some(n),
            None if self.modifies() => None,
            None => Some(0),
        }
    }
}

/// `me`: index of the function itself
pub fn facts(code: &[Item], me: usize) -> Facts {
    let mut f = Facts {
        callees: vec![],
        internal: false,
        regsp: false,
        alloc: 0,
        allocates: false,
        lr_saves: 0,
        indirect: false,
    };
    for i in code {
        match i {
            Item::Alloc(w, n) => {
                f.lr_saves += (w[..] == LR_SAVE) as u64;
                f.alloc += n;
                f.allocates |= *n > 0;
            }
            Item::RegSp(_) => f.regsp = true,
            Item::Branch(e, t) => match t {
                Target::Item(_) => f.internal = true,
                Target::Func(j) => {
                    if *j == me && *e != Enc::Bl {
                        f.internal = true
                    } else {
                        f.callees.push(*j)
                    }
                }
            },
            Item::Cbz(..) | Item::Table(_) => f.internal = true,
            Item::Indirect(_) => f.indirect = true,
            Item::Thunk(j) | Item::Address(j) => f.callees.push(*j),
            _ => {}
        }
    }
    f
}

// ---- opaque instructions

pub struct Corpus {
    /// valid 16-bit instructions that are no branches and do not write SP
    pub h: [Vec<u16>; 2],
    pub w: [Vec<(u16, u16)>; 2],
}

pub fn corpus() -> &'static Corpus {
    static C: OnceLock<Corpus> = OnceLock::new();
    C.get_or_init(|| {
        let read = |s: &str| -> Vec<u32> {
            s.split_whitespace()
                .map(|x| u32::from_str_radix(x, 16).unwrap())
                .collect()
        };
        // 16-bit: ranges `lo hi`
        let ranges = |s: &str| -> Vec<u16> {
            let v = read(s);
            v.chunks(2)
                .flat_map(|c| c[0]..=c[1])
                .map(|x| x as u16)
                .collect()
        };
        let words = |s: &str| -> Vec<(u16, u16)> {
            read(s)
                .into_iter()
                .map(|x| ((x >> 16) as u16, x as u16))
                .collect()
        };
        Corpus {
            h: [
                ranges(include_str!("../assets/v6m.16")),
                ranges(include_str!("../assets/v7m.16")),
            ],
            w: [
                words(include_str!("../assets/v6m.32")),
                words(include_str!("../assets/v7m.32")),
            ],
        }
    })
}

pub fn opaque(n: &mut Noise, v7: bool) -> Item {
    let c = corpus();
    let k = v7 as usize;
    if n.chance(if v7 { 50 } else { 10 }) {
        let (a, b) = *n.pick(&c.w[k]);
        Item::W(a, b)
    } else {
        Item::H(*n.pick(&c.h[k]))
    }
}

// ---- instructions that allocate

/// an instruction that allocates some stack
pub fn alloc_some(n: &mut Noise, v7: bool) -> Item {
    loop {
        let item = alloc(n, v7);
        if !matches!(item, Item::Alloc(_, 0)) {
            return item;
        }
    }
}

/// some instruction that allocates stack (possibly 0 bytes); the amount is up to the generator
pub fn alloc(n: &mut Noise, v7: bool) -> Item {
    let kind = if v7 { n.below(13) } else { n.below(3) };
    match kind {
        // sub sp, #imm7*4
        0 => {
            let k = if n.chance(6) { 0 } else { n.range(1, 127) as u16 };
            Item::Alloc(vec![0xb080 | k], 4 * k as u64)
        }
        // push
        1 | 2 => {
            let mut l = n.below(512) as u16;
            if l == 0 {
                l = 0x10;
            }
            Item::Alloc(vec![0xb400 | l], 4 * l.count_ones() as u64)
        }
        // stmdb sp!, {list} (r0-r12, lr; two registers or more)
        3 | 4 => {
            let mut l = (n.below(0x2000) | if n.chance(50) { 0x4000 } else { 0 }) as u16;
            while l.count_ones() < 2 {
                l |= 1 << n.below(13);
                l |= 0x10;
                if l.count_ones() < 2 {
                    l |= 0x20;
                }
            }
            Item::Alloc(vec![0xe92d, l], 4 * l.count_ones() as u64)
        }
        // sub.w sp, sp, #const (T2)
        5 | 6 => {
            let (imm12, v) = loop {
                let x = n.below(4096) as u16;
                let x = if x == 0 { 0x041 } else { x };
                if let Some(v) = expand_imm(x) {
                    if v > 0 && v % 4 == 0 || n.chance(10) && v > 0 {
                        break (x, v);
                    }
                }
            };
            let s = n.below(2) as u16;
            let i = imm12 >> 11;
            let imm3 = imm12 >> 8 & 7;
            Item::Alloc(
                vec![0xf1ad | i << 10 | s << 4, imm3 << 12 | 13 << 8 | imm12 & 0xff],
                v as u64,
            )
        }
        // subw sp, sp, #imm12 (T3)
        7 | 8 => {
            let imm12 = if n.chance(6) { 0 } else { n.range(1, 4095) as u16 };
            let i = imm12 >> 11;
            let imm3 = imm12 >> 8 & 7;
            Item::Alloc(
                vec![0xf2ad | i << 10, imm3 << 12 | 13 << 8 | imm12 & 0xff],
                imm12 as u64,
            )
        }
        // vpush {d..}
        9 => {
            let first = n.below(16) as u16;
            let count = n.range(1, (16 - first as usize).min(16)) as u16;
            Item::Alloc(vec![0xed2d, first << 12 | 0xb00 | 2 * count], 8 * count as u64)
        }
        // vpush {s..}
        10 => {
            let first = n.below(32) as u16;
            let count = n.range(1, 32 - first as usize) as u16;
            Item::Alloc(
                vec![0xed2d | (first & 1) << 6, (first >> 1) << 12 | 0xa00 | count],
                4 * count as u64,
            )
        }
        // str rt, [sp, #-imm8]! or str rt, [sp], #-imm8
        11 => {
            let rt = *n.pick(&[0u16, 1, 4, 7, 8, 11, 12, 14]);
            let imm = 4 * n.range(1, 63) as u16;
            let p = if n.chance(25) { 0 } else { 0x400 };
            Item::Alloc(vec![0xf84d, rt << 12 | 0x900 | p | imm], imm as u64)
        }
        // strd rt, rt2, [sp, #-imm]!
        _ => {
            let rt = n.below(6) as u16;
            let rt2 = rt + 1;
            let imm = n.range(1, 255) as u16;
            let p = if n.chance(25) { 0xe86d } else { 0xe96d };
            Item::Alloc(vec![p, rt << 12 | rt2 << 8 | imm], 4 * imm as u64)
        }
    }
}

/// `str lr, [sp, #-8]!`, which the function outliner emits before it calls one of its functions
pub const LR_SAVE: [u16; 2] = [0xf84d, 0xed08];

pub fn lr_save() -> Item {
    Item::Alloc(LR_SAVE.to_vec(), 8)
}

/// `ldr lr, [sp], #8`
pub const LR_RESTORE: Item = Item::W(0xf85d, 0xeb08);

/// instructions that allocate exactly `bytes`; None if that cannot be done
pub fn alloc_exactly(bytes: u64, n: &mut Noise, v7: bool) -> Option<Vec<Item>> {
    let mut out = vec![];
    let mut left = bytes;
    while left > 0 {
        if v7 && left > 508 && n.chance(50) || left % 4 != 0 {
            if !v7 {
                return None;
            }
            let mut k = left.min(4095) as u16;
            if left > 4095 {
                k = 4092;
            }
            if left % 4 != 0 && left > 4095 {
                k = 4000 + (left % 4) as u16;
            }
            let (i, imm3) = (k >> 11, k >> 8 & 7);
            out.push(Item::Alloc(
                vec![0xf2ad | i << 10, imm3 << 12 | 13 << 8 | k & 0xff],
                k as u64,
            ));
            left -= k as u64;
        } else if left <= 32 && n.chance(40) {
            let c = left / 4;
            let l = (1u16 << c) - 1;
            out.push(Item::Alloc(vec![0xb400 | l], left));
            left = 0;
        } else {
            let k = (left / 4).min(127) as u16;
            out.push(Item::Alloc(vec![0xb080 | k], 4 * k as u64));
            left -= 4 * k as u64;
        }
        if out.len() > 300 {
            return None;
        }
    }
    Some(out)
}

pub fn regsp(n: &mut Noise, v7: bool) -> Item {
    if v7 && n.chance(60) {
        let rm = *n.pick(&[0u16, 1, 4, 6, 12]);
        Item::RegSp(match n.below(3) {
            0 => vec![0xebad, 13 << 8 | rm],
            1 => vec![0xebbd, 13 << 8 | rm],
            _ => vec![0xeb0d, 13 << 8 | rm],
        })
    } else {
        let rm = *n.pick(&[4u16, 0, 1, 5, 6, 7, 8, 12]);
        Item::RegSp(vec![0x4485 | rm << 3])
    }
}

/// ThumbExpandImm; None if unpredictable
pub fn expand_imm(imm12: u16) -> Option<u32> {
    let b = (imm12 & 0xff) as u32;
    if imm12 >> 10 == 0 {
        let v = match imm12 >> 8 & 3 {
            0 => b,
            1 => b << 16 | b,
            2 => b << 24 | b << 8,
            _ => b << 24 | b << 16 | b << 8 | b,
        };
        if imm12 >> 8 & 3 != 0 && b == 0 {
            None
        } else {
            Some(v)
        }
    } else {
        let x = 0x80 | (imm12 & 0x7f) as u32;
        Some(x.rotate_right((imm12 >> 7) as u32))
    }
}

/// random data that a decoder would love to take for instructions
pub fn data(n: &mut Noise, bytes: usize) -> Vec<u8> {
    let mut out = vec![];
    while out.len() < bytes {
        match n.below(6) {
            0 => out.extend([0u8, 0]),
            1 => out.extend((n.next() as u16).to_le_bytes()),
            // bl
            2 => {
                out.extend((0xf000 | n.below(0x800) as u16).to_le_bytes());
                out.extend((0xd000 | (n.next() as u16 & 0x2fff)).to_le_bytes());
            }
            // push, sub sp
            3 => out.extend((0xb400 | n.below(0x200) as u16).to_le_bytes()),
            4 => out.extend((0xb080 | n.below(0x80) as u16).to_le_bytes()),
            // b, blx, first half of a 32-bit instruction
            _ => out.extend(
                n.pick(&[0xe7feu16, 0x4780, 0xd0fe, 0xf7ff, 0xe92d, 0x4700, 0x44b5])
                    .to_le_bytes(),
            ),
        }
    }
    out.truncate(bytes);
    out
}
