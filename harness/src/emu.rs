//! What a linked executable really does: its functions, the branches that the disassembler
//! (llvm-objdump) finds in them and, for Thumb code, an interpreter that follows the calls and the
//! stack pointer while the program runs.
use std::{
    collections::{BTreeMap, HashMap},
    path::Path,
    process::{Command, Stdio},
};

#[derive(Clone, Debug)]
pub struct Func {
    pub addr: u64,
    pub size: u64,
    pub names: Vec<String>,
}

pub struct Image {
    pub entry: u64,
    pub segments: Vec<(u64, Vec<u8>)>,
    pub funcs: Vec<Func>,
    pub objects: HashMap<String, u64>,
    pub insns: BTreeMap<u64, Insn>,
    thumb: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Arg {
    Reg(usize),
    RegBang(usize),
    Imm(i64),
    Float(f32),
    Mem(usize, Option<Index>, bool),
    List(Vec<usize>),
    Shift(String, Box<Arg>),
    S(usize),
    D(usize),
    SList(Vec<usize>),
    DList(Vec<usize>),
    Addr(u64),
    Other(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Index {
    Imm(i64),
    Reg(usize, u32),
}

#[derive(Clone, Debug)]
pub struct Insn {
    pub size: u64,
    /// mnemonic and operands as printed
    pub mnemonic: String,
    pub operands: String,
    /// Thumb: mnemonic without condition, flag and width suffixes
    op: String,
    cond: u8,
    flags: bool,
    ty: String,
    args: Vec<Arg>,
}

const AL: u8 = 14;
const CONDS: &[(&str, u8)] = &[
    ("eq", 0),
    ("ne", 1),
    ("hs", 2),
    ("cs", 2),
    ("lo", 3),
    ("cc", 3),
    ("mi", 4),
    ("pl", 5),
    ("vs", 6),
    ("vc", 7),
    ("hi", 8),
    ("ls", 9),
    ("ge", 10),
    ("lt", 11),
    ("gt", 12),
    ("le", 13),
    ("al", 14),
];

/// operations; the flag says whether there is an `s` variant
const OPS: &[(&str, bool)] = &[
    ("mov", true), ("movw", false), ("movt", false), ("mvn", true), ("add", true), ("addw", false), ("sub", true), ("subw", false),
    ("adc", true), ("sbc", true), ("rsb", true), ("and", true), ("orr", true), ("orn", true), ("eor", true), ("bic", true),
    ("cmp", false), ("cmn", false), ("tst", false), ("teq", false), ("lsl", true), ("lsr", true), ("asr", true), ("ror", true),
    ("rrx", true), ("mul", true), ("mla", false), ("mls", false), ("umull", false), ("smull", false), ("umlal", false), ("smlal", false),
    ("udiv", false), ("sdiv", false), ("clz", false), ("rbit", false), ("rev", false), ("rev16", false), ("revsh", false),
    ("uxtb", false), ("uxth", false), ("sxtb", false), ("sxth", false), ("uxtab", false), ("uxtah", false), ("sxtab", false), ("sxtah", false),
    ("uxtb16", false), ("ubfx", false), ("sbfx", false), ("bfi", false), ("bfc", false), ("pkhbt", false), ("pkhtb", false), ("adr", false),
    ("ldr", false), ("ldrb", false), ("ldrh", false), ("ldrsb", false), ("ldrsh", false), ("ldrd", false), ("str", false), ("strb", false),
    ("strh", false), ("strd", false), ("ldm", false), ("ldmdb", false), ("stm", false), ("stmdb", false), ("push", false), ("pop", false),
    ("b", false), ("bl", false), ("bx", false), ("blx", false), ("cbz", false), ("cbnz", false), ("tbb", false), ("tbh", false),
    ("nop", false), ("dsb", false), ("isb", false), ("dmb", false), ("cpsid", false), ("cpsie", false), ("mrs", false), ("msr", false),
    ("trap", false), ("udf", false), ("bkpt", false), ("umaal", false), ("smulbb", false), ("smlabb", false), ("umlaal", false),
    ("ldrex", false), ("strex", false), ("clrex", false), ("smmul", false), ("smmla", false),
    ("vmov", false), ("vldr", false), ("vstr", false), ("vpush", false), ("vpop", false), ("vldmia", false), ("vstmia", false),
    ("vadd", false), ("vsub", false), ("vmul", false), ("vdiv", false), ("vmla", false), ("vmls", false), ("vnmls", false), ("vnmla", false),
    ("vnmul", false), ("vneg", false), ("vabs", false), ("vsqrt", false), ("vcmp", false), ("vcmpe", false), ("vmrs", false), ("vcvt", false),
];

fn reg(s: &str) -> Option<usize> {
    Some(match s {
        "sp" => 13,
        "lr" => 14,
        "pc" => 15,
        "sb" => 9,
        "sl" => 10,
        "fp" => 11,
        "ip" => 12,
        _ => {
            let n: usize = s.strip_prefix('r')?.parse().ok()?;
            if n > 15 {
                return None;
            }
            n
        }
    })
}

fn number(s: &str) -> Option<i64> {
    let (neg, s) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s),
    };
    let n = match s.strip_prefix("0x") {
        Some(h) => u64::from_str_radix(h, 16).ok()? as i64,
        None => s.parse::<i64>().ok()?,
    };
    Some(if neg { -n } else { n })
}

fn split(s: &str) -> Vec<String> {
    let mut out = vec![];
    let mut depth = 0;
    let mut cur = String::new();
    for c in s.chars() {
        match c {
            '[' | '{' => depth += 1,
            ']' | '}' => depth -= 1,
            ',' if depth == 0 => {
                out.push(cur.trim().to_string());
                cur.clear();
                continue;
            }
            _ => {}
        }
        cur.push(c);
    }
    if !cur.trim().is_empty() {
        out.push(cur.trim().to_string());
    }
    out
}

fn parse_arg(s: &str) -> Arg {
    let other = || Arg::Other(s.to_string());
    if let Some(r) = reg(s) {
        return Arg::Reg(r);
    }
    if let Some(r) = s.strip_suffix('!').and_then(reg) {
        return Arg::RegBang(r);
    }
    if let Some(n) = s.strip_prefix('#') {
        return match number(n) {
            Some(n) => Arg::Imm(n),
            None => n.parse().map(Arg::Float).unwrap_or_else(|_| other()),
        };
    }
    if let Some(n) = s.strip_prefix('s').and_then(|n| n.parse().ok()) {
        return Arg::S(n);
    }
    if let Some(n) = s.strip_prefix('d').and_then(|n| n.parse().ok()) {
        return Arg::D(n);
    }
    if let Some(n) = s.strip_prefix("0x") {
        return u64::from_str_radix(n, 16).map(Arg::Addr).unwrap_or_else(|_| other());
    }
    if s == "rrx" {
        return Arg::Shift("rrx".into(), Box::new(Arg::Imm(1)));
    }
    for k in ["lsl", "lsr", "asr", "ror"] {
        if let Some(r) = s.strip_prefix(k).and_then(|r| r.strip_prefix(' ')) {
            return Arg::Shift(k.into(), Box::new(parse_arg(r)));
        }
    }
    if let Some(r) = s.strip_prefix('{') {
        let Some(r) = r.strip_suffix('}') else { return other() };
        let parts: Vec<Arg> = split(r).iter().map(|p| parse_arg(p)).collect();
        let regs: Option<Vec<usize>> = parts.iter().map(|p| if let Arg::Reg(r) = p { Some(*r) } else { None }).collect();
        let ds: Option<Vec<usize>> = parts.iter().map(|p| if let Arg::D(r) = p { Some(*r) } else { None }).collect();
        let ss: Option<Vec<usize>> = parts.iter().map(|p| if let Arg::S(r) = p { Some(*r) } else { None }).collect();
        return regs
            .map(Arg::List)
            .or(ds.map(Arg::DList))
            .or(ss.map(Arg::SList))
            .unwrap_or_else(other);
    }
    if let Some(r) = s.strip_prefix('[') {
        let (r, wb) = match r.strip_suffix('!') {
            Some(r) => (r, true),
            None => (r, false),
        };
        let Some(r) = r.strip_suffix(']') else { return other() };
        let parts: Vec<Arg> = split(r).iter().map(|p| parse_arg(p)).collect();
        return match &parts[..] {
            [Arg::Reg(b)] => Arg::Mem(*b, None, wb),
            [Arg::Reg(b), Arg::Imm(i)] => Arg::Mem(*b, Some(Index::Imm(*i)), wb),
            [Arg::Reg(b), Arg::Reg(x)] => Arg::Mem(*b, Some(Index::Reg(*x, 0)), wb),
            [Arg::Reg(b), Arg::Reg(x), Arg::Shift(k, n)] if k == "lsl" => match **n {
                Arg::Imm(n) => Arg::Mem(*b, Some(Index::Reg(*x, n as u32)), wb),
                _ => other(),
            },
            _ => other(),
        };
    }
    other()
}

/// operation, condition, flags, type
fn parse_mnemonic(m: &str) -> Option<(String, u8, bool, String)> {
    // `cpsid i` is one word to the disassembler
    let mut parts = m.split(' ').next()?.split('.');
    let mut base = parts.next()?.to_string();
    let ty: Vec<&str> = parts.filter(|p| *p != "w" && *p != "n").collect();
    let ty = ty.join(".");
    if base.starts_with("it") && base[2..].chars().all(|c| c == 't' || c == 'e') {
        return Some(("nop".into(), AL, false, ty));
    }
    if base == "ldmia" {
        base = "ldm".into();
    }
    if base == "stmia" {
        base = "stm".into();
    }
    let plain = |b: &str| -> Option<(String, bool)> {
        if OPS.iter().any(|o| o.0 == b) {
            return Some((b.to_string(), false));
        }
        let short = b.strip_suffix('s')?;
        OPS.iter().any(|o| o.0 == short && o.1).then(|| (short.to_string(), true))
    };
    if let Some((op, s)) = plain(&base) {
        return Some((op, AL, s, ty));
    }
    for (c, n) in CONDS {
        if let Some(b) = base.strip_suffix(c) {
            if let Some((op, s)) = plain(b) {
                return Some((op, *n, s, ty));
            }
        }
    }
    None
}

fn num(b: &[u8], at: usize, n: usize) -> Option<u64> {
    let s = b.get(at..at + n)?;
    Some(s.iter().rev().fold(0u64, |a, x| a << 8 | *x as u64))
}

/// functions, sections and so on of an executable
pub fn load(path: &Path) -> Result<Image, String> {
    let b = std::fs::read(path).map_err(|e| format!("{}: {}", path.display(), e))?;
    parse_elf(&b, path).ok_or_else(|| format!("{}: malformed ELF file", path.display()))?
}

fn parse_elf(b: &[u8], path: &Path) -> Option<Result<Image, String>> {
    if b.get(..4)? != b"\x7fELF" {
        return None;
    }
    let wide = b[4] == 2;
    let w = if wide { 8 } else { 4 };
    let machine = num(b, 18, 2)?;
    let entry = num(b, 24, w)?;
    let (phoff, shoff) = if wide { (num(b, 32, 8)?, num(b, 40, 8)?) } else { (num(b, 28, 4)?, num(b, 32, 4)?) };
    let at = if wide { 54 } else { 42 };
    let (phsize, phnum, shsize, shnum) = (num(b, at, 2)?, num(b, at + 2, 2)?, num(b, at + 4, 2)?, num(b, at + 6, 2)?);
    let mut segments = vec![];
    for i in 0..phnum {
        let p = (phoff + i * phsize) as usize;
        if num(b, p, 4)? != 1 {
            continue;
        }
        let (off, vaddr, filesz, memsz) = if wide {
            (num(b, p + 8, 8)?, num(b, p + 16, 8)?, num(b, p + 32, 8)?, num(b, p + 40, 8)?)
        } else {
            (num(b, p + 4, 4)?, num(b, p + 8, 4)?, num(b, p + 16, 4)?, num(b, p + 20, 4)?)
        };
        let mut d = b.get(off as usize..(off + filesz) as usize)?.to_vec();
        d.resize(memsz as usize, 0);
        segments.push((vaddr, d));
    }
    let mut funcs: BTreeMap<u64, Func> = BTreeMap::new();
    let mut objects = HashMap::new();
    for i in 0..shnum {
        let s = (shoff + i * shsize) as usize;
        if num(b, s + 4, 4)? != 2 {
            continue;
        }
        let (off, size, link) = if wide {
            (num(b, s + 24, 8)?, num(b, s + 32, 8)?, num(b, s + 40, 4)?)
        } else {
            (num(b, s + 16, 4)?, num(b, s + 20, 4)?, num(b, s + 24, 4)?)
        };
        let st = (shoff + link * shsize) as usize;
        let stroff = if wide { num(b, st + 24, 8)? } else { num(b, st + 16, 4)? } as usize;
        let entsize = if wide { 24 } else { 16 };
        for k in 0..size / entsize {
            let e = (off + k * entsize) as usize;
            let name = num(b, e, 4)? as usize;
            let (info, shndx, value, size) = if wide {
                (b[e + 4], num(b, e + 6, 2)?, num(b, e + 8, 8)?, num(b, e + 16, 8)?)
            } else {
                (b[e + 12], num(b, e + 14, 2)?, num(b, e + 4, 4)?, num(b, e + 8, 4)?)
            };
            if shndx == 0 {
                continue;
            }
            let raw = b.get(stroff + name..)?;
            let end = raw.iter().position(|c| *c == 0)?;
            let name = String::from_utf8_lossy(&raw[..end]).into_owned();
            match info & 15 {
                1 => {
                    objects.insert(name, value);
                }
                2 => {
                    let a = if machine == 40 { value & !1 } else { value };
                    let f = funcs.entry(a).or_insert(Func {
                        addr: a,
                        size: 0,
                        names: vec![],
                    });
                    f.size = f.size.max(size);
                    f.names.push(name);
                }
                _ => {}
            }
        }
    }
    let mut image = Image {
        entry,
        segments,
        funcs: funcs.into_values().collect(),
        objects,
        insns: BTreeMap::new(),
        thumb: machine == 40,
    };
    Some(disassemble(&mut image, path).map(|_| image))
}

fn disassemble(image: &mut Image, path: &Path) -> Result<(), String> {
    let out = Command::new("llvm-objdump")
        .args(["-d", "--no-leading-headers"])
        .arg(path)
        .stdin(Stdio::null())
        .output()
        .map_err(|e| format!("llvm-objdump: {}", e))?;
    if !out.status.success() {
        return Err(format!("llvm-objdump: {}", String::from_utf8_lossy(&out.stderr)));
    }
    for l in String::from_utf8_lossy(&out.stdout).lines() {
        let mut cols = l.splitn(3, '\t');
        let Some((a, raw)) = cols.next().and_then(|c| c.split_once(':')) else { continue };
        let (Ok(a), Some(m)) = (u64::from_str_radix(a.trim(), 16), cols.next()) else { continue };
        let m = m.trim();
        if m.starts_with('.') || m.starts_with('<') || m.is_empty() {
            continue;
        }
        let operands = cols.next().unwrap_or("").to_string();
        let size = raw.split_whitespace().map(|t| t.len() as u64 / 2).sum();
        let mut i = Insn {
            size,
            mnemonic: m.to_string(),
            operands,
            op: String::new(),
            cond: AL,
            flags: false,
            ty: String::new(),
            args: vec![],
        };
        if image.thumb {
            if let Some((op, cond, flags, ty)) = parse_mnemonic(m) {
                let o = i.operands.split(" @ ").next().unwrap();
                let o = o.split(" <").next().unwrap();
                i.args = split(o).iter().map(|s| parse_arg(s)).collect();
                i.op = op;
                i.cond = cond;
                i.flags = flags;
                i.ty = ty;
            }
        }
        image.insns.insert(a, i);
    }
    Ok(())
}

impl Image {
    pub fn func_at(&self, a: u64) -> Option<usize> {
        self.funcs.binary_search_by_key(&a, |f| f.addr).ok()
    }

    /// the function that contains the address
    pub fn func_of(&self, a: u64) -> Option<usize> {
        let i = self.funcs.partition_point(|f| f.addr <= a).checked_sub(1)?;
        let f = &self.funcs[i];
        (a < f.addr + f.size || a == f.addr).then_some(i)
    }

    /// the functions that code of a function branches to the beginning of, without those within
    /// itself, except calls
    pub fn branches(&self, f: usize) -> Vec<(u64, usize)> {
        let fun = &self.funcs[f];
        let mut out = vec![];
        // RISC-V: register and value of the last `auipc`
        let mut upper: Option<(String, u64)> = None;
        for (a, i) in self.insns.range(fun.addr..fun.addr + fun.size) {
            let m = &i.mnemonic[..];
            if m == "auipc" {
                upper = i.operands.split_once(", ").and_then(|(r, n)| {
                    let n = u64::from_str_radix(n.trim().strip_prefix("0x")?, 16).ok()?;
                    Some((r.to_string(), a.wrapping_add(n << 12)))
                });
                continue;
            }
            if let (Some((r, base)), "jalr" | "jr") = (upper.take(), m) {
                // `jalr -0x2(ra) <f>`
                let o = i.operands.split(" <").next().unwrap().trim();
                let dest = o.strip_suffix(&format!("({})", r)).and_then(number).map(|n| base.wrapping_add(n as u64) & 0xffff_ffff);
                if let Some(g) = dest.and_then(|d| self.func_at(d)) {
                    if g != f || m == "jalr" {
                        out.push((*a, g));
                    }
                    continue;
                }
            }
            let branch = m.starts_with('b') && !m.starts_with("bic") && !m.starts_with("bf") && !m.starts_with("bset") && !m.starts_with("bt")
                || m.starts_with('j')
                || m.starts_with("call")
                || m.starts_with("cb")
                || m.starts_with("tb");
            if !branch {
                continue;
            }
            // the last operand that is an address
            let o = i.operands.split(" <").next().unwrap().split(" @ ").next().unwrap();
            let Some(dest) = split(o)
                .iter()
                .rev()
                .find_map(|s| s.strip_prefix("0x").and_then(|h| u64::from_str_radix(h, 16).ok()))
            else {
                continue;
            };
            let Some(g) = self.func_at(dest) else { continue };
            let call = m.starts_with("bl") && !m.starts_with("blt") && !m.starts_with("ble") && !m.starts_with("bls") && !m.starts_with("blo") || m.starts_with("call");
            if g != f || call {
                out.push((*a, g));
            }
        }
        out
    }

    /// whether the function contains an instruction
    pub fn count(&self, f: usize, pred: impl Fn(&Insn) -> bool) -> usize {
        let fun = &self.funcs[f];
        self.insns.range(fun.addr..fun.addr + fun.size).filter(|(_, i)| pred(i)).count()
    }
}

// ---- interpreter

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Stop {
    /// reached an idle loop
    Done,
    /// too many steps
    Cap,
    /// cannot go on: an instruction that is not supported, and so on
    Stuck(String),
}

#[derive(Clone, Debug)]
struct Activation {
    func: usize,
    /// SP on entry
    sp: u32,
    ret: u32,
    /// entered by a branch at the end of the function below
    tail: bool,
}

#[derive(Default)]
pub struct Trace {
    /// (caller, callee, whether by a pointer)
    pub edges: std::collections::BTreeSet<(usize, usize, bool)>,
    /// function: most stack it used itself
    pub own: BTreeMap<usize, u64>,
    /// function: most stack that it and what it called used
    pub total: BTreeMap<usize, u64>,
    pub steps: u64,
    pub calls: u64,
    pub deepest: usize,
}

const STACK: u32 = 0x3000_0000;
const STACK_SIZE: u32 = 0x10_0000;

struct Machine<'a> {
    r: [u32; 16],
    s: [u32; 32],
    n: bool,
    z: bool,
    c: bool,
    v: bool,
    mem: Vec<(u32, Vec<u8>)>,
    input: u32,
    next: &'a mut dyn FnMut() -> u32,
}

type Res<T> = Result<T, String>;

impl Machine<'_> {
    fn slot(&mut self, a: u32, n: u32) -> Res<&mut [u8]> {
        for (base, d) in &mut self.mem {
            if a >= *base && (a - *base) as usize + n as usize <= d.len() {
                let o = (a - *base) as usize;
                return Ok(&mut d[o..o + n as usize]);
            }
        }
        Err(format!("access to {:#x}", a))
    }
    fn load(&mut self, a: u32, n: u32) -> Res<u32> {
        if a >= self.input && a < self.input + 4 {
            return Ok((self.next)());
        }
        let s = self.slot(a, n)?;
        Ok(s.iter().rev().fold(0u32, |x, b| x << 8 | *b as u32))
    }
    fn store(&mut self, a: u32, n: u32, v: u32) -> Res<()> {
        let s = self.slot(a, n)?;
        s.copy_from_slice(&v.to_le_bytes()[..n as usize]);
        Ok(())
    }
    fn holds(&self, c: u8) -> bool {
        let x = match c >> 1 {
            0 => self.z,
            1 => self.c,
            2 => self.n,
            3 => self.v,
            4 => self.c && !self.z,
            5 => self.n == self.v,
            6 => self.n == self.v && !self.z,
            _ => return true,
        };
        x != (c & 1 == 1)
    }
    fn get(&self, r: usize, pc: u32) -> u32 {
        if r == 15 {
            pc.wrapping_add(4)
        } else {
            self.r[r]
        }
    }
    fn shifted(&self, v: u32, kind: &str, n: u32) -> (u32, bool) {
        match (kind, n) {
            ("rrx", _) => (v >> 1 | (self.c as u32) << 31, v & 1 == 1),
            (_, 0) => (v, self.c),
            ("lsl", 1..=31) => (v << n, v >> (32 - n) & 1 == 1),
            ("lsl", 32) => (0, v & 1 == 1),
            ("lsr", 1..=31) => (v >> n, v >> (n - 1) & 1 == 1),
            ("lsr", 32) => (0, v >> 31 == 1),
            ("asr", 1..=31) => (((v as i32) >> n) as u32, v >> (n - 1) & 1 == 1),
            ("asr", _) => (((v as i32) >> 31) as u32, v >> 31 == 1),
            ("ror", n) => {
                let x = v.rotate_right(n & 31);
                (x, x >> 31 == 1)
            }
            _ => (0, false),
        }
    }
    /// last operand of a data-processing instruction: register, shifted register or immediate
    fn flexible(&self, args: &[Arg], pc: u32) -> Res<(u32, bool)> {
        match args {
            [Arg::Imm(n)] => {
                let n = *n as u32;
                let b = n & 0xff;
                let repl = n == b || n == b * 0x10001 || n == b * 0x1010101 || (n & 0xff == 0 && n == (n >> 8 & 0xff) * 0x1000100);
                Ok((n, if repl { self.c } else { n >> 31 == 1 }))
            }
            [Arg::Reg(r)] => Ok((self.get(*r, pc), self.c)),
            [Arg::Reg(r), Arg::Shift(k, a)] => match **a {
                Arg::Imm(n) => Ok(self.shifted(self.get(*r, pc), k, n as u32)),
                Arg::Reg(x) => Ok(self.shifted(self.get(*r, pc), k, self.r[x] & 0xff)),
                _ => Err("shift".into()),
            },
            _ => Err(format!("operands {:?}", args)),
        }
    }
    fn nz(&mut self, v: u32) {
        self.n = v >> 31 == 1;
        self.z = v == 0;
    }
    fn sum(&mut self, a: u32, b: u32, carry: bool, flags: bool) -> u32 {
        let wide = a as u64 + b as u64 + carry as u64;
        let v = wide as u32;
        if flags {
            self.nz(v);
            self.c = wide >> 32 != 0;
            self.v = !(a ^ b) & (a ^ v) & 0x8000_0000 != 0;
        }
        v
    }
    fn f(&self, n: usize) -> f32 {
        f32::from_bits(self.s[n])
    }
}

/// what happens after an instruction
enum Next {
    Go,
    /// a jump; the flag says whether the destination is spelled out
    Jump(u32, bool),
    Call(u32, bool),
}

fn step(m: &mut Machine, pc: u32, i: &Insn) -> Res<Next> {
    use Arg::*;
    if i.op.is_empty() {
        return Err(format!("`{} {}`", i.mnemonic, i.operands));
    }
    if !m.holds(i.cond) {
        if !matches!(i.op.as_str(), "cbz" | "cbnz") {
            return Ok(Next::Go);
        }
    }
    let a = &i.args[..];
    let bad = || Err(format!("operands of `{} {}`: {:?}", i.mnemonic, i.operands, i.args));
    // destination register of an instruction with a flexible operand, first operand, the rest
    macro_rules! dst {
        () => {
            match a {
                [Reg(d), ..] => *d,
                _ => return bad(),
            }
        };
    }
    // `op rd, rn, operand` or `op rd, operand`
    let three = |m: &Machine| -> Res<(u32, (u32, bool))> {
        match a {
            [Reg(_), Reg(n), rest @ ..] if !rest.is_empty() && !matches!(rest[0], Shift(..)) => Ok((m.get(*n, pc), m.flexible(rest, pc)?)),
            [Reg(d), rest @ ..] if !rest.is_empty() => Ok((m.get(*d, pc), m.flexible(rest, pc)?)),
            _ => Err(format!("operands of `{} {}`: {:?}", i.mnemonic, i.operands, i.args)),
        }
    };
    let write = |m: &mut Machine, d: usize, v: u32| -> Next {
        if d == 15 {
            Next::Jump(v & !1, false)
        } else {
            m.r[d] = v;
            Next::Go
        }
    };
    Ok(match i.op.as_str() {
        "nop" | "dsb" | "isb" | "dmb" | "cpsid" | "cpsie" | "msr" | "clrex" => Next::Go,
        "ldrex" => {
            let [Reg(d), Mem(n, None | Some(Index::Imm(0)), false)] = a else { return bad() };
            m.r[*d] = m.load(m.r[*n], 4)?;
            Next::Go
        }
        "strex" => {
            let [Reg(d), Reg(t), Mem(n, None | Some(Index::Imm(0)), false)] = a else { return bad() };
            m.store(m.r[*n], 4, m.r[*t])?;
            m.r[*d] = 0;
            Next::Go
        }
        "smmul" | "smmla" => {
            let (Reg(d), [Reg(x), Reg(y), rest @ ..]) = (&a[0], &a[1..]) else { return bad() };
            let p = ((m.r[*x] as i32 as i64 * m.r[*y] as i32 as i64) >> 32) as u32;
            m.r[*d] = match rest {
                [] => p,
                [Reg(z)] => p.wrapping_add(m.r[*z]),
                _ => return bad(),
            };
            Next::Go
        }
        "mrs" => {
            m.r[dst!()] = 0;
            Next::Go
        }
        "mov" | "mvn" => {
            let d = dst!();
            let (mut v, c) = m.flexible(&a[1..], pc)?;
            if i.op == "mvn" {
                v = !v;
            }
            if i.flags {
                m.nz(v);
                m.c = c;
            }
            write(m, d, v)
        }
        "movw" => {
            let (d, Some(Imm(n))) = (dst!(), a.get(1)) else { return bad() };
            m.r[d] = *n as u32;
            Next::Go
        }
        "movt" => {
            let (d, Some(Imm(n))) = (dst!(), a.get(1)) else { return bad() };
            m.r[d] = m.r[d] & 0xffff | (*n as u32) << 16;
            Next::Go
        }
        "add" | "addw" | "sub" | "subw" | "adc" | "sbc" | "rsb" => {
            let d = dst!();
            let (mut x, (mut y, _)) = three(m)?;
            if matches!(a, [_, Reg(15), ..]) && i.op != "sub" {
                x &= !3;
            }
            let carry = match i.op.as_str() {
                "add" | "addw" => false,
                "sub" | "subw" => {
                    y = !y;
                    true
                }
                "adc" => m.c,
                "sbc" => {
                    y = !y;
                    m.c
                }
                _ => {
                    let t = x;
                    x = y;
                    y = !t;
                    true
                }
            };
            let v = m.sum(x, y, carry, i.flags);
            write(m, d, v)
        }
        "and" | "orr" | "orn" | "eor" | "bic" => {
            let d = dst!();
            let (x, (y, c)) = three(m)?;
            let v = match i.op.as_str() {
                "and" => x & y,
                "orr" => x | y,
                "orn" => x | !y,
                "eor" => x ^ y,
                _ => x & !y,
            };
            if i.flags {
                m.nz(v);
                m.c = c;
            }
            m.r[d] = v;
            Next::Go
        }
        "cmp" | "cmn" | "tst" | "teq" => {
            let x = m.get(dst!(), pc);
            let (y, c) = m.flexible(&a[1..], pc)?;
            match i.op.as_str() {
                "cmp" => {
                    m.sum(x, !y, true, true);
                }
                "cmn" => {
                    m.sum(x, y, false, true);
                }
                o => {
                    m.nz(if o == "tst" { x & y } else { x ^ y });
                    m.c = c;
                }
            }
            Next::Go
        }
        "lsl" | "lsr" | "asr" | "ror" => {
            let d = dst!();
            let (x, n) = match a {
                [_, Reg(x), Imm(n)] => (m.r[*x], *n as u32),
                [_, Reg(x), Reg(n)] => (m.r[*x], m.r[*n] & 0xff),
                [Reg(x), Reg(n)] => (m.r[*x], m.r[*n] & 0xff),
                _ => return bad(),
            };
            let (v, c) = m.shifted(x, &i.op, n);
            if i.flags {
                m.nz(v);
                m.c = c;
            }
            m.r[d] = v;
            Next::Go
        }
        "rrx" => {
            let (d, Some(Reg(x))) = (dst!(), a.get(1)) else { return bad() };
            let (v, c) = m.shifted(m.r[*x], "rrx", 1);
            if i.flags {
                m.nz(v);
                m.c = c;
            }
            m.r[d] = v;
            Next::Go
        }
        "mul" => {
            let v = match a {
                [_, Reg(x), Reg(y)] => m.r[*x].wrapping_mul(m.r[*y]),
                [Reg(x), Reg(y)] => m.r[*x].wrapping_mul(m.r[*y]),
                _ => return bad(),
            };
            if i.flags {
                m.nz(v);
            }
            m.r[dst!()] = v;
            Next::Go
        }
        "mla" | "mls" => {
            let [Reg(d), Reg(x), Reg(y), Reg(z)] = a else { return bad() };
            let p = m.r[*x].wrapping_mul(m.r[*y]);
            m.r[*d] = if i.op == "mla" { m.r[*z].wrapping_add(p) } else { m.r[*z].wrapping_sub(p) };
            Next::Go
        }
        "umull" | "smull" | "umlal" | "smlal" => {
            let [Reg(lo), Reg(hi), Reg(x), Reg(y)] = a else { return bad() };
            let p = if i.op.starts_with('u') {
                m.r[*x] as u64 * m.r[*y] as u64
            } else {
                (m.r[*x] as i32 as i64).wrapping_mul(m.r[*y] as i32 as i64) as u64
            };
            let acc = if i.op.ends_with("lal") { (m.r[*hi] as u64) << 32 | m.r[*lo] as u64 } else { 0 };
            let v = p.wrapping_add(acc);
            m.r[*lo] = v as u32;
            m.r[*hi] = (v >> 32) as u32;
            Next::Go
        }
        "umaal" => {
            let [Reg(lo), Reg(hi), Reg(x), Reg(y)] = a else { return bad() };
            let v = m.r[*x] as u64 * m.r[*y] as u64 + m.r[*lo] as u64 + m.r[*hi] as u64;
            m.r[*lo] = v as u32;
            m.r[*hi] = (v >> 32) as u32;
            Next::Go
        }
        "udiv" | "sdiv" => {
            let (x, y) = match a {
                [_, Reg(x), Reg(y)] => (m.r[*x], m.r[*y]),
                _ => return bad(),
            };
            m.r[dst!()] = if y == 0 {
                0
            } else if i.op == "udiv" {
                x / y
            } else {
                (x as i32).wrapping_div(y as i32) as u32
            };
            Next::Go
        }
        "clz" | "rbit" | "rev" | "rev16" | "revsh" => {
            let [Reg(d), Reg(x)] = a else { return bad() };
            let x = m.r[*x];
            m.r[*d] = match i.op.as_str() {
                "clz" => x.leading_zeros(),
                "rbit" => x.reverse_bits(),
                "rev" => x.swap_bytes(),
                "rev16" => (x >> 8 & 0xff00ff) | (x << 8 & 0xff00ff00),
                _ => (x as u16).swap_bytes() as i16 as i32 as u32,
            };
            Next::Go
        }
        "uxtb" | "uxth" | "sxtb" | "sxth" | "uxtb16" | "uxtab" | "uxtah" | "sxtab" | "sxtah" => {
            let add = i.op.len() == 5 && i.op != "uxtb16";
            let (d, x, base, rest) = match a {
                [Reg(d), Reg(n), Reg(x), rest @ ..] if add => (*d, *x, m.r[*n], rest),
                [Reg(d), Reg(x), rest @ ..] if !add => (*d, *x, 0, rest),
                _ => return bad(),
            };
            let x = match rest {
                [] => m.r[x],
                [Shift(k, n)] if k == "ror" => match **n {
                    Imm(n) => m.r[x].rotate_right(n as u32),
                    _ => return bad(),
                },
                _ => return bad(),
            };
            let v = match &i.op[..] {
                "uxtb" | "uxtab" => x & 0xff,
                "uxth" | "uxtah" => x & 0xffff,
                "sxtb" | "sxtab" => x as i8 as i32 as u32,
                "uxtb16" => x & 0xff00ff,
                _ => x as i16 as i32 as u32,
            };
            m.r[d] = base.wrapping_add(v);
            Next::Go
        }
        "ubfx" | "sbfx" => {
            let [Reg(d), Reg(x), Imm(lsb), Imm(w)] = a else { return bad() };
            let up = 32 - *w as u32 - *lsb as u32;
            let x = m.r[*x] << up;
            let down = 32 - *w as u32;
            m.r[*d] = if i.op == "ubfx" { x >> down } else { ((x as i32) >> down) as u32 };
            Next::Go
        }
        "bfi" => {
            let [Reg(d), Reg(x), Imm(lsb), Imm(w)] = a else { return bad() };
            let mask = ((1u64 << *w) - 1) as u32;
            m.r[*d] = m.r[*d] & !(mask << *lsb) | (m.r[*x] & mask) << *lsb;
            Next::Go
        }
        "bfc" => {
            let [Reg(d), Imm(lsb), Imm(w)] = a else { return bad() };
            let mask = ((1u64 << *w) - 1) as u32;
            m.r[*d] &= !(mask << *lsb);
            Next::Go
        }
        "pkhbt" | "pkhtb" => {
            let [Reg(d), Reg(n), rest @ ..] = a else { return bad() };
            let (y, _) = m.flexible(rest, pc)?;
            let x = m.r[*n];
            m.r[*d] = if i.op == "pkhbt" { x & 0xffff | y & 0xffff0000 } else { x & 0xffff0000 | y & 0xffff };
            Next::Go
        }
        "adr" => {
            let base = pc.wrapping_add(4) & !3;
            m.r[dst!()] = match a.get(1) {
                Some(Imm(n)) => base.wrapping_add(*n as u32),
                Some(Addr(n)) => *n as u32,
                _ => return bad(),
            };
            Next::Go
        }
        "ldr" | "ldrb" | "ldrh" | "ldrsb" | "ldrsh" | "str" | "strb" | "strh" | "ldrd" | "strd" => {
            let double = i.op.ends_with('d');
            let k = if double { 2 } else { 1 };
            let (Some(Mem(base, idx, wb)), Reg(t)) = (a.get(k), &a[0]) else { return bad() };
            let b = if *base == 15 { pc.wrapping_add(4) & !3 } else { m.r[*base] };
            let eff = match idx {
                None => b,
                Some(Index::Imm(n)) => b.wrapping_add(*n as u32),
                Some(Index::Reg(x, sh)) => b.wrapping_add(m.r[*x] << sh),
            };
            let after = match a.get(k + 1) {
                None => wb.then_some(eff),
                Some(Imm(n)) => Some(b.wrapping_add(*n as u32)),
                _ => return bad(),
            };
            let width = match &i.op[3..] {
                "b" | "sb" => 1,
                "h" | "sh" => 2,
                _ => 4,
            };
            let mut jump = Next::Go;
            if i.op.starts_with("st") {
                m.store(eff, width, m.r[*t])?;
                if double {
                    let Reg(t2) = &a[1] else { return bad() };
                    m.store(eff.wrapping_add(4), 4, m.r[*t2])?;
                }
                if let Some(v) = after {
                    m.r[*base] = v;
                }
            } else {
                let v = m.load(eff, width)?;
                let v = match i.op.as_str() {
                    "ldrsb" => v as i8 as i32 as u32,
                    "ldrsh" => v as i16 as i32 as u32,
                    _ => v,
                };
                let second = if double { Some(m.load(eff.wrapping_add(4), 4)?) } else { None };
                if let Some(x) = after {
                    m.r[*base] = x;
                }
                jump = write(m, *t, v);
                if let Some(x) = second {
                    let Reg(t2) = &a[1] else { return bad() };
                    m.r[*t2] = x;
                }
            }
            jump
        }
        "push" | "stmdb" | "pop" | "ldm" | "stm" | "ldmdb" => {
            let (base, list, wb) = match a {
                [List(l)] => (13, l, true),
                [Reg(b), List(l)] => (*b, l, false),
                [RegBang(b), List(l)] => (*b, l, true),
                _ => return bad(),
            };
            let down = matches!(i.op.as_str(), "push" | "stmdb" | "ldmdb");
            let len = 4 * list.len() as u32;
            let b = m.r[base];
            let start = if down { b.wrapping_sub(len) } else { b };
            let mut jump = Next::Go;
            let mut sorted = list.clone();
            sorted.sort();
            if matches!(i.op.as_str(), "push" | "stmdb" | "stm") {
                for (k, r) in sorted.iter().enumerate() {
                    m.store(start.wrapping_add(4 * k as u32), 4, m.r[*r])?;
                }
                if wb {
                    m.r[base] = if down { start } else { b.wrapping_add(len) };
                }
            } else {
                if wb {
                    m.r[base] = if down { start } else { b.wrapping_add(len) };
                }
                for (k, r) in sorted.iter().enumerate() {
                    let v = m.load(start.wrapping_add(4 * k as u32), 4)?;
                    if let Next::Jump(x, y) = write(m, *r, v) {
                        jump = Next::Jump(x, y);
                    }
                }
            }
            jump
        }
        "b" => match a {
            [Addr(d)] => Next::Jump(*d as u32, true),
            _ => return bad(),
        },
        "bl" => match a {
            [Addr(d)] => Next::Call(*d as u32, true),
            _ => return bad(),
        },
        "bx" => match a {
            [Reg(r)] if m.r[*r] & 1 == 1 => Next::Jump(m.r[*r] & !1, false),
            _ => return bad(),
        },
        "blx" => match a {
            [Reg(r)] if m.r[*r] & 1 == 1 => Next::Call(m.r[*r] & !1, false),
            _ => return bad(),
        },
        "cbz" | "cbnz" => match a {
            [Reg(r), Addr(d)] => {
                if (m.r[*r] == 0) == (i.op == "cbz") {
                    Next::Jump(*d as u32, true)
                } else {
                    Next::Go
                }
            }
            _ => return bad(),
        },
        "tbb" | "tbh" => {
            let [Mem(base, Some(Index::Reg(x, sh)), _)] = a else { return bad() };
            let b = m.get(*base, pc);
            let w = if i.op == "tbb" { 1 } else { 2 };
            let n = m.load(b.wrapping_add(m.r[*x] << sh), w)?;
            Next::Jump(pc.wrapping_add(4).wrapping_add(2 * n), true)
        }
        "vpush" | "vpop" | "vldmia" | "vstmia" => {
            let (base, list, wb) = match a {
                [l] => (13, l, true),
                [Reg(b), l] => (*b, l, false),
                [RegBang(b), l] => (*b, l, true),
                _ => return bad(),
            };
            let words: Vec<usize> = match list {
                SList(l) => l.clone(),
                DList(l) if l.iter().all(|d| *d < 16) => l.iter().flat_map(|d| [2 * d, 2 * d + 1]).collect(),
                _ => return bad(),
            };
            let len = 4 * words.len() as u32;
            let b = m.r[base];
            let start = if i.op == "vpush" { b.wrapping_sub(len) } else { b };
            for (k, w) in words.iter().enumerate() {
                let at = start.wrapping_add(4 * k as u32);
                if matches!(i.op.as_str(), "vpush" | "vstmia") {
                    let v = m.s[*w];
                    m.store(at, 4, v)?;
                } else {
                    m.s[*w] = m.load(at, 4)?;
                }
            }
            if wb {
                m.r[base] = if i.op == "vpush" { start } else { b.wrapping_add(len) };
            }
            Next::Go
        }
        "vldr" | "vstr" => {
            let (words, Some(Mem(base, idx, false))) = (
                match a.first() {
                    Some(S(n)) => vec![*n],
                    Some(D(n)) if *n < 16 => vec![2 * n, 2 * n + 1],
                    _ => return bad(),
                },
                a.get(1),
            ) else {
                return bad();
            };
            let b = if *base == 15 { pc.wrapping_add(4) & !3 } else { m.r[*base] };
            let off = match idx {
                None => 0,
                Some(Index::Imm(n)) => *n as u32,
                _ => return bad(),
            };
            for (k, w) in words.iter().enumerate() {
                let at = b.wrapping_add(off).wrapping_add(4 * k as u32);
                if i.op == "vldr" {
                    m.s[*w] = m.load(at, 4)?;
                } else {
                    let v = m.s[*w];
                    m.store(at, 4, v)?;
                }
            }
            Next::Go
        }
        "vmov" => {
            match a {
                [S(d), Reg(r)] => m.s[*d] = m.r[*r],
                [Reg(r), S(d)] => m.r[*r] = m.s[*d],
                [S(d), S(e)] => m.s[*d] = m.s[*e],
                [D(d), D(e)] if *d < 16 && *e < 16 => {
                    m.s[2 * d] = m.s[2 * e];
                    m.s[2 * d + 1] = m.s[2 * e + 1];
                }
                [S(d), Float(x)] => m.s[*d] = x.to_bits(),
                [D(d), Reg(x), Reg(y)] if *d < 16 => {
                    m.s[2 * d] = m.r[*x];
                    m.s[2 * d + 1] = m.r[*y];
                }
                [Reg(x), Reg(y), D(d)] if *d < 16 => {
                    m.r[*x] = m.s[2 * d];
                    m.r[*y] = m.s[2 * d + 1];
                }
                [Reg(x), Reg(y), S(d), S(e)] => {
                    m.r[*x] = m.s[*d];
                    m.r[*y] = m.s[*e];
                }
                [S(d), S(e), Reg(x), Reg(y)] => {
                    m.s[*d] = m.r[*x];
                    m.s[*e] = m.r[*y];
                }
                _ => return bad(),
            }
            Next::Go
        }
        "vadd" | "vsub" | "vmul" | "vdiv" | "vmla" | "vmls" | "vnmul" | "vnmls" | "vnmla" if i.ty == "f32" => {
            let [S(d), S(x), S(y)] = a else { return bad() };
            let (x, y, acc) = (m.f(*x), m.f(*y), m.f(*d));
            let v = match i.op.as_str() {
                "vadd" => x + y,
                "vsub" => x - y,
                "vmul" => x * y,
                "vdiv" => x / y,
                "vmla" => acc + x * y,
                "vmls" => acc - x * y,
                "vnmla" => -acc - x * y,
                "vnmls" => -acc + x * y,
                _ => -(x * y),
            };
            m.s[*d] = v.to_bits();
            Next::Go
        }
        "vneg" | "vabs" | "vsqrt" if i.ty == "f32" => {
            let [S(d), S(x)] = a else { return bad() };
            let x = m.f(*x);
            m.s[*d] = match i.op.as_str() {
                "vneg" => -x,
                "vabs" => x.abs(),
                _ => x.sqrt(),
            }
            .to_bits();
            Next::Go
        }
        "vcmp" | "vcmpe" if i.ty == "f32" => {
            let (x, y) = match a {
                [S(x), S(y)] => (m.f(*x), m.f(*y)),
                [S(x), _] => (m.f(*x), 0.0),
                _ => return bad(),
            };
            // straight to the flags; `vmrs` always follows
            let (n, z, c, v) = match x.partial_cmp(&y) {
                None => (false, false, true, true),
                Some(std::cmp::Ordering::Less) => (true, false, false, false),
                Some(std::cmp::Ordering::Equal) => (false, true, true, false),
                Some(std::cmp::Ordering::Greater) => (false, false, true, false),
            };
            m.n = n;
            m.z = z;
            m.c = c;
            m.v = v;
            Next::Go
        }
        "vmrs" => Next::Go,
        "vcvt" => {
            let [S(d), S(x)] = a else { return bad() };
            let raw = m.s[*x];
            m.s[*d] = match i.ty.as_str() {
                "u32.f32" => f32::from_bits(raw) as u32,
                "s32.f32" => f32::from_bits(raw) as i32 as u32,
                "f32.u32" => (raw as f32).to_bits(),
                "f32.s32" => (raw as i32 as f32).to_bits(),
                _ => return bad(),
            };
            Next::Go
        }
        _ => return Err(format!("`{} {}`", i.mnemonic, i.operands)),
    })
}

/// runs the program from its entry point; each read of `IN` yields the next input
pub fn run(image: &Image, cap: u64, next: &mut dyn FnMut() -> u32) -> (Trace, Stop) {
    let mut t = Trace::default();
    let mut mem: Vec<(u32, Vec<u8>)> = image.segments.iter().map(|s| (s.0 as u32, s.1.clone())).collect();
    mem.push((STACK, vec![0; STACK_SIZE as usize]));
    let mut m = Machine {
        r: [0; 16],
        s: [0; 32],
        n: false,
        z: false,
        c: false,
        v: false,
        mem,
        input: image.objects.get("IN").copied().unwrap_or(0) as u32,
        next,
    };
    m.r[13] = STACK + STACK_SIZE;
    m.r[14] = 0xffff_ffff;
    let mut pc = image.entry as u32 & !1;
    let Some(f) = image.func_at(pc as u64) else {
        return (t, Stop::Stuck("entry point".into()));
    };
    let mut acts = vec![Activation {
        func: f,
        sp: m.r[13],
        ret: 0xffff_fffe,
        tail: false,
    }];
    t.own.insert(f, 0);
    t.total.insert(f, 0);
    loop {
        if t.steps >= cap {
            return (t, Stop::Cap);
        }
        t.steps += 1;
        let Some(i) = image.insns.get(&(pc as u64)) else {
            return (t, Stop::Stuck(format!("no instruction at {:#x}", pc)));
        };
        if matches!(i.op.as_str(), "trap" | "udf") {
            return (t, Stop::Done);
        }
        let old = m.r[13];
        let n = match step(&mut m, pc, i) {
            Ok(n) => n,
            Err(e) => return (t, Stop::Stuck(format!("{} at {:#x}", e, pc))),
        };
        let sp = m.r[13];
        if sp != old {
            let top = acts.last().unwrap();
            if sp < top.sp {
                let x = t.own.entry(top.func).or_insert(0);
                *x = (*x).max((top.sp - sp) as u64);
            }
            if sp < old {
                for a in &acts {
                    if a.sp > sp {
                        let x = t.total.entry(a.func).or_insert(0);
                        *x = (*x).max((a.sp - sp) as u64);
                    }
                }
            }
        }
        let fall = pc.wrapping_add(i.size as u32);
        match n {
            Next::Go => pc = fall,
            Next::Call(d, direct) => {
                let cur = acts.last().unwrap().func;
                let fun = &image.funcs[cur];
                m.r[14] = fall | 1;
                if direct && d as u64 > fun.addr && (d as u64) < fun.addr + fun.size {
                    // a far branch
                    pc = d;
                    continue;
                }
                let Some(g) = image.func_at(d as u64) else {
                    return (t, Stop::Stuck(format!("call of {:#x} at {:#x}", d, pc)));
                };
                t.edges.insert((cur, g, !direct));
                t.calls += 1;
                t.own.entry(g).or_insert(0);
                t.total.entry(g).or_insert(0);
                acts.push(Activation {
                    func: g,
                    sp: m.r[13],
                    ret: fall,
                    tail: false,
                });
                t.deepest = t.deepest.max(acts.len());
                pc = d;
            }
            Next::Jump(d, direct) => {
                let base = acts.iter().rposition(|a| !a.tail).unwrap();
                let cur = acts.last().unwrap().func;
                let fun = &image.funcs[cur];
                if !direct && acts[base].ret == d && acts[base].sp == m.r[13] {
                    acts.truncate(base);
                    if acts.is_empty() {
                        return (t, Stop::Stuck("returned from the entry point".into()));
                    }
                    pc = d;
                    continue;
                }
                if d as u64 >= fun.addr && (d as u64) < fun.addr + fun.size {
                    // an empty loop?
                    if d <= pc && direct {
                        let between: Vec<&Insn> = image.insns.range(d as u64..pc as u64).map(|x| x.1).collect();
                        if between.iter().all(|i| i.mnemonic == "nop" || i.mnemonic == "mov" && i.operands == "r8, r8") && i.cond == AL && i.op == "b" {
                            return (t, Stop::Done);
                        }
                    }
                    pc = d;
                    continue;
                }
                let Some(g) = image.func_at(d as u64) else {
                    return (t, Stop::Stuck(format!("jump to {:#x} at {:#x}", d, pc)));
                };
                t.edges.insert((cur, g, !direct));
                t.calls += 1;
                t.own.entry(g).or_insert(0);
                t.total.entry(g).or_insert(0);
                acts.push(Activation {
                    func: g,
                    sp: m.r[13],
                    ret: acts[base].ret,
                    tail: true,
                });
                if acts.len() > 5000 {
                    return (t, Stop::Cap);
                }
                pc = d;
            }
        }
    }
}
