//! Writes what the toolchain would leave behind for a program: executable, application object,
//! compiler_builtins archive and the two IR modules.
use crate::{
    elf::{self, Elf, Sym, A, NOBITS, PROGBITS, STT_FILE, STT_FUNC, STT_NOTYPE, STT_OBJECT, STT_SECTION, W, X},
    ir::{self, Style},
    model::*,
    sandbox::{Inputs, Via, TARGETS},
    tape::Noise,
    thumb,
};
use std::collections::BTreeSet;

pub struct Arch {
    pub is64: bool,
    pub machine: u16,
    /// code addresses have the Thumb bit set
    pub tbit: bool,
    pub arm: bool,
    pub rela: bool,
    pub reloc: u32,
}

pub fn arch(target: &str) -> Arch {
    let t = TARGETS.iter().find(|t| t.0 == target).expect("known target");
    let arm = t.1 == "arm";
    Arch {
        is64: t.4,
        machine: t.5,
        tbit: target.starts_with("thumb"),
        arm,
        rela: !(arm || t.1 == "x86"),
        reloc: match t.1 {
            "arm" => 2,
            "x86" => 1,
            "x86_64" => 1,
            "aarch64" => 257,
            "riscv32" => 1,
            _ => 2,
        },
    }
}

fn sym(name: impl Into<String>, value: u64, size: u64, ty: u8, global: bool, shndx: u16) -> Sym {
    Sym {
        name: name.into(),
        value,
        size,
        ty,
        global,
        shndx,
    }
}

fn garbage(n: &mut Noise, len: usize) -> Vec<u8> {
    match n.below(3) {
        0 => vec![0; len],
        1 => thumb::data(n, len),
        _ => (0..len).map(|_| n.next() as u8).collect(),
    }
}

pub fn executable(p: &Program, n: &mut Noise) -> Vec<u8> {
    let ar = arch(p.target);
    let mut e = Elf::new(ar.is64, ar.machine, true);
    e.symtab_first = n.chance(10);

    let mut order: Vec<usize> = (0..p.funcs.len()).collect();
    order.sort_by_key(|i| p.funcs[*i].addr);
    // groups of functions that share a section
    let split = *n.pick(&[0u32, 0, 20, 60]);
    let mut groups: Vec<Vec<usize>> = vec![];
    let mut end = 0u64;
    for i in order {
        let f = &p.funcs[i];
        let size = f.size;
        if groups.is_empty() || f.addr - end > 0x1000 || n.chance(split) {
            groups.push(vec![]);
        }
        groups.last_mut().unwrap().push(i);
        end = f.addr + size;
    }
    let text = if groups.is_empty() { 0 } else { n.below(groups.len()) };
    // linker scripts can give any name to the sections
    let text = if n.chance(8) { usize::MAX } else { text };
    if groups.is_empty() {
        e.section(".text", PROGBITS, A | X, 0x4000, vec![0; 4]);
    }
    let lo = p.funcs.iter().map(|f| f.addr).min().unwrap_or(0x10000);
    let hi = p.funcs.iter().map(|f| f.addr + f.size).max().unwrap_or(0x10000);
    let mut syms: Vec<Sym> = vec![];

    // things that come before the code
    let ro_addr = (hi + 0x2000) & !0xfff;
    let ram = (hi + 0x10000) & !0xfff;
    let mut tag_no = *n.pick(&[0, 0, 98, 2000, 12345]) + n.below(50);
    let mut tag = |n: &mut Noise, kind: &str| {
        tag_no += 1;
        if n.chance(40) {
            kind.to_string()
        } else {
            format!("{}.{}", kind, tag_no)
        }
    };
    if n.chance(50) && lo >= 0x100 {
        let k = e.section(".vector_table", PROGBITS, A, (lo & !0xff) - 0x100, garbage(n, 64));
        if ar.arm && n.chance(50) {
            let a = e.sections[k].addr;
            let nm = tag(n, "$d");
            syms.push(sym(nm, a, 0, STT_NOTYPE, false, k as u16 + 1));
        }
        let a = e.sections[k].addr;
        syms.push(sym("__RESET_VECTOR", a + 4, 4, STT_OBJECT, true, k as u16 + 1));
    }

    for (gi, g) in groups.iter().enumerate() {
        let base = p.funcs[g[0]].addr;
        let name = if gi == text {
            ".text".to_string()
        } else {
            (*n.pick(&[".data", ".text.hot", ".ramfunc", ".init", ".text2", ".fast_code"])).to_string()
        };
        let mut data: Vec<u8> = vec![];
        let mut tags: Vec<(u64, &str)> = vec![];
        let mut labels: Vec<u64> = vec![];
        // is the last tag of this section a data tag?
        let mut in_data = true;
        for &i in g {
            let f = &p.funcs[i];
            let gap = (f.addr - base) as usize - data.len();
            if gap > 0 {
                if ar.arm && n.chance(40) {
                    tags.push((base + data.len() as u64, "$d"));
                    in_data = true;
                }
                data.extend(garbage(n, gap));
            }
            match &f.code {
                Some(code) if ar.arm => {
                    let (bytes, tg) = thumb::assemble(code, f.addr, &|g| p.funcs[g].addr);
                    if n.chance(10) && bytes.len() > 2 {
                        // of hand-written assembly
                        labels.push(f.addr + 2 * n.range(1, bytes.len() / 2 - 1) as u64);
                    }
                    for (o, is_data) in tg {
                        if is_data {
                            tags.push((f.addr + o as u64, "$d"));
                            in_data = true;
                        } else if in_data || f.nosize || n.chance(60) {
                            tags.push((f.addr + o as u64, "$t"));
                            in_data = false;
                        }
                    }
                    data.extend(bytes);
                    if f.nosize && f.blind {
                        // what comes next is data
                        tags.push((f.addr + thumb::size(code) as u64, "$d"));
                        data.extend([0x02, 0xb5]);
                        in_data = true;
                    } else if f.nosize {
                        // the size can only be told from what comes next
                        let end = f.addr + thumb::size(code) as u64;
                        let next = g.iter().any(|j| p.funcs[*j].addr == end);
                        if !next {
                            tags.push((end, "$t"));
                            data.extend([0x70, 0x47]);
                        } else {
                            in_data = true; // so that the next one gets its tag
                        }
                    }
                }
                _ => {
                    if ar.arm {
                        tags.push((f.addr, if ar.tbit { "$t" } else { "$a" }));
                    } else if p.target.starts_with("aarch64") || p.target.starts_with("riscv") {
                        if n.chance(70) {
                            tags.push((f.addr, "$x"));
                        }
                    }
                    data.extend(garbage(n, f.size as usize));
                }
            }
        }
        let flags = A | X | if name == ".data" { W } else { 0 };
        let k = e.section(&name, PROGBITS, flags, base, data) as u16 + 1;
        for (a, t) in tags {
            let nm = tag(n, t);
            syms.push(sym(nm, a, 0, STT_NOTYPE, false, k));
        }
        for a in labels {
            let nm = *n.pick(&["$done", "$table", "again", "$d0", "$t1", "$data.1", "$thumb", "again.1", "$", "$d_1", "$a1"]);
            syms.push(sym(nm, a, 0, STT_NOTYPE, false, k));
        }
        if n.chance(50) {
            syms.push(sym("", base, 0, STT_SECTION, false, k));
        }
        let nf = g.len();
        for &i in g {
            let f = &p.funcs[i];
            let mut idx: Vec<usize> = (0..f.names.len()).collect();
            n.shuffle(&mut idx);
            for j in idx {
                let fun = f.is_func[j];
                let mut value = f.addr;
                if ar.tbit && (fun || n.chance(60)) {
                    value |= 1;
                }
                let size = if f.nosize || !fun { 0 } else { f.size };
                syms.push(sym(
                    &f.names[j].sym,
                    value,
                    size,
                    if fun { STT_FUNC } else { STT_NOTYPE },
                    f.global[j],
                    if !fun && n.chance(20) { 0xfff1 } else { k },
                ));
            }
        }
        let _ = nf;
    }

    // data and debug sections
    if n.chance(70) {
        let len = 4 * n.range(1, 30);
        let d = garbage(n, len);
        let k = e.section(".rodata", PROGBITS, A, ro_addr, d) as u16 + 1;
        for j in 0..n.below(3) {
            syms.push(sym(format!("TABLE{}", j), ro_addr + 4 * j as u64, 4, STT_OBJECT, n.chance(50), k));
        }
        syms.push(sym("__srodata", ro_addr, 0, STT_NOTYPE, true, k));
        if ar.arm && n.chance(70) {
            let nm = tag(n, "$d");
            syms.push(sym(nm, ro_addr, 0, STT_NOTYPE, false, k));
        }
    }
    if n.chance(40) {
        let k = e.section(".bss", NOBITS, A | W, ram, vec![]);
        e.sections[k].nobits = 0x1000;
        syms.push(sym("__sbss", ram, 0, STT_NOTYPE, true, k as u16 + 1));
        syms.push(sym("COUNTER", ram + 8, 8, STT_OBJECT, false, k as u16 + 1));
        if ar.arm && n.chance(50) {
            let nm = tag(n, "$d");
            syms.push(sym(nm, ram, 0, STT_NOTYPE, false, k as u16 + 1));
        }
    }
    if n.chance(40) {
        let k = e.section(".comment", PROGBITS, 0x30, 0, b"rustc version\0".to_vec()) as u16 + 1;
        let _ = k;
    }
    if n.chance(40) {
        let d = garbage(n, 40);
        let k = e.section(".debug_info", PROGBITS, 0, 0, d) as u16 + 1;
        if ar.arm {
            // tags of sections that are not loaded
            for a in [0u64, 4, lo, lo + 2, hi] {
                if n.chance(50) {
                    let kind = *n.pick(&["$d", "$d", "$d"]);
                    let nm = tag(n, kind);
                    syms.push(sym(nm, a, 0, STT_NOTYPE, false, k));
                }
            }
        }
    }
    if n.chance(25) {
        // linked in on purpose (`KEEP`)
        let mut d: Vec<u8> = vec![];
        for f in &p.funcs {
            if let Some(r) = &f.rec {
                let a = f.addr | (ar.tbit && n.chance(50)) as u64;
                d.extend(&a.to_le_bytes()[..if ar.is64 { 8 } else { 4 }]);
                d.extend(elf::uleb(r.val, 0));
            }
        }
        e.section(".stack_sizes", PROGBITS, 0, 0, d);
    }
    for u in &p.undefs {
        let nm = format!("{}{}", u.name.sym, u.version.as_deref().unwrap_or(""));
        syms.push(sym(nm, 0, 0, STT_FUNC, true, 0));
    }
    // linker symbols
    for (j, nm) in ["_stack_start", "_ram_end", "__veneer_base", "_heap"].iter().enumerate() {
        if n.chance(30) {
            syms.push(sym(*nm, ram + 0x8000 + 16 * j as u64, 0, STT_NOTYPE, true, 0xfff1));
        }
    }
    n.shuffle(&mut syms);
    if n.chance(60) {
        syms.insert(0, sym("app.1234-cgu.0", 0, 0, STT_FILE, false, 0xfff1));
    }
    e.syms = syms;
    e.build()
}

/// relocatable object; functions are (name, other names of it, recorded stack usage)
/// the names in `public` are certainly global
pub fn object(target: &str, funcs: &[(String, Vec<String>, Option<u64>)], public: &BTreeSet<String>, n: &mut Noise) -> Vec<u8> {
    let ar = arch(target);
    let mut e = Elf::new(ar.is64, ar.machine, false);
    e.symtab_first = n.chance(15);
    let mut syms: Vec<Sym> = vec![];
    let mut used: BTreeSet<String> = BTreeSet::new();
    let merged = n.chance(12);
    let mut entries: Vec<(usize, u64)> = vec![];
    let x = target.starts_with("aarch64") || target.starts_with("riscv") && n.chance(60);
    let arch_tag = target.starts_with("riscv") && n.chance(30);
    let tagged = ar.arm || x;
    for (k, (name, others, rec)) in funcs.iter().enumerate() {
        if !used.insert(name.clone()) {
            continue;
        }
        let sname = if n.chance(90) { format!(".text.{}", name) } else { ".text".into() };
        let size = 2 * n.range(1, 20);
        let data = garbage(n, size);
        let s = e.section(&sname, PROGBITS, A | X, 0, data) as u16 + 1;
        let t = ar.tbit as u64;
        let main = syms.len();
        syms.push(sym(name, t, size as u64, STT_FUNC, n.chance(60) || public.contains(name), s));
        for o in others {
            used.insert(o.clone());
            syms.push(sym(o, t, size as u64, if n.chance(60) { STT_FUNC } else { STT_NOTYPE }, n.chance(60) || public.contains(o), s));
        }
        if tagged {
            let nm = match (ar.arm, ar.tbit) {
                (false, _) if arch_tag => "$xrv32i2p1_m2p0_c2p0".to_string(),
                (false, _) if n.chance(20) => "$x".to_string(),
                (false, _) => format!("$x.{}", k),
                (true, true) => format!("$t.{}", k),
                (true, false) => format!("$a.{}", k),
            };
            syms.push(sym(nm, 0, 0, STT_NOTYPE, false, s));
            if n.chance(30) {
                syms.push(sym(format!("$d.{}", k), size as u64 - 2, 0, STT_NOTYPE, false, s));
            }
        }
        let mut with = main;
        if n.chance(40) && !ar.tbit {
            with = syms.len();
            syms.push(sym("", 0, 0, STT_SECTION, false, s));
        }
        if let Some(v) = rec {
            if merged {
                entries.push((with, *v));
            } else {
                let mut d = vec![0; if ar.is64 { 8 } else { 4 }];
                d.extend(elf::uleb(*v, 0));
                let ss = e.section(".stack_sizes", PROGBITS, 0x80, 0, d);
                e.relocs.push((ss, ar.rela, vec![(0, with, ar.reloc)]));
            }
        }
        if n.chance(20) {
            let d = garbage(n, 8);
            e.section(&format!(".ARM.exidx.text.{}", k), PROGBITS, A, 0, d);
        }
    }
    if merged && !entries.is_empty() {
        let mut d: Vec<u8> = vec![];
        let mut rel = vec![];
        for (with, v) in entries {
            rel.push((d.len() as u64, with, ar.reloc));
            d.extend(vec![0; if ar.is64 { 8 } else { 4 }]);
            d.extend(elf::uleb(v, 0));
        }
        let ss = e.section(".stack_sizes", PROGBITS, 0x80, 0, d);
        e.relocs.push((ss, ar.rela, rel));
    }
    let d = garbage(n, 16);
    let k = e.section(".rodata..L__unnamed_1", PROGBITS, A, 0, d) as u16 + 1;
    syms.push(sym(".L__unnamed_1", 0, 16, STT_OBJECT, false, k));
    if n.chance(50) {
        syms.push(sym("memcpy_undefined_here", 0, 0, STT_NOTYPE, true, 0));
    }
    // positions matter to the relocations: only append or put in front
    if n.chance(60) {
        syms.push(sym("app.1234-cgu.0", 0, 0, STT_FILE, false, 0xfff1));
    }
    e.syms = syms;
    if n.chance(60) {
        let k = e.sections.len() - 1;
        n.shuffle_sections(&mut e, k);
    }
    e.build()
}

impl Noise {
    /// moves whole sections around; references are by index, so remap them
    fn shuffle_sections(&mut self, e: &mut Elf, _: usize) {
        let count = e.sections.len();
        let mut perm: Vec<usize> = (0..count).collect();
        self.shuffle(&mut perm);
        // perm[new] = old
        let mut new_of = vec![0; count];
        for (new, old) in perm.iter().enumerate() {
            new_of[*old] = new;
        }
        let old = e.sections.clone();
        e.sections = perm.iter().map(|o| old[*o].clone()).collect();
        for s in &mut e.syms {
            if s.shndx > 0 && s.shndx < 0xff00 {
                s.shndx = new_of[s.shndx as usize - 1] as u16 + 1;
            }
        }
        for r in &mut e.relocs {
            r.0 = new_of[r.0];
        }
    }
}

/// application object and archive
pub fn objects(p: &Program, n: &mut Noise) -> (Vec<u8>, Vec<u8>) {
    let collect = |member: Option<usize>| {
        let mut v: Vec<(String, Vec<String>, Option<u64>)> = vec![];
        for f in &p.funcs {
            if let Some(r) = &f.rec {
                if r.member == member {
                    let nm = |k: &usize| f.names[*k].sym.clone();
                    v.push((nm(&r.names[0]), r.names[1..].iter().map(nm).collect(), Some(r.val)));
                }
            }
        }
        for d in &p.dead {
            if let Some(r) = &d.rec {
                if r.member == member {
                    v.push((d.name.sym.clone(), vec![], Some(r.val)));
                }
            }
        }
        v
    };
    let mut app = collect(None);
    // functions for which nothing was recorded
    for f in &p.funcs {
        if f.rec.is_none() && f.defs.iter().all(|d| d.module == Module::App) && n.chance(30) {
            app.push((f.names[0].sym.clone(), vec![], None));
        }
    }
    // functions that replace others
    let mut public = BTreeSet::new();
    for r in &p.replaced {
        let f = &p.funcs[r.by.0];
        let name = f.names[r.by.1].sym.clone();
        let has = |x: &(String, Vec<String>, Option<u64>)| f.names.iter().any(|m| m.sym == x.0);
        if !app.iter().any(|x| x.0 == name || x.1.contains(&name)) {
            match app.iter_mut().find(|x| has(x)) {
                Some(x) => x.1.push(name.clone()),
                None => app.push((name.clone(), vec![], None)),
            }
        }
        public.insert(name);
    }
    n.shuffle(&mut app);
    let obj = object(p.target, &app, &public, n);
    let mut members = vec![];
    for m in 0..p.members {
        let mut v = collect(Some(m));
        for r in &p.replaced {
            if let Some(rec) = r.rec.as_ref().filter(|rec| rec.member == Some(m)) {
                v.push((p.funcs[r.by.0].names[r.by.1].sym.clone(), vec![], Some(rec.val)));
            }
        }
        if n.chance(50) {
            v.push((format!("cb_private_{}", m), vec![], Some(8 * n.range(0, 30) as u64)));
        }
        n.shuffle(&mut v);
        let name = match n.below(3) {
            0 => format!("compiler_builtins-0123456789abcdef.compiler_builtins.fedcba9876543210-cgu.{}.rcgu.o", m),
            1 => format!("compiler_builtins-{}.o", m),
            _ => format!("x.compiler_builtins.{}.rcgu.o", m),
        };
        members.push((name, object(p.target, &v, &BTreeSet::new(), n)));
    }
    if n.chance(50) {
        members.push(("lib.rmeta".into(), garbage(n, 33)));
    }
    if n.chance(30) {
        members.push(("45c91108d938afe8-addsf3.o".into(), garbage(n, 52)));
    }
    if n.chance(20) {
        members.push(("libcompiler_builtins.rmeta".into(), garbage(n, 20)));
    }
    n.shuffle(&mut members);
    let table = n.chance(50);
    (obj, elf::archive(&members, table))
}

pub fn inputs(p: &Program, n: &mut Noise) -> Inputs {
    let mut st = Style::new(n.fork());
    let ll = ir::render(p, Module::App, &mut st);
    let mut st = Style::new(n.fork());
    let cb_ll = ir::render(p, Module::Cb, &mut st);
    let (obj, rlib) = objects(p, &mut n.fork());
    let elf = executable(p, &mut n.fork());
    let via = match n.below(3) {
        0 => Via::Flag,
        1 => Via::Config,
        _ => {
            if p.target.contains("linux") {
                Via::Host
            } else {
                Via::Flag
            }
        }
    };
    Inputs {
        target: p.target.to_string(),
        via,
        config_target: if n.chance(20) { Some(n.pick(ANY).to_string()) } else { None },
        example: n.chance(40),
        name: (*n.pick(&["app", "my-app", "app", "hello_world", "a"])).to_string(),
        ll: ll.into_bytes(),
        obj,
        cb_ll: cb_ll.into_bytes(),
        rlib,
        elf,
    }
}
