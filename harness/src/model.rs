//! Abstract programs: what a program consists of, and what the properties say its graph is.
use crate::{
    tape::{Noise, Tape},
    thumb::{self, Code},
};
use std::collections::{BTreeMap, BTreeSet};

// ---- names

#[derive(Clone, Debug, PartialEq)]
pub struct Name {
    /// symbol name
    pub sym: String,
    /// demangled name, with hash
    pub full: String,
    /// path without the hash, if there is a hash
    pub short: Option<String>,
}

impl Name {
    pub fn plain(s: impl Into<String>) -> Name {
        let s = s.into();
        Name {
            full: rustc_demangle::demangle(&s).to_string(),
            sym: s,
            short: None,
        }
    }

    /// legacy mangling; elements are (mangled, demangled)
    pub fn legacy(path: &[(String, String)], hash: u64, suffix: &str) -> Name {
        let mut sym = String::from("_ZN");
        let mut short = vec![];
        for (m, d) in path {
            sym += &format!("{}{}", m.len(), m);
            short.push(d.clone());
        }
        let h = format!("h{:016x}", hash);
        sym += &format!("17{}E{}", h, suffix);
        let short = short.join("::");
        let full = format!("{}::{}", short, h);
        if suffix.is_empty() || suffix.starts_with(".llvm.") {
            Name {
                sym,
                full,
                short: Some(short),
            }
        } else {
            Name {
                sym,
                full: format!("{}{}", full, suffix),
                short: None,
            }
        }
    }

    pub fn v0(krate: &str, disamb: &str, module: &str, f: &str) -> Name {
        let id = |s: &str| {
            if s.starts_with(|c: char| c.is_ascii_digit() || c == '_') {
                format!("{}_{}", s.len(), s)
            } else {
                format!("{}{}", s.len(), s)
            }
        };
        let sym = format!("_RNvNtCs{}_{}{}{}", disamb, id(krate), id(module), id(f));
        Name {
            full: rustc_demangle::demangle(&sym).to_string(),
            sym,
            short: None,
        }
    }

    /// path a user sees when hashes do not matter
    pub fn path(&self) -> &str {
        self.short.as_deref().unwrap_or(&self.full)
    }
}

const ELEMS: &[(&str, &str)] = &[
    ("main", "main"),
    ("foo", "foo"),
    ("bar", "bar"),
    ("app", "app"),
    ("core", "core"),
    ("fmt", "fmt"),
    ("_$LT$T$u20$as$u20$app..Tr$GT$", "<T as app::Tr>"),
    ("_$LT$core..fmt..Arguments$u20$as$u20$core..fmt..Debug$GT$", "<core::fmt::Arguments as core::fmt::Debug>"),
    ("_$u7b$$u7b$closure$u7d$$u7d$", "{{closure}}"),
    ("drop_in_place$LT$$RF$i32$GT$", "drop_in_place<&i32>"),
    ("_$LT$$BP$const$u20$T$GT$", "<*const T>"),
    ("f$LT$$LP$u8$C$u16$RP$$GT$", "f<(u8,u16)>"),
    ("_$LT$$u5b$T$u5d$$GT$", "<[T]>"),
    // look like a hash, more or less
    ("h0123456789abcde", "h0123456789abcde"),
    ("h0123456789abcdefg", "h0123456789abcdefg"),
    ("hello_world_funct", "hello_world_funct"),
    ("halt_the_machine_", "halt_the_machine_"),
    ("g0123456789abcdef", "g0123456789abcdef"),
];

const PLAIN: &[&str] = &[
    "main", "Reset", "HardFault", "__aeabi_uldivmod", "rust_begin_unwind", "foo.bar", "$weird", "_start", "__rust_alloc", "call", "invoke", "define", "ptr",
    "i32", "x.llvm.123", "a-b", "void", "tail", "OUTLINED_FUNCTION_", "OUTLINED_FUNCTION_x", "fn$1", "_ZN", "_ZNfoo", "_R", "declare", "asm",
];

/// look like the names the outliner, the linker or the assembler give
const LOOKALIKES: &[&str] = &[
    "OUTLINED_FUNCTION_0_init", "$abort", "OUTLINED_FUNCTION_1.2", "$xor", "OUTLINED_FUNCTION_-1", "$a1", "$x86", "outlined_function_1", "MY_OUTLINED_FUNCTION_0",
    "OUTLINED_FUNCTION_12a", "__ThumbFunction_main", "OUTLINED_FUNCTION_0x1", "$above.0", "$dma", "$tick", "$d0", "__Thunk_main",
];

// need quotes in the IR
const QUOTED: &[&str] = &[
    "a b", "foo::bar", "<T as U>::f", "op+", "x(y)", "f(i32)", "{{closure}}", "a, b", "@f", "%f", "!dbg", "#0", "; comment", "a=b", "call void @g()",
    "x -> y", "[n]", "1start", "~", "define void @f() {", "a::hello_world_funct", "h0123456789abcdef", "}", "  call void @x()", "|", "a\tb",
];

pub struct Namer {
    pub used: BTreeSet<String>,
    n: usize,
    /// percentages
    pub weird: u32,
    pub mangled: u32,
    /// names that never appear in IR may contain anything
    pub wild: bool,
}

impl Namer {
    pub fn new() -> Self {
        Namer {
            used: BTreeSet::new(),
            n: 0,
            weird: 15,
            mangled: 45,
            wild: false,
        }
    }

    pub fn gen(&mut self, t: &mut Tape) -> Name {
        let r = t.below(100) as u32;
        // 0 = simplest
        let kind = if r >= 100 - self.mangled {
            if t.chance(15) {
                3
            } else {
                2
            }
        } else if r >= 100 - (self.mangled + self.weird).min(100) {
            1
        } else {
            0
        };
        loop {
            self.n += 1;
            let n = self.n;
            let name = match kind {
                0 => Name::plain(format!("f{}", n)),
                1 => {
                    let base = if t.chance(50) {
                        t.pick(QUOTED).to_string()
                    } else {
                        t.pick(PLAIN).to_string()
                    };
                    if self.used.contains(&base) || base.ends_with('_') || base.starts_with("_ZN") || base == "_R" || t.chance(30) {
                        // keep the end: hash-like ends matter
                        Name::plain(format!("g{}{}", n, base))
                    } else {
                        Name::plain(base)
                    }
                }
                2 => {
                    let k = t.range(1, 3);
                    let mut path: Vec<(String, String)> = (0..k)
                        .map(|_| t.pick(ELEMS))
                        .map(|(a, b)| (a.to_string(), b.to_string()))
                        .collect();
                    if t.chance(60) {
                        // otherwise the path may be shared with other functions
                        path.insert(0, (format!("m{}", n), format!("m{}", n)));
                    }
                    let seed = if t.chance(50) { n as u64 } else { t.u64() };
                    // different in every name
                    let hash = (seed << 8 | n as u64 & 0xff) ^ ((n as u64) << 40);
                    let suffix = match t.below(30) {
                        29 => format!(".llvm.{}", 1000 + n),
                        28 => format!(".{}", n),
                        _ => String::new(),
                    };
                    Name::legacy(&path, hash, &suffix)
                }
                _ => {
                    let k = *t.pick(&["app", "core", "my_crate"]);
                    let m = *t.pick(&["m", "fmt", "sub_mod"]);
                    Name::v0(k, *t.pick(&["1abc", "_", "kZ9"]), m, &format!("func{}", n))
                }
            };
            if name.full == "?" || self.used.contains(&name.sym) || self.used.contains(&name.full) {
                continue;
            }
            self.used.insert(name.sym.clone());
            self.used.insert(name.full.clone());
            return name;
        }
    }

    pub fn reserve(&mut self, n: Name) -> Option<Name> {
        if self.used.insert(n.sym.clone()) {
            self.used.insert(n.full.clone());
            Some(n)
        } else {
            None
        }
    }
}

// ---- types

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Sig {
    pub ret: Option<String>,
    pub params: Vec<String>,
}

impl Sig {
    pub fn label(&self) -> String {
        format!(
            "{} ({})*",
            self.ret.as_deref().unwrap_or("void"),
            self.params.join(", ")
        )
    }
}

const SCALARS: &[&str] = &["i32", "ptr", "i8", "i64", "i1", "i16", "i128", "float", "double"];
const COMPOUND: &[&str] = &[
    "{ i32, i32 }",
    "{ ptr, i32 }",
    "{ i32, ptr }",
    "[2 x i32]",
    "[4 x i8]",
    "{ i8, [3 x i8] }",
    "<4 x i32>",
    "<2 x i32>",
    "<{ i8, i32 }>",
    "{ { i32, i32 }, i8 }",
    "[2 x { i8, i8 }]",
    "{}",
    "[0 x i8]",
];

pub fn ty(t: &mut Tape) -> String {
    if t.chance(25) {
        t.pick(COMPOUND).to_string()
    } else {
        let i = t.below(SCALARS.len() * 2);
        SCALARS[i % SCALARS.len()].to_string()
    }
}

/// any type
pub fn rich(t: &mut Tape, depth: usize) -> String {
    let k = if depth == 0 { t.below(2) } else { t.weighted(&[25, 20, 12, 20, 12, 11]) };
    match k {
        0 => t.pick(SCALARS).to_string(),
        1 => format!("i{}", t.pick(&[24usize, 40, 56, 2, 3, 7, 31, 33, 48, 96, 127, 129, 256, 9, 80])),
        2 => format!("<{} x {}>", t.pick(&[2usize, 4, 8, 16, 3]), t.pick(&["i32", "i8", "i16", "float", "i64", "double", "ptr", "i1"])),
        3 => format!("[{} x {}]", t.pick(&[1usize, 2, 0, 3, 4, 10, 16, 100, 1024]), rich(t, depth - 1)),
        _ => {
            let n = t.weighted(&[4, 25, 40, 20, 11]);
            let f: Vec<String> = (0..n).map(|_| rich(t, depth - 1)).collect();
            let s = if f.is_empty() { "{}".to_string() } else { format!("{{ {} }}", f.join(", ")) };
            if k == 4 {
                s
            } else {
                format!("<{}>", s)
            }
        }
    }
}

const TYPED: &[&str] = &[
    "i8*",
    "i32*",
    "i8**",
    "{ i8*, i32 }*",
    "[0 x i8]*",
    "%\"core::fmt::Arguments<'_>\"*",
    "%Foo*",
    "{}*",
    "void ()*",
    "i32 (i8*, i32)*",
    "[3 x i32]*",
    "<2 x i32>*",
    "float*",
    "void ()* (i32)*",
    "i8* (i8*, ...)*",
    "void (void (i8*)*, i1 ({}*)*)*",
    "{ i8*, [3 x i64*] (i1)* }*",
    "i32 ()* ()* ()**",
    "%\"app::F<(u8, i32)>\"*",
];

/// the type with (some) opaque pointers replaced by typed pointers, which older versions of LLVM
/// have
fn typed(s: &str, t: &mut Tape, pct: u32) -> String {
    let mut out = String::new();
    let mut parts = s.split("ptr");
    out += parts.next().unwrap();
    for p in parts {
        out += if t.chance(pct) { *t.pick(TYPED) } else { "ptr" };
        out += p;
    }
    out
}

fn typed_sig(s: &Sig, t: &mut Tape, pct: u32) -> Sig {
    Sig {
        ret: s.ret.as_ref().map(|r| typed(r, t, pct)),
        params: s.params.iter().map(|p| typed(p, t, pct)).collect(),
    }
}

/// whether a function of one type can be behind a pointer to a function of the other type: an
/// opaque pointer can stand for every typed pointer
fn compatible(a: &Sig, b: &Sig) -> bool {
    let same = |a: &String, b: &String| a == b || (a == "ptr" && b.ends_with('*')) || (b == "ptr" && a.ends_with('*'));
    a.params.len() == b.params.len()
        && a.params.iter().zip(&b.params).all(|(a, b)| same(a, b))
        && match (&a.ret, &b.ret) {
            (None, None) => true,
            (Some(a), Some(b)) => same(a, b),
            _ => false,
        }
}

pub const FORMATTER: &str = "%\"core::fmt::Formatter\"*";

/// type of the receiver of something like `<T as Debug>::fmt`, with typed pointers
fn fmt_receiver(s: &Sig) -> Option<&str> {
    if s.ret.as_deref() == Some("i1") && s.params.len() == 2 && s.params[1] == FORMATTER {
        s.params[0].strip_suffix('*')
    } else {
        None
    }
}

/// the named type of which `ArgumentV1.formatter` has a pointer, out of the types of functions in a
/// program
fn true_void(keys: &BTreeSet<Sig>) -> Option<String> {
    let names: Vec<String> = keys
        .iter()
        .filter_map(|s| fmt_receiver(s)?.strip_prefix('%'))
        .filter(|n| !n.ends_with('*'))
        .map(|n| n.trim_matches('"').to_string())
        .collect();
    names
        .iter()
        .find(|n| *n == "fmt::Void")
        .or_else(|| names.iter().find(|n| n.starts_with("core::fmt::Void")))
        .or_else(|| names.first().filter(|_| names.len() == 1))
        .cloned()
}

/// types of functions that format, and of some that look like it
fn fmt_sigs(t: &mut Tape) -> Vec<Sig> {
    let void = *t.pick(&["%\"fmt::Void\"*", "%\"core::fmt::Void\"*", "%\"core::fmt::Void.12\"*", "%Foo*"]);
    (0..t.range(2, 6))
        .map(|_| {
            let mut s = Sig {
                ret: Some("i1".to_string()),
                params: vec![
                    t.pick(&[void, void, void, "i8*", "{}*", "[0 x i8]*", "%\"app::T\"*", "i8**", "%Foo*", "ptr"]).to_string(),
                    FORMATTER.to_string(),
                ],
            };
            if t.chance(35) {
                // nearly
                match t.below(7) {
                    0 => s.ret = None,
                    1 => s.ret = Some(t.pick(&["i8", "i1*", "i2"]).to_string()),
                    2 => s.params.push(t.pick(&["i32", FORMATTER]).to_string()),
                    3 => s.params.reverse(),
                    4 => {
                        s.params.remove(t.below(2));
                    }
                    _ => s.params[1] = t.pick(&["%\"app::Formatter\"*", "%Formatter*", "%\"core::fmt::Formatter\"**", "%\"core::fmt::Formatter\"", "i8*"]).to_string(),
                }
            }
            s
        })
        .collect()
}

/// a slightly different type
fn near_type(s: &str, t: &mut Tape) -> String {
    if s.ends_with('*') {
        let base = s.trim_end_matches('*');
        return match t.below(4) {
            0 => format!("{}*", s),
            1 if !base.ends_with(')') => base.to_string(),
            2 => "ptr".to_string(),
            _ => t.pick(TYPED).to_string(),
        };
    }
    let digits: Vec<usize> = s.char_indices().filter(|c| c.1.is_ascii_digit()).map(|c| c.0).collect();
    match t.below(6) {
        0 => format!("{{ {} }}", s),
        1 => format!("[1 x {}]", s),
        2 if s.starts_with("<{") => s[1..s.len() - 1].to_string(),
        2 if s.starts_with('{') => format!("<{}>", s),
        3 if s.starts_with('{') && s.len() > 2 => format!("{}, i8 }}", &s[..s.len() - 2]),
        4 if s.contains("ptr") => s.replacen("ptr", "i32", 1),
        _ if !digits.is_empty() => {
            // another number
            let at = *t.pick(&digits);
            let d = s.as_bytes()[at];
            let new = if d == b'1' { '2' } else { '1' };
            format!("{}{}{}", &s[..at], new, &s[at + 1..])
        }
        _ => format!("[2 x {}]", s),
    }
}

fn rich_sig(t: &mut Tape) -> Sig {
    let ret = if t.chance(60) { Some(rich(t, 2)) } else { None };
    let n = t.weighted(&[15, 35, 30, 20]);
    Sig {
        ret,
        params: (0..n).map(|_| rich(t, 3)).collect(),
    }
}

fn rich_near(s: &Sig, t: &mut Tape) -> Sig {
    let mut x = s.clone();
    if x.params.last().map(|p| p == "...") == Some(true) {
        x.params.pop();
        if t.chance(50) {
            return x;
        }
    }
    let k = t.below(x.params.len() + 1);
    if k < x.params.len() {
        if t.chance(15) {
            let p = x.params[k].clone();
            x.params.insert(k, p);
        } else if t.chance(15) {
            x.params.remove(k);
        } else {
            x.params[k] = near_type(&x.params[k], t);
        }
    } else {
        x.ret = match &x.ret {
            Some(r) if t.chance(70) => Some(near_type(r, t)),
            Some(_) => None,
            None => Some(rich(t, 2)),
        };
    }
    x
}

pub fn sig(t: &mut Tape) -> Sig {
    let ret = if t.chance(55) { Some(ty(t)) } else { None };
    let n = t.weighted(&[25, 35, 25, 15]);
    Sig {
        ret,
        params: (0..n).map(|_| ty(t)).collect(),
    }
}

/// something close to `s`
pub fn near(s: &Sig, t: &mut Tape) -> Sig {
    let mut x = s.clone();
    match t.below(6) {
        0 => x.params.push(ty(t)),
        1 => {
            x.params.pop();
        }
        2 => x.ret = if x.ret.is_some() { None } else { Some(ty(t)) },
        3 => {
            x.ret = Some(ty(t));
        }
        4 if !x.params.is_empty() => {
            let i = t.below(x.params.len());
            x.params[i] = ty(t);
        }
        _ => x.params.reverse(),
    }
    x
}

// ---- programs

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Module {
    App,
    Cb,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Callee {
    Func(usize, usize),
    Undef(usize),
    Dead(usize),
    /// a symbol that exists nowhere (only discarded functions may call it, except `memcmp`)
    Nowhere(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Family {
    Cpy,
    Move,
    Set,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Stmt {
    Call(Callee),
    Indirect(Sig),
    Mem(Family),
    /// intrinsic that calls nothing
    Nop(String),
    Asm(String),
}

#[derive(Clone, Debug)]
pub struct Def {
    pub module: Module,
    pub name: usize,
    pub sig: Sig,
    pub stmts: Vec<Stmt>,
}

#[derive(Clone, Debug)]
pub struct Decl {
    pub module: Module,
    pub name: usize,
    pub sig: Sig,
}

/// stack size recorded by the compiler
#[derive(Clone, Debug)]
pub struct Rec {
    pub val: u64,
    /// None: application object; Some: member of the archive
    pub member: Option<usize>,
    /// names the object knows the function by
    pub names: Vec<usize>,
}

#[derive(Clone, Debug)]
pub struct Func {
    pub names: Vec<Name>,
    /// whether a symbol has type FUNC (otherwise NOTYPE)
    pub is_func: Vec<bool>,
    pub global: Vec<bool>,
    pub addr: u64,
    pub size: u64,
    pub defs: Vec<Def>,
    pub decls: Vec<Decl>,
    /// names that are aliases, in the IR, of the first definition; not necessarily of the same type
    pub aliases: Vec<Decl>,
    pub rec: Option<Rec>,
    pub outlined: bool,
    /// inserted by the linker to reach this function
    pub thunk: Option<usize>,
    pub code: Option<Code>,
    /// the symbol table does not tell the size
    pub nosize: bool,
    /// and neither do the mapping symbols
    pub blind: bool,
}

impl Func {
    pub fn untyped(&self) -> bool {
        self.defs.is_empty() && self.decls.is_empty() && !self.hidden()
    }
    /// only called by machine code, never through pointers
    pub fn hidden(&self) -> bool {
        self.outlined || self.thunk.is_some()
    }
}

#[derive(Clone, Debug)]
pub struct Dead {
    pub name: Name,
    pub def: Def,
    pub rec: Option<Rec>,
}

/// a function of compiler_builtins that the application replaces by one of its own: not part of the
/// executable, although its name is
#[derive(Clone, Debug)]
pub struct Replaced {
    /// function and which of its names
    pub by: (usize, usize),
    pub def: Def,
    pub rec: Option<Rec>,
}

#[derive(Clone, Debug)]
pub struct Undef {
    pub name: Name,
    pub version: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Program {
    pub target: &'static str,
    pub funcs: Vec<Func>,
    pub dead: Vec<Dead>,
    pub replaced: Vec<Replaced>,
    pub undefs: Vec<Undef>,
    pub members: usize,
}

pub fn is_thumb(target: &str) -> bool {
    is_v6(target) || is_v7(target)
}
pub fn is_v6(target: &str) -> bool {
    target == "thumbv6m-none-eabi"
}
pub fn is_v7(target: &str) -> bool {
    target.starts_with("thumbv7")
}

// ---- expectations

#[derive(Clone, Debug)]
pub struct ENode {
    /// labels that are right
    pub labels: BTreeSet<String>,
    pub local: Option<u64>,
}

#[derive(Clone, Debug, Default)]
pub struct EDash {
    pub callers: BTreeSet<usize>,
    pub callees: BTreeSet<usize>,
    pub question: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Exp {
    /// functions of the program in order, then undefined functions that are called
    pub nodes: Vec<ENode>,
    pub edges: BTreeSet<(usize, usize)>,
    /// normalized label -> node
    pub dashed: BTreeMap<String, EDash>,
    /// nodes that call an unknown function
    pub question: BTreeSet<usize>,
    /// undefined function -> node
    pub undef_node: BTreeMap<usize, usize>,
    pub has_info: bool,
    pub untyped: bool,
    /// something is formatted through `fmt::Void`
    pub formatter: bool,
}

pub fn norm(label: &str) -> String {
    label.chars().filter(|c| !c.is_whitespace() && *c != '"').collect()
}

pub fn family_names(f: &Family) -> &'static [&'static str] {
    match f {
        Family::Cpy => &["memcpy", "__aeabi_memcpy", "__aeabi_memcpy4", "__aeabi_memcpy8"],
        Family::Move => &["memmove", "__aeabi_memmove", "__aeabi_memmove4", "__aeabi_memmove8"],
        Family::Set => &[
            "memset",
            "__aeabi_memset",
            "__aeabi_memset4",
            "__aeabi_memset8",
            "memclr",
            "__aeabi_memclr",
            "__aeabi_memclr4",
            "__aeabi_memclr8",
        ],
    }
}

impl Program {
    pub fn thumb(&self) -> bool {
        is_thumb(self.target)
    }

    /// right labels for a name; `called`: undefined functions that have a node
    fn labels_of_name(&self, n: &Name, me: Option<usize>, undef: Option<usize>, called: &BTreeSet<usize>, out: &mut BTreeSet<String>) {
        let Some(p) = &n.short else {
            out.insert(n.full.clone());
            return;
        };
        let mut surely = called
            .iter()
            .any(|u| Some(*u) != undef && self.undefs[*u].name.path() == p);
        let mut maybe = false;
        for (g, other) in self.funcs.iter().enumerate() {
            if Some(g) == me {
                continue;
            }
            let same = other.names.iter().filter(|m| m.path() == p).count();
            if same == other.names.len() {
                surely = true;
            } else if same > 0 {
                maybe = true;
            }
        }
        if surely || maybe {
            out.insert(n.full.clone());
        }
        if !surely {
            out.insert(p.clone());
        }
    }

    pub fn untyped(&self) -> bool {
        self.funcs
            .iter()
            .any(|f| f.untyped())
    }

    /// type of a function: definition, or else declaration
    pub fn sig_of(&self, f: usize) -> Option<&Sig> {
        let f = &self.funcs[f];
        f.defs
            .first()
            .map(|d| &d.sig)
            .or_else(|| f.decls.first().map(|d| &d.sig))
    }

    /// all its types: functions that are identical but for their types have been merged
    pub fn sigs_of(&self, f: usize) -> Vec<&Sig> {
        let func = &self.funcs[f];
        if func.defs.is_empty() {
            self.sig_of(f).into_iter().collect()
        } else {
            func.defs.iter().map(|d| &d.sig).chain(func.aliases.iter().map(|d| &d.sig)).collect()
        }
    }

    pub fn local_of(&self, i: usize) -> Option<u64> {
        let f = &self.funcs[i];
        let rec = f.rec.as_ref().map(|r| r.val);
        match &f.code {
            Some(_) if f.blind && rec.is_none() => None,
            Some(code) if self.thumb() && !f.blind => {
                let facts = thumb::facts(code, i);
                match rec {
                    None => facts.unrecorded(),
                    Some(n) => {
                        let asm = f
                            .defs
                            .iter()
                            .any(|d| d.stmts.iter().any(|s| matches!(s, Stmt::Asm(_))));
                        match facts.straight() {
                            Some(k) if asm || (f.outlined && n == 0) => Some(k),
                            None if asm && n == 0 && facts.modifies() => None,
                            _ if f.outlined => Some(n),
                            _ => Some(n + facts.lr_extra()),
                        }
                    }
                }
            }
            _ => rec,
        }
    }

    pub fn expect(&self) -> Exp {
        let mut e = Exp::default();
        for i in 0..self.funcs.len() {
            e.nodes.push(ENode {
                labels: BTreeSet::new(),
                local: self.local_of(i),
            });
        }
        e.has_info = self.funcs.iter().any(|f| f.rec.is_some());
        e.untyped = self.untyped();
        let by_name = |n: &str| -> Option<usize> {
            self.funcs
                .iter()
                .position(|f| f.names.iter().any(|x| x.sym == n))
        };
        let mut calls: Vec<(usize, Callee)> = vec![];
        let mut indirect: Vec<(usize, Sig)> = vec![];
        for (i, f) in self.funcs.iter().enumerate() {
            for d in &f.defs {
                for s in &d.stmts {
                    match s {
                        Stmt::Call(c) => calls.push((i, c.clone())),
                        Stmt::Indirect(s) => indirect.push((i, s.clone())),
                        Stmt::Mem(fam) if !self.thumb() => {
                            for n in family_names(fam) {
                                if let Some(g) = by_name(n) {
                                    calls.push((i, Callee::Func(g, 0)));
                                } else if let Some(u) =
                                    self.undefs.iter().position(|u| u.name.sym == *n)
                                {
                                    calls.push((i, Callee::Undef(u)));
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
            if self.thumb() && !f.blind {
                if let Some(code) = &f.code {
                    let facts = thumb::facts(code, i);
                    for c in facts.callees {
                        e.edges.insert((i, c));
                    }
                    if facts.indirect && f.defs.is_empty() {
                        e.question.insert(i);
                    }
                }
            }
        }
        for (i, c) in calls {
            match c {
                Callee::Func(g, _) => {
                    e.edges.insert((i, g));
                }
                Callee::Undef(u) => {
                    let k = *e.undef_node.entry(u).or_insert_with(|| {
                        e.nodes.push(ENode {
                            labels: BTreeSet::new(),
                            local: None,
                        });
                        e.nodes.len() - 1
                    });
                    e.edges.insert((i, k));
                }
                Callee::Dead(_) | Callee::Nowhere(_) => {}
            }
        }
        let with_node: BTreeSet<usize> = e.undef_node.keys().copied().collect();
        for (i, f) in self.funcs.iter().enumerate() {
            // any of the names will do
            for n in &f.names {
                self.labels_of_name(n, Some(i), None, &with_node, &mut e.nodes[i].labels);
            }
        }
        for (u, k) in &e.undef_node {
            self.labels_of_name(&self.undefs[*u].name, None, Some(*u), &with_node, &mut e.nodes[*k].labels);
        }
        // there is a node per type of function
        let types: BTreeSet<Sig> = (0..self.funcs.len()).flat_map(|g| self.sigs_of(g)).cloned().collect();
        let mut all_types = types.clone();
        for (_, s) in &indirect {
            if !types.iter().any(|k| compatible(k, s)) {
                all_types.insert(s.clone());
            }
        }
        let void = true_void(&all_types);
        for (i, s) in indirect {
            let mut keys: Vec<Sig> = types.iter().filter(|k| compatible(k, &s)).cloned().collect();
            if keys.is_empty() {
                keys.push(s);
            }
            for s in keys {
                let mut d = EDash::default();
                // `ArgumentV1.formatter`, which points to functions with any kind of receiver
                let formatter = void.is_some() && fmt_receiver(&s).map(|r| r.trim_matches(['%', '"'])) == void.as_deref();
                for g in 0..self.funcs.len() {
                    if self.sigs_of(g).into_iter().any(|sig| if formatter { fmt_receiver(sig).is_some() } else { *sig == s }) {
                        d.callees.insert(g);
                    }
                }
                let mut s = s;
                if formatter {
                    s.params[0] = "%\"fmt::Void\"*".into();
                    e.formatter = true;
                }
                d.question = e.untyped || d.callees.is_empty();
                let slot = e.dashed.entry(norm(&s.label())).or_insert(d);
                slot.callers.insert(i);
            }
        }
        e
    }

    pub fn describe(&self) -> String {
        let mut s = format!("target {}", self.target);
        for (i, f) in self.funcs.iter().enumerate() {
            s += &format!(
                "; F{} {:?} @{:#x}+{}",
                i,
                f.names.iter().map(|n| &n.sym[..]).collect::<Vec<_>>(),
                f.addr,
                f.size
            );
            if let Some(r) = &f.rec {
                s += &format!(" rec {}", r.val);
                if let Some(m) = r.member {
                    s += &format!("(cb{})", m);
                }
            }
            for d in &f.defs {
                s += &format!(" define{} {}", if d.module == Module::Cb { "(cb)" } else { "" }, d.sig.label());
                for st in &d.stmts {
                    s += " ";
                    s += &match st {
                        Stmt::Call(Callee::Func(g, k)) => format!("call F{}.{}", g, k),
                        Stmt::Call(Callee::Undef(u)) => format!("call U{}", u),
                        Stmt::Call(Callee::Dead(u)) => format!("call D{}", u),
                        Stmt::Call(Callee::Nowhere(n)) => format!("call {}", n),
                        Stmt::Indirect(s) => format!("icall {}", s.label()),
                        Stmt::Mem(f) => format!("llvm.mem{:?}", f),
                        Stmt::Nop(n) => n.clone(),
                        Stmt::Asm(a) => format!("asm {:?}", a),
                    };
                }
            }
            for d in &f.decls {
                s += &format!(" declare {}", d.sig.label());
            }
            for d in &f.aliases {
                s += &format!(" .{} alias {}", d.name, d.sig.label());
            }
            if let Some(c) = &f.code {
                let items: Vec<String> = c.iter().take(12).map(|x| format!("{:x?}", x)).collect();
                s += &format!(" code[{}] {}", c.len(), items.join(" "));
            }
        }
        for (i, u) in self.undefs.iter().enumerate() {
            s += &format!("; U{} {}{}", i, u.name.sym, u.version.as_deref().unwrap_or(""));
        }
        for (i, d) in self.dead.iter().enumerate() {
            s += &format!("; dead D{} {}", i, d.name.sym);
        }
        for r in &self.replaced {
            s += &format!("; F{}.{} replaces (cb) {} {} statements rec {:?}", r.by.0, r.by.1, r.def.sig.label(), r.def.stmts.len(), r.rec.as_ref().map(|r| r.val));
        }
        s
    }
}

/// What a check wants to see in its programs
#[derive(Clone)]
pub struct Opts {
    pub targets: &'static [&'static str],
    pub max_funcs: usize,
    pub max_stmts: usize,
    pub names: (u32, u32), // weird, mangled
    pub alias: u32,
    pub undef: usize,
    pub dead: usize,
    pub indirect: u32, // % of statements
    pub mem: u32,
    pub nop: u32,
    pub asm: u32,
    pub untyped: u32, // % of programs that have untyped functions
    pub no_info: u32, // % of programs without any stack usage information
    pub unknown: u32, // % of programs in which some functions have no record
    pub acyclic: u32, // % of programs without recursion
    pub big: u32,     // % of recorded values that are large
    pub double_def: u32,
    pub mem_names: u32,
    /// % of untyped functions on Thumb that have the same name as another one
    pub dup: u32,
    /// % of functions without recorded usage on Thumb that have no size
    pub nosize: u32,
    /// % of programs in which nothing uses the stack
    pub zero: u32,
    /// arbitrary nested types
    pub rich_types: bool,
    /// also intrinsics that only make sense on some targets
    pub more_intrinsics: bool,
    /// % of functions on Thumb that are thunks of the linker
    pub thunks: u32,
    /// % of programs that replace functions of compiler_builtins
    pub replace: u32,
}

pub const OTHER: &[&str] = &[
    "riscv32imac-unknown-none-elf",
    "x86_64-unknown-linux-gnu",
    "armv7r-none-eabi",
    "thumbv8m.main-none-eabi",
    "aarch64-unknown-none-softfloat",
    "i686-unknown-linux-gnu",
    "riscv64gc-unknown-linux-gnu",
];
pub const THUMB: &[&str] = &[
    "thumbv7m-none-eabi",
    "thumbv6m-none-eabi",
    "thumbv7em-none-eabi",
    "thumbv7em-none-eabihf",
];
pub const ANY: &[&str] = &[
    "riscv32imac-unknown-none-elf",
    "x86_64-unknown-linux-gnu",
    "thumbv7m-none-eabi",
    "armv7r-none-eabi",
    "thumbv6m-none-eabi",
    "thumbv8m.main-none-eabi",
    "aarch64-unknown-none-softfloat",
    "thumbv7em-none-eabi",
    "i686-unknown-linux-gnu",
    "thumbv7em-none-eabihf",
    "riscv64gc-unknown-linux-gnu",
];

impl Default for Opts {
    fn default() -> Self {
        Opts {
            targets: ANY,
            max_funcs: 10,
            max_stmts: 5,
            names: (15, 45),
            alias: 25,
            undef: 2,
            dead: 2,
            indirect: 15,
            mem: 5,
            nop: 8,
            asm: 3,
            untyped: 25,
            no_info: 3,
            unknown: 40,
            acyclic: 50,
            big: 10,
            double_def: 3,
            mem_names: 30,
            dup: 0,
            nosize: 0,
            zero: 6,
            rich_types: false,
            more_intrinsics: false,
            thunks: 0,
            replace: 12,
        }
    }
}

pub const NOPS: &[&str] = &[
    "llvm.dbg.value",
    "llvm.dbg.declare",
    "llvm.assume",
    "llvm.trap",
    "llvm.lifetime.start.p0",
    "llvm.lifetime.end.p0",
    "llvm.experimental.noalias.scope.decl",
    "llvm.abs.i32",
    "llvm.bitreverse.i8",
    "llvm.bswap.i32",
    "llvm.bswap.v4i32",
    "llvm.ctlz.i32",
    "llvm.ctpop.i64",
    "llvm.cttz.i64",
    "llvm.fshl.i32",
    "llvm.fshr.i64",
    "llvm.sadd.sat.i8",
    "llvm.ssub.sat.i16",
    "llvm.uadd.sat.i32",
    "llvm.usub.sat.i32",
    "llvm.smax.i32",
    "llvm.smin.i8",
    "llvm.umax.i32",
    "llvm.umin.i64",
    "llvm.sadd.with.overflow.i32",
    "llvm.ssub.with.overflow.i32",
    "llvm.smul.with.overflow.i64",
    "llvm.uadd.with.overflow.i32",
    "llvm.usub.with.overflow.i128",
    "llvm.umul.with.overflow.i32",
    "llvm.vector.reduce.add.v4i32",
];

/// the same for some other type
fn nop(t: &mut Tape) -> String {
    // some families often, so that a program contains several of their members
    let n = if t.chance(30) { *t.pick(&["llvm.umul.with.overflow.i32", "llvm.ctlz.i32"]) } else { *t.pick(NOPS) };
    let Some((stem, last)) = n.rsplit_once('.') else { return n.to_string() };
    let typed = last.len() > 1 && last[1..].bytes().all(|b| b.is_ascii_digit()) || last.starts_with("v4");
    if !typed || !t.chance(50) {
        return n.to_string();
    }
    let mut stem = stem.to_string();
    if stem.ends_with(".reduce.add") && t.chance(80) {
        let op = *t.pick(&["mul", "and", "or", "xor", "smax", "smin", "umax", "umin", "fadd", "fmax"]);
        stem = stem.replace(".add", &format!(".{}", op));
    }
    let ty = if stem.contains(".reduce.f") {
        *t.pick(&["v4f32", "v2f64"])
    } else if stem.contains(".reduce.") {
        *t.pick(&["v4i32", "v16i8", "v8i16", "v2i64", "v4i1"])
    } else if stem.ends_with(".start") || stem.ends_with(".end") {
        *t.pick(&["p0", "p0i8", "p1"])
    } else {
        *t.pick(&["i8", "i16", "i32", "i64", "i128", "i24", "v4i32", "v16i8", "v2i64"])
    };
    format!("{}.{}", stem, ty)
}

/// machine code tells what these become
pub const THUMB_NOPS: &[&str] = &[
    "llvm.floor.f64",
    "llvm.fma.f32",
    "llvm.sqrt.f32",
    "llvm.powi.f32",
    "llvm.expect.i1",
    "llvm.umul.fix.i32",
    "llvm.memcmp.p0",
    "llvm.arm.hint",
    "llvm.pow.f64",
    "llvm.fptosi.sat.i32",
];

/// value the compiler could record
pub fn stack_value(t: &mut Tape, big: u32) -> u64 {
    if t.chance(big) {
        match t.below(5) {
            0 => 4 * t.range(32, 1024) as u64,
            1 => t.below(1 << 20) as u64,
            2 => t.raw() as u64,
            3 => t.u64() >> 16,
            _ => *t.pick(&[127u64, 128, 16383, 16384, 2097151, 2097152, 0xffff_ffff, 0x1_0000_0000, 1 << 40, 255, 256, 65535, 65536]),
        }
    } else {
        match t.below(4) {
            0 => 0,
            1 => 8 * t.range(1, 8) as u64,
            2 => 4 * t.range(1, 100) as u64,
            _ if t.chance(15) => 1,
            _ => t.range(1, 300) as u64,
        }
    }
}

pub fn generate(t: &mut Tape, o: &Opts) -> Program {
    let target = *t.pick(o.targets);
    let thumb = is_thumb(target);
    let v7 = is_v7(target);
    let n = if t.chance(2) { 0 } else { t.range(1, o.max_funcs) };
    let mut namer = Namer::new();
    namer.weird = o.names.0;
    namer.mangled = o.names.1;
    let mut p = Program {
        target,
        funcs: vec![],
        dead: vec![],
        replaced: vec![],
        undefs: vec![],
        members: 0,
    };
    let acyclic = t.chance(o.acyclic);
    let untyped = t.chance(o.untyped);
    let unknown = t.chance(o.unknown);
    let no_info = t.chance(o.no_info);
    let all_zero = t.chance(o.zero);
    let members = t.below(4);
    p.members = members;

    // signatures
    let nsigs = t.range(1, 4);
    let mut sigs = vec![Sig {
        ret: None,
        params: vec![],
    }];
    let pointers = if o.rich_types { *t.pick(&[0, 0, 0, 50, 100]) } else { 0 };
    for _ in 1..nsigs {
        let s = if t.chance(60) {
            let i = t.below(sigs.len());
            let b = sigs[i].clone();
            if o.rich_types {
                rich_near(&b, t)
            } else {
                near(&b, t)
            }
        } else if o.rich_types {
            rich_sig(t)
        } else {
            sig(t)
        };
        let mut s = s;
        if o.rich_types && !s.params.contains(&"...".to_string()) && t.chance(10) {
            s.params.push("...".into());
        }
        // functions of a variable number of arguments that return a pointer to a function are beyond
        // what rustc ever emitted
        if s.params.contains(&"...".to_string()) && s.ret.as_ref().map_or(false, |r| r.contains(")*")) {
            s.ret = Some("i8*".into());
        }
        if pointers > 0 && !s.params.contains(&"...".to_string()) {
            let s2 = typed_sig(&s, t, pointers);
            if s2 != s && t.chance(60) {
                sigs.push(s2);
            } else {
                s = s2;
            }
        }
        sigs.push(s);
    }

    if pointers > 0 && t.chance(25) {
        sigs.extend(fmt_sigs(t));
    }

    // functions, without bodies
    for _ in 0..n {
        let mut names = vec![];
        let mut is_func = vec![];
        let mut global = vec![];
        let mut outlined = false;
        let k = if t.chance(o.alias) { t.range(2, 4) } else { 1 };
        for j in 0..k {
            let mut name = None;
            if t.chance(o.mem_names / 3) {
                let fam = t.pick(&[Family::Cpy, Family::Move, Family::Set]).clone();
                let m = *t.pick(family_names(&fam));
                name = namer.reserve(Name::plain(if t.chance(12) { "memcmp" } else { m }));
            } else if j == 0 && k == 1 && thumb && t.chance(4) {
                name = namer.reserve(Name::plain(format!("OUTLINED_FUNCTION_{}", if t.chance(50) { t.below(5) } else { *t.pick(&[9, 10, 11, 27, 99, 100, 1234]) })));
                outlined = name.is_some();
            } else if t.chance(3) {
                name = namer.reserve(Name::plain(*t.pick(LOOKALIKES)));
            }
            names.push(name.unwrap_or_else(|| namer.gen(t)));
            is_func.push(j == 0 || t.chance(60));
            global.push(t.chance(70));
        }
        p.funcs.push(Func {
            names,
            is_func,
            global,
            addr: 0,
            size: 0,
            defs: vec![],
            decls: vec![],
            aliases: vec![],
            rec: None,
            outlined,
            thunk: None,
            code: None,
            nosize: false,
            blind: false,
        });
    }
    if thumb && o.thunks > 0 {
        for i in 0..n {
            let lo = if acyclic { i + 1 } else { 0 };
            if lo >= n || p.funcs[i].outlined || p.funcs[i].names.len() > 1 || !t.chance(o.thunks) {
                continue;
            }
            let g = lo + t.below(n - lo);
            if g == i || p.funcs[g].thunk.is_some() || p.funcs.iter().any(|f| f.thunk == Some(i)) {
                continue;
            }
            let k = t.below(p.funcs[g].names.len());
            let sym = format!("{}{}", thumb::thunk_prefix(t.below(2), v7), p.funcs[g].names[k].sym);
            if let Some(name) = namer.reserve(Name::plain(sym)) {
                p.funcs[i].names = vec![name];
                p.funcs[i].is_func[0] = true;
                p.funcs[i].thunk = Some(g);
            }
        }
    }
    for _ in 0..t.below(o.undef + 1) {
        let mut name = None;
        if t.chance(o.mem_names) {
            let fam = t.pick(&[Family::Cpy, Family::Move, Family::Set]).clone();
            let m = *t.pick(family_names(&fam));
            name = namer.reserve(Name::plain(if t.chance(15) { "memcmp" } else { m }));
        }
        let name = name.unwrap_or_else(|| namer.gen(t));
        let version = if t.chance(30) {
            Some(t.pick(&["@@GLIBC_2.2.5", "@@GCC_3.0", "@@V", "@GLIBC_2.14", "@V_1"]).to_string())
        } else {
            None
        };
        p.undefs.push(Undef { name, version });
    }
    let ndead = t.below(o.dead + 1);
    for _ in 0..ndead {
        let name = namer.gen(t);
        let module = if t.chance(25) { Module::Cb } else { Module::App };
        let s = t.pick(&sigs).clone();
        p.dead.push(Dead {
            name,
            def: Def {
                module,
                name: 0,
                sig: s,
                stmts: vec![],
            },
            rec: None,
        });
    }

    let stmt = |t: &mut Tape, p: &Program, me: Option<usize>, sigs: &[Sig]| -> Stmt {
        let r = t.below(100) as u32;
        let (a, b, c, d) = (o.asm, o.nop, o.mem, o.indirect);
        if r >= 100 - a {
            return Stmt::Asm(t.pick(&["nop", "bl foo", "call foo", "svc 0", "push {r0}", "", "cpsid i", "@ call void @f()"]).to_string());
        } else if r >= 100 - a - b {
            if o.more_intrinsics {
                if target.starts_with("x86_64") && t.chance(8) {
                    return Stmt::Nop(t.pick(&["llvm.x86.sse2.pause", "llvm.x86.sse2.pmovmskb.128"]).to_string());
                }
                if thumb && t.chance(25) {
                    return Stmt::Nop(t.pick(THUMB_NOPS).to_string());
                }
            }
            return Stmt::Nop(nop(t));
        } else if r >= 100 - a - b - c {
            return Stmt::Mem(t.pick(&[Family::Cpy, Family::Move, Family::Set]).clone());
        } else if r >= 100 - a - b - c - d {
            return Stmt::Indirect(if t.chance(10) { sig(t) } else { t.pick(sigs).clone() });
        }
        if me.is_none() && t.chance(30) {
            if !p.dead.is_empty() && t.chance(70) {
                return Stmt::Call(Callee::Dead(t.below(p.dead.len())));
            }
            return Stmt::Call(Callee::Nowhere("nowhere_to_be_found".into()));
        }
        if !p.undefs.is_empty() && t.chance(8) {
            return Stmt::Call(Callee::Undef(t.below(p.undefs.len())));
        }
        let lo = match me {
            Some(i) if acyclic => i + 1,
            _ => 0,
        };
        if lo >= p.funcs.len() {
            return Stmt::Nop(NOPS[2].to_string());
        }
        let g = lo + t.below(p.funcs.len() - lo);
        // the outliner's functions are called by machine code only
        if p.funcs[g].hidden() {
            return Stmt::Nop(NOPS[3].to_string());
        }
        let k = t.below(p.funcs[g].names.len());
        Stmt::Call(Callee::Func(g, k))
    };

    for i in 0..n {
        let outlined = p.funcs[i].outlined;
        let thunk = p.funcs[i].thunk.is_some();
        // 0: defined in the application; 1: in compiler_builtins; 2: declared only; 3: no IR
        let kind = if outlined || thunk || (o.untyped > 0 && p.funcs[i].names.iter().any(|n| LOOKALIKES.contains(&&n.sym[..])) && t.chance(50)) {
            3
        } else {
            t.weighted(&[70, if members > 0 { 15 } else { 0 }, if untyped { 10 } else { 15 }, if untyped { 15 } else { 0 }])
        };
        let module = if kind == 1 { Module::Cb } else { Module::App };
        if kind < 2 {
            let name = t.below(p.funcs[i].names.len());
            let s = t.pick(&sigs).clone();
            let k = t.below(o.max_stmts + 1);
            let mut stmts: Vec<Stmt> = vec![];
            for _ in 0..k {
                if !stmts.is_empty() && t.chance(12) {
                    // called more than once
                    let j = t.below(stmts.len());
                    stmts.push(stmts[j].clone());
                } else {
                    stmts.push(stmt(t, &p, Some(i), &sigs));
                }
            }
            p.funcs[i].defs.push(Def {
                module,
                name,
                sig: s.clone(),
                stmts,
            });
            if p.funcs[i].names.len() > 1 && t.chance(o.double_def) {
                // two identical functions merged by the linker
                let other = (name + 1) % p.funcs[i].names.len();
                let st = stmt(t, &p, Some(i), &sigs);
                p.funcs[i].defs.push(Def {
                    module,
                    name: other,
                    sig: if t.chance(30) { t.pick(&sigs).clone() } else { s.clone() },
                    stmts: vec![st],
                });
            }
            if kind == 1 && t.chance(50) {
                let s2 = if t.chance(10) { sig(t) } else { s };
                let nm = if t.chance(80) { name } else { t.below(p.funcs[i].names.len()) };
                p.funcs[i].decls.push(Decl {
                    module: Module::App,
                    name: nm,
                    sig: s2,
                });
            }
        } else if kind == 2 {
            let name = t.below(p.funcs[i].names.len());
            let s = t.pick(&sigs).clone();
            p.funcs[i].decls.push(Decl {
                module: Module::App,
                name,
                sig: s.clone(),
            });
            if t.chance(10) {
                p.funcs[i].decls.push(Decl {
                    module: Module::Cb,
                    name,
                    sig: s,
                });
            }
        }

        // stack usage
        let recorded = !thunk && !no_info && (!unknown || t.chance(70)) && (outlined || kind < 3 || t.chance(25));
        if recorded {
            let val = if outlined || all_zero { 0 } else { stack_value(t, o.big) };
            let member = if members > 0 && (kind == 1 || t.chance(15)) {
                Some(t.below(members))
            } else {
                None
            };
            let mut names = vec![t.below(p.funcs[i].names.len())];
            for j in 0..p.funcs[i].names.len() {
                if !names.contains(&j) && t.chance(40) {
                    names.push(j);
                }
            }
            p.funcs[i].rec = Some(Rec { val, member, names });
        }
    }
    // one value may need all 64 bits
    if !thumb && t.chance(o.big / 4) && !p.funcs.is_empty() {
        let i = t.below(p.funcs.len());
        if let Some(r) = p.funcs[i].rec.as_mut().filter(|r| r.val != 0) {
            r.val = *t.pick(&[1u64 << 63, (1 << 63) - 1, (1 << 63) + 8, 3 << 62, 1 << 62]);
        }
    }
    for i in 0..p.dead.len() {
        for _ in 0..t.below(3) {
            let s = stmt(t, &p, None, &sigs);
            p.dead[i].def.stmts.push(s);
        }
        if !no_info && t.chance(50) {
            let val = stack_value(t, o.big);
            let member = if members > 0 && t.chance(50) { Some(t.below(members)) } else { None };
            p.dead[i].rec = Some(Rec {
                val,
                member,
                names: vec![0],
            });
        }
    }

    // functions that are called by name are declared at least
    let mut called: Vec<(usize, usize)> = vec![];
    for d in p.funcs.iter().flat_map(|f| &f.defs).chain(p.dead.iter().map(|d| &d.def)) {
        for s in &d.stmts {
            if let Stmt::Call(Callee::Func(g, k)) = s {
                called.push((*g, *k));
            }
        }
    }
    for (g, k) in called {
        let f = &p.funcs[g];
        if f.untyped() {
            let sg = t.pick(&sigs).clone();
            p.funcs[g].decls.push(Decl {
                module: Module::App,
                name: k,
                sig: sg,
            });
        }
    }
    if thumb && o.dup > 0 {
        for i in 1..n {
            let bare = |f: &Func| f.defs.is_empty() && f.decls.is_empty() && f.names.len() == 1 && f.thunk.is_none();
            let far = |i: usize| p.funcs.iter().any(|f| f.thunk == Some(i));
            if bare(&p.funcs[i]) && !far(i) && t.chance(o.dup) {
                let j = (0..i).find(|j| bare(&p.funcs[*j]) && !far(*j) && p.funcs[*j].outlined == p.funcs[i].outlined);
                if let Some(j) = j {
                    p.funcs[i].names = p.funcs[j].names.clone();
                    p.funcs[i].rec = p.funcs[j].rec.clone();
                    p.funcs[i].global[0] = false;
                }
            }
        }
    }

    for i in 0..n {
        for k in 0..p.funcs[i].names.len() {
            let f = &p.funcs[i];
            let taken = f.defs.iter().map(|d| d.name).chain(f.decls.iter().map(|d| d.name)).any(|x| x == k);
            if f.defs.is_empty() || taken || !t.chance(40) {
                continue;
            }
            let (module, sig) = (f.defs[0].module, f.defs[0].sig.clone());
            let sig = if t.chance(50) { t.pick(&sigs).clone() } else { sig };
            p.funcs[i].aliases.push(Decl { module, name: k, sig });
        }
    }

    if t.chance(o.replace) {
        for i in 0..n {
            let f = &p.funcs[i];
            let k = t.below(f.names.len());
            let name = &f.names[k].sym;
            let ours = !f.hidden() && f.defs.iter().all(|d| d.module == Module::App) && f.rec.iter().all(|r| r.member.is_none());
            let unique = !name.starts_with('$') && !p.funcs.iter().enumerate().any(|(j, g)| j != i && g.names.iter().any(|x| x.sym == *name));
            if !ours || !unique || !t.chance(40) {
                continue;
            }
            let mut stmts = vec![];
            for _ in 0..t.below(4) {
                stmts.push(stmt(t, &p, None, &sigs));
            }
            let rec = if members > 0 && t.chance(80) {
                Some(Rec {
                    val: stack_value(t, o.big),
                    member: Some(t.below(members)),
                    names: vec![k],
                })
            } else {
                None
            };
            p.replaced.push(Replaced {
                by: (i, k),
                def: Def {
                    module: Module::Cb,
                    name: k,
                    sig: t.pick(&sigs).clone(),
                    stmts,
                },
                rec,
            });
        }
    }

    // machine code that agrees with the records
    if thumb {
        let mut nz = t.noise();
        for i in 0..n {
            let lo = if acyclic { i + 1 } else { 0 };
            let code = match p.funcs[i].thunk {
                Some(g) => thumb::thunk(g, v7),
                None => consistent_code(t, &mut nz, &p, i, v7, lo),
            };
            let plain = !code.iter().any(|x| matches!(x, thumb::Item::Data(_) | thumb::Item::Address(_)));
            p.funcs[i].code = Some(code);
            if p.funcs[i].rec.is_none() && p.funcs[i].thunk.is_none() && t.chance(o.nosize) {
                p.funcs[i].nosize = true;
                // data hides where it ends
                p.funcs[i].blind = !plain;
            }
        }
    }
    place(t, &mut p);
    p
}

/// makes functions share a path, up to the hash
pub fn share_paths(t: &mut Tape, p: &mut Program, pct: u32) -> bool {
    let mut same = false;
    for i in 1..p.funcs.len() {
        if t.chance(pct) && p.funcs[i].names.len() == 1 && !p.funcs[i].outlined {
            let j = t.below(i);
            if let Some(Name { sym, short: Some(s), .. }) = p.funcs[j].names.first().cloned() {
                let Some(at) = sym.rfind("17h") else { continue };
                if sym.len() != at + 3 + 16 + 1 {
                    continue;
                }
                let h = (0xabc0 + i as u64) << 44 | 0x123;
                let name = Name {
                    sym: format!("{}17h{:016x}E", &sym[..at], h),
                    full: format!("{}::h{:016x}", s, h),
                    short: Some(s),
                };
                if p.funcs.iter().any(|f| f.names.iter().any(|n| n.sym == name.sym)) {
                    continue;
                }
                p.funcs[i].names[0] = name;
                same = true;
            }
        }
    }
    same
}

/// code for function `i` that contradicts nothing that is recorded for it
fn consistent_code(t: &mut Tape, nz: &mut Noise, p: &Program, i: usize, v7: bool, lo: usize) -> Code {
    use thumb::{Enc, Item, Target};
    let f = &p.funcs[i];
    let n = p.funcs.len();
    let mut code: Code = vec![];
    let rec = f.rec.as_ref().map(|r| r.val);
    let asm = f.defs.iter().any(|d| d.stmts.iter().any(|s| matches!(s, Stmt::Asm(_))));
    let mut internal = false;
    match rec {
        Some(v) => match thumb::alloc_exactly(v, nz, v7) {
            Some(c) => code.extend(c),
            None => {
                // cannot be done straight
                code.push(thumb::alloc_some(nz, v7));
                internal = true;
            }
        },
        None => {
            for _ in 0..t.below(3) {
                code.push(thumb::alloc(nz, v7));
            }
        }
    }
    let straight = !internal;
    if rec.is_some() && (asm || f.outlined) && straight && t.chance(60) {
        // the compiler's number is off
        code.push(thumb::alloc(nz, v7));
    } else if t.chance(30) || internal {
        internal = true;
    }
    for _ in 0..nz.below(4) {
        code.push(thumb::opaque(nz, v7));
    }
    let calls = t.below(3);
    for _ in 0..calls {
        if lo < n {
            let g = lo + t.below(n - lo);
            let e = if v7 && g != i && t.chance(30) { Enc::T4 } else { Enc::Bl };
            code.push(Item::Branch(e, Target::Func(g)));
        }
        if nz.chance(30) {
            code.push(thumb::opaque(nz, v7));
        }
    }
    if f.defs.is_empty() && !f.outlined && t.chance(12) {
        // any register but SP and PC
        let reg = *nz.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 12, 12, 14u16]);
        code.push(Item::Indirect(0x4780 | reg << 3));
    }
    if internal {
        // a loop
        let at = code.len();
        code.push(Item::H(if v7 { 0xbf00 } else { 0x46c0 }));
        code.push(Item::Branch(Enc::T1(nz.below(14) as u8), Target::Item(at)));
    }
    code.push(Item::H(0x4770));
    if nz.chance(25) {
        code.push(Item::Data(thumb::data(nz, 4)));
    }
    code
}

/// addresses
pub fn place(t: &mut Tape, p: &mut Program) {
    let thumb_bit = p.target.starts_with("thumb");
    let is64 = p.target.starts_with("x86_64") || p.target.starts_with("aarch64") || p.target.starts_with("riscv64");
    let base: u64 = match t.below(5) {
        0 => 0x8000_0000 >> 4,
        1 => {
            if thumb_bit {
                0
            } else {
                0x1000
            }
        }
        2 => 0x2000_0000,
        3 => {
            if is64 {
                0xffff_8000_0000_0000
            } else {
                0x9000_0000
            }
        }
        _ => 0x40_0000,
    };
    let mut nz = t.noise();
    let mut addr = base;
    let mut order: Vec<usize> = (0..p.funcs.len()).collect();
    nz.shuffle(&mut order);
    for i in order {
        let f = &mut p.funcs[i];
        let size = match &f.code {
            Some(c) => thumb::size(c) as u64,
            None => 2 * nz.range(1, 40) as u64,
        };
        f.addr = addr;
        f.size = size;
        addr += (size + 3) & !3;
        if f.blind {
            addr += 4;
        }
        if nz.chance(30) {
            addr += 4 * nz.range(1, 64) as u64;
        }
    }
}

/// other addresses: anywhere, split up in regions that branches can still reach
pub fn place_anywhere(t: &mut Tape, p: &mut Program) {
    let base: u64 = *t.pick(&[0u64, 0x0800_0000, 0x2000_0000, 0x9000_0000, 0x40, 0x1fff_0000, 0xfe00_0000, 0x7fff_f000]);
    let regions = t.range(1, 3);
    let span = *t.pick(&[0x400u64, 0x1_0000, 0x20_0000, 0x70_0000]);
    let mut nz = t.noise();
    let mut next: Vec<u64> = (0..regions as u64).map(|r| base + r * span).collect();
    let mut order: Vec<usize> = (0..p.funcs.len()).collect();
    nz.shuffle(&mut order);
    let tight = nz.chance(30);
    for i in order {
        let f = &mut p.funcs[i];
        let size = match &f.code {
            Some(c) => thumb::size(c) as u64,
            None => 2 * nz.range(1, 40) as u64,
        };
        let r = nz.below(regions);
        // regions do not run into each other
        let room = |r: usize| r + 1 == regions || next[r] + size + 0x200 < base + (r as u64 + 1) * span;
        let r = if room(r) { r } else { regions - 1 };
        f.addr = next[r];
        f.size = size;
        next[r] += if tight { (size + 1) & !1 } else { (size + 3) & !3 };
        if f.blind {
            next[r] += 4;
        }
        if !tight && nz.chance(30) {
            next[r] += 2 * nz.range(1, 100) as u64;
        }
    }
}
