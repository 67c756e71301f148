//! LLVM IR text for a program, in the forms the pinned compiler prints, with noise that must not
//! matter.
use crate::{
    model::*,
    tape::Noise,
};

/// how much noise a rendering gets; none of it changes what the program is
#[derive(Clone, Debug)]
pub struct Style {
    pub nz: Noise,
    pub crlf: bool,
    pub shuffle: bool,
}

impl Style {
    pub fn new(mut nz: Noise) -> Style {
        let crlf = nz.chance(8);
        let shuffle = nz.chance(70);
        Style { nz, crlf, shuffle }
    }
}

pub fn quote(name: &str) -> String {
    let plain = !name.is_empty()
        && !name.starts_with(|c: char| c.is_ascii_digit())
        && name
            .bytes()
            .all(|b| b.is_ascii_alphanumeric() || b"-$._".contains(&b));
    if plain {
        name.to_string()
    } else {
        format!("\"{}\"", name)
    }
}

fn local(n: &mut Noise) -> String {
    match n.below(6) {
        0 => "%x".into(),
        1 => format!("%{}", n.below(900)),
        2 => format!("%_{}.i.i{}", n.below(40), n.below(9)),
        3 => format!("%.{}", n.below(9)),
        4 => "%call".into(),
        _ => (*n.pick(&["%self.0", "%tail", "%invoke", "%f$1", "%a-b", "%ptr", "%define"])).into(),
    }
}

const TRICKY: &[&str] = &[
    "call void @f1()",
    "invoke void @f2() to label %a unwind label %b",
    "a, b",
    "){",
    "define void @x() {",
    "}",
    "; c",
    "x)",
    "%f(",
    "@f1(i32 0)",
    "core::fmt::<impl T>::f",
];

fn value(ty: &str, n: &mut Noise) -> String {
    if n.chance(55) {
        return local(n);
    }
    let misc = *n.pick(&["undef", "poison"]);
    let ty = if ty.ends_with('*') { "ptr" } else { ty };
    match ty {
        "i1" => (*n.pick(&["true", "false", misc])).into(),
        "ptr" => match n.below(8) {
            0 => "null".into(),
            1 => "@g".into(),
            2 => format!("@\"{}\"", n.pick(TRICKY)),
            3 => "getelementptr inbounds (i8, ptr @g, i32 4)".into(),
            4 => "inttoptr (i32 4 to ptr)".into(),
            5 => "getelementptr (<{ [4 x i8] }>, ptr @\"x, y\", i32 0, i32 0)".into(),
            6 => "@_ZN3foo3bar17h0123456789abcdefE".into(),
            _ => misc.into(),
        },
        "float" | "double" => (*n.pick(&["0.000000e+00", "-1.500000e+00", "0x7FF8000000000000", misc])).into(),
        t if t.starts_with("{ i32, i32 }") => (*n.pick(&["zeroinitializer", "{ i32 0, i32 -1 }", misc])).into(),
        "[4 x i8]" => (*n.pick(&["zeroinitializer", "c\"a,)(\"", "c\"call\"", misc])).into(),
        "[2 x i32]" => (*n.pick(&["zeroinitializer", "[i32 1, i32 2]", misc])).into(),
        "<4 x i32>" => (*n.pick(&["zeroinitializer", "<i32 0, i32 1, i32 2, i32 3>", misc])).into(),
        t if t.starts_with('i') => match n.below(5) {
            0 => "0".into(),
            1 => format!("-{}", n.below(200)),
            2 => format!("{}", n.below(100000)),
            3 => "ptrtoint (ptr @g to i32)".into(),
            _ => misc.into(),
        },
        _ => (*n.pick(&["zeroinitializer", misc])).into(),
    }
}

fn param_attrs(ty: &str, n: &mut Noise) -> String {
    let mut s = String::new();
    let ty = if ty.ends_with('*') { "ptr" } else { ty };
    while n.chance(35) {
        s += " ";
        s += match ty {
            "ptr" => *n.pick(&[
                "noundef",
                "nonnull",
                "noalias",
                "nocapture",
                "readonly",
                "writeonly",
                "align 4",
                "align 16",
                "dereferenceable(8)",
                "dereferenceable_or_null(16)",
                "sret([8 x i8])",
                "byval({ i32, i32 })",
                "sret(%\"core::fmt::Arguments<'_>\")",
                "sret({ i128, i8 })",
                "byref(i32)",
                "byref([3 x i8])",
                "preallocated({ i32, i32 })",
                "inalloca(i64)",
                "elementtype(i32)",
                "elementtype([2 x i8])",
                "alignstack(8)",
                "allocptr",
                "allocalign",
                "noundef readonly byref(%\"core::fmt::Arguments<'_>\")",
                "returned",
                "inreg",
                "nofree",
                "swiftself",
                "readnone",
            ]),
            t if t.starts_with('i') => *n.pick(&["noundef", "zeroext", "signext", "inreg", "returned", "immarg"]),
            _ => "noundef",
        };
    }
    s
}

fn ret_attrs(ty: Option<&str>, n: &mut Noise) -> String {
    let mut s = String::new();
    let Some(ty) = ty else { return s };
    let ty = if ty.ends_with('*') { "ptr" } else { ty };
    while n.chance(25) {
        s += match ty {
            "ptr" => *n.pick(&["noundef ", "nonnull ", "noalias ", "align 4 ", "dereferenceable(4) ", "dereferenceable_or_null(12) ", "inreg "]),
            t if t.starts_with('i') => *n.pick(&["noundef ", "zeroext ", "signext ", "inreg "]),
            _ => "noundef ",
        };
    }
    s
}

fn cc(n: &mut Noise) -> &'static str {
    if n.chance(25) {
        *n.pick(&[
            "fastcc ",
            "coldcc ",
            "arm_aapcscc ",
            "arm_aapcs_vfpcc ",
            "ghccc ",
            "preserve_mostcc ",
            "riscv_vectorcallcc ",
        ])
    } else {
        ""
    }
}

fn suffix(n: &mut Noise) -> String {
    let mut s = String::new();
    if n.chance(35) {
        s += &format!(" #{}", n.below(40));
    }
    if n.chance(40) {
        s += &format!(", !dbg !{}", n.below(9000));
    }
    if n.chance(10) {
        s += &format!(", !range !{}", n.below(90));
    }
    if n.chance(10) {
        s += &format!(", !noalias !{}, !srcloc !{}", n.below(90), n.below(90));
    }
    s
}

fn args(params: &[String], n: &mut Noise) -> String {
    params
        .iter()
        .map(|ty| format!("{}{} {}", ty, param_attrs(ty, n), value(ty, n)))
        .collect::<Vec<_>>()
        .join(", ")
}

// instruction that is no call
fn noise_stmt(n: &mut Noise, out: &mut String) {
    let l = local(n);
    let r = local(n);
    let dbg = if n.chance(50) { format!(", !dbg !{}", n.below(999)) } else { String::new() };
    let s = match n.below(26) {
        0 => format!("  {} = alloca i32, align 4", l),
        1 => format!("  {} = load i32, ptr {}, align 4{}", l, r, dbg),
        2 => format!("  store i32 0, ptr {}, align 4{}", r, dbg),
        3 => format!("  {} = icmp eq i32 {}, 0{}", l, r, dbg),
        4 => format!("  {} = getelementptr inbounds {{ i32, ptr }}, ptr {}, i32 0, i32 1{}", l, r, dbg),
        5 => format!("  {} = insertvalue {{ i32, i32 }} poison, i32 {}, 0{}", l, r, dbg),
        6 => format!("  {} = phi i32 [ 0, %start ], [ {}, %bb1 ]", l, r),
        7 => format!("  switch i32 {}, label %bb1 [\n    i32 0, label %bb2\n    i32 1, label %bb3\n  ]{}", r, dbg),
        8 => format!("  fence acquire{}", dbg),
        9 => format!("  {} = atomicrmw add ptr {}, i32 1 monotonic, align 4{}", l, r, dbg),
        10 => format!("  {} = cmpxchg ptr {}, i32 0, i32 1 acq_rel monotonic, align 4", l, r),
        11 => format!("  {} = select i1 {}, ptr @f1, ptr @\"f2\"{}", l, r, dbg),
        12 => format!("  {} = landingpad {{ ptr, i32 }}\n          cleanup{}", l, dbg),
        13 => format!("  store ptr @f1, ptr {}, align 4", r),
        14 => format!("; {}", n.pick(TRICKY)),
        15 => ";   call core::panicking::panic_fmt".to_string(),
        16 => "; call foo::bar".to_string(),
        17 => format!("\nbb{}:                                              ; preds = %bb1, %start", n.below(99)),
        18 => "\n\"_ZN3foo.exit\": ; preds = %call, %bb1".to_string(),
        19 => format!("\n{}:", n.below(99)),
        20 => "\n".to_string(),
        21 => format!("  {} = zext i8 {} to i32{}", l, r, dbg),
        22 => format!("  {} = ptrtoint ptr @f1 to i32", l),
        23 => format!("  {} = load ptr, ptr getelementptr inbounds ([4 x ptr], ptr @g, i32 0, i32 2), align 4", l),
        24 => "; invoke void @f1()".to_string(),
        _ => format!("  br i1 {}, label %call, label %invoke{}", r, dbg),
    };
    *out += &s;
    if !s.ends_with('\n') {
        *out += "\n";
    }
}

/// `lhs`: whether the value is used
fn call_text(n: &mut Noise, ret: Option<&str>, callee: &str, params: &[String], varargs: bool, invoke_ok: bool) -> String {
    let mut s = String::from("  ");
    if ret.is_some() && n.chance(80) || ret.is_some() && n.clone().next() == 0 {
        s += &format!("{} = ", local(n));
    }
    let invoke = invoke_ok && n.chance(18);
    if invoke {
        s += "invoke ";
    } else {
        if n.chance(30) {
            s += "tail ";
        }
        s += "call ";
    }
    s += cc(n);
    s += &ret_attrs(ret, n);
    s += ret.unwrap_or("void");
    s += " ";
    let mut fixed = params.to_vec();
    let varargs = varargs || fixed.last().map(|p| p == "...") == Some(true);
    fixed.retain(|p| p != "...");
    if varargs {
        let mut t = fixed.clone();
        t.push("...".into());
        s += &format!("({}) ", t.join(", "));
        for _ in 0..n.below(3) {
            fixed.push((*n.pick(&["i32", "ptr", "double"])).into());
        }
    }
    s += callee;
    s += &format!("({})", args(&fixed, n));
    if invoke {
        s += &suffix(n).replace(", !", " !").split(" !").next().unwrap_or("").to_string();
        s += &format!(
            "\n          to label %bb{} unwind label %cleanup{}\n",
            n.below(99),
            if n.chance(50) { ", !dbg !77" } else { "" }
        );
    } else {
        s += &suffix(n);
        s += "\n";
    }
    s
}

fn nop_call(name: &str, n: &mut Noise) -> String {
    let v = local(n);
    let call = if n.chance(30) { "tail call" } else { "call" };
    let body = match name {
        "llvm.dbg.value" | "llvm.dbg.declare" => {
            let w = match n.below(4) {
                0 => "i32 undef".to_string(),
                1 => "ptr @f1".to_string(),
                2 => "!DIArgList(i32 %x, i32 %y)".to_string(),
                _ => format!("i32 {}", v),
            };
            format!("{} void @{}(metadata {}, metadata !12, metadata !DIExpression())", call, name, w)
        }
        "llvm.assume" => format!("{} void @llvm.assume(i1 {})", call, v),
        "llvm.trap" => format!("{} void @llvm.trap()", call),
        _ if name.starts_with("llvm.lifetime.") => {
            let ty = if name.ends_with("p0i8") { "i8*" } else if name.ends_with("p1") { "ptr addrspace(1)" } else { "ptr" };
            format!("{} void @{}(i64 8, {} nonnull {})", call, name, ty, v)
        }
        "llvm.experimental.noalias.scope.decl" => format!("{} void @{}(metadata !5)", call, name),
        _ => {
            let ty = name.rsplit('.').next().unwrap_or("i32");
            if name.starts_with("llvm.x86") {
                return if name.ends_with("pause") {
                    format!("  {} void @{}(){}\n", call, name, suffix(n))
                } else {
                    format!("  %5 = {} i32 @{}(<16 x i8> {}){}\n", call, name, v, suffix(n))
                };
            }
            let vector = ty.strip_prefix('v').and_then(|t| {
                let k = t.find(['i', 'f'])?;
                let e = match &t[k..] {
                    "f32" => "float",
                    "f64" => "double",
                    e => e,
                };
                Some(format!("<{} x {}>", &t[..k], e))
            });
            let ty = match ty {
                _ if vector.is_some() => vector.as_deref().unwrap(),
                "f32" => "float",
                "f64" => "double",
                "p0" => "ptr",
                "hint" => "i32",
                t => t,
            };
            if name.contains("with.overflow") {
                format!("%{} = {} {{ {}, i1 }} @{}({} {}, {} 3)", n.below(99), call, ty, name, ty, v, ty)
            } else {
                let l = local(n);
                format!("{} = {} {} @{}({} {}, {} 1)", l, call, ty, name, ty, v, ty)
            }
        }
    };
    format!("  {}{}\n", body, suffix(n))
}

pub fn stmt_text(p: &Program, s: &Stmt, n: &mut Noise) -> String {
    match s {
        Stmt::Call(c) => {
            let (name, sig) = match c {
                Callee::Func(g, k) => (p.funcs[*g].names[*k].sym.clone(), p.sig_of(*g).cloned()),
                Callee::Undef(u) => (p.undefs[*u].name.sym.clone(), None),
                Callee::Dead(d) => (p.dead[*d].name.sym.clone(), Some(p.dead[*d].def.sig.clone())),
                Callee::Nowhere(s) => (s.clone(), None),
            };
            let sig = sig.unwrap_or_else(|| Sig {
                ret: if n.chance(50) { Some("i32".into()) } else { None },
                params: if n.chance(50) { vec!["ptr".into()] } else { vec![] },
            });
            let varargs = n.chance(5);
            // the callee is used as if it had another type
            if !matches!(c, Callee::Nowhere(_)) && n.chance(4) {
                let to = format!("{} ({})*", sig.ret.as_deref().unwrap_or("void"), sig.params.join(", "));
                let from = *n.pick(&["i8*", "void ()*", "i32 (i8*, [4 x i8])*", "ptr"]);
                let callee = format!("bitcast ({} @{} to {})", from, quote(&name), to);
                return call_text(n, sig.ret.as_deref(), &callee, &sig.params, false, false);
            }
            call_text(
                n,
                sig.ret.as_deref(),
                &format!("@{}", quote(&name)),
                &sig.params,
                varargs,
                true,
            )
        }
        Stmt::Indirect(sig) => {
            let f = local(n);
            call_text(n, sig.ret.as_deref(), &f, &sig.params, false, true)
        }
        Stmt::Mem(f) => {
            let len = if n.chance(50) { "i32" } else { "i64" };
            let v = local(n);
            let tail = if n.chance(40) { "tail " } else { "" };
            let body = match f {
                Family::Cpy | Family::Move => {
                    let m = if *f == Family::Cpy {
                        *n.pick(&["memcpy", "memcpy", "memcpy.inline"])
                    } else {
                        "memmove"
                    };
                    format!(
                        "  {}call void @llvm.{}.p0.p0.{}(ptr noundef nonnull align 4 dereferenceable(8) {}, ptr align 1 @g, {} 12, i1 false)",
                        tail, m, len, v, len
                    )
                }
                Family::Set => format!(
                    "  {}call void @llvm.memset.p0.{}(ptr align 4 {}, i8 0, {} %n, i1 false)",
                    tail, len, v, len
                ),
            };
            format!("{}{}\n", body, suffix(n))
        }
        Stmt::Nop(name) => nop_call(name, n),
        Stmt::Asm(a) => {
            let mut s = String::from("  ");
            if n.chance(30) {
                s += "%7 = ";
                if n.chance(30) {
                    s += "tail ";
                }
                s += "call i32 asm sideeffect ";
            } else {
                if n.chance(30) {
                    s += "tail ";
                }
                s += "call void asm sideeffect ";
            }
            if n.chance(30) {
                s += "alignstack ";
            }
            let a = a.replace('\\', "\\5C").replace('"', "\\22").replace('\n', "\\0A");
            s += &format!("\"{}\", \"~{{memory}},={{r0}}\"()", a);
            s + &suffix(n) + "\n"
        }
    }
}

pub fn define_text(p: &Program, name: &str, d: &Def, n: &mut Noise) -> String {
    let mut s = String::new();
    if n.chance(40) {
        s += &format!("; {}\n; Function Attrs: nounwind\n", n.pick(TRICKY));
    }
    s += "define ";
    if n.chance(60) {
        s += *n.pick(&[
            "internal ",
            "dso_local ",
            "hidden ",
            "weak hidden ",
            "private ",
            "linkonce_odr hidden ",
            "weak_odr dso_local ",
            "internal unnamed_addr ",
        ]);
    }
    s += cc(n);
    s += &ret_attrs(d.sig.ret.as_deref(), n);
    s += d.sig.ret.as_deref().unwrap_or("void");
    let named = n.chance(70);
    let params: Vec<String> = d
        .sig
        .params
        .iter()
        .enumerate()
        .map(|(i, ty)| {
            if ty == "..." {
                return ty.clone();
            }
            let a = param_attrs(ty, n);
            if named {
                format!("{}{} %{}", ty, a, n.pick(&["x", "self", "_3.i", "0", "a.0", "\"a b\"", "call"]))
            } else if n.chance(50) {
                format!("{}{} %{}", ty, a, i)
            } else {
                format!("{}{}", ty, a)
            }
        })
        .collect();
    s += &format!(" @{}({})", quote(name), params.join(", "));
    if n.chance(60) {
        s += *n.pick(&[" unnamed_addr", " local_unnamed_addr"]);
    }
    if n.chance(50) {
        s += &format!(" #{}", n.below(30));
    }
    if n.chance(15) {
        s += " section \".text.call\"";
    }
    if n.chance(15) {
        s += " align 2";
    }
    if n.chance(15) {
        s += " personality ptr @rust_eh_personality";
    }
    if n.chance(40) {
        s += &format!(" !dbg !{}", n.below(9000));
    }
    s += " {\n";
    match n.below(4) {
        0 => s += "start:\n",
        1 => s += "entry:\n",
        2 => s += "\"a b\":\n",
        _ => {
            // no blank line before the first block
            if n.chance(50) {
                s += "  %1 = alloca i32, align 4\n";
            } else {
                s += "  br label %bb1\n";
            }
        }
    }
    for st in &d.stmts {
        while n.chance(30) {
            noise_stmt(n, &mut s);
        }
        s += &stmt_text(p, st, n);
    }
    while n.chance(30) {
        noise_stmt(n, &mut s);
    }
    s += match &d.sig.ret {
        None if n.chance(20) => "  unreachable",
        None => "  ret void",
        Some(_) => "  ret i32 %x",
    };
    if n.chance(40) {
        s += ", !dbg !9";
    }
    s += "\n}";
    s
}

pub fn declare_text(name: &str, sig: &Sig, varargs: bool, n: &mut Noise) -> String {
    let mut s = String::new();
    if n.chance(30) {
        s += "; Function Attrs: nounwind\n";
    }
    s += "declare ";
    if n.chance(20) {
        s += *n.pick(&["dso_local ", "hidden ", "extern_weak "]);
    }
    s += cc(n);
    s += &ret_attrs(sig.ret.as_deref(), n);
    s += sig.ret.as_deref().unwrap_or("void");
    let mut params: Vec<String> = sig
        .params
        .iter()
        .map(|ty| if ty == "..." { ty.clone() } else { format!("{}{}", ty, param_attrs(ty, n)) })
        .collect();
    if varargs {
        params.push("...".into());
    }
    s += &format!(" @{}({})", quote(name), params.join(", "));
    if n.chance(50) {
        s += " unnamed_addr";
    }
    if n.chance(60) {
        s += &format!(" #{}", n.below(40));
    }
    s
}

fn global_noise(n: &mut Noise) -> String {
    let k = n.below(1000);
    match n.below(16) {
        0 => format!("@alloc_{:x} = private unnamed_addr constant <{{ [16 x i8] }}> <{{ [16 x i8] c\"call void @f1()\\0A\" }}>, align 1", k),
        1 => format!("@vtable.{} = private unnamed_addr constant <{{ ptr, [8 x i8], ptr }}> <{{ ptr @f1, [8 x i8] c\"\\04\\00\\00\\00\\04\\00\\00\\00\", ptr @f2 }}>, align 4", k),
        2 => format!("@anon.{} = external global i32", k),
        3 => format!("@\"global {}\" = internal global i32 0, section \".data\", align 4, !dbg !3", k),
        4 => format!("%\"core::fmt::Type{}\" = type {{ i32, ptr, [4 x i8] }}", k),
        5 => format!("%T{} = type opaque", k),
        6 => "module asm \".globl f1\"".into(),
        7 => "module asm \"  bl f2 ; call void @f1()\"".into(),
        8 => format!("!{} = !{{!\"call void @f1()\", i32 7}}", k),
        9 => format!("!{} = distinct !DISubprogram(name: \"call\", linkageName: \"f1\", scope: !2)", k),
        10 => format!("attributes #{} = {{ nounwind \"target-cpu\"=\"generic\" \"x\"=\"call void @f1()\" }}", k),
        11 => "!llvm.module.flags = !{!0, !1}".into(),
        12 => format!("; {}", n.pick(TRICKY)),
        13 => format!("@switch.table.{} = private unnamed_addr constant [2 x ptr] [ptr @f1, ptr @\"f2\"], align 4", k),
        14 => format!("@{} = private constant <{{ [0 x i8] }}> zeroinitializer, align 4", k),
        _ => format!("@__sym{} = extern_weak dso_local local_unnamed_addr global i8, align 1", k),
    }
}

/// the items of a module, each of them one or more lines without the final line end
pub fn items(p: &Program, module: Module, n: &mut Noise) -> Vec<String> {
    let mut out = vec![];
    let mut declared: Vec<String> = vec![];
    for f in &p.funcs {
        for d in f.defs.iter().filter(|d| d.module == module) {
            out.push(define_text(p, &f.names[d.name].sym, d, n));
            declared.push(f.names[d.name].sym.clone());
        }
        for a in f.aliases.iter().filter(|a| a.module == module) {
            let d = &f.defs[0];
            let ty = |s: &Sig| s.label().trim_end_matches('*').to_string();
            let (name, of) = (&f.names[a.name].sym, quote(&f.names[d.name].sym));
            let of = match n.below(4) {
                0 => format!("{} @{}", d.sig.label(), of),
                1 => format!("bitcast ({} @{} to {})", d.sig.label(), of, a.sig.label()),
                _ => format!("ptr @{}", of),
            };
            out.push(format!(
                "@{} = {}alias {}, {}",
                quote(name),
                n.pick(&["", "unnamed_addr ", "hidden unnamed_addr ", "dso_local "]),
                ty(&a.sig),
                of
            ));
            declared.push(name.clone());
        }
        for d in f.decls.iter().filter(|d| d.module == module) {
            out.push(declare_text(&f.names[d.name].sym, &d.sig, false, n));
        }
    }
    for r in p.replaced.iter().filter(|r| r.def.module == module) {
        out.push(define_text(p, &p.funcs[r.by.0].names[r.by.1].sym, &r.def, n));
    }
    for d in p.dead.iter().filter(|d| d.def.module == module) {
        out.push(define_text(p, &d.name.sym, &d.def, n));
    }
    for u in &p.undefs {
        if module == Module::App && n.chance(80) {
            let s = Sig {
                ret: None,
                params: vec!["ptr".into()],
            };
            let varargs = n.chance(20);
            out.push(declare_text(&u.name.sym, &s, varargs, n));
        }
    }
    if n.chance(70) {
        out.push("declare void @llvm.dbg.value(metadata, metadata, metadata) #4".into());
        out.push("declare void @llvm.memcpy.p0.p0.i32(ptr noalias nocapture writeonly, ptr noalias nocapture readonly, i32, i1 immarg) #2".into());
    }
    for _ in 0..n.below(8) {
        out.push(global_noise(n));
    }
    out
}

pub fn render(p: &Program, module: Module, st: &mut Style) -> String {
    let mut v = items(p, module, &mut st.nz);
    if st.shuffle {
        st.nz.shuffle(&mut v);
    }
    assemble(v, st)
}

pub fn assemble(v: Vec<String>, st: &mut Style) -> String {
    let n = &mut st.nz;
    let mut s = String::new();
    if !n.chance(10) {
        s += "; ModuleID = 'app.1234-cgu.0'\nsource_filename = \"app.1234-cgu.0\"\ntarget datalayout = \"e-m:e-p:32:32-Fi8-i64:64-v128:64:128-a:0:32-n32-S64\"\ntarget triple = \"thumbv7m-none-unknown-eabi\"\n\n";
    }
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s += "\n";
            if !n.chance(15) || x.starts_with("define") {
                s += "\n";
            }
            while n.chance(5) {
                s += "\n";
            }
        }
        s += x;
    }
    if !v.is_empty() || s.ends_with('\n') {
        s = s.trim_end_matches('\n').to_string();
    }
    // at the end of the file
    s += *n.pick(&["\n", "\n", "\n", "\n", "\n", "\n", "\n\n", "\n\n\n", ""]);
    if st.crlf {
        s = s.replace('\n', "\r\n");
    }
    s
}
