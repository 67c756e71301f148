//! Properties of the IR front end: C04, C05, C12, C13, C14
use super::*;
use crate::{
    compare::{self, Aspects, ALL, NONE},
    ir::{self, Style},
    runner::{Ctx, Directed},
    tape::Noise,
};
use std::collections::BTreeSet;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C04",
            run: |c, t| done(c04(c, t)),
            tape: 700,
            quick: 12000,
            thorough: 300000,
            rule: "a function is called directly more than once, through an alias, from or to the compiler_builtins module, or is undefined",
            assumptions: BLACK_BOX,
            directed: &[Directed {
                name: "escaped-names",
                run: |c| done(escaped_names(c)),
                finding: Some("a function whose name needs an escape in the IR (`@\"a\\22b\"`) is not connected to its symbol: a direct call to it fails with \"BUG: callee `a\\22b` is unknown\""),
                quick: true,
            }],
        },
        Check {
            id: "C05",
            run: |c, t| done(c05(c, t)),
            tape: 900,
            quick: 12000,
            thorough: 300000,
            rule: "a function pointer has one or more callees while another function of the program has a different type",
            assumptions: BLACK_BOX,
            directed: &[],
        },
        Check {
            id: "C12",
            run: |c, t| done(c12(c, t)),
            tape: 700,
            quick: 6000,
            thorough: 150000,
            rule: "the program has an edge, and the two renderings of its IR differ",
            assumptions: BLACK_BOX,
            directed: &[],
        },
        Check {
            id: "C13",
            run: |c, t| done(c13(c, t)),
            tape: 700,
            quick: 12000,
            thorough: 300000,
            rule: "the module is damaged",
            assumptions: BLACK_BOX,
            directed: &[],
        },
        Check {
            id: "C14",
            run: |c, t| done(c14(c, t)),
            tape: 700,
            quick: 12000,
            thorough: 300000,
            rule: "a live function calls a memory intrinsic while the program has or imports some function of any of the families",
            assumptions: BLACK_BOX,
            directed: &[],
        },
    ]
}

fn c04(ctx: &mut Ctx, t: &mut Tape) -> R<Case> {
    let o = Opts {
        targets: if t.chance(30) { ANY } else { OTHER },
        max_funcs: *t.pick(&[8, 4, 14]),
        max_stmts: *t.pick(&[5, 3, 9]),
        alias: 35,
        undef: 3,
        dead: 4,
        indirect: 8,
        mem: 3,
        double_def: 8,
        thunks: 3,
        ..Opts::default()
    };
    let m = make(t, &o);
    let dot = ctx.graph(&m.inp, None)?;
    about(
        compare::compare(
            &dot,
            &m.exp,
            Aspects {
                nodes: true,
                edges: true,
                ..NONE
            },
        ),
        &m.p,
    )?;
    for i in 0..m.p.undefs.len() {
        if let Some(k) = m.exp.undef_node.get(&i) {
            let l = &m.exp.nodes[*k].labels;
            if dot.nodes.iter().any(|n| !n.dashed && n.name != "?" && l.contains(&n.name) && n.local.is_some())
                && !m.exp.nodes[..m.p.funcs.len()].iter().any(|e| e.labels.iter().any(|x| l.contains(x)))
            {
                return about(Err("an undefined function has a known usage".into()), &m.p);
            }
        }
    }
    let mut repeated = false;
    let mut alias = false;
    let mut undef = false;
    let mut dead = false;
    let mut cb = false;
    for f in &m.p.funcs {
        for d in &f.defs {
            let mut seen = BTreeSet::new();
            for s in &d.stmts {
                if let Stmt::Call(c) = s {
                    match c {
                        Callee::Func(g, k) => {
                            repeated |= !seen.insert(*g);
                            alias |= *k > 0;
                            cb |= d.module == Module::Cb || m.p.funcs[*g].defs.iter().any(|d| d.module == Module::Cb);
                        }
                        Callee::Undef(_) => undef = true,
                        _ => {}
                    }
                }
            }
        }
    }
    for d in &m.p.dead {
        dead |= !d.def.stmts.is_empty();
    }
    let n = |f: fn(&str) -> bool| m.p.funcs.iter().flat_map(|f| &f.names).any(|x| f(&x.sym));
    Ok(Case::new(repeated || alias || undef || cb, digest(&m.p), m.p.describe())
        .class("called more than once", repeated)
        .class("called through an alias", alias)
        .class("undefined function is called", undef)
        .class("compiler_builtins module", cb)
        .class("discarded function with calls", dead)
        .class("quoted name", n(|s| ir::quote(s) != s))
        .class("function with two definitions", m.p.funcs.iter().any(|f| f.defs.len() > 1))
        .class("recursive call", m.exp.edges.iter().any(|(a, b)| a == b)))
}

/// a function whose name cannot be printed in IR without an escape
fn escaped_names(ctx: &mut Ctx) -> R<Case> {
    for name in ["a\"b", "a\\b", "a\u{e9}b", "a\nb"] {
        let mut t = Tape::new(vec![]);
        let mut p = generate(
            &mut t,
            &Opts {
                targets: OTHER,
                max_funcs: 2,
                ..Opts::default()
            },
        );
        let sig = Sig {
            ret: None,
            params: vec![],
        };
        let f = p.funcs[0].clone();
        p.funcs = vec![f.clone(), f];
        for i in 0..2 {
            p.funcs[i].names = vec![Name::plain(if i == 0 { "main" } else { name })];
            p.funcs[i].is_func = vec![true];
            p.funcs[i].global = vec![true];
            p.funcs[i].addr = 0x1000 + 0x100 * i as u64;
            p.funcs[i].decls = vec![];
            p.funcs[i].aliases = vec![];
            p.funcs[i].rec = None;
            p.funcs[i].defs = vec![Def {
                module: Module::App,
                name: 0,
                sig: sig.clone(),
                stmts: if i == 0 { vec![Stmt::Call(Callee::Func(1, 0))] } else { vec![] },
            }];
        }
        let mut inp = inputs(&p, &mut Noise::new(0));
        let ll = String::from_utf8(inp.ll.clone()).unwrap();
        let esc: String = name
            .bytes()
            .map(|b| {
                if b == b'"' || b == b'\\' || !(32..127).contains(&b) {
                    format!("\\{:02X}", b)
                } else {
                    (b as char).to_string()
                }
            })
            .collect();
        inp.ll = ll.replace(&format!("\"{}\"", name), &format!("\"{}\"", esc)).into_bytes();
        let dot = ctx.graph(&inp, None)?;
        let exp = p.expect();
        about(
            compare::compare(
                &dot,
                &exp,
                Aspects {
                    nodes: true,
                    edges: true,
                    ..NONE
                },
            ),
            &p,
        )?;
    }
    Ok(Case::new(true, 0, "names with quotes, backslashes, line feeds and letters outside of ASCII".into()))
}

fn c05(ctx: &mut Ctx, t: &mut Tape) -> R<Case> {
    let o = Opts {
        max_funcs: *t.pick(&[8, 4, 14]),
        max_stmts: *t.pick(&[3, 2, 5]),
        indirect: 60,
        names: (10, 25),
        alias: 20,
        untyped: 15,
        dead: 3,
        rich_types: true,
        thunks: 3,
        ..Opts::default()
    };
    let m = make(t, &o);
    let dot = ctx.graph(&m.inp, None)?;
    about(
        compare::compare(
            &dot,
            &m.exp,
            Aspects {
                nodes: true,
                dashed: true,
                ..NONE
            },
        ),
        &m.p,
    )?;
    let live = m.p.funcs.len();
    let some = m.exp.dashed.values().any(|d| !d.callees.is_empty());
    let part = m.exp.dashed.values().any(|d| !d.callees.is_empty() && d.callees.len() < live);
    Ok(Case::new(part, digest(&m.p), m.p.describe())
        .class("function pointer with callees", some)
        .class("two or more callees", m.exp.dashed.values().any(|d| d.callees.len() > 1))
        .class("without callees", m.exp.dashed.values().any(|d| d.callees.is_empty()))
        .class("two or more signatures", m.exp.dashed.len() > 1)
        .class("two or more callers", m.exp.dashed.values().any(|d| d.callers.len() > 1))
        .class("aggregate types", m.exp.dashed.keys().any(|k| k.contains(['{', '[', '<'])))
        .class("variadic function pointer", m.exp.dashed.keys().any(|k| k.contains("...")))
        .class("untyped functions", m.exp.untyped)
        .class("callee that is only declared", m.exp.dashed.values().any(|d| d.callees.iter().any(|g| m.p.funcs[*g].defs.is_empty())))
        .class("discarded caller", m.p.dead.iter().any(|d| d.def.stmts.iter().any(|s| matches!(s, Stmt::Indirect(_))))))
}

/// the nodes of a graph by what they stand for, everything else as reported
pub fn by_function(dot: &Dot, exp: &Exp) -> Result<BTreeSet<String>, String> {
    // every way of telling which node is which: equal programs have a common one
    let mut out = BTreeSet::new();
    for asg in compare::assignments(dot, exp)? {
        let mut d = dot.clone();
        for (i, j) in asg.iter().enumerate() {
            d.nodes[*j].name = format!("#{}", i);
        }
        for n in &mut d.nodes {
            if n.dashed {
                n.name = norm(&n.name);
            }
        }
        out.insert(compare::canonical(&d));
    }
    Ok(out)
}

fn c12(ctx: &mut Ctx, t: &mut Tape) -> R<Case> {
    let o = Opts {
        max_funcs: *t.pick(&[8, 4, 14]),
        max_stmts: *t.pick(&[4, 2, 6]),
        dead: 3,
        rich_types: t.chance(30),
        thunks: 4,
        ..Opts::default()
    };
    let m = make(t, &o);
    let second = inputs(&m.p, &mut t.noise());
    let a = ctx.graph(&m.inp, None)?;
    let twice = t.chance(30);
    if twice {
        let o = ctx.run(&m.inp, None, None)?;
        let again = ctx.graph_of(&o)?;
        if compare::canonical(&a) != compare::canonical(&again) {
            return about(Err("the same input gives different graphs".into()), &m.p);
        }
    }
    let b = ctx.graph(&second, None)?;
    let r = (|| {
        compare::compare(&a, &m.exp, ALL).map_err(|e| format!("first layout: {}", e))?;
        compare::compare(&b, &m.exp, ALL).map_err(|e| format!("second layout: {}", e))?;
        let (x, y) = (by_function(&a, &m.exp)?, by_function(&b, &m.exp)?);
        if x.is_disjoint(&y) {
            return Err(format!(
                "two layouts of the same program give different graphs:\n{}\nand\n{}",
                x.iter().next().unwrap(),
                y.iter().next().unwrap()
            ));
        }
        Ok(())
    })();
    about(r, &m.p)?;
    let text = |b: &[u8], s: &str| String::from_utf8_lossy(b).contains(s);
    Ok(Case::new(
        !m.exp.edges.is_empty() && m.inp.ll != second.ll,
        digest(&m.p),
        m.p.describe(),
    )
    .class("CRLF", text(&m.inp.ll, "\r\n") != text(&second.ll, "\r\n"))
    .class("same input twice", twice)
    .class("text that looks like a call", text(&second.ll, "; call") || text(&second.ll, "\"call void"))
    .class("function pointers", !m.exp.dashed.is_empty())
    .class("machine code", m.p.thumb()))
}

fn c14(ctx: &mut Ctx, t: &mut Tape) -> R<Case> {
    let o = Opts {
        targets: if t.chance(25) { ANY } else { OTHER },
        max_funcs: *t.pick(&[8, 5, 14]),
        max_stmts: *t.pick(&[4, 2, 6]),
        mem: 35,
        nop: 30,
        mem_names: 80,
        undef: 4,
        indirect: 4,
        names: (8, 20),
        more_intrinsics: true,
        ..Opts::default()
    };
    let m = make(t, &o);
    let dot = ctx.graph(&m.inp, None)?;
    let r = (|| {
        if let Some(n) = dot.nodes.iter().find(|n| !n.dashed && n.name.starts_with("llvm.")) {
            return Err(format!("the intrinsic `{}` has a node", n.name));
        }
        compare::compare(
            &dot,
            &m.exp,
            Aspects {
                nodes: true,
                edges: true,
                ..NONE
            },
        )
    })();
    about(r, &m.p)?;
    let mem = |s: &Stmt| matches!(s, Stmt::Mem(_));
    let calls = m.p.funcs.iter().flat_map(|f| &f.defs).any(|d| d.stmts.iter().any(mem));
    let names: BTreeSet<&str> = [Family::Cpy, Family::Move, Family::Set]
        .iter()
        .flat_map(|f| family_names(f))
        .copied()
        .collect();
    let has = |n: &Name| names.contains(&n.sym[..]);
    let defined = m.p.funcs.iter().any(|f| f.names.iter().any(has));
    let undef = m.p.undefs.iter().any(|u| has(&u.name));
    Ok(Case::new(calls && (defined || undef), digest(&m.p), m.p.describe())
        .class("memory intrinsic is called", calls)
        .class("routine is defined", defined)
        .class("routine is an alias", m.p.funcs.iter().any(|f| f.names.len() > 1 && f.names.iter().any(has)))
        .class("routine is imported", undef)
        .class("Cortex-M", m.p.thumb())
        .class(
            "intrinsic that lowers to nothing",
            m.p.funcs.iter().flat_map(|f| &f.defs).any(|d| d.stmts.iter().any(|s| matches!(s, Stmt::Nop(_)))),
        ))
}

// ---- C13

/// items no version of the parser is said to understand
const UNKNOWN_ITEMS: &[&str] = &[
    "uselistorder ptr @f, { 1, 0 }",
    "$f = comdat any",
    "@f9 = ifunc void (), ptr @g",
    "^0 = module: (path: \"x\", hash: (0, 0, 0, 0, 0))",
    "defined void @zz() {\n  ret void\n}",
    "  call void @f1()",
    "call void @f1()",
    "declare",
    "define",
    "define void @zz {\n  ret void\n}",
    "define void zz() {\n  ret void\n}",
    "define @zz() {\n  ret void\n}",
    "define void @zz() {\n}",
    "define void @zz() {",
    "define void @zz() { ret void }",
    "declare void zz()",
    "declare @zz()",
    "declare void @zz(i32",
    "declare void @zz(i32 i32)",
    "declare i @zz()",
    "@zz",
    "@zz = ",
    "@zz = alias",
    "@zz = alias void (),",
    "@zz = alias void (), bitcast (",
    "@zz = alias void (), bitcast (ptr @zz",
    "@zz = alias void () ptr @zz",
    "@zz = alias void (), ptr zz",
    "target",
    "target foo = \"x\"",
    "module",
    "module asm foo",
    "module asm \"foo",
    "attributes = { }",
    "%T",
    "source_filename",
    "}",
    "{",
    "  ret void",
    "bb1:",
    "text",
    "\u{1F980}",
    "\"quoted\"",
    "0",
    "=",
];

/// statements with a call in them that are no valid form, or one the parser does not support
const UNKNOWN_CALLS: &[&str] = &[
    "  musttail call void @f1()",
    "  notail call void @f1()",
    "  call",
    "  call ",
    "  invoke",
    "  call void",
    "  call void ",
    "  call void @f1",
    "  call @f1()",
    "  call void f1()",
    "  call void ()",
    "  call void %f(",
    "  call void %f(i32",
    "  call void %f(i32 0",
    "  call void %f(i32 0,",
    "  call void %f(foo 0)",
    "  call void %f",
    "  call i @f1()",
    "  call foo( @f1()",
    "  call 32 @f1()",
    "  call void inttoptr (i32 4096 to ptr)()",
    "  call void null()",
    "  call cc 10 void @f1()",
    "  call void asm \"x",
    "  call void asm sideeffect x, \"\"()",
    "  call void @\"f1()",
    "  %0 = call",
    "  %0 = call i32",
    "  %0 = call i32 %f(i32",
    "  %0 = invoke i32 %f(i32 %x",
    "  %0 = musttail call i32 @f1()",
    "  %\"a b\" = call i32 @f1()",
    "  %0 = \tcall\ti32\t(@f1)",
    "  = call i32 @f1()",
    "  %0 == call i32 @f1()",
    "  %0 call i32 @f1()",
    "  tail musttail call void @f1()",
    "  foo call void @f1()",
    "  foo\tcall\tvoid @f1()",
    "  ret void call void @f1()",
    "  invoke @f1() to label %a unwind label %b",
    "  br label %bb1, invoke void @f1()",
    "call void @f1()",
    "tail call void @f1()",
    "%0 = call i32 @f1()",
    "ret void",
    "foo bar",
];

fn parse_failure(ctx: &mut Ctx, inp: &Inputs, format: Option<&str>) -> R<Result<(), String>> {
    ctx.sb.populate(inp);
    let o = ctx.run(inp, format, None)?;
    Ok((|| {
        if o.ok() {
            return Err("the tool succeeds".to_string());
        }
        if o.has_graph() {
            return Err("a graph is printed".to_string());
        }
        if !o.err().contains("failed to parse") {
            return Err(format!("the failure does not say that the IR could not be parsed: {}", o.tail()));
        }
        Ok(())
    })())
}

/// where a line starts with `keyword`
fn line_start(text: &str, keyword: &str) -> Option<usize> {
    if text.starts_with(keyword) {
        return Some(0);
    }
    text.find(&format!("\n{}", keyword)).map(|i| i + 1)
}

/// one line of IR without what is quoted and without its comment; `"` stays where a string was
fn outside_quotes(line: &str) -> Vec<(usize, char)> {
    let mut quoted = false;
    let mut out = vec![];
    for (i, c) in line.char_indices() {
        if c == '"' {
            quoted = !quoted;
            out.push((i, c));
        } else if quoted {
        } else if c == ';' {
            break;
        } else {
            out.push((i, c));
        }
    }
    out
}

enum Seen {
    Direct(String),
    Indirect,
}

fn name_at(rest: &str) -> Option<(&str, &str)> {
    if let Some(r) = rest.strip_prefix('"') {
        let e = r.find('"')?;
        Some((&r[..e], &r[e + 1..]))
    } else {
        let e = rest
            .find(|c: char| !(c.is_ascii_alphanumeric() || "-$._".contains(c)))
            .unwrap_or(rest.len());
        if e == 0 {
            None
        } else {
            Some((&rest[..e], &rest[e..]))
        }
    }
}

/// the call a line of a function's body certainly contains
fn call_in(line: &str) -> Option<Seen> {
    let toks = outside_quotes(line);
    let plain: String = toks.iter().map(|t| t.1).collect();
    // `call` and `invoke` as words
    let word = |w: &str| {
        plain.match_indices(w).map(|(i, _)| i).find(|i| {
            let ends = plain[i + w.len()..].starts_with(' ');
            let starts = *i == 0 || plain[..*i].ends_with(' ');
            starts && ends
        }).map(|i| (i, i + w.len()))
    };
    let (_, end) = match (word("call"), word("invoke")) {
        (Some(a), Some(b)) => if a.0 < b.0 { a } else { b },
        (Some(a), None) | (None, Some(a)) => a,
        _ => return None,
    };
    // in characters
    let skip = plain[..end].chars().count();
    let mut depth = 0;
    for k in skip..toks.len() {
        let (i, c) = toks[k];
        match c {
            '(' | '{' | '[' | '<' => depth += 1,
            ')' | '}' | ']' | '>' => depth -= 1,
            '@' | '%' if depth == 0 => {
                if k == 0 || toks[k - 1].1 != ' ' {
                    return None;
                }
                let (name, rest) = name_at(&line[i + 1..])?;
                if !rest.starts_with('(') {
                    return None;
                }
                return Some(if c == '@' { Seen::Direct(name.to_string()) } else { Seen::Indirect });
            }
            _ if depth < 0 => return None,
            'a' if depth == 0 && plain.chars().skip(k).collect::<String>().starts_with("asm ") => return None,
            _ => {}
        }
    }
    None
}

/// calls that a module certainly contains, by the name of the function
fn scan(text: &str) -> Vec<(String, Seen)> {
    let mut out = vec![];
    let mut cur: Option<String> = None;
    for line in text.split('\n') {
        let line = line.strip_suffix('\r').unwrap_or(line);
        if line.starts_with("define ") {
            cur = None;
            let toks = outside_quotes(line);
            let mut depth = 0;
            for (i, c) in toks {
                match c {
                    '(' | '{' | '[' | '<' => depth += 1,
                    ')' | '}' | ']' | '>' => depth -= 1,
                    '@' if depth == 0 => {
                        cur = name_at(&line[i + 1..]).filter(|n| n.1.starts_with('(')).map(|n| n.0.to_string());
                        break;
                    }
                    _ => {}
                }
            }
        } else if line.starts_with('}') {
            cur = None;
        } else if let Some(f) = &cur {
            if let Some(s) = call_in(line) {
                out.push((f.clone(), s));
            }
        }
    }
    out
}

const EDITS: &[&str] = &[
    "\"", "(", ")", "@", "%", ";", " ", "  ", ",", "\n", "x", "0", "{", "}", "*", "=", "call ", "invoke ", "#", "!", "\t", "\\", "tail ", "ptr ", "void ", "<", ">", "[", "]",
    "asm ", "i32", "-", ".", "null", "\r", "\u{e9}", "...",
];

fn edit(s: &str, t: &mut Tape) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..t.range(1, 3) {
        let at = t.below(v.len() + 1);
        match t.below(5) {
            0 if at < v.len() => {
                v.remove(at);
            }
            1 => {
                let end = (at + t.range(1, 12)).min(v.len());
                v.drain(at..end);
            }
            2 if at < v.len() => {
                let e: Vec<char> = t.pick(EDITS).chars().collect();
                v.splice(at..at + 1, e);
            }
            3 => {
                // repeat a part
                let end = (at + t.range(1, 12)).min(v.len());
                let part: Vec<char> = v[at..end].to_vec();
                let to = t.below(v.len() + 1);
                v.splice(to..to, part);
            }
            _ => {
                let e: Vec<char> = t.pick(EDITS).chars().collect();
                v.splice(at..at, e);
            }
        }
    }
    v.into_iter().collect()
}

/// after damage the tool either fails, or its graph has every call that is still there
fn survives(ctx: &mut Ctx, m: &Made, module: Module, text: &str) -> R<bool> {
    ctx.sb.populate(&m.inp);
    let o = ctx.run(&m.inp, None, None)?;
    if !o.ok() {
        if o.has_graph() {
            return fail("the tool fails but prints a graph");
        }
        return Ok(false);
    }
    let dot = ctx.graph_of(&o)?;
    let nodes = |name: &str| -> Option<Vec<usize>> {
        let f = m.p.funcs.iter().position(|f| f.names.iter().any(|n| n.sym == name))?;
        Some(
            (0..dot.nodes.len())
                .filter(|i| !dot.nodes[*i].dashed && m.exp.nodes[f].labels.contains(&dot.nodes[*i].name))
                .collect(),
        )
    };
    for (f, s) in scan(text) {
        let Some(from) = nodes(&f) else { continue };
        // a function of the application takes precedence
        let cb = m.p.funcs.iter().any(|x| x.names.iter().any(|n| n.sym == f) && x.defs.iter().any(|d| d.module == Module::Cb));
        if module == Module::Cb && !cb {
            continue;
        }
        let found = match &s {
            Seen::Direct(g) => {
                let Some(to) = nodes(g) else { continue };
                dot.edges.iter().any(|(a, b)| from.contains(a) && to.contains(b))
            }
            Seen::Indirect => dot.edges.iter().any(|(a, b)| from.contains(a) && dot.nodes[*b].dashed),
        };
        if !found {
            return fail(match s {
                Seen::Direct(g) => format!("the graph lacks the call from `{}` to `{}`", f, g),
                Seen::Indirect => format!("the graph lacks the call from `{}` through a pointer", f),
            });
        }
    }
    Ok(true)
}

fn c13(ctx: &mut Ctx, t: &mut Tape) -> R<Case> {
    let o = Opts {
        max_funcs: *t.pick(&[3, 1, 6]),
        max_stmts: *t.pick(&[3, 5]),
        dead: 2,
        ..Opts::default()
    };
    let mut m = make(t, &o);
    let module = if t.chance(35) { Module::Cb } else { Module::App };
    let mut st = Style::new(t.noise());
    let mut items = ir::items(&m.p, module, &mut st.nz);
    let defs: Vec<usize> = (0..items.len()).filter(|i| line_start(&items[*i], "define ").is_some()).collect();
    let decls: Vec<usize> = (0..items.len())
        .filter(|i| line_start(&items[*i], "declare ").is_some() && !defs.contains(i))
        .collect();
    let mut kind = t.weighted(&[17, 22, 21, 9, 26, 5]);
    let what;
    let mut text;
    match kind {
        // an item of an unknown form
        0 => {
            let x = *t.pick(UNKNOWN_ITEMS);
            let at = t.below(items.len() + 1);
            items.insert(at, x.to_string());
            what = format!("item {:?}", x);
            text = ir::assemble(items, &mut st);
        }
        // a call of an unknown form
        1 if !defs.is_empty() => {
            let x = *t.pick(UNKNOWN_CALLS);
            let k = *t.pick(&defs);
            let body = items[k].clone();
            // any line of the body
            let start = line_start(&body, "define ").unwrap();
            let first = start + body[start..].find('\n').unwrap() + 1;
            let mut at = vec![first];
            at.extend(body[first..].match_indices('\n').map(|(i, _)| first + i + 1).filter(|i| *i < body.len()));
            let pos = *t.pick(&at);
            items[k] = format!("{}{}\n{}", &body[..pos], x, &body[pos..]);
            what = format!("statement {:?}", x);
            text = ir::assemble(items, &mut st);
        }
        // the end is missing
        2 if !defs.is_empty() => {
            let k = *t.pick(&defs);
            let last = items.remove(k);
            items.push(last.clone());
            let crlf = st.crlf;
            st.crlf = false;
            text = ir::assemble(items, &mut st);
            let begin = text.rfind(&last).expect("item") + line_start(&last, "define ").unwrap();
            let end = text.trim_end().len();
            let mut cut = t.range(begin + 1, end - 1);
            while !text.is_char_boundary(cut) {
                cut -= 1;
            }
            what = format!("cut after {:?}", tail(&text[..cut]));
            text.truncate(cut);
            if t.chance(20) {
                text.push('\n');
            }
            if crlf {
                text = text.replace('\n', "\r\n");
            }
        }
        // a declaration is damaged
        3 if !decls.is_empty() => {
            let k = *t.pick(&decls);
            let d = items[k].clone();
            let start = line_start(&d, "declare ").unwrap();
            let name = d[start..].find('@').unwrap() + start;
            let cut = t.range(start + 1, name);
            items[k] = d[..cut].to_string();
            what = format!("damaged declaration {:?}", items[k]);
            text = ir::assemble(items, &mut st);
        }
        // some line is edited
        4 if !items.is_empty() => {
            let k = if !defs.is_empty() && t.chance(80) { *t.pick(&defs) } else { t.below(items.len()) };
            let mut lines: Vec<String> = items[k].split('\n').map(|s| s.to_string()).collect();
            let j = t.below(lines.len());
            let old = lines[j].clone();
            lines[j] = edit(&old, t);
            what = format!("{:?} edited to {:?}", old, lines[j]);
            items[k] = lines.join("\n");
            text = ir::assemble(items, &mut st);
        }
        // nothing is wrong
        _ => {
            kind = 5;
            text = ir::assemble(items, &mut st);
            what = "nothing is wrong".to_string();
        }
    }
    match module {
        Module::App => m.inp.ll = text.clone().into_bytes(),
        Module::Cb => m.inp.cb_ll = text.clone().into_bytes(),
    }
    let mut accepted = false;
    let r = match kind {
        5 => {
            let dot = ctx.graph(&m.inp, None)?;
            let ok = survives(ctx, &m, module, &text)?;
            if ok {
                compare::compare(&dot, &m.exp, ALL)
            } else {
                Err("the second run fails".into())
            }
        }
        4 => match survives(ctx, &m, module, &text) {
            Ok(a) => {
                accepted = a;
                Ok(())
            }
            Err(Verdict::Fail(e)) => Err(e),
            Err(v) => return Err(v),
        },
        _ => {
            let format = if t.chance(20) { Some("top") } else { None };
            parse_failure(ctx, &m.inp, format)?
        }
    };
    if let Err(e) = r {
        return fail(format!("{} ({:?} module): {}\n--- module\n{}\n--- {}", what, module, e, text, m.p.describe()));
    }
    Ok(Case::new(kind != 5, fnv(text.as_bytes()), what)
        .class("unknown item", kind == 0)
        .class("unknown call", kind == 1)
        .class("cut short", kind == 2)
        .class("damaged declaration", kind == 3)
        .class("edited line, accepted", kind == 4 && accepted)
        .class("edited line, rejected", kind == 4 && !accepted)
        .class("nothing is wrong", kind == 5)
        .class("application module", module == Module::App)
        .class("compiler_builtins module", module == Module::Cb))
}

fn tail(s: &str) -> &str {
    let mut i = s.len().saturating_sub(40);
    while !s.is_char_boundary(i) {
        i += 1;
    }
    &s[i..]
}
