//! What the tool says on stderr about gaps of the analysis: C22
use super::*;
use crate::{model::{is_thumb, norm}, runner::Ctx};
use std::collections::BTreeSet;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C22",
        run: |c, t| done(c22(c, t)),
        tape: 700,
        quick: 12000,
        thorough: 300000,
        rule: "there is something to warn about for some functions and nothing for others",
        assumptions: BLACK_BOX,
        directed: &[],
    }]
}

/// intrinsics that never become code, or always become an instruction
const NOTHING: &[&str] = &["llvm.dbg.", "llvm.assume", "llvm.trap", "llvm.lifetime.", "llvm.experimental.noalias.scope.decl"];

fn c22(ctx: &mut Ctx, t: &mut Tape) -> R<Case> {
    let o = Opts {
        max_funcs: *t.pick(&[8, 4, 14]),
        max_stmts: *t.pick(&[2, 3, 5]),
        names: (0, 45),
        no_info: 6,
        untyped: 40,
        unknown: 50,
        indirect: *t.pick(&[10, 25, 3]),
        asm: *t.pick(&[3, 12, 30]),
        nosize: 15,
        thunks: 4,
        ..Opts::default()
    };
    let m = make(t, &o);
    ctx.sb.populate(&m.inp);
    let top = t.chance(15);
    let start = if t.chance(20) && !m.p.funcs.is_empty() {
        let f = &m.p.funcs[t.below(m.p.funcs.len())];
        Some(f.names[0].sym.clone()).filter(|s| !s.starts_with('-') && s != "?")
    } else {
        None
    };
    let out = ctx.run(&m.inp, Some(if top { "top" } else { "dot" }), start.as_deref())?;
    if !out.ok() {
        return fail(format!("the tool fails on a valid program: {}", out.tail()));
    }
    let err = out.err();
    let notes: Vec<&str> = err
        .lines()
        .filter(|l| l.starts_with('[') && (l.contains(" WARN ") || l.contains(" ERROR ")))
        .collect();
    let mut gaps = 0;
    let mut silent = 0;
    let mut kinds = BTreeSet::new();
    let r = (|| {
        for (i, f) in m.p.funcs.iter().enumerate() {
            let quoted: Vec<String> = f.names.iter().map(|n| format!("`{}`", n.sym)).collect();
            let about: Vec<&str> = notes.iter().copied().filter(|l| quoted.iter().any(|q| l.contains(&q[..]))).collect();
            let asm = f.defs.iter().any(|d| d.stmts.iter().any(|s| matches!(s, Stmt::Asm(_))));
            let untyped = f.untyped();
            let unknown = m.exp.nodes[i].local.is_none();
            let question = m.exp.question.contains(&i);
            let is_type = |l: &&&str| l.contains("no type information for");
            let is_asm = |l: &&&str| l.contains("asm!(");
            let is_call = |l: &&&str| l.contains("indirect function call");
            let name = &quoted[0];
            for (holds, seen, kind) in [
                (untyped, about.iter().filter(is_type).count(), "without type information"),
                (asm, about.iter().filter(is_asm).count(), "with inline assembly"),
                (question, about.iter().filter(is_call).count(), "with indirect calls in machine code"),
                (
                    unknown,
                    about.iter().filter(|l| !is_type(l) && !is_asm(l) && !is_call(l)).count(),
                    "with unknown stack usage",
                ),
            ] {
                if holds {
                    kinds.insert(kind);
                    if seen == 0 {
                        return Err(format!("nothing is said about {}, a function {}", name, kind));
                    }
                    if seen > 1 {
                        return Err(format!("{} is announced {} times as a function {}", name, seen, kind));
                    }
                } else if seen != 0 && !(kind == "with unknown stack usage" && (asm || f.outlined)) {
                    return Err(format!("{} is announced as a function {}: {:?}", name, kind, about));
                }
            }
            if untyped || asm || question || unknown {
                gaps += 1;
            } else {
                silent += 1;
            }
        }
        // elsewhere machine code tells what they become
        let assumed: BTreeSet<&str> = m
            .p
            .funcs
            .iter()
            .filter(|_| !is_thumb(m.p.target))
            .flat_map(|f| &f.defs)
            .flat_map(|d| &d.stmts)
            .filter_map(|s| match s {
                Stmt::Nop(n) if !NOTHING.iter().any(|p| n.starts_with(p)) => Some(&n[..]),
                _ => None,
            })
            .collect();
        let mut announced: Vec<&str> = notes.iter().filter_map(|l| l.split_once('`')?.1.strip_prefix("llvm.").map(|_| *l)).collect();
        for name in &assumed {
            let n = announced.len();
            announced.retain(|l| !l.contains(&format!("`{}`", name)[..]));
            if announced.len() + 1 != n {
                return Err(format!("the assumption about {} is announced {} times", name, n - announced.len()));
            }
        }
        if let Some(l) = announced.first() {
            return Err(format!("no function relies on this: {}", l));
        }
        if !assumed.is_empty() {
            kinds.insert("assumed intrinsics");
        }
        if assumed.iter().any(|a| assumed.iter().any(|b| a != b && a.rsplit_once('.').map(|x| x.0) == b.rsplit_once('.').map(|x| x.0))) {
            kinds.insert("assumed intrinsics of one family");
        }
        // function pointers that no function of the program matches
        for (label, d) in &m.exp.dashed {
            let seen = notes.iter().filter(|l| l.contains("no callees") && norm(l).contains(&format!("`{}`", label)[..])).count();
            let lost = d.callees.is_empty() && !m.exp.untyped;
            if lost {
                kinds.insert("pointers without functions");
            }
            if seen != lost as usize {
                return Err(format!("{} has {}candidates and is announced {} times", label, if lost { "no " } else { "" }, seen));
            }
        }
        let said = |what: &str| notes.iter().any(|l| l.contains(what));
        if said("can not be bounded") != m.exp.untyped {
            return Err(format!(
                "there are {}untyped functions, but the warning about it is {}",
                if m.exp.untyped { "" } else { "no " },
                if m.exp.untyped { "missing" } else { "there" }
            ));
        }
        // on Thumb usage can also come from machine code
        let zero = "zero stack usage information";
        if said(zero) == m.exp.has_info {
            return Err(format!("stack usage information: {}, {:?}: {}", m.exp.has_info, zero, said(zero)));
        }
        Ok(())
    })();
    about(r.map_err(|e| format!("{}\n  stderr: {}", e, notes.join("\n    "))), &m.p)?;
    let mut c = Case::new(gaps > 0 && silent > 0, digest(&m.p), m.p.describe());
    for k in ["without type information", "with inline assembly", "with indirect calls in machine code", "with unknown stack usage", "assumed intrinsics", "assumed intrinsics of one family", "pointers without functions"] {
        c = c.class(k, kinds.contains(k));
    }
    Ok(c.class("nothing to say", gaps == 0).class("top", top).class("start point", start.is_some()))
}
