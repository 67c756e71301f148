//! One check per property.
use crate::{
    artifacts::inputs,
    compare::Usage,
    dot::Dot,
    model::*,
    runner::{Case, Check, Verdict},
    sandbox::Inputs,
    tape::{fnv, Tape},
};

mod graph;
mod ir;
mod notes;
mod process;
mod real;
mod thumb;

pub type R<T> = Result<T, Verdict>;

pub fn done(r: R<Case>) -> Verdict {
    match r {
        Ok(c) => Verdict::Pass(c),
        Err(v) => v,
    }
}

pub fn fail<T>(m: impl Into<String>) -> R<T> {
    Err(Verdict::Fail(m.into()))
}

/// adds the program to a failure
pub fn about<T>(r: Result<T, String>, p: &Program) -> R<T> {
    r.map_err(|m| Verdict::Fail(format!("{}\n  program: {}", m, p.describe())))
}

pub struct Made {
    pub p: Program,
    pub inp: Inputs,
    pub exp: Exp,
}

pub fn make(t: &mut Tape, o: &Opts) -> Made {
    let p = generate(t, o);
    let inp = inputs(&p, &mut t.noise());
    let exp = p.expect();
    Made { p, inp, exp }
}

pub fn digest(p: &Program) -> u64 {
    fnv(p.describe().as_bytes())
}

pub fn recursive(u: &Usage) -> bool {
    !u.cycles.is_empty()
}

pub fn node(d: &Dot, i: usize) -> String {
    format!("`{}`", d.nodes[i].name)
}

pub const BLACK_BOX: &[&str] = &[
    "the tool is run as a black box on generated artifacts (ELF executable, object, archive, LLVM IR) with stand-ins for `rustc` and `cargo` on its PATH",
    "LLVM IR is generated in the forms the pinned compiler (LLVM 17, opaque pointers) prints",
];

pub fn all() -> Vec<Check> {
    let mut v = vec![];
    v.extend(graph::checks());
    v.extend(ir::checks());
    v.extend(notes::checks());
    v.extend(thumb::checks());
    v.extend(process::checks());
    v.extend(real::checks());
    v.sort_by_key(|c| c.id);
    v
}
