//! Properties of the machine code analysis: C06, C07, C19
use super::*;
use crate::{
    compare::{self, Aspects, NONE},
    runner::{Ctx, Directed},
    tape::Noise,
    thumb::{self, Code, Enc, Item, Target},
};
use std::collections::{BTreeMap, BTreeSet};

pub fn checks() -> Vec<Check> {
    vec![c06_check(), c07_check(), c19_check()]
}

fn c07_check() -> Check {
    Check {
        id: "C07",
        run: |c, t| done(c07(c, t)),
        tape: 500,
        quick: 10000,
        thorough: 250000,
        rule: "a function has several instructions that allocate, or functions of three or more kinds occur",
        assumptions: ENCODER,
        directed: &[Directed {
            name: "all-allocating-instructions",
            run: |c| done(all_allocs(c)),
            finding: None,
            quick: true,
        }],
    }
}

fn c19_check() -> Check {
    Check {
        id: "C19",
        run: |c, t| done(c19(c, t)),
        tape: 700,
        quick: 6000,
        thorough: 150000,
        rule: "the program has two edges or more and its functions move",
        assumptions: ENCODER,
        directed: &[],
    }
}

fn c06_check() -> Check {
    Check {
        id: "C06",
        run: |c, t| done(c06(c, t)),
        tape: 500,
        quick: 8000,
        thorough: 250000,
        rule: "a branch reaches its limit or two encodings of branches occur, next to other instructions",
        assumptions: ENCODER,
        directed: &[
            Directed {
                name: "all-16-bit-instructions",
                run: |c| done(all_opaque(c, false)),
                finding: None,
                quick: true,
            },
            Directed {
                name: "32-bit-instructions",
                run: |c| done(all_opaque(c, true)),
                finding: None,
                quick: true,
            },
            Directed {
                name: "all-16-bit-branches",
                run: |c| done(all_short(c)),
                finding: None,
                quick: true,
            },
            Directed {
                name: "bits-of-32-bit-branches",
                run: |c| done(all_long(c)),
                finding: None,
                quick: true,
            },
        ],
    }
}

pub const ENCODER: &[&str] = &[
    "the tool is run as a black box on generated artifacts (ELF executable, object, archive, LLVM IR) with stand-ins for `rustc` and `cargo` on its PATH",
    "the encodings of branches and of instructions that change SP come from an encoder written from the ARMv7-M manual; those of all other instructions from the disassembler of LLVM 18",
];

fn bare(name: String, addr: u64, code: Code) -> Func {
    Func {
        names: vec![Name::plain(name)],
        is_func: vec![true],
        global: vec![true],
        addr,
        size: thumb::size(&code) as u64,
        defs: vec![],
        decls: vec![],
        aliases: vec![],
        rec: None,
        outlined: false,
        thunk: None,
        code: Some(code),
        nosize: false,
        blind: false,
    }
}

fn program(target: &'static str, funcs: Vec<Func>) -> Program {
    Program {
        target,
        funcs,
        dead: vec![],
        replaced: vec![],
        undefs: vec![],
        members: 0,
    }
}

const RET: Item = Item::H(0x4770);

const BRANCHES: Aspects = Aspects {
    nodes: true,
    edges: true,
    ..NONE
};

/// where functions are
#[derive(Default)]
struct Map {
    /// start -> (end, function)
    at: BTreeMap<u64, (u64, usize)>,
}

impl Map {
    /// the function that starts at `a`, or room for a new one
    fn look(&self, a: u64) -> Result<Option<usize>, ()> {
        if let Some((start, (end, f))) = self.at.range(..=a).next_back() {
            if *start == a {
                return Ok(Some(*f));
            }
            if a < *end {
                return Err(());
            }
        }
        if self.at.range(a..).next().map(|x| a + 2 > *x.0).unwrap_or(false) {
            return Err(());
        }
        Ok(None)
    }
    fn room(&self, a: u64) -> u64 {
        self.at.range(a + 1..).next().map(|x| x.0 - a).unwrap_or(64).min(64)
    }
}

fn distance(t: &mut Tape, e: Enc) -> i64 {
    let (lo, hi) = e.range();
    match t.below(6) {
        0 => {
            let bits = 1 + t.below(e.bits() as usize - 1);
            let v = (1i64 << bits) - 2 * t.below(2) as i64;
            if t.chance(50) {
                v.min(hi)
            } else {
                (-v).max(lo)
            }
        }
        1 => hi - 2 * t.below(3) as i64,
        2 => lo + 2 * t.below(3) as i64,
        3 => {
            let bits = 1 + t.below(e.bits() as usize - 1);
            let v = t.raw() as i64 & ((1 << bits) - 1) & !1;
            if t.chance(50) {
                v.min(hi)
            } else {
                -v
            }
        }
        _ => {
            let span = (hi - lo) as u64 / 2 + 1;
            lo + 2 * (t.raw() as u64 * 7 % span) as i64
        }
    }
}

fn encoding(t: &mut Tape, v7: bool) -> Enc {
    let c = t.below(14) as u8;
    match t.below(if v7 { 9 } else { 5 }) {
        0 | 1 => Enc::Bl,
        2 => Enc::T2,
        3 | 4 => Enc::T1(c),
        5 | 6 => Enc::T3(c),
        _ => Enc::T4,
    }
}

/// instructions around branches; the targets of the latter are still to be chosen
fn body(t: &mut Tape, n: &mut Noise, v7: bool, branches: usize) -> (Code, Vec<usize>) {
    let mut code: Code = vec![];
    let mut holes = vec![];
    for _ in 0..branches {
        for _ in 0..t.below(4) {
            code.push(thumb::opaque(n, v7));
        }
        match t.below(12) {
            0 => code.push(thumb::alloc(n, v7)),
            1 => code.push(Item::Indirect(0x4780 | (n.below(8) as u16) << 3)),
            2 if v7 => {
                // jump table
                let k = 2 * t.range(1, 8);
                code.push(Item::Table(vec![0xe8df, 0xf000 | n.below(2) as u16 * 16 | n.below(8) as u16]));
                code.push(Item::Data(thumb::data(n, k)));
            }
            3 => {
                // literal pool that is jumped over
                let k = 2 * t.range(1, 12);
                code.push(Item::Branch(Enc::T2, Target::Item(code.len() + 2)));
                code.push(Item::Data(thumb::data(n, k)));
                code.push(thumb::opaque(n, v7));
            }
            4 if v7 => {
                code.push(Item::Cbz(n.chance(50), n.below(8) as u8, code.len() + 2));
                code.push(thumb::opaque(n, v7));
                code.push(thumb::opaque(n, v7));
            }
            5 => {
                // padding that makes functions long
                for _ in 0..t.range(20, 120) {
                    code.push(thumb::opaque(n, v7));
                }
            }
            _ => {}
        }
        holes.push(code.len());
        code.push(Item::Branch(encoding(t, v7), Target::Item(0)));
    }
    for _ in 0..t.below(3) {
        code.push(thumb::opaque(n, v7));
    }
    if t.chance(70) {
        code.push(RET);
    }
    if t.chance(25) {
        let k = 2 * t.range(1, 10);
        code.push(Item::Data(thumb::data(n, k)));
    }
    (code, holes)
}

fn c06(ctx: &mut Ctx, t: &mut Tape) -> R<Case> {
    let target = *t.pick(THUMB);
    let v7 = is_v7(target);
    let mut nz = t.noise();
    let mut p = program(target, vec![]);
    let mut map = Map::default();
    let callers = t.range(1, 3);
    let mut limit = false;
    let mut encs: BTreeSet<&str> = BTreeSet::new();
    let mut classes: Vec<&'static str> = vec![];
    for k in 0..callers {
        let low = k == 0 && t.chance(10);
        let at = if low { 0x400 } else { 0x1000_0000 + k as u64 * 0x0800_0000 } + 2 * t.below(64) as u64;
        let count = t.range(1, 5);
        let (mut code, holes) = body(t, &mut nz, v7, count);
        let size = thumb::size(&code) as u64;
        let me = p.funcs.len();
        p.funcs.push(bare(format!("f{}", me), at, vec![]));
        map.at.insert(at, (at + size, me));
        let offs = thumb::offsets(&code);
        for h in holes {
            let Item::Branch(e, _) = code[h].clone() else { unreachable!() };
            let (lo, hi) = e.range();
            let pc = at as i64 + offs[h] as i64 + 4;
            let mut choice = None;
            if t.chance(15) {
                // somewhere in the function
                let j = t.below(code.len());
                let d = at as i64 + offs[j] as i64 - pc;
                if d >= lo && d <= hi {
                    choice = Some(if j == 0 { Target::Func(me) } else { Target::Item(j) });
                    classes.push("branch within the function");
                }
            }
            for _ in 0..8 {
                if choice.is_some() {
                    break;
                }
                let d = match t.below(7) {
                    // right behind the function, or right before it
                    0 => (at + size) as i64 - pc,
                    1 => at as i64 - 2 * t.range(1, 4) as i64 - pc,
                    _ => distance(t, e),
                };
                let dest = pc + d;
                if d < lo || d > hi || dest < 0x40 {
                    continue;
                }
                let dest = dest as u64;
                if dest >= at && dest < at + size {
                    continue;
                }
                let f = match map.look(dest) {
                    Err(()) => continue,
                    Ok(Some(f)) => f,
                    Ok(None) => {
                        let f = p.funcs.len();
                        p.funcs.push(bare(format!("f{}", f), dest, vec![RET]));
                        map.at.insert(dest, (dest + 2, f));
                        f
                    }
                };
                if d == lo || d == hi {
                    limit = true;
                    classes.push("limit of the encoding");
                }
                if dest == at + size {
                    classes.push("to the function right behind");
                }
                classes.push(if d < 0 { "backward" } else { "forward" });
                choice = Some(Target::Func(f));
            }
            match choice {
                Some(c) => {
                    if let Target::Func(_) = c {
                        let name = match e {
                            Enc::T1(_) => "B encoding T1",
                            Enc::T2 => "B encoding T2",
                            Enc::T3(_) => "B encoding T3",
                            Enc::T4 => "B encoding T4",
                            Enc::Bl => "BL",
                        };
                        encs.insert(name);
                        classes.push(name);
                    }
                    code[h] = Item::Branch(e, c)
                }
                None => {
                    code[h] = if e.size() == 4 {
                        Item::W(0xf3af, 0x8000)
                    } else {
                        Item::H(0x46c0)
                    };
                    if e.size() == 4 && !v7 {
                        code[h] = Item::W(0xf3bf, 0x8f5f);
                    }
                }
            }
        }
        p.funcs[me].code = Some(code);
        p.funcs[me].size = size;
    }
    // the functions that are branched to
    for f in 0..p.funcs.len() {
        if p.funcs[f].size != 2 {
            continue;
        }
        let at = p.funcs[f].addr;
        let room = map.room(at);
        let mut code: Code = vec![];
        if t.chance(50) {
            while thumb::size(&code) as u64 + 8 <= room && t.chance(60) {
                code.push(thumb::opaque(&mut nz, v7));
            }
        }
        if thumb::size(&code) as u64 + 6 <= room && t.chance(30) {
            let g = t.below(p.funcs.len());
            let d = p.funcs[g].addr as i64 - (at as i64 + thumb::size(&code) as i64 + 4);
            if d >= Enc::Bl.range().0 && d <= Enc::Bl.range().1 {
                code.push(Item::Branch(Enc::Bl, Target::Func(g)));
            }
        }
        code.push(RET);
        let size = thumb::size(&code) as u64;
        assert!(size <= room.max(2));
        p.funcs[f].size = size;
        p.funcs[f].code = Some(code);
        map.at.insert(at, (at + size, f));
    }
    for f in 0..p.funcs.len() {
        if t.chance(30) {
            let s = Sig {
                ret: None,
                params: vec![],
            };
            let stmts = if t.chance(20) { vec![Stmt::Asm("bl f0".into())] } else { vec![] };
            p.funcs[f].defs.push(Def {
                module: Module::App,
                name: 0,
                sig: s,
                stmts,
            });
        }
        if t.chance(15) {
            let n = Name::plain(format!("alias{}", f));
            p.funcs[f].names.push(n);
            p.funcs[f].is_func.push(t.chance(50));
            p.funcs[f].global.push(true);
        }
    }
    let inp = inputs(&p, &mut t.noise());
    let exp = p.expect();
    let dot = ctx.graph(&inp, None)?;
    about(compare::compare(&dot, &exp, BRANCHES), &p)?;
    let others = p.funcs[0].code.as_ref().unwrap().len() > 3;
    classes.sort();
    classes.dedup();
    let items = || p.funcs.iter().flat_map(|f| f.code.iter().flatten());
    let mut c = Case::new((limit || encs.len() > 1) && others, digest(&p), p.describe())
        .class("ARMv6-M", !v7)
        .class("data in the code", items().any(|x| matches!(x, Item::Data(_))))
        .class("jump table", items().any(|x| matches!(x, Item::Table(_))))
        .class("long function", p.funcs.iter().any(|f| f.size > 200));
    c.classes.extend(classes);
    Ok(c)
}

// ---- enumerations

fn check(ctx: &mut Ctx, p: &Program, a: Aspects) -> R<()> {
    let inp = inputs(p, &mut Noise::new(0));
    let dot = ctx.graph(&inp, None)?;
    // the program is too large to be printed
    compare::compare(&dot, &p.expect(), a).map_err(Verdict::Fail)
}

/// every instruction that is no branch, each followed by a call
fn all_opaque(ctx: &mut Ctx, wide: bool) -> R<Case> {
    let mut total = 0;
    for (k, target) in [(0, "thumbv6m-none-eabi"), (1, "thumbv7em-none-eabihf")] {
        let c = thumb::corpus();
        let all: Vec<Item> = if wide {
            c.w[k].iter().map(|(a, b)| Item::W(*a, *b)).collect()
        } else {
            c.h[k].iter().map(|h| Item::H(*h)).collect()
        };
        total += all.len();
        const CALLEES: usize = 32;
        for part in all.chunks(CALLEES * 500) {
            let mut p = program(target, vec![]);
            for i in 0..CALLEES {
                p.funcs.push(bare(format!("callee{}", i), 0x1000 + 4 * i as u64, vec![RET]));
            }
            let mut at = 0x2000;
            for (j, ch) in part.chunks(CALLEES).enumerate() {
                let mut code = vec![];
                for (i, x) in ch.iter().enumerate() {
                    code.push(x.clone());
                    code.push(Item::Branch(Enc::Bl, Target::Func(i)));
                }
                let f = bare(format!("f{}", j), at, code);
                at += f.size;
                p.funcs.push(f);
            }
            check(
                ctx,
                &p,
                Aspects {
                    local: true,
                    ..BRANCHES
                },
            )?;
        }
    }
    Ok(Case::new(true, wide as u64, format!("{} instructions", total)))
}

/// every B encoding T1 and T2
fn all_short(ctx: &mut Ctx) -> R<Case> {
    let mut total = 0;
    for target in ["thumbv6m-none-eabi", "thumbv7m-none-eabi"] {
        let mut encs: Vec<Enc> = (0..14).map(Enc::T1).collect();
        encs.push(Enc::T2);
        for e in encs {
            // functions of two bytes, next to each other
            let (lo, hi) = e.range();
            let n = 2 * ((hi - lo) / 2 + 1) as usize;
            let mut p = program(target, vec![]);
            let base = 0x4000u64;
            for k in 0..n {
                // forward in the first half
                let d = if k < n / 2 { 2 * (k as i64 % (n as i64 / 4)) } else { -2 * (k as i64 % (n as i64 / 4)) - 2 };
                assert!(d >= lo && d <= hi);
                let dest = 2 * k as i64 + 4 + d;
                assert!(dest >= 0);
                let g = (dest / 2) as usize;
                p.funcs.push(bare(format!("f{}", k), base + 2 * k as u64, vec![Item::Branch(e, Target::Func(g))]));
                total += 1;
            }
            while p.funcs.len() < n + 2 {
                let k = p.funcs.len();
                p.funcs.push(bare(format!("f{}", k), base + 2 * k as u64, vec![RET]));
            }
            check(ctx, &p, BRANCHES)?;
        }
    }
    Ok(Case::new(true, 2, format!("{} branches", total)))
}

/// all combinations of up to two bits of the offset, in all 32-bit encodings
fn all_long(ctx: &mut Ctx) -> R<Case> {
    let mut total = 0;
    for (target, encs) in [
        ("thumbv6m-none-eabi", vec![Enc::Bl]),
        ("thumbv7m-none-eabi", {
            let mut v = vec![Enc::Bl, Enc::T4];
            v.extend((0..14).map(Enc::T3));
            v
        }),
    ] {
        for e in encs {
            let (lo, hi) = e.range();
            let mut offs: BTreeSet<i64> = BTreeSet::new();
            for a in 1..e.bits() - 1 {
                for b in 0..=a {
                    let v = 1i64 << a | if b > 0 { 1 << b } else { 0 };
                    for x in [v, -v, !v & !1, lo + v, hi - v] {
                        if x >= lo && x <= hi {
                            offs.insert(x);
                        }
                    }
                }
            }
            offs.extend([0, -2, lo, hi]);
            let mut p = program(target, vec![]);
            let mut map = Map::default();
            let mut at = 0x4000_0000u64;
            for d in offs {
                loop {
                    at += 2;
                    let dest = (at as i64 + 4 + d) as u64;
                    let own = (at..at + 4).contains(&dest);
                    if own && dest != at {
                        break;
                    }
                    let free = map.look(at) == Ok(None) && map.room(at) >= 4;
                    if !free {
                        continue;
                    }
                    let me = p.funcs.len();
                    let g = if own {
                        me
                    } else {
                        match map.look(dest) {
                            Err(()) => continue,
                            Ok(_) if dest + 2 > at && dest < at + 4 => continue,
                            Ok(Some(g)) => g,
                            Ok(None) => me + 1,
                        }
                    };
                    p.funcs.push(bare(format!("f{}", me), at, vec![Item::Branch(e, Target::Func(g))]));
                    map.at.insert(at, (at + 4, me));
                    if g == me + 1 {
                        p.funcs.push(bare(format!("f{}", g), dest, vec![RET]));
                        map.at.insert(dest, (dest + 2, g));
                    }
                    total += 1;
                    break;
                }
            }
            check(ctx, &p, BRANCHES)?;
        }
    }
    Ok(Case::new(true, 3, format!("{} branches", total)))
}

// ---- C07

/// a function that is analyzed for its stack usage
fn stacky(t: &mut Tape, n: &mut Noise, v7: bool, me: usize, funcs: usize, branches: bool) -> Code {
    let mut code: Code = vec![];
    let count = *t.pick(&[4, 8, 1, 20, 0]);
    for _ in 0..t.below(count + 1) {
        match t.below(10) {
            0..=3 => code.push(thumb::alloc(n, v7)),
            4 | 5 => {
                for _ in 0..n.range(1, 6) {
                    code.push(thumb::opaque(n, v7));
                }
            }
            6 => code.push(Item::Branch(if v7 && n.chance(40) { Enc::T4 } else { Enc::Bl }, Target::Func(t.below(funcs)))),
            7 => code.push(Item::Indirect(0x4780 | (n.below(8) as u16) << 3)),
            8 if t.chance(25) => code.push(thumb::regsp(n, v7)),
            9 if v7 && t.chance(50) => {
                // what the outliner emits
                code.push(thumb::lr_save());
                code.push(Item::Branch(Enc::Bl, Target::Func(t.below(funcs))));
                code.push(thumb::LR_RESTORE);
            }
            _ => {
                // data that is not reached
                let k = 2 * n.range(1, 8);
                let d = thumb::data(n, k);
                code.push(RET);
                code.push(Item::Data(d));
            }
        }
    }
    // `b` to the function itself is a loop
    for x in &mut code {
        if matches!(x, Item::Branch(e, Target::Func(g)) if *e != Enc::Bl && *g == me) {
            *x = Item::Branch(Enc::Bl, Target::Func(me));
        }
    }
    if branches {
        let size = |c: &[Item]| thumb::size(c) as i64;
        let at = t.below(code.len() + 1);
        match t.below(6) {
            // backward
            0 | 1 => {
                let j = t.below(at + 1);
                let d = -size(&code[j..at]) - 4;
                let cond = n.below(14) as u8;
                let mut fits: Vec<Enc> = [Enc::T1(cond), Enc::T2].into_iter().filter(|e| d >= e.range().0).collect();
                if v7 {
                    fits.push(Enc::T3(cond));
                    fits.push(Enc::T4);
                }
                if j > 0 {
                    // a loop that is too big for any other branch of ARMv6-M
                    fits.push(Enc::Bl);
                }
                if let Some(e) = (!fits.is_empty()).then(|| *n.pick(&fits)) {
                    let target = if j == 0 { Target::Func(me) } else { Target::Item(j) };
                    code.insert(at, Item::Branch(e, target));
                }
            }
            // forward
            2 | 3 => {
                code.push(Item::H(0x46c0));
                code.push(RET);
                let cond = n.below(14) as u8;
                let e = if v7 { *n.pick(&[Enc::T1(cond), Enc::T2, Enc::T3(cond), Enc::T4]) } else { *n.pick(&[Enc::T1(cond), Enc::T2, Enc::Bl]) };
                // to the last instruction, if it is not too far
                let mut j = code.len() - 1;
                while size(&code[at..j]) > 200 {
                    j -= 1;
                }
                code.insert(at, Item::Branch(e, Target::Item(j + 1)));
            }
            4 if v7 => {
                code.push(Item::Cbz(n.chance(50), n.below(8) as u8, code.len() + 2));
                code.push(Item::H(0x46c0));
                code.push(RET);
            }
            5 if v7 => {
                let k = 2 * n.range(1, 8);
                code.push(Item::Table(vec![0xe8df, 0xf000 | n.below(2) as u16 * 16 | n.below(8) as u16]));
                let d = thumb::data(n, k);
                code.push(Item::Data(d));
                code.push(RET);
            }
            _ => {
                let at = code.len();
                code.push(Item::H(0x46c0));
                code.push(Item::Branch(Enc::T1(n.below(14) as u8), Target::Item(at)));
            }
        }
    }
    code.push(RET);
    if n.chance(20) {
        let k = 2 * n.range(1, 8);
        code.push(Item::Data(thumb::data(n, k)));
    }
    code
}

fn c07(ctx: &mut Ctx, t: &mut Tape) -> R<Case> {
    let target = *t.pick(THUMB);
    let v7 = is_v7(target);
    let mut nz = t.noise();
    let n = t.range(1, 6);
    let mut p = program(target, vec![]);
    let mut classes: Vec<&'static str> = vec![];
    for i in 0..n {
        // 0: nothing recorded, 1: inline assembly, 2: outlined, 3: recorded
        let kind = t.weighted(&[60, 18, 12, 10]);
        let name = if kind == 2 { format!("OUTLINED_FUNCTION_{}", i) } else { format!("f{}", i) };
        let branches = t.chance(25) && kind != 2;
        let mut code = stacky(t, &mut nz, v7, i, n, branches);
        if kind == 2 {
            code.retain(|x| !matches!(x, Item::RegSp(_)));
        }
        let mut f = bare(name, 0, vec![]);
        f.outlined = kind == 2;
        let facts = thumb::facts(&code, i);
        let sig = Sig {
            ret: None,
            params: vec![],
        };
        let mut def = Def {
            module: Module::App,
            name: 0,
            sig,
            stmts: vec![],
        };
        let mut rec = |v: u64| {
            f.rec = Some(Rec {
                val: v,
                member: None,
                names: vec![0],
            })
        };
        match kind {
            0 => {
                if t.chance(40) {
                    if t.chance(30) {
                        def.stmts.push(Stmt::Asm("push {r4}".into()));
                    }
                    f.defs.push(def);
                }
            }
            1 => {
                def.stmts.push(Stmt::Asm(t.pick(&["push {r4}", "nop", "sub sp, #8"]).to_string()));
                f.defs.push(def);
                let v = match t.below(4) {
                    0 => 0,
                    1 => facts.alloc,
                    2 => facts.alloc + 8,
                    _ => stack_value(t, 10),
                };
                rec(v);
            }
            2 => rec(0),
            _ => {
                let frame = facts.alloc - 8 * facts.lr_saves;
                let mut v = frame;
                if facts.straight().is_none() {
                    v = if frame > 0 || facts.regsp { 8 * t.range(1, 1000) as u64 } else { 0 };
                }
                rec(v);
                f.defs.push(def);
            }
        }
        if t.chance(15) {
            f.nosize = true;
            let has_data = code.iter().any(|x| matches!(x, Item::Data(_)));
            f.blind = has_data || t.chance(30);
            if f.rec.is_some() {
                f.nosize = false;
                f.blind = false;
            }
        }
        f.size = thumb::size(&code) as u64;
        f.code = Some(std::mem::take(&mut code));
        if kind != 2 && t.chance(10) {
            f.names.push(Name::plain(format!("alias{}", i)));
            f.is_func.push(t.chance(50));
            f.global.push(true);
        }
        classes.push(["nothing recorded", "inline assembly", "outlined", "recorded"][kind]);
        if facts.lr_saves > 0 && kind == 3 {
            classes.push("LR is saved around a call");
        }
        if facts.regsp {
            classes.push("SP changed by a register");
        }
        if facts.internal {
            classes.push(if facts.modifies() { "internal branch, uses stack" } else { "internal branch, uses no stack" });
        } else if facts.alloc > 0 {
            classes.push("straight code, uses stack");
        }
        if f.nosize {
            classes.push(if f.blind { "unknown size" } else { "size from mapping symbols" });
        }
        p.funcs.push(f);
    }
    place(t, &mut p);
    let inp = inputs(&p, &mut t.noise());
    let exp = p.expect();
    let dot = ctx.graph(&inp, None)?;
    about(
        compare::compare(
            &dot,
            &exp,
            Aspects {
                nodes: true,
                local: true,
                ..NONE
            },
        ),
        &p,
    )?;
    classes.sort();
    classes.dedup();
    let several = p.funcs.iter().any(|f| f.code.iter().flatten().filter(|x| matches!(x, Item::Alloc(..))).count() > 1);
    let mut c = Case::new(several || classes.len() > 2, digest(&p), p.describe()).class("ARMv6-M", !v7);
    c.classes.extend(classes);
    Ok(c)
}

/// each allocating instruction, in a function of its own
fn all_allocs(ctx: &mut Ctx) -> R<Case> {
    let mut total = 0;
    for (target, v7) in [("thumbv6m-none-eabi", false), ("thumbv7em-none-eabihf", true)] {
        let mut all: Vec<(Vec<u16>, u64)> = vec![];
        for k in 1..128u16 {
            all.push((vec![0xb080 | k], 4 * k as u64));
        }
        for l in 1..512u16 {
            all.push((vec![0xb400 | l], 4 * l.count_ones() as u64));
        }
        if v7 {
            for l in 0..0x8000u16 {
                // r0-r12, lr; one in seven
                if l.count_ones() >= 2 && l & 0x2000 == 0 && (l % 7 == 0 || l.count_ones() == 2) {
                    all.push((vec![0xe92d, l], 4 * l.count_ones() as u64));
                }
            }
            for imm in 0..4096u16 {
                let (i, imm3) = (imm >> 11, imm >> 8 & 7);
                let second = imm3 << 12 | 13 << 8 | imm & 0xff;
                if imm > 0 {
                    all.push((vec![0xf2ad | i << 10, second], imm as u64));
                }
                if let Some(v) = thumb::expand_imm(imm).filter(|v| *v > 0) {
                    for s in 0..2 {
                        all.push((vec![0xf1ad | i << 10 | s << 4, second], v as u64));
                    }
                }
            }
            for first in 0..32u16 {
                for count in 1..=32 - first {
                    if first < 16 && count <= 16 - first {
                        all.push((vec![0xed2d, first << 12 | 0xb00 | 2 * count], 8 * count as u64));
                    }
                    all.push((vec![0xed2d | (first & 1) << 6, (first >> 1) << 12 | 0xa00 | count], 4 * count as u64));
                }
            }
            for rt in [0u16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14] {
                for imm in 1..256u16 {
                    for p in [0u16, 0x400] {
                        all.push((vec![0xf84d, rt << 12 | 0x900 | p | imm], imm as u64));
                    }
                    let rt2 = (rt + 1) % 12;
                    for op in [0xe86du16, 0xe96d] {
                        all.push((vec![op, rt << 12 | rt2 << 8 | imm], 4 * imm as u64));
                    }
                }
            }
        }
        total += all.len();
        for part in all.chunks(6000) {
            let mut p = program(target, vec![]);
            let mut at = 0x2000;
            for (j, (w, n)) in part.iter().enumerate() {
                let f = bare(format!("f{}", j), at, vec![Item::Alloc(w.clone(), *n), RET]);
                at += f.size;
                p.funcs.push(f);
            }
            check(
                ctx,
                &p,
                Aspects {
                    nodes: true,
                    local: true,
                    ..NONE
                },
            )?;
        }
    }
    Ok(Case::new(true, 4, format!("{} instructions", total)))
}

// ---- C19

fn without(dot: &Dot, drop: impl Fn(&str) -> bool) -> Dot {
    let keep: Vec<usize> = (0..dot.nodes.len()).filter(|i| !drop(&dot.nodes[*i].name)).collect();
    let new: BTreeMap<usize, usize> = keep.iter().enumerate().map(|(a, b)| (*b, a)).collect();
    Dot {
        nodes: keep.iter().map(|i| dot.nodes[*i].clone()).collect(),
        edges: dot
            .edges
            .iter()
            .filter(|e| new.contains_key(&e.0) && new.contains_key(&e.1))
            .map(|e| (new[&e.0], new[&e.1]))
            .collect(),
        clusters: dot
            .clusters
            .iter()
            .filter(|c| c.iter().all(|i| new.contains_key(i)))
            .map(|c| c.iter().map(|i| new[i]).collect())
            .collect(),
    }
}

fn c19(ctx: &mut Ctx, t: &mut Tape) -> R<Case> {
    let o = Opts {
        targets: THUMB,
        max_funcs: *t.pick(&[8, 4, 14]),
        max_stmts: 2,
        unknown: 60,
        nosize: 25,
        untyped: 50,
        dup: 40,
        thunks: 6,
        ..Opts::default()
    };
    let mut m = make(t, &o);
    let v7 = is_v7(m.p.target);
    if m.p.funcs.iter().any(|f| f.nosize) && t.chance(30) {
        for f in &mut m.p.funcs {
            f.blind = f.nosize;
        }
        place(t, &mut m.p);
        m.inp = inputs(&m.p, &mut t.noise());
        m.exp = m.p.expect();
    }
    let mut q = m.p.clone();
    let extra = if t.chance(40) { t.range(1, 3) } else { 0 };
    for k in 0..extra {
        let mut code: Code = vec![];
        let mut nz = t.noise();
        for _ in 0..t.below(6) {
            code.push(thumb::opaque(&mut nz, v7));
        }
        if t.chance(50) {
            code.push(thumb::alloc(&mut nz, v7));
        }
        code.push(RET);
        if t.chance(50) {
            let n = 2 * t.range(1, 8);
            code.push(Item::Data(thumb::data(&mut nz, n)));
        }
        let mut f = bare(format!("unrelated_{}", k), 0, code);
        f.defs.push(Def {
            module: Module::App,
            name: 0,
            sig: Sig {
                ret: None,
                params: vec!["i61".into()],
            },
            stmts: vec![],
        });
        q.funcs.push(f);
    }
    place_anywhere(t, &mut q);
    let second = if extra == 0 && t.chance(60) {
        // only the executable changes
        let mut i = m.inp.clone();
        i.elf = crate::artifacts::executable(&q, &mut t.noise());
        i
    } else {
        inputs(&q, &mut t.noise())
    };
    let a = ctx.graph(&m.inp, None)?;
    let b = ctx.graph(&second, None)?;
    let r = (|| {
        compare::compare(&a, &m.exp, compare::ALL).map_err(|e| format!("first layout: {}", e))?;
        compare::compare(&b, &q.expect(), compare::ALL).map_err(|e| format!("second layout: {}", e))?;
        let b = without(&b, |n| n.starts_with("unrelated_"));
        let (x, y) = (super::ir::by_function(&a, &m.exp)?, super::ir::by_function(&b, &m.exp)?);
        if x.is_disjoint(&y) {
            return Err(format!(
                "two layouts of the same program give different graphs:\n{}\nand\n{}",
                x.iter().next().unwrap(),
                y.iter().next().unwrap()
            ));
        }
        Ok(())
    })();
    about(r.map_err(|e: String| format!("{}\n  second layout: {}", e, q.describe())), &m.p)?;
    let low = q.funcs.iter().map(|f| f.addr).min().unwrap_or(0);
    let high = q.funcs.iter().map(|f| f.addr).max().unwrap_or(0);
    Ok(Case::new(
        m.exp.edges.len() > 1 && low != m.p.funcs.iter().map(|f| f.addr).min().unwrap_or(0),
        digest(&q),
        format!("{}\n moved: {}", m.p.describe(), q.describe()),
    )
    .class("unrelated functions", extra > 0)
    .class("low addresses", low < 0x1000)
    .class("high addresses", low >= 0xf000_0000)
    .class("far apart", high - low > 0x10_0000)
    .class("function without size", m.p.funcs.iter().any(|f| f.nosize))
    .class("data in the code", m.p.funcs.iter().any(|f| f.code.iter().flatten().any(|x| matches!(x, Item::Data(_)))))
    .class("two functions with the same symbol name", {
        let mut s: Vec<&str> = m.p.funcs.iter().map(|f| &f.names[0].sym[..]).collect();
        let n = s.len();
        s.sort();
        s.dedup();
        s.len() < n
    }))
}
