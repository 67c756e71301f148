//! Properties of the reported graph: C01, C02, C03, C08, C09, C10, C11, C21
use super::*;
use crate::{
    compare::{self, Aspects, NONE},
    dot,
    elf::{self, Elf, Sym, A, PROGBITS, STT_FUNC, STT_NOTYPE, X},
    runner::{Ctx, Directed},
    tape::Noise,
};
use std::collections::{BTreeMap, BTreeSet};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C01",
            run: |c, t| done(c01(c, t)),
            tape: 700,
            quick: 12000,
            thorough: 300000,
            rule: "some node outside recursion calls two or more nodes with different maxima and its maximum exceeds its own usage",
            assumptions: BLACK_BOX,
            directed: &[
                Directed {
                    name: "long-chain",
                    run: |c| done(large(c, 3000, Shape::Chain)),
                    finding: None,
                    quick: true,
                },
                Directed {
                    name: "thousands-of-functions",
                    run: |c| done(large(c, 1500, Shape::Dag)),
                    finding: None,
                    quick: true,
                },
            ],
        },
        Check {
            id: "C02",
            run: |c, t| done(c02(c, t)),
            tape: 700,
            quick: 12000,
            thorough: 300000,
            rule: "the reported graph contains recursion, and a node outside of it or a second cycle",
            assumptions: BLACK_BOX,
            directed: &[
                Directed {
                    name: "large-cycle",
                    run: |c| done(large(c, 1500, Shape::Cycle)),
                    finding: None,
                    quick: true,
                },
                Directed {
                    name: "hundreds-of-cycles",
                    run: |c| done(large(c, 1500, Shape::Cycles)),
                    finding: None,
                    quick: true,
                },
            ],
        },
        Check {
            id: "C03",
            run: |c, t| done(c03(c, t)),
            tape: 700,
            quick: 12000,
            thorough: 300000,
            rule: "some functions have exact maxima and others, which use a known amount themselves, have lower bounds",
            assumptions: BLACK_BOX,
            directed: &[],
        },
        Check {
            id: "C08",
            run: |c, t| done(c08(c, t)),
            tape: 700,
            quick: 12000,
            thorough: 300000,
            rule: "two or more functions have different recorded values, one of which comes from the archive, is recorded under another of its names or needs more than one LEB128 byte",
            assumptions: BLACK_BOX,
            directed: &[Directed {
                name: "mapping-symbols-in-objects",
                run: |c| done(mapping_symbols(c)),
                finding: None,
                quick: true,
            }],
        },
        Check {
            id: "C09",
            run: |c, t| done(c09(c, t)),
            tape: 700,
            quick: 7000,
            thorough: 175000,
            rule: "the start point matches and removes some nodes but keeps more than one, or matches nothing although a name is similar",
            assumptions: BLACK_BOX,
            directed: &[],
        },
        Check {
            id: "C10",
            run: |c, t| done(c10(c, t)),
            tape: 700,
            quick: 12000,
            thorough: 300000,
            rule: "some name needs escaping, or two functions share a path, or a path ends in something similar to a hash",
            assumptions: BLACK_BOX,
            directed: &[],
        },
        Check {
            id: "C11",
            run: |c, t| done(c11(c, t)),
            tape: 700,
            quick: 6000,
            thorough: 150000,
            rule: "the table has three or more rows with two or more different usages",
            assumptions: BLACK_BOX,
            directed: &[],
        },
        Check {
            id: "C21",
            run: |c, t| done(c21(c, t)),
            tape: 700,
            quick: 12000,
            thorough: 300000,
            rule: "some function has several names, is discarded, is undefined or shares its symbol name with another one",
            assumptions: BLACK_BOX,
            directed: &[],
        },
    ]
}

fn c01(ctx: &mut Ctx, t: &mut Tape) -> R<Case> {
    let o = Opts {
        max_funcs: *t.pick(&[10, 6, 16, 24]),
        max_stmts: *t.pick(&[4, 2, 6]),
        acyclic: 80,
        no_info: 4,
        names: (5, 20),
        alias: 10,
        big: 20,
        thunks: 2,
        ..Opts::default()
    };
    let m = make(t, &o);
    let start = if t.chance(15) && !m.p.funcs.is_empty() {
        let f = &m.p.funcs[t.below(m.p.funcs.len())];
        Some(f.names[0].sym.clone()).filter(|s| !s.starts_with('-') && s != "?")
    } else {
        None
    };
    let dot = ctx.graph(&m.inp, start.as_deref())?;
    let u = compare::usage(&dot);
    let mut interesting = false;
    let r = (|| {
        for (i, n) in dot.nodes.iter().enumerate() {
            match n.max {
                None if m.exp.has_info => return Err(format!("no maximum for {}", node(&dot, i))),
                Some(_) if !m.exp.has_info => {
                    return Err(format!("{} has a maximum but there is no usage information", node(&dot, i)))
                }
                Some(got) if !u.recursive[i] && got.n != u.max[i].n => {
                    return Err(format!(
                        "{}: maximum {} reported, the graph implies {}",
                        node(&dot, i),
                        got.n,
                        u.max[i].n
                    ))
                }
                _ => {}
            }
            let below: BTreeSet<u64> = dot.edges.iter().filter(|e| e.0 == i).map(|e| u.max[e.1].n).collect();
            interesting |= !u.recursive[i] && below.len() > 1 && u.max[i].n > n.local.unwrap_or(0);
        }
        Ok(())
    })();
    about(r, &m.p)?;
    Ok(Case::new(interesting && m.exp.has_info, digest(&m.p), m.p.describe())
        .class("no usage information", !m.exp.has_info)
        .class("with start point", start.is_some())
        .class("recursion elsewhere in the graph", recursive(&u))
        .class("unknown usage", dot.nodes.iter().any(|n| n.local.is_none()))
        .class("depth 3 or more", depth(&dot, &u) >= 3)
        .class("empty graph", dot.nodes.is_empty()))
}

fn depth(dot: &Dot, u: &Usage) -> usize {
    let mut d = vec![0; dot.nodes.len()];
    for _ in 0..dot.nodes.len() {
        for (a, b) in &dot.edges {
            if !u.recursive[*a] {
                d[*a] = d[*a].max(d[*b] + 1);
            }
        }
    }
    d.into_iter().max().unwrap_or(0)
}

fn c02(ctx: &mut Ctx, t: &mut Tape) -> R<Case> {
    let o = Opts {
        max_funcs: *t.pick(&[8, 4, 14, 20]),
        max_stmts: *t.pick(&[2, 1, 3, 5]),
        acyclic: 0,
        no_info: 0,
        zero: 25,
        names: (5, 20),
        alias: 10,
        unknown: 25,
        thunks: 2,
        ..Opts::default()
    };
    let m = make(t, &o);
    let start = if t.chance(10) && !m.p.funcs.is_empty() {
        let f = &m.p.funcs[t.below(m.p.funcs.len())];
        Some(f.names[0].sym.clone()).filter(|s| !s.starts_with('-'))
    } else {
        None
    };
    let dot = ctx.graph(&m.inp, start.as_deref())?;
    if !m.exp.has_info {
        return Ok(Case::new(false, digest(&m.p), String::new()).class("no usage information", true));
    }
    let u = compare::usage(&dot);
    let r = (|| {
        let got: BTreeSet<BTreeSet<usize>> = dot.clusters.iter().cloned().collect();
        if got.len() != dot.clusters.len() {
            return Err("a cycle is reported twice".to_string());
        }
        let show = |c: &BTreeSet<usize>| c.iter().map(|i| dot.nodes[*i].name.clone()).collect::<Vec<_>>();
        if let Some(c) = got.iter().find(|c| !u.cycles.contains(*c)) {
            return Err(format!("reported cycle is none: {:?}", show(c)));
        }
        if let Some(c) = u.cycles.iter().find(|c| !got.contains(*c)) {
            return Err(format!("cycle is not reported: {:?}", show(c)));
        }
        for (i, n) in dot.nodes.iter().enumerate() {
            if n.max != Some(u.max[i]) && u.recursive[i] {
                return Err(format!(
                    "{}: maximum {:?} reported, the graph implies {:?}",
                    node(&dot, i),
                    n.max,
                    u.max[i]
                ));
            }
        }
        Ok(())
    })();
    about(r, &m.p)?;
    let inside: BTreeSet<usize> = u.cycles.iter().flatten().copied().collect();
    let single = u.cycles.iter().any(|c| c.len() == 1);
    let multi = u.cycles.iter().any(|c| c.len() > 1);
    let exact_cycle = u.cycles.iter().any(|c| u.max[*c.iter().next().unwrap()].exact);
    let exits = dot.edges.iter().any(|(a, b)| inside.contains(a) && !inside.contains(b));
    Ok(Case::new(
        !u.cycles.is_empty() && (inside.len() < dot.nodes.len() || u.cycles.len() > 1),
        digest(&m.p),
        m.p.describe(),
    )
    .class("function that calls itself only", single)
    .class("cycle of several functions", multi)
    .class("two or more cycles", u.cycles.len() > 1)
    .class("cycle with exact maximum", exact_cycle)
    .class("cycle calls functions outside of it", exits)
    .class("cycle through a function pointer", u.cycles.iter().any(|c| c.iter().any(|i| dot.nodes[*i].dashed)))
    .class("caller of a cycle", dot.edges.iter().any(|(a, b)| !inside.contains(a) && inside.contains(b)))
    .class("no recursion", u.cycles.is_empty()))
}

fn c03(ctx: &mut Ctx, t: &mut Tape) -> R<Case> {
    let o = Opts {
        max_funcs: *t.pick(&[8, 4, 14]),
        max_stmts: *t.pick(&[2, 3, 5]),
        acyclic: 70,
        no_info: 0,
        zero: 12,
        untyped: 30,
        unknown: 30,
        indirect: *t.pick(&[10, 25, 3]),
        undef: 2,
        nosize: 15,
        thunks: 6,
        ..Opts::default()
    };
    let m = make(t, &o);
    let dot = ctx.graph(&m.inp, None)?;
    if !m.exp.has_info {
        return Ok(Case::new(false, digest(&m.p), String::new()).class("no usage information", true));
    }
    let (solid, dashed) = compare::exactness(&m.exp);
    let r = (|| {
        let mut first = None;
        for asg in compare::assignments(&dot, &m.exp)? {
            let mut err = None;
            for (i, j) in asg.iter().enumerate() {
                let n = &dot.nodes[*j];
                match n.max {
                    None => err = Some(format!("no maximum for {}", node(&dot, *j))),
                    Some(x) if x.exact && !solid[i] => {
                        err = Some(format!("{} is uncertain but shown as exact", node(&dot, *j)))
                    }
                    Some(x) if !x.exact && solid[i] => {
                        err = Some(format!("{} is certain but shown as a lower bound", node(&dot, *j)))
                    }
                    _ => {}
                }
            }
            for n in dot.nodes.iter().filter(|n| n.dashed) {
                if let (Some(x), Some(e)) = (n.max, dashed.get(&norm(&n.name))) {
                    if x.exact != *e {
                        err = Some(format!(
                            "function pointer `{}` is shown as {}",
                            n.name,
                            if x.exact { "exact" } else { "a lower bound" }
                        ));
                    }
                }
            }
            match err {
                None => return Ok(()),
                Some(e) => {
                    first.get_or_insert(e);
                }
            }
        }
        Err(first.unwrap())
    })();
    about(r, &m.p)?;
    let known_but_lower = (0..m.exp.nodes.len()).any(|i| m.exp.nodes[i].local.is_some() && !solid[i]);
    Ok(Case::new(
        known_but_lower && solid.iter().any(|x| *x),
        digest(&m.p),
        m.p.describe(),
    )
    .class("unknown usage", m.exp.nodes[..m.p.funcs.len()].iter().any(|n| n.local.is_none()))
    .class("calls an undefined function", !m.exp.undef_node.is_empty())
    .class("indirect call in machine code", !m.exp.question.is_empty())
    .class("function pointer without candidates", m.exp.dashed.values().any(|d| d.callees.is_empty()))
    .class("function pointer in an untyped program", m.exp.untyped && !m.exp.dashed.is_empty())
    .class("function pointer, all known", m.exp.dashed.values().any(|d| !d.question))
    .class("everything exact", solid.iter().all(|x| *x)))
}

fn c08(ctx: &mut Ctx, t: &mut Tape) -> R<Case> {
    let o = Opts {
        targets: if t.chance(25) { ANY } else { OTHER },
        max_funcs: *t.pick(&[8, 4, 16, 30]),
        max_stmts: 2,
        alias: 35,
        big: 50,
        unknown: 40,
        dead: 4,
        dup: 20,
        indirect: 3,
        ..Opts::default()
    };
    let m = make(t, &o);
    let dot = ctx.graph(&m.inp, None)?;
    about(
        compare::compare(
            &dot,
            &m.exp,
            Aspects {
                nodes: true,
                local: true,
                ..NONE
            },
        ),
        &m.p,
    )?;
    let recs: Vec<&Rec> = m.p.funcs.iter().filter_map(|f| f.rec.as_ref()).collect();
    let vals: BTreeSet<u64> = recs.iter().map(|r| r.val).collect();
    let member = recs.iter().any(|r| r.member.is_some());
    let alias = m.p.funcs.iter().any(|f| f.rec.as_ref().map(|r| r.names.len() < f.names.len()).unwrap_or(false));
    let big = vals.iter().any(|v| *v > 127);
    Ok(Case::new(
        vals.len() > 1 && (member || alias || big),
        digest(&m.p),
        m.p.describe(),
    )
    .class("value from the archive", member)
    .class("recorded under some of several names", alias)
    .class("value of two or more bytes", big)
    .class("value above 32 bits", vals.iter().any(|v| *v > u32::MAX as u64))
    .class("function without a value", recs.len() < m.p.funcs.len())
    .class("value of a discarded function", m.p.dead.iter().any(|d| d.rec.is_some()))
    .class("ELF64", crate::artifacts::arch(m.p.target).is64)
    .class("several archive members", m.p.members > 1))
}

fn c21(ctx: &mut Ctx, t: &mut Tape) -> R<Case> {
    let o = Opts {
        max_funcs: *t.pick(&[6, 3, 12]),
        max_stmts: 4,
        alias: 60,
        dead: 5,
        undef: 4,
        double_def: 15,
        dup: 40,
        nosize: 10,
        indirect: 6,
        thunks: 4,
        ..Opts::default()
    };
    let m = make(t, &o);
    let dot = ctx.graph(&m.inp, None)?;
    about(
        compare::compare(
            &dot,
            &m.exp,
            Aspects {
                nodes: true,
                edges: true,
                local: true,
                ..NONE
            },
        ),
        &m.p,
    )?;
    let alias = m.p.funcs.iter().any(|f| f.names.len() > 1);
    let mut syms: Vec<&str> = m.p.funcs.iter().map(|f| &f.names[0].sym[..]).collect();
    let all = syms.len();
    syms.sort();
    syms.dedup();
    let dup = syms.len() < all;
    Ok(Case::new(
        alias || !m.p.dead.is_empty() || !m.exp.undef_node.is_empty() || dup,
        digest(&m.p),
        m.p.describe(),
    )
    .class("function with several names", alias)
    .class("IR under two names of a function", m.p.funcs.iter().any(|f| f.defs.len() > 1))
    .class("discarded functions", !m.p.dead.is_empty())
    .class("undefined function is called", !m.exp.undef_node.is_empty())
    .class("undefined function is not called", m.exp.undef_node.len() < m.p.undefs.len())
    .class("two functions with the same symbol name", dup)
    .class("empty program", m.p.funcs.is_empty()))
}

// ---- C09

/// the part of the graph that can be reached from `start`
pub fn induced(dot: &Dot, start: usize) -> Dot {
    let mut keep: BTreeSet<usize> = BTreeSet::new();
    let mut todo = vec![start];
    while let Some(x) = todo.pop() {
        if keep.insert(x) {
            todo.extend(dot.edges.iter().filter(|e| e.0 == x).map(|e| e.1));
        }
    }
    let new: BTreeMap<usize, usize> = keep.iter().enumerate().map(|(a, b)| (*b, a)).collect();
    Dot {
        nodes: keep.iter().map(|i| dot.nodes[*i].clone()).collect(),
        edges: dot
            .edges
            .iter()
            .filter(|e| keep.contains(&e.0))
            .map(|e| (new[&e.0], new[&e.1]))
            .collect(),
        clusters: dot
            .clusters
            .iter()
            .filter(|c| c.iter().all(|i| keep.contains(i)))
            .map(|c| c.iter().map(|i| new[i]).collect())
            .collect(),
    }
}

fn c09(ctx: &mut Ctx, t: &mut Tape) -> R<Case> {
    let o = Opts {
        max_funcs: *t.pick(&[8, 4, 14]),
        max_stmts: *t.pick(&[2, 3]),
        acyclic: 60,
        no_info: 2,
        names: (10, 70),
        alias: 35,
        indirect: 15,
        thunks: 3,
        ..Opts::default()
    };
    let mut p = generate(t, &o);
    if t.chance(50) {
        share_paths(t, &mut p, 25);
    }
    let inp = inputs(&p, &mut t.noise());
    let exp = p.expect();
    let m = Made { p, inp, exp };
    let p = &m.p;
    if p.funcs.is_empty() {
        return Ok(Case::new(false, 0, String::new()).class("empty program", true));
    }
    // what the user types
    let (fi, ni) = {
        let f = t.below(p.funcs.len());
        (f, t.below(p.funcs[f].names.len()))
    };
    let undefined = !p.undefs.is_empty() && t.chance(8);
    let name = if undefined {
        &p.undefs[t.below(p.undefs.len())].name
    } else {
        &p.funcs[fi].names[ni]
    };
    let kind = t.weighted(&[30, 35, 35]);
    let start = match kind {
        0 => name.sym.clone(),
        1 => name.path().to_string(),
        _ => {
            // similar to a name, but none
            let b = name.path().to_string();
            let s = name.sym.clone();
            match t.below(9) {
                0 => b[1..].chars().skip_while(|c| !c.is_ascii()).collect(),
                1 => b.split("::").last().unwrap().to_string(),
                2 => b.split("::").next().unwrap().to_string(),
                3 => format!("{}x", b),
                4 => format!("x{}", b),
                5 => name.full.clone() + "0",
                6 => s[..s.len() - 1].to_string(),
                7 => format!("::{}", b),
                _ => b.to_uppercase(),
            }
        }
    };
    if start.is_empty() || start.starts_with('-') || start.contains('\0') || !start.is_ascii() {
        return Ok(Case::new(false, 0, String::new()));
    }
    // functions that match: also undefined ones, if they are called
    let nodes: Vec<(usize, Vec<&Name>)> = p
        .funcs
        .iter()
        .enumerate()
        .map(|(i, f)| (i, f.names.iter().collect()))
        .chain(m.exp.undef_node.iter().map(|(u, k)| (*k, vec![&p.undefs[*u].name])))
        .collect();
    let by_sym: Vec<usize> = nodes.iter().filter(|(_, names)| names.iter().any(|n| n.sym == start)).map(|x| x.0).collect();
    let by_path: Vec<usize> = nodes
        .iter()
        .filter(|(_, names)| names.iter().any(|n| n.short.as_deref() == Some(&start[..])))
        .map(|x| x.0)
        .collect();
    // not specified: a symbol that is also a path
    if by_sym.len() > 1 || (by_sym.len() == 1 && by_path.iter().any(|i| !by_sym.contains(i))) {
        return Ok(Case::new(false, 0, String::new()).class("ambiguous request", true));
    }
    let hit = match (&by_sym[..], &by_path[..]) {
        ([f], _) => Some(*f),
        ([], [f]) => Some(*f),
        _ => None,
    };
    let full = ctx.graph(&m.inp, None)?;
    let out = ctx.run(&m.inp, None, Some(&start))?;
    let got = ctx.graph_of(&out)?;
    let mut kept = 0;
    let r = (|| {
        let complained = out.err().lines().any(|l| l.contains("ERROR") && (l.contains("start point") || l.contains("multiple matches")));
        match hit {
            None => {
                if compare::canonical(&got) != compare::canonical(&full) {
                    return Err(format!("start point {:?} matches {:?} but the graph is filtered", start, by_path));
                }
                if !out.err().contains("ERROR") {
                    return Err(format!("start point {:?} matches {:?} but no error is logged", start, by_path));
                }
                Ok(())
            }
            Some(f) => {
                if complained {
                    return Err(format!("start point {:?} is function {} but an error is logged", start, f));
                }
                let labels = &m.exp.nodes[f].labels;
                let roots: Vec<usize> = (0..full.nodes.len())
                    .filter(|i| !full.nodes[*i].dashed && labels.contains(&full.nodes[*i].name))
                    .collect();
                let want: Vec<Dot> = roots.iter().map(|r| induced(&full, *r)).collect();
                if want.is_empty() {
                    return Err(format!("no node for function {}", f));
                }
                kept = want[0].nodes.len();
                if want.iter().any(|w| compare::canonical(w) == compare::canonical(&got)) {
                    Ok(())
                } else {
                    Err(format!(
                        "start point {:?}:\n{}\nreported, expected\n{}",
                        start,
                        compare::canonical(&got),
                        compare::canonical(&want[0])
                    ))
                }
            }
        }
    })();
    about(r, p)?;
    let cut = kept > 1 && kept < full.nodes.len();
    Ok(Case::new(
        cut || (hit.is_none() && kind == 2),
        digest(p) ^ fnv(start.as_bytes()),
        format!("start {:?}; {}", start, p.describe()),
    )
    .class("by symbol name", hit.is_some() && kind == 0)
    .class("by path", hit.is_some() && kind == 1 && name.short.is_some())
    .class("by an alias", hit.is_some() && !undefined && ni > 0)
    .class("undefined function", hit.is_some() && undefined)
    .class("several matches", by_path.len() > 1 && by_sym.is_empty())
    .class("similar to a name, no match", hit.is_none() && by_path.is_empty())
    .class("part of the graph is kept", cut)
    .class("cycle is kept", !got.clusters.is_empty())
    .class("cycle is removed", got.clusters.len() < full.clusters.len()))
}

// ---- C10

fn wild(n: &mut Noise) -> String {
    const BITS: &[&str] = &[
        "\"", "\\", "\\n", "\n", "\t", "\\\"", "\\\\", "<", ">", "{", "}", "|", "é", "λ", "日本", "\u{1F980}", "'", "&", ";", "->", "[", "]", "\\l",
        "\nmax = 5", "\\nlocal = 3", "\"]", "//", "/*", "#", "a", "b", " ", "label", "\r", "\u{7f}", "\u{1}", "::", "%", "digraph {", "\\N", "\\G",
    ];
    let k = n.range(1, 6);
    (0..k).map(|_| *n.pick(BITS)).collect()
}

fn c10(ctx: &mut Ctx, t: &mut Tape) -> R<Case> {
    let o = Opts {
        max_funcs: *t.pick(&[8, 4, 14]),
        max_stmts: 2,
        names: (25, 65),
        untyped: 60,
        undef: 3,
        indirect: *t.pick(&[10, 30]),
        rich_types: t.chance(40),
        alias: 12,
        replace: 0,
        ..Opts::default()
    };
    let mut p = generate(t, &o);
    let mut nz = t.noise();
    // a few functions that do not appear in the IR get arbitrary names
    let mut escapes = false;
    for i in 0..p.funcs.len() {
        let f = &p.funcs[i];
        if f.defs.is_empty() && f.decls.is_empty() && !f.outlined && t.chance(60) {
            for k in 0..f.names.len() {
                let nm = format!("{}{}{}", if nz.chance(50) { "" } else { "w" }, wild(&mut nz), i * 10 + k);
                if nm.starts_with('$') {
                    continue;
                }
                p.funcs[i].names[k] = Name::plain(nm);
                escapes = true;
            }
        }
    }
    let same = share_paths(t, &mut p, 20);
    let inp = inputs(&p, &mut t.noise());
    let exp = p.expect();
    let start = if t.chance(10) && !p.funcs.is_empty() {
        let f = &p.funcs[t.below(p.funcs.len())];
        Some(f.names[0].sym.clone()).filter(|s| !s.starts_with('-'))
    } else {
        None
    };
    let dot = ctx.graph(&inp, None)?;
    let r = (|| {
        compare::compare(
            &dot,
            &exp,
            Aspects {
                nodes: true,
                ..NONE
            },
        )?;
        // functions with different symbols never share a label
        let mut seen = BTreeSet::new();
        for n in dot.nodes.iter().filter(|n| !n.dashed && n.name != "?") {
            if !seen.insert(&n.name) {
                return Err(format!("two functions are labelled `{}`", n.name));
            }
        }
        // neither do function pointers of different types
        let mut types = BTreeSet::new();
        for n in dot.nodes.iter().filter(|n| n.dashed) {
            if !types.insert(norm(&n.name)) {
                return Err(format!("two types are labelled `{}`", n.name));
            }
        }
        if let Some(k) = exp.dashed.keys().find(|k| !types.contains(*k)) {
            return Err(format!("no node is labelled `{}`: {:?}", k, types));
        }
        Ok(())
    })();
    about(r, &p)?;
    if let Some(s) = &start {
        ctx.graph(&inp, Some(s))?;
    }
    let hashlike = p
        .funcs
        .iter()
        .flat_map(|f| &f.names)
        .any(|n| n.path().split("::").last().map(|x| x.len() >= 16 && x.len() <= 18).unwrap_or(false));
    let shared = exp.nodes[..p.funcs.len()].iter().zip(&p.funcs).any(|(e, f)| {
        f.names.len() == 1 && f.names[0].short.is_some() && !e.labels.contains(f.names[0].path())
    });
    Ok(Case::new(escapes || shared || hashlike, digest(&p), p.describe())
        .class("arbitrary characters", escapes)
        .class("paths shared on purpose", same)
        .class("hash has to be kept", shared)
        .class("hash is removed", p.funcs.iter().any(|f| f.names[0].short.is_some()))
        .class("v0 mangling", p.funcs.iter().any(|f| f.names[0].sym.starts_with("_RNv")))
        .class("looks like a hash", hashlike)
        .class("function pointers", !exp.dashed.is_empty()))
}

// ---- C11

fn c11(ctx: &mut Ctx, t: &mut Tape) -> R<Case> {
    let o = Opts {
        max_funcs: *t.pick(&[8, 4, 14, 30]),
        max_stmts: *t.pick(&[2, 3]),
        no_info: 4,
        names: (20, 50),
        unknown: 50,
        big: 40,
        ..Opts::default()
    };
    let m = make(t, &o);
    let start = if t.chance(35) && !m.p.funcs.is_empty() {
        let f = &m.p.funcs[t.below(m.p.funcs.len())];
        Some(f.names[0].sym.clone()).filter(|s| !s.starts_with('-'))
    } else {
        None
    };
    ctx.sb.populate(&m.inp);
    let explicit = t.chance(30);
    let out = ctx.run(&m.inp, if explicit { Some("dot") } else { None }, start.as_deref())?;
    let dot = ctx.graph_of(&out)?;
    let out = ctx.run(&m.inp, Some("top"), start.as_deref())?;
    if !out.ok() {
        return fail(format!("`--format top` fails where `--format dot` succeeds: {}", out.tail()));
    }
    let mut values = BTreeSet::new();
    let r = (|| {
        let text = std::str::from_utf8(&out.stdout).map_err(|_| "output is not UTF-8".to_string())?;
        let top = dot::parse_top(text)?;
        let want_max = dot.nodes.iter().map(|n| n.max.map(|m| m.n).unwrap_or(0)).max();
        if top.max != want_max {
            return Err(format!("MAX line {:?}, largest maximum of the graph {:?}", top.max, want_max));
        }
        let mut want: Vec<(u64, String)> = dot.nodes.iter().map(|n| (n.local.unwrap_or(0), n.name.clone())).collect();
        let mut got: Vec<(u64, String)> = vec![];
        for (u, n) in &top.rows {
            values.insert(*u);
            got.push((*u, dot::unescape(n)?));
        }
        for w in got.windows(2) {
            if w[0].0 < w[1].0 {
                return Err(format!("`{}` ({}) comes before `{}` ({})", w[0].1, w[0].0, w[1].1, w[1].0));
            }
        }
        want.sort();
        got.sort();
        if want != got {
            let missing: Vec<_> = want.iter().filter(|x| !got.contains(x)).collect();
            let extra: Vec<_> = got.iter().filter(|x| !want.contains(x)).collect();
            return Err(format!("rows missing: {:?}; rows that are too many: {:?}; {} rows, {} nodes", missing, extra, got.len(), want.len()));
        }
        Ok(())
    })();
    about(r, &m.p)?;
    Ok(Case::new(dot.nodes.len() >= 3 && values.len() >= 2, digest(&m.p), m.p.describe())
        .class("with start point", start.is_some())
        .class("unknown usage", dot.nodes.iter().any(|n| n.local.is_none()))
        .class("function pointers", dot.nodes.iter().any(|n| n.dashed))
        .class("no usage information", !m.exp.has_info)
        .class("empty table", dot.nodes.is_empty())
        .class("more than 20 rows", dot.nodes.len() > 20))
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Shape {
    Chain,
    Dag,
    Cycle,
    Cycles,
}

/// as large as real programs, and deeper
fn large(ctx: &mut Ctx, n: usize, shape: Shape) -> R<Case> {
    let mut t = Tape::new(vec![]);
    let mut p = generate(
        &mut t,
        &Opts {
            targets: &["x86_64-unknown-linux-gnu"],
            max_funcs: 2,
            ..Opts::default()
        },
    );
    let mut noise = Noise::new(0x1a59e + shape as u64);
    let f = p.funcs[0].clone();
    p.undefs.clear();
    p.dead.clear();
    p.members = 1;
    p.funcs = (0..n)
        .map(|i| {
            let mut callees: Vec<usize> = match shape {
                Shape::Chain => vec![i + 1],
                Shape::Dag => (0..noise.below(6)).map(|_| i + 1 + noise.below(40)).collect(),
                Shape::Cycle => vec![(i + 1) % n],
                // groups of ten, each calls the next
                Shape::Cycles => vec![i + 1, i / 10 * 10],
            };
            if shape == Shape::Cycle && i % 100 == 7 {
                callees.push(noise.below(n));
            }
            let mut f = f.clone();
            f.names = vec![Name::plain(format!("f{}", (i * 7919) % 999983))];
            f.is_func = vec![true];
            f.global = vec![true];
            f.addr = 0x1000 + 0x40 * i as u64;
            f.size = 0x20;
            f.decls = vec![];
            f.aliases = vec![];
            f.defs = vec![Def {
                module: Module::App,
                name: 0,
                sig: Sig { ret: None, params: vec![] },
                stmts: callees.into_iter().filter(|c| *c < n).map(|c| Stmt::Call(Callee::Func(c, 0))).collect(),
            }];
            f.rec = Some(Rec {
                names: vec![0],
                val: 8 * noise.below(50) as u64,
                member: None,
            });
            f
        })
        .collect();
    let inp = inputs(&p, &mut Noise::new(0));
    let dot = ctx.graph(&inp, None)?;
    let u = compare::usage(&dot);
    if dot.nodes.len() != n {
        return fail(format!("{} nodes for {} functions ({:?})", dot.nodes.len(), n, shape));
    }
    if dot.clusters.len() != u.cycles.len() || !dot.clusters.iter().all(|c| u.cycles.contains(c)) {
        return fail(format!("{} cycles reported, the graph has {} ({:?}, {} functions)", dot.clusters.len(), u.cycles.len(), shape, n));
    }
    for (i, d) in dot.nodes.iter().enumerate() {
        if d.max != Some(u.max[i]) {
            return fail(format!("{}: maximum {:?} reported, the graph implies {:?} ({:?}, {} functions)", node(&dot, i), d.max, u.max[i], shape, n));
        }
    }
    // by another way
    if shape == Shape::Chain {
        let sum: u64 = p.funcs.iter().map(|f| f.rec.as_ref().unwrap().val).sum();
        if dot.nodes.iter().filter_map(|d| d.max).map(|m| m.n).max() != Some(sum) {
            return fail("the maximum of a chain is not the sum of what its functions use");
        }
    }
    Ok(Case::new(true, n as u64, format!("{:?} of {} functions", shape, n)))
}

/// object files as LLVM 17 writes them for AArch64: each section starts with a mapping symbol, the
/// symbols are numbered from zero in each object, and the linker keeps all of them
fn mapping_symbols(ctx: &mut Ctx) -> R<Case> {
    const N: usize = 12;
    let target = "aarch64-unknown-none-softfloat";
    let mut t = Tape::new(vec![]);
    let mut p = generate(
        &mut t,
        &Opts {
            targets: &["aarch64-unknown-none-softfloat"],
            max_funcs: 2,
            ..Opts::default()
        },
    );
    assert_eq!(p.target, target);
    let f = p.funcs[0].clone();
    p.undefs.clear();
    p.dead.clear();
    p.members = 1;
    p.funcs = (0..2 * N)
        .map(|i| {
            let mut f = f.clone();
            f.names = vec![Name::plain(format!("f{}", i))];
            f.is_func = vec![true];
            f.global = vec![true];
            f.addr = 0x1000 + 0x40 * i as u64;
            f.size = 0x20;
            f.decls = vec![];
            f.aliases = vec![];
            f.defs = vec![];
            f.rec = Some(Rec {
                names: vec![0],
                val: 16 * (i as u64 + 1),
                member: if i < N { None } else { Some(0) },
            });
            f
        })
        .collect();
    let mut inp = inputs(&p, &mut Noise::new(0));
    let tagged = |range: std::ops::Range<usize>| {
        let mut e = Elf::new(true, 183, false);
        for (k, i) in range.enumerate() {
            let s = e.section(&format!(".text.f{}", i), PROGBITS, A | X, 0, vec![0; 0x20]) as u16 + 1;
            let sym = |name: String, size, ty, global| Sym {
                name,
                value: 0,
                size,
                ty,
                global,
                shndx: s,
            };
            let at = e.syms.len();
            e.syms.push(sym(format!("f{}", i), 0x20, STT_FUNC, true));
            e.syms.push(sym(format!("$x.{}", k), 0, STT_NOTYPE, false));
            let mut d = vec![0; 8];
            d.extend(elf::uleb(16 * (i as u64 + 1), 0));
            let ss = e.section(".stack_sizes", PROGBITS, 0x80, 0, d);
            e.relocs.push((ss, true, vec![(0, at, 257)]));
        }
        e.build()
    };
    inp.obj = tagged(0..N);
    inp.rlib = elf::archive(&[("compiler_builtins-0.o".to_string(), tagged(N..2 * N))], true);
    let mut e = Elf::new(true, 183, true);
    let k = e.section(".text", PROGBITS, A | X, 0x1000, vec![0; 0x40 * 2 * N]) as u16 + 1;
    for i in 0..2 * N {
        let sym = |name: String, size, ty, global| Sym {
            name,
            value: 0x1000 + 0x40 * i as u64,
            size,
            ty,
            global,
            shndx: k,
        };
        e.syms.push(sym(format!("f{}", i), 0x20, STT_FUNC, true));
        e.syms.push(sym(format!("$x.{}", i % N), 0, STT_NOTYPE, false));
    }
    inp.elf = e.build();
    // each run of the tool takes other names
    for _ in 0..4 {
        let dot = ctx.graph(&inp, None)?;
        about(
            compare::compare(
                &dot,
                &p.expect(),
                Aspects {
                    nodes: true,
                    local: true,
                    ..NONE
                },
            ),
            &p,
        )?;
    }
    Ok(Case::new(true, 0, "objects with mapping symbols".into()))
}
