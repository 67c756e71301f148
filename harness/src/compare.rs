//! Compares a reported graph with what is expected, one aspect at a time.
use crate::{
    dot::{Dot, Max},
    model::{norm, Exp},
};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug)]
pub struct Aspects {
    pub nodes: bool,
    pub local: bool,
    pub edges: bool,
    pub dashed: bool,
    pub question: bool,
}

pub const ALL: Aspects = Aspects {
    nodes: true,
    local: true,
    edges: true,
    dashed: true,
    question: true,
};
pub const NONE: Aspects = Aspects {
    nodes: false,
    local: false,
    edges: false,
    dashed: false,
    question: false,
};

pub fn assignments(dot: &Dot, exp: &Exp) -> Result<Vec<Vec<usize>>, String> {
    // expected node -> reported nodes that could be it
    let solid: Vec<usize> = (0..dot.nodes.len())
        .filter(|i| !dot.nodes[*i].dashed && dot.nodes[*i].name != "?")
        .collect();
    let mut by_label: BTreeMap<&str, Vec<usize>> = BTreeMap::new();
    for j in &solid {
        by_label.entry(&dot.nodes[*j].name).or_default().push(*j);
    }
    let mut cand: Vec<Vec<usize>> = vec![];
    for (i, e) in exp.nodes.iter().enumerate() {
        let mut c: Vec<usize> = e.labels.iter().flat_map(|l| by_label.get(&l[..]).cloned().unwrap_or_default()).collect();
        c.sort();
        if c.is_empty() {
            return Err(format!("no node for function {} (any of {:?})", i, e.labels));
        }
        cand.push(c);
    }
    if solid.len() != exp.nodes.len() {
        let extra: Vec<&str> = solid
            .iter()
            .filter(|j| !cand.iter().any(|c| c.contains(j)))
            .map(|j| &dot.nodes[*j].name[..])
            .collect();
        return Err(format!(
            "{} nodes for {} functions; unexpected: {:?}",
            solid.len(),
            exp.nodes.len(),
            extra
        ));
    }
    let mut order: Vec<usize> = (0..cand.len()).collect();
    order.sort_by_key(|i| cand[*i].len());
    let mut out = vec![];
    let mut cur = vec![usize::MAX; cand.len()];
    let mut used = BTreeSet::new();
    fn go(
        k: usize,
        order: &[usize],
        cand: &[Vec<usize>],
        cur: &mut Vec<usize>,
        used: &mut BTreeSet<usize>,
        out: &mut Vec<Vec<usize>>,
    ) {
        if out.len() >= 150 {
            return;
        }
        if k == order.len() {
            out.push(cur.clone());
            return;
        }
        let i = order[k];
        for &j in &cand[i] {
            if used.insert(j) {
                cur[i] = j;
                go(k + 1, order, cand, cur, used, out);
                used.remove(&j);
            }
        }
    }
    go(0, &order, &cand, &mut cur, &mut used, &mut out);
    if out.is_empty() {
        return Err("two functions share a label".into());
    }
    Ok(out)
}

pub fn compare(dot: &Dot, exp: &Exp, a: Aspects) -> Result<(), String> {
    let assignments = assignments(dot, exp)?;
    let mut first = None;
    for asg in &assignments {
        match with_assignment(dot, exp, a, asg) {
            Ok(()) => return Ok(()),
            Err(e) => {
                first.get_or_insert(e);
            }
        }
    }
    Err(first.unwrap())
}

fn with_assignment(dot: &Dot, exp: &Exp, a: Aspects, asg: &[usize]) -> Result<(), String> {
    let mut back: BTreeMap<usize, usize> = BTreeMap::new();
    for (i, j) in asg.iter().enumerate() {
        back.insert(*j, i);
    }
    let lab = |j: usize| &dot.nodes[j].name[..];
    if a.local {
        for (i, j) in asg.iter().enumerate() {
            let got = dot.nodes[*j].local;
            if got != exp.nodes[i].local {
                return Err(format!(
                    "`{}`: local usage {:?} reported, {:?} expected",
                    lab(*j),
                    got,
                    exp.nodes[i].local
                ));
            }
        }
    }
    let solid = |j: &usize| back.contains_key(j);
    if a.edges {
        let mut seen = BTreeSet::new();
        for (x, y) in dot.edges.iter().filter(|(x, y)| solid(x) && solid(y)) {
            let k = (back[x], back[y]);
            if !seen.insert(k) {
                return Err(format!("edge `{}` -> `{}` appears twice", lab(*x), lab(*y)));
            }
            if !exp.edges.contains(&k) {
                return Err(format!("unexpected edge `{}` -> `{}`", lab(*x), lab(*y)));
            }
        }
        if let Some((x, y)) = exp.edges.iter().find(|k| !seen.contains(k)) {
            return Err(format!("missing edge `{}` -> `{}`", lab(asg[*x]), lab(asg[*y])));
        }
    }
    if a.dashed {
        let mut seen = BTreeSet::new();
        for (j, node) in dot.nodes.iter().enumerate().filter(|(_, n)| n.dashed) {
            let name = node
                .name
                .strip_suffix('*')
                .ok_or_else(|| format!("dashed node `{}`", node.name))?;
            let key = norm(&format!("{}*", name));
            let e = exp
                .dashed
                .get(&key)
                .ok_or_else(|| format!("unexpected function pointer node `{}`", node.name))?;
            if !seen.insert(key) {
                return Err(format!("two function pointer nodes `{}`", node.name));
            }
            if node.local != Some(0) {
                return Err(format!("function pointer node `{}` has local usage {:?}", node.name, node.local));
            }
            let mut callers = BTreeSet::new();
            let mut callees = BTreeSet::new();
            for (x, y) in &dot.edges {
                if *y == j {
                    let Some(i) = back.get(x) else {
                        return Err(format!("`{}` calls `{}`", lab(*x), node.name));
                    };
                    if !callers.insert(*i) {
                        return Err(format!("edge `{}` -> `{}` appears twice", lab(*x), node.name));
                    }
                }
                if *x == j && dot.nodes[*y].name != "?" {
                    let Some(i) = back.get(y) else {
                        return Err(format!("`{}` calls `{}`", node.name, lab(*y)));
                    };
                    if !callees.insert(*i) {
                        return Err(format!("edge `{}` -> `{}` appears twice", node.name, lab(*y)));
                    }
                }
            }
            let show = |s: &BTreeSet<usize>| s.iter().map(|i| lab(asg[*i]).to_string()).collect::<Vec<_>>();
            if callers != e.callers {
                return Err(format!(
                    "function pointer `{}`: callers {:?} reported, {:?} expected",
                    node.name,
                    show(&callers),
                    show(&e.callers)
                ));
            }
            if callees != e.callees {
                return Err(format!(
                    "function pointer `{}`: callees {:?} reported, {:?} expected",
                    node.name,
                    show(&callees),
                    show(&e.callees)
                ));
            }
        }
        if let Some(k) = exp.dashed.keys().find(|k| !seen.contains(*k)) {
            return Err(format!("no function pointer node for `{}`", k));
        }
    }
    if a.question {
        let calls_unknown = |j: usize| {
            dot.edges
                .iter()
                .any(|(x, y)| *x == j && !dot.nodes[*y].dashed && dot.nodes[*y].name == "?")
        };
        for (j, n) in dot.nodes.iter().enumerate() {
            if !n.dashed && n.name == "?" && n.local.is_some() {
                return Err("unknown function has a known usage".into());
            }
        }
        for (i, j) in asg.iter().enumerate() {
            if calls_unknown(*j) != exp.question.contains(&i) {
                return Err(format!(
                    "`{}` {} a call to an unknown function",
                    lab(*j),
                    if calls_unknown(*j) { "has" } else { "lacks" }
                ));
            }
        }
        for (j, n) in dot.nodes.iter().enumerate().filter(|(_, n)| n.dashed) {
            if let Some(e) = exp.dashed.get(&norm(&n.name)) {
                if e.question != calls_unknown(j) {
                    return Err(format!(
                        "function pointer `{}` {} an edge to an unknown function",
                        n.name,
                        if e.question { "lacks" } else { "has" }
                    ));
                }
            }
        }
    }
    Ok(())
}

/// whether the maximum of each node (functions, then function pointers) is exact
pub fn exactness(exp: &Exp) -> (Vec<bool>, BTreeMap<String, bool>) {
    let n = exp.nodes.len();
    let keys: Vec<&String> = exp.dashed.keys().collect();
    let mut edges: Vec<(usize, usize)> = exp.edges.iter().copied().collect();
    for (k, key) in keys.iter().enumerate() {
        let d = &exp.dashed[*key];
        edges.extend(d.callers.iter().map(|c| (*c, n + k)));
        edges.extend(d.callees.iter().map(|c| (n + k, *c)));
    }
    let total = n + keys.len();
    let mut bad = vec![false; total];
    for i in 0..n {
        bad[i] = exp.nodes[i].local.is_none() || exp.question.contains(&i);
    }
    for (k, key) in keys.iter().enumerate() {
        bad[n + k] = exp.dashed[*key].question;
    }
    for c in sccs(total, &edges) {
        if c.len() > 1 || edges.contains(&(c[0], c[0])) {
            if c.iter().any(|i| *i < n && exp.nodes[*i].local.unwrap_or(0) > 0) {
                for i in c {
                    bad[i] = true;
                }
            }
        }
    }
    loop {
        let mut changed = false;
        for (a, b) in &edges {
            if bad[*b] && !bad[*a] {
                bad[*a] = true;
                changed = true;
            }
        }
        if !changed {
            break;
        }
    }
    (
        (0..n).map(|i| !bad[i]).collect(),
        keys.iter().enumerate().map(|(k, key)| ((*key).clone(), !bad[n + k])).collect(),
    )
}

// ---- the reported graph on its own

/// strongly connected components, callees first
pub fn sccs(n: usize, edges: &[(usize, usize)]) -> Vec<Vec<usize>> {
    // reachability by repeated search: small graphs, and nothing like what the tool does
    let mut succ = vec![vec![]; n];
    for (a, b) in edges {
        succ[*a].push(*b);
    }
    let mut reach = vec![vec![false; n]; n];
    for s in 0..n {
        let mut todo = vec![s];
        while let Some(x) = todo.pop() {
            for y in &succ[x] {
                if !reach[s][*y] {
                    reach[s][*y] = true;
                    todo.push(*y);
                }
            }
        }
    }
    let mut out: Vec<Vec<usize>> = vec![];
    let mut done = vec![false; n];
    for i in 0..n {
        if !done[i] {
            let c: Vec<usize> = (0..n).filter(|j| i == *j || reach[i][*j] && reach[*j][i]).collect();
            for j in &c {
                done[*j] = true;
            }
            out.push(c);
        }
    }
    out
}

pub struct Usage {
    /// expected maximum of each node
    pub max: Vec<Max>,
    /// components with recursion
    pub cycles: BTreeSet<BTreeSet<usize>>,
    /// whether the node is in or reaches recursion
    pub recursive: Vec<bool>,
}

/// what the reported locals and edges imply
pub fn usage(dot: &Dot) -> Usage {
    let n = dot.nodes.len();
    let comps = sccs(n, &dot.edges);
    let mut comp_of = vec![0; n];
    for (c, v) in comps.iter().enumerate() {
        for i in v {
            comp_of[*i] = c;
        }
    }
    let mut memo: Vec<Option<(Max, bool)>> = vec![None; comps.len()];
    let mut cycles = BTreeSet::new();
    for v in &comps {
        if v.len() > 1 || dot.edges.contains(&(v[0], v[0])) {
            cycles.insert(v.iter().copied().collect::<BTreeSet<_>>());
        }
    }
    fn go(
        c: usize,
        dot: &Dot,
        comps: &[Vec<usize>],
        comp_of: &[usize],
        memo: &mut Vec<Option<(Max, bool)>>,
    ) -> (Max, bool) {
        if let Some(m) = memo[c] {
            return m;
        }
        let v = &comps[c];
        let cyc = v.len() > 1 || dot.edges.contains(&(v[0], v[0]));
        let mut local = Max { n: 0, exact: true };
        for i in v {
            match dot.nodes[*i].local {
                Some(k) => local.n = local.n.max(k),
                None => local.exact = false,
            }
        }
        if cyc && local.n > 0 {
            local.exact = false;
        }
        let mut below = Max { n: 0, exact: true };
        let mut rec = cyc;
        for (a, b) in &dot.edges {
            if comp_of[*a] == c && comp_of[*b] != c {
                let (m, r) = go(comp_of[*b], dot, comps, comp_of, memo);
                below.n = below.n.max(m.n);
                below.exact &= m.exact;
                rec |= r;
            }
        }
        let m = (
            Max {
                n: local.n + below.n,
                exact: local.exact && below.exact,
            },
            rec,
        );
        memo[c] = Some(m);
        m
    }
    let mut max = vec![];
    let mut recursive = vec![];
    for i in 0..n {
        let (m, r) = go(comp_of[i], dot, &comps, &comp_of, &mut memo);
        max.push(m);
        recursive.push(r);
    }
    Usage { max, cycles, recursive }
}

/// the graph with everything node numbers decide removed, for comparing two outputs
pub fn canonical(dot: &Dot) -> String {
    // labels may repeat (`?`), so refine by neighbourhood
    let n = dot.nodes.len();
    let mut cycle_of = vec![0usize; n];
    for c in &dot.clusters {
        for i in c {
            cycle_of[*i] = c.len();
        }
    }
    let mut col: Vec<u64> = (0..n)
        .map(|i| crate::tape::fnv(format!("{:?} {}", dot.nodes[i], cycle_of[i]).as_bytes()))
        .collect();
    for _ in 0..n.min(12) {
        let mut next = vec![];
        for i in 0..n {
            let mut out: Vec<u64> = dot.edges.iter().filter(|e| e.0 == i).map(|e| col[e.1]).collect();
            let mut inn: Vec<u64> = dot.edges.iter().filter(|e| e.1 == i).map(|e| col[e.0]).collect();
            out.sort();
            inn.sort();
            next.push(crate::tape::fnv(format!("{} {:?} {:?}", col[i], out, inn).as_bytes()));
        }
        col = next;
    }
    let mut lines: Vec<String> = (0..n)
        .map(|i| {
            let node = &dot.nodes[i];
            format!(
                "{} local {:?} max {:?} dashed {} cycle {} [{:x}]",
                node.name, node.local, node.max, node.dashed, cycle_of[i], col[i]
            )
        })
        .collect();
    lines.sort();
    let mut edges: Vec<String> = dot
        .edges
        .iter()
        .map(|(a, b)| format!("{} -> {}", dot.nodes[*a].name, dot.nodes[*b].name))
        .collect();
    edges.sort();
    format!("{}\n{}", lines.join("\n"), edges.join("\n"))
}
