//! Reads the tool's output. The dot reader is a strict tokenizer for the subset of the dot language
//! that a call graph needs; anything else is an error, which checks report.
use std::collections::BTreeSet;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Max {
    pub n: u64,
    pub exact: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Node {
    pub name: String,
    pub local: Option<u64>,
    pub max: Option<Max>,
    pub dashed: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Dot {
    pub nodes: Vec<Node>,
    pub edges: Vec<(usize, usize)>,
    pub clusters: Vec<BTreeSet<usize>>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),
    Str(String), // raw contents, escapes kept
    Sym(char),
    Arrow,
}

fn lex(s: &str) -> Result<Vec<Tok>, String> {
    let mut out = vec![];
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            ' ' | '\n' | '\t' | '\r' => {}
            '{' | '}' | '[' | ']' | '=' | ';' | ',' => out.push(Tok::Sym(c)),
            '-' => {
                if it.next() == Some('>') {
                    out.push(Tok::Arrow)
                } else {
                    return Err("stray `-`".into());
                }
            }
            '"' => {
                let mut x = String::new();
                loop {
                    match it.next() {
                        None => return Err("unterminated string".into()),
                        Some('"') => break,
                        Some('\\') => {
                            x.push('\\');
                            match it.next() {
                                None => return Err("unterminated string".into()),
                                Some(c) => x.push(c),
                            }
                        }
                        Some(c) => x.push(c),
                    }
                }
                // `"a"b` is not valid
                if let Some(c) = it.peek() {
                    if c.is_alphanumeric() || *c == '_' || *c == '"' {
                        return Err(format!("string followed by `{}`", c));
                    }
                }
                out.push(Tok::Str(x));
            }
            c if c.is_ascii_alphanumeric() || c == '_' => {
                let mut x = String::from(c);
                while let Some(c) = it.peek() {
                    if c.is_ascii_alphanumeric() || *c == '_' {
                        x.push(*c);
                        it.next();
                    } else {
                        break;
                    }
                }
                out.push(Tok::Id(x))
            }
            c => return Err(format!("unexpected character {:?}", c)),
        }
    }
    Ok(out)
}

pub fn unescape(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('"') => out.push('"'),
                Some('\\') => out.push('\\'),
                x => return Err(format!("escape `\\{:?}` in a name", x)),
            }
        } else {
            out.push(c)
        }
    }
    Ok(out)
}

// `NAME\nmax >= 4\nlocal = ?`, where `\n` stands for those two characters
fn label(s: &str) -> Result<(String, Option<u64>, Option<Max>), String> {
    // find an escaped line break that is not part of `\\n`
    let mut breaks = vec![];
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b.get(i + 1) == Some(&b'n') {
                breaks.push(i);
            }
            i += 2;
        } else {
            i += 1;
        }
    }
    let err = || format!("label {:?}", s);
    let last = *breaks.last().ok_or_else(err)?;
    let local = s[last..].strip_prefix("\\nlocal = ").ok_or_else(err)?;
    let local = if local == "?" {
        None
    } else {
        Some(num(local).ok_or_else(err)?)
    };
    let mut name = &s[..last];
    let mut max = None;
    if breaks.len() > 1 {
        let p = breaks[breaks.len() - 2];
        let m = s[p..last].strip_prefix("\\nmax ").ok_or_else(err)?;
        max = Some(if let Some(n) = m.strip_prefix(">= ") {
            Max {
                n: num(n).ok_or_else(err)?,
                exact: false,
            }
        } else if let Some(n) = m.strip_prefix("= ") {
            Max {
                n: num(n).ok_or_else(err)?,
                exact: true,
            }
        } else {
            return Err(err());
        });
        name = &s[..p];
        if breaks.len() > 2 {
            return Err(err());
        }
    }
    Ok((unescape(name)?, local, max))
}

fn num(s: &str) -> Option<u64> {
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    s.parse().ok()
}

pub fn parse(s: &str) -> Result<Dot, String> {
    let toks = lex(s)?;
    let mut d = Dot::default();
    let mut p = 0;
    macro_rules! expect {
        ($t:expr) => {{
            let t = $t;
            if toks.get(p) != Some(&t) {
                return Err(format!("expected {:?}, found {:?} (token {})", t, toks.get(p), p));
            }
            p += 1;
        }};
    }
    let id = |p: usize| match toks.get(p) {
        Some(Tok::Id(s)) => Ok(s.clone()),
        t => Err(format!("expected an identifier, found {:?}", t)),
    };
    // attribute list after `[`; returns the position after `]`
    let attrs = |mut p: usize| -> Result<(usize, Vec<(String, Tok)>), String> {
        let mut out = vec![];
        loop {
            match toks.get(p) {
                Some(Tok::Sym(']')) => return Ok((p + 1, out)),
                Some(Tok::Sym(',')) | Some(Tok::Sym(';')) => p += 1,
                Some(Tok::Id(k)) => {
                    if toks.get(p + 1) != Some(&Tok::Sym('=')) {
                        return Err("attribute without value".into());
                    }
                    match toks.get(p + 2) {
                        Some(t @ Tok::Id(_)) | Some(t @ Tok::Str(_)) => {
                            out.push((k.clone(), t.clone()))
                        }
                        t => return Err(format!("attribute value {:?}", t)),
                    }
                    p += 3;
                }
                t => return Err(format!("in attribute list: {:?}", t)),
            }
        }
    };
    expect!(Tok::Id("digraph".into()));
    expect!(Tok::Sym('{'));
    let mut cluster_names = BTreeSet::new();
    loop {
        match toks.get(p) {
            Some(Tok::Sym('}')) => {
                p += 1;
                break;
            }
            Some(Tok::Sym(';')) => p += 1,
            Some(Tok::Id(x)) if x == "node" => {
                p += 1;
                expect!(Tok::Sym('['));
                p = attrs(p)?.0;
            }
            Some(Tok::Id(x)) if x == "subgraph" => {
                p += 1;
                let name = id(p)?;
                if !name.starts_with("cluster_") || !cluster_names.insert(name.clone()) {
                    return Err(format!("subgraph {:?}", name));
                }
                p += 1;
                expect!(Tok::Sym('{'));
                let mut set = BTreeSet::new();
                loop {
                    match toks.get(p) {
                        Some(Tok::Sym('}')) => {
                            p += 1;
                            break;
                        }
                        Some(Tok::Sym(';')) => p += 1,
                        Some(Tok::Id(k)) => {
                            if toks.get(p + 1) == Some(&Tok::Sym('=')) {
                                p += 3;
                            } else {
                                let i: usize = k.parse().map_err(|_| format!("node id {}", k))?;
                                if i >= d.nodes.len() {
                                    return Err(format!("cluster refers to undeclared node {}", i));
                                }
                                if !set.insert(i) {
                                    return Err(format!("node {} twice in a cluster", i));
                                }
                                p += 1;
                            }
                        }
                        t => return Err(format!("in subgraph: {:?}", t)),
                    }
                }
                d.clusters.push(set);
            }
            Some(Tok::Id(x)) => {
                let a: usize = x.parse().map_err(|_| format!("node id {:?}", x))?;
                p += 1;
                match toks.get(p) {
                    Some(Tok::Arrow) => {
                        let b: usize = id(p + 1)?.parse().map_err(|_| "node id".to_string())?;
                        p += 2;
                        d.edges.push((a, b));
                    }
                    Some(Tok::Sym('[')) => {
                        let (q, at) = attrs(p + 1)?;
                        p = q;
                        if a != d.nodes.len() {
                            return Err(format!("node id {} out of order", a));
                        }
                        let mut lab = None;
                        let mut dashed = false;
                        for (k, v) in at {
                            match (&k[..], v) {
                                ("label", Tok::Str(s)) => lab = Some(label(&s)?),
                                ("style", Tok::Id(s)) if s == "dashed" => dashed = true,
                                (k, v) => return Err(format!("attribute {}={:?}", k, v)),
                            }
                        }
                        let (name, local, max) = lab.ok_or("node without label")?;
                        d.nodes.push(Node {
                            name,
                            local,
                            max,
                            dashed,
                        });
                    }
                    t => return Err(format!("after node id: {:?}", t)),
                }
            }
            t => return Err(format!("unexpected token {:?}", t)),
        }
    }
    if p != toks.len() {
        return Err("text after the graph".into());
    }
    for (a, b) in &d.edges {
        if *a >= d.nodes.len() || *b >= d.nodes.len() {
            return Err(format!("edge {} -> {} refers to an undeclared node", a, b));
        }
    }
    Ok(d)
}

#[derive(Clone, Debug)]
pub struct Top {
    pub max: Option<u64>,
    pub rows: Vec<(u64, String)>,
}

/// names stay escaped
pub fn parse_top(s: &str) -> Result<Top, String> {
    let mut lines = s.split('\n').peekable();
    let mut max = None;
    let first = lines.next().ok_or("empty")?;
    let header = if let Some(n) = first.strip_suffix(" MAX") {
        max = Some(num(n).ok_or_else(|| format!("MAX line {:?}", first))?);
        lines.next().ok_or("no header")?
    } else {
        first
    };
    if header != "Usage Function" {
        return Err(format!("header {:?}", header));
    }
    let mut rows = vec![];
    while let Some(l) = lines.next() {
        if l.is_empty() && lines.peek().is_none() {
            return Ok(Top { max, rows });
        }
        let (n, name) = l.split_once(' ').ok_or_else(|| format!("row {:?}", l))?;
        rows.push((
            num(n).ok_or_else(|| format!("row {:?}", l))?,
            name.to_string(),
        ));
    }
    Err("no line feed at the end".into())
}
