//! Generates `no_std` Rust programs for real builds. All of them compile and, whatever the values
//! read from the `IN` register are, end (in `_start`'s idle loop or in the panic handler).
use crate::tape::Tape;
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    /// Thumb, with or without the ARMv7-M instructions
    Thumb { v7: bool },
    Other,
}

pub struct Source {
    pub text: String,
    pub functions: usize,
    pub tags: Vec<&'static str>,
}

const SIGS: usize = 14;

fn params(sig: usize) -> &'static str {
    [
        "x: u32",
        "x: u32, y: u32",
        "x: u64",
        "x: &mut [u32]",
        "x: f32",
        "x: u32",
        "x: i128",
        "x: &Big",
        "",
        "x: u32",
        "x: u8, y: u16, z: bool",
        "x: f64, y: f64",
        "x: u32, y: u32, z: u32, u: u32, v: u32, w: u32",
        "x: u32",
    ][sig]
}

fn ret(sig: usize) -> &'static str {
    ["u32", "u32", "u64", "u32", "f32", "()", "i128", "u32", "u32", "Big", "bool", "f64", "u32", "u32"][sig]
}

fn abi(sig: usize) -> &'static str {
    if sig == 13 {
        "extern \"C\" "
    } else {
        ""
    }
}

fn fn_type(sig: usize) -> String {
    let tys: Vec<&str> = params(sig)
        .split(", ")
        .filter_map(|p| p.split_once(": ").map(|p| p.1))
        .collect();
    format!("{}fn({}) -> {}", abi(sig), tys.join(", "), ret(sig))
}

/// sets `a` and `b` from the parameters
fn prologue(sig: usize) -> &'static str {
    [
        "let mut a = x; let mut b = x ^ inp();",
        "let mut a = x; let mut b = y;",
        "let mut a = x as u32; let mut b = (x >> 32) as u32;",
        "let mut a = x.len() as u32; let mut b = if x.is_empty() { 1 } else { x[0] ^= 5; x[x.len() - 1] };",
        "let mut a = x as u32; let mut b = (x * 3.5) as u32;",
        "let mut a = x; let mut b = !x;",
        "let mut a = x as u32; let mut b = (x >> 64) as u32;",
        "let mut a = x.0[1]; let mut b = x.0[6];",
        "let mut a = inp(); let mut b = 7u32;",
        "let mut a = x; let mut b = 3u32;",
        "let mut a = x as u32 + y as u32; let mut b = z as u32;",
        "let mut a = x as u32; let mut b = (y + 0.5) as i32 as u32;",
        "let mut a = x ^ u ^ w; let mut b = y.wrapping_mul(z).wrapping_add(v);",
        "let mut a = x; let mut b = x >> 3;",
    ][sig]
}

fn epilogue(sig: usize) -> &'static str {
    [
        "a ^ b",
        "a.wrapping_add(b)",
        "((a as u64) << 32) | b as u64",
        "a ^ (b << 1)",
        "a as f32 + b as f32",
        "out(a ^ b)",
        "((a as i128) << 70) - b as i128",
        "a | b",
        "a & b",
        "Big([a, b, 1, 2, 3, a, b, a])",
        "a > b",
        "a as f64 * b as f64",
        "a.wrapping_sub(b)",
        "a ^ 1 ^ b",
    ][sig]
}

/// a statement that calls `f`
fn call(sig: usize, f: &str) -> String {
    match sig {
        0 | 13 => format!("a = a.wrapping_add({}(b));", f),
        1 => format!("b ^= {}(a, inp());", f),
        2 => format!("a ^= {}(((a as u64) << 20) | b as u64) as u32;", f),
        3 => format!(
            "{{ let mut s = [a, b, 3, inp()]; b = b.wrapping_add({}(&mut s)); a ^= s[2]; }}",
            f
        ),
        4 => format!("b = {}(a as f32) as u32;", f),
        5 => format!("{}(a);", f),
        6 => format!("a = {}((b as i128) << 40) as u32;", f),
        7 => format!("{{ let s = Big([a, b, 3, 4, 5, 6, 7, 8]); a ^= {}(&s); }}", f),
        8 => format!("a = a.rotate_left(3) ^ {}();", f),
        9 => format!("{{ let s = {}(b); a = a.wrapping_add(s.0[0]); b ^= s.0[7]; }}", f),
        10 => format!("if {}(a as u8, b as u16, a > 9) {{ b = b.wrapping_add(1); }}", f),
        11 => format!("a = {}(a as f64, b as f64) as u32;", f),
        _ => format!("b = {}(a, b, 1, inp(), 3, a);", f),
    }
}

struct F {
    sig: usize,
    in_table: bool,
}

struct G<'a> {
    t: &'a mut Tape,
    kind: Kind,
    fns: Vec<F>,
    objs: usize,
    generics: usize,
    asm: bool,
    fmt: bool,
    alloc: bool,
    in_start: bool,
    tags: Vec<&'static str>,
}

impl G<'_> {
    fn tag(&mut self, s: &'static str) {
        if !self.tags.contains(&s) {
            self.tags.push(s)
        }
    }

    fn num(&mut self) -> u32 {
        let ks = [3, 1, 7, 10, 100, 255, 1000, 4096, 65537, 0x12345678, 0xdeadbeef, 0xb082b5f0];
        *self.t.pick(&ks)
    }

    /// body of a function that may only call functions above `me` (and, guarded, any)
    fn body(&mut self, me: usize, depth: usize, s: &mut String) {
        let n = self.t.range(if depth == 0 { 1 } else { 0 }, if depth == 0 { 5 } else { 2 });
        for _ in 0..n {
            self.stmt(me, depth, s);
        }
    }

    fn callee(&mut self, me: usize) -> Option<usize> {
        let left = self.fns.len() - (me + 1).min(self.fns.len());
        if left == 0 {
            return None;
        }
        Some(me + 1 + self.t.below(left))
    }

    fn stmt(&mut self, me: usize, depth: usize, s: &mut String) {
        let ws = [
            8, // 0 arithmetic
            4, // 1 division
            3, // 2 64 and 128 bit
            4, // 3 floats
            5, // 4 big frame
            4, // 5 memory routines
            14, // 6 direct call
            4, // 7 guarded recursion
            6, // 8 function pointer
            5, // 9 trait object
            4, // 10 generics
            3, // 11 formatting
            5, // 12 panics
            4, // 13 match
            3, // 14 inline assembly
            3, // 15 library
            4, // 16 if
            4, // 17 loop
            3, // 18 closure
            3, // 19 values
            3, // 20 early return
            3, // 21 heap
            3, // 22 drop, atomics, iterators, futures
        ];
        let k = self.num();
        let choice = self.t.weighted(&ws);
        match choice {
            // the conversions of floating point numbers to integers are intrinsics that the tool does
            // not know how to deal with
            3 if self.kind == Kind::Other => {
                let _ = writeln!(s, "a = a.rotate_right(b & 31);");
            }
            0 => {
                let ops = [
                    "a = a.wrapping_mul(K) ^ b.rotate_left(5);",
                    "b = b.wrapping_sub(a) | K;",
                    "a = a.swap_bytes() ^ (b >> (K & 31)); out(a);",
                    "b = a.leading_zeros().wrapping_add(b.count_ones()) ^ b.trailing_zeros();",
                    "a = a.saturating_sub(b).min(K).max(b & 15);",
                    "if let Some(v) = a.checked_mul(b) { b = v; }",
                    "a = a.reverse_bits() ^ (b as i8 as u32) ^ (a as i16 as u32);",
                    "b = unsafe { core::ptr::read_unaligned((&a as *const u32 as *const u8) as *const u16) } as u32 ^ b;",
                ];
                let op = *self.t.pick(&ops);
                let _ = writeln!(s, "{}", op.replace('K', &format!("{}u32", k)));
            }
            1 => {
                let ops = [
                    "a = a / (inp() | 1);",
                    "b = b % (a | 1);",
                    "a = ((a as i32).wrapping_div((b | 1) as i32)) as u32;",
                    "b = b / K;",
                    "a = (((a as u64) << 13) / ((b | 1) as u64)) as u32;",
                    "b = (((b as i64) << 17).wrapping_rem((a | 1) as i64)) as u32;",
                    "a = (((a as u128) << 90) / ((b | 1) as u128)) as u32;",
                ];
                let op = *self.t.pick(&ops);
                self.tag("division");
                let _ = writeln!(s, "{}", op.replace('K', &format!("{}u32", k)));
            }
            2 => {
                let ops = [
                    "a = (((a as u64).wrapping_mul(b as u64 | 0x100000003)) >> 21) as u32;",
                    "b = ((a as u64) << (b & 63)) as u32;",
                    "b = (((a as i64) - (K as i64)) >> (b & 63)) as u32;",
                    "a = ((a as u128 | 1 << 77).wrapping_mul(b as u128) >> (b & 127)) as u32;",
                    "if let Some(v) = (a as u64 * 3).checked_mul(b as u64 | 0x1_0000_0000) { a = v as u32; }",
                    "if let Some(v) = (a as i128).checked_mul((b as i128) << 60) { a = v as u32; }",
                ];
                let op = *self.t.pick(&ops);
                self.tag("wide integers");
                let _ = writeln!(s, "{}", op.replace('K', &format!("{}u32", k)));
            }
            3 => {
                let ops = [
                    "a = (a as f32 * 1.5 + b as f32) as u32;",
                    "b = (a as f64 / (b as f64 + 0.25)) as u32;",
                    "if (a as f32) < (b as f32) { b = 4; }",
                    "if (a as f64) >= (b as f64) - 3.0 { a ^= 4; }",
                    "a = f32::from_bits(a).to_bits() ^ ((b as i32) as f32 as i32 as u32);",
                    "b = ((f32::from_bits(a) as f64) * 3.0) as f32 as u32;",
                    "a = ((a as u64) << 9) as f64 as u64 as u32;",
                    "a = (a as f32 - b as f32).to_bits() ^ ((a as i64) as f32).to_bits();",
                ];
                let op = *self.t.pick(&ops);
                self.tag("floating point");
                let _ = writeln!(s, "{}", op);
            }
            4 => {
                let n = *self.t.pick(&[4usize, 16, 40, 127, 128, 200, 256, 300, 1025, 1500]);
                self.tag("large frame");
                let _ = writeln!(
                    s,
                    "{{ let mut big = [0u{}; {}]; let i = (inp() % {}) as usize; big[i] = a as _; black_box(&mut big); b ^= big[i / 2] as u32; }}",
                    *self.t.pick(&[32, 8, 64]),
                    n,
                    n
                );
            }
            5 => {
                let n = *self.t.pick(&[5usize, 16, 33, 64, 100]);
                let ops = [
                    "{ let mut p = [a as u8; N]; let q = [b as u8; N]; black_box(&mut p); p.copy_from_slice(black_box(&q)); a ^= p[1] as u32; }",
                    "{ let mut p = [1u32; N]; let n = (inp() % N) as usize; black_box(&mut p); p[..n].fill(0); a ^= p[0]; }",
                    "{ let p = [a as u8; N]; let q = [b as u8; N]; let n = (inp() % N) as usize; if black_box(&p)[..n] == black_box(&q)[..n] { b += 1 & b; } }",
                    "{ let mut p = [a as u8; N]; black_box(&mut p); p.copy_within(1.., 0); black_box(&mut p); b = b.wrapping_add(p[2] as u32); }",
                    "{ let mut p = [a as u8; N]; let n = (inp() % N) as usize; black_box(&mut p); p[..n].fill(inp() as u8); black_box(&mut p); }",
                    "{ let p = [a; N]; let q = black_box(&p).clone(); black_box(&q); b ^= q[3]; }",
                    "{ let mut p = [a as u16; N]; let n = (inp() % N) as usize; let (l, r) = p.split_at_mut(n); if l.len() <= r.len() { l.copy_from_slice(&r[..n]); } black_box(&p); }",
                ];
                let op = *self.t.pick(&ops);
                self.tag("memory routines");
                let _ = writeln!(s, "{}", op.replace('N', &n.to_string()));
            }
            7 => {
                // rarely taken, and each time it uses up one unit of a global budget
                let n = self.fns.len();
                let j = self.t.below(n);
                self.tag("recursion");
                let _ = writeln!(s, "if inp() == 0x12345 && fuel() {{ {} }}", call(self.fns[j].sig, &format!("f{}", j)));
            }
            8 => {
                let tables: Vec<usize> = (0..SIGS)
                    .filter(|sig| self.fns.iter().enumerate().any(|(i, f)| f.in_table && f.sig == *sig && i > me))
                    .collect();
                if tables.is_empty() {
                    let _ = writeln!(s, "a ^= inp();");
                    return;
                }
                let sig = *self.t.pick(&tables);
                // may lead back here, so the depth is limited
                self.tag("function pointers");
                let _ = writeln!(
                    s,
                    "if fuel() {{ let f = unsafe {{ read_volatile(&T{}[inp() as usize % T{}.len()]) }}; {} }}",
                    sig,
                    sig,
                    call(sig, "f")
                );
            }
            9 => {
                if self.objs == 0 {
                    let _ = writeln!(s, "b ^= inp();");
                    return;
                }
                self.tag("trait objects");
                let m = *self.t.pick(&["a ^= o.m(b);", "b ^= o.d(a);", "a ^= o.e() as u32;", "a ^= o.m(b); b ^= o.d(a);"]);
                let _ = writeln!(
                    s,
                    "if fuel() {{ let o = unsafe {{ read_volatile(&OBJS[inp() as usize % OBJS.len()]) }}; {} }}",
                    m
                );
            }
            10 => {
                if self.generics == 0 {
                    let _ = writeln!(s, "a = a.wrapping_sub(b);");
                    return;
                }
                let g = self.t.below(self.generics);
                self.tag("generics");
                let ty = *self.t.pick(&["A(b)", "B(b as u8, a)", "C([a; 5])", "7u32", "9u16"]);
                let _ = writeln!(s, "if fuel() {{ a ^= g{}(&{}, b); }}", g, ty);
            }
            11 => {
                if !self.fmt {
                    let _ = writeln!(s, "out(a);");
                    return;
                }
                self.tag("formatting");
                let ops = [
                    "let _ = write!(W, \"{} {}\", a, b);",
                    "let _ = write!(W, \"{:?}\", [a, b]);",
                    "let _ = write!(W, \"{:#x} {:>5}\", a, \"abc\");",
                    "let _ = write!(W, \"{:?}\", Some(Pt { x: a, y: b as u8 }));",
                    "let _ = write!(W, \"{:?} {}\", 'x', true);",
                    "let _ = W.write_str(if a > b { \"big\" } else { \"small\" });",
                ];
                let op = *self.t.pick(&ops);
                let _ = writeln!(s, "{}", op);
            }
            12 => {
                self.tag("panics");
                let ops = [
                    "{ let v = [1u32, 2, 3, 4]; a ^= black_box(&v)[(inp() & 3) as usize]; }",
                    "b = TAB.get(inp() as usize % 9).copied().unwrap_or(3);",
                    "assert!(inp() != 0x777);",
                    "a = black_box(if inp() == 0x778 { None } else { Some(b) }).unwrap();",
                    "b = a.checked_add(1).expect(\"overflow\");",
                    "{ let v = TAB; a ^= black_box(&v)[..(inp() & 7) as usize].len() as u32; }",
                    "if inp() == 0x779 { unreachable!() }",
                    "if inp() == 0x77a { panic!(\"{}\", a) }",
                    "{ let r: Result<u32, Pt> = black_box(Ok(a)); b ^= r.unwrap(); }",
                ];
                let n = if self.fmt { ops.len() } else { 3 };
                let op = ops[self.t.below(n)];
                let _ = writeln!(s, "{}", op);
            }
            13 => {
                self.tag("match");
                let arms = self.t.range(3, 9);
                let _ = writeln!(s, "match inp() {{");
                for i in 0..arms {
                    let c = if self.t.chance(40) { self.callee(me) } else { None };
                    match c {
                        Some(j) => {
                            let _ = writeln!(s, "{} => {{ {} }}", i, call(self.fns[j].sig, &format!("f{}", j)));
                        }
                        None => {
                            let k = self.num();
                            let _ = writeln!(s, "{} => {{ a = a.wrapping_mul({}); out(b + {} & 7); }}", i, k, i);
                        }
                    }
                }
                let _ = writeln!(s, "_ => b ^= 1,\n}}");
            }
            14 => {
                self.tag("inline assembly");
                let ops: &[&str] = match (self.kind, self.asm) {
                    (Kind::Thumb { .. }, true) => &[
                        "unsafe { asm!(\"nop\") };",
                        "unsafe { asm!(\"cpsid i\", \"cpsie i\") };",
                        "{ let r: u32; unsafe { asm!(\"mov {}, sp\", out(reg) r) }; a ^= r & 3; }",
                        "unsafe { asm!(\"dsb\", \"isb\", options(nomem, nostack)) };",
                        "{ let r: u32; unsafe { asm!(\"mrs {}, PRIMASK\", out(reg) r) }; a ^= r; }",
                        "b = unsafe { tramp(b) };",
                    ],
                    (Kind::Thumb { .. }, false) => &["unsafe { asm!(\"nop\") };", "unsafe { asm!(\"\", options(nomem)) };"],
                    _ => &["unsafe { asm!(\"nop\") };"],
                };
                let op = *self.t.pick(ops);
                if op.contains("tramp") {
                    self.tag("global assembly");
                }
                let _ = writeln!(s, "{}", op);
            }
            15 => {
                self.tag("library");
                let mut ops = vec![
                    "{ let mut v = [a, b, 5, 1, inp()]; v.sort_unstable(); b = v[2]; }",
                    "a ^= TAB.iter().map(|x| x ^ b).fold(0u32, |p, q| p.wrapping_add(q));",
                    "b ^= TAB.chunks(3).map(|c| c.len() as u32).sum::<u32>();",
                    "a ^= TAB.binary_search(&b).unwrap_or(3) as u32;",
                    "{ let v = [a as u8 & 127, b as u8]; b ^= core::str::from_utf8(black_box(&v[..])).map(|s| s.len() as u32).unwrap_or(9); }",
                ];
                if self.fmt {
                    ops.push("a ^= black_box(\"123\").parse::<u32>().unwrap_or(1);");
                    ops.push("b ^= black_box(\"a,b,c\").split(',').count() as u32;");
                    ops.push("{ let mut v = [a; 24]; for (i, x) in v.iter_mut().enumerate() { *x = inp() ^ i as u32; } v.sort_unstable_by(|p, q| q.cmp(p)); b = v[7]; }");
                    ops.push("b ^= black_box(\"X\u{e9}y\").chars().rev().map(|c| c as u32).max().unwrap_or(0);");
                }
                let op = *self.t.pick(&ops);
                let _ = writeln!(s, "{}", op);
            }
            16 if depth < 2 => {
                let k = self.t.below(4);
                let _ = writeln!(s, "if inp() & {} == 0 {{", 1 << k);
                self.body(me, depth + 1, s);
                if self.t.chance(50) {
                    let _ = writeln!(s, "}} else {{");
                    self.body(me, depth + 1, s);
                }
                let _ = writeln!(s, "}}");
            }
            17 if depth < 2 => {
                let _ = writeln!(s, "for i in 0..(inp() & {}) {{ a = a.wrapping_add(i);", [1, 3, 2][self.t.below(3)]);
                self.body(me, depth + 1, s);
                let _ = writeln!(s, "}}");
            }
            18 => {
                self.tag("closures");
                let _ = writeln!(
                    s,
                    "{{ let k = inp(); let f = |v: u32| v.wrapping_mul({}) ^ k; a ^= app(&f, b); }}",
                    k
                );
            }
            19 => {
                self.tag("aggregates");
                let ops = [
                    "{ let p = (a, b as u64, [b as u8; 3]); let q = black_box(p); b ^= q.1 as u32; }",
                    "{ let p = Big([a; 8]); let q = black_box(p); b ^= q.0[3]; }",
                    "{ let e = black_box(if a > b { E::X(a) } else { E::Y(b as u8, a) }); a = match e { E::X(v) => v, E::Y(p, q) => q ^ p as u32, E::Z => 1 }; }",
                    "{ let o: Option<Big> = black_box(if a & 1 == 0 { None } else { Some(Big([b; 8])) }); if let Some(v) = o { a ^= v.0[1]; } }",
                ];
                let op = *self.t.pick(&ops);
                let _ = writeln!(s, "{}", op);
            }
            20 if depth > 0 && !self.in_start => {
                // a tail call, possibly
                let sig = self.fns.get(me).map(|f| f.sig).unwrap_or(usize::MAX);
                let cands: Vec<usize> = (me + 1..self.fns.len()).filter(|j| self.fns[*j].sig == sig).collect();
                if cands.is_empty() || !(sig < 2 || sig == 13) {
                    let _ = writeln!(s, "out(b);");
                    return;
                }
                let j = *self.t.pick(&cands);
                let args = if sig == 1 { "b, a" } else { "a" };
                let _ = writeln!(s, "if a > 77 {{ return f{}({}); }}", j, args);
            }
            21 if self.alloc => {
                self.tag("heap");
                let mut ops = vec![
                    "{ let v: Vec<u32> = (0..(inp() & 15)).map(|x| x ^ a).collect(); b ^= v.iter().fold(1, |p, q| p ^ q); }",
                    "{ let f: Box<dyn Fn(u32) -> u32> = if inp() & 1 == 0 { Box::new(move |v| v ^ b) } else { Box::new(move |v| v.wrapping_mul(3)) }; a ^= black_box(f)(b); }",
                    "{ let mut v = alloc::vec![3u8; (inp() & 31) as usize]; v.push(a as u8); b ^= v[0] as u32; }",
                    "{ let mut v = [a, b, 1, inp()].to_vec(); v.sort(); b = v[1]; }",
                    "if fuel() { let o: Rc<dyn Tr> = if inp() & 1 == 0 { Rc::new(A(a)) } else { Rc::new(C([b; 5])) }; let p = o.clone(); a ^= p.m(b) ^ o.d(3); }",
                    "{ let v: Vec<Box<D>> = alloc::vec![Box::new(D(a)), Box::new(D(b))]; b ^= v.len() as u32; }",
                ];
                if self.fmt {
                    ops.push("{ let mut m = BTreeMap::new(); for i in 0..4 { m.insert(inp() & 7, a ^ i); } b ^= m.get(&3).copied().unwrap_or(1); }");
                    ops.push("{ let s = alloc::format!(\"{}-{:?}\", a, b); b ^= s.len() as u32; }");
                    ops.push("{ let mut s = String::new(); for c in [\"x\", \"yz\"] { s.push_str(c); } s.insert(1, 'q'); a ^= s.len() as u32; }");
                }
                let op = *self.t.pick(&ops);
                let _ = writeln!(s, "{}", op);
            }
            22 => {
                let ops = [
                    ("drop", "{ let d = D(a); black_box(&d); b ^= inp(); }"),
                    ("drop", "{ let d = black_box(if inp() & 1 == 0 { None } else { Some((D(1), D(b))) }); if let Some(p) = d { a ^= (p.0).0; } }"),
                    ("atomics", "ATOM.store(a, Ordering::SeqCst); b ^= ATOM.load(Ordering::Acquire);"),
                    ("iterators", "{ let mut m = (0..(inp() & 7)).map(|x| x ^ a); let mut it: &mut dyn Iterator<Item = u32> = &mut m; while let Some(x) = black_box(&mut it).next() { b ^= x; } }"),
                    ("iterators", "b ^= TAB.iter().rev().step_by(2).zip(TAB.windows(2)).filter(|(x, w)| **x > w[0]).count() as u32;"),
                    ("futures", "{ let w = unsafe { Waker::from_raw(RawWaker::new(core::ptr::null(), &VT)) }; let mut cx = Context::from_waker(&w); let mut f = core::pin::pin!(later(a)); for _ in 0..3 { if let Poll::Ready(v) = f.as_mut().poll(&mut cx) { b ^= v; break } } }"),
                    ("atomics", "b ^= ATOM.fetch_add(a, Ordering::SeqCst);"),
                    ("atomics", "if ATOM.compare_exchange(a, b, Ordering::AcqRel, Ordering::Relaxed).is_ok() { a ^= 1; }"),
                ];
                // ARMv6-M has no atomic read-modify-write operations
                let n = if self.kind == (Kind::Thumb { v7: false }) { ops.len() - 2 } else { ops.len() };
                let (tag, op) = ops[self.t.below(n)];
                self.tag(tag);
                let _ = writeln!(s, "{}", op);
            }
            _ => match self.callee(me) {
                Some(j) => {
                    let _ = writeln!(s, "{}", call(self.fns[j].sig, &format!("f{}", j)));
                }
                None => {
                    let _ = writeln!(s, "a = a.wrapping_add(b ^ {});", k);
                }
            },
        }
    }
}

pub fn generate(t: &mut Tape, kind: Kind) -> Source {
    let n = t.range(1, 14);
    let fmt = t.chance(45);
    let asm = t.chance(60);
    let alloc = t.chance(30);
    let mut fns: Vec<F> = vec![];
    for _ in 0..n {
        let sig = if t.chance(35) { *t.pick(&[0usize, 1, 5]) } else { t.below(SIGS) };
        let in_table = t.chance(45);
        let sig = match sig {
            4 if kind == Kind::Other => 0,
            11 if kind == Kind::Other => 1,
            s => s,
        };
        fns.push(F { sig, in_table });
    }
    let objs = if t.chance(60) { t.range(1, 4) } else { 0 };
    let generics = t.below(3);
    let mut g = G {
        t,
        kind,
        fns,
        objs,
        generics,
        asm,
        fmt,
        alloc,
        in_start: false,
        tags: vec![],
    };
    let mut s = String::from(PREAMBLE);
    if alloc {
        s += HEAP;
    }
    if matches!(kind, Kind::Thumb { .. }) && asm {
        s += TRAMP;
    }
    for sig in 0..SIGS {
        let of: Vec<String> = (0..n)
            .filter(|i| g.fns[*i].in_table && g.fns[*i].sig == sig)
            .map(|i| format!("f{}", i))
            .collect();
        if !of.is_empty() {
            let _ = writeln!(s, "static T{}: [{}; {}] = [{}];", sig, fn_type(sig), of.len(), of.join(", "));
        }
    }
    if objs > 0 {
        let all = ["&A(3)", "&B(1, 2)", "&C([1, 2, 3, 4, 5])", "&7u32"];
        let _ = writeln!(
            s,
            "static OBJS: [&(dyn Tr + Sync); {}] = [{}];",
            objs,
            (0..objs).map(|i| all[i]).collect::<Vec<_>>().join(", ")
        );
    }
    // trait methods call functions of the upper half only, and so on
    for (i, (ty, val)) in [
        ("A", "self.0"),
        ("B", "self.1"),
        ("C", "self.0[2]"),
        ("u32", "*self"),
        ("u16", "*self as u32"),
    ]
    .iter()
    .enumerate()
    {
        let _ = writeln!(s, "impl Tr for {} {{", ty);
        let mut b = String::new();
        g.body(n / 2 + i, 1, &mut b);
        let _ = writeln!(
            s,
            "fn m(&self, x: u32) -> u32 {{ let mut a = x; let mut b = {}; {} a ^ b }}",
            val, b
        );
        if g.t.chance(50) {
            let mut b = String::new();
            g.body(n / 2, 1, &mut b);
            let _ = writeln!(s, "fn d(&self, x: u32) -> u32 {{ let mut b = x; let mut a = {}; {} a ^ b }}", val, b);
        }
        s += "}\n";
    }
    for i in 0..generics {
        let mut b = String::new();
        g.body(n / 2 + i, 1, &mut b);
        let inl = *g.t.pick(&["#[inline(never)]", "", "#[inline(never)]"]);
        let _ = writeln!(
            s,
            "{} fn g{}<T: Tr>(v: &T, x: u32) -> u32 {{ let mut a = v.m(x); let mut b = x; {} a ^ v.d(b) }}",
            inl, i, b
        );
    }
    for i in 0..n {
        let sig = g.fns[i].sig;
        let mut b = String::new();
        g.body(i, 0, &mut b);
        let inl = ["#[inline(never)]", "", "#[inline(always)]", "#[inline(never)] #[cold]"][g.t.weighted(&[70, 18, 5, 7])];
        let no_mangle = g.t.chance(8);
        let section = if matches!(kind, Kind::Thumb { .. }) && g.t.chance(10) {
            "#[link_section = \".ramtext\"]"
        } else {
            ""
        };
        let _ = writeln!(
            s,
            "{} {} {} {}fn f{}({}) -> {} {{\n{}\n{}{}\n}}",
            inl,
            if no_mangle { "#[no_mangle]" } else { "" },
            section,
            abi(sig),
            i,
            params(sig),
            ret(sig),
            prologue(sig),
            b,
            epilogue(sig)
        );
    }
    // entry
    let mut b = String::new();
    let _ = writeln!(b, "let mut a = inp(); let mut b = inp();");
    let roots = g.t.range(1, 3.min(n));
    for i in 0..roots {
        let _ = writeln!(b, "{}", call(g.fns[i].sig, &format!("f{}", i)));
    }
    let mut extra = String::new();
    g.in_start = true;
    // anything above function 0
    g.body(0, 1, &mut extra);
    // the compiler merges these functions although their types are different. NOTE they are exported:
    // otherwise it forgets about the types of all but one
    if g.t.chance(15) {
        g.tag("identical functions of different types");
        let k = g.t.range(2, 30);
        let twins: &[(&str, &str)] = &[("P", "*const u8"), ("U", "usize"), ("Q", "*mut u32")];
        for (name, ty) in twins {
            let _ = writeln!(
                s,
                "#[no_mangle] #[inline(never)] fn twin{n}(x: {t}, y: {t}) -> u32 {{ unsafe {{ let mut z = core::mem::MaybeUninit::<[{t}; {k}]>::uninit(); let z = z.as_mut_ptr() as *mut {t}; write_volatile(z, x); write_volatile(z.add(1), y); write_volatile(z, read_volatile(z.add(1))); }} inp() }} static TWIN{n}: fn({t}, {t}) -> u32 = twin{n};",
                n = name,
                t = ty,
                k = k
            );
            if g.t.chance(70) {
                let _ = writeln!(extra, "a ^= unsafe {{ read_volatile(&TWIN{}) }}(b as usize as {t}, 0 as {t});", name, t = ty);
            }
        }
        if g.t.chance(70) {
            s += "#[no_mangle] #[inline(never)] fn solo(x: usize, y: usize) -> u32 { x as u32 ^ inp() ^ y as u32 } static SOLO: fn(usize, usize) -> u32 = solo;\n";
            extra += "a ^= unsafe { read_volatile(&SOLO) }(a as usize, 1);\n";
        }
    }
    let _ = writeln!(s, "#[no_mangle] pub extern \"C\" fn _start() -> ! {{\n{}{}out(a ^ b); idle() }}", b, extra);
    // memory routines of its own, which take the place of those in compiler_builtins
    if g.t.chance(15) {
        g.tag("own memory routines");
        let k = g.t.range(1, 40);
        let _ = writeln!(s, "#[inline(never)] fn step(n: usize) -> usize {{ let mut x = core::mem::MaybeUninit::<[u32; {}]>::uninit(); unsafe {{ write_volatile(x.as_mut_ptr() as *mut u32, n as u32); read_volatile(x.as_ptr() as *const u32) as usize + 1 }} }}", k);
        let all: &[(&str, &str, &str, &str)] = &[
            ("memcpy", "d: *mut u8, s: *const u8, n: usize", "*mut u8", "write_volatile(d.add(i), read_volatile(s.add(i)));"),
            ("memset", "d: *mut u8, c: i32, n: usize", "*mut u8", "write_volatile(d.add(i), c as u8);"),
            ("__aeabi_memcpy", "d: *mut u8, s: *const u8, n: usize", "", "write_volatile(d.add(i), read_volatile(s.add(i)));"),
            ("__aeabi_memcpy4", "d: *mut u8, s: *const u8, n: usize", "", "write_volatile(d.add(i), read_volatile(s.add(i)));"),
            ("__aeabi_memclr", "d: *mut u8, n: usize", "", "write_volatile(d.add(i), 0);"),
            ("__aeabi_memclr4", "d: *mut u8, n: usize", "", "write_volatile(d.add(i), 0);"),
            ("__aeabi_memset", "d: *mut u8, n: usize, c: i32", "", "write_volatile(d.add(i), c as u8);"),
        ];
        let all = if matches!(kind, Kind::Thumb { .. }) { all } else { &all[..2] };
        for (name, params, ret, body) in all {
            if g.t.chance(50) {
                let big = g.t.chance(40);
                let _ = writeln!(
                    s,
                    "#[no_mangle] unsafe extern \"C\" fn {}({}){} {{ let mut i = 0; while i < n {{ {} i {}; }} {} }}",
                    name,
                    params,
                    if ret.is_empty() { String::new() } else { format!(" -> {}", ret) },
                    body,
                    if big { "= step(i)" } else { "+= 1" },
                    if ret.is_empty() { "" } else { "d" }
                );
            }
        }
    }
    if g.t.chance(15) && g.fmt {
        s += "#[panic_handler] fn panic(i: &PanicInfo) -> ! { let _ = write!(W, \"{}\", i); idle() }\n";
        g.tag("formatting");
    } else {
        s += "#[panic_handler] fn panic(_: &PanicInfo) -> ! { idle() }\n";
    }
    Source {
        text: s,
        functions: n,
        tags: g.tags,
    }
}

const PREAMBLE: &str = r#"#![no_std]
#![no_main]
#![allow(warnings)]
use core::{arch::{asm, global_asm}, fmt::Write, future::Future, hint::black_box, panic::PanicInfo, pin::Pin, ptr::{read_volatile, write_volatile}, sync::atomic::{AtomicU32, Ordering}, task::{Context, Poll, RawWaker, RawWakerVTable, Waker}};
#[no_mangle] static mut IN: u32 = 0;
#[no_mangle] static mut OUT: u32 = 0;
static mut FUEL: u32 = 0;
#[inline(always)] fn inp() -> u32 { unsafe { read_volatile(&IN) } }
#[inline(always)] fn out(x: u32) { unsafe { write_volatile(&mut OUT, x) } }
// bounds the depth of what could be recursive
#[inline(always)] fn fuel() -> bool { unsafe { let f = read_volatile(&FUEL); write_volatile(&mut FUEL, f + 1); f < 12 } }
#[inline(always)] fn idle() -> ! { loop { unsafe { asm!("nop") } } }
#[derive(Clone, Copy)] pub struct Big([u32; 8]);
#[derive(Debug)] struct Pt { x: u32, y: u8 }
enum E { X(u32), Y(u8, u32), Z }
struct A(u32); struct B(u8, u32); struct C([u32; 5]);
static TAB: [u32; 9] = [1, 2, 3, 5, 8, 13, 21, 34, 55];
struct W;
impl Write for W { fn write_str(&mut self, s: &str) -> core::fmt::Result { for b in s.bytes() { out(b as u32); } Ok(()) } }
static ATOM: AtomicU32 = AtomicU32::new(5);
struct D(u32); impl Drop for D { #[inline(never)] fn drop(&mut self) { out(self.0) } }
unsafe fn vt_clone(p: *const ()) -> RawWaker { out(1); RawWaker::new(p, &VT) } unsafe fn vt_wake(_: *const ()) { out(2) } unsafe fn vt_drop(_: *const ()) {}
static VT: RawWakerVTable = RawWakerVTable::new(vt_clone, vt_wake, vt_wake, vt_drop);
struct Yield(bool); impl Future for Yield { type Output = (); fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<()> { if self.0 { Poll::Ready(()) } else { self.0 = true; cx.waker().wake_by_ref(); Poll::Pending } } }
async fn later(x: u32) -> u32 { let y = inp(); Yield(false).await; out(x); x ^ y }
trait Tr { fn m(&self, x: u32) -> u32; fn d(&self, x: u32) -> u32 { self.m(x ^ 1) } fn e(&self) -> u64 { inp() as u64 } }
#[inline(never)] fn app(f: &dyn Fn(u32) -> u32, x: u32) -> u32 { f(x) ^ f(1) }
"#;

const TRAMP: &str = r#"global_asm!(".section .text.tramp,\"ax\",%progbits", ".global tramp", ".type tramp,%function", ".thumb_func", ".cfi_sections .debug_frame", "tramp:", "push {{r4, lr}}", "bl tramp_inner", "pop {{r4, pc}}", ".size tramp, . - tramp");
extern "C" { fn tramp(x: u32) -> u32; }
#[no_mangle] #[inline(never)] pub extern "C" fn tramp_inner(x: u32) -> u32 { x.rotate_left(inp() & 7) }
"#;

const HEAP: &str = r#"extern crate alloc;
use alloc::{boxed::Box, collections::BTreeMap, rc::Rc, string::String, vec::Vec};
struct Bump; static mut HEAP: [u64; 512] = [0; 512]; static mut TOP: usize = 0;
unsafe impl core::alloc::GlobalAlloc for Bump {
unsafe fn alloc(&self, l: core::alloc::Layout) -> *mut u8 { let t = (TOP + l.align() - 1) & !(l.align() - 1); if t + l.size() > 4096 { return core::ptr::null_mut() } TOP = t + l.size(); (HEAP.as_mut_ptr() as *mut u8).add(t) }
unsafe fn dealloc(&self, _: *mut u8, _: core::alloc::Layout) {}
}
#[global_allocator] static GA: Bump = Bump;
"#;
