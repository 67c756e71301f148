//! C20: programs that the real compiler builds, and what they do when they run
use super::*;
use crate::{
    compare, dot,
    emu::{self, Image, Stop},
    runner::Ctx,
    rust::{self, Kind},
    sandbox::{run, Out},
    tape::Noise,
};
use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    fs,
    path::{Path, PathBuf},
    process::Command,
    sync::{Arc, Mutex, OnceLock},
    time::Duration,
};

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C20",
        run: |c, t| done(c20(c, t)),
        tape: 2500,
        quick: 900,
        thorough: 12000,
        rule: "the program has four or more functions of its own and, on Thumb, the interpreter observed three or more calls",
        assumptions: &[
            "the programs are built by the real cargo and the pinned compiler, with build-std, fat LTO and one codegen unit",
            "the machine code is disassembled by llvm-objdump and the recorded stack sizes are read by llvm-readelf",
            "behaviour while running is observed in an interpreter for Thumb code; runs end after a number of steps or at an instruction it does not support",
        ],
        directed: &[],
    }]
}

struct Build {
    target: &'static str,
    opt: &'static str,
    kind: Kind,
    /// more of the profile
    profile: &'static str,
    /// with a dependency that has a build script, as an example instead of a binary
    dep: bool,
    /// with functions that are too far away for a branch, which the linker makes thunks for
    far: bool,
}

const V7: Kind = Kind::Thumb { v7: true };
const V6: Kind = Kind::Thumb { v7: false };

const fn b(target: &'static str, opt: &'static str, kind: Kind) -> Build {
    Build {
        target,
        opt,
        kind,
        profile: "",
        dep: false,
        far: false,
    }
}

const BUILDS: &[Build] = &[
    b("thumbv7m-none-eabi", "\"z\"", V7),
    Build {
        far: true,
        ..b("thumbv6m-none-eabi", "3", V6)
    },
    b("thumbv7em-none-eabihf", "3", V7),
    Build {
        profile: "debug = true\n[profile.release.package.fw]\noverflow-checks = true\n",
        ..b("thumbv6m-none-eabi", "\"z\"", V6)
    },
    Build {
        dep: true,
        ..b("thumbv7m-none-eabi", "1", V7)
    },
    b("riscv32imac-unknown-none-elf", "\"s\"", Kind::Other),
    b("aarch64-unknown-none", "2", Kind::Other),
    Build {
        far: true,
        ..b("thumbv7em-none-eabi", "\"s\"", V7)
    },
    b("x86_64-unknown-none", "3", Kind::Other),
    b("armv7r-none-eabi", "\"z\"", Kind::Other),
    b("thumbv8m.base-none-eabi", "2", Kind::Other),
    Build {
        profile: "debug = true\npanic = \"abort\"\n",
        ..b("riscv64gc-unknown-none-elf", "1", Kind::Other)
    },
    Build {
        profile: "debug = 1\n[profile.release.package.fw]\ndebug-assertions = true\n",
        ..b("thumbv7em-none-eabihf", "2", V7)
    },
    Build {
        dep: true,
        profile: "debug = true\n",
        ..b("thumbv6m-none-eabi", "\"s\"", V6)
    },
    Build {
        profile: "[profile.release.package.fw]\noverflow-checks = true\n",
        ..b("thumbv7m-none-eabi", "2", V7)
    },
    b("riscv64imac-unknown-none-elf", "\"z\"", Kind::Other),
    Build {
        dep: true,
        ..b("thumbv8m.main-none-eabihf", "\"z\"", Kind::Other)
    },
    b("armv7a-none-eabi", "3", Kind::Other),
    b("loongarch64-unknown-none", "\"s\"", Kind::Other),
    Build {
        profile: "debug = true\n[profile.release.package.fw]\noverflow-checks = true\n",
        ..b("armv7r-none-eabihf", "1", Kind::Other)
    },
];

/// the last few are for the thorough tier
const QUICK: usize = 8;

fn env(c: &mut Command) {
    c.env_clear()
        .env("HOME", std::env::var_os("HOME").unwrap_or_else(|| "/root".into()))
        .env("PATH", "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
        .env("CARGO_NET_OFFLINE", "true")
        .env("CARGO_TERM_COLOR", "never")
        .env("CARGO_CACHE_AUTO_CLEAN_FREQUENCY", "never")
        .env("RUSTUP_AUTO_INSTALL", "0");
    for k in ["RUSTUP_HOME", "CARGO_HOME"] {
        if let Some(v) = std::env::var_os(k) {
            c.env(k, v);
        }
    }
}

fn tool(dir: &Path, b: &Build, seconds: u64) -> Out {
    let mut c = Command::new(std::env::var_os("VERIF_TOOL").expect("VERIF_TOOL"));
    env(&mut c);
    c.current_dir(dir).args(["--target", b.target, b.select(), b.name()]);
    run(c, None, Duration::from_secs(seconds))
}

impl Build {
    fn select(&self) -> &'static str {
        if self.dep {
            "--example"
        } else {
            "--bin"
        }
    }

    fn name(&self) -> &'static str {
        if self.dep {
            "fw-x"
        } else {
            "fw"
        }
    }

    fn main(&self, dir: &Path) -> PathBuf {
        dir.join(if self.dep { "examples/fw-x.rs" } else { "src/main.rs" })
    }

    fn executable(&self, dir: &Path) -> PathBuf {
        let rel = dir.join("target").join(self.target).join("release");
        rel.join(if self.dep { "examples/fw-x" } else { "fw" })
    }

    /// where the IR and the object file are
    fn outputs(&self, dir: &Path) -> PathBuf {
        let rel = dir.join("target").join(self.target).join("release");
        rel.join(if self.dep { "examples" } else { "deps" })
    }
}

fn write_project(dir: &Path, b: &Build, main: &str) {
    fs::create_dir_all(dir).unwrap();
    fs::write(
        dir.join("Cargo.toml"),
        format!(
            "[package]\nname = \"fw\"\nversion = \"0.1.0\"\nedition = \"2021\"\n{}[profile.release]\ncodegen-units = 1\n{}lto = \"fat\"\nopt-level = {}\n{}[workspace]\n",
            if b.dep { "[dependencies]\ndep = { path = \"dep\" }\n" } else { "" },
            if b.profile.contains("debug =") { "" } else { "debug = false\n" },
            b.opt,
            b.profile,
        ),
    )
    .unwrap();
    if b.far {
        fs::create_dir_all(dir.join(".cargo")).unwrap();
        fs::write(
            dir.join(".cargo/config.toml"),
            format!("[target.{}]\nrustflags = [\"-C\", \"link-arg=--section-start=.ramtext=0x20000000\"]\n", b.target),
        )
        .unwrap();
    }
    if b.dep {
        let d = dir.join("dep");
        fs::create_dir_all(d.join("src")).unwrap();
        fs::write(d.join("Cargo.toml"), "[package]\nname = \"dep\"\nversion = \"0.1.0\"\nedition = \"2021\"\n").unwrap();
        fs::write(d.join("build.rs"), SCRIPT).unwrap();
        fs::write(
            d.join("src/lib.rs"),
            "#![no_std]\ninclude!(concat!(env!(\"OUT_DIR\"), \"/k.rs\"));\n#[inline(never)] pub fn twist(x: u32) -> u32 { let a = [x; K]; core::hint::black_box(&a); a[K - 1] ^ 1 }\n",
        )
        .unwrap();
    }
    let repo = std::env::var_os("VERIF_REPO").unwrap_or_else(|| "/repo".into());
    let chain = fs::read(Path::new(&repo).join("firmware/rust-toolchain.toml")).unwrap_or_else(|_| {
        b"[toolchain]\nchannel = \"nightly-2023-11-13\"\ncomponents = [\"rust-src\"]\nprofile = \"minimal\"\n".to_vec()
    });
    fs::write(dir.join("rust-toolchain.toml"), chain).unwrap();
    write_main(dir, b, main);
}

/// queries the compiler through the wrapper, like many build scripts do
const SCRIPT: &str = r#"use std::{env, fs, path::Path, process::Command};
fn main() {
    let rustc = env::var_os("RUSTC").unwrap();
    let mut c = match env::var_os("RUSTC_WRAPPER") {
        Some(w) => { let mut c = Command::new(w); c.arg(rustc); c }
        None => Command::new(rustc),
    };
    let o = c.arg("-vV").output().unwrap();
    assert!(o.status.success());
    assert!(String::from_utf8(o.stdout).unwrap().starts_with("rustc "));
    fs::write(Path::new(&env::var_os("OUT_DIR").unwrap()).join("k.rs"), "const K: usize = 9;").unwrap();
}
"#;

/// the file is a hard link to one in the template
fn write_main(dir: &Path, b: &Build, main: &str) {
    let p = b.main(dir);
    fs::create_dir_all(p.parent().unwrap()).unwrap();
    let _ = fs::remove_file(&p);
    let text = match b.dep {
        true => main.replace("out(a ^ b); idle() }\n#[panic", "b ^= dep::twist(a); out(a ^ b); idle() }\n#[panic"),
        false => main.to_string(),
    };
    fs::write(p, text).unwrap();
}

const EMPTY: &str = "#![no_std]\n#![no_main]\n#[no_mangle] pub extern \"C\" fn _start() -> ! { loop {} }\n#[panic_handler] fn panic(_: &core::panic::PanicInfo) -> ! { loop {} }\n";

/// everything that depends on the program
fn forget(dir: &Path, b: &Build) {
    let rel = dir.join("target").join(b.target).join("release");
    for sub in ["", "deps", "examples", ".fingerprint", "build", "incremental"] {
        for e in fs::read_dir(rel.join(sub)).into_iter().flatten().flatten() {
            let name = e.file_name().to_string_lossy().into_owned();
            if name.starts_with("fw") || name.starts_with("libfw") || sub == "examples" {
                if e.path().is_dir() {
                    let _ = fs::remove_dir_all(e.path());
                } else {
                    let _ = fs::remove_file(e.path());
                }
            }
        }
    }
}

fn locks(dir: &Path) {
    for e in fs::read_dir(dir).into_iter().flatten().flatten() {
        let p = e.path();
        let name = e.file_name();
        if p.is_dir() {
            locks(&p);
        } else if name == ".cargo-lock" || name == ".rustc_info.json" {
            let _ = fs::remove_file(p);
        }
    }
}

type Template = Arc<OnceLock<Result<PathBuf, Verdict>>>;
static TEMPLATES: OnceLock<Mutex<HashMap<usize, Template>>> = OnceLock::new();

/// a project whose dependencies (`core` and so on) are built already
fn template(root: &Path, k: usize) -> R<PathBuf> {
    let cell = TEMPLATES
        .get_or_init(Default::default)
        .lock()
        .unwrap()
        .entry(k)
        .or_default()
        .clone();
    cell.get_or_init(|| {
        let dir = root.join(format!("template-{}", k));
        let _ = fs::remove_dir_all(&dir);
        let b = &BUILDS[k];
        write_project(&dir, b, EMPTY);
        // by the tool, whose wrapper sees to it that the IR of `compiler_builtins` is kept
        let o = tool(&dir, b, 300);
        if !o.ok() {
            let _ = fs::remove_dir_all(dir.join("target"));
            let plain = build(&dir, b);
            return Err(if plain.ok() && (o.timeout || o.signal != Some(9)) {
                Verdict::Fail(format!("the tool fails on an empty program for {} at opt-level {}: {}", b.target, b.opt, why(&o)))
            } else {
                Verdict::Error(format!("cannot build for {}: {}", b.target, plain.tail()))
            });
        }
        forget(&dir, b);
        locks(&dir.join("target"));
        Ok(dir)
    })
    .clone()
}

/// what the tool does to build the program
fn build(dir: &Path, b: &Build) -> Out {
    let mut c = Command::new("cargo");
    env(&mut c);
    c.current_dir(dir).args(["rustc", "--release", b.select(), b.name(), "--target", b.target, "-Zbuild-std=core,alloc,compiler_builtins"]);
    run(c, None, Duration::from_secs(300))
}

fn project(ctx: &Ctx, k: usize) -> R<PathBuf> {
    let dir = ctx.sb.dir.join(format!("real-{}", k));
    if dir.join("target").exists() {
        return Ok(dir);
    }
    let t = template(ctx.sb.dir.parent().unwrap(), k)?;
    let mut c = Command::new("cp");
    c.arg("-al").arg(&t).arg(&dir);
    let o = run(c, None, Duration::from_secs(60));
    if !o.ok() {
        return Err(Verdict::Error(format!("cp: {}", o.tail())));
    }
    Ok(dir)
}

/// function name: bytes, from the `.stack_sizes` sections of an object file or archive
fn recorded(files: &[PathBuf]) -> Result<HashMap<String, u64>, String> {
    let mut out = HashMap::new();
    for f in files {
        let o = run(
            {
                let mut c = Command::new("llvm-readelf-18");
                c.arg("--stack-sizes").arg(f);
                c
            },
            None,
            Duration::from_secs(60),
        );
        if !o.ok() {
            return Err(format!("llvm-readelf: {}", o.tail()));
        }
        for l in o.out().lines() {
            let mut w = l.split_whitespace();
            if let Some(Ok(n)) = w.next().map(|n| n.parse::<u64>()) {
                // all names of a function
                for name in w {
                    out.insert(name.trim_end_matches(',').to_string(), n);
                }
            }
        }
    }
    Ok(out)
}

fn dehash(s: &str) -> Option<&str> {
    let h = s.rfind("::h")?;
    let tail = &s[h + 3..];
    (tail.len() == 16 && tail.chars().all(|c| c.is_ascii_hexdigit())).then(|| &s[..h])
}

fn outlined(names: &[String]) -> bool {
    names.iter().any(|n| n.starts_with("OUTLINED_FUNCTION_"))
}

/// routines that the code generator calls on its own
fn library(names: &[String]) -> bool {
    names.iter().any(|n| {
        n.starts_with("__") || ["memcpy", "memmove", "memset", "memcmp", "bcmp", "strlen"].contains(&&n[..]) || n.starts_with("OUTLINED_FUNCTION_") || n.starts_with("fm")
    })
}

struct World {
    image: Image,
    dot: Dot,
    /// node of each function of the executable
    node: Vec<usize>,
    edges: BTreeSet<(usize, usize)>,
    /// nodes that stand for anything: `?`
    anything: BTreeSet<usize>,
    /// functions that have the same name as another one, so that any of their nodes could be theirs
    vague: BTreeSet<usize>,
}

impl World {
    fn new(image: Image, dot: Dot) -> Result<World, String> {
        let mut by_label: HashMap<String, BTreeSet<usize>> = HashMap::new();
        let mut full: HashMap<String, BTreeSet<usize>> = HashMap::new();
        for (i, f) in image.funcs.iter().enumerate() {
            for n in &f.names {
                let d = rustc_demangle::demangle(n).to_string();
                if let Some(short) = dehash(&d) {
                    by_label.entry(short.to_string()).or_default().insert(i);
                } else {
                    by_label.entry(d.clone()).or_default().insert(i);
                }
                full.entry(d).or_default().insert(i);
                full.entry(n.clone()).or_default().insert(i);
            }
        }
        let mut node = vec![usize::MAX; image.funcs.len()];
        let mut vague = BTreeSet::new();
        for (j, n) in dot.nodes.iter().enumerate() {
            if n.dashed || n.name == "?" {
                continue;
            }
            let f = match (full.get(&n.name), by_label.get(&n.name)) {
                (Some(f), _) if f.len() == 1 => f,
                // local symbols of the application and of `compiler_builtins`
                (Some(f), _) if f.iter().all(|i| image.funcs[*i].names == [n.name.clone()]) => {
                    vague.extend(f.iter().copied());
                    match f.iter().find(|i| node[**i] == usize::MAX) {
                        Some(i) => node[*i] = j,
                        None => return Err(format!("more nodes than functions are called `{}`", n.name)),
                    }
                    continue;
                }
                (_, Some(f)) if f.len() == 1 => f,
                (None, None) => return Err(format!("node `{}` stands for no function of the executable", n.name)),
                _ => return Err(format!("node `{}` could stand for several functions of the executable", n.name)),
            };
            let f = *f.iter().next().unwrap();
            if node[f] != usize::MAX {
                return Err(format!("two nodes for {:?}", image.funcs[f].names));
            }
            node[f] = j;
        }
        if let Some(f) = node.iter().position(|n| *n == usize::MAX) {
            return Err(format!("no node for {:?}", image.funcs[f].names));
        }
        let edges: BTreeSet<(usize, usize)> = dot.edges.iter().copied().collect();
        let anything = (0..dot.nodes.len()).filter(|i| !dot.nodes[*i].dashed && dot.nodes[*i].name == "?").collect();
        Ok(World {
            image,
            dot,
            node,
            edges,
            anything,
            vague,
        })
    }

    fn name(&self, f: usize) -> &str {
        &self.dot.nodes[self.node[f]].name
    }

    fn direct(&self, f: usize, g: usize) -> bool {
        self.vague.contains(&f) || self.vague.contains(&g) || self.edges.contains(&(self.node[f], self.node[g]))
    }

    /// whether the graph says that `f` may call `g` by a pointer
    fn indirect(&self, f: usize, g: usize) -> bool {
        let succ = |a: usize| self.edges.range((a, 0)..(a + 1, 0)).map(|e| e.1);
        self.direct(f, g)
            || succ(self.node[f]).any(|x| {
                self.anything.contains(&x) || self.dot.nodes[x].dashed && succ(x).any(|y| y == self.node[g] || self.anything.contains(&y))
            })
    }
}

/// what holds of the machine code as such
fn statics(w: &World, b: &Build, rec: &HashMap<String, u64>, asm: &BTreeSet<usize>, ir: &HashMap<String, BTreeSet<String>>) -> Result<(), String> {
    let thumb = matches!(b.kind, Kind::Thumb { .. });
    for (f, fun) in w.image.funcs.iter().enumerate() {
        for (at, g) in w.image.branches(f) {
            let callee = &w.image.funcs[g];
            // without an analysis of machine code nothing says what the helpers of the code generator do
            if !thumb && (library(&callee.names) || outlined(&fun.names)) {
                continue;
            }
            if !w.direct(f, g) {
                return Err(format!(
                    "`{}` branches to `{}` (at {:#x}), but the graph has no such edge",
                    w.name(f),
                    w.name(g),
                    at
                ));
            }
        }
        if w.vague.contains(&f) {
            continue;
        }
        // stack usage
        let local = w.dot.nodes[w.node[f]].local;
        let known: Option<u64> = fun.names.iter().find_map(|n| rec.get(n).copied());
        let Some(known) = known else {
            if !thumb && local.is_some() {
                return Err(format!("`{}`: {:?} reported, nothing recorded", w.name(f), local));
            }
            continue;
        };
        if thumb && (outlined(&fun.names) || asm.contains(&f)) {
            continue;
        }
        let saves = if thumb {
            w.image
                .count(f, |i| i.mnemonic == "str" && i.operands.split(" @").next().unwrap().trim() == "lr, [sp, #-8]!")
        } else {
            0
        };
        let want = known + if saves > 0 { 8 } else { 0 };
        if local != Some(want) {
            return Err(format!("`{}`: {:?} reported, {} recorded, {} saves of LR", w.name(f), local, known, saves));
        }
    }
    // nothing but what the machine code or the IR says
    let of: HashMap<usize, usize> = w.node.iter().enumerate().map(|(f, n)| (*n, f)).collect();
    for (a, c) in &w.edges {
        let (Some(f), Some(g)) = (of.get(a), of.get(c)) else { continue };
        let branches = w.image.branches(*f);
        let (from, to) = (&w.image.funcs[*f].names, &w.image.funcs[*g].names);
        if branches.iter().any(|(_, x)| x == g || outlined(&w.image.funcs[*x].names))
            || w.vague.contains(f)
            || w.vague.contains(g)
            || to.iter().any(|n| n.contains("mem"))
            || from.iter().filter_map(|n| ir.get(n)).any(|calls| to.iter().any(|n| calls.contains(n)))
        {
            continue;
        }
        return Err(format!("the graph has an edge from `{}` to `{}`, which is in neither the machine code nor the IR", w.name(*f), w.name(*g)));
    }
    let u = compare::usage(&w.dot);
    for (i, n) in w.dot.nodes.iter().enumerate() {
        if let Some(m) = n.max {
            if m != u.max[i] {
                return Err(format!("`{}`: maximum {:?} reported, {:?} expected", n.name, m, u.max[i]));
            }
        }
    }
    Ok(())
}

fn why(o: &Out) -> String {
    let e = o.err();
    let l: Vec<&str> = e.lines().filter(|l| !l.starts_with("warning") && !l.trim_start().starts_with("at ")).collect();
    let at = l.iter().position(|l| l.contains("panicked at") || l.starts_with("error")).unwrap_or(l.len().saturating_sub(5));
    l[at..(at + 5).min(l.len())].join(" | ")
}

fn c20(ctx: &mut Ctx, t: &mut Tape) -> R<Case> {
    let k = t.below(if ctx.thorough { BUILDS.len() } else { QUICK });
    let b = &BUILDS[k];
    let src = rust::generate(t, b.kind);
    let mut noise = t.noise();
    let dir = project(ctx, k)?;
    forget(&dir, b);
    write_main(&dir, b, &src.text);
    let mut o = tool(&dir, b, 150);
    if o.timeout || o.signal == Some(9) {
        // a stall of the machine?
        forget(&dir, b);
        o = tool(&dir, b, 100);
    }
    let about = |m: String| {
        Verdict::Fail(format!(
            "{}\n  target {} opt-level {}, program:\n{}",
            m, b.target, b.opt, src.text
        ))
    };
    if o.signal == Some(9) && !o.timeout {
        return Err(Verdict::Error(format!("the tool was ended from outside: {}", o.tail())));
    }
    if !o.ok() {
        forget(&dir, b);
        let plain = build(&dir, b);
        if !plain.ok() {
            let e: Vec<String> = plain.err().lines().filter(|l| l.starts_with("error") || l.contains("lld: error")).map(|l| l.to_string()).collect();
            return Err(Verdict::Error(format!("the program does not compile: {}\n{}", e.join("; "), src.text)));
        }
        let what = if o.timeout { "does not finish" } else { "fails" };
        return Err(about(format!("the tool {} on a valid program: {}", what, why(&o))));
    }
    if ctx.verbose {
        eprintln!("{}\n{}", src.text, o.out());
    }
    let graph = dot::parse(&o.out()).map_err(|e| about(format!("invalid dot output: {}", e)))?;
    let rel = dir.join("target").join(b.target).join("release");
    let image = emu::load(&b.executable(&dir)).map_err(Verdict::Error)?;
    let w = World::new(image, graph).map_err(about)?;
    let mut files = vec![];
    let outputs = b.outputs(&dir);
    for d in [&outputs, &rel.join("deps")] {
        for e in fs::read_dir(d).into_iter().flatten().flatten() {
            let name = e.file_name().to_string_lossy().into_owned();
            if name.starts_with("fw") && name.ends_with(".o") || name.starts_with("libcompiler_builtins-") && name.ends_with(".rlib") {
                files.push(e.path());
            }
        }
    }
    // the application takes precedence
    files.sort_by_key(|f| f.extension().map_or(false, |x| x == "o"));
    let rec = recorded(&files).map_err(Verdict::Error)?;
    // functions that contain inline assembly, which may use stack space the compiler knows nothing of
    let (ir, asm) = parse_ir(&outputs, &rel.join("deps"), &w.image);
    statics(&w, b, &rec, &asm, &ir).map_err(about)?;
    let mut classes: Vec<&'static str> = src.tags.clone();
    classes.push(b.target);
    let mut observed = 0;
    let mut indirect = false;
    let mut checked = 0;
    if matches!(b.kind, Kind::Thumb { .. }) {
        for round in 0..4 {
            let (trace, stop) = dynamics(&w, round, &mut noise, &rec, &asm).map_err(about)?;
            observed = observed.max(trace.edges.len());
            indirect |= trace.edges.iter().any(|e| e.2);
            checked += trace.total.len();
            match stop {
                Stop::Done => classes.push("run to the end"),
                Stop::Cap => classes.push("run cut short"),
                Stop::Stuck(why) => {
                    if ctx.verbose {
                        eprintln!("stuck: {}", why);
                    }
                    if why.contains('`') {
                        classes.push("unsupported instruction");
                        if std::env::var("VERIF_STUCK").as_deref() == Ok("2") {
                            eprintln!("stuck: {}", why);
                        }
                    } else {
                        classes.push("interpreter lost track");
                        if std::env::var_os("VERIF_STUCK").is_some() {
                            return Err(about(format!("stuck: {}", why)));
                        }
                    }
                }
            }
        }
    } else {
        observed = 99;
    }
    let exact = w.dot.nodes.iter().any(|n| !n.dashed && n.name != "?" && n.max.map(|m| m.exact && m.n > 0).unwrap_or(false));
    classes.sort();
    classes.dedup();
    let n = w.image.funcs.len();
    let mut c = Case::new(
        src.functions >= 4 && observed >= 3,
        fnv(src.text.as_bytes()) ^ k as u64,
        format!("{} opt-level {}, {} functions ({} own), {} observations; {}", b.target, b.opt, n, src.functions, checked, src.tags.join(", ")),
    )
    .class("calls by pointer observed", indirect)
    .class("functions made by the outliner", w.image.funcs.iter().any(|f| outlined(&f.names)))
    .class("exact maxima", exact);
    c.classes.extend(classes);
    Ok(c)
}

/// the symbols that the calls of each function mention, and the functions that contain assembly
fn parse_ir(outputs: &Path, deps: &Path, image: &Image) -> (HashMap<String, BTreeSet<String>>, BTreeSet<usize>) {
    let mut asm = BTreeSet::new();
    let mut calls: HashMap<String, BTreeSet<String>> = HashMap::new();
    let unquote = |s: &str| match s.strip_prefix('"') {
        Some(q) => q.split('"').next().unwrap().to_string(),
        None => s.split(|c: char| !(c.is_alphanumeric() || "._$-".contains(c))).next().unwrap().to_string(),
    };
    for e in [outputs, deps].into_iter().flat_map(fs::read_dir).flatten().flatten() {
        if e.path().extension().map_or(true, |x| x != "ll") {
            continue;
        }
        let text = fs::read(e.path()).unwrap_or_default();
        let text = String::from_utf8_lossy(&text);
        let mut cur: Option<String> = None;
        for l in text.lines() {
            if l.starts_with("define ") {
                let Some(rest) = l.split_once('@').map(|x| x.1) else { continue };
                cur = Some(unquote(rest));
            } else if l == "}" {
                cur = None;
            } else if let (Some(n), true) = (&cur, l.contains("call ") || l.contains("invoke ")) {
                let set = calls.entry(n.clone()).or_default();
                set.extend(l.split('@').skip(1).map(unquote));
                if l.contains(" asm ") {
                    if let Some(f) = image.funcs.iter().position(|f| f.names.contains(n)) {
                        asm.insert(f);
                    }
                }
            }
        }
    }
    (calls, asm)
}

fn dynamics(w: &World, round: u32, noise: &mut Noise, rec: &HashMap<String, u64>, asm: &BTreeSet<usize>) -> Result<(emu::Trace, Stop), String> {
    let mut seed = noise.next();
    let mut next = || {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let r = (seed >> 33) as u32;
        let pick = r >> 24;
        let v = r & 0xff_ffff;
        match (round, pick % 8) {
            (0, 0..=6) => v % 16,
            (1, 0..=3) => v % 4,
            (2, 0) => 0x12345,
            (3, 0) => [0x12345, 0x777, 0x778, 0x779, 0x77a][v as usize % 5],
            (_, 4) => v.wrapping_mul(257),
            (_, 5) => u32::MAX - v % 3,
            _ => v % 32,
        }
    };
    let (trace, stop) = emu::run(&w.image, 60_000, &mut next);
    for (f, g, by_pointer) in &trace.edges {
        let fine = if *by_pointer { w.indirect(*f, *g) } else { w.direct(*f, *g) };
        if !fine {
            return Err(format!(
                "`{}` {} `{}` when the program runs, but the graph says that it never does",
                w.name(*f),
                if *by_pointer { "calls, by a pointer," } else { "calls" },
                w.name(*g)
            ));
        }
    }
    let _ = (rec, asm);
    for (f, used) in &trace.own {
        if outlined(&w.image.funcs[*f].names) || w.vague.contains(f) {
            continue;
        }
        if let Some(local) = w.dot.nodes[w.node[*f]].local {
            if *used > local {
                return Err(format!("`{}` uses {} bytes of stack when the program runs, {} reported", w.name(*f), used, local));
            }
        }
    }
    let maxima: BTreeMap<usize, dot::Max> = trace.total.keys().filter(|f| !w.vague.contains(f)).filter_map(|f| w.dot.nodes[w.node[*f]].max.map(|m| (*f, m))).collect();
    for (f, m) in maxima {
        let used = trace.total[&f];
        if m.exact && used > m.n {
            return Err(format!(
                "`{}` and its callees use {} bytes of stack when the program runs, at most {} reported",
                w.name(f),
                used,
                m.n
            ));
        }
    }
    Ok((trace, stop))
}
