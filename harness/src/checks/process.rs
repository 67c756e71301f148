//! Properties of how the tool drives the build: C15, C16, C17, C18, C23
use super::*;
use crate::{
    compare,
    model::{ANY, OTHER, THUMB},
    runner::Ctx,
    sandbox::{run_tool, version, Out, Via, HASH, LL_MARK, OVERRIDE_KEY, OVERRIDE_VALUE, RLIB_MARK},
};
use std::{
    collections::{BTreeMap, BTreeSet},
    ffi::{OsStr, OsString},
    fs,
    os::unix::ffi::{OsStrExt, OsStringExt},
    path::{Path, PathBuf},
    time::{Duration, SystemTime, UNIX_EPOCH},
};

const RECORDED: &[&str] = &["the compiler and cargo are stand-ins that record their arguments, environment and input, print generated output and end with a generated status"];
const STANDINS: &[&str] = &[
    "the compiler and cargo are stand-ins; cargo's stand-in leaves generated artifacts where the real one does",
    "projects are configured by flags, CARGO_BUILD_TARGET, CARGO_TARGET_DIR and the nearest `.cargo/config[.toml]`; cargo's merging of several configuration files is out of scope",
];

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C15",
            run: |c, t| done(c15(c, t)),
            tape: 200,
            quick: 8000,
            thorough: 200000,
            rule: "compiler_builtins is compiled, or passed as a library next to options that resemble the ones the wrapper looks for, or the compiler fails",
            assumptions: RECORDED,
            directed: &[],
        },
        Check {
            id: "C16",
            run: |c, t| done(c16(c, t)),
            tape: 500,
            quick: 6000,
            thorough: 150000,
            rule: "the build fails or prints lines that resemble the markers, or several of target, features, configuration and working directory are not the default",
            assumptions: STANDINS,
            directed: &[],
        },
        Check {
            id: "C17",
            run: |c, t| done(c17(c, t)),
            tape: 1200,
            quick: 6000,
            thorough: 150000,
            rule: "three or more other sets of artifacts are around, one of them with the requested name, or an artifact of the build is missing",
            assumptions: STANDINS,
            directed: &[],
        },
        Check {
            id: "C18",
            run: |c, t| done(c18(c, t)),
            tape: 300,
            quick: 6000,
            thorough: 150000,
            rule: "the version report is that of another toolchain or the override variable is set to a value that resembles the documented one",
            assumptions: STANDINS,
            directed: &[],
        },
        Check {
            id: "C23",
            run: |c, t| done(c23(c, t)),
            tape: 400,
            quick: 4000,
            thorough: 100000,
            rule: "sources were marked as changed, or the run was refused",
            assumptions: STANDINS,
            directed: &[],
        },
    ]
}

fn show(args: &[Vec<u8>]) -> String {
    let v: Vec<String> = args.iter().map(|a| String::from_utf8_lossy(a).into_owned()).collect();
    format!("{:?}", v)
}

/// does not count runs that were ended from outside
fn attempt(ctx: &mut Ctx, make: &dyn Fn(&Ctx) -> std::process::Command, stdin: Option<Vec<u8>>) -> R<Out> {
    let mut tries = 0;
    loop {
        let o = run_tool(make(ctx), stdin.clone());
        ctx.sb.runs += 1;
        tries += 1;
        if (o.timeout || o.signal == Some(9)) && tries < 3 {
            continue;
        }
        return ctx.answer(o);
    }
}

// ---- C15

const CRATES: &[&str] = &["app", "core", "alloc", "compiler_builtins", "build_script_build", "compiler_builtins_extra", "rustc_std_workspace_core", "my_lib", "xcompiler_builtins"];
const DIRS: &[&str] = &[
    "/p/target/thumbv7m-none-eabi/release/deps",
    "/p/target/release/deps",
    "/home/me/my projects/x=1/target/release/deps",
    "/tmp/größe/deps",
    "target/debug/deps",
    "/p/a b/examples",
    "/home/me/a:b/target/release/deps",
    "C:\\p\\target\\release\\deps",
    "/p/noprelude:compiler_builtins=x/deps",
    "/p/-C/extra-filename=-1/deps",
];

fn hash_name(t: &mut Tape) -> String {
    format!("{:016x}", t.u64())
}

fn c15(ctx: &mut Ctx, t: &mut Tape) -> R<Case> {
    let compiling = t.chance(35);
    let query = !compiling && t.chance(10);
    let crate_name = if compiling { "compiler_builtins" } else { *t.pick(&["app", "core", "alloc", "build_script_build", "my_lib", "compiler_builtins_extra", "___"]) };
    let out_dir = if compiling || t.chance(80) { Some(*t.pick(DIRS)) } else { None };
    let extra = if t.chance(85) { Some(format!("-{}", hash_name(t))) } else { None };
    // options in groups that stay together
    let mut groups: Vec<Vec<String>> = vec![];
    let g = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let mut paths: Vec<String> = vec![];
    let mut tricky = false;
    if query {
        for _ in 0..t.range(1, 3) {
            groups.push(match t.below(8) {
                0 => g(&["-vV"]),
                1 => g(&["--version"]),
                2 => g(&["--print=cfg2"]),
                3 => g(&["--print", "sysroot"]),
                4 => g(&["--crate-name=probe"]),
                5 => g(&["-"]),
                6 => g(&["--target", "thumbv7m-none-eabi"]),
                _ => g(&["-V"]),
            });
        }
    } else {
        groups.push(g(&["--crate-name", crate_name]));
        if let Some(d) = out_dir {
            groups.push(g(&["--out-dir", d]));
        }
        if let Some(x) = &extra {
            let v = format!("extra-filename={}", x);
            groups.push(if t.chance(30) { vec![format!("-C{}", v)] } else { vec!["-C".into(), v] });
        }
        // sometimes a long command line
        let n = if t.chance(8) { t.range(40, 150) } else { t.below(12) };
        for _ in 0..n {
            let grp: Vec<String> = match t.below(15) {
                0 => {
                    let n = *t.pick(CRATES);
                    let d = *t.pick(DIRS);
                    let ext = *t.pick(&["rlib", "rmeta", "so"]);
                    let p = format!("{}/lib{}-{}.{}", d, n, hash_name(t), ext);
                    let pre = if t.chance(40) { "noprelude:" } else { "" };
                    if n == "compiler_builtins" {
                        paths.push(p.clone());
                    } else {
                        tricky |= n.contains("compiler_builtins");
                    }
                    vec!["--extern".into(), format!("{}{}={}", pre, n, p)]
                }
                1 => {
                    // without a path
                    tricky = true;
                    vec!["--extern".into(), (*t.pick(&["proc_macro", "compiler_builtins", "noprelude:compiler_builtins"])).into()]
                }
                2 => vec!["-C".into(), (*t.pick(&["opt-level=z", "lto=fat", "linker-plugin-lto", "link-arg=-Tlink.x", "embed-bitcode=yes", "codegen-units=1", "panic=abort"])).into()],
                3 => {
                    tricky = true;
                    vec![
                        "-C".into(),
                        (*t.pick(&[
                            "link-arg=-Cextra-filename=-1",
                            "link-args=--extern compiler_builtins=/x",
                            "metadata=extra-filename",
                            "extra-filenames=-2",
                            "link-arg=--out-dir=/x",
                            "incremental=extra-filename=-3",
                        ]))
                        .into(),
                    ]
                }
                4 => vec![(*t.pick(&["-Copt-level=3", "-Cmetadata=1234", "-Clink-arg=extra-filename=-4", "-Cdebuginfo=2", "-Ccompiler_builtins=1"])).into()],
                5 => vec!["--cfg".into(), (*t.pick(&["feature=\"default\"", "feature=\"--extern\"", "feature=\"compiler_builtins\"", "feature=\"mem\"", "no_std"])).into()],
                6 => g(t.pick(&[&["--edition=2021"][..], &["--crate-type=lib"], &["--crate-type", "bin"], &["--test"]])),
                7 => vec!["-L".into(), (*t.pick(&["dependency=/p/target/release/deps", "native=/a b", "compiler_builtins=/x"])).into()],
                8 => vec![(*t.pick(&["--emit=dep-info,metadata,link", "--emit=llvm-ir,obj", "--emit=llvm-ir", "-Zemit-stack-sizes", "-Zunstable-options"])).into()],
                9 => vec!["-Z".into(), (*t.pick(&["force-unstable-if-unmarked", "emit-stack-sizes", "unstable-options"])).into()],
                10 => vec!["--target".into(), (*t.pick(&["thumbv7m-none-eabi", "x86_64-unknown-linux-gnu", "/p/custom target.json"])).into()],
                11 => vec![(*t.pick(&["src/main.rs", "/root/.cargo/registry/src/x/compiler_builtins-0.1.103/src/lib.rs", "a b.rs", "größe.rs", "-", "lib=x.rs", ""])).into()],
                12 => vec!["--check-cfg".into(), "cfg(feature, values(\"compiler_builtins\"))".into()],
                13 => vec!["--cap-lints".into(), (*t.pick(&["allow", "warn"])).into()],
                _ => vec!["--error-format=json".into(), "--json=diagnostic-rendered-ansi,artifacts,future-incompat".into()],
            };
            groups.push(grp);
        }
    }
    for i in (1..groups.len()).rev() {
        if t.chance(60) {
            let j = t.below(i + 1);
            groups.swap(i, j);
        }
    }
    // in the order of the arguments
    let args: Vec<String> = groups.into_iter().flatten().collect();
    paths.sort_by_key(|p| args.iter().position(|a| a.ends_with(&p[..])));
    let code = if t.chance(40) { *t.pick(&[1u32, 101, 2, 255, 254, 128, 42]) } else { 0 };
    let signal = if t.chance(6) { Some(*t.pick(&[15u32, 9, 1, 2, 13])) } else { None };
    // ways to name the compiler
    let bin = ctx.sb.dir.join("rc");
    let name = *t.pick(&["rustc", "my rustc", "rustc-größe", "clippy-driver"]);
    let by_path = t.chance(50) || name != "rustc";
    if !bin.join(name).exists() {
        fs::create_dir_all(&bin).unwrap();
        let _ = std::os::unix::fs::symlink(std::env::var_os("VERIF_SHIM").unwrap(), bin.join(name));
    }
    let missing = t.chance(3);
    let rustc: OsString = if missing {
        bin.join("no-such-rustc").into()
    } else if by_path {
        bin.join(name).into()
    } else {
        name.into()
    };
    let so: Vec<u8> = (*t.pick(&[&b""[..], b"out\n", b"no newline", b"\xff\x00bin\n", b"{\"json\": 1}\n"])).to_vec();
    let se: Vec<u8> = (*t.pick(&[&b""[..], b"warning: unused\n", b"{\"$message_type\":\"diagnostic\"}\n", b"error: x", b"a\n\nb\n", b"\xff\n"])).to_vec();
    let si: Option<Vec<u8>> = if t.chance(40) { Some((*t.pick(&[&b"fn main() {}"[..], b"", b"\x00\xff\n"])).to_vec()) } else { None };
    let mark = format!("m{}", t.below(1000));
    let enabled = *t.pick(&["1", "", "0", "yes"]);
    let vars = variables(t);

    ctx.sb.clear_log();
    ctx.sb.shim_write("rustc_stdout", &so);
    ctx.sb.shim_write("rustc_stderr", &se);
    ctx.sb.shim_write("rustc_exit", match signal {
        Some(s) => format!("signal {}", s),
        None => format!("exit {}", code),
    }.as_bytes());
    if si.is_some() {
        ctx.sb.shim_write("rustc_stdin", b"(not run)");
    } else {
        ctx.sb.shim_remove("rustc_stdin");
    }
    // `-vV` is answered with the version
    let answer = if query && args.iter().any(|a| a == "-vV") { Some(fs::read(ctx.sb.shim.join("rustc_vV")).unwrap()) } else { None };
    let o = attempt(
        ctx,
        &|ctx| {
            let mut c = ctx.sb.tool(&ctx.sb.dir);
            c.env("CARGO_CALL_STACK_RUSTC_WRAPPER", enabled).env("VSHIM_MARK", &mark).env("RUSTC_WRAPPER", "/some/wrapper").envs(vars.iter().cloned()).arg(&rustc).args(&args);
            c
        },
        si.clone(),
    )?;
    let log = ctx.sb.log();
    let what = format!("rustc {:?}, exit {} signal {:?}", args, code, signal);
    let bad = |m: String| fail(format!("{}\n  {}\n  {}", m, what, o.tail()));
    if missing {
        if o.ok() || !log.is_empty() {
            return bad("success although there is no compiler".into());
        }
        return Ok(Case::new(false, 0, String::new()).class("no compiler", true));
    }
    if log.len() != 1 {
        return bad(format!("the compiler ran {} times", log.len()));
    }
    let inv = &log[0];
    if inv.name != name {
        return bad(format!("{:?} was run instead of {:?}", inv.name, name));
    }
    // what comes before the original arguments
    let orig: Vec<Vec<u8>> = args.iter().map(|a| a.as_bytes().to_vec()).collect();
    if !inv.args.ends_with(&orig) {
        return bad(format!("the original arguments are not passed on: {}", show(&inv.args)));
    }
    let front = &inv.args[..inv.args.len() - orig.len()];
    let mut injected: Vec<String> = vec![];
    let mut i = 0;
    while i < front.len() {
        let a = String::from_utf8_lossy(&front[i]).into_owned();
        if (a == "-Z" || a == "--emit") && i + 1 < front.len() {
            let b = String::from_utf8_lossy(&front[i + 1]).into_owned();
            injected.push(if a == "-Z" { format!("-Z{}", b) } else { format!("--emit={}", b) });
            i += 2;
        } else {
            injected.push(a);
            i += 1;
        }
    }
    injected.sort();
    let mut want = vec!["-Zemit-stack-sizes".to_string()];
    if compiling {
        want.insert(0, "--emit=llvm-ir".into());
    }
    want.sort();
    if injected != want {
        return bad(format!("injected arguments {:?}, expected {:?}", injected, want));
    }
    if inv.env.get("VSHIM_MARK") != Some(&mark) || inv.env.get("RUSTC_WRAPPER").map(|s| &s[..]) != Some("/some/wrapper") {
        return bad("the environment is not inherited".into());
    }
    if let Some((k, v)) = vars.iter().find(|(k, v)| inv.env.get(*k) != Some(v)) {
        return bad(format!("the compiler runs with {} = {:?} instead of {:?}", k, inv.env.get(*k), v));
    }
    if inv.env.get("CWD").map(Path::new) != Some(&fs::canonicalize(&ctx.sb.dir).unwrap()) {
        return bad("the compiler runs in another directory".into());
    }
    // streams
    if let Some(b) = answer {
        if o.stdout != b || o.code != Some(0) {
            return bad("the answer of the compiler is not passed on".into());
        }
        return Ok(Case::new(true, fnv(what.as_bytes()), what).class("query", true));
    }
    if o.stdout != so {
        return bad(format!("stdout is {:?}", o.out()));
    }
    if let Some(b) = &si {
        if &fs::read(ctx.sb.shim.join("rustc_stdin")).unwrap_or_default() != b {
            return bad("stdin is not inherited".into());
        }
    }
    let mut rest: Vec<u8> = vec![];
    let mut got: Vec<(bool, String)> = vec![];
    for line in o.stderr.split_inclusive(|b| *b == b'\n') {
        let text = String::from_utf8_lossy(line).trim_end_matches('\n').to_string();
        if let Some(p) = text.strip_prefix(RLIB_MARK) {
            got.push((true, p.to_string()));
        } else if let Some(p) = text.strip_prefix(LL_MARK) {
            got.push((false, p.to_string()));
        } else {
            rest.extend(line);
        }
    }
    if rest != se {
        return bad(format!("stderr of the compiler is not passed on: {:?}", String::from_utf8_lossy(&rest)));
    }
    let mut expect: Vec<(bool, String)> = paths.iter().map(|p| (true, p.clone())).collect();
    if compiling {
        expect.push((false, format!("{}/compiler_builtins{}.ll", out_dir.unwrap(), extra.as_deref().unwrap_or(""))));
    }
    let libs = |v: &[(bool, String)], k: bool| v.iter().filter(|x| x.0 == k).map(|x| x.1.clone()).collect::<Vec<_>>();
    let clean = |s: &String| Path::new(s).components().collect::<PathBuf>();
    let same = |a: Vec<String>, b: Vec<String>| a.iter().map(clean).collect::<Vec<_>>() == b.iter().map(clean).collect::<Vec<_>>();
    if !same(libs(&got, true), libs(&expect, true)) || !same(libs(&got, false), libs(&expect, false)) {
        return bad(format!("reported paths {:?}, expected {:?}", got, expect));
    }
    match signal {
        Some(_) if o.ok() => return bad("success although the compiler was killed".into()),
        None if o.code != Some(code as i32) => return bad(format!("exit code {:?} instead of {}", o.code, code)),
        _ => {}
    }
    let nontrivial = compiling || (!paths.is_empty() && tricky) || code != 0 || signal.is_some();
    Ok(Case::new(nontrivial, fnv(what.as_bytes()), what)
        .class("compiler_builtins compiled", compiling)
        .class("compiler_builtins passed", !paths.is_empty())
        .class("resembling options", tricky)
        .class("exit code", code != 0 && signal.is_none())
        .class("signal", signal.is_some())
        .class("input", si.is_some())
        .class("without crate name", query))
}

// ---- projects

struct Proj {
    /// directory of the package
    root: PathBuf,
    cwd: PathBuf,
    /// arguments that select the target
    target_args: Vec<OsString>,
    env: Vec<(&'static str, OsString)>,
    /// effective target directory
    target_dir: PathBuf,
    /// directory of the selected target in there
    sub: Option<String>,
    /// what cargo has to be told
    target_flag: Option<String>,
    unusual: usize,
    note: String,
}

fn write(p: &Path, data: &[u8]) {
    fs::create_dir_all(p.parent().unwrap()).unwrap();
    fs::write(p, data).unwrap();
}

fn set_mtime(p: &Path, ms: u64) {
    fs::OpenOptions::new()
        .write(true)
        .open(p)
        .and_then(|f| f.set_modified(UNIX_EPOCH + Duration::from_millis(ms)))
        .unwrap();
}

fn now_ms() -> u64 {
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_millis() as u64
}

/// a fresh project; `host` if the compiler's own target is the requested one
fn project(ctx: &mut Ctx, t: &mut Tape, target: &str) -> Proj {
    let base = ctx.sb.dir.join("q");
    let _ = fs::remove_dir_all(&base);
    let mut unusual = 0;
    let mut note = vec![];
    let mut rel = PathBuf::from(*t.pick(&["proj", "my proj", "größe", "a-b"]));
    // member of a workspace?
    let workspace = t.below(5);
    let mut ws_root = None;
    let base = base.join(&rel);
    if workspace == 4 {
        unusual += 1;
        note.push("workspace member".to_string());
        let (members, at) = *t.pick(&[("\"fw\"", "fw"), ("\"crates/*\"", "crates/fw"), ("\"other\", \"fw\"", "fw")]);
        write(&base.join("Cargo.toml"), format!("[workspace]\nmembers = [{}]\n", members).as_bytes());
        if members.contains("other") {
            write(&base.join("other/Cargo.toml"), b"[package]\nname = \"other\"\nversion = \"0.1.0\"\n");
            write(&base.join("other/src/main.rs"), b"");
        }
        ws_root = Some(base.clone());
        rel = PathBuf::from(at);
    } else {
        rel = PathBuf::new();
    }
    let root = if rel.as_os_str().is_empty() { base.clone() } else { base.join(&rel) };
    write(&root.join("Cargo.toml"), format!("[package]\nname = \"{}\"\nversion = \"0.1.0\"\n", t.pick(&["app", "my-app", "fw"])).as_bytes());
    fs::create_dir_all(root.join("src")).unwrap();
    let cwd = match t.below(6) {
        5 => root.join("src"),
        4 => root.join("some/where"),
        _ => root.clone(),
    };
    fs::create_dir_all(&cwd).unwrap();
    if cwd != root {
        unusual += 1;
        note.push("run in a subdirectory".to_string());
    }
    // how the target is selected
    let mut target_args = vec![];
    let mut env = vec![];
    let mut config = vec![];
    let decoy = (*t.pick(ANY)).to_string();
    let via = t.below(5);
    let flag = |t: &mut Tape, v: &mut Vec<OsString>| {
        if t.chance(30) {
            v.push(format!("--target={}", target).into());
        } else {
            v.push("--target".into());
            v.push(target.into());
        }
    };
    let mut target_flag = Some(target.to_string());
    let mut sub = Some(target.to_string());
    match via {
        0 => {
            flag(t, &mut target_args);
            if t.chance(50) {
                config.push(("target", decoy.clone()));
            }
            if t.chance(30) {
                env.push(("CARGO_BUILD_TARGET", decoy.clone().into()));
            }
        }
        1 => {
            config.push(("target", target.to_string()));
            target_flag = None;
        }
        2 => {
            env.push(("CARGO_BUILD_TARGET", target.into()));
            if t.chance(60) {
                config.push(("target", decoy.clone()));
            }
            // the tool may pass it on or leave it to cargo
        }
        3 => {
            // the compiler's own target
            sub = None;
            target_flag = None;
        }
        _ => flag(t, &mut target_args),
    }
    if via != 0 {
        unusual += 1;
        note.push(["", "target from the configuration", "target from the environment", "host", ""][via].to_string());
    }
    ctx.sb.shim_write("rustc_vV", version(HASH, if via == 3 { target } else { "x86_64-unknown-linux-gnu" }).as_bytes());
    // where the artifacts go
    let mut target_dir = ws_root.clone().unwrap_or_else(|| root.clone()).join("target");
    let abs = ctx.sb.dir.join("q/out dir");
    let config_at = *t.pick(&[0, 0, 0, 1, 2]);
    let config_base = match config_at {
        1 => ctx.sb.dir.join("q"),
        2 => cwd.clone(),
        _ => root.clone(),
    };
    match t.below(6) {
        5 => {
            target_dir = abs.clone();
            env.push(("CARGO_TARGET_DIR", abs.clone().into()));
            if t.chance(40) {
                config.push(("target-dir", "elsewhere".to_string()));
            }
            note.push("CARGO_TARGET_DIR".to_string());
            unusual += 1;
        }
        4 => {
            if config_base == cwd && t.chance(50) {
                target_dir = cwd.join("build/out");
                config.push(("target-dir", "build/out".to_string()));
            } else {
                target_dir = abs.clone();
                config.push(("target-dir", abs.display().to_string()));
            }
            note.push("target-dir".to_string());
            unusual += 1;
        }
        3 => {
            target_dir = cwd.join("rel-target");
            env.push(("CARGO_TARGET_DIR", "rel-target".into()));
            note.push("relative CARGO_TARGET_DIR".to_string());
            unusual += 1;
        }
        _ => {}
    }
    if !config.is_empty() || t.chance(20) {
        let mut text = String::new();
        if t.chance(30) {
            text += "[target.thumbv7m-none-eabi]\nrunner = \"qemu\"\nrustflags = [\"-C\", \"link-arg=-Tlink.x\"]\n\n";
        }
        if !config.is_empty() || t.chance(50) {
            text += "[build]\n";
        }
        for (k, v) in &config {
            text += &format!("{} = \"{}\"\n", k, v);
        }
        if t.chance(30) {
            text += "\n[alias]\nb = \"build\"\n";
        }
        let file = if t.chance(30) { "config" } else { "config.toml" };
        write(&config_base.join(".cargo").join(file), text.as_bytes());
        if config_at != 0 {
            unusual += 1;
        }
        // further away: does not count
        if config_base != ctx.sb.dir.join("q") && config.len() == 2 && t.chance(50) {
            write(
                &ctx.sb.dir.join("q/.cargo/config.toml"),
                format!("[build]\ntarget = \"{}\"\ntarget-dir = \"/nonexistent\"\n", decoy).as_bytes(),
            );
        }
    }
    if via == 2 {
        target_flag = Some(String::new()); // either way
    }
    Proj {
        root,
        cwd,
        target_args,
        env,
        target_dir,
        sub,
        target_flag,
        unusual,
        note: note.join(", "),
    }
}

impl Proj {
    fn release(&self, sub: &Option<String>, profile: &str) -> PathBuf {
        let mut d = self.target_dir.clone();
        if let Some(s) = sub {
            d.push(s);
        }
        d.join(profile)
    }
    fn command(&self, ctx: &Ctx) -> std::process::Command {
        let mut c = ctx.sb.tool(&self.cwd);
        for (k, v) in &self.env {
            c.env(k, v);
        }
        c
    }
}

/// where cargo puts things
fn places(dir: &Path, example: bool, file: &str, hash: &str) -> (PathBuf, PathBuf) {
    let stem = format!("{}-{}.ll", file.replace('-', "_"), hash);
    if example {
        (dir.join("examples").join(file), dir.join("examples").join(stem))
    } else {
        (dir.join(file), dir.join("deps").join(stem))
    }
}

fn small(thumb: bool) -> Opts {
    Opts {
        targets: if thumb { THUMB } else { OTHER },
        max_funcs: 4,
        max_stmts: 3,
        names: (3, 30),
        undef: 1,
        dead: 1,
        alias: 10,
        indirect: 5,
        ..Opts::default()
    }
}

/// variables a user or cargo may have set, which have to reach the programs that are run; the shim
/// logs them
fn variables(t: &mut Tape) -> Vec<(&'static str, String)> {
    let mut v: Vec<(&'static str, String)> = vec![];
    for (k, values) in VARIABLES {
        if t.chance(15) {
            v.push((k, t.pick(values).to_string()));
        }
    }
    v
}

const VARIABLES: &[(&str, &[&str])] = &[
    ("RUSTFLAGS", &["", "-C link-arg=-Tlink.x", "-C target-cpu=cortex-m4 --cfg größe", "-C lto=off --emit=asm"]),
    ("CARGO_ENCODED_RUSTFLAGS", &["-C\u{1f}link-arg=-Tlink.x", ""]),
    ("CARGO_INCREMENTAL", &["0", "1"]),
    ("CARGO_PROFILE_RELEASE_OPT_LEVEL", &["s", "z", "3"]),
    ("CARGO_NET_OFFLINE", &["true"]),
    ("CARGO_TERM_COLOR", &["never", "always"]),
    ("RUSTUP_TOOLCHAIN", &["nightly-2023-11-13", "nightly"]),
    ("RUST_BACKTRACE", &["1", "full"]),
    ("DEFMT_LOG", &["trace"]),
    ("OUT_DIR", &["/p/target/release/build/app-1/out"]),
    ("CARGO_PKG_NAME", &["app", "compiler_builtins"]),
    ("CARGO_CRATE_NAME", &["app", "compiler_builtins"]),
    ("CARGO_MANIFEST_DIR", &["/p", "/p/größe"]),
];

// ---- C18

fn mutate_text(t: &mut Tape, s: &str) -> String {
    let n = s.chars().count();
    let c: Vec<char> = s.chars().collect();
    match t.below(8) {
        0 => c[..t.below(n)].iter().collect(),
        1 => {
            let k = t.below(n);
            let mut c = c;
            c[k] = if c[k] == 'a' { 'b' } else { 'a' };
            c.into_iter().collect()
        }
        2 => s.to_uppercase(),
        3 => format!("{}{}", s, t.pick(&["0", " ", ".", "\u{e9}", "-dirty"])),
        4 => format!(" {}", s),
        5 => c.iter().rev().collect(),
        6 => c[t.range(1, n - 1)..].iter().collect(),
        _ => {
            let k = t.below(n);
            let mut c = c;
            c.remove(k);
            c.into_iter().collect()
        }
    }
}

fn c18(ctx: &mut Ctx, t: &mut Tape) -> R<Case> {
    // version report
    let kind = t.weighted(&[30, 25, 15, 10, 10, 10]);
    let hash: Option<String> = match kind {
        0 => Some(HASH.into()),
        1 => Some(mutate_text(t, HASH)),
        2 => Some(format!("{:016x}{:016x}{:08x}", t.u64(), t.u64(), t.raw())),
        3 => Some("unknown".into()),
        4 => Some((*t.pick(&["58cf8f9c35b355199727627d07ae34a4e2846d67", "", "2b603f95a", "nightly-2023-11-13", "0000000000000000000000000000000000000000"])).into()),
        _ => None,
    };
    let mut lines = vec![
        "binary: rustc".to_string(),
        format!("commit-date: {}", t.pick(&["2023-11-12", "unknown", HASH, "2023-11-13", "2030-01-01"])),
        format!("host: {}", t.pick(&["x86_64-unknown-linux-gnu", "aarch64-apple-darwin", HASH])),
        format!("release: {}", t.pick(&["1.76.0-nightly", "1.76.0", "1.80.0-beta.3", "1.76.0-dev", "2.0.0-nightly"])),
    ];
    if let Some(h) = &hash {
        lines.push(format!("commit-hash: {}", h));
    }
    if t.chance(80) {
        lines.push(format!("LLVM version: {}", t.pick(&["17.0.5", "17.0", "21.1.2"])));
    }
    if t.chance(20) {
        lines.push(format!("build-hash: {}", HASH));
    }
    for i in (1..lines.len()).rev() {
        if t.chance(40) {
            let j = t.below(i + 1);
            lines.swap(i, j);
        }
    }
    let first = t.pick(&["rustc 1.76.0-nightly (2b603f95a 2023-11-12)", "rustc 1.99.1 (58cf8f9c3 2026-10-13)", "rustc 1.76.0-nightly", "rustc 1.76.0-nightly (2b603f95a48f10f931a61dd208fe3e5ffd64e491 2023-11-12)"]);
    let report = format!("{}\n{}\n", first, lines.join("\n"));
    // the override
    let mut env: Vec<(String, OsString)> = vec![];
    let mut resembling = false;
    let over = match t.weighted(&[40, 25, 25, 10]) {
        0 => false,
        1 => {
            env.push((OVERRIDE_KEY.into(), OVERRIDE_VALUE.into()));
            true
        }
        2 => {
            resembling = true;
            let v: OsString = match t.below(6) {
                0 => "".into(),
                1 => (*t.pick(&["1", "true", "yes", "nightly-2023-11-13", HASH])).into(),
                2 => OVERRIDE_VALUE.replace('\'', "\u{2019}").into(),
                3 => {
                    let mut b = OVERRIDE_VALUE.as_bytes().to_vec();
                    b.push(0xff);
                    OsString::from_vec(b)
                }
                4 => format!("\"{}\"", OVERRIDE_VALUE).into(),
                _ => mutate_text(t, OVERRIDE_VALUE).into(),
            };
            let same = v == OVERRIDE_VALUE;
            env.push((OVERRIDE_KEY.into(), v));
            same
        }
        _ => {
            resembling = true;
            let k = t.pick(&["CARGO_CALL_STACK_UNSUPPORTED_NIGHTLY", "CARGO_CALL_STACK_UNSPPORTED_TOOLCHAIN", "CARGO_CALL_STACK_UNSPPORTED", "cargo_call_stack_unspported_nightly"]);
            env.push((k.to_string(), OVERRIDE_VALUE.into()));
            false
        }
    };
    let thumb = t.chance(40);
    let mut m = make(t, &small(thumb));
    if m.inp.via == Via::Host {
        m.inp.via = Via::Flag;
    }
    ctx.sb.populate(&m.inp);
    ctx.sb.shim_write("rustc_vV", report.as_bytes());
    let format = if t.chance(20) { Some("dot") } else { None };
    let supported = hash.as_deref() == Some(HASH);
    let well_formed = hash.is_some();
    let accepted = supported || (over && well_formed);
    let mut args = crate::sandbox::Sandbox::args(&m.inp, format, None);
    // whatever is asked for
    if t.chance(25) {
        args.push((*t.pick(&["-v", "--verbose"])).into());
    }
    if t.chance(20) {
        args.push((*t.pick(&["--all-features", "--features=std", "--features=nightly"])).into());
    }
    if format.is_none() && !accepted && t.chance(20) {
        args.push("--format=top".into());
    }
    if t.chance(15) && !accepted {
        args.push((*t.pick(&["main", "--", HASH])).into());
    }
    if t.chance(25) {
        args.insert(0, "call-stack".into());
    }
    let o = attempt(
        ctx,
        &|ctx| {
            let mut c = ctx.sb.tool(&ctx.sb.project());
            c.args(&args);
            for (k, v) in &env {
                c.env(k, v);
            }
            c
        },
        None,
    )?;
    let builds = ctx.sb.log().iter().filter(|i| i.name == "cargo").count();
    let what = format!("report {:?}, environment {:?}, arguments {:?}", report, env, args);
    let bad = |m: String| fail(format!("{}\n  {}\n  {}", m, what, o.tail()));
    if accepted {
        if builds != 1 || !o.ok() {
            return bad(format!("the toolchain should be accepted, {} builds", builds));
        }
        let dot = ctx.graph_of(&o)?;
        about(compare::compare(&dot, &m.exp, compare::ALL), &m.p)?;
    } else {
        if builds != 0 {
            return bad("built with an unsupported toolchain".into());
        }
        if o.ok() || o.has_graph() || o.code.is_none() {
            return bad("unsupported toolchain accepted".into());
        }
        if well_formed && !o.err().contains("nightly-2023-11-13") {
            return bad("the message does not name the supported toolchain".into());
        }
    }
    Ok(Case::new(!supported || resembling, fnv(what.as_bytes()), what)
        .class("supported", supported)
        .class("other hash", well_formed && !supported)
        .class("no hash", !well_formed || kind == 3)
        .class("override", over)
        .class("resembling override", resembling))
}

// ---- C16

/// options of a cargo command line, in a normal form
fn options(args: &[Vec<u8>]) -> Result<(String, BTreeMap<String, Vec<String>>), String> {
    let text: Vec<String> = args.iter().map(|a| String::from_utf8_lossy(a).into_owned()).collect();
    let mut out: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut put = |k: &str, v: String| out.entry(k.to_string()).or_default().push(v);
    let mut it = text.iter().peekable();
    let sub = it.next().cloned().unwrap_or_default();
    let mut compiler = false;
    while let Some(a) = it.next() {
        if !compiler && a == "--" {
            compiler = true;
            continue;
        }
        let (name, mut val) = match a.split_once('=') {
            Some((n, v)) if a.starts_with("--") => (n.to_string(), Some(v.to_string())),
            _ => (a.clone(), None),
        };
        let mut arg = |val: &mut Option<String>| val.take().or_else(|| it.next().cloned()).ok_or(format!("{} has no argument", name));
        if compiler {
            match &name[..] {
                "--emit" => {
                    for e in arg(&mut val)?.split(',') {
                        put("rustc --emit", e.to_string());
                    }
                }
                "-C" | "--codegen" => put("rustc -C", arg(&mut val)?),
                _ if a.starts_with("-C") => put("rustc -C", a[2..].to_string()),
                _ => return Err(format!("unexpected compiler option {:?}", a)),
            }
        } else {
            match &name[..] {
                "--target" | "--bin" | "--example" | "--profile" => {
                    let v = arg(&mut val)?;
                    if name == "--profile" && v == "release" {
                        put("--release", String::new());
                    } else {
                        put(&name, v);
                    }
                }
                "--features" | "-F" => {
                    for f in arg(&mut val)?.split(|c: char| c == ',' || c.is_whitespace()).filter(|f| !f.is_empty()) {
                        put("--features", f.to_string());
                    }
                }
                "--all-features" => put("--all-features", String::new()),
                "--release" | "-r" => put("--release", String::new()),
                "--color" => drop(arg(&mut val)?),
                "-q" | "--quiet" | "-v" | "--verbose" => {}
                "-Z" => put("-Z", arg(&mut val)?),
                _ if a.starts_with("-Z") => put("-Z", a[2..].to_string()),
                _ => return Err(format!("unexpected option {:?}", a)),
            }
        }
    }
    // `-Z build-std=a,b`
    if let Some(z) = out.remove("-Z") {
        for z in z {
            let (k, v) = z.split_once('=').map(|(k, v)| (k.to_string(), Some(v.to_string()))).unwrap_or((z.clone(), None));
            if k != "build-std" {
                return Err(format!("unexpected option -Z{}", z));
            }
            let e = out.entry("build-std".into()).or_default();
            match v {
                None => e.push("(all)".into()),
                Some(v) => e.extend(v.split(',').map(|s| s.to_string())),
            }
        }
    }
    if out.contains_key("--all-features") {
        out.remove("--features");
    }
    for v in out.values_mut() {
        v.sort();
        v.dedup();
    }
    Ok((sub, out))
}

const TRIPLES: &[&str] = &["x86_64-unknown-none", "mips-none-linux-gnu", "my-own-target", "thumbv7neon-linux-androideabi", "thumbv8m.base-none-eabi", "avr-unknown-gnu-atmega328"];

/// a `rustc --print cfg` answer
fn cfg(t: &mut Tape, os: &str, windows: bool) -> String {
    let mut l = vec![
        "debug_assertions".to_string(),
        "panic=\"unwind\"".into(),
        "target_arch=\"x86_64\"".into(),
        "target_endian=\"little\"".into(),
        format!("target_os=\"{}\"", os),
        "target_pointer_width=\"64\"".into(),
        format!("target_env=\"{}\"", t.pick(&["", "gnu", "none", "msvc"])),
        format!("target_vendor=\"{}\"", t.pick(&["unknown", "none"])),
    ];
    for x in [
        "target_feature=\"none\"",
        "target_has_atomic",
        "target_has_atomic=\"8\"",
        "target_abi=\"none\"",
        "overflow_checks",
        "relocation_model=\"target_os=none\"",
    ] {
        if t.chance(25) {
            l.push(x.into());
        }
    }
    if windows {
        l.push("target_family=\"windows\"".into());
        l.push("windows".into());
    } else if os != "none" {
        l.push("target_family=\"unix\"".into());
        l.push("unix".into());
    }
    for i in (1..l.len()).rev() {
        if t.chance(40) {
            let j = t.below(i + 1);
            l.swap(i, j);
        }
    }
    l.join("\n") + "\n"
}

fn c16(ctx: &mut Ctx, t: &mut Tape) -> R<Case> {
    // what to ask for
    let thumb = t.chance(30);
    let m = make(t, &small(thumb));
    let mut target = m.p.target.to_string();
    let mut os = crate::sandbox::TARGETS.iter().find(|x| x.0 == target).unwrap().3.to_string();
    let mut windows = false;
    if !thumb && t.chance(40) {
        target = t.pick(TRIPLES).to_string();
        os = (*t.pick(&["none", "linux", "windows", "unknown", "nonesuch", "freertos", "Linux-none"])).into();
        windows = os == "windows";
        let c = cfg(t, &os, windows);
        ctx.sb.shim_write(&format!("cfg.{}", target), c.as_bytes());
    }
    let proj = project(ctx, t, &target);
    let example = t.chance(50);
    let file = (*t.pick(&["app", "my-app", "hello_world", "x", "größe", "a-b_c"])).to_string();
    let mut args: Vec<Vec<OsString>> = vec![];
    let joined = |t: &mut Tape, k: &str, v: &str| -> Vec<OsString> {
        if t.chance(30) {
            vec![format!("{}={}", k, v).into()]
        } else {
            vec![k.into(), v.into()]
        }
    };
    if !proj.target_args.is_empty() {
        args.push(proj.target_args.clone());
    }
    args.push(joined(t, if example { "--example" } else { "--bin" }, &file));
    let mut features: Vec<String> = vec![];
    let all_features = t.chance(15);
    if all_features {
        args.push(vec!["--all-features".into()]);
    }
    if t.chance(35) {
        let sep = *t.pick(&[" ", ",", ", "]);
        let n = t.range(0, 3);
        let list: Vec<&str> = (0..n).map(|_| *t.pick(&["std", "dep/feat", "log-level", "a_b", "x"])).collect();
        args.push(joined(t, "--features", &list.join(sep)));
        features = list.iter().map(|s| s.to_string()).collect();
    }
    let verbose = t.chance(20);
    if verbose {
        args.push(vec![(*t.pick(&["-v", "--verbose"])).into()]);
    }
    let top = t.chance(20);
    if top {
        args.push(joined(t, "--format", "top"));
    } else if t.chance(20) {
        args.push(joined(t, "--format", "dot"));
    }
    let start = if t.chance(15) { Some("no_such_function_anywhere") } else { None };
    if let Some(s) = start {
        args.push(vec![s.into()]);
    }
    // requests that can't be served
    let wrong = if t.chance(10) { 1 + t.below(6) } else { 0 };
    match wrong {
        1 => args.retain(|a| !a[0].to_string_lossy().starts_with("--bin") && !a[0].to_string_lossy().starts_with("--example")),
        2 => args.push(joined(t, if example { "--bin" } else { "--example" }, "other")),
        3 => args.push(vec!["--no-such-option".into()]),
        4 => args.push(joined(t, "--format", "svg")),
        5 => args.push(vec!["one".into(), "two".into()]),
        6 => args.push(vec![if example { "--example" } else { "--bin" }.into(), "again".into()]),
        _ => {}
    }
    for i in (1..args.len()).rev() {
        if t.chance(50) {
            let j = t.below(i + 1);
            args.swap(i, j);
        }
    }
    let mut args: Vec<OsString> = args.into_iter().flatten().collect();
    let subcommand = t.chance(40);
    if subcommand {
        args.insert(0, "call-stack".into());
    }

    // the build
    let dir = proj.release(&proj.sub, "release");
    let hash = hash_name(t);
    let (mut exe, ll) = places(&dir, example, &file, &hash);
    if windows {
        exe.set_extension("exe");
    }
    write(&exe, &m.inp.elf);
    write(&ll, &m.inp.ll);
    write(&ll.with_extension("o"), &m.inp.obj);
    let deps = dir.join("deps");
    let rlib = deps.join(format!("libcompiler_builtins-{}.rlib", hash));
    let cb_ll = deps.join(format!("compiler_builtins-{}.ll", hash));
    write(&rlib, &m.inp.rlib);
    write(&cb_ll, &m.inp.cb_ll);
    let mut lines: Vec<Vec<u8>> = vec![];
    let mut resembling = false;
    for _ in 0..t.below(8) {
        lines.push(match t.below(9) {
            0 => b"\x1b[1m\x1b[32m   Compiling\x1b[0m core v0.0.0".to_vec(),
            1 => b"warning: unused variable: `gr\xc3\xb6\xc3\x9fe`".to_vec(),
            2 => vec![],
            3 => {
                resembling = true;
                format!("note: {}{}", RLIB_MARK, "/x").into_bytes()
            }
            4 => {
                resembling = true;
                format!(" {}{}", LL_MARK, "/x").into_bytes()
            }
            5 => {
                resembling = true;
                b"@CARGO_CALL_STACK:something_else@/x".to_vec()
            }
            6 => b"bytes \xff\xfe that are not text".to_vec(),
            7 => b"ends with a carriage return\r".to_vec(),
            _ => b"    Finished release [optimized] target(s) in 0.02s".to_vec(),
        });
    }
    let mut stderr: Vec<u8> = vec![];
    let mut passed: Vec<u8> = vec![];
    let code = if t.chance(30) { *t.pick(&[101u32, 1, 2, 255, 3]) } else { 0 };
    let signal = if t.chance(6) { Some(*t.pick(&[15u32, 9, 2])) } else { None };
    let failing = code != 0 || signal.is_some();
    let markers = !failing || t.chance(50);
    let at = t.below(lines.len() + 1);
    for (i, l) in lines.iter().chain([&vec![]]).enumerate() {
        if i == at && markers {
            stderr.extend(format!("{}{}\n{}{}\n", LL_MARK, cb_ll.display(), RLIB_MARK, rlib.display()).as_bytes());
        }
        if i < lines.len() {
            for b in [&mut stderr, &mut passed] {
                b.extend(l);
                if i + 1 < lines.len() || at == lines.len() || code % 2 == 0 {
                    b.push(b'\n');
                }
            }
        }
    }
    ctx.sb.shim_write("cargo_stderr", &stderr);
    ctx.sb.shim_write("cargo_exit", match signal {
        Some(s) => format!("signal {}", s),
        None => format!("exit {}", code),
    }.as_bytes());
    ctx.sb.shim_remove("cargo_script");
    ctx.sb.clear_log();
    let mark = format!("m{}", t.below(1000));
    let vars = variables(t);
    // somebody else's wrapper
    let wrapper = if t.chance(20) { Some(*t.pick(&["sccache", "", "/usr/bin/some wrapper"])) } else { None };
    let tool = PathBuf::from(std::env::var_os("VERIF_TOOL").unwrap());
    let o = attempt(
        ctx,
        &|ctx| {
            ctx.sb.clear_log();
            let mut c = proj.command(ctx);
            c.args(&args).env("VSHIM_MARK", &mark).envs(vars.iter().cloned());
            if let Some(w) = wrapper {
                c.env("RUSTC_WRAPPER", w);
            }
            c
        },
        None,
    )?;
    let what = format!(
        "arguments {:?}, {}, environment {:?}, build prints {:?} and ends with {:?} {:?}",
        args,
        proj.note,
        (&proj.env, &vars, wrapper),
        String::from_utf8_lossy(&stderr),
        code,
        signal
    );
    let log = ctx.sb.log();
    let bad = |m: String| fail(format!("{}\n  {}\n  {}", m, what, o.tail()));
    let builds: Vec<_> = log.iter().filter(|i| i.name == "cargo").collect();
    if wrong != 0 {
        if !builds.is_empty() {
            return bad("a build was started for a request that can't be served".into());
        }
        if o.ok() || o.code.is_none() || o.has_graph() {
            return bad("a request that can't be served succeeds".into());
        }
        return Ok(Case::new(false, fnv(what.as_bytes()), String::new()).class("bad request", true));
    }
    if builds.len() != 1 {
        return bad(format!("{} builds", builds.len()));
    }
    let b = builds[0];
    let (sub, got) = match options(&b.args) {
        Ok(x) => x,
        Err(e) => return bad(format!("{} in {}", e, show(&b.args))),
    };
    let mut want: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut put = |k: &str, v: &[&str]| {
        let mut v: Vec<String> = v.iter().map(|s| s.to_string()).collect();
        v.sort();
        v.dedup();
        want.insert(k.into(), v);
    };
    match &proj.target_flag {
        Some(f) if f.is_empty() => {
            if got.contains_key("--target") {
                put("--target", &[&target]);
            }
        }
        Some(f) => put("--target", &[f]),
        None => {}
    }
    put(if example { "--example" } else { "--bin" }, &[&file]);
    put("--release", &[""]);
    put("rustc --emit", &["llvm-ir", "obj"]);
    put("rustc -C", &["embed-bitcode=yes", "lto=fat"]);
    if os == "none" {
        put("build-std", &["core", "alloc", "compiler_builtins"]);
    } else {
        put("build-std", &["(all)"]);
    }
    if all_features {
        put("--all-features", &[""]);
    } else if !features.is_empty() {
        let f: Vec<&str> = features.iter().map(|s| &s[..]).collect();
        put("--features", &f);
    }
    if sub != "rustc" || got != want {
        return bad(format!("cargo is run with {}: {:?}, expected {:?}", show(&b.args), got, want));
    }
    let env = |k: &str| b.env.get(k).cloned();
    if env("RUSTC_WRAPPER").map(|p| fs::canonicalize(p).ok()) != Some(fs::canonicalize(&tool).ok()) {
        return bad(format!("the compiler wrapper is {:?}", env("RUSTC_WRAPPER")));
    }
    if env("CARGO_CALL_STACK_RUSTC_WRAPPER").is_none() || env("VSHIM_MARK") != Some(mark.clone()) {
        return bad("the environment of the build is wrong".into());
    }
    let set = vars.iter().map(|(k, v)| (*k, OsString::from(v)));
    // where the target comes from is up to the tool
    for (k, v) in set.chain(proj.env.iter().cloned().filter(|e| e.0 != "CARGO_BUILD_TARGET")) {
        if env(k).map(OsString::from).as_ref() != Some(&v) {
            return bad(format!("the build runs with {} = {:?} instead of {:?}", k, env(k), v));
        }
    }
    if env("CWD").map(PathBuf::from) != Some(fs::canonicalize(&proj.cwd).unwrap()) {
        return bad("the build runs in another directory".into());
    }
    // what the build prints
    let mut err = &o.stderr[..];
    if verbose {
        // the command line comes first
        let n = err.iter().position(|b| *b == b'\n').map(|n| n + 1).unwrap_or(err.len());
        let first = String::from_utf8_lossy(&err[..n]).into_owned();
        if !first.contains("rustc") || !first.contains(&file) || !first.contains("--release") {
            return bad(format!("the command line is not printed: {:?}", first));
        }
        err = &err[n..];
    }
    if !err.starts_with(&passed) {
        return bad(format!("the output of the build is not passed on: {:?}", String::from_utf8_lossy(err)));
    }
    if String::from_utf8_lossy(err).lines().any(|l| l.starts_with(RLIB_MARK) || l.starts_with(LL_MARK)) {
        return bad("the tool's own markers are passed on".into());
    }
    if failing {
        let rest = &err[passed.len()..];
        if !rest.is_empty() && rest != b"\n" {
            return bad(format!("printed after the build has failed: {:?}", String::from_utf8_lossy(rest)));
        }
        if !o.stdout.is_empty() {
            return bad("a graph although the build has failed".into());
        }
        let expect = if signal.is_some() { 1 } else { code as i32 };
        if o.code != Some(expect) {
            return bad(format!("exit code {:?} although the build ended with {:?} {:?}", o.code, code, signal));
        }
    } else if top {
        if !o.ok() || !o.out().contains("Usage Function") {
            return bad("no table".into());
        }
    } else {
        let dot = match ctx.graph_of(&o) {
            Ok(d) => d,
            Err(Verdict::Fail(m)) => return bad(m),
            Err(e) => return Err(e),
        };
        if let Err(e) = compare::compare(&dot, &m.exp, compare::ALL) {
            return bad(format!("{}\n  program: {}", e, m.p.describe()));
        }
    }
    let custom = proj.unusual + (!features.is_empty()) as usize + all_features as usize + subcommand as usize + verbose as usize;
    Ok(Case::new(failing || resembling || custom >= 2, fnv(what.as_bytes()), what)
        .class("build fails", failing)
        .class("killed", signal.is_some())
        .class("resembling lines", resembling)
        .class("no OS", os == "none")
        .class("unusual project", proj.unusual > 0)
        .class("as cargo subcommand", subcommand)
        .class("features", !features.is_empty() || all_features)
        .class("made-up target", target != m.p.target))
}

// ---- C17

/// crate names that resemble `file`
fn neighbour(t: &mut Tape, file: &str) -> String {
    match t.below(7) {
        0 => format!("{}_x", file),
        1 => format!("{}-x", file),
        2 => format!("x{}", file),
        3 if file.chars().count() > 1 => {
            let mut c: Vec<char> = file.chars().collect();
            c.pop();
            let s: String = c.into_iter().collect();
            s.trim_end_matches(['-', '_']).to_string()
        }
        4 => format!("{}{}", file, file),
        5 => format!("x-{}", file),
        _ => format!("{}2", file),
    }
}

fn c17(ctx: &mut Ctx, t: &mut Tape) -> R<Case> {
    let thumb = t.chance(40);
    let m = make(t, &small(thumb));
    let target = m.p.target.to_string();
    let proj = project(ctx, t, &target);
    let example = t.chance(50);
    let file = (*t.pick(&["app", "my-app", "my_app", "x", "hello-world"])).to_string();
    let dir = proj.release(&proj.sub, "release");
    let hash = hash_name(t);
    let (exe, ll) = places(&dir, example, &file, &hash);
    let obj = ll.with_extension("o");
    let deps = dir.join("deps");
    let rlib = deps.join(format!("libcompiler_builtins-{}.rlib", hash));
    let cb_ll = deps.join(format!("compiler_builtins-{}.ll", hash));
    for d in [exe.parent().unwrap(), ll.parent().unwrap(), &deps] {
        fs::create_dir_all(d).unwrap();
    }
    let now = now_ms();
    let stage = ctx.sb.dir.join("stage");
    let _ = fs::remove_dir_all(&stage);
    fs::create_dir_all(&stage).unwrap();
    let mut note: Vec<String> = vec![proj.note.clone(), format!("{} {} in {}", if example { "example" } else { "bin" }, file, dir.display())];

    // executables of other programs
    if t.chance(25) {
        let d = make(t, &small(thumb));
        for p in [deps.join(&file), exe.with_file_name(format!("deps/{}", file)), exe.with_file_name(format!("{}-{}", file, hash)), dir.join("examples").join(format!("{}-{}", file, hash)), exe.with_extension("elf")] {
            if t.chance(60) && p != exe {
                write(&p, &d.inp.elf);
            }
        }
        note.push("executables of the same name elsewhere".to_string());
    }
    // directories with sources that are shared
    for d in ["src", "examples"] {
        if t.chance(8) {
            let to = ctx.sb.dir.join("q/shared").join(d);
            fs::create_dir_all(&to).unwrap();
            if proj.cwd == proj.root && (fs::remove_dir(proj.root.join(d)).is_ok() || !proj.root.join(d).exists()) {
                std::os::unix::fs::symlink(&to, proj.root.join(d)).unwrap();
                note.push(format!("{} is a link", d));
            }
        }
    }

    // sources
    let own = match (t.below(3), example) {
        (0, true) => proj.root.join("examples").join(format!("{}.rs", file)),
        (1, true) => proj.root.join("examples").join(&file).join("main.rs"),
        (_, true) => proj.root.join("demos/start.rs"),
        (0, false) => proj.root.join("src/main.rs"),
        (1, false) => proj.root.join("src/bin").join(format!("{}.rs", file)),
        (_, false) => proj.root.join("app/entry.rs"),
    };
    let mut sources = vec![own.clone()];
    for s in ["src/main.rs", "src/lib.rs", "src/util/mod.rs", "examples/aaa.rs", "examples/zzz.rs", "src/bin/other.rs", "aaa.rs", "build.rs"] {
        if t.chance(35) {
            sources.push(proj.root.join(s));
        }
    }
    for s in &sources {
        write(s, b"");
        set_mtime(s, 1_500_000_000_000 + t.below(1 << 30) as u64);
    }

    // what other builds left behind
    let mut same_name = 0;
    let mut others = 0;
    let fault = if t.chance(15) { 1 + t.below(14) } else { 0 };
    let mut newest_stale = None;
    // many builds of the same program
    let crowd = t.chance(30);
    let n = if crowd { t.range(2, 12) } else { t.below(6) };
    let crowd_of = crowd.then(|| make(t, &small(thumb)));
    // files are listed in an order that depends on when they were created: those of this build may
    // have been overwritten
    let early = if t.chance(50) && fault == 0 { Some(t.below(n + 1)) } else { None };
    for k in 0..n {
        if early == Some(k) {
            write(&ll, b"");
            write(&obj, b"");
        }
        let other;
        let d = if let Some(d) = &crowd_of {
            d
        } else {
            other = make(t, &small(thumb));
            &other
        };
        let kind = if crowd { t.weighted(&[80, 10, 10]) } else { t.weighted(&[35, 25, 10, 10, 10, 10]) };
        // (directory, kind of artifact, name)
        let (ddir, dex, dname) = match kind {
            // same name and place, an earlier build
            0 => (dir.clone(), example, if t.chance(20) { if file.contains('-') { file.replace('-', "_") } else { file.clone() } } else { file.clone() }),
            1 => (dir.clone(), example, neighbour(t, &file)),
            2 => (dir.clone(), !example, file.clone()),
            3 => (proj.release(&proj.sub, "debug"), example, file.clone()),
            4 => (proj.release(&Some((*t.pick(&["thumbv7m-none-eabi", "other-target"])).to_string()).filter(|s| Some(s) != proj.sub.as_ref()), "release"), example, file.clone()),
            _ => (proj.release(&if proj.sub.is_some() { None } else { Some(target.clone()) }, "release"), example, file.clone()),
        };
        let in_place = ddir == dir && dex == example && dname.replace('-', "_") == file.replace('-', "_");
        if in_place && matches!(fault, 2 | 7) {
            // indistinguishable from the IR of this build
            continue;
        }
        let (dexe, dll) = places(&ddir, dex, &dname, &hash_name(t));
        let age = if in_place {
            // always older
            now - 1 - match t.below(3) {
                0 => t.below(100) as u64,
                1 => 1000 * t.below(100000) as u64,
                _ => t.raw() as u64,
            }
        } else if t.chance(50) {
            now + 3_600_000
        } else {
            now - t.raw() as u64
        };
        if dll == ll {
            continue;
        }
        write(&dexe, &d.inp.elf);
        write(&dll, &d.inp.ll);
        write(&dll.with_extension("o"), &d.inp.obj);
        set_mtime(&dll, age);
        set_mtime(&dll.with_extension("o"), if t.chance(50) { age } else { now + 1000 });
        if t.chance(40) {
            for ext in ["d", "bc", "rcgu.o", "ll.tmp", "s"] {
                write(&dll.with_extension(ext), b"decoy");
            }
        }
        if t.chance(50) {
            let h = hash_name(t);
            let (a, b) = (ddir.join(format!("deps/libcompiler_builtins-{}.rlib", h)), ddir.join(format!("deps/compiler_builtins-{}.ll", h)));
            if a != rlib {
                write(&a, &d.inp.rlib);
                write(&b, &d.inp.cb_ll);
                set_mtime(&b, now + 1000);
            }
        }
        if in_place {
            same_name += 1;
            if newest_stale.map(|x| age > x).unwrap_or(true) {
                newest_stale = Some(age);
            }
        } else {
            others += 1;
        }
        note.push(format!("left behind {}: {} (age {})", k, dll.display(), now as i64 - age as i64));
    }

    // this build
    let mut script: Vec<String> = vec![];
    let put = |name: &str, data: &[u8], to: &Path, script: &mut Vec<String>| {
        let s = stage.join(name);
        write(&s, data);
        script.push(format!("cp {}\t{}", s.display(), to.display()));
    };
    let explicit = t.chance(50);
    // (executable, IR, object, IR of compiler_builtins, rlib)
    let garbage: &[u8] = *t.pick(&[&b"garbage"[..], b"\xff\xfe\x00", b"!<arch>\ngarbage", b"\x7fELF\x01\x01\x01"]);
    let data = |bad: usize, d: &[u8]| if fault == bad { garbage.to_vec() } else { d.to_vec() };
    if fault != 1 {
        put("exe", &data(6, &m.inp.elf), &exe, &mut script);
    } else {
        let _ = fs::remove_file(&exe);
    }
    let reuse = fault == 0 && newest_stale.is_some() && t.chance(50);
    let rebuilt = !reuse && (early.is_some() || t.chance(30));
    if rebuilt && fault == 0 {
        // overwritten by this build
        let d = make(t, &small(thumb));
        write(&ll, &d.inp.ll);
        write(&obj, &d.inp.obj);
        note.push("same hash as an earlier build".to_string());
    }
    if reuse {
        // built before with the same options; written again only if a source file is newer
        let age = newest_stale.unwrap() - 1 - t.below(1000) as u64;
        write(&ll, &m.inp.ll);
        write(&obj, &m.inp.obj);
        set_mtime(&ll, age);
        set_mtime(&obj, age);
        note.push(format!("built before, source {}", own.display()));
        script.push(format!("ifnewer {}\t{}\t{}", own.display(), ll.display(), 2 + explicit as usize));
    }
    if fault != 2 {
        put("ll", &data(7, &m.inp.ll), &ll, &mut script);
        if explicit {
            script.push(format!("mtime {}\t{}", ll.display(), now));
        }
    }
    if fault != 3 {
        put("o", &data(8, &m.inp.obj), &obj, &mut script);
    }
    if fault != 4 {
        put("cb_ll", &data(9, &m.inp.cb_ll), &cb_ll, &mut script);
    }
    if fault != 5 {
        put("rlib", &data(10, &m.inp.rlib), &rlib, &mut script);
    }
    if fault == 13 || fault == 14 {
        // a directory in place of a file
        let p = [&ll, &obj][fault - 13];
        script.retain(|l| !l.contains(&*p.display().to_string()));
        let _ = fs::remove_file(p);
        script.push(format!("mkdir {}", p.display()));
    }
    // markers in the order of compilation
    let mut marks: Vec<String> = vec![];
    if fault != 11 {
        marks.push(format!("{}{}", LL_MARK, cb_ll.display()));
        for _ in 0..t.below(3) {
            // crates that are compiled before the library is complete
            marks.push(format!("{}{}", RLIB_MARK, rlib.with_extension("rmeta").display()));
        }
    }
    if t.chance(30) {
        write(&rlib.with_extension("rmeta"), b"rust metadata");
    }
    if fault != 12 {
        marks.push(format!("{}{}", RLIB_MARK, rlib.display()));
    } else {
        marks.retain(|l| !l.starts_with(RLIB_MARK));
    }
    ctx.sb.shim_write("cargo_stderr", (marks.join("\n   Compiling x\n") + "\n").as_bytes());
    ctx.sb.shim_remove("cargo_exit");
    ctx.sb.shim_write("cargo_script", (script.join("\n") + "\n").as_bytes());
    let mut args: Vec<OsString> = proj.target_args.clone();
    args.push(if example { "--example" } else { "--bin" }.into());
    args.push(file.clone().into());
    ctx.sb.clear_log();
    let o = attempt(
        ctx,
        &|ctx| {
            let mut c = proj.command(ctx);
            c.args(&args);
            c
        },
        None,
    )?;
    let what = format!("arguments {:?}, environment {:?}\n  {}", args, proj.env, note.join("\n  "));
    let bad = |m: String| fail(format!("{}\n  {}\n  {}", m, what, o.tail()));
    if fault != 0 {
        const FAULTS: &[&str] = &[
            "", "no executable", "no IR", "no object", "no IR of compiler_builtins", "no rlib", "bad executable", "bad IR", "bad object", "bad IR of compiler_builtins",
            "bad rlib", "no marker for the IR", "no marker for the rlib", "IR is a directory", "object is a directory",
        ];
        if o.ok() || o.has_graph() {
            return bad(format!("a graph although there is a fault: {}", FAULTS[fault]));
        }
        return Ok(Case::new(true, fnv(what.as_bytes()) ^ fault as u64, format!("{}: {}", FAULTS[fault], what)).class("fault", true));
    }
    let dot = match ctx.graph_of(&o) {
        Ok(d) => d,
        Err(Verdict::Fail(m)) => return bad(m),
        Err(e) => return Err(e),
    };
    if let Err(e) = compare::compare(&dot, &m.exp, compare::ALL) {
        return bad(format!("the graph is not that of this build: {}\n  program: {}", e, m.p.describe()));
    }
    Ok(Case::new(same_name > 0 && same_name + others >= 3, fnv(what.as_bytes()), what)
        .class("same name", same_name > 0)
        .class("three or more of the same name", same_name > 2)
        .class("other names, kinds, profiles or targets", others > 0)
        .class("back to an earlier selection", reuse)
        .class("same hash", rebuilt)
        .class("unusual project", proj.unusual > 0))
}

// ---- C23

#[derive(PartialEq, Clone, Debug)]
enum What {
    Dir,
    Link(PathBuf),
    File { digest: u64, len: usize },
}

#[derive(Clone)]
struct Kept {
    what: What,
    mode: u32,
    mtime: i128,
}

/// everything below `dir`, except for the given directories
fn snapshot(dir: &Path, except: &[&Path], out: &mut BTreeMap<PathBuf, Kept>) {
    use std::os::unix::fs::MetadataExt;
    for e in fs::read_dir(dir).into_iter().flatten().flatten() {
        let p = e.path();
        if except.contains(&&*p) {
            continue;
        }
        let Ok(m) = fs::symlink_metadata(&p) else { continue };
        let what = if m.is_dir() {
            snapshot(&p, except, out);
            What::Dir
        } else if m.file_type().is_symlink() {
            What::Link(fs::read_link(&p).unwrap_or_default())
        } else {
            let d = fs::read(&p).unwrap_or_default();
            What::File {
                digest: fnv(&d),
                len: d.len(),
            }
        };
        let mtime = m.mtime() as i128 * 1_000_000_000 + m.mtime_nsec() as i128;
        out.insert(p, Kept { what, mode: m.mode(), mtime });
    }
}

/// files a package may contain
const FILES: &[&str] = &[
    "src/lib.rs",
    "src/main.rs",
    "src/bin/other.rs",
    "src/a b.rs",
    "src/größe.rs",
    "src/.hidden.rs",
    "src/deep/er/mod.rs",
    "src/dir.rs/keep.txt",
    "src/dir.rs/inner.rs",
    "src/table.bin",
    "src/GEN.RS",
    "src/notes.rs.bak",
    "src/rs",
    "src/.rs",
    "examples/one.rs",
    "examples/two/main.rs",
    "examples/data.json",
    "benches/b.rs",
    "tests/t.rs",
    "build.rs",
    "memory.x",
    "README.md",
    "Cargo.lock",
    ".gitignore",
    ".git/hooks/x.rs",
    ".git/objects/aa/bb",
    "vendor/dep/src/lib.rs",
    "vendor/dep/target/x.ll",
    "app-0123456789abcdef.ll",
    "app-0123456789abcdef.o",
    "deps/app-1.ll",
    "old-target/release/app",
    "out.dot",
    "app",
    "libcompiler_builtins-1.rlib",
];

fn c23(ctx: &mut Ctx, t: &mut Tape) -> R<Case> {
    use std::os::unix::fs::{symlink, PermissionsExt};
    let thumb = t.chance(40);
    let m = make(t, &small(thumb));
    let target = m.p.target.to_string();
    let proj = project(ctx, t, &target);
    let example = t.chance(50);
    let file = (*t.pick(&["app", "my-app", "x"])).to_string();
    let dir = proj.release(&proj.sub, "release");
    let hash = hash_name(t);
    let (exe, ll) = places(&dir, example, &file, &hash);
    write(&exe, &m.inp.elf);
    write(&ll, &m.inp.ll);
    write(&ll.with_extension("o"), &m.inp.obj);
    let rlib = dir.join("deps").join(format!("libcompiler_builtins-{}.rlib", hash));
    let cb_ll = dir.join("deps").join(format!("compiler_builtins-{}.ll", hash));
    write(&rlib, &m.inp.rlib);
    write(&cb_ll, &m.inp.cb_ll);

    // the user's files
    let outside = ctx.sb.dir.join("q/shared");
    write(&outside.join("real.rs"), b"// shared with other projects\n");
    write(&outside.join("more/module.rs"), b"pub fn f() {}\n");
    write(&outside.join("data.bin"), &[0, 159, 146, 150]);
    let mut special = 0;
    let mut user: Vec<PathBuf> = vec![];
    for _ in 0..3 + t.below(12) {
        user.push(proj.root.join(*t.pick(FILES)));
    }
    for s in ["stale.rs", "release/build/x-1/out/bindings.rs", "release/deps/gone-1.ll", "CACHEDIR.TAG", "release/deps/app-00.o"] {
        if t.chance(30) {
            user.push(proj.target_dir.join(s));
        }
    }
    // builds of before, of the same program and of others
    for _ in 0..t.below(4) {
        let stem = format!("{}-{}", t.pick(&[&file.replace('-', "_"), "other", "app", "compiler_builtins", "libcore"]), hash_name(t));
        for ext in ["ll", "o", "d", "rlib", "rmeta"] {
            let p = ll.with_file_name(format!("{}.{}", stem, ext));
            if t.chance(60) && p != ll && p != ll.with_extension("o") && p != cb_ll && p != rlib {
                user.push(p);
            }
        }
    }
    if t.chance(20) {
        special += 1;
        user.push(proj.root.join("src").join(std::ffi::OsStr::from_bytes(b"b\xffd.rs")));
    }
    user.sort();
    user.dedup();
    for (i, p) in user.iter().enumerate() {
        let data: Vec<u8> = match t.below(4) {
            0 => vec![],
            1 => format!("// file {}\nfn main() {{}}\n", i).into_bytes(),
            2 => b"#![no_std]\r\n// \xff\xfe\r\n".to_vec(),
            _ => (0..t.below(3000)).map(|k| (k * 7 + i) as u8).collect(),
        };
        write(p, &data);
        set_mtime(p, 1_500_000_000_000 + t.below(1 << 30) as u64);
        if t.chance(20) {
            special += 1;
            let mode = *t.pick(&[0o444, 0o400, 0o755, 0o000, 0o600]);
            fs::set_permissions(p, fs::Permissions::from_mode(mode)).unwrap();
        }
    }
    for (link, to) in [
        ("src/link.rs", "../../shared/real.rs"),
        ("src/dangling.rs", "nowhere.rs"),
        ("src/more", "../../shared/more"),
        ("examples/again.rs", "one.rs"),
        ("src/loop", "."),
        ("data", "../shared/data.bin"),
    ] {
        if t.chance(15) {
            special += 1;
            let p = proj.root.join(link);
            fs::create_dir_all(p.parent().unwrap()).unwrap();
            let _ = symlink(to, p);
        }
    }

    // how the run ends
    let end = t.below(6);
    ctx.sb.shim_write("cargo_stderr", format!("{}{}\n{}{}\n", LL_MARK, cb_ll.display(), RLIB_MARK, rlib.display()).as_bytes());
    ctx.sb.shim_remove("cargo_script");
    ctx.sb.shim_remove("cargo_exit");
    if end == 0 {
        ctx.sb.shim_write("cargo_exit", b"exit 101");
    }
    let mut args: Vec<OsString> = proj.target_args.clone();
    let refused = match end {
        1 => {
            ctx.sb.shim_write("rustc_vV", version("0123456789012345678901234567890123456789", "x86_64-unknown-linux-gnu").as_bytes());
            true
        }
        2 => true,
        _ => false,
    };
    if end != 2 {
        args.push(if example { "--example" } else { "--bin" }.into());
        args.push(file.clone().into());
    }
    if end == 3 {
        // something is missing
        fs::remove_file(t.pick(&[&exe, &rlib, &cb_ll])).unwrap();
    }
    let top = t.chance(30);
    if top {
        args.push("--format=top".into());
    }
    ctx.sb.clear_log();
    let shim = ctx.sb.shim.clone();
    let except = [&*shim];
    let mut before = BTreeMap::new();
    snapshot(&ctx.sb.dir, &except, &mut before);
    let o = attempt(
        ctx,
        &|ctx| {
            let mut c = proj.command(ctx);
            c.args(&args);
            c
        },
        None,
    )?;
    let mut after = BTreeMap::new();
    snapshot(&ctx.sb.dir, &except, &mut after);
    let what = format!("arguments {:?}, environment {:?}, {}", args, proj.env, proj.note);
    let bad = |m: String| fail(format!("{}\n  {}\n  {}", m, what, o.tail()));
    for (p, b) in &before {
        let Some(a) = after.get(p) else {
            return bad(format!("{} is gone", p.display()));
        };
        if a.what != b.what {
            return bad(format!("{} was changed: {:?} became {:?}", p.display(), b.what, a.what));
        }
        if a.mode != b.mode {
            return bad(format!("the permissions of {} were changed: {:o} became {:o}", p.display(), b.mode, a.mode));
        }
        let source = p.extension().map(|e| e == "rs").unwrap_or(false);
        if a.mtime != b.mtime && (refused || !source) {
            return bad(format!("the modification time of {} was changed", p.display()));
        }
    }
    if let Some(p) = after.keys().find(|p| !before.contains_key(*p)) {
        return bad(format!("{} was created", p.display()));
    }
    if end > 3 && !o.ok() {
        return bad("the tool fails on a valid program".into());
    }
    if end <= 3 && (o.ok() || o.has_graph()) {
        return bad("no failure".into());
    }
    let touched = before.iter().any(|(p, b)| after[p].mtime != b.mtime);
    let note = format!("{} files, {}, ends {}", before.len(), what, ["in a failed build", "at the toolchain", "at the arguments", "at a missing file", "well", "well"][end]);
    Ok(Case::new(touched || refused, fnv(note.as_bytes()) ^ user.len() as u64, note)
        .class("sources touched", touched)
        .class("refused", refused)
        .class("fails", end == 0 || end == 3)
        .class("unusual files", special > 0)
        .class("unusual project", proj.unusual > 0))
}
