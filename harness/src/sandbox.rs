//! Scratch projects in which the real tool runs as a black box, with stand-ins for `rustc` and
//! `cargo` on its PATH.
use std::{
    collections::BTreeMap,
    ffi::OsString,
    fs,
    io::Read,
    os::unix::process::{CommandExt, ExitStatusExt},
    path::{Path, PathBuf},
    process::{Command, Stdio},
    sync::mpsc,
    time::Duration,
};

pub const HASH: &str = "2b603f95a48f10f931a61dd208fe3e5ffd64e491";
pub const OVERRIDE_KEY: &str = "CARGO_CALL_STACK_UNSPPORTED_NIGHTLY";
pub const OVERRIDE_VALUE: &str = "I won't open issues about unsupported toolchains";
pub const RLIB_MARK: &str = "@CARGO_CALL_STACK:compiler_builtins_rlib_path@";
pub const LL_MARK: &str = "@CARGO_CALL_STACK:compiler_builtins_ll_path@";

pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub timeout: bool,
}

impl Out {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn out(&self) -> String {
        String::from_utf8_lossy(&self.stdout).into_owned()
    }
    pub fn err(&self) -> String {
        String::from_utf8_lossy(&self.stderr).into_owned()
    }
    /// last lines of stderr, for reports
    pub fn tail(&self) -> String {
        let e = self.err();
        let v: Vec<&str> = e.lines().rev().take(4).collect();
        let mut t: String = v.into_iter().rev().collect::<Vec<_>>().join(" | ");
        if t.len() > 600 {
            let mut i = t.len() - 600;
            while !t.is_char_boundary(i) {
                i += 1;
            }
            t = t[i..].to_string();
        }
        format!("exit {:?} signal {:?}: {}", self.code, self.signal, t)
    }
    pub fn has_graph(&self) -> bool {
        let s = self.out();
        s.contains("digraph") || s.contains("Usage Function") || s.contains("->")
    }
}

/// runs the tool itself: what it needs is little, so that a run that needs ever more memory ends by
/// itself instead of being ended with everything else on the machine
pub fn run_tool(mut cmd: Command, stdin: Option<Vec<u8>>) -> Out {
    unsafe {
        cmd.pre_exec(|| {
            let l: [u64; 2] = [4 << 30; 2];
            setrlimit(RLIMIT_AS, l.as_ptr());
            // (ignored in jobs that run in the background)
            for s in [1, 2, 3, 15] {
                signal(s, 0);
            }
            Ok(())
        });
    }
    run(cmd, stdin, timeout())
}

pub fn run(mut cmd: Command, stdin: Option<Vec<u8>>, timeout: Duration) -> Out {
    cmd.stdout(Stdio::piped()).stderr(Stdio::piped());
    cmd.stdin(if stdin.is_some() {
        Stdio::piped()
    } else {
        Stdio::null()
    });
    cmd.process_group(0);
    let mut child = match cmd.spawn() {
        Ok(c) => c,
        Err(e) => {
            eprintln!("cannot run {:?}: {}", cmd.get_program(), e);
            std::process::exit(2)
        }
    };
    if let Some(b) = stdin {
        use std::io::Write;
        let mut h = child.stdin.take().unwrap();
        std::thread::spawn(move || {
            let _ = h.write_all(&b);
        });
    }
    let mut so = child.stdout.take().unwrap();
    let mut se = child.stderr.take().unwrap();
    let (tx, rx) = mpsc::channel();
    let tx2 = tx.clone();
    std::thread::spawn(move || {
        let mut b = vec![];
        let _ = se.read_to_end(&mut b);
        let _ = tx2.send((1, b));
    });
    std::thread::spawn(move || {
        let mut b = vec![];
        let _ = so.read_to_end(&mut b);
        let _ = tx.send((0, b));
    });
    let mut bufs = [vec![], vec![]];
    let mut timed_out = false;
    for _ in 0..2 {
        match rx.recv_timeout(timeout) {
            Ok((i, b)) => bufs[i] = b,
            Err(_) => {
                timed_out = true;
                unsafe {
                    kill(-(child.id() as i32), 9);
                }
                break;
            }
        }
    }
    let status = child.wait().expect("wait");
    let [stdout, stderr] = bufs;
    Out {
        code: status.code(),
        signal: status.signal(),
        stdout,
        stderr,
        timeout: timed_out,
    }
}

extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
    fn setrlimit(resource: i32, limit: *const u64) -> i32;
}
const RLIMIT_AS: i32 = 9;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Via {
    Flag,
    Config,
    Host,
}

/// Everything one run of the tool reads
#[derive(Clone)]
pub struct Inputs {
    pub target: String,
    pub via: Via,
    /// what `.cargo/config.toml` says if the target is given by a flag
    pub config_target: Option<String>,
    pub example: bool,
    pub name: String,
    pub ll: Vec<u8>,
    pub obj: Vec<u8>,
    pub cb_ll: Vec<u8>,
    pub rlib: Vec<u8>,
    pub elf: Vec<u8>,
}

pub struct Sandbox {
    pub dir: PathBuf,
    tool: PathBuf,
    pub bin: PathBuf,
    pub shim: PathBuf,
    pub runs: u64,
}

pub fn scratch_root() -> PathBuf {
    let base = if Path::new("/dev/shm").is_dir() && fs::write("/dev/shm/.verif-probe", b"").is_ok() {
        let _ = fs::remove_file("/dev/shm/.verif-probe");
        PathBuf::from("/dev/shm")
    } else {
        std::env::temp_dir()
    };
    base.join(format!("verif-{}", std::process::id()))
}

pub fn timeout() -> Duration {
    // (shorter in experiments with changed tools, many of which hang)
    Duration::from_secs(std::env::var("VERIF_TIMEOUT").ok().and_then(|s| s.parse().ok()).unwrap_or(30))
}

impl Sandbox {
    pub fn new(root: &Path, name: &str) -> Self {
        let dir = root.join(name);
        let _ = fs::remove_dir_all(&dir);
        let bin = dir.join("bin");
        fs::create_dir_all(&bin).expect("scratch directory");
        fs::create_dir_all(dir.join("shim")).unwrap();
        let shim = PathBuf::from(std::env::var_os("VERIF_SHIM").expect("VERIF_SHIM"));
        let tool = PathBuf::from(std::env::var_os("VERIF_TOOL").expect("VERIF_TOOL"));
        for n in ["rustc", "cargo"] {
            std::os::unix::fs::symlink(&shim, bin.join(n)).unwrap();
        }
        let sb = Sandbox {
            shim: dir.join("shim"),
            dir,
            tool,
            bin,
            runs: 0,
        };
        sb.shim_write("rustc_vV", version(HASH, "x86_64-unknown-linux-gnu").as_bytes());
        for t in TARGETS {
            sb.shim_write(&format!("cfg.{}", t.0), cfg_of(t).as_bytes());
        }
        sb
    }

    pub fn shim_write(&self, name: &str, data: &[u8]) {
        fs::write(self.shim.join(name), data).unwrap();
    }

    pub fn shim_remove(&self, name: &str) {
        let _ = fs::remove_file(self.shim.join(name));
    }

    pub fn log(&self) -> Vec<Invocation> {
        let raw = fs::read(self.shim.join("log")).unwrap_or_default();
        let mut out = vec![];
        let mut p = 0;
        while p < raw.len() {
            let mut field = || {
                let e = raw[p..].iter().position(|b| *b == 0).map(|e| p + e).unwrap_or(raw.len());
                let f = raw[p..e].to_vec();
                p = e + 1;
                f
            };
            let name = String::from_utf8_lossy(&field()).into_owned();
            let n: usize = String::from_utf8_lossy(&field()).parse().unwrap_or(0);
            let args: Vec<Vec<u8>> = (0..n).map(|_| field()).collect();
            let mut env = BTreeMap::new();
            loop {
                let f = field();
                let s = String::from_utf8_lossy(&f).into_owned();
                if let Some((k, v)) = s.split_once('=') {
                    env.insert(k.to_string(), v.to_string());
                    if k == "CWD" {
                        break;
                    }
                } else {
                    break;
                }
            }
            p += 1; // line feed
            out.push(Invocation { name, args, env });
        }
        out
    }

    pub fn clear_log(&self) {
        self.shim_remove("log");
    }

    /// the tool, with a clean environment
    pub fn tool(&self, cwd: &Path) -> Command {
        let mut c = Command::new(&self.tool);
        c.env_clear()
            .env("PATH", &self.bin)
            .env("HOME", &self.dir)
            .env("VSHIM_DIR", &self.shim)
            .current_dir(cwd);
        c
    }

    pub fn project(&self) -> PathBuf {
        self.dir.join("p")
    }

    /// fresh project that contains the given artifacts
    pub fn populate(&self, inp: &Inputs) {
        let p = self.project();
        if !p.join("Cargo.toml").exists() {
            fs::create_dir_all(p.join("src")).unwrap();
            fs::create_dir_all(p.join(".cargo")).unwrap();
            fs::write(p.join("Cargo.toml"), "[package]\nname = \"app\"\nversion = \"0.1.0\"\n").unwrap();
            fs::write(p.join("src/main.rs"), "fn main() {}\n").unwrap();
        }
        let _ = fs::remove_dir_all(p.join("target"));
        let cfg = match (inp.via, &inp.config_target) {
            (Via::Config, _) => format!("[build]\ntarget = \"{}\"\n", inp.target),
            (Via::Flag, Some(t)) => format!("[build]\ntarget = \"{}\"\n", t),
            _ => String::new(),
        };
        fs::write(p.join(".cargo/config.toml"), cfg).unwrap();
        if inp.via == Via::Host {
            self.shim_write("rustc_vV", version(HASH, &inp.target).as_bytes());
        } else {
            self.shim_write("rustc_vV", version(HASH, "x86_64-unknown-linux-gnu").as_bytes());
        }
        let mut d = p.join("target");
        if inp.via != Via::Host {
            d.push(&inp.target);
        }
        d.push("release");
        let (elf_dir, ll_dir) = if inp.example {
            (d.join("examples"), d.join("examples"))
        } else {
            (d.clone(), d.join("deps"))
        };
        fs::create_dir_all(&elf_dir).unwrap();
        fs::create_dir_all(&ll_dir).unwrap();
        fs::write(elf_dir.join(&inp.name), &inp.elf).unwrap();
        let stem = format!("{}-0123456789abcdef", inp.name.replace('-', "_"));
        fs::write(ll_dir.join(format!("{}.ll", stem)), &inp.ll).unwrap();
        fs::write(ll_dir.join(format!("{}.o", stem)), &inp.obj).unwrap();
        let cb_ll = self.dir.join("compiler_builtins-1.ll");
        let rlib = self.dir.join("libcompiler_builtins-1.rlib");
        fs::write(&cb_ll, &inp.cb_ll).unwrap();
        fs::write(&rlib, &inp.rlib).unwrap();
        self.shim_write(
            "cargo_stderr",
            format!("{}{}\n{}{}\n", LL_MARK, cb_ll.display(), RLIB_MARK, rlib.display()).as_bytes(),
        );
        self.shim_remove("cargo_script");
        self.shim_remove("cargo_exit");
        self.clear_log();
    }

    pub fn args(inp: &Inputs, format: Option<&str>, start: Option<&str>) -> Vec<OsString> {
        let mut a: Vec<OsString> = vec![];
        if inp.via == Via::Flag {
            a.push("--target".into());
            a.push(inp.target.clone().into());
        }
        a.push(if inp.example { "--example" } else { "--bin" }.into());
        a.push(inp.name.clone().into());
        if let Some(f) = format {
            a.push("--format".into());
            a.push(f.into());
        }
        if let Some(s) = start {
            a.push("--".into());
            a.push(s.into());
        }
        a
    }

    /// runs the tool on what `populate` put in place
    pub fn analyze(&mut self, inp: &Inputs, format: Option<&str>, start: Option<&str>) -> Out {
        let mut tries = 0;
        loop {
            let mut c = self.tool(&self.project());
            c.args(Self::args(inp, format, start));
            self.runs += 1;
            let o = run_tool(c, None);
            tries += 1;
            // ended from outside (memory), or a stall of the machine: try again
            if (o.timeout || o.signal == Some(9)) && tries < 3 {
                continue;
            }
            return o;
        }
    }
}

pub struct Invocation {
    pub name: String,
    pub args: Vec<Vec<u8>>,
    pub env: BTreeMap<String, String>,
}

pub fn version(hash: &str, host: &str) -> String {
    format!(
        "rustc 1.76.0-nightly (2b603f95a 2023-11-12)\nbinary: rustc\ncommit-hash: {}\ncommit-date: 2023-11-12\nhost: {}\nrelease: 1.76.0-nightly\nLLVM version: 17.0.5\n",
        hash, host
    )
}

/// triple, arch, pointer width, os, 64-bit ELF, e_machine
pub type Triple = (&'static str, &'static str, u32, &'static str, bool, u16);
pub const TARGETS: &[Triple] = &[
    ("thumbv6m-none-eabi", "arm", 32, "none", false, 40),
    ("thumbv7m-none-eabi", "arm", 32, "none", false, 40),
    ("thumbv7em-none-eabi", "arm", 32, "none", false, 40),
    ("thumbv7em-none-eabihf", "arm", 32, "none", false, 40),
    ("thumbv8m.main-none-eabi", "arm", 32, "none", false, 40),
    ("armv7r-none-eabi", "arm", 32, "none", false, 40),
    ("riscv32imac-unknown-none-elf", "riscv32", 32, "none", false, 243),
    ("riscv64gc-unknown-linux-gnu", "riscv64", 64, "linux", true, 243),
    ("x86_64-unknown-linux-gnu", "x86_64", 64, "linux", true, 62),
    ("i686-unknown-linux-gnu", "x86", 32, "linux", false, 3),
    ("aarch64-unknown-none-softfloat", "aarch64", 64, "none", true, 183),
];

fn cfg_of(t: &Triple) -> String {
    let mut s = String::new();
    s += "debug_assertions\n";
    s += "panic=\"unwind\"\n";
    s += &format!("target_arch=\"{}\"\n", t.1);
    s += "target_endian=\"little\"\n";
    if t.3 == "linux" {
        s += "target_env=\"gnu\"\ntarget_family=\"unix\"\n";
    } else {
        s += "target_env=\"\"\n";
    }
    s += &format!("target_os=\"{}\"\n", t.3);
    s += &format!("target_pointer_width=\"{}\"\n", t.2);
    s += "target_vendor=\"unknown\"\n";
    if t.3 == "linux" {
        s += "unix\n";
    }
    s
}
