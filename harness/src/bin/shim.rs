//! Stand-in for `rustc` and `cargo`, used while the real tool runs as a black box.
//!
//! Behaviour is chosen by files in `$VSHIM_DIR`; every invocation is appended to `$VSHIM_DIR/log`.
use std::{
    env, fs,
    io::{Read, Write},
    os::unix::ffi::OsStrExt,
    path::{Path, PathBuf},
    process::exit,
};

fn main() {
    let dir = PathBuf::from(match env::var_os("VSHIM_DIR") {
        Some(d) => d,
        None => exit(97),
    });
    let argv: Vec<_> = env::args_os().collect();
    let me = Path::new(&argv[0])
        .file_name()
        .map(|s| s.to_string_lossy().into_owned())
        .unwrap_or_default();
    let args: Vec<Vec<u8>> = argv[1..].iter().map(|a| a.as_bytes().to_vec()).collect();
    log(&dir, &me, &args);

    if me == "cargo" {
        cargo(&dir)
    } else {
        rustc(&dir, &args)
    }
}

// one record per invocation: name, args and interesting environment; NUL terminated fields, a line
// feed at the end (arguments never contain NUL)
fn log(dir: &Path, me: &str, args: &[Vec<u8>]) {
    let mut rec: Vec<u8> = vec![];
    rec.extend(me.as_bytes());
    rec.push(0);
    rec.extend(args.len().to_string().as_bytes());
    rec.push(0);
    for a in args {
        rec.extend(a);
        rec.push(0);
    }
    for k in [
        "CARGO_CALL_STACK_RUSTC_WRAPPER",
        "RUSTC_WRAPPER",
        "VSHIM_MARK",
        "CARGO_TARGET_DIR",
        "RUSTFLAGS",
        "CARGO_ENCODED_RUSTFLAGS",
        "CARGO_INCREMENTAL",
        "CARGO_PROFILE_RELEASE_OPT_LEVEL",
        "CARGO_NET_OFFLINE",
        "CARGO_TERM_COLOR",
        "RUSTUP_TOOLCHAIN",
        "RUST_BACKTRACE",
        "DEFMT_LOG",
        "OUT_DIR",
        "CARGO_PKG_NAME",
        "CARGO_CRATE_NAME",
        "CARGO_MANIFEST_DIR",
    ] {
        if let Some(v) = env::var_os(k) {
            rec.extend(k.as_bytes());
            rec.push(b'=');
            rec.extend(v.as_bytes());
            rec.push(0);
        }
    }
    rec.extend(b"CWD=");
    rec.extend(
        env::current_dir()
            .map(|p| p.as_os_str().as_bytes().to_vec())
            .unwrap_or_default(),
    );
    rec.push(0);
    rec.push(b'\n');
    if let Ok(mut f) = fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(dir.join("log"))
    {
        let _ = f.write_all(&rec);
    }
}

fn emit(dir: &Path, name: &str, out: &mut dyn Write) {
    if let Ok(data) = fs::read(dir.join(name)) {
        let _ = out.write_all(&data);
        let _ = out.flush();
    }
}

// `exit 3`, `signal 9`
fn finish(dir: &Path, name: &str) -> ! {
    let s = fs::read_to_string(dir.join(name)).unwrap_or_default();
    let mut it = s.split_whitespace();
    match (it.next(), it.next().and_then(|n| n.parse::<i32>().ok())) {
        (Some("exit"), Some(n)) => exit(n),
        (Some("signal"), Some(n)) => {
            extern "C" {
                fn raise(sig: i32) -> i32;
                fn signal(sig: i32, handler: usize) -> usize;
            }
            unsafe {
                // a check that runs in the background may have been told to ignore it
                signal(n, 0);
                raise(n);
            }
            exit(98)
        }
        _ => exit(0),
    }
}

fn rustc(dir: &Path, args: &[Vec<u8>]) -> ! {
    let has = |s: &str| args.iter().any(|a| a == s.as_bytes());
    if has("-vV") || (has("-v") && has("-V")) {
        emit(dir, "rustc_vV", &mut std::io::stdout());
        exit(0)
    }
    if has("--print=cfg") || (has("--print") && has("cfg")) {
        // cfg of the requested target, if known
        let mut target = None;
        let mut it = args.iter();
        while let Some(a) = it.next() {
            if a == b"--target" {
                target = it.next().cloned();
            } else if let Some(t) = a.strip_prefix(b"--target=") {
                target = Some(t.to_vec());
            }
        }
        let t = target
            .map(|t| String::from_utf8_lossy(&t).into_owned())
            .unwrap_or_else(|| "host".into());
        emit(dir, &format!("cfg.{}", t), &mut std::io::stdout());
        exit(0)
    }
    // a compilation
    if dir.join("rustc_stdin").exists() {
        let mut b = vec![];
        let _ = std::io::stdin().read_to_end(&mut b);
        let _ = fs::write(dir.join("rustc_stdin"), b);
    }
    emit(dir, "rustc_stdout", &mut std::io::stdout());
    emit(dir, "rustc_stderr", &mut std::io::stderr());
    finish(dir, "rustc_exit")
}

fn cargo(dir: &Path) -> ! {
    // build steps, one per line: `mv A<TAB>B`, `cp A<TAB>B`, `rm A`, `mtime A<TAB>milliseconds`,
    // `ifnewer A<TAB>B<TAB>N` (skip N steps unless A is newer than B)
    if let Ok(script) = fs::read_to_string(dir.join("cargo_script")) {
        let mut skip = 0;
        for line in script.lines() {
            if skip > 0 {
                skip -= 1;
                continue;
            }
            let (op, rest) = line.split_once(' ').unwrap_or((line, ""));
            let (a, b) = rest.split_once('\t').unwrap_or((rest, ""));
            if op == "ifnewer" {
                let (b, n) = b.split_once('\t').unwrap_or((b, "0"));
                let time = |p: &str| fs::metadata(p).and_then(|m| m.modified()).ok();
                if time(a) <= time(b) {
                    skip = n.parse().unwrap_or(0);
                }
                continue;
            }
            let r = match op {
                "mv" => fs::rename(a, b).map(drop),
                "cp" => fs::copy(a, b).map(drop),
                "rm" => fs::remove_file(a),
                "mkdir" => fs::create_dir_all(a),
                "mtime" => fs::OpenOptions::new().write(true).open(a).and_then(|f| {
                    let t = std::time::UNIX_EPOCH
                        + std::time::Duration::from_millis(b.parse::<u64>().unwrap_or(0));
                    f.set_modified(t)
                }),
                _ => Ok(()),
            };
            if r.is_err() {
                eprintln!("shim: `{}` failed: {:?}", line, r);
                exit(96)
            }
        }
    }
    emit(dir, "cargo_stdout", &mut std::io::stdout());
    emit(dir, "cargo_stderr", &mut std::io::stderr());
    finish(dir, "cargo_exit")
}
