//! usage: verif check ID [--cases N] | replay FILE | list
mod artifacts;
mod checks;
mod compare;
mod dot;
mod emu;
mod elf;
mod ir;
mod model;
mod runner;
mod rust;
mod sandbox;
mod tape;
mod thumb;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let checks = checks::all();
    let code = match args.first().map(|s| &s[..]) {
        Some("check") => {
            let id = args.get(1).cloned().unwrap_or_default();
            let cases = args
                .iter()
                .position(|a| a == "--cases")
                .and_then(|i| args.get(i + 1))
                .and_then(|n| n.parse().ok());
            match checks.iter().find(|c| c.id == id) {
                Some(c) => runner::check(c, cases),
                None => {
                    eprintln!("unknown property {:?}", id);
                    2
                }
            }
        }
        Some("replay") => runner::replay(&checks, std::path::Path::new(args.get(1).map(|s| &s[..]).unwrap_or(""))),
        // a generated Rust program: `gen SEED thumbv7m|...`
        Some("gen") => {
            let seed = args.get(1).and_then(|n| n.parse().ok()).unwrap_or(1);
            let mut n = tape::Noise::new(seed);
            let data: Vec<u32> = (0..3000).map(|_| n.next() as u32).collect();
            let kind = match args.get(2).map(|s| &s[..]) {
                Some("v7") => rust::Kind::Thumb { v7: true },
                Some("v6") => rust::Kind::Thumb { v7: false },
                _ => rust::Kind::Other,
            };
            print!("{}", rust::generate(&mut tape::Tape::new(data), kind).text);
            0
        }
        Some("list") => {
            for c in &checks {
                println!("{}", c.id);
            }
            0
        }
        _ => {
            eprintln!("usage: verif check ID | replay FILE | list");
            2
        }
    };
    std::process::exit(code)
}
