//! Drives a check: generated cases on several workers, shrinking, replay files, evidence.
use crate::{
    dot::{self, Dot},
    sandbox::{scratch_root, Inputs, Out, Sandbox},
    tape::{fnv, Tape},
};
use proptest::{
    arbitrary::any,
    collection::vec,
    strategy::{Strategy, ValueTree},
    test_runner::{Config, RngAlgorithm, TestRng, TestRunner},
};
use serde_json::{json, Value};
use std::{
    collections::{BTreeMap, BTreeSet},
    fs,
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicBool, Ordering},
        Mutex,
    },
    time::Instant,
};

#[derive(Clone)]
pub enum Verdict {
    Pass(Case),
    Fail(String),
    /// the check itself could not be carried out
    Error(String),
}

#[derive(Default, Clone)]
pub struct Case {
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
    /// identifies the case among the others
    pub digest: u64,
    pub sample: String,
}

impl Case {
    pub fn new(nontrivial: bool, digest: u64, sample: String) -> Case {
        Case {
            nontrivial,
            classes: vec![],
            digest,
            sample,
        }
    }
    pub fn class(mut self, c: &'static str, on: bool) -> Case {
        if on {
            self.classes.push(c)
        }
        self
    }
}

pub struct Ctx {
    pub sb: Sandbox,
    pub verbose: bool,
    pub thorough: bool,
}

impl Ctx {
    /// runs the tool; `Err` if the run gives no answer
    pub fn run(&mut self, inp: &Inputs, format: Option<&str>, start: Option<&str>) -> Result<Out, Verdict> {
        let o = self.sb.analyze(inp, format, start);
        if self.verbose {
            eprintln!("--- IR\n{}", String::from_utf8_lossy(&inp.ll));
        }
        self.answer(o)
    }
    pub fn answer(&mut self, o: Out) -> Result<Out, Verdict> {
        if o.timeout {
            // (every time it was tried)
            return Err(Verdict::Fail(format!("the tool does not finish: {}", o.tail())));
        }
        if o.signal == Some(9) {
            return Err(Verdict::Error(format!("the tool was ended from outside: {}", o.tail())));
        }
        if self.verbose {
            eprintln!("--- stdout\n{}\n--- stderr\n{}", o.out(), o.err());
        }
        Ok(o)
    }
    pub fn graph_of(&mut self, o: &Out) -> Result<Dot, Verdict> {
        if !o.ok() {
            return Err(Verdict::Fail(format!("the tool fails on a valid program: {}", o.tail())));
        }
        let text = match std::str::from_utf8(&o.stdout) {
            Ok(t) => t,
            Err(_) => return Err(Verdict::Fail("output is not UTF-8".into())),
        };
        dot::parse(text).map_err(|e| Verdict::Fail(format!("invalid dot output: {}", e)))
    }
    /// populates the project and returns the full graph
    pub fn graph(&mut self, inp: &Inputs, start: Option<&str>) -> Result<Dot, Verdict> {
        self.sb.populate(inp);
        let o = self.run(inp, None, start)?;
        self.graph_of(&o)
    }
}

pub type CaseFn = fn(&mut Ctx, &mut Tape) -> Verdict;

/// a fixed scenario, searched exhaustively or taken from a known finding
pub struct Directed {
    pub name: &'static str,
    pub run: fn(&mut Ctx) -> Verdict,
    /// the finding this scenario reproduces: the check reports it when the scenario fails
    pub finding: Option<&'static str>,
    /// quick tier too?
    pub quick: bool,
}

pub struct Check {
    pub id: &'static str,
    pub run: CaseFn,
    pub tape: usize,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub directed: &'static [Directed],
}

fn dir() -> PathBuf {
    PathBuf::from(std::env::var_os("VERIF_DIR").unwrap_or_else(|| "/verif".into()))
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse().ok())
        .unwrap_or(1)
}

fn rng(seed: u64, id: &str, worker: u64) -> TestRng {
    let mut bytes = [0u8; 32];
    for k in 0..4u64 {
        let h = fnv(format!("{} {} {} {}", seed, id, worker, k).as_bytes());
        bytes[8 * k as usize..][..8].copy_from_slice(&h.to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &bytes)
}

fn workers() -> u64 {
    std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(2, 16)
}

/// the stream of tapes is split in this many parts, whatever the number of processors
const STREAMS: u64 = 16;

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: BTreeSet<u64>,
    nontrivial_total: u64,
    classes: BTreeMap<&'static str, u64>,
    samples: Vec<(u64, String)>,
    runs: u64,
}

impl Stats {
    fn add(&mut self, c: Case, case: u64) {
        self.evaluations += 1;
        for k in &c.classes {
            *self.classes.entry(k).or_default() += 1;
        }
        if c.nontrivial {
            self.nontrivial_total += 1;
            if self.nontrivial.insert(c.digest) && self.samples.len() < 3 && !c.sample.is_empty() {
                let mut s = c.sample;
                if s.len() > 1500 {
                    let mut i = 1500;
                    while !s.is_char_boundary(i) {
                        i -= 1;
                    }
                    s.truncate(i);
                    s += "...";
                }
                self.samples.push((case, s));
            }
        }
    }
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.nontrivial.extend(o.nontrivial);
        self.nontrivial_total += o.nontrivial_total;
        for (k, v) in o.classes {
            *self.classes.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
        self.runs += o.runs;
    }
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

pub fn check(c: &Check, cases: Option<u64>) -> i32 {
    let started = Instant::now();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let thorough = tier == "thorough";
    let total = cases.unwrap_or(if thorough { c.thorough } else { c.quick });
    // on a busy machine the quick tier makes do with fewer cases
    let limit = if thorough || cases.is_some() { u64::MAX } else { 480 };
    let seed = seed();
    let root = Scratch(scratch_root());
    let _ = fs::remove_dir_all(&root.0);
    fs::create_dir_all(&root.0).expect("scratch");

    let mut stats = Stats::default();
    let mut violation: Option<(String, String)> = None; // replay, message
    let mut findings: Vec<String> = vec![];
    let mut error: Option<String> = None;

    // directed scenarios
    let mut directed_done: Vec<Value> = vec![];
    for d in c.directed {
        if !(d.quick || thorough) {
            continue;
        }
        let mut ctx = Ctx {
            sb: Sandbox::new(&root.0, &format!("d-{}", d.name)),
            verbose: false,
            thorough,
        };
        let v = (d.run)(&mut ctx);
        stats.runs += ctx.sb.runs;
        match v {
            Verdict::Pass(case) => {
                let s = case.sample.clone();
                stats.add(case, 0);
                directed_done.push(json!({"scenario": d.name, "held": true, "note": s}));
            }
            Verdict::Error(e) => error = Some(format!("{}: {}", d.name, e)),
            Verdict::Fail(m) => match d.finding {
                Some(what) if listed(c.id, what) => {
                    findings.push(what.to_string());
                    directed_done.push(json!({"scenario": d.name, "held": false, "known finding": what}));
                }
                _ => {
                    let path = write_replay(c.id, json!({"property": c.id, "directed": d.name, "tier": tier, "message": m}));
                    violation = Some((path, m));
                    break;
                }
            },
        }
        let _ = fs::remove_dir_all(&ctx.sb.dir);
    }

    // generated cases
    let stop = AtomicBool::new(false);
    let failure: Mutex<Option<(u64, u64, Vec<u32>, String)>> = Mutex::new(None);
    let errors: Mutex<Vec<String>> = Mutex::new(vec![]);
    let all: Mutex<Stats> = Mutex::new(Stats::default());
    if violation.is_none() && error.is_none() {
        let next = std::sync::atomic::AtomicU64::new(0);
        std::thread::scope(|s| {
            let mut hs = vec![];
            for w in 0..workers() {
                let (stop, failure, errors, all, root, next) = (&stop, &failure, &errors, &all, &root, &next);
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || {
                            let mut ctx = Ctx {
                                sb: Sandbox::new(&root.0, &format!("w{}", w)),
                                verbose: false,
                                thorough,
                            };
                            let mut st = Stats::default();
                            'streams: loop {
                                // work is handed out in parts so that the cases do not depend on
                                // how many workers there are
                                let part = next.fetch_add(1, Ordering::SeqCst);
                                if part >= STREAMS {
                                    break;
                                }
                                let config = Config {
                                    failure_persistence: None,
                                    ..Config::default()
                                };
                                let mut runner = TestRunner::new_with_rng(config, rng(seed, c.id, part));
                                let strategy = vec(any::<u32>(), c.tape);
                                let mine = total / STREAMS + (part < total % STREAMS) as u64;
                                for i in 0..mine {
                                    if stop.load(Ordering::SeqCst) || started.elapsed().as_secs() > limit {
                                        break 'streams;
                                    }
                                    let data = strategy.new_tree(&mut runner).expect("tape").current();
                                    match (c.run)(&mut ctx, &mut Tape::new(data.clone())) {
                                        Verdict::Pass(case) => st.add(case, i * STREAMS + part),
                                        Verdict::Fail(m) => {
                                            let mut f = failure.lock().unwrap();
                                            if f.as_ref().map(|f| i < f.0).unwrap_or(true) {
                                                *f = Some((i, part, data, m));
                                            }
                                            stop.store(true, Ordering::SeqCst);
                                            st.evaluations += 1;
                                        }
                                        Verdict::Error(e) => {
                                            errors.lock().unwrap().push(format!("case {}/{}: {}", part, i, e));
                                            stop.store(true, Ordering::SeqCst);
                                        }
                                    }
                                }
                            }
                            st.runs += ctx.sb.runs;
                            all.lock().unwrap().merge(st);
                            let _ = fs::remove_dir_all(&ctx.sb.dir);
                        })
                        .unwrap(),
                );
            }
            for h in hs {
                if h.join().is_err() {
                    errors.lock().unwrap().push("a worker of the harness panicked".into());
                }
            }
        });
    }
    stats.merge(all.into_inner().unwrap());
    if let Some((i, part, data, m)) = failure.into_inner().unwrap() {
        eprintln!("case {} of stream {} fails: {}", i, part, m);
        let mut ctx = Ctx {
            sb: Sandbox::new(&root.0, "shrink"),
            verbose: false,
            thorough,
        };
        let (data, m) = shrink(c.run, &mut ctx, data, m);
        let path = write_replay(
            c.id,
            json!({"property": c.id, "tape": data, "tier": tier, "message": m, "seed": seed}),
        );
        violation = Some((path, m));
    } else if let Some(e) = errors.into_inner().unwrap().into_iter().next() {
        error.get_or_insert(e);
    }

    stats.samples.sort();
    let evidence = json!({
        "property": c.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": stats.evaluations,
            "distinct_nontrivial": stats.nontrivial.len(),
            "rule": c.rule,
            "samples": stats.samples.iter().take(4).map(|s| s.1.clone()).collect::<Vec<_>>(),
            "classes": stats.classes.iter().map(|(k, v)| (k.to_string(), json!(v))).collect::<serde_json::Map<_, _>>(),
            "tool_runs": stats.runs,
            "directed": directed_done,
        },
        "assumptions": c.assumptions,
        "wall_s": (started.elapsed().as_millis() as f64) / 1000.0,
        "violations": violation.is_some() as u32,
    });
    let ev = dir().join("evidence");
    let _ = fs::create_dir_all(&ev);
    fs::write(
        ev.join(format!("{}.json", c.id)),
        serde_json::to_string_pretty(&evidence).unwrap() + "\n",
    )
    .expect("evidence");
    for f in &findings {
        println!("KNOWN-FINDING: property={} {}", c.id, f);
    }
    if let Some((path, m)) = violation {
        println!("{}", m);
        println!("VIOLATION property={} replay={}", c.id, path);
        return 1;
    }
    if let Some(e) = error {
        eprintln!("error: {}", e);
        return 2;
    }
    println!(
        "{}: held on {} cases ({} distinct non-trivial), {:.1} s",
        c.id,
        stats.evaluations,
        stats.nontrivial.len(),
        started.elapsed().as_secs_f64()
    );
    0
}

/// is the finding in the committed list?
fn listed(id: &str, what: &str) -> bool {
    fs::read_to_string(dir().join("known-findings.txt"))
        .map(|s| s.lines().any(|l| l == format!("finding: property={} {}", id, what)))
        .unwrap_or(false)
}

fn write_replay(id: &str, v: Value) -> String {
    let d = dir().join("replays");
    let _ = fs::create_dir_all(&d);
    let text = serde_json::to_string_pretty(&v).unwrap() + "\n";
    let p = d.join(format!("{}-{:016x}.json", id, fnv(text.as_bytes())));
    fs::write(&p, text).expect("replay file");
    p.display().to_string()
}

/// cuts the tape and lowers its numbers while the check keeps failing
fn shrink(run: CaseFn, ctx: &mut Ctx, mut data: Vec<u32>, mut msg: String) -> (Vec<u32>, String) {
    let mut budget = 500;
    let started = Instant::now();
    let mut fails = |d: &[u32], budget: &mut i32| -> Option<String> {
        if *budget <= 0 || started.elapsed().as_secs() > 150 {
            return None;
        }
        *budget -= 1;
        match run(ctx, &mut Tape::new(d.to_vec())) {
            Verdict::Fail(m) => Some(m),
            _ => None,
        }
    };
    // the part that matters
    let mut lo = 0;
    let mut hi = data.len();
    while lo < hi {
        let mid = (lo + hi) / 2;
        match fails(&data[..mid], &mut budget) {
            Some(m) => {
                hi = mid;
                msg = m
            }
            None => lo = mid + 1,
        }
    }
    if hi < data.len() {
        if let Some(m) = fails(&data[..hi], &mut budget) {
            data.truncate(hi);
            msg = m;
        }
    }
    let mut size = (data.len() / 2).max(1);
    loop {
        let mut changed = false;
        let mut i = 0;
        while i < data.len() {
            let end = (i + size).min(data.len());
            // remove
            let mut d = data.clone();
            d.drain(i..end);
            if let Some(m) = fails(&d, &mut budget) {
                data = d;
                msg = m;
                changed = true;
                continue;
            }
            // zero
            if data[i..end].iter().any(|x| *x != 0) {
                let mut d = data.clone();
                d[i..end].iter_mut().for_each(|x| *x = 0);
                if let Some(m) = fails(&d, &mut budget) {
                    data = d;
                    msg = m;
                    changed = true;
                }
            }
            i = end;
        }
        if size == 1 {
            if !changed {
                break;
            }
        } else {
            size /= 2;
        }
        if budget <= 0 {
            break;
        }
    }
    while data.last() == Some(&0) {
        data.pop();
    }
    (data, msg)
}

pub fn replay(checks: &[Check], file: &Path) -> i32 {
    let Ok(text) = fs::read_to_string(file) else {
        eprintln!("cannot read {}", file.display());
        return 2;
    };
    let Ok(v) = serde_json::from_str::<Value>(&text) else {
        eprintln!("not a replay file");
        return 2;
    };
    let id = v["property"].as_str().unwrap_or("");
    let Some(c) = checks.iter().find(|c| c.id == id) else {
        eprintln!("unknown property {:?}", id);
        return 2;
    };
    let root = Scratch(scratch_root());
    let mut ctx = Ctx {
        sb: Sandbox::new(&root.0, "replay"),
        verbose: std::env::var_os("VERIF_VERBOSE").is_some(),
        thorough: v["tier"] == "thorough",
    };
    let verdict = if let Some(name) = v["directed"].as_str() {
        match c.directed.iter().find(|d| d.name == name) {
            Some(d) => (d.run)(&mut ctx),
            None => {
                eprintln!("unknown scenario {:?}", name);
                return 2;
            }
        }
    } else {
        let tape: Vec<u32> = v["tape"]
            .as_array()
            .map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect())
            .unwrap_or_default();
        (c.run)(&mut ctx, &mut Tape::new(tape))
    };
    if std::env::var_os("VERIF_KEEP").is_some() {
        eprintln!("kept {}", root.0.display());
        std::mem::forget(root);
    }
    match verdict {
        Verdict::Pass(c) => {
            println!("held: {}", c.sample);
            0
        }
        Verdict::Fail(m) => {
            println!("{}", m);
            println!("VIOLATION property={} replay={}", id, file.display());
            1
        }
        Verdict::Error(e) => {
            eprintln!("error: {}", e);
            2
        }
    }
}
