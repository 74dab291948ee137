//! `hv`: decides the properties of /verif/properties.jsonl by generated-input
//! search against explicit oracles. See /verif/DESIGN.md.
mod cmp;
mod gen;
mod hast;
mod model;
mod p_api;
mod p_make;
mod pbt;
mod props;

use pbt::*;
use std::os::unix::fs::FileExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{exit, Command};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

const STACK: usize = 256 << 20;
const STUCK_SECONDS: u64 = 15;
const ISOLATED_CPU_SECONDS: u64 = 20;
const STUCK_EXIT: i32 = 77;
const HARNESS_ERROR: i32 = 70;

#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(resource: i32, rlim: *const Rlimit) -> i32;
}
fn limit(resource: i32, value: u64, hard: u64) {
    let r = Rlimit { cur: value, max: hard };
    unsafe {
        setrlimit(resource, &r);
    }
}
const RLIMIT_CPU: i32 = 0;
const RLIMIT_CORE: i32 = 4;
const RLIMIT_AS: i32 = 9;

pub struct Opts {
    id: String,
    tier: String,
    seed: u64,
    cases: u64,
    verif: PathBuf,
    scratch: PathBuf,
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

fn opts(args: &[String]) -> Opts {
    let id = args.get(2).cloned().unwrap_or_default();
    let def = props::find(&id).unwrap_or_else(|| {
        eprintln!("unknown property {:?}", id);
        exit(HARNESS_ERROR)
    });
    let tier = arg(args, "--tier").unwrap_or_else(|| "quick".into());
    let cases = arg(args, "--cases")
        .map(|x| x.parse().unwrap())
        .unwrap_or(if tier == "thorough" { def.thorough } else { def.quick });
    Opts {
        tier,
        seed: arg(args, "--seed").and_then(|x| x.parse().ok()).unwrap_or(1),
        cases,
        verif: PathBuf::from(arg(args, "--verif").unwrap_or_else(|| "/verif".into())),
        scratch: PathBuf::from(arg(args, "--scratch").unwrap_or_else(|| "/tmp/hv-scratch".into())),
        id,
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    hast::install_panic_hook();
    limit(RLIMIT_CORE, 0, 0);
    let mode = args.get(1).map(|x| x.as_str()).unwrap_or("");
    let code = match mode {
        "check" => big_stack(move || check(&args)),
        "worker" => big_stack(move || worker(&opts(&args))),
        "one" => {
            // one isolated case: `one ID --choices FILE` or `one ID --index N`
            limit(RLIMIT_CPU, ISOLATED_CPU_SECONDS, ISOLATED_CPU_SECONDS + 5);
            limit(RLIMIT_AS, 6 << 30, 6 << 30);
            big_stack(move || one(&args))
        }
        "replay" => big_stack(move || replay(&args)),
        "finding" => {
            limit(RLIMIT_CPU, ISOLATED_CPU_SECONDS, ISOLATED_CPU_SECONDS + 5);
            limit(RLIMIT_AS, 6 << 30, 6 << 30);
            big_stack(move || props::finding(&args[2]))
        }
        "model" => big_stack(move || props::model_cmd(&args)),
        "gen" => big_stack(move || gen_cmd(&args)),
        _ => {
            eprintln!("usage: hv check|worker|one|replay|model|gen ...");
            HARNESS_ERROR
        }
    };
    exit(code)
}

fn big_stack(f: impl FnOnce() -> i32 + Send + 'static) -> i32 {
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(f)
        .unwrap()
        .join()
        .unwrap_or(HARNESS_ERROR)
}

/// Run the property on one source; harness panics become errors
fn run_case(prop: Prop, src: &mut Src, env: &mut Env) -> Result<(Outcome, Rep), String> {
    let mut rep = Rep::default();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| prop(src, &mut rep, env)));
    match r {
        Ok(o) => Ok((o, rep)),
        Err(_) => Err(format!("harness panic: {}\ncase:\n{}", hast::last_panic(), rep.case)),
    }
}

fn make_env(o: &Opts, t: usize) -> Env {
    let dir = o.scratch.join(format!("t{}", t));
    let _ = std::fs::create_dir_all(&dir);
    Env {
        dir,
        thorough: o.tier == "thorough",
    }
}

fn one(args: &[String]) -> i32 {
    let o = opts(args);
    let def = props::find(&o.id).unwrap();
    let mut env = make_env(&o, 90);
    let mut src = match arg(args, "--choices") {
        Some(f) => Src::replay(&parse_choices(&std::fs::read_to_string(f).unwrap())),
        None => Src::random(case_seed(o.seed, &o.id, arg(args, "--index").unwrap().parse().unwrap())),
    };
    match run_case(def.run, &mut src, &mut env) {
        Ok((Outcome::Fail(_), _)) => 1,
        Ok(_) => 0,
        Err(e) => {
            eprintln!("{}", e);
            HARNESS_ERROR
        }
    }
}

fn parse_choices(s: &str) -> Vec<u64> {
    let line = s.lines().find(|l| l.starts_with("choices:")).unwrap_or("");
    line["choices:".len().min(line.len())..]
        .split_whitespace()
        .filter_map(|x| x.parse().ok())
        .collect()
}

fn replay(args: &[String]) -> i32 {
    let text = std::fs::read_to_string(&args[2]).expect("replay file");
    let id = text
        .lines()
        .find(|l| l.starts_with("property:"))
        .map(|l| l["property:".len()..].trim().to_string())
        .expect("property line");
    let def = props::find(&id).expect("property");
    let mut env = Env {
        dir: std::env::temp_dir().join(format!("hv-replay-{}", std::process::id())),
        thorough: false,
    };
    std::fs::create_dir_all(&env.dir).unwrap();
    let mut src = Src::replay(&parse_choices(&text));
    let r = run_case(def.run, &mut src, &mut env);
    let _ = std::fs::remove_dir_all(&env.dir);
    match r {
        Ok((Outcome::Fail(m), rep)) => {
            println!("{}\n--\n{}", rep.case, m);
            println!("VIOLATION property={} replay={}", id, args[2]);
            1
        }
        Ok((Outcome::Discard(d), rep)) => {
            println!("{}\n-- discarded: {}", rep.case, d);
            0
        }
        Ok((_, rep)) => {
            println!("{}\n-- passes", rep.case);
            0
        }
        Err(e) => {
            eprintln!("{}", e);
            HARNESS_ERROR
        }
    }
}

/// Print some generated cases (development aid)
fn gen_cmd(args: &[String]) -> i32 {
    let o = opts(args);
    let def = props::find(&o.id).unwrap();
    let mut env = make_env(&o, 91);
    for i in 0..o.cases.min(20) {
        let mut src = Src::random(case_seed(o.seed, &o.id, i));
        match run_case(def.run, &mut src, &mut env) {
            Ok((out, rep)) => println!(
                "=== {} {} nontrivial={} {:?}\n{}",
                i,
                match out {
                    Outcome::Pass => "pass".into(),
                    Outcome::Discard(d) => format!("discard {}", d),
                    Outcome::Fail(m) => format!("FAIL {}", m),
                },
                rep.nontrivial,
                rep.labels,
                rep.case
            ),
            Err(e) => println!("=== {} {}", i, e),
        }
    }
    0
}

struct Shared {
    min_fail: AtomicU64,
    fails: Mutex<Vec<(u64, Vec<u64>)>>,
    error: Mutex<Option<String>>,
    /// per thread: index of the running case + 1 (0: idle), and when it started
    running: Vec<(AtomicU64, AtomicU64)>,
    /// per thread: its number
    threads: Vec<AtomicU64>,
}

fn threads() -> usize {
    std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).max(1).min(8)
}

/// The number of this thread (0: unknown)
fn thread_id() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|n| n.to_str()).and_then(|n| n.parse().ok()))
        .unwrap_or(0)
}

/// CPU time a thread has used
fn thread_seconds(id: u64) -> Option<f64> {
    let text = std::fs::read_to_string(format!("/proc/self/task/{}/stat", id)).ok()?;
    let fields: Vec<&str> = text[text.rfind(')')? + 1..].split_whitespace().collect();
    let ticks = fields.get(11)?.parse::<u64>().ok()? + fields.get(12)?.parse::<u64>().ok()?;
    Some(ticks as f64 / 100.0)
}

fn worker(o: &Opts) -> i32 {
    limit(RLIMIT_AS, 14 << 30, 14 << 30);
    let start = Instant::now();
    let def = props::find(&o.id).unwrap();
    let nt = threads();
    let shared = Arc::new(Shared {
        min_fail: AtomicU64::new(u64::max_value()),
        fails: Mutex::new(vec![]),
        error: Mutex::new(None),
        running: (0..nt).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect(),
        threads: (0..nt).map(|_| AtomicU64::new(0)).collect(),
    });
    let state = Arc::new(
        std::fs::OpenOptions::new()
            .create(true)
            .write(true)
            .open(o.scratch.join("state"))
            .expect("state file"),
    );
    let mut handles = vec![];
    let show_slow = std::env::var_os("HV_SLOW").is_some();
    for t in 0..nt {
        let shared = shared.clone();
        let state = state.clone();
        let (id, seed, cases) = (o.id.clone(), o.seed, o.cases);
        let mut env = make_env(o, t);
        handles.push(
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(move || {
                    let mut stats = Stats::default();
                    shared.threads[t].store(thread_id(), Ordering::Relaxed);
                    let mut index = t as u64;
                    while index < cases
                        && index < shared.min_fail.load(Ordering::Relaxed)
                        && shared.error.lock().unwrap().is_none()
                    {
                        shared.running[t].1.store(start.elapsed().as_secs(), Ordering::Relaxed);
                        shared.running[t].0.store(index + 1, Ordering::Relaxed);
                        let _ = state.write_all_at(&(index + 1).to_le_bytes(), t as u64 * 8);
                        let mut src = Src::random(case_seed(seed, &id, index));
                        let t0 = Instant::now();
                        let ran = run_case(def.run, &mut src, &mut env);
                        if show_slow && t0.elapsed().as_millis() > 500 {
                            eprintln!("case {} took {:?}", index, t0.elapsed());
                        }
                        match ran {
                            Err(e) => *shared.error.lock().unwrap() = Some(format!("case {}: {}", index, e)),
                            Ok((Outcome::Discard(d), _)) => *stats.discards.entry(d).or_insert(0) += 1,
                            Ok((out, rep)) => {
                                stats.evaluations += 1;
                                for l in &rep.labels {
                                    *stats.labels.entry(l).or_insert(0) += 1;
                                }
                                if rep.nontrivial {
                                    stats.nontrivial += 1;
                                    if stats.hashes.insert(hash_bytes(rep.case.as_bytes())) && stats.samples.len() < 2 && rep.case.len() < 1500 {
                                        stats.samples.push((index, rep.case.clone()));
                                    }
                                }
                                if let Outcome::Fail(_) = out {
                                    shared.min_fail.fetch_min(index, Ordering::Relaxed);
                                    shared.fails.lock().unwrap().push((index, src.rec));
                                }
                            }
                        }
                        index += shared.running.len() as u64;
                    }
                    shared.running[t].0.store(0, Ordering::Relaxed);
                    let _ = state.write_all_at(&0u64.to_le_bytes(), t as u64 * 8);
                    stats
                })
                .unwrap(),
        );
    }
    // watchdog: a case that does not come back is re-run in isolation by the parent
    {
        let shared = shared.clone();
        // the case seen running for long, and how much time its thread had used by then
        let mut seen: Vec<(u64, f64)> = vec![(0, 0.0); nt];
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = start.elapsed().as_secs();
            for (t, r) in shared.running.iter().enumerate() {
                let (index, since) = (r.0.load(Ordering::Relaxed), r.1.load(Ordering::Relaxed));
                if index == 0 || now <= since + STUCK_SECONDS {
                    seen[t] = (0, 0.0);
                    continue;
                }
                // on a busy machine only the time the case really had counts
                let cpu = thread_seconds(shared.threads[t].load(Ordering::Relaxed));
                match cpu {
                    Some(c) if seen[t].0 != index => seen[t] = (index, c),
                    Some(c) if c < seen[t].1 + STUCK_SECONDS as f64 && now <= since + 20 * STUCK_SECONDS => {}
                    _ => exit(STUCK_EXIT),
                }
            }
        });
    }
    let mut stats = Stats::default();
    for h in handles {
        match h.join() {
            Ok(s) => stats.merge(s),
            Err(_) => return HARNESS_ERROR,
        }
    }
    if let Some(e) = shared.error.lock().unwrap().take() {
        eprintln!("{}", e);
        return HARNESS_ERROR;
    }
    let mut fails = shared.fails.lock().unwrap().clone();
    fails.sort();
    let mut violations = 0;
    let mut code = 0;
    if let Some((index, choices)) = fails.into_iter().next() {
        violations = 1;
        code = 1;
        shared.running[0].1.store(start.elapsed().as_secs(), Ordering::Relaxed);
        let mut env = make_env(o, 0);
        // should shrinking itself run into a crash, the parent reports this
        let c: Vec<String> = choices.iter().map(|x| x.to_string()).collect();
        let _ = std::fs::write(o.scratch.join("found"), format!("{}\nchoices: {}\n", index, c.join(" ")));
        let t0 = Instant::now();
        // and should it hang
        std::thread::spawn(|| {
            std::thread::sleep(std::time::Duration::from_secs(60));
            exit(STUCK_EXIT);
        });
        let small = shrink(choices.clone(), 20000, |c| {
            if t0.elapsed().as_secs() > 25 {
                return None;
            }
            let mut src = Src::replay(c);
            match run_case(def.run, &mut src, &mut env) {
                Ok((Outcome::Fail(_), _)) => Some(src.rec),
                _ => None,
            }
        });
        let mut src = Src::replay(&small);
        let (msg, case) = match run_case(def.run, &mut src, &mut env) {
            Ok((Outcome::Fail(m), rep)) => (m, rep.case),
            _ => ("(not reproduced after shrinking)".into(), String::new()),
        };
        let path = write_replay(o, index, &small, &msg, &case);
        println!("case {} (shrunk from {} to {} choices):\n{}\n--\n{}", index, choices.len(), small.len(), case, msg);
        println!("VIOLATION property={} replay={}", o.id, path.display());
    }
    write_evidence(o, &stats, violations, start.elapsed().as_secs_f64());
    if code == 0 {
        println!(
            "property={} tier={} seed={} cases={} evaluations={} distinct_nontrivial={} discards={:?} wall={:.1}s: held",
            o.id,
            o.tier,
            o.seed,
            o.cases,
            stats.evaluations,
            stats.hashes.len(),
            stats.discards,
            start.elapsed().as_secs_f64()
        );
        println!("labels: {:?}", stats.labels);
        if stats.evaluations == 0 || (stats.hashes.len() as u64) * 50 < o.cases.min(20000) {
            eprintln!("the generator is vacuous: {} distinct non-trivial cases", stats.hashes.len());
            return HARNESS_ERROR;
        }
    }
    code
}

fn write_replay(o: &Opts, index: u64, choices: &[u64], msg: &str, case: &str) -> PathBuf {
    let dir = o.verif.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-seed{}-case{}.txt", o.id, o.seed, index));
    let c: Vec<String> = choices.iter().map(|x| x.to_string()).collect();
    let text = format!(
        "property: {}\nchoices: {}\nreplay with: {}/run.sh replay {}\n\n{}\n--\n{}\n",
        o.id,
        c.join(" "),
        o.verif.display(),
        path.display(),
        case,
        msg
    );
    let _ = std::fs::write(&path, text);
    path
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_evidence(o: &Opts, stats: &Stats, violations: u32, wall: f64) {
    let def = props::find(&o.id).unwrap();
    let mut samples = stats.samples.clone();
    samples.sort();
    let samples: Vec<String> = samples.iter().take(5).map(|(i, s)| jstr(&format!("case {}: {}", i, s))).collect();
    let labels: Vec<String> = stats.labels.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect();
    let discards: Vec<String> = stats.discards.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect();
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"nontrivial_with_repeats\": {},\n  \"discarded_outside_domain\": {{{}}},\n  \"classes\": {{{}}},\n  \"hooks\": {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        jstr(&o.id),
        jstr(&o.tier),
        o.seed,
        stats.evaluations,
        stats.hashes.len(),
        jstr(def.rule),
        samples.join(", "),
        stats.nontrivial,
        discards.join(", "),
        labels.join(", "),
        cfg!(feature = "hooks"),
        jstr("the oracle (reference model or relation) described in DESIGN.md is right; nothing beyond the generated cases is claimed"),
        wall,
        violations
    );
    let dir = o.verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", o.id)), text).expect("evidence file");
}

fn check(args: &[String]) -> i32 {
    let mut o = opts(args);
    o.scratch = std::env::temp_dir().join(format!("hv-{}-{}", o.id, std::process::id()));
    std::fs::create_dir_all(&o.scratch).expect("scratch directory");
    let code = check_in(&o, args);
    let _ = std::fs::remove_dir_all(&o.scratch);
    code
}

fn sub(o: &Opts, mode: &str, extra: &[&str]) -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg(mode)
        .arg(&o.id)
        .args(&["--tier", &o.tier, "--seed", &o.seed.to_string(), "--cases", &o.cases.to_string()])
        .arg("--verif")
        .arg(&o.verif)
        .arg("--scratch")
        .arg(&o.scratch)
        .args(extra);
    unsafe {
        c.pre_exec(|| Ok(()));
    }
    c
}

/// How an isolated run died, if it did
fn died(status: std::process::ExitStatus) -> Option<String> {
    match status.signal() {
        Some(24) => Some(format!("did not terminate within {} s of CPU time", ISOLATED_CPU_SECONDS)),
        Some(9) => None, // killed from outside (or memory): not evidence
        Some(s) => Some(format!("process died from signal {} (stack overflow or abort)", s)),
        None => None,
    }
}

fn check_in(o: &Opts, _args: &[String]) -> i32 {
    for line in known_findings(&o.verif, &o.id) {
        // a listed finding is shown as long as its input still fails
        let key = line.split_whitespace().find(|w| w.starts_with("key=")).map(|w| w[4..].to_string());
        if let Some(key) = key {
            let st = Command::new(std::env::current_exe().unwrap())
                .arg("finding")
                .arg(&key)
                .stderr(std::process::Stdio::null())
                .status()
                .expect("finding");
            if !st.success() {
                println!("KNOWN-FINDING: {}", &line["known: ".len()..]);
            }
        }
    }
    let start = Instant::now();
    for attempt in 0..2 {
        let _ = std::fs::write(o.scratch.join("state"), vec![0u8; 8 * threads()]);
        let status = sub(o, "worker", &[]).status().expect("worker");
        match status.code() {
            Some(0) => return 0,
            Some(1) => return 1,
            Some(c) if c != STUCK_EXIT => return c,
            _ => {}
        }
        if let Ok(found) = std::fs::read_to_string(o.scratch.join("found")) {
            let index = found.lines().next().and_then(|l| l.parse().ok()).unwrap_or(0);
            let choices = parse_choices(&found);
            let case = props::render(&o.id, &choices, &make_env(o, 92));
            let msg = "failed; not shrunk, because shrinking ran into a crash or did not end";
            let path = write_replay(o, index, &choices, msg, &case);
            println!("case {}:\n{}\n--\n{}", index, case, msg);
            println!("VIOLATION property={} replay={}", o.id, path.display());
            let mut stats = Stats::default();
            stats.evaluations = index + 1;
            stats.samples.push((index, case));
            write_evidence(o, &stats, 1, start.elapsed().as_secs_f64());
            return 1;
        }
        eprintln!("worker ended with {:?}; re-running the cases it was in", status);
        let state = std::fs::read(o.scratch.join("state")).unwrap_or_default();
        let mut indices: Vec<u64> = state
            .chunks(8)
            .filter(|c| c.len() == 8)
            .map(|c| {
                let mut b = [0u8; 8];
                b.copy_from_slice(c);
                u64::from_le_bytes(b)
            })
            .filter(|x| *x != 0)
            .map(|x| x - 1)
            .collect();
        indices.sort();
        let reached = indices.iter().max().cloned().unwrap_or(0);
        for index in indices {
            let mut run = |extra: &[&str]| -> Option<String> {
                let st = sub(o, "one", extra)
                    .stdout(std::process::Stdio::null())
                    .stderr(std::process::Stdio::null())
                    .status()
                    .expect("isolated case");
                died(st)
            };
            let how = match run(&["--index", &index.to_string()]) {
                Some(h) => h,
                None => continue,
            };
            // confirmed: shrink it in isolation too
            let choices = crash_choices(o, index);
            let f = o.scratch.join("choices");
            let hang = how.contains("terminate");
            let t0 = Instant::now();
            let small = shrink(choices.clone(), if hang { 4 } else { 600 }, |c| {
                if t0.elapsed().as_secs() > 120 {
                    return None;
                }
                let t: Vec<String> = c.iter().map(|x| x.to_string()).collect();
                std::fs::write(&f, format!("choices: {}\n", t.join(" "))).unwrap();
                run(&["--choices", f.to_str().unwrap()]).map(|_| c.to_vec())
            });
            let case = props::render(&o.id, &small, &make_env(o, 92));
            let path = write_replay(o, index, &small, &how, &case);
            println!("case {}:\n{}\n--\n{}", index, case, how);
            println!("VIOLATION property={} replay={}", o.id, path.display());
            let mut stats = Stats::default();
            stats.evaluations = reached;
            stats.samples.push((index, case));
            write_evidence(o, &stats, 1, start.elapsed().as_secs_f64());
            return 1;
        }
        eprintln!("attempt {}: no single case reproduces it", attempt);
    }
    HARNESS_ERROR
}

/// The choices of a case that kills the process: generation only
fn crash_choices(o: &Opts, index: u64) -> Vec<u64> {
    let mut src = Src::random(case_seed(o.seed, &o.id, index));
    hast::set_dry(true);
    let def = props::find(&o.id).unwrap();
    let mut env = make_env(o, 92);
    let _ = run_case(def.run, &mut src, &mut env);
    hast::set_dry(false);
    src.rec
}

fn known_findings(verif: &Path, id: &str) -> Vec<String> {
    let text = std::fs::read_to_string(verif.join("known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter(|l| l.starts_with(&format!("known: property={} ", id)))
        .map(|l| l.to_string())
        .collect()
}
