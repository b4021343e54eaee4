//! The seeded search: spreads the runs of a check over worker processes,
//! collects what they covered, and reports and minimises violations.

use crate::checks::{self, CheckDef};
use crate::engine::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const WORKERS: u64 = 8;
/// A single run that uses more processor time than this makes no progress, and
/// so does one that blocks for longer than the second limit.
const RUN_CPU_LIMIT: f64 = 40.0;
const RUN_LIMIT: Duration = Duration::from_secs(120);

/// Processor time used by this process so far, in seconds.
fn cpu_time() -> Option<f64> {
    let s = std::fs::read_to_string("/proc/self/stat").ok()?;
    let f: Vec<&str> = s.rsplit_once(')')?.1.split_whitespace().collect();
    Some((f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?) / 100.0)
}

/// Ends the process when the current run makes no progress.
fn watchdog(began: Arc<Mutex<(u64, Instant)>>) {
    std::thread::spawn(move || {
        let (mut run, mut cpu) = (u64::MAX, 0.0);
        loop {
            std::thread::sleep(Duration::from_millis(300));
            let b = *began.lock().unwrap();
            let now = cpu_time().unwrap_or_else(|| b.1.elapsed().as_secs_f64());
            if b.0 != run {
                (run, cpu) = (b.0, now);
            }
            if now - cpu > RUN_CPU_LIMIT || b.1.elapsed() > RUN_LIMIT {
                std::process::exit(97);
            }
        }
    });
}

fn mix(a: u64, b: u64) -> u64 {
    Rng::new(a ^ b.wrapping_mul(0x9E3779B97F4A7C15)).next()
}
fn run_seed(seed: u64, prop: &str, index: u64) -> u64 {
    mix(mix(seed, fingerprint(&prop)), index)
}
fn hash_seed(run_seed: u64) -> u64 {
    mix(run_seed, 7)
}

#[derive(Serialize, Deserialize, Clone)]
struct Replay {
    property: String,
    seed: u64,
    run: u64,
    hash_seed: u64,
    class: String,
    message: String,
    thorough: bool,
    /// Set when the violation kills or hangs the process instead of being
    /// reported by an oracle.
    #[serde(default)]
    process: Option<String>,
    /// The choices of the run, by step.
    choices: Vec<Vec<u32>>,
    /// What the choices mean: the schedule and fault trace.
    trace: Vec<String>,
}

#[derive(Serialize, Deserialize, Default)]
struct Report {
    runs: u64,
    /// Seconds and number of the longest run.
    longest: (f64, u64),
    stats: BTreeMap<String, BTreeMap<String, u64>>,
    steps: u64,
    states: Vec<u64>,
    nontrivial: u64,
    run_prints: Vec<u64>,
    samples: Vec<String>,
    failure: Option<Failure>,
    digest: u64,
}
#[derive(Serialize, Deserialize, Clone)]
struct Failure {
    run: u64,
    class: String,
    message: String,
    choices: Vec<Vec<u32>>,
}

fn root() -> PathBuf {
    std::env::var("SIM_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf())
}

pub fn main() -> i32 {
    install_panic_hook();
    crate::coop::install();
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let find = |id: &str| checks::ALL.iter().find(|c| c.id == id);
    match (args.get(1).map(|s| s.as_str()), args.get(2)) {
        (Some("check"), Some(id)) => match find(id) {
            Some(c) => check(c, seed, thorough),
            None => usage(),
        },
        (Some("worker"), Some(id)) => worker(find(id).unwrap(), seed, thorough, &args[3..]),
        (Some("one"), Some(id)) => one(find(id).unwrap(), seed, thorough, args[3].parse().unwrap(), args.get(4).and_then(|x| x.parse().ok())),
        (Some("replay"), Some(file)) => replay(Path::new(file)),
        (Some("list"), _) => {
            for c in checks::ALL {
                println!("{}\t{}\t{}", c.id, c.about, c.assumes.join("; "));
            }
            0
        }
        _ => usage(),
    }
}
fn usage() -> i32 {
    eprintln!("usage: sim check <id> | sim replay <file> | sim one <id> <run> | sim list");
    2
}

fn one_run(c: &CheckDef, seed: u64, thorough: bool, run: u64, trace: bool, max_steps: Option<usize>) -> RunResult {
    let rs = run_seed(seed, c.id, run);
    execute_limited(c.f, Src::generate(rs), hash_seed(rs), trace, thorough, max_steps)
}

/// Runs one simulation in this process; a helper for crashes and debugging.
fn one(c: &CheckDef, seed: u64, thorough: bool, run: u64, max_steps: Option<usize>) -> i32 {
    watchdog(Arc::new(Mutex::new((run, Instant::now()))));
    let r = one_run(c, seed, thorough, run, true, max_steps);
    if std::env::var("SIM_QUIET").is_err() {
        for t in &r.trace {
            println!("{t}");
        }
        println!("steps: {}", r.stats.steps);
    }
    match r.violation {
        Some((class, msg)) => {
            println!("violation [{class}]: {msg}");
            1
        }
        None => 0,
    }
}

fn worker(c: &CheckDef, seed: u64, thorough: bool, args: &[String]) -> i32 {
    let (start, stride, total): (u64, u64, u64) = (args[0].parse().unwrap(), args[1].parse().unwrap(), args[2].parse().unwrap());
    let deadline = Instant::now() + Duration::from_secs_f64(args[3].parse().unwrap());
    let progress = args[4].clone();
    let began = Arc::new(Mutex::new((0u64, Instant::now())));
    watchdog(began.clone());
    let mut file = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(&progress).unwrap();
    let mut rep = Report::default();
    let mut all = Stats::default();
    let mut states: HashSet<u64> = HashSet::new();
    let mut prints: HashSet<u64> = HashSet::new();
    let mut i = start;
    while i < total && Instant::now() < deadline {
        let run_start = Instant::now();
        *began.lock().unwrap() = (i, run_start);
        use std::io::Seek;
        file.rewind().unwrap();
        write!(file, "{i:020}").unwrap();
        let sample = rep.samples.is_empty() && i >= 3;
        let r = one_run(c, seed, thorough, i, sample, None);
        rep.runs += 1;
        let took = run_start.elapsed().as_secs_f64();
        if took > rep.longest.0 {
            rep.longest = (took, i);
        }
        rep.digest = rep.digest.wrapping_add(fingerprint(&(i, &r.steps, r.stats.steps, sorted_ops(&r.stats))));
        let kinds = r.stats.ops.len();
        if r.stats.steps >= 3 && kinds >= 2 && prints.insert(fingerprint(&r.steps)) {
            rep.nontrivial += 1;
            if rep.run_prints.len() < 200_000 {
                rep.run_prints.push(fingerprint(&r.steps));
            }
        }
        if states.len() < 100_000 {
            states.extend(r.stats.states.iter());
        }
        all.merge(&Stats { states: HashSet::new(), ..r.stats });
        if sample {
            rep.samples.push(format!("run {i}: {}", r.trace.iter().take(60).cloned().collect::<Vec<_>>().join("; ")));
        }
        if let Some((class, message)) = r.violation {
            rep.failure = Some(Failure { run: i, class, message, choices: r.steps });
            break;
        }
        i += stride;
    }
    rep.steps = all.steps;
    rep.states = states.into_iter().collect();
    rep.stats = [("ops".to_string(), all.ops), ("faults".to_string(), all.faults), ("probes".to_string(), all.probes)].into();
    println!("{}", serde_json::to_string(&rep).unwrap());
    0
}
fn sorted_ops(s: &Stats) -> Vec<(String, u64)> {
    s.ops.iter().chain(&s.faults).chain(&s.probes).map(|(a, b)| (a.clone(), *b)).collect()
}

fn spawn_worker(c: &CheckDef, seed: u64, args: &[String]) -> std::io::Result<std::process::Child> {
    // Memory is limited so that a runaway allocation fails instead of taking
    // the machine down.
    let exe = std::env::current_exe()?;
    let mut cmd = Command::new("bash");
    cmd.arg("-c").arg("ulimit -v 6000000; ulimit -c 0; exec \"$0\" \"$@\"").arg(exe).args(args);
    cmd.env("VERIF_SEED", seed.to_string()).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let _ = c;
    cmd.spawn()
}

const STUCK: &str = "no progress: the run did not end within 40 s of processor time or 120 s";

enum Outcome {
    Ok,
    Violation,
    Died(String),
}
/// Executes one run in a process of its own.
fn isolated(c: &CheckDef, seed: u64, run: u64, max_steps: Option<usize>) -> Outcome {
    let mut args = vec!["one".to_string(), c.id.to_string(), run.to_string()];
    if let Some(m) = max_steps {
        args.push(m.to_string());
    }
    let Ok(mut child) = spawn_worker(c, seed, &args) else { return Outcome::Ok };
    let out = child.stdout.take();
    let err = child.stderr.take();
    let t = std::thread::spawn(move || {
        let mut s = vec![];
        if let Some(mut o) = out {
            let _ = std::io::Read::read_to_end(&mut o, &mut s);
        }
    });
    let t2 = std::thread::spawn(move || {
        let mut s = String::new();
        if let Some(mut o) = err {
            let _ = std::io::Read::read_to_string(&mut o, &mut s);
        }
        s
    });
    let start = Instant::now();
    let res = loop {
        match child.try_wait() {
            Ok(Some(st)) => {
                break match st.code() {
                    Some(0) => Outcome::Ok,
                    Some(1) => Outcome::Violation,
                    Some(97) => Outcome::Died(STUCK.to_string()),
                    _ => Outcome::Died(format!("the process died: {st}")),
                }
            }
            _ if start.elapsed() > RUN_LIMIT + Duration::from_secs(5) => {
                let _ = child.kill();
                let _ = child.wait();
                break Outcome::Died(STUCK.to_string());
            }
            _ => std::thread::sleep(Duration::from_millis(5)),
        }
    };
    let _ = t.join();
    let e = t2.join().unwrap_or_default();
    match res {
        Outcome::Died(s) => {
            let tail: String = e.lines().rev().take(3).collect::<Vec<_>>().join(" | ");
            Outcome::Died(if tail.is_empty() { s } else { format!("{s}: {tail}") })
        }
        r => r,
    }
}

fn replay_path(id: &str, seed: u64, run: u64) -> PathBuf {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    dir.join(format!("{id}-{seed}-{run}.json"))
}
fn write_replay(path: &Path, r: &Replay) {
    let _ = std::fs::write(path, serde_json::to_string_pretty(r).unwrap());
}

fn check(c: &CheckDef, seed: u64, thorough: bool) -> i32 {
    let start = Instant::now();
    let total = if thorough { c.thorough_runs } else { c.quick_runs };
    let total: u64 = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(total);
    let cap: f64 = std::env::var("SIM_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600.0 } else { 45.0 });
    let workers: u64 = std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(WORKERS);
    let tmp = std::env::temp_dir().join(format!("sim-{}-{}", c.id, std::process::id()));
    std::fs::create_dir_all(&tmp).expect("scratch directory");
    let reports: Arc<Mutex<Vec<(u64, Result<Report, (u64, String)>)>>> = Arc::default();
    let alive = Arc::new(AtomicU64::new(0));
    let mut handles = vec![];
    for w in 0..workers {
        let progress = tmp.join(format!("w{w}"));
        let args: Vec<String> = ["worker", c.id, &w.to_string(), &workers.to_string(), &total.to_string(), &cap.to_string(), progress.to_str().unwrap()].iter().map(|s| s.to_string()).collect();
        let mut child = spawn_worker(c, seed, &args).expect("spawn worker");
        alive.fetch_add(1, Ordering::SeqCst);
        let reports = reports.clone();
        handles.push(std::thread::spawn(move || {
            let stderr = child.stderr.take().unwrap();
            let t = std::thread::spawn(move || {
                let mut tail: Vec<String> = vec![];
                for l in BufReader::new(stderr).lines().map_while(Result::ok) {
                    tail.push(l);
                    if tail.len() > 5 {
                        tail.remove(0);
                    }
                }
                tail
            });
            let mut out = String::new();
            let _ = std::io::Read::read_to_string(child.stdout.as_mut().unwrap(), &mut out);
            let st = child.wait().expect("wait for worker");
            let tail = t.join().unwrap_or_default();
            let res = match (st.success(), serde_json::from_str::<Report>(&out)) {
                (true, Ok(r)) => Ok(r),
                _ => {
                    let run = std::fs::read_to_string(&progress).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(0);
                    Err((run, format!("{st}: {}", tail.join(" | "))))
                }
            };
            reports.lock().unwrap().push((w, res));
        }));
    }
    for h in handles {
        h.join().expect("worker thread");
    }
    let _ = std::fs::remove_dir_all(&tmp);
    let mut reports = std::mem::take(&mut *reports.lock().unwrap());
    reports.sort_by_key(|r| r.0);

    let mut stats: BTreeMap<String, BTreeMap<String, u64>> = BTreeMap::new();
    let (mut runs, mut steps, mut digest) = (0u64, 0u64, 0u64);
    let mut states: HashSet<u64> = HashSet::new();
    let mut prints: HashSet<u64> = HashSet::new();
    let mut nontrivial_in_workers = 0;
    let mut samples = vec![];
    let mut longest = (0.0, 0);
    let mut failures: Vec<Failure> = vec![];
    let mut deaths: Vec<(u64, String)> = vec![];
    for (_, r) in reports {
        match r {
            Ok(r) => {
                runs += r.runs;
                if r.longest.0 > longest.0 {
                    longest = r.longest;
                }
                steps += r.steps;
                digest = digest.wrapping_add(r.digest);
                states.extend(r.states);
                prints.extend(r.run_prints);
                nontrivial_in_workers += r.nontrivial;
                samples.extend(r.samples);
                failures.extend(r.failure);
                for (k, m) in r.stats {
                    let e = stats.entry(k).or_default();
                    for (a, b) in m {
                        *e.entry(a).or_default() += b;
                    }
                }
            }
            Err(d) => deaths.push(d),
        }
    }
    failures.sort_by_key(|f| f.run);
    let search_s = start.elapsed().as_secs_f64();
    let mut broken = None;
    let mut violations = 0;
    let known = known_findings(c.id);
    failures.retain(|f| match known.iter().find(|k| f.message.contains(k.1.as_str())) {
        Some(k) => {
            println!("KNOWN-FINDING: property={} {}", c.id, k.0);
            false
        }
        None => true,
    });

    // Violations reported by an oracle.
    if let Some(f) = failures.first() {
        let rs = run_seed(seed, c.id, f.run);
        let path = replay_path(c.id, seed, f.run);
        let mut rep = Replay {
            property: c.id.into(),
            seed,
            run: f.run,
            hash_seed: hash_seed(rs),
            class: f.class.clone(),
            message: f.message.clone(),
            thorough,
            process: None,
            choices: f.choices.clone(),
            trace: vec![],
        };
        write_replay(&path, &rep);
        violations = failures.len();
        println!("VIOLATION property={} replay={}", c.id, path.display());
        let _ = std::io::stdout().flush();
        let min = minimise(c.f, f.choices.clone(), rep.hash_seed, &f.class, Duration::from_secs(if thorough { 60 } else { 20 }), thorough);
        let r = execute(c.f, Src::replay(min.clone()), rep.hash_seed, true, thorough);
        if let Some((class, message)) = r.violation {
            rep.class = class;
            rep.message = message;
            rep.choices = min;
            rep.trace = r.trace;
            write_replay(&path, &rep);
        }
        println!("  seed {seed}, run {}: [{}] {}", f.run, rep.class, rep.message);
        for t in &rep.trace {
            println!("    {t}");
        }
    } else if !deaths.is_empty() {
        // A run killed or hung its process: confirm it in isolation.
        deaths.sort();
        for (run, what) in &deaths {
            match isolated(c, seed, *run, None) {
                Outcome::Died(msg) => {
                    let path = replay_path(c.id, seed, *run);
                    let mut lo = 0;
                    // The shortest prefix of steps that still fails.
                    let budget = Instant::now();
                    if !msg.starts_with("no progress") {
                        let mut hi = 400;
                        while hi - lo > 1 && budget.elapsed() < Duration::from_secs(60) {
                            let mid = (lo + hi) / 2;
                            match isolated(c, seed, *run, Some(mid)) {
                                Outcome::Died(_) => hi = mid,
                                _ => lo = mid,
                            }
                        }
                        lo = hi;
                    }
                    let rs = run_seed(seed, c.id, *run);
                    write_replay(
                        &path,
                        &Replay {
                            property: c.id.into(),
                            seed,
                            run: *run,
                            hash_seed: hash_seed(rs),
                            class: "process".into(),
                            message: msg.clone(),
                            thorough,
                            process: Some(if lo == 0 { "all".into() } else { lo.to_string() }),
                            choices: vec![],
                            trace: vec![format!("replayed by regenerating run {run} of seed {seed}")],
                        },
                    );
                    println!("VIOLATION property={} replay={}", c.id, path.display());
                    println!("  seed {seed}, run {run}: {msg}");
                    violations += 1;
                    break;
                }
                Outcome::Violation => {
                    broken = Some(format!("run {run} ended a worker ({what}) but reports an ordinary violation alone"));
                }
                Outcome::Ok => {
                    // Ended by a lack of memory or time: the run is judged by
                    // its second execution.
                    println!("note: a worker ended in run {run} ({what}), which succeeds alone");
                }
            }
        }
    }

    let hours = search_s / 3600.0;
    let evidence = serde_json::json!({
        "property": c.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": prints.len(),
            "rule": format!("One case is one simulated run, generated from its seed by the scheduler ({}). It counts as distinct and non-trivial when its sequence of choices differs from every other run and it performed at least 3 scheduled steps of at least 2 kinds of operations.", c.about),
            "samples": samples.iter().take(2).collect::<Vec<_>>(),
            "runs_per_hour": (runs as f64 / hours) as u64,
            "seeds_per_hour": (runs as f64 / hours) as u64,
            "base_seeds": 1,
            "simulated_time_steps": steps,
            "steps_per_hour": (steps as f64 / hours) as u64,
            "distinct_states": states.len(),
            "state_measure": "fingerprint of the reference model after a scheduled step (for scheduler checks: of the schedule), at most 4000 per run and 100000 per worker counted",
            "nontrivial_runs_per_worker_sum": nontrivial_in_workers,
            "operations": stats.get("ops"),
            "faults_injected": stats.get("faults"),
            "reached": stats.get("probes"),
            "digest": format!("{digest:016x}"),
            "components": { "real": c.real, "stub": c.stub },
            "workers": workers,
            "planned_runs": total,
            "longest_run_s": longest.0,
            "longest_run": longest.1,
        },
        "assumptions": c.assumes,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", c.id)), serde_json::to_string_pretty(&evidence).unwrap()) {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    println!("{}: {runs} runs, {steps} steps, {} distinct states, digest {digest:016x}, {:.1} s", c.id, states.len(), start.elapsed().as_secs_f64());
    if violations > 0 {
        return 1;
    }
    if let Some(b) = broken {
        eprintln!("check error: {b}");
        return 2;
    }
    if runs < total.min(20) {
        eprintln!("check error: only {runs} runs");
        return 2;
    }
    0
}

/// Findings listed for a property: (description, text that identifies it).
fn known_findings(id: &str) -> Vec<(String, String)> {
    let Ok(s) = std::fs::read_to_string(root().join("known_findings.txt")) else { return vec![] };
    s.lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter_map(|l| l.strip_prefix(&format!("property={id} ")).map(|s| s.to_string()))
        .filter_map(|l| l.split_once(" || ").map(|(a, b)| (a.to_string(), b.to_string())))
        .collect()
}

fn replay(path: &Path) -> i32 {
    let rep: Replay = match std::fs::read_to_string(path).map_err(|e| e.to_string()).and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("cannot read {}: {e}", path.display());
            return 2;
        }
    };
    let Some(c) = checks::ALL.iter().find(|c| c.id == rep.property) else { return 2 };
    if let Some(p) = &rep.process {
        return match isolated(c, rep.seed, rep.run, p.parse().ok()) {
            Outcome::Died(m) => {
                println!("VIOLATION property={} replay={}", rep.property, path.display());
                println!("  {m}");
                1
            }
            Outcome::Violation => 1,
            Outcome::Ok => {
                println!("no violation");
                0
            }
        };
    }
    let r = execute(c.f, Src::replay(rep.choices.clone()), rep.hash_seed, true, rep.thorough);
    for t in &r.trace {
        println!("{t}");
    }
    match r.violation {
        Some((class, msg)) => {
            println!("VIOLATION property={} replay={}", rep.property, path.display());
            println!("  [{class}] {msg}");
            if (&class, &msg) != (&rep.class, &rep.message) {
                println!("  (recorded: [{}] {})", rep.class, rep.message);
            }
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}
