//! The command line: seeded search over runs, evidence, replays.
use crate::client::{op_text, out_text};
use crate::oracle::{self, Viol};
use crate::plan::*;
use crate::raw;
use crate::result::*;
use crate::runner::{first_of, isolated, minimise, run_judged};
use crate::{gen, known};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;

pub struct Cfg {
    pub property: String,
    pub tier: String,
    pub seed: u64,
    pub runs: Option<u64>,
    pub seconds: Option<f64>,
    pub from: u64,
    pub workers: u64,
    pub shrink: f64,
    pub keep_going: bool,
}

#[derive(Serialize, Deserialize, Default, Clone)]
struct Sum {
    runs: u64,
    epochs: u64,
    started: u64,
    sim_ns: u64,
    steps: u64,
    max_steps: u64,
    max_epoch_wall: f64,
    switches: u64,
    hashes: Vec<u64>,
    nontrivial: Vec<u64>,
    outcomes: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    answers: BTreeMap<String, u64>,
    stats: Stats,
    undecided: u64,
    histories: u64,
    hist_answers: u64,
    recoveries: u64,
    saves_seen: u64,
    rechecked: u64,
    mismatched: u64,
    once: u64,
    harness: Vec<String>,
    notes: BTreeMap<String, u64>,
    note_first: BTreeMap<String, String>,
    samples: Vec<serde_json::Value>,
    found: Option<Found>,
    complete: bool,
}
impl Sum {
    fn add(&mut self, s: Sum) {
        self.hashes.extend(s.hashes);
        self.nontrivial.extend(s.nontrivial);
        self.runs += s.runs;
        self.epochs += s.epochs;
        self.started += s.started;
        self.sim_ns += s.sim_ns;
        self.steps += s.steps;
        self.max_steps = self.max_steps.max(s.max_steps);
        self.max_epoch_wall = self.max_epoch_wall.max(s.max_epoch_wall);
        self.switches += s.switches;
        self.undecided += s.undecided;
        self.histories += s.histories;
        self.hist_answers += s.hist_answers;
        self.recoveries += s.recoveries;
        self.saves_seen += s.saves_seen;
        self.rechecked += s.rechecked;
        self.mismatched += s.mismatched;
        self.once += s.once;
        for (m, x) in [(&mut self.outcomes, s.outcomes), (&mut self.faults, s.faults), (&mut self.answers, s.answers), (&mut self.notes, s.notes)] {
            for (k, v) in x {
                *m.entry(k).or_insert(0) += v;
            }
        }
        for (k, v) in s.note_first {
            self.note_first.entry(k).or_insert(v);
        }
        self.stats.add(&s.stats);
        for h in s.harness {
            if self.harness.len() < 5 {
                self.harness.push(h);
            }
        }
        if self.samples.len() < 3 {
            self.samples.extend(s.samples);
        }
    }
}
#[derive(Serialize, Deserialize, Clone)]
struct Found {
    run: u64,
    viol: Viol,
    replay: String,
    tried: u64,
    reproduced: bool,
}
#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    tag: String,
    detail: String,
    seed: u64,
    run: u64,
    hashes: Vec<u64>,
    outcomes: Vec<String>,
    plan: Plan,
    trace: Vec<String>,
}

fn op_kind(op: &Op) -> &'static str {
    match op {
        Op::AddDb { .. } => "add_db",
        Op::AddContent { .. } | Op::PutBody { .. } => "add_db_with_content",
        Op::RmDb { .. } => "rm_db",
        Op::ClearDb { .. } => "clear_db",
        Op::AddKv { .. } | Op::PutValueBody { .. } => "add_kv",
        Op::RmKv { .. } => "rm_kv",
        Op::GetVal { .. } => "get_value",
        Op::GetDb { .. } => "get_db",
        Op::Names => "get_all_db_names",
        Op::Health => "healthcheck",
        Op::Raw { .. } => "raw_request",
        Op::Junk { .. } => "junk_bytes",
        Op::Audit => "audit",
        Op::Mouse { .. } => "mouse",
        Op::Sleep { .. } | Op::Meet { .. } | Op::Probe => "sleep",
    }
}
fn outcome_kind(o: &Outcome) -> String {
    match o {
        Outcome::Exited(0) => "graceful exit".into(),
        Outcome::Exited(_) => "refused to start".into(),
        Outcome::Killed => "process kill".into(),
        Outcome::PowerLost => "power loss".into(),
        o => format!("{o:?}").split('(').next().unwrap_or("").to_string(),
    }
}

fn run_hash(res: &[EpochResult]) -> u64 {
    let mut h = 0u64;
    for r in res {
        h = (h.rotate_left(7) ^ r.hash).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= r.recs.len() as u64;
        for x in &r.recs {
            h = (h ^ x.inv ^ x.ret.map_or(1, |y| y.0 << 20)).wrapping_mul(0x0000_0100_0000_01B3);
        }
    }
    h
}

fn account(s: &mut Sum, p: &Plan, res: &[EpochResult], j: &oracle::Judgement) {
    s.runs += 1;
    let h = run_hash(res);
    let mut busy = false;
    s.hashes.push(h);
    for (e, r) in p.epochs.iter().zip(res) {
        s.epochs += 1;
        s.started += u64::from(r.started);
        s.sim_ns += r.now - r.start;
        s.steps += r.steps;
        s.max_steps = s.max_steps.max(r.steps);
        s.switches += r.switches;
        *s.outcomes.entry(outcome_kind(&r.outcome)).or_insert(0) += 1;
        for (f, &n) in e.faults.iter().zip(&r.fault_hits) {
            if n > 0 {
                *s.faults.entry(f.name()).or_insert(0) += n;
                busy = true;
            }
        }
        for d in &e.damage {
            let n = format!("damage_{}", format!("{d:?}").split(' ').next().unwrap_or("").to_lowercase());
            *s.faults.entry(n).or_insert(0) += 1;
        }
        match r.outcome {
            Outcome::Killed => *s.faults.entry("process_kill".into()).or_insert(0) += 1,
            Outcome::PowerLost => {
                *s.faults.entry("power_loss".into()).or_insert(0) += 1;
                for n in &r.power_notes {
                    let k: String = n.split(' ').next().unwrap_or("").chars().filter(|c| c.is_alphabetic()).collect();
                    if !k.is_empty() {
                        *s.faults.entry(format!("power_loss_{k}")).or_insert(0) += 1;
                    }
                }
            }
            _ => {}
        }
        busy |= r.stats.preemptions > 0 && e.clients.len() > 1;
        s.stats.add(&r.stats);
        s.saves_seen += r.views.len() as u64;
        for x in &r.recs {
            let o = match &x.out {
                Out::Resp(c, Body::Creation(t)) => format!("{c} {t}"),
                Out::Resp(c, _) => c.to_string(),
                Out::Lost(t) => format!("lost ({})", t.split([':', ' ']).next().unwrap_or("")),
                Out::OneOf(_) => "done or nothing there".into(),
                Out::Wrong(_) => "wrong".into(),
            };
            *s.answers.entry(format!("{} -> {o}", op_kind(&x.op))).or_insert(0) += 1;
        }
    }
    if busy || res.iter().any(|r| matches!(r.outcome, Outcome::Killed | Outcome::PowerLost)) || p.epochs.iter().any(|e| !e.damage.is_empty()) || res.len() > 1 {
        s.nontrivial.push(h);
    }
    s.undecided += j.undecided;
    s.histories += j.histories;
    s.hist_answers += j.answers;
    s.recoveries += j.recoveries;
}

fn sample(p: &Plan, res: &[EpochResult]) -> serde_json::Value {
    let e: Vec<serde_json::Value> = p
        .epochs
        .iter()
        .zip(res)
        .map(|(e, r)| {
            let ops: Vec<String> = r
                .recs
                .iter()
                .filter(|x| x.client != crate::client::AUDITOR)
                .take(10)
                .map(|x| format!("{} -> {}", op_text(&x.op), out_text(&x.out)).chars().take(200).collect())
                .collect();
            serde_json::json!({
                "clients": e.clients.len(), "faults": e.faults.iter().map(Fault::name).collect::<Vec<_>>(),
                "end": format!("{:?}", e.end), "outcome": format!("{:?}", r.outcome), "steps": r.steps,
                "simulated_s": (r.now - r.start) as f64 / 1e9, "first_requests": ops,
            })
        })
        .collect();
    serde_json::json!({"run": p.run, "strategy": format!("{:?}", p.k.strategy), "epochs": e})
}

fn replay_file(property: &str, seed: u64, run: u64, plan: &Plan, v: &Viol) -> (String, bool) {
    isolated(|| replay_file_here(property, seed, run, plan, v)).unwrap_or_default()
}
fn replay_file_here(property: &str, seed: u64, run: u64, plan: &Plan, v: &Viol) -> (String, bool) {
    let (res, j) = run_judged(plan, true);
    let again = j.viols.iter().find(|x| x.tag == v.tag);
    let ok = again.is_some();
    let mut trace = vec![];
    for (i, r) in res.iter().enumerate() {
        trace.push(format!("=== epoch {i}: {:?}", r.outcome));
        let n = r.trace.len();
        trace.extend(r.trace.iter().skip(n.saturating_sub(3000)).cloned());
    }
    let rp = Replay {
        property: property.into(),
        tag: v.tag.clone(),
        detail: again.unwrap_or(v).detail.clone(),
        seed,
        run,
        hashes: res.iter().map(|r| r.hash).collect(),
        outcomes: res.iter().map(|r| format!("{:?}", r.outcome)).collect(),
        plan: plan.clone(),
        trace,
    };
    let dir = "evidence/replays";
    let _ = std::fs::create_dir_all(dir);
    let path = format!("{dir}/{property}-{}-{seed}-{run}.json", v.tag);
    let text = serde_json::to_string_pretty(&rp).expect("json");
    if let Err(e) = std::fs::write(&path, text) {
        eprintln!("simrun: {path}: {e}");
    }
    let full = std::fs::canonicalize(&path).map_or(path, |p| p.to_string_lossy().into_owned());
    (full, ok)
}

struct Shared(*mut u64);
impl Shared {
    fn new() -> Self {
        let p = unsafe { raw::sc6(libc::SYS_mmap, 0, 4096, 3, (libc::MAP_SHARED | libc::MAP_ANONYMOUS) as usize, usize::MAX, 0) };
        Shared(p as *mut u64)
    }
    fn at(&self, i: usize) -> &std::sync::atomic::AtomicU64 {
        unsafe { &*(self.0.add(i).cast()) }
    }
}

///what one run has to tell
#[derive(Serialize, Deserialize)]
struct RunOut {
    sum: Sum,
    viols: Vec<Viol>,
    hash: u64,
    plan: Option<Plan>,
}

fn one_run(c: &Cfg, run: u64, want_sample: bool) -> RunOut {
    let p = gen::make(&c.property, c.seed, run);
    let mut s = Sum::default();
    let t = raw::real_now();
    let (res, j) = run_judged(&p, false);
    s.max_epoch_wall = raw::real_now() - t;
    account(&mut s, &p, &res, &j);
    s.harness.extend(j.harness.iter().map(|h| format!("run {run}: {h}")));
    if want_sample && j.harness.is_empty() {
        s.samples.push(sample(&p, &res));
    }
    for v in &j.viols {
        if !oracle::concerns(&c.property, &v.tag) || c.keep_going {
            *s.notes.entry(v.tag.clone()).or_insert(0) += 1;
            s.note_first.entry(v.tag.clone()).or_insert_with(|| format!("run {run} epoch {}: {}", v.epoch, v.detail.chars().take(1500).collect::<String>()));
        }
    }
    let plan = (j.harness.is_empty() && first_of(&j, &c.property).is_some()).then(|| p.clone());
    RunOut { sum: s, viols: if j.harness.is_empty() { j.viols } else { vec![] }, hash: run_hash(&res), plan }
}

fn worker(c: &Cfg, w: u64, n: u64, runs: u64, end: f64, sh: &Shared) -> Sum {
    use std::sync::atomic::Ordering::SeqCst;
    unsafe { crate::map_shm() };
    let mut s = Sum::default();
    loop {
        let i = sh.at(1).fetch_add(1, SeqCst);
        if i >= runs || raw::real_now() > end || sh.at(0).load(SeqCst) != 0 {
            break;
        }
        let run = c.from + i;
        let want = s.samples.len() < 2 && (i / n) % 20 == 3;
        let Some(r) = isolated(|| one_run(c, run, want)) else {
            s.harness.push(format!("run {run}: no result"));
            continue;
        };
        s.add(r.sum);
        if i % 97 == 13 {
            s.rechecked += 1;
            if isolated(|| one_run(c, run, want)).is_none_or(|x| x.hash != r.hash) {
                s.mismatched += 1;
            }
        }
        if c.keep_going {
            continue;
        }
        if let (Some(v), Some(p)) = (r.viols.iter().find(|v| oracle::concerns(&c.property, &v.tag)), &r.plan) {
            // the same seed is the same execution: what does not come back was no execution of the code
            let comes_back = || {
                let x = isolated(|| one_run(c, run, false));
                x.is_some_and(|x| x.viols.iter().any(|v| oracle::concerns(&c.property, &v.tag)))
            };
            if !(0..4).any(|_| comes_back()) {
                s.once += 1;
                s.mismatched += 1;
                eprintln!("simrun: run {run} showed this once and never again: {}: {}", v.tag, v.detail.chars().take(300).collect::<String>());
                continue;
            }
            if sh.at(0).compare_exchange(0, 1 + w, SeqCst, SeqCst).is_err() {
                break;
            }
            let m = minimise(p, &v.tag, c.shrink);
            let (replay, reproduced) = replay_file(&c.property, c.seed, run, &m.plan, v);
            s.found = Some(Found { run, viol: v.clone(), replay, tried: m.tried, reproduced });
            break;
        }
    }
    s.complete = true;
    s
}

fn limits(c: &Cfg) -> (u64, f64) {
    let thorough = c.tier == "thorough";
    let (runs, secs) = if thorough { (2_000_000, 1500.0) } else { (QUICK_RUNS, 45.0) };
    (c.runs.unwrap_or(runs), c.seconds.unwrap_or(secs))
}
const QUICK_RUNS: u64 = 12_000;

fn known_list() -> Vec<(String, String, String)> {
    // known: property=P05 probe=name text
    let t = std::fs::read_to_string("known_findings.txt").unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (p, rest) = l.split_once(" probe=")?;
            let (n, text) = rest.split_once(' ')?;
            Some((p.to_string(), n.to_string(), text.to_string()))
        })
        .collect()
}

pub fn check(c: &Cfg) -> i32 {
    let t0 = raw::real_now();
    let (runs, secs) = limits(c);
    let n = if c.workers > 0 { c.workers } else { std::thread::available_parallelism().map_or(8, |x| x.get() as u64).min(16) };
    let sh = Shared::new();
    let end = t0 + secs;
    let mut kids = vec![];
    for w in 0..n {
        let mut fds = [0i32; 2];
        unsafe {
            libc::pipe(fds.as_mut_ptr());
            let pid = libc::fork();
            if pid == 0 {
                libc::close(fds[0]);
                let s = worker(c, w, n, runs, end, &sh);
                let mut b = vec![];
                let _ = ciborium::into_writer(&s, &mut b);
                let mut f = std::fs::File::from_raw_fd(fds[1]);
                let _ = f.write_all(&b);
                drop(f);
                libc::_exit(0);
            }
            libc::close(fds[1]);
            kids.push((pid, fds[0]));
        }
    }
    // one after the other and without threads, which the allocator is not made for: a worker waits until it is its turn
    let sums: Vec<Option<Sum>> = kids
        .iter()
        .map(|&(_, fd)| {
            let mut b = vec![];
            let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
            let _ = f.read_to_end(&mut b);
            ciborium::de::from_reader_with_recursion_limit::<Sum, _>(&b[..], 100_000).ok()
        })
        .collect();
    for (pid, _) in kids {
        unsafe {
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
        }
    }
    let mut all = Sum::default();
    let mut broken = vec![];
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut nontrivial: HashSet<u64> = HashSet::new();
    let mut found: Vec<Found> = vec![];
    for (w, s) in sums.into_iter().enumerate() {
        let Some(s) = s else {
            broken.push(format!("worker {w} ended without a result"));
            continue;
        };
        hashes.extend(&s.hashes);
        nontrivial.extend(&s.nontrivial);
        broken.extend(s.harness.iter().cloned());
        found.extend(s.found.clone());
        all.add(Sum { hashes: vec![], nontrivial: vec![], ..s });
    }
    all.samples.truncate(3);
    let wall = raw::real_now() - t0;

    // the listed findings
    unsafe { crate::map_shm() };
    let list = known_list();
    let mut lines = vec![];
    for p in known::probes().into_iter().filter(|p| p.property == c.property) {
        let Some(j) = isolated(|| run_judged(&p.plan, false).1) else {
            broken.push(format!("probe {}: no result", p.name));
            continue;
        };
        broken.extend(j.harness.clone());
        let shows = j.viols.iter().find(|v| p.tags.contains(&v.tag.as_str()));
        let listed = list.iter().find(|l| l.0 == p.property && l.1 == p.name);
        match (shows, listed) {
            (Some(_), Some(l)) => lines.push(format!("KNOWN-FINDING: property={} {}", c.property, l.2)),
            (None, Some(_)) => println!("note: the finding {} does not show any more", p.name),
            (Some(v), None) => {
                let (replay, reproduced) = replay_file(&c.property, c.seed, 0, &p.plan, v);
                found.push(Found { run: 0, viol: v.clone(), replay, tried: 0, reproduced });
            }
            (None, None) => {}
        }
        for v in j.viols.iter().filter(|v| !p.tags.contains(&v.tag.as_str()) && oracle::concerns(&c.property, &v.tag)) {
            let (replay, reproduced) = replay_file(&c.property, c.seed, 0, &p.plan, v);
            found.push(Found { run: 0, viol: v.clone(), replay, tried: 0, reproduced });
        }
    }
    evidence(c, &all, hashes.len(), nontrivial.len(), found.len(), wall, n);
    for (k, v) in &all.notes {
        println!("note: {v} x {k}: {}", all.note_first[k]);
    }
    println!(
        "{}: {} runs ({} lives of the daemon, {:.0} simulated hours, {} distinct interleavings) in {wall:.1} s; {} histories, {} recoveries checked, {} undecided; longest {} steps, {:.1} s",
        c.property,
        all.runs,
        all.epochs,
        all.sim_ns as f64 / 3.6e12,
        hashes.len(),
        all.histories,
        all.recoveries,
        all.undecided,
        all.max_steps,
        all.max_epoch_wall
    );
    if all.mismatched > 0 {
        println!("note: {} of {} runs were not repeated exactly", all.mismatched, all.rechecked);
    }
    for l in lines {
        println!("{l}");
    }
    if let Some(f) = found.first() {
        println!("run {} epoch {}: {}: {}", f.run, f.viol.epoch, f.viol.tag, f.viol.detail);
        println!("minimised with {} runs; the replay file {}", f.tried, if f.reproduced { "reproduces it" } else { "DOES NOT reproduce it" });
        println!("VIOLATION property={} replay={}", c.property, f.replay);
        return 1;
    }
    if !broken.is_empty() {
        for b in broken.iter().take(10) {
            eprintln!("simrun: {b}");
        }
        return 3;
    }
    if all.runs == 0 {
        eprintln!("simrun: nothing was run");
        return 3;
    }
    0
}

const REAL: [&str; 11] = [
    "sourisd: the whole daemon (main, routes, state, saver, shutdown), unmodified but for the entry point",
    "sourisdb: stores, values, serialisation, compression, and both clients",
    "tokio (multi-threaded runtime, timers, signal handling, blocking pool, fs)",
    "mio, socket2, signal-hook-registry",
    "axum, hyper, tower-http, http parsing",
    "moka cache, crossbeam, parking_lot",
    "reqwest and hyper-util (async client)",
    "ureq (sync client)",
    "mouse: the whole command line client with dialoguer, console, clap and comfy-table",
    "tracing-subscriber, color-eyre",
    "std (threads, mutexes, channels, files, sockets) down to the libc calls",
];
const STUB: [&str; 7] = [
    "the kernel's scheduler, futexes and threads (one baton, decided by the seed)",
    "clocks and timers (simulated time)",
    "TCP, epoll, eventfd, pipes (simulated network with latency, fragmentation, stalls, resets)",
    "the file system (in memory, page cache and journal, power loss)",
    "getrandom and hash seeds (seeded)",
    "the terminal of the command line client, and who sits in front of it",
    "name resolution, environment, user id, number of cpus",
];

fn evidence(c: &Cfg, s: &Sum, distinct: usize, nontrivial: usize, violations: usize, wall: f64, workers: u64) {
    let hours = wall / 3600.0;
    let ev = serde_json::json!({
        "property": c.property,
        "tier": if c.tier == "thorough" { "thorough" } else { "quick" },
        "seed": c.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": s.runs,
            "distinct_nontrivial": nontrivial,
            "rule": "A case is one run: a plan (clients, requests, faults, crash points, restarts) and all scheduling decisions, both drawn from (VERIF_SEED, run number). Two runs are distinct if the hashes over their sequence of thread switches, file operations and request start and end points differ. A run is non-trivial if clients were preempted while others were active, a fault was hit, a crash happened, files were damaged, or the daemon was restarted.",
            "samples": s.samples,
            "exhaustive": false,
            "runs_per_hour": if hours > 0.0 { (s.runs as f64 / hours).round() } else { 0.0 },
            "seeds_per_hour": if hours > 0.0 { (s.runs as f64 / hours).round() } else { 0.0 },
            "workers": workers,
            "daemon_lives": s.epochs,
            "daemon_lives_that_served": s.started,
            "simulated_hours": s.sim_ns as f64 / 3.6e12,
            "scheduling_points": s.steps,
            "thread_switches": s.switches,
            "distinct_interleavings": distinct,
            "faults_injected": s.faults,
            "disk_errors_by_operation": s.stats.disk_errors,
            "other_events": {
                "preemptions": s.stats.preemptions, "preemptions_at_allocations": s.stats.alloc_points, "thread_stalls": s.stats.thread_stalls,
                "connections": s.stats.connections, "requests_abandoned": s.stats.aborts, "resets_by_clients": s.stats.resets_sent,
                "fragments": s.stats.fragments, "threads": s.stats.threads, "file_operations": s.stats.fs_ops, "saves": s.stats.saves,
                "allocations_refused": s.stats.allocs_refused, "peak_bytes": s.stats.peak_live,
            },
            "ends": s.outcomes,
            "requests_and_answers": s.answers,
            "histories_checked": s.histories,
            "answers_checked": s.hist_answers,
            "recovered_databases_checked": s.recoveries,
            "saved_versions_checked": s.saves_seen,
            "undecided_histories": s.undecided,
            "runs_repeated_to_check_determinism": s.rechecked,
            "runs_not_repeated_exactly": s.mismatched,
            "violations_that_never_came_back": s.once,
            "real_components": REAL,
            "stub_components": STUB,
        },
        "assumptions": [
            "every source of nondeterminism the daemon uses goes through the libc symbols which the simulator replaces; anything else is reported as unsupported and fails the check",
            "thread switches happen at system calls, lock operations and (sampled) allocations, not between arbitrary instructions; the memory model is sequentially consistent",
            "the simulated disk keeps exactly what was synced, and any journal-consistent subset of the rest",
            "sampling: what no run met is not covered"
        ],
        "wall_s": wall,
        "violations": violations,
    });
    let _ = std::fs::create_dir_all("evidence");
    let f = format!("evidence/{}.json", c.property);
    if let Err(e) = std::fs::write(&f, serde_json::to_string_pretty(&ev).expect("json")) {
        eprintln!("simrun: {f}: {e}");
    }
}

pub fn one(property: &str, seed: u64, run: u64, trace: bool, plan: bool) -> i32 {
    unsafe { crate::map_shm() };
    isolated(|| {
        let p = gen::make(property, seed, run);
        if plan {
            println!("{}", serde_json::to_string_pretty(&p).expect("json"));
        }
        let r = show(&p, trace);
        let _ = std::io::stdout().flush();
        r
    })
    .unwrap_or(3)
}

fn show(p: &Plan, trace: bool) -> i32 {
    let t = raw::real_now();
    let (res, j) = run_judged(p, trace);
    for (i, r) in res.iter().enumerate() {
        println!(
            "epoch {i}: {:?} started {} steps {} switches {} hash {:x} {:.3} s simulated; {} saves, peak {} KiB, hits {:?}",
            r.outcome,
            r.started,
            r.steps,
            r.switches,
            r.hash,
            (r.now - r.start) as f64 / 1e9,
            r.stats.saves,
            r.stats.peak_live >> 10,
            r.fault_hits
        );
        if trace {
            for l in &r.trace {
                println!("  {l}");
            }
            println!("{}", r.output);
        }
    }
    for h in &j.harness {
        println!("harness: {h}");
    }
    for v in &j.viols {
        println!("{} (epoch {}): {}", v.tag, v.epoch, v.detail);
    }
    println!("undecided {} histories {} recoveries {} in {:.3} s", j.undecided, j.histories, j.recoveries, raw::real_now() - t);
    i32::from(!j.viols.is_empty())
}

pub fn replay(file: &str, trace: bool) -> i32 {
    unsafe { crate::map_shm() };
    let t = std::fs::read_to_string(file).expect("replay file");
    let rp: Replay = crate::mval::from_json(t.as_bytes());
    let (res, j) = isolated(|| run_judged(&rp.plan, trace)).expect("a result");
    if trace {
        for (i, r) in res.iter().enumerate() {
            println!("=== epoch {i}: {:?}", r.outcome);
            for l in &r.trace {
                println!("{l}");
            }
        }
    }
    let hashes: Vec<u64> = res.iter().map(|r| r.hash).collect();
    println!("interleaving: {}", if hashes == rp.hashes { "exactly as recorded" } else { "different from the recorded one" });
    match j.viols.iter().find(|v| v.tag == rp.tag) {
        Some(v) => {
            println!("{}: {}", v.tag, v.detail);
            println!("VIOLATION property={} replay={file}", rp.property);
            1
        }
        None => {
            println!("not reproduced: {} ({:?})", rp.tag, j.viols.iter().map(|v| &v.tag).collect::<BTreeSet<_>>());
            for h in &j.harness {
                println!("harness: {h}");
            }
            i32::from(!j.harness.is_empty()) * 3
        }
    }
}

///the same plan gives the same execution
pub fn selftest(seed: u64, runs: u64) -> i32 {
    unsafe { crate::map_shm() };
    let mut bad = 0;
    for p in 1..=25 {
        let prop = format!("P{p:02}");
        for i in 0..runs {
            let go = || {
                isolated(|| {
                    let (r, j) = run_judged(&gen::make(&prop, seed, i), i % 4 != 0);
                    (run_hash(&r), r.iter().map(|x| x.trace.clone()).collect::<Vec<_>>(), j.viols)
                })
            };
            let (a, b) = (go(), go());
            if a.is_none() || a != b {
                println!("{prop} run {i} is not repeated exactly");
                if let (Some(a), Some(b)) = (&a, &b) {
                    for (e, (x, y)) in a.1.iter().zip(&b.1).enumerate() {
                        if let Some(l) = (0..x.len().max(y.len())).find(|&l| x.get(l) != y.get(l)) {
                            println!("  epoch {e} line {l} of {}: {:?} / {:?}", x.len(), x.get(l), y.get(l));
                            break;
                        }
                    }
                }
                bad += 1;
            }
        }
    }
    println!("{bad} differences");
    i32::from(bad > 0) * 3
}
