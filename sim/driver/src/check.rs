//! Runs the cases of a property on all cores, minimises the first violation,
//! writes the replay file and the evidence.

use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::case::{Case, Eval, Prop};
use crate::rng::{hash, mix, Rng};
use crate::run::{make_env, Env, Worker};
use crate::shm;
use crate::tree::Node;

#[derive(Default)]
struct Totals {
    evaluations: u64,
    nontrivial: u64,
    keys: HashSet<u64>,
    kinds: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    samples: Vec<(u64, Value)>,
    runs: u64,
    lib_runs: u64,
    steps: u64,
    sim_ns: u64,
    events: u64,
    switches: u64,
    cov: Vec<u8>,
    errors: Vec<String>,
}

pub fn case_of(p: &Prop, seed: u64, i: u64, thorough: bool) -> Case {
    let s = mix(mix(seed, hash(p.id.as_bytes())), i);
    let mut c = (p.gen)(&mut Rng::new(s), thorough);
    c.seed = s;
    c
}

pub fn workers() -> usize {
    std::env::var("VSIM_WORKERS")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4))
}

fn sample_of(c: &Case, e: &Eval) -> Value {
    let cmds: Vec<String> = c.cmds.iter().map(|m| format!("(cd {:?}; asciidocr {})", m.cwd, m.args.join(" "))).collect();
    let log = e.logs.last().map(|l| l.lines().take(12).collect::<Vec<_>>().join(" ; ")).unwrap_or_default();
    let p = serde_json::to_string(&c.p).unwrap_or_default();
    json!({
        "seed": c.seed,
        "files": c.tree.keys().collect::<Vec<_>>(),
        "commands": cmds,
        "steps": c.hist.iter().take(12).map(|h| h.to_string().chars().take(160).collect::<String>()).collect::<Vec<_>>(),
        "parameters": p.chars().take(400).collect::<String>(),
        "injected": e.fired.values().map(|f| f.0.len()).sum::<usize>(),
        "last_history_starts": log.chars().take(900).collect::<String>(),
    })
}

/// Evaluates; a panic of the harness itself counts as an error, not as a verdict
pub fn evaluate(p: &Prop, w: &mut Worker, c: &Case) -> Eval {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.eval)(w, c))) {
        Ok(e) => e,
        Err(x) => {
            let m = x
                .downcast_ref::<String>()
                .cloned()
                .or(x.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Eval { error: Some(format!("harness panicked: {m}")), ..Eval::default() }
        }
    }
}

pub fn check(home: &Path, p: &Prop) -> i32 {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let n = std::env::var("VSIM_CASES")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or(if thorough { p.cases.1 } else { p.cases.0 });
    let limit = Duration::from_secs(if thorough { 5400 } else { 240 });
    println!("vsim {} tier={tier} seed={seed} cases={n}", p.id);
    let start = Instant::now();
    let env = match make_env(home) {
        Ok(e) => e,
        Err(e) => {
            eprintln!("error: {e}");
            return 2;
        }
    };
    let r = check_in(home, p, &env, seed, &tier, n, limit, start);
    let _ = fs::remove_dir_all(&env.base);
    r
}

#[allow(clippy::too_many_arguments)]
fn check_in(home: &Path, p: &Prop, env: &Env, seed: u64, tier: &str, n: u64, limit: Duration, start: Instant) -> i32 {
    let thorough = tier == "thorough";
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let total = Mutex::new(Totals { cov: vec![0; shm::COVCAP], ..Totals::default() });
    let found: Mutex<BTreeMap<u64, Case>> = Mutex::new(BTreeMap::new());
    std::thread::scope(|s| {
        for k in 0..workers() {
            let (next, stop, total, found) = (&next, &stop, &total, &found);
            s.spawn(move || {
                let mut w = Worker::new(env, k);
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n || stop.load(Ordering::SeqCst) || start.elapsed() > limit {
                        break;
                    }
                    let c = case_of(p, seed, i, thorough);
                    let mut e = evaluate(p, &mut w, &c);
                    if e.error.is_some() {
                        // rule out a hiccup of the machine
                        e = evaluate(p, &mut w, &c);
                    }
                    let mut t = total.lock().unwrap();
                    t.evaluations += 1;
                    for (a, b) in &e.kinds {
                        *t.kinds.entry(a.clone()).or_default() += b;
                    }
                    for (a, b) in &e.probes {
                        *t.probes.entry(a.clone()).or_default() += b;
                    }
                    if e.nontrivial {
                        t.nontrivial += 1;
                        t.keys.insert(e.key);
                        if i < 40 || t.samples.is_empty() {
                            t.samples.push((i, sample_of(&c, &e)));
                        }
                    }
                    if let Some(x) = &e.error {
                        t.errors.push(format!("case {i}: {x}"));
                        if t.errors.len() > 20 {
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                    drop(t);
                    if e.violation.is_some() {
                        found.lock().unwrap().insert(i, c);
                        stop.store(true, Ordering::SeqCst);
                    }
                }
                let mut t = total.lock().unwrap();
                t.runs += w.runs;
                t.lib_runs += w.lib_runs;
                t.steps += w.steps;
                t.sim_ns += w.sim_ns;
                t.events += w.events;
                t.switches += w.switches;
                for (a, b) in t.cov.iter_mut().zip(w.coverage()) {
                    *a |= b;
                }
            });
        }
    });
    let found = found.into_inner().unwrap();
    let mut t = total.into_inner().unwrap();
    let search_s = start.elapsed().as_secs_f64();
    let mut verdict = 0;
    let mut violations = 0;
    let mut report = Value::Null;
    for (i, c) in &found {
        let mut w = Worker::new(env, 0);
        // the verdict has to repeat before it counts
        let e = evaluate(p, &mut w, c);
        let Some((class, _)) = e.violation.clone() else {
            t.errors.push(format!("case {i}: violation did not repeat"));
            continue;
        };
        violations += 1;
        let min = minimise(p, &mut w, c, &class);
        let e = evaluate(p, &mut w, &min);
        let (class, detail) = e.violation.clone().unwrap_or((class, "?".into()));
        let dir = home.join("replays");
        let _ = fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{:016x}.json", p.id, c.seed));
        let doc = json!({
            "class": class, "detail": detail, "case": min,
            "verif_seed": seed, "case_index": i,
            "histories": e.logs.iter().map(|l| format!("{:016x}", hash(l.as_bytes()))).collect::<Vec<_>>(),
        });
        fs::write(&path, serde_json::to_vec_pretty(&doc).unwrap()).expect("replay file");
        println!("{class}: {detail}");
        println!("seed={} case={i} faults={} replay with: sh sim/check.sh replay {}", c.seed,
            min.cfgs.iter().map(|c| c.explicit.as_ref().map(|x| x.len()).unwrap_or(0) + c.pf.len() + c.dmg.len()).sum::<usize>(),
            path.display());
        println!("VIOLATION property={} replay={}", p.id, path.display());
        report = json!({"class": class, "detail": detail, "replay": path});
        verdict = 1;
        break;
    }
    if verdict == 0 && !t.errors.is_empty() {
        for e in t.errors.iter().take(5) {
            eprintln!("error: {e}");
        }
        verdict = 2;
    }
    t.samples.sort_by_key(|s| s.0);
    let wall = start.elapsed().as_secs_f64();
    let sim_runs = t.runs + t.lib_runs;
    let evidence = json!({
        "property": p.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "wall_s": wall,
        "violations": violations,
        "coverage": {
            "evaluations": t.evaluations,
            "distinct_nontrivial": t.keys.len(),
            "rule": p.rule,
            "samples": t.samples.iter().take(4).map(|s| s.1.clone()).collect::<Vec<_>>(),
            "cases_planned": n,
            "nontrivial_with_repetitions": t.nontrivial,
            "simulated_runs": {"command_line": t.runs, "library": t.lib_runs},
            "simulated_runs_per_hour": (sim_runs as f64 / search_s * 3600.0).round(),
            "seeds_per_hour": (t.evaluations as f64 / search_s * 3600.0).round(),
            "simulated_steps": t.steps,
            "simulated_seconds": t.sim_ns as f64 * 1e-9,
            "io_events": t.events,
            "thread_switches": t.switches,
            "faults_fired": t.kinds,
            "probes": t.probes,
            "basic_blocks_reached": t.cov.iter().filter(|c| **c != 0).count(),
            "distinctness_measure": "hash of the complete event histories of the case's runs (operations, results, injected faults, thread switches)",
            "real_and_stubbed": p.real,
            "calls_not_simulated": not_simulated(&home),
            "report": report,
        },
        "assumptions": [
            "the libc boundary is the only way the process meets the outside world; calls_not_simulated lists the functions the program imports that could reach it past the simulator",
            "kernel file semantics below the shim are those of the sandbox's own file system"
        ],
    });
    let dir = home.join("evidence");
    let _ = fs::create_dir_all(&dir);
    fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_vec_pretty(&evidence).unwrap()).expect("evidence");
    println!(
        "{}: {} cases, {} distinct non-trivial, {} runs, {:.1}s{}",
        p.id,
        t.evaluations,
        t.keys.len(),
        sim_runs,
        wall,
        if verdict == 0 { ": held" } else { "" }
    );
    verdict
}

/// Removes chunks while the verdict stays
fn ddmin<T: Clone>(items: Vec<T>, budget: &mut u32, end: Instant, mut fails: impl FnMut(&[T]) -> bool) -> Vec<T> {
    let mut cur = items;
    let mut chunk = cur.len().div_ceil(2).max(1);
    while !cur.is_empty() {
        let mut i = 0;
        let mut removed = false;
        while i < cur.len() {
            if *budget == 0 || Instant::now() > end {
                return cur;
            }
            *budget -= 1;
            let j = (i + chunk).min(cur.len());
            let mut cand = cur[..i].to_vec();
            cand.extend_from_slice(&cur[j..]);
            if fails(&cand) {
                cur = cand;
                removed = true;
            } else {
                i = j;
            }
        }
        if chunk == 1 && !removed {
            break;
        }
        chunk = (chunk / 2).max(1);
    }
    cur
}

pub fn minimise(p: &Prop, w: &mut Worker, c: &Case, class: &str) -> Case {
    let end = Instant::now() + Duration::from_secs(40);
    let mut budget = 1500u32;
    let mut fails = |w: &mut Worker, c: &Case| -> Option<Eval> {
        let e = evaluate(p, w, c);
        match &e.violation {
            Some((k, _)) if k == class && e.error.is_none() => Some(e),
            _ => None,
        }
    };
    let mut cur = c.clone();
    if let Some(e) = fails(w, &cur) {
        let x = cur.explicit(&e);
        if fails(w, &x).is_some() {
            cur = x;
        }
    }
    // faults and thread switches
    for i in 0..cur.cfgs.len() {
        if let Some(list) = cur.cfgs[i].explicit.clone() {
            let base = cur.clone();
            let m = ddmin(list, &mut budget, end, |l| {
                let mut k = base.clone();
                k.cfgs[i].explicit = Some(l.to_vec());
                fails(w, &k).is_some()
            });
            cur.cfgs[i].explicit = Some(m);
        }
        if let Some(list) = cur.cfgs[i].sched.clone() {
            let base = cur.clone();
            let m = ddmin(list, &mut budget, end, |l| {
                let mut k = base.clone();
                k.cfgs[i].sched = Some(l.to_vec());
                fails(w, &k).is_some()
            });
            cur.cfgs[i].sched = Some(m);
        }
        let base = cur.clone();
        let m = ddmin(cur.cfgs[i].pf.clone(), &mut budget, end, |l| {
            let mut k = base.clone();
            k.cfgs[i].pf = l.to_vec();
            fails(w, &k).is_some()
        });
        cur.cfgs[i].pf = m;
        let base = cur.clone();
        let m = ddmin(cur.cfgs[i].dmg.clone(), &mut budget, end, |l| {
            let mut k = base.clone();
            k.cfgs[i].dmg = l.to_vec();
            fails(w, &k).is_some()
        });
        cur.cfgs[i].dmg = m;
    }
    let base = cur.clone();
    cur.hist = ddmin(cur.hist.clone(), &mut budget, end, |l| {
        let mut k = base.clone();
        k.hist = l.to_vec();
        fails(w, &k).is_some()
    });
    for i in 0..cur.hist.len() {
        for key in ["text", "data"] {
            let Some(text) = cur.hist[i][key].as_str().map(|t| t.to_string()) else { continue };
            let base = cur.clone();
            let with = |l: &[String]| {
                let mut k = base.clone();
                k.hist[i][key] = json!(l.concat());
                k
            };
            let lines: Vec<String> = text.split_inclusive('\n').map(|l| l.to_string()).collect();
            let m = ddmin(lines, &mut budget, end, |l| fails(w, &with(l)).is_some());
            let short = m.concat();
            let m = if short.len() > 400 {
                m
            } else {
                let chars = short.chars().map(|c| c.to_string()).collect();
                ddmin(chars, &mut budget, end, |l| fails(w, &with(l)).is_some())
            };
            cur = with(&m);
        }
    }
    if !p.shrink_files {
        return cur;
    }
    for i in 0..cur.cmds.len() {
        let Some(b) = cur.cmds[i].stdin.clone() else { continue };
        let Ok(text) = String::from_utf8(b.0) else { continue };
        let lines: Vec<String> = text.split_inclusive('\n').map(|l| l.to_string()).collect();
        let base = cur.clone();
        let with = |l: &[String]| {
            let mut k = base.clone();
            k.cmds[i].stdin = Some(l.concat().into());
            k
        };
        let m = ddmin(lines, &mut budget, end, |l| fails(w, &with(l)).is_some());
        cur = with(&m);
    }
    // files, then lines of files
    let names: Vec<String> = cur.tree.keys().cloned().collect();
    for name in names {
        if budget == 0 || Instant::now() > end {
            break;
        }
        budget -= 1;
        let mut k = cur.clone();
        k.tree.remove(&name);
        if fails(w, &k).is_some() {
            cur = k;
            continue;
        }
        let Some(Node::File(b)) = cur.tree.get(&name) else { continue };
        let Ok(text) = std::str::from_utf8(&b.0) else { continue };
        let old = text.to_string();
        let lines: Vec<String> = text.split_inclusive('\n').map(|l| l.to_string()).collect();
        let base = cur.clone();
        let with = |l: &[String]| {
            let mut k = base.clone();
            let new = l.concat();
            for m in &mut k.cmds {
                // the same document given on standard input
                if m.stdin.as_ref().map(|s| s.0.as_slice()) == Some(old.as_bytes()) {
                    m.stdin = Some(new.clone().into());
                }
            }
            k.tree.insert(name.clone(), Node::File(new.into()));
            k
        };
        let m = ddmin(lines, &mut budget, end, |l| fails(w, &with(l)).is_some());
        cur = with(&m);
    }
    cur
}

pub fn replay(home: &Path, props: &[Prop], path: &str) -> i32 {
    let doc: Value = match fs::read(path).map_err(|e| e.to_string()).and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string())) {
        Ok(d) => d,
        Err(e) => {
            eprintln!("error: {path}: {e}");
            return 2;
        }
    };
    let case: Case = match serde_json::from_value(doc["case"].clone()) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("error: {path}: {e}");
            return 2;
        }
    };
    let Some(p) = props.iter().find(|p| p.id == case.prop) else { return 2 };
    let env = match make_env(home) {
        Ok(e) => e,
        Err(e) => {
            eprintln!("error: {e}");
            return 2;
        }
    };
    let mut w = Worker::new(&env, 0);
    let e = evaluate(p, &mut w, &case);
    drop(w);
    let _ = fs::remove_dir_all(&env.base);
    if std::env::var("VSIM_LOG").is_ok() {
        for l in &e.logs {
            println!("--- history\n{l}");
        }
    }
    if let Some(x) = e.error {
        eprintln!("error: {x}");
        return 2;
    }
    let now: Vec<String> = e.logs.iter().map(|l| format!("{:016x}", hash(l.as_bytes()))).collect();
    let same = json!(now) == doc["histories"];
    match e.violation {
        Some((class, detail)) => {
            println!("{class}: {detail}");
            println!("histories {}", if same { "identical to the recorded ones" } else { "differ from the recorded ones" });
            println!("VIOLATION property={} replay={path}", p.id);
            1
        }
        None => {
            println!("{}: not reproduced", p.id);
            0
        }
    }
}

/// Executes many cases twice, in different workers, and compares the histories
fn first_difference(i: u64, k: usize, a: &[String], b: &[String]) {
    for (n, (x, y)) in a.iter().zip(b).enumerate() {
        let Some(at) = x.lines().zip(y.lines()).position(|(x, y)| x != y) else { continue };
        let from = at.saturating_sub(3);
        let cut = |s: &str| s.lines().skip(from).take(8).collect::<Vec<_>>().join("\n  ");
        eprintln!("case {i} repetition {k} run {n} line {at}\n  {}\nversus\n  {}", cut(x), cut(y));
        return;
    }
}

pub fn determinism(home: &Path, props: &[Prop], n: u64) -> i32 {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
    let env = match make_env(home) {
        Ok(e) => e,
        Err(e) => {
            eprintln!("error: {e}");
            return 2;
        }
    };
    let mut bad = 0;
    for p in props {
        let next = AtomicU64::new(0);
        let diffs = Mutex::new(vec![]);
        let sum = Mutex::new(0u64);
        std::thread::scope(|s| {
            for k in 0..workers() {
                let (next, diffs, env, sum) = (&next, &diffs, &env, &sum);
                s.spawn(move || {
                    let mut w = Worker::new(env, 2 * k);
                    let mut v = Worker::new(env, 2 * k + 1);
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n {
                            break;
                        }
                        let c = case_of(p, seed, i, false);
                        let a = evaluate(p, &mut w, &c);
                        let b = evaluate(p, &mut v, &c);
                        // and once more with the choices written out
                        let x = evaluate(p, &mut w, &c.explicit(&a));
                        let f = |e: &Eval| -> Vec<String> { e.logs.clone() };
                        if f(&a) != f(&b) || f(&a) != f(&x) {
                            diffs.lock().unwrap().push(i);
                            for (k, y) in [&b, &x].iter().enumerate() {
                                first_difference(i, k, &a.logs, &y.logs);
                            }
                        }
                        let h = a.logs.iter().fold(0, |h, l| mix(h, hash(l.as_bytes())));
                        *sum.lock().unwrap() ^= mix(h, i);
                    }
                });
            }
        });
        let mut d = diffs.into_inner().unwrap();
        d.sort();
        println!("{} cases={n} digest={:016x} differing={:?}", p.id, sum.into_inner().unwrap(), d);
        bad += d.len();
    }
    let _ = fs::remove_dir_all(&env.base);
    if bad > 0 {
        2
    } else {
        0
    }
}

pub fn home() -> PathBuf {
    std::env::var("VSIM_HOME").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

/// What the program imports that can touch the outside world and that the shim does not provide
fn not_simulated(home: &std::path::Path) -> Vec<String> {
    const WORLD: &[&str] = &[
        "accept", "accept4", "bind", "chown", "clone", "connect", "creat64", "daemon", "epoll_wait", "eventfd",
        "execv", "execve", "execvp", "faccessat2", "fallocate64", "fchdir", "fchmod", "fchmodat", "fchown", "fdopendir",
        "fopen", "fopen64", "fork", "fstatfs64", "fts_open", "futimens", "getaddrinfo", "gethostbyname", "getlogin",
        "getloadavg", "getpwuid_r", "getrusage", "getuid", "glob", "inotify_init", "ioctl", "kill", "lchown", "listen",
        "localtime_r", "mkfifo", "mkstemp", "mkstemp64", "mkdtemp", "mkdirat", "mknod", "mmap", "mmap64", "msync", "open_by_handle_at", "pipe",
        "pipe2", "poll", "popen", "posix_spawn", "posix_spawnp", "preadv64", "pwritev64", "readdir64_r", "readlinkat",
        "recv", "recvfrom", "renameat", "renameat2", "scandir", "select", "send", "sendto", "setenv", "socket", "socketpair",
        "statfs64", "symlinkat", "sysinfo", "system", "times", "tmpfile", "umask", "uname", "unsetenv", "utimensat", "vfork",
        "waitpid",
    ];
    let list = |f: &str| fs::read_to_string(home.join("target/vsim").join(f)).unwrap_or_default();
    let (imports, exports) = (list("imports"), list("exports"));
    let has = |l: &str, s: &str| l.lines().any(|x| x == s);
    WORLD.iter().filter(|s| has(&imports, s) && !has(&exports, s)).map(|s| s.to_string()).collect()
}
