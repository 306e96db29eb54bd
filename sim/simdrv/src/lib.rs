//! Runs simulations: one forked process per run, seeded search, minimisation,
//! replay files, evidence.
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::os::fd::RawFd;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;
use std::sync::atomic::{AtomicI32, Ordering};
use std::time::Instant;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    /// What is broken: stable across replays and minimisation.
    pub class: String,
    pub detail: String,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Outcome {
    pub violations: Vec<Violation>,
    /// Fingerprint of the whole execution.
    pub fp: u64,
    /// Hash of the observable history without times.
    pub shape: u64,
    pub sim_ns: u64,
    pub nontrivial: bool,
    pub stats: BTreeMap<String, u64>,
    pub trace: Vec<String>,
    /// The scenario kind of the plan.
    #[serde(default)]
    pub kind: String,
    /// The run could not be judged (a limit of the harness).
    pub inconclusive: Option<String>,
}
impl Outcome {
    pub fn fail(&mut self, class: impl Into<String>, detail: impl Into<String>) {
        if self.violations.len() < 20 {
            self.violations.push(Violation { class: class.into(), detail: detail.into() });
        }
    }
    pub fn stat(&mut self, k: &str, v: u64) {
        *self.stats.entry(k.to_string()).or_default() += v;
    }
}

pub struct Info {
    pub rule: String,
    pub level_note: String,
    pub assumptions: Vec<String>,
    pub real: Vec<String>,
    pub stub: Vec<String>,
}
pub struct Budget {
    pub runs: u64,
    pub secs: u64,
}

pub trait Suite {
    fn props(&self) -> Vec<&'static str>;
    fn budget(&self, prop: &str, thorough: bool) -> Budget;
    /// The plan of the `i`-th run; must be a function of its arguments.
    fn plan(&self, prop: &str, seed: u64, i: u64) -> Value;
    /// Executes a plan in a child process; ends with `finish`.
    fn exec(&self, plan: &Value, trace: bool) -> !;
    /// Simpler variants of a plan, besides removing elements of its arrays.
    fn simplify(&self, _plan: &Value) -> Vec<Value> {
        Vec::new()
    }
    fn info(&self, prop: &str) -> Info;
    /// CPU seconds a run may take.
    fn cpu_limit(&self) -> u64 {
        20
    }
}

static OUT_FD: AtomicI32 = AtomicI32::new(-1);
static KIND: OnceLock<String> = OnceLock::new();

/// What a child process executes. Generated plans are made in the child.
#[derive(Clone)]
pub enum Job {
    Plan(Value),
    Gen(String, u64, u64),
}
impl Job {
    pub fn plan(&self, s: &dyn Suite) -> Value {
        match self {
            Job::Plan(p) => p.clone(),
            Job::Gen(prop, seed, i) => s.plan(prop, *seed, *i),
        }
    }
    fn prop(&self) -> &str {
        match self {
            Job::Plan(p) => p["prop"].as_str().unwrap_or("?"),
            Job::Gen(prop, ..) => prop,
        }
    }
}

/// Reports the outcome of the run and ends the process.
pub fn finish(o: &Outcome) -> ! {
    let fd = OUT_FD.swap(-1, Ordering::SeqCst);
    if fd >= 0 {
        let mut o = o.clone();
        o.kind = KIND.get().cloned().unwrap_or_default();
        let b = serde_json::to_vec(&o).unwrap();
        let mut off = 0;
        while off < b.len() {
            let n = unsafe { libc::write(fd, b[off..].as_ptr().cast(), b.len() - off) };
            if n <= 0 {
                break;
            }
            off += n as usize;
        }
        unsafe { libc::_exit(0) }
    }
    // another thread is reporting
    loop {
        unsafe { libc::pause() };
    }
}

struct Child {
    pid: i32,
    fd: RawFd,
    idx: usize,
    buf: Vec<u8>,
    start: Instant,
}

fn spawn(s: &dyn Suite, job: &Job, trace: bool, idx: usize) -> Child {
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            OUT_FD.store(fds[1], Ordering::SeqCst);
            let lim = |r, v: u64, hard: u64| {
                let l = libc::rlimit { rlim_cur: v, rlim_max: hard };
                libc::setrlimit(r, &l);
            };
            lim(libc::RLIMIT_CPU, s.cpu_limit(), s.cpu_limit() + 5);
            lim(libc::RLIMIT_AS, 3 << 30, 3 << 30);
            lim(libc::RLIMIT_CORE, 0, 0);
            if std::env::var_os("SIM_STDERR").is_none() {
                let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                libc::dup2(n, 2);
            }
            let plan = job.plan(s);
            let _ = KIND.set(plan["kind"].as_str().unwrap_or("?").to_string());
            s.exec(&plan, trace)
        }
        libc::close(fds[1]);
        libc::fcntl(fds[0], libc::F_SETFL, libc::O_NONBLOCK);
        Child { pid, fd: fds[0], idx, buf: Vec::new(), start: Instant::now() }
    }
}

fn judge(s: &dyn Suite, k: &Child, status: i32, late: bool, job: &Job) -> Outcome {
    if let Ok(o) = serde_json::from_slice(&k.buf) {
        return o;
    }
    let prop = job.prop();
    let mut o = Outcome::default();
    if late {
        o.fail(format!("{prop}.stuck"), "the process stopped making progress outside the simulator's control");
    } else if libc::WIFSIGNALED(status) {
        match libc::WTERMSIG(status) {
            libc::SIGXCPU => o.fail(
                format!("{prop}.hang"),
                format!("one run used {} s of CPU: a broker task computes without end", s.cpu_limit()),
            ),
            libc::SIGKILL => o.inconclusive = Some("killed".into()),
            sig => o.fail(format!("{prop}.crash"), format!("the process died of signal {sig}")),
        }
    } else {
        o.fail(format!("{prop}.crash"), format!("the process ended with status {status:#x} without a result"));
    }
    o
}

/// Runs the plans of `next` in parallel; `done` gets every result, in order of
/// completion, and says whether to go on.
pub fn run_many(
    s: &dyn Suite,
    trace: bool,
    next: &mut dyn FnMut() -> Option<Job>,
    done: &mut dyn FnMut(usize, &Job, Outcome) -> bool,
) {
    let jobs = std::env::var("SIM_JOBS")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |x| x.get()));
    let mut kids: Vec<(Child, Job)> = Vec::new();
    let mut n = 0;
    let mut more = true;
    loop {
        while more && kids.len() < jobs {
            match next() {
                Some(p) => {
                    kids.push((spawn(s, &p, trace, n), p));
                    n += 1;
                }
                None => more = false,
            }
        }
        if kids.is_empty() {
            return;
        }
        let mut pf: Vec<libc::pollfd> =
            kids.iter().map(|k| libc::pollfd { fd: k.0.fd, events: libc::POLLIN, revents: 0 }).collect();
        unsafe { libc::poll(pf.as_mut_ptr(), pf.len() as u64, 1000) };
        let mut finished = Vec::new();
        for (i, (k, _)) in kids.iter_mut().enumerate() {
            let mut eof = false;
            if pf[i].revents != 0 {
                let mut b = [0u8; 65536];
                loop {
                    let r = unsafe { libc::read(k.fd, b.as_mut_ptr().cast(), b.len()) };
                    if r > 0 {
                        k.buf.extend_from_slice(&b[..r as usize]);
                    } else {
                        eof = r == 0;
                        break;
                    }
                }
            }
            let late = !eof && k.start.elapsed().as_secs() > s.cpu_limit() * 8;
            if late {
                unsafe { libc::kill(k.pid, libc::SIGKILL) };
            }
            if eof || late {
                finished.push((i, late));
            }
        }
        let mut stop = false;
        for (i, late) in finished.into_iter().rev() {
            let (k, plan) = kids.swap_remove(i);
            let st = reap(&k);
            if !stop {
                let o = judge(s, &k, st, late, &plan);
                stop = !done(k.idx, &plan, o);
            }
        }
        if stop {
            for (k, _) in &kids {
                unsafe { libc::kill(k.pid, libc::SIGKILL) };
            }
            for (k, _) in &kids {
                reap(k);
            }
            return;
        }
    }
}
fn reap(k: &Child) -> i32 {
    let mut st = 0;
    unsafe {
        libc::waitpid(k.pid, &mut st, 0);
        libc::close(k.fd);
    }
    st
}
fn run_all(s: &dyn Suite, plans: Vec<Value>, trace: bool) -> Vec<Outcome> {
    let mut res = vec![Outcome::default(); plans.len()];
    let mut it = plans.into_iter().map(Job::Plan);
    run_many(s, trace, &mut || it.next(), &mut |i, _, o| {
        res[i] = o;
        true
    });
    res
}

// ------------------------------------------------------------------ minimisation

/// Paths of all arrays of objects or arrays in a plan.
fn arrays(v: &Value, path: &mut Vec<String>, out: &mut Vec<(Vec<String>, usize)>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                path.push(k.clone());
                arrays(x, path, out);
                path.pop();
            }
        }
        Value::Array(a) => {
            if a.iter().all(|x| x.is_object() || x.is_array()) && !a.is_empty() {
                out.push((path.clone(), a.len()));
            }
            for (i, x) in a.iter().enumerate() {
                path.push(i.to_string());
                arrays(x, path, out);
                path.pop();
            }
        }
        _ => {}
    }
}
fn at<'a>(v: &'a mut Value, path: &[String]) -> &'a mut Value {
    let mut v = v;
    for p in path {
        v = match v {
            Value::Array(a) => &mut a[p.parse::<usize>().unwrap()],
            other => &mut other[p.as_str()],
        };
    }
    v
}
/// `min_`-prefixed keys hold arrays whose elements may not be removed.
fn removals(plan: &Value) -> Vec<Value> {
    let mut arrs = Vec::new();
    arrays(plan, &mut Vec::new(), &mut arrs);
    arrs.retain(|(p, _)| !p.iter().any(|k| k.starts_with("fix_")));
    let mut out = Vec::new();
    let mut sizes: BTreeSet<usize> = BTreeSet::new();
    for (_, n) in &arrs {
        let mut s = *n;
        while s >= 1 {
            sizes.insert(s);
            s /= 2;
        }
    }
    for size in sizes.into_iter().rev() {
        for (p, n) in &arrs {
            if size > *n {
                continue;
            }
            let mut i = 0;
            while i < *n {
                let mut v = plan.clone();
                let Value::Array(a) = at(&mut v, p) else { unreachable!() };
                a.drain(i..(i + size).min(*n));
                out.push(v);
                i += size;
            }
        }
    }
    out
}
fn has(o: &Outcome, class: &str) -> bool {
    o.violations.iter().any(|v| v.class == class)
}
pub fn minimise(s: &dyn Suite, plan: &Value, class: &str, secs: u64) -> (Value, u64) {
    let t0 = Instant::now();
    let mut cur = plan.clone();
    let mut tried = 0;
    let mut seen: BTreeSet<String> = BTreeSet::new();
    loop {
        let mut cands = s.simplify(&cur);
        cands.extend(removals(&cur));
        cands.retain(|c| !seen.contains(&c.to_string()));
        let mut it = cands.into_iter();
        let mut best: Option<Value> = None;
        run_many(
            s,
            false,
            &mut || {
                if t0.elapsed().as_secs() >= secs {
                    return None;
                }
                tried += 1;
                it.next().map(|c| {
                    seen.insert(c.to_string());
                    Job::Plan(c)
                })
            },
            &mut |_, p, o| {
                if has(&o, class) {
                    best = Some(p.plan(s));
                    return false;
                }
                true
            },
        );
        match best {
            Some(b) => cur = b,
            None => return (cur, tried),
        }
    }
}

// ------------------------------------------------------------------ known findings

/// Classes listed as known findings of the property.
fn known(root: &Path, prop: &str) -> Vec<(String, String)> {
    let Ok(t) = std::fs::read_to_string(root.join("known-findings.txt")) else { return Vec::new() };
    t.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: ")?;
            let (p, rest) = l.strip_prefix("property=")?.split_once(' ')?;
            let (c, what) = rest.strip_prefix("class=")?.split_once(' ')?;
            (p == prop).then(|| (c.to_string(), what.to_string()))
        })
        .collect()
}

// ------------------------------------------------------------------ command line

pub fn root() -> PathBuf {
    let p = std::env::var_os("VERIF_ROOT").map_or_else(|| PathBuf::from("/verif"), PathBuf::from);
    if p.join("properties.jsonl").exists() { p } else { std::env::current_dir().unwrap() }
}

/// `Suite` command line. Returns the exit code.
pub fn main(s: &dyn Suite) -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let num = |k: &str| opt(k).and_then(|x| x.parse::<u64>().ok());
    let seed = num("--seed").or_else(|| std::env::var("VERIF_SEED").ok()?.parse().ok()).unwrap_or(1);
    match args.first().map(|x| x.as_str()) {
        Some("check") => {
            let prop = args[1].clone();
            let tier = opt("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
            check(s, &prop, seed, tier == "thorough", num("--runs"), num("--secs"), opt("--part"))
        }
        Some("replay") => replay(s, &args[1]),
        Some("run") => {
            // run PROP I: one generated plan, with its trace
            let plan = s.plan(&args[1], seed, args[2].parse().unwrap());
            println!("{plan}");
            let o = run_all(s, vec![plan], true).remove(0);
            print_outcome(&o);
            0
        }
        Some("plan") => {
            let plan: Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).unwrap()).unwrap();
            let plan = if plan.get("plan").is_some() { plan["plan"].clone() } else { plan };
            let o = run_all(s, vec![plan], true).remove(0);
            print_outcome(&o);
            (!o.violations.is_empty()) as i32
        }
        Some("determinism") => determinism(s, seed, num("--runs").unwrap_or(20)),
        _ => {
            eprintln!("usage: check PROP | replay FILE | run PROP I | plan FILE | determinism");
            2
        }
    }
}
fn print_outcome(o: &Outcome) {
    for l in &o.trace {
        println!("{l}");
    }
    println!("fingerprint {:016x} shape {:016x} simulated {:.3} s nontrivial {}", o.fp, o.shape, o.sim_ns as f64 / 1e9, o.nontrivial);
    println!("stats {:?}", o.stats);
    if let Some(i) = &o.inconclusive {
        println!("inconclusive: {i}");
    }
    for v in &o.violations {
        println!("violation {}: {}", v.class, v.detail);
    }
}
fn determinism(s: &dyn Suite, seed: u64, runs: u64) -> i32 {
    let mut bad = 0;
    for prop in s.props() {
        let plans: Vec<Value> = (0..runs).map(|i| s.plan(prop, seed, i)).collect();
        let a = run_all(s, plans.clone(), false);
        let b = run_all(s, plans, false);
        let n = a.iter().zip(&b).filter(|(x, y)| x.fp != y.fp || x.violations != y.violations || x.shape != y.shape).count();
        let v = a.iter().filter(|x| !x.violations.is_empty()).count();
        let inc = a.iter().filter(|x| x.inconclusive.is_some()).count();
        println!("{prop}: {runs} runs twice, {n} differ, {v} with violations, {inc} inconclusive");
        bad += n;
    }
    (bad > 0) as i32
}
fn replay(s: &dyn Suite, file: &str) -> i32 {
    let r: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let o = run_all(s, vec![r["plan"].clone()], true).remove(0);
    print_outcome(&o);
    let class = r["class"].as_str().unwrap_or("");
    let same = format!("{:016x}", o.fp) == r["fingerprint"].as_str().unwrap_or("");
    println!("same execution as recorded: {same}");
    if has(&o, class) {
        println!("VIOLATION property={} replay={file}", r["property"].as_str().unwrap_or("?"));
        1
    } else {
        0
    }
}

#[derive(Default)]
struct Tally {
    runs: u64,
    nontrivial: u64,
    inconclusive: u64,
    fps: BTreeSet<u64>,
    shapes: BTreeSet<u64>,
    sim_ns: u64,
    stats: BTreeMap<String, u64>,
    kinds: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
}

#[allow(clippy::too_many_arguments)]
fn check(s: &dyn Suite, prop: &str, seed: u64, thorough: bool, runs: Option<u64>, secs: Option<u64>, part: Option<String>) -> i32 {
    let root = root();
    let b = s.budget(prop, thorough);
    let (max_runs, max_secs) = (runs.unwrap_or(b.runs), secs.unwrap_or(b.secs));
    let t0 = Instant::now();
    let known = known(&root, prop);
    let mut corpus: Vec<PathBuf> = std::fs::read_dir(root.join("corpus").join(prop))
        .map(|d| d.filter_map(|e| Some(e.ok()?.path())).filter(|p| p.extension().is_some_and(|e| e == "json")).collect())
        .unwrap_or_default();
    corpus.sort();
    let mut corpus: Vec<Value> = corpus
        .iter()
        .filter_map(|p| {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(p).ok()?).ok()?;
            let v = if v.get("plan").is_some() { v["plan"].clone() } else { v };
            (v["suite"].is_null() || v["suite"] == part.clone().unwrap_or_default()).then_some(v)
        })
        .collect();
    corpus.reverse();
    let ncorpus = corpus.len();
    let mut t = Tally::default();
    let mut found: Option<(Value, Violation)> = None;
    let mut samples: Vec<Value> = Vec::new();
    let mut again: Vec<(Value, u64)> = Vec::new();
    let mut i = 0;
    run_many(
        s,
        false,
        &mut || {
            if let Some(c) = corpus.pop() {
                return Some(Job::Plan(c));
            }
            if i >= max_runs || t0.elapsed().as_secs() >= max_secs {
                return None;
            }
            i += 1;
            Some(Job::Gen(prop.to_string(), seed, i - 1))
        },
        &mut |_, job, o| {
            t.runs += 1;
            t.nontrivial += o.nontrivial as u64;
            t.fps.insert(o.fp);
            if o.nontrivial {
                t.shapes.insert(o.shape);
            }
            t.sim_ns += o.sim_ns;
            *t.kinds.entry(o.kind.clone()).or_default() += 1;
            for (k, v) in &o.stats {
                *t.stats.entry(k.clone()).or_default() += v;
            }
            if let Some(w) = &o.inconclusive {
                t.inconclusive += 1;
                *t.stats.entry(format!("inconclusive: {w}")).or_default() += 1;
            }
            if samples.len() < 2 && o.nontrivial {
                let mut text = job.plan(s).to_string();
                text.truncate(1500);
                samples.push(json!({"plan": text, "fingerprint": format!("{:016x}", o.fp), "stats": o.stats}));
            }
            if again.len() < 8 && o.violations.is_empty() && o.fp != 0 {
                again.push((job.plan(s), o.fp));
            }
            for v in &o.violations {
                if known.iter().any(|k| k.0 == v.class) {
                    *t.known.entry(v.class.clone()).or_default() += 1;
                } else {
                    found = Some((job.plan(s), v.clone()));
                    return false;
                }
            }
            true
        },
    );
    let explored = t0.elapsed().as_secs_f64();
    let reps = run_all(s, again.iter().map(|x| x.0.clone()).collect(), false);
    let differ = reps.iter().zip(&again).filter(|(o, a)| o.fp != a.1).count();
    let mut code = 0;
    let mut nviol = 0;
    for (c, what) in &known {
        println!("KNOWN-FINDING: property={prop} {c} {what}");
    }
    if let Some((plan, v)) = found {
        nviol = 1;
        println!("found {}: {}", v.class, v.detail);
        let (min, tried) = minimise(s, &plan, &v.class, if thorough { 240 } else { 60 });
        let o = run_all(s, vec![min.clone()], true).remove(0);
        let (min, o) = if has(&o, &v.class) {
            (min, o)
        } else {
            let o = run_all(s, vec![plan.clone()], true).remove(0);
            (plan, o)
        };
        let dir = root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let file = dir.join(format!("{prop}-{}-{:08x}.json", v.class.rsplit('.').next().unwrap_or("x"), o.fp as u32));
        let rep = json!({
            "property": prop, "class": v.class, "detail": o.violations.iter().find(|x| x.class == v.class).map(|x| x.detail.clone()),
            "seed": seed, "fingerprint": format!("{:016x}", o.fp), "minimiser_runs": tried, "plan": min, "trace": o.trace,
        });
        let _ = std::fs::write(&file, serde_json::to_string_pretty(&rep).unwrap());
        for l in o.trace.iter().rev().take(40).rev() {
            println!("  {l}");
        }
        for x in &o.violations {
            println!("  {}: {}", x.class, x.detail);
        }
        println!("VIOLATION property={prop} replay={}", file.display());
        code = 1;
    }
    let info = s.info(prop);
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.shapes.len(),
            "rule": info.rule,
            "samples": samples,
            "runs": t.runs,
            "corpus_plans": ncorpus,
            "seeds_per_hour": (t.runs as f64 / explored.max(0.001) * 3600.0) as u64,
            "simulated_seconds": t.sim_ns as f64 / 1e9,
            "nontrivial_runs": t.nontrivial,
            "distinct_executions": t.fps.len(),
            "inconclusive_runs": t.inconclusive,
            "scenario_kinds": t.kinds,
            "events_and_faults": t.stats,
            "replayed_for_determinism": again.len(),
            "replayed_differently": differ,
            "known_findings_hit": t.known,
            "real_components": info.real,
            "stub_components": info.stub,
        },
        "assumptions": info.assumptions,
        "wall_s": wall,
        "violations": nviol,
    });
    let dir = root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let name = match &part {
        Some(p) => format!("{prop}.{p}.part"),
        None => format!("{prop}.json"),
    };
    std::fs::write(dir.join(name), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!(
        "{prop}: {} runs ({} distinct executions, {} distinct non-trivial histories), {:.0} s simulated, {:.1} s, {} inconclusive",
        t.runs,
        t.fps.len(),
        t.shapes.len(),
        t.sim_ns as f64 / 1e9,
        wall,
        t.inconclusive
    );
    if differ > 0 {
        println!("warning: {differ} of {} replays differed from the first execution", again.len());
    }
    code
}
