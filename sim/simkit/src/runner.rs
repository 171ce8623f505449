//! Runs a property's simulations: seeded plans, executed in forked workers, minimised when they fail.
use crate::rng::{Rng, combine, hash_bytes};
use crate::shrink;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    /// what kind of violation this is (minimisation preserves it)
    pub class: String,
    pub detail: String,
}
pub fn violation<T>(class: &str, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { class: class.to_string(), detail: detail.into() })
}

/// What one run reports besides its verdict
#[derive(Default, Clone, Debug, Serialize, Deserialize)]
pub struct Obs {
    pub counters: BTreeMap<String, u64>,
    /// hash of the history: equal plans must give equal histories
    pub history: u64,
    /// hash of what makes this run distinct (interleaving, fault placement, ...)
    pub fingerprint: u64,
    pub nontrivial: bool,
    pub steps: u64,
    pub trace: Vec<String>,
    #[serde(skip)]
    pub want_trace: bool,
}
impl Obs {
    pub fn count(&mut self, name: &str, n: u64) {
        if n > 0 {
            *self.counters.entry(name.to_string()).or_default() += n;
        }
    }
    pub fn hist(&mut self, v: u64) {
        self.history = combine(self.history, v);
    }
    pub fn hist_bytes(&mut self, b: &[u8]) {
        self.hist(hash_bytes(b));
    }
    pub fn print(&mut self, v: u64) {
        self.fingerprint = combine(self.fingerprint, v);
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_trace && self.trace.len() < 400 {
            self.trace.push(f());
        }
    }
}

pub struct Config {
    pub runs: u64,
    /// runs per worker process
    pub batch: u64,
    pub time_cap: Duration,
    pub cpu_limit_s: u64,
    pub workers: usize,
}

pub struct Meta {
    pub rule: &'static str,
    pub measure: &'static str,
    pub real: &'static [&'static str],
    pub stubs: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

pub trait Scenario {
    type Plan: Serialize + DeserializeOwned + Clone;
    fn property(&self) -> &str;
    fn meta(&self) -> Meta;
    fn config(&self, thorough: bool) -> Config;
    fn generate(&self, rng: &mut Rng, index: u64) -> Self::Plan;
    fn execute(&self, plan: &Self::Plan, obs: &mut Obs) -> Result<(), Violation>;
    /// called once in each worker process
    fn prepare_worker(&self, _worker: usize) {}
    /// extra coverage facts
    fn extra(&self) -> Value {
        json!({})
    }
}

#[repr(C)]
struct Slot {
    run: u64,
    started: u64,
}

#[derive(Serialize, Deserialize, Default)]
struct BatchReport {
    runs: u64,
    nontrivial: u64,
    steps: u64,
    /// (steps, number) of the largest run, (milliseconds, number) of the slowest
    most: (u64, u64),
    slowest: (u64, u64),
    counters: BTreeMap<String, u64>,
    prints: Vec<(u64, u64)>,
    histories: Vec<(u64, u64)>,
    violation: Option<(u64, Violation, Vec<String>)>,
}

struct Child {
    pid: i32,
    fd: i32,
    buf: Vec<u8>,
    from: u64,
    to: u64,
    started: Instant,
    slot: usize,
}

fn shared<T>() -> *mut T {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<T>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        p as *mut T
    }
}

fn set_cpu_limit(extra: u64) {
    unsafe {
        let mut ru: libc::rusage = std::mem::zeroed();
        libc::getrusage(libc::RUSAGE_SELF, &mut ru);
        let used = (ru.ru_utime.tv_sec + ru.ru_stime.tv_sec) as u64;
        let mut rl: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_CPU, &mut rl);
        rl.rlim_cur = used + extra + 1;
        libc::setrlimit(libc::RLIMIT_CPU, &rl);
    }
}

/// Forks a process that executes `plans` one after the other
fn fork_batch<S: Scenario>(s: &S, slot: *mut Slot, slot_no: usize, plans: &mut dyn Iterator<Item = (u64, S::Plan)>, err_path: &str, cpu: u64, want_trace: bool) -> (i32, i32) {
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC), 0);
        (*slot).run = u64::MAX;
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid > 0 {
            libc::close(fds[1]);
            return (pid, fds[0]);
        }
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        libc::setpgid(0, 0);
        libc::close(fds[0]);
        let c = std::ffi::CString::new(err_path).unwrap();
        let e = libc::open(c.as_ptr(), libc::O_CREAT | libc::O_TRUNC | libc::O_WRONLY | libc::O_APPEND, 0o600);
        if e >= 0 {
            libc::dup2(e, 2);
            libc::close(e);
        }
        let rl = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &rl);
        let rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &rl);
        s.prepare_worker(slot_no);
        let mut rep = BatchReport::default();
        for (run, plan) in plans {
            (*slot).run = run;
            set_cpu_limit(cpu);
            let dump = dump_run() == Some(run);
            let mut obs = Obs { want_trace: want_trace || dump, ..Obs::default() };
            let began = Instant::now();
            let res = s.execute(&plan, &mut obs);
            rep.most = rep.most.max((obs.steps, run));
            rep.slowest = rep.slowest.max((began.elapsed().as_millis() as u64, run));
            if dump {
                let mut k = 0;
                while std::path::Path::new(&format!("/tmp/dump-{run}-{k}")).exists() {
                    k += 1;
                }
                let _ = std::fs::write(format!("/tmp/dump-{run}-{k}"), obs.trace.join("\n"));
            }
            rep.runs += 1;
            rep.nontrivial += obs.nontrivial as u64;
            rep.steps += obs.steps;
            for (k, v) in obs.counters {
                *rep.counters.entry(k).or_default() += v;
            }
            if obs.nontrivial {
                rep.prints.push((run, obs.fingerprint));
            }
            rep.histories.push((run, obs.history));
            if let Err(v) = res {
                if v.class == "harness" {
                    eprintln!("harness error in run {run}: {}", v.detail);
                    libc::_exit(98);
                }
                rep.violation = Some((run, v, obs.trace));
                break;
            }
            if want_trace {
                rep.violation = None;
            }
        }
        let text = serde_json::to_vec(&rep).unwrap();
        let mut f = std::fs::File::from_raw_fd(fds[1]);
        let _ = f.write_all(&text);
        drop(f);
        libc::_exit(0);
    }
}

/// debugging aid: SIM_DUMP=run writes that run's trace to /tmp whenever it is executed
fn dump_run() -> Option<u64> {
    std::env::var("SIM_DUMP").ok()?.parse().ok()
}

fn tail_of(path: &str) -> String {
    let text = std::fs::read(path).unwrap_or_default();
    let from = text.len().saturating_sub(1500);
    String::from_utf8_lossy(&text[from..]).into_owned()
}

fn death(status: i32, err_path: &str) -> Result<Violation, String> {
    let tail = tail_of(err_path);
    if libc::WIFSIGNALED(status) {
        let sig = libc::WTERMSIG(status);
        let class = match sig {
            libc::SIGXCPU => "hang".to_string(),
            libc::SIGKILL => "killed".to_string(),
            n => format!("crash:signal{n}"),
        };
        if class == "killed" {
            return Err(format!("a worker was killed: {tail}"));
        }
        return Ok(Violation { class: class.clone(), detail: format!("the process ended by {class}: {tail}") });
    }
    match libc::WEXITSTATUS(status) {
        96 => Ok(Violation { class: "deadlock".into(), detail: format!("every thread is blocked: {tail}") }),
        97 => Ok(Violation { class: "endless".into(), detail: format!("step budget exceeded: {tail}") }),
        98 => Err(tail),
        n => Ok(Violation { class: format!("exit:{n}"), detail: format!("the process ended with status {n}: {tail}") }),
    }
}

pub struct Options {
    pub seed: u64,
    pub thorough: bool,
    pub root: String,
    pub scratch: String,
    pub runs: Option<u64>,
    pub secs: Option<u64>,
    pub workers: Option<usize>,
    pub no_evidence: bool,
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub run: u64,
    pub violation: Violation,
    pub minimised_from: Value,
    /// executed in this order in one process; the last one fails
    pub plans: Vec<Value>,
    pub trace: Vec<String>,
    pub history: String,
    pub how_to_replay: String,
}

struct ExecResult {
    violation: Option<Violation>,
    trace: Vec<String>,
    history: u64,
}

/// Executes the plans in one fresh process
fn exec_plans<S: Scenario>(s: &S, plans: &[Value], opt: &Options, cpu: u64, trace: bool) -> Result<Option<ExecResult>, String> {
    let mut typed = vec![];
    for p in plans {
        match serde_json::from_value::<S::Plan>(p.clone()) {
            Ok(p) => typed.push(p),
            Err(_) => return Ok(None),
        }
    }
    let slot = shared::<Slot>();
    let err = format!("{}/exec.err", opt.scratch);
    let n = typed.len() as u64;
    let (pid, fd) = fork_batch(s, slot, 99, &mut typed.into_iter().enumerate().map(|(i, p)| (i as u64, p)), &err, cpu, trace);
    let mut buf = vec![];
    unsafe {
        let start = Instant::now();
        let mut f = std::fs::File::from_raw_fd(fd);
        let mut status = 0;
        // the report is small: wait for the end (with a limit) while draining the pipe
        let flags = libc::fcntl(fd, libc::F_GETFL);
        libc::fcntl(fd, libc::F_SETFL, flags | libc::O_NONBLOCK);
        let mut chunk = [0u8; 65536];
        let mut timed_out = false;
        loop {
            let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
            libc::poll(&mut p, 1, 200);
            match f.read(&mut chunk) {
                Ok(0) => break,
                Ok(k) => buf.extend_from_slice(&chunk[..k]),
                Err(_) => (),
            }
            if start.elapsed() > Duration::from_secs(60) {
                timed_out = true;
                libc::kill(-pid, libc::SIGKILL);
                libc::kill(pid, libc::SIGKILL);
                break;
            }
        }
        libc::waitpid(pid, &mut status, 0);
        libc::kill(-pid, libc::SIGKILL);
        libc::munmap(slot as *mut libc::c_void, std::mem::size_of::<Slot>());
        if timed_out {
            return Ok(Some(ExecResult { violation: Some(Violation { class: "hang".into(), detail: "no end in sight".into() }), trace: vec![], history: 0 }));
        }
        if let Ok(rep) = serde_json::from_slice::<BatchReport>(&buf) {
            let history = rep.histories.last().map(|h| h.1).unwrap_or(0);
            let (violation, trace) = match rep.violation {
                Some((run, v, t)) if run + 1 == n => (Some(v), t),
                _ => (None, vec![]),
            };
            return Ok(Some(ExecResult { violation, trace, history }));
        }
        match death(status, &err) {
            Ok(v) => Ok(Some(ExecResult { violation: Some(v), trace: vec![], history: 0 })),
            Err(e) => Err(e),
        }
    }
}

fn minimise<S: Scenario>(s: &S, plans: Vec<Value>, class: &str, opt: &Options) -> (Vec<Value>, u32) {
    let start = Instant::now();
    let budget = Duration::from_secs(if opt.thorough { 120 } else { 30 });
    let cpu = 6;
    let fails = |p: &[Value]| matches!(exec_plans(s, p, opt, cpu, false), Ok(Some(ExecResult { violation: Some(v), .. })) if v.class == class);
    let mut plans = plans;
    let mut tried = 0;
    // earlier runs in the same process
    let last = plans.last().unwrap().clone();
    if plans.len() > 1 {
        tried += 1;
        if fails(std::slice::from_ref(&last)) {
            plans = vec![last];
        } else {
            let mut i = 0;
            while i + 1 < plans.len() && start.elapsed() < budget {
                let mut fewer = plans.clone();
                fewer.remove(i);
                tried += 1;
                if fails(&fewer) { plans = fewer } else { i += 1 }
            }
        }
    }
    let mut progress = true;
    while progress && start.elapsed() < budget {
        progress = false;
        let n = plans.len();
        let cands = shrink::candidates(&plans[n - 1]);
        for c in cands {
            if start.elapsed() >= budget {
                break;
            }
            let Some(c) = c.of(&plans[n - 1]) else { continue };
            let mut t = plans.clone();
            t[n - 1] = c;
            tried += 1;
            if fails(&t) {
                plans = t;
                progress = true;
                break;
            }
        }
    }
    (plans, tried)
}

pub fn replay<S: Scenario>(s: &S, file: &str, opt: &Options) -> i32 {
    let text = std::fs::read_to_string(file).expect("replay file");
    let r: Replay = serde_json::from_str(&text).expect("replay format");
    match exec_plans(s, &r.plans, opt, 20, true) {
        Ok(Some(e)) => {
            for t in &e.trace {
                println!("  {t}");
            }
            match e.violation {
                Some(v) => {
                    let same = v.class == r.violation.class;
                    println!("{}: {}", v.class, v.detail);
                    println!("history {:016x} (recorded {}), same violation class: {same}", e.history, r.history);
                    println!("VIOLATION property={} replay={file}", r.property);
                    1
                }
                None => {
                    println!("the plan does not violate {} on this tree", r.property);
                    0
                }
            }
        }
        Ok(None) => {
            println!("the replay file does not hold plans of this property");
            2
        }
        Err(e) => {
            println!("harness error: {e}");
            2
        }
    }
}

struct Total {
    runs: u64,
    nontrivial: u64,
    most: (u64, u64),
    slowest: (u64, u64),
    steps: u64,
    counters: BTreeMap<String, u64>,
    prints: HashSet<u64>,
    histories: BTreeMap<u64, u64>,
}

/// Runs a range of plans; returns totals and the violation with the lowest run number
fn explore<S: Scenario>(s: &S, opt: &Options, cfg: &Config, from: u64, total_runs: u64, keep_hist: u64, workers: usize) -> Result<(Total, Option<(u64, u64, Violation)>), String> {
    let start = Instant::now();
    let slots: Vec<*mut Slot> = (0..workers).map(|_| shared::<Slot>()).collect();
    let mut free: Vec<usize> = (0..workers).rev().collect();
    let mut children: Vec<Child> = vec![];
    let mut next = from;
    let end = from + total_runs;
    let mut total = Total { runs: 0, nontrivial: 0, most: (0, 0), slowest: (0, 0), steps: 0, counters: BTreeMap::new(), prints: HashSet::new(), histories: BTreeMap::new() };
    let mut found: Vec<(u64, u64, Violation)> = vec![];
    let property = s.property().to_string();
    loop {
        while found.is_empty() && next < end && !free.is_empty() && start.elapsed() < cfg.time_cap {
            let slot = free.pop().unwrap();
            let to = (next + cfg.batch).min(end);
            let seed = opt.seed;
            let prop = property.clone();
            let mut iter = (next..to).map(move |i| (i, s.generate(&mut Rng::for_run(seed, &prop, i), i)));
            let err = format!("{}/w{slot}.err", opt.scratch);
            let (pid, fd) = fork_batch(s, slots[slot], slot, &mut iter, &err, cfg.cpu_limit_s, false);
            children.push(Child { pid, fd, buf: vec![], from: next, to, started: Instant::now(), slot });
            next = to;
        }
        if children.is_empty() {
            break;
        }
        let mut pfds: Vec<libc::pollfd> = children.iter().map(|c| libc::pollfd { fd: c.fd, events: libc::POLLIN, revents: 0 }).collect();
        unsafe { libc::poll(pfds.as_mut_ptr(), pfds.len() as u64, 500) };
        let mut i = 0;
        while i < children.len() {
            let ready = pfds.get(i).map(|p| p.revents != 0).unwrap_or(false);
            let mut done = false;
            let mut hung = false;
            if ready {
                let mut chunk = [0u8; 65536];
                let k = unsafe { libc::read(children[i].fd, chunk.as_mut_ptr() as *mut libc::c_void, chunk.len()) };
                if k > 0 {
                    children[i].buf.extend_from_slice(&chunk[..k as usize]);
                } else {
                    done = true;
                }
            }
            if children[i].started.elapsed() > Duration::from_secs(120 + cfg.cpu_limit_s * 4) {
                unsafe {
                    libc::kill(-children[i].pid, libc::SIGKILL);
                    libc::kill(children[i].pid, libc::SIGKILL);
                }
                done = true;
                hung = true;
            }
            if done {
                let c = children.remove(i);
                pfds.remove(i);
                let mut status = 0;
                unsafe {
                    libc::close(c.fd);
                    libc::waitpid(c.pid, &mut status, 0);
                    libc::kill(-c.pid, libc::SIGKILL);
                }
                free.push(c.slot);
                match serde_json::from_slice::<BatchReport>(&c.buf) {
                    Ok(rep) if !hung => {
                        total.runs += rep.runs;
                        total.nontrivial += rep.nontrivial;
                        total.steps += rep.steps;
                        total.most = total.most.max(rep.most);
                        total.slowest = total.slowest.max(rep.slowest);
                        for (k, v) in rep.counters {
                            *total.counters.entry(k).or_default() += v;
                        }
                        total.prints.extend(rep.prints.iter().map(|p| p.1));
                        for (run, h) in rep.histories {
                            if run < from + keep_hist {
                                total.histories.insert(run, h);
                            }
                        }
                        if let Some((run, v, _)) = rep.violation {
                            found.push((c.from, run, v));
                        }
                    }
                    _ => {
                        let run = unsafe { (*slots[c.slot]).run };
                        let run = if run == u64::MAX { c.from } else { run };
                        let v = if hung {
                            Violation { class: "hang".into(), detail: "the run does not end".into() }
                        } else {
                            death(status, &format!("{}/w{}.err", opt.scratch, c.slot))?
                        };
                        total.runs += run.saturating_sub(c.from) + 1;
                        found.push((c.from, run, v));
                    }
                }
                let _ = c.to;
            } else {
                i += 1;
            }
        }
    }
    for p in slots {
        unsafe { libc::munmap(p as *mut libc::c_void, std::mem::size_of::<Slot>()) };
    }
    found.sort_by_key(|f| f.1);
    Ok((total, found.into_iter().next()))
}

fn plan_value<S: Scenario>(s: &S, seed: u64, i: u64) -> Value {
    serde_json::to_value(s.generate(&mut Rng::for_run(seed, s.property(), i), i)).unwrap()
}

fn clip(v: &Value) -> Value {
    match v {
        Value::String(s) if s.chars().count() > 400 => Value::String(s.chars().take(400).chain("...".chars()).collect()),
        Value::Array(a) => {
            let mut out: Vec<Value> = a.iter().take(30).map(clip).collect();
            if a.len() > 30 {
                out.push(json!(format!("... {} more", a.len() - 30)));
            }
            Value::Array(out)
        }
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), clip(v))).collect()),
        v => v.clone(),
    }
}

/// (signature, text) of the known findings of a property
fn known_findings(root: &str, property: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(format!("{root}/known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let rest = l.strip_prefix("known: property=")?;
            let (id, rest) = rest.split_once(' ')?;
            let rest = rest.strip_prefix("sig=")?;
            let (sig, text) = rest.split_once(' ')?;
            (id == property).then(|| (sig.to_string(), text.to_string()))
        })
        .collect()
}

pub fn check<S: Scenario>(s: &S, opt: &Options) -> i32 {
    let start = Instant::now();
    let mut cfg = s.config(opt.thorough);
    if let Some(r) = opt.runs {
        cfg.runs = r;
    }
    if let Some(t) = opt.secs {
        cfg.time_cap = Duration::from_secs(t);
    }
    if let Some(w) = opt.workers {
        cfg.workers = w;
    }
    println!("{}: seed {} tier {} runs {}", s.property(), opt.seed, if opt.thorough { "thorough" } else { "quick" }, cfg.runs);
    let known = known_findings(&opt.root, s.property());
    for (_, text) in &known {
        println!("KNOWN-FINDING: property={} {text}", s.property());
    }
    // determinism: some of the runs are repeated in other processes, grouped differently
    let again = cfg.runs.min(if opt.thorough { 400 } else { 24 });
    let (total, found) = match explore(s, opt, &cfg, 0, cfg.runs, again, cfg.workers) {
        Ok(x) => x,
        Err(e) => {
            eprintln!("harness error: {e}");
            return 2;
        }
    };
    let explored_s = start.elapsed().as_secs_f64();
    let mut code = 0;
    let mut violations = 0;
    let mut repeat = json!(null);
    let mut found = found;
    if found.is_none() && again > 0 {
        let c2 = Config { runs: again, batch: 1, time_cap: Duration::from_secs(if opt.thorough { 300 } else { 20 }), ..cfg };
        match explore(s, opt, &c2, 0, again, again, 3) {
            Ok((t2, f2)) => {
                let differ: Vec<u64> = t2.histories.iter().filter(|(k, v)| total.histories.get(k).is_some_and(|w| w != *v)).map(|(k, _)| *k).collect();
                repeat = json!({"runs_repeated_in_other_processes": t2.histories.len(), "histories_that_differed": differ.len()});
                if !differ.is_empty() {
                    eprintln!("warning: {} of {} repeated runs had a different history, e.g. run {}", differ.len(), t2.histories.len(), differ[0]);
                }
                if let Some(f) = f2 {
                    eprintln!("run {} passes after others but fails in a process of its own", f.1);
                    found = Some(f);
                }
            }
            Err(e) => {
                eprintln!("harness error: {e}");
                return 2;
            }
        }
    }
    if let Some((from, run, v)) = &found {
        println!("run {run}: {}: {}", v.class, v.detail);
        let plans: Vec<Value> = (*from..=*run).map(|i| plan_value(s, opt.seed, i)).collect();
        let original = plans.last().unwrap().clone();
        let (min, tried) = minimise(s, plans, &v.class, opt);
        let mut last = None;
        let mut reproduced = true;
        match exec_plans(s, &min, opt, 20, true) {
            Ok(Some(e)) if e.violation.is_some() => last = Some(e),
            _ => reproduced = false,
        }
        let (violation, trace, history) = match last {
            Some(e) => (e.violation.unwrap(), e.trace, e.history),
            None => (v.clone(), vec![], 0),
        };
        let path = format!("{}/replays/{}-seed{}-run{}.json", opt.root, s.property(), opt.seed, run);
        let _ = std::fs::create_dir_all(format!("{}/replays", opt.root));
        let r = Replay {
            property: s.property().to_string(),
            seed: opt.seed,
            run: *run,
            violation: violation.clone(),
            minimised_from: original,
            plans: min,
            trace,
            history: format!("{history:016x}"),
            how_to_replay: format!("./check.sh replay {path}"),
        };
        std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).unwrap();
        println!("minimised with {tried} further runs, reproduced in a fresh process: {reproduced}");
        println!("{}: {}", violation.class, violation.detail);
        println!("VIOLATION property={} replay={path}", s.property());
        violations = 1;
        code = 1;
    }
    let wall = start.elapsed().as_secs_f64();
    let meta = s.meta();
    let samples: Vec<Value> = (0..total.runs.min(3)).map(|i| clip(&plan_value(s, opt.seed, i * (total.runs / 3).max(1)))).collect();
    let faults: BTreeMap<String, u64> = total.counters.iter().filter(|(k, _)| k.starts_with("fault.")).map(|(k, v)| (k[6..].to_string(), *v)).collect();
    let probes: BTreeMap<String, u64> = total.counters.iter().filter(|(k, _)| !k.starts_with("fault.")).map(|(k, v)| (k.clone(), *v)).collect();
    let per_hour = |n: u64| (n as f64 * 3600.0 / explored_s.max(0.001)) as u64;
    let ev = json!({
        "property": s.property(),
        "tier": if opt.thorough { "thorough" } else { "quick" },
        "seed": opt.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.runs,
            "distinct_nontrivial": total.prints.len(),
            "rule": meta.rule,
            "samples": samples,
            "nontrivial_runs": total.nontrivial,
            "distinct_measure": meta.measure,
            "simulated_runs_per_hour": per_hour(total.runs),
            "seeds_per_hour": per_hour(total.runs),
            "simulated_steps": total.steps,
            "most_steps_in_a_run": total.most.0,
            "slowest_run_ms": total.slowest.0,
            "faults_fired": faults,
            "probes": probes,
            "real_components": meta.real,
            "stub_components": meta.stubs,
            "determinism": repeat,
            "extra": s.extra(),
            "exhaustive": false,
        },
        "assumptions": meta.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    if !opt.no_evidence {
        let _ = std::fs::create_dir_all(format!("{}/evidence", opt.root));
        std::fs::write(format!("{}/evidence/{}.json", opt.root, s.property()), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    }
    println!("{}: {} runs ({} distinct and non-trivial), {} steps, {:.1} s", s.property(), total.runs, total.prints.len(), total.steps, wall);
    println!("  largest run: {} with {} steps; slowest: {} with {} ms", total.most.1, total.most.0, total.slowest.1, total.slowest.0);
    for (k, v) in &total.counters {
        println!("  {k}: {v}");
    }
    code
}

/// Runs the first plans repeatedly with different worker counts and groupings and compares histories
pub fn selftest<S: Scenario>(s: &S, opt: &Options) -> i32 {
    let cfg = s.config(opt.thorough);
    let runs = opt.runs.unwrap_or(cfg.runs.min(2000));
    let mut base: Option<BTreeMap<u64, u64>> = None;
    let mut bad = 0;
    for (workers, batch) in [(8, cfg.batch), (1, cfg.batch), (16, 1), (5, if cfg.batch == 1 { 1 } else { 7 })] {
        let c = Config { runs, batch, time_cap: Duration::from_secs(600), cpu_limit_s: cfg.cpu_limit_s, workers };
        match explore(s, opt, &c, 0, runs, runs, workers) {
            Ok((t, None)) => {
                if let Some(b) = &base {
                    for (k, v) in &t.histories {
                        if b.get(k).is_some_and(|w| w != v) {
                            bad += 1;
                            if bad < 5 {
                                println!("run {k} differs with {workers} workers, batches of {batch}");
                            }
                        }
                    }
                } else {
                    base = Some(t.histories);
                }
            }
            Ok((_, Some((_, run, v)))) => {
                println!("run {run} fails: {v:?}");
                return 1;
            }
            Err(e) => {
                println!("harness error: {e}");
                return 2;
            }
        }
    }
    println!("{}: {} runs x 4 configurations, {} differing histories", s.property(), runs, bad);
    (bad > 0) as i32
}

/// Command line: check|replay|selftest <property> [--seed n] [--tier t] [--runs n] [--secs n] [file]
pub struct Cli {
    pub mode: String,
    pub property: String,
    pub file: String,
    pub opt: Options,
}

pub fn cli() -> Cli {
    let args: Vec<String> = std::env::args().collect();
    let mut rest = vec![];
    let env_u64 = |n: &str| std::env::var(n).ok().and_then(|v| v.parse::<u64>().ok());
    let mut opt = Options {
        seed: env_u64("VERIF_SEED").unwrap_or(1),
        thorough: std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough"),
        root: std::env::var("VERIF_ROOT").unwrap_or("/verif".into()),
        scratch: String::new(),
        runs: None,
        secs: None,
        workers: None,
        no_evidence: false,
    };
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--seed" => {
                opt.seed = args[i + 1].parse().unwrap();
                i += 1
            }
            "--tier" => {
                opt.thorough = args[i + 1] == "thorough";
                i += 1
            }
            "--runs" => {
                opt.runs = args[i + 1].parse().ok();
                i += 1
            }
            "--secs" => {
                opt.secs = args[i + 1].parse().ok();
                i += 1
            }
            "--workers" => {
                opt.workers = args[i + 1].parse().ok();
                i += 1
            }
            "--no-evidence" => opt.no_evidence = true,
            a => rest.push(a.to_string()),
        }
        i += 1;
    }
    // one fixed path length whatever the process id: paths show up in histories
    let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    opt.scratch = format!("{base}/sim{:08}", std::process::id());
    let _ = std::fs::remove_dir_all(&opt.scratch);
    std::fs::create_dir_all(&opt.scratch).unwrap();
    let mode = rest.first().cloned().unwrap_or_default();
    let property = rest.get(1).cloned().unwrap_or_default();
    let file = rest.get(2).cloned().unwrap_or_default();
    Cli { mode, property, file, opt }
}

impl Cli {
    pub fn run<S: Scenario>(&self, s: &S) -> i32 {
        match self.mode.as_str() {
            "check" => check(s, &self.opt),
            "replay" => replay(s, &self.file, &self.opt),
            "selftest" => selftest(s, &self.opt),
            "show" => {
                let i = self.file.parse().unwrap_or(0);
                println!("{}", serde_json::to_string_pretty(&plan_value(s, self.opt.seed, i)).unwrap());
                0
            }
            m => {
                eprintln!("unknown mode {m}");
                2
            }
        }
    }
    pub fn finish(&self, code: i32) -> ! {
        let _ = std::fs::remove_dir_all(&self.opt.scratch);
        std::process::exit(code)
    }
}
