//! C10, C11: generating parsers within a process
use crate::Res;
use gram::emit;
use gram::generate::{self, Wanted};
use serde::{Deserialize, Serialize};
use simkit::inproc::{self, Schedule, quiet};
use simkit::rng::{Rng, hash_bytes};
use simkit::runner::{Obs, violation};
use simkit::shm::*;
use std::path::Path;
use std::sync::{Arc, Mutex};

const POINTS: u64 = 3_000_000_000;

static ROOT: Mutex<String> = Mutex::new(String::new());
fn root() -> String {
    ROOT.lock().unwrap().clone()
}
pub fn set_up(scratch: &str, worker: usize) {
    let r = format!("{scratch}/l{worker:02}");
    let _ = std::fs::create_dir_all(&r);
    *ROOT.lock().unwrap() = r;
}
fn clean() {
    let r = root();
    let _ = std::fs::remove_dir_all(&r);
    std::fs::create_dir_all(&r).unwrap();
}

/// A specification (of lalr1_lib or alalr1_lib) of a random grammar
fn spec(r: &mut Rng, augmented: bool, max_states: usize) -> String {
    let errors = r.chance(1, 3);
    let conflicts = if r.chance(1, 3) { 4 } else { 0 };
    let (g, t) = generate::grammar(r, &Wanted { augmented, errors, conflicts, max_states, focus: gram::lalr::Weak::No });
    let wrong = r.chance(1, 8) as u32;
    let o = emit::Options {
        preamble: r.pick(&["", "\nuse std::io;\n", " // %%\n"]),
        attr: r.pick(&["AttributeData", "Attr2", "A"]),
        target: r.pick(&["Target", "Calc", "T"]),
        expect_sr: t.sr + wrong,
        expect_rr: t.rr,
    };
    let mut s = emit::specification(&g, &o);
    if r.chance(1, 6) {
        // something wrong with it
        let k = 1 + r.below(3) as usize;
        s = match r.below(4) {
            0 => generate::corrupt(r, &s, k),
            1 => s.replacen(": ", ": Undefined ", 1 + k),
            2 => {
                let n = r.below(s.len() as u64) as usize;
                let n = (0..=n).rev().find(|i| s.is_char_boundary(*i)).unwrap_or(0);
                s[..n].to_string()
            }
            _ => format!("{s}\n{}\n", g.nts.first().map(|n| format!("{n}: {n}2 \"no such literal\".")).unwrap_or_default()),
        };
    }
    s
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct GenJob {
    pub augmented: bool,
    /// 0: from text, 1: from a file, 2: a specification and a grammar with its description
    pub via: u8,
    pub text: String,
    /// what is in the file injected at the start of the text
    pub injected: Option<String>,
    pub ignore: bool,
    /// 0 all of it; 1 given up after the specification; 2 after the grammar; 3 a failing write
    pub give_up: u8,
    /// written this many times
    pub times: u8,
    /// (via 2) sections written to the user's own writer, which 1: fails, 2: panics, 0: takes all,
    /// after this many calls; then once more without failure
    #[serde(default)]
    pub sections: Option<(u8, u32)>,
}
struct UserWriter {
    got: Vec<u8>,
    mode: u8,
    left: u32,
}
impl std::io::Write for UserWriter {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.left == 0 {
            match self.mode {
                1 => return Err(std::io::Error::other("the user's writer fails")),
                2 => panic!("the user's writer panics"),
                _ => (),
            }
        } else {
            self.left -= 1;
        }
        let n = if self.mode == 0 { b.len() } else { b.len().min(7) };
        quiet(|| self.got.extend(&b[..n]));
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct P10 {
    pub threads: Vec<Vec<GenJob>>,
    pub sched: Schedule,
}
pub fn make10(r: &mut Rng, _i: u64) -> P10 {
    let max_states = *r.pick(&[12, 30, 60]);
    let kinds = 1 + r.below(3);
    let pool: Vec<(bool, String)> = (0..kinds)
        .map(|_| {
            let a = r.chance(1, 2);
            (a, spec(r, a, max_states))
        })
        .collect();
    let nt = 1 + r.weighted(&[2, 3, 1]);
    let threads = (0..nt)
        .map(|_| {
            (0..1 + r.below(3))
                .map(|_| {
                    let (augmented, text) = r.pick(&pool).clone();
                    let (text, injected) = match r.below(6) {
                        0 => ("%inject \"ROOT/inj\"\n".to_string(), Some(text)),
                        1 if r.chance(1, 2) => (format!("%inject \"ROOT/missing\"\n{text}"), None),
                        _ => (text, None),
                    };
                    let augmented = if r.chance(1, 12) { !augmented } else { augmented };
                    GenJob { augmented, via: r.below(3) as u8, text, injected, ignore: r.chance(1, 3), give_up: r.weighted(&[7, 1, 1, 1]) as u8, times: 1 + r.chance(1, 4) as u8, sections: r.chance(1, 3).then(|| (r.below(3) as u8, if r.chance(1, 2) { r.below(4) as u32 } else { r.below(200) as u32 })) }
                })
                .collect()
        })
        .collect();
    P10 { threads, sched: Schedule::random(r, 60, 200_000) }
}

macro_rules! generate_with {
    ($lib:ident, $job:ident, $dir:ident, $text:ident) => {{
        let out = quiet(|| format!("{}/o.rs", $dir));
        let states = quiet(|| format!("{}/o.states", $dir));
        let bad = quiet(|| format!("{}/no/such/dir", $dir));
        let contents = |p: &str| quiet(|| std::fs::read(p).unwrap_or_else(|e| format!("{e:?}").into_bytes()));
        let mut res: Vec<u8> = vec![];
        if $job.via == 2 {
            match $lib::grammar::Specification::new(&$text, "spec") {
                Err(e) => res.extend(format!("{e:?} {e}").into_bytes()),
                Ok(s) => {
                    res.extend(format!("{} {} {} {}\n", s.error_count, s.warning_count, s.expected_sr_conflicts, s.expected_rr_conflicts).into_bytes());
                    if let Some((mode, left)) = $job.sections {
                        for m in [mode, 0] {
                            let mut w = UserWriter { got: vec![], mode: m, left };
                            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                                s.write_preamble_text(&mut w)?;
                                s.write_production_data_code(&mut w)?;
                                s.write_semantic_action_code(&mut w)
                            }));
                            res.extend(quiet(|| format!("{:?}", r.map_err(|e| inproc::panic_text(&*e)))).into_bytes());
                            res.extend(&w.got);
                        }
                    }
                    if $job.give_up != 1 {
                        match $lib::grammar::Grammar::try_from((s, $job.ignore, $job.ignore)) {
                            Err(e) => res.extend(format!("{e:?} {e}").into_bytes()),
                            Ok(g) => {
                                if $job.give_up == 3 {
                                    res.extend(format!("{:?} {:?}", g.write_parser_code_to_file(Path::new(&bad)), g.write_description(Path::new(&bad))).into_bytes());
                                }
                                for _ in 0..$job.times {
                                    if $job.give_up != 2 {
                                        res.extend(format!("{:?}", g.write_parser_code_to_file(Path::new(&out))).into_bytes());
                                        res.extend(contents(&out));
                                        res.extend(format!("{:?}", g.write_description(Path::new(&states))).into_bytes());
                                        res.extend(contents(&states));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        } else {
            let g = if $job.via == 0 {
                $lib::ParserGenerator::try_from($text.as_str())
            } else {
                let p = quiet(|| {
                    let p = format!("{}/in.spec", $dir);
                    std::fs::write(&p, &$text).unwrap();
                    p
                });
                $lib::ParserGenerator::new(&p)
            };
            match g {
                Err(e) => res.extend(format!("{e:?} {e}").into_bytes()),
                Ok(g) => {
                    if $job.give_up == 3 {
                        res.extend(format!("{:?}", g.write_parser_code_to_file(&bad)).into_bytes());
                    }
                    for _ in 0..$job.times {
                        if $job.give_up == 0 || $job.give_up == 3 {
                            res.extend(format!("{:?}", g.write_parser_code_to_file(&out)).into_bytes());
                            res.extend(contents(&out));
                        }
                    }
                }
            }
        }
        res
    }};
}
/// Carries the job out in a directory of its own; the result with the directory's name removed
fn carry_out(job: &GenJob, dir: &str) -> Vec<u8> {
    let text = quiet(|| {
        std::fs::create_dir_all(dir).unwrap();
        if let Some(t) = &job.injected {
            std::fs::write(format!("{dir}/inj"), t).unwrap();
        }
        job.text.replace("ROOT", dir)
    });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if job.augmented { generate_with!(alalr1_lib, job, dir, text) } else { generate_with!(lalr1_lib, job, dir, text) }));
    quiet(|| match r {
        Ok(v) => String::from_utf8_lossy(&v).replace(dir, "ROOT").into_bytes(),
        Err(e) => format!("PANIC {}", inproc::panic_text(&*e)).into_bytes(),
    })
}
/// with what is written to standard error added
fn with_diagnostics(dir: &str, f: impl FnOnce() -> Vec<u8>) -> Vec<u8> {
    let (saved, tmp) = quiet(|| unsafe {
        std::fs::create_dir_all(dir).unwrap();
        let c = std::ffi::CString::new(format!("{dir}.err")).unwrap();
        let t = libc::open(c.as_ptr(), libc::O_CREAT | libc::O_TRUNC | libc::O_WRONLY, 0o600);
        let saved = libc::dup(2);
        libc::dup2(t, 2);
        libc::close(t);
        (saved, format!("{dir}.err"))
    });
    let mut v = f();
    quiet(|| unsafe {
        libc::dup2(saved, 2);
        libc::close(saved);
        v.extend(b"\nDIAGNOSTICS\n");
        v.extend(String::from_utf8_lossy(&std::fs::read(&tmp).unwrap_or_default()).replace(dir, "ROOT").into_bytes());
    });
    v
}
fn first_difference(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let cut = |v: &[u8]| String::from_utf8_lossy(&v[i.saturating_sub(20).min(v.len())..(i + 60).min(v.len())]).into_owned();
    format!("{} and {} bytes, at {i}: {:?} / {:?}", a.len(), b.len(), cut(a), cut(b))
}
pub fn exec10(p: &P10, obs: &mut Obs) -> Res {
    clean();
    let root = root();
    let sequential = p.threads.len() == 1;
    let mut alone: Vec<Vec<Vec<u8>>> = vec![];
    let mut seen: Vec<(&GenJob, Vec<u8>)> = vec![];
    for (t, jobs) in p.threads.iter().enumerate() {
        let mut v = vec![];
        for (i, job) in jobs.iter().enumerate() {
            if let Some((_, r)) = seen.iter().find(|(j, _)| *j == job) {
                v.push(r.clone());
                continue;
            }
            let dir = format!("{root}/alone{t}-{i}");
            let r = inproc::in_child(|| {
                // hash keys and the like are other ones there
                inproc::prepare_io(&root, p.sched.rand ^ 0x5a5a_5a5a, |_| ());
                let (r, _) = inproc::simulate(&Schedule::solo(p.sched.rand ^ 0x5a5a_5a5a), POINTS, || if sequential { with_diagnostics(&dir, || carry_out(job, &dir)) } else { carry_out(job, &dir) });
                r.unwrap_or_else(|e| e.into_bytes())
            });
            match r {
                Ok(r) => {
                    seen.push((job, r.clone()));
                    v.push(r)
                }
                Err(e) => return violation("alone", format!("a generation by itself ends with {e}")),
            }
        }
        alone.push(v);
    }
    inproc::prepare_io(&root, p.sched.rand, |_| ());
    let (r, st) = inproc::simulate(&p.sched, POINTS, || {
        let all = Arc::new(Mutex::new(vec![]));
        let one = |t: usize, i: usize, job: &GenJob, all: &Mutex<Vec<(usize, usize, Vec<u8>)>>| {
            let dir = quiet(|| format!("{root}/run{t}-{i}"));
            let r = if sequential { with_diagnostics(&dir, || carry_out(job, &dir)) } else { carry_out(job, &dir) };
            quiet(|| all.lock().unwrap().push((t, i, r)));
        };
        let mut bad = None;
        std::thread::scope(|s| {
            let mut handles = vec![];
            for (t, jobs) in p.threads.iter().enumerate() {
                let (all, one) = (quiet(|| all.clone()), &one);
                handles.push(s.spawn(move || {
                    for (i, job) in jobs.iter().enumerate() {
                        one(t, i, job, &all);
                    }
                }));
            }
            for h in handles {
                if let Err(e) = h.join() {
                    bad = Some(inproc::panic_text(&*e));
                }
            }
        });
        quiet(|| (bad, std::mem::take(&mut *all.lock().unwrap())))
    });
    obs.steps += st.points;
    let (bad, mut got) = match r {
        Ok(x) => x,
        Err(e) => return violation("panic", format!("panicked: {e}")),
    };
    if let Some(b) = bad {
        return violation("panic", format!("a thread panicked: {b}"));
    }
    got.sort();
    let mut ok = 0;
    let mut written = 0;
    for (t, i, r) in &got {
        obs.hist_bytes(r);
        obs.note(|| format!("thread {t}, generation {i}: {} bytes", r.len()));
        ok += (r.len() > 2000) as u64;
        written += (r.len() > 2000 && p.threads[*t][*i].give_up != 2 && r.windows(16).any(|w| w == b"fn next_action(\n" || w == b"pub enum AATermin")) as u64;
        let want = &alone[*t][*i];
        if r != want {
            return violation("differs", format!("thread {t}, generation {i}: not what a fresh process produces: {}", first_difference(r, want)));
        }
    }
    obs.hist(st.hash);
    obs.count("generations", got.len() as u64);
    obs.count("generations that wrote a parser", written);
    obs.count("fault.refused or abandoned generations", got.len() as u64 - ok);
    obs.count("fault.preemptions", st.switches);
    obs.count("accesses to memory that several threads write", st.shared);
    obs.count("threads", st.created);
    obs.count("blocked waits", st.blocks);
    obs.nontrivial = got.len() > 1;
    obs.fingerprint = simkit::rng::combine(st.hash, obs.history);
    Ok(())
}

// ---- C11
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Attempt {
    /// the description instead of the code
    pub description: bool,
    /// 0 nothing there, 1 something short, 2 longer, 3 much longer, 4 a directory, 5 no directory to write in, 6 what was there before
    pub residue: u8,
    /// faults in operations, numbered in thousandths (from 1000000 on: millionths) of those of an undisturbed attempt
    pub faults: Vec<Fault>,
    pub noise: (u64, u32, u32),
    pub other_file: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct P11 {
    pub augmented: bool,
    /// ParserGenerator instead of Grammar
    pub generator: bool,
    pub text: String,
    pub attempts: Vec<Attempt>,
    pub rand: u64,
}
pub fn make11(r: &mut Rng, _i: u64) -> P11 {
    let augmented = r.chance(1, 2);
    let sweep = r.chance(1, 4);
    let max = if sweep { 12 } else { *r.pick(&[10, 25, 60]) };
    let text = loop {
        let errors = r.chance(1, 3);
        let (g, t) = generate::grammar(r, &Wanted { augmented, errors, conflicts: 0, max_states: max, focus: gram::lalr::Weak::No });
        if t.sr + t.rr > 0 {
            continue;
        }
        let o = emit::Options { preamble: "", attr: "A", target: "T", expect_sr: 0, expect_rr: 0 };
        break emit::specification(&g, &o);
    };
    let mut attempts: Vec<Attempt> = (0..1 + r.below(6))
        .map(|_| {
            let mut faults = vec![];
            for _ in 0..r.weighted(&[3, 5, 1]) {
                let op = *r.pick(&[Op::OpenW, Op::Write, Op::Write, Op::Write, Op::Write, Op::Write, Op::Rename, Op::Sync, Op::Trunc]);
                let act = *r.pick(&[Act::Err, Act::Err, Act::Err, Act::Short, Act::Zero]);
                let arg = match act {
                    Act::Short => r.log(5000) as i64,
                    _ => *r.pick(&[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EACCES, libc::EFBIG, libc::EROFS, libc::EINTR]) as i64,
                };
                let nth = match r.below(4) {
                    0 => 0,
                    1 => 1000 - r.log(30) as u32,
                    _ => r.below(1001) as u32,
                };
                faults.push(Fault { op, role: Role::Any, act, sticky: r.chance(1, 3) && arg != libc::EINTR as i64, nth, arg });
            }
            let noise = if r.chance(1, 3) { (r.next() >> 8, r.log(20000) as u32, r.log(30000) as u32) } else { (0, 0, 0) };
            Attempt { description: r.chance(1, 3), residue: r.weighted(&[4, 2, 3, 2, 1, 1, 6]) as u8, faults, noise, other_file: r.chance(1, 4) }
        })
        .collect();
    if sweep {
        // passing faults in many different places
        let (n, description) = (24, r.chance(1, 4));
        let offset = r.below(1_000_000 / n) as u32;
        for k in 0..n as u32 {
            let arg = *r.pick(&[libc::ENOSPC, libc::EIO]) as i64;
            let fault = Fault { op: Op::Write, role: Role::Any, act: Act::Err, sticky: false, nth: 1_000_000 + k * (1_000_000 / n as u32) + offset, arg };
            attempts.push(Attempt { description, residue: 6, faults: vec![fault], noise: (0, 0, 0), other_file: false });
        }
    }
    P11 { augmented, generator: !sweep && r.chance(1, 4), text, attempts, rand: r.next() >> 8 }
}
type Write<'a> = Box<dyn Fn(&Path, bool) -> std::io::Result<()> + 'a>;
/// a generator object for the text (what it writes depends on the flag)
fn object(p: &P11) -> Option<Write<'static>> {
    macro_rules! with {
        ($lib:ident) => {{
            if p.generator {
                let g = $lib::ParserGenerator::try_from(p.text.as_str()).ok()?;
                Some(Box::new(move |path: &Path, _| g.write_parser_code_to_file(path)))
            } else {
                let s = $lib::grammar::Specification::new(&p.text, "spec").ok()?;
                let g = $lib::grammar::Grammar::try_from((s, false, false)).ok()?;
                Some(Box::new(move |path: &Path, d| if d { g.write_description(path) } else { g.write_parser_code_to_file(path) }))
            }
        }};
    }
    if p.augmented { with!(alalr1_lib) } else { with!(lalr1_lib) }
}
struct Did {
    result: Result<(), String>,
    contents: Option<Vec<u8>>,
    hard: u32,
    soft: u32,
    log: Vec<String>,
    others: Vec<String>,
}
/// one attempt, within a simulated run
fn attempt(w: &Write, root: &str, a: &Attempt, whole: usize, counts: Option<&[u32; 11]>, rand: u64) -> (Did, [u32; 11]) {
    let dir = format!("{root}/d");
    let path = match a.residue {
        5 => format!("{dir}/none/f.rs"),
        _ if a.other_file => format!("{dir}/g.x"),
        _ => format!("{dir}/f.rs"),
    };
    quiet(|| {
        let _ = std::fs::create_dir_all(&dir);
        if a.residue == 6 {
            if Path::new(&path).is_dir() {
                std::fs::remove_dir_all(&path).unwrap();
            }
        } else {
            let _ = std::fs::remove_file(&path);
            let _ = std::fs::remove_dir_all(&path);
        }
        let fill = |n: usize| b"// something that was here before\n".iter().cycle().take(n).copied().collect::<Vec<u8>>();
        match a.residue {
            1 => std::fs::write(&path, fill(30)).unwrap(),
            2 => std::fs::write(&path, fill(whole + 100)).unwrap(),
            3 => std::fs::write(&path, fill(whole * 2 + 40000)).unwrap(),
            4 => std::fs::create_dir(&path).unwrap(),
            _ => (),
        }
        inproc::prepare_io(root, rand, |s| {
            for f in &a.faults {
                let n = counts.map(|c| c[f.op as usize]).unwrap_or(0);
                let nth = if n == 0 { 0 } else if f.nth >= 1_000_000 { ((n - 1) as u64 * (f.nth - 1_000_000) as u64 / 1_000_000) as u32 } else { ((n - 1) as u64 * f.nth.min(1000) as u64 / 1000) as u32 };
                s.add_fault(&Fault { nth, ..f.clone() });
            }
            (s.noise_seed, s.noise_eintr, s.noise_short) = a.noise;
        });
    });
    let r = w(Path::new(&path), a.description);
    quiet(|| {
        let s = inproc::shm();
        s.active = 0;
        let mut d = Did { result: r.map_err(|e| format!("{e:?}")), contents: None, hard: 0, soft: 0, log: vec![], others: vec![] };
        for (i, f) in a.faults.iter().enumerate() {
            let fired = s.rules[i].fired;
            let eintr = f.act == Act::Err && f.arg == libc::EINTR as i64;
            // interrupted renames and the like are not retried by anybody
            if eintr && matches!(f.op, Op::OpenW | Op::Write) || f.act == Act::Short || f.act == Act::Zero && f.op != Op::Write || f.act == Act::Err && f.arg == 0 {
                d.soft += fired;
            } else {
                d.hard += fired;
            }
        }
        d.soft += s.noise_eintr_fired + s.noise_short_fired;
        d.contents = std::fs::read(&path).ok();
        d.log = s.log_text(14);
        d.others = s.escapes();
        let mut c = [0; 11];
        for op in OPS {
            c[op as usize] = s.counts[op as usize].iter().sum();
        }
        if s.counts[Op::Write as usize][Role::Stderr as usize] > 0 {
            c[Op::Write as usize] -= s.counts[Op::Write as usize][Role::Stderr as usize];
        }
        (d, c)
    })
}
pub fn exec11(p: &P11, obs: &mut Obs) -> Res {
    clean();
    let root = root();
    let plain = |description| Attempt { description, residue: 0, faults: vec![], noise: (0, 0, 0), other_file: false };
    let (r, st) = inproc::simulate(&Schedule::solo(p.rand), POINTS, || {
        // what is complete: written once by an object of its own
        let mut whole = vec![];
        for d in [false, true] {
            let Some(w) = object(p) else { return None };
            let (did, c) = attempt(&w, &root, &plain(d), 0, None, p.rand);
            quiet(|| whole.push((did, c)));
        }
        let w = object(p)?;
        let mut out = vec![];
        for a in &p.attempts {
            let k = (a.description && !p.generator) as usize;
            let n = whole[k].0.contents.as_ref().map(|c| c.len()).unwrap_or(0);
            let (d, _) = attempt(&w, &root, a, n, Some(&whole[k].1), p.rand);
            quiet(|| out.push(d));
        }
        // and at last without faults
        for d in [false, true] {
            let (d, _) = attempt(&w, &root, &Attempt { residue: 6, ..plain(d) }, 0, None, p.rand);
            quiet(|| out.push(d));
        }
        Some((whole, out))
    });
    obs.steps += st.points;
    let (whole, out) = match r {
        Ok(Some(x)) => x,
        Ok(None) => return Ok(()),
        Err(e) => return violation("panic", format!("panicked: {e}")),
    };
    for (d, _) in &whole {
        if let Err(e) = &d.result {
            return violation("plain", format!("an undisturbed write to a new file fails: {e}"));
        }
    }
    for (i, d) in out.iter().enumerate() {
        let last = i >= p.attempts.len();
        let desc = if last { i > p.attempts.len() } else { p.attempts[i].description } && !p.generator;
        let want = &whole[desc as usize].0.contents;
        obs.hist_bytes(format!("{:?}", d.result.is_ok()).as_bytes());
        obs.hist_bytes(d.contents.as_deref().unwrap_or(b"-"));
        obs.hist(d.hard as u64 * 1000 + d.soft as u64);
        obs.note(|| format!("attempt {i}: {:?}, faults fired {} (hard) {} (others): {}", d.result, d.hard, d.soft, d.log.join("; ")));
        obs.count("attempts", 1);
        obs.count("fault.hard", d.hard as u64);
        obs.count("fault.short or interrupted", d.soft as u64);
        obs.count("errors returned", d.result.is_err() as u64);
        obs.nontrivial |= d.hard + d.soft > 0;
        let name = || if last { "the last attempt (no faults)".to_string() } else { format!("attempt {i}") };
        match &d.result {
            Ok(()) => {
                if d.hard > 0 {
                    return violation("unreported", format!("{}: an operation failed but the result is Ok", name()));
                }
                if &d.contents != want {
                    let e = vec![];
                    return violation("incomplete", format!("{}: the result is Ok but the file is wrong: {}", name(), first_difference(d.contents.as_ref().unwrap_or(&e), want.as_ref().unwrap_or(&e))));
                }
                if !last && matches!(p.attempts[i].residue, 4 | 5) {
                    return violation("impossible", format!("{}: the result is Ok but nothing can be written there", name()));
                }
            }
            Err(e) => {
                let natural = !last && matches!(p.attempts[i].residue, 4 | 5);
                if d.hard == 0 && !natural {
                    return violation("no reason", format!("{} fails without a reason: {e}", name()));
                }
                obs.count("natural failures", natural as u64);
            }
        }
    }
    obs.fingerprint = simkit::rng::combine(hash_bytes(b"11"), obs.history);
    Ok(())
}
