//! C16 - C19: the engines
use crate::Res;
use crate::kit::*;
use crate::lexsim::POINTS;
use gram::engine::{self, Event, Script};
use gram::script::{best, script};
use gram::generate::{self, Wanted};
use gram::grammar::*;
use gram::lalr::Tables;
use gram::lex::Lexer;
use serde::{Deserialize, Serialize};
use simkit::inproc::{self, Schedule, quiet};
use simkit::rng::Rng;
use simkit::runner::{Obs, violation};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Eng {
    pub g: Grammar,
    /// changes of the tokens for which states permit recovery, of the expected tokens
    pub recover: Vec<(u16, u64)>,
    pub expected: Vec<(u16, u64)>,
}
impl Eng {
    pub fn tables(&self) -> Option<Tables> {
        let mut t = generate::acceptable(&self.g)?;
        if self.g.toks.len() > 60 {
            return None;
        }
        let n = t.states.len();
        let mask = (1 << t.end) - 1;
        for (s, m) in &self.recover {
            let st = &mut t.states[*s as usize % n];
            if st.err_goto.is_some() {
                st.recover ^= *m as gram::lalr::Set & mask;
            }
        }
        for (s, m) in &self.expected {
            t.states[*s as usize % n].expected ^= *m as gram::lalr::Set & (mask << 1 | 1);
        }
        Some(t)
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Parse {
    pub script: Script,
    pub augmented: bool,
    /// errors are reported to standard error, which takes them as this says
    #[serde(default)]
    pub plain: Option<u64>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PEng {
    pub eng: Eng,
    pub parses: Vec<Parse>,
    pub rand: u64,
}

/// Lets the actions look at everything
fn curious(r: &mut Rng, g: &mut Grammar) {
    for p in g.prods.iter_mut() {
        let n = p.rhs.len() as u8;
        let inject = r.chance(1, 2);
        if r.chance(3, 4) {
            p.act = match r.below(4) {
                0 => Act::Look { args: (1..=n).collect(), inject },
                _ => Act::Node { args: (1..=n).collect(), inject },
            };
        }
    }
}
fn eng(r: &mut Rng, augmented: bool, errors: bool, wild: bool) -> (Eng, Tables) {
    // how often a token can be resumed at
    let least = if errors { r.below(5) as u32 } else { 0 };
    let mut tries = 0;
    loop {
        tries += 1;
        let conflicts = if r.chance(1, 3) { 6 } else { 0 };
        let (mut g, _) = generate::grammar(r, &Wanted { augmented, errors, conflicts, max_states: 160, focus: gram::lalr::Weak::No });
        if errors && !g.uses_error() {
            continue;
        }
        if r.chance(3, 4) {
            curious(r, &mut g);
        }
        let mut e = Eng { g, recover: vec![], expected: vec![] };
        if wild {
            let mask = |r: &mut Rng| match r.below(3) {
                0 => r.next() & r.next() & r.next(),
                1 => 1 << r.below(20),
                _ => r.next(),
            };
            for _ in 0..r.below(6) {
                let s = r.below(4000) as u16;
                e.recover.push((s, mask(r) >> 4));
            }
            for _ in 0..r.below(4) {
                let s = r.below(4000) as u16;
                e.expected.push((s, mask(r) >> 4));
            }
        }
        if let Some(t) = e.tables() {
            let n = t.states.len() as u32;
            if tries < 6 && t.states.iter().map(|s| s.recover.count_ones()).sum::<u32>() < least * n / 2 {
                continue;
            }
            return (e, t);
        }
    }
}
fn make(r: &mut Rng, which: u8, level: u8, errors: bool, inject: bool, wild: bool) -> PEng {
    let augmented = r.chance(1, 3);
    let (eng, t) = eng(r, augmented, errors, wild);
    let lexer = Lexer::new(&eng.g);
    let mut parses = vec![];
    for _ in 0..2 + r.below(6) {
        let max = match r.below(24) {
            0 if which == 18 || r.chance(1, 2) => gram::script::LONG,
            0..3 => 120,
            _ => 25,
        };
        let Some(script) = best(r, which, &eng.g, &t, &lexer, level, max, inject) else { continue };
        parses.push(Parse { script, augmented: augmented || r.chance(1, 2), plain: (which == 17 && r.chance(1, 3)).then(|| r.next() >> 8) });
    }
    PEng { eng, parses, rand: r.next() >> 8 }
}
pub fn make16(r: &mut Rng, _i: u64) -> PEng {
    let level = r.weighted(&[3, 2, 1]) as u8;
    let errors = r.chance(1, 4);
    let inject = r.chance(2, 3);
    make(r, 16, level, errors, inject, false)
}
pub fn make17(r: &mut Rng, _i: u64) -> PEng {
    let level = r.weighted(&[1, 3, 5]) as u8;
    let errors = r.chance(1, 2);
    let inject = r.chance(1, 4);
    let wild = r.chance(1, 2);
    make(r, 17, level, errors, inject, wild)
}
pub fn make18(r: &mut Rng, _i: u64) -> PEng {
    let level = r.weighted(&[0, 2, 5]) as u8;
    let inject = r.chance(1, 4);
    let wild = r.chance(1, 2);
    make(r, 18, level, true, inject, wild)
}

fn brief(e: Option<&Event>) -> String {
    e.map(|e| format!("{e:?}")).unwrap_or("nothing".into())
}
/// What a difference between the histories is about
fn blame(got: &[Event], want: &[Event], at: usize) -> (bool, bool, bool) {
    let reported = got[..at].iter().any(|e| matches!(e, Event::Report(_)));
    let outcome = |e: Option<&Event>| matches!(e, Some(Event::Report(_)) | Some(Event::Result(_)));
    let (g, w) = (got.get(at), want.get(at));
    let both_reports = matches!((g, w), (Some(Event::Report(_)), Some(Event::Report(_))));
    let both_failures = matches!((g, w), (Some(Event::Result(Some(_))), Some(Event::Result(Some(_)))));
    let panicked = matches!(g, Some(Event::Report(s)) if s.starts_with("PANIC"));
    let same_action = matches!((g, w), (Some(Event::Action(a, _)), Some(Event::Action(b, _))) if a == b);
    let c16 = !reported && !both_reports && !both_failures || same_action || panicked;
    let c17 = outcome(g) || outcome(w);
    let c18 = reported || panicked;
    (c16, c17, c18)
}

/// A parse that reports errors in the default way to a standard error that takes parts at a time
fn plainly(rand: u64, seed: u64, augmented: bool, script: &Script) -> (Result<(Vec<Event>, String, bool), String>, inproc::Stats, String, u64) {
    use std::io::{Read, Seek};
    use std::os::fd::FromRawFd;
    unsafe {
        let fd = libc::memfd_create(c"stderr".as_ptr(), libc::MFD_CLOEXEC);
        assert!(fd >= 0);
        let saved = libc::dup(2);
        libc::dup2(fd, 2);
        inproc::prepare_io("/nonexistent-root", rand, |s| {
            s.noise_seed = seed;
            s.noise_eintr = (seed % 3 * 15_000) as u32;
            s.noise_short = (seed / 3 % 3 * 25_000) as u32;
        });
        let (r, st) = inproc::simulate(&Schedule::solo(rand), POINTS, || Any::new(0).parse_plainly(augmented, script));
        let noise = (inproc::shm().noise_eintr_fired + inproc::shm().noise_short_fired) as u64;
        libc::dup2(saved, 2);
        libc::close(saved);
        let mut f = std::fs::File::from_raw_fd(fd);
        f.rewind().unwrap();
        let mut v = vec![];
        f.read_to_end(&mut v).unwrap();
        (r, st, String::from_utf8_lossy(&v).into_owned(), noise)
    }
}

fn exec(p: &PEng, obs: &mut Obs, which: u8) -> Res {
    let Some(t) = p.eng.tables() else { return Ok(()) };
    let g = &p.eng.g;
    install(0, g, t);
    let kit = kit(0);
    for (n, parse) in p.parses.iter().enumerate() {
        let augmented = parse.augmented || g.augmented;
        let model = engine::parse(g, &kit.t, &kit.lexer, &parse.script);
        if model.endless {
            continue;
        }
        let mut model = model;
        let (r, st) = match parse.plain {
            None => inproc::simulate(&Schedule::solo(p.rand), POINTS, || Any::new(0).parse(augmented, &parse.script, None, false)),
            Some(seed) => {
                let (r, st, written, noise) = plainly(p.rand, seed, augmented, &parse.script);
                obs.count("fault.short and interrupted writes of reports", noise);
                let r = match r {
                    Ok((events, shown, fatal)) => {
                        if which == 17 && written != shown {
                            return violation("written", format!("parse {n} of {:?}: what was reported is {shown:?} but {written:?} was written", parse.script.text));
                        }
                        if fatal {
                            // it is documented to end here
                            let at = model.events.iter().position(|e| matches!(e, Event::Report(t) if t.starts_with("Ambiguous"))).unwrap_or(model.events.len() - 1);
                            model.events.truncate(at + 1);
                            if let Some(e @ Event::Report(_)) = events.last()
                                && matches!(e, Event::Report(t) if t.starts_with("PANIC Fatal Error: "))
                            {
                                model.events.push(e.clone());
                            }
                        }
                        Ok(events)
                    }
                    Err(e) => Err(e),
                };
                (r, st)
            }
        };
        obs.steps += st.points;
        let got = match r {
            Ok(v) => v,
            Err(e) => return violation("panic", format!("panicked: {e}")),
        };
        for e in &got {
            obs.hist(e.hash());
            obs.note(|| format!("parse {n}: {e:?}"));
        }
        obs.count("reductions", model.reductions);
        obs.count("fault.injected texts", model.injected);
        obs.count("fault.lexical errors", model.lexical);
        obs.count("fault.syntax errors", model.syntax);
        obs.count("recoveries", model.recoveries);
        obs.count("predicates evaluated", model.predicates);
        obs.count("parses", 1);
        obs.count("parses by alalr1", augmented as u64);
        obs.nontrivial |= match which {
            16 => model.reductions > 1,
            17 => model.lexical + model.syntax > 0,
            _ => model.recoveries > 0,
        };
        if got == model.events {
            continue;
        }
        let at = got.iter().zip(&model.events).take_while(|(a, b)| a == b).count();
        let (c16, c17, c18) = blame(&got, &model.events, at);
        if which == 16 && c16 || which == 17 && c17 || which == 18 && c18 {
            let class = match got.get(at) {
                None => "missing",
                Some(Event::Action(..)) => "action",
                Some(Event::Report(t)) if t.starts_with("PANIC") => "panic",
                Some(Event::Report(_)) => "report",
                Some(Event::Result(_)) => "result",
                Some(Event::Panic(_)) => "panic",
            };
            let engine = if augmented { "alalr1" } else { "lalr1" };
            return violation(class, format!("{engine}, parse {n} of {:?}: event {at} is {} but should be {}", parse.script.text, brief(got.get(at)), brief(model.events.get(at))));
        }
        obs.count("differences that concern another property", 1);
    }
    obs.fingerprint = obs.history;
    Ok(())
}
pub fn exec16(p: &PEng, obs: &mut Obs) -> Res {
    exec(p, obs, 16)
}
pub fn exec17(p: &PEng, obs: &mut Obs) -> Res {
    exec(p, obs, 17)
}
pub fn exec18(p: &PEng, obs: &mut Obs) -> Res {
    exec(p, obs, 18)
}

// ---- C19
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Job {
    pub kit: u8,
    pub augmented: bool,
    /// with a parser object of its own instead of the thread's
    pub fresh: bool,
    pub script: Script,
    /// a parse made by the action of this number
    pub nested: Option<(u32, Box<Job>)>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct P19 {
    pub engs: Vec<Eng>,
    pub threads: Vec<Vec<Job>>,
    pub points: bool,
    pub sched: Schedule,
}
fn job(r: &mut Rng, engs: &[(Eng, Tables)], texts: &mut Vec<(usize, Script)>, depth: u8, panics: bool) -> Option<Job> {
    let mut k = r.idx(engs.len());
    let mut script = if !texts.is_empty() && r.chance(2, 3) {
        // a text that is parsed elsewhere too
        let (j, s) = r.pick(texts);
        k = *j;
        s.clone()
    } else {
        let g = &engs[k].0.g;
        let level = r.below(3) as u8;
        let inject = r.chance(1, 3);
        let mut s = script(r, g, level, 15, inject);
        if r.chance(1, 4) {
            // begins with an error
            let n = 1 + r.idx(2);
            let toks: Vec<u16> = (0..n).map(|_| r.below(g.toks.len() as u64) as u16).collect();
            s.text.insert_str(0, &generate::render(r, g, &toks));
        }
        texts.push((k, s.clone()));
        s
    };
    let (e, t) = &engs[k];
    let lexer = Lexer::new(&e.g);
    let o = engine::parse(&e.g, t, &lexer, &script);
    if o.endless {
        return None;
    }
    if panics && r.chance(1, 3) {
        let reports: Vec<usize> = o.events.iter().enumerate().filter(|(_, e)| matches!(e, Event::Report(_))).map(|x| x.0).collect();
        let n = o.events.len();
        let at = if reports.is_empty() || r.chance(1, 3) { r.idx(n) } else { *r.pick(&reports) + r.idx(3) };
        script.panic_at = Some(at.min(n - 1) as u64);
    }
    let nested = if depth > 0 && r.chance(1, 5) { job(r, engs, texts, depth - 1, panics).map(|j| (r.below(8) as u32, Box::new(j))) } else { None };
    Some(Job { kit: k as u8, augmented: e.g.augmented || r.chance(1, 3), fresh: r.chance(1, 3), script, nested })
}
pub fn make19(r: &mut Rng, _i: u64) -> P19 {
    let n = 1 + r.weighted(&[4, 2, 1]);
    let mut texts = vec![];
    let engs: Vec<(Eng, Tables)> = (0..n)
        .map(|_| {
            let aug = r.chance(1, 3);
            let errors = r.chance(3, 4);
            eng(r, aug, errors, false)
        })
        .collect();
    // texts that lead to recoveries, some of them before anything was shifted
    for (k, (e, t)) in engs.iter().enumerate() {
        if !e.g.uses_error() {
            continue;
        }
        let lexer = Lexer::new(&e.g);
        let mut found = 0;
        for _ in 0..40 {
            let s = if r.chance(2, 3) {
                let n = 1 + r.idx(3);
                let toks: Vec<u16> = (0..n).map(|_| r.below(e.g.toks.len() as u64) as u16).collect();
                let mut s = script(r, &e.g, 0, 1, false);
                s.text = generate::render(r, &e.g, &toks);
                s
            } else {
                script(r, &e.g, 2, 12, false)
            };
            let o = engine::parse(&e.g, t, &lexer, &s);
            let first = matches!(o.events.first(), Some(Event::Report(_)));
            if !o.endless && o.recoveries > 0 && (first || r.chance(1, 4)) {
                texts.push((k, s));
                found += 1;
                if found == 4 {
                    break;
                }
            }
        }
    }
    let nt = 1 + r.weighted(&[2, 4, 2, 1]);
    let threads = (0..nt).map(|_| (0..1 + r.below(6)).filter_map(|_| job(r, &engs, &mut texts, 2, true)).collect()).collect();
    P19 { engs: engs.into_iter().map(|e| e.0).collect(), threads, points: r.chance(1, 2), sched: Schedule::random(r, 60, 20_000) }
}
type Log = Arc<Mutex<Vec<(Vec<usize>, Vec<Event>)>>>;
fn perform(job: &Job, any: &mut Any, path: Vec<usize>, log: &Log, points: bool) {
    let nested: Option<(u32, Nested)> = job.nested.as_ref().map(|(at, j)| {
        quiet(|| {
            let (j, log) = (j.clone(), log.clone());
            let mut path = path.clone();
            path.push(usize::MAX);
            let f: Nested = Box::new(move || {
                let mut any = Any::new(j.kit as usize);
                perform(&j, &mut any, path.clone(), &log, points);
            });
            (*at, f)
        })
    });
    let events = any.parse(job.augmented, &job.script, nested, points);
    quiet(|| log.lock().unwrap().push((path, events)));
}
pub fn exec19(p: &P19, obs: &mut Obs) -> Res {
    if p.engs.is_empty() || p.engs.len() > KITS {
        return Ok(());
    }
    for (k, e) in p.engs.iter().enumerate() {
        let Some(t) = e.tables() else { return Ok(()) };
        install(k, &e.g, t);
    }
    fn all<'a>(j: &'a Job, v: &mut Vec<&'a Job>) {
        v.push(j);
        if let Some((_, n)) = &j.nested {
            all(n, v);
        }
    }
    let mut jobs = vec![];
    for j in p.threads.iter().flatten() {
        all(j, &mut jobs);
    }
    for j in &jobs {
        let Some(e) = p.engs.get(j.kit as usize) else { return Ok(()) };
        if e.g.augmented && !j.augmented || engine::parse(&e.g, &kit(j.kit as usize).t, &kit(j.kit as usize).lexer, &j.script).endless {
            return Ok(());
        }
    }
    // each parse as the only one ever made
    let mut alone: std::collections::BTreeMap<String, Vec<Event>> = Default::default();
    for j in &jobs {
        let key = serde_json::to_string(&(j.kit, j.augmented, &j.script)).unwrap();
        if alone.contains_key(&key) {
            continue;
        }
        let r = inproc::in_child(|| {
            let (r, _) = inproc::simulate(&Schedule::solo(p.sched.rand), POINTS, || Any::new(j.kit as usize).parse(j.augmented, &j.script, None, false));
            serde_json::to_vec(&r).unwrap()
        });
        let h: Result<Vec<Event>, String> = match r {
            Ok(b) => serde_json::from_slice(&b).unwrap_or(Err("no report".into())),
            Err(e) => Err(e),
        };
        match h {
            Ok(h) => {
                alone.insert(key, h);
            }
            Err(e) => return violation("alone", format!("a parse by itself ends with {e}")),
        }
    }
    let log: Log = Arc::new(Mutex::new(vec![]));
    let (r, st) = inproc::simulate(&p.sched, POINTS, || {
        let mut handles = vec![];
        for (n, jobs) in p.threads.iter().enumerate() {
            let (log, jobs) = quiet(|| (log.clone(), jobs.clone()));
            let points = p.points;
            handles.push(std::thread::spawn(move || {
                let mut own: Vec<Option<Any>> = quiet(|| (0..KITS).map(|_| None).collect());
                for (i, j) in jobs.iter().enumerate() {
                    let path = quiet(|| vec![n, i]);
                    if j.fresh {
                        perform(j, &mut Any::new(j.kit as usize), path, &log, points);
                    } else {
                        let any = own[j.kit as usize].get_or_insert_with(|| Any::new(j.kit as usize));
                        perform(j, any, path, &log, points);
                    }
                }
            }));
        }
        let mut bad = None;
        for h in handles {
            if let Err(e) = h.join() {
                bad = Some(inproc::panic_text(&*e));
            }
        }
        bad
    });
    obs.steps += st.points;
    match r {
        Ok(None) => (),
        Ok(Some(e)) | Err(e) => return violation("panic", format!("a thread panicked: {e}")),
    }
    let mut got = std::mem::take(&mut *log.lock().unwrap());
    got.sort_by(|a, b| a.0.cmp(&b.0));
    let mut panics = 0;
    for (path, events) in &got {
        let mut j = &p.threads[path[0]][path[1]];
        for _ in &path[2..] {
            j = &j.nested.as_ref().unwrap().1;
        }
        let want = &alone[&serde_json::to_string(&(j.kit, j.augmented, &j.script)).unwrap()];
        for e in events {
            obs.hist(e.hash());
        }
        panics += matches!(events.last(), Some(Event::Panic(_))) as u64;
        obs.note(|| format!("{path:?} {:?}: {} events", j.script.text, events.len()));
        if events != want {
            let at = events.iter().zip(want).take_while(|(a, b)| a == b).count();
            return violation("differs", format!("parse {path:?} of {:?}: event {at} is {} but {} when it is the only parse", j.script.text, brief(events.get(at)), brief(want.get(at))));
        }
    }
    obs.hist(st.hash);
    obs.count("fault.abandoned by a panic", panics);
    obs.count("fault.preemptions", st.switches);
    obs.count("accesses to memory that several threads write", st.shared);
    obs.count("context switches", st.switches + st.forced);
    obs.count("threads", st.created);
    obs.count("parses", got.len() as u64);
    obs.count("nested parses", got.iter().filter(|x| x.0.len() > 2).count() as u64);
    obs.note(|| format!("{st:?}"));
    obs.nontrivial = got.len() > 1 && (st.switches > 0 || got.len() > p.threads.len());
    obs.fingerprint = simkit::rng::combine(st.hash, obs.history);
    Ok(())
}
