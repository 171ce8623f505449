//! C20, C21: parsers made by the generators, from the specification to the parse
use genrt::{Generated, Nested, Script};
use gram::corpus::{Corpus, Entry};
use gram::engine::{self, Event, Outcome};
use gram::lalr::Tables;
use gram::lex::{Lexed, Lexer};
use gram::{earley, script};
use serde::{Deserialize, Serialize};
use simkit::inproc::{self, Schedule, quiet};
use simkit::rng::Rng;
use simkit::runner::{Cli, Config, Meta, Obs, Scenario, Violation, violation};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[global_allocator]
static ALLOC: simkit::inproc::Alloc = simkit::inproc::Alloc;

const POINTS: u64 = 200_000_000;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Job {
    /// number of the grammar in the corpus
    pub grammar: u32,
    /// with a parser object of its own instead of the thread's
    pub fresh: bool,
    pub script: Script,
    /// a parse made by the action of this number
    pub nested: Option<(u32, Box<Job>)>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    /// seed of the corpus
    pub corpus: u64,
    /// only whether there is a parser of this grammar
    pub probe: Option<u32>,
    pub threads: Vec<Vec<Job>>,
    pub points: bool,
    pub sched: Schedule,
}

struct Known {
    entry: Entry,
    t: Tables,
    lexer: Lexer,
    new: Option<fn() -> Box<dyn Generated>>,
    spell: genrt::Spell,
}
struct Sc {
    id: &'static str,
    seed: u64,
    all: BTreeMap<u32, Known>,
    /// numbers of the grammars without and with parsers
    failed: Vec<u32>,
    usable: Vec<u32>,
}

impl Sc {
    fn new(id: &'static str) -> Sc {
        let file = std::env::var("SIM_CORPUS").expect("SIM_CORPUS");
        let c: Corpus = serde_json::from_str(&std::fs::read_to_string(file).expect("corpus")).expect("corpus");
        let mut parsers: BTreeMap<u32, fn() -> Box<dyn Generated>> = BTreeMap::new();
        for list in [corpus0::parsers(), corpus1::parsers(), corpus2::parsers(), corpus3::parsers(), corpus4::parsers(), corpus5::parsers(), corpus6::parsers(), corpus7::parsers()] {
            parsers.extend(list);
        }
        let all: BTreeMap<u32, Known> = c
            .entries
            .into_iter()
            .map(|e| {
                let new = if e.failed.is_some() { None } else { parsers.get(&e.index).copied() };
                let spell = e.g.toks.iter().map(|t| (t.name.clone(), if t.re { t.name.clone() } else { format!("\"{}\"", t.text) })).collect();
                (e.index, Known { spell: Arc::new(spell), t: Tables::build(&e.g).unwrap(), lexer: Lexer::new(&e.g), new, entry: e })
            })
            .collect();
        let failed = all.iter().filter(|k| k.1.entry.failed.as_ref().is_some_and(|f| f.class != "dropped")).map(|k| *k.0).collect();
        let usable = all.iter().filter(|k| k.1.new.is_some()).map(|k| *k.0).collect();
        Sc { id, seed: c.seed, all, failed, usable }
    }
    fn model(&self, j: &Job) -> Option<Outcome> {
        let k = self.all.get(&j.grammar)?;
        k.new?;
        let o = engine::parse(&k.entry.g, &k.t, &k.lexer, &j.script);
        (!o.endless).then_some(o)
    }
    fn job(&self, r: &mut Rng, kinds: &[u32], texts: &mut Vec<(u32, Script)>, depth: u8) -> Option<Job> {
        let (grammar, mut script) = if !texts.is_empty() && r.chance(1, 2) {
            r.pick(texts).clone()
        } else {
            let n = *r.pick(kinds);
            let k = &self.all[&n];
            let level = r.below(3) as u8;
            let inject = r.chance(2, 5);
            let max = match r.below(60) {
                0 if r.chance(1, 4) => script::LONG,
                0..5 => 100,
                5..10 => 60,
                _ => 18,
            };
            let which = *r.pick(&[16, 17, 18]);
            let shown = if r.chance(2, 5) { script::showing(r, &k.entry.g, &k.t, &k.lexer, 40) } else { None };
            let s = match shown {
                Some(s) => s,
                None => script::best(r, which, &k.entry.g, &k.t, &k.lexer, level, max, inject)?,
            };
            texts.push((n, s.clone()));
            (n, s)
        };
        let k = &self.all[&grammar];
        let o = engine::parse(&k.entry.g, &k.t, &k.lexer, &script);
        if o.endless {
            return None;
        }
        if r.chance(1, 6) {
            script.panic_at = Some(r.below(o.events.len() as u64));
        }
        let nested = if depth > 0 && r.chance(1, 10) { self.job(r, kinds, texts, depth - 1).map(|j| (r.below(6) as u32, Box::new(j))) } else { None };
        Some(Job { grammar, fresh: r.chance(1, 3), script, nested })
    }
}
type Log = Arc<Mutex<Vec<(Vec<usize>, Vec<Event>)>>>;
type News = BTreeMap<u32, (fn() -> Box<dyn Generated>, genrt::Spell)>;
fn perform(news: &News, job: &Job, p: &mut dyn Generated, path: Vec<usize>, log: &Log, points: bool) {
    let nested: Option<(u32, Nested)> = job.nested.as_ref().map(|(at, j)| {
        quiet(|| {
            let (j, log, news) = (j.clone(), log.clone(), news.clone());
            let mut path = path.clone();
            path.push(usize::MAX);
            let f: Nested = Box::new(move || {
                let mut p = news[&j.grammar].0();
                perform(&news, &j, &mut *p, path.clone(), &log, points);
            });
            (*at, f)
        })
    });
    let events = genrt::parse(p, &job.script, nested, points, &news[&job.grammar].1);
    quiet(|| log.lock().unwrap().push((path, events)));
}
fn jobs<'a>(j: &'a Job, v: &mut Vec<&'a Job>) {
    v.push(j);
    if let Some((_, n)) = &j.nested {
        jobs(n, v);
    }
}
fn brief(e: Option<&Event>) -> String {
    e.map(|e| format!("{e:?}")).unwrap_or("nothing".into())
}

impl Scenario for Sc {
    type Plan = Plan;
    fn property(&self) -> &str {
        self.id
    }
    fn meta(&self) -> Meta {
        Meta {
            rule: "specifications of random grammars, given to the generators, what they produce compiled; 1-4 simulated threads with sequences of parses by several of these parsers (damaged texts, texts injected by actions, callbacks that panic, parses nested in actions), preempted at basic blocks, compared with the reference automaton and engine; non-trivial: at least one reduction",
            measure: "hash of the places where control changed hands and of all callbacks and results",
            real: &["lalr1_gen, alalr1_gen, lalr1_lib, alalr1_lib (from specification text to parser)", "the generated parsers, lalr1 and alalr1 engines, lexan (every basic block a scheduling point)", "regex, std, rustc"],
            stubs: &["thread scheduling, getrandom, clocks", "the user's types and actions (which record what they are given)"],
            assumptions: &["threads change only at scheduling points: basic blocks of the instrumented crates, allocations, simulated calls; weak memory effects are not simulated"],
        }
    }
    fn config(&self, thorough: bool) -> Config {
        let runs = 20_000;
        Config { runs: if thorough { runs * 50 } else { runs }, batch: 1, time_cap: Duration::from_secs(if thorough { 1800 } else { 80 }), cpu_limit_s: 60, workers: 8 }
    }
    fn generate(&self, r: &mut Rng, index: u64) -> Plan {
        let mut p = Plan { corpus: self.seed, probe: None, threads: vec![], points: r.chance(1, 2), sched: Schedule::random(r, 60, 20_000) };
        if (index as usize) < self.failed.len() {
            p.probe = Some(self.failed[index as usize]);
            return p;
        }
        if self.usable.is_empty() {
            return p;
        }
        let n = 1 + r.weighted(&[3, 2, 1]);
        let kinds: Vec<u32> = (0..n).map(|_| *r.pick(&self.usable)).collect();
        let mut texts = vec![];
        let nt = 1 + r.weighted(&[4, 3, 1, 1]);
        p.threads = (0..nt).map(|_| (0..2 + r.below(6)).filter_map(|_| self.job(r, &kinds, &mut texts, 1)).collect()).collect();
        p
    }
    fn execute(&self, p: &Plan, obs: &mut Obs) -> Result<(), Violation> {
        if p.corpus != self.seed {
            return Ok(());
        }
        if let Some(n) = p.probe {
            if let Some(f) = self.all.get(&n).and_then(|k| k.entry.failed.as_ref()) {
                obs.note(|| self.all[&n].entry.spec.clone());
                return violation(&f.class, format!("no parser for grammar {n}: {}", f.text));
            }
            return Ok(());
        }
        let mut list = vec![];
        for j in p.threads.iter().flatten() {
            jobs(j, &mut list);
        }
        let mut models: Vec<(&Job, Outcome)> = vec![];
        for j in &list {
            if models.iter().any(|(k, _)| k.grammar == j.grammar && k.script == j.script) {
                continue;
            }
            let Some(o) = self.model(j) else { return Ok(()) };
            models.push((j, o));
        }
        let news: News = list.iter().map(|j| (j.grammar, (self.all[&j.grammar].new.unwrap(), self.all[&j.grammar].spell.clone()))).collect();
        let log: Log = Arc::new(Mutex::new(vec![]));
        let (r, st) = inproc::simulate(&p.sched, POINTS, || {
            let mut handles = vec![];
            for (n, jobs) in p.threads.iter().enumerate() {
                let (log, jobs, news) = quiet(|| (log.clone(), jobs.clone(), news.clone()));
                let points = p.points;
                handles.push(std::thread::spawn(move || {
                    let mut own: BTreeMap<u32, Box<dyn Generated>> = quiet(BTreeMap::new);
                    for (i, j) in jobs.iter().enumerate() {
                        let path = quiet(|| vec![n, i]);
                        if j.fresh {
                            perform(&news, j, &mut *news[&j.grammar].0(), path, &log, points);
                        } else {
                            let p = own.entry(j.grammar).or_insert_with(|| news[&j.grammar].0());
                            perform(&news, j, &mut **p, path, &log, points);
                        }
                    }
                }));
            }
            let mut bad = None;
            for h in handles {
                if let Err(e) = h.join() {
                    bad = Some(inproc::panic_text(&*e));
                }
            }
            bad
        });
        obs.steps += st.points;
        match r {
            Ok(None) => (),
            Ok(Some(e)) | Err(e) => return violation("panic", format!("a thread panicked: {e}")),
        }
        let mut got = std::mem::take(&mut *log.lock().unwrap());
        got.sort_by(|a, b| a.0.cmp(&b.0));
        for (path, events) in &got {
            let mut j = &p.threads[path[0]][path[1]];
            for _ in &path[2..] {
                j = &j.nested.as_ref().unwrap().1;
            }
            let k = &self.all[&j.grammar];
            let model = &models.iter().find(|(m, _)| m.grammar == j.grammar && m.script == j.script).unwrap().1;
            for e in events {
                obs.hist(e.hash());
            }
            obs.note(|| format!("{path:?} grammar {} {:?}: {events:?}", j.grammar, j.script.text));
            obs.count("parses", 1);
            obs.count("parses by alalr1", k.entry.g.augmented as u64);
            obs.count("reductions", model.reductions);
            obs.count("recoveries", model.recoveries);
            obs.count("predicates asked", model.predicates);
            obs.count("fault.injected texts", model.injected);
            obs.count("fault.lexical errors", model.lexical);
            obs.count("fault.syntax errors", model.syntax);
            obs.count("fault.abandoned by a panic", matches!(model.events.last(), Some(Event::Panic(_))) as u64);
            obs.nontrivial |= if self.id == "C21" { model.predicates > 0 } else { model.reductions > 0 };
            let parser = format!("parser of grammar {}, parse {path:?} of {:?}", j.grammar, j.script.text);
            if *events != model.events {
                let at = events.iter().zip(&model.events).take_while(|(a, b)| a == b).count();
                if self.id == "C20" || model.by_predicate.get(at) == Some(&true) {
                    let class = match events.get(at) {
                        None => "missing",
                        Some(Event::Action(..)) => "action",
                        Some(Event::Report(t)) if t.starts_with("PANIC") => "panic",
                        Some(Event::Report(_)) => "report",
                        Some(Event::Result(_)) => "result",
                        Some(Event::Panic(_)) => "panic",
                    };
                    return violation(class, format!("{parser}: event {at} is {} but should be {}", brief(events.get(at)), brief(model.events.get(at))));
                }
                obs.count("differences that concern another property", 1);
            }
            let g = &k.entry.g;
            // what a grammar without any ambiguity derives is decided once more, without its automaton
            if self.id == "C20" && k.t.sr + k.t.rr == 0 && g.levels.is_empty() && !g.uses_error() && g.prods.iter().all(|p| p.pred.is_none()) && j.script.panic_at.is_none() && model.injected == 0 {
                let (items, _) = k.lexer.all(&j.script.text, "");
                let toks: Option<Vec<u16>> = items.iter().map(|i| if let Lexed::Tok(t) = i.what { Some(t) } else { None }).collect();
                if let Some(toks) = toks
                    && !toks.is_empty()
                    && toks.len() <= 40
                {
                    let accepted = events.last() == Some(&Event::Result(None));
                    obs.count("sentences decided by the grammar itself", 1);
                    if earley::accepts(g, &toks) != accepted {
                        return violation("language", format!("{parser}: accepted {accepted}"));
                    }
                }
            }
        }
        obs.hist(st.hash);
        obs.count("fault.preemptions", st.switches);
        obs.count("accesses to memory that several threads write", st.shared);
        obs.count("threads", st.created);
        obs.count("nested parses", got.iter().filter(|x| x.0.len() > 2).count() as u64);
        obs.note(|| format!("{st:?}"));
        obs.fingerprint = simkit::rng::combine(st.hash, obs.history);
        Ok(())
    }
    fn prepare_worker(&self, _worker: usize) {
        if std::env::var_os("SIM_PANICS").is_none() {
            std::panic::set_hook(Box::new(|_| ()));
        }
    }
    fn extra(&self) -> serde_json::Value {
        let states: Vec<usize> = self.all.values().map(|k| k.t.states.len()).collect();
        serde_json::json!({
            "generated parsers": self.usable.len(),
            "by alalr1_gen": self.all.values().filter(|k| k.entry.g.augmented).count(),
            "states of their automata": states.iter().sum::<usize>(),
            "largest automaton": states.iter().max(),
            "with error symbols": self.all.values().filter(|k| k.entry.g.uses_error()).count(),
            "with declared conflicts": self.all.values().filter(|k| k.t.sr + k.t.rr > 0).count(),
            "with precedences": self.all.values().filter(|k| !k.entry.g.levels.is_empty()).count(),
        })
    }
}
fn run(cli: &Cli) -> i32 {
    match cli.property.as_str() {
        "C20" => cli.run(&Sc::new("C20")),
        "C21" => cli.run(&Sc::new("C21")),
        p => {
            eprintln!("unknown property {p}");
            2
        }
    }
}
fn main() {
    let cli = simkit::runner::cli();
    let code = run(&cli);
    cli.finish(code)
}
