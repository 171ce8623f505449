mod engsim;
mod gensim;
mod kit;
mod lexsim;
use serde::Serialize;
use serde::de::DeserializeOwned;
use simkit::rng::Rng;
use simkit::runner::{Cli, Config, Meta, Obs, Scenario, Violation};
use std::time::Duration;

#[global_allocator]
static ALLOC: simkit::inproc::Alloc = simkit::inproc::Alloc;

pub type Res = Result<(), Violation>;

pub struct Sc<P> {
    id: &'static str,
    scratch: String,
    runs: u64,
    batch: u64,
    rule: &'static str,
    measure: &'static str,
    make: fn(&mut Rng, u64) -> P,
    exec: fn(&P, &mut Obs) -> Res,
}
impl<P: Serialize + DeserializeOwned + Clone> Scenario for Sc<P> {
    type Plan = P;
    fn property(&self) -> &str {
        self.id
    }
    fn meta(&self) -> Meta {
        Meta {
            rule: self.rule,
            measure: self.measure,
            real: match self.id {
                "C10" | "C11" => &["lalr1_lib, alalr1_lib with lalr1, alalr1, lexan (built from /repo, every basic block a scheduling point)", "regex, std", "kernel tmpfs as the store"],
                "C12" | "C13" | "C14" | "C15" => &["lexan (built from /repo, every basic block a scheduling point)", "regex, std"],
                _ => &["lalr1 and alalr1 engines, lexan (built from /repo, every basic block a scheduling point)", "regex, std"],
            },
            stubs: match self.id {
                "C10" | "C11" => &["thread scheduling, libc file functions, getrandom, clocks"],
                "C12" | "C13" | "C14" | "C15" => &["thread scheduling, getrandom, clocks"],
                _ => &["thread scheduling, getrandom, clocks", "parser tables and callbacks (of random grammars, instead of generated ones)"],
            },
            assumptions: &["threads change only at scheduling points: basic blocks of the instrumented crates, allocations, simulated calls; weak memory effects are not simulated"],
        }
    }
    fn config(&self, thorough: bool) -> Config {
        Config {
            runs: if thorough { self.runs * 60 } else { self.runs },
            batch: self.batch,
            time_cap: Duration::from_secs(if thorough { 1500 } else { 60 }),
            cpu_limit_s: 60,
            workers: 8,
        }
    }
    fn generate(&self, rng: &mut Rng, index: u64) -> P {
        (self.make)(rng, index)
    }
    fn execute(&self, plan: &P, obs: &mut Obs) -> Res {
        (self.exec)(plan, obs)
    }
    fn prepare_worker(&self, worker: usize) {
        if std::env::var_os("SIM_PANICS").is_none() {
            std::panic::set_hook(Box::new(|_| ()));
        }
        gensim::set_up(&self.scratch, worker);
    }
}

fn run(cli: &Cli) -> i32 {
    macro_rules! sc {
        ($id:literal, $runs:literal, $batch:literal, $make:path, $exec:path, $measure:literal, $rule:literal) => {
            cli.run(&Sc { id: $id, scratch: cli.opt.scratch.clone(), runs: $runs, batch: $batch, rule: $rule, measure: $measure, make: $make, exec: $exec })
        };
    }
    match cli.property.as_str() {
        "C10" => sc!("C10", 4500, 1, gensim::make10, gensim::exec10, "hash of the places where control changed hands and of the results", "1-3 simulated threads, each generating a sequence of parsers with both libraries from random, repeated, invalid and unreadable specifications, preempted at basic blocks; non-trivial: at least two generations in the process"),
        "C11" => sc!("C11", 9000, 10, gensim::make11, gensim::exec11, "hash of the faults that fired and the results of all attempts", "one generator object, up to 6 attempts at writing its code or description over residues of other lengths, I/O errors and short writes in the operations of an undisturbed attempt; non-trivial: at least one fault fired"),
        "C12" => sc!("C12", 36000, 40, lexsim::make12, lexsim::exec12, "hash of everything delivered", "random lexicons (overlapping literals and regular expressions, empty matches, non-ASCII) and damaged texts; non-trivial: at least one item"),
        "C13" => sc!("C13", 30000, 40, lexsim::make13, lexsim::exec13, "hash of everything delivered", "random lexicons and up to 140 operations (advances, injections before and after the front, beyond the end); non-trivial: text injected into a text in use"),
        "C14" => sc!("C14", 30000, 40, lexsim::make14, lexsim::exec14, "hash of everything delivered", "as C13 with mixed line endings, every location compared; non-trivial: something beyond a first line"),
        "C15" => sc!("C15", 36000, 1, lexsim::make15, lexsim::exec15, "hash of the places where control changed hands and of everything delivered", "1-4 simulated threads with 1-3 streams each on 1-2 shared analyzers, preempted at basic blocks, streams handed over; non-trivial: preempted or several streams"),
        "C16" => sc!("C16", 12000, 25, engsim::make16, engsim::exec16, "hash of all callbacks and results", "random grammars (both engines), sentences with and without damage, texts injected by actions; non-trivial: more than one reduction"),
        "C17" => sc!("C17", 12000, 25, engsim::make17, engsim::exec17, "hash of all callbacks and results", "random grammars and changed tables, damaged texts; non-trivial: at least one error"),
        "C18" => sc!("C18", 8000, 25, engsim::make18, engsim::exec18, "hash of all callbacks and results", "random grammars with error symbols and changed recovery sets, heavily damaged texts; non-trivial: at least one recovery"),
        "C19" => sc!("C19", 18000, 1, engsim::make19, engsim::exec19, "hash of the places where control changed hands and of all callbacks and results", "1-4 simulated threads with sequences of parses of 1-3 grammars, callbacks that panic, parses nested in actions, preempted at basic blocks; non-trivial: preempted or several parses of one thread"),
        p => {
            eprintln!("unknown property {p}");
            2
        }
    }
}
fn main() {
    let cli = simkit::runner::cli();
    let code = run(&cli);
    cli.finish(code)
}
