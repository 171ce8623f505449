//! Reference parsing engine
use crate::grammar::*;
use crate::lalr::{Action, ERR, START, Tables};
use crate::lex::{Front, Item, Lexed, Lexer, Stream};
use serde::{Deserialize, Serialize};
use simkit::rng::{combine, hash_bytes};

/// text form of an attribute: long ones are abbreviated
pub fn fold(s: String) -> String {
    if s.len() > 160 { format!("#{:016x}", hash_bytes(s.as_bytes())) } else { s }
}
pub fn token_attr(tag: &str, lexeme: &str, loc: &str) -> String {
    fold(format!("{tag}<{lexeme}>@{loc}"))
}
pub fn error_attr(err: &str) -> String {
    fold(format!("E({err})"))
}
pub fn node_attr(id: u32, args: &[String]) -> String {
    fold(format!("N{id}({})", args.join(",")))
}
/// What a predicate of a generated parser answers
pub fn holds(id: u32, args: &[String], tag: Option<&str>, actions: u64, salt: u64) -> bool {
    let mut h = combine(id as u64, salt);
    // parser state: what the actions have left (coarse, so that a history can make a difference)
    h = combine(h, actions / 2);
    for a in args {
        h = combine(h, hash_bytes(a.as_bytes()));
    }
    if let Some(t) = tag {
        h = combine(h, hash_bytes(t.as_bytes()));
    }
    h % 3 != 0
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Event {
    Action(u32, Vec<String>),
    Report(String),
    Panic(u64),
    Result(Option<String>),
}
impl Event {
    pub fn hash(&self) -> u64 {
        hash_bytes(format!("{self:?}").as_bytes())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Injection {
    /// number of the action call that injects
    pub at: u32,
    pub text: String,
    pub label: String,
}

/// What the environment does during a parse
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Script {
    pub text: String,
    pub label: String,
    pub inject: Vec<Injection>,
    /// number of the callback (actions and reports) that panics
    pub panic_at: Option<u64>,
    /// changes the answers of predicates
    pub salt: u64,
}

pub struct Outcome {
    pub events: Vec<Event>,
    pub steps: u64,
    /// ran out of steps: the grammar loops
    pub endless: bool,
    pub reductions: u64,
    pub recoveries: u64,
    pub injected: u64,
    pub lexical: u64,
    pub syntax: u64,
    pub predicates: u64,
    pub deepest: usize,
    /// the most states that recovery went back over
    pub popped: usize,
    /// the most tokens and errors discarded before a place to resume at was found
    pub passed: u64,
    /// for each event: a predicate was asked between it and the event before it
    pub by_predicate: Vec<bool>,
    asked: bool,
}
impl Outcome {
    fn push(&mut self, e: Event) {
        self.by_predicate.push(std::mem::take(&mut self.asked));
        self.events.push(e);
    }
}

fn set_names(g: &Grammar, t: &Tables, s: crate::lalr::Set) -> String {
    let mut names: Vec<&str> = (0..t.end).filter(|i| s & (1 << i) != 0).map(|i| g.toks[i as usize].name.as_str()).collect();
    if s & (1 << t.end) != 0 {
        names.push("AAEnd");
    }
    names.sort();
    names.join(" ")
}

pub fn describe_item(g: &Grammar, it: &Item) -> String {
    match &it.what {
        Lexed::Tok(t) => format!("Token {} <{}> @{}", g.toks[*t as usize].name, it.lexeme, it.loc.text()),
        Lexed::Unexpected => format!("Unexpected <{}> @{}", it.lexeme, it.loc.text()),
        Lexed::Ambiguous(tags) => {
            let mut names: Vec<&str> = tags.iter().map(|t| g.toks[*t as usize].name.as_str()).collect();
            names.sort();
            format!("Ambiguous [{}] <{}> @{}", names.join(" "), it.lexeme, it.loc.text())
        }
    }
}

pub const MAX_STEPS: u64 = 60_000;

pub fn parse(g: &Grammar, t: &Tables, lexer: &Lexer, script: &Script) -> Outcome {
    let mut o = Outcome { events: vec![], steps: 0, endless: false, reductions: 0, recoveries: 0, injected: 0, lexical: 0, syntax: 0, predicates: 0, deepest: 0, popped: 0, passed: 0, by_predicate: vec![], asked: false };
    let mut toks = Stream::new(lexer, &script.text, &script.label);
    let mut states: Vec<u32> = vec![0];
    let mut attrs: Vec<String> = vec![];
    let mut tried: Vec<u32> = vec![];
    let mut result: Option<String> = None;
    let mut actions = 0u32;
    let mut callbacks = 0u64;
    loop {
        o.steps += 1;
        o.deepest = o.deepest.max(states.len());
        if o.steps > MAX_STEPS || states.len() > 20_000 {
            o.endless = true;
            return o;
        }
        let st = &t.states[*states.last().unwrap() as usize];
        let (tag, what) = match toks.front() {
            Front::Item(it) => match it.what {
                Lexed::Tok(tag) => (Some(tag), describe_item(g, &it)),
                _ => (None, describe_item(g, &it)),
            },
            Front::End(loc) => (Some(t.end), format!("Token AAEnd <> @{}", loc.text())),
            Front::Empty => (None, "Empty".to_string()),
        };
        let mut error = tag.is_none();
        if let Some(tag) = tag {
            let name = if tag == t.end { "AAEnd" } else { &g.toks[tag as usize].name };
            let mut reduce = None;
            match st.actions.get(&tag) {
                Some(Action::Accept) => {
                    o.push(Event::Result(result));
                    return o;
                }
                Some(Action::Shift(next)) => {
                    if let Front::Item(it) = toks.front() {
                        attrs.push(token_attr(name, &it.lexeme, &it.loc.text()));
                    }
                    states.push(*next);
                    tried.clear();
                    toks.advance();
                }
                Some(Action::Reduce(ps)) => {
                    for p in ps {
                        let len = t.prods[*p as usize].rhs.len();
                        if !t.prods[*p as usize].pred {
                            reduce = Some(*p);
                            break;
                        }
                        let pred = g.prods[*p as usize - 1].pred.as_ref().unwrap();
                        let args: Vec<String> = pred.args.iter().map(|a| attrs[attrs.len() - len + *a as usize - 1].clone()).collect();
                        o.predicates += 1;
                        o.asked = true;
                        if holds(pred.number(*p as u32), &args, pred.tag.then_some(name), actions as u64, script.salt) {
                            reduce = Some(*p);
                            break;
                        }
                    }
                    error = reduce.is_none();
                }
                None => error = true,
            }
            if let Some(p) = reduce {
                o.reductions += 1;
                let pd = &t.prods[p as usize];
                let n = pd.rhs.len();
                let rhs = attrs.split_off(attrs.len() - n);
                states.truncate(states.len() - n);
                let next = t.states[*states.last().unwrap() as usize].gotos[&pd.lhs];
                let lhs = rhs.first().cloned().unwrap_or_else(|| "-".to_string());
                let act = if pd.lhs == ERR || pd.lhs == START { &Act::Silent } else { &g.prods[p as usize - 1].act };
                let attr = match act {
                    Act::Silent => lhs,
                    Act::Node { args, inject } | Act::Look { args, inject } => {
                        let vals: Vec<String> = args.iter().map(|a| if *a == 0 { lhs.clone() } else { rhs[*a as usize - 1].clone() }).collect();
                        let a = if matches!(act, Act::Node { .. }) { node_attr(p as u32, &vals) } else { lhs };
                        if script.panic_at == Some(callbacks) {
                            o.push(Event::Panic(callbacks));
                            return o;
                        }
                        callbacks += 1;
                        o.push(Event::Action(p as u32, vals));
                        if *inject {
                            for i in script.inject.iter().filter(|i| i.at == actions) {
                                toks.inject_after_front(&i.text, &i.label);
                                o.injected += 1;
                            }
                        }
                        actions += 1;
                        a
                    }
                };
                attrs.push(attr);
                states.push(next);
            }
        }
        if !error {
            continue;
        }
        let err = format!("{what} expected {}", set_names(g, t, st.expected));
        if tag.is_some() { o.syntax += 1 } else { o.lexical += 1 }
        if script.panic_at == Some(callbacks) {
            o.push(Event::Panic(callbacks));
            return o;
        }
        callbacks += 1;
        o.push(Event::Report(err.clone()));
        result = Some(err.clone());
        // the first token, from the current one on, for which a state permits recovery
        let mut found = None;
        let mut passed = 0;
        while !toks.is_empty() {
            if let Front::Item(Item { what: Lexed::Tok(tag), .. }) = toks.front() {
                found = states.iter().rposition(|s| !tried.contains(s) && t.states[*s as usize].recover & (1 << tag) != 0);
                if found.is_some() {
                    break;
                }
            }
            toks.advance();
            passed += 1;
            tried.clear();
        }
        let Some(i) = found else {
            o.push(Event::Result(result));
            return o;
        };
        o.recoveries += 1;
        o.passed = o.passed.max(passed);
        o.popped = o.popped.max(states.len() - 1 - i);
        tried.push(states[i]);
        states.truncate(i + 1);
        attrs.truncate(i);
        states.push(t.states[states[i] as usize].err_goto.unwrap());
        attrs.push(error_attr(&err));
    }
}
