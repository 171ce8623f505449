//! Parsers driven by the tables of a random grammar, for both engines
use gram::engine::{self, Event, Script};
use gram::grammar::*;
use gram::lalr::{Action, ERR, START, Tables};
use lexan::{LexicalAnalyzer, Token};
use simkit::inproc::quiet;
use std::fmt;
use std::sync::OnceLock;
use std::sync::atomic::{AtomicPtr, Ordering::SeqCst};

pub const KITS: usize = 4;
static REG: [AtomicPtr<Kit>; KITS] = [const { AtomicPtr::new(std::ptr::null_mut()) }; KITS];

pub struct Kit {
    pub g: Grammar,
    pub t: Tables,
    pub lexer: gram::lex::Lexer,
    analyzer: OnceLock<LexicalAnalyzer<Tag>>,
}

/// Makes `g` the grammar of number `k`
pub fn install(k: usize, g: &Grammar, t: Tables) {
    let kit = Box::new(Kit { g: g.clone(), t, lexer: gram::lex::Lexer::new(g), analyzer: OnceLock::new() });
    let old = REG[k].swap(Box::into_raw(kit), SeqCst);
    if !old.is_null() {
        drop(unsafe { Box::from_raw(old) });
    }
}
pub fn kit(k: usize) -> &'static Kit {
    unsafe { &*REG[k].load(SeqCst) }
}
impl Kit {
    pub fn new_analyzer(&self, k: usize) -> LexicalAnalyzer<Tag> {
        let (mut lits, mut res): (Vec<(Tag, &str)>, Vec<(Tag, &str)>) = (vec![], vec![]);
        for (i, t) in self.g.toks.iter().enumerate() {
            let tag = Tag { k: k as u8, n: i as u16 };
            if t.re { res.push((tag, &t.text)) } else { lits.push((tag, &t.text)) }
        }
        let skips: Vec<&str> = self.g.skips.iter().map(|s| s.as_str()).collect();
        LexicalAnalyzer::new(&lits, &res, &skips, Tag { k: k as u8, n: self.g.toks.len() as u16 })
    }
    pub fn name(&self, n: u16) -> &str {
        self.g.toks.get(n as usize).map(|t| t.name.as_str()).unwrap_or("AAEnd")
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Tag {
    pub k: u8,
    pub n: u16,
}
impl fmt::Display for Tag {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(kit(self.k as usize).name(self.n))
    }
}
impl fmt::Debug for Tag {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(kit(self.k as usize).name(self.n))
    }
}

pub fn loc_text(l: &lexan::Location) -> String {
    format!("{}:{}:{}", l.label(), l.line_number(), l.offset())
}
fn names<'a>(tags: impl Iterator<Item = &'a Tag>) -> String {
    let mut v: Vec<String> = tags.map(|t| t.to_string()).collect();
    v.sort();
    v.join(" ")
}
pub fn token_text(t: &Token<Tag>) -> String {
    format!("Token {} <{}> @{}", t.tag(), t.lexeme(), loc_text(t.location()))
}
pub fn lex_error_text(e: &lexan::Error<Tag>) -> String {
    match e {
        lexan::Error::UnexpectedText(s, l) => format!("Unexpected <{s}> @{}", loc_text(l)),
        lexan::Error::AmbiguousMatches(tags, s, l) => format!("Ambiguous [{}] <{s}> @{}", names(tags.0.iter()), loc_text(l)),
        lexan::Error::AdvancedWhenEmpty(_) => "Empty".to_string(),
    }
}
pub fn error_text(e: &lalr1::Error<Tag>) -> String {
    match e {
        lalr1::Error::LexicalError(e, x) => format!("{} expected {}", lex_error_text(e), names(x.iter())),
        lalr1::Error::SyntaxError(t, x) => format!("{} expected {}", token_text(t), names(x.iter())),
    }
}
pub fn aerror_text(e: &alalr1::Error<Tag>) -> String {
    match e {
        alalr1::Error::LexicalError(e, x) => format!("{} expected {}", lex_error_text(e), names(x.iter())),
        alalr1::Error::SyntaxError(t, x) => format!("{} expected {}", token_text(t), names(x.iter())),
    }
}

/// How locations and errors are shown to people
pub fn loc_shown(l: &lexan::Location) -> String {
    let place = format!("{}:{}", l.line_number(), l.offset());
    match l.label().as_str() {
        "" => place,
        s if s.contains([' ', '\t']) => format!("\"{s}\":{place}"),
        s => format!("{s}:{place}"),
    }
}
fn tags_shown<'a>(x: impl Iterator<Item = &'a Tag>) -> String {
    x.map(|t| t.to_string()).collect::<Vec<_>>().join(", ")
}
fn token_shown(t: &Token<Tag>) -> String {
    format!("{}({}) at {}", t.tag(), t.lexeme(), loc_shown(t.location()))
}
fn lex_error_shown(e: &lexan::Error<Tag>) -> String {
    match e {
        lexan::Error::UnexpectedText(s, l) => format!("Unexpected text {s} at  {}", loc_shown(l)),
        lexan::Error::AmbiguousMatches(v, s, l) => format!("Unexpected text [[{}]] {s} at  {}", v.0.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(", "), loc_shown(l)),
        lexan::Error::AdvancedWhenEmpty(l) => format!("Advanced when empty at {}", loc_shown(l)),
    }
}
macro_rules! shown {
    ($name:ident, $text:ident, $engine:ident) => {
        /// (what is shown, is it fatal)
        fn $name(e: &$engine::Error<Tag>) -> (String, bool) {
            match e {
                $engine::Error::LexicalError(e, x) => (format!("Lexical error: {} expected {}.", lex_error_shown(e), tags_shown(x.iter())), e.is_ambiguous_match()),
                $engine::Error::SyntaxError(t, x) => (format!("Syntax error: {} expected {}.", token_shown(t), tags_shown(x.iter())), false),
            }
        }
        impl<const K: usize> $engine::ReportError<Tag> for Sim<K> {
            fn report_error(&mut self, e: &$engine::Error<Tag>) {
                let text = quiet(|| $text(e));
                self.report(text);
                let (shown, fatal) = quiet(|| $name(e));
                let is = e.to_string();
                if is != shown {
                    quiet(|| self.events.push(Event::Report(format!("PANIC shown as {is:?} instead of {shown:?}"))));
                    std::panic::panic_any("callback");
                }
                if self.plain {
                    // what a parser does that has no way of its own to report errors
                    struct Plain;
                    impl $engine::ReportError<Tag> for Plain {}
                    quiet(|| if fatal { self.fatal = true } else { self.shown.push_str(&shown) });
                    $engine::ReportError::report_error(&mut Plain, e);
                }
            }
        }
    };
}
shown!(error_shown, error_text, lalr1);
shown!(aerror_shown, aerror_text, alalr1);

/// The attribute of a symbol
pub struct Att(pub String);
impl Default for Att {
    fn default() -> Att {
        quiet(|| Att("-".into()))
    }
}
impl From<Token<Tag>> for Att {
    fn from(t: Token<Tag>) -> Att {
        quiet(|| Att(engine::token_attr(&t.tag().to_string(), t.lexeme(), &loc_text(t.location()))))
    }
}
impl From<lalr1::Error<Tag>> for Att {
    fn from(e: lalr1::Error<Tag>) -> Att {
        quiet(|| Att(engine::error_attr(&error_text(&e))))
    }
}
impl From<alalr1::Error<Tag>> for Att {
    fn from(e: alalr1::Error<Tag>) -> Att {
        quiet(|| Att(engine::error_attr(&aerror_text(&e))))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct Nt(pub u16);
impl fmt::Display for Nt {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "N{}", self.0)
    }
}
impl fmt::Debug for Nt {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "N{}", self.0)
    }
}

/// A parse made by an action of another parse
pub type Nested = Box<dyn FnMut() + Send>;

#[derive(Default)]
pub struct Sim<const K: usize> {
    pub script: Script,
    pub events: Vec<Event>,
    pub actions: u32,
    pub callbacks: u64,
    pub nested: Option<(u32, Nested)>,
    pub switch_points: bool,
    /// errors are also reported in the way that is there by default,
    pub plain: bool,
    /// which must have written this
    pub shown: String,
    pub fatal: bool,
}

impl<const K: usize> Sim<K> {
    pub fn begin(&mut self, script: &Script) {
        self.script = script.clone();
        self.events = vec![];
        self.actions = 0;
        self.callbacks = 0;
        self.shown = String::new();
        self.fatal = false;
    }
    fn callback(&mut self) {
        if self.switch_points {
            simkit::inproc::point();
        }
        if self.script.panic_at == Some(self.callbacks) {
            quiet(|| self.events.push(Event::Panic(self.callbacks)));
            std::panic::panic_any("callback");
        }
        self.callbacks += 1;
    }
    fn report(&mut self, text: String) {
        self.callback();
        quiet(|| self.events.push(Event::Report(text)));
    }
    fn act(&mut self, id: u32, attributes: Vec<Att>, mut inject: impl FnMut(String, String)) -> Att {
        let kit = kit(K);
        let rhs: Vec<String> = quiet(|| attributes.into_iter().map(|a| a.0).collect());
        let wanted = kit.t.prods.get(id as usize).map(|p| p.rhs.len());
        if wanted != Some(rhs.len()) {
            quiet(|| self.events.push(Event::Action(id, vec![format!("{} attributes instead of {wanted:?}", rhs.len())])));
            std::panic::panic_any("wrong attributes");
        }
        let lhs = quiet(|| rhs.first().cloned().unwrap_or_else(|| "-".to_string()));
        let pd = &kit.t.prods[id as usize];
        let act = if pd.lhs == ERR || pd.lhs == START { &Act::Silent } else { &kit.g.prods[id as usize - 1].act };
        let (args, injects, node) = match act {
            Act::Silent => return Att(lhs),
            Act::Node { args, inject } => (args, *inject, true),
            Act::Look { args, inject } => (args, *inject, false),
        };
        let vals: Vec<String> = quiet(|| args.iter().map(|a| if *a == 0 { lhs.clone() } else { rhs[*a as usize - 1].clone() }).collect());
        self.callback();
        let a = quiet(|| if node { engine::node_attr(id, &vals) } else { lhs });
        quiet(|| self.events.push(Event::Action(id, vals)));
        if injects {
            for n in 0..self.script.inject.len() {
                if self.script.inject[n].at == self.actions {
                    let (text, label) = quiet(|| (self.script.inject[n].text.clone(), self.script.inject[n].label.clone()));
                    inject(text, label);
                }
            }
        }
        if let Some((at, f)) = &mut self.nested
            && *at == self.actions
        {
            f();
        }
        self.actions += 1;
        Att(a)
    }
    fn decide(&self, state: u32, tag: Tag, attr: impl Fn(usize) -> String) -> Result<Act1, ()> {
        let kit = kit(K);
        let st = kit.t.states.get(state as usize).ok_or(())?;
        match st.actions.get(&tag.n) {
            None => Err(()),
            Some(Action::Accept) => Ok(Act1::Accept),
            Some(Action::Shift(s)) => Ok(Act1::Shift(*s)),
            Some(Action::Reduce(ps)) => {
                for p in ps {
                    let pd = &kit.t.prods[*p as usize];
                    if !pd.pred {
                        return Ok(Act1::Reduce(*p as u32));
                    }
                    let pred = kit.g.prods[*p as usize - 1].pred.as_ref().unwrap();
                    let args: Vec<String> = pred.args.iter().map(|a| attr(pd.rhs.len() - *a as usize + 1)).collect();
                    if engine::holds(pred.number(*p as u32), &args, pred.tag.then_some(kit.name(tag.n)), self.actions as u64, self.script.salt) {
                        return Ok(Act1::Reduce(*p as u32));
                    }
                }
                Err(())
            }
        }
    }
}
enum Act1 {
    Accept,
    Shift(u32),
    Reduce(u32),
}

fn recovery_states(tag: &Tag, k: usize) -> lalr1::OrderedSet<u32> {
    kit(k).t.states.iter().enumerate().filter(|(_, s)| s.recover & (1 << tag.n) != 0).map(|(i, _)| i as u32).collect()
}
fn expected(state: u32, k: usize) -> lalr1::OrderedSet<Tag> {
    let s = kit(k).t.states[state as usize].expected;
    (0..128u16).filter(|i| s & (1 << i) != 0).map(|n| Tag { k: k as u8, n }).collect()
}
fn goto(lhs: &Nt, state: u32, k: usize) -> u32 {
    match kit(k).t.states.get(state as usize).and_then(|s| s.gotos.get(&lhs.0)) {
        Some(s) => *s,
        None => panic!("no goto from state {state} for {lhs}"),
    }
}
fn err_goto(state: u32, k: usize) -> u32 {
    kit(k).t.states[state as usize].err_goto.unwrap_or_else(|| panic!("no error goto from state {state}"))
}
fn data(id: u32, k: usize) -> (Nt, usize) {
    let p = &kit(k).t.prods[id as usize];
    (Nt(p.lhs), p.rhs.len())
}


macro_rules! parser {
    ($engine:ident, [$($stack:ident : $ty:ty)?], $attr:expr) => {
        impl<const K: usize> $engine::Parser<Tag, Nt, Att> for Sim<K> {
            fn lexical_analyzer(&self) -> &LexicalAnalyzer<Tag> {
                let kit = kit(K);
                kit.analyzer.get_or_init(|| kit.new_analyzer(K))
            }
            fn next_action(&self, state: u32, $($stack: $ty,)? o_token: &Token<Tag>) -> $engine::Action {
                quiet(|| {
                    let attr: &dyn Fn(usize) -> String = &$attr($($stack)?);
                    match self.decide(state, *o_token.tag(), attr) {
                        Err(()) => $engine::Action::SyntaxError,
                        Ok(Act1::Accept) => $engine::Action::Accept,
                        Ok(Act1::Shift(s)) => $engine::Action::Shift(s),
                        Ok(Act1::Reduce(p)) => $engine::Action::Reduce(p),
                    }
                })
            }
            fn production_data(id: u32) -> (Nt, usize) {
                data(id, K)
            }
            fn goto_state(lhs: &Nt, state: u32) -> u32 {
                goto(lhs, state, K)
            }
            fn do_semantic_action<F: FnMut(String, String)>(&mut self, id: u32, attributes: Vec<Att>, inject: F) -> Att {
                self.act(id, attributes, inject)
            }
            fn viable_error_recovery_states(tag: &Tag) -> lalr1::OrderedSet<u32> {
                quiet(|| recovery_states(tag, K))
            }
            fn error_goto_state(state: u32) -> u32 {
                err_goto(state, K)
            }
            fn look_ahead_set(state: u32) -> lalr1::OrderedSet<Tag> {
                quiet(|| expected(state, K))
            }
        }
    };
}
fn no_attr() -> impl Fn(usize) -> String {
    |_| unreachable!()
}
fn stack_attr(s: &alalr1::ParseStack<Tag, Nt, Att>) -> impl Fn(usize) -> String + '_ {
    |n| s.at_len_minus_n(n).0.clone()
}
parser!(lalr1, [], no_attr);
parser!(alalr1, [stack: &alalr1::ParseStack<Tag, Nt, Att>], stack_attr);

/// A parse with either engine; returns what was observed
pub fn parse<const K: usize>(sim: &mut Sim<K>, augmented: bool, script: &Script) -> Vec<Event> {
    quiet(|| sim.begin(script));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if augmented {
            match alalr1::Parser::parse_text(sim, &script.text, &script.label) {
                Ok(()) => None,
                Err(e) => Some(quiet(|| aerror_text(&e))),
            }
        } else {
            match lalr1::Parser::parse_text(sim, &script.text, &script.label) {
                Ok(()) => None,
                Err(e) => Some(quiet(|| error_text(&e))),
            }
        }
    }));
    quiet(|| {
        let mut events = std::mem::take(&mut sim.events);
        match r {
            Ok(r) => events.push(Event::Result(r)),
            Err(e) => {
                let text = simkit::inproc::panic_text(&*e);
                if text != "callback" {
                    events.push(Event::Report(format!("PANIC {text}")));
                }
            }
        }
        events
    })
}
/// A parser object of any of the installed grammars
pub enum Any {
    K0(Sim<0>),
    K1(Sim<1>),
    K2(Sim<2>),
    K3(Sim<3>),
}
impl Any {
    pub fn new(k: usize) -> Any {
        match k {
            0 => Any::K0(Sim::default()),
            1 => Any::K1(Sim::default()),
            2 => Any::K2(Sim::default()),
            _ => Any::K3(Sim::default()),
        }
    }
    /// A parse that reports errors to standard error; also what that should have received and whether an
    /// ambiguity should have ended it
    pub fn parse_plainly(&mut self, augmented: bool, script: &Script) -> (Vec<Event>, String, bool) {
        let Any::K0(s) = self else { unreachable!() };
        s.plain = true;
        let r = parse(s, augmented, script);
        s.plain = false;
        (r, quiet(|| std::mem::take(&mut s.shown)), s.fatal)
    }
    pub fn parse(&mut self, augmented: bool, script: &Script, nested: Option<(u32, Nested)>, points: bool) -> Vec<Event> {
        macro_rules! go {
            ($s:expr) => {{
                $s.nested = nested;
                $s.switch_points = points;
                let r = parse($s, augmented, script);
                $s.nested = None;
                r
            }};
        }
        match self {
            Any::K0(s) => go!(s),
            Any::K1(s) => go!(s),
            Any::K2(s) => go!(s),
            Any::K3(s) => go!(s),
        }
    }
}
