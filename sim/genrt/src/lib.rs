//! What generated parsers of the corpus are linked with: the user's side of a parser
pub use gram::engine::{self, Event, Script};
pub use simkit::inproc::quiet;
pub use {alalr1, lalr1, lexan};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::sync::Arc;

/// A parse made by an action of another parse
pub type Nested = Box<dyn FnMut() + Send>;

/// A parser object made from a generated parser
pub trait Generated: Send {
    fn sim(&mut self) -> &mut Sim;
    /// Err(error) as text, Ok(()) as None
    fn parse_text(&mut self, text: String, label: String) -> Option<String>;
}

/// How tokens are shown to people, by name
pub type Spell = Arc<BTreeMap<String, String>>;

#[derive(Default)]
pub struct Sim {
    pub spell: Spell,
    pub script: Script,
    pub events: Vec<Event>,
    pub actions: u32,
    pub callbacks: u64,
    pub nested: Option<(u32, Nested)>,
    pub switch_points: bool,
}
impl Sim {
    fn callback(&mut self) {
        if self.switch_points {
            simkit::inproc::point();
        }
        if self.script.panic_at == Some(self.callbacks) {
            quiet(|| self.events.push(Event::Panic(self.callbacks)));
            std::panic::panic_any("callback");
        }
        self.callbacks += 1;
    }
    pub fn report(&mut self, text: String) {
        self.callback();
        quiet(|| self.events.push(Event::Report(text)));
    }
    pub fn check_shown<T: Debug + std::fmt::Display>(&mut self, t: &T) {
        quiet(|| {
            let (is, want) = (t.to_string(), self.spell.get(&format!("{t:?}")));
            if want.is_some_and(|w| *w != is) {
                self.events.push(Event::Report(format!("PANIC token shown as {is} instead of {}", want.unwrap())));
            }
        })
    }
    // called by action code
    pub fn look(&mut self, id: u32, args: &[String]) {
        self.callback();
        quiet(|| self.events.push(Event::Action(id, args.to_vec())));
    }
    pub fn node(&mut self, id: u32, args: &[String]) -> String {
        self.look(id, args);
        quiet(|| engine::node_attr(id, args))
    }
    pub fn injections(&mut self) -> Vec<(String, String)> {
        let v = quiet(|| self.script.inject.iter().filter(|i| i.at == self.actions).map(|i| (i.text.clone(), i.label.clone())).collect());
        self.done();
        v
    }
    pub fn done(&mut self) {
        if let Some((at, f)) = &mut self.nested
            && *at == self.actions
        {
            f();
        }
        self.actions += 1;
    }
    // called by predicates
    pub fn holds(&self, id: u32, args: &[String], tag: Option<&str>) -> bool {
        quiet(|| engine::holds(id, args, tag, self.actions as u64, self.script.salt))
    }
}

pub fn loc_text(l: &lexan::Location) -> String {
    format!("{}:{}:{}", l.label(), l.line_number(), l.offset())
}
pub fn names<'a, T: Debug + 'a>(tags: impl Iterator<Item = &'a T>) -> String {
    let mut v: Vec<String> = tags.map(|t| format!("{t:?}")).collect();
    v.sort();
    v.join(" ")
}
pub fn token_text<T: Debug + std::fmt::Display + Copy + PartialEq + Eq + PartialOrd + Ord>(t: &lexan::Token<T>) -> String {
    format!("Token {:?} <{}> @{}", t.tag(), t.lexeme(), loc_text(t.location()))
}
pub fn lex_error_text<T: Debug + std::fmt::Display + Copy + PartialEq + Eq + PartialOrd + Ord>(e: &lexan::Error<T>) -> String {
    match e {
        lexan::Error::UnexpectedText(s, l) => format!("Unexpected <{s}> @{}", loc_text(l)),
        lexan::Error::AmbiguousMatches(tags, s, l) => format!("Ambiguous [{}] <{s}> @{}", names(tags.0.iter()), loc_text(l)),
        lexan::Error::AdvancedWhenEmpty(_) => "Empty".to_string(),
    }
}

/// The user's types; `$engine` is the engine's crate
#[macro_export]
macro_rules! glue {
    ($engine:ident, $attr:ident, $target:ident) => {
        #[derive(Clone)]
        pub struct $attr(pub String);
        impl Default for $attr {
            fn default() -> Self {
                genrt::quiet(|| $attr("-".to_string()))
            }
        }
        impl From<lexan::Token<AATerminal>> for $attr {
            fn from(t: lexan::Token<AATerminal>) -> Self {
                genrt::quiet(|| $attr(genrt::engine::token_attr(&format!("{:?}", t.tag()), t.lexeme(), &genrt::loc_text(t.location()))))
            }
        }
        fn error_text(e: &$engine::Error<AATerminal>) -> String {
            match e {
                $engine::Error::LexicalError(e, x) => format!("{} expected {}", genrt::lex_error_text(e), genrt::names(x.iter())),
                $engine::Error::SyntaxError(t, x) => format!("{} expected {}", genrt::token_text(t), genrt::names(x.iter())),
            }
        }
        impl From<$engine::Error<AATerminal>> for $attr {
            fn from(e: $engine::Error<AATerminal>) -> Self {
                genrt::quiet(|| $attr(genrt::engine::error_attr(&error_text(&e))))
            }
        }
        #[derive(Default)]
        pub struct $target {
            pub sim: genrt::Sim,
        }
        impl $engine::ReportError<AATerminal> for $target {
            fn report_error(&mut self, e: &$engine::Error<AATerminal>) {
                let text = genrt::quiet(|| error_text(e));
                self.sim.report(text);
                match e {
                    $engine::Error::LexicalError(_, x) => x.iter().for_each(|t| self.sim.check_shown(t)),
                    $engine::Error::SyntaxError(t, x) => std::iter::once(t.tag()).chain(x.iter()).for_each(|t| self.sim.check_shown(t)),
                }
            }
        }
        impl genrt::Generated for $target {
            fn sim(&mut self) -> &mut genrt::Sim {
                &mut self.sim
            }
            fn parse_text(&mut self, text: String, label: String) -> Option<String> {
                use $engine::Parser;
                match Parser::parse_text(self, &text, &label) {
                    Ok(()) => None,
                    Err(e) => Some(genrt::quiet(|| error_text(&e))),
                }
            }
        }
        pub fn new() -> Box<dyn genrt::Generated> {
            Box::new($target::default())
        }
    };
}

/// A parse; returns what was observed
pub fn parse(p: &mut dyn Generated, script: &Script, nested: Option<(u32, Nested)>, points: bool, spell: &Spell) -> Vec<Event> {
    let (text, label) = quiet(|| {
        let s = p.sim();
        *s = Sim { script: script.clone(), nested, switch_points: points, spell: spell.clone(), ..Sim::default() };
        (script.text.clone(), script.label.clone())
    });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.parse_text(text, label)));
    quiet(|| {
        p.sim().nested = None;
        let mut events = std::mem::take(&mut p.sim().events);
        match r {
            Ok(r) => events.push(Event::Result(r)),
            Err(e) => {
                let text = simkit::inproc::panic_text(&*e);
                if text != "callback" {
                    events.push(Event::Report(format!("PANIC {text}")));
                }
            }
        }
        events
    })
}
