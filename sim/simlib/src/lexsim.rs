//! C12 - C15: token streams
use crate::Res;
use crate::kit::*;
use gram::generate;
use gram::grammar::*;
use gram::lalr::Tables;
use gram::lex::{self, Front, Lexed, Lexer, Stream};
use lexan::TokenStream;
use serde::{Deserialize, Serialize};
use simkit::inproc::{self, Schedule, quiet};
use simkit::rng::Rng;
use simkit::runner::{Obs, violation};
use std::sync::{Arc, Mutex};

macro_rules! z64 {
    () => {
        "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz"
    };
}
const LITS: &[&str] = &[
    "a", "ab", "abc", "abcd", "b", "if", "iff", "i", "+", "++", "+=", "=", "==", "===", "é", "日", "日本", "日本語", "<", "<<", "<<=", "-", "->", "1", "12", ".", "..", "...",
    "x", "xy", "(", ")", "foo", "foobar", "😀", "\u{301}", "e\u{301}", "ß", "ss", "*/", "//", "\"", ";", ";;", "true", "t", "\r", "\u{0}",
];
/// literals longer than small numbers
const LONG: &[&str] = &[
    concat!(z64!(), z64!(), z64!(), z64!()),
    concat!(z64!(), z64!(), z64!(), z64!(), "z"),
    concat!(z64!(), z64!(), z64!(), z64!(), z64!(), "!"),
];
const REGS: &[&str] = &[
    "[a-z]+", "(a|ab)", "(ab|a)(c|bcd)?", "a*", "a+b*", "[0-9]+", "[0-9]+(\\.[0-9]+)?", "([0-9]+|[0-9]+\\.[0-9]*)", "\"[^\"]*\"", "(\"[^\"\\n]*\")", "[^\\s]", "(?i)if", "(?i:foo)", "\\p{Greek}+",
    "x{2,3}", "é+", "[日本語]+", "(.)", "(.|\\n)x", "(if|iff|i)", "(?s)<.*?>", "<[^>]*>", "[a-zA-Z_][a-zA-Z0-9_]*", "(a|b)*c", "[+=-]+", "\\.+", "b?", "(x*)(y*)", "\\w\\w?", "(foo|foobar)", "foo|bar|a",
    "a|b|ab", "[^a-z\\s]+", "\\d{3}", "(?s).{4}", "\\PL", "[\\u{1F600}-\\u{1F64F}]", "(;|;;)", "[^;]*;", "(true|false)", "ss|ß", "(?-u:a)b", "[a&&[^b]]+",
];
const SKIPS: &[&str] = &["\\s+", "(\\s+)", "\\s", "\\s*", "(//[^\\n\\r]*)", "(?s)/\\*.*?\\*/", "(#.*)", " ", "\\n|,", "(\\r\\n|\\n)", "[ \\t]+", "(_+)", "x*y", "( |\\t)*"];
/// skip patterns of which the first one that matches decides
const RIVALS: &[[&str; 3]] = &[["(#.*)", "#", "(#+a?)"], ["(##[a-z]*)", "(#)", "(#\\s)"], ["(//[^\\n\\r]*)", "(/)", "//"], ["(_+)", "(_a?)", "(__?x*)"], [" ", "( a)", "(\\s+b?)"], ["\\n", "(\\na)", "(\\r?\\n[ \\t]*)"]];
const BITS: &[&str] = &[
    "a", "b", "c", "d", "ab", "abc", "if", "IF", "iff", " ", " ", "\n", "\r\n", "\r", "\n\n", "\t", "//", "/*", "*/", "é", "日", "本語", "α", "ω", "1", "12", "3.14", ".", "\"", "<", ">", "=", "+", "x", "xx", "y",
    "#", ",", "_", "##", "__", " a", "/", "\na", "😀", "\u{301}", "\u{0}", "ß", "s", "foo", "bar", ";", "?", "£", "\u{2028}", "\u{85}", "\u{b}", "\u{c}", "(", "true", "false",
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Lexicon {
    pub toks: Vec<Tok>,
    pub skips: Vec<String>,
}
impl Lexicon {
    fn grammar(&self) -> Option<Grammar> {
        let mut texts: Vec<&str> = self.toks.iter().map(|t| t.text.as_str()).chain(self.skips.iter().map(|s| s.as_str())).collect();
        texts.sort();
        let n = texts.len();
        texts.dedup();
        if texts.len() != n || texts.iter().any(|t| t.is_empty()) || self.toks.len() > 60 {
            return None;
        }
        for p in self.toks.iter().filter(|t| t.re).map(|t| &t.text).chain(self.skips.iter()) {
            // the pattern has to mean the same by itself
            if regex::Regex::new(p).is_err() || regex::Regex::new(&format!("\\A(?:{p})")).is_err() || regex::Regex::new(&format!("\\A{p}")).is_err() {
                return None;
            }
            if p.starts_with(['*', '+', '?', '{']) || p.contains("\\b") || p.contains('^') && !p.contains("[^") {
                return None;
            }
        }
        Some(Grammar { augmented: false, toks: self.toks.clone(), skips: self.skips.clone(), levels: vec![], nts: vec![], prods: vec![], style: 0 })
    }
}
fn no_tables() -> Tables {
    Tables { end: 0, prods: vec![], states: vec![], sr: 0, rr: 0, lr0_items: 0 }
}

fn lexicon(r: &mut Rng) -> Lexicon {
    let tame = r.chance(1, 3);
    let mut toks = vec![];
    let mut used: Vec<&str> = vec![];
    let nl = r.below(if tame { 8 } else { 14 });
    let nr = r.below(if tame { 4 } else { 8 });
    for i in 0..nl + nr {
        let re = i >= nl;
        let t = *r.pick(if re { REGS } else { LITS });
        if used.contains(&t) {
            continue;
        }
        used.push(t);
        toks.push(Tok { name: format!("{}{}", if re { "R" } else { "L" }, toks.len()), re, text: t.to_string() });
    }
    if r.chance(1, 20) {
        for t in LONG {
            if r.chance(1, 2) {
                toks.push(Tok { name: format!("L{}", toks.len()), re: false, text: t.to_string() });
            }
        }
    }
    if r.chance(1, 2) {
        r.shuffle(&mut toks);
    }
    let mut skips: Vec<String> = vec![];
    for _ in 0..r.weighted(&[1, 3, 3, 1]) {
        let s = r.pick(SKIPS).to_string();
        if !skips.contains(&s) && !used.contains(&s.as_str()) {
            skips.push(s);
        }
    }
    if r.chance(1, 6) {
        let mut more = *r.pick(RIVALS);
        r.shuffle(&mut more);
        for s in &more[..2 + r.idx(2)] {
            if !skips.iter().any(|x| x == s) && !used.contains(s) {
                skips.insert(r.idx(skips.len() + 1), s.to_string());
            }
        }
    }
    Lexicon { toks, skips }
}
fn bits(r: &mut Rng, l: &Lexicon, max: u64) -> String {
    let n = r.log(max);
    let mut s = String::new();
    for _ in 0..n {
        if r.chance(1, 3) && !l.toks.is_empty() {
            let t = r.pick(&l.toks);
            if !t.re {
                s.push_str(&t.text);
                continue;
            }
        }
        s.push_str(*r.pick(BITS));
    }
    if r.chance(1, 2) {
        let k = 1 + r.below(4) as usize;
        s = generate::corrupt(r, &s, k);
    }
    s
}
/// Now and then some piece of a text very often
fn stretch(r: &mut Rng, l: &Lexicon, s: String) -> String {
    stretch_if(r, l, s, 60, false)
}
fn stretch_if(r: &mut Rng, l: &Lexicon, s: String, rarely: u64, wide: bool) -> String {
    if !r.chance(1, rarely) {
        return s;
    }
    // patterns that look for their alternatives anywhere take too long
    let calm = l.toks.iter().filter(|t| t.re).map(|t| t.text.as_str()).chain(l.skips.iter().map(|s| s.as_str())).all(|p| p.starts_with('('));
    let chars: Vec<char> = s.chars().collect();
    let a = r.idx(chars.len() + 1);
    let b = (a + 1 + r.idx(3)).min(chars.len());
    let b = if wide { b.min(a + 1) } else { b };
    let times = if wide && calm { 66_000 + r.idx(3000) } else { [130, 256, 300, 1000, 4096, 33_000, 66_000][r.idx(if calm { 7 } else { 4 })] };
    let mut text: String = chars[..b].iter().collect();
    for _ in 0..times / (b - a + 1) {
        text.extend(&chars[a..b]);
    }
    text.extend(&chars[b..]);
    text
}

/// what is in front of a real stream
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Seen {
    /// a token's name, `?` unexpected, `!names` ambiguous, `end` or `empty`
    pub what: String,
    pub lexeme: String,
    pub label: String,
    pub line: usize,
    pub off: usize,
}
fn seen(r: Result<lexan::Token<Tag>, lexan::Error<Tag>>) -> Seen {
    let mk = |what: String, lexeme: &str, l: &lexan::Location| {
        let (is, shown) = (l.to_string(), loc_shown(l));
        // (never part of what is expected)
        let what = if is == shown { what } else { format!("{what} with a location shown as {is:?} instead of {shown:?}") };
        Seen { what, lexeme: lexeme.to_string(), label: l.label().clone(), line: l.line_number(), off: l.offset() }
    };
    match r {
        Ok(t) => {
            let k = kit(t.tag().k as usize);
            let end = t.tag().n as usize == k.g.toks.len();
            mk(if end { "end".into() } else { t.tag().to_string() }, t.lexeme(), t.location())
        }
        Err(lexan::Error::UnexpectedText(s, l)) => mk("?".into(), &s, &l),
        Err(lexan::Error::AmbiguousMatches(tags, s, l)) => {
            let mut v: Vec<String> = tags.0.iter().map(|t| t.to_string()).collect();
            v.sort();
            mk(format!("!{}", v.join(" ")), &s, &l)
        }
        Err(lexan::Error::AdvancedWhenEmpty(l)) => mk("empty".into(), "", &l),
    }
}
fn model_seen(g: &Grammar, f: Front, last: &Seen) -> Seen {
    match f {
        Front::Item(i) => {
            let what = match &i.what {
                Lexed::Tok(t) => g.toks[*t as usize].name.clone(),
                Lexed::Unexpected => "?".into(),
                Lexed::Ambiguous(tags) => {
                    let mut v: Vec<&str> = tags.iter().map(|t| g.toks[*t as usize].name.as_str()).collect();
                    v.sort();
                    format!("!{}", v.join(" "))
                }
            };
            Seen { what, lexeme: i.lexeme, label: i.loc.label, line: i.loc.line, off: i.loc.off }
        }
        Front::End(l) => Seen { what: "end".into(), lexeme: String::new(), label: l.label, line: l.line, off: l.off },
        Front::Empty => Seen { what: "empty".into(), lexeme: String::new(), label: last.label.clone(), line: last.line, off: last.off },
    }
}
impl Seen {
    fn brief(&self) -> String {
        format!("{} {:?} at {}:{}:{}", self.what, self.lexeme, self.label, self.line, self.off)
    }
    fn hash(&self) -> u64 {
        simkit::rng::hash_bytes(self.brief().as_bytes())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Advance,
    FrontAdvance,
    AdvanceFront,
    Inject(String, String),
    After(String, String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StreamPlan {
    pub lex: Lexicon,
    pub text: String,
    pub label: String,
    pub ops: Vec<Op>,
    pub rand: u64,
}

/// Applies an operation to the real stream; what is delivered (if anything)
fn apply(s: &mut TokenStream<Tag>, op: &Op) -> Option<Seen> {
    match op {
        Op::Advance => {
            s.advance();
            None
        }
        Op::FrontAdvance => {
            let f = s.front_advance();
            Some(quiet(|| seen(f)))
        }
        Op::AdvanceFront => {
            let f = s.advance_front();
            Some(quiet(|| seen(f)))
        }
        Op::Inject(t, l) => {
            s.inject(t, l);
            None
        }
        Op::After(t, l) => {
            s.inject_after_front(t, l);
            None
        }
    }
}
fn front(s: &TokenStream<Tag>) -> Seen {
    let f = s.front();
    quiet(|| seen(f))
}

pub const POINTS: u64 = 400_000_000;

/// Runs the operations on a real stream; (after the operation, delivered, empty)
fn run_stream(plan: &StreamPlan, obs: &mut Obs) -> Result<Vec<(Seen, Option<Seen>, bool)>, simkit::runner::Violation> {
    let (r, st) = inproc::simulate(&Schedule::solo(plan.rand), POINTS + 20_000 * (plan.text.len() + plan.ops.len()) as u64, || {
        let a = kit(0).new_analyzer(0);
        let mut s = a.token_stream(&plan.text, &plan.label);
        let mut out = vec![];
        out.push((front(&s), None, s.is_empty()));
        for op in &plan.ops {
            let d = apply(&mut s, op);
            let e = s.is_empty();
            let f = front(&s);
            quiet(|| out.push((f, d, e)));
        }
        out
    });
    obs.steps += st.points;
    match r {
        Ok(v) => Ok(v),
        Err(e) => violation("panic", format!("the token stream panicked: {e}")),
    }
}

fn label(r: &mut Rng) -> String {
    if r.chance(1, 40) {
        return format!("{}/é", r.pick(&["dir", "a directory", "ö"])).repeat(3 + r.idx(80));
    }
    r.pick(&["t", "text one", "été", "", "a:b", "f.txt", "日本", "\"q\"", "tab\tbed", " before", "after ", " ", "two\nlines", "./t", "T", "t.", "C:\\t", "%s{}", "\u{feff}t", "t\u{0}"]).to_string()
}

// ---- C12
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct P12 {
    pub lex: Lexicon,
    pub text: String,
    pub how: u8,
    pub rand: u64,
}
pub fn make12(r: &mut Rng, _i: u64) -> P12 {
    if r.chance(1, 4) {
        let (g, _) = generate::grammar(r, &generate::Wanted { augmented: false, errors: false, conflicts: 0, max_states: 120, focus: gram::lalr::Weak::No });
        let text = generate::text(r, &g, true, 60);
        let k = r.below(12) as usize;
        let text = generate::corrupt(r, &text, k);
        return P12 { lex: Lexicon { toks: g.toks, skips: g.skips }, text, how: r.below(3) as u8, rand: r.next() >> 8 };
    }
    let lex = lexicon(r);
    let max = if r.chance(1, 20) { 600 } else { 50 };
    let text = bits(r, &lex, max);
    let text = stretch(r, &lex, text);
    P12 { lex, text, how: r.below(3) as u8, rand: r.next() >> 8 }
}
pub fn exec12(p: &P12, obs: &mut Obs) -> Res {
    let Some(g) = p.lex.grammar() else { return Ok(()) };
    install(0, &g, no_tables());
    let lexer = Lexer::new(&g);
    let (items, _) = lexer.all(&p.text, "t");
    let ops = items.iter().map(|_| if p.how == 0 { Op::Advance } else if p.how == 1 { Op::FrontAdvance } else { Op::AdvanceFront }).collect();
    let got = run_stream(&StreamPlan { lex: p.lex.clone(), text: p.text.clone(), label: "t".into(), ops, rand: p.rand }, obs)?;
    let mut errors = 0;
    let mut at = 0;
    for (i, (f, d, _)) in got.iter().enumerate() {
        obs.hist(f.hash());
        obs.note(|| f.brief());
        let want = match items.get(i) {
            Some(it) => model_seen(&g, Front::Item(it.clone()), f),
            None => {
                if f.what != if items.is_empty() { "empty" } else { "end" } {
                    return violation("extra", format!("after everything in {:?} there is still {}", p.text, f.brief()));
                }
                continue;
            }
        };
        let it = &items[i];
        errors += !matches!(it.what, Lexed::Tok(_)) as u64;
        // independently of the rules: the text it names
        if f.what != "end" && f.what != "empty" {
            let place = place(&p.text, f.line, f.off);
            match place {
                Some(b) if b >= at && p.text[b..].starts_with(&f.lexeme) && !f.lexeme.is_empty() => at = b + f.lexeme.len(),
                _ => return violation("text", format!("item {i} of {:?} is {} which is not the text at its location (or was delivered before)", p.text, f.brief())),
            }
        }
        if (&f.what, &f.lexeme, f.line, f.off) != (&want.what, &want.lexeme, want.line, want.off) {
            return violation("differs", format!("item {i} of {:?} should be {} but is {}", p.text, want.brief(), f.brief()));
        }
        if p.how == 1 && i > 0 && d.as_ref() != Some(&got[i - 1].0) || p.how == 2 && i > 0 && d.as_ref() != Some(f) {
            return violation("delivery", format!("item {i} of {:?}: delivered {d:?}", p.text));
        }
    }
    obs.nontrivial = !items.is_empty();
    obs.count("items", items.len() as u64);
    obs.count("fault.unexpected or ambiguous text", errors);
    obs.count("skipped bytes", (p.text.len() - items.iter().map(|i| i.lexeme.len()).sum::<usize>()) as u64);
    obs.fingerprint = obs.history;
    Ok(())
}
fn place(text: &str, line: usize, off: usize) -> Option<usize> {
    let mut start = 0;
    for _ in 1..line {
        start += text[start..].find('\n')? + 1;
    }
    let b = start + off.checked_sub(1)?;
    (b <= text.len() && text.is_char_boundary(b) && !text[start..b].contains('\n')).then_some(b)
}

// ---- C13, C14
pub fn make13(r: &mut Rng, _i: u64) -> StreamPlan {
    stream_plan(r, false)
}
pub fn make14(r: &mut Rng, _i: u64) -> StreamPlan {
    stream_plan(r, true)
}
fn lines(r: &mut Rng, s: &str, skips: bool) -> String {
    // a mixture of line endings between (and, if it happens, within) the items
    let mut out = String::new();
    for c in s.chars() {
        if r.chance(1, 6) && skips {
            out.push_str(*r.pick(&["\n", "\r\n", "\r", "\n\r", "\n\n", " \n ", "\t", "\r\r\n"]));
        }
        out.push(c);
    }
    out
}
fn stream_plan(r: &mut Rng, lined: bool) -> StreamPlan {
    let lex = lexicon(r);
    let longest = *r.pick(&[3, 10, 30]);
    let n = if r.chance(1, 40) { 80 + r.idx(500) } else { r.log(40) as usize };
    let one = |r: &mut Rng, k: u64| {
        if r.chance(1, 6) {
            return r.pick(&["", " ", "\n", "\r\n \n", "// x", "/* */", "\t\n"]).to_string();
        }
        let b = bits(r, &lex, k);
        if lined { lines(r, &b, true) } else { b }
    };
    let text = one(r, 20);
    let text = if lined { stretch_if(r, &lex, text, 20, true) } else { stretch(r, &lex, text) };
    let weights = match r.below(4) {
        0 => [5, 3, 3, 1, 1],
        1 => [3, 1, 1, 4, 4],
        2 => [1, 1, 1, 1, 8],
        _ => [6, 2, 2, 2, 2],
    };
    let mut ops = vec![];
    if !lined && r.chance(1, 40) {
        // very many texts wait for each other
        let after = r.below(4);
        for _ in 0..[130, 257, 270, 520, 1030][r.idx(5)] {
            let t = one(r, 3);
            ops.push(if r.below(4) < after { Op::After(t, label(r)) } else { Op::Inject(t, label(r)) });
        }
        for _ in 0..r.below(2000) {
            ops.push(Op::Advance);
        }
    }
    for _ in 0..n {
        ops.push(match r.weighted(&weights) {
            0 => Op::Advance,
            1 => Op::FrontAdvance,
            2 => Op::AdvanceFront,
            3 => {
                let t = one(r, longest);
                Op::Inject(t, label(r))
            }
            _ => {
                let t = one(r, longest);
                Op::After(t, label(r))
            }
        });
    }
    // use everything up
    if r.chance(2, 3) {
        for _ in 0..r.below(80) {
            ops.push(Op::Advance);
        }
        if r.chance(1, 2) {
            let t = one(r, longest);
            ops.push(if r.chance(1, 2) { Op::Inject(t, label(r)) } else { Op::After(t, label(r)) });
            for _ in 0..r.below(12) {
                ops.push(Op::FrontAdvance);
            }
        }
    }
    let label = label(r);
    StreamPlan { lex, text, label, ops, rand: r.next() >> 8 }
}
pub fn exec13(p: &StreamPlan, obs: &mut Obs) -> Res {
    exec_stream(p, obs, false)
}
pub fn exec14(p: &StreamPlan, obs: &mut Obs) -> Res {
    exec_stream(p, obs, true)
}
fn exec_stream(p: &StreamPlan, obs: &mut Obs, locations: bool) -> Res {
    let Some(g) = p.lex.grammar() else { return Ok(()) };
    install(0, &g, no_tables());
    let lexer = Lexer::new(&g);
    let got = run_stream(p, obs)?;
    let mut m = Stream::new(&lexer, &p.text, &p.label);
    let mut last = model_seen(&g, m.front(), &got[0].0);
    let cut = |s: &Seen| {
        if locations {
            s.clone()
        } else {
            Seen { line: 0, off: 0, label: if s.what == "end" || s.what == "empty" { String::new() } else { s.label.clone() }, ..s.clone() }
        }
    };
    // where a never used stream says it is empty is of no interest
    let bare = |s: &Seen, was: &Seen| if s.what == "empty" && was.what == "empty" { Seen { line: 0, off: 0, label: String::new(), ..s.clone() } } else { s.clone() };
    let mut inj = 0;
    let mut deep = 0;
    for (i, (f, d, e)) in got.iter().enumerate() {
        let before = last.clone();
        if i > 0 {
            match &p.ops[i - 1] {
                Op::Advance | Op::FrontAdvance | Op::AdvanceFront => m.advance(),
                Op::Inject(t, l) => {
                    deep += !m.is_empty() as u64;
                    m.inject(t, l);
                    inj += 1;
                }
                Op::After(t, l) => {
                    deep += !m.is_empty() as u64;
                    m.inject_after_front(t, l);
                    inj += 1;
                }
            }
            last = model_seen(&g, m.front(), &before);
        }
        let what = || if i == 0 { "at first".to_string() } else { format!("after operation {} {:?}", i - 1, p.ops[i - 1]) };
        let want = last.clone();
        obs.hist(f.hash());
        obs.note(|| format!("{}: {}", what(), f.brief()));
        let (a, b) = (bare(&cut(f), &before), bare(&cut(&want), &before));
        if a != b {
            return violation(if f.what == want.what { "location" } else { "front" }, format!("{} the front is {} but should be {}", what(), f.brief(), want.brief()));
        }
        if *e != m.is_empty() {
            return violation("empty", format!("{} the stream says empty: {e}", what()));
        }
        match p.ops.get(i.wrapping_sub(1)) {
            Some(Op::FrontAdvance) if i > 0 => {
                let d = d.as_ref().unwrap();
                if *d != got[i - 1].0 {
                    return violation("delivery", format!("{} delivered {} instead of {}", what(), d.brief(), got[i - 1].0.brief()));
                }
            }
            Some(Op::AdvanceFront) if i > 0 => {
                let d = d.as_ref().unwrap();
                if d != f {
                    return violation("delivery", format!("{} delivered {} instead of {}", what(), d.brief(), f.brief()));
                }
            }
            _ => (),
        }
    }
    obs.count("operations", p.ops.len() as u64);
    obs.count("fault.injections", inj);
    obs.count("injections into a text in use", deep);
    obs.count("fault.lexical errors", got.iter().filter(|x| x.0.what.starts_with(['?', '!'])).count() as u64);
    obs.count("ends reached", got.iter().filter(|x| x.0.what == "end").count() as u64);
    obs.nontrivial = if locations { got.iter().any(|x| x.0.line > 1) } else { deep > 0 };
    obs.fingerprint = obs.history;
    Ok(())
}

// ---- C15
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Part {
    pub text: String,
    pub label: String,
    pub ops: Vec<Op>,
    /// operations performed by the thread that starts the others
    pub before: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct P15 {
    pub lexs: Vec<Lexicon>,
    /// the streams of each thread: (analyzer, stream)
    pub threads: Vec<Vec<(u8, Part)>>,
    /// which of its streams a thread advances next
    pub turns: u64,
    pub sched: Schedule,
}
pub fn make15(r: &mut Rng, _i: u64) -> P15 {
    let nl = 1 + r.chance(1, 3) as usize;
    let lexs: Vec<Lexicon> = (0..nl).map(|_| lexicon(r)).collect();
    let nt = 1 + r.weighted(&[1, 4, 3, 1]);
    // texts of which several streams are made, as a whole or as the end of a longer text
    let same = r.chance(1, 3);
    let shared: Vec<String> = (0..if same { 1 } else { r.below(4) })
        .map(|_| {
            let n = if r.chance(1, 2) { 4 } else { 30 };
            bits(r, &lexs[0], n)
        })
        .collect();
    let threads = (0..nt)
        .map(|_| {
            (0..1 + r.below(3))
                .map(|_| {
                    let a = r.below(nl as u64) as u8;
                    let l = lexs[a as usize].clone();
                    let piece = |r: &mut Rng, n: u64| {
                        if shared.is_empty() || r.chance(1, if same { 8 } else { 3 }) {
                            return bits(r, &l, n);
                        }
                        let mut t = if r.chance(1, 2) { bits(r, &l, 3) } else { String::new() };
                        t.push_str(r.pick(&shared));
                        t
                    };
                    let text = piece(r, 25);
                    let mut ops = vec![];
                    for _ in 0..r.log(30) {
                        ops.push(match r.weighted(&[6, 3, 3, 1, 1]) {
                            0 => Op::Advance,
                            1 => Op::FrontAdvance,
                            2 => Op::AdvanceFront,
                            3 => Op::Inject(piece(r, 8), label(r)),
                            _ => Op::After(piece(r, 8), label(r)),
                        });
                    }
                    let before = if r.chance(1, 4) { 1 + r.below(ops.len() as u64) as u32 } else { 0 };
                    (a, Part { text, label: label(r), ops, before })
                })
                .collect()
        })
        .collect();
    P15 { lexs, threads, turns: r.next() >> 8, sched: Schedule::random(r, 60, 20_000) }
}
type History = Vec<Seen>;
fn step(s: &mut TokenStream<Tag>, op: &Op, out: &mut History) {
    if let Some(d) = apply(s, op) {
        quiet(|| out.push(d));
    }
    let f = front(s);
    let e = s.is_empty();
    quiet(|| {
        out.push(f);
        if e {
            out.last_mut().unwrap().lexeme.push_str(" (empty)");
        }
    });
}
pub fn exec15(p: &P15, obs: &mut Obs) -> Res {
    let gs: Vec<Option<Grammar>> = p.lexs.iter().map(|l| l.grammar()).collect();
    if gs.iter().any(|g| g.is_none()) || gs.is_empty() || gs.len() > KITS || p.threads.iter().flatten().any(|x| x.0 as usize >= gs.len()) {
        return Ok(());
    }
    for (k, g) in gs.iter().enumerate() {
        install(k, g.as_ref().unwrap(), no_tables());
    }
    // what each stream delivers when there is nothing else in the world
    let parts: Vec<&(u8, Part)> = p.threads.iter().flatten().collect();
    // (most of the time the same process makes them one after the other, each with an analyzer of its own)
    let together = if p.turns % 4 == 0 { 1 } else { parts.len().max(1) };
    let mut flat: Vec<History> = vec![];
    for group in parts.chunks(together) {
        let r = inproc::in_child(|| {
            let v: Vec<Result<History, String>> = group
                .iter()
                .map(|(a, part)| {
                    let (r, _) = inproc::simulate(&Schedule::solo(p.sched.rand), POINTS, || {
                        let an = kit(*a as usize).new_analyzer(*a as usize);
                        let mut s = an.token_stream(&part.text, &part.label);
                        let mut out = vec![front(&s)];
                        for op in &part.ops {
                            step(&mut s, op, &mut out);
                        }
                        out
                    });
                    r
                })
                .collect();
            serde_json::to_vec(&v).unwrap()
        });
        match r {
            Ok(b) => {
                for h in serde_json::from_slice::<Vec<Result<History, String>>>(&b).unwrap_or_default() {
                    match h {
                        Ok(h) => flat.push(h),
                        Err(e) => return violation("alone", format!("a stream by itself ends with {e}")),
                    }
                }
            }
            Err(e) => return violation("alone", format!("a stream by itself ends with {e}")),
        }
    }
    if flat.len() != parts.len() {
        return violation("alone", "a stream by itself leaves no report".to_string());
    }
    let mut flat = flat.into_iter();
    let alone: Vec<Vec<History>> = p.threads.iter().map(|t| t.iter().map(|_| flat.next().unwrap()).collect()).collect();
    let (r, st) = inproc::simulate(&p.sched, POINTS, || {
        let analyzers: Arc<Vec<lexan::LexicalAnalyzer<Tag>>> = Arc::new((0..p.lexs.len()).map(|k| kit(k).new_analyzer(k)).collect());
        let result: Arc<Mutex<Vec<(usize, Vec<History>)>>> = Arc::new(Mutex::new(vec![]));
        let mut handles = vec![];
        for (n, parts) in p.threads.iter().enumerate() {
            let (analyzers, result, parts) = quiet(|| (analyzers.clone(), result.clone(), parts.clone()));
            let turns = p.turns ^ (n as u64) << 20;
            let mut streams: Vec<Option<(TokenStream<Tag>, History, usize)>> = vec![];
            for (a, part) in &parts {
                if part.before > 0 {
                    let mut s = analyzers[*a as usize].token_stream(&part.text, &part.label);
                    let mut out = quiet(|| vec![]);
                    let f = front(&s);
                    quiet(|| out.push(f));
                    let k = (part.before as usize - 1).min(part.ops.len());
                    for op in &part.ops[..k] {
                        step(&mut s, op, &mut out);
                    }
                    quiet(|| streams.push(Some((s, out, k))));
                } else {
                    streams.push(None);
                }
            }
            let work = move || {
                let mut rng = Rng::new(turns);
                loop {
                    let open: Vec<usize> = quiet(|| (0..parts.len()).filter(|i| streams[*i].as_ref().is_none_or(|s| s.2 < parts[*i].1.ops.len())).collect());
                    if open.is_empty() {
                        break;
                    }
                    let i = *quiet(|| rng.pick(&open));
                    let (a, part) = &parts[i];
                    match &mut streams[i] {
                        None => {
                            let s = analyzers[*a as usize].token_stream(&part.text, &part.label);
                            let f = front(&s);
                            quiet(|| streams[i] = Some((s, vec![f], 0)));
                        }
                        Some((s, out, at)) => {
                            step(s, &part.ops[*at], out);
                            *at += 1;
                        }
                    }
                }
                let h: Vec<History> = quiet(|| streams.iter_mut().map(|s| std::mem::take(&mut s.as_mut().unwrap().1)).collect());
                drop(streams);
                quiet(|| result.lock().unwrap().push((n, h)));
            };
            handles.push(std::thread::spawn(work));
        }
        let mut bad = None;
        for h in handles {
            if let Err(e) = h.join() {
                bad = Some(inproc::panic_text(&*e));
            }
        }
        quiet(|| (bad, std::mem::take(&mut *result.lock().unwrap())))
    });
    obs.steps += st.points;
    let (bad, mut got) = match r {
        Ok(x) => x,
        Err(e) => return violation("panic", format!("panicked: {e}")),
    };
    if let Some(b) = bad {
        return violation("panic", format!("a thread panicked: {b}"));
    }
    got.sort_by_key(|x| x.0);
    for (n, hs) in got {
        for (i, h) in hs.iter().enumerate() {
            for (k, s) in h.iter().enumerate() {
                obs.hist(s.hash());
                let want = alone[n].get(i).and_then(|a| a.get(k));
                if want != Some(s) {
                    return violation("differs", format!("thread {n}, stream {i}, observation {k}: {} but alone {}", s.brief(), want.map(|w| w.brief()).unwrap_or("nothing".into())));
                }
            }
            if h.len() != alone[n][i].len() {
                return violation("differs", format!("thread {n}, stream {i}: {} observations, {} alone", h.len(), alone[n][i].len()));
            }
        }
    }
    obs.hist(st.hash);
    obs.count("fault.context switches", st.switches + st.forced);
    obs.count("fault.preemptions", st.switches);
    obs.count("accesses to memory that several threads write", st.shared);
    obs.count("threads", st.created);
    obs.count("streams", p.threads.iter().map(|t| t.len() as u64).sum());
    obs.count("blocked waits", st.blocks);
    obs.note(|| format!("{st:?}"));
    obs.nontrivial = st.switches > 0 || p.threads.iter().any(|t| t.len() > 1);
    obs.fingerprint = simkit::rng::combine(st.hash, obs.history);
    Ok(())
}
const _: fn(&str, usize, &str) -> lex::Loc = lex::location;
