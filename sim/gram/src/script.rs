//! What the environment does during parses
use crate::engine::{self, Injection, Script};
use crate::generate;
use crate::grammar::*;
use crate::lalr::{self, Tables};
use crate::lex::Lexer;
use simkit::rng::Rng;

pub fn label(r: &mut Rng) -> String {
    r.pick(&["t", "text one", "été", "", "a:b", "f.txt"]).to_string()
}
/// `level`: 0 sentences, 1 some damage, 2 a lot
pub fn script(r: &mut Rng, g: &Grammar, level: u8, max: usize, inject: bool) -> Script {
    let one = |r: &mut Rng, max: usize| {
        let damage = match level {
            0 => false,
            1 => r.chance(1, 2),
            _ => true,
        };
        let mut s = generate::text(r, g, damage, max);
        if level == 2 && r.chance(1, 2) {
            let k = r.log(30) as usize;
            s = generate::corrupt(r, &s, k);
        }
        s
    };
    let mut text = one(r, max);
    if level == 2 && r.chance(1, 3) {
        for _ in 0..r.below(4) {
            text.push_str(&one(r, max));
        }
    }
    let mut inj = vec![];
    if inject {
        for _ in 0..r.below(5) {
            let at = if r.chance(2, 3) { r.below(6) } else { r.below(40) } as u32;
            let text = if r.chance(1, 6) { " ".to_string() } else { one(r, 10) };
            let text = if r.chance(1, 2) {
                // a few tokens rather than a whole sentence
                let n = r.log(4) as usize;
                let toks: Vec<u16> = (0..n).map(|_| r.below(g.toks.len() as u64) as u16).collect();
                generate::render(r, g, &toks)
            } else {
                text
            };
            inj.push(Injection { at, text, label: label(r) });
        }
    }
    Script { text, label: label(r), inject: inj, panic_at: None, salt: r.below(1000) }
}

/// The one of some scripts in which most happens of what matters for a property
pub fn best(r: &mut Rng, which: u8, g: &Grammar, t: &Tables, lexer: &Lexer, level: u8, max: usize, inject: bool) -> Option<Script> {
    let far = which == 18 && max >= LONG && r.chance(1, 3);
    let merit = |s: &Script| {
        let o = engine::parse(g, t, lexer, s);
        let merit = match which {
            18 if far => 100 * o.passed + o.recoveries,
            16 => o.reductions + 5 * o.injected,
            17 => 3 * (o.lexical + o.syntax) + o.reductions,
            18 if max >= LONG => o.recoveries + 20 * o.popped as u64 + o.reductions / 8,
            _ => 5 * o.recoveries + 2 * o.popped as u64 + o.reductions / 4,
        };
        (!o.endless && o.steps < 20_000).then_some(merit)
    };
    let n = 1 + r.below(5);
    let (mut most, mut s) = (0..n)
        .filter_map(|_| {
            let s = script(r, g, level, max, inject);
            merit(&s).map(|m| (m, s))
        })
        .max_by_key(|x| x.0)?;
    if max >= LONG {
        // a long text: a part of it very often
        let chars: Vec<char> = s.text.chars().collect();
        for _ in 0..if which == 18 { 24 } else { 8 } {
            let a = r.idx(chars.len() + 1);
            let b = (a + r.log(40) as usize).min(chars.len());
            let times = [70, 140, 270, 300, 1100][r.idx(5)].min(12_000 / (b - a + 1));
            let mut text: String = chars[..b].iter().collect();
            let mut piece: String = chars[a..b].iter().collect();
            let mut times = times;
            if far && r.chance(3, 4) {
                // what can't be resumed at
                let toks: Vec<u16> = (0..1 + r.below(2)).map(|_| r.below(g.toks.len() as u64) as u16).collect();
                piece = generate::render(r, g, &toks);
                piece.push(' ');
                times = (1100 + r.idx(500)).min(14_000 / piece.len());
            }
            for _ in 0..times {
                text.push_str(&piece);
            }
            text.extend(&chars[b..]);
            let long = Script { text, ..s.clone() };
            if let Some(m) = merit(&long)
                && m > most
            {
                (most, s) = (m, long);
            }
        }
    }
    Some(s)
}
pub const LONG: usize = 300;

/// Tables with one mistake
pub fn mistaken(r: &mut Rng, g: &Grammar, t: &Tables) -> Option<Tables> {
    if r.chance(1, 2) {
        let weak = *r.pick(&lalr::WEAK);
        return if t.shows(g, weak) { Tables::build_as(g, weak) } else { None };
    }
    let mut t = t.clone();
    let i = r.idx(t.states.len());
    let s = &mut t.states[i];
    let toks: Vec<u16> = s.actions.keys().copied().collect();
    if toks.is_empty() {
        return None;
    }
    let tok = *r.pick(&toks);
    match s.actions.get_mut(&tok).unwrap() {
        lalr::Action::Reduce(ps) if ps.len() > 1 && r.chance(1, 2) => ps.swap(0, 1),
        _ if s.recover != 0 && r.chance(1, 3) => s.recover &= r.next() as crate::lalr::Set * ((1 << 64) + 1),
        _ => {
            s.actions.remove(&tok);
        }
    }
    Some(t)
}
/// A script that shows a mistake in the tables
pub fn showing(r: &mut Rng, g: &Grammar, t: &Tables, lexer: &Lexer, tries: u32) -> Option<Script> {
    let m = mistaken(r, g, t)?;
    for k in 0..tries {
        let level = [0, 1, 0, 1, 2][k as usize % 5];
        let inject = r.chance(1, 6);
        let max = *r.pick(&[6, 14, 30]);
        let s = script(r, g, level, max, inject);
        let o = engine::parse(g, t, lexer, &s);
        if !o.endless && o.events != engine::parse(g, &m, lexer, &s).events {
            return Some(s);
        }
    }
    None
}
