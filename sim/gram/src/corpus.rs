//! The grammars of which parsers are generated and compiled
use crate::emit;
use crate::generate::{self, Wanted};
use crate::grammar::*;
use crate::lalr::{Tables, Weak, WEAK};
use serde::{Deserialize, Serialize};
use simkit::rng::Rng;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Failure {
    /// refused: by the generator; uncompilable: what it produced
    pub class: String,
    pub text: String,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Entry {
    pub index: u32,
    pub part: u32,
    pub g: Grammar,
    pub spec: String,
    pub failed: Option<Failure>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Corpus {
    pub kind: String,
    pub seed: u64,
    pub entries: Vec<Entry>,
}

/// Grammar number `index` of the corpus of a property and a seed
pub fn grammar(kind: &str, seed: u64, index: u32) -> (Grammar, Tables) {
    let mut r = Rng::for_run(seed, &format!("corpus {kind}"), index as u64);
    let predicates = kind == "C21";
    let r = &mut r;
    if !predicates && index % 48 == 17 {
        return big(r);
    }
    let weak = WEAK[index as usize * 2 / 3 % WEAK.len()];
    let showing = index % 3 != 2;
    // most of them of them must be of a kind that shows a mistake
    let mut tries = 0;
    loop {
        let w = Wanted {
            augmented: predicates || r.chance(1, 3) || showing && weak.needs_predicates(),
            errors: if predicates { r.chance(1, 3) } else { r.chance(3, 5) } || showing && weak.needs_errors(),
            conflicts: if r.chance(1, 2) { 0 } else { 6 },
            max_states: *r.pick(&[20, 45, 90]),
            focus: if showing { weak } else { Weak::No },
        };
        let (mut g, t) = generate::grammar(r, &w);
        if t.states.len() < 8 && r.chance(3, 4) || g.toks.len() > 60 {
            continue;
        }
        if predicates {
            // what is reduced must show
            for p in g.prods.iter_mut() {
                if p.act == Act::Silent {
                    p.act = Act::Node { args: (1..=p.rhs.len() as u8).collect(), inject: false };
                }
            }
            let n = g.prods.iter().filter(|p| p.pred.is_some()).count();
            if n < 2 && r.chance(3, 4) {
                continue;
            }
        }
        if r.chance(1, 6) {
            lengthen(r, &mut g);
        }
        let Some(t) = generate::acceptable(&g) else { continue };
        if t.sr > w.conflicts || t.rr > w.conflicts {
            continue;
        }
        tries += 1;
        if showing && tries < 100 && !t.shows(&g, weak) {
            continue;
        }
        return (g, t);
    }
}
/// More tokens than a word has bits, more productions and states than a byte can number
pub fn big(r: &mut Rng) -> (Grammar, Tables) {
    loop {
        let mut g = Grammar { augmented: r.chance(1, 2), toks: vec![], skips: vec!["(\\s+)".into()], levels: vec![], nts: vec!["Top".into(), "Stmt".into()], prods: vec![], style: r.next() >> 16 };
        let nt = 70 + r.below(40) as u16;
        for i in 0..nt {
            let (name, re, text) = match i {
                0 => ("Semi".to_string(), false, ";".to_string()),
                1 => ("Id".into(), true, "([A-Z][a-z]*)".into()),
                2 => ("Num".into(), true, "([0-9]+)".into()),
                i => (format!("K{i}"), false, format!("k{i}_")),
            };
            g.toks.push(Tok { name, re, text });
        }
        let prod = |r: &mut Rng, g: &mut Grammar, lhs: u16, rhs: Vec<Sym>| {
            let mut args: Vec<u8> = (1..=rhs.len() as u8).collect();
            if r.chance(1, 4) {
                r.shuffle(&mut args);
            }
            g.prods.push(Prod { lhs, rhs, prec: None, pred: None, act: Act::Node { args, inject: r.chance(1, 3) } });
        };
        prod(r, &mut g, 0, vec![Sym::N(1), Sym::T(0)]);
        prod(r, &mut g, 0, vec![Sym::N(0), Sym::N(1), Sym::T(0)]);
        // tails: of one non terminal each, reached from several places
        let tails = 40 + r.below(20) as u16;
        for i in 0..tails {
            g.nts.push(format!("Tail{i}"));
        }
        let wanted = 262 + r.idx(40);
        for i in 0..tails {
            for _ in 0..2 + r.below(2) {
                let mut rhs: Vec<Sym> = vec![Sym::T(1 + r.below(nt as u64 - 1) as u16)];
                if r.chance(1, 4) {
                    rhs.push(Sym::T(1 + r.below(nt as u64 - 1) as u16));
                }
                if r.chance(1, 5) && i + 1 < tails {
                    rhs.push(Sym::N(2 + i + 1 + r.below((tails - i - 1) as u64) as u16));
                }
                prod(r, &mut g, 2 + i, rhs);
            }
            if r.chance(1, 6) {
                prod(r, &mut g, 2 + i, vec![]);
            }
        }
        if r.chance(2, 3) {
            prod(r, &mut g, 1, vec![Sym::E]);
        }
        while g.prods.len() < wanted {
            let mut rhs: Vec<Sym> = vec![Sym::T(1 + r.below(nt as u64 - 1) as u16)];
            if r.chance(2, 3) {
                rhs.push(Sym::T(1 + r.below(nt as u64 - 1) as u16));
            }
            if r.chance(1, 2) {
                rhs.push(Sym::N(2 + r.below(tails as u64) as u16));
            }
            if !g.prods.iter().any(|p| p.lhs == 1 && p.rhs == rhs) {
                prod(r, &mut g, 1, rhs);
            }
        }
        g.toks.push(Tok { name: "Last".into(), re: false, text: "last".into() });
        prod(r, &mut g, 1, vec![Sym::T(nt), Sym::T(nt)]);
        generate::tidy(&mut g);
        let Some(t) = generate::acceptable(&g) else { continue };
        if t.states.len() > 256 && g.prods.len() > 258 {
            return (g, t);
        }
    }
}
/// Some productions get ten symbols and more
fn lengthen(r: &mut Rng, g: &mut Grammar) {
    for _ in 0..1 + r.below(2) {
        let preds: Vec<usize> = (0..g.prods.len()).filter(|i| g.prods[*i].pred.is_some()).collect();
        let i = if !preds.is_empty() && r.chance(2, 3) { *r.pick(&preds) } else { r.idx(g.prods.len()) };
        let rhs = g.prods[i].rhs.clone();
        let more: Vec<Sym> = (rhs.len() as u64..10 + r.below(3)).map(|_| Sym::T(r.below(g.toks.len() as u64) as u16)).collect();
        for p in g.prods.iter_mut().filter(|p| p.rhs == rhs) {
            p.rhs.extend(&more);
            let n = p.rhs.len() as u8;
            if let Act::Node { args, .. } | Act::Look { args, .. } = &mut p.act {
                args.extend(rhs.len() as u8 + 1..=n);
                r.shuffle(args);
                args.truncate(n as usize - r.idx(3).min(n as usize - 1));
            }
            if let Some(pred) = &mut p.pred {
                pred.args.extend(rhs.len() as u8 + 1..=n);
                r.shuffle(&mut pred.args);
            }
        }
    }
}
pub fn names(g: &Grammar) -> (&'static str, &'static str) {
    *Rng::new(g.style ^ 77).pick(&[("AttributeData", "Target"), ("Att", "Parser1"), ("Value", "Calc"), ("A", "T")])
}
pub fn specification(g: &Grammar, t: &Tables) -> String {
    let mut r = Rng::new(g.style ^ 78);
    let (attr, target) = names(g);
    let engine = if g.augmented { "alalr1" } else { "lalr1" };
    let head = *r.pick(&["\n", "\n// a parser\n", " /* %% %} */\n", "\n\n"]);
    let head = if head.contains("%}") { "\n" } else { head };
    let preamble = format!("{head}genrt::glue!({engine}, {attr}, {target});\n");
    emit::specification(g, &emit::Options { preamble: &preamble, attr, target, expect_sr: t.sr, expect_rr: t.rr })
}
