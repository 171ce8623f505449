//! Recognizer for arbitrary context free grammars (used to check the tables of the model as well)
use crate::grammar::*;
use std::collections::HashSet;

pub fn accepts(g: &Grammar, toks: &[u16]) -> bool {
    // production usize::MAX: start
    type It = (usize, usize, usize);
    let start = g.prods[0].lhs;
    let mut nullable = vec![false; g.nts.len()];
    loop {
        let mut ch = false;
        for p in &g.prods {
            if !nullable[p.lhs as usize] && p.rhs.iter().all(|s| matches!(s, Sym::E) || matches!(s, Sym::N(n) if nullable[*n as usize])) {
                nullable[p.lhs as usize] = true;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    let top = [Sym::N(start)];
    let rhs = |p: usize| -> &[Sym] { if p == usize::MAX { &top } else { &g.prods[p].rhs } };
    let mut sets: Vec<Vec<It>> = vec![vec![]; toks.len() + 1];
    let mut seen: Vec<HashSet<It>> = vec![HashSet::new(); toks.len() + 1];
    sets[0].push((usize::MAX, 0, 0));
    seen[0].insert((usize::MAX, 0, 0));
    for i in 0..=toks.len() {
        let mut k = 0;
        while k < sets[i].len() {
            let (p, d, o) = sets[i][k];
            k += 1;
            let mut add = |set: usize, it: It, sets: &mut Vec<Vec<It>>| {
                if seen[set].insert(it) {
                    sets[set].push(it);
                }
            };
            match rhs(p).get(d) {
                None => {
                    if p == usize::MAX {
                        continue;
                    }
                    let lhs = g.prods[p].lhs;
                    let done: Vec<It> = sets[o].iter().filter(|(q, e, _)| rhs(*q).get(*e) == Some(&Sym::N(lhs))).copied().collect();
                    for (q, e, oo) in done {
                        add(i, (q, e + 1, oo), &mut sets);
                    }
                }
                Some(Sym::T(t)) => {
                    if toks.get(i) == Some(t) {
                        add(i + 1, (p, d + 1, o), &mut sets);
                    }
                }
                Some(Sym::N(n)) => {
                    for (q, pr) in g.prods.iter().enumerate() {
                        if pr.lhs == *n {
                            add(i, (q, 0, i), &mut sets);
                        }
                    }
                    if nullable[*n as usize] {
                        add(i, (p, d + 1, o), &mut sets);
                    }
                }
                Some(Sym::E) => add(i, (p, d + 1, o), &mut sets),
            }
        }
    }
    seen[toks.len()].contains(&(usize::MAX, 1, 0))
}
