//! LALR(1) automaton: LR(0) states, then look aheads propagated to a fixed point
use crate::grammar::*;
use std::collections::{BTreeMap, BTreeSet};

/// production number, dot
type Item = (u16, u16);
pub type Set = u128;

#[derive(Clone, Debug)]
pub struct PData {
    /// u16::MAX: start, u16::MAX - 1: error
    pub lhs: u16,
    pub rhs: Vec<Sym>,
    pub prec: (u32, Assoc),
    pub pred: bool,
    pub error_tail: bool,
}
pub const START: u16 = u16::MAX;
pub const ERR: u16 = u16::MAX - 1;

#[derive(Clone, Debug, PartialEq)]
pub enum Action {
    Shift(u32),
    /// productions in the order they are tried
    Reduce(Vec<u16>),
    Accept,
}

#[derive(Clone, Debug, Default)]
pub struct State {
    pub actions: BTreeMap<u16, Action>,
    pub gotos: BTreeMap<u16, u32>,
    pub err_goto: Option<u32>,
    /// tokens for which the state permits recovery
    pub recover: Set,
    pub expected: Set,
    pub sr: u32,
    pub rr: u32,
}

#[derive(Clone, Debug)]
pub struct Tables {
    /// number of the end token
    pub end: u16,
    pub prods: Vec<PData>,
    pub states: Vec<State>,
    pub sr: u32,
    pub rr: u32,
    pub lr0_items: usize,
}

/// Ways of computing look aheads wrongly. Grammars for which they make a difference are the ones that
/// show whether a generator gets them right.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Weak {
    No,
    /// closures are finished when no more items are added
    Closure,
    /// look aheads are handed on once by each state
    Once,
    /// look aheads don't go through what can vanish
    Vanish,
    /// first tokens are found in one pass
    First,
    /// look aheads are handed on by reductions, not by shifts
    Shift,
    /// look aheads go through one symbol that can vanish but not through two
    VanishOnce,
    /// first tokens go through one symbol that can vanish but not through two
    FirstOnce,
    /// a production has the precedence of its last token
    LastToken,
    /// %prec is ignored
    NoPrec,
    /// all that has a precedence has the same
    OneLevel,
    /// everything is left associative
    AllLeft,
    /// nothing is left associative
    NoLeft,
    /// the last of several productions that can be reduced wins
    LastWins,
    /// productions that end in the error symbol are like all others
    ErrorTail,
    /// predicates are tried in the wrong order
    PredOrder,
    /// a predicate doesn't keep what comes after it alive
    PredLike,
}
pub const WEAK: [Weak; 16] = [
    Weak::Closure, Weak::Once, Weak::Vanish, Weak::First, Weak::Shift, Weak::VanishOnce, Weak::FirstOnce, Weak::LastToken, Weak::NoPrec,
    Weak::OneLevel, Weak::AllLeft, Weak::NoLeft, Weak::LastWins, Weak::ErrorTail, Weak::PredOrder, Weak::PredLike,
];
impl Weak {
    pub fn needs_predicates(self) -> bool {
        matches!(self, Weak::PredOrder | Weak::PredLike)
    }
    pub fn needs_errors(self) -> bool {
        self == Weak::ErrorTail
    }
}

struct Builder {
    weak: Weak,
    prods: Vec<PData>,
    end: u16,
    first: BTreeMap<u16, (Set, bool)>,
    by_lhs: BTreeMap<u16, Vec<u16>>,
}

fn nt_of(s: &Sym) -> Option<u16> {
    match s {
        Sym::T(_) => None,
        Sym::N(n) => Some(*n),
        Sym::E => Some(ERR),
    }
}

impl Builder {
    fn first_of(&self, syms: &[Sym], la: Set) -> Set {
        let mut out = 0;
        for (i, s) in syms.iter().enumerate() {
            match s {
                Sym::T(t) => return out | (1 << *t),
                s => {
                    let (f, eps) = self.first.get(&nt_of(s).unwrap()).copied().unwrap_or((0, false));
                    out |= f;
                    if !eps || self.weak == Weak::Vanish || i > 0 && self.weak == Weak::VanishOnce {
                        return out;
                    }
                }
            }
        }
        out | la
    }
    fn closure(&self, kernel: &BTreeMap<Item, Set>) -> BTreeMap<Item, Set> {
        let mut set = kernel.clone();
        if self.weak == Weak::Closure {
            loop {
                let mut more = false;
                for (item, la) in set.clone() {
                    let p = &self.prods[item.0 as usize];
                    let Some(n) = p.rhs.get(item.1 as usize).and_then(nt_of) else { continue };
                    let f = self.first_of(&p.rhs[item.1 as usize + 1..], la);
                    for q in self.by_lhs.get(&n).map(|v| v.as_slice()).unwrap_or(&[]) {
                        more |= !set.contains_key(&(*q, 0));
                        *set.entry((*q, 0)).or_insert(0) |= f;
                    }
                }
                if !more {
                    return set;
                }
            }
        }
        let mut work: Vec<Item> = set.keys().copied().collect();
        while let Some(item) = work.pop() {
            let la = set[&item];
            let p = &self.prods[item.0 as usize];
            let Some(s) = p.rhs.get(item.1 as usize) else { continue };
            let Some(n) = nt_of(s) else { continue };
            let f = self.first_of(&p.rhs[item.1 as usize + 1..], la);
            for q in self.by_lhs.get(&n).map(|v| v.as_slice()).unwrap_or(&[]) {
                let e = set.entry((*q, 0));
                let new = matches!(e, std::collections::btree_map::Entry::Vacant(_));
                let old = e.or_insert(0);
                if new || (*old | f) != *old {
                    *old |= f;
                    work.push((*q, 0));
                }
            }
        }
        set
    }
}

impl Tables {
    pub fn build(g: &Grammar) -> Option<Tables> {
        Self::build_as(g, Weak::No)
    }
    /// Whether a mistake in computing look aheads would show
    pub fn shows(&self, g: &Grammar, weak: Weak) -> bool {
        match Self::build_as(g, weak) {
            Some(t) => t.states.len() != self.states.len() || t.states.iter().zip(&self.states).any(|(a, b)| a.actions != b.actions || a.recover != b.recover),
            None => true,
        }
    }
    pub fn build_as(g: &Grammar, weak: Weak) -> Option<Tables> {
        let end = g.toks.len() as u16;
        let altered = |(n, a): (u32, Assoc)| match weak {
            Weak::OneLevel => (n.min(1), a),
            Weak::AllLeft if n > 0 => (n, Assoc::Left),
            Weak::NoLeft => (n, Assoc::NonAssoc),
            _ => (n, a),
        };
        let prec = |p: &Prod| {
            let mut q = p.clone();
            if weak == Weak::LastToken {
                q.rhs.reverse();
            }
            if weak == Weak::NoPrec {
                q.prec = None;
            }
            altered(g.prod_prec(&q))
        };
        let mut prods = vec![PData { lhs: START, rhs: vec![Sym::N(g.prods[0].lhs)], prec: (0, Assoc::NonAssoc), pred: false, error_tail: false }];
        for p in &g.prods {
            prods.push(PData { lhs: p.lhs, rhs: p.rhs.clone(), prec: prec(p), pred: p.pred.is_some() && weak != Weak::PredLike, error_tail: p.rhs.last() == Some(&Sym::E) && weak != Weak::ErrorTail });
        }
        if g.uses_error() {
            prods.push(PData { lhs: ERR, rhs: vec![], prec: (0, Assoc::NonAssoc), pred: false, error_tail: false });
        }
        let mut by_lhs: BTreeMap<u16, Vec<u16>> = BTreeMap::new();
        for (i, p) in prods.iter().enumerate() {
            by_lhs.entry(p.lhs).or_default().push(i as u16);
        }
        let mut b = Builder { weak, prods, end, first: BTreeMap::new(), by_lhs };
        loop {
            let mut changed = false;
            for p in &b.prods {
                let mut f = 0;
                let mut eps = true;
                for (i, s) in p.rhs.iter().enumerate() {
                    match s {
                        Sym::T(t) => {
                            f |= 1 << *t;
                            eps = false;
                        }
                        s => {
                            let (g, e) = b.first.get(&nt_of(s).unwrap()).copied().unwrap_or((0, false));
                            f |= g;
                            eps = e && !(i > 0 && weak == Weak::FirstOnce);
                        }
                    }
                    if !eps {
                        break;
                    }
                }
                let old = b.first.get(&p.lhs).copied().unwrap_or((0, false));
                let new = (old.0 | f, old.1 | eps);
                if new != old || !b.first.contains_key(&p.lhs) {
                    b.first.insert(p.lhs, new);
                    changed = true;
                }
            }
            if !changed || weak == Weak::First {
                break;
            }
        }
        // LR(0) states by kernel
        let mut kernels: Vec<BTreeMap<Item, Set>> = vec![BTreeMap::from([((0u16, 0u16), (1 as Set) << b.end)])];
        let mut index: BTreeMap<BTreeSet<Item>, usize> = BTreeMap::new();
        index.insert(kernels[0].keys().copied().collect(), 0);
        let mut trans: Vec<BTreeMap<Sym, usize>> = vec![BTreeMap::new()];
        let mut i = 0;
        while i < kernels.len() {
            let items = b.closure(&kernels[i]);
            let mut next: BTreeMap<Sym, BTreeSet<Item>> = BTreeMap::new();
            for (p, d) in items.keys() {
                if let Some(s) = b.prods[*p as usize].rhs.get(*d as usize) {
                    next.entry(*s).or_default().insert((*p, d + 1));
                }
            }
            for (s, k) in next {
                let j = match index.get(&k) {
                    Some(j) => *j,
                    None => {
                        let j = kernels.len();
                        if j > 1500 {
                            return None;
                        }
                        kernels.push(k.iter().map(|i| (*i, 0)).collect());
                        trans.push(BTreeMap::new());
                        index.insert(k, j);
                        j
                    }
                };
                trans[i].insert(s, j);
            }
            i += 1;
        }
        // look aheads
        let mut dirty: BTreeSet<usize> = (0..kernels.len()).collect();
        let mut seen: BTreeSet<usize> = BTreeSet::new();
        while let Some(i) = dirty.pop_first() {
            let again = !seen.insert(i);
            let items = b.closure(&kernels[i]);
            for ((p, d), la) in &items {
                if let Some(s) = b.prods[*p as usize].rhs.get(*d as usize) {
                    let j = trans[i][s];
                    let k = kernels[j].get_mut(&(*p, d + 1)).unwrap();
                    if *k | *la != *k && !(again && (weak == Weak::Once || weak == Weak::Shift && matches!(s, Sym::T(_)))) {
                        *k |= *la;
                        dirty.insert(j);
                    }
                }
            }
        }
        let mut states: Vec<State> = vec![];
        let mut resolved: Vec<BTreeMap<Item, Set>> = vec![];
        let mut lr0_items = 0;
        for i in 0..kernels.len() {
            let items = b.closure(&kernels[i]);
            lr0_items += items.len();
            let mut st = State::default();
            let mut shifts: BTreeMap<u16, u32> = BTreeMap::new();
            for (s, j) in &trans[i] {
                match s {
                    Sym::T(t) => {
                        shifts.insert(*t, *j as u32);
                    }
                    Sym::N(n) => {
                        st.gotos.insert(*n, *j as u32);
                    }
                    Sym::E => {
                        st.gotos.insert(ERR, *j as u32);
                        st.err_goto = Some(*j as u32);
                    }
                }
            }
            // complete items in order of declaration
            let mut done: BTreeMap<Item, Set> = items.iter().filter(|((p, d), _)| *d as usize == b.prods[*p as usize].rhs.len()).map(|(k, v)| (*k, *v)).collect();
            let before = done.clone();
            let all_shifts: Vec<u16> = shifts.keys().copied().collect();
            for t in all_shifts {
                let (tp, _) = altered(g.tok_prec(t));
                for (item, la) in &before {
                    if la & (1 << t) == 0 {
                        continue;
                    }
                    let p = &b.prods[item.0 as usize];
                    let (pp, pa) = p.prec;
                    if tp < pp {
                        shifts.remove(&t);
                    } else if tp > pp {
                        *done.get_mut(item).unwrap() &= !(1 << t);
                    } else if pa == Assoc::Left {
                        shifts.remove(&t);
                    } else {
                        *done.get_mut(item).unwrap() &= !(1 << t);
                        if !p.error_tail {
                            st.sr += 1;
                        }
                    }
                }
            }
            let keys: Vec<Item> = done.keys().copied().collect();
            for (x, k1) in keys.iter().enumerate() {
                for k2 in &keys[x + 1..] {
                    let both = done[k1] & done[k2];
                    let p1 = &b.prods[k1.0 as usize];
                    let p2 = &b.prods[k2.0 as usize];
                    if both == 0 || p1.pred {
                        continue;
                    }
                    if p1.error_tail || weak == Weak::LastWins {
                        *done.get_mut(k1).unwrap() &= !both;
                    } else {
                        *done.get_mut(k2).unwrap() &= !both;
                        if !p2.error_tail {
                            st.rr += 1;
                        }
                    }
                }
            }
            for (t, j) in &shifts {
                st.actions.insert(*t, Action::Shift(*j));
                st.expected |= 1 << *t;
            }
            for t in 0..=b.end {
                let mut ps: Vec<u16> = done.iter().filter(|(_, la)| **la & (1 << t) != 0).map(|(k, _)| k.0).collect();
                if ps.is_empty() {
                    continue;
                }
                st.expected |= 1 << t;
                if weak == Weak::PredOrder {
                    ps.reverse();
                }
                // a token that is both shifted and reduced can't get here: one of them was removed
                // (unless several items disagree, then the shift is what is tried first)
                st.actions.entry(t).or_insert(if ps[0] == 0 { Action::Accept } else { Action::Reduce(ps) });
            }
            states.push(st);
            resolved.push(done);
        }
        for i in 0..states.len() {
            if let Some(j) = states[i].err_goto {
                let mut r = 0;
                for (item, la) in &resolved[j as usize] {
                    if b.prods[item.0 as usize].error_tail {
                        r |= la;
                    }
                }
                states[i].recover = r;
            }
        }
        let sr = states.iter().map(|s| s.sr).sum();
        let rr = states.iter().map(|s| s.rr).sum();
        Some(Tables { end, prods: b.prods, states, sr, rr, lr0_items })
    }

    /// Number of distinct tokens with an action
    pub fn size(&self) -> usize {
        self.states.iter().map(|s| s.actions.len()).sum()
    }
}
