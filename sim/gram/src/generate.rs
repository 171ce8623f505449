//! Random grammars, sentences, damaged texts
use crate::grammar::*;
use crate::lalr::{Tables, Weak};
use crate::lex::{Lexed, Lexer};
use simkit::rng::Rng;

/// (name, regular expression, samples)
const REGEXES: &[(&str, &str, &[&str])] = &[
    ("Id", "([a-z][a-z0-9_]*)", &["a", "x1", "foo", "bar_2", "zz"]),
    ("Num", "([0-9]+)", &["0", "7", "42", "123"]),
    ("Real", "([0-9]+\\.[0-9]+)", &["0.5", "3.14", "10.0"]),
    ("Str", "('[^'\\n]*')", &["''", "'hello'", "'déjà vu'", "'a b'"]),
    ("Hex", "(0x[0-9a-f]+|#[0-9a-f]{2,6})", &["0x1f", "#ff", "#00aa11", "0x0"]),
    ("Word", "([A-Z][a-zA-Z]*)", &["Abc", "X", "Word", "Éa"]),
    ("Greek", "([α-ω]+)", &["αβγ", "λ", "ω"]),
    ("Block", "(\\{-(.|[\\n\\r])*?-\\})", &["{- -}", "{-a\nb-}", "{-\r\n\r\n-}", "{--}"]),
    ("Eol", "(\\n)", &["\n"]),
    ("Any", "(@[^\\s@]+@?)", &["@a", "@é@", "@x-y"]),
    ("Raw", "(\"#+[a-z]*\"?)", &["\"###", "\"#ab\"", "\"####x", "\"##"]),
    ("Alnum", "([0-9a-z]+)", &["9z", "a9", "77q"]),
];
const LITERALS: &[(&str, &str)] = &[
    ("Plus", "+"), ("Minus", "-"), ("Star", "*"), ("Slash", "/"), ("Caret", "^"), ("LPar", "("), ("RPar", ")"), ("LBr", "{"), ("RBr", "}"),
    ("Semi", ";"), ("Comma", ","), ("Assign", "="), ("Eq", "=="), ("Lt", "<"), ("Le", "<="), ("Shl", "<<"), ("If", "if"), ("Else", "else"),
    ("Let", "let"), ("End1", "end"), ("Endif", "endif"), ("Do", "do"), ("Arrow", "→"), ("Not", "!"), ("Dots", "..."), ("Dot1", "."), ("Colon1", ":"),
    ("Tilde", "~"), ("Amp", "&"), ("AndAnd", "&&"), ("Pipe", "|"), ("Percent", "%"), ("Dollar", "$"), ("Empties", "{}"), ("LSq", "["), ("RSq", "]"),
    ("Sz", "ß"), ("Quote", "`"), ("Backq", "a`"), ("Format", "{0}"),
    ("Vee", "\\/"), ("H1", "#"), ("H3", "###"), ("H4", "####"),
];
const SKIPS: &[(&str, &[&str])] = &[
    ("(\\s+)", &[" ", "  ", "\n", "\t", "\r\n", " \n "]),
    ("([ \\t\\r]+)", &[" ", "\t", "  "]),
    ("(#!|//[^\\n\\r]*)", &["// note\n", "//\n", "#! "]),
    ("(/\\*(.|[\\n\\r])*?\\*/)", &["/* a */", "/*\n*/", "/**/"]),
    ("(§+)", &["§", "§§"]),
    ("(\"!###[^#]*#|~~r####)", &["\"!### x #", "~~r####"]),
];

struct B<'a> {
    r: &'a mut Rng,
    g: Grammar,
    augmented: bool,
    errors: bool,
    /// kind of the next form
    kind: Option<u64>,
}

impl B<'_> {
    fn tok(&mut self, lit: bool) -> u16 {
        for _ in 0..60 {
            let t = if lit {
                let (n, t) = *self.r.pick(LITERALS);
                Tok { name: n.into(), re: false, text: t.into() }
            } else {
                let (n, t, _) = *self.r.pick(REGEXES);
                Tok { name: n.into(), re: true, text: t.into() }
            };
            if let Some(i) = self.g.toks.iter().position(|x| x.name == t.name) {
                if self.r.chance(1, 3) {
                    return i as u16;
                }
                continue;
            }
            self.g.toks.push(t);
            return self.g.toks.len() as u16 - 1;
        }
        0
    }
    fn lit(&mut self) -> u16 {
        self.tok(true)
    }
    fn re(&mut self) -> u16 {
        self.tok(false)
    }
    fn any(&mut self) -> u16 {
        let lit = self.r.chance(1, 2);
        self.tok(lit)
    }
    fn nt(&mut self) -> u16 {
        let stems = ["Stmt", "Expr", "List", "Item", "Term", "Opt", "Decl", "Block1", "Body", "Tail", "Head", "Unit"];
        let n = self.g.nts.len();
        let stem = *self.r.pick(&stems);
        self.g.nts.push(format!("{stem}{n}"));
        n as u16
    }
    fn prod(&mut self, lhs: u16, rhs: Vec<Sym>) {
        let n = rhs.len();
        let mut args: Vec<u8> = vec![];
        let style = self.r.below(10);
        if style < 6 {
            args = (1..=n as u8).collect();
        } else {
            for i in 0..=n as u8 {
                if self.r.chance(1, 2) {
                    args.push(i);
                }
            }
            if self.r.chance(1, 2) {
                args.reverse();
            }
        }
        let inject = self.r.chance(2, 3);
        let act = match self.r.below(12) {
            0 => Act::Silent,
            1 => Act::Look { args, inject },
            _ => Act::Node { args, inject },
        };
        self.g.prods.push(Prod { lhs, rhs, prec: None, pred: None, act });
    }
    fn atom(&mut self, depth: u32) -> Sym {
        if depth == 0 || self.r.chance(2, 5) {
            let lit = self.r.chance(1, 2);
            return Sym::T(self.tok(lit));
        }
        Sym::N(self.form(depth - 1))
    }
    /// a few non terminals made of each other and of a few tokens, in any way
    fn web(&mut self) {
        let n = 3 + self.r.below(5) as u16;
        for _ in 0..n {
            self.nt();
        }
        let k = 3 + self.r.below(5);
        let toks: Vec<u16> = (0..k).map(|_| if self.r.chance(4, 5) { self.lit() } else { self.re() }).collect();
        for i in 0..n {
            let m = 1 + self.r.weighted(&[3, 4, 2]);
            for _ in 0..m {
                let len = self.r.weighted(&[1, 5, 5, 3, 1]);
                let rhs: Vec<Sym> = (0..len)
                    .map(|_| {
                        if self.errors && self.r.chance(1, 16) {
                            Sym::E
                        } else if self.r.chance(1, 2) {
                            Sym::T(*self.r.pick(&toks))
                        } else if i + 1 < n && self.r.chance(2, 3) {
                            Sym::N(i + 1 + self.r.below((n - i - 1) as u64) as u16)
                        } else {
                            Sym::N(self.r.below(n as u64) as u16)
                        }
                    })
                    .collect();
                if !self.g.prods.iter().any(|p| p.lhs == i && p.rhs == rhs) {
                    self.prod(i, rhs);
                }
            }
        }
    }
    /// a new non terminal
    fn form(&mut self, depth: u32) -> u16 {
        // sometimes an existing one
        if !self.g.nts.is_empty() && self.kind.is_none() && self.r.chance(1, 8) {
            return self.r.below(self.g.nts.len() as u64) as u16;
        }
        let n = self.nt();
        let me = Sym::N(n);
        let kind = self.kind.take().unwrap_or_else(|| self.r.below(11));
        match kind {
            9 => {
                // what can be left out several times in a row
                let mut rhs: Vec<Sym> = (0..self.r.below(3)).map(|_| self.atom(depth)).collect();
                for _ in 0..2 + self.r.below(3) {
                    let o = self.nt();
                    let a = self.atom(depth.min(1));
                    self.prod(o, vec![a]);
                    self.prod(o, vec![]);
                    if self.r.chance(1, 4) {
                        self.prod(o, vec![Sym::N(o), a]);
                    }
                    rhs.push(Sym::N(o));
                }
                if self.r.chance(3, 4) {
                    rhs.push(Sym::T(self.lit()));
                }
                self.prod(n, rhs);
                if self.r.chance(1, 3) {
                    let a = self.atom(depth);
                    self.prod(n, vec![a]);
                }
            }
            10 => {
                // operators of several tokens of different precedence
                let leaf = self.re();
                let mut levels: Vec<Level> = vec![];
                for k in 0..2 + self.r.below(3) {
                    let (a, b) = (self.lit(), self.lit());
                    let rhs = match self.r.below(5) {
                        0 => vec![me, Sym::T(a), me, Sym::T(b), me],
                        1 => vec![Sym::T(a), me, Sym::T(b), me],
                        2 => vec![me, Sym::T(a), Sym::T(b), me],
                        3 => vec![Sym::T(a), me],
                        _ => vec![me, Sym::T(a), me],
                    };
                    self.prod(n, rhs);
                    if k == 1 && self.r.chance(1, 2) {
                        self.prod(n, vec![Sym::T(a), me, me]);
                    }
                    for t in [b, a] {
                        if self.r.chance(1, 8) || self.g.levels.iter().chain(&levels).any(|l| l.toks.contains(&t)) {
                            continue;
                        }
                        if self.r.chance(1, 4) && !levels.is_empty() {
                            let l = self.r.idx(levels.len());
                            levels[l].toks.push(t);
                        } else {
                            let assoc = *self.r.pick(&[Assoc::Left, Assoc::Right, Assoc::NonAssoc]);
                            let at = self.r.idx(levels.len() + 1);
                            levels.insert(at, Level { assoc, toks: vec![t], tags: vec![] });
                        }
                    }
                }
                self.prod(n, vec![Sym::T(leaf)]);
                self.g.levels.extend(levels);
            }
            0 => {
                // list
                let sep = self.r.chance(1, 2).then(|| Sym::T(self.lit()));
                let el = self.atom(depth);
                let left = self.r.chance(2, 3);
                if self.r.chance(1, 3) && sep.is_none() {
                    self.prod(n, vec![]);
                } else {
                    self.prod(n, vec![el]);
                }
                let mut rhs = if left { vec![me] } else { vec![el] };
                rhs.extend(sep);
                rhs.push(if left { el } else { me });
                self.prod(n, rhs);
            }
            1 => {
                // optional
                let a = self.atom(depth);
                if self.r.chance(1, 2) {
                    self.prod(n, vec![]);
                    self.prod(n, vec![a]);
                } else {
                    self.prod(n, vec![a]);
                    self.prod(n, vec![]);
                }
            }
            2 => {
                // brackets
                let (o, c) = (self.lit(), self.lit());
                let a = self.atom(depth);
                self.prod(n, vec![Sym::T(o), a, Sym::T(c)]);
                if self.r.chance(1, 2) {
                    let b = self.re();
                    self.prod(n, vec![Sym::T(b)]);
                }
                if self.errors && self.r.chance(1, 2) {
                    if self.r.chance(1, 2) {
                        self.prod(n, vec![Sym::T(o), Sym::E]);
                    } else {
                        self.prod(n, vec![Sym::T(o), Sym::E, Sym::T(c)]);
                    }
                }
            }
            3 | 4 => {
                // expressions with precedence
                let k = 1 + self.r.below(4);
                let leaf = self.re();
                let mut levels: Vec<Level> = vec![];
                for _ in 0..k {
                    let op = self.lit();
                    if self.g.levels.iter().chain(&levels).any(|l| l.toks.contains(&op)) {
                        continue;
                    }
                    self.prod(n, vec![me, Sym::T(op), me]);
                    let assoc = *self.r.pick(&[Assoc::Left, Assoc::Left, Assoc::Right, Assoc::NonAssoc]);
                    if self.r.chance(1, 4) && !levels.is_empty() {
                        levels.last_mut().unwrap().toks.push(op);
                    } else if !self.r.chance(1, 10) {
                        levels.push(Level { assoc, toks: vec![op], tags: vec![] });
                    }
                }
                if self.r.chance(1, 2) {
                    let op = self.lit();
                    self.prod(n, vec![Sym::T(op), me]);
                    if self.r.chance(2, 3) {
                        let tag = format!("UMINUS{}", self.g.levels.len() + levels.len());
                        levels.push(Level { assoc: Assoc::Right, toks: vec![], tags: vec![tag.clone()] });
                        self.g.prods.last_mut().unwrap().prec = Some(Prec::Tag(tag));
                    } else if let Some(l) = levels.last()
                        && let Some(t) = l.toks.first()
                    {
                        self.g.prods.last_mut().unwrap().prec = Some(Prec::Tok(*t));
                    }
                }
                if self.r.chance(1, 2) {
                    let (o, c) = (self.lit(), self.lit());
                    self.prod(n, vec![Sym::T(o), me, Sym::T(c)]);
                    if self.errors && self.r.chance(1, 2) {
                        self.prod(n, vec![Sym::T(o), Sym::E, Sym::T(c)]);
                    }
                }
                self.prod(n, vec![Sym::T(leaf)]);
                if self.errors && self.r.chance(1, 4) {
                    self.prod(n, vec![me, Sym::E]);
                }
                self.g.levels.extend(levels);
            }
            5 => {
                // statements
                let t = self.lit();
                let body = self.atom(depth);
                let s = self.nt();
                self.prod(n, vec![Sym::N(s), Sym::T(t)]);
                self.prod(n, vec![me, Sym::N(s), Sym::T(t)]);
                self.prod(s, vec![body]);
                if self.r.chance(1, 2) {
                    let a = self.lit();
                    let b = self.atom(depth);
                    self.prod(s, vec![Sym::T(a), b]);
                    if self.errors && self.r.chance(1, 2) {
                        self.prod(s, vec![Sym::T(a), Sym::E]);
                    }
                }
                if self.errors {
                    self.prod(s, vec![Sym::E]);
                }
            }
            6 => {
                // choices led by tokens
                let k = 2 + self.r.below(3);
                for _ in 0..k {
                    let t = self.any();
                    let mut rhs = vec![Sym::T(t)];
                    for _ in 0..self.r.below(3) {
                        let a = self.atom(depth);
                        rhs.push(a);
                    }
                    self.prod(n, rhs);
                }
                if self.errors && self.r.chance(1, 2) {
                    self.prod(n, vec![Sym::E]);
                }
            }
            7 => {
                // anything
                let k = 1 + self.r.below(4);
                for _ in 0..k {
                    let mut rhs = vec![];
                    for _ in 0..self.r.below(4) {
                        let a = if self.r.chance(1, 6) { me } else if self.errors && self.r.chance(1, 12) { Sym::E } else { self.atom(depth) };
                        rhs.push(a);
                    }
                    self.prod(n, rhs);
                }
            }
            _ => {
                // a sequence, sometimes long
                let len = if self.r.chance(1, 5) { 9 + self.r.below(5) } else { 1 + self.r.below(4) };
                let mut rhs = vec![];
                for i in 0..len {
                    let a = if i > 3 { Sym::T(self.any()) } else { self.atom(depth) };
                    rhs.push(a);
                }
                self.prod(n, rhs);
            }
        }
        n
    }
}

/// Non terminals that derive a finite text, and their least depths
pub fn depths(g: &Grammar) -> Vec<Option<u32>> {
    let mut d: Vec<Option<u32>> = vec![None; g.nts.len()];
    loop {
        let mut ch = false;
        for p in &g.prods {
            let k = p.rhs.iter().try_fold(0u32, |m, s| match s {
                Sym::T(_) => Some(m),
                Sym::N(n) => d[*n as usize].map(|x| m.max(x)),
                Sym::E => Some(m + 3),
            });
            if let Some(k) = k {
                let e = &mut d[p.lhs as usize];
                if e.is_none() || e.unwrap() > k + 1 {
                    *e = Some(k + 1);
                    ch = true;
                }
            }
        }
        if !ch {
            return d;
        }
    }
}

/// A =>+ A, possibly with vanishing neighbours
fn cyclic(g: &Grammar) -> bool {
    let n = g.nts.len();
    let mut nullable = vec![false; n];
    let null = |s: &Sym, nl: &Vec<bool>| match s {
        Sym::T(_) => false,
        Sym::N(k) => nl[*k as usize],
        Sym::E => true,
    };
    loop {
        let mut ch = false;
        for p in &g.prods {
            if !nullable[p.lhs as usize] && p.rhs.iter().all(|s| null(s, &nullable)) {
                nullable[p.lhs as usize] = true;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    // A reaches B "alone" or with only vanishing symbols before it (hidden left recursion needs care
    // only when something before it has vanished: the reductions of nothing could repeat for ever)
    let mut unit = vec![vec![false; n]; n];
    let mut hidden = vec![vec![false; n]; n];
    let mut left = vec![vec![false; n]; n];
    for p in &g.prods {
        for (i, s) in p.rhs.iter().enumerate() {
            if let Sym::N(b) = s {
                if p.rhs.iter().enumerate().all(|(j, x)| j == i || null(x, &nullable)) {
                    unit[p.lhs as usize][*b as usize] = true;
                }
                if p.rhs[..i].iter().all(|x| null(x, &nullable)) {
                    left[p.lhs as usize][*b as usize] = true;
                    if i > 0 {
                        hidden[p.lhs as usize][*b as usize] = true;
                    }
                }
            }
        }
    }
    let close = |m: &Vec<Vec<bool>>| {
        let mut m = m.clone();
        for k in 0..n {
            for i in 0..n {
                for j in 0..n {
                    if m[i][k] && m[k][j] {
                        m[i][j] = true;
                    }
                }
            }
        }
        m
    };
    let u = close(&unit);
    if (0..n).any(|i| u[i][i]) {
        return true;
    }
    let l = close(&left);
    for i in 0..n {
        for j in 0..n {
            if hidden[i][j] && (i == j || l[j][i]) {
                return true;
            }
        }
    }
    false
}

pub struct Wanted {
    pub augmented: bool,
    pub errors: bool,
    /// at most this many conflicts of each kind
    pub conflicts: u32,
    pub max_states: usize,
    /// the mistake the grammar is meant to show
    pub focus: Weak,
}

pub fn acceptable(g: &Grammar) -> Option<Tables> {
    if !g.plausible() || g.prods.is_empty() {
        return None;
    }
    let d = depths(g);
    // every non terminal must have productions and derive something
    if (0..g.nts.len()).any(|i| d[i].is_none()) || cyclic(g) {
        return None;
    }
    Tables::build(g)
}

/// Removes non terminals and tokens that are not used
pub fn tidy(g: &mut Grammar) {
    if g.prods.is_empty() {
        return;
    }
    let mut reach = vec![false; g.nts.len()];
    let mut work = vec![g.prods[0].lhs];
    reach[g.prods[0].lhs as usize] = true;
    while let Some(n) = work.pop() {
        for p in g.prods.iter().filter(|p| p.lhs == n) {
            for s in &p.rhs {
                if let Sym::N(k) = s
                    && !reach[*k as usize]
                {
                    reach[*k as usize] = true;
                    work.push(*k);
                }
            }
        }
    }
    g.prods.retain(|p| reach[p.lhs as usize]);
    let map: Vec<u16> = (0..g.nts.len()).map(|i| reach[..i].iter().filter(|x| **x).count() as u16).collect();
    g.nts = g.nts.iter().enumerate().filter(|(i, _)| reach[*i]).map(|(_, n)| n.clone()).collect();
    for p in g.prods.iter_mut() {
        p.lhs = map[p.lhs as usize];
        for s in p.rhs.iter_mut() {
            if let Sym::N(k) = s {
                *k = map[*k as usize];
            }
        }
    }
}

pub fn grammar(r: &mut Rng, w: &Wanted) -> (Grammar, Tables) {
    loop {
        let g = Grammar { augmented: w.augmented, toks: vec![], skips: vec![], levels: vec![], nts: vec![], prods: vec![], style: r.next() >> 16 };
        let mut b = B { r, g, augmented: w.augmented, errors: w.errors, kind: None };
        let depth = 1 + b.r.below(4) as u32;
        match w.focus {
            Weak::VanishOnce | Weak::FirstOnce => {
                let n = b.nt();
                let mut rhs = vec![];
                for k in 0..2 + b.r.below(2) {
                    if k > 0 {
                        b.kind = Some(9);
                    }
                    rhs.push(Sym::N(b.form(depth.min(2))));
                    if k > 0 && b.r.chance(1, 3) {
                        rhs.push(Sym::T(b.any()));
                    }
                }
                b.prod(n, rhs);
            }
            Weak::LastToken => {
                b.kind = Some(10);
                b.form(depth);
            }
            _ if b.r.chance(1, 4) => b.web(),
            _ => {
                b.form(depth);
            }
        }
        if b.errors && b.r.chance(1, 2) {
            // error symbols anywhere
            for _ in 0..1 + b.r.below(3) {
                let i = b.r.idx(b.g.prods.len());
                let (lhs, mut rhs) = (b.g.prods[i].lhs, b.g.prods[i].rhs.clone());
                let k = b.r.idx(rhs.len() + 1);
                if b.r.chance(2, 3) {
                    rhs.truncate(k);
                }
                rhs.insert(k, Sym::E);
                if !b.g.prods.iter().any(|p| p.lhs == lhs && p.rhs == rhs) {
                    b.prod(lhs, rhs);
                }
            }
        }
        if b.augmented {
            // predicates: pairs of productions with the same right hand side
            let n = b.g.prods.len();
            let k = 1 + b.r.idx(3);
            for _ in 0..k {
                let i = b.r.idx(n);
                let (lhs, rhs) = (b.g.prods[i].lhs, b.g.prods[i].rhs.clone());
                if rhs.contains(&Sym::E) && b.r.chance(1, 2) {
                    continue;
                }
                let copies = 1 + b.r.idx(3);
                // sometimes for another non terminal, sometimes declared after the fallback
                let lhs2 = if b.r.chance(1, 4) { b.g.prods[b.r.idx(n)].lhs } else { lhs };
                let at = if b.r.chance(1, 10) { i + 1 } else { i };
                for _ in 0..copies {
                    let l = if b.r.chance(1, 2) { lhs } else { lhs2 };
                    b.prod(l, rhs.clone());
                    let mut p = b.g.prods.pop().unwrap();
                    p.prec = b.g.prods[i].prec.clone();
                    let mut args = vec![];
                    for a in 1..=rhs.len() as u8 {
                        if b.r.chance(2, 3) {
                            args.push(a);
                        }
                    }
                    p.pred = Some(Pred { args, tag: b.r.chance(1, 2), key: None });
                    b.g.prods.insert(at, p);
                }
                if b.r.chance(1, 5) {
                    // no fallback
                    let j = (0..b.g.prods.len()).find(|j| b.g.prods[*j].lhs == lhs && b.g.prods[*j].rhs == rhs && b.g.prods[*j].pred.is_none());
                    if let Some(j) = j {
                        b.g.prods.remove(j);
                    }
                }
            }
        }
        if b.augmented && b.r.chance(1, 2) {
            suffix_predicates(&mut b);
        }
        let (r, mut g) = (b.r, b.g);
        if g.toks.len() > 40 || g.prods.len() > 60 {
            continue;
        }
        // the skips must leave the tokens alone
        let has = |n: &str| g.toks.iter().any(|t| t.name == n);
        g.skips.push(if has("Eol") { SKIPS[1].0 } else { SKIPS[0].0 }.to_string());
        if r.chance(1, 2) {
            let s = SKIPS[2 + r.idx(4)].0.to_string();
            g.skips.push(s);
        }
        if r.chance(1, 12) {
            g.skips.remove(0);
        }
        tidy(&mut g);
        r_shuffle_groups(r, &mut g);
        let Some(t) = acceptable(&g) else { continue };
        if (g.prods.len() < 5 && r.chance(2, 3)) || (g.prods.len() < 12 && r.chance(1, 3)) {
            continue;
        }
        if w.errors && t.states.iter().all(|s| s.recover == 0) && r.chance(9, 10) {
            continue;
        }
        if w.augmented && g.prods.iter().all(|p| p.pred.is_none()) {
            continue;
        }
        if t.sr > w.conflicts || t.rr > w.conflicts || t.states.len() > w.max_states {
            continue;
        }
        return (g, t);
    }
}

/// A production and one of a new non terminal whose right hand side is a suffix of the first's are complete in one
/// state, and predicates decide; often they are one text that means another attribute in each of them
fn suffix_predicates(b: &mut B) {
    let long: Vec<usize> = (0..b.g.prods.len()).filter(|i| b.g.prods[*i].rhs.len() > 1 && b.g.prods[*i].pred.is_none() && !b.g.prods[*i].rhs.contains(&Sym::E)).collect();
    if long.is_empty() {
        return;
    }
    let i = *b.r.pick(&long);
    let (lhs, rhs) = (b.g.prods[i].lhs, b.g.prods[i].rhs.clone());
    let k = 1 + b.r.idx(rhs.len() - 1);
    let n = b.g.nts.len() as u16;
    b.g.nts.push(format!("Suffix{n}"));
    let mut shorter = rhs[..k].to_vec();
    shorter.push(Sym::N(n));
    let key = if b.r.chance(3, 4) { Some(1000 + i as u32) } else { None };
    let m = (rhs.len() - k) as u8;
    let args: Vec<u8> = if b.r.chance(3, 4) { vec![1 + b.r.below(m as u64) as u8] } else { (1..=m).collect() };
    let tag = b.r.chance(1, 2);
    b.prod(lhs, shorter);
    b.prod(n, rhs[k..].to_vec());
    let mut suffix = b.g.prods.pop().unwrap();
    suffix.pred = Some(Pred { args: args.clone(), tag, key });
    let whole = Prod { pred: Some(Pred { args, tag, key }), ..b.g.prods[i].clone() };
    let at = if b.r.chance(1, 4) { i + 1 } else { i };
    b.g.prods.insert(at, whole);
    if b.r.chance(1, 2) {
        b.g.prods.insert(b.r.idx(at + 1).max(1), suffix);
    } else {
        b.g.prods.push(suffix);
    }
}

/// The start symbol's productions stay first, the other groups come in any order
fn r_shuffle_groups(r: &mut Rng, g: &mut Grammar) {
    let start = g.prods[0].lhs;
    let mut rest: Vec<u16> = (0..g.nts.len() as u16).filter(|n| *n != start).collect();
    r.shuffle(&mut rest);
    let mut out: Vec<Prod> = g.prods.iter().filter(|p| p.lhs == start).cloned().collect();
    for n in rest {
        out.extend(g.prods.iter().filter(|p| p.lhs == n).cloned());
    }
    g.prods = out;
}

/// A random sentence (token numbers)
pub fn sentence(r: &mut Rng, g: &Grammar, target: usize) -> Vec<u16> {
    let d = depths(g);
    let mut out = vec![];
    let mut stack = vec![Sym::N(g.prods[0].lhs)];
    let mut steps = 0;
    while let Some(s) = stack.pop() {
        steps += 1;
        match s {
            Sym::T(t) => out.push(t),
            Sym::E => (),
            Sym::N(n) => {
                let all: Vec<&Prod> = g.prods.iter().filter(|p| p.lhs == n).collect();
                let cost = |p: &Prod| {
                    p.rhs.iter().fold(0, |m: u32, s| match s {
                        Sym::T(_) => m,
                        Sym::N(k) => m.max(d[*k as usize].unwrap_or(99)),
                        Sym::E => m + 3,
                    })
                };
                let least = all.iter().map(|p| cost(p)).min().unwrap();
                let full = out.len() + stack.len() > target || steps > 400;
                let pick: Vec<&Prod> = if full { all.iter().filter(|p| cost(p) == least).copied().collect() } else { all };
                let p = *r.pick(&pick);
                stack.extend(p.rhs.iter().rev());
            }
        }
        if steps > 5000 {
            break;
        }
    }
    out
}

fn sample(r: &mut Rng, g: &Grammar, t: u16) -> String {
    let tok = &g.toks[t as usize];
    if !tok.re {
        return tok.text.clone();
    }
    match REGEXES.iter().find(|x| x.0 == tok.name) {
        Some((_, _, s)) => r.pick(s).to_string(),
        None => "?".to_string(),
    }
}

fn spacing(r: &mut Rng, g: &Grammar) -> String {
    let mut s = String::new();
    let n = r.weighted(&[1, 8, 2]);
    for _ in 0..n {
        if g.skips.is_empty() {
            break;
        }
        let k = r.pick(&g.skips).clone();
        if let Some((_, samples)) = SKIPS.iter().find(|x| x.0 == k) {
            s.push_str(*r.pick(samples));
        }
    }
    s
}

pub fn render(r: &mut Rng, g: &Grammar, toks: &[u16]) -> String {
    let mut s = spacing(r, g);
    for t in toks {
        s.push_str(&sample(r, g, *t));
        s.push_str(&spacing(r, g));
    }
    s
}

const GARBAGE: &[&str] = &["?", "¿", "日本", "\u{0}", "\r", "\n", "\r\n", "\n\r", "\u{301}", "😀", "\"", "'", "\\", "{", "}", "@", "#", "£", "x", "0", " ", "\u{2028}", "\u{feff}"];

/// Text for the grammar: mostly valid sentences with some damage
pub fn text(r: &mut Rng, g: &Grammar, damage: bool, max: usize) -> String {
    let target = r.log(max as u64) as usize;
    let mut toks = sentence(r, g, target);
    if toks.is_empty() && r.chance(4, 5) {
        for _ in 0..4 {
            toks = sentence(r, g, target);
            if !toks.is_empty() {
                break;
            }
        }
    }
    let mut level = 0;
    if damage {
        level = r.weighted(&[2, 4, 3, 2, 1]);
        for _ in 0..level {
            let n = toks.len();
            match r.below(6) {
                0 if n > 0 => {
                    toks.remove(r.idx(n));
                }
                1 => toks.insert(r.idx(n + 1), r.below(g.toks.len() as u64) as u16),
                2 if n > 1 => {
                    let i = r.idx(n - 1);
                    toks.swap(i, i + 1);
                }
                3 if n > 0 => {
                    let i = r.idx(n);
                    toks[i] = r.below(g.toks.len() as u64) as u16;
                }
                4 if n > 2 => {
                    let a = r.idx(n - 1);
                    let b = (a + 1 + r.idx(4)).min(n);
                    let cut: Vec<u16> = toks[a..b].to_vec();
                    let at = r.idx(toks.len());
                    for (k, t) in cut.into_iter().enumerate() {
                        toks.insert(at + k, t);
                    }
                }
                5 if n > 2 && r.chance(1, 3) => toks.truncate(1 + r.idx(n - 1)),
                _ => (),
            }
            toks.truncate(3 * max + 20);
        }
    }
    let mut s = render(r, g, &toks);
    if damage && r.chance(1, 2) {
        s = corrupt(r, &s, 1 + level);
    }
    s
}

/// Damage at the level of characters
pub fn corrupt(r: &mut Rng, s: &str, times: usize) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..times {
        let n = c.len();
        match r.below(6) {
            0 if n > 0 => {
                c.remove(r.idx(n));
            }
            1 | 2 => {
                let at = r.idx(n + 1);
                let what: Vec<char> = r.pick(GARBAGE).chars().collect();
                for (k, x) in what.into_iter().enumerate() {
                    c.insert(at + k, x);
                }
            }
            3 if n > 0 => {
                let i = r.idx(n);
                c[i] = r.pick(GARBAGE).chars().next().unwrap();
            }
            4 if n > 1 => {
                let a = r.idx(n);
                let b = (a + r.log(20) as usize).min(n);
                if r.chance(1, 2) {
                    c.drain(a..b);
                } else {
                    let cut: Vec<char> = c[a..b].to_vec();
                    let at = r.idx(n);
                    for (k, x) in cut.into_iter().enumerate() {
                        c.insert(at + k, x);
                    }
                }
            }
            5 if n > 1 && r.chance(1, 3) => c.truncate(r.idx(n)),
            _ => (),
        }
    }
    c.into_iter().collect()
}

/// Number of tokens in a text (0: it would not be noticed)
pub fn token_count(lexer: &Lexer, text: &str) -> usize {
    lexer.all(text, "").0.iter().filter(|i| matches!(i.what, Lexed::Tok(_))).count()
}
