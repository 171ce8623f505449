use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Tok {
    pub name: String,
    pub re: bool,
    /// the text itself or the regular expression
    pub text: String,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Assoc {
    Left,
    Right,
    NonAssoc,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Level {
    pub assoc: Assoc,
    pub toks: Vec<u16>,
    pub tags: Vec<String>,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Sym {
    T(u16),
    N(u16),
    E,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Prec {
    Tok(u16),
    Tag(String),
}

/// `self.holds(id, &[attributes], tag)`
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Pred {
    pub args: Vec<u8>,
    pub tag: bool,
    /// predicates of one key are one text if their arguments are the same
    #[serde(default)]
    pub key: Option<u32>,
}
impl Pred {
    /// What the predicate of the production with that number passes as its own number
    pub fn number(&self, production: u32) -> u32 {
        self.key.unwrap_or(production)
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Act {
    /// no action in the specification: the attribute is the first one of the right hand side
    Silent,
    /// attributes passed by position (0: the initial value of the left hand side's)
    Node { args: Vec<u8>, inject: bool },
    /// looks but leaves the left hand side's attribute as it is
    Look { args: Vec<u8>, inject: bool },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Prod {
    pub lhs: u16,
    pub rhs: Vec<Sym>,
    pub prec: Option<Prec>,
    pub pred: Option<Pred>,
    pub act: Act,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Grammar {
    pub augmented: bool,
    pub toks: Vec<Tok>,
    pub skips: Vec<String>,
    pub levels: Vec<Level>,
    pub nts: Vec<String>,
    /// in order of declaration; the first one's left hand side is the start symbol
    pub prods: Vec<Prod>,
    /// style of the emitted text
    pub style: u64,
}

impl Grammar {
    /// Things that plans changed by the minimiser may get wrong
    pub fn plausible(&self) -> bool {
        let nt = self.toks.len();
        let nn = self.nts.len();
        if self.prods.is_empty() || nt == 0 || nt > 120 || nn == 0 {
            return false;
        }
        let mut names: Vec<&str> = self.toks.iter().map(|t| t.name.as_str()).chain(self.nts.iter().map(|n| n.as_str())).collect();
        names.extend(self.levels.iter().flat_map(|l| l.tags.iter().map(|t| t.as_str())));
        let ok_name = |n: &str| {
            let mut c = n.chars();
            c.next().is_some_and(|c| c.is_ascii_uppercase()) && c.all(|c| c.is_ascii_alphanumeric()) && !n.to_uppercase().starts_with("AA") && n != "Self"
        };
        if !names.iter().all(|n| ok_name(n)) {
            return false;
        }
        names.sort();
        let n = names.len();
        names.dedup();
        if names.len() != n {
            return false;
        }
        let mut texts: Vec<&str> = self.toks.iter().map(|t| t.text.as_str()).chain(self.skips.iter().map(|s| s.as_str())).collect();
        texts.sort();
        let n = texts.len();
        texts.dedup();
        if texts.len() != n || texts.iter().any(|t| t.is_empty()) {
            return false;
        }
        for t in &self.toks {
            if t.re {
                if regex::Regex::new(&t.text).is_err() || !t.text.starts_with('(') || !t.text.ends_with(')') {
                    return false;
                }
            } else if t.text.chars().any(|c| c == '"' || c == '\\' || c.is_control()) {
                return false;
            }
        }
        for s in &self.skips {
            if regex::Regex::new(s).is_err() || !s.starts_with('(') || !s.ends_with(')') {
                return false;
            }
        }
        let mut seen = vec![];
        for l in &self.levels {
            if l.toks.is_empty() && l.tags.is_empty() {
                return false;
            }
            for t in &l.toks {
                if *t as usize >= nt || seen.contains(t) {
                    return false;
                }
                seen.push(*t);
            }
        }
        let tags: Vec<&String> = self.levels.iter().flat_map(|l| &l.tags).collect();
        let mut defined = vec![false; nn];
        for p in &self.prods {
            if p.lhs as usize >= nn {
                return false;
            }
            defined[p.lhs as usize] = true;
        }
        for p in &self.prods {
            for s in &p.rhs {
                match s {
                    Sym::T(t) if *t as usize >= nt => return false,
                    Sym::N(n) if *n as usize >= nn || !defined[*n as usize] => return false,
                    _ => (),
                }
            }
            let args: &[u8] = match &p.act {
                Act::Silent => &[],
                Act::Node { args, .. } | Act::Look { args, .. } => args,
            };
            if args.iter().any(|a| *a as usize > p.rhs.len()) {
                return false;
            }
            match &p.prec {
                Some(Prec::Tok(t)) if *t as usize >= nt || p.rhs.is_empty() => return false,
                Some(Prec::Tag(t)) if !tags.contains(&t) || p.rhs.is_empty() => return false,
                _ => (),
            }
            if let Some(pred) = &p.pred {
                if !self.augmented || pred.args.iter().any(|a| *a == 0 || *a as usize > p.rhs.len()) {
                    return false;
                }
            }
        }
        true
    }

    pub fn uses_error(&self) -> bool {
        self.prods.iter().any(|p| p.rhs.contains(&Sym::E))
    }

    /// (precedence, associativity) of a token
    pub fn tok_prec(&self, t: u16) -> (u32, Assoc) {
        for (i, l) in self.levels.iter().enumerate() {
            if l.toks.contains(&t) {
                return (i as u32 + 1, l.assoc);
            }
        }
        (0, Assoc::NonAssoc)
    }

    pub fn prod_prec(&self, p: &Prod) -> (u32, Assoc) {
        match &p.prec {
            Some(Prec::Tok(t)) => self.tok_prec(*t),
            Some(Prec::Tag(tag)) => {
                for (i, l) in self.levels.iter().enumerate() {
                    if l.tags.contains(tag) {
                        return (i as u32 + 1, l.assoc);
                    }
                }
                (0, Assoc::NonAssoc)
            }
            None => {
                for s in &p.rhs {
                    if let Sym::T(t) = s {
                        return self.tok_prec(*t);
                    }
                }
                (0, Assoc::NonAssoc)
            }
        }
    }
}
