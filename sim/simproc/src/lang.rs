//! The specification language as a grammar, for deciding which divisions of a specification are legal.
//! Written from the documentation of the language (README, parser.laps, parser.alaps).
use gram::grammar::*;
use gram::lalr::{Action, Tables};
use std::sync::OnceLock;

const RULES: &str = "
Spec: Pre Conf %% Defs %% Rules
OI: | Inj
Head: %inject Literal
Inj: Head .
Pre: | OI RustCode OI
Conf: AttrT OI TargT OI Exp OI | TargT OI AttrT OI Exp OI
AttrT: %attr Ident
TargT: %target Ident
Exp: | RR OI SR | SR OI RR | RR | SR
RR: %reduce_reduce NumberExpr
SR: %shift_reduce NumberExpr
Defs: TokDefs SkipDefs PrecDefs
TokDefs: OI TokDef | TokDefs OI TokDef OI
TokDef: %token Ident Literal | %token Ident RegEx
SkipDefs: | SkipDefs OI SkipDef OI
SkipDef: %skip RegEx
PrecDefs: | PrecDefs OI PrecDef OI
PrecDef: %left Tags | %right Tags | %nonassoc Tags
Tags: Tag | Tags Tag
Tag: Literal | Ident
Rules: OI Group OI | Rules Group OI
Group: GHead Tails .
GHead: Ident :
Tails: Tail | Tails BAR Tail
Tail: | Action | SymList TPrec Action | SymList TPrec | SymList Action | SymList
Action: ActionCode
TPrec: %prec Ident | %prec Literal
SymList: Sym | SymList Sym
Sym: Ident | Literal | %error
";
const PRED_RULES: &str = "
Tail: PredicateExpr Action | PredicateExpr | SymList PredicateExpr TPrec Action | SymList PredicateExpr TPrec | SymList PredicateExpr Action | SymList PredicateExpr
";

/// terminal symbols by the names used for elements
const TERMS: &[(&str, &str)] = &[
    ("%%", "NewSection"), ("%inject", "Inject"), ("Literal", "Literal"), (".", "Dot"), ("RustCode", "RustCode"), ("%attr", "Attr"),
    ("%target", "Target"), ("Ident", "Ident"), ("%reduce_reduce", "ReduceReduce"), ("%shift_reduce", "ShiftReduce"),
    ("NumberExpr", "NumberExpr"), ("%token", "Token"), ("RegEx", "RegEx"), ("%skip", "Skip"), ("%left", "Left"), ("%right", "Right"),
    ("%nonassoc", "NonAssoc"), (":", "Colon"), ("BAR", "VerticalBar"), ("ActionCode", "ActionCode"), ("%prec", "Precedence"),
    ("%error", "Error"), ("PredicateExpr", "PredicateExpr"),
];

fn tables(augmented: bool) -> &'static Tables {
    static T: [OnceLock<Tables>; 2] = [OnceLock::new(), OnceLock::new()];
    T[augmented as usize].get_or_init(|| {
        let mut nts: Vec<String> = vec![];
        let text = if augmented { format!("{RULES}{PRED_RULES}") } else { RULES.to_string() };
        for l in text.lines().filter(|l| !l.is_empty()) {
            let n = l.split(':').next().unwrap().to_string();
            if !nts.contains(&n) {
                nts.push(n);
            }
        }
        let mut prods = vec![];
        for l in text.lines().filter(|l| !l.is_empty()) {
            let (n, rest) = l.split_once(':').unwrap();
            let lhs = nts.iter().position(|x| x == n).unwrap() as u16;
            for alt in rest.split('|') {
                let rhs = alt
                    .split_whitespace()
                    .map(|w| match nts.iter().position(|x| x == w) {
                        Some(i) => Sym::N(i as u16),
                        None => Sym::T(TERMS.iter().position(|t| t.0 == w).unwrap_or_else(|| panic!("{w}")) as u16),
                    })
                    .collect();
                prods.push(Prod { lhs, rhs, prec: None, pred: None, act: Act::Silent });
            }
        }
        let toks = TERMS.iter().map(|t| Tok { name: t.1.to_string(), re: false, text: t.0.to_string() }).collect();
        let inject = TERMS.iter().position(|t| t.0 == "%inject").unwrap() as u16;
        let levels = vec![Level { assoc: Assoc::Right, toks: vec![inject], tags: vec![] }];
        let g = Grammar { augmented: false, toks, skips: vec![], levels, nts, prods, style: 0 };
        Tables::build(&g).unwrap()
    })
}

/// Is this sequence of elements a specification, as far as its form goes?
pub fn legal(kinds: &[&str], augmented: bool) -> bool {
    let t = tables(augmented);
    let mut stack = vec![0u32];
    let mut i = 0;
    let mut steps = 0;
    loop {
        steps += 1;
        if steps > 200_000 {
            return false;
        }
        let tag = if i < kinds.len() {
            match TERMS.iter().position(|x| x.1 == kinds[i]) {
                Some(k) => k as u16,
                None => return false,
            }
        } else {
            t.end
        };
        match t.states[*stack.last().unwrap() as usize].actions.get(&tag) {
            None => return false,
            Some(Action::Accept) => return true,
            Some(Action::Shift(s)) => {
                stack.push(*s);
                i += 1;
            }
            Some(Action::Reduce(p)) => {
                let p = &t.prods[p[0] as usize];
                stack.truncate(stack.len() - p.rhs.len());
                let g = t.states[*stack.last().unwrap() as usize].gotos[&p.lhs];
                stack.push(g);
            }
        }
    }
}
