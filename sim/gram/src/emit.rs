//! Specification texts
use crate::grammar::*;
use simkit::rng::Rng;

/// One lexical element of the specification language; `kind` is its terminal symbol
#[derive(Clone, Debug, PartialEq)]
pub struct El {
    pub kind: &'static str,
    pub text: String,
}

fn el(kind: &'static str, text: impl Into<String>) -> El {
    El { kind, text: text.into() }
}

pub struct Options<'a> {
    pub preamble: &'a str,
    pub attr: &'a str,
    pub target: &'a str,
    pub expect_sr: u32,
    pub expect_rr: u32,
}

fn action_code(id: u32, p: &Prod, attr: &str, style: u64) -> Option<String> {
    let (args, inject, node) = match &p.act {
        Act::Silent => return None,
        Act::Node { args, inject } => (args, *inject, true),
        Act::Look { args, inject } => (args, *inject, false),
    };
    let list: Vec<String> = args.iter().map(|a| if *a == 0 { "$$.0.clone()".to_string() } else { format!("${a}.0.clone()") }).collect();
    let mut s = String::new();
    let f = if node { "node" } else { "look" };
    // statements without effect, with what people write in code
    let mut r = Rng::new(style ^ ((id as u64) << 8));
    match r.below(8) {
        0 => s.push_str("if $$.0 != $$.0 { return $$; } "),
        1 => s.push_str("assert_eq!(\"$0 $ %% | . { ünï\".len(), 19); "),
        2 => s.push_str("/* $$ { */ // $1 :\n        "),
        3 => {
            if let Some(a) = args.iter().find(|a| **a > 0) {
                s.push_str(&format!("if ${a}.0 != ${a}.0 || '$' == '}}' {{ return ${a}.clone(); }} "));
            }
        }
        4 if inject => s.push_str("if false { $INJECT(\"%\".to_string(), '!'.to_string()); } "),
        _ => (),
    }
    s.push_str(&format!("let made = self.sim.{f}({id}, &[{}]);", list.join(", ")));
    if node {
        s.push_str(&format!(" $$ = {attr}(made);"));
    }
    if inject {
        s.push_str(" for (t, l) in self.sim.injections() { $INJECT(t, l); }");
    } else {
        s.push_str(" self.sim.done();");
    }
    Some(s)
}

/// The elements of the specification in order
pub fn elements(g: &Grammar, o: &Options) -> Vec<El> {
    let mut r = Rng::new(g.style);
    let mut out = vec![];
    if !o.preamble.is_empty() {
        out.push(el("RustCode", format!("%{{{}%}}", o.preamble)));
    }
    let attr = vec![el("Attr", "%attr"), el("Ident", o.attr)];
    let target = vec![el("Target", "%target"), el("Ident", o.target)];
    if r.chance(1, 2) {
        out.extend(attr);
        out.extend(target);
    } else {
        out.extend(target);
        out.extend(attr);
    }
    let mut exp = vec![];
    if o.expect_rr > 0 || r.chance(1, 8) {
        exp.push(vec![el("ReduceReduce", "%reduce_reduce"), el("NumberExpr", o.expect_rr.to_string())]);
    }
    if o.expect_sr > 0 || r.chance(1, 8) {
        exp.push(vec![el("ShiftReduce", "%shift_reduce"), el("NumberExpr", o.expect_sr.to_string())]);
    }
    if r.chance(1, 2) {
        exp.reverse();
    }
    out.extend(exp.into_iter().flatten());
    out.push(el("NewSection", "%%"));
    let lit = |t: &Tok| format!("\"{}\"", t.text);
    for t in &g.toks {
        out.push(el("Token", "%token"));
        out.push(el("Ident", t.name.clone()));
        out.push(if t.re { el("RegEx", t.text.clone()) } else { el("Literal", lit(t)) });
    }
    for s in &g.skips {
        out.push(el("Skip", "%skip"));
        out.push(el("RegEx", s.clone()));
    }
    for l in &g.levels {
        out.push(match l.assoc {
            Assoc::Left => el("Left", "%left"),
            Assoc::Right => el("Right", "%right"),
            Assoc::NonAssoc => el("NonAssoc", "%nonassoc"),
        });
        for t in &l.toks {
            let t = &g.toks[*t as usize];
            out.push(if t.re || r.chance(1, 2) { el("Ident", t.name.clone()) } else { el("Literal", lit(t)) });
        }
        for t in &l.tags {
            out.push(el("Ident", t.clone()));
        }
    }
    out.push(el("NewSection", "%%"));
    let mut last: Option<u16> = None;
    for (i, p) in g.prods.iter().enumerate() {
        let id = i as u32 + 1;
        let more = last == Some(p.lhs) && !r.chance(1, 12);
        if more {
            out.push(el("VerticalBar", "|"));
        } else {
            if last.is_some() {
                out.push(el("Dot", "."));
            }
            out.push(el("Ident", g.nts[p.lhs as usize].clone()));
            out.push(el("Colon", ":"));
        }
        last = Some(p.lhs);
        for s in &p.rhs {
            out.push(match s {
                Sym::T(t) => {
                    let t = &g.toks[*t as usize];
                    if t.re || r.chance(1, 3) { el("Ident", t.name.clone()) } else { el("Literal", lit(t)) }
                }
                Sym::N(n) => el("Ident", g.nts[*n as usize].clone()),
                Sym::E => el("Error", "%error"),
            });
        }
        if let Some(pred) = &p.pred {
            let args: Vec<String> = pred.args.iter().map(|a| format!("${a}.0.clone()")).collect();
            let tag = if pred.tag { "Some(&format!(\"{:?}\", $? ))" } else { "None" };
            let nl = if r.chance(1, 4) && pred.key.is_none() { "\n    " } else { " " };
            // conditions that hold always, in front
            let first = pred.args.first();
            let id = pred.number(id as u32);
            let front = match Rng::new(g.style ^ ((id as u64) << 9)).below(6) {
                0 => "$? == $? && ".to_string(),
                1 if first.is_some() => format!("${0}.0 == ${0}.0 && ", first.unwrap()),
                2 => "(true || $? != $? ) && !\"$0 ? ) %%\".is_empty() && ".to_string(),
                3 => "/* | . */ !(false) && ".to_string(),
                _ => String::new(),
            };
            out.push(el("PredicateExpr", format!("?({nl}{front}self.sim.holds({id}, &[{}], {tag}) ?)", args.join(", "))));
        }
        if let Some(prec) = &p.prec {
            out.push(el("Precedence", "%prec"));
            out.push(match prec {
                Prec::Tok(t) => {
                    let t = &g.toks[*t as usize];
                    if t.re || r.chance(1, 2) { el("Ident", t.name.clone()) } else { el("Literal", lit(t)) }
                }
                Prec::Tag(t) => el("Ident", t.clone()),
            });
        }
        if let Some(code) = action_code(id, p, o.attr, g.style) {
            let nl = if r.chance(1, 3) { "\n        " } else { " " };
            out.push(el("ActionCode", format!("!{{{nl}{code}{nl}!}}")));
        }
    }
    out.push(el("Dot", "."));
    out
}

/// The text of some elements, with white space and comments between them
pub fn layout(els: &[El], seed: u64) -> String {
    let mut r = Rng::new(seed);
    let plain = r.chance(1, 3);
    let mut s = String::new();
    for (i, e) in els.iter().enumerate() {
        let line_start = matches!(e.kind, "Token" | "Skip" | "Left" | "Right" | "NonAssoc" | "NewSection" | "Attr" | "Target" | "ReduceReduce" | "ShiftReduce" | "VerticalBar");
        if i > 0 {
            let p = els[i - 1].kind;
            let must_end = p == "RegEx" || p == "Dot";
            let sep = if must_end || line_start { "\n" } else { " " };
            s.push_str(sep);
            if !plain {
                match r.below(24) {
                    0 => s.push_str("// remark: \"quoted\" 'x' ünï\n"),
                    1 => s.push_str("/* block\n * remark */ "),
                    2 => s.push_str("\t"),
                    3 => s.push_str("\r\n"),
                    4 => s.push_str("\n\n"),
                    _ => (),
                }
            }
        }
        s.push_str(&e.text);
    }
    s.push('\n');
    s
}

pub fn specification(g: &Grammar, o: &Options) -> String {
    layout(&elements(g, o), g.style ^ 0x5bd1e995)
}
