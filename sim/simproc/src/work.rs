//! Workloads: specifications, how they are divided into files, and the options of a generator
use crate::lang;
use crate::world::*;
use gram::emit::{self, El};
use gram::generate::{self, Wanted};
use gram::grammar::Grammar;
use serde::{Deserialize, Serialize};
use simkit::rng::Rng;
use simkit::runner::{Obs, Violation, violation};
use simkit::shm::*;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Src {
    Gram(Grammar),
    Repo(u8),
}

/// A contiguous part of a file moves to a file of its own (`len` 0: a file with only space or remarks)
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Cut {
    pub file: u8,
    pub from: u16,
    pub len: u16,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Edit {
    Drop(u16),
    Dup(u16, u16),
    Swap(u16, u16),
    Insert(u16, u8),
    /// renames the nth identifier of the rules
    Undefined(u16),
    /// a second definition of the nth token / rule
    Again(u16),
    /// an unknown literal in the rules
    Unknown(u16),
    /// a malformed regular expression (or one that is too large to compile)
    BadRegex(u16),
    /// a number that does not fit
    Huge(u16),
    /// a precedence that is not known
    NoTag(u16),
    /// a precedence set a second time
    Twice(u16),
    /// a non terminal with the name of a token
    Clash(u16),
    /// the nth skip pattern again
    SkipAgain(u16),
    /// the precedence of a literal that is not a token
    Stranger(u16),
    /// so many symbols that are not defined, unknown literals or further definitions of a token
    Many(u16, u16, u8),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Work {
    pub tool: u8,
    pub src: Src,
    pub preamble: u8,
    pub declared_sr: i8,
    pub declared_rr: i8,
    pub cuts: Vec<Cut>,
    pub edits: Vec<Edit>,
    pub name: u8,
    pub out: u8,
    pub force: bool,
    pub ignore_sr: bool,
    pub ignore_rr: bool,
    /// parts that are the same share a file
    #[serde(default)]
    pub share: bool,
}

pub const NAMES: &[&str] = &["g.laps", "spec/g.laps", "g.alaps", "./g.laps", "a.b.laps", "spec/../g.laps", "ünï.laps", "spec/g", "ROOT/g.laps", "g.rsx", "out/p.spec", "n\u{f8ff}.laps", "spec/\u{f8ff}.g"];
pub const OUTS: &[&str] = &["", "o.rs", "out/p.rs", "./o.rs", "p", "out/x.y.rs", "ROOT/out/q.rs", "spec/../o.rs", "out/../spec/zé.rs", "g.out"];
const INJ: &[&str] = &["i1.laps", "spec/i1.laps", "./i3", "out/i 4.txt", "ROOT/spec/i5.laps", "spec/ï6", "out/i3", "spec/../i8.laps", "I1.laps", "i1"];
/// what is in the directory besides the files that matter
const BYSTANDERS: &[&str] = &["notes.txt", "out/other.rs", "g.bak", "spec/parser.rs", "o.rs.tmp", "out/p.states.old", ".g.rs.swp", "tmp"];

pub fn norm(root: &str, p: &str) -> String {
    let p = p.replace("ROOT/", "");
    let _ = root;
    let mut out: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => (),
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    out.join("/")
}
fn with_ext(p: &str, ext: &str) -> String {
    std::path::Path::new(p).with_extension(ext).to_string_lossy().into_owned()
}

pub struct Names {
    pub spec_arg: String,
    pub out_arg: String,
    pub spec: String,
    pub rs: String,
    pub st: String,
}
pub fn names(w: &Work, root: &str) -> Names {
    let n = NAMES[w.name as usize % NAMES.len()];
    let o = OUTS[w.out as usize % OUTS.len()];
    names_of(n, o, root)
}
pub fn names_of(n: &str, o: &str, root: &str) -> Names {
    let spec = norm(root, n);
    let rs = if o.is_empty() { with_ext(&spec, "rs") } else { norm(root, o) };
    let st = with_ext(&rs, "states");
    Names { spec_arg: n.replace("ROOT", root), out_arg: o.replace("ROOT", root), spec, rs, st }
}

pub struct Files {
    pub main: Vec<u8>,
    /// (path as written in the specification, normalised, contents)
    pub injected: Vec<(String, String, Vec<u8>)>,
    pub legal: bool,
    /// must be rejected whatever its form
    pub defective: bool,
    /// the texts together have this many elements
    pub elements: usize,
    pub depth: usize,
}

/// a number that differs from the real one by `d` (never below 0)
fn declared(real: u32, d: i8) -> u32 {
    let n = real as i64 + d as i64;
    if n < 0 { real + 1 } else { n as u32 }
}

fn preamble(kind: u8) -> String {
    match kind % 6 {
        0 => String::new(),
        1 => "\nuse crate::sim::*;\n".into(),
        2 => "\n// préambule\nuse std::fmt;\n".into(),
        3 => format!("\n/* {} */\n", "long preamble text; ".repeat(600)),
        4 => " ".into(),
        _ => (0..400).map(|i| format!("pub const C{i}: usize = {i};\n")).collect(),
    }
}

pub fn repo_spec(k: u8) -> Option<(u8, Vec<u8>)> {
    let repo = std::env::var("SIM_REPO").unwrap_or("/repo".into());
    let (tool, p) = match k % 4 {
        0 => (0, "lalr1_lib/src/parser.laps"),
        1 => (1, "alalr1_lib/src/parser.alaps"),
        2 => (1, "examples/calc/src/calc.alaps"),
        _ => (0, "examples/calc_no_aug/src/calc_no_aug.laps"),
    };
    Some((tool, std::fs::read(format!("{repo}/{p}")).ok()?))
}

fn flatten(files: &[Vec<El>], inj: &[(usize, String)], i: usize, out: &mut Vec<&'static str>, depth: usize, deepest: &mut usize, pending: &mut Vec<usize>) {
    // the injected text follows the element after the literal, whichever text that comes from
    *deepest = (*deepest).max(depth);
    let f = &files[i];
    let mut k = 0;
    while k < f.len() {
        out.push(f[k].kind);
        let after_literal = out.len() >= 2 && out[out.len() - 2] == "Inject" && f[k].kind == "Literal";
        let released = if after_literal { false } else { !pending.is_empty() };
        if released {
            let p = pending.pop().unwrap();
            flatten(files, inj, p, out, depth + 1, deepest, pending);
        }
        if after_literal && let Some((n, _)) = inj.iter().find(|x| f[k].text == format!("\"{}\"", x.1)) {
            pending.push(*n);
        }
        k += 1;
    }
}

pub const BAD_REGEXES: &[&str] = &["([a)", "([z-a])", "(a{2,1})", "(a{1000}{1000}{1000})", "(\\p{Nope})", "(?=a)", "((a)\\8)", "(a{9999999999})", "(\\w{500}{500})", "(a{,x}|*)", "(\\xZZ)", "(?P<n>a)(?P<n>b)"];

fn insert_el(k: u8) -> El {
    let e = |kind: &'static str, text: &str| El { kind, text: text.into() };
    match k % 20 {
        0 => e("NewSection", "%%"),
        1 => e("Colon", ":"),
        2 => e("VerticalBar", "|"),
        3 => e("Dot", "."),
        4 => e("Ident", "Abc"),
        5 => e("Literal", "\"lit\""),
        6 => e("RegEx", "(a+)"),
        7 => e("Token", "%token"),
        8 => e("Left", "%left"),
        9 => e("Precedence", "%prec"),
        10 => e("Skip", "%skip"),
        11 => e("Error", "%error"),
        12 => e("Inject", "%inject"),
        13 => e("ActionCode", "!{ $1; !}"),
        14 => e("RustCode", "%{ x %}"),
        15 => e("NumberExpr", "12"),
        16 => e("ShiftReduce", "%shift_reduce"),
        17 => e("Attr", "%attr"),
        18 => e("Target", "%target"),
        _ => e("PredicateExpr", "?( $1 ?)"),
    }
}

impl Work {
    /// the files of the specification; None if the plan makes no sense
    pub fn files(&self, root: &str) -> Option<Files> {
        let g = match &self.src {
            Src::Repo(k) => {
                let (tool, text) = repo_spec(*k)?;
                if tool != self.tool % 2 {
                    return None;
                }
                return Some(Files { main: text, injected: vec![], legal: true, defective: false, elements: 0, depth: 0 });
            }
            Src::Gram(g) => g,
        };
        if g.augmented && self.tool % 2 == 0 {
            return None;
        }
        let t = generate::acceptable(g)?;
        let pre = preamble(self.preamble);
        let o = emit::Options {
            preamble: &pre,
            attr: "AttributeData",
            target: "Target",
            expect_sr: declared(t.sr, self.declared_sr),
            expect_rr: declared(t.rr, self.declared_rr),
        };
        let mut els = emit::elements(g, &o);
        let mut defective = false;
        for e in &self.edits {
            let n = els.len();
            if n < 3 {
                return None;
            }
            let at = |i: &u16| *i as usize % n;
            let sections: Vec<usize> = els.iter().enumerate().filter(|(_, e)| e.kind == "NewSection").map(|(i, _)| i).collect();
            let pick = |els: &[El], from: usize, kind: &str, k: u16, f: &dyn Fn(usize) -> bool| -> Option<usize> {
                let c: Vec<usize> = (from..els.len()).filter(|i| els[*i].kind == kind && f(*i)).collect();
                if c.is_empty() { None } else { Some(c[k as usize % c.len()]) }
            };
            match e {
                Edit::Drop(i) => {
                    els.remove(at(i));
                }
                Edit::Dup(i, j) => {
                    let x = els[at(i)].clone();
                    els.insert(at(j), x);
                }
                Edit::Swap(i, j) => els.swap(at(i), at(j)),
                Edit::Insert(i, k) => els.insert(at(i), insert_el(*k)),
                Edit::Undefined(k) => {
                    let from = *sections.get(1)?;
                    let i = pick(&els, from, "Ident", *k, &|i| els.get(i + 1).map(|e| e.kind) != Some("Colon") && els[i - 1].kind != "Precedence")?;
                    els[i].text = "Undef9".into();
                    defective = true;
                }
                Edit::Again(k) => {
                    let i = pick(&els, 0, "Token", *k / 3, &|i| els.get(i + 2).is_some())?;
                    let mut more: Vec<El> = els[i..i + 3].to_vec();
                    match k % 3 {
                        0 => (),
                        1 => more[1].text = "Again9".into(),
                        _ if more[2].kind == "Literal" => more[2].text = "\"another literal\"".into(),
                        _ => more[2].text = "(another{2,5})".into(),
                    }
                    let last = *sections.get(1)?;
                    let firstskip = (i..last).find(|j| matches!(els[*j].kind, "Skip" | "Left" | "Right" | "NonAssoc")).unwrap_or(last);
                    for (d, e) in more.into_iter().enumerate() {
                        els.insert(firstskip + d, e);
                    }
                    defective = true;
                }
                Edit::Unknown(k) => {
                    let from = *sections.get(1)?;
                    let i = pick(&els, from, "Literal", *k, &|i| els[i - 1].kind != "Inject")?;
                    els[i].text = "\"unknown literal\"".into();
                    defective = true;
                }
                Edit::BadRegex(k) => {
                    let i = pick(&els, 0, "RegEx", *k % 50, &|_| true)?;
                    els[i].text = BAD_REGEXES[*k as usize / 50 % BAD_REGEXES.len()].into();
                    defective = true;
                }
                Edit::Huge(k) => {
                    let i = match pick(&els, 0, "NumberExpr", *k % 2, &|_| true) {
                        Some(i) => i,
                        None => {
                            let i = *sections.first()?;
                            els.insert(i, El { kind: "NumberExpr", text: String::new() });
                            let (kind, text) = if k % 2 == 0 { ("ShiftReduce", "%shift_reduce") } else { ("ReduceReduce", "%reduce_reduce") };
                            els.insert(i, El { kind, text: text.into() });
                            i + 1
                        }
                    };
                    els[i].text = match k / 2 % 4 {
                        0 => "4294967296".into(),
                        1 => "99999999999999999999".into(),
                        2 => "0000000000000000000018446744073709551616".into(),
                        _ => "7".repeat(300),
                    };
                    defective = true;
                }
                Edit::NoTag(k) => {
                    let from = *sections.get(1)?;
                    let at = match pick(&els, from, "Precedence", *k, &|_| true) {
                        Some(i) => {
                            els.drain(i..i + 2);
                            i
                        }
                        // at the end of an alternative that is not empty and has no action
                        None => pick(&els, from, "VerticalBar", *k, &|i| matches!(els[i - 1].kind, "Ident" | "Literal"))?,
                    };
                    let e = if k % 2 == 0 { El { kind: "Ident", text: "NoTag9".into() } } else { El { kind: "Literal", text: "\"no tag\"".into() } };
                    els.insert(at, e);
                    els.insert(at, El { kind: "Precedence", text: "%prec".into() });
                    defective = true;
                }
                Edit::Twice(k) => {
                    let last = *sections.get(1)?;
                    let first = els.iter().position(|e| matches!(e.kind, "Left" | "Right" | "NonAssoc"))?;
                    let c: Vec<usize> = (first..last).filter(|i| matches!(els[*i].kind, "Ident" | "Literal")).collect();
                    if c.is_empty() {
                        return None;
                    }
                    let mut e = els[c[*k as usize / 2 % c.len()]].clone();
                    // perhaps by its other name
                    if k % 2 == 1
                        && let Some(d) = (2..last).find(|i| els[i - 2].kind == "Token" && els[*i].kind == "Literal" && (els[*i].text == e.text || els[i - 1].text == e.text))
                    {
                        e = if e.kind == "Literal" { els[d - 1].clone() } else { els[d].clone() };
                    }
                    els.insert(last, e);
                    els.insert(last, El { kind: "Right", text: "%right".into() });
                    defective = true;
                }
                Edit::Clash(k) => {
                    let from = *sections.get(1)?;
                    let i = pick(&els, from, "Ident", *k, &|i| els.get(i + 1).map(|e| e.kind) == Some("Colon"))?;
                    let t = pick(&els, 0, "Token", *k / 7, &|i| els.get(i + 2).is_some())?;
                    els[i].text = els[t + 1].text.clone();
                    defective = true;
                }
                Edit::Stranger(k) => {
                    let last = *sections.get(1)?;
                    let first = els.iter().position(|e| matches!(e.kind, "Left" | "Right" | "NonAssoc"));
                    let e = El { kind: "Literal", text: "\"stranger\"".into() };
                    match first {
                        Some(f) if k % 2 == 1 => els.insert(f + 1 + (*k as usize / 2 % (last - f)), e),
                        _ => {
                            els.insert(last, e);
                            els.insert(last, El { kind: "Left", text: "%left".into() });
                        }
                    }
                    defective = true;
                }
                Edit::Many(k, n, kind) => {
                    let from = *sections.get(1)?;
                    if kind % 3 == 2 {
                        let i = pick(&els, 0, "Token", *k, &|i| els.get(i + 2).is_some())?;
                        let name = els[i + 1].clone();
                        let more = (0..*n).flat_map(|x| [El { kind: "Token", text: "%token".into() }, name.clone(), El { kind: "Literal", text: format!("\"another {x}\"") }]);
                        els.splice(i + 3..i + 3, more);
                    } else {
                        let i = pick(&els, from, "Ident", *k, &|i| els.get(i + 1).map(|e| e.kind) != Some("Colon") && els[i - 1].kind != "Precedence")?;
                        let more = (0..*n).map(|x| if kind % 3 == 0 { El { kind: "Ident", text: format!("Undef{x}") } } else { El { kind: "Literal", text: format!("\"unknown {x}\"") } });
                        els.splice(i + 1..i + 1, more);
                    }
                    defective |= *n > 0;
                }
                Edit::SkipAgain(k) => {
                    let i = pick(&els, 0, "Skip", *k, &|i| els.get(i + 1).is_some())?;
                    let again: Vec<El> = els[i..i + 2].to_vec();
                    for e in again.into_iter().rev() {
                        els.insert(i, e);
                    }
                    defective = true;
                }
            }
        }
        let mut files = vec![els];
        let mut inj: Vec<(usize, String)> = vec![];
        for (k, c) in self.cuts.iter().enumerate() {
            let path = INJ.get(k).map_or_else(|| format!("d{k}"), |p| p.replace("ROOT", root));
            if k >= 200 {
                return None;
            }
            let f = c.file as usize % files.len();
            let n = files[f].len();
            if n == 0 {
                return None;
            }
            let from = c.from as usize % n;
            let len = (c.len as usize).min(n - from);
            let part: Vec<El> = files[f].drain(from..from + len).collect();
            let e = |kind: &'static str, text: String| El { kind, text };
            let stub = [e("Inject", "%inject".into()), e("Literal", format!("\"{path}\"")), e("Dot", ".".into())];
            for (d, e) in stub.into_iter().enumerate() {
                files[f].insert(from + d, e);
            }
            inj.push((files.len(), path));
            files.push(part);
        }
        if self.share {
            let mut k = 0;
            while k < inj.len() {
                let same = (0..k).find(|i| {
                    let (a, b) = (&files[inj[*i].0], &files[inj[k].0]);
                    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.kind == b.kind && a.text == b.text)
                });
                if let Some(i) = same {
                    let (gone, kept) = (format!("\"{}\"", inj[k].1), format!("\"{}\"", inj[i].1));
                    for e in files.iter_mut().flatten().filter(|e| e.kind == "Literal" && e.text == gone) {
                        e.text = kept.clone();
                    }
                    inj.remove(k);
                } else {
                    k += 1;
                }
            }
        }
        let mut kinds = vec![];
        let mut depth = 0;
        let mut pending = vec![];
        flatten(&files, &inj, 0, &mut kinds, 0, &mut depth, &mut pending);
        let legal = pending.is_empty() && lang::legal(&kinds, self.tool % 2 == 1);
        let text = |i: usize| -> Vec<u8> {
            let mut s = emit::layout(&files[i], g.style ^ (0x5bd1e995 + i as u64 * 77));
            if (g.style >> 7).wrapping_add(i as u64) % 3 == 0 {
                // no line feed at the end of the file
                s.truncate(s.trim_end().len());
            }
            if files[i].is_empty() { [" \n", "// nothing here\n", "/* a\nb */", "\t"][(g.style as usize + i) % 4].as_bytes().to_vec() } else { s.into_bytes() }
        };
        let injected = inj.iter().map(|(n, p)| (p.clone(), norm(root, &p.replace(&format!("{root}/"), "")), text(*n))).collect();
        Some(Files { main: text(0), injected, legal, defective, elements: kinds.len(), depth })
    }

    pub fn args(&self, n: &Names) -> Vec<String> {
        let mut a: Vec<String> = vec![];
        let long = self.name % 2 == 0;
        if self.force {
            a.push(if long { "--force" } else { "-f" }.into());
        }
        if self.ignore_sr {
            a.push("--ignore-sr-conflicts".into());
        }
        if self.ignore_rr {
            a.push("--ignore-rr-conflicts".into());
        }
        if !n.out_arg.is_empty() {
            if long {
                a.push("--output".into());
                a.push(n.out_arg.clone());
            } else {
                a.push("-o".into());
                a.push(n.out_arg.clone());
            }
        }
        a.push(n.spec_arg.clone());
        a
    }
    /// conflicts declared wrongly and not ignored
    pub fn miscounted(&self) -> bool {
        matches!(self.src, Src::Gram(_)) && ((self.declared_sr != 0 && !self.ignore_sr) || (self.declared_rr != 0 && !self.ignore_rr))
    }
}

pub struct Prepared {
    pub names: Names,
    pub files: Files,
    pub proc: Proc,
    /// the tree before any run
    pub tree: Tree,
}

/// Fills a clean root with the files of the work
pub fn prepare(w: &Work) -> Option<Prepared> {
    let wo = world();
    let files = w.files(&wo.root)?;
    let n = names(w, &wo.root);
    wo.clean();
    Some(fill(w, n, files))
}
pub fn fill(w: &Work, n: Names, files: Files) -> Prepared {
    let wo = world();
    for b in BYSTANDERS {
        wo.write(b, format!("bystander {b}\n").as_bytes());
    }
    wo.write(&n.spec, &files.main);
    let mut roles = vec![(n.spec.clone(), Role::Spec), (n.rs.clone(), Role::Rs), (n.st.clone(), Role::States)];
    for (i, (_, p, t)) in files.injected.iter().enumerate() {
        wo.write(p, t);
        // (there is room for so many)
        if i < 10 {
            roles.push((p.clone(), Role::Inj));
        }
    }
    let proc = Proc::new(w.tool, w.args(&n), roles);
    Prepared { tree: wo.snapshot(), names: n, files, proc }
}

pub struct Reference {
    pub done: Done,
    pub rs: Option<Vec<u8>>,
    pub st: Option<Vec<u8>>,
}
/// a fault free run in the clean directory (left as it is after it)
pub fn reference(p: &Prepared) -> Result<Reference, Violation> {
    let wo = world();
    let done = wo.run1(&p.proc);
    sane(&done)?;
    Ok(Reference { rs: wo.read(&p.names.rs), st: wo.read(&p.names.st), done })
}

/// no run ever hangs
pub fn sane(d: &Done) -> Result<(), Violation> {
    if d.hung || d.overrun {
        return violation("hang", format!("the generator does not end ({} operations so far): {}", d.events, d.stderr()));
    }
    Ok(())
}

// ---- choices ----

pub fn some_work(r: &mut Rng, plain: bool) -> Work {
    let tool = r.below(2) as u8;
    let src = if r.chance(1, 25) {
        let k = r.below(4) as u8;
        Src::Repo(k)
    } else {
        let w = Wanted { augmented: tool == 1 && r.chance(2, 3), errors: r.chance(1, 2), conflicts: if r.chance(2, 3) { 0 } else { 5 }, max_states: 50, focus: gram::lalr::Weak::No };
        Src::Gram(generate::grammar(r, &w).0)
    };
    let tool = if let Src::Repo(k) = &src { repo_spec(*k).map(|x| x.0).unwrap_or(tool) } else { tool };
    let mut w = Work {
        tool,
        src,
        preamble: if r.chance(1, 2) { r.below(6) as u8 } else { 1 },
        declared_sr: 0,
        declared_rr: 0,
        cuts: vec![],
        edits: vec![],
        name: if r.chance(1, 2) { 0 } else { r.below(NAMES.len() as u64) as u8 },
        out: if r.chance(1, 2) { 0 } else { r.below(OUTS.len() as u64) as u8 },
        force: r.chance(1, 2),
        ignore_sr: r.chance(1, 6),
        ignore_rr: r.chance(1, 6),
        share: false,
    };
    if !plain && r.chance(1, 3) {
        divide(r, &mut w, 2);
    }
    // outputs must differ from the specification
    let n = names(&w, "");
    if n.rs == n.spec || n.st == n.spec || n.rs == n.st {
        w.out = 1;
    }
    w
}

/// adds up to `max` cuts that keep the specification legal
pub fn divide(r: &mut Rng, w: &mut Work, max: usize) {
    for _ in 0..max * 6 {
        if w.cuts.len() >= max {
            return;
        }
        let Some(f) = w.files("/x") else { return };
        let n = f.elements.max(1) as u64;
        let k = w.cuts.len() as u64;
        let file = if r.chance(1, 3) { r.below(k + 1) as u8 } else { 0 };
        // the middle of a production is never a legal place: prefer places after a dot or a definition
        let len = if r.chance(1, 8) { 0 } else { r.log(n / 2 + 1) as u16 };
        let from = good_place(r, w, file).unwrap_or(r.below(n) as u16);
        let len = if r.chance(3, 4) { aligned_len(w, file, from, len) } else { len };
        w.cuts.push(Cut { file, from, len });
        if !w.files("/x").is_some_and(|f| f.legal) {
            w.cuts.pop();
        }
    }
}
/// Every part is reached through the file of the part before it
pub fn divide_deep(r: &mut Rng, w: &mut Work) {
    w.cuts.clear();
    let Some(mut kinds) = file_kinds(w, 0) else { return };
    let wanted = *r.pick(&[9, 17, 33, 70, 130]);
    while w.cuts.len() < wanted {
        // where a definition of a token or of a non terminal starts
        let starts: Vec<usize> = (1..kinds.len().saturating_sub(1)).filter(|i| kinds[*i] == "Token" || kinds[*i] == "Ident" && kinds[*i + 1] == "Colon" && kinds[*i - 1] == "Dot").take(if r.chance(1, 6) { 3 } else { 1 }).collect();
        if starts.is_empty() {
            break;
        }
        let from = *r.pick(&starts);
        w.cuts.push(Cut { file: w.cuts.len() as u8, from: from as u16, len: u16::MAX });
        kinds.drain(..from);
    }
    if !w.files("/x").is_some_and(|f| f.legal) {
        w.cuts.clear();
    }
}
/// Cuts out the same part at several places
pub fn divide_same(r: &mut Rng, w: &mut Work) {
    w.share = true;
    if r.chance(1, 2) {
        // what there is of a kind
        let kind = if r.chance(3, 4) { "NewSection" } else { "Dot" };
        for nth in 0..2 + r.idx(2) {
            let Some(k) = file_kinds(w, 0) else { return };
            let at: Vec<usize> = (0..k.len()).filter(|i| k[*i] == kind && (*i < 2 || k[*i - 2] != "Inject")).collect();
            if at.is_empty() {
                break;
            }
            let i = if kind == "NewSection" { at[0] } else { at[(r.idx(at.len()) + nth) % at.len()] };
            w.cuts.push(Cut { file: 0, from: i as u16, len: 1 });
            if !w.files("/x").is_some_and(|f| f.legal) {
                w.cuts.pop();
                if kind == "NewSection" {
                    break;
                }
            }
        }
    } else {
        // nothing at all
        for _ in 0..2 + r.idx(3) {
            let Some(from) = good_place(r, w, 0) else { return };
            w.cuts.push(Cut { file: 0, from, len: 0 });
            if !w.files("/x").is_some_and(|f| f.legal) {
                w.cuts.pop();
            }
        }
    }
}
fn file_kinds(w: &Work, file: u8) -> Option<Vec<&'static str>> {
    let Src::Gram(g) = &w.src else { return None };
    let t = generate::acceptable(g)?;
    let pre = preamble(w.preamble);
    let o = emit::Options { preamble: &pre, attr: "A", target: "T", expect_sr: t.sr, expect_rr: t.rr };
    let mut files = vec![emit::elements(g, &o)];
    for c in &w.cuts {
        let f = c.file as usize % files.len();
        let n = files[f].len();
        if n == 0 {
            return None;
        }
        let from = c.from as usize % n;
        let len = (c.len as usize).min(n - from);
        let part: Vec<El> = files[f].drain(from..from + len).collect();
        for (d, k) in ["Inject", "Literal", "Dot"].iter().enumerate() {
            files[f].insert(from + d, El { kind: k, text: String::new() });
        }
        files.push(part);
    }
    Some(files.get(file as usize)?.iter().map(|e| e.kind).collect())
}
fn boundary(k: &[&str], i: usize) -> bool {
    i == 0 || i >= k.len() || matches!(k[i - 1], "NewSection" | "Dot" | "RustCode" | "NumberExpr" | "RegEx") || matches!(k[i], "Token" | "Skip" | "Left" | "Right" | "NonAssoc" | "NewSection" | "Attr" | "Target" | "ShiftReduce" | "ReduceReduce" | "RustCode")
}
fn good_place(r: &mut Rng, w: &Work, file: u8) -> Option<u16> {
    let k = file_kinds(w, file)?;
    let places: Vec<u16> = (0..k.len()).filter(|i| boundary(&k, *i)).map(|i| i as u16).collect();
    if places.is_empty() { None } else { Some(*r.pick(&places)) }
}
fn aligned_len(w: &Work, file: u8, from: u16, len: u16) -> u16 {
    let Some(k) = file_kinds(w, file) else { return len };
    let mut l = len;
    while l > 0 && (from as usize + l as usize) < k.len() && !boundary(&k, from as usize + l as usize) {
        l += 1;
    }
    l
}

/// A fault to be placed somewhere in the operations of the reference run
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Pick {
    pub class: u16,
    pub pos: u16,
    pub act: Act,
    pub arg: i64,
    pub sticky: bool,
}

pub const ERRNOS: &[i32] = &[
    libc::EIO, libc::ENOSPC, libc::EACCES, libc::EPERM, libc::EROFS, libc::EMFILE, libc::ENFILE, libc::EDQUOT, libc::EFBIG, libc::ENOMEM,
    libc::EAGAIN, libc::EISDIR, libc::ENOENT, libc::ELOOP, libc::ENXIO, libc::ESTALE, libc::EBUSY, libc::EINVAL, libc::EPIPE, libc::ENODEV,
];

pub fn pick(r: &mut Rng, act: Act) -> Pick {
    let arg = match act {
        Act::Err => *r.pick(ERRNOS) as i64,
        Act::Short | Act::PartialKill => r.log(4096) as i64,
        Act::Flip => r.range(0, i64::MAX >> 1),
        _ => 0,
    };
    // the ends of a class of operations are where mistakes are
    let pos = match r.below(6) {
        0 => 0,
        1 => u16::MAX,
        2 => u16::MAX - r.below(3000) as u16,
        _ => r.below(65536) as u16,
    };
    Pick { class: r.below(65536) as u16, pos, act, arg, sticky: r.chance(1, 3) }
}

pub const READS: &[(Op, Role)] = &[(Op::OpenR, Role::Spec), (Op::Read, Role::Spec), (Op::OpenR, Role::Inj), (Op::Read, Role::Inj)];
pub const WRITES: &[(Op, Role)] = &[(Op::OpenW, Role::Rs), (Op::Write, Role::Rs), (Op::OpenW, Role::States), (Op::Write, Role::States)];

pub fn classes(d: &Done, f: &dyn Fn(Op, Role) -> bool) -> Vec<(Op, Role, u32)> {
    let mut v = vec![];
    for op in OPS {
        for role in ROLES {
            if role != Role::Outside && d.count(op, role) > 0 && f(op, role) {
                v.push((op, role, d.count(op, role)));
            }
        }
    }
    v
}

pub fn resolve(p: &Pick, cls: &[(Op, Role, u32)]) -> Option<Fault> {
    if cls.is_empty() {
        return None;
    }
    let (op, role, n) = cls[p.class as usize * cls.len() / 65536];
    let nth = (p.pos as u64 * n as u64 / 65535).min(n as u64 - 1) as u32;
    Some(Fault { op, role, act: p.act, sticky: p.sticky && !matches!(p.act, Act::Flip), nth, arg: if p.act == Act::Err && p.arg <= 0 { libc::EIO as i64 } else { p.arg } })
}

pub fn is_hard(f: &Fault) -> bool {
    let read = READS.contains(&(f.op, f.role));
    let write = WRITES.contains(&(f.op, f.role));
    (f.act == Act::Err && f.arg != libc::EINTR as i64 && (read || write)) || (f.act == Act::Zero && f.op == Op::Write && write)
}

pub fn count_faults(obs: &mut Obs, faults: &[Fault], d: &Done) {
    for (f, n) in faults.iter().zip(&d.fired) {
        obs.count(&format!("fault.{:?}.{:?}.{:?}", f.act, f.op, f.role), *n as u64);
    }
    obs.count("fault.noise.eintr", d.noise.0 as u64);
    obs.count("fault.noise.short", d.noise.1 as u64);
    obs.count("fault.killed", d.killed as u64);
}

pub fn record(obs: &mut Obs, d: &Done) {
    obs.steps += d.events as u64;
    obs.hist(d.status as u64);
    obs.hist(d.hash);
    obs.hist_bytes(scrub(&d.err).as_bytes());
    obs.hist_bytes(scrub(&d.out).as_bytes());
    obs.count(&format!("status.{}", d.status), 1);
    if obs.want_trace {
        obs.note(|| format!("process: status {} stderr {:?}", d.status, scrub(&d.err).chars().take(300).collect::<String>()));
        for l in &d.log {
            obs.note(|| l.clone());
        }
    }
}
/// messages without the name of the scratch directory
pub fn scrub(b: &[u8]) -> String {
    String::from_utf8_lossy(b).replace(&world().root, "ROOT")
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Residue {
    Missing,
    Empty,
    /// the first part of what a run writes
    Part(u16),
    /// the contents and more
    Longer(u16),
    Garbage(u16),
    /// with a block of zeros or lost (part, length)
    Torn(u16, u16, bool),
    Text(String),
    /// exactly what a run writes
    Same,
}
pub fn residue(r: &mut Rng) -> Residue {
    match r.below(9) {
        0 => Residue::Missing,
        1 => Residue::Empty,
        2 => Residue::Part(r.below(65536) as u16),
        3 => Residue::Longer(r.log(5000) as u16),
        4 => Residue::Garbage(r.log(60000) as u16),
        5 | 6 => Residue::Torn(r.below(65536) as u16, r.log(4096) as u16, r.chance(1, 2)),
        7 => Residue::Same,
        _ => Residue::Text("old contents\n".into()),
    }
}
impl Residue {
    pub fn node(&self, real: &[u8]) -> Option<Node> {
        let f = |b: Vec<u8>| Some(Node::File(b, 0o644));
        let part = |p: u16| (real.len() as u64 * p as u64 / 65536) as usize;
        match self {
            Residue::Missing => None,
            Residue::Empty => f(vec![]),
            Residue::Part(p) => f(real[..part(*p)].to_vec()),
            Residue::Longer(n) => f([real, &vec![b'x'; *n as usize]].concat()),
            Residue::Garbage(n) => f((0..*n as u32).map(|i| (i.wrapping_mul(2654435761) >> 13) as u8).collect()),
            Residue::Torn(p, n, zero) => {
                let mut v = real.to_vec();
                let a = part(*p);
                let b = (a + *n as usize).min(v.len());
                if *zero {
                    v[a..b].fill(0);
                } else {
                    v.drain(a..b);
                }
                f(v)
            }
            Residue::Text(t) => f(t.clone().into_bytes()),
            Residue::Same => f(real.to_vec()),
        }
    }
}
