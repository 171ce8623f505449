//! Reference lexical analysis and token stream with injection
use crate::grammar::Grammar;
use regex::Regex;
use std::collections::VecDeque;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Loc {
    pub label: String,
    pub line: usize,
    pub off: usize,
}
impl Loc {
    pub fn text(&self) -> String {
        format!("{}:{}:{}", self.label, self.line, self.off)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Lexed {
    Tok(u16),
    Unexpected,
    Ambiguous(Vec<u16>),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Item {
    pub what: Lexed,
    pub lexeme: String,
    pub loc: Loc,
    pub start: usize,
}

pub struct Lexer {
    literals: Vec<(u16, String)>,
    regexes: Vec<(u16, Regex)>,
    skips: Vec<Regex>,
}

fn anchored(p: &str) -> Regex {
    Regex::new(&format!("\\A(?:{p})")).expect("checked before")
}

fn match_len(re: &Regex, text: &str) -> usize {
    re.find(text).map(|m| m.end()).unwrap_or(0)
}

impl Lexer {
    pub fn new(g: &Grammar) -> Lexer {
        let mut literals = vec![];
        let mut regexes = vec![];
        for (i, t) in g.toks.iter().enumerate() {
            if t.re {
                regexes.push((i as u16, anchored(&t.text)));
            } else {
                literals.push((i as u16, t.text.clone()));
            }
        }
        Lexer { literals, regexes, skips: g.skips.iter().map(|s| anchored(s)).collect() }
    }
    fn skip(&self, text: &str) -> usize {
        let mut n = 0;
        loop {
            let k = self.skips.iter().map(|s| match_len(s, &text[n..])).find(|k| *k > 0).unwrap_or(0);
            if k == 0 {
                return n;
            }
            n += k;
        }
    }
    /// what is at the start of the (non empty) text and its length
    fn one(&self, text: &str) -> (Lexed, usize) {
        let lit = self.literals.iter().filter(|(_, l)| text.starts_with(l.as_str())).max_by_key(|(_, l)| l.len()).map(|(t, l)| (*t, l.len()));
        let lens: Vec<(u16, usize)> = self.regexes.iter().map(|(t, r)| (*t, match_len(r, text))).filter(|x| x.1 > 0).collect();
        let best = lens.iter().map(|x| x.1).max().unwrap_or(0);
        if let Some((t, n)) = lit
            && n >= best
        {
            return (Lexed::Tok(t), n);
        }
        if best > 0 {
            let tags: Vec<u16> = lens.iter().filter(|x| x.1 == best).map(|x| x.0).collect();
            if tags.len() == 1 {
                return (Lexed::Tok(tags[0]), best);
            }
            return (Lexed::Ambiguous(tags), best);
        }
        for (i, _) in text.char_indices().skip(1) {
            let t = &text[i..];
            if self.literals.iter().any(|(_, l)| t.starts_with(l.as_str()))
                || self.regexes.iter().any(|(_, r)| match_len(r, t) > 0)
                || self.skips.iter().any(|r| match_len(r, t) > 0)
            {
                return (Lexed::Unexpected, i);
            }
        }
        (Lexed::Unexpected, text.len())
    }
    /// everything in the text, and the location of its end
    pub fn all(&self, text: &str, label: &str) -> (VecDeque<Item>, Loc) {
        let mut out = VecDeque::new();
        let mut at = 0;
        loop {
            at += self.skip(&text[at..]);
            if at >= text.len() {
                return (out, location(text, at, label));
            }
            let (what, n) = self.one(&text[at..]);
            out.push_back(Item { what, lexeme: text[at..at + n].to_string(), loc: location(text, at, label), start: at });
            at += n;
        }
    }
}

pub fn location(text: &str, at: usize, label: &str) -> Loc {
    let before = &text.as_bytes()[..at];
    let line = 1 + before.iter().filter(|b| **b == b'\n').count();
    let off = 1 + before.iter().rev().take_while(|b| **b != b'\n').count();
    Loc { label: label.to_string(), line, off }
}

/// What is in front
#[derive(Clone, Debug, PartialEq)]
pub enum Front {
    Item(Item),
    End(Loc),
    Empty,
}

pub struct Stream<'a> {
    lexer: &'a Lexer,
    rest: VecDeque<Item>,
    end: Loc,
    /// texts in use / end delivered / advanced past the end
    state: u8,
}

impl<'a> Stream<'a> {
    pub fn new(lexer: &'a Lexer, text: &str, label: &str) -> Self {
        let mut s = Stream { lexer, rest: VecDeque::new(), end: Loc { label: String::new(), line: 0, off: 0 }, state: 2 };
        s.inject(text, label);
        s
    }
    pub fn is_empty(&self) -> bool {
        self.state != 0
    }
    pub fn inject(&mut self, text: &str, label: &str) {
        self.inject_at(text, label, 0)
    }
    pub fn inject_after_front(&mut self, text: &str, label: &str) {
        self.inject_at(text, label, 1)
    }
    fn inject_at(&mut self, text: &str, label: &str, at: usize) {
        let (items, end) = self.lexer.all(text, label);
        if items.is_empty() {
            return;
        }
        let mut at = at;
        if self.state != 0 {
            self.state = 0;
            self.end = end;
            self.rest.clear();
            at = 0;
        }
        for (i, x) in items.into_iter().enumerate() {
            self.rest.insert(at + i, x);
        }
    }
    pub fn advance(&mut self) {
        match self.state {
            0 => {
                self.rest.pop_front();
                if self.rest.is_empty() {
                    self.state = 1;
                }
            }
            _ => self.state = 2,
        }
    }
    pub fn front(&self) -> Front {
        match self.state {
            0 => Front::Item(self.rest[0].clone()),
            1 => Front::End(self.end.clone()),
            _ => Front::Empty,
        }
    }
}
