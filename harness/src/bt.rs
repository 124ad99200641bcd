//! A backtracking matcher of our own for decomposed definitions: what extraction has to find.
//! Leftmost match, alternatives in order, greedy or lazy repetition, every part a span.

#[derive(Clone, Debug)]
pub enum Re { Empty, Ch(char), Set(bool, Vec<(char, char)>), Dot, Seq(Vec<Re>), Alt(Vec<Re>), Rep(Box<Re>, u32, Option<u32>, bool), Bol, Eol, LineBol, LineEol, Word(bool), Look { ahead: bool, neg: bool, re: Box<Re> }, Fold(Box<Re>), DotAll(Box<Re>) }

/// the inline flags in force: case-insensitive, dot matches newline, line anchors, swapped greed
#[derive(Clone, Copy, Default)]
struct Flags { i: bool, s: bool, m: bool, u: bool }
pub struct Parser<'a> { s: Vec<char>, i: usize, text: &'a str, f: Flags }
impl<'a> Parser<'a> {
    /// Err: the text is not a regex, or uses something this matcher does not know
    pub fn parse(text: &'a str) -> Result<Re, String> {
        let mut p = Parser { s: text.chars().collect(), i: 0, text, f: Flags::default() };
        let r = p.alt()?;
        if p.i < p.s.len() { return Err(format!("{}: unexpected {:?}", p.text, p.s[p.i])); }
        Ok(r)
    }
    fn peek(&self) -> Option<char> { self.s.get(self.i).copied() }
    fn eat(&mut self, c: char) -> bool { if self.peek() == Some(c) { self.i += 1; true } else { false } }
    fn lit(&mut self, t: &str) -> bool { let c: Vec<char> = t.chars().collect(); if self.s[self.i..].starts_with(&c) { self.i += c.len(); true } else { false } }
    fn alt(&mut self) -> Result<Re, String> {
        let mut v = vec![self.seq()?];
        while self.eat('|') { v.push(self.seq()?); }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Re::Alt(v) })
    }
    fn seq(&mut self) -> Result<Re, String> {
        let mut v = vec![];
        while let Some(c) = self.peek() {
            if c == '|' || c == ')' { break; }
            // a flag holds to the end of its group, across alternatives
            if let Some(f) = self.flags(')')? { self.f = f; continue; }
            let a = self.atom()?;
            v.push(self.repeat(a)?);
        }
        Ok(if v.is_empty() { Re::Empty } else if v.len() == 1 { v.pop().unwrap() } else { Re::Seq(v) })
    }
    /// `(?is-m)` or `(?is-m:`, as the end says: the flags in force behind it
    fn flags(&mut self, end: char) -> Result<Option<Flags>, String> {
        if !self.s[self.i..].starts_with(&['(', '?']) { return Ok(None); }
        let (mut j, mut on, mut f, mut any) = (self.i + 2, true, self.f, false);
        loop {
            match self.s.get(j) {
                Some('-') if on => { on = false; any = false; }
                Some('i') => { f.i = on; any = true; }
                Some('s') => { f.s = on; any = true; }
                Some('m') => { f.m = on; any = true; }
                Some('U') => { f.u = on; any = true; }
                Some(c) if *c == end && any => { self.i = j + 1; return Ok(Some(f)); }
                _ => return Ok(None),
            }
            j += 1;
        }
    }
    fn repeat(&mut self, a: Re) -> Result<Re, String> {
        let (lo, hi) = match self.peek() {
            Some('*') => { self.i += 1; (0, None) }
            Some('+') => { self.i += 1; (1, None) }
            Some('?') => { self.i += 1; (0, Some(1)) }
            Some('{') => {
                let end = self.s[self.i..].iter().position(|c| *c == '}').ok_or("brace")? + self.i;
                let t: String = self.s[self.i + 1..end].iter().collect();
                self.i = end + 1;
                let (a, b) = match t.split_once(',') { None => (t.as_str(), Some(t.as_str())), Some((a, "")) => (a, None), Some((a, b)) => (a, Some(b)) };
                let a: u32 = a.parse().map_err(|_| "count")?;
                let b: Option<u32> = match b { None => None, Some(b) => Some(b.parse().map_err(|_| "count")?) };
                if b.map(|b| b < a).unwrap_or(false) { return Err("count".into()); }
                (a, b)
            }
            _ => return Ok(a),
        };
        let lazy = self.eat('?') != self.f.u;
        if matches!(self.peek(), Some('*' | '+' | '?' | '{')) { return Err("repeated repetition".into()); }
        if matches!(a, Re::Bol | Re::Eol | Re::LineBol | Re::LineEol | Re::Word(_) | Re::Look { .. }) { return Err("repeated assertion".into()); }
        if nullable(&a) { return Err("repeated empty match".into()); }
        Ok(Re::Rep(Box::new(a), lo, hi, lazy))
    }
    fn atom(&mut self) -> Result<Re, String> {
        let outer = self.f;
        if let Some(f) = self.flags(':')? {
            self.f = f;
            let r = self.alt()?;
            self.f = outer;
            if !self.eat(')') { return Err("missing )".into()); }
            return Ok(r);
        }
        let c = self.peek().unwrap();
        self.i += 1;
        let leaf = |r: Re| if outer.i { Re::Fold(Box::new(r)) } else { r };
        Ok(match c {
            '(' => {
                let kind = if self.lit("?:") { 0 } else if self.lit("?=") { 1 } else if self.lit("?!") { 2 } else if self.lit("?<=") { 3 } else if self.lit("?<!") { 4 } else if self.lit("?P<") { while !self.eat('>') { if self.peek().is_none() { return Err("name".into()); } self.i += 1; } 0 } else if self.peek() == Some('?') { return Err("group".into()); } else { 0 };
                let r = self.alt()?;
                self.f = outer;
                if !self.eat(')') { return Err("missing )".into()); }
                match kind { 1..=4 => Re::Look { ahead: kind < 3, neg: kind % 2 == 0, re: Box::new(r) }, _ => r }
            }
            '[' => leaf(self.class()?),
            '.' => if outer.s { Re::DotAll(Box::new(Re::Dot)) } else { Re::Dot },
            '^' => if outer.m { Re::LineBol } else { Re::Bol },
            '$' => if outer.m { Re::LineEol } else { Re::Eol },
            '*' | '+' | '?' | '{' => return Err("nothing to repeat".into()),
            '\\' => match self.esc()? { E::C(c) => leaf(Re::Ch(c)), E::Set(n, s) => leaf(Re::Set(n, s)), E::Word(w) => Re::Word(w) },
            c => leaf(Re::Ch(c)),
        })
    }
    fn esc(&mut self) -> Result<E, String> {
        let c = self.peek().ok_or("backslash at end")?;
        self.i += 1;
        Ok(match c {
            'n' => E::C('\n'), 'r' => E::C('\r'), 't' => E::C('\t'),
            'd' => E::Set(false, vec![('0', '9')]), 'D' => E::Set(true, vec![('0', '9')]),
            // only characters of our texts matter
            'w' => E::Set(false, WORD.to_vec()), 'W' => E::Set(true, WORD.to_vec()),
            's' => E::Set(false, SPACE.to_vec()), 'S' => E::Set(true, SPACE.to_vec()),
            'b' => E::Word(true), 'B' => E::Word(false),
            c if c.is_ascii_punctuation() => E::C(c),
            c => return Err(format!("escape {c}")),
        })
    }
    fn class(&mut self) -> Result<Re, String> {
        let neg = self.eat('^');
        let mut v = vec![];
        let mut first = true;
        loop {
            let c = self.peek().ok_or("missing ]")?;
            self.i += 1;
            if c == ']' && !first { break; }
            first = false;
            if c == '[' || (c == '&' && self.peek() == Some('&')) || (c == '~' && self.peek() == Some('~')) { return Err("nested class".into()); }
            let a = if c == '\\' { match self.esc()? { E::C(c) => c, E::Set(false, s) => { v.extend(s); continue; } _ => return Err("class escape".into()) } } else { c };
            if self.peek() == Some('-') && self.s.get(self.i + 1).map(|c| *c != ']').unwrap_or(false) {
                self.i += 1;
                let c = self.peek().unwrap();
                self.i += 1;
                let b = if c == '\\' { match self.esc()? { E::C(c) => c, _ => return Err("range".into()) } } else if c == '[' || c == '-' { return Err("range".into()) } else { c };
                if b < a { return Err("range".into()); }
                v.push((a, b));
            } else { v.push((a, a)); }
        }
        Ok(Re::Set(neg, v))
    }
}
enum E { C(char), Set(bool, Vec<(char, char)>), Word(bool) }
const WORD: &[(char, char)] = &[('0', '9'), ('A', 'Z'), ('a', 'z'), ('_', '_'), ('é', 'é'), ('あ', 'あ')];
const SPACE: &[(char, char)] = &[(' ', ' '), ('\t', '\r')];
pub fn nullable(r: &Re) -> bool {
    match r {
        Re::Ch(_) | Re::Set(..) | Re::Dot => false,
        Re::Empty | Re::Bol | Re::Eol | Re::LineBol | Re::LineEol | Re::Word(_) | Re::Look { .. } => true,
        Re::Seq(v) => v.iter().all(nullable),
        Re::Alt(v) => v.iter().any(nullable),
        Re::Rep(r, lo, _, _) => *lo == 0 || nullable(r),
        Re::Fold(r) | Re::DotAll(r) => nullable(r),
    }
}
fn word(c: Option<&char>) -> bool { c.map(|c| WORD.iter().any(|(a, b)| a <= c && c <= b)).unwrap_or(false) }
fn in_set(c: char, neg: bool, s: &[(char, char)], fold: bool) -> bool {
    let has = |c: char| s.iter().any(|(a, b)| *a <= c && c <= *b);
    (has(c) || (fold && (has(c.to_ascii_lowercase()) || has(c.to_ascii_uppercase())))) != neg
}
/// k gets every end position in order of preference until it says yes
fn m(r: &Re, t: &[char], i: usize, fold: bool, dotall: bool, k: &mut dyn FnMut(usize) -> bool) -> bool {
    match r {
        Re::Empty => k(i),
        Re::Ch(c) => i < t.len() && (t[i] == *c || (fold && t[i].eq_ignore_ascii_case(c))) && k(i + 1),
        Re::Set(n, s) => i < t.len() && in_set(t[i], *n, s, fold) && k(i + 1),
        Re::Dot => i < t.len() && (dotall || t[i] != '\n') && k(i + 1),
        Re::Bol => i == 0 && k(i),
        Re::Eol => i == t.len() && k(i),
        Re::LineBol => (i == 0 || t[i - 1] == '\n') && k(i),
        Re::LineEol => (i == t.len() || t[i] == '\n') && k(i),
        Re::Word(w) => ((word(if i > 0 { t.get(i - 1) } else { None }) != word(t.get(i))) == *w) && k(i),
        Re::Seq(v) => seq(v, t, i, fold, dotall, k),
        Re::Alt(v) => v.iter().any(|x| m(x, t, i, fold, dotall, k)),
        Re::Rep(x, lo, hi, lazy) => rep(x, *lo, *hi, *lazy, t, i, fold, dotall, k),
        Re::Fold(x) => m(x, t, i, true, dotall, k),
        Re::DotAll(x) => m(x, t, i, fold, true, k),
        Re::Look { ahead, neg, re } => {
            let hit = if *ahead { m(re, t, i, fold, dotall, &mut |_| true) } else { (0..=i).any(|s| m(re, t, s, fold, dotall, &mut |e| e == i)) };
            hit != *neg && k(i)
        }
    }
}
fn seq(v: &[Re], t: &[char], i: usize, fold: bool, dotall: bool, k: &mut dyn FnMut(usize) -> bool) -> bool {
    match v.split_first() { None => k(i), Some((h, r)) => m(h, t, i, fold, dotall, &mut |e| seq(r, t, e, fold, dotall, k)) }
}
#[allow(clippy::too_many_arguments)]
fn rep(x: &Re, lo: u32, hi: Option<u32>, lazy: bool, t: &[char], i: usize, fold: bool, dotall: bool, k: &mut dyn FnMut(usize) -> bool) -> bool {
    if lo == 0 && lazy && k(i) { return true; }
    if hi != Some(0) && m(x, t, i, fold, dotall, &mut |e| rep(x, lo.saturating_sub(1), hi.map(|h| h - 1), lazy, t, e, fold, dotall, k)) { return true; }
    lo == 0 && !lazy && k(i)
}

/// the byte span of every part in the first match, or None
pub fn find(parts: &[Re], text: &str) -> Option<Vec<(usize, usize)>> { find_from(parts, text, 0) }
/// the same, for the first match that starts at byte `from` or behind it
pub fn find_from(parts: &[Re], text: &str, from: usize) -> Option<Vec<(usize, usize)>> {
    let t: Vec<char> = text.chars().collect();
    let mut at: Vec<usize> = text.char_indices().map(|x| x.0).collect();
    at.push(text.len());
    fn go(p: &[Re], t: &[char], i: usize, ends: &mut Vec<usize>) -> bool {
        let Some((h, r)) = p.split_first() else { return true };
        m(h, t, i, false, false, &mut |e| { ends.push(e); if go(r, t, e, ends) { return true; } ends.pop(); false })
    }
    for s in 0..=t.len() {
        if at[s] < from { continue; }
        let mut ends = vec![];
        if go(parts, &t, s, &mut ends) {
            let mut v = vec![];
            let mut b = s;
            for e in ends { v.push((at[b], at[e])); b = e; }
            return Some(v);
        }
    }
    None
}
