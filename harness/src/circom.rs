//! A small circom front end: parses the circom 2 subset used by generated circuits, the helper
//! library in /repo and the circomlib gates, elaborates `Template(n)` into a straight-line list of
//! field operations and constraints, and evaluates it.  Values are exact integers (a value v stands
//! for v mod p); arithmetic that leaves +-2^60 is reported instead of wrapped.
use std::collections::HashMap;
use std::rc::Rc;
use std::cell::RefCell;

// ---------------------------------------------------------------- lexer
#[derive(Clone, Debug, PartialEq)]
enum Tok { Num(i64), Id(String), Str(String), P(&'static str), Eof }

const PUNCTS: &[&str] = &[
    "<==", "==>", "===", "<--", "-->", "**=", "<<=", ">>=", "&&", "||", "==", "!=", "<=", ">=", "++", "--",
    "+=", "-=", "*=", "/=", "\\=", "%=", "**", "<<", ">>", "+", "-", "*", "/", "\\", "%", "<", ">", "=", "!",
    "(", ")", "[", "]", "{", "}", ";", ",", ".", "?", ":", "&", "|", "^", "~",
];

fn lex(src: &str) -> Result<Vec<(Tok, usize)>, String> {
    let b = src.as_bytes();
    let mut i = 0;
    let mut line = 1;
    let mut out = vec![];
    'outer: while i < b.len() {
        let c = b[i];
        if c == b'\n' { line += 1; i += 1; continue; }
        if c == b' ' || c == b'\t' || c == b'\r' { i += 1; continue; }
        if c == b'/' && i + 1 < b.len() && b[i + 1] == b'/' {
            while i < b.len() && b[i] != b'\n' { i += 1; }
            continue;
        }
        if c == b'/' && i + 1 < b.len() && b[i + 1] == b'*' {
            i += 2;
            loop {
                if i + 1 >= b.len() { return Err(format!("line {line}: unterminated comment")); }
                if b[i] == b'\n' { line += 1; }
                if b[i] == b'*' && b[i + 1] == b'/' { i += 2; break; }
                i += 1;
            }
            continue;
        }
        if c.is_ascii_digit() {
            let s = i;
            if c == b'0' && i + 1 < b.len() && b[i + 1] == b'x' {
                i += 2;
                while i < b.len() && b[i].is_ascii_hexdigit() { i += 1; }
                let v = i64::from_str_radix(&src[s + 2..i], 16).map_err(|e| e.to_string())?;
                out.push((Tok::Num(v), line));
                continue;
            }
            while i < b.len() && b[i].is_ascii_digit() { i += 1; }
            out.push((Tok::Num(src[s..i].parse().map_err(|e| format!("line {line}: {e}"))?), line));
            continue;
        }
        if c.is_ascii_alphabetic() || c == b'_' || c == b'$' {
            let s = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'$') { i += 1; }
            out.push((Tok::Id(src[s..i].to_string()), line));
            continue;
        }
        if c == b'"' {
            let s = i + 1;
            i += 1;
            while i < b.len() && b[i] != b'"' { i += 1; }
            if i >= b.len() { return Err(format!("line {line}: unterminated string")); }
            out.push((Tok::Str(src[s..i].to_string()), line));
            i += 1;
            continue;
        }
        for p in PUNCTS {
            if src.as_bytes()[i..].starts_with(p.as_bytes()) {
                out.push((Tok::P(p), line));
                i += p.len();
                continue 'outer;
            }
        }
        return Err(format!("line {line}: unexpected character {:?}", src[i..].chars().next()));
    }
    out.push((Tok::Eof, line));
    Ok(out)
}

// ---------------------------------------------------------------- AST
#[derive(Clone, Debug)]
pub enum Expr {
    Num(i64),
    /// access path: name then indices/members
    Path(String, Vec<Acc>),
    Bin(&'static str, Box<Expr>, Box<Expr>),
    Un(&'static str, Box<Expr>),
    Tern(Box<Expr>, Box<Expr>, Box<Expr>),
    /// T(args) possibly followed by (inputs): anonymous component
    Call(String, Vec<Expr>, Option<Vec<(Option<String>, Expr)>>),
    Arr(Vec<Expr>),
    /// (a, b): only as the target of an anonymous component
    Tuple(Vec<Expr>),
}
#[derive(Clone, Debug)]
pub enum Acc { Idx(Expr), Mem(String) }

#[derive(Clone, Debug)]
pub enum Stmt {
    Block(Vec<Stmt>),
    For(Box<Stmt>, Expr, Box<Stmt>, Box<Stmt>, usize),
    While(Expr, Box<Stmt>, usize),
    If(Expr, Box<Stmt>, Option<Box<Stmt>>, usize),
    Var(Vec<(String, Vec<Expr>, Option<Expr>)>, usize),
    Sig(SigKind, Vec<(String, Vec<Expr>, Option<(&'static str, Expr)>)>, usize),
    Comp(Vec<(String, Vec<Expr>, Option<Expr>)>, usize),
    Assign(Expr, &'static str, Expr, usize),
    Eq(Expr, Expr, usize),
    Assert(Expr, usize),
    Return(Expr, usize),
    Expr(Expr, usize),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum SigKind { In, Out, Mid }

#[derive(Debug)]
pub struct Template { pub name: String, pub params: Vec<String>, pub body: Vec<Stmt>, pub is_fn: bool }

#[derive(Default, Clone)]
pub struct Program { pub templates: HashMap<String, std::sync::Arc<Template>>, pub includes: Vec<String>, pub order: Vec<String> }

struct Parser { t: Vec<(Tok, usize)>, i: usize }
type R<T> = Result<T, String>;

impl Parser {
    fn peek(&self) -> &Tok { &self.t[self.i].0 }
    fn line(&self) -> usize { self.t[self.i].1 }
    fn next(&mut self) -> Tok { let t = self.t[self.i].0.clone(); if self.i + 1 < self.t.len() { self.i += 1; } t }
    fn is(&self, p: &str) -> bool { matches!(self.peek(), Tok::P(q) if *q == p) }
    fn is_id(&self, s: &str) -> bool { matches!(self.peek(), Tok::Id(q) if q == s) }
    fn eat(&mut self, p: &str) -> bool { if self.is(p) { self.next(); true } else { false } }
    fn eat_id(&mut self, p: &str) -> bool { if self.is_id(p) { self.next(); true } else { false } }
    fn expect(&mut self, p: &str) -> R<()> {
        if self.eat(p) { Ok(()) } else { Err(format!("line {}: expected {:?}, found {:?}", self.line(), p, self.peek())) }
    }
    fn ident(&mut self) -> R<String> {
        let l = self.line();
        match self.next() { Tok::Id(s) => Ok(s), t => Err(format!("line {l}: expected identifier, found {t:?}")) }
    }
    fn program(&mut self) -> R<Program> {
        let mut pr = Program::default();
        loop {
            match self.peek().clone() {
                Tok::Eof => break,
                Tok::Id(s) if s == "pragma" => { while !self.is(";") { if *self.peek() == Tok::Eof { return Err("eof in pragma".into()); } self.next(); } self.next(); }
                Tok::Id(s) if s == "include" => {
                    self.next();
                    match self.next() { Tok::Str(p) => pr.includes.push(p), t => return Err(format!("bad include {t:?}")) }
                    self.expect(";")?;
                }
                Tok::Id(s) if s == "template" || s == "function" => {
                    let is_fn = s == "function";
                    self.next();
                    let name = self.ident()?;
                    self.expect("(")?;
                    let mut params = vec![];
                    while !self.is(")") { params.push(self.ident()?); if !self.eat(",") { break; } }
                    self.expect(")")?;
                    let body = self.block()?;
                    if pr.templates.contains_key(&name) { return Err(format!("template {name} declared twice")); }
                    pr.order.push(name.clone());
                    pr.templates.insert(name.clone(), std::sync::Arc::new(Template { name, params, body, is_fn }));
                }
                Tok::Id(s) if s == "component" => {
                    // component main ... ;
                    while !self.is(";") { if *self.peek() == Tok::Eof { return Err("eof in main".into()); } self.next(); }
                    self.next();
                }
                t => return Err(format!("line {}: unexpected {:?} at top level", self.line(), t)),
            }
        }
        Ok(pr)
    }
    fn block(&mut self) -> R<Vec<Stmt>> {
        self.expect("{")?;
        let mut v = vec![];
        while !self.is("}") {
            if *self.peek() == Tok::Eof { return Err(format!("line {}: unexpected end of file, missing '}}'", self.line())); }
            v.push(self.stmt()?);
        }
        self.next();
        Ok(v)
    }
    fn dims(&mut self) -> R<Vec<Expr>> {
        let mut d = vec![];
        while self.eat("[") { d.push(self.expr()?); self.expect("]")?; }
        Ok(d)
    }
    fn simple(&mut self) -> R<Stmt> {
        let l = self.line();
        if self.eat_id("var") {
            let mut v = vec![];
            loop {
                let n = self.ident()?;
                let d = self.dims()?;
                let init = if self.eat("=") { Some(self.expr()?) } else { None };
                v.push((n, d, init));
                if !self.eat(",") { break; }
            }
            return Ok(Stmt::Var(v, l));
        }
        if self.eat_id("signal") {
            let mut k = SigKind::Mid;
            if self.eat_id("input") { k = SigKind::In } else if self.eat_id("output") { k = SigKind::Out }
            let mut v = vec![];
            loop {
                let n = self.ident()?;
                let d = self.dims()?;
                let init = if self.eat("<==") { Some(("<==", self.expr()?)) } else if self.eat("<--") { Some(("<--", self.expr()?)) } else { None };
                v.push((n, d, init));
                if !self.eat(",") { break; }
            }
            return Ok(Stmt::Sig(k, v, l));
        }
        if self.eat_id("component") {
            let mut v = vec![];
            loop {
                let n = self.ident()?;
                let d = self.dims()?;
                let init = if self.eat("=") { Some(self.expr()?) } else { None };
                v.push((n, d, init));
                if !self.eat(",") { break; }
            }
            return Ok(Stmt::Comp(v, l));
        }
        if self.eat_id("return") { return Ok(Stmt::Return(self.expr()?, l)); }
        if self.eat_id("assert") { self.expect("(")?; let e = self.expr()?; self.expect(")")?; return Ok(Stmt::Assert(e, l)); }
        if self.eat_id("log") { self.expect("(")?; let mut depth = 1; while depth > 0 { match self.next() { Tok::P("(") => depth += 1, Tok::P(")") => depth -= 1, Tok::Eof => return Err("eof".into()), _ => {} } } return Ok(Stmt::Block(vec![])); }
        let e = self.expr()?;
        for op in ["<==", "<--", "=", "+=", "-=", "*=", "/=", "\\=", "%="] {
            if self.eat(op) { let r = self.expr()?; return Ok(Stmt::Assign(e, PUNCTS.iter().find(|p| **p == op).unwrap(), r, l)); }
        }
        if self.eat("==>") { let r = self.expr()?; return Ok(Stmt::Assign(r, "<==", e, l)); }
        if self.eat("-->") { let r = self.expr()?; return Ok(Stmt::Assign(r, "<--", e, l)); }
        if self.eat("===") { let r = self.expr()?; return Ok(Stmt::Eq(e, r, l)); }
        if self.eat("++") { return Ok(Stmt::Assign(e, "+=", Expr::Num(1), l)); }
        if self.eat("--") { return Ok(Stmt::Assign(e, "-=", Expr::Num(1), l)); }
        Ok(Stmt::Expr(e, l))
    }
    fn stmt(&mut self) -> R<Stmt> {
        let l = self.line();
        if self.is("{") { return Ok(Stmt::Block(self.block()?)); }
        if self.eat(";") { return Ok(Stmt::Block(vec![])); }
        if self.eat_id("for") {
            self.expect("(")?;
            let a = self.simple()?;
            self.expect(";")?;
            let c = self.expr()?;
            self.expect(";")?;
            let s = self.simple()?;
            self.expect(")")?;
            let b = self.stmt()?;
            return Ok(Stmt::For(Box::new(a), c, Box::new(s), Box::new(b), l));
        }
        if self.eat_id("while") {
            self.expect("(")?;
            let c = self.expr()?;
            self.expect(")")?;
            return Ok(Stmt::While(c, Box::new(self.stmt()?), l));
        }
        if self.eat_id("if") {
            self.expect("(")?;
            let c = self.expr()?;
            self.expect(")")?;
            let a = self.stmt()?;
            let b = if self.eat_id("else") { Some(Box::new(self.stmt()?)) } else { None };
            return Ok(Stmt::If(c, Box::new(a), b, l));
        }
        let s = self.simple()?;
        self.expect(";")?;
        Ok(s)
    }
    fn expr(&mut self) -> R<Expr> {
        let c = self.bin(0)?;
        if self.eat("?") {
            let a = self.expr()?;
            self.expect(":")?;
            let b = self.expr()?;
            return Ok(Expr::Tern(Box::new(c), Box::new(a), Box::new(b)));
        }
        Ok(c)
    }
    fn bin(&mut self, lvl: usize) -> R<Expr> {
        const LV: &[&[&str]] = &[&["||"], &["&&"], &["|"], &["^"], &["&"], &["==", "!=", "<", ">", "<=", ">="], &["<<", ">>"], &["+", "-"], &["*", "/", "\\", "%"], &["**"]];
        if lvl == LV.len() { return self.unary(); }
        let mut a = self.bin(lvl + 1)?;
        'o: loop {
            for op in LV[lvl] {
                if self.is(op) { self.next(); let b = self.bin(lvl + 1)?; a = Expr::Bin(op, Box::new(a), Box::new(b)); continue 'o; }
            }
            return Ok(a);
        }
    }
    fn unary(&mut self) -> R<Expr> {
        if self.eat("-") { return Ok(Expr::Un("-", Box::new(self.unary()?))); }
        if self.eat("!") { return Ok(Expr::Un("!", Box::new(self.unary()?))); }
        self.primary()
    }
    fn args(&mut self, close: &str) -> R<Vec<Expr>> {
        let mut v = vec![];
        while !self.is(close) { v.push(self.expr()?); if !self.eat(",") { break; } }
        self.expect(close)?;
        Ok(v)
    }
    /// inputs of an anonymous component, by position or by name
    fn inputs(&mut self) -> R<Vec<(Option<String>, Expr)>> {
        let mut v = vec![];
        while !self.is(")") {
            let named = matches!((self.peek(), &self.t[(self.i + 1).min(self.t.len() - 1)].0), (Tok::Id(_), Tok::P("<==")));
            let n = if named { let n = self.ident()?; self.next(); Some(n) } else { None };
            v.push((n, self.expr()?));
            if !self.eat(",") { break; }
        }
        self.expect(")")?;
        if v.iter().any(|x| x.0.is_some()) && v.iter().any(|x| x.0.is_none()) { return Err("named and positional inputs mixed".into()); }
        Ok(v)
    }
    fn primary(&mut self) -> R<Expr> {
        let l = self.line();
        match self.next() {
            Tok::Num(n) => Ok(Expr::Num(n)),
            Tok::P("(") => {
                let e = self.expr()?;
                if !self.is(",") { self.expect(")")?; return Ok(e); }
                let mut v = vec![e];
                while self.eat(",") { v.push(self.expr()?); }
                self.expect(")")?;
                Ok(Expr::Tuple(v))
            }
            Tok::P("[") => Ok(Expr::Arr(self.args("]")?)),
            Tok::Id(s) => {
                if self.eat("(") {
                    let a = self.args(")")?;
                    let ins = if self.eat("(") { Some(self.inputs()?) } else { None };
                    return Ok(Expr::Call(s, a, ins));
                }
                let mut acc = vec![];
                loop {
                    if self.eat("[") { acc.push(Acc::Idx(self.expr()?)); self.expect("]")?; }
                    else if self.eat(".") { acc.push(Acc::Mem(self.ident()?)); }
                    else { break; }
                }
                Ok(Expr::Path(s, acc))
            }
            t => Err(format!("line {l}: unexpected token {t:?} in expression")),
        }
    }
}

pub fn parse(src: &str) -> R<Program> { Parser { t: lex(src)?, i: 0 }.program() }

impl Program {
    pub fn merge(&mut self, o: &Program) -> R<()> {
        for (k, v) in &o.templates {
            if self.templates.contains_key(k) { return Err(format!("template {k} declared twice")); }
            self.templates.insert(k.clone(), v.clone());
        }
        Ok(())
    }
}

// circomlib gates, comparators (stand-ins with circomlib's polynomial semantics; IsZero and LessThan are native)
pub const CIRCOMLIB: &str = r#"
template IsEqual() { signal input in[2]; signal output out; component isz = IsZero(); in[1] - in[0] ==> isz.in; isz.out ==> out; }
template LessEqThan(n) { signal input in[2]; signal output out; component lt = LessThan(n); lt.in[0] <== in[0]; lt.in[1] <== in[1]+1; lt.out ==> out; }
template GreaterThan(n) { signal input in[2]; signal output out; component lt = LessThan(n); lt.in[0] <== in[1]; lt.in[1] <== in[0]; lt.out ==> out; }
template GreaterEqThan(n) { signal input in[2]; signal output out; component lt = LessThan(n); lt.in[0] <== in[1]; lt.in[1] <== in[0]+1; lt.out ==> out; }
template XOR() { signal input a; signal input b; signal output out; out <== a + b - 2*a*b; }
template AND() { signal input a; signal input b; signal output out; out <== a*b; }
template OR() { signal input a; signal input b; signal output out; out <== a + b - a*b; }
template NOT() { signal input in; signal output out; out <== 1 + in - 2*in; }
template NAND() { signal input a; signal input b; signal output out; out <== 1 - a*b; }
template NOR() { signal input a; signal input b; signal output out; out <== a*b + 1 - a - b; }
template MultiAND(n) {
    signal input in[n]; signal output out;
    component and1; component and2; component ands[2];
    if (n==1) { out <== in[0]; }
    else if (n==2) { and1 = AND(); and1.a <== in[0]; and1.b <== in[1]; out <== and1.out; }
    else {
        and2 = AND(); var n1 = n\2; var n2 = n-n\2;
        ands[0] = MultiAND(n1); ands[1] = MultiAND(n2);
        var i;
        for (i=0; i<n1; i++) ands[0].in[i] <== in[i];
        for (i=0; i<n2; i++) ands[1].in[i] <== in[n1+i];
        and2.a <== ands[0].out; and2.b <== ands[1].out; out <== and2.out;
    }
}
"#;

// ---------------------------------------------------------------- circuit
#[derive(Clone, Copy, Debug)]
pub enum Instr {
    Const(i64),
    Input(u32),
    Add(u32, u32),
    Sub(u32, u32),
    Mul(u32, u32),
    IsZero(u32),
    /// circomlib LessThan(n): no witness unless 0 <= a + 2^n - b < 2^(n+1)
    LessThan(u32, u32, u32),
    AssertEq(u32, u32),
    /// value chosen by the prover; honest default computed from slot
    Hint(u32),
    /// never-assigned signal that is read; honest default 0
    Free,
}

#[derive(Clone, Debug)]
pub struct Circuit {
    pub instrs: Vec<Instr>,
    pub n_inputs: usize,
    /// (declared name, slots in order; None = output never assigned)
    pub outputs: Vec<(String, Vec<Option<u32>>)>,
    /// slots whose value the prover may choose, with a readable name
    pub choices: Vec<(u32, String)>,
    pub degree_errors: Vec<String>,
    pub signals: usize,
    pub order: Vec<u32>,
    /// order[group[i]..group[i+1]] = instrs whose last-needed input is i-1 (group 0: no input)
    pub group: Vec<usize>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Deg { Const, Lin, Quad, Non }

#[derive(Clone, Debug)]
enum Val { Int(i64), Slot(u32, Deg), Arr(Vec<Val>) }

struct SigArr { dims: Vec<usize>, data: Vec<Option<u32>>, kind: SigKind, pending: HashMap<usize, u32> }
struct CompInst { name: String, tmpl: std::sync::Arc<Template>, args: Vec<Val>, ins: HashMap<String, SigArr>, in_order: Vec<String>, outs: Option<HashMap<String, SigArr>>, out_order: Vec<String>, missing: usize }
struct CompArr { dims: Vec<usize>, data: Vec<Option<Rc<RefCell<CompInst>>>> }
enum Entry { Var(Val), Sig(SigArr), Comp(CompArr) }

struct Frame { scopes: Vec<HashMap<String, Entry>>, out_order: Vec<String>, ret: Option<Val>, bound: HashMap<String, SigArr> }

pub struct Elab<'a> { prog: &'a Program, instrs: Vec<Instr>, choices: Vec<(u32, String)>, degree_errors: Vec<String>, consts: HashMap<i64, u32>, signals: usize, depth: usize, steps: u64 }

fn flat(dims: &[usize], idx: &[usize]) -> R<usize> {
    let mut f = 0;
    for (d, i) in dims.iter().zip(idx) { if i >= d { return Err(format!("index {i} out of bounds (size {d})")); } f = f * d + i; }
    Ok(f)
}

impl<'a> Elab<'a> {
    fn push(&mut self, i: Instr) -> u32 { self.instrs.push(i); (self.instrs.len() - 1) as u32 }
    fn slot(&mut self, v: &Val) -> R<u32> {
        match v {
            Val::Int(k) => { if let Some(s) = self.consts.get(k) { return Ok(*s); } let s = self.push(Instr::Const(*k)); self.consts.insert(*k, s); Ok(s) }
            Val::Slot(s, _) => Ok(*s),
            Val::Arr(_) => Err("array used as scalar".into()),
        }
    }
    fn deg(v: &Val) -> Deg { match v { Val::Int(_) => Deg::Const, Val::Slot(_, d) => *d, Val::Arr(_) => Deg::Non } }
    fn arith(&mut self, op: &str, a: Val, b: Val) -> R<Val> {
        if let (Val::Int(x), Val::Int(y)) = (&a, &b) {
            let (x, y) = (*x, *y);
            let ck = |o: Option<i64>| o.map(Val::Int).ok_or_else(|| "integer overflow".to_string());
            return match op {
                "+" => ck(x.checked_add(y)), "-" => ck(x.checked_sub(y)), "*" => ck(x.checked_mul(y)),
                "\\" => if y == 0 { Err("division by zero".into()) } else { Ok(Val::Int(x / y)) },
                "/" => if y != 0 && x % y == 0 { Ok(Val::Int(x / y)) } else { Err("inexact constant division".into()) },
                "%" => if y == 0 { Err("mod by zero".into()) } else { Ok(Val::Int(x % y)) },
                "**" => ck(x.checked_pow(y as u32)),
                "<<" => ck(x.checked_shl(y as u32)), ">>" => ck(x.checked_shr(y as u32)),
                "&" => Ok(Val::Int(x & y)), "|" => Ok(Val::Int(x | y)), "^" => Ok(Val::Int(x ^ y)),
                "==" => Ok(Val::Int((x == y) as i64)), "!=" => Ok(Val::Int((x != y) as i64)),
                "<" => Ok(Val::Int((x < y) as i64)), ">" => Ok(Val::Int((x > y) as i64)),
                "<=" => Ok(Val::Int((x <= y) as i64)), ">=" => Ok(Val::Int((x >= y) as i64)),
                "&&" => Ok(Val::Int((x != 0 && y != 0) as i64)), "||" => Ok(Val::Int((x != 0 || y != 0) as i64)),
                _ => Err(format!("operator {op}")),
            };
        }
        let (da, db) = (Self::deg(&a), Self::deg(&b));
        let d = match op {
            "+" | "-" => match (da, db) {
                (Deg::Non, _) | (_, Deg::Non) => Deg::Non,
                (Deg::Quad, Deg::Quad) => Deg::Non,
                (Deg::Quad, _) | (_, Deg::Quad) => Deg::Quad,
                (Deg::Const, Deg::Const) => Deg::Const,
                _ => Deg::Lin,
            },
            "*" => match (da, db) {
                (Deg::Const, x) | (x, Deg::Const) => x,
                (Deg::Lin, Deg::Lin) => Deg::Quad,
                _ => Deg::Non,
            },
            _ => return Err(format!("operator {op} applied to signals")),
        };
        let (x, y) = (self.slot(&a)?, self.slot(&b)?);
        let s = match op { "+" => self.push(Instr::Add(x, y)), "-" => self.push(Instr::Sub(x, y)), _ => self.push(Instr::Mul(x, y)) };
        Ok(Val::Slot(s, d))
    }
    fn int(&mut self, f: &mut Frame, e: &Expr) -> R<i64> {
        match self.eval(f, e)? { Val::Int(i) => Ok(i), _ => Err("expected a compile-time constant".into()) }
    }
    fn find<'b>(f: &'b mut Frame, n: &str) -> R<&'b mut Entry> {
        for s in f.scopes.iter_mut().rev() { if let Some(e) = s.get_mut(n) { return Ok(e); } }
        Err(format!("undeclared symbol {n}"))
    }
    fn declare(f: &mut Frame, n: &str, e: Entry) -> R<()> {
        let s = f.scopes.last_mut().unwrap();
        if s.contains_key(n) { return Err(format!("symbol {n} declared twice")); }
        s.insert(n.to_string(), e);
        Ok(())
    }
    /// read `sig[idx..]`, arrays allowed
    fn read_sig(&mut self, what: &str, s: *mut SigArr, idx: &[usize]) -> R<Val> {
        let s = unsafe { &mut *s };
        if idx.len() > s.dims.len() { return Err(format!("too many indices on {what}")); }
        if idx.len() == s.dims.len() {
            let k = flat(&s.dims, idx).map_err(|e| format!("{what}: {e}"))?;
            if let Some(v) = s.data[k] {
                return Ok(match self.instrs[v as usize] { Instr::Const(c) => { let _ = c; Val::Slot(v, Deg::Lin) } _ => Val::Slot(v, Deg::Lin) });
            }
            if let Some(v) = s.pending.get(&k) { return Ok(Val::Slot(*v, Deg::Lin)); }
            let v = self.push(Instr::Free);
            self.choices.push((v, format!("unassigned {what}{idx:?}")));
            s.pending.insert(k, v);
            return Ok(Val::Slot(v, Deg::Lin));
        }
        let n = s.dims[idx.len()];
        let mut out = vec![];
        for i in 0..n { let mut ix = idx.to_vec(); ix.push(i); out.push(self.read_sig(what, s, &ix)?); }
        Ok(Val::Arr(out))
    }
    fn write_sig(&mut self, what: &str, s: *mut SigArr, idx: &[usize], v: Val, hint: bool) -> R<usize> {
        let sr = unsafe { &mut *s };
        if idx.len() > sr.dims.len() { return Err(format!("too many indices on {what}")); }
        if idx.len() < sr.dims.len() {
            let n = sr.dims[idx.len()];
            let Val::Arr(vs) = v else { return Err(format!("scalar assigned to array {what}")) };
            if vs.len() != n { return Err(format!("array length mismatch assigning {what}: {} vs {n}", vs.len())); }
            let mut c = 0;
            for (i, x) in vs.into_iter().enumerate() { let mut ix = idx.to_vec(); ix.push(i); c += self.write_sig(what, s, &ix, x, hint)?; }
            return Ok(c);
        }
        let k = flat(&sr.dims, idx).map_err(|e| format!("{what}: {e}"))?;
        if sr.data[k].is_some() { return Err(format!("signal {what}{idx:?} assigned twice")); }
        if matches!(v, Val::Arr(_)) { return Err(format!("array assigned to scalar {what}")); }
        if !hint && Self::deg(&v) == Deg::Non { self.degree_errors.push(format!("non-quadratic constraint for {what}{idx:?}")); }
        let mut slot = self.slot(&v)?;
        if hint { let h = self.push(Instr::Hint(slot)); self.choices.push((h, format!("{what}{idx:?}"))); slot = h; }
        sr.data[k] = Some(slot);
        self.signals += 1;
        if let Some(p) = sr.pending.get(&k).copied() { self.push(Instr::AssertEq(p, slot)); }
        Ok(1)
    }
    fn idxs(&mut self, f: &mut Frame, acc: &[Acc]) -> R<Vec<usize>> {
        let mut v = vec![];
        for a in acc { match a { Acc::Idx(e) => { let i = self.int(f, e)?; if i < 0 { return Err(format!("negative index {i}")); } v.push(i as usize) } Acc::Mem(m) => return Err(format!("unexpected member {m}")) } }
        Ok(v)
    }
    fn eval(&mut self, f: &mut Frame, e: &Expr) -> R<Val> {
        match e {
            Expr::Num(n) => Ok(Val::Int(*n)),
            Expr::Un("-", a) => { let v = self.eval(f, a)?; self.arith("-", Val::Int(0), v) }
            Expr::Un(_, a) => { let v = self.int(f, a)?; Ok(Val::Int((v == 0) as i64)) }
            Expr::Bin(op, a, b) => {
                let x = self.eval(f, a)?;
                if *op == "&&" { if let Val::Int(0) = x { return Ok(Val::Int(0)); } }
                if *op == "||" { if let Val::Int(k) = x { if k != 0 { return Ok(Val::Int(1)); } } }
                let y = self.eval(f, b)?;
                self.arith(op, x, y)
            }
            Expr::Tern(c, a, b) => { let c = self.int(f, c)?; if c != 0 { self.eval(f, a) } else { self.eval(f, b) } }
            Expr::Arr(v) => Ok(Val::Arr(v.iter().map(|x| self.eval(f, x)).collect::<R<Vec<_>>>()?)),
            Expr::Call(n, args, None) => {
                let t = self.prog.templates.get(n).cloned().ok_or_else(|| format!("unknown function {n}"))?;
                if !t.is_fn { return Err(format!("template {n} used as an expression")); }
                let a = args.iter().map(|x| self.eval(f, x)).collect::<R<Vec<_>>>()?;
                let mut fr = Frame { scopes: vec![HashMap::new()], out_order: vec![], ret: None, bound: HashMap::new() };
                for (p, v) in t.params.iter().zip(a) { Self::declare(&mut fr, p, Entry::Var(v))?; }
                self.depth += 1;
                if self.depth > 200 { return Err("recursion too deep".into()); }
                for s in &t.body { self.stmt(&mut fr, s)?; if fr.ret.is_some() { break; } }
                self.depth -= 1;
                fr.ret.ok_or_else(|| format!("function {n} returned nothing"))
            }
            Expr::Call(n, args, Some(ins)) => {
                let c = self.anonymous(f, n, args, ins)?;
                let mut cb = c.borrow_mut();
                let nme = cb.name.clone();
                let outs = cb.outs.as_mut().ok_or("inputs missing")?;
                if outs.len() != 1 { return Err(format!("anonymous component {nme} with {} outputs", outs.len())); }
                let (on, s) = outs.iter_mut().next().unwrap();
                let on = format!("{nme}.{on}");
                self.read_sig(&on, s as *mut _, &[])
            }
            Expr::Tuple(_) => Err("tuple used as a value".into()),
            Expr::Path(n, acc) => {
                let split = acc.iter().position(|a| matches!(a, Acc::Mem(_)));
                if let Some(p) = split {
                    let ci = self.idxs(f, &acc[..p])?;
                    let Acc::Mem(m) = &acc[p] else { unreachable!() };
                    let si = self.idxs(f, &acc[p + 1..])?;
                    let c = self.comp(f, n, &ci)?;
                    let mut cb = c.borrow_mut();
                    let nme = format!("{n}{ci:?}.{m}");
                    if let Some(s) = cb.ins.get_mut(m) { return self.read_sig(&nme, s as *mut _, &si); }
                    let outs = cb.outs.as_mut().ok_or_else(|| format!("output {nme} read before all inputs of the component are assigned"))?;
                    let s = outs.get_mut(m).ok_or_else(|| format!("no signal {nme}"))?;
                    return self.read_sig(&nme, s as *mut _, &si);
                }
                let ix = self.idxs(f, acc)?;
                let ent: *mut Entry = Self::find(f, n)?;
                match unsafe { &mut *ent } {
                    Entry::Var(v) => {
                        let mut cur = v.clone();
                        for i in &ix { cur = match cur { Val::Arr(a) => a.get(*i).cloned().ok_or_else(|| format!("var {n} index {i} out of bounds"))?, _ => return Err(format!("indexing scalar var {n}")) }; }
                        Ok(cur)
                    }
                    Entry::Sig(s) => self.read_sig(n, s as *mut _, &ix),
                    Entry::Comp(_) => Err(format!("component {n} used as value")),
                }
            }
        }
    }
    fn anonymous(&mut self, f: &mut Frame, n: &str, args: &[Expr], ins: &[(Option<String>, Expr)]) -> R<Rc<RefCell<CompInst>>> {
        let c = self.instantiate(f, n, args)?;
        let vals = ins.iter().map(|x| self.eval(f, &x.1)).collect::<R<Vec<_>>>()?;
        let order = c.borrow().in_order.clone();
        if order.len() != vals.len() { return Err(format!("anonymous component {n}: {} inputs given, {} expected", vals.len(), order.len())); }
        for (i, v) in vals.into_iter().enumerate() { self.set_input(&c, ins[i].0.as_ref().unwrap_or(&order[i]), &[], v, false)?; }
        self.run_if_ready(&c)?;
        Ok(c)
    }
    fn comp(&mut self, f: &mut Frame, n: &str, ci: &[usize]) -> R<Rc<RefCell<CompInst>>> {
        match Self::find(f, n)? {
            Entry::Comp(c) => {
                if ci.len() != c.dims.len() { return Err(format!("component {n}: wrong number of indices")); }
                let k = flat(&c.dims, ci).map_err(|e| format!("component {n}: {e}"))?;
                c.data[k].clone().ok_or_else(|| format!("component {n}{ci:?} used before it is instantiated"))
            }
            _ => Err(format!("{n} is not a component")),
        }
    }
    fn instantiate(&mut self, f: &mut Frame, n: &str, args: &[Expr]) -> R<Rc<RefCell<CompInst>>> {
        let a = args.iter().map(|x| self.eval(f, x)).collect::<R<Vec<_>>>()?;
        let builtin: Option<(usize, &[&str], Vec<usize>)> = match n { "IsZero" => Some((0, &["in"], vec![])), "LessThan" => Some((1, &["in"], vec![2])), _ => None };
        let mut ins = HashMap::new();
        let mut in_order = vec![];
        let tmpl;
        if let Some((np, names, dims)) = builtin {
            if a.len() != np { return Err(format!("template {n}: wrong number of parameters")); }
            for nm in names { ins.insert(nm.to_string(), SigArr { data: vec![None; dims.iter().product()], dims: dims.clone(), kind: SigKind::In, pending: HashMap::new() }); in_order.push(nm.to_string()); }
            tmpl = std::sync::Arc::new(Template { name: n.to_string(), params: vec![], body: vec![], is_fn: false });
        } else {
            tmpl = self.prog.templates.get(n).cloned().ok_or_else(|| format!("unknown template {n}"))?;
            if tmpl.params.len() != a.len() { return Err(format!("template {n}: {} parameters given, {} expected", a.len(), tmpl.params.len())); }
            let mut fr = Frame { scopes: vec![HashMap::new()], out_order: vec![], ret: None, bound: HashMap::new() };
            for (p, v) in tmpl.params.iter().zip(a.iter()) { Self::declare(&mut fr, p, Entry::Var(v.clone()))?; }
            for s in &tmpl.body {
                match s {
                    Stmt::Sig(SigKind::In, v, _) => for (nm, d, _) in v {
                        let dims = d.iter().map(|e| self.int(&mut fr, e).map(|x| x as usize)).collect::<R<Vec<_>>>()?;
                        ins.insert(nm.clone(), SigArr { data: vec![None; dims.iter().product()], dims, kind: SigKind::In, pending: HashMap::new() });
                        in_order.push(nm.clone());
                    },
                    Stmt::Var(..) => { let _ = self.stmt(&mut fr, s); }
                    _ => {}
                }
            }
        }
        let missing = ins.values().map(|s| s.data.len()).sum();
        Ok(Rc::new(RefCell::new(CompInst { name: n.to_string(), tmpl, args: a, ins, in_order, outs: None, out_order: vec![], missing })))
    }
    fn set_input(&mut self, c: &Rc<RefCell<CompInst>>, m: &str, idx: &[usize], v: Val, hint: bool) -> R<()> {
        let mut cb = c.borrow_mut();
        let nme = format!("{}.{m}", cb.name);
        let s: *mut SigArr = cb.ins.get_mut(m).ok_or_else(|| format!("no input {nme}"))?;
        let k = self.write_sig(&nme, s, idx, v, hint)?;
        cb.missing -= k;
        Ok(())
    }
    fn run_if_ready(&mut self, c: &Rc<RefCell<CompInst>>) -> R<()> {
        let mut cb = c.borrow_mut();
        if cb.missing > 0 || cb.outs.is_some() { return Ok(()); }
        match cb.name.as_str() {
            "IsZero" => {
                let i = cb.ins["in"].data[0].unwrap();
                let s = self.push(Instr::IsZero(i));
                self.signals += 2;
                cb.outs = Some(HashMap::from([("out".to_string(), SigArr { dims: vec![], data: vec![Some(s)], kind: SigKind::Out, pending: HashMap::new() })]));
                return Ok(());
            }
            "LessThan" => {
                let Val::Int(n) = cb.args[0] else { return Err("LessThan(n) needs a constant".into()) };
                if !(0..=40).contains(&n) { return Err("LessThan(n): n out of supported range".into()); }
                let (a, b) = (cb.ins["in"].data[0].unwrap(), cb.ins["in"].data[1].unwrap());
                let s = self.push(Instr::LessThan(n as u32, a, b));
                self.signals += n as usize + 2;
                cb.outs = Some(HashMap::from([("out".to_string(), SigArr { dims: vec![], data: vec![Some(s)], kind: SigKind::Out, pending: HashMap::new() })]));
                return Ok(());
            }
            _ => {}
        }
        let t = cb.tmpl.clone();
        let args = cb.args.clone();
        let ins: HashMap<String, SigArr> = cb.ins.iter().map(|(k, s)| (k.clone(), SigArr { dims: s.dims.clone(), data: s.data.clone(), kind: SigKind::In, pending: HashMap::new() })).collect();
        let fr = self.run_template(&t, args, ins)?;
        cb.out_order = fr.out_order.clone();
        let mut outs = HashMap::new();
        for mut sc in fr.scopes { for n in &fr.out_order { if let Some(Entry::Sig(s)) = sc.remove(n) { outs.insert(n.clone(), s); } } }
        cb.outs = Some(outs);
        Ok(())
    }
    fn run_template(&mut self, t: &Template, args: Vec<Val>, ins: HashMap<String, SigArr>) -> R<Frame> {
        self.depth += 1;
        if self.depth > 60 { return Err("template recursion too deep".into()); }
        let mut fr = Frame { scopes: vec![HashMap::new()], out_order: vec![], ret: None, bound: ins };
        for (p, v) in t.params.iter().zip(args) { Self::declare(&mut fr, p, Entry::Var(v))?; }
        for s in &t.body { self.stmt(&mut fr, s).map_err(|e| if e.starts_with("in ") { e } else { format!("in {}: {e}", t.name) })?; }
        self.depth -= 1;
        Ok(fr)
    }
    fn stmt(&mut self, f: &mut Frame, s: &Stmt) -> R<()> {
        self.steps += 1;
        if self.steps > 40_000_000 { return Err("elaboration step limit".into()); }
        if f.ret.is_some() { return Ok(()); }
        let at = |l: usize| move |e: String| if e.contains("line ") { e } else { format!("line {l}: {e}") };
        match s {
            Stmt::Block(v) => { f.scopes.push(HashMap::new()); for s in v { self.stmt(f, s)?; if f.ret.is_some() { break; } } let top = f.scopes.pop().unwrap();
                // signals/components must be declared at template level or in blocks; keep outputs visible
                for (k, e) in top { if let Entry::Sig(sa) = &e { if sa.kind == SigKind::Out { f.scopes[0].insert(k, e); } } }
            }
            Stmt::For(a, c, st, b, l) => {
                f.scopes.push(HashMap::new());
                self.stmt(f, a)?;
                let mut guard = 0;
                while self.int(f, c).map_err(at(*l))? != 0 { self.stmt(f, b)?; if f.ret.is_some() { break; } self.stmt(f, st)?; guard += 1; if guard > 1_000_000 { return Err("loop limit".into()); } }
                f.scopes.pop();
            }
            Stmt::While(c, b, l) => { let mut guard = 0; while self.int(f, c).map_err(at(*l))? != 0 { self.stmt(f, b)?; guard += 1; if guard > 1_000_000 { return Err("loop limit".into()); } } }
            Stmt::If(c, a, b, l) => { if self.int(f, c).map_err(at(*l))? != 0 { self.inline(f, a)? } else if let Some(b) = b { self.inline(f, b)? } }
            Stmt::Var(v, l) => for (n, d, init) in v {
                let dims = d.iter().map(|e| self.int(f, e)).collect::<R<Vec<_>>>().map_err(at(*l))?;
                let val = match init { Some(e) => self.eval(f, e).map_err(at(*l))?, None => { let mut x = Val::Int(0); for k in dims.iter().rev() { x = Val::Arr(vec![x; *k as usize]); } x } };
                Self::declare(f, n, Entry::Var(val)).map_err(at(*l))?;
            },
            Stmt::Sig(k, v, l) => for (n, d, init) in v {
                let dims = d.iter().map(|e| self.int(f, e).and_then(|x| if x < 0 { Err("negative dimension".into()) } else { Ok(x as usize) })).collect::<R<Vec<_>>>().map_err(at(*l))?;
                let mut sa = SigArr { data: vec![None; dims.iter().product()], dims: dims.clone(), kind: *k, pending: HashMap::new() };
                if *k == SigKind::In { if let Some(b) = f.bound.get(n) { if b.dims != dims { return Err(format!("line {l}: input {n} dims")); } sa.data = b.data.clone(); } }
                if *k == SigKind::Out { f.out_order.push(n.clone()); }
                let val = match init { Some((op, e)) => Some((*op, self.eval(f, e).map_err(at(*l))?)), None => None };
                Self::declare(f, n, Entry::Sig(sa)).map_err(at(*l))?;
                if let Some((op, v)) = val {
                    let p: *mut SigArr = match Self::find(f, n)? { Entry::Sig(s) => s, _ => unreachable!() };
                    self.write_sig(n, p, &[], v, op == "<--").map_err(at(*l))?;
                }
            },
            Stmt::Comp(v, l) => for (n, d, init) in v {
                let dims = d.iter().map(|e| self.int(f, e).map(|x| x as usize)).collect::<R<Vec<_>>>().map_err(at(*l))?;
                let mut ca = CompArr { data: vec![None; dims.iter().product()], dims };
                if let Some(e) = init { let Expr::Call(t, a, None) = e else { return Err(format!("line {l}: component {n} initialised with a non-template")) }; ca.data[0] = Some(self.instantiate(f, t, a).map_err(at(*l))?); let c = ca.data[0].clone().unwrap(); self.run_if_ready(&c)?; }
                Self::declare(f, n, Entry::Comp(ca)).map_err(at(*l))?;
            },
            Stmt::Assign(lhs, op, rhs, l) => self.assign(f, lhs, op, rhs).map_err(at(*l))?,
            Stmt::Eq(a, b, l) => {
                let (x, y) = (self.eval(f, a).map_err(at(*l))?, self.eval(f, b).map_err(at(*l))?);
                let d = self.arith("-", x.clone(), y.clone()).map_err(at(*l))?;
                if Self::deg(&d) == Deg::Non { self.degree_errors.push(format!("line {l}: non-quadratic ===")); }
                let (x, y) = (self.slot(&x)?, self.slot(&y)?);
                self.push(Instr::AssertEq(x, y));
            }
            Stmt::Assert(e, l) => { let v = self.eval(f, e).map_err(at(*l))?; if let Val::Int(0) = v { return Err(format!("line {l}: assert failed")); } }
            Stmt::Return(e, l) => { let v = self.eval(f, e).map_err(at(*l))?; f.ret = Some(v); }
            Stmt::Expr(e, l) => { self.eval(f, e).map_err(at(*l))?; }
        }
        Ok(())
    }
    /// body of an if: a block's declarations stay local, as in circom
    fn inline(&mut self, f: &mut Frame, s: &Stmt) -> R<()> { self.stmt(f, s) }
    fn assign(&mut self, f: &mut Frame, lhs: &Expr, op: &str, rhs: &Expr) -> R<()> {
        if let Expr::Tuple(targets) = lhs {
            let Expr::Call(n, args, Some(ins)) = rhs else { return Err("tuple assigned something other than an anonymous component".into()) };
            if op != "<==" { return Err(format!("tuple assigned with {op}")); }
            let c = self.anonymous(f, n, args, ins)?;
            let order = c.borrow().out_order.clone();
            if order.len() != targets.len() { return Err(format!("anonymous component {n}: {} outputs, {} targets", order.len(), targets.len())); }
            for (t, o) in targets.iter().zip(&order) {
                let Expr::Path(tn, acc) = t else { return Err("bad assignment target".into()) };
                if tn == "_" { continue; }
                let v = { let mut cb = c.borrow_mut(); let outs = cb.outs.as_mut().ok_or("inputs missing")?; let s = outs.get_mut(o).ok_or("output lost")? as *mut _; drop(cb); self.read_sig(&format!("{n}.{o}"), s, &[])? };
                let ix = self.idxs(f, acc)?;
                let p: *mut SigArr = match Self::find(f, tn)? { Entry::Sig(s) => { if s.kind == SigKind::In { return Err(format!("assignment to input signal {tn}")); } s } _ => return Err(format!("{tn} is not a signal")) };
                self.write_sig(tn, p, &ix, v, false)?;
            }
            return Ok(());
        }
        let Expr::Path(n, acc) = lhs else { return Err("bad assignment target".into()) };
        let split = acc.iter().position(|a| matches!(a, Acc::Mem(_)));
        if op == "<==" || op == "<--" {
            let v = self.eval(f, rhs)?;
            if let Some(p) = split {
                let ci = self.idxs(f, &acc[..p])?;
                let Acc::Mem(m) = &acc[p] else { unreachable!() };
                let si = self.idxs(f, &acc[p + 1..])?;
                let c = self.comp(f, n, &ci)?;
                self.set_input(&c, m, &si, v, op == "<--").map_err(|e| format!("{n}{ci:?}: {e}"))?;
                return self.run_if_ready(&c);
            }
            let ix = self.idxs(f, acc)?;
            let p: *mut SigArr = match Self::find(f, n)? { Entry::Sig(s) => { if s.kind == SigKind::In { return Err(format!("assignment to input signal {n}")); } s } _ => return Err(format!("{n} is not a signal")) };
            self.write_sig(n, p, &ix, v, op == "<--")?;
            return Ok(());
        }
        // var or component
        if split.is_some() { return Err("bad assignment target".into()); }
        let ix = self.idxs(f, acc)?;
        if let Entry::Comp(_) = Self::find(f, n)? {
            if op != "=" { return Err("bad component assignment".into()); }
            let Expr::Call(t, a, None) = rhs else { return Err(format!("component {n} assigned a non-template")) };
            let c = self.instantiate(f, t, a)?;
            match Self::find(f, n)? {
                Entry::Comp(ca) => {
                    if ix.len() != ca.dims.len() { return Err(format!("component {n}: wrong number of indices")); }
                    let k = flat(&ca.dims, &ix).map_err(|e| format!("component {n}: {e}"))?;
                    if ca.data[k].is_some() { return Err(format!("component {n}{ix:?} instantiated twice")); }
                    ca.data[k] = Some(c.clone());
                }
                _ => unreachable!(),
            }
            return self.run_if_ready(&c);
        }
        let r = self.eval(f, rhs)?;
        let cur = if op == "=" { None } else { Some(self.eval(f, lhs)?) };
        let nv = match cur { None => r, Some(c) => self.arith(&op[..op.len() - 1], c, r)? };
        match Self::find(f, n)? {
            Entry::Var(v) => {
                let mut t = v;
                for i in &ix { t = match t { Val::Arr(a) => a.get_mut(*i).ok_or_else(|| format!("var {n} index {i} out of bounds"))?, _ => return Err("indexing scalar".into()) }; }
                *t = nv;
                Ok(())
            }
            Entry::Sig(_) => Err(format!("signal {n} assigned with {op}")),
            _ => unreachable!(),
        }
    }
}

/// Elaborate template `name` with integer parameters.
pub fn elaborate(prog: &Program, name: &str, args: &[i64]) -> R<Circuit> {
    let mut el = Elab { prog, instrs: vec![], choices: vec![], degree_errors: vec![], consts: HashMap::new(), signals: 0, depth: 0, steps: 0 };
    let t = prog.templates.get(name).cloned().ok_or_else(|| format!("no template {name}"))?;
    if t.params.len() != args.len() { return Err(format!("template {name} has {} parameters", t.params.len())); }
    let mut fr = Frame { scopes: vec![HashMap::new()], out_order: vec![], ret: None, bound: HashMap::new() };
    for (p, v) in t.params.iter().zip(args) { Elab::declare(&mut fr, p, Entry::Var(Val::Int(*v)))?; }
    let mut ins = HashMap::new();
    let mut n_inputs = 0u32;
    for s in &t.body {
        match s {
            Stmt::Sig(SigKind::In, v, _) => for (nm, d, _) in v {
                let dims = d.iter().map(|e| el.int(&mut fr, e).map(|x| x as usize)).collect::<R<Vec<_>>>()?;
                let k: usize = dims.iter().product();
                let data = (0..k).map(|_| { let s = el.push(Instr::Input(n_inputs)); n_inputs += 1; Some(s) }).collect();
                ins.insert(nm.clone(), SigArr { dims, data, kind: SigKind::In, pending: HashMap::new() });
            },
            Stmt::Var(..) => { let _ = el.stmt(&mut fr, s); }
            _ => {}
        }
    }
    let fr = el.run_template(&t, args.iter().map(|a| Val::Int(*a)).collect(), ins)?;
    let mut outputs = vec![];
    for n in &fr.out_order {
        let mut got = None;
        for sc in &fr.scopes { if let Some(Entry::Sig(s)) = sc.get(n) { got = Some(s.data.clone()); } }
        outputs.push((n.clone(), got.ok_or("output lost")?));
    }
    let mut c = Circuit { instrs: el.instrs, n_inputs: n_inputs as usize, outputs, choices: el.choices, degree_errors: el.degree_errors, signals: el.signals, order: vec![], group: vec![] };
    c.schedule();
    Ok(c)
}

pub const LIM: i64 = 1 << 60;

impl Circuit {
    fn schedule(&mut self) {
        let n = self.instrs.len();
        let mut dep = vec![0usize; n];
        for i in 0..n {
            let d = |s: u32| dep[s as usize];
            dep[i] = match self.instrs[i] {
                Instr::Const(_) | Instr::Free => 0,
                Instr::Input(k) => k as usize + 1,
                Instr::Add(a, b) | Instr::Sub(a, b) | Instr::Mul(a, b) | Instr::LessThan(_, a, b) | Instr::AssertEq(a, b) => d(a).max(d(b)),
                Instr::IsZero(a) | Instr::Hint(a) => d(a),
            };
        }
        let mut order: Vec<u32> = (0..n as u32).collect();
        order.sort_by_key(|i| (dep[*i as usize], *i));
        let mut group = vec![0usize; self.n_inputs + 2];
        for i in 0..n { group[dep[i] + 1] += 1; }
        for i in 1..group.len() { group[i] += group[i - 1]; }
        self.order = order;
        self.group = group;
    }
    #[inline]
    pub fn step(&self, i: u32, vals: &mut [i64], msg: &[i64], over: Option<(u32, i64)>) -> Result<(), Fail> {
        let v = |s: u32| vals[s as usize];
        let r = match self.instrs[i as usize] {
            Instr::Const(k) => k,
            Instr::Input(k) => msg[k as usize],
            Instr::Add(a, b) => v(a) + v(b),
            Instr::Sub(a, b) => v(a) - v(b),
            Instr::Mul(a, b) => match v(a).checked_mul(v(b)) { Some(x) => x, None => return Err(Fail::Range) },
            Instr::IsZero(a) => (v(a) == 0) as i64,
            Instr::LessThan(n, a, b) => {
                let t = v(a) + (1i64 << n) - v(b);
                if t < 0 || t >= (1i64 << (n + 1)) { return Err(Fail::NoWitness); }
                1 - ((t >> n) & 1)
            }
            Instr::AssertEq(a, b) => { if v(a) != v(b) { return Err(Fail::NoWitness); } 0 }
            Instr::Hint(a) => match over { Some((s, x)) if s == i => x, _ => v(a) },
            Instr::Free => match over { Some((s, x)) if s == i => x, _ => 0 },
        };
        if r > LIM || r < -LIM { return Err(Fail::Range); }
        vals[i as usize] = r;
        Ok(())
    }
    /// run group g: everything that becomes computable once input g-1 is known
    #[inline]
    pub fn run_group(&self, g: usize, vals: &mut [i64], msg: &[i64]) -> Result<(), Fail> {
        for k in self.group[g]..self.group[g + 1] { self.step(self.order[k], vals, msg, None)?; }
        Ok(())
    }
    pub fn operands(i: &Instr) -> [Option<u32>; 2] {
        match *i {
            Instr::Add(a, b) | Instr::Sub(a, b) | Instr::Mul(a, b) | Instr::LessThan(_, a, b) | Instr::AssertEq(a, b) => [Some(a), Some(b)],
            Instr::IsZero(a) | Instr::Hint(a) => [Some(a), None],
            _ => [None, None],
        }
    }
    /// keep only what the given slots and the assertions depend on in the schedule
    pub fn restrict(&mut self, keep: &[u32]) {
        let mut need = vec![false; self.instrs.len()];
        for k in keep { need[*k as usize] = true; }
        for i in 0..self.instrs.len() { if matches!(self.instrs[i], Instr::AssertEq(..)) { need[i] = true; } }
        for k in (0..self.order.len()).rev() { let i = self.order[k] as usize; if need[i] { for o in Self::operands(&self.instrs[i]).into_iter().flatten() { need[o as usize] = true; } } }
        let mut order = vec![];
        let mut group = vec![0];
        for g in 0..self.group.len() - 1 {
            for k in self.group[g]..self.group[g + 1] { if need[self.order[k] as usize] { order.push(self.order[k]); } }
            group.push(order.len());
        }
        self.order = order;
        self.group = group;
    }
    pub fn eval(&self, msg: &[i64], over: Option<(u32, i64)>) -> Result<Vec<i64>, Fail> {
        let mut vals = vec![0; self.instrs.len()];
        for i in 0..self.instrs.len() as u32 { self.step(i, &mut vals, msg, over)?; }
        Ok(vals)
    }
    pub fn outs(&self, vals: &[i64]) -> Vec<Vec<i64>> {
        self.outputs.iter().map(|(_, s)| s.iter().map(|x| x.map(|x| vals[x as usize]).unwrap_or(i64::MIN)).collect()).collect()
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Fail { NoWitness, Range }
