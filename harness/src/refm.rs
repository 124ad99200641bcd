//! Reference semantics of a decomposed regex, built without any zk-regex code.
//!
//! A `Spec` is the structured meaning of a config: an optional start anchor section, a list of
//! parts (regex, public?) and an optional end anchor.  Every section gets its own minimal DFA from
//! regex-automata's *API* (MatchKind::All, next_state / next_eoi_state), byte 0 removed, 0xff used as the
//! virtual start-of-message symbol.  The composite is the NFA of their concatenation.
use regex_automata::dfa::{dense, Automaton, StartKind};
use regex_automata::{Anchored, MatchKind};
use std::collections::{BTreeSet, HashMap};

pub const DEAD: u32 = u32::MAX;
pub const SOM: u8 = 0xff;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Caret { None, Pure, Alt(String) }

#[derive(Clone, Debug)]
pub struct Spec {
    pub name: String,
    pub caret: Caret,
    pub parts: Vec<(bool, String)>,
    pub dollar: bool,
    /// exact config text given to the tool when it is not the canonical rendering
    pub given: Option<Vec<(bool, String)>>,
}

impl Spec {
    pub fn new(name: &str, parts: &[(bool, &str)]) -> Spec {
        Spec { name: name.to_string(), caret: Caret::None, parts: parts.iter().map(|(p, r)| (*p, r.to_string())).collect(), dollar: false, given: None }
    }
    pub fn config(&self) -> Vec<(bool, String)> {
        if let Some(g) = &self.given { return g.clone(); }
        let mut v = self.parts.clone();
        match &self.caret {
            Caret::None => {}
            Caret::Pure => v[0].1 = format!("^{}", v[0].1),
            Caret::Alt(r) => v[0].1 = format!("({r}|^){}", v[0].1),
        }
        if self.dollar { let n = v.len(); v[n - 1].1.push('$'); }
        v
    }
    pub fn show(&self) -> String { format!("{:?}", self.config().iter().map(|(p, r)| format!("{}{}", if *p { "pub:" } else { "" }, r)).collect::<Vec<_>>()) }
}

/// deterministic automaton, trimmed to live states (state 0 = start, always kept)
#[derive(Clone, Debug)]
pub struct Dfa { pub trans: Vec<[u32; 256]>, pub acc: Vec<bool> }

impl Dfa {
    pub fn from_regex(re: &str) -> Result<Dfa, String> {
        let d = dense::Builder::new()
            .configure(dense::Config::new().start_kind(StartKind::Anchored).match_kind(MatchKind::All))
            .build(&format!("(?:{re})"))
            .map_err(|e| format!("{e}"))?;
        let start = d.start_state_forward(&regex_automata::Input::new("").anchored(Anchored::Yes)).map_err(|e| format!("{e}"))?;
        let mut ids = HashMap::new();
        let mut order = vec![start];
        ids.insert(start, 0u32);
        let mut trans = vec![];
        let mut acc = vec![];
        let mut k = 0;
        while k < order.len() {
            let s = order[k];
            k += 1;
            acc.push(d.is_match_state(d.next_eoi_state(s)));
            let mut row = [DEAD; 256];
            for b in 1..=255u8 {
                let t = d.next_state(s, b);
                if d.is_dead_state(t) { continue; }
                if d.is_quit_state(t) { return Err("quit state".into()); }
                let id = *ids.entry(t).or_insert_with(|| { order.push(t); (order.len() - 1) as u32 });
                row[b as usize] = id;
            }
            trans.push(row);
            if order.len() > 20000 { return Err("too many states".into()); }
        }
        Ok(Dfa { trans, acc }.trim().minimize())
    }
    pub fn som() -> Dfa { let mut r = [DEAD; 256]; r[255] = 1; Dfa { trans: vec![r, [DEAD; 256]], acc: vec![false, true] } }
    /// add a start-of-message alternative: 0xff from the start to a fresh accepting state
    pub fn with_som(mut self) -> Dfa {
        let n = self.acc.len() as u32;
        self.trans[0][255] = n;
        self.trans.push([DEAD; 256]);
        self.acc.push(true);
        self.minimize()
    }
    fn trim(self) -> Dfa {
        let n = self.acc.len();
        let mut live = self.acc.clone();
        loop {
            let mut ch = false;
            for s in 0..n { if !live[s] && self.trans[s].iter().any(|t| *t != DEAD && live[*t as usize]) { live[s] = true; ch = true; } }
            if !ch { break; }
        }
        let mut map = vec![DEAD; n];
        let mut k = 0;
        for s in 0..n { if live[s] || s == 0 { map[s] = k; k += 1; } }
        let mut trans = vec![];
        let mut acc = vec![];
        for s in 0..n {
            if map[s] == DEAD { continue; }
            let mut row = [DEAD; 256];
            for b in 0..256 { let t = self.trans[s][b]; if t != DEAD && live[t as usize] { row[b] = map[t as usize]; } }
            trans.push(row);
            acc.push(self.acc[s]);
        }
        Dfa { trans, acc }
    }
    pub fn minimize(self) -> Dfa {
        let n = self.acc.len();
        let mut cls: Vec<u32> = self.acc.iter().map(|a| *a as u32).collect();
        let mut cnt = cls.iter().collect::<BTreeSet<_>>().len();
        loop {
            let mut m: HashMap<(u32, Vec<u32>), u32> = HashMap::new();
            let mut nc = vec![0; n];
            for s in 0..n {
                let key = (cls[s], self.trans[s].iter().map(|t| if *t == DEAD { DEAD } else { cls[*t as usize] }).collect::<Vec<_>>());
                let k = m.len() as u32;
                nc[s] = *m.entry(key).or_insert(k);
            }
            let c = m.len();
            cls = nc;
            if c == cnt { break; }
            cnt = c;
        }
        // BFS renumber from start
        let mut map: HashMap<u32, u32> = HashMap::from([(cls[0], 0)]);
        let mut order = vec![0usize];
        let mut trans = vec![];
        let mut acc = vec![];
        let mut k = 0;
        while k < order.len() {
            let s = order[k];
            k += 1;
            let mut row = [DEAD; 256];
            for b in 0..256 {
                let t = self.trans[s][b];
                if t == DEAD { continue; }
                let c = cls[t as usize];
                let id = *map.entry(c).or_insert_with(|| { order.push(t as usize); (order.len() - 1) as u32 });
                row[b] = id;
            }
            trans.push(row);
            acc.push(self.acc[s]);
        }
        Dfa { trans, acc }
    }
    pub fn nullable(&self) -> bool { self.acc[0] }
    pub fn empty(&self) -> bool { !self.acc.iter().any(|a| *a) }
    pub fn start_reentrant(&self) -> bool { self.trans.iter().any(|r| r.iter().any(|t| *t == 0)) }
    pub fn n_acc(&self) -> usize { self.acc.iter().filter(|a| **a).count() }
}

/// Composite reference.  Sections: optional caret section first, then the parts.
pub struct Ref {
    pub spec: Spec,
    pub secs: Vec<Dfa>,
    /// section -> index of the public part among public parts
    pub public: Vec<Option<usize>>,
    pub n_public: usize,
    base: Vec<u32>,
    n: usize,
    /// epsilon-closed determinisation of the concatenation
    pub det: Dfa,
    /// det state -> closed set of (section, state) ids
    pub sets: Vec<Vec<u32>>,
    pub unambiguous: bool,
    /// judge exactly although sections are not told apart byte by byte
    pub force: bool,
    pub nullable: bool,
    pub reentrant: bool,
    pub classes: Vec<Vec<u8>>,
    pub class_of: [u16; 256],
}

impl Ref {
    pub fn build(spec: &Spec) -> Result<Ref, String> {
        let mut secs = vec![];
        let mut public = vec![];
        match &spec.caret {
            Caret::None => {}
            Caret::Pure => { secs.push(Dfa::som()); public.push(None); }
            Caret::Alt(r) => { secs.push(Dfa::from_regex(r)?.with_som()); public.push(None); }
        }
        let mut np = 0;
        for (p, r) in &spec.parts {
            secs.push(Dfa::from_regex(r)?);
            public.push(if *p { np += 1; Some(np - 1) } else { None });
        }
        if secs.iter().any(|s| s.empty()) { return Err("a part matches nothing".into()); }
        let mut base = vec![];
        let mut n = 0;
        for s in &secs { base.push(n as u32); n += s.acc.len(); }
        let mut r = Ref { spec: spec.clone(), secs, public, n_public: np, base, n, det: Dfa { trans: vec![], acc: vec![] }, sets: vec![], unambiguous: true, force: false, nullable: false, reentrant: false, classes: vec![], class_of: [0; 256] };
        r.classify();
        r.determinise()?;
        r.nullable = r.secs.iter().all(|s| s.nullable());
        r.reentrant = r.secs[0].start_reentrant();
        // one-unambiguous concatenation: at an accepting state of section m, the bytes that continue m and the
        // bytes that start what follows are disjoint
        for m in 0..r.secs.len() {
            let mut first = [false; 256];
            for k in m + 1..r.secs.len() {
                for b in 0..256 { first[b] |= r.secs[k].trans[0][b] != DEAD && (b as u8 != SOM); }
                if !r.secs[k].nullable() { break; }
            }
            // later sections must not start on the same byte either (several nullable sections in a row)
            let mut seen = [false; 256];
            for k in m + 1..r.secs.len() {
                for b in 0..256 { if r.secs[k].trans[0][b] != DEAD { if seen[b] { r.unambiguous = false; } seen[b] = true; } }
                if !r.secs[k].nullable() { break; }
            }
            for q in 0..r.secs[m].acc.len() {
                if r.secs[m].acc[q] { for b in 0..256 { if first[b] && r.secs[m].trans[q][b] != DEAD { r.unambiguous = false; } } }
            }
        }
        if r.secs[0].nullable() {
            let mut seen = [false; 256];
            for k in 0..r.secs.len() {
                for b in 0..256 { if r.secs[k].trans[0][b] != DEAD { if seen[b] { r.unambiguous = false; } seen[b] = true; } }
                if !r.secs[k].nullable() { break; }
            }
        }
        Ok(r)
    }
    fn classify(&mut self) {
        let mut m: HashMap<Vec<u32>, u16> = HashMap::new();
        for b in 0..256usize {
            let mut key = vec![];
            for s in &self.secs { for r in &s.trans { key.push(r[b]); } }
            if b == 0 { key.push(1) } else if b == 255 { key.push(2) } else { key.push(0) }
            let k = m.len() as u16;
            let c = *m.entry(key).or_insert(k);
            self.class_of[b] = c;
            if c as usize == self.classes.len() { self.classes.push(vec![]); }
            self.classes[c as usize].push(b as u8);
        }
    }
    pub fn sec_of(&self, id: u32) -> (usize, u32) {
        let m = match self.base.binary_search(&id) { Ok(i) => i, Err(i) => i - 1 };
        (m, id - self.base[m])
    }
    fn close(&self, set: &mut BTreeSet<u32>) {
        let mut w: Vec<u32> = set.iter().copied().collect();
        while let Some(x) = w.pop() {
            let (m, q) = self.sec_of(x);
            if self.secs[m].acc[q as usize] && m + 1 < self.secs.len() { let y = self.base[m + 1]; if set.insert(y) { w.push(y); } }
        }
    }
    fn step_set(&self, set: &[u32], b: u8) -> BTreeSet<u32> {
        let mut o = BTreeSet::new();
        for x in set { let (m, q) = self.sec_of(*x); let t = self.secs[m].trans[q as usize][b as usize]; if t != DEAD { o.insert(self.base[m] + t); } }
        self.close(&mut o);
        o
    }
    fn is_final(&self, x: u32) -> bool { let (m, q) = self.sec_of(x); m + 1 == self.secs.len() && self.secs[m].acc[q as usize] }
    fn determinise(&mut self) -> Result<(), String> {
        let mut s0 = BTreeSet::from([0u32]);
        self.close(&mut s0);
        let s0: Vec<u32> = s0.into_iter().collect();
        let mut ids = HashMap::from([(s0.clone(), 0u32)]);
        let mut sets = vec![s0];
        let mut trans: Vec<[u32; 256]> = vec![];
        let mut acc = vec![];
        let mut k = 0;
        while k < sets.len() {
            let cur = sets[k].clone();
            k += 1;
            acc.push(cur.iter().any(|x| self.is_final(*x)));
            let mut row = [DEAD; 256];
            for c in &self.classes {
                let o = self.step_set(&cur, c[0]);
                if o.is_empty() { continue; }
                let o: Vec<u32> = o.into_iter().collect();
                let id = *ids.entry(o.clone()).or_insert_with(|| { sets.push(o); (sets.len() - 1) as u32 });
                for b in c { row[*b as usize] = id; }
            }
            trans.push(row);
            if sets.len() > 4000 { return Err("reference too large".into()); }
        }
        self.det = Dfa { trans, acc };
        self.sets = sets;
        Ok(())
    }
    pub fn n_nfa(&self) -> usize { self.n }
    /// The supported class of the README: unique decomposition and no empty match.
    pub fn supported(&self) -> bool { (self.unambiguous || self.force) && !self.nullable }

    /// length of content: messages are content followed by zero padding; None if a zero is followed by non-zero
    pub fn content_len(msg: &[u8]) -> Option<usize> {
        let n = msg.iter().rposition(|b| *b != 0).map(|i| i + 1).unwrap_or(0);
        if msg[..n].contains(&0) { None } else { Some(n) }
    }
    /// does the message contain a match at all (any start, any end)?  The soundness oracle.
    pub fn contains(&self, msg: &[u8]) -> bool {
        if self.nullable && !self.spec.dollar { return true; }
        let end = match (self.spec.dollar, Self::content_len(msg)) { (true, Some(n)) => n, (true, None) => return true, _ => msg.len() };
        if self.nullable { return true; }
        // stream = SOM msg; position p = number of stream symbols read
        let stream = |p: usize| if p == 0 { SOM } else { msg[p - 1] };
        for s in 0..=end {
            let mut q = 0u32;
            for p in s..=end {
                let b = stream(p);
                if p > 0 && b == SOM { break; }
                q = self.det.trans[q as usize][b as usize];
                if q == DEAD { break; }
                if self.det.acc[q as usize] && (!self.spec.dollar || p == end) { return true; }
            }
        }
        false
    }
    /// attempts of the left-to-right single-attempt scanner: (start, last accepted end) in stream positions
    /// [start, end); start is the first consumed symbol
    pub fn scan(&self, msg: &[u8]) -> Vec<(usize, usize)> {
        let mut res: Vec<(usize, usize)> = vec![];
        let mut cur: Option<(usize, u32, Option<usize>)> = None;
        let flush = |c: &Option<(usize, u32, Option<usize>)>, res: &mut Vec<(usize, usize)>| { if let Some((s, _, Some(e))) = c { res.push((*s, *e)); } };
        for p in 0..=msg.len() {
            let b = if p == 0 { SOM } else { msg[p - 1] };
            let sym = b;
            if p > 0 && b == SOM { unreachable!("byte 255 in message"); }
            let mut next = None;
            if let Some((s, q, a)) = cur {
                let t = self.det.trans[q as usize][sym as usize];
                if t != DEAD { next = Some((s, t, a)); }
            }
            if next.is_none() {
                flush(&cur, &mut res);
                let t = self.det.trans[0][sym as usize];
                if t != DEAD { next = Some((p, t, None)); }
            }
            if let Some((s, t, a)) = next { next = Some((s, t, if self.det.acc[t as usize] { Some(p + 1) } else { a })); }
            cur = next;
        }
        flush(&cur, &mut res);
        res
    }
    /// the scanner's verdict and, per public part, the revealed positions; requires supported()
    pub fn expect(&self, msg: &[u8]) -> (bool, Vec<Vec<bool>>) {
        let mut rv = vec![vec![false; msg.len()]; self.n_public];
        let chosen = self.chosen(msg);
        for (s, e) in &chosen {
            let labels = self.labels(msg, *s, *e).expect("decomposition");
            for (k, l) in labels.iter().enumerate() {
                let p = s + k;
                if p == 0 { continue; }
                if let Some(i) = self.public[*l] { rv[i][p - 1] = true; }
            }
        }
        (!chosen.is_empty(), rv)
    }
    /// the attempts of the scan that count
    pub fn chosen(&self, msg: &[u8]) -> Vec<(usize, usize)> {
        let att = self.scan(msg);
        if !self.spec.dollar { return att; }
        // the match must end exactly after the content: stream position n + 1
        let Some(n) = Self::content_len(msg) else { return vec![] };
        att.into_iter().filter(|(_, e)| *e == n + 1).collect()
    }
    /// the section every symbol of stream[s..e) belongs to, when that word is in L and has exactly one decomposition
    pub fn labels(&self, msg: &[u8], s: usize, e: usize) -> Option<Vec<usize>> {
        let sym = |p: usize| if p == 0 { SOM } else { msg[p - 1] };
        // forward sets of NFA ids before closure-step bookkeeping; backward prune
        let mut fw: Vec<BTreeSet<u32>> = vec![];
        let mut s0 = BTreeSet::from([0u32]);
        self.close(&mut s0);
        fw.push(s0);
        for p in s..e { let l: Vec<u32> = fw.last().unwrap().iter().copied().collect(); fw.push(self.step_set(&l, sym(p))); }
        let mut good: BTreeSet<u32> = fw[e - s].iter().copied().filter(|x| self.is_final(*x)).collect();
        if good.is_empty() { return None; }
        let mut out = vec![0usize; e - s];
        for k in (0..e - s).rev() {
            let b = sym(s + k);
            let mut prev = BTreeSet::new();
            let mut lab = BTreeSet::new();
            for x in &fw[k] {
                let (m, q) = self.sec_of(*x);
                let t = self.secs[m].trans[q as usize][b as usize];
                if t == DEAD { continue; }
                let mut c = BTreeSet::from([self.base[m] + t]);
                self.close(&mut c);
                if c.iter().any(|y| good.contains(y)) { prev.insert(*x); lab.insert(m); }
            }
            if lab.len() != 1 { return None; }
            out[k] = *lab.iter().next().unwrap();
            // states reachable by closure into prev
            good = prev;
        }
        Some(out)
    }
    /// positions that part i's bytes may occupy in some decomposition of some true match: the reveal soundness oracle
    pub fn may_reveal(&self, msg: &[u8]) -> Vec<Vec<bool>> {
        let mut rv = vec![vec![false; msg.len()]; self.n_public];
        let sym = |p: usize| if p == 0 { SOM } else { msg[p - 1] };
        let end = if self.spec.dollar { match Self::content_len(msg) { Some(n) => n + 1, None => return vec![vec![true; msg.len()]; self.n_public] } } else { msg.len() + 1 };
        for s in 0..end {
            // forward
            let mut fw: Vec<BTreeSet<u32>> = vec![];
            let mut s0 = BTreeSet::from([0u32]);
            self.close(&mut s0);
            fw.push(s0);
            for p in s..end {
                let l: Vec<u32> = fw.last().unwrap().iter().copied().collect();
                let nx = self.step_set(&l, sym(p));
                if nx.is_empty() { break; }
                fw.push(nx);
            }
            // backward: good ids at each k (a final id at an allowed end is good)
            let mut good: BTreeSet<u32> = BTreeSet::new();
            for k in (0..fw.len()).rev() {
                let e = s + k;
                if k > 0 && (!self.spec.dollar || e == end) { for x in &fw[k] { if self.is_final(*x) { good.insert(*x); } } }
                if k == 0 { break; }
                let b = sym(s + k - 1);
                let mut prev = BTreeSet::new();
                for x in &fw[k - 1] {
                    let (m, q) = self.sec_of(*x);
                    let t = self.secs[m].trans[q as usize][b as usize];
                    if t == DEAD { continue; }
                    let mut c = BTreeSet::from([self.base[m] + t]);
                    self.close(&mut c);
                    if c.iter().any(|y| good.contains(y)) {
                        prev.insert(*x);
                        let p = s + k - 1;
                        if p > 0 { if let Some(i) = self.public[m] { rv[i][p - 1] = true; } }
                    }
                }
                good = prev;
            }
        }
        rv
    }
}
