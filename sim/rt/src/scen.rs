//! A scenario: everything one simulated run is made of. Its text form is the replay file.
use crate::gram::{Spec, S};
use crate::model::{Ans, Node, Part, Tok, XSym};
use std::fmt::Write;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ctor {
    Grammar, // from_grammar
    Sets,    // from_grammar_and_first_follow_symbols
    Solver,  // from_grammar_and_solver
    Supplied(u32), // from_grammar_and_first_follow_symbols, given the sets of `gram::Facts::supplied`
}
#[derive(Clone, Debug, PartialEq)]
pub enum PRef {
    Shared(usize),
    Fresh(usize, Ctor),
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Src {
    pub hint: u8,                    // 0: exact, 1: (0, None), 2: (0, huge), 3: (0, exact)
    pub extra: Vec<Tok>,             // delivered if polled after the end
    pub reent: Vec<(u32, usize)>,    // at this pull, run this op
    pub damage: [u32; 6],            // cut, loss, dup, reorder, corrupt, unknown: already in toks
}
#[derive(Clone, Debug, PartialEq)]
pub struct Parse {
    pub p: PRef,
    pub toks: Vec<Tok>,
    pub src: Src,
    pub script: Vec<Ans>,
    pub sreent: Vec<(u32, usize)>, // at this solver call, run this op
    /// oracle knowledge: the derivation tree this stream starts with, if it is a generated sentence
    pub sentence: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum What {
    Analyze(usize),
    /// the sets of `gram::Facts::supplied`, and the table and a parser from them
    Supply(usize, u32),
    Build(usize),
    Parse(Parse),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub what: What,
    /// (callback kinds, at the k-th of them); k = 0: choose by the fraction in the second component
    pub crash: Option<(u32, u64)>,
    /// executed this many times more, each expected to go like the first
    pub again: u32,
    /// each execution on a thread of its own
    pub own: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Scenario {
    pub prop: String,
    pub seed: u64,
    pub hash_seed: u64,
    pub hash_mode: u32,
    pub sched_seed: u64,
    pub sched_prob: u64,
    pub sched_kinds: u32,
    pub sched_gap: u64,
    pub explicit: Option<Vec<(u64, u32)>>,
    pub grammars: Vec<Spec>,
    pub parsers: Vec<(usize, Ctor)>,
    pub ops: Vec<Op>,
    pub tasks: Vec<Vec<usize>>,
    /// ops the oracle compares in pairs (C10, C11), or marks
    pub pairs: Vec<(usize, usize)>,
}
impl Scenario {
    pub fn grammar_of(&self, p: &PRef) -> usize {
        match p {
            PRef::Shared(i) => self.parsers[*i].0,
            PRef::Fresh(g, _) => *g,
        }
    }
    pub fn ctor_of(&self, p: &PRef) -> Ctor {
        match p {
            PRef::Shared(i) => self.parsers[*i].1,
            PRef::Fresh(_, c) => *c,
        }
    }
    /// Only this op, alone, undisturbed, in a fresh process.
    pub fn solo(&self, op: usize) -> Scenario {
        let mut s = self.clone();
        s.tasks = vec![vec![op]];
        s.explicit = None;
        s.pairs = vec![];
        let o = &mut s.ops[op];
        o.crash = None;
        o.again = 0;
        o.own = false;
        if let What::Parse(p) = &mut o.what {
            p.src.reent.clear();
            p.sreent.clear();
        }
        s
    }
}

fn tok(t: &Tok) -> String {
    match t.1 {
        Some(l) => format!("{}.{}", t.0, l),
        None => format!("{}.-", t.0),
    }
}
fn syms(v: &[S]) -> String {
    v.iter().map(|s| s.to_string()).collect::<Vec<_>>().join(",")
}
fn part(p: &Part) -> String {
    match p {
        Part::Ok(n) => node(n),
        Part::Fixed(x) => format!("X{}[{}]", x.s, x.parts.iter().map(part).collect::<Vec<_>>().join(";")),
        Part::Gap(a, b) => format!("G{}|{}|", a.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), syms(b)),
    }
}
fn node(n: &Node) -> String {
    format!("N{}.{}[{}]", n.s, n.lex.map_or("-".into(), |l| l.to_string()), n.kids.iter().map(node).collect::<Vec<_>>().join(";"))
}
pub fn ctor_name(c: Ctor) -> String {
    match c {
        Ctor::Grammar => "grammar".into(),
        Ctor::Sets => "sets".into(),
        Ctor::Solver => "solver".into(),
        Ctor::Supplied(k) => format!("supplied:{}", k),
    }
}

pub fn to_text(s: &Scenario, head: &str) -> String {
    let mut o = String::new();
    for l in head.lines() {
        let _ = writeln!(o, "# {}", l);
    }
    let _ = writeln!(o, "property {}", s.prop);
    let _ = writeln!(o, "seed {}", s.seed);
    let _ = writeln!(o, "hash {} {}", s.hash_seed, s.hash_mode);
    let _ = writeln!(o, "sched {} {} {} {}", s.sched_seed, s.sched_prob, s.sched_kinds, s.sched_gap);
    if let Some(x) = &s.explicit {
        let _ = write!(o, "switches");
        for (a, b) in x {
            let _ = write!(o, " {}:{}", a, b);
        }
        let _ = writeln!(o);
    }
    for g in &s.grammars {
        let _ = write!(o, "grammar {}", g.init);
        for (a, r) in &g.prods {
            let _ = write!(o, " {}>{}", a, syms(r));
        }
        let _ = writeln!(o);
    }
    for (g, c) in &s.parsers {
        let _ = writeln!(o, "parser {} {}", g, ctor_name(*c));
    }
    for op in &s.ops {
        match &op.what {
            What::Analyze(g) => {
                let _ = write!(o, "op analyze {}", g);
            }
            What::Supply(g, k) => {
                let _ = write!(o, "op supply {} {}", g, k);
            }
            What::Build(g) => {
                let _ = write!(o, "op build {}", g);
            }
            What::Parse(p) => {
                let _ = match &p.p {
                    PRef::Shared(i) => write!(o, "op parse shared {}", i),
                    PRef::Fresh(g, c) => write!(o, "op parse fresh {} {}", g, ctor_name(*c)),
                };
                let _ = write!(o, " tokens {}", p.toks.iter().map(tok).collect::<Vec<_>>().join(" "));
                if p.src.hint != 0 {
                    let _ = write!(o, " hint {}", p.src.hint);
                }
                if !p.src.extra.is_empty() {
                    let _ = write!(o, " after_end {}", p.src.extra.iter().map(tok).collect::<Vec<_>>().join(" "));
                }
                for (a, b) in &p.src.reent {
                    let _ = write!(o, " source_calls {}:{}", a, b);
                }
                for (a, b) in &p.sreent {
                    let _ = write!(o, " solver_calls {}:{}", a, b);
                }
                if p.src.damage.iter().any(|d| *d > 0) {
                    let _ = write!(o, " damage {}", p.src.damage.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(","));
                }
                for a in &p.script {
                    let _ = match a {
                        Ans::No => write!(o, " answer no"),
                        Ans::Panic => write!(o, " answer panic"),
                        Ans::Fix(e, ps) => write!(o, " answer fix:{}:{}", e, ps.iter().map(part).collect::<Vec<_>>().join(";")),
                    };
                }
                if p.sentence {
                    let _ = write!(o, " sentence");
                }
            }
        }
        if let Some((m, k)) = op.crash {
            let _ = write!(o, " crash {}:{}", m, k);
        }
        if op.again > 0 {
            let _ = write!(o, " again {}", op.again);
        }
        if op.own {
            let _ = write!(o, " thread");
        }
        let _ = writeln!(o);
    }
    for t in &s.tasks {
        let _ = writeln!(o, "task {}", t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    }
    for (a, b) in &s.pairs {
        let _ = writeln!(o, "pair {} {}", a, b);
    }
    o
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}
impl<'a> P<'a> {
    fn num(&mut self) -> Option<u32> {
        let st = self.i;
        while self.i < self.b.len() && self.b[self.i].is_ascii_digit() {
            self.i += 1;
        }
        std::str::from_utf8(&self.b[st..self.i]).ok()?.parse().ok()
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.b.get(self.i) == Some(&c) {
            self.i += 1;
            return true;
        }
        false
    }
    fn list<T>(&mut self, f: impl Fn(&mut Self) -> Option<T>, close: Option<u8>) -> Option<Vec<T>> {
        let mut v = vec![];
        loop {
            match close {
                Some(c) if self.eat(c) => return Some(v),
                None if self.i >= self.b.len() => return Some(v),
                _ => {}
            }
            self.eat(b';');
            v.push(f(self)?);
        }
    }
    fn node(&mut self) -> Option<Node> {
        if !self.eat(b'N') {
            return None;
        }
        let s = self.num()? as S;
        self.eat(b'.');
        let lex = if self.eat(b'-') { None } else { Some(self.num()?) };
        self.eat(b'[');
        let kids = self.list(|p| p.node(), Some(b']'))?;
        Some(Node { s, lex, kids })
    }
    fn part(&mut self) -> Option<Part> {
        match self.b.get(self.i)? {
            b'N' => Some(Part::Ok(self.node()?)),
            b'X' => {
                self.i += 1;
                let s = self.num()? as S;
                self.eat(b'[');
                Some(Part::Fixed(XSym { s, parts: self.list(|p| p.part(), Some(b']'))? }))
            }
            b'G' => {
                self.i += 1;
                let mut v = vec![];
                let mut w = vec![];
                while !self.eat(b'|') {
                    self.eat(b',');
                    v.push(self.num()?);
                }
                while !self.eat(b'|') {
                    self.eat(b',');
                    w.push(self.num()? as S);
                }
                Some(Part::Gap(v, w))
            }
            _ => None,
        }
    }
}
fn parse_tok(s: &str) -> Option<Tok> {
    let (a, b) = s.split_once('.')?;
    Some((a.parse().ok()?, if b == "-" { None } else { Some(b.parse().ok()?) }))
}
fn two<A: std::str::FromStr, B: std::str::FromStr>(s: &str) -> Option<(A, B)> {
    let (a, b) = s.split_once(':')?;
    Some((a.parse().ok()?, b.parse().ok()?))
}
fn parse_ctor(s: &str) -> Option<Ctor> {
    if let Some(k) = s.strip_prefix("supplied:") {
        return Some(Ctor::Supplied(k.parse().ok()?));
    }
    Some(match s {
        "grammar" => Ctor::Grammar,
        "sets" => Ctor::Sets,
        "solver" => Ctor::Solver,
        _ => return None,
    })
}
pub fn from_text(t: &str) -> Option<Scenario> {
    let mut s = Scenario {
        prop: String::new(),
        seed: 0,
        hash_seed: 0,
        hash_mode: 0,
        sched_seed: 0,
        sched_prob: 0,
        sched_kinds: u32::MAX,
        sched_gap: 0,
        explicit: None,
        grammars: vec![],
        parsers: vec![],
        ops: vec![],
        tasks: vec![],
        pairs: vec![],
    };
    for l in t.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.is_empty() || w[0].starts_with('#') {
            continue;
        }
        match w[0] {
            "property" => s.prop = w[1].to_string(),
            "seed" => s.seed = w[1].parse().ok()?,
            "hash" => {
                s.hash_seed = w[1].parse().ok()?;
                s.hash_mode = w[2].parse().ok()?;
            }
            "sched" => {
                s.sched_seed = w[1].parse().ok()?;
                s.sched_prob = w[2].parse().ok()?;
                s.sched_kinds = w[3].parse().ok()?;
                s.sched_gap = w.get(4).map_or(Some(0), |x| x.parse().ok())?;
            }
            "switches" => s.explicit = Some(w[1..].iter().map(|x| two(x)).collect::<Option<Vec<_>>>()?),
            "grammar" => {
                let mut g = Spec { init: w[1].parse().ok()?, prods: vec![] };
                for p in &w[2..] {
                    let (a, r) = p.split_once('>')?;
                    let r: Option<Vec<S>> = if r.is_empty() { Some(vec![]) } else { r.split(',').map(|x| x.parse().ok()).collect() };
                    g.prods.push((a.parse().ok()?, r?));
                }
                s.grammars.push(g);
            }
            "parser" => s.parsers.push((w[1].parse().ok()?, parse_ctor(w[2])?)),
            "task" => s.tasks.push(w[1..].iter().map(|x| x.parse().ok()).collect::<Option<Vec<_>>>()?),
            "pair" => s.pairs.push((w[1].parse().ok()?, w[2].parse().ok()?)),
            "op" => {
                let mut i;
                let what = match w[1] {
                    "analyze" => {
                        i = 3;
                        What::Analyze(w[2].parse().ok()?)
                    }
                    "supply" => {
                        i = 4;
                        What::Supply(w[2].parse().ok()?, w[3].parse().ok()?)
                    }
                    "build" => {
                        i = 3;
                        What::Build(w[2].parse().ok()?)
                    }
                    "parse" => {
                        let p = if w[2] == "shared" {
                            i = 4;
                            PRef::Shared(w[3].parse().ok()?)
                        } else {
                            i = 5;
                            PRef::Fresh(w[3].parse().ok()?, parse_ctor(w[4])?)
                        };
                        let mut q = Parse { p, toks: vec![], src: Src::default(), script: vec![], sreent: vec![], sentence: false };
                        while i < w.len() && w[i] != "crash" && w[i] != "again" && w[i] != "thread" {
                            match w[i] {
                                "tokens" | "after_end" => {
                                    let ex = w[i] == "after_end";
                                    i += 1;
                                    while i < w.len() {
                                        match parse_tok(w[i]) {
                                            Some(t) if !w[i].contains(':') => {
                                                if ex {
                                                    q.src.extra.push(t)
                                                } else {
                                                    q.toks.push(t)
                                                }
                                                i += 1;
                                            }
                                            _ => break,
                                        }
                                    }
                                }
                                "hint" => {
                                    q.src.hint = w[i + 1].parse().ok()?;
                                    i += 2;
                                }
                                "source_calls" => {
                                    q.src.reent.push(two(w[i + 1])?);
                                    i += 2;
                                }
                                "solver_calls" => {
                                    q.sreent.push(two(w[i + 1])?);
                                    i += 2;
                                }
                                "damage" => {
                                    for (k, d) in w[i + 1].split(',').enumerate() {
                                        q.src.damage[k] = d.parse().ok()?;
                                    }
                                    i += 2;
                                }
                                "answer" => {
                                    let a = w[i + 1];
                                    q.script.push(if a == "no" {
                                        Ans::No
                                    } else if a == "panic" {
                                        Ans::Panic
                                    } else {
                                        let r = a.strip_prefix("fix:")?;
                                        let (e, ps) = r.split_once(':')?;
                                        let mut p = P { b: ps.as_bytes(), i: 0 };
                                        Ans::Fix(e.parse().ok()?, p.list(|p| p.part(), None)?)
                                    });
                                    i += 2;
                                }
                                "sentence" => {
                                    q.sentence = true;
                                    i += 1;
                                }
                                _ => return None,
                            }
                        }
                        What::Parse(q)
                    }
                    _ => return None,
                };
                let mut crash = None;
                if i < w.len() && w[i] == "crash" {
                    crash = Some(two(w[i + 1])?);
                    i += 2;
                }
                let mut again = 0;
                if i < w.len() && w[i] == "again" {
                    again = w[i + 1].parse().ok()?;
                    i += 2;
                }
                let own = i < w.len() && w[i] == "thread";
                s.ops.push(Op { what, crash, again, own });
            }
            _ => return None,
        }
    }
    Some(s)
}
