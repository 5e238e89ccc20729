//! Reference model: ordered choice with sibling backtracking, and solver consultation.
//! Written from the properties, over plain data; recursive and functional where the library keeps states.
use crate::gram::{Facts, EPS, S};
use std::fmt::Write;

pub type Tok = (S, Option<u32>);

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub s: S,
    pub lex: Option<u32>,
    pub kids: Vec<Node>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct FSym {
    pub s: S,
    pub prods: Vec<FProd>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct FProd {
    pub failed: FSym,
    pub parsed: Vec<PSym>,
    pub pending: Vec<S>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum PSym {
    Ok(Node),
    Fix(XSym),
}
#[derive(Clone, Debug, PartialEq)]
pub struct XSym {
    pub s: S,
    pub parts: Vec<Part>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Part {
    Ok(Node),
    Fixed(XSym),
    Gap(Vec<u32>, Vec<S>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum PRes {
    Ok(Node),
    Err(FSym),
    Fix(XSym),
}
impl Node {
    pub fn depth(&self) -> usize {
        1 + self.kids.iter().map(|k| k.depth()).max().unwrap_or(0)
    }
    pub fn has_eps(&self) -> bool {
        self.s == EPS || self.kids.iter().any(|k| k.has_eps())
    }
    fn show(&self, o: &mut String) {
        let _ = write!(o, "{}", self.s);
        if let Some(l) = self.lex {
            let _ = write!(o, "'{}", l);
        }
        if !self.kids.is_empty() {
            o.push('(');
            for (i, k) in self.kids.iter().enumerate() {
                if i > 0 {
                    o.push(' ');
                }
                k.show(o);
            }
            o.push(')');
        }
    }
}
pub fn show_node(n: &Node) -> String {
    let mut o = String::new();
    n.show(&mut o);
    o
}
fn show_x(x: &XSym, o: &mut String) {
    let _ = write!(o, "fix {}[", x.s);
    for (i, p) in x.parts.iter().enumerate() {
        if i > 0 {
            o.push(' ');
        }
        match p {
            Part::Ok(n) => n.show(o),
            Part::Fixed(x) => show_x(x, o),
            Part::Gap(a, b) => {
                let _ = write!(o, "gap{:?}{:?}", a, b);
            }
        }
    }
    o.push(']');
}
fn show_f(f: &FSym, o: &mut String) {
    let _ = write!(o, "fail {}", f.s);
    if !f.prods.is_empty() {
        o.push('{');
        for (i, p) in f.prods.iter().enumerate() {
            if i > 0 {
                o.push_str("; ");
            }
            show_p(p, o);
        }
        o.push('}');
    }
}
fn show_p(p: &FProd, o: &mut String) {
    o.push_str("parsed[");
    for (i, s) in p.parsed.iter().enumerate() {
        if i > 0 {
            o.push(' ');
        }
        match s {
            PSym::Ok(n) => n.show(o),
            PSym::Fix(x) => show_x(x, o),
        }
    }
    o.push_str("] ");
    show_f(&p.failed, o);
    let _ = write!(o, " pending{:?}", p.pending);
}
pub fn show_res(r: &PRes) -> String {
    let mut o = String::new();
    match r {
        PRes::Ok(n) => {
            o.push_str("ok ");
            n.show(&mut o)
        }
        PRes::Err(f) => show_f(f, &mut o),
        PRes::Fix(x) => show_x(x, &mut o),
    }
    o
}

/// What the scripted solver answers to its k-th question.
#[derive(Clone, Debug, PartialEq)]
pub enum Ans {
    No,
    Fix(usize, Vec<Part>),
    Panic,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Ask {
    pub multi: bool,
    pub pos: usize,
    pub prods: Vec<FProd>,
}
pub fn show_ask(a: &Ask) -> String {
    let mut o = format!("{}@{}:", if a.multi { "multi" } else { "single" }, a.pos);
    for p in &a.prods {
        o.push_str(" <");
        show_p(p, &mut o);
        o.push('>');
    }
    o
}

pub struct Out {
    pub res: Option<PRes>, // None: the solver panicked
    pub log: Vec<Ask>,
    pub visits: u64,
    /// deepest nesting of symbols tried
    pub nesting: u64,
    pub backtracks: u64,
    pub ambiguous: u64,
    pub plain_ok: bool,
}
pub struct TooBig;

struct M<'a> {
    f: &'a Facts,
    table: &'a std::collections::BTreeMap<(S, S), Vec<usize>>,
    toks: &'a [Tok],
    solver: bool,
    script: &'a [Ans],
    log: Vec<Ask>,
    visits: u64,
    cap: u64,
    depth: usize,
    nesting: usize,
    backtracks: u64,
    ambiguous: u64,
}
enum Stop {
    Big,
    Panicked,
}
enum R {
    Ok(Node, usize, Vec<usize>), // untried candidates
    Err(FSym),
    Fix(XSym, usize),
}
struct Matched {
    sym: PSym,
    start: usize,
    end: usize,
    rest: Option<Vec<usize>>,
}

impl<'a> M<'a> {
    fn symbol(&mut self, s: S, pos: usize, single: bool) -> Result<R, Stop> {
        self.visits += 1;
        if self.visits > self.cap {
            return Err(Stop::Big);
        }
        if self.f.nts.contains(&s) {
            let c = match self.toks.get(pos) {
                Some((t, _)) => self.table.get(&(s, *t)).cloned().unwrap_or_default(),
                None => vec![],
            };
            if c.len() > 1 {
                self.ambiguous += 1;
            }
            return self.candidates(s, pos, c, single);
        }
        if s == EPS {
            return Ok(R::Ok(Node { s, lex: None, kids: vec![] }, pos, vec![]));
        }
        Ok(match self.toks.get(pos) {
            Some((t, l)) if *t == s => R::Ok(Node { s, lex: *l, kids: vec![] }, pos + 1, vec![]),
            _ => R::Err(FSym { s, prods: vec![] }),
        })
    }
    fn candidates(&mut self, s: S, pos: usize, c: Vec<usize>, single: bool) -> Result<R, Stop> {
        self.depth += 1;
        self.nesting = self.nesting.max(self.depth);
        if self.depth > 1500 + self.toks.len() {
            return Err(Stop::Big);
        }
        let alone = single && c.len() == 1;
        let mut failed = vec![];
        for (i, p) in c.iter().enumerate() {
            match self.production(s, *p, pos, alone)? {
                R::Ok(n, end, _) => {
                    self.depth -= 1;
                    return Ok(R::Ok(n, end, c[i + 1..].to_vec()));
                }
                R::Fix(x, end) => {
                    self.depth -= 1;
                    return Ok(R::Fix(x, end));
                }
                R::Err(f) => failed.extend(f.prods),
            }
        }
        self.depth -= 1;
        if self.solver && single {
            let q = Ask { multi: !alone, pos, prods: failed.clone() };
            let k = self.log.len();
            self.log.push(q);
            match self.script.get(k) {
                Some(Ans::Fix(end, parts)) => return Ok(R::Fix(XSym { s, parts: parts.clone() }, *end)),
                Some(Ans::Panic) => return Err(Stop::Panicked),
                Some(Ans::No) | None => {}
            }
        }
        Ok(R::Err(FSym { s, prods: failed }))
    }
    /// R::Err carries exactly one failed production, in a wrapper symbol.
    fn production(&mut self, s: S, p: usize, pos: usize, single: bool) -> Result<R, Stop> {
        self.visits += 1;
        let out = self.f.by[&s][p].clone();
        let mut done: Vec<Matched> = vec![];
        while done.len() < out.len() {
            let at = done.last().map_or(pos, |m| m.end);
            let x = out[done.len()];
            let failed = match self.symbol(x, at, single)? {
                R::Ok(n, end, rest) => {
                    let rest = if self.f.nts.contains(&x) { Some(rest) } else { None };
                    done.push(Matched { sym: PSym::Ok(n), start: at, end, rest });
                    continue;
                }
                R::Fix(x, end) => {
                    done.push(Matched { sym: PSym::Fix(x), start: at, end, rest: None });
                    continue;
                }
                R::Err(f) => f,
            };
            // the most recently matched symbol with another candidate that can be derived
            let mut resumed = None;
            for i in (0..done.len()).rev() {
                if let Some(rest) = done[i].rest.clone() {
                    if rest.is_empty() {
                        continue;
                    }
                    let start = done[i].start;
                    if let R::Ok(n, end, rest) = self.candidates(out[i], start, rest, false)? {
                        resumed = Some((i, Matched { sym: PSym::Ok(n), start, end, rest: Some(rest) }));
                        break;
                    }
                }
            }
            match resumed {
                Some((i, m)) => {
                    self.backtracks += 1;
                    done.truncate(i);
                    done.push(m);
                }
                None => {
                    let pending = out[done.len() + 1..].to_vec();
                    let parsed = done.into_iter().map(|m| m.sym).collect();
                    return Ok(R::Err(FSym { s, prods: vec![FProd { failed, parsed, pending }] }));
                }
            }
        }
        let end = done.last().unwrap().end;
        if done.iter().any(|m| matches!(m.sym, PSym::Fix(_))) {
            let parts = done
                .into_iter()
                .map(|m| match m.sym {
                    PSym::Ok(n) => Part::Ok(n),
                    PSym::Fix(x) => Part::Fixed(x),
                })
                .collect();
            return Ok(R::Fix(XSym { s, parts }, end));
        }
        let kids = done
            .into_iter()
            .map(|m| match m.sym {
                PSym::Ok(n) => n,
                PSym::Fix(_) => unreachable!(),
            })
            .collect();
        Ok(R::Ok(Node { s, lex: None, kids }, end, vec![]))
    }
}

/// `script`: None for a parser without solver.
pub fn parse(f: &Facts, table: &std::collections::BTreeMap<(S, S), Vec<usize>>, init: S, toks: &[Tok], script: Option<&[Ans]>, cap: u64) -> Result<Out, TooBig> {
    let mut m = M { f, table, toks, solver: false, script: script.unwrap_or(&[]), log: vec![], visits: 0, cap, depth: 0, nesting: 0, backtracks: 0, ambiguous: 0 };
    let c = table.get(&(init, toks[0].0)).cloned().unwrap_or_default();
    let mut plain_ok = true;
    let mut res = match m.candidates(init, 0, c.clone(), false) {
        Ok(r) => r,
        Err(_) => return Err(TooBig),
    };
    if !matches!(res, R::Ok(..)) {
        plain_ok = false;
        if script.is_some() {
            m.solver = true;
            m.depth = 0;
            res = match m.candidates(init, 0, c, true) {
                Ok(r) => r,
                Err(Stop::Big) => return Err(TooBig),
                Err(Stop::Panicked) => {
                    return Ok(Out { res: None, log: m.log, visits: m.visits, nesting: m.nesting as u64, backtracks: m.backtracks, ambiguous: m.ambiguous, plain_ok })
                }
            };
        }
    }
    let res = match res {
        R::Ok(n, ..) => PRes::Ok(n),
        R::Err(f) => PRes::Err(f),
        R::Fix(x, _) => PRes::Fix(x),
    };
    Ok(Out { res: Some(res), log: m.log, visits: m.visits, nesting: m.nesting as u64, backtracks: m.backtracks, ambiguous: m.ambiguous, plain_ok })
}
