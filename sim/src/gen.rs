//! Scenario generation: from (property, seed, index) to one scenario, all of it from one PRNG.
use crate::exec::{self, model_cap, Known};
use crate::gram::{self, Shape, Spec, END, EPS, S, UNKNOWN};
use crate::model::{self, Ans, Node, Part, Tok, XSym};
use crate::rng::{derive, Fnv, Rng};
use crate::rt;
use crate::scen::*;
use std::collections::BTreeMap;

/// A crash position given as a fraction (of 65536) of the op's own callbacks; see `sim::resolve`.
pub const FRACTION: u64 = 1 << 32;

pub fn prop_seed(prop: &str, seed: u64) -> u64 {
    let mut h = Fnv::new();
    h.bytes(prop.as_bytes());
    derive(seed, h.0)
}

pub struct Gen {
    pub rng: Rng,
    pub sc: Scenario,
    known: Vec<Option<Known>>,
    supplied: BTreeMap<(usize, u32), Known>,
}

pub fn scenario(prop: &str, seed: u64, index: u64) -> Scenario {
    let mut rng = Rng::new(derive(prop_seed(prop, seed), index));
    let sc = Scenario {
        prop: prop.into(),
        seed: index,
        hash_seed: rng.next(),
        hash_mode: if rng.pct(75) { 0 } else { 1 + rng.below(3) as u32 },
        sched_seed: rng.next(),
        sched_prob: *rng.pick(&[0u64, 40, 400, 3000, 12000, 40000]),
        sched_gap: *Rng::new(derive(prop_seed(prop, seed) ^ 0x6A9, index)).pick(&[0u64, 0, 30, 300, 3000, 30000]),
        sched_kinds: if rng.pct(40) { u32::MAX } else { rng.next() as u32 & 0x7f | 1 << rng.below(7) },
        explicit: None,
        grammars: vec![],
        parsers: vec![],
        ops: vec![],
        tasks: vec![],
        pairs: vec![],
    };
    let mut g = Gen { rng, sc, known: vec![], supplied: BTreeMap::new() };
    match prop {
        "C01" | "C02" | "C03" | "C17" => g.analysis(),
        "C04" => g.construction(),
        "C05" | "C06" | "C07" | "C08" | "C09" => g.parsing(),
        "C10" => g.sources(),
        "C11" | "C12" | "C13" => g.solver(),
        "C14" | "C15" => g.concurrent(),
        "C16" => g.reproducible(),
        "C18" => g.lexemes(),
        "C21" => g.steady(),
        "C22" => g.supplied_sets(),
        _ => panic!("unknown property {}", prop),
    }
    if prop != "C21" {
        wear(&mut g.sc, Rng::new(derive(prop_seed(prop, seed) ^ 0x3EA2, index)));
    }
    g.sc
}
/// Some of the calls come from threads that live no longer than the call.
fn own_threads(sc: &mut Scenario, rng: &mut Rng) {
    for op in &mut sc.ops {
        let short = match &op.what {
            What::Parse(p) => p.toks.len() < 200,
            _ => true,
        };
        op.own = short && op.again <= 1_030 && rng.pct(60);
    }
}
/// Rarely: the same call over and over, calls nested deep, callers in crowds.
fn wear(sc: &mut Scenario, mut rng: Rng) {
    let prop = sc.prop.clone();
    let calls = matches!(prop.as_str(), "C14" | "C15");
    let plain: Vec<usize> = (0..sc.ops.len())
        .filter(|o| match &sc.ops[*o].what {
            What::Parse(p) => p.src.reent.is_empty() && p.sreent.is_empty(),
            _ => true,
        })
        .collect();
    if plain.is_empty() {
        return;
    }
    if rng.pct(if calls || prop == "C16" { 7 } else { 3 }) {
        let mut o = *rng.pick(&plain);
        if prop == "C14" && rng.pct(50) {
            if let Some(x) = plain.iter().find(|o| sc.ops[**o].crash.is_some()) {
                o = *x;
            }
        }
        let n = *rng.pick(&[3u32, 20, 40, 70, 130, 260, 260, 300, 520, 1030]);
        let cost = match &sc.ops[o].what {
            What::Parse(p) => {
                let whole = if let PRef::Fresh(g, _) = p.p { 20 * sc.grammars[g].prods.len() } else { 0 };
                let g = sc.grammar_of(&p.p);
                let k = exec::know_by(&sc.grammars[g], sc.ctor_of(&p.p));
                let visits = k.and_then(|k| model::parse(&k.facts, &k.table, sc.grammars[g].init, &p.toks, exec::script_of(sc, p), model_cap(p.toks.len())).ok()).map_or(12_000, |o| o.visits as usize);
                (p.toks.len() + 3).max(visits) + whole
            }
            What::Analyze(g) | What::Supply(g, _) | What::Build(g) => 40 * sc.grammars[*g].prods.len(),
        };
        let limit = if sc.tasks.len() > 1 { 4_000 } else { 12_000 };
        sc.ops[o].again = n.min((limit / cost.max(1)) as u32);
        // rarely, often enough to overflow sixteen bits
        if cost < 12 && sc.tasks.len() == 1 && rng.pct(if calls { 2 } else { 4 }) {
            sc.ops[o].again = 66_000;
        }
    }
    if matches!(prop.as_str(), "C14" | "C15" | "C16" | "C18" | "C22") && rng.pct(5) {
        own_threads(sc, &mut rng);
    }
    if !matches!(prop.as_str(), "C14" | "C15" | "C18") {
        return;
    }
    let top: Vec<usize> = plain.iter().copied().filter(|o| sc.tasks.iter().any(|t| t.contains(o)) && sc.ops[*o].again == 0).collect();
    let parses: Vec<usize> = top.iter().copied().filter(|o| matches!(&sc.ops[*o].what, What::Parse(p) if p.toks.len() < 30)).collect();
    if rng.pct(2) && !parses.is_empty() {
        let o = *rng.pick(&parses);
        let deep = *rng.pick(&[4usize, 9, 17, 33, 65]);
        let same = rng.pct(40);
        let mut at = o;
        while sc.ops.len() < rt::MAXOPS && sc.ops.len() < deep + top.len() {
            let mut inner = sc.ops[if same { o } else { *rng.pick(&parses) }].clone();
            inner.crash = None;
            if let What::Parse(p) = &mut inner.what {
                p.src.reent.clear();
            }
            sc.ops.push(inner);
            let k = sc.ops.len() - 1;
            if let What::Parse(p) = &mut sc.ops[at].what {
                let n = p.toks.len() as u64;
                p.src.reent.push((if rng.pct(30) { 0 } else { rng.below(n + 1) as u32 }, k));
            }
            at = k;
        }
    } else if rng.pct(2) && !top.is_empty() {
        let n = *rng.pick(&[5usize, 8, 9, 12, rt::MAXCALLERS]);
        while sc.tasks.len() < n {
            let mut op = sc.ops[*rng.pick(&top)].clone();
            op.crash = None;
            sc.ops.push(op);
            sc.tasks.push(vec![sc.ops.len() - 1]);
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Mix {
    Sentences,
    Any,
    Failing,
}

impl Gen {
    fn size(&mut self) -> usize {
        match self.rng.weighted(&[42, 38, 17, 3]) {
            k => k,
        }
    }
    fn add_grammar(&mut self, g: Spec) -> usize {
        self.known.push(exec::know(&g));
        self.sc.grammars.push(g);
        self.sc.grammars.len() - 1
    }
    fn by(&self, g: usize, c: Ctor) -> &Known {
        match c {
            Ctor::Supplied(k) => &self.supplied[&(g, k)],
            _ => self.known[g].as_ref().unwrap(),
        }
    }
    fn one_task(&mut self) {
        let n = self.sc.ops.len();
        self.sc.tasks = vec![(0..n).collect()];
    }
    /// Distributes these ops over `n` tasks, in random order.
    fn spread(&mut self, mut ops: Vec<usize>, n: usize) {
        self.rng.shuffle(&mut ops);
        let n = n.min(ops.len()).max(1);
        let mut t = vec![vec![]; n];
        for (k, o) in ops.into_iter().enumerate() {
            let w = if k < n { k } else { self.rng.us(n) };
            t[w].push(o);
        }
        self.sc.tasks = t;
    }

    // ------------------------------------------------------------ grammar analysis
    fn analysis(&mut self) {
        if self.rng.pct(1) && self.sc.hash_mode == 0 {
            let g = if self.rng.pct(60) { long_chain(&mut self.rng) } else { gram::scaled(&mut self.rng, false).0 };
            let g = self.add_grammar(g);
            self.sc.ops.push(Op { what: What::Analyze(g), crash: None, again: 0, own: false });
            return self.one_task();
        }
        for _ in 0..self.rng.range(1, 4) {
            let shape = match self.rng.weighted(&[70, 15, 8, 7]) {
                0 => Shape::Free,
                1 => Shape::NoLeftRec,
                2 => Shape::Overlapping,
                _ => Shape::Ll1,
            };
            let mut size = self.size();
            if self.sc.hash_mode != 0 {
                size = size.min(1);
            }
            let mut spec = gram::generate(&mut self.rng, shape, size);
            if self.rng.pct(1) {
                // accepted all the same
                match self.rng.us(3) {
                    0 => spec.prods.clear(),
                    1 => spec.init = EPS,
                    _ => spec.init = UNKNOWN,
                }
            }
            if !spec.prods.is_empty() && self.rng.pct(3) && self.sc.hash_mode == 0 {
                stretch(&mut spec, &mut self.rng);
            }
            // the same grammar several times: each copy is visited in another order
            for _ in 0..self.rng.range(1, 3) {
                let g = self.add_grammar(spec.clone());
                self.sc.ops.push(Op { what: What::Analyze(g), crash: None, again: 0, own: false });
            }
        }
        self.one_task();
    }
    fn construction(&mut self) {
        for _ in 0..self.rng.range(2, 6) {
            let size = self.size().min(2);
            let mut spec = match self.rng.us(100) {
                0 if self.sc.hash_mode == 0 => gram::scaled(&mut self.rng, false).0,
                1 if self.sc.hash_mode == 0 => long_chain(&mut self.rng),
                _ => gram::generate(&mut self.rng, Shape::Free, size),
            };
            if self.rng.pct(4) {
                spec.prods.clear();
            } else if self.rng.pct(4) {
                // an output of any length, the empty symbol somewhere in it or not
                let n = *self.rng.pick(&[9usize, 17, 33, 65, 130, 257]);
                let mut o: Vec<S> = (0..n).map(|_| 100 + self.rng.below(4) as S).collect();
                if self.rng.pct(60) {
                    let i = if self.rng.pct(30) { n - 1 } else { self.rng.us(n) };
                    o[i] = EPS;
                }
                let a = self.rng.pick(&spec.prods).0;
                let at = self.rng.us(spec.prods.len() + 1);
                spec.prods.insert(at, (a, o));
            }
            if self.rng.pct(55) {
                for _ in 0..*self.rng.pick(&[1usize, 1, 1, 2, 3]) {
                    malform(&mut spec, &mut self.rng);
                }
            }
            if self.rng.pct(10) && !spec.prods.is_empty() {
                let p = self.rng.pick(&spec.prods).clone();
                let at = self.rng.us(spec.prods.len() + 1);
                spec.prods.insert(at, p);
            }
            for _ in 0..self.rng.range(1, 2) {
                let g = self.add_grammar(spec.clone());
                self.sc.ops.push(Op { what: What::Build(g), crash: None, again: 0, own: false });
            }
        }
        let ops = (0..self.sc.ops.len()).collect();
        let n = if self.rng.pct(20) { 2 } else { 1 };
        self.spread(ops, n);
    }

    // ------------------------------------------------------------ token streams
    fn tokens(&mut self, g: usize, mix: Mix) -> (Vec<S>, [u32; 6], bool) {
        let f = &self.known[g].as_ref().unwrap().facts;
        let init = self.sc.grammars[g].init;
        let rng = &mut self.rng;
        let ts: Vec<S> = f.terms.iter().copied().filter(|t| *t != EPS).collect();
        let mut damage = [0; 6];
        let mut base: Vec<S> = vec![];
        let mut sentence = false;
        let fuel0 = *rng.pick(&[2i64, 5, 12, 30, 30, 100, 400]);
        if f.init_productive && !rng.pct(if mix == Mix::Sentences { 0 } else { 10 }) {
            let mut fuel = fuel0;
            if let Some(t) = f.derive(init, rng, &mut fuel) {
                t.yield_(&f.nts, &mut base);
                sentence = !base.is_empty();
                if base.len() > 1500 {
                    base.truncate(1500);
                    sentence = false;
                }
            }
        } else {
            let n = rng.range(1, 8);
            let fs: Vec<S> = f.first.get(&init).map(|s| s.iter().copied().filter(|t| *t != EPS).collect()).unwrap_or_default();
            for k in 0..n {
                if k == 0 && !fs.is_empty() && rng.pct(85) {
                    base.push(*rng.pick(&fs));
                } else if !ts.is_empty() {
                    base.push(*rng.pick(&ts));
                }
            }
        }
        if sentence && rng.pct(15) {
            // something follows the sentence, now and then far more than the sentence itself
            let more = if rng.pct(5) { *rng.pick(&[20usize, 60, 200, 1000]) } else { rng.range(1, 3) };
            for _ in 0..more {
                base.push(if ts.is_empty() || rng.pct(15) { UNKNOWN } else { *rng.pick(&ts) });
            }
        }
        let hurt = match mix {
            Mix::Sentences => rng.pct(15),
            Mix::Any => rng.pct(55),
            Mix::Failing => rng.pct(92),
        };
        if hurt && !base.is_empty() {
            let n = *rng.pick(&[1usize, 1, 1, 2, 3]);
            for _ in 0..n {
                let i = rng.us(base.len());
                // positions near the end and the start matter more than their number
                let i = if rng.pct(15) { base.len() - 1 } else { i };
                let d = rng.us(6);
                match d {
                    0 => base.truncate(i.max(1)),
                    1 => {
                        if base.len() > 1 {
                            base.remove(i);
                        }
                    }
                    2 => {
                        let x = base[i];
                        base.insert(i, x)
                    }
                    3 => {
                        let j = rng.us(base.len());
                        base.swap(i, j)
                    }
                    4 => {
                        if !ts.is_empty() {
                            base[i] = *rng.pick(&ts)
                        }
                    }
                    _ => {
                        base[i] = match rng.us(10) {
                            0 => EPS,
                            1 => init,
                            _ => UNKNOWN,
                        }
                    }
                }
                damage[d] += 1;
                sentence = false;
            }
        }
        if base.is_empty() {
            base.push(if ts.is_empty() { UNKNOWN } else { *rng.pick(&ts) });
            sentence = false;
        }
        (base, damage, sentence)
    }
    /// A stream whose parse stays within the model's bound.
    fn stream(&mut self, g: usize, c: Ctor, mix: Mix, lexbase: u32) -> (Vec<Tok>, [u32; 6], bool) {
        for _ in 0..12 {
            let (syms, damage, sentence) = self.tokens(g, mix);
            let bare = self.rng.pct(10);
            let toks: Vec<Tok> = syms.iter().enumerate().map(|(i, s)| (*s, if bare && self.rng.pct(30) { None } else { Some(lexbase + i as u32) })).collect();
            let k = self.by(g, c);
            if let Ok(o) = model::parse(&k.facts, &k.table, self.sc.grammars[g].init, &toks, Some(&[]), model_cap(toks.len()) / 2) {
                if mix == Mix::Failing && o.plain_ok && self.rng.pct(80) {
                    continue;
                }
                return (toks, damage, sentence);
            }
        }
        (vec![(UNKNOWN, Some(lexbase))], [0, 0, 0, 0, 0, 1], false)
    }
    fn lexbase(&self) -> u32 {
        (self.sc.ops.len() as u32 + 1) * 100_000
    }
    fn push_parse(&mut self, p: PRef, g: usize, mix: Mix) -> usize {
        let lb = self.lexbase();
        let c = self.sc.ctor_of(&p);
        let (toks, damage, sentence) = self.stream(g, c, mix, lb);
        let hint = *self.rng.pick(&[0u8, 0, 0, 1, 2, 3]);
        self.sc.ops.push(Op {
            what: What::Parse(Parse { p, toks, src: Src { hint, extra: vec![], reent: vec![], damage }, script: vec![], sreent: vec![], sentence }),
            crash: None,
            again: 0,
            own: false,
        });
        self.sc.ops.len() - 1
    }
    /// Makes the stream of a parse another one's with a single token replaced: all else alike.
    fn vary(&mut self, op: usize, g: usize, other: &[Tok]) {
        let k = self.known[g].as_ref().unwrap();
        let ts: Vec<S> = k.facts.terms.iter().copied().filter(|t| *t != EPS).collect();
        if ts.is_empty() {
            return;
        }
        let i = self.rng.us(other.len());
        let mut toks: Vec<Tok> = other.iter().map(|t| (t.0, t.1.map(|l| l + 50_000))).collect();
        toks[i].0 = *self.rng.pick(&ts);
        if model::parse(&k.facts, &k.table, self.sc.grammars[g].init, &toks, Some(&[]), model_cap(toks.len()) / 2).is_ok() {
            let p = self.parse_mut(op);
            p.toks = toks;
            p.src.damage = [0, 0, 0, 0, 1, 0];
            p.sentence = false;
        }
    }
    fn parse_mut(&mut self, op: usize) -> &mut Parse {
        match &mut self.sc.ops[op].what {
            What::Parse(p) => p,
            _ => unreachable!(),
        }
    }
    /// Gives a parse with a solver some answers: up to `n` repairs at questions it really gets asked.
    fn answers(&mut self, op: usize, n: usize) {
        let p = self.parse_mut(op).clone();
        let g = self.sc.grammar_of(&p.p);
        let k = self.known[g].as_ref().unwrap();
        let init = self.sc.grammars[g].init;
        let rng = &mut self.rng;
        let mut s: Vec<Ans> = vec![];
        let syms: Vec<S> = exec::symbols_of(&self.sc.grammars[g]).into_iter().collect();
        let mut lex = (op as u32 + 1) * 100_000 + 50_000;
        for _ in 0..n {
            let o = match model::parse(&k.facts, &k.table, init, &p.toks, Some(&s), model_cap(p.toks.len())) {
                Ok(o) => o,
                Err(_) => {
                    s.pop();
                    break;
                }
            };
            if o.log.len() <= s.len() {
                if o.plain_ok && rng.pct(50) {
                    // never to be asked for
                    s.push(Ans::Fix(rng.us(p.toks.len() + 1), parts(rng, &syms, &mut lex, 2)));
                }
                break;
            }
            let q = s.len() + rng.us(o.log.len() - s.len());
            s.resize(q, Ans::No);
            let (pos, n) = (o.log[q].pos, p.toks.len());
            let end = match rng.weighted(&[25, 25, 25, 10, 8, 7]) {
                0 => pos.saturating_add(rng.us(3)).min(n),
                1 => pos.min(n) + rng.us(n - pos.min(n) + 1),
                2 => pos.saturating_add(1),
                3 => n + rng.us(4),
                4 => rng.us(pos.min(1 << 40) + 1),
                _ => match rng.us(5) {
                    0 => (1 << 16) + rng.us(n + 1),
                    1 => (1 << 32) + rng.us(n + 1),
                    2 => (1 << 48) + rng.us(n + 1),
                    _ => 1_000_000,
                },
            };
            s.push(Ans::Fix(end, parts(rng, &syms, &mut lex, 2)));
        }
        while !s.is_empty() && model::parse(&k.facts, &k.table, init, &p.toks, Some(&s), model_cap(p.toks.len())).is_err() {
            s.pop();
        }
        self.parse_mut(op).script = s;
    }
    fn ctor(&mut self) -> Ctor {
        *self.rng.pick(&[Ctor::Grammar, Ctor::Grammar, Ctor::Sets, Ctor::Solver])
    }

    fn parse_grammar(&mut self, size_cap: usize) -> usize {
        let size = self.size().min(size_cap);
        let shape = match self.sc.prop.as_str() {
            "C06" => Shape::Ll1,
            "C07" | "C08" | "C12" | "C13" | "C11" => *self.rng.pick(&[Shape::Overlapping, Shape::Overlapping, Shape::NoLeftRec, Shape::Ll1]),
            _ => *self.rng.pick(&[Shape::Overlapping, Shape::NoLeftRec, Shape::NoLeftRec, Shape::Ll1]),
        };
        let g = gram::generate(&mut self.rng, shape, size);
        self.add_grammar(g)
    }
    fn tasks_for(&mut self, pct_multi: u32) -> usize {
        if self.rng.pct(pct_multi) {
            self.rng.range(2, 4)
        } else {
            1
        }
    }

    /// Rarely, size is what is tried.
    fn scaled(&mut self) -> bool {
        if self.rng.below(120) != 0 {
            return false;
        }
        self.sc.hash_mode = 0;
        let prop = self.sc.prop.clone();
        let plain = prop == "C06" || self.rng.pct(40);
        let (spec, base) = gram::scaled(&mut self.rng, plain);
        let g = self.add_grammar(spec);
        let solvers = matches!(prop.as_str(), "C11" | "C12" | "C13");
        let c = match prop.as_str() {
            "C05" | "C06" | "C07" | "C08" => *self.rng.pick(&[Ctor::Grammar, Ctor::Sets]),
            _ if solvers => Ctor::Solver,
            _ => self.ctor(),
        };
        self.sc.parsers.push((g, c));
        if matches!(prop.as_str(), "C10" | "C11") {
            let c = self.ctor();
            self.sc.parsers.push((g, if prop == "C11" { Ctor::Grammar } else { c }));
        }
        if prop == "C16" {
            self.sc.parsers.push((g, Ctor::Sets));
        }
        for _ in 0..self.rng.range(1, 2) {
            let mut syms = base.clone();
            let mut damage = [0; 6];
            let mut sentence = true;
            if self.rng.pct(if prop == "C08" || solvers { 85 } else { 45 }) {
                let n = syms.len();
                let i = match self.rng.us(3) {
                    0 => self.rng.us(n),
                    1 => n - 1 - self.rng.us(n.min(4)),
                    _ => n / 2,
                };
                sentence = false;
                match self.rng.us(4) {
                    0 => {
                        syms.truncate(i.max(1));
                        damage[0] = 1;
                    }
                    1 if n > 1 => {
                        syms.remove(i);
                        damage[1] = 1;
                    }
                    2 => {
                        syms[i] = UNKNOWN;
                        damage[5] = 1;
                    }
                    _ => {
                        let x = syms[i];
                        syms.insert(i, x);
                        damage[2] = 1;
                    }
                }
            } else if self.rng.pct(20) {
                let more = syms[..self.rng.us(syms.len())].to_vec();
                syms.extend(more);
            }
            let lb = self.lexbase();
            let toks: Vec<Tok> = syms.iter().enumerate().map(|(i, s)| (*s, Some(lb + i as u32))).collect();
            let hint = *self.rng.pick(&[0u8, 0, 1, 2, 3]);
            let mut p = Parse { p: PRef::Shared(0), toks, src: Src { hint, extra: vec![], reent: vec![], damage }, script: vec![], sreent: vec![], sentence };
            let k = self.known[g].as_ref().unwrap();
            if model::parse(&k.facts, &k.table, 90, &p.toks, Some(&[]), model_cap(p.toks.len()) / 2).is_err() {
                continue;
            }
            self.sc.ops.push(Op { what: What::Parse(p.clone()), crash: None, again: 0, own: false });
            let a = self.sc.ops.len() - 1;
            if c == Ctor::Solver && prop != "C11" && self.rng.pct(50) && p.toks.len() < 600 {
                self.answers(a, 2);
            }
            if matches!(prop.as_str(), "C10" | "C16") {
                let mut q = self.parse_mut(a).clone();
                q.src.hint = 0;
                if prop == "C10" {
                    let x = q.toks[0];
                    self.parse_mut(a).src.extra.push(x);
                } else if c != Ctor::Solver {
                    q.p = PRef::Shared(1);
                }
                self.sc.ops.push(Op { what: What::Parse(q), crash: None, again: 0, own: false });
                let b = self.sc.ops.len() - 1;
                self.sc.pairs.push((a, b));
            }
            if prop == "C11" {
                p.p = PRef::Shared(1);
                self.sc.ops.push(Op { what: What::Parse(p), crash: None, again: 0, own: false });
                let b = self.sc.ops.len() - 1;
                self.sc.pairs.push((b, a));
            }
        }
        if self.sc.ops.is_empty() {
            self.sc.grammars.clear();
            self.sc.parsers.clear();
            self.known.clear();
            return false;
        }
        self.one_task();
        true
    }

    // ------------------------------------------------------------ parsing
    fn parsing(&mut self) {
        if self.scaled() {
            return;
        }
        let prop = self.sc.prop.clone();
        let mix = |r: &mut Rng| match prop.as_str() {
            "C05" | "C07" => *r.pick(&[Mix::Sentences, Mix::Sentences, Mix::Any]),
            "C08" => *r.pick(&[Mix::Failing, Mix::Failing, Mix::Any]),
            _ => *r.pick(&[Mix::Sentences, Mix::Any, Mix::Failing]),
        };
        for _ in 0..self.rng.range(1, 4) {
            let g = self.parse_grammar(3);
            let mut c = if prop == "C09" { self.ctor() } else { *self.rng.pick(&[Ctor::Grammar, Ctor::Sets]) };
            self.sc.parsers.push((g, c));
            let shared = self.sc.parsers.len() - 1;
            for _ in 0..self.rng.range(2, 5) {
                let p = if self.rng.pct(90) {
                    PRef::Shared(shared)
                } else {
                    if prop == "C09" {
                        c = self.ctor();
                    }
                    PRef::Fresh(g, c)
                };
                let m = mix(&mut self.rng);
                let solver = self.sc.ctor_of(&p) == Ctor::Solver;
                let op = self.push_parse(p, g, m);
                if solver && self.rng.pct(60) {
                    let n = self.rng.range(1, 3);
                    self.answers(op, n);
                }
            }
        }
        let ops = (0..self.sc.ops.len()).collect();
        let pct = if prop == "C05" { 50 } else { 20 };
        let n = self.tasks_for(pct);
        self.spread(ops, n);
    }
    fn sources(&mut self) {
        if self.scaled() {
            return;
        }
        let mut top = vec![];
        for _ in 0..self.rng.range(1, 3) {
            let g = self.parse_grammar(2);
            let c = self.ctor();
            self.sc.parsers.push((g, c));
            let sh = self.sc.parsers.len() - 1;
            for _ in 0..self.rng.range(1, 3) {
                let m = *self.rng.pick(&[Mix::Sentences, Mix::Any, Mix::Failing]);
                let a = self.push_parse(PRef::Shared(sh), g, m);
                if c == Ctor::Solver && self.rng.pct(50) {
                    self.answers(a, 2);
                }
                let mut q = self.parse_mut(a).clone();
                q.src = Src { hint: 0, extra: vec![], reent: vec![], damage: [0; 6] };
                // the twin: same tokens from the plainest source
                self.sc.ops.push(Op { what: What::Parse(q.clone()), crash: None, again: 0, own: false });
                let b = self.sc.ops.len() - 1;
                self.sc.pairs.push((a, b));
                let n = q.toks.len() as u32;
                if self.rng.below(6000) == 0 && self.sc.ops.len() < 4 {
                    // more tokens than counters of some widths can count
                    let n = (1 << *self.rng.pick(&[17u32, 18, 20])) + self.rng.us(70_000);
                    let last = q.toks[q.toks.len() - 1].0;
                    for o in [a, b] {
                        let p = self.parse_mut(o);
                        let lex = p.toks[0].1.unwrap_or(1);
                        p.toks.extend((p.toks.len()..n).map(|i| (last, Some(lex + i as u32))));
                        p.sentence = false;
                    }
                    let p = self.parse_mut(a).clone();
                    let k = self.by(g, c);
                    if model::parse(&k.facts, &k.table, self.sc.grammars[g].init, &p.toks, exec::script_of(&self.sc, &p), 60_000).is_err() {
                        for o in [a, b] {
                            self.parse_mut(o).toks.truncate(n.min(q.toks.len()));
                        }
                    }
                }
                if self.rng.pct(70) {
                    // a source that would deliver more after its end
                    let more = self.rng.range(1, 4);
                    let lb = self.lexbase();
                    let (ts, _, _) = self.tokens(g, Mix::Sentences);
                    let extra: Vec<Tok> = (0..more).map(|i| (if self.rng.pct(60) { q.toks[q.toks.len() - 1].0 } else { ts[i % ts.len()] }, Some(lb + 90_000 + i as u32))).collect();
                    self.parse_mut(a).src.extra = extra;
                }
                let h = *self.rng.pick(&[0u8, 1, 2, 3]);
                self.parse_mut(a).src.hint = h;
                if self.rng.pct(30) {
                    let inner = self.push_parse(PRef::Shared(sh), g, Mix::Any);
                    let at = self.rng.below(n as u64 + 1) as u32;
                    self.parse_mut(a).src.reent.push((at, inner));
                }
                top.push(a);
                top.push(b);
            }
        }
        let n = self.tasks_for(40);
        self.spread(top, n);
    }
    /// A row of symbols with one way each, many of which fail.
    fn many_failures(&mut self) {
        let n = *self.rng.pick(&[3usize, 4, 5, 6, 8, 10, 14, 20]);
        let mut prods = vec![(90, (1..=n as S).chain([END]).collect::<Vec<S>>())];
        let mut syms = vec![];
        for k in 1..=n as S {
            let t = 100 + self.rng.below(6) as S;
            match self.rng.us(4) {
                0 => {
                    // through another symbol
                    prods.push((k, vec![30 + k, 120]));
                    prods.push((30 + k, vec![t]));
                }
                1 => {
                    prods.push((k, vec![t, 121]));
                    prods.push((k, vec![t, 120]));
                }
                _ => prods.push((k, vec![t, 120])),
            }
            syms.push(t);
            syms.push(if self.rng.pct(60) { UNKNOWN } else { 120 });
        }
        syms.push(END);
        self.rng.shuffle(&mut prods[1..]);
        let g = self.add_grammar(Spec { init: 90, prods });
        self.sc.parsers.push((g, Ctor::Solver));
        let sh = self.sc.parsers.len() - 1;
        let lb = self.lexbase();
        let toks: Vec<Tok> = syms.iter().enumerate().map(|(i, s)| (*s, Some(lb + i as u32))).collect();
        let damage = [0, 0, 0, 0, 0, syms.iter().filter(|s| **s == UNKNOWN).count() as u32];
        let p = Parse { p: PRef::Shared(sh), toks, src: Src { hint: 0, extra: vec![], reent: vec![], damage }, script: vec![], sreent: vec![], sentence: false };
        self.sc.ops.push(Op { what: What::Parse(p), crash: None, again: 0, own: false });
        let a = self.sc.ops.len() - 1;
        let answers = self.rng.range(1, n + 3);
        self.answers(a, answers);
        if self.sc.prop == "C11" {
            let c = *self.rng.pick(&[Ctor::Grammar, Ctor::Sets]);
            self.sc.parsers.push((g, c));
            let mut q = self.parse_mut(a).clone();
            q.p = PRef::Shared(sh + 1);
            q.script = vec![];
            self.sc.ops.push(Op { what: What::Parse(q), crash: None, again: 0, own: false });
            let b = self.sc.ops.len() - 1;
            self.sc.pairs.push((b, a));
        }
        self.one_task();
    }
    fn solver(&mut self) {
        if self.scaled() {
            return;
        }
        if self.rng.pct(5) {
            return self.many_failures();
        }
        let prop = self.sc.prop.clone();
        for _ in 0..self.rng.range(1, 3) {
            let g = self.parse_grammar(2);
            self.sc.parsers.push((g, Ctor::Solver));
            let sh = self.sc.parsers.len() - 1;
            let plain = *self.rng.pick(&[Ctor::Grammar, Ctor::Sets]);
            self.sc.parsers.push((g, plain));
            for _ in 0..self.rng.range(1, 4) {
                let m = if prop == "C11" { *self.rng.pick(&[Mix::Sentences, Mix::Any, Mix::Failing]) } else { *self.rng.pick(&[Mix::Failing, Mix::Failing, Mix::Any]) };
                let a = self.push_parse(PRef::Shared(sh), g, m);
                let n = match prop.as_str() {
                    "C13" if self.rng.pct(5) => 14,
                    "C13" => self.rng.range(1, 3),
                    "C12" => self.rng.us(3),
                    _ => self.rng.us(2),
                };
                self.answers(a, n);
                if prop == "C11" {
                    let mut q = self.parse_mut(a).clone();
                    q.p = PRef::Shared(sh + 1);
                    q.script = vec![];
                    self.sc.ops.push(Op { what: What::Parse(q), crash: None, again: 0, own: false });
                    let b = self.sc.ops.len() - 1;
                    self.sc.pairs.push((b, a));
                }
            }
        }
        let ops = (0..self.sc.ops.len()).collect();
        let n = self.tasks_for(15);
        self.spread(ops, n);
    }

    // ------------------------------------------------------------ histories, interleavings, crashes
    fn any_op(&mut self, sh: &[usize], depth: usize) -> usize {
        let s = *self.rng.pick(sh);
        let (g, _) = self.sc.parsers[s];
        if depth == 0 && self.rng.pct(12) {
            let what = if self.rng.pct(70) { What::Analyze(g) } else { What::Build(g) };
            self.sc.ops.push(Op { what, crash: None, again: 0, own: false });
            return self.sc.ops.len() - 1;
        }
        let p = if self.rng.pct(88) {
            PRef::Shared(s)
        } else {
            let c = self.ctor();
            PRef::Fresh(g, c)
        };
        let solver = self.sc.ctor_of(&p) == Ctor::Solver;
        let m = *self.rng.pick(&[Mix::Sentences, Mix::Any, Mix::Failing]);
        let m = if solver && self.rng.pct(60) { Mix::Failing } else { m };
        let o = self.push_parse(p, g, m);
        if solver && self.rng.pct(60) {
            let n = self.rng.range(1, 2);
            self.answers(o, n);
        }
        if depth < 2 && self.rng.pct(if depth == 0 { 25 } else { 15 }) {
            let inner = self.any_op(sh, depth + 1);
            let n = self.parse_mut(o).toks.len() as u64;
            let at = self.rng.below(n + 1) as u32;
            self.parse_mut(o).src.reent.push((at, inner));
        }
        if solver && depth < 2 && self.rng.pct(35) {
            let inner = self.any_op(sh, depth + 1);
            let at = self.rng.below(2) as u32;
            self.parse_mut(o).sreent.push((at, inner));
        }
        o
    }
    fn crash(&mut self, op: usize) {
        let mask = if self.rng.pct(50) {
            let k = self.rng.us(rt::NKIND);
            1u32 << k
        } else {
            (1 << rt::NKIND) - 1
        };
        let f = self.rng.below(65536);
        self.sc.ops[op].crash = Some((mask, FRACTION + f));
    }
    fn concurrent(&mut self) {
        let ng = if self.rng.pct(70) { 1 } else { 2 };
        let mut sh = vec![];
        for _ in 0..ng {
            let g = self.parse_grammar(1);
            let c = self.ctor();
            self.sc.parsers.push((g, c));
            sh.push(self.sc.parsers.len() - 1);
            if self.rng.pct(30) {
                let c = self.ctor();
                self.sc.parsers.push((g, c));
                sh.push(self.sc.parsers.len() - 1);
            }
        }
        let n = self.rng.range(2, 7);
        let mut top = vec![];
        for _ in 0..n {
            if !top.is_empty() && self.rng.pct(20) {
                // the same input again: what an earlier or concurrent call leaves behind would show
                let o: usize = *self.rng.pick(&top);
                let mut op = self.sc.ops[o].clone();
                if let What::Parse(p) = &mut op.what {
                    p.src.reent.clear();
                    p.sreent.clear();
                    if self.rng.pct(50) {
                        let lb = self.lexbase();
                        for (i, t) in p.toks.iter_mut().enumerate() {
                            t.1 = Some(lb + i as u32);
                        }
                    }
                }
                op.crash = None;
                self.sc.ops.push(op);
                top.push(self.sc.ops.len() - 1);
            } else {
                let o = self.any_op(&sh, 0);
                top.push(o);
            }
        }
        if self.rng.pct(30) {
            // no parser beforehand: the first use of the grammars is among the operations
            for o in 0..self.sc.ops.len() {
                if let What::Parse(p) = &self.sc.ops[o].what {
                    if let PRef::Shared(s) = p.p {
                        let (g, c) = self.sc.parsers[s];
                        if self.rng.pct(35) && top.contains(&o) && p.src.reent.is_empty() && p.sreent.is_empty() {
                            self.sc.ops[o].what = What::Analyze(g);
                        } else {
                            self.parse_mut(o).p = PRef::Fresh(g, c);
                        }
                    }
                }
            }
            self.sc.parsers.clear();
        }
        let tasks = if self.sc.prop == "C15" { self.rng.range(1, 4) } else { *self.rng.pick(&[1usize, 1, 2, 3]) };
        if self.sc.prop == "C15" && self.sc.sched_prob < 400 && self.rng.pct(70) {
            self.sc.sched_prob = 3000;
        }
        if self.sc.prop == "C14" {
            let all = self.sc.ops.len();
            for _ in 0..self.rng.range(1, 3) {
                let o = self.rng.us(all);
                if self.rng.pct(15) {
                    if let What::Parse(p) = &mut self.sc.ops[o].what {
                        let k = self.rng.us(2);
                        p.script.truncate(k);
                        p.script.resize(k, Ans::No);
                        p.script.push(Ans::Panic);
                        continue;
                    }
                }
                self.crash(o);
            }
        }
        self.spread(top, tasks);
    }
    fn lexemes(&mut self) {
        if self.scaled() {
            return;
        }
        let mut sh = vec![];
        for _ in 0..self.rng.range(1, 2) {
            let g = self.parse_grammar(1);
            let c = self.ctor();
            self.sc.parsers.push((g, c));
            sh.push(self.sc.parsers.len() - 1);
        }
        let mut top = vec![];
        for _ in 0..self.rng.range(2, 6) {
            let o = self.any_op(&sh, 1);
            top.push(o);
        }
        for o in 0..self.sc.ops.len() {
            if self.rng.pct(30) {
                self.crash(o);
            }
        }
        let n = self.tasks_for(30);
        self.spread(top, n);
    }
    fn steady(&mut self) {
        let mut sh = vec![];
        for _ in 0..self.rng.range(1, 2) {
            let g = self.parse_grammar(1);
            let c = self.ctor();
            self.sc.parsers.push((g, c));
            sh.push(self.sc.parsers.len() - 1);
        }
        let mut top = vec![];
        for _ in 0..self.rng.range(1, 4) {
            let o = self.any_op(&sh, 0);
            top.push(o);
        }
        for o in 0..self.sc.ops.len() {
            if self.rng.pct(30) {
                self.crash(o);
            }
            if let What::Parse(p) = &mut self.sc.ops[o].what {
                let n = if self.rng.pct(90) { 40 } else { 300 };
                if p.toks.len() > n {
                    p.toks.truncate(n);
                    let n = p.toks.len() as u32;
                    for r in &mut p.src.reent {
                        r.0 = r.0.min(n);
                    }
                }
            }
        }
        if self.rng.pct(20) {
            own_threads(&mut self.sc, &mut self.rng);
        }
        let n = self.tasks_for(30);
        self.spread(top, n);
    }
    fn supplied_sets(&mut self) {
        let mut sh = vec![];
        let mut sets: Vec<(usize, u32)> = vec![];
        for _ in 0..self.rng.range(1, 2) {
            let g = self.parse_grammar(2);
            for _ in 0..self.rng.range(1, 3) {
                let k = self.rng.below(1 << 30) as u32;
                let known = exec::know_by(&self.sc.grammars[g], Ctor::Supplied(k)).unwrap();
                self.supplied.insert((g, k), known);
                sets.push((g, k));
                self.sc.parsers.push((g, Ctor::Supplied(k)));
                sh.push(self.sc.parsers.len() - 1);
            }
            if self.rng.pct(50) {
                // goes by the computed sets, on the same grammar
                let c = self.ctor();
                self.sc.parsers.push((g, c));
                sh.push(self.sc.parsers.len() - 1);
            }
        }
        self.rng.shuffle(&mut sh);
        let mut top: Vec<usize> = vec![];
        for _ in 0..self.rng.range(3, 8) {
            let s = *self.rng.pick(&sh);
            let (g, c) = self.sc.parsers[s];
            if self.rng.pct(25) {
                let what = match c {
                    Ctor::Supplied(k) => What::Supply(g, k),
                    _ => What::Analyze(g),
                };
                self.sc.ops.push(Op { what, crash: None, again: 0, own: false });
                top.push(self.sc.ops.len() - 1);
                continue;
            }
            let p = if self.rng.pct(75) { PRef::Shared(s) } else { PRef::Fresh(g, c) };
            let earlier: Vec<usize> = top.iter().copied().filter(|o| matches!(&self.sc.ops[*o].what, What::Parse(q) if self.sc.grammar_of(&q.p) == g)).collect();
            if !earlier.is_empty() && self.rng.pct(50) {
                // the same stream by other sets
                let e = *self.rng.pick(&earlier);
                let mut q = self.parse_mut(e).clone();
                q.p = p.clone();
                q.src.reent.clear();
                let k = self.by(g, c);
                if model::parse(&k.facts, &k.table, self.sc.grammars[g].init, &q.toks, Some(&[]), model_cap(q.toks.len()) / 2).is_ok() {
                    self.sc.ops.push(Op { what: What::Parse(q), crash: None, again: 0, own: false });
                    top.push(self.sc.ops.len() - 1);
                    continue;
                }
            }
            let m = *self.rng.pick(&[Mix::Sentences, Mix::Sentences, Mix::Any, Mix::Failing]);
            let o = self.push_parse(p, g, m);
            top.push(o);
            if self.rng.pct(15) {
                let s = *self.rng.pick(&sh);
                let (h, d) = self.sc.parsers[s];
                let p = if self.rng.pct(60) { PRef::Shared(s) } else { PRef::Fresh(h, d) };
                let inner = self.push_parse(p, h, Mix::Any);
                let n = self.parse_mut(o).toks.len() as u64;
                let at = self.rng.below(n + 1) as u32;
                self.parse_mut(o).src.reent.push((at, inner));
            }
        }
        if self.rng.pct(10) {
            let o = self.rng.us(self.sc.ops.len());
            self.crash(o);
        }
        let n = self.tasks_for(35);
        self.spread(top, n);
    }
    fn reproducible(&mut self) {
        if self.scaled() {
            return;
        }
        let size = self.size().min(2);
        let shape = *self.rng.pick(&[Shape::Overlapping, Shape::NoLeftRec, Shape::Ll1]);
        let spec = gram::generate(&mut self.rng, shape, size);
        let a = self.add_grammar(spec.clone());
        let b = self.add_grammar(spec.clone());
        for (g, c) in [(a, Ctor::Grammar), (b, Ctor::Sets), (b, Ctor::Solver), (a, Ctor::Solver)] {
            self.sc.parsers.push((g, c));
        }
        if self.rng.pct(60) {
            self.sc.ops.push(Op { what: What::Analyze(a), crash: None, again: 0, own: false });
            self.sc.ops.push(Op { what: What::Analyze(b), crash: None, again: 0, own: false });
            self.sc.pairs.push((0, 1));
        }
        let mut before: Vec<Tok> = vec![];
        for _ in 0..self.rng.range(1, 3) {
            let m = *self.rng.pick(&[Mix::Sentences, Mix::Any, Mix::Failing]);
            let o = self.push_parse(PRef::Shared(0), a, m);
            if self.rng.pct(40) && !before.is_empty() {
                self.vary(o, a, &before);
            }
            let base = self.parse_mut(o).clone();
            before = base.toks.clone();
            let mut twins: Vec<PRef> = vec![];
            for _ in 0..self.rng.range(1, 3) {
                let c = self.ctor();
                let g = *self.rng.pick(&[a, b]);
                twins.push(match self.rng.us(3) {
                    0 => PRef::Fresh(g, c),
                    _ => PRef::Shared(self.rng.us(4)),
                });
            }
            for t in twins {
                let mut q = base.clone();
                q.p = t;
                self.sc.ops.push(Op { what: What::Parse(q), crash: None, again: 0, own: false });
                let k = self.sc.ops.len() - 1;
                self.sc.pairs.push((o, k));
            }
            if self.rng.pct(40) {
                // a question sequence with answers, on two instances
                let mut q = base.clone();
                q.p = PRef::Shared(2);
                self.sc.ops.push(Op { what: What::Parse(q), crash: None, again: 0, own: false });
                let x = self.sc.ops.len() - 1;
                self.answers(x, 2);
                let mut q = self.parse_mut(x).clone();
                q.p = PRef::Shared(3);
                self.sc.ops.push(Op { what: What::Parse(q), crash: None, again: 0, own: false });
                let y = self.sc.ops.len() - 1;
                self.sc.pairs.push((x, y));
            }
        }
        let ops = (0..self.sc.ops.len()).collect();
        let n = self.tasks_for(15);
        self.spread(ops, n);
    }
}

fn parts(rng: &mut Rng, syms: &[S], lex: &mut u32, depth: usize) -> Vec<Part> {
    fn nd(rng: &mut Rng, syms: &[S], lex: &mut u32, depth: usize) -> Node {
        *lex += 1;
        let l = if rng.pct(60) { Some(*lex) } else { None };
        let n = if depth == 0 { 0 } else { rng.us(3) };
        Node { s: *rng.pick(syms), lex: l, kids: (0..n).map(|_| nd(rng, syms, lex, depth - 1)).collect() }
    }
    let n = if rng.pct(98) { rng.us(4) } else { *rng.pick(&[8, 17, 40]) };
    (0..n)
        .map(|_| match rng.us(if depth == 0 { 2 } else { 3 }) {
            0 => Part::Ok(nd(rng, syms, lex, 1)),
            1 => {
                let a = (0..rng.us(3))
                    .map(|_| {
                        *lex += 1;
                        *lex
                    })
                    .collect();
                Part::Gap(a, (0..rng.us(3)).map(|_| *rng.pick(syms)).collect())
            }
            _ => Part::Fixed(XSym { s: *rng.pick(syms), parts: parts(rng, syms, lex, depth - 1) }),
        })
        .collect()
}
fn malform(g: &mut Spec, rng: &mut Rng) {
    let n = g.prods.len();
    let at = match rng.us(4) {
        0 => n, // the last one declared
        _ => rng.us(n + 1),
    };
    let a = if n == 0 { 1 } else { rng.pick(&g.prods).0 };
    let fresh = 400 + rng.below(3) as S;
    let a = if rng.pct(25) { fresh } else { a };
    let t = 100 + rng.below(4) as S;
    let p = match rng.us(7) {
        0 => (EPS, vec![t]),
        1 => (EPS, vec![EPS]),
        2 => (a, vec![]),
        3 => (a, vec![EPS, t]),
        4 => (a, vec![t, EPS]),
        5 => (a, vec![t, EPS, a]),
        _ => (a, vec![EPS, EPS]),
    };
    g.prods.insert(at, p);
}
/// Hundreds of non-terminals in one dependency chain, declared in random order.
/// One thing made long in an analysed grammar: a row of symbols that may vanish, of alternatives, of terminals.
fn stretch(g: &mut Spec, rng: &mut Rng) {
    let n = *rng.pick(&[9usize, 17, 33, 65, 130, 257]);
    let at = rng.us(g.prods.len());
    match rng.us(3) {
        0 | 1 => {
            let nullable: Vec<S> = gram::Facts::of(g).nullable.iter().copied().filter(|s| *s != EPS).collect();
            let mut row = vec![];
            let kinds = rng.range(1, 3);
            let mut from = vec![];
            for k in 0..kinds {
                if nullable.is_empty() || rng.pct(40) {
                    let s = 900 + k as S;
                    from.push(s);
                    g.prods.push((s, vec![EPS]));
                    if rng.pct(80) {
                        g.prods.push((s, vec![910 + k as S]));
                    }
                } else {
                    from.push(*rng.pick(&nullable));
                }
            }
            for _ in 0..n {
                row.push(*rng.pick(&from));
            }
            let o = &mut g.prods[at].1;
            if o[0] == EPS {
                *o = row;
            } else {
                let i = rng.us(o.len() + 1);
                o.splice(i..i, row);
            }
        }
        _ => {
            let a = g.prods[at].0;
            let like = g.prods[at].1.clone();
            for k in 0..n {
                let mut o = like.clone();
                let i = if rng.pct(60) || o[0] == EPS { 0 } else { rng.us(o.len()) };
                o[i] = 1000 + k as S;
                g.prods.push((a, o));
            }
        }
    }
}

fn long_chain(rng: &mut Rng) -> Spec {
    let n = *rng.pick(&[60usize, 120, 220, 270]);
    let mut names: Vec<S> = (1..=n as S).map(|x| if x >= 90 { x + 1000 } else { x }).collect();
    rng.shuffle(&mut names);
    let style = rng.us(4);
    let mut prods = vec![];
    for w in names.windows(2) {
        let (a, b) = (w[0], w[1]);
        match style {
            0 => prods.push((a, vec![b])),
            1 => prods.push((a, vec![100, b])),
            3 => {
                for t in 0..rng.range(2, 4) as S {
                    prods.push((a, vec![b, 110 + t]));
                }
            }
            _ => {
                prods.push((a, vec![b, b]));
            }
        }
        if rng.pct(15) {
            prods.push((a, vec![101 + rng.below(4) as S]));
        }
    }
    let last = *names.last().unwrap();
    prods.push((last, vec![109]));
    if style == 2 || rng.pct(50) {
        prods.push((last, vec![EPS]));
    }
    prods.push((90, vec![names[0], END]));
    rng.shuffle(&mut prods);
    Spec { init: 90, prods }
}
