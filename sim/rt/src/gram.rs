//! Grammars of the workload, and what is true of them, computed independently of the library.
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};

pub type S = u16;
pub const EPS: S = 0;
/// A symbol no grammar mentions.
pub const UNKNOWN: S = 999;

#[derive(Clone, Debug, PartialEq)]
pub struct Spec {
    pub init: S,
    pub prods: Vec<(S, Vec<S>)>,
}

/// Facts about a grammar.
pub struct Facts {
    pub nts: BTreeSet<S>,
    pub terms: BTreeSet<S>, // including EPS if mentioned
    pub by: BTreeMap<S, Vec<Vec<S>>>,
    pub nullable: BTreeSet<S>,
    pub first: BTreeMap<S, BTreeSet<S>>,  // FIRST of every grammar symbol, EPS for "derives empty"
    pub follow: BTreeMap<S, BTreeSet<S>>, // of non-terminals
    pub left_recursive: bool,
    pub init_productive: bool,
    pub min_height: BTreeMap<S, usize>, // of productive non-terminals
}

pub fn valid(g: &Spec) -> bool {
    g.prods.iter().all(|(a, o)| *a != EPS && !o.is_empty() && (o.len() == 1 || !o.contains(&EPS)))
}

fn reach(edges: &BTreeMap<S, BTreeSet<S>>, from: S) -> BTreeSet<S> {
    let mut seen = BTreeSet::new();
    let mut todo = vec![from];
    while let Some(x) = todo.pop() {
        if let Some(e) = edges.get(&x) {
            for y in e {
                if seen.insert(*y) {
                    todo.push(*y);
                }
            }
        }
    }
    seen // without `from` itself, unless it is on a cycle
}

impl Facts {
    pub fn of(g: &Spec) -> Facts {
        let nts: BTreeSet<S> = g.prods.iter().map(|p| p.0).collect();
        let terms: BTreeSet<S> = g.prods.iter().flat_map(|p| p.1.iter()).copied().filter(|s| !nts.contains(s)).collect();
        let mut by: BTreeMap<S, Vec<Vec<S>>> = BTreeMap::new();
        for (a, o) in &g.prods {
            by.entry(*a).or_default().push(o.clone());
        }
        let mut nullable: BTreeSet<S> = BTreeSet::new();
        loop {
            let n = nullable.len();
            for (a, o) in &g.prods {
                if o.iter().all(|s| *s == EPS || nullable.contains(s)) {
                    nullable.insert(*a);
                }
            }
            if nullable.len() == n {
                break;
            }
        }
        // begins-with relation, as a graph over symbols; FIRST by reachability
        let mut begins: BTreeMap<S, BTreeSet<S>> = BTreeMap::new();
        for (a, o) in &g.prods {
            for s in o {
                if *s == EPS {
                    break;
                }
                begins.entry(*a).or_default().insert(*s);
                if !nullable.contains(s) {
                    break;
                }
            }
        }
        let mut first = BTreeMap::new();
        for t in &terms {
            first.insert(*t, BTreeSet::from([*t]));
        }
        let mut left_recursive = false;
        for a in &nts {
            let r = reach(&begins, *a);
            left_recursive |= r.contains(a);
            let mut f: BTreeSet<S> = r.into_iter().filter(|s| terms.contains(s)).collect();
            if nullable.contains(a) {
                f.insert(EPS);
            }
            first.insert(*a, f);
        }
        // followed-by: direct contributions, and inclusion edges A <- B meaning FOLLOW(B) is part of FOLLOW(A)
        let mut direct: BTreeMap<S, BTreeSet<S>> = BTreeMap::new();
        let mut incl: BTreeMap<S, BTreeSet<S>> = BTreeMap::new();
        for (b, o) in &g.prods {
            for i in 0..o.len() {
                if !nts.contains(&o[i]) {
                    continue;
                }
                let mut all = true;
                for x in &o[i + 1..] {
                    for t in &first[x] {
                        if *t != EPS {
                            direct.entry(o[i]).or_default().insert(*t);
                        }
                    }
                    if !nullable.contains(x) {
                        all = false;
                        break;
                    }
                }
                if all {
                    incl.entry(o[i]).or_default().insert(*b);
                }
            }
        }
        let mut follow = BTreeMap::new();
        for a in &nts {
            let mut f = direct.get(a).cloned().unwrap_or_default();
            for b in reach(&incl, *a) {
                if let Some(d) = direct.get(&b) {
                    f.extend(d.iter().copied());
                }
            }
            follow.insert(*a, f);
        }
        let mut min_height: BTreeMap<S, usize> = BTreeMap::new();
        for h in 1..=nts.len() {
            let mut new = vec![];
            for (a, o) in &g.prods {
                if !min_height.contains_key(a) && o.iter().all(|s| !nts.contains(s) || min_height.contains_key(s)) {
                    new.push(*a);
                }
            }
            for a in new {
                min_height.entry(a).or_insert(h);
            }
        }
        Facts { init_productive: min_height.contains_key(&g.init), nts, terms, by, nullable, first, follow, left_recursive, min_height }
    }
    /// Other sets of the grammar's terminals in place of the computed ones, as a caller may supply them.
    /// Each element is decided by itself, so that what is left of a reduced grammar keeps its sets.
    pub fn supplied(&mut self, seed: u32) {
        let style = seed % 5;
        if style == 0 {
            return; // the computed sets, supplied
        }
        let rate = [0u64, 6, 40, 12, 50][style as usize];
        let roll = |kind: u64, a: S, t: S| crate::rng::mix(crate::rng::mix(seed as u64 ^ kind << 40) ^ (a as u64) << 16 ^ t as u64) % 100;
        let terms: Vec<S> = self.terms.iter().copied().filter(|t| *t != EPS).collect();
        for a in self.nts.clone() {
            for (kind, set) in [(1, self.first.get_mut(&a).unwrap()), (2, self.follow.get_mut(&a).unwrap())] {
                if style == 3 && kind == 1 {
                    continue; // FOLLOW alone differs
                }
                for t in &terms {
                    if roll(kind, a, *t) < rate {
                        // style 4 only takes away
                        if !set.remove(t) && style != 4 {
                            set.insert(*t);
                        }
                    }
                }
            }
            if matches!(style, 1 | 2) && roll(3, a, EPS) < rate / 2 {
                let f = self.first.get_mut(&a).unwrap();
                if !f.remove(&EPS) {
                    f.insert(EPS);
                    self.nullable.insert(a);
                } else {
                    self.nullable.remove(&a);
                }
            }
        }
    }
    pub fn first_of(&self, o: &[S]) -> (BTreeSet<S>, bool) {
        let mut f = BTreeSet::new();
        for s in o {
            if *s == EPS {
                continue;
            }
            f.extend(self.first[s].iter().copied().filter(|t| *t != EPS));
            if !self.nullable.contains(s) {
                return (f, false);
            }
        }
        (f, true)
    }
    pub fn table(&self) -> BTreeMap<(S, S), Vec<usize>> {
        let mut m = BTreeMap::new();
        for a in &self.nts {
            let fs: Vec<(BTreeSet<S>, bool)> = self.by[a].iter().map(|o| self.first_of(o)).collect();
            for t in &self.terms {
                if *t == EPS {
                    continue;
                }
                let v: Vec<usize> = (0..fs.len()).filter(|i| fs[*i].0.contains(t) || fs[*i].1 && self.follow[a].contains(t)).collect();
                if !v.is_empty() {
                    m.insert((*a, *t), v);
                }
            }
        }
        m
    }
    pub fn ll1(&self) -> bool {
        // textbook condition (with an end marker in the grammar no implied $ is needed)
        for ps in self.by.values() {
            let mut nulls = 0;
            let mut seen: BTreeSet<S> = BTreeSet::new();
            for o in ps {
                let (f, n) = self.first_of(o);
                nulls += n as usize;
                for t in f {
                    if !seen.insert(t) {
                        return false;
                    }
                }
            }
            if nulls > 1 {
                return false;
            }
        }
        for a in &self.nts {
            if self.nullable.contains(a) && self.first[a].iter().any(|t| *t != EPS && self.follow[a].contains(t)) {
                return false;
            }
        }
        true
    }
    /// Is some prefix of `toks` derived from `init`? Chart of (symbol, start) -> ends, by fixpoint.
    pub fn has_prefix(&self, init: S, toks: &[S]) -> bool {
        let n = toks.len();
        let mut ends: BTreeMap<(S, usize), BTreeSet<usize>> = BTreeMap::new();
        loop {
            let mut grew = false;
            for (a, ps) in &self.by {
                for i in 0..=n {
                    for o in ps {
                        let mut cur: BTreeSet<usize> = BTreeSet::from([i]);
                        for s in o {
                            let mut nx = BTreeSet::new();
                            for p in &cur {
                                if *s == EPS && !self.nts.contains(s) {
                                    nx.insert(*p);
                                } else if self.nts.contains(s) {
                                    if let Some(e) = ends.get(&(*s, *p)) {
                                        nx.extend(e.iter().copied());
                                    }
                                } else if *p < n && toks[*p] == *s {
                                    nx.insert(*p + 1);
                                }
                            }
                            cur = nx;
                            if cur.is_empty() {
                                break;
                            }
                        }
                        if !cur.is_empty() {
                            let e = ends.entry((*a, i)).or_default();
                            for c in cur {
                                grew |= e.insert(c);
                            }
                        }
                    }
                }
            }
            if !grew {
                break;
            }
        }
        ends.contains_key(&(init, 0))
    }
    /// Random derivation; `fuel` bounds expansion, after which shortest productions are taken.
    pub fn derive(&self, a: S, rng: &mut Rng, fuel: &mut i64) -> Option<T> {
        if !self.nts.contains(&a) {
            return Some(T { s: a, kids: vec![] });
        }
        *fuel -= 1;
        let ps = &self.by[&a];
        let ok: Vec<usize> = (0..ps.len()).filter(|i| ps[*i].iter().all(|s| !self.nts.contains(s) || self.min_height.contains_key(s))).collect();
        if ok.is_empty() {
            return None;
        }
        let height = |i: usize| ps[i].iter().map(|s| self.min_height.get(s).copied().unwrap_or(0)).max().unwrap_or(0);
        let i = if *fuel > 0 { *rng.pick(&ok) } else { *ok.iter().min_by_key(|i| height(**i)).unwrap() };
        let mut kids = vec![];
        for s in ps[i].clone() {
            kids.push(self.derive(s, rng, fuel)?);
        }
        Some(T { s: a, kids })
    }
}
/// A derivation tree (symbols only).
#[derive(Clone, Debug, PartialEq)]
pub struct T {
    pub s: S,
    pub kids: Vec<T>,
}
impl T {
    pub fn yield_(&self, nts: &BTreeSet<S>, out: &mut Vec<S>) {
        if self.kids.is_empty() {
            if self.s != EPS && !nts.contains(&self.s) {
                out.push(self.s);
            }
        } else {
            for k in &self.kids {
                k.yield_(nts, out);
            }
        }
    }
}

// ---------------------------------------------------------------- generation
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Shape {
    Free,        // anything accepted, left recursion and useless symbols included
    NoLeftRec,   // parseable by recursive descent
    Overlapping, // as NoLeftRec, alternatives sharing prefixes
    Ll1,         // with an end marker
}

/// Symbol names: non-terminals 1.., terminals 100.., end marker 500.
pub const END: S = 500;

pub fn generate(rng: &mut Rng, shape: Shape, size: usize) -> Spec {
    for attempt in 0..400 {
        let g = attempt_gen(rng, shape, size, attempt);
        if let Some(g) = g {
            debug_assert!(valid(&g));
            return g;
        }
    }
    // always available
    Spec { init: 1, prods: vec![(1, vec![2, END]), (2, vec![100]), (2, vec![EPS])] }
}

fn attempt_gen(rng: &mut Rng, shape: Shape, size: usize, attempt: usize) -> Option<Spec> {
    let big = size >= 2;
    let nnt = match size {
        0 => rng.range(1, 4),
        1 => rng.range(2, 7),
        2 => rng.range(4, 14),
        _ => rng.range(10, 40),
    };
    let nt_t = match size {
        0 => rng.range(1, 4),
        1 => rng.range(2, 6),
        _ => rng.range(2, 14),
    };
    let maxp = rng.range(1, if big { 5 } else { 4 });
    let maxl = if rng.pct(6) { rng.range(6, 14) } else { rng.range(1, 5) };
    let p_eps = *rng.pick(&[0u32, 10, 20, 35, 50]);
    let p_nt = *rng.pick(&[20u32, 40, 55, 70, 85]);
    let p_rep = *rng.pick(&[0u32, 5, 20, 40]);
    let p_dup = *rng.pick(&[0u32, 0, 0, 10]);
    let chain = rng.pct(30);
    let strict = shape != Shape::Free;
    if rng.pct(if shape == Shape::Ll1 { 45 } else { 25 }) {
        return finish(ebnf(rng, size), rng, shape, size, attempt);
    }
    // a random naming decouples declaration order from rank
    let mut names: Vec<S> = (1..=nnt as S).collect();
    rng.shuffle(&mut names);
    let init = names[0];
    let nts = names.clone(); // rank order: init first
    let ts: Vec<S> = (0..nt_t as S).map(|i| 100 + i).collect();
    let mut prods: Vec<(S, Vec<S>)> = vec![];
    let can_null: Vec<bool> = (0..nnt).map(|_| rng.pct(p_eps)).collect();
    for i in 0..nnt {
        let np = rng.range(1, maxp);
        let mut mine: Vec<Vec<S>> = vec![];
        for _ in 0..np {
            if can_null[i] && rng.pct(40) {
                mine.push(vec![EPS]);
                continue;
            }
            let len = rng.range(1, maxl);
            let mut o: Vec<S> = vec![];
            let mut lead = true; // everything so far may vanish
            for k in 0..len {
                if k > 0 && rng.pct(p_rep) && !(lead && strict) {
                    let l = *o.last().unwrap();
                    o.push(l);
                    continue;
                }
                if rng.pct(p_nt) {
                    let j = if strict && lead {
                        if i + 1 >= nnt {
                            o.push(*rng.pick(&ts));
                            lead = false;
                            continue;
                        }
                        rng.range(i + 1, nnt - 1)
                    } else if strict && rng.pct(60) && i + 1 < nnt {
                        rng.range(i + 1, nnt - 1)
                    } else {
                        rng.us(nnt)
                    };
                    o.push(nts[j]);
                    if strict && !can_null[j] && lead {
                        // may still vanish through unit chains; the left-recursion test below decides
                        lead = rng.pct(30) && lead;
                    }
                } else {
                    o.push(*rng.pick(&ts));
                    lead = false;
                }
            }
            mine.push(o);
        }
        if shape == Shape::Overlapping || shape == Shape::NoLeftRec && rng.pct(15) {
            // alternatives sharing prefixes
            for _ in 0..rng.range(1, 2) {
                let b = rng.pick(&mine).clone();
                if b != vec![EPS] {
                    let mut v = b[..rng.range(1, b.len())].to_vec();
                    for _ in 0..rng.us(3) {
                        let s = if rng.pct(50) || i + 1 >= nnt { *rng.pick(&ts) } else { nts[rng.range(i + 1, nnt - 1)] };
                        v.push(s);
                    }
                    mine.push(v);
                }
            }
            rng.shuffle(&mut mine);
        }
        if shape != Shape::Ll1 && !mine.is_empty() && rng.pct(p_dup) {
            let d = rng.pick(&mine).clone();
            mine.push(d);
        }
        for o in mine {
            prods.push((nts[i], o));
        }
    }
    if chain && nnt >= 3 {
        // dependency chains: unit, nullable-prefix, FOLLOW inclusion (through a vanishing tail)
        let mut ord: Vec<usize> = (0..nnt).collect();
        if !strict {
            rng.shuffle(&mut ord);
        }
        let style = rng.us(3);
        let from = rng.us(nnt - 2);
        for w in ord[from..].windows(2) {
            let (a, b) = (nts[w[0]], nts[w[1]]);
            if style == 0 {
                prods.push((a, vec![b]));
            } else if style == 1 {
                let mut o = vec![*rng.pick(&ts)];
                o.push(b);
                if rng.pct(30) {
                    if let Some(z) = (0..nnt).find(|z| can_null[*z]) {
                        o.push(nts[z]);
                    }
                }
                prods.push((a, o));
            } else {
                let z = ord[*rng.pick(&(from..nnt).collect::<Vec<_>>())];
                if strict && z <= w[0] {
                    continue;
                }
                let mut o = vec![b];
                o.push(nts[z]);
                if rng.pct(50) {
                    o.push(*rng.pick(&ts));
                }
                prods.push((a, o));
            }
        }
    }
    finish(Spec { init, prods }, rng, shape, size, attempt)
}
fn finish(g: Spec, rng: &mut Rng, shape: Shape, size: usize, attempt: usize) -> Option<Spec> {
    let Spec { init, mut prods } = g;
    // declaration order of non-terminals is arbitrary, of one non-terminal's productions as made or shuffled
    if rng.pct(60) {
        let mut tagged: Vec<(u64, (S, Vec<S>))> = prods.into_iter().map(|p| (rng.next(), p)).collect();
        tagged.sort_by_key(|t| t.0);
        prods = tagged.into_iter().map(|t| t.1).collect();
    }
    let mut g = Spec { init, prods };
    match shape {
        Shape::Free => {
            if rng.pct(25) {
                add_end(&mut g, rng);
            }
            if rng.pct(5) {
                g.init = *rng.pick(&[100, 77]); // a terminal or a foreign symbol as initial symbol
            }
            Some(g)
        }
        Shape::NoLeftRec | Shape::Overlapping => {
            if rng.pct(75) {
                add_end(&mut g, rng);
            }
            let f = Facts::of(&g);
            if f.left_recursive {
                // drop productions until it is not, giving up if a symbol would vanish
                prune(&mut g, |g| Facts::of(g).left_recursive, rng)?;
            }
            Some(g)
        }
        Shape::Ll1 => {
            add_end(&mut g, rng);
            if !Facts::of(&g).ll1() {
                if attempt < 3 && size > 0 {
                    return None;
                }
                separate(&mut g, rng);
                prune(&mut g, |g| !Facts::of(g).ll1(), rng)?;
            }
            let f = Facts::of(&g);
            if !f.init_productive || f.left_recursive {
                return None;
            }
            // interesting: more than one sentence
            if f.by.values().all(|p| p.len() == 1) && !rng.pct(5) {
                return None;
            }
            Some(g)
        }
    }
}
/// Grammars as people write them: rules over lists, options and groups, lowered to right-recursive productions.
struct Ebnf<'a> {
    rng: &'a mut Rng,
    prods: Vec<(S, Vec<S>)>,
    rules: usize,
    next: usize,
    ts: usize,
    sep: u32,
}
impl Ebnf<'_> {
    fn term(&mut self) -> S {
        100 + self.rng.us(self.ts) as S
    }
    fn seq(&mut self, rule: usize, depth: usize, max: usize, first_t: bool) -> Vec<S> {
        let n = self.rng.range(1, max);
        let mut o = vec![];
        let mut lead = true;
        for k in 0..n {
            if k == 0 && first_t || self.rng.pct(35) {
                o.push(self.term());
                lead = false;
            } else if self.rng.pct(30) {
                let j = if lead { rule + 1 + self.rng.us(self.rules) } else { self.rng.us(self.rules) };
                if j < self.rules {
                    o.push(1 + j as S);
                } else {
                    o.push(self.term());
                    lead = false;
                }
            } else if depth < 3 && self.next < 60 {
                let h = self.helper(rule, depth + 1);
                o.push(h);
            }
        }
        if o.is_empty() {
            o.push(self.term());
        }
        o
    }
    fn helper(&mut self, rule: usize, depth: usize) -> S {
        let ft = self.rng.pct(80);
        let kind = self.rng.us(5);
        let mut body = self.seq(rule, depth, 3, ft);
        self.next += 1;
        let a = self.next as S;
        let mut alts = vec![];
        match kind {
            0 | 1 => {
                // list, possibly with an option before the rest of the list
                if self.rng.pct(45) && depth < 3 && self.next < 60 {
                    let h = self.helper(rule, depth + 1);
                    body.push(h);
                }
                body.push(a);
                alts.push(body);
                alts.push(vec![EPS]);
            }
            2 => {
                alts.push(body);
                alts.push(vec![EPS]);
            }
            3 => {
                // separated list: a -> body r, r -> sep body r | nothing
                self.next += 1;
                let r = self.next as S;
                let mut again = vec![self.term()];
                again.extend(body.iter());
                again.push(r);
                body.push(r);
                alts.push(body);
                self.push(r, vec![again, vec![EPS]]);
            }
            _ => {
                alts.push(body);
                for _ in 0..self.rng.range(1, 2) {
                    let b = self.seq(rule, depth, 3, true);
                    alts.push(b);
                }
                if self.rng.pct(self.sep) {
                    alts.push(vec![EPS]);
                }
            }
        }
        self.push(a, alts);
        a
    }
    fn push(&mut self, a: S, mut alts: Vec<Vec<S>>) {
        if self.rng.pct(30) {
            self.rng.shuffle(&mut alts);
        }
        for o in alts {
            self.prods.push((a, o));
        }
    }
}
fn ebnf(rng: &mut Rng, size: usize) -> Spec {
    let rules = match size {
        0 => rng.range(1, 2),
        1 => rng.range(1, 3),
        2 => rng.range(2, 6),
        _ => rng.range(4, 10),
    };
    let ts = rng.range(2, 5 + 5 * rules);
    let sep = rng.range(10, 60) as u32;
    let mut e = Ebnf { rng, prods: vec![], rules, next: rules, ts, sep };
    for i in 0..rules {
        let mut alts = vec![];
        for _ in 0..e.rng.range(1, 2) {
            let ft = e.rng.pct(40);
            alts.push(e.seq(i, 0, 5, ft));
        }
        e.push(1 + i as S, alts);
    }
    let Ebnf { rng, mut prods, next, .. } = e;
    let mut names: Vec<S> = (1..=next as S).collect();
    rng.shuffle(&mut names);
    let re = |s: S| if s >= 1 && s <= next as S { names[s as usize - 1] } else { s };
    for (a, o) in prods.iter_mut() {
        *a = re(*a);
        o.iter_mut().for_each(|s| *s = re(*s));
    }
    Spec { init: names[0], prods }
}
/// New initial symbol whose productions end with the end marker.
fn add_end(g: &mut Spec, rng: &mut Rng) {
    let s: S = 90;
    let old = g.init;
    let mut ps = vec![(s, vec![old, END])];
    if rng.pct(20) {
        let nts: Vec<S> = Facts::of(g).nts.into_iter().collect();
        let t = 100 + rng.below(6) as S;
        ps.push((s, vec![t, *rng.pick(&nts), END]));
    }
    if rng.pct(10) {
        ps.push((s, vec![END]));
    }
    if rng.pct(50) {
        ps.append(&mut g.prods);
        g.prods = ps;
    } else {
        g.prods.append(&mut ps);
    }
    g.init = s;
}
/// Gives conflicting alternatives distinct leading terminals, some of the time.
fn separate(g: &mut Spec, rng: &mut Rng) {
    let f = Facts::of(g);
    let mut fresh: S = 200;
    for a in f.nts.iter() {
        if *a == g.init {
            continue;
        }
        let mut seen: BTreeSet<S> = BTreeSet::new();
        for p in g.prods.iter_mut().filter(|p| p.0 == *a) {
            let (fs, _) = f.first_of(&p.1);
            if p.1 != vec![EPS] && (fs.iter().any(|t| seen.contains(t)) || f.nullable.contains(a) && fs.iter().any(|t| f.follow[a].contains(t))) && rng.pct(80) {
                p.1.insert(0, fresh);
                fresh += 1;
            }
            seen.extend(fs);
        }
    }
}
fn prune(g: &mut Spec, bad: impl Fn(&Spec) -> bool, rng: &mut Rng) -> Option<()> {
    for _ in 0..60 {
        if !bad(g) {
            return Some(());
        }
        let i = rng.us(g.prods.len());
        let a = g.prods[i].0;
        if g.prods.iter().filter(|p| p.0 == a).count() > 1 {
            g.prods.remove(i);
        } else if rng.pct(20) {
            let t = 300 + rng.below(50) as S;
            g.prods[i].1 = if a == g.init { g.prods[i].1.clone() } else { vec![t] };
        }
    }
    None
}

/// Grammars and sentences whose size, not shape, is the point: long streams, deep trees, wide productions,
/// many alternatives. LL(1) if `plain`.
pub fn scaled(rng: &mut Rng, plain: bool) -> (Spec, Vec<S>) {
    let near = |rng: &mut Rng, v: &[usize]| {
        let x = *rng.pick(v);
        x + rng.us(5) - 2
    };
    let mut names: Vec<S> = (1..=80).collect();
    rng.shuffle(&mut names);
    let mut prods: Vec<(S, Vec<S>)> = vec![];
    let mut toks: Vec<S> = vec![];
    let init: S = 90;
    let t = |i: usize| 2000 + i as S;
    match rng.us(4) {
        0 => {
            // a long list of items: a deep tree
            let (l, i, o) = (names[0], names[1], names[2]);
            prods.push((init, vec![l, END]));
            prods.push((l, vec![i, l]));
            prods.push((l, vec![EPS]));
            prods.push((i, vec![t(0)]));
            prods.push((i, vec![t(1), o, t(2)]));
            prods.push((o, vec![t(3)]));
            prods.push((o, vec![EPS]));
            if !plain {
                prods.push((i, vec![t(1), t(4)]));
            }
            let n = near(rng, &[64, 128, 256, 512, 1024, 1024, 2048, 4096]);
            while toks.len() < n {
                match rng.us(if plain { 3 } else { 4 }) {
                    0 => toks.push(t(0)),
                    1 => toks.extend([t(1), t(2)]),
                    2 => toks.extend([t(1), t(3), t(2)]),
                    _ => toks.extend([t(1), t(4)]),
                }
            }
        }
        1 => {
            // doubling: a long stream under a shallow tree
            let k = rng.range(6, 12);
            let k = if rng.pct(35) { *rng.pick(&[13, 14, 15, 16, 16, 16]) } else { k };
            let tail = names[k + 1];
            let retried = names[k + 2];
            // more of the same after the round number of tokens
            let more = if rng.pct(50) { rng.range(1, 4) } else { 0 };
            let mut o = vec![names[0]];
            o.extend(vec![names[k]; more]);
            if !plain {
                o.push(retried);
            }
            o.extend([tail, END]);
            prods.push((init, o));
            if !plain {
                // the shorter one is tried first: a sibling retried far into the stream
                prods.push((retried, vec![t(5)]));
                prods.push((retried, vec![t(5), t(5)]));
            }
            if plain {
                prods.push((tail, vec![EPS]));
            } else {
                // decided only after that many tokens
                prods.push((tail, vec![t(2), tail]));
                prods.push((tail, vec![t(2)]));
            }
            prods.push((tail, vec![t(3), t(3)]));
            for j in 0..k {
                prods.push((names[j], vec![names[j + 1], names[j + 1]]));
            }
            prods.push((names[k], vec![t(0)]));
            prods.push((names[k], vec![t(1)]));
            if !plain && k < 12 {
                prods.push((names[k], vec![t(1)]));
            }
            for _ in 0..(1usize << k) + more {
                toks.push(t(rng.us(2)));
            }
            if !plain {
                toks.extend(vec![t(5); rng.range(1, 2)]);
            }
            match rng.us(if plain { 2 } else { 3 }) {
                0 if plain => {}
                2 => toks.extend(vec![t(2); rng.range(1, 4)]),
                _ => toks.extend([t(3), t(3)]),
            }
        }
        2 => {
            // one wide production, of optional symbols, required ones and plain terminals
            let n = near(rng, &[16, 32, 64, 64, 100, 128, 256]);
            let p_opt = *rng.pick(&[0u32, 30, 60, 100]);
            let mut o = vec![];
            let mut amb = 0;
            let mut fresh = 1;
            for k in 0..n {
                if rng.pct(p_opt) && (fresh as usize) < 75 {
                    let a = names[fresh as usize];
                    fresh += 1;
                    prods.push((a, vec![t(k)]));
                    if !plain && amb < 3 && rng.pct(10) {
                        // shorter or longer: what follows decides
                        amb += 1;
                        prods.push((a, vec![t(k), t(k + 400)]));
                        toks.push(t(k));
                        if rng.pct(50) {
                            toks.push(t(k + 400));
                        }
                    } else {
                        prods.push((a, vec![EPS]));
                        if rng.pct(50) {
                            toks.push(t(k));
                        }
                    }
                    o.push(a);
                } else {
                    let x = if rng.pct(50) { t(k) } else { t(900 + rng.us(3)) };
                    o.push(x);
                    toks.push(x);
                }
            }
            prods.push((init, vec![names[0], END]));
            prods.push((names[0], o));
        }
        _ => {
            // very many alternatives
            let n = near(rng, &[16, 32, 64, 128, 200, 256, 300]);
            let a = names[0];
            prods.push((init, vec![a, a, END]));
            for k in 0..n {
                let mut o = if plain { vec![t(k)] } else { vec![t(500), t(k)] };
                if rng.pct(10) {
                    o.push(a);
                }
                prods.push((a, o));
            }
            let by: Vec<Vec<S>> = prods.iter().filter(|p| p.0 == a).map(|p| p.1.clone()).collect();
            let mut left = 2;
            while left > 0 {
                let late = rng.pct(50);
                let k = if late { n - 1 - rng.us(n.min(3)) } else { rng.us(n) };
                let p = &by[k];
                left -= 1;
                for s in p {
                    if *s == a {
                        left += 1;
                    } else {
                        toks.push(*s);
                    }
                }
                if toks.len() > 40 {
                    // close it
                    if let Some(p) = by.iter().find(|p| p.last() != Some(&a)) {
                        for _ in 0..left {
                            toks.extend(p);
                        }
                    }
                    left = 0;
                }
            }
        }
    }
    toks.push(END);
    (Spec { init, prods }, toks)
}
