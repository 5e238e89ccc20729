//! Executes a scenario against the real library (in a forked child) and records what happened.
use crate::gram::{self, Facts, Spec, EPS, S, UNKNOWN};
use crate::model::{self, Ans, Ask, FProd, FSym, Node, PRes, PSym, Part, XSym};
use crate::rt::{self, cb, count, harness, Ended, OpCtx, Racy, C};
use crate::scen::{Ctor, PRef, Parse, Scenario, What};
use artlr_syntax::ast::abstract_syntax_node::AbstractSyntaxNode;
use artlr_syntax::grammar::context_free_grammar::ContextFreeGrammar;
use artlr_syntax::grammar::context_free_grammar_production::ContextFreeGrammarProduction;
use artlr_syntax::grammar::first_follow_symbols::FirstFollowSymbols;
use artlr_syntax::parser::failed_production::FailedProduction;
use artlr_syntax::parser::failed_symbol::FailedSymbol;
use artlr_syntax::parser::fix_gap::FixGap;
use artlr_syntax::parser::fix_result::FixResult;
use artlr_syntax::parser::fixed_production::FixedProduction;
use artlr_syntax::parser::fixed_production_part::FixedProductionPart;
use artlr_syntax::parser::fixed_symbol::FixedSymbol;
use artlr_syntax::parser::parse_result::ParseResult;
use artlr_syntax::parser::production_parsed_symbol::ProductionParsedSymbol;
use artlr_syntax::parser::recursive_descent_parser::RecursiveDescentParser;
use artlr_syntax::parser::recursive_descent_parser_transitions::RecursiveDescentParserTransitions;
use artlr_syntax::parser::syntax_error_solver::SyntaxErrorSolver;
use artlr_syntax::token::token::Token;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

// ---------------------------------------------------------------- instrumented caller types
pub struct Sym(pub S);
impl Clone for Sym {
    fn clone(&self) -> Self {
        cb(rt::K_CLONE);
        Sym(self.0)
    }
}
impl PartialEq for Sym {
    fn eq(&self, o: &Self) -> bool {
        cb(rt::K_EQ);
        self.0 == o.0
    }
}
impl Eq for Sym {}
/// Says nothing about which symbol it is: only equality may be relied on.
impl std::fmt::Debug for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Sym")
    }
}
impl Hash for Sym {
    fn hash<H: Hasher>(&self, h: &mut H) {
        cb(rt::K_HASH);
        match rt::run().hash_mode {
            0 => h.write_u16(self.0),
            1 => h.write_u16(7),
            2 => h.write_u16(self.0 % 2),
            _ => {} // nothing: every symbol hashes alike
        }
    }
}
pub struct Lex {
    pub id: u32,
    op: u32,
    magic: AtomicU32,
}
impl std::fmt::Debug for Lex {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Lex")
    }
}
const ALIVE: u32 = 0xA11FE;
impl Lex {
    fn new(id: u32, op: u32) -> Lex {
        rt::run().live[op as usize] += 1;
        Lex { id, op, magic: AtomicU32::new(ALIVE) }
    }
}
impl Clone for Lex {
    fn clone(&self) -> Self {
        cb(rt::K_LEX);
        Lex::new(self.id, self.op)
    }
}
impl Drop for Lex {
    fn drop(&mut self) {
        let r = rt::run();
        if self.magic.swap(0xDEAD, Relaxed) != ALIVE {
            r.double_drop += 1;
        } else {
            r.live[self.op as usize] -= 1;
        }
    }
}
pub type Tk = Token<Lex, Sym>;
pub type Gr = ContextFreeGrammar<Sym>;
pub type Parser = RecursiveDescentParser<'static, Lex, Sym, Solver>;

// ---------------------------------------------------------------- outcomes
#[derive(Clone, Debug, PartialEq)]
pub enum End {
    NotRun,
    Value,
    Injected(u32),
    Panic(String),
    NoSetup,
}
#[derive(Clone, Debug, Default)]
pub struct Analysis {
    pub first: BTreeMap<S, Option<BTreeSet<S>>>,
    pub follow: BTreeMap<S, Option<BTreeSet<S>>>,
    pub table: BTreeMap<(S, S), Vec<(S, Vec<S>)>>,
    /// What was read back of the arbitrary sets that go with supplied ones.
    pub odd: [BTreeMap<S, Option<BTreeSet<S>>>; 2],
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Built {
    pub eps: S,
    pub init: S,
    pub nts: Vec<S>,
    pub terms: Vec<S>,
    pub prods: BTreeMap<S, Option<Vec<(S, Vec<S>)>>>,
    pub is_nt: BTreeSet<S>,
    pub is_t: BTreeSet<S>,
}
#[derive(Clone, Debug)]
pub enum Val {
    None,
    Analysis(Analysis),
    Built(Built),
    Parse(PRes),
}
pub struct Outcome {
    pub end: End,
    pub val: Val,
    pub log: Vec<Ask>,
    pub tokens_seen_ok: bool,
    pub polls: u32,
    pub polls_after_end: u32,
    pub late_polls: u32,
    pub steps: u64,
    pub kinds: [u32; rt::NKIND],
    /// bytes of stack in use at the deepest
    pub stack: u64,
    pub live_after: i64,
    pub fired: bool,
    /// repeated, it gave another result or asked other questions
    pub changed: bool,
    pub dead_lexeme: bool,
    /// of an analysis: 1 computing the sets, 2 building the table and parser, 3 over
    pub stage: u32,
}
impl Outcome {
    fn none() -> Self {
        Outcome {
            end: End::NotRun,
            val: Val::None,
            log: vec![],
            tokens_seen_ok: true,
            polls: 0,
            polls_after_end: 0,
            late_polls: 0,
            steps: 0,
            kinds: [0; rt::NKIND],
            stack: 0,
            live_after: 0,
            fired: false,
            changed: false,
            dead_lexeme: false,
            stage: 0,
        }
    }
    pub fn res_text(&self) -> String {
        match (&self.end, &self.val) {
            (End::NotRun, _) => "not run".into(),
            (End::NoSetup, _) => "its grammar or parser could not be built".into(),
            (End::Injected(o), _) => format!("unwound with the injected panic of op {}", o),
            (End::Panic(_), _) => "panicked".into(),
            (_, Val::Parse(r)) => model::show_res(r),
            (_, Val::Analysis(a)) => format!("first {:?} follow {:?} table {:?}", a.first, a.follow, a.table),
            (_, Val::Built(b)) => {
                let mut b = b.clone();
                b.nts.sort();
                b.terms.sort();
                format!("{:?}", b)
            }
            _ => "?".into(),
        }
    }
    pub fn describe(&self) -> String {
        match &self.end {
            End::Panic(m) => format!("panicked: {}", m),
            _ => self.res_text(),
        }
    }
    pub fn log_text(&self) -> String {
        show_log(&self.log)
    }
}

/// A question log as text, as far as a person would read it.
pub fn show_log(log: &[Ask]) -> String {
    let mut t = String::new();
    for a in log {
        if t.len() > 100_000 {
            t.push_str(" | ...");
            break;
        }
        if !t.is_empty() {
            t.push_str(" | ");
        }
        t.push_str(&model::show_ask(a));
    }
    t
}

// ---------------------------------------------------------------- the world of a run
pub struct Known {
    pub facts: Facts,
    pub table: BTreeMap<(S, S), Vec<usize>>,
}
pub struct World {
    pub sc: Scenario,
    pub known: Vec<Option<Known>>, // per valid grammar
    pub supplied: BTreeMap<(usize, u32), Known>,
    pub model: Vec<Option<model::Out>>,
    grammars: Vec<Option<&'static Gr>>,
    parsers: Vec<Option<&'static Parser>>,
    pub boot_panic: Option<(usize, String)>,
    pub out: Vec<Outcome>,
    in_parse: i32,
}
static WORLD: Racy<Option<World>> = Racy::new(None);
pub fn world() -> &'static mut World {
    WORLD.get().as_mut().expect("no world")
}

impl World {
    pub fn known_by(&self, g: usize, c: Ctor) -> Option<&Known> {
        match c {
            Ctor::Supplied(k) => self.supplied.get(&(g, k)),
            _ => self.known[g].as_ref(),
        }
    }
}

/// The most visits of the model a parse of the workload may take.
pub fn model_cap(ntoks: usize) -> u64 {
    30_000 + 40 * ntoks as u64
}

pub fn know(g: &Spec) -> Option<Known> {
    if !gram::valid(g) {
        return None;
    }
    let facts = Facts::of(g);
    let table = facts.table();
    Some(Known { facts, table })
}
/// What is true of the grammar if it is analysed by the sets this constructor goes by.
pub fn know_by(g: &Spec, c: Ctor) -> Option<Known> {
    match c {
        Ctor::Supplied(k) if gram::valid(g) => {
            let mut facts = Facts::of(g);
            facts.supplied(k);
            let table = facts.table();
            Some(Known { facts, table })
        }
        _ => know(g),
    }
}
pub fn script_of<'a>(sc: &Scenario, p: &'a Parse) -> Option<&'a [Ans]> {
    if sc.ctor_of(&p.p) == Ctor::Solver {
        Some(&p.script)
    } else {
        None
    }
}
/// The most work analysing a grammar may take: rounds x work of a round, all bounded by sizes.
fn analysis_budget(g: &Spec, mode: u32) -> u64 {
    let f = Facts::of(g);
    let size: u64 = g.prods.iter().map(|p| 1 + p.1.len() as u64).sum();
    let (n, t) = (f.nts.len() as u64 + 1, f.terms.len() as u64 + 1);
    let probe = if mode == 0 { 4 } else { 4 + n + t };
    // each round that is not the last adds at least one element to one of n sets of at most t+1
    let rounds = n * (t + 1) + 2;
    (rounds.min(400) * size * size.min(40) * (t + 2) * probe).clamp(200_000, 400_000_000)
}
pub fn parse_budget(visits: u64, ntoks: u64, nsyms: u64, mode: u32) -> u64 {
    // a lookup may cost a look at every symbol: colliding hashes force it, other data structures may do it
    let probe = if mode == 0 { 1 + nsyms / 4 } else { 1 + nsyms };
    // copying the stream at every step is slow, not endless
    (PARSE_FACTOR * (visits + ntoks + 4)) * probe + (2 * ntoks * visits).min(100_000_000) + 2000
}
pub const PARSE_FACTOR: u64 = 80;

fn ctx(op: u32, budget: u64, crash: Option<(u32, u64)>) -> OpCtx {
    assert!(crash.map_or(true, |c| c.1 < crate::gen::FRACTION), "crash position left open");
    OpCtx {
        op,
        budget,
        steps: Cell::new(0),
        kinds: [const { Cell::new(0) }; rt::NKIND],
        crash_mask: crash.map_or(0, |c| c.0),
        crash_left: Cell::new(crash.map_or(0, |c| c.1)),
        fired: Cell::new(false),
        sp0: Cell::new(0),
        stack: Cell::new(0),
        payload: Cell::new(std::ptr::null()),
    }
}

// ---------------------------------------------------------------- conversion
fn node(n: &AbstractSyntaxNode<Tk>, dead: &mut bool) -> Node {
    Node { s: n.token.t_type.0, lex: n.token.lex.as_ref().map(|l| lex(l, dead)), kids: n.child_nodes.iter().map(|k| node(k, dead)).collect() }
}
fn lex(l: &Lex, dead: &mut bool) -> u32 {
    if l.magic.load(Relaxed) != ALIVE {
        *dead = true;
    }
    l.id
}
fn fsym(f: &FailedSymbol<Lex, Sym>, d: &mut bool) -> FSym {
    FSym { s: f.symbol_to_derive.0, prods: f.failed_productions.iter().map(|p| fprod(p, d)).collect() }
}
fn fprod(p: &FailedProduction<Lex, Sym>, d: &mut bool) -> FProd {
    FProd {
        failed: fsym(&p.failed_symbol, d),
        parsed: p
            .parsed_symbols
            .iter()
            .map(|s| match s {
                ProductionParsedSymbol::Ok(n) => PSym::Ok(node(n, d)),
                ProductionParsedSymbol::Fix(x) => PSym::Fix(xsym(x, d)),
            })
            .collect(),
        pending: p.pending_symbols.iter().map(|s| s.0).collect(),
    }
}
fn xsym(x: &FixedSymbol<Lex, Sym>, d: &mut bool) -> XSym {
    XSym {
        s: x.symbol_to_derive.0,
        parts: x
            .fixed_production
            .fixed_parts
            .iter()
            .map(|p| match p {
                FixedProductionPart::Ok(n) => Part::Ok(node(n, d)),
                FixedProductionPart::Fixed(x) => Part::Fixed(xsym(x, d)),
                FixedProductionPart::Gap(g) => Part::Gap(g.skipped_tokens.iter().map(|l| lex(l, d)).collect(), g.skipped_symbols.iter().map(|s| s.0).collect()),
            })
            .collect(),
    }
}
fn real_node(n: &Node, op: u32) -> AbstractSyntaxNode<Tk> {
    AbstractSyntaxNode::new(n.kids.iter().map(|k| real_node(k, op)).collect(), Token::new(n.lex.map(|l| Lex::new(l, op)), Sym(n.s)))
}
fn real_parts(ps: &[Part], op: u32) -> FixedProduction<Lex, Sym> {
    FixedProduction::new(
        ps.iter()
            .map(|p| match p {
                Part::Ok(n) => FixedProductionPart::Ok(real_node(n, op)),
                Part::Fixed(x) => FixedProductionPart::Fixed(FixedSymbol::new(real_parts(&x.parts, op), Sym(x.s))),
                Part::Gap(a, b) => FixedProductionPart::Gap(FixGap {
                    skipped_tokens: a.iter().map(|l| Lex::new(*l, op)).collect(),
                    skipped_symbols: b.iter().map(|s| Sym(*s)).collect(),
                }),
            })
            .collect(),
    )
}

// ---------------------------------------------------------------- token source and solver
struct PCtx {
    op: u32,
    polls: Cell<u32>,
    after_end: Cell<u32>,
    late: Cell<u32>, // polls while the solver or anything after the drain runs
    calls: Cell<u32>,
    log: RefCell<Vec<Ask>>,
    tokens_ok: Cell<bool>,
    dead: Cell<bool>,
}
struct Source {
    p: *const Parse,
    c: *const PCtx,
    pos: usize,
    ended: bool,
}
impl Iterator for Source {
    type Item = Tk;
    fn next(&mut self) -> Option<Tk> {
        cb(rt::K_SRC);
        let (p, c) = unsafe { (&*self.p, &*self.c) };
        harness(|| {
            rt::dawdle();
            let n = c.polls.get();
            c.polls.set(n + 1);
            for (at, op) in &p.src.reent {
                if *at == n {
                    count(C::f_reentrant_from_source, 1);
                    exec_op(*op);
                }
            }
            if self.ended {
                c.after_end.set(c.after_end.get() + 1);
                let k = c.after_end.get() as usize - 1;
                return p.src.extra.get(k).map(|t| real_tok(t, c.op));
            }
            match p.toks.get(self.pos) {
                Some(t) => {
                    self.pos += 1;
                    Some(real_tok(t, c.op))
                }
                None => {
                    self.ended = true;
                    None
                }
            }
        })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let p = unsafe { &*self.p };
        let r = p.toks.len() - self.pos;
        match p.src.hint {
            0 => (r, Some(r)),
            1 => (0, None),
            2 => (0, Some(usize::MAX)),
            _ => (0, Some(r)),
        }
    }
}
fn real_tok(t: &model::Tok, op: u32) -> Tk {
    Token::new(t.1.map(|l| Lex::new(l, op)), Sym(t.0))
}
pub struct Solver;
impl Solver {
    fn ask(&self, multi: bool, tokens: &Vec<Tk>, pos: usize, prods: &[&FailedProduction<Lex, Sym>]) -> Option<FixResult<Lex, Sym>> {
        cb(rt::K_SOLVER);
        harness(|| {
            rt::dawdle();
            let c = rt::TLS.with(|t| unsafe { &*((*t.op.get()).payload.get() as *const PCtx) });
            let w = world();
            let p = match &w.sc.ops[c.op as usize].what {
                What::Parse(p) => p,
                _ => unreachable!(),
            };
            let mut dead = false;
            let same = tokens.len() == p.toks.len() && tokens.iter().zip(&p.toks).all(|(a, b)| a.t_type.0 == b.0 && a.lex.as_ref().map(|l| lex(l, &mut dead)) == b.1);
            if !same {
                c.tokens_ok.set(false);
            }
            let prods: Vec<FProd> = prods.iter().map(|p| fprod(p, &mut dead)).collect();
            if dead {
                c.dead.set(true);
            }
            let k = c.calls.get();
            c.calls.set(k + 1);
            c.log.borrow_mut().push(Ask { multi, pos, prods });
            count(C::r_solver_consulted, 1);
            count(if multi { C::r_solver_multi } else { C::r_solver_single }, 1);
            for (at, op) in &p.sreent {
                if *at == k {
                    count(C::f_reentrant_from_solver, 1);
                    exec_op(*op);
                }
            }
            match p.script.get(k as usize) {
                Some(Ans::Fix(end, parts)) => {
                    count(C::f_solver_repair, 1);
                    if *end > p.toks.len() {
                        count(C::f_solver_repair_past_end, 1);
                    }
                    if *end < pos {
                        count(C::f_solver_repair_backward, 1);
                    }
                    Some(FixResult { final_token_position: *end, production: real_parts(parts, c.op) })
                }
                Some(Ans::Panic) => {
                    count(C::f_panic_solver, 1);
                    std::panic::resume_unwind(Box::new(rt::Injected(c.op)));
                }
                _ => {
                    count(C::f_solver_refusal, 1);
                    None
                }
            }
        })
    }
}
impl SyntaxErrorSolver<Lex, Sym> for Solver {
    fn fix_failed_production(&self, tokens: &Vec<Tk>, pos: usize, p: &FailedProduction<Lex, Sym>) -> Option<FixResult<Lex, Sym>> {
        self.ask(false, tokens, pos, &[p])
    }
    fn fix_failed_productions(&self, tokens: &Vec<Tk>, pos: usize, ps: &Vec<FailedProduction<Lex, Sym>>) -> Option<FixResult<Lex, Sym>> {
        self.ask(true, tokens, pos, &ps.iter().collect::<Vec<_>>())
    }
}

// ---------------------------------------------------------------- operations
fn real_prods(g: &Spec) -> Vec<ContextFreeGrammarProduction<Sym>> {
    g.prods.iter().map(|(a, o)| ContextFreeGrammarProduction::new(Sym(*a), o.iter().map(|s| Sym(*s)).collect())).collect()
}
fn supplied(g: usize, k: u32) -> FirstFollowSymbols<Sym> {
    let f = &world().supplied[&(g, k)].facts;
    harness(|| count(C::r_supplied_sets, 1));
    FirstFollowSymbols::new(real_sets(&f.first), real_sets(&f.follow))
}
fn real_sets(m: &BTreeMap<S, BTreeSet<S>>) -> HashMap<Sym, HashSet<Sym>> {
    m.iter().map(|(a, s)| (Sym(*a), s.iter().map(|t| Sym(*t)).collect())).collect()
}
/// Sets of any symbols for any symbols, that no table could be made from.
pub fn odd_sets(g: &Spec, k: u32) -> [BTreeMap<S, BTreeSet<S>>; 2] {
    let all = symbols_of(g);
    let roll = |kind: u64, a: S, t: u64| crate::rng::mix(crate::rng::mix(k as u64 ^ kind << 40) ^ (a as u64) << 20 ^ t) % 100;
    [11, 12].map(|kind| {
        let keys = all.iter().filter(|a| roll(kind, **a, 1 << 18) < 60);
        keys.map(|a| (*a, all.iter().copied().filter(|t| roll(kind, *a, *t as u64) < [0, 20, 50][roll(kind, *a, 1 << 19) as usize % 3]).collect())).collect()
    })
}
fn build_parser(i: usize, c: Ctor) -> Parser {
    let g = world().grammars[i].unwrap();
    match c {
        Ctor::Supplied(k) => Parser::from_grammar_and_first_follow_symbols(g, &supplied(i, k)),
        Ctor::Grammar => Parser::from_grammar(g),
        Ctor::Sets => {
            let ff = FirstFollowSymbols::from(g);
            Parser::from_grammar_and_first_follow_symbols(g, &ff)
        }
        Ctor::Solver => Parser::from_grammar_and_solver(g, Solver),
    }
}
fn note_order(g: &Gr) {
    let s = rt::shm();
    for x in g.get_non_terminal_symbols() {
        s.order = crate::rng::mix(s.order ^ x.0 as u64 ^ 0x77);
    }
}
fn prods_of(g: &Gr, s: S) -> Option<Vec<(S, Vec<S>)>> {
    g.get_productions(&Sym(s)).map(|v| v.iter().map(|p| (p.input.0, p.output.iter().map(|s| s.0).collect())).collect())
}
pub fn symbols_of(g: &Spec) -> BTreeSet<S> {
    let mut v: BTreeSet<S> = g.prods.iter().flat_map(|p| p.1.iter().copied().chain([p.0])).collect();
    v.extend([EPS, UNKNOWN, g.init]);
    v
}
fn read_built(g: &Gr, spec: &Spec) -> Built {
    let all = symbols_of(spec);
    Built {
        eps: g.get_epsilon_symbol().0,
        init: g.get_initial_symbol().0,
        nts: g.get_non_terminal_symbols().iter().map(|s| s.0).collect(),
        terms: g.get_terminal_symbols().iter().map(|s| s.0).collect(),
        prods: all.iter().map(|s| (*s, prods_of(g, *s))).collect(),
        is_nt: all.iter().copied().filter(|s| g.is_non_terminal(&Sym(*s))).collect(),
        is_t: all.iter().copied().filter(|s| g.is_terminal(&Sym(*s))).collect(),
    }
}
fn finish(o: &mut Outcome, ctx: &OpCtx) {
    o.steps = ctx.steps.get();
    for (k, c) in ctx.kinds.iter().enumerate() {
        o.kinds[k] = c.get();
    }
    o.fired = ctx.fired.get();
    o.stack = ctx.stack.get() as u64;
    o.live_after = rt::run().live[ctx.op as usize];
}

fn stage(k: u32) {
    rt::shm().stage = k;
}
fn exec_once(i: usize) -> Outcome {
    let w = world();
    rt::shm().culprit = i as u32;
    let op = w.sc.ops[i].clone();
    count(C::ops_executed, 1);
    let mode = w.sc.hash_mode;
    let mut o = Outcome::none();
    match &op.what {
        What::Analyze(g) | What::Supply(g, _) => {
            let with = match &op.what {
                What::Supply(_, k) => Some(*k),
                _ => None,
            };
            count(C::analyses, 1);
            let cx = ctx(i as u32, analysis_budget(&w.sc.grammars[*g], mode), op.crash);
            match w.grammars[*g] {
                None => o.end = End::NoSetup,
                Some(gr) => {
                    let r = rt::call(&cx, || {
                        stage(1);
                        let ff = match with {
                            Some(k) => supplied(*g, k),
                            None => FirstFollowSymbols::from(gr),
                        };
                        stage(2);
                        let tr = RecursiveDescentParserTransitions::from(gr, &ff);
                        let p = Parser::from_grammar_and_first_follow_symbols(gr, &ff);
                        let odd = with.map(|k| {
                            let [first, follow] = harness(|| odd_sets(&world().sc.grammars[*g], k));
                            FirstFollowSymbols::new(real_sets(&first), real_sets(&follow))
                        });
                        (ff, tr, p, odd)
                    });
                    o.stage = rt::shm().stage;
                    match r {
                        Ended::Injected(x) => o.end = End::Injected(x),
                        Ended::Panic(m) => o.end = End::Panic(m),
                        Ended::Value((ff, tr, p, odd)) => {
                            drop(p);
                            note_order(gr);
                            let all = symbols_of(&w.sc.grammars[*g]);
                            let reader = ctx(i as u32, u64::MAX, None);
                            let r = rt::call(&reader, || {
                                stage(1);
                                let mut a = Analysis::default();
                                for s in &all {
                                    let x = Sym(*s);
                                    a.first.insert(*s, ff.get_first_symbols(&x).map(|h| h.iter().map(|t| t.0).collect()));
                                    a.follow.insert(*s, ff.get_follow_symbols(&x).map(|h| h.iter().map(|t| t.0).collect()));
                                    if let Some(odd) = &odd {
                                        a.odd[0].insert(*s, odd.get_first_symbols(&x).map(|h| h.iter().map(|t| t.0).collect()));
                                        a.odd[1].insert(*s, odd.get_follow_symbols(&x).map(|h| h.iter().map(|t| t.0).collect()));
                                    }
                                }
                                stage(2);
                                for s in &all {
                                    let x = Sym(*s);
                                    for t in &all {
                                        let y = Sym(*t);
                                        if let Some(ps) = tr.get_productions(&x, &y) {
                                            if !ps.is_empty() {
                                                a.table.insert((*s, *t), ps.iter().map(|p| (p.input.0, p.output.iter().map(|s| s.0).collect())).collect());
                                            }
                                        }
                                    }
                                }
                                a
                            });
                            o.stage = rt::shm().stage;
                            match r {
                                Ended::Value(a) => {
                                    o.end = End::Value;
                                    o.val = Val::Analysis(a);
                                }
                                Ended::Panic(m) => o.end = End::Panic(m),
                                Ended::Injected(x) => o.end = End::Injected(x),
                            }
                        }
                    }
                }
            }
            finish(&mut o, &cx);
        }
        What::Build(g) => {
            count(C::builds, 1);
            let spec = w.sc.grammars[*g].clone();
            let cx = ctx(i as u32, analysis_budget(&spec, mode), op.crash);
            let input = real_prods(&spec);
            match rt::call(&cx, || Gr::new(Sym(EPS), Sym(spec.init), input)) {
                Ended::Injected(x) => o.end = End::Injected(x),
                Ended::Panic(m) => {
                    count(C::builds_rejected, 1);
                    o.end = End::Panic(m)
                }
                Ended::Value(gr) => {
                    let reader = ctx(i as u32, u64::MAX, None);
                    match rt::call(&reader, || {
                        note_order(&gr);
                        read_built(&gr, &spec)
                    }) {
                        Ended::Value(b) => {
                            o.end = End::Value;
                            o.val = Val::Built(b);
                        }
                        Ended::Panic(m) => o.end = End::Panic(m),
                        Ended::Injected(x) => o.end = End::Injected(x),
                    }
                }
            }
            finish(&mut o, &cx);
        }
        What::Parse(p) => {
            let g = w.sc.grammar_of(&p.p);
            let visits = w.model[i].as_ref().map_or(model_cap(p.toks.len()), |m| m.visits);
            let mut budget = parse_budget(visits, p.toks.len() as u64, symbols_of(&w.sc.grammars[g]).len() as u64, mode);
            let analysis = analysis_budget(&w.sc.grammars[g], mode);
            // a parser may leave part of its own set-up to its first parse
            budget += if let PRef::Fresh(..) = p.p { analysis } else { analysis / 20 };
            let cx = ctx(i as u32, budget, op.crash);
            let pc = PCtx {
                op: i as u32,
                polls: Cell::new(0),
                after_end: Cell::new(0),
                late: Cell::new(0),
                calls: Cell::new(0),
                log: RefCell::new(vec![]),
                tokens_ok: Cell::new(true),
                dead: Cell::new(false),
            };
            cx.payload.set(&pc as *const PCtx as *const ());
            let src = Source { p: match &world().sc.ops[i].what { What::Parse(p) => p as *const Parse, _ => unreachable!() }, c: &pc, pos: 0, ended: false };
            let ready = match &p.p {
                PRef::Shared(s) => w.parsers[*s].is_some(),
                PRef::Fresh(g, _) => w.grammars[*g].is_some(),
            };
            if !ready {
                o.end = End::NoSetup;
            } else {
                w.in_parse += 1;
                if w.in_parse > 1 {
                    count(C::r_overlapped_calls, 1);
                }
                let damage = [C::f_source_cut, C::f_source_loss, C::f_source_dup, C::f_source_reorder, C::f_source_corrupt, C::f_source_unknown];
                for (k, d) in p.src.damage.iter().enumerate() {
                    count(damage[k], *d as u64);
                }
                if p.src.hint != 0 {
                    count(C::f_source_odd_hint, 1);
                }
                if !p.src.extra.is_empty() {
                    count(C::f_source_nonfused, 1);
                }
                let r = rt::call(&cx, || match &p.p {
                    PRef::Shared(s) => world().parsers[*s].unwrap().parse_from_tokens(src),
                    PRef::Fresh(g, c) => {
                        let parser = build_parser(*g, *c);
                        parser.parse_from_tokens(src)
                    }
                });
                world().in_parse -= 1;
                match r {
                    Ended::Injected(x) => o.end = End::Injected(x),
                    Ended::Panic(m) => {
                        count(C::parse_panic, 1);
                        o.end = End::Panic(m)
                    }
                    Ended::Value(r) => {
                        let mut d = false;
                        let v = match &r {
                            ParseResult::Ok(t) => PRes::Ok(node(&t.root, &mut d)),
                            ParseResult::Err(f) => PRes::Err(fsym(f, &mut d)),
                            ParseResult::Fix(x) => PRes::Fix(xsym(x, &mut d)),
                        };
                        count(
                            match v {
                                PRes::Ok(_) => C::parse_ok,
                                PRes::Err(_) => C::parse_err,
                                PRes::Fix(_) => C::parse_fix,
                            },
                            1,
                        );
                        if d {
                            pc.dead.set(true);
                        }
                        drop(r);
                        o.end = End::Value;
                        o.val = Val::Parse(v);
                    }
                }
            }
            o.log = pc.log.take();
            o.tokens_seen_ok = pc.tokens_ok.get();
            o.polls = pc.polls.get();
            o.polls_after_end = pc.after_end.get();
            o.late_polls = pc.late.get();
            o.dead_lexeme = pc.dead.get();
            finish(&mut o, &cx);
        }
    }
    o
}
pub fn exec_op(i: usize) {
    let once = || {
        if !world().sc.ops[i].own {
            return exec_once(i);
        }
        count(C::r_thread_per_call, 1);
        struct Moved(Option<Outcome>);
        unsafe impl Send for Moved {}
        let mut o = Moved(None);
        let at = &mut o;
        rt::on_new_thread(move || {
            let at = at;
            at.0 = Some(exec_once(i))
        });
        o.0.expect("outcome")
    };
    let mut o = once();
    let again = world().sc.ops[i].again;
    if world().sc.prop == "C21" {
        // judged by the memory in use in the end
        for _ in 0..again {
            drop(o);
            o = once();
        }
    } else if again > 0 {
        let first = o.res_text();
        for _ in 0..again {
            count(C::ops_again, 1);
            let x = once();
            let changed = x.log != o.log || x.res_text() != first;
            let same = !changed && x.end == o.end && x.polls == o.polls && x.polls_after_end == o.polls_after_end && x.tokens_seen_ok == o.tokens_seen_ok && x.dead_lexeme == o.dead_lexeme;
            o = x;
            o.changed = changed;
            if !same {
                // what the oracle makes of it decides
                break;
            }
        }
    }
    let rec = &mut rt::shm().op[i];
    rec.done = 1;
    rec.fired = o.fired as u32;
    rec.kinds = o.kinds;
    let h = |t: String| {
        let mut f = crate::rng::Fnv::new();
        f.bytes(t.as_bytes());
        f.0
    };
    rec.res = h(o.res_text());
    let mut f = crate::rng::Fnv::new();
    for a in &o.log {
        f.bytes(model::show_ask(a).as_bytes());
        f.bytes(b" | ");
    }
    rec.log = f.0;
    world().out[i] = o;
}

/// Culprit numbers of the setup phase.
pub const BOOT: u32 = 10_000;

/// Runs the scenario in this (forked) process; on return the outcomes are in `world().out`.
pub fn execute(shm: *mut rt::Shm, sc: &Scenario) {
    assert!(sc.ops.len() <= rt::MAXOPS);
    rt::init(
        shm,
        sc.hash_seed,
        sc.hash_mode,
        sc.tasks.len(),
        rt::SchedCfg { seed: sc.sched_seed, prob: sc.sched_prob, kindmask: sc.sched_kinds, gap: sc.sched_gap, explicit: sc.explicit.clone() },
    );
    let known: Vec<Option<Known>> = sc.grammars.iter().map(know).collect();
    let mut supplied: BTreeMap<(usize, u32), Known> = BTreeMap::new();
    let parsers = sc.parsers.iter().copied();
    let ops = sc.ops.iter().filter_map(|op| match &op.what {
        What::Supply(g, k) => Some((*g, Ctor::Supplied(*k))),
        What::Parse(Parse { p: PRef::Fresh(g, c), .. }) => Some((*g, *c)),
        _ => None,
    });
    for (g, c) in parsers.chain(ops) {
        if let Ctor::Supplied(k) = c {
            if let Some(x) = know_by(&sc.grammars[g], c) {
                supplied.entry((g, k)).or_insert(x);
            }
        }
    }
    let model: Vec<Option<model::Out>> = sc
        .ops
        .iter()
        .map(|op| match &op.what {
            What::Parse(p) => {
                let g = sc.grammar_of(&p.p);
                let k = match sc.ctor_of(&p.p) {
                    Ctor::Supplied(n) => supplied.get(&(g, n))?,
                    _ => known[g].as_ref()?,
                };
                model::parse(&k.facts, &k.table, sc.grammars[g].init, &p.toks, script_of(sc, p), model_cap(p.toks.len())).ok()
            }
            _ => None,
        })
        .collect();
    let n = sc.ops.len();
    *WORLD.get() = Some(World {
        sc: sc.clone(),
        known,
        supplied,
        model,
        grammars: vec![None; sc.grammars.len()],
        parsers: vec![None; sc.parsers.len()],
        boot_panic: None,
        out: (0..n).map(|_| Outcome::none()).collect(),
        in_parse: 0,
    });
    let boot = || {
        let w = world();
        for g in 0..w.sc.grammars.len() {
            // grammars only built by Build ops (and malformed ones) are not set up
            if w.known[g].is_none() {
                continue;
            }
            let spec = w.sc.grammars[g].clone();
            rt::shm().culprit = BOOT + g as u32;
            let cx = ctx(BOOT + g as u32, analysis_budget(&spec, w.sc.hash_mode), None);
            let input = real_prods(&spec);
            match rt::call(&cx, || Gr::new(Sym(EPS), Sym(spec.init), input)) {
                Ended::Value(gr) => {
                    // asking for the order is a use of the grammar, which a first use can differ from
                    if !w.sc.parsers.is_empty() {
                        note_order(&gr);
                    }
                    w.grammars[g] = Some(Box::leak(Box::new(gr)));
                }
                Ended::Panic(m) => w.boot_panic = Some((g, m)),
                Ended::Injected(_) => unreachable!(),
            }
        }
        for i in 0..w.sc.parsers.len() {
            let (g, c) = w.sc.parsers[i];
            rt::shm().culprit = BOOT + g as u32;
            let cx = ctx(BOOT + g as u32, analysis_budget(&w.sc.grammars[g], w.sc.hash_mode), None);
            if w.grammars[g].is_some() {
                match rt::call(&cx, || build_parser(g, c)) {
                    Ended::Value(p) => w.parsers[i] = Some(Box::leak(Box::new(p))),
                    Ended::Panic(m) => w.boot_panic = Some((g, m)),
                    Ended::Injected(_) => unreachable!(),
                }
            }
        }
    };
    let mut tasks: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for t in &sc.tasks {
        let t = t.clone();
        tasks.push(Box::new(move || {
            for op in t {
                exec_op(op);
            }
        }));
    }
    rt::run_tasks(boot, tasks);
    rt::shm().live = rt::LIVE.load(std::sync::atomic::Ordering::Relaxed);
}
