//! Judges what a run did against the properties.
use crate::exec::{self, show_log, world, Analysis, End, Known, Outcome, Val};
use crate::gram::{Facts, Spec, END, EPS, S, UNKNOWN};
use crate::model::{self, Ans, FSym, Node, PRes, PSym, Tok};
use crate::rt::{self, count, violation, C};
use crate::scen::{Ctor, Parse, Scenario, What};
use std::collections::{BTreeMap, BTreeSet};

/// The grammars C06 speaks of.
pub fn end_marked_ll1(g: &Spec, f: &Facts) -> bool {
    if !f.ll1() || !f.nts.contains(&g.init) || g.prods.iter().any(|p| p.1.contains(&g.init)) {
        return false;
    }
    let ends: BTreeSet<S> = f.by[&g.init].iter().map(|o| *o.last().unwrap()).collect();
    if ends.len() != 1 || f.nts.contains(ends.iter().next().unwrap()) || ends.contains(&EPS) {
        return false;
    }
    let e = ends.into_iter().next().unwrap();
    g.prods.iter().all(|p| p.1.iter().enumerate().all(|(i, s)| *s != e || p.0 == g.init && i + 1 == p.1.len()))
}

fn derivation(n: &Node, f: &Facts, toks: &[Tok], pos: &mut usize) -> Result<(), String> {
    if f.nts.contains(&n.s) {
        if n.lex.is_some() {
            return Err(format!("inner node {} carries a lexeme", n.s));
        }
        let out: Vec<S> = n.kids.iter().map(|k| k.s).collect();
        if !f.by[&n.s].contains(&out) {
            return Err(format!("{} -> {:?} is no declared production", n.s, out));
        }
        for k in &n.kids {
            derivation(k, f, toks, pos)?;
        }
        return Ok(());
    }
    if !n.kids.is_empty() {
        return Err(format!("terminal {} has children", n.s));
    }
    if n.s == EPS {
        return if n.lex.is_some() { Err("an empty-symbol leaf carries a lexeme".into()) } else { Ok(()) };
    }
    match toks.get(*pos) {
        Some(t) if t.0 == n.s && t.1 == n.lex => {
            *pos += 1;
            Ok(())
        }
        t => Err(format!("leaf {}'{:?} stands where token {} of the stream is {:?}", n.s, n.lex, pos, t)),
    }
}

/// A failure of `s` at `pos`, as C08 describes it.
fn failure(x: &FSym, s: S, pos: usize, k: &Known, toks: &[Tok]) -> Result<(), String> {
    let f = &k.facts;
    if x.s != s {
        return Err(format!("the report names symbol {} where {} failed", x.s, s));
    }
    if !f.nts.contains(&s) {
        if !x.prods.is_empty() {
            return Err(format!("terminal {} lists failed productions", s));
        }
        if s == EPS || toks.get(pos).map(|t| t.0) == Some(s) {
            return Err(format!("terminal {} is reported failed at token {}, where it matches", s, pos));
        }
        return Ok(());
    }
    let c: &[usize] = toks.get(pos).and_then(|t| k.table.get(&(s, t.0))).map_or(&[], |v| v);
    if x.prods.len() != c.len() {
        return Err(format!("{} failed productions are reported for {} at token {}, which has {} candidates", x.prods.len(), s, pos, c.len()));
    }
    for (p, i) in x.prods.iter().zip(c) {
        let out = &f.by[&s][*i];
        let mut got: Vec<S> = p.parsed.iter().map(|q| match q {
            PSym::Ok(n) => n.s,
            PSym::Fix(x) => x.s,
        }).collect();
        got.push(p.failed.s);
        got.extend(&p.pending);
        if got != *out {
            return Err(format!("the failed production of {} accounts for {:?}; the candidate is {:?}", s, got, out));
        }
        let mut at = pos;
        for q in &p.parsed {
            match q {
                PSym::Ok(n) => derivation(n, f, toks, &mut at).map_err(|e| format!("parsed symbol {} in the report: {}", n.s, e))?,
                PSym::Fix(_) => return Err("a repaired symbol is reported though nothing repaired it".into()),
            }
        }
        failure(&p.failed, p.failed.s, at, k, toks)?;
    }
    Ok(())
}

fn cut(s: String) -> String {
    if s.len() > 900 {
        let mut n = 900;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        format!("{}...", &s[..n])
    } else {
        s
    }
}
fn parse_of(sc: &Scenario, i: usize) -> Option<&Parse> {
    match &sc.ops[i].what {
        What::Parse(p) => Some(p),
        _ => None,
    }
}
fn kind(o: &Outcome) -> &'static str {
    match (&o.end, &o.val) {
        (End::Value, Val::Parse(PRes::Ok(_))) => "ok",
        (End::Value, Val::Parse(PRes::Err(_))) => "err",
        (End::Value, Val::Parse(PRes::Fix(_))) => "fix",
        (End::Value, _) => "value",
        (End::Panic(_), _) => "panic",
        (End::Injected(_), _) => "injected",
        _ => "none",
    }
}

fn probes() {
    let w = world();
    for (i, op) in w.sc.ops.iter().enumerate() {
        match &op.what {
            What::Parse(p) => {
                if let Some(m) = &w.model[i] {
                    count(C::r_backtracked, (m.backtracks > 0) as u64);
                    count(C::r_ambiguous_lookahead, (m.ambiguous > 0) as u64);
                }
                count(C::r_long_stream, (p.toks.len() > 100) as u64);
                if let Val::Parse(PRes::Ok(t)) = &w.out[i].val {
                    count(C::r_deep_tree, (t.depth() > 50) as u64);
                    count(C::r_epsilon_leaf, t.has_eps() as u64);
                }
                if let Val::Parse(PRes::Err(f)) = &w.out[i].val {
                    count(C::r_multi_failed, (f.prods.len() > 1) as u64);
                }
            }
            What::Analyze(g) | What::Supply(g, _) | What::Build(g) => {
                let spec = &w.sc.grammars[*g];
                if let Some(k) = &w.known[*g] {
                    let f = &k.facts;
                    count(C::r_left_recursive, f.left_recursive as u64);
                    count(C::r_big_grammar, (f.nts.len() > 10) as u64);
                    count(C::r_useless_symbol, f.nts.iter().any(|n| !f.min_height.contains_key(n)) as u64);
                    count(C::r_repeat_adjacent, spec.prods.iter().any(|p| p.1.windows(2).any(|v| v[0] == v[1] && f.nts.contains(&v[0]))) as u64);
                    count(C::r_nullable_chain, spec.prods.iter().any(|p| p.1.len() > 1 && p.1.iter().all(|s| f.nullable.contains(s))) as u64);
                }
            }
        }
    }
}

/// Called in the child once the run is over; does not return if a property is broken.
pub fn judge_here() {
    probes();
    let w = world();
    let sc = &w.sc;
    let n = sc.ops.len();
    let prop = sc.prop.as_str();
    for i in 0..n {
        let o = &w.out[i];
        if o.end == End::NotRun {
            continue;
        }
        let judged = match prop {
            "C01" | "C02" | "C03" | "C17" => analysis(prop, i, o),
            "C04" => build(i, o),
            "C05" | "C06" | "C07" | "C08" | "C09" | "C12" | "C13" => parse(prop, i, o),
            "C10" => polls(i, o),
            "C22" => supplied(i, o),
            "C18" => lexemes(i, o),
            "C16" => {
                if o.changed {
                    violation("use-dependent", &format!("op {}: repeated on the same instances, it ended with another result, or other solver questions: {}", i, cut(o.describe())));
                }
                true
            }
            _ => true,
        };
        count(if judged { C::ops_judged } else { C::vacuous_ops }, 1);
    }
    if prop == "C18" && rt::run().double_drop > 0 {
        violation("double-drop", &format!("{} lexemes were destroyed twice", rt::run().double_drop));
    }
    for (a, b) in &sc.pairs {
        let (x, y) = (&w.out[*a], &w.out[*b]);
        if [x, y].iter().any(|o| matches!(o.end, End::NotRun | End::NoSetup | End::Injected(_))) {
            continue;
        }
        match prop {
            "C10" => {
                if x.res_text() != y.res_text() || x.log != y.log {
                    let (t, u) = (x.res_text() + " / " + &x.log_text(), y.res_text() + " / " + &y.log_text());
                    violation("source-dependent", &format!("op {} and op {} deliver the same tokens before their first end, with different results\n  {}\n  {}", a, b, cut(t), cut(u)));
                }
            }
            "C11" => {
                let refuses = !parse_of(sc, *b).unwrap().script.iter().any(|s| *s != Ans::No);
                if kind(x) == "ok" {
                    if !y.log.is_empty() {
                        violation("needless-question", &format!("op {} parses without a solver; with one, op {} asked {} question(s): {}", a, b, y.log.len(), cut(y.log_text())));
                    }
                    if x.res_text() != y.res_text() {
                        violation("solver-changes-parse", &format!("without a solver op {} gives\n  {}\nwith one op {} gives\n  {}", a, cut(x.res_text()), b, cut(y.describe())));
                    }
                } else if kind(x) == "err" && refuses && x.res_text() != y.res_text() {
                    violation("refusal-changes-failure", &format!("without a solver op {} gives\n  {}\nwith one that only refuses op {} gives\n  {}", a, cut(x.res_text()), b, cut(y.describe())));
                }
            }
            "C16" => {
                let (p, q) = (x.res_text(), y.res_text());
                if p != q {
                    violation("instances-differ", &format!("op {} and op {} do the same on separately built instances:\n  {}\n  {}", a, b, cut(p), cut(q)));
                }
                let solver = |i: usize| parse_of(sc, i).map_or(false, |p| sc.ctor_of(&p.p) == Ctor::Solver);
                if solver(*a) && solver(*b) && x.log != y.log {
                    violation("questions-differ", &format!("op {} and op {} ask their solvers differently:\n  {}\n  {}", a, b, cut(x.log_text()), cut(y.log_text())));
                }
            }
            _ => {}
        }
    }
}

fn sets(m: &Option<BTreeSet<S>>) -> String {
    match m {
        None => "none".into(),
        Some(s) => format!("{:?}", s),
    }
}
fn analysis(prop: &str, i: usize, o: &Outcome) -> bool {
    let w = world();
    let g = match &w.sc.ops[i].what {
        What::Analyze(g) => *g,
        _ => return false,
    };
    let k = match &w.known[g] {
        Some(k) => k,
        None => return false,
    };
    let f = &k.facts;
    let a = match (&o.end, &o.val) {
        (End::Panic(m), _) => {
            // stage 1: the sets; stage 2: the table
            if prop == "C17" || (prop == "C03") == (o.stage >= 2) {
                violation("analysis-panics", &format!("op {}: analysing an accepted grammar panicked: {}", i, m));
            }
            return false;
        }
        (End::Value, Val::Analysis(a)) => a,
        _ => return false,
    };
    match prop {
        "C01" => {
            for (s, got) in &a.first {
                let want = f.first.get(s).cloned();
                if *got != want {
                    violation("first", &format!("op {}: FIRST({}) is {}, should be {}", i, s, sets(got), sets(&want)));
                }
            }
        }
        "C02" => {
            for (s, got) in &a.follow {
                let want = f.follow.get(s).cloned();
                if *got != want {
                    violation("follow", &format!("op {}: FOLLOW({}) is {}, should be {}", i, s, sets(got), sets(&want)));
                }
            }
        }
        "C03" => table(i, a, k),
        _ => {}
    }
    true
}
/// C22: whatever sets a table or parser was made from decide, and no others.
fn supplied(i: usize, o: &Outcome) -> bool {
    let w = world();
    let sc = &w.sc;
    let (g, c) = match &sc.ops[i].what {
        What::Supply(g, k) => (*g, Ctor::Supplied(*k)),
        What::Analyze(g) => (*g, Ctor::Grammar),
        What::Build(_) => return false,
        What::Parse(p) => {
            let m = match &w.model[i] {
                Some(m) => m,
                None => return false,
            };
            let g = sc.grammar_of(&p.p);
            if sc.ctor_of(&p.p) == Ctor::Solver && !m.plain_ok || w.known[g].as_ref().map_or(true, |k| k.facts.left_recursive) {
                return false;
            }
            let want = m.res.as_ref().unwrap();
            let same = match (&o.end, &o.val, want) {
                (End::Value, Val::Parse(PRes::Ok(a)), PRes::Ok(b)) => a == b,
                (End::Value, Val::Parse(PRes::Err(_)), PRes::Err(_)) => true,
                (End::NoSetup | End::Injected(_), ..) => return false,
                _ => false,
            };
            if !same {
                violation("not-by-its-sets", &format!("op {}: the result is\n  {}\nby the sets the parser was given it is\n  {}", i, cut(o.describe()), cut(model::show_res(want))));
            }
            return true;
        }
    };
    let k = match w.known_by(g, c) {
        Some(k) => k,
        None => return false,
    };
    let a = match (&o.end, &o.val) {
        (End::Panic(m), _) if matches!(c, Ctor::Supplied(_)) => violation("supplied-sets-panic", &format!("op {}: making a table and a parser from supplied sets panicked: {}", i, m)),
        (End::Value, Val::Analysis(a)) => a,
        _ => return false,
    };
    if matches!(c, Ctor::Supplied(_)) {
        let odd = match c {
            Ctor::Supplied(n) => exec::odd_sets(&sc.grammars[g], n),
            _ => Default::default(),
        };
        let sides = [("FIRST", &a.first, &k.facts.first), ("FOLLOW", &a.follow, &k.facts.follow), ("FIRST", &a.odd[0], &odd[0]), ("FOLLOW", &a.odd[1], &odd[1])];
        for (name, got, want) in sides {
            for (s, got) in got {
                let want = want.get(s).cloned();
                if *got != want {
                    violation("sets-altered", &format!("op {}: the supplied {}({}) is {}; read back it is {}", i, name, s, sets(&want), sets(got)));
                }
            }
        }
    }
    table(i, a, k);
    true
}
/// Every cell of a prediction table.
fn table(i: usize, a: &Analysis, k: &Known) {
    let mut want: BTreeMap<(S, S), Vec<(S, Vec<S>)>> = BTreeMap::new();
    for ((s, t), v) in &k.table {
        want.insert((*s, *t), v.iter().map(|i| (*s, k.facts.by[s][*i].clone())).collect());
    }
    let keys: BTreeSet<(S, S)> = want.keys().chain(a.table.keys()).copied().collect();
    for c in keys {
        if want.get(&c) != a.table.get(&c) {
            violation("table", &format!("op {}: candidates of {} on lookahead {} are {:?}, should be {:?}", i, c.0, c.1, a.table.get(&c), want.get(&c)));
        }
    }
}
fn build(i: usize, o: &Outcome) -> bool {
    let w = world();
    let g = match &w.sc.ops[i].what {
        What::Build(g) => *g,
        _ => return false,
    };
    let spec = &w.sc.grammars[g];
    match (&w.known[g], &o.end, &o.val) {
        (None, End::Panic(_), _) => {}
        (None, End::Value, _) => violation("malformed-accepted", &format!("op {}: a malformed grammar was accepted", i)),
        (Some(_), End::Panic(m), _) => violation("wellformed-rejected", &format!("op {}: a well-formed grammar was rejected: {}", i, m)),
        (Some(k), End::Value, Val::Built(b)) => {
            let f = &k.facts;
            let bad = |what: &str, got: String, want: String| -> ! { violation("misclassified", &format!("op {}: {} are {}, should be {}", i, what, got, want)) };
            if b.eps != EPS || b.init != spec.init {
                bad("empty and initial symbol", format!("{} {}", b.eps, b.init), format!("{} {}", EPS, spec.init));
            }
            let mut nts = b.nts.clone();
            nts.sort();
            let mut ts = b.terms.clone();
            ts.sort();
            let want: Vec<S> = f.nts.iter().copied().collect();
            if nts != want {
                bad("the non-terminals", format!("{:?}", nts), format!("{:?}", want));
            }
            let want: Vec<S> = f.terms.iter().copied().collect();
            if ts != want {
                bad("the terminals", format!("{:?}", ts), format!("{:?}", want));
            }
            if b.is_nt != f.nts {
                bad("the symbols answering is_non_terminal", format!("{:?}", b.is_nt), format!("{:?}", f.nts));
            }
            if b.is_t != f.terms {
                bad("the symbols answering is_terminal", format!("{:?}", b.is_t), format!("{:?}", f.terms));
            }
            for (s, got) in &b.prods {
                let want = f.by.get(s).map(|v| v.iter().map(|o| (*s, o.clone())).collect::<Vec<_>>());
                if *got != want {
                    bad(&format!("the productions of {}", s), format!("{:?}", got), format!("{:?}", want));
                }
            }
        }
        _ => return false,
    }
    true
}

fn parse(prop: &str, i: usize, o: &Outcome) -> bool {
    let w = world();
    let p = match parse_of(&w.sc, i) {
        Some(p) => p,
        None => return false,
    };
    let g = w.sc.grammar_of(&p.p);
    let spec = &w.sc.grammars[g];
    let k = match &w.known[g] {
        Some(k) => k,
        None => return false,
    };
    let f = &k.facts;
    if f.left_recursive && prop != "C06" || matches!(o.end, End::Injected(_)) {
        return false;
    }
    if prop == "C06" {
        if !end_marked_ll1(spec, f) || w.sc.ctor_of(&p.p) == Ctor::Solver {
            return false;
        }
        let syms: Vec<S> = p.toks.iter().map(|t| t.0).collect();
        let starts = if p.sentence {
            true
        } else {
            let end = f.by[&spec.init][0].last().copied().unwrap_or(END);
            // nothing after the first end marker matters, and without one there is no sentence
            match syms.iter().position(|s| *s == end) {
                None => false,
                Some(e) if e > 60 => return false,
                Some(e) => f.has_prefix(spec.init, &syms[..=e]),
            }
        };
        match (&o.end, &o.val) {
            (End::Value, Val::Parse(PRes::Ok(t))) => {
                if !starts {
                    violation("accepts-non-sentence", &format!("op {}: the stream starts with no sentence, yet parses into {}", i, cut(model::show_node(t))));
                }
                let mut pos = 0;
                if t.s != spec.init {
                    violation("wrong-tree", &format!("op {}: the root is {}", i, t.s));
                }
                if let Err(e) = derivation(t, f, &p.toks, &mut pos) {
                    violation("wrong-tree", &format!("op {}: not the derivation of the sentence: {}", i, e));
                }
            }
            (End::Value, Val::Parse(PRes::Err(_))) if !starts => {}
            (End::Panic(m), _) if !starts => violation("no-failure-report", &format!("op {}: a stream that starts with no sentence panics the parser: {}", i, m)),
            _ => {
                if starts || o.end != End::NoSetup {
                    violation("rejects-sentence", &format!("op {}: the stream starts with a sentence; the parse {}", i, cut(o.describe())));
                }
                return false;
            }
        }
        return true;
    }
    let m = match &w.model[i] {
        Some(m) => m,
        None => return false,
    };
    match prop {
        "C05" => {
            if let Val::Parse(PRes::Ok(t)) = &o.val {
                if t.s != spec.init {
                    violation("unfaithful", &format!("op {}: the root is {}, the initial symbol {}", i, t.s, spec.init));
                }
                let mut pos = 0;
                if let Err(e) = derivation(t, f, &p.toks, &mut pos) {
                    violation("unfaithful", &format!("op {}: {}", i, e));
                }
                return true;
            }
            false
        }
        "C07" => {
            let want = m.res.as_ref().unwrap();
            let same = match (&o.end, &o.val, want) {
                (End::Value, Val::Parse(PRes::Ok(a)), PRes::Ok(b)) => a == b,
                (End::Value, Val::Parse(PRes::Err(_)), PRes::Err(_)) => true,
                (End::NoSetup, _, _) => return false,
                _ => false,
            };
            if !same {
                violation("order", &format!("op {}: the result is\n  {}\nthe first success in order is\n  {}", i, cut(o.describe()), cut(model::show_res(want))));
            }
            true
        }
        "C08" => {
            if let Val::Parse(PRes::Err(x)) = &o.val {
                if let Err(e) = failure(x, spec.init, 0, k, &p.toks) {
                    violation("report", &format!("op {}: {}\n  in {}", i, e, cut(o.res_text())));
                }
                if let Some(PRes::Err(y)) = &m.res {
                    if x != y {
                        violation("report", &format!("op {}: not the last combination attempted:\n  {}\nshould be\n  {}", i, cut(o.res_text()), cut(model::show_res(&PRes::Err(y.clone())))));
                    }
                }
                return true;
            }
            false
        }
        "C09" => {
            if let End::Panic(e) = &o.end {
                violation("parse-panics", &format!("op {}: the parse panicked: {}", i, e));
            }
            // about 1.1 KB per level as the library stands
            if o.end == End::Value && o.stack > (512 << 10) + (16 << 10) * (m.nesting + 1) {
                violation("stack", &format!("op {}: the parse used {} bytes of stack on symbols nested {} deep", i, o.stack, m.nesting));
            }
            o.end == End::Value
        }
        "C12" => {
            if w.sc.ctor_of(&p.p) != Ctor::Solver || m.plain_ok || o.end == End::NoSetup {
                return false;
            }
            if !o.tokens_seen_ok {
                violation("question-tokens", &format!("op {}: a solver question did not carry the delivered tokens", i));
            }
            if o.log != m.log {
                let want = show_log(&m.log);
                violation("questions", &format!("op {}: the solver was asked\n  {}\nshould be\n  {}", i, cut(o.log_text()), cut(want)));
            }
            true
        }
        "C13" => {
            if w.sc.ctor_of(&p.p) != Ctor::Solver || m.plain_ok || o.end == End::NoSetup {
                return false;
            }
            let first = match p.script.iter().position(|a| matches!(a, Ans::Fix(..))) {
                Some(q) if q < m.log.len() => q,
                _ => return false,
            };
            if o.log.len() <= first || o.log[..=first] != m.log[..=first] {
                return false; // asked other questions than it should: C12's business
            }
            let want = model::show_res(m.res.as_ref().unwrap());
            if o.res_text() != want {
                violation("repair", &format!("op {}: the result is\n  {}\nshould be\n  {}", i, cut(o.describe()), cut(want)));
            }
            if o.log != m.log {
                let l = show_log(&m.log);
                violation("resumption", &format!("op {}: after the repair the solver was asked\n  {}\nshould be\n  {}", i, cut(o.log_text()), cut(l)));
            }
            true
        }
        _ => false,
    }
}
fn polls(i: usize, o: &Outcome) -> bool {
    let w = world();
    let p = match parse_of(&w.sc, i) {
        Some(p) => p,
        None => return false,
    };
    if !matches!(o.end, End::Value | End::Panic(_)) {
        return false;
    }
    if o.polls_after_end > 0 {
        violation("polled-after-end", &format!("op {}: the source was polled {} time(s) after it reported its end", i, o.polls_after_end));
    }
    if o.polls != p.toks.len() as u32 + 1 {
        violation("not-drained", &format!("op {}: the source of {} tokens was polled {} times", i, p.toks.len(), o.polls));
    }
    true
}
fn lexemes(i: usize, o: &Outcome) -> bool {
    if o.end == End::NoSetup {
        return false;
    }
    if o.dead_lexeme {
        violation("dead-lexeme", &format!("op {}: a destroyed lexeme is shown", i));
    }
    if o.live_after > 0 {
        violation("leak", &format!("op {}: {} lexeme(s) still alive after the parse ended ({}) and its result was dropped", i, o.live_after, kind(o)));
    }
    if o.live_after < 0 {
        violation("double-drop", &format!("op {}: more lexemes destroyed than made", i));
    }
    true
}
pub fn unknown_is_unused(g: &Spec) -> bool {
    g.prods.iter().all(|p| p.0 != UNKNOWN && !p.1.contains(&UNKNOWN))
}
